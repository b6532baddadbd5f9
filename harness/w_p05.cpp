// P05: objects saved to a simulated disk come back equal; storage that fails, writes short or ends early is always reported.
#include "world.h"
#include "MParT/TriangularMap.h"
#include "MParT/MapFactory.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include <streambuf>
#include <istream>
#include <ostream>
#include <cstring>
#include <algorithm>
using namespace world;
const char* workloadName = "p05"; bool workloadInitKokkos = true; void workloadSetup() {}
namespace {
bool bits(double a, double b) { return !memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)); }

// The disk: bytes accepted so far are the durable state.  A device may refuse, accept part of a write, throw, or only notice when flushed.
enum Fail { NONE, REFUSE, SHORT, THROW, LATE };
struct Disk : std::streambuf {
    std::vector<char> data; std::vector<char> cache; size_t cacheSize, limit = (size_t)-1; Fail mode = NONE; bool failed = false, thrown = false; sim::Rng r;
    Disk(sim::Rng rr, size_t cs) : cacheSize(cs), r(rr) {}
    size_t store(const char* p, size_t n) // what the device takes
    {
        size_t room = limit > data.size() ? limit - data.size() : 0;
        if(n <= room) { data.insert(data.end(), p, p + n); return n; }
        failed = true;
        if(mode == THROW) { thrown = true; throw std::ios_base::failure("simulated device error"); }
        size_t k = mode == SHORT || mode == LATE ? room : 0; data.insert(data.end(), p, p + k); return k;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        sim::NoFault nf;
        if(cacheSize == 0) return (std::streamsize)store(p, (size_t)n);
        if(failed) return 0;
        cache.insert(cache.end(), p, p + n);
        if(cache.size() >= cacheSize && mode != LATE) { size_t want = cache.size(), k = store(cache.data(), want); cache.clear(); if(k < want) return std::max<std::streamsize>(0, n - (std::streamsize)(want - k)); }
        return n;
    }
    int_type overflow(int_type ch) override { char c = traits_type::to_char_type(ch); return xsputn(&c, 1) == 1 ? ch : traits_type::eof(); }
    int sync() override { sim::NoFault nf; if(failed) return -1; if(!cache.empty()) { size_t want = cache.size(), k = 0; try { k = store(cache.data(), want); } catch(const std::exception&) {} cache.clear(); if(k < want) return -1; } return 0; }
};
struct Source : std::streambuf { // reads back what survived, in pieces; ends early or fails at byte `end`
    const char* p; size_t n, at = 0; int how; char buf[64]; sim::Rng r; bool hit = false; // how: 0 end of file, 1 throws, 2 short pieces that need asking again
    Source(const char* d, size_t len, int h, sim::Rng rr) : p(d), n(len), how(h), r(rr) {}
    int_type underflow() override
    {
        if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if(at >= n) { hit = true; if(how == 1) throw std::ios_base::failure("simulated read error"); return traits_type::eof(); }
        size_t k = std::min(n - at, (size_t)(1 + r.below(64))); memcpy(buf, p + at, k); at += k; setg(buf, buf, buf + k); return traits_type::to_int_type(buf[0]);
    }
};
typedef Kokkos::View<double**, Kokkos::LayoutLeft, HS> LView; typedef Kokkos::View<double**, Kokkos::LayoutRight, HS> RView;
// a matrix of its own, or a block of a larger one that keeps the larger one's stride
template<class V> V drawMatrix(sim::Rng& r)
{
    size_t m = r.below(5), n = r.below(5); bool block = r.chance(0.4); size_t a = block ? 1 + r.below(3) : 0, b = block ? 1 + r.below(3) : 0; V big("a matrix", m + a, n + b); for(size_t i = 0; i < m + a; ++i) for(size_t j = 0; j < n + b; ++j) big(i, j) = r.normal();
    if(!block) return big; size_t i0 = r.below(a + 1), j0 = r.below(b + 1); V v = Kokkos::subview(big, std::make_pair(i0, i0 + m), std::make_pair(j0, j0 + n)); return v;
}
template<class V> void check2(sim::Run& R, const char* when, const V& a, const V& b)
{
    if(a.extent(0) != b.extent(0) || a.extent(1) != b.extent(1)) R.fail("view", "%s: shape", when);
    for(size_t i = 0; i < a.extent(0); ++i) for(size_t j = 0; j < a.extent(1); ++j) if(!bits(a(i, j), b(i, j))) R.fail("view", "%s: entry %zu,%zu of a %zux%zu matrix with strides %zu,%zu is %.17g, saved %.17g", when, i, j, (size_t)a.extent(0), (size_t)a.extent(1), (size_t)a.stride_0(), (size_t)a.stride_1(), b(i, j), a(i, j));
    R.probe(a.span_is_contiguous() ? "matrix" : "matrix_block");
}
struct Item { int kind; Obj o; mpart::MapOptions mo; std::shared_ptr<mpart::FixedMultiIndexSet<HS>> fs; DV v1; Kokkos::View<unsigned int*, HS> vu; RView v2; LView v3; bool registered = true; std::string what; };
struct Loaded { std::shared_ptr<PFun> f; mpart::MapOptions mo; std::shared_ptr<mpart::FixedMultiIndexSet<HS>> fs; DV v1; Kokkos::View<unsigned int*, HS> vu; RView v2; LView v3;
    // the targets of a load start out as handles on data that somebody else holds too
    DV o1; Kokkos::View<unsigned int*, HS> ou; RView o2; LView o3; std::shared_ptr<mpart::FixedMultiIndexSet<HS>> os;
    const char* disturbed() const
    {
        for(size_t i = 0; i < o1.extent(0); ++i) if(o1(i) != 0.25 + i) return "vector";
        for(size_t i = 0; i < ou.extent(0); ++i) if(ou(i) != 77 + i) return "index vector";
        for(size_t i = 0; i < o2.extent(0); ++i) for(size_t j = 0; j < o2.extent(1); ++j) if(o2(i, j) != 0.5 + 10 * i + j) return "matrix";
        for(size_t i = 0; i < o3.extent(0); ++i) for(size_t j = 0; j < o3.extent(1); ++j) if(o3(i, j) != 0.5 + 10 * i + j) return "matrix";
        if(os) { if(os->Size() == 0) return "index set"; for(unsigned i = 0; i < os->Size(); ++i) { auto m = os->IndexToMulti(i); if(os->MultiToIndex(m) != (int)i) return "index set"; } }
        return nullptr;
    }
};

Obj serialObj(sim::Rng& r, int in, int out, int depth, const Cfg& c)
{
    if(out == 1 && (depth <= 0 || r.chance(0.4))) return component(r, in, c);
    if(depth <= 0 || r.chance(0.35)) return factoryTriangular(r, in, out, in <= 2 ? 1 + (int)r.below(2) : 1, randomOpts(r, c));
    std::vector<Obj> k; int left = out, at = in - out;
    while(left > 0) { int o = r.chance(0.7) ? 1 : 1 + (int)r.below(left); at += o; left -= o; k.push_back(serialObj(r, at, o, depth - 1, c)); if(k.back().n->nc && r.chance(0.4)) fillCoeffs(r, k.back()); }
    bool all = true; for(auto& x : k) all = all && x.n->coeffsSet();
    return triangularOf(k, all && r.chance(0.5));
}
Item make(sim::Rng& r)
{
    Item t; Cfg c; c.maxTerms = 5; c.maxDim = 3; c.pAdaptive = 0.3; c.pUnset = 0.15; c.pTol = 0.6; t.kind = r.chance(0.7) ? 0 : 1 + (int)r.below(6);
    if(t.kind == 0) {
        int in = 1 + (int)r.below(3), out = 1 + (int)r.below(in);
        if(r.chance(0.07)) { c.depth = 1; do t.o = r.chance(0.3) ? expansion(r, in, 1, c) : anyMap(r, c); while(t.o.n->kind == ref::COMPONENT || t.o.n->kind == ref::TRIANGULAR); t.registered = false; }
        else if(r.fork(63).chance(0.05)) { sim::Rng q = r.fork(64); t.o = wide(q, 8); }
        else t.o = serialObj(r, in, out, 2, c);
        if(r.chance(0.7)) fillCoeffs(r, t.o); else if(!t.o.kids.empty() && r.chance(0.5)) { Obj& k = t.o.kids[r.below(t.o.kids.size())]; fillCoeffs(r, k); }
        t.what = t.o.n->describe();
    } else if(t.kind == 1) { t.mo = realOpts(randomOpts(r, c)); t.mo.quadMaxSub = (int)r.below(9); t.mo.basisLB = -r.uniform() * 5; t.what = "MapOptions"; }
    else if(t.kind == 2) { int d = 1 + (int)r.below(4); auto terms = randomTerms(r, d, c); bool dense; t.fs = std::make_shared<mpart::FixedMultiIndexSet<HS>>(fixedSet(r, d, terms, dense)); t.what = "FixedMultiIndexSet"; }
    else if(t.kind == 3) { t.v1 = DV("a view", r.below(9)); for(size_t i = 0; i < t.v1.extent(0); ++i) t.v1(i) = r.chance(0.1) ? NAN : r.normal(); t.what = "vector"; }
    else if(t.kind == 4) { t.v2 = drawMatrix<RView>(r); t.what = "matrix"; }
    else if(t.kind == 6) { t.v3 = drawMatrix<LView>(r); t.what = "matrix by columns"; }
    else { t.vu = Kokkos::View<unsigned int*, HS>("indices", r.below(7)); for(size_t i = 0; i < t.vu.extent(0); ++i) t.vu(i) = (unsigned)r.next(); t.what = "index vector"; }
    return t;
}
void save(const Item& t, std::ostream& s)
{
    sim::LibScope ls;
    if(t.kind == 0) { t.o.f->Save(s); return; }
    cereal::BinaryOutputArchive ar(s);
    if(t.kind == 1) ar(t.mo); else if(t.kind == 2) ar(*t.fs); else if(t.kind == 3) ar(t.v1); else if(t.kind == 4) ar(t.v2); else if(t.kind == 6) ar(t.v3); else ar(t.vu);
}
void load(const Item& t, std::istream& s, Loaded& l)
{
    if(t.kind == 2) { auto proto = std::make_shared<mpart::FixedMultiIndexSet<HS>>(t.fs->Length(), 2); l.fs = std::make_shared<mpart::FixedMultiIndexSet<HS>>(*proto); l.os = proto; }
    else if(t.kind == 3) { l.v1 = l.o1 = DV("held", t.v1.extent(0)); for(size_t i = 0; i < l.o1.extent(0); ++i) l.o1(i) = 0.25 + i; }
    else if(t.kind == 6) { l.v3 = l.o3 = LView("held", t.v3.extent(0), t.v3.extent(1)); for(size_t i = 0; i < l.o3.extent(0); ++i) for(size_t j = 0; j < l.o3.extent(1); ++j) l.o3(i, j) = 0.5 + 10 * i + j; }
    else if(t.kind == 4) { l.v2 = l.o2 = RView("held", t.v2.extent(0), t.v2.extent(1)); for(size_t i = 0; i < l.o2.extent(0); ++i) for(size_t j = 0; j < l.o2.extent(1); ++j) l.o2(i, j) = 0.5 + 10 * i + j; }
    else if(t.kind == 5) { l.vu = l.ou = Kokkos::View<unsigned int*, HS>("held", t.vu.extent(0)); for(size_t i = 0; i < l.ou.extent(0); ++i) l.ou(i) = 77 + i; }
    sim::LibScope ls;
    if(t.kind == 0) { l.f = PFun::Load(s); return; }
    cereal::BinaryInputArchive ar(s);
    if(t.kind == 1) ar(l.mo); else if(t.kind == 2) ar(*l.fs); else if(t.kind == 3) ar(l.v1); else if(t.kind == 4) ar(l.v2); else if(t.kind == 6) ar(l.v3); else ar(l.vu);
}
struct Cmp {
    sim::Run& R; sim::Rng q; const char* when;
    void fn(const Obj& o, std::shared_ptr<PFun> l, bool deep)
    {
        const Node& n = *o.n; std::shared_ptr<const PFun> a = o.f, b = l;
        if(!l) R.fail("null", "%s: loading returned nothing for %s", when, n.describe().c_str());
        if(a->inputDim != b->inputDim || a->outputDim != b->outputDim || a->numCoeffs != b->numCoeffs) R.fail("dimensions", "%s: loaded object is %u->%u with %u coefficients, saved was %u->%u with %u; %s", when, b->inputDim, b->outputDim, b->numCoeffs, a->inputDim, a->outputDim, a->numCoeffs, n.describe().c_str());
        if(a->CheckCoefficients() != b->CheckCoefficients()) R.fail("coeffs-state", "%s: coefficients were %s when saved and are %s after loading; %s", when, a->CheckCoefficients() ? "set" : "unset", b->CheckCoefficients() ? "set" : "unset", n.describe().c_str());
        if(n.coeffsSet() && n.nc) { auto u = a->Coeffs(), v = b->Coeffs(); if(u.extent(0) != v.extent(0)) R.fail("coeffs-length", "%s: %zu coefficients loaded, %zu saved", when, v.extent(0), u.extent(0)); for(size_t i = 0; i < u.extent(0); ++i) if(!bits(u(i), v(i))) R.fail("coeffs-value", "%s: coefficient %zu is %.17g, saved %.17g; %s", when, i, v(i), u(i), n.describe().c_str()); }
        Obj p = o; p.f = l; p.m = std::dynamic_pointer_cast<CMap>(l);
        if((bool)o.m != (bool)p.m) R.fail("type", "%s: loaded object is %sa conditional map; %s", when, p.m ? "" : "not ", n.describe().c_str());
        std::vector<int> kinds; for(int k = 0; k < NKIND; ++k) if(supports(o, k) && n.ready() && n.coeffsSet()) kinds.push_back(k);
        for(int k : kinds) {
            if(!deep && !q.chance(0.3)) continue; if(!n.nc && (k == COEFFGRAD || k == LDCOEFFGRAD)) continue;
            int N = 1 + (int)q.below(3); Mat x = points(q, n, N), s = gaussian(q, n.out, N); Mode m; m.api = (int)q.below(2);
            Mat A = x, B = s; if(k == INVERSE) { Mat y = refOp(n, EVAL, x, s); A = Mat(n.in - n.out, N); for(int i = 0; i < A.r; ++i) for(int j = 0; j < N; ++j) A(i, j) = x(i, j); B = y; }
            std::string e1, e2; Mat r1, r2; bool par = q.chance(0.3);
            try { r1 = runOp(R, o, k, A, B, m); } catch(const std::exception& e) { e1 = "x"; }
            if(par) R.perturbed();
            try { r2 = runOp(R, p, k, A, B, m); } catch(const std::exception& e) { e2 = e.what(); e2 += " "; }
            R.sequential();
            if(e1.empty() != e2.empty()) R.fail("threw", "%s: %s on the %s object threw %s; %s", when, kindName[k], e1.empty() ? "loaded" : "saved", e2.c_str(), n.describe().c_str());
            if(r1.r != r2.r || r1.c != r2.c) R.fail("shape", "%s: %s gives another shape; %s", when, kindName[k], n.describe().c_str());
            for(size_t i = 0; i < r1.a.size(); ++i) if(!bits(r1.a[i], r2.a[i])) R.fail("value", "%s: %s gives %.17g, the saved object gives %.17g; %s", when, kindName[k], r2.a[i], r1.a[i], n.describe().c_str());
            R.checked(); R.probe(kindName[k]); hashResult(r2);
        }
        if(auto t = std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(l)) for(size_t i = 0; i < o.kids.size(); ++i) fn(o.kids[i], t->GetComponent((unsigned)i), false);
    }
    void operator()(const Item& t, Loaded& l, bool deep = true)
    {
        if(t.kind == 0) fn(t.o, l.f, deep);
        else if(t.kind == 1) { const auto &a = t.mo, &b = l.mo; if(!(a.basisType == b.basisType && bits(a.basisLB, b.basisLB) && bits(a.basisUB, b.basisUB) && a.posFuncType == b.posFuncType && a.quadType == b.quadType && bits(a.quadAbsTol, b.quadAbsTol) && bits(a.quadRelTol, b.quadRelTol) && a.quadMaxSub == b.quadMaxSub && a.quadMinSub == b.quadMinSub && a.quadPts == b.quadPts && a.contDeriv == b.contDeriv && a.basisNorm == b.basisNorm && bits(a.nugget, b.nugget))) R.fail("options", "%s: loaded options differ:\n%s---\n%s", when, mpart::MapOptions(t.mo).String().c_str(), l.mo.String().c_str()); R.probe("MapOptions"); }
        else if(t.kind == 2) {
            auto &a = *t.fs, &b = *l.fs; if(a.Size() != b.Size() || a.Length() != b.Length()) R.fail("set-size", "%s: set has %u terms of length %u, saved %u of %u", when, b.Size(), b.Length(), a.Size(), a.Length());
            for(unsigned i = 0; i < a.Size(); ++i) { auto u = a.IndexToMulti(i), v = b.IndexToMulti(i); if(u != v) R.fail("set-term", "%s: term %u differs", when, i); if(b.MultiToIndex(u) != (int)i) R.fail("set-index", "%s: term %u is found at %d", when, i, b.MultiToIndex(u)); }
            auto u = a.MaxDegrees(), v = b.MaxDegrees(); for(size_t i = 0; i < u.extent(0); ++i) if(v.extent(0) != u.extent(0) || u(i) != v(i)) R.fail("set-degrees", "%s: maximum degrees differ", when); R.probe("FixedMultiIndexSet");
        } else if(t.kind == 3) { if(t.v1.extent(0) != l.v1.extent(0)) R.fail("view", "%s: length", when); for(size_t i = 0; i < t.v1.extent(0); ++i) if(!bits(t.v1(i), l.v1(i))) R.fail("view", "%s: entry %zu", when, i); if(t.v1.label() != l.v1.label()) R.fail("view", "%s: label", when); R.probe("vector"); }
        else if(t.kind == 4) check2(R, when, t.v2, l.v2);
        else if(t.kind == 6) check2(R, when, t.v3, l.v3);
        else { if(t.vu.extent(0) != l.vu.extent(0)) R.fail("view", "%s: length", when); for(size_t i = 0; i < t.vu.extent(0); ++i) if(t.vu(i) != l.vu(i)) R.fail("view", "%s: entry %zu", when, i); R.probe("index_vector"); }
        R.checked();
    }
};
}
void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(5); R.sequential();
    int n = 1 + (int)r.below(3); std::vector<Item> items;
    for(int i = 0; i < n; ++i) { Item t = make(r); R.op("item %d: %s%s", i, t.what.c_str(), t.kind == 0 ? (t.o.n->coeffsSet() ? " (set)" : " (unset)") : ""); for(char ch : t.what) R.config(ch); items.push_back(t); }
    std::vector<Item> reg;
    for(auto& t : items) if(t.registered) reg.push_back(t); else { // cannot be saved: must say so
        Disk d(r.fork(7), 0); std::ostream s(&d); bool threw = false; try { save(t, s); } catch(const std::exception&) { threw = true; }
        if(!threw) { // then what was written has to come back
            Source src(d.data.data(), d.data.size(), 0, r.fork(8)); std::istream is(&src); Loaded l; try { load(t, is, l); } catch(const std::exception& e) { R.fail("unsavable", "Save accepted an object that Load cannot restore (%s); %s", e.what(), t.what.c_str()); }
            Cmp cmp{R, r.fork(9), "accepted object"}; cmp(t, l);
        }
        R.checked(); R.probe("unregistered_type");
    }
    if(reg.empty()) return;
    // a fault-free save
    Disk good(r.fork(11), r.chance(0.5) ? 0 : 1 + r.below(400)); std::ostream gs(&good); std::vector<size_t> ends;
    for(auto& t : reg) { try { save(t, gs); } catch(const std::exception& e) { R.fail("save-failed", "saving to healthy storage threw %s; %s", e.what(), t.what.c_str()); } gs.flush(); if(!gs) R.fail("save-failed", "stream bad after a healthy save"); ends.push_back(good.data.size()); }
    size_t total = good.data.size(); R.op("saved %zu objects in %zu bytes", reg.size(), total); sim::hashMix(total);
    auto loadAll = [&](const std::vector<char>& data, const char* when, std::vector<Loaded>* keepThem) {
        Source src(data.data(), data.size(), 2, r.fork(12)); std::istream is(&src);
        for(size_t i = 0; i < reg.size(); ++i) {
            Loaded l; try { load(reg[i], is, l); } catch(const std::exception& e) { R.fail("load-failed", "%s: loading object %zu of %zu threw %s; %s", when, i + 1, reg.size(), e.what(), reg[i].what.c_str()); }
            if(auto w = l.disturbed()) R.fail("disturbed", "%s: loading a %s changed the one in memory that the target's previous value belongs to", when, w);
            size_t used = src.at - (size_t)(src.in_avail()); if(used != ends[i] && data.size() == total) R.fail("consumed", "%s: loading object %zu stopped at byte %zu of the stream, it ends at %zu; %s", when, i + 1, used, ends[i], reg[i].what.c_str());
            Cmp cmp{R, r.fork(200 + i), when}; cmp(reg[i], l, keepThem != nullptr); if(keepThem) keepThem->push_back(l);
        }
    };
    std::vector<Loaded> in; loadAll(good.data, "after saving and loading", &in); R.probe("round_trip");
    // saves to storage that fails
    int nf = 3 + (int)r.below(6);
    for(int k = 0; k < nf; ++k) {
        sim::Rng q = r.fork(300 + k); if(!R.keepFault()) continue;
        Disk d(q.fork(1), 0); d.mode = (Fail)(1 + q.below(4)); d.limit = q.below(total); if(d.mode == LATE) d.cacheSize = total + 1; else if(q.chance(0.4)) d.cacheSize = 1 + q.below(300); if(q.chance(0.2)) d.limit = ends[q.below(ends.size())] - 1;
        std::ostream s(&d); bool reported = false; size_t i = 0; static const char* nm[] = {"", "write_refused", "short_write", "write_throws", "late_write_error"};
        for(; i < reg.size() && !reported; ++i) { try { save(reg[i], s); } catch(const std::exception&) { reported = true; } if(!reported) { s.flush(); if(!s) reported = true; } }
        R.fault(nm[d.mode]); R.op("save with %s at byte %zu of %zu: %s", nm[d.mode], d.limit, total, reported ? "reported" : "silent");
        if(!reported) R.fail("lost-write", "storage took %zu of %zu bytes (%s) and saving reported nothing", d.data.size(), total, nm[d.mode]);
        R.checked();
        if(q.chance(0.3)) { // the device is replaced: saving again works
            Disk d2(q.fork(2), 0); std::ostream s2(&d2); for(auto& t : reg) { try { save(t, s2); } catch(const std::exception& e) { R.fail("retry", "saving again after a storage failure threw %s; %s", e.what(), t.what.c_str()); } }
            loadAll(d2.data, "after a failed save and a second one", nullptr); R.probe("retry_after_failure");
        }
    }
    // what a crash leaves: a prefix of the bytes
    bool every = total < 1500 && r.chance(0.15); int nt = every ? (int)total : 6 + (int)r.below(20);
    for(int k = 0; k < nt; ++k) {
        sim::Rng q = r.fork(4000 + k); if(!R.keepFault()) continue;
        size_t T = every ? (size_t)k : q.below(total); if(!every && q.chance(0.3)) { size_t e = ends[q.below(ends.size())]; T = e - 1 - q.below(std::min<size_t>(e, 12)); }
        int how = (int)q.below(2); std::vector<char> cut(good.data.begin(), good.data.begin() + T); Source src(cut.data(), T, how, q.fork(3)); std::istream is(&src);
        R.fault(how ? "read_error" : "truncated");
        for(size_t i = 0; i < reg.size(); ++i) {
            bool threw = false; Loaded l; try { load(reg[i], is, l); } catch(const std::exception&) { threw = true; } catch(...) { R.fail("odd-exception", "loading threw something that is not a std::exception"); }
            if(auto w = l.disturbed()) R.fail("disturbed", "loading a %s from %zu of %zu bytes (%s) changed the one in memory that the target's previous value belongs to", w, T, total, threw ? "reported" : "not reported");
            if(!threw && T < ends[i]) R.fail("truncated-accepted", "stream of %zu bytes ends at byte %zu (%s), object %zu needs %zu, and loading it reported nothing; %s", total, T, how ? "read error" : "end of file", i + 1, ends[i], reg[i].what.c_str());
            if(threw && T >= ends[i]) R.fail("whole-rejected", "object %zu is complete within the first %zu bytes (it ends at %zu) but loading threw; %s", i + 1, T, ends[i], reg[i].what.c_str());
            R.checked(); if(threw) break;
        }
    }
    // objects already in memory are as before, and the two generations are independent
    for(size_t i = 0; i < reg.size(); ++i) { Cmp cmp{R, r.fork(500 + i), "after all the failures"}; cmp(reg[i], in[i], false); }
    for(size_t i = 0; i < reg.size(); ++i) if(reg[i].kind == 0 && reg[i].o.n->nc) {
        sim::Rng q = r.fork(600 + i); const Node& nn = *reg[i].o.n; Vec c = randomCoeffs(q, nn), old = nn.coeffsSet() ? nn.coeffs() : Vec();
        { sim::LibScope ls; Kokkos::View<const double*, HS> v = toView(c); in[i].f->SetCoeffs(v); }
        std::shared_ptr<const PFun> cf = reg[i].o.f; auto v = cf->Coeffs(); for(size_t j = 0; j < old.size(); ++j) if(!bits(v(j), old[j])) R.fail("shared", "setting coefficients of the loaded object changed the saved one; %s", reg[i].what.c_str());
        setCoeffs(reg[i].o, c); Cmp cmp{R, r.fork(700 + i), "with new coefficients on both"}; cmp(reg[i], in[i], false); R.probe("independent");
    }
}
