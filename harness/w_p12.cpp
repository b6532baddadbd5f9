// P12: any history of edits to multi-index sets: numbering and neighbourhood queries equal those computed from the definition.
#include "world.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <sstream>
using namespace mpart;
const char* workloadName = "p12"; bool workloadInitKokkos = true; void workloadSetup() {}
namespace {
typedef std::vector<unsigned int> V; typedef std::function<bool(V const&)> Lim; typedef MultiIndexSet::LimiterType RealLim;
struct LimPair { Lim m; RealLim r; std::string s; bool down; };
unsigned sum(V const& v) { unsigned s = 0; for(unsigned x : v) s += x; return s; }
std::string str(V const& v) { std::string s = "("; for(unsigned x : v) s += std::to_string(x) + ","; s.back() = ')'; return s; }
LimPair limiter(sim::Rng& q, unsigned d, int depth)
{
    switch(q.below(depth > 0 ? 9 : 6)) {
    case 0: return {[](V const&) { return true; }, MultiIndexLimiter::None(), "none", true};
    case 1: { unsigned p = (unsigned)q.below(7); return {[p](V const& v) { return sum(v) <= p; }, MultiIndexLimiter::TotalOrder(p), "total<=" + std::to_string(p), true}; }
    case 2: { V m(d); for(auto& x : m) x = (unsigned)q.below(5); return {[m](V const& v) { for(size_t i = 0; i < v.size(); ++i) if(v[i] > m[i]) return false; return true; }, MultiIndexLimiter::MaxDegree(m), "max" + str(m), true}; }
    case 3: { unsigned lo = (unsigned)q.below(d), n = 1 + (unsigned)q.below(d); return {[lo, n](V const& v) { for(unsigned i = 0; i < v.size(); ++i) if((i < lo || i >= lo + n) && v[i]) return false; return true; }, MultiIndexLimiter::Dimension(lo, n), "dims" + std::to_string(lo) + "+" + std::to_string(n), true}; }
    case 4: { std::vector<double> w(d); for(auto& x : w) x = q.uniform(0.2, 1.0); double e = q.uniform(0.01, 0.6); return {[w, e](V const& v) { double p = 1; for(size_t i = 0; i < v.size(); ++i) p *= std::pow(w[i], (int)v[i]); return p >= e; }, MultiIndexLimiter::Anisotropic(w, e), "aniso", true}; }
    case 5: { unsigned k = 2 + (unsigned)q.below(2); return {[k](V const& v) { return sum(v) % k != 1 || v[0] == 1; }, [k](MultiIndex const& m) { return m.Sum() % k != 1 || m.Get(0) == 1; }, "gaps" + std::to_string(k), false}; }
    default: {
        LimPair a = limiter(q, d, 0), b = limiter(q, d, 0); Lim x = a.m, y = b.m; int t = (int)q.below(3);
        if(t == 0) return {[x, y](V const& v) { return x(v) && y(v); }, MultiIndexLimiter::And(a.r, b.r), a.s + "&" + b.s, a.down && b.down};
        if(t == 1) return {[x, y](V const& v) { return x(v) || y(v); }, MultiIndexLimiter::Or(a.r, b.r), a.s + "|" + b.s, a.down && b.down};
        return {[x, y](V const& v) { return x(v) != y(v); }, MultiIndexLimiter::Xor(a.r, b.r), a.s + "^" + b.s, false};
    } }
}
// what is connected to what: 0 the library's default; others an application might define
std::vector<V> nextTo(int nb, V const& v) { std::vector<V> o; size_t n = v.size(); for(unsigned i = 0; i < n; ++i) { if((nb == 1 && i % 2) || (nb == 2 && n > 1 && i + 1 == n)) continue; V w = v; w[i] += nb == 3 && i == 0 ? 2 : 1; if(nb == 2 && n > 1) ++w[i + 1]; o.push_back(w); } return o; }
std::vector<V> before(int nb, V const& v) { std::vector<V> o; if(!nb) { for(unsigned i = 0; i < v.size(); ++i) if(v[i]) { V w = v; --w[i]; o.push_back(w); } return o; } V z(v.size(), 0); for(auto& up : nextTo(nb, z)) { V w = v; bool ok = true; for(size_t i = 0; i < v.size(); ++i) { ok = ok && v[i] >= up[i]; w[i] -= up[i]; } if(ok) o.push_back(w); } return o; }
struct Neighbours : MultiIndexNeighborhood {
    int nb; explicit Neighbours(int n) : nb(n) {}
    static std::vector<MultiIndex> real(std::vector<V> const& a) { std::vector<MultiIndex> o; for(auto& v : a) o.push_back(MultiIndex(v)); return o; }
    std::vector<MultiIndex> ForwardNeighbors(MultiIndex const& m) override { return real(nextTo(nb, m.Vector())); }
    std::vector<MultiIndex> BackwardNeighbors(MultiIndex const& m) override { return real(before(nb, m.Vector())); }
    bool IsForward(MultiIndex const& b, MultiIndex const& n) override { for(auto& v : nextTo(nb, b.Vector())) if(v == n.Vector()) return true; return false; }
    bool IsBackward(MultiIndex const& b, MultiIndex const& n) override { return IsForward(n, b); }
};
struct Model {
    unsigned d; LimPair lim; int nb = 0; std::vector<V> act; std::map<V, int> idx; bool relimited = false;
    bool active(V const& v) const { return idx.count(v); }
    void add(V const& v) { if(!active(v)) { idx[v] = (int)act.size(); act.push_back(v); } }
    std::vector<V> fwd(V const& v) const { std::vector<V> o; for(auto& w : nextTo(nb, v)) if(lim.m(w)) o.push_back(w); return o; }
    std::vector<V> bwd(V const& v, bool limited = true) const { std::vector<V> o; for(auto& w : before(nb, v)) if(!limited || lim.m(w)) o.push_back(w); return o; }
    bool root(V const& v) const { return !nb ? sum(v) == 0 : before(nb, v).empty(); }
    bool backActive(V const& v) const { for(auto& w : bwd(v, false)) if(!active(w)) return false; return true; }
    bool admissible(V const& v) const { return lim.m(v) && (active(v) || backActive(v)); }
    bool closed() const { for(auto& v : act) if(!backActive(v)) return false; return true; }
    bool expandable(V const& v) const { for(auto& w : fwd(v)) if(!active(w) && admissible(w)) return true; return false; }
    void force(V const& v, std::set<V>& out) const { if(active(v) || out.count(v)) return; out.insert(v); for(auto& w : bwd(v)) force(w, out); }
};
struct Pair { std::shared_ptr<MultiIndexSet> s; Model m; };
// the same multi-index by one of several ways: built at once, or edited into shape
MultiIndex made(sim::Rng& q, V const& v)
{
    sim::LibScope ls; unsigned n = (unsigned)v.size();
    switch(q.below(6)) {
    case 0: { Eigen::Matrix<int, Eigen::Dynamic, 1> e(n); for(unsigned i = 0; i < n; ++i) e(i) = (int)v[i]; return MultiIndex(e); }
    case 1: { MultiIndex m(n, (unsigned)q.below(4)); for(unsigned i = 0; i < n; ++i) m.Set(i, v[i]); return m; }
    case 2: case 3: { MultiIndex m(n); std::vector<unsigned> at; for(unsigned i = 0; i < n; ++i) at.push_back(i); for(size_t i = n; i > 1; --i) std::swap(at[i - 1], at[q.below(i)]);
        int extra = (int)q.below(5); for(int k = 0; k < extra; ++k) { unsigned i = (unsigned)q.below(n); m.Set(i, (unsigned)q.below(q.chance(0.2) ? 90 : 6)); }
        for(unsigned i : at) m.Set(i, v[i]); return m; }
    default: return MultiIndex(v);
    }
}
void checkMulti(sim::Run& R, sim::Rng& q, V const& v, V const& w)
{
    MultiIndex a = made(q, v), b = made(q, w), c = made(q, v); sim::LibScope ls; unsigned mx = 0, my = 0, nz = 0; for(unsigned x : v) { mx = std::max(mx, x); nz += x > 0; } for(unsigned x : w) my = std::max(my, x);
    if(a.Vector() != v || a.Sum() != sum(v) || a.Max() != mx || a.NumNz() != nz || a.Length() != v.size()) R.fail("multi", "%s became %s with order %u, maximum %u, %u nonzeros", str(v).c_str(), str(a.Vector()).c_str(), a.Sum(), a.Max(), a.NumNz());
    for(unsigned i = 0; i < v.size(); ++i) if(a.Get(i) != v[i]) R.fail("multi", "component %u of %s is %u", i, str(v).c_str(), a.Get(i));
    if(!(a == c) || a != c || a < c || c < a || !(a <= c) || !(a >= c)) R.fail("multi-order", "two multi-indices with the values %s are not equal", str(v).c_str());
    bool eq = v == w, lt = v.size() != w.size() ? v.size() < w.size() : sum(v) != sum(w) ? sum(v) < sum(w) : mx != my ? mx < my : v < w;
    if((a == b) != eq || (a != b) == eq || (a < b) != lt || (a >= b) == lt || (a > b) != (!lt && !eq) || (a <= b) != (lt || eq)) R.fail("multi-order", "%s and %s are compared differently from their definition", str(v).c_str(), str(w).c_str());
    if(v.size() <= w.size()) { bool any = false; for(unsigned i = 0; i < v.size(); ++i) any = any || v[i] >= w[i]; if(a.AnyBounded(b) != any) R.fail("multi", "AnyBounded of %s by %s", str(v).c_str(), str(w).c_str()); }
    MultiIndex m = a; unsigned i = (unsigned)q.below(v.size()), x = (unsigned)q.below(4); V u = v; u[i] = x; bool was = v[i] > 0, said = m.Set(i, x);
    if(m.Vector() != u || a.Vector() != v || (x != 0 && said != was)) R.fail("multi", "setting component %u of %s to %u gave %s (said %d)", i, str(v).c_str(), x, str(m.Vector()).c_str(), said);
    { DefaultNeighborhood N; auto f = nextTo(0, v), b = before(0, v); bool isF = std::find(f.begin(), f.end(), w) != f.end(), isB = std::find(b.begin(), b.end(), w) != b.end();
      auto list = [](std::vector<MultiIndex> const& a) { std::vector<V> o; for(auto& z : a) o.push_back(z.Vector()); std::sort(o.begin(), o.end()); return o; }; std::sort(f.begin(), f.end()); std::sort(b.begin(), b.end());
      if(list(N.ForwardNeighbors(a)) != f || list(N.BackwardNeighbors(a)) != b) R.fail("neighbours", "the neighbours of %s are not those of the definition", str(v).c_str());
      if(v.size() == w.size() && (N.IsForward(a, MultiIndex(w)) != isF || N.IsBackward(a, MultiIndex(w)) != isB)) R.fail("neighbours", "%s is reported %s of %s", str(w).c_str(), isF || isB ? "no neighbour" : "a neighbour", str(v).c_str()); }
    R.checked(); R.probe("multi_index");
}
std::vector<V> sorted(std::vector<V> v) { std::sort(v.begin(), v.end()); return v; }
template<class T> std::vector<V> vecs(std::vector<T> const& a) { std::vector<V> o; for(auto& x : a) o.push_back(x.Vector()); return sorted(o); }
std::string list(std::vector<V> const& a) { std::string s; for(auto& v : a) { s += str(v); if(s.size() > 300) { s += "..."; break; } } return s.empty() ? "(none)" : s; }
bool zero(V const& v) { return sum(v) == 0; }
std::vector<V> noRoot(const Model& M, std::vector<V> a) { a.erase(std::remove_if(a.begin(), a.end(), [&](V const& v) { return M.root(v); }), a.end()); return a; }

void check(sim::Run& R, Pair& p, const char* after, sim::Rng& q)
{
    const Model& M = p.m; const MultiIndexSet& S = *p.s; sim::LibScope ls; size_t n = M.act.size();
    if(S.Size() != n) R.fail("size", "after %s the set reports %u terms, it should have %zu", after, S.Size(), n);
    if(S.Length() != M.d) R.fail("length", "after %s the set's dimension is %u", after, S.Length());
    V mx(M.d, 0);
    for(size_t i = 0; i < n; ++i) {
        V v = S.IndexToMulti((unsigned)i).Vector(); if(v != M.act[i]) R.fail("term", "after %s term %zu is %s, not %s", after, i, str(v).c_str(), str(M.act[i]).c_str());
        if(S[(int)i].Vector() != v || S.at((int)i).Vector() != v) R.fail("term", "after %s at() and operator[] disagree with IndexToMulti at %zu", after, i);
        if(S.MultiToIndex(made(q, v)) != (int)i) R.fail("number", "after %s term %zu = %s is found at %d", after, i, str(v).c_str(), S.MultiToIndex(MultiIndex(v)));
        if(!S.IsActive(made(q, v))) R.fail("active", "after %s term %s is not active", after, str(v).c_str());
        for(unsigned k = 0; k < M.d; ++k) mx[k] = std::max(mx[k], v[k]);
    }
    if(S.MaxOrders() != mx) R.fail("max-orders", "after %s the maximum orders are %s, not %s", after, str(S.MaxOrders()).c_str(), str(mx).c_str());
    // candidates around the set
    std::set<V> cand; for(auto& v : M.act) { cand.insert(v); for(unsigned i = 0; i < M.d; ++i) { V w = v; ++w[i]; cand.insert(w); if(v[i]) { w = v; --w[i]; cand.insert(w); } } for(auto& w : nextTo(M.nb, v)) cand.insert(w); for(auto& w : before(M.nb, v)) cand.insert(w); }
    { V w(M.d); for(auto& x : w) x = (unsigned)q.below(6); cand.insert(w); }
    std::vector<V> margin, reduced;
    for(auto& v : cand) {
        MultiIndex mi(v); bool a = M.active(v), hasBack = false; for(auto& w : M.bwd(v, false)) hasBack = hasBack || M.active(w);
        if(S.IsActive(mi) != a) R.fail("active", "after %s %s is %sactive, it should %sbe", after, str(v).c_str(), a ? "not " : "", a ? "" : "not ");
        if(!a && S.MultiToIndex(mi) != -1) R.fail("number", "after %s inactive %s has number %d", after, str(v).c_str(), S.MultiToIndex(mi));
        bool adm = M.admissible(v); if(!M.root(v) || a) if(S.IsAdmissible(mi) != adm) R.fail("admissible", "after %s %s is %s admissible; limiter %s", after, str(v).c_str(), adm ? "not reported" : "reported", M.lim.s.c_str());
        if(!a && M.lim.m(v)) { if(hasBack) margin.push_back(v); if(hasBack && adm) reduced.push_back(v); }
    }
    auto cmp = [&](const char* what, std::vector<V> const& got, std::vector<V> const& want) { if(got != want) R.fail(what, "after %s the %s is %s, by definition %s; limiter %s, terms %s", after, what, list(got).c_str(), list(want).c_str(), M.lim.s.c_str(), list(M.act).c_str()); };
    cmp("margin", vecs(S.Margin()), sorted(margin)); cmp("reduced-margin", noRoot(M, vecs(S.ReducedMargin())), noRoot(M, sorted(reduced)));
    std::vector<unsigned> fr, sf;
    for(size_t i = 0; i < n; ++i) {
        const V& v = M.act[i]; bool e = M.expandable(v); auto f = M.fwd(v); unsigned na = 0; for(auto& w : f) na += M.active(w); if(e) { fr.push_back((unsigned)i); if(!na) sf.push_back((unsigned)i); }
        if(S.IsExpandable((unsigned)i) != e) R.fail("expandable", "after %s %s is %sexpandable; limiter %s", after, str(v).c_str(), e ? "not reported " : "reported ", M.lim.s.c_str());
        if(S.NumForward((unsigned)i) != f.size()) R.fail("num-forward", "after %s %s has %u forward neighbours, not %zu; limiter %s", after, str(v).c_str(), S.NumForward((unsigned)i), f.size(), M.lim.s.c_str());
        if(S.NumActiveForward((unsigned)i) != na) R.fail("num-active-forward", "after %s %s has %u active forward neighbours, not %u", after, str(v).c_str(), S.NumActiveForward((unsigned)i), na);
        std::vector<unsigned> want, got; for(auto& w : M.bwd(v)) if(M.active(w)) want.push_back(M.idx.at(w)); auto b = S.BackwardNeighbors((unsigned)i); for(unsigned k : b) if(k != (unsigned)-1) got.push_back(k);
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if(got != want) R.fail("backward", "after %s the backward neighbours of %s are %zu terms, not %zu, or the wrong ones", after, str(v).c_str(), got.size(), want.size());
        auto b2 = S.BackwardNeighbors(made(q, v)); if(b2 != b) R.fail("backward", "after %s the two forms of BackwardNeighbors disagree for %s", after, str(v).c_str());
        std::vector<V> af; for(auto& w : f) if(M.admissible(w)) af.push_back(w); cmp("admissible-forward", vecs(p.s->AdmissibleForwardNeighbors((unsigned)i)), sorted(af));
    }
    if(S.Frontier() != fr) R.fail("frontier", "after %s the frontier has %zu terms, by definition %zu (or others); limiter %s, terms %s", after, S.Frontier().size(), fr.size(), M.lim.s.c_str(), list(M.act).c_str());
    if(S.StrictFrontier() != sf) R.fail("strict-frontier", "after %s the strict frontier has %zu terms, by definition %zu (or others)", after, S.StrictFrontier().size(), sf.size());
    for(auto& v : M.act) if(!S.GetLimiter()(MultiIndex(v))) R.fail("limiter", "after %s the active term %s is outside the limiter", after, str(v).c_str());
    V bnd(M.d); for(auto& x : bnd) x = 1 + (unsigned)q.below(4); auto fb = S.FilterBounded(made(q, bnd));
    for(size_t i = 0; i < n; ++i) { bool any = false; for(unsigned k = 0; k < M.d; ++k) any = any || M.act[i][k] >= bnd[k]; if(fb.size() != n || fb[i] != any) R.fail("filter", "after %s FilterBounded%s is wrong for %s", after, str(bnd).c_str(), str(M.act[i]).c_str()); }
    sim::hashMix(n * 31 + fr.size() + margin.size() * 1009); R.checked();
}
void checkFixed(sim::Run& R, Pair& p, sim::Rng& q)
{
    sim::LibScope ls; const Model& M = p.m; if(M.act.empty()) return;
    for(int c = 0; c < 2; ++c) {
        FixedMultiIndexSet<Kokkos::HostSpace> f = p.s->Fix(c == 0);
        if(f.Size() != M.act.size() || f.Length() != M.d) R.fail("fix-size", "the fixed set has %u terms of length %u, not %zu of %u", f.Size(), f.Length(), M.act.size(), M.d);
        V mx(M.d, 0);
        for(size_t i = 0; i < M.act.size(); ++i) {
            V v = f.IndexToMulti((unsigned)i); if(v != M.act[i]) R.fail("fix-term", "term %zu of the %s fixed set is %s, not %s", i, c ? "uncompressed" : "compressed", str(v).c_str(), str(M.act[i]).c_str());
            if(f.MultiToIndex(v) != (int)i) R.fail("fix-number", "term %zu of the %s fixed set is found at %d", i, c ? "uncompressed" : "compressed", f.MultiToIndex(v));
            for(unsigned k = 0; k < M.d; ++k) mx[k] = std::max(mx[k], v[k]);
        }
        for(unsigned k = 0; k < M.d; ++k) if(f.MaxDegrees()(k) != mx[k]) R.fail("fix-degrees", "the %s fixed set's maximum degree in direction %u is %u, not %u", c ? "uncompressed" : "compressed", k, f.MaxDegrees()(k), mx[k]);
        V w(M.d); for(auto& x : w) x = (unsigned)q.below(6); int k = M.active(w) ? M.idx.at(w) : -1; if(f.MultiToIndex(w) != k) R.fail("fix-number", "%s is found at %d in the %s fixed set, should be %d", str(w).c_str(), f.MultiToIndex(w), c ? "uncompressed" : "compressed", k);
    }
    R.checked(); R.probe("fix");
}
void checkPicture(sim::Run& R, Pair& p)
{
    const Model& M = p.m; std::ostringstream o; { sim::LibScope ls; p.s->Visualize(o); }
    V mx(2, 0); for(auto& v : M.act) for(int k = 0; k < 2; ++k) mx[k] = std::max(mx[k], v[k]);
    std::istringstream in(o.str()); std::string line;
    for(int i = (int)mx[1] + 1; i >= 0; --i) {
        std::getline(in, line); size_t bar = line.find("| "); if(bar == std::string::npos || std::stoi(line) != i) R.fail("picture", "row %d of the picture is '%s'", i, line.c_str());
        for(unsigned j = 0; j <= mx[0] + 1; ++j) {
            V v{j, (unsigned)i}; char c = line.size() > bar + 2 + 3 * j ? line[bar + 2 + 3 * j] : ' '; bool hb = false; for(auto& w : M.bwd(v)) hb = hb || M.active(w);
            char want = M.active(v) ? 'a' : !M.lim.m(v) || !hb ? ' ' : M.backActive(v) ? 'r' : 'm'; // stored terms outside the margin (neighbours in the other direction) may be drawn as well
            if(want == ' ' && !M.active(v) && M.lim.m(v) && (c == 'm' || (c == 'r' && zero(v)))) continue;
            if(want == ' ' && M.relimited && c == 'm') continue;
            if(c != want) R.fail("picture", "the picture shows '%c' at (%u,%d) instead of '%c'", c, j, i, want);
        }
    }
    R.checked(); R.probe("picture");
}
}
void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(12); R.sequential(); unsigned d = 1 + (unsigned)r.below(4); std::vector<Pair> P;
    bool big = r.fork(501).chance(0.05), high = big && r.fork(502).chance(0.5); if(big) d = high ? 1 + (unsigned)r.fork(503).below(2) : 5 + (unsigned)r.fork(503).below(4); if(big) R.probe(high ? "high_orders" : "many_dimensions");
    auto fresh = [&](sim::Rng& q) {
        Pair p; p.m.d = d; p.m.lim = limiter(q, d, 1); unsigned o = (unsigned)q.below(d > 3 ? 2 : d > 2 ? 3 : 5); int t = (int)q.below(5); if(big) { o = high ? (d == 1 ? 20 + (unsigned)q.below(60) : 7 + (unsigned)q.below(6)) : 1 + (unsigned)q.below(2); if(!high && t == 1) o = 1; if(d > 6 && t == 1) t = 0; } sim::LibScope ls;
        std::vector<V> all; V v(d, 0); unsigned cap = t == 4 ? 4 : o;
        std::function<void(unsigned, unsigned)> rec = [&](unsigned k, unsigned left) { if(k == d) { all.push_back(v); return; } for(unsigned x = 0; x <= left; ++x) { v[k] = x; rec(k + 1, t == 1 ? left : left - x); } v[k] = 0; };
        rec(0, cap);
        if(t == 0) { p.s = std::make_shared<MultiIndexSet>(MultiIndexSet::CreateTotalOrder(d, o, p.m.lim.r)); for(auto& w : all) if(p.m.lim.m(w)) p.m.add(w); }
        else if(t == 1) { p.s = std::make_shared<MultiIndexSet>(MultiIndexSet::CreateTensorProduct(d, o, p.m.lim.r)); for(auto& w : all) if(p.m.lim.m(w)) p.m.add(w); }
        else if(t == 2) { p.m.lim = {[](V const&) { return true; }, MultiIndexLimiter::None(), "none", true}; int n = 1 + (int)q.below(5); Eigen::MatrixXi A(n, d); for(int i = 0; i < n; ++i) { V w(d); for(unsigned k = 0; k < d; ++k) A(i, k) = w[k] = (unsigned)q.below(4); p.m.add(w); } if(q.chance(0.5)) p.s = std::make_shared<MultiIndexSet>(A); else { Eigen::MatrixXi wide = Eigen::MatrixXi::Constant(n + 2, d + 1, 7); wide.block(1, 1, n, d) = A; p.s = std::make_shared<MultiIndexSet>(wide.block(1, 1, n, d)); } }
        else if(q.chance(0.4)) { p.m.nb = (int)q.below(4); p.s = p.m.nb ? std::make_shared<MultiIndexSet>(d, p.m.lim.r, std::make_shared<Neighbours>(p.m.nb)) : std::make_shared<MultiIndexSet>(d, p.m.lim.r, std::make_shared<DefaultNeighborhood>()); if(p.m.nb) R.probe("own_neighbourhood"); }
        else { p.s = std::make_shared<MultiIndexSet>(d, p.m.lim.r); }
        R.op("a set of dimension %u with %zu terms, limiter %s", d, p.m.act.size(), p.m.lim.s.c_str());
        return p;
    };
    int n0 = 1 + (int)r.below(3); for(int i = 0; i < n0; ++i) P.push_back(fresh(r));
    R.config(d); for(auto& p : P) { R.config(p.m.act.size()); for(char ch : p.m.lim.s) R.config(ch); }
    { sim::Rng q = r.fork(9); for(auto& p : P) check(R, p, "construction", q); }
    if(r.chance(0.1)) { // the fixed total order set
        unsigned o = (unsigned)r.below(4); sim::LibScope ls; FixedMultiIndexSet<Kokkos::HostSpace> f(d, o); MultiIndexSet s = MultiIndexSet::CreateTotalOrder(d, o);
        if(f.Size() != s.Size()) R.fail("fix-total-order", "total order %u in dimension %u has %u fixed terms but %u", o, d, f.Size(), s.Size());
        for(unsigned i = 0; i < f.Size(); ++i) if(f.IndexToMulti(i) != s.IndexToMulti(i).Vector()) R.fail("fix-total-order", "term %u of the fixed total order set differs", i); R.probe("fixed_total_order");
    }
    int steps = big ? 3 + (int)r.below(6) : 4 + (int)r.below(24);
    for(int step = 0; step < steps; ++step) {
        sim::Rng q = r.fork(100 + step); if(!R.keep()) continue;
        size_t at = q.below(P.size()); Pair& p = P[at]; Model& M = p.m; char lab[200]; snprintf(lab, sizeof lab, "step %d", step);
        if(M.act.size() > (big ? 150 : 50)) continue;
        if(q.chance(0.15)) { sim::Rng e = q.fork(77); V v(1 + e.below(5)), w(e.chance(0.8) ? v.size() : 1 + e.below(5)); for(auto& x : v) x = (unsigned)e.below(4); if(e.chance(0.5) && w.size() == v.size()) { w = v; std::swap(w[e.below(w.size())], w[e.below(w.size())]); if(e.chance(0.3)) w[e.below(w.size())] ^= 1; } else for(auto& x : w) x = (unsigned)e.below(4); checkMulti(R, e, v, w); }
        auto pick = [&]() { V v(d); if(!M.act.empty() && q.chance(0.6)) { v = M.act[q.below(M.act.size())]; unsigned k = (unsigned)q.below(d); if(q.chance(0.7)) ++v[k]; else if(v[k]) --v[k]; } else for(auto& x : v) x = (unsigned)q.below(d > 2 ? 3 : 5); return v; };
        std::set<V> grow; bool have = false; std::vector<unsigned> ret; size_t before = M.act.size(); bool wasClosed = M.closed();
        switch(q.below(14)) {
        case 0: case 1: { V v = pick(); snprintf(lab, sizeof lab, "adding %s", str(v).c_str()); R.op("set %zu: %s", at, lab); int k; { sim::LibScope ls; if(q.chance(0.7)) k = p.s->AddActive(made(q, v)); else { *p.s += made(q, v); k = p.s->MultiToIndex(made(q, v)); } } bool ok = M.lim.m(v); if(ok) M.add(v); int want = ok ? M.idx[v] : -1; if(k != want) R.fail("add", "%s returned %d instead of %d; limiter %s", lab, k, want, M.lim.s.c_str()); R.probe(ok ? "add" : "add_rejected"); break; }
        case 2: { // activate
            V v = pick(); bool ok = M.admissible(v) && (!M.root(v) || M.active(v)); if(M.root(v) && !ok) continue; snprintf(lab, sizeof lab, "activating %s", str(v).c_str()); R.op("set %zu: %s", at, lab); bool threw = false;
            try { sim::LibScope ls; p.s->Activate(made(q, v)); } catch(const std::exception&) { threw = true; } if(threw == ok) R.fail("activate", "%s %s although it is %sadmissible; limiter %s", lab, threw ? "was rejected" : "was accepted", ok ? "" : "not ", M.lim.s.c_str()); if(ok) M.add(v); R.probe(ok ? "activate" : "activate_rejected"); break; }
        case 3: case 4: { if(M.act.empty()) continue; size_t i = q.below(M.act.size() + (q.chance(0.1) ? 3 : 0)); snprintf(lab, sizeof lab, "expanding term %zu", i); R.op("set %zu: %s", at, lab);
            if(i >= M.act.size()) { bool threw = false; try { sim::LibScope ls; p.s->Expand((unsigned)i); } catch(const std::out_of_range&) { threw = true; } if(!threw) R.fail("expand-range", "%s of %zu was accepted", lab, M.act.size()); R.fault("index_out_of_range"); break; }
            for(auto& w : M.fwd(M.act[i])) if(!M.active(w) && M.admissible(w)) grow.insert(w); have = true; sim::LibScope ls; ret = p.s->Expand((unsigned)i); R.probe("expand"); break; }
        case 5: { snprintf(lab, sizeof lab, "expanding the frontier"); R.op("set %zu: %s", at, lab); for(auto& v : M.act) for(auto& w : M.fwd(v)) if(!M.active(w) && M.admissible(w)) grow.insert(w); have = true; sim::LibScope ls; ret = p.s->Expand(); R.probe("expand_all"); break; }
        case 6: { if(M.act.empty()) continue; size_t i = q.below(M.act.size()); snprintf(lab, sizeof lab, "forcibly expanding %s", str(M.act[i]).c_str()); R.op("set %zu: %s", at, lab); for(auto& w : M.fwd(M.act[i])) M.force(w, grow); if(grow.size() > 250) continue; have = true; sim::LibScope ls; ret = p.s->ForciblyExpand((unsigned)i); R.probe("force_expand"); break; }
        case 7: { V v = pick(); snprintf(lab, sizeof lab, "forcibly activating %s", str(v).c_str()); R.op("set %zu: %s", at, lab); bool ok = M.lim.m(v), threw = false; if(ok) M.force(v, grow); if(grow.size() > 250) continue;
            try { sim::LibScope ls; ret = p.s->ForciblyActivate(made(q, v)); } catch(const std::exception&) { threw = true; } if(threw == ok) R.fail("force", "%s %s; limiter %s", lab, threw ? "was rejected" : "was accepted outside the limiter", M.lim.s.c_str()); have = ok; R.probe(ok ? "force_activate" : "force_rejected"); break; }
        case 8: { Pair& o = P[q.below(P.size())]; if(M.act.size() + o.m.act.size() > (big ? 200 : 70)) continue; snprintf(lab, sizeof lab, "merging a set of %zu terms", o.m.act.size()); R.op("set %zu: %s", at, lab); auto src = o.m.act; unsigned n; { sim::LibScope ls; if(q.chance(0.6)) n = p.s->Union(*o.s); else { n = p.s->Size(); *p.s += *o.s; n = p.s->Size() - n; } } for(auto& v : src) if(M.lim.m(v)) grow.insert(v); std::vector<V> g(grow.begin(), grow.end()); unsigned add = 0; for(auto& v : g) { if(M.active(v)) grow.erase(v); else ++add; } if(n != add) R.fail("union-count", "%s added %u terms, reported %u", lab, add, n); have = true; for(size_t k = before; k < p.s->Size(); ++k) ret.push_back((unsigned)k); R.probe("union"); break; }
        case 9: { LimPair l = limiter(q, d, 1); bool ok = true; for(auto& v : M.act) ok = ok && l.m(v); if(!ok && q.chance(0.5)) { Lim a = l.m, b = M.lim.m; l = {[a, b](V const& v) { return a(v) || b(v); }, MultiIndexLimiter::Or(l.r, M.lim.r), l.s + "|old", l.down && M.lim.down}; if(M.lim.s.size() > 60) continue; ok = true; }
            snprintf(lab, sizeof lab, "the limiter %.100s", l.s.c_str()); R.op("set %zu: %s", at, lab); bool threw = false; try { sim::LibScope ls; p.s->SetLimiter(l.r); } catch(const std::exception&) { threw = true; } if(threw == ok) R.fail("set-limiter", "%s %s", lab, threw ? "was rejected" : "was accepted although an active term is outside"); if(ok) { M.lim = l; M.relimited = true; } R.probe(ok ? "relimit" : "relimit_rejected"); break; }
        case 10: { if(P.size() > 4) continue; snprintf(lab, sizeof lab, "copying"); R.op("set %zu: %s", at, lab); Pair c; c.m = p.m; { sim::LibScope ls; c.s = std::make_shared<MultiIndexSet>(*p.s); } P.push_back(c); R.probe("copy"); check(R, P.back(), "being copied", q); continue; }
        case 11: { size_t j = q.below(P.size()); snprintf(lab, sizeof lab, "assigning set %zu to set %zu", j, at); R.op("%s", lab); { sim::LibScope ls; *p.s = *P[j].s; } Model cp = P[j].m; p.m = cp; R.probe("assign"); break; }
        case 12: checkFixed(R, p, q); continue;
        default: if(d == 2 && !M.nb && !M.act.empty()) { checkPicture(R, p); continue; } checkFixed(R, p, q); continue;
        }
        Model& N = P[at].m;
        if(have) { // which terms became active, and under which numbers
            sim::LibScope ls; std::sort(ret.begin(), ret.end()); if(p.s->Size() != before + grow.size()) R.fail("grown", "%s made %d terms active, by definition %zu: %s; limiter %s, terms %s", lab, (int)p.s->Size() - (int)before, grow.size(), list(std::vector<V>(grow.begin(), grow.end())).c_str(), N.lim.s.c_str(), list(N.act).c_str());
            for(size_t k = before; k < p.s->Size(); ++k) { V v = p.s->IndexToMulti((unsigned)k).Vector(); if(!grow.count(v)) R.fail("grown", "%s made %s active", lab, str(v).c_str()); N.add(v); }
            std::vector<unsigned> want; for(size_t k = before; k < N.act.size(); ++k) want.push_back((unsigned)k); if(ret != want) R.fail("returned", "%s returned %zu numbers for %zu new terms", lab, ret.size(), want.size());
            if(wasClosed && N.lim.down && !N.closed() && lab[0] == 'e') R.fail("closed", "%s left a set that is not downward closed", lab);
        }
        check(R, P[at], lab, q); { size_t z = q.below(P.size()); if(z != at) check(R, P[z], lab, q); }
    }
}
