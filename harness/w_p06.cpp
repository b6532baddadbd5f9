// P06: when an allocation fails at any point, or an argument is malformed, the caller gets an exception, nothing has changed, and the
// same call succeeds afterwards; overflowing values never end the process.
#include "dens.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#include "MParT/IdentityMap.h"
#include "MParT/MapFactory.h"
#include "MParT/MapObjective.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include "MParT/TrainMap.h"
#include "MParT/Distributions/Distribution.h"
#include "MParT/Distributions/PullbackSampler.h"
#include "MParT/Distributions/PushforwardSampler.h"
#include "MParT/Distributions/PushforwardDensity.h"
#include <algorithm>
#include <memory>
#include <cstring>
#include <sstream>
#include <functional>
using namespace world;
using namespace mpart;
const char* workloadName = "p06"; bool workloadInitKokkos = true; void workloadSetup() {}
namespace {
bool bits(double a, double b) { return !memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)); }
bool same(const Mat& a, const Mat& b) { if(a.r != b.r || a.c != b.c) return false; for(size_t i = 0; i < a.a.size(); ++i) if(!bits(a.a[i], b.a[i])) return false; return true; }
void collect(const Obj& o, std::vector<Obj>& v) { v.push_back(o); for(auto& k : o.kids) collect(k, v); }
struct Snap { // what the library holds for each object
    std::vector<std::pair<bool, Vec>> s;
    explicit Snap(const std::vector<Obj>& all) { for(auto& o : all) { std::shared_ptr<const PFun> f = o.f; bool set = f->CheckCoefficients(); s.push_back({set, set && f->numCoeffs ? fromView(f->Coeffs()) : Vec()}); } }
    int diff(const Snap& t) const { for(size_t i = 0; i < s.size(); ++i) { if(s[i].first != t.s[i].first || s[i].second.size() != t.s[i].second.size()) return (int)i; for(size_t j = 0; j < s[i].second.size(); ++j) if(!bits(s[i].second[j], t.s[i].second[j])) return (int)i; } return -1; }
};
struct W {
    sim::Run& R; std::vector<Obj> all;
    void unchanged(const Snap& was, const char* what, const char* why)
    {
        Snap now(all); int i = was.diff(now); R.checked();
        if(i >= 0) R.fail("state-changed", "%s failed (%s) but the coefficients of %s are not what they were", what, why, all[i].n->describe().c_str());
    }
    // a call that changes nothing visible: the same result with and without a failure in between
    void pure(sim::Rng q, const char* what, const std::function<Mat()>& op)
    {
        Mat want; sim::armAllocFault(~0ull, false);
        try { want = op(); } catch(const std::exception& e) { sim::disarmAllocFault(); R.fail("clean-throw", "%s threw without any fault: %s", what, e.what()); }
        uint64_t M = sim::disarmAllocFault(); Snap was(all); hashResult(want);
        int n = 1 + (int)q.below(4);
        for(int k = 0; k < n && M; ++k) {
            uint64_t at = 1 + q.below(M); bool persist = q.chance(0.3), par = q.chance(0.35); if(!R.keepFault()) continue;
            int threw = 0; std::string msg; Mat got; if(par) R.perturbed();
            sim::armAllocFault(at, persist);
            try { got = op(); } catch(const std::exception& e) { threw = 1; } catch(...) { threw = 2; }
            sim::disarmAllocFault(); R.sequential(); bool fired = sim::allocFaultFired(); if(!fired) continue;
            R.fault(persist ? "alloc_failure_persistent" : "alloc_failure"); R.op("%s with allocation %llu of %llu failing%s: %s", what, (unsigned long long)at, (unsigned long long)M, persist ? " and all later ones" : "", threw ? "exception" : "no exception");
            if(threw == 2) R.fail("odd-exception", "%s threw something that is not a std::exception", what);
            if(!threw && !same(got, want)) R.fail("fault-hidden", "%s returned a different result when allocation %llu of %llu failed, without an error", what, (unsigned long long)at, (unsigned long long)M);
            unchanged(was, what, "an allocation failed");
        }
        Mat again; try { again = op(); } catch(const std::exception& e) { R.fail("retry-throw", "%s threw although the fault has gone: %s", what, e.what()); }
        if(!same(again, want)) R.fail("retry-differs", "%s gives another result after a failed attempt", what);
        R.checked(); R.probe("pure_operation");
    }
    // a call that changes something: before() and after() tell which of the two states holds now
    void mutating(sim::Rng q, const char* what, const std::function<void()>& op, const std::function<bool()>& isBefore, const std::function<bool()>& isAfter)
    {
        int n = 1 + (int)q.below(3); bool done = false;
        for(int k = 0; k < n && !done; ++k) {
            uint64_t at = 1 + q.below(q.chance(0.5) ? 6 : q.chance(0.7) ? 40 : 400); bool persist = q.chance(0.3); if(!R.keepFault()) continue;
            int threw = 0; sim::armAllocFault(at, persist); try { op(); } catch(const std::exception&) { threw = 1; } catch(...) { threw = 2; }
            sim::disarmAllocFault(); bool fired = sim::allocFaultFired();
            if(!fired) { if(threw) R.fail("clean-throw", "%s threw without any fault", what); done = true; break; }
            R.fault(persist ? "alloc_failure_persistent" : "alloc_failure"); R.op("%s with allocation %llu failing%s: %s", what, (unsigned long long)at, persist ? " and all later ones" : "", threw ? "exception" : "no exception");
            if(threw == 2) R.fail("odd-exception", "%s threw something that is not a std::exception", what);
            if(threw && !isBefore()) R.fail("state-changed", "%s failed but did not leave things as they were", what);
            if(!threw && !isAfter()) R.fail("fault-hidden", "%s reported success although an allocation failed and it had not been done", what);
            if(!threw) done = true; R.checked();
        }
        if(!done) try { op(); } catch(const std::exception& e) { R.fail("retry-throw", "%s threw although the fault has gone: %s", what, e.what()); }
        if(!isAfter()) R.fail("retry-differs", "%s did not do its work after a failed attempt", what);
        R.checked(); R.probe("mutating_operation");
    }
    void rejects(const char* what, const std::function<void()>& op)
    {
        Snap was(all); int threw = 0; R.fault("malformed_argument"); R.op("%s", what);
        try { sim::LibScope ls; op(); } catch(const std::exception&) { threw = 1; } catch(...) { threw = 2; }
        if(threw == 2) R.fail("odd-exception", "%s threw something that is not a std::exception", what);
        if(!threw) R.fail("malformed-accepted", "%s was accepted", what);
        unchanged(was, what, "malformed argument");
    }
};
// everything a caller can see of an index set, and of what an expansion of it would do next
std::string canon(const MultiIndexSet& s)
{
    std::ostringstream o; o << s.Size() << '|'; for(unsigned i = 0; i < s.Size(); ++i) { MultiIndex m = s.IndexToMulti(i); o << m << s.MultiToIndex(m) << s.IsAdmissible(m) << s.IsExpandable(i); for(unsigned x : s.BackwardNeighbors(i)) o << ',' << x; o << ';'; }
    auto list = [&](std::vector<MultiIndex> v) { std::vector<std::vector<unsigned>> u; for(auto& m : v) u.push_back(m.Vector()); std::sort(u.begin(), u.end()); o << '|'; for(auto& m : u) { for(unsigned x : m) o << x << ' '; o << ';'; } };
    list(s.Margin()); list(s.ReducedMargin()); for(unsigned i : s.Frontier()) o << 'f' << i; for(unsigned i : s.StrictFrontier()) o << 's' << i; for(unsigned m : s.MaxOrders()) o << 'm' << m;
    { MultiIndexSet t = s; auto a = t.Expand(); o << "|x"; for(unsigned i : a) o << t.IndexToMulti(i); }
    return o.str();
}
void indexSets(W& w, sim::Rng q)
{
    int d = 1 + (int)q.below(3); unsigned p = (unsigned)q.below(4), cap = p + (unsigned)q.below(4); bool lim = q.chance(0.4); MultiIndexSet S = q.chance(0.5) ? MultiIndexSet::CreateTotalOrder(d, p) : MultiIndexSet::CreateTensorProduct(d, std::min(p, 2u));
    auto fuse = std::make_shared<long>(-1); // the caller's limiting function may throw
    auto limit = [fuse](unsigned c) -> MultiIndexSet::LimiterType { return [fuse, c](MultiIndex const& m) { if(*fuse >= 0 && (*fuse)-- == 0) throw std::runtime_error("limiter failed"); return m.Sum() <= c; }; };
    if(lim) { cap = std::max(cap, *std::max_element(&S.MaxOrders()[0], &S.MaxOrders()[0] + d) * (unsigned)d); S.SetLimiter(limit(cap)); }
    for(int k = (int)q.below(3); k > 0; --k) { auto f = S.Frontier(); if(!f.empty()) S.Expand(f[q.below(f.size())]); }
    for(int step = 1 + (int)q.below(3); step > 0; --step) {
        int t = (int)q.below(11); unsigned n = S.Size(), i = (unsigned)q.below(n); auto rm = S.ReducedMargin(); MultiIndex far((unsigned)d); for(int j = 0; j < d; ++j) far.Set(j, (unsigned)q.below(3)); MultiIndexSet other = MultiIndexSet::CreateTotalOrder(d, (unsigned)q.below(4));
        if((t == 4 || t == 5) && rm.empty()) continue; MultiIndex m = rm.empty() ? far : rm[q.below(rm.size())]; if(lim && far.Sum() > cap) continue;
        static const char* nm[] = {"Expand(term)", "Expand()", "ForciblyExpand", "ForciblyActivate", "Activate", "operator+=(index)", "operator+=(set)", "assignment", "copying", "Fix", "SetLimiter"}; char lab[200]; snprintf(lab, sizeof lab, "%s on an index set of %u terms in %d dimensions", nm[t], n, d);
        std::string before, after, otherWas = canon(other); bool lw = t == 10; unsigned cap2 = 1 + *std::max_element(&S.MaxOrders()[0], &S.MaxOrders()[0] + d) * (unsigned)d + (unsigned)q.below(2);
        std::unique_ptr<MultiIndexSet> made; FixedMultiIndexSet<HS> fx(1, 1); bool fixed = false; std::string fwant;
        auto op = [&](MultiIndexSet& X) {
            switch(t) {
            case 0: X.Expand(i); break; case 1: X.Expand(); break; case 2: X.ForciblyExpand(i); break; case 3: X.ForciblyActivate(far); break; case 4: X.Activate(m); break; case 5: X += m; break;
            case 6: X += other; break; case 7: X = other; break; case 8: made.reset(); made = std::make_unique<MultiIndexSet>(X); break; case 9: fixed = false; fx = X.Fix(d & 1); fixed = true; break; default: X.SetLimiter(limit(cap2));
            } };
        before = canon(S); { MultiIndexSet twin = S; op(twin); after = canon(twin); made.reset(); fixed = false; }
        if((lim || t == 10) && t < 12 && w.R.keepFault()) for(int k = 0; k < 3; ++k) {
            MultiIndexSet X = S; bool threw = false; *fuse = (long)q.below(k ? 40 : 6); try { sim::LibScope ls; op(X); } catch(const std::exception&) { threw = true; } *fuse = -1; made.reset(); fixed = false;
            if(threw) w.R.fault("callback_throws"); w.R.checked();
            if(canon(X) != (threw ? before : after)) w.R.fail(threw ? "state-changed" : "fault-hidden", "%s %s but the set is not what it %s; the limiting function had thrown", lab, threw ? "failed" : "reported success", threw ? "was" : "should be");
        }
        w.mutating(q.fork(10 + step), lab, [&] { sim::LibScope ls; op(S); }, [&] { return canon(S) == before && canon(other) == otherWas; },
            [&] { if(canon(S) != after || canon(other) != otherWas) return false; if(t == 8) return made && canon(*made) == after; if(t == 9) { if(!fixed || fx.Size() != n) return false; for(unsigned k = 0; k < n; ++k) if(fx.IndexToMulti(k) != S.IndexToMulti(k).Vector()) return false; } return true; });
        if(lw) lim = true, cap = cap2; if(t == 7) lim = false;
    }
    if(q.chance(0.5)) { // one index
        MultiIndex m((unsigned)d + 2); for(int k = 0; k < 2; ++k) m.Set((unsigned)q.below(d + 2), (unsigned)q.below(4)); unsigned at = (unsigned)q.below(d + 2), val = (unsigned)q.below(4); MultiIndex was = m, want = m; want.Set(at, val);
        auto same = [](MultiIndex const& a, MultiIndex const& b) { return a == b && a.Vector() == b.Vector() && a.NumNz() == b.NumNz() && a.Sum() == b.Sum() && a.Max() == b.Max(); };
        w.mutating(q.fork(31), "MultiIndex::Set", [&] { sim::LibScope ls; m.Set(at, val); }, [&] { return same(m, was); }, [&] { return same(m, want); });
    }
}
// arguments that cannot be used, given to everything that is not an operation of a map
void misuse(W& w, sim::Rng q, const Cfg& c)
{
    int t = (int)q.below(17), d = 1 + (int)q.below(3), e = (int)q.below(8), off = q.chance(0.5) ? d + 1 + (int)q.below(2) : d - 1, N = 1 + (int)q.below(3); char lab[300];
    auto gauss = [](int k) { return std::make_shared<GaussianSamplerDensity<HS>>((unsigned)k); };
    auto multi = [&](int len) { MultiIndex m((unsigned)len); for(int i = 0; i < len; ++i) m.Set(i, (unsigned)q.below(3)); return m; };
    if(t == 0) { // a density or sampler with the wrong number of rows
        std::shared_ptr<GaussianSamplerDensity<HS>> g = gauss(d); if(q.chance(0.5)) { Buf C(Mat(d, d), COL); for(int i = 0; i < d; ++i) C.p[i * C.s0 + i * C.s1] = 1.5; g = std::make_shared<GaussianSamplerDensity<HS>>(C.view()); }
        Buf X(gaussian(q, off, N), (int)q.below(NLAYOUT)); Eigen::RowMatrixXd E(off, N); E.setConstant(0.3); snprintf(lab, sizeof lab, "a Gaussian of dimension %d given %d rows (%d)", d, off, e % 5);
        w.rejects(lab, [&] { if(e % 5 == 0) g->LogDensity(X.cview()); else if(e % 5 == 1) g->LogDensityInputGrad(X.cview()); else if(e % 5 == 2) g->LogDensity(E); else if(e % 5 == 3) g->LogDensityInputGrad(E); else g->SampleImpl(X.view()); });
    } else if(t == 1) { // transported distributions of parts that do not fit
        Obj sq = affine(q, d, d), re = component(q, d + 1, c); bool shape = q.chance(0.5); int k = e % 4; snprintf(lab, sizeof lab, "transported %s %d of %s", k < 2 ? "density" : "sampler", k, shape ? "a map that is not square" : "a reference of another dimension"); if(shape && k == 0) return; // a pulled-back density may condition
        w.rejects(lab, [&] { auto m = shape ? re.m : sq.m; auto g = gauss(shape ? 1 : d + 1); if(k == 0) PullbackDensity<HS> z(m, g); else if(k == 1) PushforwardDensity<HS> z(m, g); else if(k == 2) PullbackSampler<HS> z(m, g); else PushforwardSampler<HS> z(m, g); });
    } else if(t == 2) w.rejects("a distribution whose sampler and density differ in dimension", [&] { Distribution<HS> z(gauss(d), gauss(d + 1)); });
    else if(t == 3) w.rejects("IdentityMap with more outputs than inputs", [&] { IdentityMap<HS> z(d, d + 1 + (int)q.below(2)); });
    else if(t == 4) { Buf A(gaussian(q, d + 1, d), (int)q.below(NLAYOUT)), b(gaussian(q, d + 1, 1), COL); SV bv(b.p, Kokkos::LayoutStride(d + 1, 1)); w.rejects("an affine map with more outputs than inputs", [&] { if(e & 1) AffineMap<HS> z(A.view(), bv); else AffineMap<HS> z(A.view()); }); }
    else if(t == 5) { Obj s = affineFn(q, 2, 1), k = affine(q, 2, 2); w.rejects("SummarizedMap of a map with two outputs", [&] { SummarizedMap<HS> z(s.f, k.m); }); }
    else if(t == 6) { // limiters
        std::vector<double> wt(d, 0.5); double eps = 0.5; if(e < 2) wt[q.below(d)] = e ? 1.5 : -0.25; else { static const double bad[] = {0, 1, -0.5, 2}; eps = bad[e & 3]; } snprintf(lab, sizeof lab, "an anisotropic limiter with a %s out of range", e < 2 ? "weight" : "threshold"); w.rejects(lab, [&] { MultiIndexLimiter::Anisotropic z(wt, eps); }); }
    else if(t == 7) { MultiIndex m = multi(d), was = m; unsigned at = (unsigned)(d + (int)q.below(3)); snprintf(lab, sizeof lab, "%s entry %u of a multi-index of length %d", e % 2 ? "setting" : "reading", at, d); w.rejects(lab, [&] { if(e % 2) m.Set(at, 1u + (unsigned)(e & 2)); else m.Get(at); }); if(!(m == was) || m.Sum() != was.Sum() || m.Vector() != was.Vector()) w.R.fail("state-changed", "%s was rejected but the multi-index changed", lab); }
    else if(t == 8) { MultiIndex m = multi(d + 1), b = multi(d); w.rejects("AnyBounded by a shorter multi-index", [&] { m.AnyBounded(b); }); }
    else if(t < 12) { // an index set given what does not fit
        MultiIndexSet S = MultiIndexSet::CreateTotalOrder(d, (unsigned)q.below(3)), O = MultiIndexSet::CreateTotalOrder(d + 1, (unsigned)q.below(3)); for(int k = (int)q.below(3); k > 0; --k) S.Expand(); unsigned cap = S.MaxOrders()[0] + (unsigned)q.below(2); if(q.chance(0.5)) S.SetLimiter([cap](MultiIndex const& m) { return m.Sum() <= cap; }); else cap = 1000;
        std::string was = canon(S), owas = canon(O); MultiIndex wrong = multi(off), far((unsigned)d); for(int j = 0; j < d; ++j) far.Set(j, 40u); if(!off) wrong = multi(d + 1);
        static const char* nm[] = {"assigning a set of another length", "adding a set of another length", "adding an index of another length", "activating an index of another length", "forcibly activating an index of another length", "neighbours of an index that is not in it", "activating an index that is not admissible", "forcibly activating an index outside the limiter", "a limiter that excludes active terms", "asking for a term that does not exist", "expanding a term that does not exist"};
        int k = (int)q.below(11); if(k == 7 && cap == 1000) return; unsigned no = S.Size() + (unsigned)q.below(3); snprintf(lab, sizeof lab, "an index set of length %d: %s", d, nm[k]);
        w.rejects(lab, [&] { switch(k) { case 0: S = O; break; case 1: S += O; break; case 2: S += wrong; break; case 3: S.Activate(wrong); break; case 4: S.ForciblyActivate(wrong); break; case 5: S.BackwardNeighbors(far); break; case 6: S.Activate(far); break; case 7: S.ForciblyActivate(far); break; case 8: S.SetLimiter([](MultiIndex const&) { return false; }); break; case 9: S.at(no); break; default: S.ForciblyExpand(no); } });
        if(canon(S) != was || canon(O) != owas) w.R.fail("state-changed", "%s was rejected but the set changed", lab);
    } else if(t == 12) { Buf X(gaussian(q, d, 3), ROW); Obj m = affine(q, d, d); Obj k = d == 1 ? component(q, 1, c) : factoryTriangular(q, d, d, 1, randomOpts(q, c)); fillCoeffs(q, k); auto ob = ObjectiveFactory::CreateGaussianKLObjective<HS>(X.cview(), (unsigned)d); w.rejects("TestError without test data", [&] { ob->TestError(k.m); }); }
    else if(t == 13) { // training with an optimiser there is no such
        Buf X(gaussian(q, d, 4), ROW); Obj k = d == 1 ? component(q, 1, c) : factoryTriangular(q, d, d, 1, randomOpts(q, c)); fillCoeffs(q, k); Vec was = fromView(std::shared_ptr<const CMap>(k.m)->Coeffs()); auto ob = ObjectiveFactory::CreateGaussianKLObjective<HS>(X.cview(), X.cview(), (unsigned)d); TrainOptions op; op.opt_alg = e & 1 ? "LD_NONESUCH" : "";
        w.rejects("training with an unknown optimiser", [&] { TrainMap<HS>(k.m, ob, op); }); Vec now = fromView(std::shared_ptr<const CMap>(k.m)->Coeffs()); for(size_t i = 0; i < was.size(); ++i) if(now.size() != was.size() || !bits(now[i], was[i])) w.R.fail("state-changed", "training with an unknown optimiser was rejected but the coefficients changed");
    } else if(t == 14) { // the derivative that does not exist
        ref::Opts o = randomOpts(q, c); o.cont = false; Obj k = componentWith(q, d, o, randomTerms(q, d, c)); fillCoeffs(q, k); Mode m; m.api = e & 1; Mat x = gaussian(q, d, N); w.rejects("LogDeterminantInputGrad with discrete derivatives", [&] { runOp(w.R, k, LDINPUTGRAD, x, x, m); });
    } else if(t == 16) { // a covariance that is none
        Mat L(d, d), C(d, d); for(int i = 0; i < d; ++i) for(int j = 0; j < i; ++j) L(i, j) = 0.5 * q.normal(); for(int i = 0; i < d; ++i) L(i, i) = 1; int bad = (int)q.below(d); Vec D(d); for(int i = 0; i < d; ++i) D[i] = i == bad ? -q.uniform(0.2, 2) : q.uniform(0.2, 2); if(e == 7) for(auto& v : D) v = 0;
        for(int i = 0; i < d; ++i) for(int j = 0; j < d; ++j) for(int k = 0; k < d; ++k) C(i, j) += L(i, k) * D[k] * L(j, k); Buf B(C, (int)q.below(NLAYOUT)), M(gaussian(q, d, 1), COL); SV mv(M.p, Kokkos::LayoutStride(d, 1)); snprintf(lab, sizeof lab, "a Gaussian whose %dx%d covariance is not positive definite", d, d);
        w.rejects(lab, [&] { if(e & 1) GaussianSamplerDensity<HS> z(mv, B.view()); else GaussianSamplerDensity<HS> z(B.view()); });
    } else { // a summarised map whose summary has no coefficients
        Cfg u = c; u.pUnset = 1; Obj s = component(q, d, u), k = component(q, 2, c); if(s.n->coeffsSet()) return; fillCoeffs(q, k); SummarizedMap<HS> z(s.f, k.m); Buf X(gaussian(q, d + 1, N), ROW); w.rejects("a summarised map whose summary function has no coefficients", [&] { if(e & 1) z.Evaluate(X.cview()); else z.LogDeterminant(X.cview()); });
    }
    w.R.probe("misuse");
}
Mat rowMat(const Vec& v) { Mat m(1, (int)v.size()); m.a = v; return m; }
}
void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(6); R.sequential(); W w{R};
    Cfg c; c.maxTerms = 5; c.maxDim = 3; c.maxLayers = 3; c.depth = r.chance(0.5) ? 1 : 2; c.pAdaptive = 0.2; c.pUnset = 0.12;
    Obj top = r.chance(0.15) ? expansion(r, 1 + (int)r.below(3), 1 + (int)r.below(2), c) : anyMap(r, c); bool set = r.chance(0.85);
    if(set) fillCoeffs(r, top);
    collect(top, w.all); R.op("build %s", top.n->describe().c_str()); for(char ch : top.n->describe()) R.config(ch);
    int steps = 4 + (int)r.below(6);
    for(int k = 0; k < steps; ++k) {
        sim::Rng q = r.fork(100 + k); bool keep = R.keep(); Obj& o = q.chance(0.7) ? top : w.all[q.below(w.all.size())]; const Node& n = *o.n; int what = (int)q.below(22); if(!keep) continue;
        char lab[600];
        if(what < 6) { // any operation
            int kind = (int)q.below(NKIND); if(!supports(o, kind) || !n.ready() || !n.coeffsSet() || n.coarse() || (!n.nc && (kind == COEFFGRAD || kind == LDCOEFFGRAD))) continue;
            int N = 1 + (int)q.below(4); Mode m = randomMode(q); if(m.api == 2) m.fill = 0; Mat x = points(q, n, N), s = gaussian(q, n.out, N); Mat A = x, B = s;
            bool good = true; for(int j = 0; j < N; ++j) { Vec col = x.col(j); good = good && sane(n, col.data()); } if(!good) continue;
            if(kind == INVERSE) { B = refOp(n, EVAL, x, s); A = Mat(n.in - n.out, N); for(int i = 0; i < A.r; ++i) for(int j = 0; j < N; ++j) A(i, j) = x(i, j); }
            snprintf(lab, sizeof lab, "%s (api %d) of %d points on %.400s", kindName[kind], m.api, N, n.describe().c_str()); w.pure(q.fork(1), lab, [&] { return runOp(R, o, kind, A, B, m); }); R.probe(kindName[kind]);
        } else if(what < 8) { // coefficients
            if(!n.nc) continue; Vec v = randomCoeffs(q, n); Snap was(w.all); Vec old = n.coeffsSet() ? n.coeffs() : Vec(); bool eig = q.chance(0.4); DV kv = toView(v); Eigen::VectorXd ev(n.nc); for(int j = 0; j < n.nc; ++j) ev(j) = v[j];
            std::shared_ptr<const PFun> cf = o.f; snprintf(lab, sizeof lab, "SetCoeffs (%s) on %.400s", eig ? "Eigen" : "view", n.describe().c_str());
            w.mutating(q.fork(1), lab, [&] { sim::LibScope ls; if(eig) o.f->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(ev)); else { Kokkos::View<const double*, HS> cv = kv; o.f->SetCoeffs(cv); } },
                [&] { // all or nothing: the old vector or the new one
                    Snap now(w.all); if(was.diff(now) < 0) return true; if(old.empty()) return false; auto g = cf->Coeffs(); for(int j = 0; j < n.nc; ++j) if(!bits(g(j), v[j])) return false; return true; }, [&] { if(!cf->CheckCoefficients()) return false; auto g = cf->Coeffs(); for(int j = 0; j < n.nc; ++j) if(!bits(g(j), v[j])) return false; return true; });
            o.n->set(v); R.probe("SetCoeffs");
        } else if(what == 8) { // build a container over existing parts
            std::vector<Obj> sq; for(auto& x : w.all) if(x.m && x.n->in == x.n->out) sq.push_back(x); if(sq.empty()) continue;
            Obj a = sq[q.below(sq.size())]; std::vector<Obj> parts; int t = (int)q.below(2); int L = 1 + (int)q.below(2); for(int i = 0; i < (t ? 1 : L); ++i) parts.push_back(a);
            bool allset = a.n->coeffsSet(), move = allset && a.n->nc && q.chance(0.6); std::vector<std::shared_ptr<CMap>> ms; for(auto& p : parts) ms.push_back(p.m); std::shared_ptr<CMap> made; Snap was(w.all);
            snprintf(lab, sizeof lab, "building a %s of %zu parts%s: %.400s", t ? "TriangularMap" : "ComposedMap", parts.size(), move ? " with moved coefficients" : "", a.n->describe().c_str());
            w.mutating(q.fork(1), lab, [&] { sim::LibScope ls; made.reset(); if(t) made = std::make_shared<TriangularMap<HS>>(ms, move); else made = std::make_shared<ComposedMap<HS>>(ms, move); },
                [&] { Snap now(w.all); return was.diff(now) < 0; },
                [&] { // parts of the part that had gone their own way follow it again, nothing else changes
                    std::vector<Obj> under; collect(a, under); Snap now(w.all); for(size_t i = 0; i < w.all.size(); ++i) if(move && w.all[i].f != a.f) for(auto& u : under) if(u.f == w.all[i].f) { now.s[i] = was.s[i]; break; }
                    return made && was.diff(now) < 0 && (!move || made->CheckCoefficients()); });
            R.probe("container");
        } else if(what == 9) { // factories
            ref::Opts op = randomOpts(q, c); int d = 1 + (int)q.below(3), ord = 1 + (int)q.below(2); MapOptions mo = realOpts(op); std::shared_ptr<PFun> made; int t = (int)q.below(3), outd = 1 + (int)q.below(d); unsigned want = 0;
            snprintf(lab, sizeof lab, "MapFactory %s, %d inputs, order %d", t == 0 ? "CreateComponent" : t == 1 ? "CreateTriangular" : "CreateExpansion", d, ord);
            w.mutating(q.fork(1), lab, [&] { sim::LibScope ls; made.reset(); if(t == 0) made = MapFactory::CreateComponent<HS>(FixedMultiIndexSet<HS>(d, ord), mo); else if(t == 1) made = MapFactory::CreateTriangular<HS>(d, outd, ord, mo); else made = MapFactory::CreateExpansion<HS>(outd, FixedMultiIndexSet<HS>(d, ord), mo); },
                [&] { return true; }, [&] { if(!made || !made->CheckCoefficients()) return false; std::shared_ptr<const PFun> cf = made; auto g = cf->Coeffs(); want = made->numCoeffs; for(unsigned j = 0; j < want; ++j) if(g(j) != 0) return false; return (int)made->inputDim == d; });
            R.probe("factory");
        } else if(what == 10) { // save and load
            if(n.kind != ref::COMPONENT && n.kind != ref::TRIANGULAR) continue; std::string blob; { std::ostringstream s; try { sim::LibScope ls; o.f->Save(s); } catch(const std::exception&) { continue; } blob = s.str(); }
            Snap was(w.all); std::string out; std::shared_ptr<PFun> l;
            snprintf(lab, sizeof lab, "Save of %.400s", n.describe().c_str());
            w.mutating(q.fork(1), lab, [&] { std::ostringstream s; { sim::LibScope ls; o.f->Save(s); } sim::NoFault nf; out = s.str(); }, [&] { Snap now(w.all); return was.diff(now) < 0; }, [&] { return out.size() == blob.size(); });
            snprintf(lab, sizeof lab, "Load of %.400s", n.describe().c_str());
            w.mutating(q.fork(2), lab, [&] { std::istringstream s(blob); sim::LibScope ls; l.reset(); l = PFun::Load(s); }, [&] { return true; }, [&] { return l && l->numCoeffs == o.f->numCoeffs && l->CheckCoefficients() == o.f->CheckCoefficients(); });
            R.probe("save_load");
        } else if(what == 11) { // densities and samplers
            Dens d = randomDensity(q, 1); int kind = (int)q.below(3); if(!densSupports(d, kind)) continue; int N = 1 + (int)q.below(3); Mat x = densPoints(q, d, N); if(!x.c) continue; Mode m = randomMode(q); m.fill = 0;
            snprintf(lab, sizeof lab, "%s of %.400s", densKindName[kind], d.desc.c_str()); w.pure(q.fork(1), lab, [&] { return runDens(R, d, kind, x, m); }); R.probe("density");
            if(d.s) { unsigned seed = (unsigned)q.next(); snprintf(lab, sizeof lab, "SetSeed and Sample of %.400s", d.desc.c_str()); sim::Rng qq = q.fork(2); w.pure(qq, lab, [&] { sim::LibScope ls; d.s->SetSeed(seed); auto v = d.s->Sample(N); Mat o2((int)v.extent(0), (int)v.extent(1)); for(int i = 0; i < o2.r; ++i) for(int j = 0; j < o2.c; ++j) o2(i, j) = v(i, j); return R.threads > 1 ? Mat(o2.r, o2.c) : o2; }); R.probe("sampler"); }
        } else if(what == 12) { // objectives
            if(!o.m || !n.ready() || !n.coeffsSet() || n.coarse() || !supports(o, LDCOEFFGRAD) || !n.nc) continue; int N = 2 + (int)q.below(4); Mat x = points(q, n, N); Buf X(x, (int)q.below(NLAYOUT)); bool good = true; for(int j = 0; j < N; ++j) { Vec col = x.col(j); good = good && sane(n, col.data()); } if(!good) continue;
            int t = (int)q.below(3); snprintf(lab, sizeof lab, "%s of a Gaussian objective on %.400s", t == 0 ? "TrainError" : t == 1 ? "TestError" : "TrainCoeffGrad", n.describe().c_str());
            std::shared_ptr<MapObjective<HS>> ob = ObjectiveFactory::CreateGaussianKLObjective<HS>(X.cview(), X.cview(), (unsigned)n.out);
            if(R.threads > 1) continue; // the reduction's order is the team's
            w.pure(q.fork(1), lab, [&] { sim::LibScope ls; if(t < 2) return Mat(rowMat(Vec(1, t ? ob->TestError(o.m) : ob->TrainError(o.m)))); auto g = ob->TrainCoeffGrad(o.m); Vec v(g.extent(0)); for(size_t i = 0; i < v.size(); ++i) v[i] = g(i); return rowMat(v); }); R.probe("objective");
        } else if(what < 17) { // malformed arguments
            if(q.chance(0.4)) { misuse(w, q.fork(77), c); continue; }
            int t = (int)q.below(19); auto dimOff = [&](int d) { int e = q.chance(0.5) ? d + 1 + (int)q.below(3) : d - 1; return e < 0 ? d + 1 : e; };
            if(t < 5) { // operations with matrices of the wrong size
                int kind = (int)q.below(NKIND); if(!supports(o, kind) || !n.ready() || !n.coeffsSet()) continue; Mode m; m.api = (int)q.below(2); m.inLay = (int)q.below(NLAYOUT); m.in2Lay = (int)q.below(NLAYOUT); int N = 1 + (int)q.below(3);
                bool two = kind == INVERSE || kind == COEFFGRAD || kind == GRADIENT; int w2 = two ? (int)q.below(3) : 0; // which of: rows of first, rows of second, columns of second
                int ar = kind == INVERSE ? n.in - n.out : n.in, br = n.out, bc = N; if(kind == INVERSE && w2 == 0) w2 = 1; if(w2 == 0) ar = dimOff(ar); else if(w2 == 1) br = dimOff(br); else bc = dimOff(N);
                if(bc == 0 && w2 == 2) bc = N + 1; int ac = N;
                if(q.chance(0.3)) { // the right number of entries in the wrong shape
                    bool second = two && (kind == INVERSE || q.chance(0.6)); int rows = second ? n.out : n.in; ar = kind == INVERSE ? n.in - n.out : n.in; br = n.out; bc = N;
                    if(rows == N || !rows) continue; if(second) { br = N; bc = rows; } else { ar = N; ac = rows; } }
                Mat A = gaussian(q, ar, ac), B = gaussian(q, br, two ? bc : ac);
                snprintf(lab, sizeof lab, "%s (api %d) with arguments %dx%d and %dx%d on %.300s", kindName[kind], m.api, A.r, A.c, B.r, B.c, n.describe().c_str()); w.rejects(lab, [&] { runOp(R, o, kind, A, B, m); });
            } else if(t == 5) { // conditioning inputs missing
                if(!o.m || n.in == n.out || !n.ready() || !n.coeffsSet() || n.kind == ref::IDENTITY || (n.kind == ref::AFFINE && !n.hasA)) continue; if(n.kind == ref::TRIANGULAR || n.kind == ref::COMPONENT || n.kind == ref::SUMMARIZED || n.kind == ref::AFFINE) { int N = 1 + (int)q.below(3); Mode m; m.api = (int)q.below(2); Mat A = gaussian(q, n.in - n.out - 1, N), B = gaussian(q, n.out, N); snprintf(lab, sizeof lab, "Inverse with %d conditioning rows instead of %d on %.300s", A.r, n.in - n.out, n.describe().c_str()); w.rejects(lab, [&] { runOp(R, o, INVERSE, A, B, m); }); }
            } else if(t == 6) w.rejects("TriangularMap of no components", [&] { std::vector<std::shared_ptr<CMap>> v; TriangularMap<HS> z(v); });
            else if(t == 7) w.rejects("ComposedMap of no maps", [&] { std::vector<std::shared_ptr<CMap>> v; ComposedMap<HS> z(v); });
            else if(t == 8) { if(!o.m) continue; Obj b = component(q, n.in + 2 + (int)q.below(2), c); w.rejects("TriangularMap of components that do not fit", [&] { std::vector<std::shared_ptr<CMap>> v{o.m, b.m}; TriangularMap<HS> z(v); }); }
            else if(t == 9) { Obj a = affine(q, 2, 2), b = q.chance(0.5) ? affine(q, 3, 3) : identity(2, 1); w.rejects("ComposedMap of layers that do not fit", [&] { std::vector<std::shared_ptr<CMap>> v{a.m, b.m}; ComposedMap<HS> z(v); }); }
            else if(t == 10) { int rr = 1 + (int)q.below(3), bl = rr > 1 && q.chance(0.5) ? rr - 1 : rr + 1 + (int)q.below(2); Buf A(gaussian(q, rr + 1, rr), COL), B(gaussian(q, rr, rr + (int)q.below(2)), COL), b(gaussian(q, bl, 1), COL); SV bv(b.p, Kokkos::LayoutStride(bl, 1)); int which = (int)q.below(4);
                w.rejects("affine map or function of inconsistent shape", [&] { if(which == 0) AffineMap<HS> z(A.view()); else if(which == 1) AffineMap<HS> z(B.view(), bv); else if(which == 2) AffineFunction<HS> z(A.view()); else AffineFunction<HS> z(B.view(), bv); }); }
            else if(t == 11) { Obj s = affineFn(q, 2, 1), b = component(q, 3, c); w.rejects("SummarizedMap of parts that do not fit", [&] { SummarizedMap<HS> z(s.f, b.m); }); }
            else if(t == 12) { int d = 1 + (int)q.below(3); Buf C(Mat(d + 1, d + 1), COL), D(gaussian(q, d, d + 1), COL), mm(gaussian(q, d, 1), COL); for(int i = 0; i <= d; ++i) C.p[i * C.s0 + i * C.s1] = 1; SV mv(mm.p, Kokkos::LayoutStride(d, 1)); bool e = q.chance(0.5); w.rejects("Gaussian with inconsistent mean and covariance", [&] { if(e) GaussianSamplerDensity<HS> z(mv, C.view()); else GaussianSamplerDensity<HS> z(D.view()); }); }
            else if(t == 13) { if(!o.m) continue; auto g = std::make_shared<GaussianSamplerDensity<HS>>((unsigned)n.out + 1); int e = (int)q.below(2); w.rejects("pulled-back density or sampler of mismatched dimensions", [&] { if(e) PullbackDensity<HS> z(o.m, g); else PushforwardSampler<HS> z(o.m, g); }); }
            else if(t == 14) { int d = 1 + (int)q.below(3); FixedMultiIndexSet<HS> fs(d, 2); unsigned i = fs.Size() + (unsigned)q.below(3); MultiIndexSet ms = MultiIndexSet::CreateTotalOrder(d, 2); int e = (int)q.below(6); MultiIndex wrong((unsigned)d + 1, 1u);
                w.rejects("index-set access out of range", [&] { if(e == 0) fs.IndexToMulti(i); else if(e == 1) ms.IndexToMulti(i); else if(e == 2) ms.Expand(i); else if(e == 3) ms.ForciblyExpand(i); else if(e == 4) ms.BackwardNeighbors(i); else ms.AdmissibleForwardNeighbors(i); }); }
            else if(t == 15) { int d = 1 + (int)q.below(3); ref::Opts op = randomOpts(q, c); int e = (int)q.below(2); w.rejects("CreateTriangular with impossible dimensions", [&] { if(e) MapFactory::CreateTriangular<HS>(d, d + 1, 1, realOpts(op)); else MapFactory::CreateTriangular<HS>(d, 0, 1, realOpts(op)); }); }
            else if(t == 18) { ref::Opts op = randomOpts(q, c); int e = (int)q.below(6); if(e == 0) { op.lb = q.normal(); op.ub = op.lb - (q.chance(0.3) ? 0 : q.uniform(0, 2)); } else if(e == 1) { op.quad = ref::ACC; op.pts = (int)q.below(4); } else if(e == 2) { op.quad = q.chance(0.5) ? ref::ACC : ref::SIMPSON; op.pts = 5; op.minSub = 1 + (int)q.below(8); op.maxSub = op.minSub - (int)q.below(op.minSub + 1); } else if(e == 3) { op.quad = ref::CC; op.pts = 0; } else if(e == 4) op.nugget = -q.uniform(0.01, 1); else op.nugget = NAN;
                int d = 1 + (int)q.below(3); FixedMultiIndexSet<HS> fs(d, 2); bool tri = q.chance(0.3), ex = e == 0 && q.chance(0.4); snprintf(lab, sizeof lab, "creating a component with impossible settings (%s)", e == 0 ? "bounds" : e == 1 ? "points of the adaptive rule" : e == 2 ? "subdivisions" : e == 3 ? "no points" : "nugget");
                w.rejects(lab, [&] { if(ex) MapFactory::CreateExpansion<HS>(1, fs, realOpts(op)); else if(tri) MapFactory::CreateTriangular<HS>(d, d, 1, realOpts(op)); else MapFactory::CreateComponent<HS>(fs, realOpts(op)); }); }
            else if(t == 16) { Obj b = component(q, 2, c); int e = (int)q.below(3); w.rejects("CreateSingleEntryMap with an impossible index", [&] { MapFactory::CreateSingleEntryMap<HS>(e == 0 ? 1 : 3, e == 0 ? 2 : e == 1 ? 1 : 3, b.m); }); }
            else { if(n.kind != ref::TRIANGULAR && n.kind != ref::COMPOSED) continue; auto tm = std::dynamic_pointer_cast<TriangularMap<HS>>(o.m); auto cm = std::dynamic_pointer_cast<ComposedMap<HS>>(o.m); w.rejects("GetComponent out of range", [&] { if(tm) tm->GetComponent(100); else cm->GetComponent(100); }); }
            R.probe("malformed");
        } else if(what >= 20) { indexSets(w, q); R.probe("index_set");
        } else { // values that overflow
            int kind = (int)q.below(NKIND); if(!supports(o, kind) || !n.ready() || !n.coeffsSet() || (!n.nc && (kind == COEFFGRAD || kind == LDCOEFFGRAD))) continue; Mode m = randomMode(q); int N = 1 + (int)q.below(3);
            static const double big[] = {1e308, -1e308, 1e160, -1e160, INFINITY, -INFINITY, NAN, 1e5, -40.0, 710.0, 5e-324};
            Mat A = gaussian(q, kind == INVERSE ? n.in - n.out : n.in, N), B = gaussian(q, n.out, N); for(auto& v : A.a) if(q.chance(0.3)) v = big[q.below(11)]; if(kind == INVERSE) for(auto& v : B.a) if(q.chance(0.5)) v = big[q.below(11)];
            R.fault("overflow_input"); R.op("%s (api %d) of extreme points on %s", kindName[kind], m.api, n.describe().c_str()); Snap was(w.all); bool threw = false; R.perturbed();
            try { Mat g = runOp(R, o, kind, A, B, m); } catch(const std::exception&) { threw = true; } R.sequential();
            w.unchanged(was, "an operation on extreme values", threw ? "exception" : "no exception"); R.probe(threw ? "overflow_reported" : "overflow_result");
        }
    }
}
