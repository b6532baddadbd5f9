// P07: training never makes a map worse, honours its limits, gives one answer under every interleaving, and survives an objective that
// throws, returns nonsense or runs out of memory, and a clock that stalls or jumps, at any evaluation.
#include "dens.h"
#include "MParT/TrainMap.h"
#include "MParT/MapObjective.h"
#include <nlopt.hpp>
#include <algorithm>
#include <cstring>
#include <csignal>
#include <sys/time.h>
using namespace world;
using namespace mpart;
const char* workloadName = "p07"; bool workloadInitKokkos = true; void workloadSetup() {}
namespace {
bool bits(double a, double b) { return !memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)); }
bool same(const Vec& a, const Vec& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!bits(a[i], b[i])) return false; return true; }
bool finite(const Vec& v) { for(double x : v) if(!std::isfinite(x)) return false; return true; }
struct Eval { Vec c; double f; Vec g; double t; };
enum FaultKind { NONE, THROW_STD, THROW_ALLOC, THROW_ARG, THROW_ODD, NANVAL, INFVAL, NEGINF, NANGRAD, HUGEGRAD, OOM, OOM_LATER, NFAULT };
const char* faultName[NFAULT] = {"none", "objective_throws", "objective_throws_bad_alloc", "objective_throws_invalid_argument", "objective_throws_int", "objective_nan", "objective_inf", "objective_minus_inf", "gradient_nan", "gradient_huge", "alloc_failure", "alloc_failure_persistent"};
enum ClockKind { STEADY, STALL, FORWARD, BACKWARD, FROZEN };
struct Plan { int fault = NONE, at = 0; uint64_t nth = 1; int clock = STEADY, clockAt = 0; double dt = 0; };
double colMean(const Mat& m, int i) { double s = 0; for(int j = 0; j < m.c; ++j) s += m(i, j); return s / m.c; }

// wraps the objective under training: writes down every evaluation, and injects the planned fault
struct Recorder : public MapObjective<HS> {
    sim::Run& R; std::shared_ptr<KLObjective<HS>> kl; int synth; Vec target, weight; // synth: objective of the coefficients alone
    mutable std::vector<Eval> ev; mutable bool otherData = false; Mat want; mutable Plan plan; mutable bool fired = false, clocked = false, raised = false;
    Recorder(sim::Run& R_, StridedMatrix<const double, HS> tr, StridedMatrix<const double, HS> te, std::shared_ptr<DensityBase<HS>> d, int syn) : MapObjective<HS>(tr, te), R(R_), kl(std::make_shared<KLObjective<HS>>(tr, te, d)), synth(syn) {}
    double core(StridedMatrix<const double, HS> data, StridedVector<double, HS>* grad, std::shared_ptr<CMap> map) const
    {
        if(!synth) { if(grad) return kl->ObjectivePlusCoeffGradImpl(data, *grad, map); return kl->ObjectiveImpl(data, map); }
        std::shared_ptr<const CMap> cm = map; auto c = cm->Coeffs(); int n = (int)c.size(); double f = 0; Vec g(n, 0.0);
        if(synth == 1) for(int i = 0; i < n; ++i) { double d = c(i) - target[i]; f += weight[i] * d * d; g[i] = 2 * weight[i] * d; }
        else if(synth == 2) { for(int i = 0; i < n; ++i) { double d = c(i) - target[i]; f += d * d; g[i] += 2 * d; if(i + 1 < n) { double e = c(i + 1) - c(i) * c(i); f += 10 * e * e; g[i + 1] += 20 * e; g[i] -= 40 * e * c(i); } } }
        else for(int i = 0; i < n; ++i) { double d = c(i) - target[i]; f += weight[i] * (std::sqrt(1e-6 + d * d) + 0.1 * (1 - std::cos(7 * d))); g[i] = weight[i] * (d / std::sqrt(1e-6 + d * d) + 0.7 * std::sin(7 * d)); }
        if(grad) for(int i = 0; i < n; ++i) (*grad)(i) = g[i];
        return f;
    }
    double run(StridedMatrix<const double, HS> data, StridedVector<double, HS>* grad, std::shared_ptr<CMap> map) const
    {
        Eval e; int k; bool hit;
        { sim::NoFault nf; std::shared_ptr<const CMap> cm = map; e.c = fromView(cm->Coeffs()); e.t = sim::now(); k = (int)ev.size(); ev.push_back(e); otherData = otherData || (int)data.extent(0) != want.r || (int)data.extent(1) != want.c; for(int i = 0; !otherData && i < want.r; ++i) for(int j = 0; j < want.c; ++j) otherData = otherData || !bits(data(i, j), want(i, j)); hit = plan.fault && k == plan.at;
          if(plan.clock == STALL && k >= plan.clockAt) { sim::advance(plan.dt); clocked = true; } else if((plan.clock == FORWARD || plan.clock == BACKWARD) && k == plan.clockAt) { sim::advance(plan.clock == FORWARD ? plan.dt : -plan.dt); clocked = true; } else sim::advance(1e-3);
        }
        if(hit) { fired = true; raised = plan.fault <= THROW_ODD;
            switch(plan.fault) { case THROW_STD: throw std::runtime_error("objective failed"); case THROW_ALLOC: throw std::bad_alloc(); case THROW_ARG: throw std::invalid_argument("objective"); case THROW_ODD: throw 42; } }
        if(hit && plan.fault >= OOM) { sim::armAllocFault(plan.nth, plan.fault == OOM_LATER); fired = false; }
        double f; try { f = core(data, grad, map); } catch(...) { raised = true; if(hit && plan.fault >= OOM) { fired = sim::allocFaultFired(); if(plan.fault == OOM) sim::disarmAllocFault(); } throw; }
        if(hit && plan.fault == OOM) { fired = sim::allocFaultFired(); sim::disarmAllocFault(); }
        if(hit) { int n = (int)e.c.size(); if(plan.fault == NANVAL) f = NAN; if(plan.fault == INFVAL) f = INFINITY; if(plan.fault == NEGINF) f = -INFINITY; if(grad && n && plan.fault == NANGRAD) (*grad)(k % n) = NAN; if(grad && n && plan.fault == HUGEGRAD) (*grad)(k % n) = 1e300; }
        sim::NoFault nf; ev[k].f = f; if(grad) for(size_t i = 0; i < e.c.size(); ++i) ev[k].g.push_back((*grad)(i)); return f;
    }
    double ObjectiveImpl(StridedMatrix<const double, HS> data, std::shared_ptr<CMap> map) const override { return run(data, nullptr, map); }
    void CoeffGradImpl(StridedMatrix<const double, HS> data, StridedVector<double, HS> grad, std::shared_ptr<CMap> map) const override { run(data, &grad, map); }
    double ObjectivePlusCoeffGradImpl(StridedMatrix<const double, HS> data, StridedVector<double, HS> grad, std::shared_ptr<CMap> map) const override { return run(data, &grad, map); }
};
struct Alg { const char* name; bool grad, returnsBest; int slack; bool exactStart = true, keepsGain = true; }; // COBYLA and BOBYQA rescale, so begin a rounding error away; COBYLA stops on a tolerance wherever it is
const Alg algs[] = {{"LD_SLSQP", true, true, 1}, {"LD_SLSQP", true, true, 1}, {"LD_LBFGS", true, false, 40}, {"LD_MMA", true, true, 1}, {"LD_CCSAQ", true, true, 1}, {"LD_VAR1", true, false, 40}, {"LD_VAR2", true, false, 40}, {"LD_TNEWTON", true, false, 40}, {"LD_TNEWTON_PRECOND_RESTART", true, false, 40},
    {"LN_COBYLA", false, false, 1, false, false}, {"LN_BOBYQA", false, true, 1, false}, {"LN_NELDERMEAD", false, true, 1}, {"LN_SBPLX", false, true, 1}, {"LN_PRAXIS", false, true, 40}};
struct Outcome { int threw = 0; std::string what; double err = NAN; Vec coeffs; std::vector<Eval> ev; };
}
// the one combination known not to end: NLopt's COBYLA once the objective has been non-finite
static sim::Run* g_R;
static void tooLong(int) { g_R->fail("cobyla-nonfinite", "TrainMap with LN_COBYLA is still in the optimiser, evaluating nothing, two seconds of processor time after the objective returned a non-finite value"); }
static void cobyla(sim::Run& R)
{
    g_R = &R; sim::Rng r = R.rng.fork(99); ref::Opts o; Obj m = componentWith(r, 1, o, {{0}, {1}, {2}}); setCoeffs(m, Vec(3, 0.1)); Mat x = gaussian(r, 1, 5); Buf X(x, ROW);
    auto rec = std::make_shared<Recorder>(R, X.cview(), X.cview(), std::make_shared<GaussianSamplerDensity<HS>>(1u), 0); rec->want = x; rec->plan.fault = NEGINF; rec->plan.at = 0; TrainOptions op; op.opt_alg = "LN_COBYLA"; op.opt_maxeval = 5;
    R.op("train a component with LN_COBYLA, first value minus infinity"); R.fault("objective_minus_inf");
    struct sigaction sa{}; sa.sa_handler = tooLong; sa.sa_flags = SA_ONSTACK; sigaction(SIGVTALRM, &sa, nullptr); itimerval it{{0, 0}, {2, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    try { sim::LibScope ls; TrainMap<HS>(m.m, rec, op); } catch(const std::exception&) {}
    itimerval off{}; setitimer(ITIMER_VIRTUAL, &off, nullptr); R.checked();
}
// every way to make and to ask an objective gives the same numbers
struct Plain : public MapObjective<HS> { // implements the two required operations and inherits the rest
    std::shared_ptr<KLObjective<HS>> kl; Plain(StridedMatrix<const double, HS> tr, std::shared_ptr<KLObjective<HS>> k) : MapObjective<HS>(tr), kl(k) {}
    double ObjectiveImpl(StridedMatrix<const double, HS> d, std::shared_ptr<CMap> m) const override { return kl->ObjectiveImpl(d, m); }
    void CoeffGradImpl(StridedMatrix<const double, HS> d, StridedVector<double, HS> g, std::shared_ptr<CMap> m) const override { kl->CoeffGradImpl(d, g, m); }
};
static void objectives(sim::Run& R, sim::Rng& r, Obj& o, const Dens& g, const Mat& x, const Mat& xt, Buf& X, Buf& XT, double e, double te, const Mat& lg, const Vec& at)
{
    bool std = g.desc == "std"; int n = o.n->nc, out = o.n->out, kind = (int)r.below(std ? 5 : 3); std::shared_ptr<MapObjective<HS>> ob; bool test = false; unsigned dim = out == o.n->in && r.chance(0.5) ? 0u : (unsigned)out; const char* name[] = {"KL with test data", "KL without test data", "derived", "factory without test data", "factory with test data"};
    { sim::LibScope ls; auto kl = std::make_shared<KLObjective<HS>>(X.cview(), g.d);
      switch(kind) { case 0: ob = std::make_shared<KLObjective<HS>>(X.cview(), XT.cview(), g.d); test = true; break; case 1: ob = kl; break; case 2: ob = std::make_shared<Plain>(X.cview(), kl); break;
        case 3: ob = dim ? ObjectiveFactory::CreateGaussianKLObjective<HS>(X.cview(), dim) : ObjectiveFactory::CreateGaussianKLObjective<HS>(X.cview()); break;
        default: ob = dim ? ObjectiveFactory::CreateGaussianKLObjective<HS>(X.cview(), XT.cview(), dim) : ObjectiveFactory::CreateGaussianKLObjective<HS>(X.cview(), XT.cview()); test = true; } }
    const char* w = name[kind]; R.op("objective: %s", w);
    if((int)ob->InputDim() != x.r || (int)ob->NumSamples() != x.c) R.fail("objective-shape", "objective (%s) over %dx%d points reports %u inputs and %u samples", w, x.r, x.c, ob->InputDim(), ob->NumSamples());
    auto gt = ob->GetTrain(), gs = ob->GetTest(); bool eq = (int)gt.extent(0) == x.r && (int)gt.extent(1) == x.c && (test ? (int)gs.extent(1) == xt.c : gs.extent(0) == 0);
    for(int i = 0; eq && i < x.r; ++i) { for(int j = 0; j < x.c; ++j) eq = eq && bits(gt(i, j), x(i, j)); for(int j = 0; test && j < xt.c; ++j) eq = eq && bits(gs(i, j), xt(i, j)); }
    if(!eq) R.fail("objective-data", "objective (%s) does not hand back the data it was made with", w);
    int what = (int)r.below(4); double f = NAN; Vec gr(n, NAN); bool threw = false; Vec other = at; for(auto& v : other) v += 0.5; if(what < 2) setCoeffs(o, other); R.perturbed();
    { sim::LibScope ls; switch(what) { case 0: f = (*ob)((unsigned)n, at.data(), nullptr, o.m); break; case 1: f = (*ob)((unsigned)n, at.data(), gr.data(), o.m); break;
        case 2: f = ob->TrainError(o.m); ob->TrainCoeffGradImpl(o.m, ToKokkos<double, HS>(gr.data(), (unsigned)n)); break; default: f = ob->TrainError(o.m); } }
    double t = NAN; try { sim::LibScope ls; t = ob->TestError(o.m); } catch(const std::exception&) { threw = true; } R.sequential();
    double sc = 1; for(double v : lg.a) sc = std::max(sc, std::fabs(v)); auto bad = [&](double a, double b) { return !close(a, b, 1e-7 * sc, 1e-7); };
    if(!close(f, e, 1e-7 * std::max(1., std::fabs(e)), 1e-6)) R.fail("objective-value", "objective (%s, asked in way %d) is %.14g on the training data, the mean negative log-likelihood is %.14g; %s", w, what, f, e, o.n->describe().c_str());
    if(what == 1 || what == 2) for(int i = 0; i < n; ++i) if(bad(gr[i], -colMean(lg, i))) R.fail("objective-grad", "objective (%s, asked in way %d): derivative %d is %.14g, it should be %.14g; %s", w, what, i, gr[i], -colMean(lg, i), o.n->describe().c_str());
    if(threw == test || (test && !close(t, te, 1e-7 * std::max(1., std::fabs(te)), 1e-6))) R.fail("objective-test", "objective (%s): TestError %s %.14g, the mean negative log-likelihood of the test data is %.14g; %s", w, threw ? "threw" : "is", t, te, o.n->describe().c_str());
    std::shared_ptr<const CMap> cm = o.m; if(what < 2 && !same(fromView(cm->Coeffs()), at)) R.fail("objective-coeffs", "asking the objective (%s) at coefficients did not leave the map there", w);
    R.checked(3); R.probe(w); R.probe(what == 0 ? "asked_without_gradient" : what == 1 ? "asked_with_gradient" : "asked_directly");
}
void workloadMain(sim::Run& R)
{
    if(R.seed % 1000 == 7) { R.sequential(); cobyla(R); return; }
    sim::Rng r = R.rng.fork(7); R.sequential(); Cfg c; c.maxDim = 3; c.maxTerms = 5; c.maxOrder = 2; c.depth = 1; c.maxLayers = 2; c.pAdaptive = 0.1; c.maxSub = 6;
    Obj o; for(int t = 0; t < 30; ++t) { o = anyMap(r, c); if(o.m && o.n->nc && o.n->nc <= 14 && supports(o, LDCOEFFGRAD)) break; o = Obj(); }
    if(!o) return;
    bool unset = r.chance(0.15); Vec start = randomCoeffs(r, *o.n); for(auto& v : start) v *= 0.5; if(unset) start.assign(o.n->nc, 1.0);
    if(!unset || o.n->coeffsSet()) { setCoeffs(o, start); unset = false; } else if(!o.n->ready()) return;
    int syn = r.chance(0.35) ? 1 + (int)r.below(3) : 0, N = 2 + (int)r.below(r.chance(0.2) ? 40 : 10), NT = 1 + (int)r.below(6); if(o.n->adaptive()) N = std::min(N, 8); Mat x = gaussian(r, o.n->in, N), xt = gaussian(r, o.n->in, NT);
    Buf X(x, (int)r.below(NLAYOUT)), XT(xt, (int)r.below(NLAYOUT)); Dens g = gaussianDens(r, o.n->out); if(r.chance(0.5)) { g = Dens(); g.in = o.n->out; g.g.dim = g.in; g.d = std::make_shared<GaussianSamplerDensity<HS>>((unsigned)o.n->out); g.desc = "std"; }
    auto rec = std::make_shared<Recorder>(R, X.cview(), XT.cview(), g.d, syn); rec->want = x; for(int i = 0; i < o.n->nc; ++i) { rec->target.push_back(r.normal()); rec->weight.push_back(r.uniform(0.1, 3)); }
    const Alg& al = algs[r.below(sizeof algs / sizeof *algs)]; if(!al.grad && !strcmp(al.name, "LN_COBYLA") && !syn) rec->synth = syn = 1 + (int)r.below(3); // the built-in objective can overflow: see cobyla()
    TrainOptions op; op.opt_alg = al.name; static const int evs[] = {1, 2, 3, 5, 8, 20, 60, 1000}; op.opt_maxeval = evs[r.below(syn ? 8 : 7)];
    if(o.n->adaptive() && op.opt_maxeval > 8) op.opt_maxeval = 8;
    if(r.chance(0.6)) { op.opt_ftol_rel = op.opt_ftol_abs = op.opt_xtol_rel = op.opt_xtol_abs = r.chance(0.5) ? 1e-8 : 0; if(op.opt_ftol_rel == 0 && op.opt_maxeval > 60) op.opt_maxeval = 60; }
    else if(r.chance(0.6)) for(double* t : {&op.opt_ftol_rel, &op.opt_ftol_abs, &op.opt_xtol_rel, &op.opt_xtol_abs}) *t = r.chance(0.25) ? 0 : std::pow(10.0, -r.uniform(0, 9));
    if(r.chance(0.1)) op.opt_stopval = r.uniform(-1, 3); bool timed = r.chance(0.35); if(timed) op.opt_maxtime = r.chance(0.3) ? 0.01 : r.uniform(0.002, 0.2);
    R.op("train %s with %s, maxeval %d, maxtime %g, ftol %g, %s objective on %d points, %s", o.n->describe().c_str(), al.name, op.opt_maxeval, op.opt_maxtime, op.opt_ftol_rel, syn ? "synthetic" : "KL", N, unset ? "coefficients unset" : "coefficients set");
    for(char ch : o.n->describe()) R.config(ch); R.config(syn * 100 + (&al - algs));
    std::shared_ptr<const CMap> cm = o.m; bool first = true;
    auto train = [&](const Plan& p, bool par) {
        Outcome u; if(!(unset && first)) { sim::LibScope ls; setCoeffs(o, start); } first = false; nlopt::srand(5); rec->ev.clear(); rec->plan = p; rec->fired = rec->clocked = rec->raised = false; sim::freezeClock(p.clock == FROZEN); if(par) R.perturbed();
        try { sim::LibScope ls; u.err = TrainMap<HS>(o.m, rec, op); } catch(const std::exception& e) { u.threw = 1; u.what = e.what(); } catch(...) { u.threw = 2; }
        sim::disarmAllocFault(); R.sequential(); sim::freezeClock(false); u.coeffs = fromView(cm->Coeffs()); u.ev = rec->ev; rec->plan = Plan(); for(auto& e : u.ev) { sim::hashMix(*(uint64_t*)&e.f); } return u;
    };
    auto badValue = [&](const Plan& p) { return p.fault == NANVAL || p.fault == INFVAL || p.fault == NEGINF; };
    auto judge = [&](const Outcome& u, const Plan& p, bool fault, const char* when) {
        R.checked(); if(rec->otherData) R.fail("training-data", "%s: training with %s evaluated the objective on data other than the training set", when, al.name); double f0 = u.ev.empty() ? NAN : u.ev[0].f;
        if(!finite(u.coeffs)) R.fail("nonfinite-coeffs", "%s: after training with %s the map holds non-finite coefficients (%s)", when, al.name, u.threw ? u.what.c_str() : "no error");
        bool near = true; if(!u.ev.empty()) for(size_t i = 0; i < start.size(); ++i) near = near && close(u.ev[0].c[i], start[i], al.exactStart ? 0 : 1e-12, al.exactStart ? 0 : 1e-12); if(!near) R.fail("start", "%s: the first evaluation was not at the coefficients the map held (%s)", when, al.name);
        if((int)u.ev.size() > op.opt_maxeval + al.slack * (fault ? 4 : 1)) R.fail("maxeval", "%s: %s used %zu objective evaluations, the limit is %d", when, al.name, u.ev.size(), op.opt_maxeval);
        if(timed && p.clock != BACKWARD && p.clock != FROZEN) { int over = 0; double t0 = u.ev.empty() ? 0 : u.ev[0].t; for(auto& e : u.ev) if(e.t - t0 > op.opt_maxtime + 1e-9) ++over; if(over > al.slack * (fault ? 4 : 1)) R.fail("maxtime", "%s: %s started %d evaluations after the time limit of %g s had passed", when, al.name, over, op.opt_maxtime); }
        if(u.threw) { bool ok = same(u.coeffs, start); if(!ok) R.fail("failed-coeffs", "%s: training with %s failed (%s) and left the map at coefficients other than those it had", when, al.name, u.what.c_str()); return; }
        int at = -1; double best = INFINITY; for(size_t k = 0; k < u.ev.size(); ++k) { if(same(u.ev[k].c, u.coeffs) && (at < 0 || bits(u.ev[k].f, u.err))) at = (int)k; if(u.ev[k].f < best) best = u.ev[k].f; }
        if(at < 0) R.fail("unevaluated", "%s: %s left the map at coefficients that were never evaluated", when, al.name);
        bool odd = fault && badValue(p); // what NLopt makes of a value that is no number is its own affair
        if(!bits(u.ev[at].f, u.err) && !odd) R.fail("reported", "%s: %s reported %.17g but the objective at the final coefficients was %.17g", when, al.name, u.err, u.ev[at].f);
        if(std::isfinite(f0) && !(u.err <= f0) && !(odd && !al.grad) && al.keepsGain) R.fail("worse", "%s: %s ended at %.17g, it began at %.17g (%zu evaluations)", when, al.name, u.err, f0, u.ev.size());
        if(!fault && al.returnsBest && u.err > best) R.fail("not-best", "%s: %s ended at %.17g, the best value it saw was %.17g (%zu evaluations)", when, al.name, u.err, best, u.ev.size());
    };
    Plan calm; if(timed) { calm.clock = STALL; calm.clockAt = (int)r.below(4); calm.dt = r.uniform(0, op.opt_maxtime); }
    Outcome ref = train(calm, false); if(ref.ev.size() && !std::isfinite(ref.ev[0].f)) { R.probe("no_finite_start"); return; } judge(ref, calm, false, "undisturbed"); R.log("%zu evaluations, from %.6g to %.6g%s%s", ref.ev.size(), ref.ev.empty() ? NAN : ref.ev[0].f, ref.err, ref.threw ? " threw " : "", ref.what.c_str());
    if(ref.threw) R.probe("optimiser_gave_up"); else R.probe("trained"); if(ref.ev.size() > 1 && ref.err < ref.ev[0].f) R.probe("improved"); if((int)ref.ev.size() >= op.opt_maxeval) R.probe("maxeval_reached"); R.probe(al.name);
    // every option reaches the optimiser: NLopt itself, told the same, asks for the same evaluations and stops at the same one
    if(al.slack == 1 && !ref.threw && R.keep()) {
        { sim::LibScope ls; setCoeffs(o, start); } nlopt::srand(5); rec->ev.clear(); rec->plan = calm; rec->clocked = false; std::vector<double> c = start; double f = NAN; int threw = 0; auto fn = nlopt::vfunc([](const std::vector<double>& v, std::vector<double>& g, void* d) { auto& q = *(std::pair<Recorder*, std::shared_ptr<CMap>>*)d; return (*q.first)((unsigned)v.size(), v.data(), g.empty() ? nullptr : g.data(), q.second); });
        std::pair<Recorder*, std::shared_ptr<CMap>> data(rec.get(), o.m); sim::freezeClock(false);
        try { sim::LibScope ls; nlopt::opt direct(al.name, o.n->nc); direct.set_maxtime(op.opt_maxtime); direct.set_maxeval(op.opt_maxeval); direct.set_xtol_rel(op.opt_xtol_rel); direct.set_xtol_abs(op.opt_xtol_abs); direct.set_ftol_rel(op.opt_ftol_rel); direct.set_ftol_abs(op.opt_ftol_abs); direct.set_stopval(op.opt_stopval); direct.set_min_objective(fn, &data); direct.optimize(c, f); } catch(const std::exception&) { threw = 1; }
        rec->plan = Plan(); size_t n = rec->ev.size(), i = 0; while(i < n && i < ref.ev.size() && bits(rec->ev[i].f, ref.ev[i].f) && same(rec->ev[i].c, ref.ev[i].c)) ++i; R.checked();
        bool eq = !threw && i == n && n == ref.ev.size() && bits(f, ref.err) && same(c, ref.coeffs), clockEdge = timed && i + 1 >= std::min(n, ref.ev.size()) && n + 1 >= ref.ev.size() && n <= ref.ev.size() + 1; // a rounding of the time itself may decide one evaluation
        if(!eq && !clockEdge) R.fail("options", "with %s, stopval %g, maxeval %d, maxtime %g, ftol %g/%g, xtol %g/%g TrainMap made %zu evaluations and reported %.12g, NLopt with these options makes %zu and reports %.12g (first difference at %zu)", al.name, op.opt_stopval, op.opt_maxeval, op.opt_maxtime, op.opt_ftol_rel, op.opt_ftol_abs, op.opt_xtol_rel, op.opt_xtol_abs, ref.ev.size(), ref.err, n, f, i);
        R.probe("options_compared"); if((int)n < op.opt_maxeval) R.probe("stopped_by_tolerance");
    }
    // the built-in objective is the mean negative log-likelihood under the pulled-back density
    if(!syn && !o.n->adaptive() && r.chance(0.5)) {
        Vec at = ref.coeffs; if(r.chance(0.5)) at = start; setCoeffs(o, at); bool ok = !o.n->coarse(); for(int j = 0; j < N; ++j) { Vec col = x.col(j); ok = ok && sane(*o.n, col.data()); } for(int j = 0; j < NT; ++j) { Vec col = xt.col(j); ok = ok && sane(*o.n, col.data()); }
        if(ok) {
            Dens d = pullback(o, std::make_shared<Dens>(g)); R.perturbed(); double e, te; Vec gr; { sim::LibScope ls; e = rec->kl->TrainError(o.m); te = rec->kl->TestError(o.m); auto gv = rec->kl->TrainCoeffGrad(o.m); for(size_t i = 0; i < gv.extent(0); ++i) gr.push_back(gv(i)); } R.sequential();
            Mat l = refDens(d, DLOG, x), lt = refDens(d, DLOG, xt), lg = refDens(d, DCOEFF, x); double sc = 1; for(double v : l.a) sc = std::max(sc, std::fabs(v)); for(double v : lt.a) sc = std::max(sc, std::fabs(v));
            if(!close(e, -colMean(l, 0), 1e-7 * sc, 1e-7)) R.fail("train-error", "TrainError is %.14g, the mean negative log-likelihood is %.14g; %s", e, -colMean(l, 0), d.desc.c_str());
            if(!close(te, -colMean(lt, 0), 1e-7 * sc, 1e-7)) R.fail("test-error", "TestError is %.14g, the mean negative log-likelihood is %.14g; %s", te, -colMean(lt, 0), d.desc.c_str());
            sc = 1; for(double v : lg.a) sc = std::max(sc, std::fabs(v));
            for(int i = 0; i < o.n->nc; ++i) if(!close(gr[i], -colMean(lg, i), 1e-7 * sc, 1e-7)) R.fail("train-grad", "TrainCoeffGrad entry %d is %.14g, the derivative is %.14g; %s", i, gr[i], -colMean(lg, i), d.desc.c_str());
            R.checked(3); R.probe("objective_checked");
            objectives(R, r, o, g, x, xt, X, XT, -colMean(l, 0), -colMean(lt, 0), lg, at);
        }
    }
    int reps = 1 + (int)r.below(3);
    for(int k = 0; k < reps; ++k) {
        sim::Rng q = r.fork(50 + k); bool keep = R.keep(); Plan p = calm; int mode = (int)q.below(4);
        if(mode == 0) { int loud = q.chance(0.3) ? 1 + (int)q.below(2) : 0, dev = (int)q.below(3); if(!keep) continue; R.op("again under another schedule%s", loud ? ", talking" : ""); Outcome u; { std::unique_ptr<Quiet> mute; if(loud) { mute.reset(new Quiet(dev)); R.probe("verbose"); } op.verbose = loud; u = train(p, true); op.verbose = 0; if(mute && mute->buf.written && dev) R.fault("output_device_fails"); } judge(u, p, false, "another schedule"); bool eq = u.threw == ref.threw && u.ev.size() == ref.ev.size() && same(u.coeffs, ref.coeffs); for(size_t i = 0; eq && i < u.ev.size(); ++i) eq = bits(u.ev[i].f, ref.ev[i].f) && same(u.ev[i].c, ref.ev[i].c) && same(u.ev[i].g, ref.ev[i].g);
            if(!eq) { size_t i = 0; while(i < u.ev.size() && i < ref.ev.size() && bits(u.ev[i].f, ref.ev[i].f) && same(u.ev[i].c, ref.ev[i].c) && same(u.ev[i].g, ref.ev[i].g)) ++i; bool own = al.slack > 1 && i < u.ev.size() && i < ref.ev.size() && !same(u.ev[i].c, ref.ev[i].c); if(own) R.probe("optimiser_nondeterministic"); /* NLopt's luksan codes chose another point after identical values */ else R.fail("schedule-dependent", "training with %s depends on the schedule: evaluation %zu of %zu/%zu differs", al.name, i, u.ev.size(), ref.ev.size()); } R.probe("schedules_compared"); continue; }
        int last = (int)ref.ev.size();
        if(mode == 1 && timed) { p.clock = FORWARD + (int)q.below(3); p.clockAt = (int)q.below(last + 1); p.dt = q.chance(0.5) ? 1e6 : q.uniform(0, 2 * op.opt_maxtime); if(!keep) continue; }
        else { p.fault = 1 + (int)q.below(NFAULT - 1); p.at = q.chance(0.2) ? 0 : (int)q.below(last); p.nth = 1 + q.below(60); if(!strcmp(al.name, "LN_COBYLA") && badValue(p)) p.fault = THROW_STD; // NLopt's COBYLA loops for ever: see cobyla() below
            if(!keep || !R.keepFault()) continue; }
        R.op("again with %s at evaluation %d, clock %d at %d by %g", faultName[p.fault], p.at, p.clock, p.clockAt, p.dt); Outcome u = train(p, q.chance(0.3));
        if(rec->fired) R.fault(faultName[p.fault]); if(rec->clocked && p.clock >= STALL) R.fault(p.clock == STALL ? "clock_stall" : p.clock == FORWARD ? "clock_jump_forward" : p.clock == BACKWARD ? "clock_jump_backward" : "clock_frozen"); if(p.clock == FROZEN) R.fault("clock_frozen");
        judge(u, p, rec->fired, "with a fault");
        if(rec->raised && !u.threw) R.fail("fault-hidden", "the objective failed (%s) at evaluation %d and TrainMap returned normally", faultName[p.fault], p.at);
        for(size_t i = 0; i < u.ev.size() && i < ref.ev.size() && (p.fault == NONE || (int)i < p.at) && (p.clock == calm.clock); ++i) if(!bits(u.ev[i].f, ref.ev[i].f) || !same(u.ev[i].c, ref.ev[i].c)) R.fail("before-fault", "evaluation %zu differs although the fault comes later (%d)", i, p.at);
        R.probe(u.threw ? "fault_reported" : "fault_survived");
    }
    if(R.keep() && r.chance(0.5)) { Outcome u = train(calm, false); judge(u, calm, false, "after the faults"); if(u.threw != ref.threw || u.ev.size() != ref.ev.size() || !same(u.coeffs, ref.coeffs)) R.fail("retry-differs", "training with %s again from the same coefficients gives another result", al.name); R.probe("retrained"); }
}
