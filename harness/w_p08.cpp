// P08: adaptive training.  A recording objective sees every gradient and every error the algorithm is told; from those alone a model of the
// growth rule predicts which term each step adds, when growth stops and which sets come back, and the real run must agree.
#include "dens.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/TriangularMap.h"
#include <algorithm>
#include <cstring>
#include <set>
using namespace world;
using namespace mpart;
const char* workloadName = "p08"; bool workloadInitKokkos = true; void workloadSetup() {}
namespace {
typedef std::vector<int> Term; typedef std::set<Term> Terms;
bool bits(double a, double b) { return !memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)); }
bool same(const Vec& a, const Vec& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!bits(a[i], b[i])) return false; return true; }
enum Type { TRAIN, TEST, GRAD };
struct Event { int type; Vec c, g, at; double f = NAN; std::vector<int> blocks; };
enum FaultKind { NONE, THROW_STD, THROW_ALLOC, NANVAL, NANGRAD, ZEROGRAD, OOM, NFAULT };
const char* faultName[NFAULT] = {"none", "objective_throws", "objective_throws_bad_alloc", "objective_nan", "gradient_nan", "gradient_zero", "alloc_failure"};
struct Plan { int fault = NONE, at = 0; uint64_t nth = 1; };
struct Recorder : public MapObjective<HS> {
    bool values = false; StridedMatrix<const double, HS> pts;
    std::shared_ptr<KLObjective<HS>> kl; const double* testPtr; int outDim; mutable std::vector<Event> ev; mutable Plan plan; mutable bool fired = false;
    Recorder(StridedMatrix<const double, HS> tr, StridedMatrix<const double, HS> te, std::shared_ptr<DensityBase<HS>> d, int od) : MapObjective<HS>(tr, te), pts(te), kl(std::make_shared<KLObjective<HS>>(tr, te, d)), testPtr(te.data()), outDim(od) {}
    unsigned int MapOutputDim() const override { return outDim; }
    double run(int type, StridedMatrix<const double, HS> data, StridedVector<double, HS>* grad, std::shared_ptr<CMap> map) const
    {
        size_t k = ev.size(); bool hit;
        { sim::NoFault nf; Event e; e.type = type; std::shared_ptr<const CMap> cm = map; e.c = fromView(cm->Coeffs()); if(auto t = std::dynamic_pointer_cast<TriangularMap<HS>>(map)) for(int i = 0; i < outDim; ++i) e.blocks.push_back((int)t->GetComponent(i)->numCoeffs); if(values && type != TRAIN) { Kokkos::View<double**, HS> o("o", outDim, pts.extent(1)); map->EvaluateImpl(pts, o); for(size_t j = 0; j < o.extent(1); ++j) for(int i = 0; i < outDim; ++i) e.at.push_back(o(i, j)); } ev.push_back(e); hit = plan.fault && (int)k == plan.at; sim::advance(1e-3); }
        if(hit) { fired = true; if(plan.fault == THROW_STD) throw std::runtime_error("objective failed"); if(plan.fault == THROW_ALLOC) throw std::bad_alloc(); if(plan.fault == OOM) { sim::armAllocFault(plan.nth, false); fired = false; } }
        double f = 0; auto done = [&] { if(hit && plan.fault == OOM) { fired = sim::allocFaultFired(); sim::disarmAllocFault(); } };
        try { if(type == GRAD) kl->CoeffGradImpl(data, *grad, map); else if(grad) f = kl->ObjectivePlusCoeffGradImpl(data, *grad, map); else f = kl->ObjectiveImpl(data, map); } catch(...) { done(); throw; }
        done(); sim::NoFault nf; int n = (int)ev[k].c.size();
        if(hit && plan.fault == NANVAL) f = NAN; if(hit && grad && plan.fault == NANGRAD) for(int i = 0; i < n; i += 2) (*grad)(i) = NAN; if(hit && grad && plan.fault == ZEROGRAD) for(int i = 0; i < n; ++i) (*grad)(i) = 0;
        ev[k].f = f; if(grad) for(int i = 0; i < n; ++i) ev[k].g.push_back((*grad)(i)); return f;
    }
    double ObjectiveImpl(StridedMatrix<const double, HS> data, std::shared_ptr<CMap> map) const override { return run(data.data() == testPtr ? TEST : TRAIN, data, nullptr, map); }
    void CoeffGradImpl(StridedMatrix<const double, HS> data, StridedVector<double, HS> grad, std::shared_ptr<CMap> map) const override { run(GRAD, data, &grad, map); }
    double ObjectivePlusCoeffGradImpl(StridedMatrix<const double, HS> data, StridedVector<double, HS> grad, std::shared_ptr<CMap> map) const override { return run(TRAIN, data, &grad, map); }
};
Term term(const MultiIndex& m) { auto u = m.Vector(); return Term(u.begin(), u.end()); }
Terms termsOf(const MultiIndexSet& s) { Terms t; for(unsigned i = 0; i < s.Size(); ++i) t.insert(term(s.IndexToMulti(i))); return t; }
std::vector<Term> orderOf(const MultiIndexSet& s) { std::vector<Term> t; for(unsigned i = 0; i < s.Size(); ++i) t.push_back(term(s.IndexToMulti(i))); return t; }
bool closed(const Terms& t) { for(auto& a : t) for(size_t d = 0; d < a.size(); ++d) if(a[d]) { Term b = a; --b[d]; if(!t.count(b)) return false; } return true; }
Terms reduced(const Terms& t, int dim) { Terms out; for(auto& a : t) for(int d = 0; d < dim; ++d) { Term b = a; ++b[d]; if(t.count(b)) continue; bool ok = true; for(int e = 0; e < dim; ++e) if(b[e]) { Term z = b; --z[e]; ok = ok && t.count(z); } if(ok) out.insert(b); } return out; }
std::string show(const Terms& t) { std::string s; for(auto& a : t) { s += "("; for(int v : a) s += std::to_string(v); s += ")"; } return s; }
struct Outcome { bool threw = false; std::string what; std::shared_ptr<CMap> map; std::vector<MultiIndexSet> sets; std::vector<Event> ev; Vec coeffs; };
}
void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(8); R.sequential(); Cfg cfg; cfg.pAdaptive = 0;
    int in = 1 + (int)r.below(3), out = 1 + (int)r.below(in); ref::Opts o = randomOpts(r, cfg); if(o.quad == ref::ACC) { o.quad = ref::CC; } o.maxSub = std::min(o.maxSub, 10);
    int N = 3 + (int)r.below(12), NT = 2 + (int)r.below(6); Mat x = gaussian(r, in, N), xt = gaussian(r, in, NT); // correlated, skewed data, so that terms matter
    for(Mat* m : {&x, &xt}) for(int j = 0; j < m->c; ++j) for(int i = 1; i < in; ++i) (*m)(i, j) = 0.5 * (*m)(i, j) + 0.6 * (*m)(i - 1, j) * (r.chance(0.5) ? (*m)(i - 1, j) : 1);
    Buf X(x, (int)r.below(NLAYOUT)), XT(xt, (int)r.below(NLAYOUT)); auto rec = std::make_shared<Recorder>(X.cview(), XT.cview(), std::make_shared<GaussianSamplerDensity<HS>>((unsigned)out), out);
    ATMOptions op; static_cast<MapOptions&>(op) = realOpts(o); static const int evs[] = {2, 4, 8, 15}; op.opt_maxeval = evs[r.below(4)]; if(r.chance(0.2)) op.opt_alg = "LN_NELDERMEAD"; op.opt_ftol_rel = 1e-6; op.opt_xtol_rel = 1e-6;
    std::vector<MultiIndexSet> init; int size0 = 0; std::vector<int> md;
    for(int j = 0; j < out; ++j) { int d = in - out + 1 + j; MultiIndexSet s = r.chance(0.6) ? MultiIndexSet::CreateTotalOrder(d, (unsigned)r.below(2)) : MultiIndexSet::CreateTotalOrder(d, 0); int extra = (int)r.below(3); for(int k = 0; k < extra; ++k) { auto rm = s.ReducedMargin(); if(rm.size()) s += rm[r.below(rm.size())]; } init.push_back(s); size0 += (int)s.Size(); }
    if(r.chance(0.4)) { for(int d = 0; d < in; ++d) md.push_back(r.chance(0.3) ? 1000 : (int)r.below(4)); std::vector<unsigned> u(md.begin(), md.end()); op.maxDegrees = MultiIndex(u); }
    static const int pat[] = {0, 1, 2, 3, 10}; op.maxPatience = pat[r.below(5)]; int grow = (int)r.below(6); op.maxSize = r.chance(0.1) ? (unsigned)r.below(size0 + 1) : (unsigned)(size0 + grow);
    if(md.size() && *std::max_element(md.begin(), md.end()) < 4 && in < 3 && r.chance(0.3)) op.maxSize = 1000;
    R.op("adaptive training %d->%d, %d+%d points, %d initial terms, maxSize %u, patience %u, maxDegrees %s, %s maxeval %d, %s%s", in, out, N, NT, size0, op.maxSize, op.maxPatience, md.empty() ? "none" : op.maxDegrees.String().c_str(), op.opt_alg.c_str(), op.opt_maxeval, o.dense ? "dense" : "", ""); for(auto& s : init) R.log("initial %s", show(termsOf(s)).c_str());
    R.config(in * 100 + out * 10 + size0); R.config(o.basis * 16 + o.quad * 4 + o.pos); for(auto& s : init) for(auto& t : termsOf(s)) for(int v : t) R.config(v);
    auto train = [&](const Plan& p, bool par) {
        Outcome u; u.sets = init; rec->ev.clear(); rec->plan = p; rec->fired = false; rec->values = !par && !p.fault; if(par) R.perturbed();
        try { sim::LibScope ls; u.map = TrainMapAdaptive<HS>(u.sets, rec, op); } catch(const std::exception& e) { u.threw = true; u.what = e.what(); }
        sim::disarmAllocFault(); R.sequential(); u.ev = rec->ev; rec->plan = Plan(); if(u.map) { std::shared_ptr<const CMap> cm = u.map; u.coeffs = fromView(cm->Coeffs()); } for(auto& e : u.ev) sim::hashMix(*(uint64_t*)&e.f); return u;
    };
    // what must be true whatever happened
    auto valid = [&](const Outcome& u, const char* when) {
        R.checked(); if(u.sets.size() != init.size()) R.fail("sets", "%s: %zu index sets came back, not %zu", when, u.sets.size(), init.size()); int total = 0;
        for(int j = 0; j < out; ++j) { Terms a = termsOf(init[j]), b = termsOf(u.sets[j]); total += (int)b.size();
            for(auto& t : a) if(!b.count(t)) R.fail("shrunk", "%s: index set %d was %s and is now %s", when, j, show(a).c_str(), show(b).c_str());
            if(!closed(b)) R.fail("not-closed", "%s: index set %d is not downward closed: %s", when, j, show(b).c_str());
            if(md.size()) for(auto& t : b) if(!a.count(t)) for(size_t d = 0; d < t.size(); ++d) if(t[d] >= md[d]) R.fail("max-degree", "%s: a term of degree %d in input %zu was added, the limit is below %d", when, t[d], d, md[d]); }
        if(total > std::max((int)op.maxSize, size0)) R.fail("max-size", "%s: the sets hold %d terms, the limit is %u (initially %d)", when, total, op.maxSize, size0);
    };
    // replay the growth rule on what the objective reported
    auto follow = [&](const Outcome& u, const char* when) {
        valid(u, when); size_t k = 0; std::vector<MultiIndexSet> cur = init, best = init; int size = size0; unsigned patience = 0, steps = 0; auto sizes = [](const std::vector<MultiIndexSet>& v) { std::vector<int> b; for(auto& s : v) b.push_back((int)s.Size()); return b; };
        auto test = [&](double& v) { // trainings of this step, then its test error
            std::vector<int> want = sizes(cur); bool any = false; while(k < u.ev.size() && u.ev[k].type == TRAIN) { if(u.ev[k].blocks != want) R.fail("added", "%s: after step %u the map being trained does not have the predicted number of terms per block", when, steps); any = true; ++k; }
            if(!any || k >= u.ev.size() || u.ev[k].type != TEST) R.fail("protocol", "%s: no training and test error after step %u", when, steps); v = u.ev[k].f;
            bool tried = false; for(size_t q = k; q-- > 0 && u.ev[q].type == TRAIN;) tried = tried || same(u.ev[q].c, u.ev[k].c); if(!tried) R.fail("test-coeffs", "%s: the test error of step %u was taken at coefficients that training never evaluated", when, steps); while(k < u.ev.size() && u.ev[k].type == TEST) ++k; };
        double bestErr; test(bestErr); Vec last = u.ev[k - 1].c; bool stop = false;
        while(!stop && size < (int)op.maxSize && patience < op.maxPatience) {
            std::vector<std::vector<int>> cand(out); std::vector<MultiIndexSet> ex = cur; std::vector<int> want; Vec padded; size_t lc = 0;
            for(int j = 0; j < out; ++j) { Terms before = termsOf(cur[j]), red = reduced(before, (int)cur[j].Length()); ex[j].Expand(); auto ord = orderOf(ex[j]); Terms nw; for(size_t i = 0; i < ord.size(); ++i) { if(before.count(ord[i])) { padded.push_back(last[lc++]); continue; } padded.push_back(0); nw.insert(ord[i]); bool ok = true; if(md.size()) for(size_t d = 0; d < ord[i].size(); ++d) ok = ok && ord[i][d] < md[d]; if(ok) cand[j].push_back((int)i); } if(nw != red) R.fail("margin", "%s: expanding %s added %s, its reduced margin is %s", when, show(before).c_str(), show(nw).c_str(), show(red).c_str()); want.push_back((int)ord.size()); }
            if(k >= u.ev.size() || u.ev[k].type != GRAD) { bool none = true; for(auto& c : cand) none = none && c.empty(); if(none) break; R.fail("stopped-early", "%s: growth stopped after %u steps with %d of %u terms, patience %u of %u, and terms left to try", when, steps, size, op.maxSize, patience, op.maxPatience); }
            const Event& e = u.ev[k++]; if(e.blocks != want) R.fail("frontier", "%s: the candidate map of step %u does not hold the current terms and their reduced margins", when, steps); while(k < u.ev.size() && u.ev[k].type == GRAD) ++k;
            if(!same(e.c, padded)) R.fail("frontier-coeffs", "%s: the candidate map of step %u is not the current map extended by zeros", when, steps);
            { size_t q = k; while(q-- > 0 && u.ev[q].type != TEST) {} const Vec &a = e.at, &b = u.ev[q].at; if(a.size() == b.size()) for(size_t i = 0; i < a.size(); ++i) if(std::isfinite(a[i]) && std::isfinite(b[i]) && std::fabs(a[i] - b[i]) > 1e-9 * (1 + std::fabs(b[i]))) R.fail("frontier-values", "%s: the candidate map of step %u maps a point to %.12g, the current map, which it extends by zeros, to %.12g", when, steps, a[i], b[i]); }
            double mx = 0; int bj = -1, bi = 0, off = 0; bool tie = false; for(int j = 0; j < out; ++j) { for(int i : cand[j]) { double a = std::fabs(e.g[off + i]); if(a > mx) { tie = bj >= 0 && a - mx < 1e-13 * a; mx = a; bj = j; bi = i; } else if(bj >= 0 && mx - a < 1e-13 * mx) tie = true; } off += want[j]; }
            if(bj < 0) { stop = true; R.probe("no_candidate"); break; } if(tie) { R.probe("tie"); return; }
            cur[bj] += ex[bj].IndexToMulti(bi); ++size; ++steps; double t; test(t); last = u.ev[k - 1].c; ++patience; if(t < bestErr) { bestErr = t; best = cur; patience = 0; R.probe("step_improved"); } else R.probe("step_not_improved");
        }
        if(!stop && size >= (int)op.maxSize) R.probe("size_limit"); else if(!stop && patience >= op.maxPatience) R.probe("patience_limit");
        for(int j = 0; j < out; ++j) { Terms a = termsOf(best[j]), b = termsOf(u.sets[j]); if(a != b) R.fail("not-best", "%s: block %d came back with terms %s, the lowest test error was with %s (after %u steps)", when, j, show(b).c_str(), show(a).c_str(), steps); if(orderOf(u.sets[j]) != orderOf(best[j])) R.fail("not-best", "%s: block %d came back with its terms in another order", when, j); }
        std::vector<int> want = sizes(best); size_t f0 = k; while(k < u.ev.size() && u.ev[k].type == TRAIN) { if(u.ev[k].blocks != want) R.fail("final-size", "%s: the final map does not have the terms of the returned sets", when); ++k; } for(; k < u.ev.size(); ++k) if(u.ev[k].type != TEST) R.fail("protocol", "%s: growth went on after it should have stopped (%u steps, size %d, patience %u)", when, steps, size, patience);
        bool tried = false; double at = NAN; for(size_t q = 0; q < u.ev.size(); ++q) if(u.ev[q].type == TRAIN && u.ev[q].blocks == want && same(u.ev[q].c, u.coeffs)) { tried = true; at = u.ev[q].f; }
        if(!tried) R.fail("final-coeffs", "%s: the returned map's coefficients were never evaluated in training", when); if(f0 < u.ev.size() && u.ev[f0].type == TRAIN && std::isfinite(u.ev[f0].f) && !(at <= u.ev[f0].f)) R.fail("final-worse", "%s: the returned map's training error %.17g is worse than where its training began, %.17g", when, at, u.ev[f0].f);
        R.probe("steps", steps); R.checked(steps + 1);
    };
    Outcome ref = train(Plan(), false); if(ref.threw) R.fail("threw", "adaptive training threw without any fault: %s", ref.what.c_str()); follow(ref, "undisturbed"); R.log("%zu events", ref.ev.size());
    // the returned map computes what its index sets and coefficients say
    { auto top = std::make_shared<Node>(); top->kind = ref::TRIANGULAR; top->in = in; top->out = out; for(int j = 0; j < out; ++j) { auto n = std::make_shared<Node>(); n->kind = ref::COMPONENT; n->in = in - out + 1 + j; n->out = 1; n->o = o; n->o.dense = false; n->terms = orderOf(ref.sets[j]); n->nc = (int)n->terms.size(); top->kids.push_back(n); top->nc += n->nc; }
      if((int)ref.coeffs.size() != top->nc) R.fail("final-size", "the returned map has %zu coefficients, its index sets %d terms", ref.coeffs.size(), top->nc); top->set(ref.coeffs); Obj ob; ob.n = top; ob.m = ref.map; ob.f = ref.map;
      Mat p = points(r, *top, 3); Mode m = randomMode(r); m.fill = 0; for(int kind : {EVAL, LOGDET}) { bool ok = true; for(int j = 0; j < p.c; ++j) { Vec col = p.col(j); ok = ok && sane(*top, col.data()); } if(!ok || (int)ref.map->inputDim != in || (int)ref.map->outputDim != out) continue; R.perturbed(); Mat g = runOp(R, ob, kind, p, p, m); R.sequential(); Mat w = refOp(*top, kind, p, p); int a, b; R.checked(); if(differs(g, w, 1e-8, 1e-8, a, b)) R.fail("map-sets", "the returned map's %s is %.14g, its index sets and coefficients give %.14g", kindName[kind], g(a, b), w(a, b)); }
      if((int)ref.map->inputDim != in || (int)ref.map->outputDim != out) R.fail("map-shape", "the returned map has dimensions %u->%u", ref.map->inputDim, ref.map->outputDim); }
    int reps = 1 + (int)r.below(3);
    for(int k = 0; k < reps; ++k) {
        sim::Rng q = r.fork(60 + k); bool keep = R.keep(); int mode = (int)q.below(4); if(!keep) continue;
        if(mode < 2) { int loud = q.chance(0.3) ? 1 + (int)q.below(2) : 0, dev = (int)q.below(3); R.op("again under another schedule%s", loud ? ", talking" : ""); Outcome u; { std::unique_ptr<Quiet> mute; if(loud) { mute.reset(new Quiet(dev)); R.probe("verbose"); } op.verbose = loud; u = train(Plan(), true); op.verbose = 0; if(mute && mute->buf.written && dev) R.fault("output_device_fails"); } bool eq = !u.threw && u.ev.size() == ref.ev.size() && same(u.coeffs, ref.coeffs); size_t i = 0; for(; eq && i < u.ev.size(); ++i) eq = bits(u.ev[i].f, ref.ev[i].f) && same(u.ev[i].c, ref.ev[i].c) && same(u.ev[i].g, ref.ev[i].g); for(int j = 0; eq && j < out; ++j) eq = orderOf(u.sets[j]) == orderOf(ref.sets[j]); R.checked(); if(!eq) R.fail("schedule-dependent", "adaptive training depends on the schedule (event %zu of %zu/%zu)%s", i, u.ev.size(), ref.ev.size(), u.what.c_str()); R.probe("schedules_compared"); continue; }
        if(mode == 2) { Plan p; p.fault = 1 + (int)q.below(NFAULT - 1); p.at = (int)q.below(ref.ev.size()); p.nth = 1 + q.below(50); if(p.fault == NANGRAD || p.fault == ZEROGRAD) { std::vector<int> gs; for(size_t i = 0; i < ref.ev.size(); ++i) if(ref.ev[i].type == GRAD) gs.push_back((int)i); if(gs.size()) p.at = gs[q.below(gs.size())]; } if(p.fault == NANVAL) { std::vector<int> gs; for(size_t i = 0; i < ref.ev.size(); ++i) if(ref.ev[i].type == TEST) gs.push_back((int)i); p.at = gs[q.below(gs.size())]; }
            if(!R.keepFault()) continue; R.op("again with %s at event %d", faultName[p.fault], p.at); Outcome u = train(p, q.chance(0.3)); if(!rec->fired) continue; R.fault(faultName[p.fault]);
            if(u.threw) { valid(u, "after a fault"); R.probe("fault_reported"); } else if(p.fault == THROW_STD || p.fault == THROW_ALLOC) R.fail("fault-hidden", "the objective threw at event %d and adaptive training returned normally", p.at); else { follow(u, "with a fault"); R.probe("fault_survived"); }
        } else { // malformed arguments
            int t = (int)q.below(5); std::vector<MultiIndexSet> bad = init; ATMOptions o2 = op; const char* what = "";
            if(t == 0) { bad.push_back(MultiIndexSet::CreateTotalOrder(in + 1, 0)); what = "too many index sets"; } else if(t == 1) { bad.pop_back(); what = "too few index sets"; } else if(t == 2) { std::vector<MultiIndexSet> b2; for(int j = 0; j < out; ++j) b2.push_back(MultiIndexSet::CreateTotalOrder(in - out + 2 + j, 0)); bad = std::move(b2); what = "index sets that do not fit the objective"; } else if(t == 3) { o2.maxDegrees = MultiIndex(std::vector<unsigned>(in + 1, 3u)); what = "maxDegrees of the wrong length"; } else { o2.opt_alg = "LD_NONESUCH"; what = "an unknown optimiser"; }
            std::vector<std::vector<Term>> was; for(auto& s : bad) was.push_back(orderOf(s)); R.fault("malformed_argument"); R.op("with %s", what); bool threw = false; try { sim::LibScope ls; TrainMapAdaptive<HS>(bad, rec, o2); } catch(const std::exception&) { threw = true; } R.checked();
            if(!threw) R.fail("malformed-accepted", "%s was accepted", what); for(size_t j = 0; j < bad.size(); ++j) if(orderOf(bad[j]) != was[j]) R.fail("malformed-changed", "%s was rejected but an index set changed", what);
        }
    }
}
