// P04: any history of setting, wrapping, editing and (re)building: every object holds and uses the coefficients the ownership rules give it.
#include "world.h"
#include <algorithm>
#include <cstring>
using namespace world;
const char* workloadName = "p04"; bool workloadInitKokkos = true; void workloadSetup() {}
namespace {
struct Ext { std::shared_ptr<ref::Cell> cell; DV view; std::shared_ptr<Eigen::VectorXd> eig; int n; double* p() { return eig ? eig->data() : view.data(); } };
struct Kept { Mat now; SM view; DV vec; bool isVec; int step; };
bool summaryUnset(const Node& n) { if(n.kind == ref::SUMMARIZED && !n.kids[0]->ready()) return true; for(size_t i = 0; i < n.kids.size(); ++i) if(summaryUnset(*n.kids[i])) return true; return false; }
bool bits(double a, double b) { return !memcmp(&a, &b, 8); }
struct World {
    sim::Run& R; std::vector<Obj> o; std::vector<Ext> ext; std::vector<Kept> kept; int step = 0;
    void check(const char* after)
    {
        for(size_t i = 0; i < o.size(); ++i) {
            const Node& n = *o[i].n; std::shared_ptr<const PFun> cf = o[i].f;
            if(cf->CheckCoefficients() != n.coeffsSet()) R.fail("coeffs-state", "after %s, object %zu reports its coefficients %s but they are %s; %s", after, i, cf->CheckCoefficients() ? "set" : "unset", n.coeffsSet() ? "set" : "unset", n.describe().c_str());
            if(!n.coef.s || !n.nc) continue;
            Vec want = n.coeffs(); auto got = cf->Coeffs(); if((int)got.extent(0) != n.nc) R.fail("coeffs-length", "after %s, object %zu has %zu coefficients, not %d", after, i, got.extent(0), n.nc);
            for(int j = 0; j < n.nc; ++j) if(!bits(got(j), want[j])) R.fail("coeffs-value", "after %s, coefficient %d of object %zu is %.17g, by the ownership rules %.17g; %s", after, j, i, got(j), want[j], n.describe().c_str());
            R.checked();
        }
        for(size_t k = 0; k < ext.size(); ++k) for(int j = 0; j < ext[k].n; ++j) if(!bits(ext[k].p()[j], ext[k].cell->v[j])) R.fail("caller-buffer", "after %s, entry %d of caller's buffer %zu is %.17g, not %.17g", after, j, k, ext[k].p()[j], ext[k].cell->v[j]);
        for(auto& k : kept) { Mat m(k.now.r, k.now.c); for(int i = 0; i < m.r; ++i) for(int j = 0; j < m.c; ++j) m(i, j) = k.isVec ? k.vec(j) : k.view(i, j); for(size_t q = 0; q < m.a.size(); ++q) if(!bits(m.a[q], k.now.a[q])) R.fail("result-changed", "after %s, a result returned at step %d has changed", after, k.step); R.checked(); }
    }
};
}
void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(4); R.sequential(); World W{R};
    Cfg c; c.maxTerms = 5; c.maxLayers = 3; c.depth = 1; c.pAdaptive = 0.05; c.maxDim = 3; c.pUnset = 0.15; c.pTol = 0.4;
    int d = 1 + (int)r.below(3), nl = 2 + (int)r.below(4);
    auto leaf = [&](sim::Rng& q) -> Obj { switch(q.below(6)) { case 0: return affine(q, d, d); case 1: return map(q, d, d, c); case 2: return expansion(q, d, 1, c); default: return d == 1 || q.chance(0.5) ? component(q, 1 + (int)q.below(d), c) : factoryTriangular(q, d, d, 1, randomOpts(q, c)); } };
    for(int i = 0; i < nl; ++i) W.o.push_back(leaf(r));
    if(r.fork(1).chance(0.05)) { sim::Rng q = r.fork(2); W.o.push_back(wide(q, 8)); R.probe("wide_map"); }
    { std::vector<Obj> v; for(auto& x : W.o) for(auto& k : x.kids) v.push_back(k); for(auto& x : v) if(W.o.size() < 10) W.o.push_back(x); }
    R.config(d * 7 + nl); for(auto& x : W.o) for(char ch : x.n->describe()) R.config(ch);
    for(auto& x : W.o) R.op("object %s", x.n->describe().c_str());
    W.check("construction");
    Recall recall; int steps = 10 + (int)r.below(25);
    for(W.step = 0; W.step < steps; ++W.step) {
        sim::Rng q = r.fork(100 + W.step); bool keep = R.keep(); int i = (int)q.below(W.o.size()); Obj& o = W.o[i]; Node& n = *o.n; int what = (int)q.below(16); if(!keep) continue;
        char lab[160]; snprintf(lab, sizeof lab, "step %d", W.step);
        auto put = [&](const Vec& v, int how) { // SetCoeffs through one of the signatures; the argument is then overwritten
            sim::LibScope ls;
            if(how == 0) { DV w = toView(v); Kokkos::View<const double*, HS> cw = w; o.f->SetCoeffs(cw); for(size_t j = 0; j < v.size(); ++j) w(j) = -7; }
            else if(how == 1) { Eigen::VectorXd e(v.size()); for(size_t j = 0; j < v.size(); ++j) e(j) = v[j]; o.f->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(e)); e.setConstant(-7); }
            else { std::vector<double> e(v); o.f->SetCoeffs(Kokkos::View<const double*, HS>(e.data(), e.size())); for(auto& z : e) z = -7; }
        };
        if(what < 4) { // set
            Vec v = randomCoeffs(q, n); int how = (int)q.below(3); snprintf(lab, sizeof lab, "SetCoeffs on object %d", i); R.op("%s (%s, %d values)", lab, how == 0 ? "view" : how == 1 ? "Eigen" : "raw view", n.nc);
            if(n.nc == 0 && q.chance(0.5)) continue;
            put(v, how); if(n.nc) n.set(v); R.probe("set");
        } else if(what == 4) { // wrong length
            int len = q.chance(0.5) ? n.nc + 1 + (int)q.below(3) : n.nc - 1 - (int)q.below(std::max(1, n.nc)); if(len < 0) len = n.nc + 1;
            bool wrap = q.chance(0.4); snprintf(lab, sizeof lab, "%s with %d values for %d coefficients on object %d", wrap ? "WrapCoeffs" : "SetCoeffs", len, n.nc, i); R.op("%s", lab); R.fault("wrong_length");
            bool threw = false; Vec v(len, 0.5);
            try { if(wrap) { sim::LibScope ls; o.f->WrapCoeffs(toView(v)); } else put(v, (int)q.below(3)); } catch(const std::exception&) { threw = true; }
            if(!threw) R.fail("wrong-length-accepted", "%s was accepted; %s", lab, n.describe().c_str());
        } else if(what < 7) { // wrap
            if(!n.nc) continue;
            int which = (int)q.below(W.ext.size() + 1); if(which < (int)W.ext.size() && W.ext[which].n != n.nc) which = (int)W.ext.size();
            if(which == (int)W.ext.size()) { Ext e; e.cell = std::make_shared<ref::Cell>(); e.cell->v = randomCoeffs(q, n); e.n = n.nc; if(q.chance(0.5)) { e.eig = std::make_shared<Eigen::VectorXd>(n.nc); for(int j = 0; j < n.nc; ++j) (*e.eig)(j) = e.cell->v[j]; } else e.view = toView(e.cell->v); W.ext.push_back(e); }
            Ext& e = W.ext[which]; snprintf(lab, sizeof lab, "WrapCoeffs of buffer %d on object %d", which, i); R.op("%s", lab);
            { sim::LibScope ls; if(e.eig) o.f->WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(*e.eig)); else o.f->WrapCoeffs(e.view); } n.wrap(e.cell, 0); R.probe("wrap");
        } else if(what == 7) { // edit through the object
            if(!n.nc) continue; double v = 0.3 * q.normal(); int j = (int)q.below(n.nc); bool threw = false; snprintf(lab, sizeof lab, "editing coefficient %d through object %d", j, i); R.op("%s", lab);
            if(q.chance(0.5)) { try { sim::LibScope ls; o.f->CoeffMap()(j) = v; } catch(const std::exception&) { threw = true; } if(threw == n.coeffsSet()) R.fail("coeffmap", "CoeffMap %s although coefficients are %s", threw ? "threw" : "succeeded", n.coeffsSet() ? "set" : "unset"); if(threw) continue; }
            else { if(!n.coeffsSet()) continue; sim::LibScope ls; o.f->Coeffs()(j) = v; }
            n.coef.s->v[n.coef.off + j] = v; R.probe("edit_view");
        } else if(what == 8) { // edit the caller's buffer
            if(W.ext.empty()) continue; Ext& e = W.ext[q.below(W.ext.size())]; int j = (int)q.below(e.n); double v = 0.3 * q.normal(); e.p()[j] = v; e.cell->v[j] = v; snprintf(lab, sizeof lab, "editing a wrapped buffer"); R.op("%s", lab); R.probe("edit_buffer");
        } else if(what == 9) { // copy from another object
            Obj& s = W.o[q.below(W.o.size())]; if(!n.nc || s.n->nc != n.nc || !s.n->coef.s) continue; Vec v = s.n->coeffs(); snprintf(lab, sizeof lab, "SetCoeffs on object %d from another object", i); R.op("%s", lab);
            { sim::LibScope ls; std::shared_ptr<const PFun> cs = s.f; Kokkos::View<const double*, HS> w = cs->Coeffs(); o.f->SetCoeffs(w); } n.set(v); R.probe("set_from_other");
        } else if(what == 10 || what == 11) { // a new container
            std::vector<Obj> sq; for(auto& x : W.o) if(x.m && x.n->in == d && x.n->out == d) sq.push_back(x);
            std::vector<Obj> first; for(auto& x : W.o) if(x.m && x.n->in == x.n->out && x.n->in < 4) first.push_back(x);
            std::vector<Obj> sf, sc; for(auto& x : W.o) if(!x.m) sf.push_back(x); else if(x.n->out == 1 && x.n->in == 2) sc.push_back(x);
            if(W.o.size() > 12) continue;
            int t = (int)q.below(3); bool threw = false; Obj b; std::vector<Obj> k;
            if(t == 0 && !sq.empty()) { int L = 1 + (int)q.below(3); for(int j = 0; j < L; ++j) { Obj x = sq[q.below(sq.size())]; k.push_back(x); } }
            else if(t == 1 && !first.empty()) { k.push_back(first[q.below(first.size())]); int L = (int)q.below(2); for(int j = 0; j < L; ++j) { int at = k.back().n->in; std::vector<Obj> nx; for(auto& x : W.o) if(x.m && x.n->in == at + x.n->out) nx.push_back(x); if(nx.empty()) break; k.push_back(nx[q.below(nx.size())]); } }
            else if(t == 2 && !sf.empty() && !sc.empty()) { Obj s = sf[q.below(sf.size())], cc = sc[q.below(sc.size())]; R.op("SummarizedMap of %s and %s", s.n->describe().c_str(), cc.n->describe().c_str()); sim::LibScope ls; W.o.push_back(summarizedOf(s, cc)); R.probe("summarized"); W.check("building a SummarizedMap"); continue; }
            if(k.empty()) continue;
            int tot = 0; for(auto& x : k) tot += x.n->depth(); if(tot > 7) continue;
            bool move = q.chance(0.5), allset = true; for(auto& x : k) allset = allset && x.n->coeffsSet();
            // an object that occurs twice is wrapped twice: the last wins; fine for both sides
            snprintf(lab, sizeof lab, "building a %s map of %zu parts%s", t == 0 ? "composed" : "triangular", k.size(), move ? " with moved coefficients" : ""); R.op("%s", lab);
            try { sim::LibScope ls; if(move && !allset) { std::vector<std::shared_ptr<CMap>> ms; for(auto& x : k) ms.push_back(x.m); std::shared_ptr<Node> none; b = t == 0 ? composedOf(k, true, -1) : triangularOf(k, true); } else b = t == 0 ? composedOf(k, move, -1) : triangularOf(k, move); } catch(const std::invalid_argument&) { threw = true; }
            if(threw != (move && !allset)) R.fail("moved-unset", "%s %s although the parts' coefficients are %s", lab, threw ? "was rejected" : "was accepted", allset ? "set" : "not all set");
            if(!threw) { W.o.push_back(b); R.probe(move ? "container_moved" : "container"); } else R.probe("container_rejected");
        } else if(what == 12) { // forget an object; its parts live on
            if(W.o.size() < 4) continue; snprintf(lab, sizeof lab, "dropping object %d", i); R.op("%s", lab); recall.last.erase(&n); { sim::LibScope ls; W.o.erase(W.o.begin() + i); } R.probe("drop");
        } else { // use it
            int kind = (int)q.below(NKIND); if(kind == INVERSE || !supports(o, kind) || n.coarse() || (!n.nc && (kind == COEFFGRAD || kind == LDCOEFFGRAD))) continue;
            Mode m = randomMode(q); int N = 1 + (int)q.below(3); bool usable = n.coeffsSet() && !summaryUnset(n);
            if(!usable) { // must be rejected
                if(m.api == 2) m.api = 0; if(summaryUnset(n) && !(n.coeffsSet() && n.kind == ref::SUMMARIZED)) continue;
                Mat x = gaussian(q, n.in, N), s = gaussian(q, n.out, N); bool threw = false; snprintf(lab, sizeof lab, "%s on object %d with unset coefficients", kindName[kind], i); R.op("%s", lab); R.fault("unset_coefficients");
                try { runOp(R, o, kind, x, s, m); } catch(const std::exception&) { threw = true; }
                if(!threw) R.fail("unset-accepted", "%s was accepted; %s", lab, n.describe().c_str());
            } else {
                if(!n.ready()) continue;
                Mat x = recall(q, n, points(q, n, N)); N = x.c; Mat s = gaussian(q, n.out, N); std::vector<int> good; for(int j = 0; j < N; ++j) { Vec col = x.col(j); if(sane(n, col.data())) good.push_back(j); } if(good.empty()) continue; x = x.cols(good); s = s.cols(good); N = (int)good.size();
                snprintf(lab, sizeof lab, "%s on object %d", kindName[kind], i); R.op("%s api%d", lab, m.api);
                Mat got;
                if(q.chance(0.3) && kind != LDINPUTGRAD && kind != LDCOEFFGRAD) { // keep what was returned
                    Buf X(x, m.inLay), S(s, m.in2Lay); R.perturbed(); sim::LibScope ls; Kept kp; kp.step = W.step; kp.isVec = kind == LOGDET;
                    if(kind == EVAL) kp.view = o.f->Evaluate(X.cview()); else if(kind == COEFFGRAD) kp.view = o.f->CoeffGrad(X.cview(), S.cview()); else if(kind == GRADIENT) kp.view = o.f->Gradient(X.cview(), S.cview()); else kp.vec = o.m->LogDeterminant(X.cview());
                    R.sequential(); got = kp.isVec ? Mat(1, (int)kp.vec.extent(0)) : Mat((int)kp.view.extent(0), (int)kp.view.extent(1)); for(int a = 0; a < got.r; ++a) for(int b = 0; b < got.c; ++b) got(a, b) = kp.isVec ? kp.vec(b) : kp.view(a, b); kp.now = got; W.kept.push_back(kp); if(W.kept.size() > 6) W.kept.erase(W.kept.begin());
                } else { R.perturbed(); got = runOp(R, o, kind, x, s, m); R.sequential(); }
                hashResult(got); Mat want = refOp(n, kind, x, s); double sc = 1; for(double v : want.a) if(std::isfinite(v)) sc = std::max(sc, std::fabs(v));
                double t = n.adaptive() ? (kind == EVAL ? 5e-4 : n.jumpy() ? 0.1 : 1e-2) : 1e-7; int a, b;
                if(differs(got, want, t * sc, t, a, b)) R.fail((std::string("used-") + kindName[kind]).c_str(), "%s gives %.15g at (%d,%d), with the coefficients it owns %.15g; %s", lab, a >= 0 && b >= 0 && a < got.r && b < got.c ? got(a, b) : NAN, a, b, a >= 0 && b >= 0 && a < want.r && b < want.c ? want(a, b) : NAN, n.describe().c_str());
                R.checked(want.r * want.c); R.probe(kindName[kind]);
            }
        }
        W.check(lab);
    }
}
