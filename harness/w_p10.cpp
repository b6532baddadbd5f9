// P10: densities obey the change of variables for the coefficients their maps hold now; Gaussians equal the closed form.
#include "dens.h"
#include <algorithm>
using namespace world;
const char* workloadName = "p10"; bool workloadInitKokkos = true; void workloadSetup() {}
// reference log-density; for a pushforward the preimages are known from how the points were made
static double refLog(const Dens& d, const Vec& x, double& tol)
{
    if(!d.n) { tol += 1e-9; return d.g.logDensity(x.data()); }
    ref::Eval e; d.n->eval(x.data(), e, false); double b = 0;
    double v = refLog(*d.base, e.y, b); tol += b; return v + e.ld;
}
static Vec refGrad(const Dens& d, const Vec& x)
{
    if(!d.n) return d.g.grad(x.data());
    ref::Eval e; d.n->eval(x.data(), e, true); Vec s = refGrad(*d.base, e.y), g = e.gx; for(size_t i = 0; i < g.size(); ++i) for(size_t q = 0; q < s.size(); ++q) g[i] += s[q] * e.J((int)q, (int)i); return g;
}
static void collect(const Obj& o, std::vector<Obj>& v) { if(o.f) v.push_back(o); for(auto& k : o.kids) collect(k, v); }
static bool pushIn(const Dens& d) { return d.push || (d.base && pushIn(*d.base)); }
static double scaleOf(const Mat& m) { double s = 1; for(double v : m.a) if(std::isfinite(v)) s = std::max(s, std::fabs(v)); return s; }

// many dimensions and extreme length scales: the determinant of the covariance leaves the range of a double long before its logarithm does
static void extremeGauss(sim::Run& R, sim::Rng r)
{
    int dim = 1 + (int)r.below(r.chance(0.3) ? 6 : 90); double scale = std::pow(10.0, r.uniform(-9, 9)); Dens d = gaussianDens(r, dim, scale); R.config(dim); R.probe("extreme_scale");
    for(int k = 0; k < 3; ++k) {
        sim::Rng q = r.fork(100 + k); int kind = (int)q.below(2); Mode m = randomMode(q); int N = 1 + (int)q.below(4); if(!R.keep()) continue;
        Mat z = gaussian(q, dim, N), x(dim, N); for(int j = 0; j < N; ++j) for(int i = 0; i < dim; ++i) { double v = d.g.hasMean ? d.g.mean[i] : 0; for(int l = 0; l <= i; ++l) v += d.g.L(i, l) * z(l, j); x(i, j) = v; }
        R.op("%s api%d N=%d of %s at length scale %.3g", densKindName[kind], m.api, N, d.desc.c_str(), scale);
        R.perturbed(); Mat got = runDens(R, d, kind, x, m); R.sequential(); hashResult(got); Mat want = refDens(d, kind, x); double sc = 0; for(double v : want.a) sc = std::max(sc, std::fabs(v));
        double lost = d.g.hasMean ? 1e-15 * 8 / scale : 0; // the mean swamps a tiny deviation
        int i, j; if(differs(got, want, (1e-7 + 1e2 * lost) * (kind == DLOG ? sc + dim : sc), 1e-7, i, j)) R.fail((std::string("extreme-") + densKindName[kind]).c_str(), "%s entry (%d,%d) is %.14g, by the closed form %.14g; dimension %d, length scale %.3g; %s", densKindName[kind], i, j, got(i, j), want(i, j), dim, scale, d.desc.c_str());
        R.checked((uint64_t)want.r * want.c);
    }
}

void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(10); R.sequential();
    if(r.fork(1).chance(0.05)) { extremeGauss(R, r.fork(2)); return; }
    int dim = 1 + (int)r.below(4); bool more = r.fork(3).chance(0.06); if(more) { dim = 5 + (int)r.fork(4).below(4); R.probe("many_dimensions"); } Cfg c; c.depth = 1; c.maxLayers = 3; c.pAdaptive = r.chance(0.3) ? 0.3 : 0; if(r.chance(0.6)) c.pDisc = 0;
    std::vector<Obj> maps; std::vector<std::shared_ptr<Dens>> ds;
    int nm = 1 + (int)r.below(3); for(int i = 0; i < nm; ++i) { maps.push_back(map(r, dim, dim, c)); fillCoeffs(r, maps.back()); }
    if(nm > 1 && r.chance(0.4)) { bool ok = true; for(auto& m : maps) ok = ok && m.n->depth() < 4; if(ok) { std::vector<Obj> k = maps; Obj o = composedOf(k, r.chance(0.5) && std::all_of(k.begin(), k.end(), [](Obj& o) { return o.n->coeffsSet(); }), -1); fillCoeffs(r, o); maps.push_back(o); } }
    if(r.chance(0.3)) { maps.push_back(map(r, dim + 1 + (int)r.below(2), dim, c)); fillCoeffs(r, maps.back()); }
    ds.push_back(std::make_shared<Dens>(gaussianDens(r, dim))); if(r.chance(0.4)) ds.push_back(std::make_shared<Dens>(gaussianDens(r, dim)));
    int nd = 1 + (int)r.below(4);
    for(int i = 0; i < nd; ++i) {
        Obj m = maps[r.below(maps.size())]; auto b = ds[r.below(ds.size())]; if(b->in != m.n->out || pushIn(*b)) b = ds[0];
        int depth = 0; for(auto q = b; q; q = q->base) ++depth; if(depth > 2) b = ds[0];
        bool push = m.n->in == m.n->out && r.chance(0.35);
        ds.push_back(std::make_shared<Dens>(push ? pushforward(m, b) : pullback(m, b)));
    }
    R.config(dim * 31 + nm); for(auto& d : ds) for(char ch : d->desc) R.config(ch);
    for(auto& d : ds) R.op("density %s", d->desc.c_str());
    std::vector<Obj> all; for(auto& m : maps) collect(m, all);
    Recall recall; int steps = 4 + (int)r.below(9);
    for(int k = 0; k < steps; ++k) {
        sim::Rng q = r.fork(100 + k); if(!R.keep()) continue;
        if(q.chance(0.3)) { // coefficients of a map or of one of its parts
            Obj& o = all[q.below(all.size())]; if(!o.n->nc) continue; Vec v = randomCoeffs(q, *o.n); if(q.chance(0.5)) for(auto& z : v) z *= 0.5;
            R.op("SetCoeffs on %s", o.n->describe().c_str()); sim::LibScope ls; setCoeffs(o, v); R.probe("SetCoeffs"); continue;
        }
        int di = (int)q.below(ds.size()); Dens& d = *ds[di]; int kind = (int)q.below(3); Mode m = randomMode(q); if(!densSupports(d, kind)) continue;
        if(d.n && !d.n->coeffsSet()) continue;
        int N = 1 + (int)q.below(6); Mat x = d.n ? recall(q, *d.n, points(q, *d.n, N), &d) : gaussian(q, dim, N); N = x.c;
        std::vector<int> good; for(int j = 0; j < N; ++j) { // every layer of the density must see points within range
            bool ok = true; Vec z = x.col(j); for(const Dens* p = &d; ok && p->n; p = p->base.get()) { ok = sane(*p->n, z.data()) && (!p->n->coarse() || kind == DLOG); if(p->push) { ok = ok && increasing(*p->n, z); break; } ref::Eval e; p->n->eval(z.data(), e, false); z = e.y; }
            if(ok) good.push_back(j); }
        if(good.empty()) continue; x = x.cols(good); N = (int)good.size();
        Mat in = x; if(d.push) for(int j = 0; j < N; ++j) { Vec y = refEvalCol(*d.n, x, j); for(int i = 0; i < dim; ++i) in(i, j) = y[i]; }
        if(kind == DGRAD && m.api != 2 && d.in != dim) m.api = 2; // Dim() is the dimension of the reference
        R.op("%s api%d in%d out%d N=%d of density %d", densKindName[kind], m.api, m.inLay, m.outLay, N, di);
        R.perturbed(); Mat got = runDens(R, d, kind, in, m); R.sequential(); hashResult(got);
        Mat want, tol(1, N); if(!d.push) want = refDens(d, kind, x); else {
            want = Mat(1, N);
            for(int j = 0; j < N; ++j) {
                Vec u = x.col(j); double t = 0; ref::Eval e; d.n->eval(u.data(), e, true); want(0, j) = refLog(*d.base, u, t) - e.ld; Vec g = refGrad(*d.base, u);
                double gn = 0; for(double v : g) gn += std::fabs(v); for(double v : e.gx) gn += std::fabs(v); double dx = 20 * invNorm(e.J) * slack(*d.n, u) + 1e-6; bool disc = !supports(d.map, LDINPUTGRAD); // no input gradient to judge by
                tol(0, j) = dx > 1e-2 || disc ? 1e9 : (gn + 1) * dx * 2;
            } }
        bool ad = d.n && d.n->adaptive(); for(const Dens* p = &d; p && p->n; p = p->base.get()) ad = ad || p->n->adaptive();
        bool jumpy = false; for(const Dens* p = &d; p && p->n; p = p->base.get()) jumpy = jumpy || p->n->jumpy();
        double base = ad ? (kind == DLOG ? 5e-3 : jumpy ? 0.1 : 1e-2) : 1e-7, sc = scaleOf(want);
        if(got.r != want.r || got.c != want.c) R.fail("shape", "%s returned %dx%d, not %dx%d", densKindName[kind], got.r, got.c, want.r, want.c);
        for(int j = 0; j < N; ++j) for(int i = 0; i < want.r; ++i) { double t = base * sc + tol(0, j); if(t > 1e8) continue; if(!close(got(i, j), want(i, j), t, base)) R.fail((std::string(d.push ? "push-" : d.n ? "pull-" : "gauss-") + densKindName[kind]).c_str(), "%s entry %d of point %d is %.14g, by the change of variables %.14g (allowed %.3g); step %d; %s", densKindName[kind], i, j, got(i, j), want(i, j), t, k, d.desc.c_str()); R.checked(); }
        R.probe((std::string(d.push ? "push-" : d.n ? "pull-" : "gauss-") + densKindName[kind]).c_str()); if(d.base && d.base->n) R.probe("nested_density");
    }
}
