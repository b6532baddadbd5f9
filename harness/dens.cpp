#include "dens.h"
#include <cstring>
using namespace mpart;
namespace world {
const char* densKindName[3] = {"LogDensity", "LogDensityInputGrad", "LogDensityCoeffGrad"};
typedef Kokkos::View<double**, Kokkos::LayoutLeft, HS> LV; typedef Kokkos::View<double**, Kokkos::LayoutRight, HS> RV;

static Vec solveL(const Mat& L, Vec b) { for(int i = 0; i < L.r; ++i) { for(int k = 0; k < i; ++k) b[i] -= L(i, k) * b[k]; b[i] /= L(i, i); } return b; }
static Vec solveLT(const Mat& L, Vec b) { for(int i = L.r - 1; i >= 0; --i) { for(int k = i + 1; k < L.r; ++k) b[i] -= L(k, i) * b[k]; b[i] /= L(i, i); } return b; }
double Gauss::logDensity(const double* x) const
{
    Vec d(dim); for(int i = 0; i < dim; ++i) d[i] = x[i] - (hasMean ? mean[i] : 0);
    double ld = 0; if(hasCov) { d = solveL(L, d); for(int i = 0; i < dim; ++i) ld += 2 * std::log(L(i, i)); }
    double s = 0; for(double v : d) s += v * v;
    return -0.5 * (s + ld + dim * std::log(2 * M_PI));
}
Vec Gauss::grad(const double* x) const
{
    Vec d(dim); for(int i = 0; i < dim; ++i) d[i] = (hasMean ? mean[i] : 0) - x[i];
    return hasCov ? solveLT(L, solveL(L, d)) : d;
}
Dens gaussianDens(sim::Rng& r, int dim, double scale)
{
    Dens D; Gauss& g = D.g; g.dim = dim; D.in = dim; int form = (int)r.below(4); g.hasMean = form & 1; g.hasCov = form & 2; if(scale != 1) { g.hasCov = true; form |= 2; }
    bool right = r.chance(0.5);
    DV mv; SM cv;
    if(g.hasMean) { g.mean.resize(dim); for(auto& v : g.mean) v = r.normal(); mv = toView(g.mean); }
    if(g.hasCov) {
        g.L = Mat(dim, dim); for(int i = 0; i < dim; ++i) { for(int j = 0; j < i; ++j) g.L(i, j) = scale * (dim > 6 ? 0.5 / dim : 0.5) * r.normal(); g.L(i, i) = scale * r.uniform(0.5, 2.0); }
        g.cov = Mat(dim, dim); for(int i = 0; i < dim; ++i) for(int j = 0; j < dim; ++j) for(int k = 0; k < dim; ++k) g.cov(i, j) += g.L(i, k) * g.L(j, k);
        if(right) cv = RV("cov", dim, dim); else cv = LV("cov", dim, dim);
        for(int i = 0; i < dim; ++i) for(int j = 0; j < dim; ++j) cv(i, j) = g.cov(i, j);
    }
    std::shared_ptr<GaussianSamplerDensity<HS>> p;
    { sim::LibScope ls;
      SV ms = mv; if(g.hasMean && r.fork(62).chance(0.5)) { RV rows("means", dim, 3); for(int i = 0; i < dim; ++i) { rows(i, 0) = 1e30; rows(i, 2) = NAN; rows(i, 1) = g.mean[i]; } ms = Kokkos::subview(rows, Kokkos::ALL(), 1); }
      if(form == 0) p = std::make_shared<GaussianSamplerDensity<HS>>((unsigned)dim); else if(form == 1) p = std::make_shared<GaussianSamplerDensity<HS>>(ms);
      else if(form == 2) p = std::make_shared<GaussianSamplerDensity<HS>>(cv); else p = std::make_shared<GaussianSamplerDensity<HS>>(ms, cv); }
    D.d = p; D.s = p;
    char b[64]; snprintf(b, sizeof b, "Gauss%d%s%s", dim, g.hasMean ? "m" : "", g.hasCov ? (right ? "R" : "L") : ""); D.desc = b;
    return D;
}
Dens pullback(Obj map, std::shared_ptr<Dens> base)
{
    Dens D; D.base = base; D.map = map; D.n = map.n; D.in = map.n->in; D.pb = std::make_shared<PullbackDensity<HS>>(map.m, base->d); D.d = D.pb;
    if(map.n->in == map.n->out && base->s) D.s = std::make_shared<PullbackSampler<HS>>(map.m, base->s);
    D.desc = "Pull(" + map.n->describe() + "," + base->desc + ")"; return D;
}
Dens pushforward(Obj map, std::shared_ptr<Dens> base)
{
    Dens D; D.base = base; D.map = map; D.n = map.n; D.in = map.n->in; D.push = true; D.d = std::make_shared<PushforwardDensity<HS>>(map.m, base->d);
    if(base->s) D.s = std::make_shared<PushforwardSampler<HS>>(map.m, base->s);
    D.desc = "Push(" + map.n->describe() + "," + base->desc + ")"; return D;
}
Dens randomDensity(sim::Rng& r, int depth)
{
    int dim = 1 + (int)r.below(4);
    Dens g = gaussianDens(r, dim);
    if(depth == 0 || r.chance(0.3)) return g;
    Cfg c; c.depth = 1; c.maxLayers = 3; c.pAdaptive = 0.15;
    if(r.chance(0.35)) { Obj m = map(r, dim, dim, c); fillCoeffs(r, m); return pushforward(m, std::make_shared<Dens>(g)); }
    bool sq = r.chance(0.7); Obj m = map(r, sq ? dim : dim + (int)r.below(2), dim, c); fillCoeffs(r, m);
    Dens p = pullback(m, std::make_shared<Dens>(g));
    if(m.n->in == m.n->out && r.chance(0.25)) { Obj m2 = map(r, dim, dim, c); fillCoeffs(r, m2); return pullback(m2, std::make_shared<Dens>(p)); }
    return p;
}
Mat densPoints(sim::Rng& r, const Dens& d, int N)
{
    if(!d.n) return gaussian(r, d.in, N);
    Mat x = points(r, *d.n, N);
    if(d.push) for(int j = 0; j < N; ++j) { Vec y = refEvalCol(*d.n, x, j); for(int i = 0; i < x.r; ++i) x(i, j) = y[i]; }
    return x;
}
bool densSupports(const Dens& d, int kind)
{
    if(kind == DCOEFF) return d.pb && d.n->nc > 0 && densSupports(*d.base, DGRAD) && supports(d.map, LDCOEFFGRAD);
    if(kind == DGRAD) return !d.n || (!d.push && densSupports(*d.base, DGRAD) && supports(d.map, LDINPUTGRAD));
    return true;
}
Mat runDens(sim::Run& R, const Dens& d, int kind, const Mat& x, const Mode& m)
{
    Buf X(x, m.inLay); int N = x.c, rows = kind == DLOG ? 1 : kind == DGRAD ? x.r : d.n->nc; Mat out(rows, N);
    if(m.api == 0) {
        sim::LibScope ls;
        if(kind == DLOG) { SV v = d.d->LogDensity(X.cview()); if((int)v.extent(0) != N) R.fail("shape", "LogDensity length"); for(int j = 0; j < N; ++j) out(0, j) = v(j); }
        else { SM v = kind == DGRAD ? d.d->LogDensityInputGrad(X.cview()) : d.pb->LogDensityCoeffGrad(X.cview());
            if((int)v.extent(0) != rows || (int)v.extent(1) != N) R.fail((std::string("shape-") + densKindName[kind]).c_str(), "%s returned a %dx%d matrix instead of %dx%d", densKindName[kind], (int)v.extent(0), (int)v.extent(1), rows, N);
            for(int i = 0; i < rows; ++i) for(int j = 0; j < N; ++j) out(i, j) = v(i, j); }
    } else if(m.api == 1) {
        Eigen::RowMatrixXd e(x.r, N); for(int i = 0; i < x.r; ++i) for(int j = 0; j < N; ++j) e(i, j) = x(i, j);
        Eigen::RowMatrixXd wide; bool block = m.inLay == ROWPAD && x.r > 0 && N > 0; if(block) { wide = Eigen::RowMatrixXd::Constant(x.r + 2, N + 3, 1.25e33); wide.block(1, 2, x.r, N) = e; }
        sim::LibScope ls; Eigen::Ref<const Eigen::RowMatrixXd> ex = block ? Eigen::Ref<const Eigen::RowMatrixXd>(wide.block(1, 2, x.r, N)) : Eigen::Ref<const Eigen::RowMatrixXd>(e);
        if(kind == DLOG) { Eigen::VectorXd v = d.d->LogDensity(ex); for(int j = 0; j < N; ++j) out(0, j) = v(j); }
        else { Eigen::RowMatrixXd v = kind == DGRAD ? d.d->LogDensityInputGrad(ex) : d.pb->LogDensityCoeffGrad(ex);
            if(v.rows() != rows || v.cols() != N) R.fail((std::string("shape-") + densKindName[kind]).c_str(), "%s returned a %dx%d matrix instead of %dx%d", densKindName[kind], (int)v.rows(), (int)v.cols(), rows, N);
            for(int i = 0; i < rows; ++i) for(int j = 0; j < N; ++j) out(i, j) = v(i, j); }
    } else {
        Buf O(rows, N, m.outLay, m.fill);
        { sim::LibScope ls;
          if(kind == DLOG) d.d->LogDensityImpl(X.cview(), SV(O.p, Kokkos::LayoutStride(N, O.s1)));
          else if(kind == DGRAD) d.d->LogDensityInputGradImpl(X.cview(), O.view()); else d.pb->LogDensityCoeffGradImpl(X.cview(), O.view()); }
        if(!O.gapsIntact()) R.fail("output-gap", "%s wrote between the elements of its output view: %s", densKindName[kind], d.desc.c_str());
        out = O.get();
    }
    if(!X.equals(x) || !X.gapsIntact()) R.fail("input-changed", "%s changed its input: %s", densKindName[kind], d.desc.c_str());
    return out;
}
static double refLog(const Dens& d, const Vec& x)
{
    if(!d.n) return d.g.logDensity(x.data());
    ref::Eval e; d.n->eval(x.data(), e, false); return refLog(*d.base, e.y) + e.ld;
}
static Vec refGrad(const Dens& d, const Vec& x, bool coeff)
{
    if(!d.n) return d.g.grad(x.data());
    ref::Eval e; d.n->eval(x.data(), e, true); Vec s = refGrad(*d.base, e.y, false);
    Vec g = coeff ? e.gc : e.gx; const Mat& J = coeff ? e.C : e.J;
    for(size_t i = 0; i < g.size(); ++i) for(size_t q = 0; q < s.size(); ++q) g[i] += s[q] * J((int)q, (int)i);
    return g;
}
Mat refDens(const Dens& d, int kind, const Mat& x)
{
    Mat o(kind == DLOG ? 1 : kind == DGRAD ? x.r : d.n->nc, x.c);
    for(int j = 0; j < x.c; ++j) { if(kind == DLOG) o(0, j) = refLog(d, x.col(j)); else { Vec g = refGrad(d, x.col(j), kind == DCOEFF); for(int i = 0; i < o.r; ++i) o(i, j) = g[i]; } }
    return o;
}
}
