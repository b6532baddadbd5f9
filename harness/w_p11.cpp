// P11: a composition of maps does what its layers do when they are called one after another, whatever its checkpoint budget,
// the history of calls, and who else uses the layers.
#include "world.h"
#include "MParT/ComposedMap.h"
#include <algorithm>
#include <cstring>
using namespace world;
const char* workloadName = "p11"; bool workloadInitKokkos = true; void workloadSetup() {}
static const Mode plain = [] { Mode m; m.api = 2; return m; }();

static Mat add(const Mat& a, const Mat& b) { Mat c = a; for(size_t i = 0; i < c.a.size(); ++i) c.a[i] += b.a[i]; return c; }
static void put(Mat& out, int r0, const Mat& m) { for(int i = 0; i < m.r; ++i) for(int j = 0; j < m.c; ++j) out(r0 + i, j) = m(i, j); }
static Mat chain(sim::Run& R, const Obj& o, int kind, const Mat& a, const Mat& b)
{
    if(o.n->kind != ref::COMPOSED) return runOp(R, o, kind, a, b, plain);
    int L = (int)o.kids.size(), N = kind == INVERSE ? b.c : a.c;
    if(kind == INVERSE) { Mat z = b; for(int i = L - 1; i >= 0; --i) z = chain(R, o.kids[i], INVERSE, Mat(0, N), z); return z; }
    std::vector<Mat> z{a}; for(int i = 0; i < L; ++i) z.push_back(chain(R, o.kids[i], EVAL, z[i], Mat(0, N)));
    if(kind == EVAL) return z[L];
    if(kind == LOGDET) { Mat s(1, N); for(int i = 0; i < L; ++i) s = add(s, chain(R, o.kids[i], LOGDET, z[i], Mat(0, N))); return s; }
    if(kind == GRADIENT || kind == COEFFGRAD) {
        Mat s = b, out(o.n->nc, N); int at = o.n->nc;
        for(int i = L - 1; i >= 0; --i) { at -= o.kids[i].n->nc; if(kind == COEFFGRAD && o.kids[i].n->nc) put(out, at, chain(R, o.kids[i], COEFFGRAD, z[i], s)); s = chain(R, o.kids[i], GRADIENT, z[i], s); }
        return kind == GRADIENT ? s : out;
    }
    Mat g(o.n->in, N), out(o.n->nc, N); int at = o.n->nc; // log-determinant gradients
    for(int i = L - 1; i >= 0; --i) {
        int nc = o.kids[i].n->nc; at -= nc;
        if(kind == LDCOEFFGRAD && nc) put(out, at, add(chain(R, o.kids[i], LDCOEFFGRAD, z[i], Mat(0, N)), chain(R, o.kids[i], COEFFGRAD, z[i], g)));
        if(kind == LDCOEFFGRAD && i == 0) break;
        g = add(chain(R, o.kids[i], LDINPUTGRAD, z[i], Mat(0, N)), chain(R, o.kids[i], GRADIENT, z[i], g));
    }
    return kind == LDINPUTGRAD ? g : out;
}
static double scaleOf(const Mat& m) { double s = 1; for(double v : m.a) if(std::isfinite(v)) s = std::max(s, std::fabs(v)); return s; }

// A layer y = a x + b sin(x) that allocates nothing and counts how often it is evaluated
struct Counted : CMap {
    double a, b; mutable int evals = 0;
    Counted(unsigned d, double aa, double bb, unsigned nc) : CMap(d, d, nc), a(aa), b(bb) {}
    void EvaluateImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedMatrix<double, HS> o) override { ++evals; for(size_t j = 0; j < p.extent(1); ++j) for(size_t i = 0; i < p.extent(0); ++i) o(i, j) = a * p(i, j) + b * std::sin(p(i, j)); }
    void GradientImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedMatrix<const double, HS> const& s, mpart::StridedMatrix<double, HS> o) override { for(size_t j = 0; j < p.extent(1); ++j) for(size_t i = 0; i < p.extent(0); ++i) o(i, j) = s(i, j) * (a + b * std::cos(p(i, j))); }
    void CoeffGradImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedMatrix<const double, HS> const& s, mpart::StridedMatrix<double, HS> o) override { for(size_t j = 0; j < p.extent(1); ++j) for(size_t i = 0; i < o.extent(0); ++i) o(i, j) = s(0, j) * std::cos(p(0, j) + i); }
    void LogDeterminantImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedVector<double, HS> o) override { for(size_t j = 0; j < p.extent(1); ++j) { o(j) = 0; for(size_t i = 0; i < p.extent(0); ++i) o(j) += std::log(a + b * std::cos(p(i, j))); } }
    void InverseImpl(mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<double, HS>) override { throw std::runtime_error("not needed"); }
    void LogDeterminantInputGradImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedMatrix<double, HS> o) override { for(size_t j = 0; j < p.extent(1); ++j) for(size_t i = 0; i < p.extent(0); ++i) o(i, j) = -b * std::sin(p(i, j)) / (a + b * std::cos(p(i, j))); }
    void LogDeterminantCoeffGradImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedMatrix<double, HS> o) override { for(size_t j = 0; j < p.extent(1); ++j) for(size_t i = 0; i < o.extent(0); ++i) o(i, j) = std::sin(p(0, j) - i); }
};
// What the budget promises: no more than so many stored states, and no layer evaluated twice when there is room for all of them
static void budgets(sim::Run& R, sim::Rng& r)
{
    unsigned d = 1 + (unsigned)r.below(3), nc = 1 + (unsigned)r.below(2); int L = 2 + (int)r.below(r.chance(0.3) ? 40 : 14), N = 150 + (int)r.below(200);
    std::vector<std::shared_ptr<Counted>> lay; std::vector<std::shared_ptr<CMap>> maps; for(int i = 0; i < L; ++i) { lay.push_back(std::make_shared<Counted>(d, r.uniform(0.8, 1.2), r.uniform(-0.3, 0.3), nc)); maps.push_back(lay.back()); }
    R.config(L * 7 + d); R.op("%d counted layers in dimension %u, %d points", L, d, N);
    Kokkos::View<double**, Kokkos::LayoutLeft, HS> x("x", d, N), s("s", d, N), o1("o", d, N), o2("o", nc * L, N); for(int j = 0; j < N; ++j) for(unsigned i = 0; i < d; ++i) { x(i, j) = r.normal(); s(i, j) = r.normal(); }
    mpart::StridedMatrix<const double, HS> xs = x, ss = s; mpart::StridedMatrix<double, HS> g = o1, c = o2; uint64_t S = (uint64_t)d * N * 8;
    std::vector<int> B{1}; for(int k = 0; k < 3; ++k) B.push_back(2 + (int)r.below(L)); B.push_back(L); B.push_back(-1);
    for(int kind : {GRADIENT, COEFFGRAD, LDINPUTGRAD, LDCOEFFGRAD}) {
        if(!R.keep()) continue;
        std::vector<double> base; uint64_t peak1 = 0; int evals1 = 0;
        for(int b : B) {
            mpart::ComposedMap<HS> m(maps, false, b); for(auto& l : lay) l->evals = 0;
            uint64_t at = sim::heapLive(); sim::resetHeapPeak();
            { sim::LibScope ls; if(kind == GRADIENT) m.GradientImpl(xs, ss, g); else if(kind == COEFFGRAD) m.CoeffGradImpl(xs, ss, c); else if(kind == LDINPUTGRAD) m.LogDeterminantInputGradImpl(xs, g); else m.LogDeterminantCoeffGradImpl(xs, c); }
            uint64_t peak = sim::heapPeak() - at; int most = 0, evals = 0; for(auto& l : lay) { most = std::max(most, l->evals); evals += l->evals; }
            bool wide = kind == COEFFGRAD || kind == LDCOEFFGRAD; std::vector<double> got; for(int j = 0; j < N; ++j) for(size_t i = 0; i < (wide ? o2.extent(0) : o1.extent(0)); ++i) got.push_back(wide ? o2(i, j) : o1(i, j));
            for(double v : got) { uint64_t u; memcpy(&u, &v, 8); sim::hashMix(u); }
            R.log("%s budget %d: %d evaluations, at most %d of a layer, %.2f states", kindName[kind], b, evals, most, peak / (double)S);
            if(b == 1) { base = got; peak1 = peak; evals1 = evals; }
            else {
                for(size_t i = 0; i < got.size(); ++i) if(!(std::fabs(got[i] - base[i]) <= 1e-9 * (1 + std::fabs(base[i])))) R.fail("budget-value", "%s entry %zu is %.17g with budget %d and %.17g with budget 1, %d layers", kindName[kind], i, got[i], b, base[i], L);
                int room = b < 0 ? L : b; if(peak > peak1 + (uint64_t)room * (S + 512) + 4096) R.fail("budget-memory", "%s over %d layers needs the memory of %.1f more states with a budget of %d than with 1", kindName[kind], L, (peak - peak1) / (double)S, b);
                if(evals > evals1) R.fail("budget-work", "%s over %d layers evaluates layers %d times with a budget of %d, %d times with 1", kindName[kind], L, evals, b, evals1);
            }
            if((b < 0 || b >= L) && most > 1) R.fail("budget-reuse", "%s over %d layers with room for all states evaluates a layer %d times", kindName[kind], L, most);
            R.checked(); R.probe("budget");
        }
    }
}

void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(11); R.sequential(); if(r.fork(90).chance(0.05)) { sim::Rng q = r.fork(91); budgets(R, q); return; }
    int dim = 1 + (int)r.below(4); bool many = r.chance(0.35); if(many) dim = 1 + (int)r.below(2); else if(r.fork(92).chance(0.05)) { dim = 5 + (int)r.fork(93).below(4); R.probe("many_dimensions"); }
    Cfg c; c.depth = r.chance(0.25) ? 1 : 0; c.maxLayers = 3; c.pAdaptive = r.chance(0.2) ? 0.5 : 0.0; if(r.chance(0.7)) c.pDisc = 0; if(many) { c.depth = 0; c.maxTerms = 3; c.maxOrder = 2; c.pAdaptive = 0; }
    int L = many ? 4 + (int)r.below(10) : 1 + (int)r.below(5);
    // layers and the compositions made of them; later ones may use layers of the earlier ones, or one layer twice
    std::vector<Obj> layers, tops; for(int i = 0; i < L; ++i) { layers.push_back(map(r, dim, dim, c)); fillCoeffs(r, layers.back()); }
    int nt = 1 + (int)r.below(3); std::string budgets;
    for(int t = 0; t < nt; ++t) {
        std::vector<Obj> k;
        if(t == 0 || r.chance(0.5)) k = layers; else { int n = 1 + (int)r.below(L + 1); for(int i = 0; i < n; ++i) k.push_back(layers[r.below(L)]); }
        if(r.chance(0.1)) std::reverse(k.begin(), k.end());
        if(t > 0 && r.chance(0.2)) k[r.below(k.size())] = tops[r.below(tops.size())]; // nested
        bool move = r.chance(0.4); for(auto& q : k) if(!q.n->coeffsSet()) move = false;
        int checks = r.chance(0.25) ? -1 : 1 + (int)r.below(k.size() + 1);
        tops.push_back(composedOf(k, move, checks)); budgets += " " + std::to_string(checks) + "/" + std::to_string(k.size()) + (move ? "m" : "");
        // coefficients that keep the whole within range
        if(tops.back().n->nc && (!move || r.chance(0.7))) fillCoeffs(r, tops.back());
    }
    R.config(dim * 101 + L * 7 + nt); for(char ch : tops[0].n->describe()) R.config(ch); for(char ch : budgets) R.config(ch);
    R.op("build %d compositions of %d layers in dimension %d; budgets/layers%s", nt, L, dim, budgets.c_str());
    Recall recall; int steps = 4 + (int)r.below(8);
    for(int k = 0; k < steps; ++k) {
        sim::Rng q = r.fork(100 + k); int ti = (int)q.below(tops.size()); Obj& o = tops[ti]; bool keep = R.keep();
        if(q.chance(0.25)) {
            if(!keep) continue;
            if(q.chance(0.5)) { if(!o.n->nc) continue; R.op("SetCoeffs on composition %d", ti); Vec v = randomCoeffs(q, *o.n); sim::LibScope ls; setCoeffs(o, v); R.probe("set_composition"); }
            else { int i = (int)q.below(L); if(!layers[i].n->nc) continue; R.op("SetCoeffs on layer %d", i); Vec v = randomCoeffs(q, *layers[i].n); for(auto& x : v) x *= 0.5; sim::LibScope ls; setCoeffs(layers[i], v); R.probe("set_layer"); }
            continue;
        }
        int kind = (int)q.below(NKIND); Mode m = randomMode(q); if(!supports(o, kind) || !keep || !o.n->ready()) continue;
        if(!o.n->coeffsSet()) m.api = 2; // the public entry points insist on coefficients of the composition itself
        if(!o.n->nc && (kind == COEFFGRAD || kind == LDCOEFFGRAD)) continue;
        int N = 1 + (int)q.below(many ? 3 : 6); Mat x = recall(q, *o.n, points(q, *o.n, N)); N = x.c; Mat s = gaussian(q, dim, N);
        if(kind == INVERSE) { Mat t(dim, N); for(int j = 0; j < N; ++j) { Vec y = refEvalCol(*o.n, x, j); for(int i = 0; i < dim; ++i) t(i, j) = y[i]; } s = t; x = Mat(0, N); }
        R.op("%s api%d on composition %d N=%d", kindName[kind], m.api, ti, N);
        Mat want;
        bool before = q.chance(0.5); if(before) want = chain(R, o, kind, x, s);
        R.perturbed(); Mat got = runOp(R, o, kind, x, s, m); R.sequential(); hashResult(got);
        if(!before) want = chain(R, o, kind, x, s);
        bool lin = o.n->hasKind(ref::AFFINE); double tl = lin && (o.n->adaptive() || kind == INVERSE) ? 1e-2 : 1e-8; double sc = scaleOf(want); int i, j;
        if(kind == INVERSE && lin) tl = 1e-2;
        bool finite = true; for(double v : want.a) finite = finite && std::isfinite(v) && std::fabs(v) < 1e12; if(lin && !finite) continue;
        if(differs(got, want, tl * sc, tl, i, j))
            R.fail((std::string("compose-") + kindName[kind]).c_str(), "%s of composition %d (budget/layers%s), entry (%d,%d): %.17g, its layers one after another give %.17g; %s", kindName[kind], ti, budgets.c_str(), i, j, i >= 0 ? got(i, j) : NAN, i >= 0 ? want(i, j) : NAN, o.n->describe().c_str());
        R.checked((uint64_t)want.r * want.c); R.probe(kindName[kind]);
        int Lo = (int)o.kids.size(); R.probe(o.n->maxChecks <= 0 || o.n->maxChecks >= Lo ? "full_budget" : o.n->maxChecks == 1 ? "one_checkpoint" : "partial_budget");
    }
}
