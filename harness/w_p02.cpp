// P02: after any history of coefficient changes and calls of any kind, every operation equals the definition.
#include "world.h"
#include "MParT/MapFactory.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/Sigmoid.h"
using namespace world;
using namespace mpart;
const char* workloadName = "p02"; bool workloadInitKokkos = true; void workloadSetup() {}
static void collect(const Obj& o, std::vector<Obj>& v) { v.push_back(o); for(auto& k : o.kids) collect(k, v); }
static double scaleOf(const Mat& m) { double s = 1; for(double v : m.a) if(std::isfinite(v)) s = std::max(s, std::fabs(v)); return s; }
// one fixed scenario, recorded in known_findings.json: a set and its compressed form with a normalised basis
static void storageForm(sim::Run& R)
{
    sim::Rng r = R.rng.fork(9); R.sequential(); ref::Opts o; o.norm = true; o.basis = (int)r.below(2); int d = 2 + (int)r.below(2); // probabilist and physicist Hermite
    MultiIndexSet s = MultiIndexSet::CreateTotalOrder(d, 2); R.op("component on a total-order set of dimension %d, compressed and not", d);
    Vec c; for(unsigned i = 0; i < s.Size(); ++i) c.push_back(0.3 * r.normal()); Mat x = gaussian(r, d, 3), v[2];
    for(int k = 0; k < 2; ++k) { sim::LibScope ls; auto m = MapFactory::CreateComponent<HS>(s.Fix(k == 0), realOpts(o)); Kokkos::View<const double*, HS> w = toView(c); m->SetCoeffs(w); Kokkos::View<double**, HS> out("out", 1, 3); Buf X(x, 0); m->EvaluateImpl(X.cview(), StridedMatrix<double, HS>(out)); v[k] = Mat(1, 3); for(int j = 0; j < 3; ++j) v[k](0, j) = out(0, j); }
    R.checked(3); int a, b; if(differs(v[0], v[1], 1e-9, 1e-9, a, b)) R.fail("storage-form-normalisation", "with normalised basis functions the compressed set gives %.12g, the same terms and coefficients uncompressed %.12g", v[0](a, b), v[1](a, b));
}
static Obj summarized(sim::Rng& r, const Cfg& c) { int in = 1 + (int)r.below(3), q = 1 + (int)r.below(std::min(2, in)); Obj s = r.chance(0.3) ? affineFn(r, in, q) : expansion(r, in, q, c); fillCoeffs(r, s); return summarizedOf(s, component(r, q + 1, c)); }
// an integrand with a kink, followed through more levels of subdivision than a 32 bit word has bits
static void steep(sim::Run& R, sim::Rng r)
{
    ref::Opts o; o.basis = ref::PROB; o.norm = false; o.pos = ref::SOFT; o.quad = r.chance(0.5) ? ref::SIMPSON : ref::ACC; o.atol = std::pow(10.0, r.uniform(-8.5, -7)); o.rtol = 0; o.maxSub = 34 + (int)r.below(25); o.pts = 4 + (int)r.below(3);
    double b = std::pow(10.0, r.uniform(11.5, 12)), x1 = r.uniform(1, 2), x0 = x1 * r.uniform(0.02, 0.05); Vec c{r.normal(), b * x0, -0.5 * b}; // zero beyond the kink, so that rounding does not spread the subdivision
    Obj k = componentWith(r, 1, o, {{0}, {1}, {2}}); setCoeffs(k, c); R.op("steep component %s: slope %.3g, kink at %.4g, evaluated at %.4g, %d levels, tolerance %.3g", k.n->describe().c_str(), b, x0, x1, o.maxSub, o.atol);
    Mat x(1, 1), s(1, 1); x(0, 0) = x1; R.perturbed(); Mat got = runOp(R, k, EVAL, x, s, Mode()); R.sequential(); hashResult(got); R.checked(); R.probe("steep");
    double want = c[0] - c[2] + 0.5 * b * x0 * x0; if(!close(got(0, 0), want, 0, 1e-9)) R.fail("steep", "the integral of a kinked integrand is %.15g, by the closed form %.15g", got(0, 0), want);
}
// sums of logistic functions. Its two gradient methods take the sensitivities before the points, unlike every other function (known_findings.json);
// with `order` only the documented order of arguments counts, otherwise a result that is right for either order does
static void sigmoid(sim::Run& R, sim::Rng r, bool order)
{
    int n = 1 + (int)r.below(5); Vec c(n), w(n), co(n); for(int i = 0; i < n; ++i) { c[i] = 2 * r.normal(); w[i] = std::exp(r.normal()); co[i] = r.normal(); }
    auto sg = [](double t) { return t >= 0 ? 1 / (1 + std::exp(-t)) : std::exp(t) / (1 + std::exp(t)); };
    DV cv = toView(c), wv = toView(w); StridedVector<const double, HS> cs(cv), ws(wv); std::shared_ptr<Sigmoid1d<HS, Logistic>> f; { sim::LibScope ls; f = std::make_shared<Sigmoid1d<HS, Logistic>>(cs, ws); }
    R.config(n); R.op("Sigmoid1d with %d terms", n); bool set = false;
    for(int k = 0; k < 6; ++k) {
        sim::Rng q = r.fork(100 + k);
        if(!set || q.chance(0.3)) { for(auto& v : co) v = q.normal(); sim::LibScope ls; Kokkos::View<const double*, HS> v = toView(co); f->SetCoeffs(v); set = true; continue; }
        int kind = order ? 1 + (int)q.below(2) : (int)q.below(3), N = 1 + (int)q.below(6); if(!R.keep()) continue;
        Mat x = gaussian(q, 1, N), s = gaussian(q, 1, N); for(auto& v : x.a) v *= 3; int il = (int)q.below(NLAYOUT), sl = (int)q.below(NLAYOUT), ol = (int)q.below(NLAYOUT); int rows = kind == 2 ? n : 1;
        R.op("%s of N=%d", kind == 0 ? "Evaluate" : kind == 1 ? "Gradient" : "CoeffGrad", N);
        Buf X(x, il), S(s, sl), O(rows, N, ol, q.chance(0.3) ? NAN : 7.0);
        R.perturbed(); { sim::LibScope ls; if(kind == 0) f->EvaluateImpl(X.cview(), O.view()); else if(kind == 1) f->GradientImpl(X.cview(), S.cview(), O.view()); else f->CoeffGradImpl(X.cview(), S.cview(), O.view()); } R.sequential();
        Mat got = O.get(); hashResult(got); if(!O.gapsIntact() || !X.equals(x) || !S.equals(s)) R.fail("sigmoid-memory", "Sigmoid1d wrote outside its output");
        auto def = [&](const Mat& x, const Mat& s) { Mat o(rows, N); for(int j = 0; j < N; ++j) for(int i = 0; i < n; ++i) { double t = sg(w[i] * (x(0, j) - c[i])); if(kind == 0) o(0, j) += co[i] * t; else if(kind == 1) o(0, j) += s(0, j) * co[i] * w[i] * t * (1 - t); else o(i, j) = s(0, j) * t; } return o; };
        Mat want = def(x, s); int i, j; R.checked((uint64_t)rows * N);
        if(!differs(got, want, 1e-9, 1e-7, i, j)) continue;
        int a, b; bool swapped = kind > 0 && !differs(got, def(s, x), 1e-9, 1e-7, a, b);
        if(swapped && order) R.fail("sigmoid-argument-order", "%s entry (%d,%d) is %.12g, by definition %.12g; it is right with points and sensitivities exchanged", kind == 1 ? "Gradient" : "CoeffGrad", i, j, got(i, j), want(i, j));
        if(!swapped) R.fail("sigmoid", "%s entry (%d,%d) is %.12g, by definition %.12g", kind == 0 ? "Evaluate" : kind == 1 ? "Gradient" : "CoeffGrad", i, j, got(i, j), want(i, j));
    }
    R.probe("sigmoid");
}
// many dimensions and extreme scales: the determinant leaves the range of a double long before its logarithm does
static void extremeAffine(sim::Run& R, sim::Rng r)
{
    int out = 1 + (int)r.below(r.chance(0.3) ? 5 : 70), in = out + (r.chance(0.3) ? (int)r.below(4) : 0); double scale = std::pow(10.0, r.uniform(-9, 9)); Obj o = affine(r, in, out, scale); R.config(in * 131 + out); R.probe("extreme_scale");
    for(int k = 0; k < 3; ++k) {
        sim::Rng q = r.fork(100 + k); static const int kinds[] = {EVAL, LOGDET, LOGDET, GRADIENT}; int kind = kinds[q.below(4)]; Mode m = randomMode(q); int N = 1 + (int)q.below(4); if(!R.keep()) continue;
        Mat x = gaussian(q, in, N), s = gaussian(q, out, N); R.op("%s api%d N=%d on %s at scale %.3g", kindName[kind], m.api, N, o.n->describe().c_str(), scale);
        R.perturbed(); Mat got = runOp(R, o, kind, x, s, m); R.sequential(); hashResult(got); Mat want = refOp(*o.n, kind, x, s); double sc = 0; for(double v : want.a) sc = std::max(sc, std::fabs(v));
        int i, j; if(differs(got, want, 1e-7 * (kind == LOGDET ? sc + out : sc), 1e-7, i, j)) R.fail((std::string("extreme-") + kindName[kind]).c_str(), "%s entry (%d,%d) is %.15g, by definition %.15g; scale %.3g; %s", kindName[kind], i, j, got(i, j), want(i, j), scale, o.n->describe().c_str());
        R.checked((uint64_t)want.r * want.c);
    }
}
// polynomials of orders whose factorial does not fit a machine word, alone and in products
static void highOrder(sim::Run& R, sim::Rng r)
{
    ref::Opts o; o.basis = (int)r.below(3); o.norm = o.basis == ref::HFUN || r.chance(0.8); o.pos = r.chance(0.5) ? ref::EXPO : ref::SOFT; o.quad = ref::CC; static const int ccp[] = {3, 5, 9, 17}; o.pts = ccp[r.below(4)]; o.cont = r.chance(0.7); if(r.chance(0.4)) { o.lb = -r.uniform(0.3, 2.5); o.ub = r.uniform(0.3, 2.5); }
    int dim = 1 + (int)r.below(3), top = 0; std::set<std::vector<int>> t; int want = 2 + (int)r.below(4); for(int k = 0; k < 3 * want && (int)t.size() < want; ++k) { std::vector<int> a(dim, 0); int j = r.chance(0.6) ? dim - 1 : (int)r.below(dim); a[j] = k == 0 || r.chance(0.5) ? 8 + (int)r.below(o.norm ? 38 : 8) : (int)r.below(4); if(dim > 1 && r.chance(0.4)) a[r.below(dim)] += (int)r.below(3); for(int v : a) top = std::max(top, v); t.insert(a); }
    std::vector<std::vector<int>> terms(t.begin(), t.end()); Obj b;
    if(r.chance(0.6)) b = componentWith(r, dim, o, terms);
    else { b.n = std::make_shared<ref::Node>(); b.n->kind = ref::EXPANSION; b.n->in = dim; b.n->out = 1 + (int)r.below(2); b.n->o = o; auto fs = fixedSet(r, dim, terms, b.n->o.dense); b.n->terms = terms; b.n->nc = (int)terms.size() * b.n->out; b.f = MapFactory::CreateExpansion<HS>(b.n->out, fs, realOpts(o)); b.n->coef.s = std::make_shared<ref::Cell>(); b.n->coef.s->v.assign(b.n->nc, 0.0); b.n->coef.off = 0; }
    R.config(top); R.op("order %d: %s", top, b.n->describe().c_str()); R.probe("high_order");
    for(int k = 0; k < 4; ++k) {
        sim::Rng q = r.fork(100 + k); int kind = (int)q.below(NKIND), N = 1 + (int)q.below(4); Mode m = randomMode(q); if(kind == INVERSE || !supports(b, kind) || !R.keep()) continue;
        Mat x = gaussian(q, dim, N), s = gaussian(q, b.n->out, N); for(auto& v : x.a) v = std::max(-3.0, std::min(3.0, v));
        Vec c(b.n->nc); // scaled so that the expansion stays of order one at these points
        for(int i = 0; i < b.n->nc; ++i) { const auto& a = b.n->terms[i % b.n->terms.size()]; double big = 1; for(int j = 0; j < dim; ++j) { double w = 1, v, d, d2; for(double p : {-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0}) { ref::basis1(b.n->o, a[j], p, v, d, d2); w = std::max(w, std::max(std::fabs(v), std::fabs(d))); } big *= w; } c[i] = q.normal() / big; }
        { sim::LibScope ls; Kokkos::View<const double*, HS> w = toView(c); b.f->SetCoeffs(w); } b.n->set(c);
        std::vector<int> good; for(int j = 0; j < N; ++j) { Vec col = x.col(j); if(sane(*b.n, col.data())) good.push_back(j); } if(good.empty()) continue; x = x.cols(good); s = s.cols(good);
        R.op("%s api%d N=%d", kindName[kind], m.api, x.c);
        R.perturbed(); Mat got = runOp(R, b, kind, x, s, m); R.sequential(); hashResult(got); Mat want2 = refOp(*b.n, kind, x, s); double sc = scaleOf(want2); int i, j; R.checked((uint64_t)want2.r * want2.c);
        if(differs(got, want2, 1e-7 * sc, 1e-7, i, j)) R.fail((std::string("value-") + kindName[kind]).c_str(), "%s entry (%d,%d) is %.15g, by definition %.15g; polynomials of order up to %d; %s", kindName[kind], i, j, got(i, j), want2(i, j), top, b.n->describe().c_str());
    }
}
void workloadMain(sim::Run& R)
{
    if(R.seed % 1500 == 11) { storageForm(R); return; }
    sim::Rng r = R.rng.fork(2); R.sequential();
    if(R.seed % 300 == 13) { steep(R, r.fork(5)); return; }
    if(R.seed % 1500 == 12 || r.fork(3).chance(0.02)) { sigmoid(R, r.fork(4), R.seed % 1500 == 12); return; }
    if(r.fork(8).chance(0.03)) { highOrder(R, r.fork(9)); return; }
    if(r.fork(1).chance(0.04)) { extremeAffine(R, r.fork(2)); return; }
    Cfg c; c.maxLayers = 3; c.depth = r.chance(0.5) ? 1 : 2; c.maxDim = c.depth == 1 ? 5 : 4;
    bool single = r.chance(0.35); // one component, looked at closely
    Obj top = single ? component(r, 1 + r.below(4), c) : r.chance(0.12) ? expansion(r, 1 + r.below(4), 1 + r.below(3), c) : r.chance(0.12) ? summarized(r, c) : anyMap(r, c);
    if(r.fork(6).chance(0.08)) { sim::Rng q = r.fork(7); top = wide(q, 8); R.probe("wide_map"); }
    fillCoeffs(r, top);
    R.config(top.n->in * 131 + top.n->out); for(char ch : top.n->describe()) R.config(ch);
    R.op("build %s", top.n->describe().c_str());
    std::vector<Obj> all; collect(top, all);
    Recall recall; int steps = 4 + (int)r.below(10);
    for(int k = 0; k < steps; ++k) {
        sim::Rng q = r.fork(100 + k); Obj& o = q.chance(0.7) ? top : all[q.below(all.size())];
        bool keep = R.keep();
        if(q.chance(0.3)) { // new coefficients, for the whole or for a part
            if(!o.n->nc || !keep) continue;
            Vec v = randomCoeffs(q, *o.n); if(q.chance(0.1)) for(auto& x : v) x = 0;
            if(q.chance(0.15)) { int i = (int)q.below(v.size()); for(int j = 0; j < (int)v.size(); ++j) if(j != i) v[j] *= 0.01; }
            R.op("SetCoeffs %zu values on %s", v.size(), o.n->describe().c_str());
            { sim::LibScope ls; Kokkos::View<const double*, HS> w = toView(v); o.f->SetCoeffs(w); } o.n->set(v); R.probe("SetCoeffs"); continue;
        }
        int kind = (int)q.below(NKIND); if(kind == INVERSE || !supports(o, kind) || !keep) continue;
        if(o.n->coarse() && kind != EVAL && !(kind == LOGDET && supports(o, LDINPUTGRAD))) continue; // the error control watches the value only
        if(!o.n->nc && (kind == COEFFGRAD || kind == LDCOEFFGRAD)) continue;
        Mode m = randomMode(q); int N = 1 + (int)q.below(5);
        Mat x = recall(q, *o.n, points(q, *o.n, N)); N = x.c; Mat s = gaussian(q, o.n->out, N);
        std::vector<int> good; for(int j = 0; j < N; ++j) { Vec col = x.col(j); if(sane(*o.n, col.data())) good.push_back(j); }
        if(good.empty()) continue; x = x.cols(good); s = s.cols(good);
        R.op("%s api%d in%d out%d fill%g N=%d on %s", kindName[kind], m.api, m.inLay, m.outLay, m.fill, (int)good.size(), o.n->describe().c_str());
        R.perturbed(); Mat got = runOp(R, o, kind, x, s, m); R.sequential(); hashResult(got);
        Mat want = refOp(*o.n, kind, x, s);
        double a = 1e-7, rel = 1e-7;
        if(o.n->adaptive()) a = rel = kind == EVAL ? 5e-4 : o.n->jumpy() ? 0.1 : 1e-2;
        double sc = scaleOf(want); int i, j;
        if(differs(got, want, a * sc, rel, i, j)) {
            if(got.r != want.r || got.c != want.c) R.fail("shape", "%s returned %dx%d, not %dx%d: %s", kindName[kind], got.r, got.c, want.r, want.c, o.n->describe().c_str());
            R.fail((std::string("value-") + kindName[kind]).c_str(), "%s entry (%d,%d) is %.15g, by definition %.15g; step %d of the history; %s", kindName[kind], i, j, got(i, j), want(i, j), k, o.n->describe().c_str());
        }
        R.checked((uint64_t)want.r * want.c); R.probe(kindName[kind]); if(o.n->adaptive()) R.probe("adaptive_quadrature"); if(o.n->hasKind(ref::SUMMARIZED)) R.probe("summarized"); if(o.n->hasKind(ref::COMPOSED)) R.probe("composed"); if(o.n->hasKind(ref::AFFINE)) R.probe("affine");
    }
}
