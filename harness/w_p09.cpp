// P09: seeded sampling is reproducible for a team size whatever else goes on, and follows its distribution.
#include "dens.h"
#include "MParT/Distributions/TransportDistributionFactory.h"
#include <algorithm>
using namespace world;
const char* workloadName = "p09"; bool workloadInitKokkos = true; void workloadSetup() {}
typedef mpart::Distribution<HS> Dist;
struct Root { sim::Rng recipe; int dim; std::shared_ptr<Dens> d; bool seeded = false; unsigned seed = 0; std::vector<int> drawn; };
struct Samp { std::shared_ptr<Dens> d; int root; std::shared_ptr<Dist> w; std::string desc; };
struct Rec { int samp; unsigned seed; std::vector<int> before; int N; Mat got; int step; };

static Mat fromSM(const SM& v) { Mat o((int)v.extent(0), (int)v.extent(1)); for(int i = 0; i < o.r; ++i) for(int j = 0; j < o.c; ++j) o(i, j) = v(i, j); return o; }
static Mat drawOn(sim::Run& R, const Samp& s, int N, int api, int lay, double fill)
{
    int dim = s.d->in;
    if(api == 0) { sim::LibScope ls; return fromSM(s.d->s->Sample(N)); }
    if(api == 1) { sim::LibScope ls; return fromSM(s.w->Sample(N)); }
    Buf O(dim, N, lay, fill);
    { sim::LibScope ls; if(api == 2) s.d->s->SampleImpl(O.view()); else s.w->SampleImpl(O.view()); }
    if(!O.gapsIntact()) R.fail("output-gap", "SampleImpl wrote between the elements of its output view: %s", s.desc.c_str());
    return O.get();
}
// the maps of the sampler applied, one sampler after another, to samples of its reference
static Mat through(const Dens& d, const Mat& z)
{
    if(!d.n) return z;
    Mat b = through(*d.base, z); Buf X(b, ROW); sim::LibScope ls;
    if(d.push) return fromSM(d.map.m->Evaluate(X.cview()));
    Buf e(0, b.c, ROW, 0); return fromSM(d.map.m->Inverse(e.cview(), X.cview()));
}
static Mat replay(const Root& g, unsigned seed, const std::vector<int>& before, int N)
{
    sim::Rng q = g.recipe; Dens t = gaussianDens(q, g.dim); sim::LibScope ls; t.s->SetSeed(seed);
    for(int n : before) t.s->Sample(n);
    return fromSM(t.s->Sample(N));
}
static bool same(double a, double b, double tol) { if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return a == b || std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
static void judge(sim::Run& R, const std::vector<Root>& roots, const std::vector<Samp>& ss, const Rec& c, const char* when)
{
    const Samp& s = ss[c.samp]; R.sequential(); sim::scribbleStack();
    Mat z = replay(roots[s.root], c.seed, c.before, c.N), want = through(*s.d, z);
    if(c.got.r != want.r || c.got.c != want.c) R.fail("shape", "Sample(%d) returned %dx%d, not %dx%d: %s", c.N, c.got.r, c.got.c, want.r, want.c, s.desc.c_str());
    for(int j = 0; j < want.c; ++j) for(int i = 0; i < want.r; ++i) {
        if(!s.d->n ? c.got(i, j) != want(i, j) : !same(c.got(i, j), want(i, j), s.d->n->adaptive() ? 1e-3 : 1e-7))
            R.fail(s.d->n ? (s.d->push ? "push-samples" : "pull-samples") : "gauss-samples", "sample %d component %d drawn with seed %u after %zu draws at step %d is %.17g, but %.17g %s: %s", j, i, c.seed, c.before.size(), c.step, c.got(i, j), want(i, j), when, s.desc.c_str());
        R.checked(); }
}
static double cdf(double x) { return 0.5 * std::erfc(-x * M_SQRT1_2); }
// samples of a Gaussian against its mean, covariance, shape and reported density; wide limits, so never by chance
static void moments(sim::Run& R, const Root& g, Mat x)
{
    const Gauss& G = g.d->g; int d = G.dim, N = x.c; const char* ds = g.d->desc.c_str(); double rt = 7 / std::sqrt((double)N);
    Buf X(x, ROW); std::vector<double> lp(N); { sim::LibScope ls; SV v = g.d->d->LogDensity(X.cview()); for(int j = 0; j < N; ++j) lp[j] = v(j); }
    Mat w = x; // whitened
    for(int j = 0; j < N; ++j) { Vec b = x.col(j); for(int i = 0; i < d; ++i) if(G.hasMean) b[i] -= G.mean[i];
        if(G.hasCov) for(int i = 0; i < d; ++i) { for(int k = 0; k < i; ++k) b[i] -= G.L(i, k) * b[k]; b[i] /= G.L(i, i); }
        for(int i = 0; i < d; ++i) w(i, j) = b[i]; }
    for(int i = 0; i < d; ++i) {
        double m = 0; std::vector<double> v(N); for(int j = 0; j < N; ++j) { v[j] = w(i, j); m += v[j] / N; }
        if(!(std::fabs(m) < rt)) R.fail("mean", "%d samples of %s: standardised component %d has mean %.4g", N, ds, i, m);
        for(int k = 0; k <= i; ++k) { double cv = 0; for(int j = 0; j < N; ++j) cv += w(i, j) * w(k, j) / N;
            if(!(std::fabs(cv - (i == k)) < (i == k ? 1.5 * rt + (N < 1000 ? 0.1 : 0) : rt))) R.fail("covariance", "%d samples of %s: standardised components %d and %d have covariance %.4g", N, ds, i, k, cv); }
        std::sort(v.begin(), v.end()); double ks = 0; for(int j = 0; j < N; ++j) { double F = cdf(v[j]); ks = std::max(ks, std::max(std::fabs(F - (double)j / N), std::fabs(F - (double)(j + 1) / N))); }
        if(!(ks < 3 / std::sqrt((double)N))) R.fail("shape-of-distribution", "%d samples of %s: standardised component %d is not normal (largest distance of the distribution functions %.4g)", N, ds, i, ks);
        for(int j = 1; j < N; ++j) if(v[j] == v[j - 1]) R.fail("repeated-samples", "samples of %s repeat the value %.17g in component %d", ds, v[j], i);
        double ac = 0; for(int j = 1; j < N; ++j) ac += w(i, j) * w(i, j - 1) / N; if(!(std::fabs(ac) < rt)) R.fail("independence", "%d samples of %s: consecutive samples of component %d have correlation %.4g", N, ds, i, ac);
    }
    double ml = 0; for(double v : lp) ml += v / N; double ld = 0; if(G.hasCov) for(int i = 0; i < d; ++i) ld += 2 * std::log(G.L(i, i));
    double el = -0.5 * (d * std::log(2 * M_PI) + ld + d);
    if(!(std::fabs(ml - el) < 7 * std::sqrt(d / 2.0 / N) + (N < 1000 ? 0.05 : 0) * d)) R.fail("density-of-samples", "%d samples of %s have mean reported log-density %.5g; its entropy implies %.5g", N, ds, ml, el);
    R.checked(4 * d + 1); R.probe("moments");
}

void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(9); R.sequential();
    int dim = 1 + (int)r.below(4); bool more = r.fork(1).chance(0.06); if(more) { dim = 5 + (int)r.fork(2).below(12); R.probe("many_dimensions"); } Cfg c; c.depth = more ? 0 : 1; c.maxLayers = 3; c.pAdaptive = 0.05;
    std::vector<Root> roots; std::vector<Samp> ss; std::vector<Obj> maps;
    int ng = 1 + (int)r.below(2);
    for(int i = 0; i < ng; ++i) { Root g; g.recipe = r.fork(500 + i); g.dim = dim; sim::Rng q = g.recipe; g.d = std::make_shared<Dens>(gaussianDens(q, dim)); roots.push_back(g); ss.push_back({g.d, i, nullptr, g.d->desc}); }
    int nm = (int)r.below(dim > 8 ? 1 : 3); for(int i = 0; i < nm; ++i) { maps.push_back(map(r, dim, dim, c)); fillCoeffs(r, maps.back()); }
    if(nm) for(int i = (int)r.below(4); i > 0; --i) {
        const Samp b = ss[r.below(ss.size())]; Obj m = maps[r.below(maps.size())]; bool push = r.chance(0.6);
        if(b.d->n && b.d->base->n) continue;
        auto d = std::make_shared<Dens>(push ? pushforward(m, b.d) : pullback(m, b.d)); ss.push_back({d, b.root, nullptr, d->desc});
    }
    for(auto& s : ss) { sim::LibScope ls;
        if(s.d->n && r.chance(0.4)) { // through the factories
            auto ref = std::make_shared<Dist>(s.d->base->s, s.d->base->d);
            s.w = s.d->push ? mpart::CreatePushforward<HS>(s.d->map.m, ref) : mpart::CreatePullback<HS>(s.d->map.m, ref);
        } else s.w = std::make_shared<Dist>(s.d->s, s.d->d);
        if((int)s.w->Dim() != dim) R.fail("dim", "a distribution over %d variables reports dimension %d", dim, (int)s.w->Dim()); }
    R.config(dim * 31 + ng); for(auto& s : ss) { R.op("sampler %s", s.desc.c_str()); for(char ch : s.desc) R.config(ch); }
    bool late = r.chance(0.4); std::vector<Rec> recs; std::vector<std::pair<unsigned, Mat>> firsts[2];
    static const unsigned pool[6] = {1, 2, 7, 42, 0xffffffffu, 123456789u};
    int steps = 4 + (int)r.below(10); bool big = r.chance(0.25);
    for(int k = 0; k < steps; ++k) {
        sim::Rng q = r.fork(100 + k); if(!R.keep()) continue;
        int what = (int)q.below(20), si = (int)q.below(ss.size()); Samp& s = ss[si]; Root& g = roots[s.root];
        if(what < 6 || (what > 7 && !g.seeded)) {
            unsigned sd = q.chance(0.6) ? pool[q.below(6)] : g.seeded && q.chance(0.5) ? g.seed ^ (1u << q.below(32)) : (unsigned)(q.next() | 1); if(!sd) sd = 1; bool wrap = q.chance(0.3);
            R.op("SetSeed(%u) on %d%s", sd, si, wrap ? " (distribution)" : ""); if(g.seeded && g.seed == sd) R.probe("same_seed_again"); R.perturbed();
            { sim::LibScope ls; if(wrap) s.w->SetSeed(sd); else s.d->s->SetSeed(sd); } R.sequential();
            g.seeded = true; g.seed = sd; g.drawn.clear(); R.probe(s.d->n ? "seed_through_transport" : "seed");
        } else if(what == 6) {
            double dt = q.chance(0.5) ? q.uniform(0, 1e5) : q.uniform(-1e4, 0); R.op("clock %+.0f s", dt); sim::advance(dt); R.fault("clock_jump");
        } else if(what == 7) {
            if(late || maps.empty()) continue;
            Obj& o = maps[q.below(maps.size())]; if(!o.n->nc) continue; R.op("SetCoeffs on %s", o.n->describe().c_str()); Vec v = randomCoeffs(q, *o.n); sim::LibScope ls; setCoeffs(o, v); R.probe("SetCoeffs");
        } else if(what == 8 && big) {
            big = false; int N = q.chance(0.15) ? 20000 + (int)q.below(20000) : 300 + (int)q.below(300); Samp gs = ss[s.root]; R.op("Sample(%d) on %d for moments", N, s.root);
            R.perturbed(); Mat x = drawOn(R, gs, N, 0, 0, 0); R.sequential(); hashResult(x); moments(R, g, x);
            recs.push_back({s.root, g.seed, g.drawn, N, x, k}); g.drawn.push_back(N); if(!late) { judge(R, roots, ss, recs.back(), "when drawn again"); recs.pop_back(); }
        } else {
            int N = q.chance(0.05) ? 0 : 1 + (int)q.below(q.chance(0.2) ? 40 : 9), api = (int)q.below(4), lay = (int)q.below(NLAYOUT); double fill = q.chance(0.5) ? NAN : 1e300;
            R.op("Sample(%d) on %d api%d out%d", N, si, api, lay);
            R.perturbed(); Mat x = drawOn(R, s, N, api, lay, fill); R.sequential(); hashResult(x); R.probe(!s.d->n ? "gauss" : s.d->push ? "push" : "pull");
            if(!s.d->n) { for(double v : x.a) if(!(std::fabs(v) < 100)) R.fail("not-written", "Sample(%d) left %.6g in its result: %s", N, v, s.desc.c_str());
                if(N && g.drawn.empty()) { for(auto& p : firsts[s.root]) { int n = std::min(N, p.second.c); (void)n; bool eq = N == p.second.c; for(size_t a = 0; eq && a < x.a.size(); ++a) eq = x.a[a] == p.second.a[a];
                        if(p.first != g.seed && eq) R.fail("same-for-different-seeds", "seeds %u and %u give the same %d samples: %s", p.first, g.seed, N, s.desc.c_str()); if(p.first != g.seed && N == p.second.c) R.probe("different_seeds"); }
                    firsts[s.root].push_back({g.seed, x}); } }
            recs.push_back({si, g.seed, g.drawn, N, x, k}); g.drawn.push_back(N); if(!late) { judge(R, roots, ss, recs.back(), "when drawn again"); recs.pop_back(); }
        }
    }
    if(late && recs.size()) { sim::advance(12345); R.fault("clock_jump"); for(auto& c : recs) judge(R, roots, ss, c, "when drawn again at the end"); R.probe("late_replay"); }
}
