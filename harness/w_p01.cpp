// P01: a batch under a random schedule, layout and memory contents gives each point what it gets alone, in turn, on clean memory.
#include "world.h"
#include "dens.h"
using namespace world;
const char* workloadName = "p01"; bool workloadInitKokkos = true; void workloadSetup() {}

static Mat sub(const Mat& m, int j) { return m.cols({j}); }
struct Tol { double a, r; };
static Tol tol(const Node& n, int kind)
{
    bool lin = n.hasKind(ref::AFFINE) || n.hasKind(ref::AFFINEFN); // batch-size dependent rounding in the matrix product
    if(!lin) return {1e-13, 1e-12};
    if(kind == INVERSE) return {2e-4, 2e-3};
    if(n.adaptive()) return {2e-3, 2e-3};
    return {1e-9, 1e-9};
}
static void mapRun(sim::Run& R, sim::Rng& r)
{
    Cfg c; c.maxDim = 4; if(r.chance(0.3)) { c.depth = 1; c.maxDim = 6; c.maxTerms = 5; } c.maxLayers = 4;
    Obj o = r.chance(0.12) ? expansion(r, 1 + r.below(4), 1 + r.below(3), c) : anyMap(r, c);
    bool big = r.fork(501).chance(0.03), wideMap = !big && r.fork(502).chance(0.08); if(wideMap) { sim::Rng q = r.fork(503); o = wide(q, 8); R.probe("wide_map"); }
    if(big) { sim::Rng q = r.fork(504); Cfg b; b.depth = 0; b.maxDim = 3; b.maxTerms = 3; b.maxOrder = 2; b.pAdaptive = 0; b.summarized = b.composed = false; o = q.chance(0.5) ? component(q, 1 + (int)q.below(3), b) : anyMap(q, b); R.probe("large_batch"); }
    fillCoeffs(r, o);
    R.config(o.n->in * 131 + o.n->out * 17 + o.n->nc); for(char ch : o.n->describe()) R.config(ch);
    int N = r.chance(0.1) ? (int)r.below(3) : r.chance(0.1) ? 20 + (int)r.below(30) : 3 + (int)r.below(12);
    if(o.n->adaptive() || o.n->depth() > 2) N = std::min(N, 8);
    if(big) { sim::Rng q = r.fork(505); N = q.chance(0.5) ? 60 + (int)q.below(300) : (1 << (6 + q.below(3))) - 1 + (int)q.below(3); if(o.n->in <= 2 && o.n->depth() <= 1 && q.chance(0.2)) { N = q.chance(0.5) ? 500 + (int)q.below(900) : (1 << (9 + q.below(2))) - 1 + (int)q.below(3); R.probe("very_large_batch"); } }
    R.op("build %s N=%d", o.n->describe().c_str(), N);
    Mat x = points(r, *o.n, std::max(N, 1)); x = x.cols([&] { std::vector<int> v; for(int i = 0; i < N; ++i) v.push_back(i); return v; }());
    Mat s = gaussian(r, o.n->out, N), t(o.n->out, N), x1 = x.rows(0, std::max(0, o.n->in - o.n->out));
    // targets: mostly reachable, sometimes anywhere
    for(int j = 0; j < N; ++j) { Vec y = refEvalCol(*o.n, x, j); bool far = r.chance(0.1); for(int i = 0; i < t.r; ++i) t(i, j) = y[i] + (far ? r.normal() : 0); }
    bool fullx1 = r.chance(0.25);
    int rounds = big ? 1 + (int)r.below(2) : 2 + (int)r.below(4);
    for(int k = 0; k < rounds; ++k) {
        int kind = (int)r.below(NKIND); Mode m = randomMode(r); bool c1 = r.chance(0.3); sim::Rng pr = r.fork(k + 77);
        if(!supports(o, kind)) continue;
        if(kind == INVERSE && N > 80) continue;
        if(kind == INVERSE && (!o.m || (m.api == 1 && x1.r == 0 && x1.c == 0))) continue;
        if(!o.n->nc && (kind == COEFFGRAD || kind == LDCOEFFGRAD)) continue;
        if(!R.keep()) continue;
        const Mat& A = kind == INVERSE ? (fullx1 && o.n->kind != ref::COMPOSED ? x : x1) : x; const Mat& B = kind == INVERSE ? t : s;
        // expected: one point at a time
        R.sequential();
        R.op("%s api%d in%d,%d out%d fill%g N=%d", kindName[kind], m.api, m.inLay, m.in2Lay, m.outLay, m.fill, N);
        std::vector<Mat> want;
        Mode plain; plain.api = 2; plain.fill = 0;
        for(int j = 0; j < N; ++j) want.push_back(runOp(R, o, kind, sub(A, j), sub(B, j), plain));
        // the same points in some order, some of them twice
        std::vector<int> idx; for(int j = 0; j < N; ++j) idx.push_back(j);
        for(int j = N - 1; j > 0; --j) std::swap(idx[j], idx[pr.below(j + 1)]);
        if(N && c1) idx.insert(idx.begin() + pr.below(idx.size()), idx[pr.below(idx.size())]);
        R.perturbed();
        Mat got = runOp(R, o, kind, A.cols(idx), B.cols(idx), m);
        R.sequential();
        hashResult(got);
        if(got.c != (int)idx.size()) R.fail("shape", "%s returned %d columns for %zu points", kindName[kind], got.c, idx.size());
        Tol tl = tol(*o.n, kind);
        for(size_t q = 0; q < idx.size(); ++q) {
            const Mat& w = want[idx[q]]; if(w.r != got.r) R.fail("shape", "%s returned %d rows in a batch and %d alone", kindName[kind], got.r, w.r);
            for(int i = 0; i < w.r; ++i) if(!close(got(i, q), w(i, 0), tl.a, tl.r))
                R.fail((std::string("batch-") + kindName[kind]).c_str(), "%s entry %d of point %zu in a batch of %zu is %.17g, alone %.17g; threads %d api%d in%d out%d; %s", kindName[kind], i, q, idx.size(), got(i, q), w(i, 0), R.threads, m.api, m.inLay, m.outLay, o.n->describe().c_str());
            R.checked(w.r);
        }
        R.probe(kindName[kind]); if(m.api == 2 && m.outLay >= STRIDED) R.probe("strided_output"); if(m.inLay >= STRIDED) R.probe("strided_input"); if(m.fill != 0) R.probe("dirty_output"); if(N > R.threads) R.probe("more_points_than_threads");
    }
}
static void densRun(sim::Run& R, sim::Rng& r)
{
    Dens d = randomDensity(r); int dim = d.in, N = 1 + (int)r.below(14); if((!d.n || !d.n->adaptive()) && r.fork(506).chance(0.04)) { sim::Rng q = r.fork(507); N = d.push ? 40 + (int)q.below(40) : q.chance(0.5) ? 60 + (int)q.below(300) : (1 << (6 + q.below(3))) - 1 + (int)q.below(3); R.probe("large_batch"); }
    R.config(dim * 7 + 3); for(char ch : d.desc) R.config(ch);
    R.op("density %s N=%d", d.desc.c_str(), N);
    Mat x = densPoints(r, d, N);
    int rounds = 2 + (int)r.below(3);
    for(int k = 0; k < rounds; ++k) {
        int kind = (int)r.below(3); Mode m = randomMode(r);
        if(!densSupports(d, kind)) continue;
        if(!R.keep()) continue;
        R.sequential();
        R.op("%s api%d in%d out%d fill%g", densKindName[kind], m.api, m.inLay, m.outLay, m.fill);
        std::vector<Mat> want; Mode plain; plain.api = 2;
        for(int j = 0; j < N; ++j) want.push_back(runDens(R, d, kind, sub(x, j), plain));
        R.perturbed();
        Mat got = runDens(R, d, kind, x, m);
        R.sequential(); hashResult(got);
        double tl = d.n && (d.n->hasKind(ref::AFFINE) || d.n->hasKind(ref::AFFINEFN)) && (d.n->adaptive() || d.push) ? 1e-2 : 1e-8;
        for(int j = 0; j < N; ++j) for(int i = 0; i < got.r; ++i) if(got.r != want[j].r || !close(got(i, j), want[j](i, 0), tl, tl))
            R.fail((std::string("batch-") + densKindName[kind]).c_str(), "%s entry %d of point %d of %d is %.17g in a batch, alone %.17g; threads %d api%d; %s", densKindName[kind], i, j, N, got(i, j), want[j](i, 0), R.threads, m.api, d.desc.c_str());
        R.checked(N * got.r); R.probe(densKindName[kind]);
    }
}
void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(1);
    R.sequential();
    if(r.chance(0.12)) densRun(R, r); else mapRun(R, r);
}
