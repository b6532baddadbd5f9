#include "world.h"
#include "MParT/MapFactory.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#include "MParT/IdentityMap.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include <algorithm>
#include <cstring>
#include <set>

namespace world {
using namespace mpart;
using sim::Rng;
const char* kindName[NKIND] = {"Evaluate", "Inverse", "LogDeterminant", "CoeffGrad", "Gradient", "LogDeterminantCoeffGrad", "LogDeterminantInputGrad"};

MapOptions realOpts(const ref::Opts& o)
{
    MapOptions m;
    m.basisType = o.basis == ref::PROB ? BasisTypes::ProbabilistHermite : o.basis == ref::PHYS ? BasisTypes::PhysicistHermite : BasisTypes::HermiteFunctions;
    m.posFuncType = o.pos == ref::EXPO ? PosFuncTypes::Exp : PosFuncTypes::SoftPlus;
    m.quadType = o.quad == ref::CC ? QuadTypes::ClenshawCurtis : o.quad == ref::SIMPSON ? QuadTypes::AdaptiveSimpson : QuadTypes::AdaptiveClenshawCurtis;
    m.basisLB = o.lb; m.basisUB = o.ub; m.quadAbsTol = o.atol; m.quadRelTol = o.rtol; m.quadMaxSub = o.maxSub; m.quadMinSub = o.minSub; m.quadPts = o.pts;
    m.contDeriv = o.cont; m.basisNorm = o.norm; m.nugget = o.nugget;
    return m;
}
ref::Opts randomOpts(Rng& r, const Cfg& c)
{
    ref::Opts o;
    o.basis = (int)r.below(3); o.pos = r.chance(c.pExp) ? ref::EXPO : ref::SOFT; o.norm = r.chance(0.6);
    if(r.chance(c.pAdaptive)) o.quad = r.chance(0.5) ? ref::SIMPSON : ref::ACC; else o.quad = ref::CC;
    static const int ccp[] = {2, 3, 4, 5, 6, 9};
    o.pts = o.quad == ref::CC ? ccp[r.below(6)] : (r.chance(0.5) ? 5 : 9);
    if(r.chance(c.pLin)) { int w = (int)r.below(3); if(w != 0) o.lb = -r.uniform(0.3, 2.5); if(w != 1) o.ub = r.uniform(0.3, 2.5); }
    o.nugget = r.chance(c.pNugget) ? r.uniform(0.01, 0.6) : 0.0;
    o.cont = !r.chance(c.pDisc);
    o.minSub = o.quad != ref::CC && r.chance(0.6) ? 5 : 0; o.maxSub = c.maxSub; // 30 is enough for every integrand drawn here
    if(c.pTol > 0 && o.quad != ref::CC && r.chance(c.pTol)) { o.atol = std::pow(10.0, r.uniform(-7, -2)); o.rtol = std::pow(10.0, r.uniform(-7, -2)); }
    return o;
}
std::vector<std::vector<int>> randomTerms(Rng& r, int dim, const Cfg& c)
{
    std::set<std::vector<int>> s; int want = 1 + (int)r.below(c.maxTerms);
    if(r.chance(0.3)) { // total order
        int p = 1 + (int)r.below(2); std::vector<int> a(dim, 0);
        for(;;) { int t = 0; for(int v : a) t += v; if(t <= p) s.insert(a); int i = 0; while(i < dim && ++a[i] > p) a[i++] = 0; if(i == dim) break; }
    } else for(int k = 0; k < want * 3 && (int)s.size() < want; ++k) {
        std::vector<int> a(dim, 0); int t = (int)r.below(c.maxOrder + 1);
        for(int q = 0; q < t; ++q) a[r.chance(0.4) ? dim - 1 : r.below(dim)]++;
        s.insert(a);
    }
    std::vector<std::vector<int>> v(s.begin(), s.end());
    while((int)v.size() > c.maxTerms + 2) v.erase(v.begin() + r.below(v.size()));
    for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    return v;
}
FixedMultiIndexSet<HS> fixedSet(Rng& r, int dim, std::vector<std::vector<int>>& t, bool& dense)
{
    int n = (int)t.size();
    dense = r.chance(0.3);
    if(r.chance(0.15)) { // through an editable set; the terms take its order
        MultiIndexSet ms(dim);
        for(auto& a : t) { std::vector<unsigned> u(a.begin(), a.end()); ms += MultiIndex(u); }
        t.clear(); for(unsigned i = 0; i < ms.Size(); ++i) { auto u = ms.IndexToMulti(i).Vector(); t.push_back(std::vector<int>(u.begin(), u.end())); }
        return ms.Fix(!dense);
    }
    if(dense) {
        Kokkos::View<unsigned*, HS> o("orders", (size_t)n * dim);
        for(int k = 0; k < n; ++k) for(int j = 0; j < dim; ++j) o(k * dim + j) = t[k][j];
        return FixedMultiIndexSet<HS>(dim, o);
    }
    int nz = 0; for(auto& a : t) for(int v : a) nz += v != 0;
    Kokkos::View<unsigned*, HS> st("starts", n + 1), d("dims", nz), o("orders", nz);
    int q = 0; for(int k = 0; k < n; ++k) { st(k) = q; for(int j = 0; j < dim; ++j) if(t[k][j]) { d(q) = j; o(q) = t[k][j]; ++q; } } st(n) = q;
    return FixedMultiIndexSet<HS>(dim, st, d, o);
}
static void zero(Node& n) { n.coef.s = std::make_shared<ref::Cell>(); n.coef.s->v.assign(n.nc, 0.0); n.coef.off = 0; }

Obj componentWith(Rng& r, int dim, const ref::Opts& o, std::vector<std::vector<int>> terms, bool unset)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::COMPONENT; b.n->in = dim; b.n->out = 1; b.n->o = o;
    auto fs = fixedSet(r, dim, terms, b.n->o.dense);
    b.n->terms = terms; b.n->nc = (int)terms.size();
    if(unset && (b.m = directComponent(fs, realOpts(o)))) { b.f = b.m; return b; }
    b.m = MapFactory::CreateComponent<HS>(fs, realOpts(o)); b.f = b.m;
    zero(*b.n);
    return b;
}
Obj component(Rng& r, int dim, const Cfg& c)
{
    ref::Opts o = randomOpts(r, c); bool unset = c.pUnset > 0 && r.chance(c.pUnset);
    if(unset) { o.lb = -INFINITY; o.ub = INFINITY; if(o.quad == ref::CC) o.basis = ref::PROB; else if(o.quad == ref::SIMPSON) { o.basis = ref::PHYS; o.pos = ref::SOFT; } else { o.basis = ref::HFUN; o.pos = ref::EXPO; } }
    return componentWith(r, dim, o, randomTerms(r, dim, c), unset);
}
Obj expansion(Rng& r, int in, int out, const Cfg& c)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::EXPANSION; b.n->in = in; b.n->out = out; b.n->o = randomOpts(r, c);
    Cfg c2 = c; c2.maxTerms = std::max(2, c.maxTerms / 2); auto t = randomTerms(r, in, c2); auto fs = fixedSet(r, in, t, b.n->o.dense);
    b.n->terms = t; b.n->nc = (int)t.size() * out;
    b.f = MapFactory::CreateExpansion<HS>(out, fs, realOpts(b.n->o));
    zero(*b.n);
    return b;
}
static void drawAffine(Rng& r, Node& n, int in, int out, bool square)
{
    n.in = in; n.out = out; n.nc = 0;
    n.hasA = in != out || r.chance(0.75); n.hasB = !n.hasA || r.chance(0.6);
    if(n.hasA) { n.A = Mat(out, in); for(auto& v : n.A.a) v = 0.4 * r.normal(); if(square) for(int i = 0; i < out; ++i) n.A(i, in - out + i) += (r.chance(0.3) ? -1 : 1) * (1.2 + 0.4 * i); }
    if(n.hasB) { n.b.resize(out); for(auto& v : n.b) v = r.normal(); }
}
template<class T> static std::shared_ptr<T> makeAffine(Rng& r, const Node& n)
{
    Buf A(n.hasA ? n.A : Mat(0, 0), (int)r.below(NLAYOUT)); Mat bm((int)n.b.size(), 1); bm.a = n.b; Buf B(bm, (int)r.fork(61).below(NLAYOUT));
    SV bv(B.p, Kokkos::LayoutStride(n.b.size(), B.s0));
    if(n.hasA && n.hasB) return std::make_shared<T>(A.view(), bv);
    if(n.hasA) return std::make_shared<T>(A.view());
    return std::make_shared<T>(bv);
}
Obj factoryTriangular(Rng& r, int in, int out, int order, const ref::Opts& o)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::TRIANGULAR; b.n->in = in; b.n->out = out;
    b.m = MapFactory::CreateTriangular<HS>(in, out, order, realOpts(o)); b.f = b.m; auto* t = dynamic_cast<TriangularMap<HS>*>(b.m.get());
    for(int i = 0; i < out; ++i) {
        int d = in - out + 1 + i; FixedMultiIndexSet<HS> fs(d, order); Obj k; k.n = std::make_shared<Node>(); k.n->kind = ref::COMPONENT; k.n->in = d; k.n->out = 1; k.n->o = o; k.n->o.dense = false;
        for(unsigned q = 0; q < fs.Size(); ++q) { auto u = fs.IndexToMulti(q); k.n->terms.push_back(std::vector<int>(u.begin(), u.end())); }
        k.n->nc = (int)fs.Size(); if(t) { k.m = t->GetComponent(i); k.f = k.m; }
        b.kids.push_back(k); b.n->kids.push_back(k.n); b.n->nc += k.n->nc;
    }
    b.n->set(Vec(b.n->nc, 0.0));
    return b;
}
Obj affineFn(Rng& r, int in, int out)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::AFFINEFN; drawAffine(r, *b.n, in, out, false); b.f = makeAffine<AffineFunction<HS>>(r, *b.n); return b;
}
Obj affine(Rng& r, int in, int out, double scale)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::AFFINE; drawAffine(r, *b.n, in, out, true); if(scale != 1) for(auto& v : b.n->A.a) v *= scale; b.m = makeAffine<AffineMap<HS>>(r, *b.n); b.f = b.m; return b;
}
Obj identity(int in, int out)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::IDENTITY; b.n->in = in; b.n->out = out; b.m = std::make_shared<IdentityMap<HS>>(in, out); b.f = b.m; return b;
}
static void gather(Node& n, const std::vector<Obj>& kids) { n.nc = 0; for(auto& k : kids) { n.kids.push_back(k.n); n.nc += k.n->nc; } }
static void adopt(Node& n) // moveCoeffs: copy the parts' coefficients into new storage shared with them
{
    Vec v; for(auto& k : n.kids) { Vec w = k->coeffs(); v.insert(v.end(), w.begin(), w.end()); }
    auto s = std::make_shared<ref::Cell>(); s->v = v; n.wrap(s, 0);
}
static std::vector<std::shared_ptr<CMap>> maps(const std::vector<Obj>& k) { std::vector<std::shared_ptr<CMap>> v; for(auto& o : k) v.push_back(o.m); return v; }
Obj triangularOf(std::vector<Obj> kids, bool move)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::TRIANGULAR; b.kids = kids; gather(*b.n, kids);
    b.n->in = kids.back().n->in; for(auto& k : kids) b.n->out += k.n->out;
    b.m = std::make_shared<TriangularMap<HS>>(maps(kids), move); b.f = b.m;
    if(move) adopt(*b.n);
    return b;
}
Obj composedOf(std::vector<Obj> kids, bool move, int checks)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::COMPOSED; b.kids = kids; gather(*b.n, kids);
    b.n->in = b.n->out = kids[0].n->in; b.n->maxChecks = checks;
    b.m = std::make_shared<ComposedMap<HS>>(maps(kids), move, checks); b.f = b.m;
    if(move) adopt(*b.n);
    return b;
}
Obj summarizedOf(Obj s, Obj c)
{
    Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::SUMMARIZED; b.kids = {s, c}; b.n->kids = {s.n, c.n}; b.n->nc = c.n->nc;
    b.n->in = s.n->in + 1; b.n->out = 1;
    b.m = std::make_shared<SummarizedMap<HS>>(s.f, c.m); b.f = b.m;
    return b;
}
Obj map(Rng& r, int in, int out, const Cfg& c)
{
    Cfg d = c; d.depth = c.depth - 1;
    for(;;) switch(r.below(8)) {
    case 0: if(out == 1) return component(r, in, c); break;
    case 1: if(r.chance(0.4)) return factoryTriangular(r, in, out, in <= 2 ? 1 + (int)r.below(2) : 1, randomOpts(r, c));
        if(c.depth > 0 || out == 1) break; // leaves of vector-valued blocks
    // fall through
    case 2: case 3: {
        if(c.depth <= 0 && out == 1) break;
        std::vector<Obj> k; int left = out, at = in - out;
        while(left > 0) { int o = c.depth <= 0 ? 1 : (r.chance(0.7) ? 1 : 1 + (int)r.below(left)); at += o; left -= o; k.push_back(o == 1 && (c.depth <= 0 || r.chance(0.6)) ? component(r, at, c) : map(r, at, o, d)); }
        return triangularOf(k, r.chance(0.3)&& std::all_of(k.begin(), k.end(), [](Obj& o) { return o.n->coeffsSet(); })); }
    case 4: if(c.composed && in == out && c.depth > 0) {
        int L = 1 + (int)r.below(c.maxLayers); std::vector<Obj> k; for(int i = 0; i < L; ++i) k.push_back(map(r, in, in, d));
        int checks = r.chance(0.3) ? -1 : 1 + (int)r.below(L + 1);
        return composedOf(k, r.chance(0.3) && std::all_of(k.begin(), k.end(), [](Obj& o) { return o.n->coeffsSet(); }), checks); } break;
    case 5: if(c.summarized && out == 1 && in >= 2 && c.depth > 0) {
        int q = 1 + (int)r.below(std::min(2, in - 1)); Obj s = r.chance(0.5) ? affineFn(r, in - 1, q) : expansion(r, in - 1, q, c);
        fillCoeffs(r, s);
        return summarizedOf(s, r.chance(0.7) ? component(r, q + 1, c) : map(r, q + 1, 1, d)); } break;
    case 6: if(c.affine && r.chance(0.6)) return affine(r, in, out); if(c.identity && r.chance(0.4)) return identity(in, out); break;
    case 7: if(c.single && in == out && in >= 1 && c.depth > 0) {
        int a = 1 + (int)r.below(in); Obj k = component(r, a, c); std::vector<Obj> kids;
        Obj b; b.n = std::make_shared<Node>(); b.n->kind = ref::TRIANGULAR; b.n->in = b.n->out = in; b.n->nc = k.n->nc;
        // layout documented for CreateSingleEntryMap: [Id; T_a; Id]
        auto id = [&](int i, int o) { auto n = std::make_shared<Node>(); n->kind = ref::IDENTITY; n->in = i; n->out = o; return n; };
        if(a > 1) b.n->kids.push_back(id(a - 1, a - 1)); b.n->kids.push_back(k.n); if(a < in) b.n->kids.push_back(id(in, in - a));
        b.m = MapFactory::CreateSingleEntryMap<HS>(in, a, k.m); b.f = b.m; b.kids = {k};
        b.n->set(Vec(b.n->nc, 0.0));
        return b; } break;
    }
}
Obj anyMap(Rng& r, const Cfg& c) { int in = 1 + (int)r.below(c.maxDim), out = r.chance(0.45) ? in : 1 + (int)r.below(in); return map(r, in, out, c); }

static void coefScale(const Node& n, Vec& s, double f)
{
    if(n.kind == ref::COMPONENT || n.kind == ref::EXPANSION) {
        for(int q = 0; q < (n.kind == ref::EXPANSION ? n.out : 1); ++q) for(auto& t : n.terms) { int k = 0; for(int v : t) k += v; double a = 0.8 * f / (1 + k); if(n.o.basis == ref::PHYS && !n.o.norm) a *= std::pow(0.5, k); if(n.o.pos == ref::EXPO) a *= 0.6; s.push_back(a); }
        return;
    }
    double g = n.kind == ref::COMPOSED ? f * std::pow((double)n.kids.size(), -0.5) : f;
    for(size_t i = n.kind == ref::SUMMARIZED ? 1 : 0; i < n.kids.size(); ++i) coefScale(*n.kids[i], s, g);
}
Obj wide(Rng& r, int maxIn)
{
    Cfg c; c.pAdaptive = 0.1; int how = (int)r.below(4); int dim = 1 + (int)r.below(maxIn);
    if(how == 0) { ref::Opts o = randomOpts(r, c); return factoryTriangular(r, dim, 1 + (int)r.below(std::min(dim, 4)), dim <= 2 ? 3 + (int)r.below(5) : dim <= 4 ? 3 : 2, o); }
    c.maxTerms = 8 + (int)r.below(40); c.maxOrder = how == 1 ? 3 : 4 + (int)r.below(how == 2 ? 5 : 9);
    return component(r, dim, c);
}
Vec randomCoeffs(Rng& r, const Node& n) { Vec s; coefScale(n, s, 1.0); for(auto& v : s) v *= r.normal(); return s; }
DV toView(const Vec& v) { DV c("c", v.size()); for(size_t i = 0; i < v.size(); ++i) c(i) = v[i]; return c; }
Vec fromView(Kokkos::View<const double*, HS> v) { Vec r(v.extent(0)); for(size_t i = 0; i < r.size(); ++i) r[i] = v(i); return r; }
void setCoeffs(Obj& o, const Vec& c) { Kokkos::View<const double*, HS> v = toView(c); o.f->SetCoeffs(v); o.n->set(c); }
void fillCoeffs(Rng& r, Obj& o) { if(o.n->nc) setCoeffs(o, randomCoeffs(r, *o.n)); }

Mat gaussian(Rng& r, int rows, int cols) { Mat m(rows, cols); for(auto& v : m.a) v = r.normal(); return m; }
bool sane(const Node& n, const double* x)
{
    ref::Eval e; ref::g_minDiag = 1e300; n.eval(x, e, true);
    if(!(ref::g_minDiag > 2e-5)) return false;
    auto ok = [](const Vec& v, double b) { for(double q : v) if(!(std::fabs(q) < b)) return false; return true; };
    return ok(e.y, 200) && ok(e.J.a, 1e4) && ok(e.C.a, 1e4) && std::fabs(e.ld) < 30 && ok(e.gx, 1e4) && ok(e.gc, 1e4);
}
Mat points(Rng& r, const Node& n, int count)
{
    Mat m(n.in, count);
    for(int j = 0; j < count; ++j) {
        Vec x(n.in); double s = r.chance(0.15) ? 2.5 : 1.0;
        for(auto& v : x) v = s * r.normal();
        if(r.chance(0.06)) x[n.in - 1] = 0;
        for(int t = 0; t < 25 && !sane(n, x.data()); ++t) for(auto& v : x) v *= 0.6;
        for(int i = 0; i < n.in; ++i) m(i, j) = x[i];
    }
    return m;
}

Mat Recall::operator()(Rng& q, const Node& n, const Mat& fresh, const void* key)
{
    if(!key) key = &n;
    auto it = last.find(key); bool again = q.chance(0.4) && it != last.end() && it->second.r == fresh.r;
    for(int j = 0; again && j < it->second.c; ++j) { Vec c = it->second.col(j); again = sane(n, c.data()); }
    if(again && q.chance(0.3)) { Mat m = it->second; m(q.below(m.r), q.below(m.c)) += 0.25; bool ok = true; for(int j = 0; ok && j < m.c; ++j) { Vec c = m.col(j); ok = sane(n, c.data()); } return last[key] = ok ? m : it->second; } // all but one value
    return again ? it->second : last[key] = fresh;
}

static const double SENT = -1.2345678e77;
void Buf::init(int layout)
{
    lay = layout;
    switch(layout) {
    case ROW: s0 = c; s1 = 1; break;
    case COL: s0 = 1; s1 = r; break;
    case STRIDED: s1 = 2; s0 = 2L * c + 3; break;
    case ROWPAD: s1 = 1; s0 = c + 2; break;
    default: s0 = 1; s1 = r + 3; break;
    }
    n = r && c ? (size_t)((r - 1) * s0 + (c - 1) * s1 + 1) : 0;
    raw = Kokkos::View<double*, HS>("harness", n); p = raw.data();
    for(size_t i = 0; i < n; ++i) p[i] = SENT;
}
Buf::Buf(const Mat& m, int layout) : r(m.r), c(m.c) { init(layout); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) p[i * s0 + j * s1] = m(i, j); }
Buf::Buf(int r_, int c_, int layout, double fill) : r(r_), c(c_) { init(layout); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) p[i * s0 + j * s1] = fill; }
SM Buf::view() { return SM(p, Kokkos::LayoutStride(r, s0, c, s1)); }
CSM Buf::cview() { return CSM(p, Kokkos::LayoutStride(r, s0, c, s1)); }
Mat Buf::get() const { Mat m(r, c); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = p[i * s0 + j * s1]; return m; }
bool Buf::gapsIntact() const
{
    std::vector<char> used(n, 0); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) used[i * s0 + j * s1] = 1;
    for(size_t i = 0; i < n; ++i) if(!used[i] && p[i] != SENT) return false;
    return true;
}
bool Buf::equals(const Mat& m) const { for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { double a = p[i * s0 + j * s1], b = m(i, j); if(memcmp(&a, &b, 8)) return false; } return true; }

Mode randomMode(Rng& r)
{
    Mode m; m.api = (int)r.below(3); m.inLay = (int)r.below(NLAYOUT); m.in2Lay = (int)r.below(NLAYOUT); m.outLay = (int)r.below(NLAYOUT);
    static const double f[] = {0, NAN, 3.25, -1e300, INFINITY}; m.fill = f[r.below(5)];
    return m;
}
bool supports(const Obj& o, int kind)
{
    if(!o.m) return kind == EVAL || kind == COEFFGRAD || kind == GRADIENT;
    if(kind == LDINPUTGRAD) { // not offered with the discrete derivative
        struct V { static bool disc(const Node& n) { if(n.kind == ref::COMPONENT) return !n.o.cont; for(auto& k : n.kids) if(disc(*k)) return true; return false; } };
        return !V::disc(*o.n);
    }
    if(kind == LDCOEFFGRAD) { // a composition needs the input gradient of its later layers
        struct V { static bool bad(const Node& n, bool need) { if(n.kind == ref::COMPONENT) return need && !n.o.cont; for(size_t i = 0; i < n.kids.size(); ++i) if(bad(*n.kids[i], need || n.kind == ref::COMPOSED)) return true; return false; } };
        return !V::bad(*o.n, false);
    }
    return true;
}
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RM;
static RM toEigen(const Mat& m) { RM e(m.r, m.c); for(int i = 0; i < m.r; ++i) for(int j = 0; j < m.c; ++j) e(i, j) = m(i, j); return e; }
template<class E> static Mat fromEigen(const E& e) { Mat m((int)e.rows(), (int)e.cols()); for(int i = 0; i < m.r; ++i) for(int j = 0; j < m.c; ++j) m(i, j) = e(i, j); return m; }
static Mat fromStrided(SM v) { Mat m((int)v.extent(0), (int)v.extent(1)); for(int i = 0; i < m.r; ++i) for(int j = 0; j < m.c; ++j) m(i, j) = v(i, j); return m; }
static Mat rowOf(const Vec& v) { Mat m(1, (int)v.size()); m.a = v; return m; }

Mat runOp(sim::Run& R, const Obj& o, int kind, const Mat& a, const Mat& b, const Mode& md)
{
    Buf A(a, md.inLay), B(b, md.in2Lay); int n = kind == INVERSE ? b.c : a.c;
    Mat out;
    if(md.api == 0) {
        sim::LibScope ls;
        switch(kind) {
        case EVAL: out = fromStrided(o.f->Evaluate(A.cview())); break;
        case INVERSE: out = fromStrided(o.m->Inverse(A.cview(), B.cview())); break;
        case LOGDET: { DV v = o.m->LogDeterminant(A.cview()); out = rowOf(fromView(v)); break; }
        case COEFFGRAD: out = fromStrided(o.f->CoeffGrad(A.cview(), B.cview())); break;
        case GRADIENT: out = fromStrided(o.f->Gradient(A.cview(), B.cview())); break;
        case LDCOEFFGRAD: out = fromStrided(o.m->LogDeterminantCoeffGrad(A.cview())); break;
        case LDINPUTGRAD: out = fromStrided(o.m->LogDeterminantInputGrad(A.cview())); break;
        }
    } else if(md.api == 1) {
        RM ea = toEigen(a), eb = toEigen(b); RM wide, wide2; bool block = md.inLay == ROWPAD && a.r > 0 && a.c > 0, block2 = md.in2Lay == ROWPAD && b.r > 0 && b.c > 0;
        if(block) { wide = RM::Constant(a.r + 1, a.c + 2, SENT); wide.block(1, 1, a.r, a.c) = ea; }
        if(block2) { wide2 = RM::Constant(b.r + 1, b.c + 3, SENT); wide2.block(0, 2, b.r, b.c) = eb; }
        sim::LibScope ls;
        Eigen::Ref<const RM> xa = block ? Eigen::Ref<const RM>(wide.block(1, 1, a.r, a.c)) : Eigen::Ref<const RM>(ea);
        Eigen::Ref<const RM> xb = block2 ? Eigen::Ref<const RM>(wide2.block(0, 2, b.r, b.c)) : Eigen::Ref<const RM>(eb);
        switch(kind) {
        case EVAL: out = fromEigen(o.f->Evaluate(xa)); break;
        case INVERSE: out = fromEigen(o.m->Inverse(xa, xb)); break;
        case LOGDET: { Eigen::VectorXd v = o.m->LogDeterminant(xa); Vec w(v.size()); for(size_t i = 0; i < w.size(); ++i) w[i] = v(i); out = rowOf(w); break; }
        case COEFFGRAD: out = fromEigen(o.f->CoeffGrad(xa, xb)); break;
        case GRADIENT: out = fromEigen(o.f->Gradient(xa, xb)); break;
        case LDCOEFFGRAD: out = fromEigen(o.m->LogDeterminantCoeffGrad(xa)); break;
        case LDINPUTGRAD: out = fromEigen(o.m->LogDeterminantInputGrad(xa)); break;
        }
    } else {
        int rows = kind == EVAL || kind == INVERSE ? o.n->out : kind == LOGDET ? 1 : kind == COEFFGRAD || kind == LDCOEFFGRAD ? o.n->nc : o.n->in;
        Buf O(rows, n, md.outLay, md.fill);
        {
            sim::LibScope ls;
            switch(kind) {
            case EVAL: o.f->EvaluateImpl(A.cview(), O.view()); break;
            case INVERSE: o.m->InverseImpl(A.cview(), B.cview(), O.view()); break;
            case LOGDET: o.m->LogDeterminantImpl(A.cview(), SV(O.p, Kokkos::LayoutStride(n, O.s1))); break;
            case COEFFGRAD: o.f->CoeffGradImpl(A.cview(), B.cview(), O.view()); break;
            case GRADIENT: o.f->GradientImpl(A.cview(), B.cview(), O.view()); break;
            case LDCOEFFGRAD: o.m->LogDeterminantCoeffGradImpl(A.cview(), O.view()); break;
            case LDINPUTGRAD: o.m->LogDeterminantInputGradImpl(A.cview(), O.view()); break;
            }
        }
        if(!O.gapsIntact()) R.fail("output-gap", "%s wrote between the elements of its output view: %s", kindName[kind], o.n->describe().c_str());
        out = O.get();
    }
    if(!A.equals(a) || !B.equals(b) || !A.gapsIntact() || !B.gapsIntact()) R.fail("input-changed", "%s changed its input: %s", kindName[kind], o.n->describe().c_str());
    return out;
}
Mat refOp(const Node& n, int kind, const Mat& a, const Mat& b)
{
    int rows = kind == EVAL ? n.out : kind == LOGDET ? 1 : kind == COEFFGRAD || kind == LDCOEFFGRAD ? n.nc : n.in;
    Mat o(rows, a.c);
    for(int j = 0; j < a.c; ++j) {
        Vec x = a.col(j); ref::Eval e; n.eval(x.data(), e, kind != EVAL && kind != LOGDET);
        for(int i = 0; i < rows; ++i) switch(kind) {
        case EVAL: o(i, j) = e.y[i]; break;
        case LOGDET: o(i, j) = e.ld; break;
        case COEFFGRAD: for(int q = 0; q < n.out; ++q) o(i, j) += b(q, j) * e.C(q, i); break;
        case GRADIENT: for(int q = 0; q < n.out; ++q) o(i, j) += b(q, j) * e.J(q, i); break;
        case LDCOEFFGRAD: o(i, j) = e.gc[i]; break;
        case LDINPUTGRAD: o(i, j) = e.gx[i]; break;
        }
    }
    return o;
}
Vec refEvalCol(const Node& n, const Mat& x, int j) { Vec v = x.col(j); ref::Eval e; n.eval(v.data(), e, false); return e.y; }
bool close(double a, double b, double atol, double rtol)
{
    if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if(std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
bool differs(const Mat& a, const Mat& b, double atol, double rtol, int& i, int& j)
{
    i = j = -1;
    if(a.r != b.r || a.c != b.c) return true;
    for(i = 0; i < a.r; ++i) for(j = 0; j < a.c; ++j) if(!close(a(i, j), b(i, j), atol, rtol)) return true;
    return false;
}
void hashResult(const Mat& m) { for(double d : m.a) { uint64_t u; memcpy(&u, &d, 8); sim::hashMix(u); } }

} // namespace world
