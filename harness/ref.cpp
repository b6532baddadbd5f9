#include "ref.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>

namespace ref {
double g_minDiag = 1e300;

static void hermite(bool phys, int n, double x, double& v, double& d, double& d2)
{   // explicit sums, not recurrences
    double a = phys ? 2 : 1;
    // coefficients of He_n / H_n by repeated application of (a x - d/dx)
    static double tab[2][16][16]; static bool made[2] = {false, false};
    if(!made[phys]) { made[phys] = true; tab[phys][0][0] = 1;
        for(int k = 0; k < 15; ++k) for(int i = 0; i <= k; ++i) { tab[phys][k + 1][i + 1] += a * tab[phys][k][i]; if(i > 0) tab[phys][k + 1][i - 1] -= (double)i * tab[phys][k][i]; } }
    if(n > 12) { // the sums cancel: neighbours by x p_k and k p_(k-1), derivatives by the Appell identities
        long double q[3] = {0, 0, 1}, X = x; // p_(k-2), p_(k-1), p_k
        for(int k = 0; k < n; ++k) { long double nx = a * X * q[2] - (phys ? 2.0L : 1.0L) * k * q[1]; q[0] = q[1]; q[1] = q[2]; q[2] = nx; }
        v = (double)q[2]; d = (double)(a * n * q[1]); d2 = (double)(a * a * n * (n - 1) * q[0]); return;
    }
    const double* c = tab[phys][n];
    v = d = d2 = 0;
    for(int i = n; i >= 0; --i) { d2 = d2 * x + 2 * d; d = d * x + v; v = v * x + c[i]; }
    // Horner with derivatives: d2 above accumulates p''
}
static double fact(int n) { double f = 1; for(int i = 2; i <= n; ++i) f *= i; return f; }

static void raw1(const Opts& o, int n, double x, double& v, double& d, double& d2)
{
    if(o.basis == HFUN) {
        if(n == 0) { v = 1; d = d2 = 0; return; }
        if(n == 1) { v = x; d = 1; d2 = 0; return; }
        int k = n - 2; double h, h1, h2; hermite(true, k, x, h, h1, h2);
        double s = std::exp(-0.5 * x * x) / std::sqrt(std::pow(2.0, k) * fact(k) * std::sqrt(M_PI));
        v = s * h; d = s * (h1 - x * h); d2 = s * (h2 - 2 * x * h1 + (x * x - 1) * h);
        return;
    }
    hermite(o.basis == PHYS, n, x, v, d, d2);
    if(o.norm) {
        double nm = o.basis == PROB ? std::sqrt(std::sqrt(2 * M_PI) * fact(n)) : std::sqrt(std::sqrt(M_PI) * std::pow(2.0, n) * fact(n));
        v /= nm; d /= nm; d2 /= nm;
    }
}
void basis1(const Opts& o, int n, double x, double& v, double& d, double& d2)
{
    if(n == 0 && !o.dense) { v = 1; d = d2 = 0; return; } // absent factor: the compressed form stores nonzero orders only
    double at = x; bool lin = false;
    if(x < o.lb) { at = o.lb; lin = true; } else if(x > o.ub) { at = o.ub; lin = true; }
    raw1(o, n, at, v, d, d2);
    if(lin) { v += d * (x - at); d2 = 0; }
}
static double g0(int pos, double x) { return pos == EXPO ? std::exp(x) : (x > 0 ? x + std::log1p(std::exp(-x)) : std::log1p(std::exp(x))); }
static double g1(int pos, double x) { return pos == EXPO ? std::exp(x) : 1 / (1 + std::exp(-x)); }
static double g2(int pos, double x) { if(pos == EXPO) return std::exp(x); double s = 1 / (1 + std::exp(-x)); return s * (1 - s); }

// Legendre nodes for the composite rule
static const int NG = 10;
static const double GX[NG] = {-0.9739065285171717, -0.8650633666889845, -0.6794095682990244, -0.4333953941292472, -0.1488743389816312, 0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
static const double GW[NG] = {0.0666713443086881, 0.1494513491505806, 0.2190863625159820, 0.2692667193099963, 0.2955242247147529, 0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881};

static void ccRule(int n, Vec& t, Vec& w) // on [-1,1]: exact for polynomials of degree n-1 on the Chebyshev extrema
{
    t.assign(n, 0); w.assign(n, 0);
    if(n == 1) { t[0] = 0; w[0] = 2; return; }
    int N = n - 1;
    for(int k = 0; k <= N; ++k) {
        t[k] = -std::cos(M_PI * k / N);
        // integrate the Lagrange cardinal function through its Chebyshev series
        double s = 0;
        for(int j = 0; j <= N; j += 2) {
            double I = 2.0 / (1.0 - (double)j * j);
            double cj = 2.0 / N * std::cos(M_PI * j * k / (double)N);
            if(j == 0 || j == N) cj *= 0.5;
            s += cj * I;
        }
        if(k == 0 || k == N) s *= 0.5;
        w[k] = s;
    }
}

namespace {
struct Comp {                 // one expansion at fixed leading inputs
    const Node& n; const double* x; const double* c; int d; int nt;
    Vec P; Mat dP;            // per term: product over leading dimensions and its input derivatives
    Comp(const Node& n_, const double* x_, const double* c_) : n(n_), x(x_), c(c_), d(n_.in), nt((int)n_.terms.size()), P(nt, 1.0), dP(nt, n_.in, 0.0)
    {
        for(int k = 0; k < nt; ++k) {
            Vec v(d), g(d); double t2;
            for(int j = 0; j < d - 1; ++j) basis1(n.o, n.terms[k][j], x[j], v[j], g[j], t2);
            for(int j = 0; j < d - 1; ++j) P[k] *= v[j];
            for(int j = 0; j < d - 1; ++j) { double p = g[j]; for(int i = 0; i < d - 1; ++i) if(i != j) p *= v[i]; dP(k, j) = p; }
        }
    }
    // h = d_d f at t, with all the derivatives needed
    void at(double t, double& h, double& hx, Vec* hj, Vec* hk, Vec* hxk) const
    {
        h = hx = 0; if(hj) hj->assign(d, 0.0); if(hk) hk->assign(nt, 0.0); if(hxk) hxk->assign(nt, 0.0);
        for(int k = 0; k < nt; ++k) {
            double v, g, g2_; basis1(n.o, n.terms[k][d - 1], t, v, g, g2_);
            h += c[k] * P[k] * g; hx += c[k] * P[k] * g2_;
            if(hj) for(int j = 0; j < d - 1; ++j) (*hj)[j] += c[k] * dP(k, j) * g;
            if(hk) (*hk)[k] = P[k] * g;
            if(hxk) (*hxk)[k] = P[k] * g2_;
        }
    }
};
}

static void component(const Node& n, const double* x, const double* c, Eval& e, bool grads)
{
    const Opts& o = n.o; int d = n.in, nt = (int)n.terms.size(); Comp f(n, x, c);
    double xd = x[d - 1];
    e.y.assign(1, 0.0); e.J = Mat(1, d); e.C = Mat(1, nt); e.gx.assign(d, 0.0); e.gc.assign(nt, 0.0);
    double y = 0;
    for(int k = 0; k < nt; ++k) {
        double v, g, t; basis1(o, n.terms[k][d - 1], 0.0, v, g, t);
        y += c[k] * f.P[k] * v; e.C(0, k) = f.P[k] * v;
        for(int j = 0; j < d - 1; ++j) e.J(0, j) += c[k] * f.dP(k, j) * v;
    }
    Vec hj, hk, hxk; double h, hx;
    // derivative of the rule with respect to x_d, and of that with respect to the coefficients
    double D = 0; Vec Dk(nt, 0.0);
    auto add = [&](double s, double w) { // node at s*xd, weight w on [0,1]
        f.at(s * xd, h, hx, &hj, &hk, &hxk);
        double a = g0(o.pos, h) + o.nugget, b = g1(o.pos, h), b2 = grads ? g2(o.pos, h) : 0;
        y += w * xd * a; D += w * (a + xd * s * b * hx);
        if(!grads) return;
        for(int j = 0; j < d - 1; ++j) e.J(0, j) += w * xd * b * hj[j];
        for(int k = 0; k < nt; ++k) { e.C(0, k) += w * xd * b * hk[k]; Dk[k] += w * (b * hk[k] + xd * s * (b2 * hk[k] * hx + b * hxk[k])); }
    };
    if(o.quad == CC) {
        Vec t, w; ccRule(o.pts, t, w);
        for(int i = 0; i < o.pts; ++i) add(0.5 * (1 + t[i]), 0.5 * w[i]);
    } else {
        std::vector<double> br; br.push_back(0); br.push_back(1);
        if(xd != 0) for(double q : {o.lb / xd, o.ub / xd}) if(q > 0 && q < 1) br.push_back(q);
        std::sort(br.begin(), br.end());
        for(size_t i = 0; i + 1 < br.size(); ++i) {
            double md = std::ceil(2 * std::fabs(xd) * (br[i + 1] - br[i])) + 1; int m = md < 200 ? std::max(2, (int)md) : 200;
            for(int p = 0; p < m; ++p) { double a = br[i] + (br[i + 1] - br[i]) * p / m, b = br[i] + (br[i + 1] - br[i]) * (p + 1) / m; for(int q = 0; q < NG; ++q) add(0.5 * (a + b) + 0.5 * (b - a) * GX[q], 0.5 * (b - a) * GW[q]); }
        }
    }
    e.y[0] = y;
    f.at(xd, h, hx, &hj, &hk, &hxk);
    g_minDiag = std::min(g_minDiag, (o.quad != CC && !o.cont ? 1e-3 : 1.0) * std::min(g0(o.pos, h) + o.nugget, o.quad == CC && !o.cont ? std::fabs(D) : 1e300));
    double a = g0(o.pos, h) + o.nugget, b = g1(o.pos, h);
    e.J(0, d - 1) = o.quad == CC ? D : a;
    if(o.cont) {
        e.ld = std::log(a);
        for(int j = 0; j < d - 1; ++j) e.gx[j] = b * hj[j] / a;
        e.gx[d - 1] = b * hx / a;
        for(int k = 0; k < nt; ++k) e.gc[k] = b * hk[k] / a;
    } else {
        if(o.quad != CC) { D = a; for(int k = 0; k < nt; ++k) Dk[k] = b * hk[k]; }
        e.ld = D > 0 ? std::log(D) : -INFINITY;
        for(int k = 0; k < nt; ++k) e.gc[k] = Dk[k] / D;
    }
}

double logAbsDet(Mat A)
{
    int n = A.r; double s = 0;
    for(int k = 0; k < n; ++k) {
        int p = k; for(int i = k + 1; i < n; ++i) if(std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i;
        if(A(p, k) == 0) return -INFINITY;
        if(p != k) for(int j = 0; j < n; ++j) std::swap(A(p, j), A(k, j));
        s += std::log(std::fabs(A(k, k)));
        for(int i = k + 1; i < n; ++i) { double f = A(i, k) / A(k, k); for(int j = k; j < n; ++j) A(i, j) -= f * A(k, j); }
    }
    return s;
}

void Node::eval(const double* x, Eval& e, bool grads) const
{
    e.y.assign(out, 0.0); e.J = Mat(out, in); e.C = Mat(out, nc); e.ld = 0; e.gx.assign(in, 0.0); e.gc.assign(nc, 0.0);
    static const double none = 0;
    switch(kind) {
    case COMPONENT: component(*this, x, nc ? &coef.s->v[coef.off] : &none, e, grads); break;
    case EXPANSION: {
        int nt = (int)terms.size();
        for(int k = 0; k < nt; ++k) {
            Vec v(in), g(in); double t; for(int j = 0; j < in; ++j) basis1(o, terms[k][j], x[j], v[j], g[j], t);
            double p = 1; for(int j = 0; j < in; ++j) p *= v[j];
            for(int q = 0; q < out; ++q) { double ck = coef.s->v[coef.off + q * nt + k]; e.y[q] += ck * p; e.C(q, q * nt + k) = p;
                for(int j = 0; j < in; ++j) { double dp = g[j]; for(int i = 0; i < in; ++i) if(i != j) dp *= v[i]; e.J(q, j) += ck * dp; } }
        }
        break; }
    case TRIANGULAR: {
        int o0 = 0, c0 = 0;
        for(auto& k : kids) {
            Eval s; k->eval(x, s, grads);
            for(int i = 0; i < k->out; ++i) { e.y[o0 + i] = s.y[i]; for(int j = 0; j < k->in; ++j) e.J(o0 + i, j) = s.J(i, j); for(int j = 0; j < k->nc; ++j) e.C(o0 + i, c0 + j) = s.C(i, j); }
            e.ld += s.ld; for(int j = 0; j < k->in; ++j) e.gx[j] += s.gx[j]; for(int j = 0; j < k->nc; ++j) e.gc[c0 + j] = s.gc[j];
            o0 += k->out; c0 += k->nc;
        }
        break; }
    case COMPOSED: {
        Vec z(x, x + in); Mat J(in, in); for(int i = 0; i < in; ++i) J(i, i) = 1; // dz/dx
        Mat Z(in, nc); int c0 = 0;                                               // dz/dc
        for(auto& k : kids) {
            Eval s; k->eval(z.data(), s, grads);
            e.ld += s.ld;
            for(int j = 0; j < in; ++j) for(int i = 0; i < in; ++i) e.gx[j] += s.gx[i] * J(i, j);
            for(int j = 0; j < nc; ++j) for(int i = 0; i < in; ++i) e.gc[j] += s.gx[i] * Z(i, j);
            for(int j = 0; j < k->nc; ++j) e.gc[c0 + j] += s.gc[j];
            Mat J2(in, in), Z2(in, nc);
            for(int i = 0; i < in; ++i) { for(int j = 0; j < in; ++j) for(int q = 0; q < in; ++q) J2(i, j) += s.J(i, q) * J(q, j); for(int j = 0; j < nc; ++j) for(int q = 0; q < in; ++q) Z2(i, j) += s.J(i, q) * Z(q, j); for(int j = 0; j < k->nc; ++j) Z2(i, c0 + j) += s.C(i, j); }
            J = J2; Z = Z2; z = s.y; c0 += k->nc;
        }
        e.y = z; e.J = J; e.C = Z;
        break; }
    case SUMMARIZED: {
        Eval s, t; kids[0]->eval(x, s, grads);
        Vec z = s.y; z.push_back(x[in - 1]); kids[1]->eval(z.data(), t, grads);
        e.y = t.y; e.C = t.C; e.ld = t.ld; e.gc = t.gc; int r = kids[0]->out;
        for(int j = 0; j < in - 1; ++j) for(int q = 0; q < r; ++q) { e.J(0, j) += t.J(0, q) * s.J(q, j); e.gx[j] += t.gx[q] * s.J(q, j); }
        e.J(0, in - 1) = t.J(0, r); e.gx[in - 1] = t.gx[r];
        break; }
    case AFFINE: case AFFINEFN:
        for(int i = 0; i < out; ++i) {
            if(hasA) for(int j = 0; j < in; ++j) { e.y[i] += A(i, j) * x[j]; e.J(i, j) = A(i, j); } else { e.y[i] = x[i]; e.J(i, i) = 1; }
            if(hasB) e.y[i] += b[i];
        }
        if(kind == AFFINE && hasA) { Mat S(out, out); for(int i = 0; i < out; ++i) for(int j = 0; j < out; ++j) S(i, j) = A(i, in - out + j); e.ld = logAbsDet(S); }
        break;
    case IDENTITY: for(int i = 0; i < out; ++i) { e.y[i] = x[in - out + i]; e.J(i, in - out + i) = 1; } break;
    }
}

bool Node::coeffsSet() const { return nc == 0 || (bool)coef.s; }
bool Node::ready() const { if(kind == COMPONENT || kind == EXPANSION) return nc == 0 || (bool)coef.s; for(auto& k : kids) if(!k->ready()) return false; return true; }
Vec Node::coeffs() const { Vec v; if(coef.s) v.assign(coef.s->v.begin() + coef.off, coef.s->v.begin() + coef.off + nc); return v; }
Vec Node::leafCoeffs() const
{
    if(kind == COMPONENT || kind == EXPANSION) return coeffs();
    Vec v; for(size_t i = kind == SUMMARIZED ? 1 : 0; i < kids.size(); ++i) { Vec w = kids[i]->leafCoeffs(); v.insert(v.end(), w.begin(), w.end()); }
    return v;
}
void Node::wrap(std::shared_ptr<Cell> s, int off)
{
    coef.s = s; coef.off = off; int c = 0;
    for(size_t i = kind == SUMMARIZED ? 1 : 0; i < kids.size(); ++i) { kids[i]->wrap(s, off + c); c += kids[i]->nc; }
}
void Node::set(const Vec& c)
{
    if(!coef.s) { coef.s = std::make_shared<Cell>(); coef.s->v.assign(nc, 0.0); coef.off = 0; }
    for(int i = 0; i < nc; ++i) coef.s->v[coef.off + i] = c[i];
    int k = 0;
    for(size_t i = kind == SUMMARIZED ? 1 : 0; i < kids.size(); ++i) { kids[i]->wrap(coef.s, coef.off + k); k += kids[i]->nc; }
}
bool Node::adaptive() const { if(kind == COMPONENT) return o.quad != CC; for(auto& k : kids) if(k->adaptive()) return true; return false; }
bool Node::coarse() const { if(kind == COMPONENT) return o.quad != CC && o.minSub < 4; for(auto& k : kids) if(k->coarse()) return true; return false; }
bool Node::jumpy() const { if(kind == COMPONENT) return o.quad != CC && !o.cont && (std::isfinite(o.lb) || std::isfinite(o.ub)); for(auto& k : kids) if(k->jumpy()) return true; return false; }
bool Node::hasKind(Kind q) const { if(kind == q) return true; for(auto& k : kids) if(k->hasKind(q)) return true; return false; }
int Node::depth() const { int d = 0; for(auto& k : kids) d = std::max(d, k->depth()); return kind == COMPOSED ? d + (int)kids.size() : d + 1; }
std::string Node::describe() const
{
    static const char* kn[] = {"comp", "expn", "tri", "composed", "summ", "affine", "affinefn", "id"};
    static const char* bn[] = {"prob", "phys", "hfun"}; static const char* qn[] = {"cc", "simpson", "acc"};
    char b[200]; std::string s = kn[kind];
    snprintf(b, sizeof b, "(%d>%d", in, out); s += b;
    if(kind == COMPONENT || kind == EXPANSION) { snprintf(b, sizeof b, ",%zu terms,%s%s%s,%s,%s%d,nug%g%s%s", terms.size(), bn[o.basis], o.norm ? "" : "/raw", std::isinf(o.lb) && std::isinf(o.ub) ? "" : "/lin", o.pos == EXPO ? "exp" : "soft", qn[o.quad], o.pts, o.nugget, o.cont ? "" : ",disc", o.dense ? ",dense" : ""); s += b; }
    if(kind == AFFINE || kind == AFFINEFN) s += std::string(hasA ? ",A" : "") + (hasB ? ",b" : "");
    if(kind == COMPOSED) { snprintf(b, sizeof b, ",checks%d", maxChecks); s += b; }
    for(auto& k : kids) s += " " + k->describe();
    return s + ")";
}
std::shared_ptr<Node> Node::cloneDeep() const
{
    auto n = std::make_shared<Node>(*this);
    if(coef.s) { n->coef.s = std::make_shared<Cell>(); n->coef.s->v = coeffs(); n->coef.off = 0; }
    for(auto& k : n->kids) k = k->cloneDeep();
    return n;
}

static const double TOL = 2e-6; // the root finder stops at 1e-6 in x or in y
static double rowNorm(const Mat& J) { double m = 0; for(int i = 0; i < J.r; ++i) { double s = 0; for(int j = 0; j < J.c; ++j) s += std::fabs(J(i, j)); m = std::max(m, s); } return m; }
// how far the forward value of an inverse may be from the target, at x
double slack(const Node& n, const Vec& x)
{
    Eval e; n.eval(x.data(), e, true);
    switch(n.kind) {
    case COMPOSED: { double a = 0; Vec z = x; for(auto& k : n.kids) { Eval s; k->eval(z.data(), s, true); a = a * rowNorm(s.J) + slack(*k, z); z = s.y; } return a; }
    case TRIANGULAR: { double a = 0; for(auto& k : n.kids) { Vec z(x.begin(), x.begin() + k->in); a = std::max(a, slack(*k, z)); } return a; }
    case AFFINE: { double y = 1; for(double v : e.y) y = std::max(y, std::fabs(v)); return 1e-8 * y * (1 + rowNorm(e.J)); }
    case IDENTITY: return 1e-12;
    default: { double a = TOL * (1 + 3 * std::fabs(e.J(0, e.J.c - 1))); if(n.adaptive()) a += n.coarse() ? 5e-4 : 2e-5; return a; }
    }
}
// size of the inverse of the trailing block of J
double invNorm(const Mat& J)
{
    int n = J.r, o = J.c - n; Mat A(n, 2 * n); for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) A(i, j) = J(i, o + j); A(i, n + i) = 1; }
    for(int k = 0; k < n; ++k) { int p = k; for(int i = k; i < n; ++i) if(std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i; if(!(std::fabs(A(p, k)) > 1e-12)) return 1e12;
        for(int j = 0; j < 2 * n; ++j) std::swap(A(p, j), A(k, j)); for(int i = 0; i < n; ++i) if(i != k) { double f = A(i, k) / A(k, k); for(int j = 0; j < 2 * n; ++j) A(i, j) -= f * A(k, j); } double d = A(k, k); for(int j = 0; j < 2 * n; ++j) A(k, j) /= d; }
    double m = 0; for(int i = 0; i < n; ++i) { double s = 0; for(int j = n; j < 2 * n; ++j) s += std::fabs(A(i, j)); m = std::max(m, s); } return m;
}
// is every component increasing over the range the bracket search may visit? (a coarse fixed rule may not be)
bool increasing(const Node& n, const Vec& x)
{
    if(n.kind == COMPONENT) { if(n.adaptive()) return true; for(int i = -120; i <= 120; ++i) { Vec z = x; z[n.in - 1] = i * 0.25; Eval e; n.eval(z.data(), e, true); if(!(e.J(0, n.in - 1) > 1e-9) || !std::isfinite(e.y[0])) return false; } return true; }
    Vec z = x; if(n.kind == SUMMARIZED) { Eval e; n.kids[0]->eval(x.data(), e, false); z = e.y; z.push_back(x.back()); return increasing(*n.kids[1], z); }
    for(auto& k : n.kids) { Vec w(z.begin(), z.begin() + k->in); if(!increasing(*k, w)) return false; if(n.kind == COMPOSED) { Eval e; k->eval(z.data(), e, false); z = e.y; } }
    return true;
}

} // namespace ref
