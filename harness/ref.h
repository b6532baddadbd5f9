// Reference model: each map is evaluated at one point straight from its definition, with no shared
// state, no Kokkos and no caching.  Coefficient ownership is modelled explicitly (Cell/Coef).
#pragma once
#include <memory>
#include <vector>
#include <string>
#include <cmath>

namespace ref {

typedef std::vector<double> Vec;

struct Mat {
    int r = 0, c = 0; Vec a;
    Mat() {}
    Mat(int r_, int c_, double v = 0) : r(r_), c(c_), a((size_t)r_ * c_, v) {}
    double& operator()(int i, int j) { return a[(size_t)i * c + j]; }
    double operator()(int i, int j) const { return a[(size_t)i * c + j]; }
    Vec col(int j) const { Vec v(r); for(int i = 0; i < r; ++i) v[i] = (*this)(i, j); return v; }
    Mat cols(const std::vector<int>& js) const { Mat m(r, (int)js.size()); for(int i = 0; i < r; ++i) for(size_t j = 0; j < js.size(); ++j) m(i, (int)j) = (*this)(i, js[j]); return m; }
    Mat rows(int a0, int n) const { Mat m(n, c); for(int i = 0; i < n; ++i) for(int j = 0; j < c; ++j) m(i, j) = (*this)(a0 + i, j); return m; }
};

extern double g_minDiag; // smallest diagonal derivative of a component met since it was last reset (scaled by the accuracy it is known to)
enum Basis { PROB, PHYS, HFUN };
enum Pos { EXPO, SOFT };
enum Quad { CC, SIMPSON, ACC };
struct Opts {
    int basis = PROB, pos = SOFT, quad = SIMPSON; bool norm = true, cont = true, dense = false; // dense: index set kept in uncompressed form
    double lb = -INFINITY, ub = INFINITY, nugget = 0, atol = 1e-6, rtol = 1e-6; int maxSub = 30, minSub = 0, pts = 5;
};

// one-dimensional basis, value and first two derivatives
void basis1(const Opts& o, int order, double x, double& v, double& d, double& d2);

struct Cell { Vec v; };                                  // a coefficient buffer
struct Coef { std::shared_ptr<Cell> s; int off = 0; };   // a view of it (null: unset)

struct Eval {           // everything at one point
    Vec y;              // out
    Mat J;              // out x in
    Mat C;              // out x nc
    double ld = 0;      // log determinant
    Vec gx, gc;         // its gradients
};

enum Kind { COMPONENT, EXPANSION, TRIANGULAR, COMPOSED, SUMMARIZED, AFFINE, AFFINEFN, IDENTITY };
struct Node {
    Kind kind; int in = 0, out = 0, nc = 0;
    Coef coef;
    std::vector<std::shared_ptr<Node>> kids;             // SUMMARIZED: summary, component
    Opts o; std::vector<std::vector<int>> terms;         // COMPONENT, EXPANSION
    Mat A; Vec b; bool hasA = false, hasB = false;       // AFFINE*
    int maxChecks = 0;

    void eval(const double* x, Eval& e, bool grads = true) const;
    double diag(const double* x) const;                  // COMPONENT: derivative used by its log-determinant
    bool coeffsSet() const;                              // what CheckCoefficients reports
    bool ready() const;                                  // every leaf has coefficients
    Vec coeffs() const;                                  // the node's own view
    Vec leafCoeffs() const;                              // what it actually evaluates with
    void set(const Vec& c);                              // SetCoeffs (right length)
    void wrap(std::shared_ptr<Cell> s, int off);         // WrapCoeffs
    bool adaptive() const;                               // contains an adaptive quadrature
    bool jumpy() const;                                  // ... whose differentiated integrand jumps (discrete derivative, linearised basis)
    bool coarse() const;                                 // ... that may stop before it resolves the gradients
    bool hasKind(Kind k) const;
    int depth() const;
    std::string describe() const;
    std::shared_ptr<Node> cloneDeep() const;             // independent copy, same values
};

double logAbsDet(Mat A);

double slack(const Node& n, const Vec& x);      // how far the forward value of an inverse may be from the target, near x
double invNorm(const Mat& J);                   // size of the inverse of the trailing block of J
bool increasing(const Node& n, const Vec& x);   // is every component increasing over the range a bracket search may visit?

} // namespace ref
