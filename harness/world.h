// Random objects of the library paired with their reference model, and one way to call every operation.
#pragma once
#include <map>
#include "driver.h"
#include "ref.h"
#include "MParT/ConditionalMapBase.h"
#include "MParT/MapOptions.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
#include <memory>
#include <iostream>
#include <stdexcept>
#include <vector>
#include <string>

namespace world {
using ref::Mat; using ref::Vec; using ref::Node;
typedef Kokkos::HostSpace HS;
typedef mpart::ConditionalMapBase<HS> CMap;
typedef mpart::ParameterizedFunctionBase<HS> PFun;
typedef mpart::StridedMatrix<double, HS> SM;
typedef mpart::StridedMatrix<const double, HS> CSM;
typedef mpart::StridedVector<double, HS> SV;
typedef Kokkos::View<double*, HS> DV;

struct Obj {
    std::shared_ptr<PFun> f; std::shared_ptr<CMap> m;   // m is null for plain functions
    std::shared_ptr<Node> n;
    std::vector<Obj> kids;
    explicit operator bool() const { return (bool)f; }
};

struct Cfg {
    int maxDim = 4, maxTerms = 8, maxOrder = 3, depth = 2, maxLayers = 5, maxSub = 30;
    double pAdaptive = 0.35, pLin = 0.3, pNugget = 0.3, pDisc = 0.35, pExp = 0.4, pUnset = 0, pTol = 0; // pTol: tolerances of the adaptive rules other than the usual; pUnset: components that start without coefficients
    bool affine = true, identity = true, summarized = true, composed = true, single = true;
};

mpart::MapOptions realOpts(const ref::Opts& o);
ref::Opts randomOpts(sim::Rng& r, const Cfg& c);
std::vector<std::vector<int>> randomTerms(sim::Rng& r, int dim, const Cfg& c);
mpart::FixedMultiIndexSet<HS> fixedSet(sim::Rng& r, int dim, std::vector<std::vector<int>>& terms, bool& dense);
Obj wide(sim::Rng& r, int maxIn); // many inputs, many terms or high orders, in one component or one triangular map
Obj component(sim::Rng& r, int dim, const Cfg& c);
std::shared_ptr<CMap> directComponent(const mpart::FixedMultiIndexSet<HS>& fs, const mpart::MapOptions& o); // null unless instantiated
bool directInverse(const Obj& o, const Mat& x1, const Mat& y, const std::map<std::string, std::string>& opts, int outLen, Mat& out); // the class's own Inverse; false if o is of another class
Obj componentWith(sim::Rng& r, int dim, const ref::Opts& o, std::vector<std::vector<int>> terms, bool unset = false);
Obj expansion(sim::Rng& r, int in, int out, const Cfg& c);
Obj factoryTriangular(sim::Rng& r, int in, int out, int order, const ref::Opts& o);
Obj affineFn(sim::Rng& r, int in, int out);
Obj affine(sim::Rng& r, int in, int out, double scale = 1);
Obj identity(int in, int out);
Obj triangularOf(std::vector<Obj> kids, bool moveCoeffs);
Obj composedOf(std::vector<Obj> kids, bool moveCoeffs, int maxChecks);
Obj summarizedOf(Obj summary, Obj comp);
Obj map(sim::Rng& r, int in, int out, const Cfg& c);             // any conditional map
Obj anyMap(sim::Rng& r, const Cfg& c);                           // random dimensions as well

Vec randomCoeffs(sim::Rng& r, const Node& n);
void setCoeffs(Obj& o, const Vec& c);                            // real and model
void fillCoeffs(sim::Rng& r, Obj& o);
DV toView(const Vec& v);
Vec fromView(Kokkos::View<const double*, HS> v);

// points at which the reference is finite and moderate
bool sane(const Node& n, const double* x);
Mat points(sim::Rng& r, const Node& n, int count);
// the points an object was last called at, to call it there again after something changed: remembered results must not go stale
struct Recall { std::map<const void*, Mat> last; Mat operator()(sim::Rng& q, const Node& n, const Mat& fresh, const void* key = nullptr); };
Mat gaussian(sim::Rng& r, int rows, int cols);
Vec refEvalCol(const Node& n, const Mat& x, int j);

// a matrix in some memory layout; gap elements hold a sentinel
enum Layout { ROW, COL, STRIDED, ROWPAD, COLPAD, NLAYOUT };
struct Buf {
    Kokkos::View<double*, HS> raw; double* p = nullptr; int r = 0, c = 0; long s0 = 0, s1 = 0; int lay = 0; size_t n = 0;
    Buf(const Mat& m, int layout); Buf(int r, int c, int layout, double fill);
    SM view(); CSM cview(); Mat get() const; bool gapsIntact() const; bool equals(const Mat& m) const;
private: void init(int layout);
};

enum Kind { EVAL, INVERSE, LOGDET, COEFFGRAD, GRADIENT, LDCOEFFGRAD, LDINPUTGRAD, NKIND };
extern const char* kindName[NKIND];
struct Mode { int api = 0; int inLay = ROW, in2Lay = ROW, outLay = ROW; double fill = 0; }; // api: 0 views, 1 Eigen, 2 *Impl into a caller's matrix
Mode randomMode(sim::Rng& r);
bool supports(const Obj& o, int kind);
// INVERSE: a = x1, b = targets; COEFFGRAD, GRADIENT: a = points, b = sensitivities; others: a = points
Mat runOp(sim::Run& R, const Obj& o, int kind, const Mat& a, const Mat& b, const Mode& m);
Mat refOp(const Node& n, int kind, const Mat& a, const Mat& b);          // not INVERSE
bool close(double a, double b, double atol, double rtol);
// first differing entry, or false
bool differs(const Mat& a, const Mat& b, double atol, double rtol, int& i, int& j);
void hashResult(const Mat& m);

// what the library prints goes nowhere, or to a device that fails, while one of these exists
struct Quiet {
    struct Buf : std::streambuf { int mode; explicit Buf(int m) : mode(m) {} int overflow(int c) override { return put(c); } std::streamsize xsputn(const char*, std::streamsize n) override { return put(0) < 0 ? 0 : n; }
        int put(int c) { written = true; if(mode == 2) throw std::runtime_error("no space left on device"); return mode ? traits_type::eof() : c == traits_type::eof() ? 0 : c; } bool written = false; } buf;
    std::streambuf *out, *err;
    explicit Quiet(int mode) : buf(mode), out(std::cout.rdbuf(&buf)), err(std::cerr.rdbuf(&buf)) {}
    ~Quiet() { std::cout.rdbuf(out); std::cerr.rdbuf(err); std::cout.clear(); std::cerr.clear(); }
};

} // namespace world
