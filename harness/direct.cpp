// Components made directly from their class instead of through MapFactory: these start without coefficients.
#include "world.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include <cmath>

namespace world {
using namespace mpart;
template<class Pos, class Quad, class Basis> static std::shared_ptr<CMap> make(const FixedMultiIndexSet<HS>& fs, Basis b, const Quad& q, const MapOptions& o)
{
    MultivariateExpansionWorker<Basis, HS> e(fs, b);
    return std::make_shared<MonotoneComponent<decltype(e), Pos, Quad, HS>>(e, q, o.contDeriv, o.nugget);
}
std::shared_ptr<CMap> directComponent(const FixedMultiIndexSet<HS>& fs, const MapOptions& o)
{
    if(!std::isinf(o.basisLB) || !std::isinf(o.basisUB)) return nullptr;
    bool soft = o.posFuncType == PosFuncTypes::SoftPlus;
    if(o.basisType == BasisTypes::ProbabilistHermite && o.quadType == QuadTypes::ClenshawCurtis) { ClenshawCurtisQuadrature<HS> q(o.quadPts, 1); return soft ? make<SoftPlus>(fs, ProbabilistHermite(o.basisNorm), q, o) : make<Exp>(fs, ProbabilistHermite(o.basisNorm), q, o); }
    if(o.basisType == BasisTypes::PhysicistHermite && o.quadType == QuadTypes::AdaptiveSimpson && soft) return make<SoftPlus>(fs, PhysicistHermite(o.basisNorm), AdaptiveSimpson<HS>(o.quadMaxSub, 1, nullptr, o.quadAbsTol, o.quadRelTol, QuadError::First, o.quadMinSub), o);
    if(o.basisType == BasisTypes::HermiteFunctions && o.quadType == QuadTypes::AdaptiveClenshawCurtis && !soft) return make<Exp>(fs, HermiteFunction(), AdaptiveClenshawCurtis<HS>((unsigned)std::log2(o.quadPts - 2), o.quadMaxSub, 1, nullptr, o.quadAbsTol, o.quadRelTol, QuadError::First, o.quadMinSub), o);
    return nullptr;
}
template<class Pos> static bool invert(const Obj& o, const CSM& x, const Mat& y, const std::map<std::string, std::string>& opts, int outLen, Mat& out)
{
    typedef MonotoneComponent<MultivariateExpansionWorker<ProbabilistHermite, HS>, Pos, ClenshawCurtisQuadrature<HS>, HS> T;
    auto* c = dynamic_cast<T*>(o.m.get()); if(!c) return false;
    std::shared_ptr<const CMap> cm = o.m; Kokkos::View<const double*, HS> cf = cm->Coeffs(); Kokkos::View<double*, HS> yv("y", y.c), r("r", outLen); for(int j = 0; j < y.c; ++j) yv(j) = y(0, j);
    sim::LibScope ls; c->InverseImpl(x, StridedVector<const double, HS>(yv), StridedVector<const double, HS>(cf), StridedVector<double, HS>(r), opts);
    out = Mat(1, outLen); for(int j = 0; j < outLen; ++j) out(0, j) = r(j); return true;
}
bool directInverse(const Obj& o, const Mat& x1, const Mat& y, const std::map<std::string, std::string>& opts, int outLen, Mat& out)
{
    Buf X(x1, ROW); return invert<SoftPlus>(o, X.cview(), y, opts, outLen, out) || invert<Exp>(o, X.cview(), y, opts, outLen, out);
}
} // namespace world
