// Random densities with their closed-form reference.
#pragma once
#include "world.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/PullbackDensity.h"
#include "MParT/Distributions/PushforwardDensity.h"
#include "MParT/Distributions/PullbackSampler.h"
#include "MParT/Distributions/PushforwardSampler.h"
namespace world {
struct Gauss { int dim = 0; bool hasMean = false, hasCov = false; Vec mean; Mat cov, L;
    double logDensity(const double* x) const; Vec grad(const double* x) const; };
struct Dens {
    std::shared_ptr<mpart::DensityBase<HS>> d; std::shared_ptr<mpart::PullbackDensity<HS>> pb; std::shared_ptr<mpart::SampleGenerator<HS>> s;
    std::shared_ptr<Dens> base; Gauss g; Obj map; std::shared_ptr<Node> n; // n: null for a Gaussian
    bool push = false; int in = 0; std::string desc;
};
enum { DLOG, DGRAD, DCOEFF };
extern const char* densKindName[3];
Dens gaussianDens(sim::Rng& r, int dim, double scale = 1);
Dens pullback(Obj map, std::shared_ptr<Dens> base);
Dens pushforward(Obj map, std::shared_ptr<Dens> base);
Dens randomDensity(sim::Rng& r, int depth = 2);
Mat densPoints(sim::Rng& r, const Dens& d, int N);
bool densSupports(const Dens& d, int kind);
Mat runDens(sim::Run& R, const Dens& d, int kind, const Mat& x, const Mode& m);
Mat refDens(const Dens& d, int kind, const Mat& x);   // not for pushforwards
}
