// P03: inverse and forward undo each other, outputs increase in their own input, and a point without a solution is reported
// as not-a-number without disturbing the others - after any history of calls.
#include "world.h"
#include <algorithm>
#include <numeric>
using namespace world;
const char* workloadName = "p03"; bool workloadInitKokkos = true; void workloadSetup() {}
using ref::slack; using ref::invNorm; using ref::increasing;
static void collect(const Obj& o, std::vector<Obj>& v) { if(o.m) v.push_back(o); for(auto& k : o.kids) collect(k, v); }
static bool negAffine(const Node& n) { if(n.kind == ref::AFFINE) return true; for(auto& k : n.kids) if(negAffine(*k)) return true; return false; }

// components whose slope in their last input does not depend on it (no term of higher degree there), at points far away
static void farTargets(sim::Run& R, sim::Rng& r)
{
    Cfg c; Obj o = component(r, 1 + r.below(3), c); const Node& n = *o.n; R.op("build %s, targets far away", n.describe().c_str()); for(char ch : n.describe()) R.config(ch); R.config(7);
    for(int k = 0; k < 3; ++k) {
        sim::Rng q = r.fork(100 + k); if(!R.keep()) continue;
        Vec v = randomCoeffs(q, n); bool flat = q.fork(9).chance(0.35); for(size_t i = 0; i < v.size(); ++i) { if(n.terms[i].back() > 1) v[i] = 0; if(flat && n.terms[i].back() == 1 && std::accumulate(n.terms[i].begin(), n.terms[i].end(), 0) == 1) v[i] -= q.fork(10).uniform(2, 9); } if(flat) R.probe("nearly_flat"); { sim::LibScope ls; setCoeffs(o, v); }
        int N = 1 + (int)q.below(5), e = n.in - 1; Mat x = points(q, n, N), y(1, N), lead = x; Mode m = randomMode(q); bool guess = q.chance(0.5);
        std::vector<int> good; for(int j = 0; j < N; ++j) {
            double far = (q.chance(0.5) ? -1 : 1) * std::exp(q.uniform(std::log(20.0), std::log(900.0))); x(e, j) = 0; Vec u = x.col(j); if(!sane(n, u.data())) continue;
            x(e, j) = far; lead(e, j) = q.chance(0.5) ? far + 3 * q.normal() : q.chance(0.5) ? -far : 900 * q.uniform(-1, 1); u = x.col(j); ref::Eval s; n.eval(u.data(), s, true); double J = s.J(0, e); if(!(J > (flat ? 5e-5 : 0.02) && J < 50)) continue; y(0, j) = s.y[0]; good.push_back(j); }
        if(good.empty()) continue; x = x.cols(good); y = y.cols(good); lead = guess ? lead.cols(good) : x.rows(0, e); N = (int)good.size(); if(m.api == 1 && lead.r == 0) m.api = 0;
        R.op("Inverse api%d guess%d N=%d", m.api, guess, N); R.perturbed(); Mat z = runOp(R, o, INVERSE, lead, y, m); R.sequential(); hashResult(z);
        for(int j = 0; j < N; ++j) { Vec u = x.col(j); double t = 20 * ref::invNorm([&] { ref::Eval s; n.eval(u.data(), s, true); return s.J; }()) * (slack(n, u) + 1e-6) + 1e-6 * std::fabs(u[e]); if(!(std::fabs(z(0, j) - u[e]) <= t)) R.fail("far-target", "the inverse of the forward value of %.12g is %.12g (allowed %.3g), point %d of %d, guess %d; %s", u[e], z(0, j), t, j, N, guess, n.describe().c_str()); R.checked(); R.probe("far_targets"); }
    }
}
// a component's own Inverse takes the tolerances it is to reach, and says so when it cannot use them
static void withTolerances(sim::Run& R, sim::Rng& r)
{
    Cfg c; c.pAdaptive = 0; c.pUnset = 1; c.maxOrder = 3; Obj o = component(r, 1 + r.below(3), c); const Node& n = *o.n; int e = n.in - 1; R.op("build %s, inverse with tolerances", n.describe().c_str()); for(char ch : n.describe()) R.config(ch); R.config(11);
    for(int k = 0; k < 4; ++k) {
        sim::Rng q = r.fork(100 + k); if(!R.keep()) continue; Vec v = randomCoeffs(q, n); { sim::LibScope ls; setCoeffs(o, v); }
        int N = 1 + (int)q.below(5); Mat x = points(q, n, N); std::vector<int> good; for(int j = 0; j < N; ++j) { Vec u = x.col(j); if(sane(n, u.data()) && increasing(n, u)) good.push_back(j); } if(good.empty()) continue; x = x.cols(good); N = (int)good.size();
        bool one = q.chance(0.2); if(one) for(int j = 0; j < N; ++j) for(int i = 0; i < e; ++i) x(i, j) = x(i, 0); Mat y = refOp(n, EVAL, x, x), lead = x.rows(0, e); if(one) lead = lead.cols(std::vector<int>(1, 0));
        bool okAll = true; for(int j = 0; j < N; ++j) { Vec u = x.col(j); okAll = okAll && sane(n, u.data()) && increasing(n, u); } if(!okAll) continue;
        std::map<std::string, std::string> op; char num[64]; double xt = -1, yt = -1; int how = (int)q.below(7); auto tol = [&] { return std::pow(10.0, -q.uniform(1.5, 9)); }; auto put = [&](const char* key, double& d, double val) { d = val; snprintf(num, sizeof num, "%.17g", val); op[key] = num; };
        if(q.chance(0.3)) op["Method"] = "Bracket"; int outLen = N; const char* bad = nullptr;
        if(how == 0) put("xtol", xt, tol()); else if(how == 1) put("ytol", yt, tol()); else if(how == 2) { put("xtol", xt, 0); put("ytol", yt, tol()); } else if(how == 3) { put("xtol", xt, tol()); put("ytol", yt, 0); } else if(how == 4) { put("xtol", xt, tol()); put("ytol", yt, tol()); }
        else if(how == 6) switch(q.below(6)) { case 0: bad = "an unknown method"; op["Method"] = "Bisection"; break; case 1: bad = "a negative xtol"; put("xtol", xt, -1e-3); break; case 2: bad = "a negative ytol"; put("ytol", yt, -1e-3); break; case 3: bad = "both tolerances zero"; put("xtol", xt, 0); put("ytol", yt, 0); break; case 4: bad = "a short output"; outLen = N + 1; break; default: if(N < 3) continue; bad = "conditioning inputs for another number of points"; lead = x.rows(0, e).cols({0, 1}); }
        R.op("Inverse with %zu options, %s", op.size(), bad ? bad : "valid"); Mat z; bool threw = false; R.perturbed(); try { directInverse(o, lead, y, op, outLen, z); } catch(const std::invalid_argument&) { threw = true; } R.sequential(); R.checked();
        if(bad) { R.fault("malformed_argument"); if(!threw) R.fail("tolerance-accepted", "the inverse accepted %s", bad); continue; } if(threw) R.fail("tolerance-rejected", "the inverse rejected valid options"); hashResult(z);
        if(xt < 0) xt = 1e-6; if(yt < 0) yt = 1e-6; Mat back = x; for(int j = 0; j < N; ++j) back(e, j) = z(0, j);
        for(int j = 0; j < N; ++j) { Vec u = x.col(j), w = back.col(j); if(!std::isfinite(w[e])) R.fail("tolerance", "the inverse of a forward value is not finite, point %d of %d, xtol %g, ytol %g; %s", j, N, xt, yt, n.describe().c_str()); ref::Eval a; n.eval(w.data(), a, true);
            double dy = std::fabs(a.y[0] - y(0, j)), dx = std::fabs(w[e] - u[e]), round = 1e-11 * (1 + std::fabs(y(0, j))); if(!(dx <= xt + round * 1e2 || dy <= yt + round)) R.fail("tolerance", "the inverse with xtol %g and ytol %g is %.12g away in x and %.12g in y, point %d of %d; %s", xt, yt, dx, dy, j, N, n.describe().c_str()); }
        R.probe("inverse_with_tolerances");
    }
}
void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(3); R.sequential(); if(r.chance(0.1)) { farTargets(R, r); return; } if(r.fork(12).chance(0.05)) { withTolerances(R, r); return; }
    Cfg c; c.maxLayers = 3; c.depth = r.chance(0.5) ? 1 : 2; if(r.chance(0.3)) { c.maxOrder = 5; c.maxTerms = 6; }
    Obj top = r.chance(0.35) ? component(r, 1 + r.below(4), c) : anyMap(r, c);
    if(r.fork(6).chance(0.08)) { sim::Rng q = r.fork(7); top = wide(q, 6); R.probe("wide_map"); }
    fillCoeffs(r, top);
    double wild = r.chance(0.15) && !top.n->adaptive() ? 3.0 : 1.0; // large coefficients: steep, saturating, overflowing
    if(wild > 1 && top.n->nc) { Vec v = randomCoeffs(r, *top.n); for(auto& x : v) x *= wild; setCoeffs(top, v); }
    R.config(top.n->in * 131 + top.n->out); for(char ch : top.n->describe()) R.config(ch);
    R.op("build %s", top.n->describe().c_str());
    std::vector<Obj> all; collect(top, all);
    Recall recall; int steps = 3 + (int)r.below(7);
    for(int k = 0; k < steps; ++k) {
        sim::Rng q = r.fork(100 + k); bool keep = R.keep(); Obj& o = q.chance(0.75) ? top : all[q.below(all.size())]; const Node& n = *o.n;
        if(!keep) continue;
        if(q.chance(0.2) && top.n->nc) { Vec v = randomCoeffs(q, *top.n); for(auto& x : v) x *= wild; R.op("SetCoeffs"); sim::LibScope ls; setCoeffs(top, v); continue; }
        if(!n.ready()) continue;
        int N = 1 + (int)q.below(7), e = n.in - n.out; Mode m = randomMode(q);
        if(!n.coeffsSet()) m.api = 2;
        Mat x = recall(q, n, points(q, n, N)); N = x.c;
        std::vector<int> good; for(int j = 0; j < N; ++j) { Vec col = x.col(j); if(sane(n, col.data())) good.push_back(j); }
        if(good.empty()) continue; x = x.cols(good); N = (int)good.size();
        int what = (int)q.below(10);
        if(what < 2) { // something else in between
            int kind = (int)q.below(NKIND); if(kind == INVERSE || !supports(o, kind) || (!n.nc && (kind == COEFFGRAD || kind == LDCOEFFGRAD))) continue;
            R.op("%s", kindName[kind]); runOp(R, o, kind, x, gaussian(q, n.out, N), m); R.probe("other_calls"); continue;
        }
        if(what < 4) { // increasing in each trailing input
            if(negAffine(n)) continue;
            if(n.kind == ref::COMPOSED || n.hasKind(ref::COMPOSED)) continue;  // a product of triangular Jacobians is still increasing, but only overall
            int t = (int)q.below(n.out); Mat x2 = x; for(int j = 0; j < N; ++j) x2(e + t, j) += std::exp(q.uniform(-6, 1));
            R.op("increase in input %d", e + t);
            R.perturbed(); Mat a = runOp(R, o, EVAL, x, Mat(0, N), m), b = runOp(R, o, EVAL, x2, Mat(0, N), m); R.sequential();
            for(int j = 0; j < N; ++j) {
                Vec u = x.col(j), v = x2.col(j); double lo = 1e300, noise = 0; ref::Eval s;
                for(int p = 0; p <= 16; ++p) { Vec w = u; w[e + t] += (v[e + t] - u[e + t]) * p / 16.0; n.eval(w.data(), s, true); lo = std::min(lo, s.J(t, e + t)); noise = std::max(noise, std::fabs(s.y[t])); }
                if(n.adaptive()) noise = 5e-4 * (1 + noise); else noise = 1e-9 * (1 + noise);
                if(!std::isfinite(noise) || !(lo * (v[e + t] - u[e + t]) > 4 * noise)) continue; // quadrature too coarse here, or not resolvable
                if(!(b(t, j) > a(t, j))) R.fail("not-increasing", "output %d goes from %.17g to %.17g when its own input goes from %.17g to %.17g; %s", t, a(t, j), b(t, j), u[e + t], v[e + t], n.describe().c_str());
                R.checked();
            }
            R.probe("monotone"); continue;
        }
        // targets
        Mat y(n.out, N), x1 = x.rows(0, e); bool real = q.chance(0.5);
        if(real) y = runOp(R, o, EVAL, x, Mat(0, N), m); else for(int j = 0; j < N; ++j) { Vec v = refEvalCol(n, x, j); for(int i = 0; i < n.out; ++i) y(i, j) = v[i]; }
        bool guess = q.chance(0.35) && n.kind != ref::COMPOSED; Mat lead = x1;
        if(guess) { lead = x; for(int i = e; i < n.in; ++i) for(int j = 0; j < N; ++j) lead(i, j) = q.chance(0.3) ? x(i, j) : 2 * q.normal(); R.probe("initial_guess"); }
        if(m.api == 1 && lead.r == 0) m.api = 0; // an Eigen block without rows keeps its columns, a view too
        // poisoned columns: targets that have no solution
        std::vector<int> bad(N, 0);
        if(q.chance(0.3)) for(int j = 0; j < N; ++j) if(q.chance(0.3)) { bad[j] = 1; double w[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300}; y(q.below(n.out), j) = w[n.adaptive() ? 0 : q.below(5)]; /* an adaptive rule spends minutes on the way to infinity */ R.probe("target_without_solution"); }
        R.op("Inverse api%d in%d,%d out%d guess%d N=%d of %s", m.api, m.inLay, m.in2Lay, m.outLay, guess, N, n.describe().c_str());
        R.perturbed(); Mat z = runOp(R, o, INVERSE, lead, y, m); R.sequential(); hashResult(z);
        if(z.r != n.out || z.c != N) R.fail("shape", "Inverse returned %dx%d", z.r, z.c);
        Mat back = x; for(int j = 0; j < N; ++j) for(int i = 0; i < n.out; ++i) back(e + i, j) = z(i, j);
        std::vector<int> fine; for(int j = 0; j < N; ++j) { bool fin = !bad[j]; for(int i = 0; i < n.in; ++i) fin = fin && std::fabs(back(i, j)) < 1e3; if(fin) fine.push_back(j); }
        Mat ff = runOp(R, o, EVAL, back.cols(fine), Mat(0, (int)fine.size()), Mode()), f(n.out, N, NAN); for(size_t p = 0; p < fine.size(); ++p) for(int i = 0; i < n.out; ++i) f(i, fine[p]) = ff(i, p);
        for(int j = 0; j < N; ++j) {
            if(bad[j]) { // no finite solution: the entries that depend on it are not finite, or the forward value really is the target
                for(int i = 0; i < n.out; ++i) if(std::isnan(y(i, j)) && n.kind == ref::COMPONENT && !std::isnan(z(i, j)))
                    R.fail("nan-target", "the inverse of a not-a-number target is %.17g; %s", z(i, j), n.describe().c_str());
                R.checked(); continue;
            }
            Vec u = x.col(j), w = back.col(j); ref::Eval s; n.eval(u.data(), s, true);
            double sl = slack(n, u), inv = invNorm(s.J), sz = 0; bool nan = false; for(double v : w) { nan = nan || !std::isfinite(v); sz = std::max(sz, std::fabs(v)); }
            if(nan || sz >= 1e3) { if(!increasing(n, u)) { R.probe("quadrature_not_monotone"); continue; } R.fail("lost-solution", "the inverse of a forward value is not-a-number or far away (point %d of %d, guess %d); %s", j, N, guess, n.describe().c_str()); }
            double sw = slack(n, w); if(!std::isfinite(sw)) sw = 0;
            for(int i = 0; i < n.out; ++i) { double t = 4 * std::max(sl, sw) + 1e-9 * std::fabs(y(i, j)); if(!(std::fabs(f(i, j) - y(i, j)) <= t)) R.fail("forward-of-inverse", "forward of the inverse gives %.12g for target %.12g (allowed %.3g), output %d, point %d of %d, guess %d; %s", f(i, j), y(i, j), t, i, j, N, guess, n.describe().c_str()); }
            if(inv * sl < 1e-2) for(int i = 0; i < n.out; ++i) { // uniquely determined: the same point must come back
                double t = 20 * inv * (sl + std::max(sl, sw)) + 1e-6; if(std::fabs(w[e + i] - u[e + i]) <= t) continue;
                ref::Eval p; n.eval(w.data(), p, false); bool other = true; for(int a = 0; a < n.out; ++a) other = other && std::fabs(p.y[a] - s.y[a]) <= 10 * (sl + sw) + 1e-6 * std::fabs(s.y[a]);
                if(other) { R.probe("second_preimage_of_quadrature"); break; } // the discretised integral is not monotone there
                R.fail("inverse-of-forward", "inverse of the forward value gives %.12g instead of %.12g (allowed %.3g), input %d, point %d of %d; %s", w[e + i], u[e + i], t, e + i, j, N, n.describe().c_str());
            }
            R.checked(2 * n.out); R.probe("round_trip"); if(guess) R.probe("round_trip_with_guess"); if(e > 0) R.probe("leading_inputs"); if(n.hasKind(ref::COMPOSED)) R.probe("composed"); if(n.hasKind(ref::IDENTITY)) R.probe("identity_blocks");
        }
        if(std::count(bad.begin(), bad.end(), 1)) { // the poisoned points did not disturb the others
            std::vector<int> ok; for(int j = 0; j < N; ++j) if(!bad[j]) ok.push_back(j);
            if(!ok.empty() && !n.hasKind(ref::AFFINE)) { Mat z2 = runOp(R, o, INVERSE, lead.cols(ok), y.cols(ok), m); int i, j; if(differs(z.cols(ok), z2, 1e-12, 1e-12, i, j)) R.fail("neighbour-disturbed", "a target without solution changes the result of another point; %s", n.describe().c_str()); R.checked(); }
        }
    }
}
