// Executable reference model of the estimator, in double precision, written from the estimator's specification:
// midpoint inertial integration, multi-state constraint Kalman update with automatically differentiated residuals.
#pragma once
#include "sut.h"

namespace ref {
struct RawImu { double t; V3 acc, gyr; };
struct Noise { double na, ng, nwa, nwg; };
Qd smallRot(const V3 &th);
M3 skew(const V3 &v);
bool cholesky(MX &A);           // lower factor in place; false if not positive definite
// advances s over one pair of samples (s.acc/s.gyr hold the earlier one)
void propagate(NavState &s, const RawImu &to, const V3 &ba, const V3 &bg, double g, const Noise &n);
// linear triangulation from all measurements; ok=false if the point is at infinity or behind a camera;
// margin is small when that decision is a close one
struct View { Qd q_wc; V3 p_wc; V2 z; };
bool triangulate(const std::vector<View> &views, V3 &p, double &margin);

struct Meas { int frame, cam; V2 z; };              // frame: index in window (last = newest)
struct FeatObs { V3 p_w; std::vector<Meas> meas; };
struct Full {                                       // full state at the update time
    V3 p, v; Qd q; V3 ba, bg;
    std::vector<ExtState> ext;
    std::vector<ExtState> frames;                   // window poses without the newest
    MX P;                                           // order: p v theta ba bg | ext p,theta ... | frames p,theta ...
};
// returns false if the linear problem is too badly conditioned to compare
bool update(Full &x, const std::vector<FeatObs> &feats, double sigma, double *maxCond);
void expand(Full &x);                               // appends the motion pose as newest frame
void drop(Full &x, int frame);
}
