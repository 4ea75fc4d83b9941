// Access to the system under test: its headers, a read-mostly probe, and a double-precision snapshot of its state.
#pragma once
#include "world.h"
#include "seams.h"
#include <backend.hpp>
#include <config.hpp>
#include <tick_tock.hpp>
#include <memory>
#include <vector>

namespace E = ESKF_VIO_BACKEND;
typedef E::Scalar S;

struct SimProbe {
    static E::DataLoader &loader(E::Backend &b) { return b.dataloader; }
    static E::FeatureManager &fm(E::Backend &b) { return b.featureManager; }
    static E::FrameManager &frm(E::Backend &b) { return b.frameManager; }
    static E::AttitudeEstimate &att(E::Backend &b) { return b.attitudeEstimator; }
    static E::PropagateQueue &prop(E::Backend &b) { return b.propagator; }
    static E::MultiViewVisionUpdate &upd(E::Backend &b) { return b.visionUpdator; }
    static std::vector<std::shared_ptr<E::Feature>> &used(E::Backend &b) { return b.visionUpdator.features; }
};

struct NavState { double t = 0; V3 p, v; Qd q; MX cov, xc; V3 acc, gyr; };
struct ExtState { V3 p; Qd q; };
struct FrameState { uint32_t id; double t; V3 p, v; Qd q; };
struct Snap {
    int status = 0;
    std::vector<NavState> items;        // covariances only where asked for
    MX exCam;
    V3 ba, bg;
    std::vector<ExtState> ext;
    std::vector<FrameState> frames;
};
inline V3 toD(const E::Vector3 &v) { return v.cast<double>(); }
inline Qd toD(const E::Quaternion &q) { return Qd((double)q.w(), (double)q.x(), (double)q.y(), (double)q.z()); }
inline E::Vector3 toS(const V3 &v) { return v.cast<S>(); }
enum { SNAP_COV_ALL = 1, SNAP_COV_ENDS = 2 };
Snap takeSnap(E::Backend &b, int flags);
