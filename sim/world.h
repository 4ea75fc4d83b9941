// The simulated physical world: a smooth rigid-body motion, an IMU and a camera rig that observe it.
// Every value is a pure function of the plan header and the sample index.
#pragma once
#include "plan.h"
#include "rng.h"
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <map>
#include <vector>

typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;
typedef Eigen::Quaterniond Qd;
typedef Eigen::Matrix3d M3;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

struct Truth { V3 p, v, a, w; Qd q; };          // world position/velocity/acceleration, body rate, attitude
struct ImuSample { double t; V3 acc, gyr; };
struct FeatEntry { uint32_t id; std::map<int, V2> obs; };
struct FeatSample { double t; std::vector<FeatEntry> feats; };

struct World {
    explicit World(const Plan &p);
    Truth truth(double t) const;                // t in world seconds (0 = start of the simulation)
    double imuTime(long k) const;               // world seconds
    double camTime(long f) const;
    ImuSample imu(long k) const;                // stamped in sensor clock: t0 + world seconds
    FeatSample feat(long f) const;
    double t0, dt, camDiv, camPhase;
    int ncam;
    std::vector<Qd> q_bc; std::vector<V3> p_bc;
    V3 ba, bg;
    double gravity, restT, rampT;
    double sa, sg, spx;
    long nfeat;
private:
    uint64_t seed;
    double jitImu, jitCam, occl, depthMax, rigidYawRate;
    int idmode;
    bool mono, fewStereo;
    double amp[3][3], frq[3][3], pha[3][3], ramp_[3][3], rfrq[3][3], rpha[3][3];
    Qd mount;
    std::vector<V3> lm; std::vector<uint32_t> lmId;
    void warp(double t, double &u, double &du, double &ddu) const;
};
