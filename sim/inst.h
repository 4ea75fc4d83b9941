// One estimator inside a run, with the models its steps are judged against.
#pragma once
#include "exec.h"

extern bool g_calibrate;
struct Meas_ { int frame, cam; V2 z; };
struct WFrame { double t; std::map<uint32_t, std::map<uint32_t, V2>> f; };
struct Inst {
    Inst(const Plan &p, const World &w, int b);
    const Plan &p; const World &w; int b;
    E::Backend *be = nullptr;
    seam::RandStream rs;
    RefLoader ml;
    ref::Noise noise; double grav, sigma; int maxWin, kfMin; double kfDist; int maxUsed;

    // history since creation or the last reset
    std::vector<MImu> raw;              // processed IMU samples, stamps relative to the first message
    std::vector<WFrame> window;         // camera messages whose frames are in the window
    double lastCam = NAN;               // stamp of the newest processed camera message
    bool wasInit = false; double lastTP = 0, lastTU = 0; long initCount = 0, camSinceMark = 0;
    // accuracy
    bool aligned = false; double alYaw = 0; V3 alP, alT; double alTime = 0;
    bool attAligned = false; double attYaw = 0;
    long camCount = 0, imuCount = 0;     // processed since creation
    int mark = 0; long failsSinceMark = 0, camSinceReady = 0; bool attReady = false;
    // memory
    std::vector<std::weak_ptr<void>> watched;
    std::vector<double> liveSamples; double liveMax = 0; long liveN = 0;
    std::vector<double> gone[2];         // bytes still held after each destruction, after each reset
    void released(int how);

    Snap pre, post; bool stepPopped = false; RefLoader::Out cur; bool preInit = false;

    template <class M> void watch(const std::shared_ptr<M> &m) { watched.emplace_back(m); if (watched.size() > 4000) watched.erase(watched.begin(), watched.begin() + 2000); }
    void restart(bool created);
    void before(unsigned mon, bool popped, const RefLoader::Out &o);
    void after(unsigned mon, const Obs &o);
    void note(const Obs &o, bool popped, const RefLoader::Out &out);       // bookkeeping of runs without monitors
    void marker(unsigned mon, int n);
    void finish(unsigned mon);
private:
    double prevCam = NAN, firstImu = NAN;
    bool coarse = false;                 // the last initialisation spanned a camera outage (known finding of C13)
    double prevCamT() const { return prevCam; }
    double worldTime(double rel) const { return rel + ml.off - w.t0; }
    void checkC05(const Obs &o);
    void checkC07();
    void checkC08();
    void checkC09();
    void checkC10();
    void checkC11();
    void checkC12(const Obs &o, unsigned mon);
    void checkRecovery(const Obs &o);
    void checkC20(const Obs &o);
    void checkC21();
    void stats(const Obs &o, bool popped, const RefLoader::Out &out);
};
