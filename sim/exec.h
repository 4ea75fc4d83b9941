// Runs one plan against the real estimator and judges every step.
#pragma once
#include "ref.h"
#include <deque>

// What the estimator publishes after one processing call. Plain data: compared bit for bit between runs.
struct Obs {
    int32_t b, ret, status, hasP, hasU, sync;
    double tP, tU;
    double P[16], U[16];            // p v q(wxyz) ba bg
};
struct Calib { long op; int32_t b, n; double ba[3], bg[3], ext[8][7]; };
enum Fault { FA_LOSS, FA_DUP, FA_REORDER, FA_DELAY, FA_STALL, FA_IMUGAP, FA_CAMGAP, FA_CAMSTALL, FA_DROPFEAT, FA_OUTLIER, FA_MALFORMED, FA_EMPTY,
             FA_RESET, FA_RECREATE, FA_OOM, FA_WALL, FA_SPIKE, FA_RANDLOW, FA_HEAP, FA_READ, FA_FILE, FA_STALE, FA_SHARE, FA_SHIFT, FA_CALUNC, FA_SUSPEND, FA_N };
extern const char *const FAULT_NAMES[FA_N];
struct Shared {
    char cls[64], msg[900];
    long op;
    int done;
    uint64_t hash;
    long steps, pushes, accepted, refused, inits, updates, updFails, imuSteps, camSteps, checks, checksB, checksC;
    double simTime;
    double worst[16];               // largest deviations seen, for calibration and evidence
    long fault[FA_N];
    long nState; uint64_t states[2048];
    long nCalib; Calib calib[256];
    long nThrow; long throwOp[512];
    long nObs;
    static const long MAXOBS = 60000;
    Obs obs[MAXOBS];
};
extern Shared *g_out;
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
[[noreturn]] void harnessError(const std::string &msg);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
void addState(uint64_t h);

enum Mon : unsigned { M_LOAD = 1, M_C05 = 2, M_C07 = 4, M_C08 = 8, M_C09 = 16, M_C10 = 32, M_C11 = 64, M_C12 = 128, M_C13 = 256,
                      M_UNMOD = 512, M_C20 = 1024, M_C21 = 2048 };

struct MImu { double t; V3 a, g; };
struct MFeat { double t; std::vector<std::pair<uint32_t, std::map<uint32_t, V2>>> f; };
bool same(const MImu &a, const MImu &b);
bool same(const MFeat &a, const MFeat &b);
MImu toModel(const E::IMUMessage &m);
MFeat toModel(const E::FeaturesMessage &m);          // every entry, empty ones included
bool wellFormed(const std::shared_ptr<E::IMUMessage> &m);
bool wellFormed(const std::shared_ptr<E::FeaturesMessage> &m, int ncam);   // ncam < 0: any camera index

// Specification of the message buffer.
struct RefLoader {
    double period = 0.005;
    bool have = false; double off = 0, lastI = 0, lastF = 0; bool anyI = false, anyF = false;
    std::deque<MImu> I; std::deque<MFeat> F;
    struct Out { bool hasF = false; MFeat f; std::vector<MImu> i; };
    bool pushI(MImu m);
    bool pushF(MFeat m);
    bool popOne(Out &o);
    bool popPacked(Out &o, bool &interpolated);
    void clear() { *this = RefLoader{period}; }
    explicit RefLoader(double p = 0.005) : period(p) {}
    size_t buffered() const { return I.size() + F.size(); }
};

std::shared_ptr<E::IMUMessage> mkImu(const World &w, const Op &o);
std::shared_ptr<E::FeaturesMessage> mkFeat(const World &w, const Op &o);
void countMuts(const Op &o);

extern std::string g_scratch;
extern void (*g_afterConfig)(const std::string &dir, int ncam);       // damages a configuration after it was written
std::string writeConfig(const Plan &p, const World &w);      // returns the directory
void execPlan(const Plan &p, unsigned mon, const Shared *calib);
