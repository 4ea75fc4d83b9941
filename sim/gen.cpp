// Seeded choice of world, configuration, schedule and faults for each property.
#include "gen.h"
#include "world.h"
#include "sut.h"
#include <algorithm>
#include <cmath>

struct Sched {
    double dur = 4;                     // simulated seconds of sensor data
    double latI = 0.001, latIj = 0;     // transport latency of IMU samples: fixed part and spread
    double latF = 0.02, latFj = 0.01;
    double lossI = 0, lossF = 0, dupI = 0, dupF = 0, reordI = 0, reordF = 0;
    double pollEvery = 0;               // 0: process whenever something arrived; otherwise the processing period
    int pollMax = -1;                   // processing calls per poll
    double emptyPoll = 0;               // extra processing calls with nothing buffered
    std::vector<std::pair<double, double>> imuGap, camGap, stall, oneCam;    // time windows
    std::vector<std::pair<double, double>> susp;                             // the whole device is suspended: no sensor delivers
    double dropP = 0, dropFrac = 0.5, outlP = 0, outlFrac = 0, omag = 0.3, nofP = 0, spikeP = 0, badP = 0, emptyP = 0, zeroP = 0;
    double staleP = 0;
    bool holdCam = true;                // camera messages are handed over only after the IMU sample past them
    std::vector<double> resets, recreates, reconfigs, wallSteps;
    std::vector<double> calib; double calibSig = 0;
    bool share = false;
    double camStart = 0;
    std::vector<std::pair<double, long>> marks;
};
struct Ev { double t; long seq; Op op; };

static std::vector<std::pair<double, double>> windows(Rng &r, int maxN, double from, double to, double lenMin, double lenMax) {
    std::vector<std::pair<double, double>> v;
    long n = r.i(0, maxN);
    for (long i = 0; i < n; ++i) { double a = r.u(from, to); v.emplace_back(a, a + r.u(lenMin, lenMax)); }
    return v;
}
static bool inside(const std::vector<std::pair<double, double>> &v, double t) { for (auto &w : v) if (t >= w.first && t < w.second) return true; return false; }
static void bump(Plan &p, const char *f, long n = 1) { std::string k = std::string("f_") + f; p.hdr[k] = std::to_string(p.lnum(k, 0) + n); }

static Op mk(char kind, int b, long k) { Op o; o.kind = kind; o.b = b; o.k = k; return o; }
static void malformImu(Rng &r, Op &o) {
    switch (r.i(0, 3)) {
    case 0: o.muts.emplace_back("null", ""); break;
    case 1: o.muts.emplace_back("tx", r.p(0.5) ? "nan" : r.p(0.5) ? "inf" : "-inf"); break;
    default: o.muts.emplace_back("nx", r.p(0.6) ? "nan" : r.p(0.5) ? "inf" : "-inf"); o.muts.emplace_back("ni", std::to_string(r.i(0, 5)));
    }
}
static void malformFeat(Rng &r, Op &o, int ncam) {
    switch (r.i(0, 6)) {
    case 0: o.muts.emplace_back("null", ""); break;
    case 1: o.muts.emplace_back("tx", r.p(0.5) ? "nan" : r.p(0.5) ? "inf" : "-inf"); break;
    case 2: o.muts.emplace_back("nx", r.p(0.6) ? "nan" : r.p(0.5) ? "inf" : "-inf"); o.muts.emplace_back("ni", std::to_string(r.i(0, 7))); break;
    case 3: o.muts.emplace_back("mism", r.p(0.4) ? "ids" : r.p(0.5) ? "obs" : "more"); if (r.p(0.4)) o.muts.emplace_back("ctor", ""); break;
    case 4: o.muts.emplace_back("nullobs", ""); break;
    case 5: o.muts.emplace_back("dupid", ""); break;
    default: { long c[] = {(long)ncam, (long)ncam + 1, 49, 50, 4294967295L}; o.muts.emplace_back("badcam", std::to_string(r.pick(c))); if (r.p(0.5)) o.muts.emplace_back("early", ""); }
    }
    if (r.p(0.8)) o.muts.emplace_back("at", std::to_string(r.i(0, 60)));
}

// One estimator's input: sensors -> lossy, delaying transport -> hand-over -> processing.
static void schedule(Rng &r, Plan &p, const Sched &s, int b, std::vector<Ev> &out, double startT = 0) {
    World w(p);
    std::vector<Ev> ev;
    long seq = (long)b * 1000000;
    long nI = (long)std::floor(s.dur / w.dt), nF = (long)std::floor(s.dur / (w.camDiv * w.dt));
    std::vector<double> arrI(nI + 3, 0);
    double last = -1;
    for (long k = 0; k < nI; ++k) {
        double t = w.imuTime(k);
        if (t < startT) continue;
        if (inside(s.susp, t)) { bump(p, "suspension"); continue; }
        if (inside(s.imuGap, t)) { bump(p, "imu_outage"); continue; }
        if (r.p(s.lossI)) { bump(p, "message_loss"); continue; }
        double a = t + s.latI + r.u() * s.latIj;
        bool ro = r.p(s.reordI);
        if (ro) { a += r.u(0, 4) * w.dt; bump(p, "reorder"); }
        else { a = std::max(a, last + 1e-9); last = a; }
        arrI[k] = a;
        Op o = mk('I', b, k);
        if (s.share) o.muts.emplace_back("share", "");
        if (r.p(s.spikeP)) {
            if (r.p(0.1)) o.muts.emplace_back("zeroacc", "");
            else { o.muts.emplace_back("spike", dstr(std::round(r.u(-30, 30) * 10) / 10)); o.muts.emplace_back("ni", std::to_string(r.i(0, 5))); }
        }
        ev.push_back({a, seq++, o});
        if (r.p(s.dupI)) { Op d = o; d.muts.emplace_back("dup", ""); ev.push_back({a + r.u(0, 3) * w.dt, seq++, d}); }
        if (r.p(s.staleP)) { Op d = mk('I', b, std::max(0L, k - r.i(1, 30))); d.muts.emplace_back("dup", ""); ev.push_back({a, seq++, d}); }
        if (r.p(s.badP)) { Op d = mk('I', b, k + r.i(-2, 2)); if (d.k < 0) d.k = 0; malformImu(r, d); ev.push_back({a + r.u(-1, 1) * w.dt, seq++, d}); }
    }
    double lastF = -1;
    for (long f = 0; f < nF; ++f) {
        double t = w.camTime(f);
        if (t < startT || t < s.camStart || t > s.dur - 2.5 * w.dt) continue;
        if (inside(s.susp, t)) continue;
        if (inside(s.camGap, t)) { bump(p, "camera_outage"); continue; }
        if (r.p(s.lossF)) { bump(p, "message_loss"); continue; }
        double a = t + s.latF + r.u() * s.latFj;
        if (s.latFj > 0) bump(p, "delay");
        if (s.holdCam) {                // the consumer's side holds it back until the next IMU sample is there
            long k = (long)std::floor(t / w.dt) - 1; if (k < 0) k = 0;
            while (k < nI && (w.imuTime(k) <= t || arrI[k] == 0)) ++k;
            if (k < nI) a = std::max(a, arrI[k] + 1e-7);
        }
        bool ro = r.p(s.reordF);
        if (ro) { a += r.u(0, 2.5) * w.camDiv * w.dt; bump(p, "reorder"); }
        else { a = std::max(a, lastF + 1e-9); lastF = a; }
        Op o = mk('F', b, f);
        if (s.share) o.muts.emplace_back("share", "");
        if (inside(s.oneCam, t)) o.muts.emplace_back("cams", std::to_string(1L << (hash64(p.lnum("wseed", 1), f / 40) % (uint64_t)w.ncam)));
        if (r.p(s.dropP)) { o.muts.emplace_back("drop", dstr(std::round(s.dropFrac * r.u() * 100) / 100)); o.muts.emplace_back("seed", std::to_string(r.i(1, 99999))); }
        else if (r.p(s.outlP)) { o.muts.emplace_back("outl", dstr(std::round(s.outlFrac * r.u() * 100) / 100)); o.muts.emplace_back("omag", dstr(s.omag)); o.muts.emplace_back("seed", std::to_string(r.i(1, 99999))); }
        else if (r.p(s.nofP)) o.muts.emplace_back("nof", "");
        else if (r.p(s.zeroP)) o.muts.emplace_back("zero", "");
        else if (r.p(s.emptyP)) { o.muts.emplace_back("empty", std::to_string(r.i(1, 6))); o.muts.emplace_back("seed", std::to_string(r.i(1, 99999))); }
        ev.push_back({a, seq++, o});
        if (r.p(s.dupF)) { Op d = o; d.muts.emplace_back("dup", ""); ev.push_back({a + r.u(0, 1) * w.camDiv * w.dt, seq++, d}); }
        if (r.p(s.staleP)) { Op d = mk('F', b, std::max(0L, f - r.i(1, 5))); d.muts.emplace_back("dup", ""); ev.push_back({a, seq++, d}); }
        if (r.p(s.badP * 3)) { Op d = mk('F', b, std::max(0L, f + r.i(-1, 1))); malformFeat(r, d, w.ncam); ev.push_back({a + r.u(-0.5, 0.5) * w.camDiv * w.dt, seq++, d}); }
    }
    for (double t : s.resets) ev.push_back({t, seq++, mk('X', b, r.i(1, 1000000))});
    for (double t : s.recreates) ev.push_back({t, seq++, mk('N', b, r.i(1, 1000000))});
    for (double t : s.reconfigs) ev.push_back({t, seq++, mk('Y', b, r.i(1, 1000000))});
    for (double t : s.calib) { Op o = mk('U', b, 0); o.muts.emplace_back("sig", dstr(s.calibSig)); ev.push_back({t, seq++, o}); }
    for (double t : s.wallSteps) ev.push_back({t, seq++, mk('W', b, (long)(r.n() * 1e6))});
    for (auto &m : s.marks) ev.push_back({m.first, seq++, mk('S', b, m.second)});
    std::stable_sort(ev.begin(), ev.end(), [](const Ev &a, const Ev &c) { return a.t < c.t || (a.t == c.t && a.seq < c.seq); });
    // the processing side
    std::vector<Ev> withRun;
    double nextPoll = s.pollEvery > 0 ? s.pollEvery * r.u() : 0;
    for (auto &e : ev) {
        if (s.pollEvery > 0)
            while (nextPoll < e.t) {
                if (inside(s.stall, nextPoll)) bump(p, "consumer_stall");
                else withRun.push_back({nextPoll, seq++, mk('R', b, s.pollMax < 0 ? -1 : r.i(1, s.pollMax))});
                nextPoll += s.pollEvery;
            }
        withRun.push_back(e);
        if (s.pollEvery <= 0 && e.op.kind != 'S' && e.op.kind != 'W') {
            if (inside(s.stall, e.t)) bump(p, "consumer_stall");
            else { withRun.push_back({e.t, seq++, mk('R', b, -1)}); if (r.p(s.emptyPoll)) withRun.push_back({e.t, seq++, mk('R', b, r.i(1, 2))}); }
        }
    }
    withRun.push_back({s.dur + 10, seq++, mk('R', b, -1)});
    out.insert(out.end(), withRun.begin(), withRun.end());
}
static void emit(Plan &p, std::vector<Ev> &ev) {
    std::stable_sort(ev.begin(), ev.end(), [](const Ev &a, const Ev &c) { return a.t < c.t || (a.t == c.t && a.seq < c.seq); });
    for (auto &e : ev) p.ops.push_back(e.op);
}

static void worldBasics(Rng &r, Plan &p, bool dyadic) {
    p.set("wseed", (double)r.i(1, 1000000000)); p.set("rseed", (double)r.i(1, 1000000000));
    if (dyadic) {
        double d[] = {1.0 / 256, 1.0 / 128, 1.0 / 512}; p.set("dt", r.pick(d));
        double t[] = {0, 64, 1024.5, 4096}; p.set("t0", r.pick(t));
        double ph[] = {0, 0.25, 0.5, 0.75}; p.set("camphase", r.pick(ph));
        if (r.p(0.3)) p.set("camdiv", (double)r.i(5, 16) + 0.5); else p.set("camdiv", (double)r.i(5, 16));
    } else {
        double d[] = {0.005, 0.005, 0.0025, 0.01}; p.set("dt", r.pick(d));
        double t[] = {0, 0.037, 12.5, 1403636580.0, 1e5}; p.set("t0", r.pick(t));
        p.set("camphase", r.p(0.4) ? 0 : std::round(r.u(0.05, 0.95) * 100) / 100);
        p.set("camdiv", (double)r.i(5, 16));
    }
    p.set("ncam", r.p(0.8) ? 2 : r.p(0.8) ? 3 : 4);
    p.set("win", (double)r.i(3, 8));
    p.set("nfeat", (double)r.i(18, 40));
    double kf[] = {5, 10, 15, 25}; p.set("kfmin", r.pick(kf));
    double kd[] = {0.03, 0.1, 0.3}; p.set("kfdist", r.pick(kd));
    p.set("vn", 0.003);
    if (r.p(0.3)) p.set("occl", std::round(r.u(0.05, 0.35) * 100) / 100);
    if (r.p(0.7)) { p.set("sa", 0.003); p.set("sg", 0.001); p.set("spx", 0.0008); }
    if (r.p(0.5)) p.set("mount", (double)r.i(1, 4));
    if (r.p(0.5)) { p.set("ba", 0.02); p.set("bg", 0.01); if (r.p(0.7)) p.set("bcfg", 1); }
    p.set("amp", std::round(r.u(0.2, 0.9) * 100) / 100); p.set("ampr", std::round(r.u(0.1, 0.5) * 100) / 100);
    p.set("rest", std::round(r.u(0.2, 0.6) * 100) / 100); p.set("ramp", std::round(r.u(0.8, 2.0) * 10) / 10);
    if (r.p(0.3)) p.set("idmode", (double)r.i(1, 2));
    if (r.p(0.25)) p.set("gravity", 9.81);
}
// deployments at the edge of what is sensible, for properties that hold there as well
static void oddDeployment(Rng &r, Plan &p) {
    if (r.p(0.1)) p.set("camdiv", (double)r.i(1, 4) + (r.p(0.3) ? 0.5 : 0));                       // cameras nearly as fast as the IMU
    if (r.p(0.1)) p.set("freq", std::round(1 / p.num("dt", 0.005) * r.u(0.4, 1.8)));               // configured IMU rate is not the true one
    if (r.p(0.15)) p.set("win", r.p(0.5) ? (double)r.i(1, 2) : (double)r.i(9, 12));
    if (r.p(0.05)) p.set("ncam", 1);
    if (r.p(0.1)) p.set("t0", r.p(0.5) ? -37.5 : 1.7e9);
}
// the device sleeps and wakes up: one long step between two samples for every integration
static void suspend(Rng &r, const Plan &p, Sched &s, double prob, double lenMax) {
    if (!r.p(prob)) return;
    double a = p.num("rest", 0.5) + r.u(0.1, std::max(0.2, s.dur - 1)), len = std::pow(10.0, r.u(-1, std::log10(lenMax)));
    s.susp.emplace_back(a, a + len); s.dur = std::max(s.dur, a + 0.7) + len;
}
// the process has been up for long when the sensors start: only a camera message without features arrived at its start
static void uptime(Rng &r, Plan &p, std::vector<Ev> &ev, double prob) {
    if (!r.p(prob)) return;
    double u[] = {64, 3600, 36000, 262144, 1048576};
    Op o = mk('F', 0, 0); o.muts.emplace_back("nof", ""); o.muts.emplace_back("dt", dstr(-r.pick(u)));
    ev.push_back({-2, 0, o}); bump(p, "uptime");
}
static Sched transport(Rng &r, const Plan &p, double dur) {
    Sched s; s.dur = dur;
    double dt = p.num("dt", 0.005), cd = p.num("camdiv", 10) * dt;
    s.latI = r.u(0.2, 3) * dt; s.latIj = r.p(0.5) ? r.u(0, 4) * dt : 0;
    s.latF = r.u(0.5, 8) * dt; s.latFj = r.p(0.6) ? r.u(0, 1.5) * cd : 0;
    if (r.p(0.4)) { s.pollEvery = r.u(0.3, 12) * dt; if (r.p(0.5)) s.pollMax = (int)r.i(1, 8) + (int)(2 * s.pollEvery / dt); }
    if (r.p(0.3)) s.emptyPoll = 0.1;
    return s;
}
// anything goes: every fault kind is enabled independently, so that runs see different mixtures
static Sched chaos(Rng &r, const Plan &p, double dur) {
    Sched s = transport(r, p, dur);
    double rest = p.num("rest", 0.5);
    if (r.p(0.3)) s.holdCam = false;
    if (r.p(0.4)) s.lossI = r.u(0, 0.05);
    if (r.p(0.5)) s.lossF = r.u(0, 0.3);
    if (r.p(0.4)) { s.dupI = r.u(0, 0.05); s.dupF = r.u(0, 0.2); }
    if (r.p(0.3)) { s.reordI = r.u(0, 0.05); s.reordF = r.u(0, 0.2); }
    if (r.p(0.4)) s.imuGap = windows(r, 3, rest + 0.3, dur, 0.01, 0.5);
    if (r.p(0.4)) s.camGap = windows(r, 3, rest, dur, 0.05, 1.0);
    if (r.p(0.4)) s.stall = windows(r, 3, 0, dur, 0.02, 0.7);
    if (r.p(0.4)) s.oneCam = windows(r, 3, 0, dur, 0.1, 1.0);
    if (r.p(0.5)) { s.dropP = r.u(0, 0.5); s.dropFrac = r.u(0.2, 1); }
    if (r.p(0.3)) s.nofP = r.u(0, 0.1);
    if (r.p(0.3)) { s.outlP = r.u(0, 0.3); s.outlFrac = r.u(0, 0.3); }
    if (r.p(0.3)) s.emptyP = r.u(0, 0.4);
    if (r.p(0.2)) s.staleP = r.u(0, 0.03);
    return s;
}

Plan generate(const std::string &prop, uint64_t seed, bool thorough) {
    Rng r(hash64(seed, 4242, std::hash<std::string>()(prop)));
    Plan p;
    p.hdr["prop"] = prop; p.hdr["seed"] = std::to_string(seed);
    double L = thorough ? 1.6 : 1.0;
    if (prop != "C12" && prop != "C13" && prop != "C20" && r.p(0.3)) p.set("extdig", (double)r.i(3, 6));
    std::vector<Ev> ev;

    if (prop == "C03") {
        worldBasics(r, p, false); oddDeployment(r, p);
        Sched s = chaos(r, p, r.u(1.5, 3.0) * L);
        s.badP = r.u(0.02, 0.15); s.emptyP = r.p(0.7) ? r.u(0.05, 0.5) : 0;
        if (r.p(0.2)) s.resets.push_back(r.u(0.5, s.dur));
        schedule(r, p, s, 0, ev);
        // malformed messages before anything else must not define the time origin either
        for (long i = r.i(0, 3); i > 0; --i) { Op o = mk(r.p(0.5) ? 'I' : 'F', 0, r.i(0, 40)); o.kind == 'I' ? malformImu(r, o) : malformFeat(r, o, (int)p.num("ncam", 2)); ev.push_back({-1, i, o}); }
        uptime(r, p, ev, 0.15); emit(p, ev);
    } else if (prop == "C05" || prop == "C10" || prop == "C11" || prop == "C09" || prop == "C01B") {
        worldBasics(r, p, false);
        oddDeployment(r, p);
        Sched s = chaos(r, p, r.u(2.0, 4.5) * L);
        if (prop == "C05" && r.p(0.3)) { s.spikeP = 0.002; s.badP = 0.01; }
        if (prop == "C05" && r.p(0.3)) s.zeroP = 0.05;
        if (prop == "C01B") s.badP = 0.03;
        if (prop == "C10") { p.set("occl", std::round(r.u(0.1, 0.45) * 100) / 100); s.dropP = r.u(0.1, 0.6); s.dropFrac = r.u(0.3, 1); if (r.p(0.4)) s.emptyP = 0.3; }
        if (prop == "C11") { if (r.p(0.5)) p.set("win", (double)r.i(2, 4)); double km[] = {4, 8, 12, 16, 22}; p.set("kfmin", r.pick(km)); double kd[] = {0.01, 0.03, 0.06, 0.12, 0.3}; p.set("kfdist", r.pick(kd)); }
        if (r.p(0.4)) for (long i = r.i(1, 3); i > 0; --i) s.resets.push_back(r.u(0.3, s.dur));
        if (r.p(0.1)) s.recreates.push_back(r.u(0.3, s.dur));
        suspend(r, p, s, 0.15, prop == "C09" && sizeof(S) == 4 ? 0.7 : 20);       // C09: see the known finding
        if (prop == "C09" && r.p(0.5)) { p.set("exterr", 0.01); s.calibSig = std::round(std::pow(10.0, r.u(-3.5, -1.5)) * 1e5) / 1e5; for (long i = r.i(1, 3); i > 0; --i) s.calib.push_back(r.u(0.3, s.dur)); }
        schedule(r, p, s, 0, ev); uptime(r, p, ev, 0.15); emit(p, ev);
    } else if (prop == "C06") {
        worldBasics(r, p, r.p(0.5));
        Sched s = transport(r, p, r.u(2.0, 3.5) * L);
        s.latFj = r.u(0, 6) * p.num("camdiv", 10) * p.num("dt", 0.005);
        if (r.p(0.15)) s.latFj = r.u(6, 30) * p.num("camdiv", 10) * p.num("dt", 0.005);       // far behind
        if (r.p(0.6)) s.stall = windows(r, 3, 0.3, s.dur, 0.05, 0.6);
        if (r.p(0.15)) s.stall = windows(r, 1, 0.3, s.dur, 0.5, 2.5);
        if (r.p(0.4)) s.lossF = r.u(0, 0.2);
        if (r.p(0.3)) { s.dropP = r.u(0.1, 0.5); s.dropFrac = r.u(0.3, 1); }
        if (r.p(0.4)) s.nofP = r.u(0.05, 0.3);
        if (r.p(0.3)) s.oneCam = windows(r, 2, 0, s.dur, 0.1, 0.6);
        suspend(r, p, s, 0.2, 1);
        schedule(r, p, s, 0, ev); emit(p, ev);
    } else if (prop == "C07" || prop == "C08") {
        worldBasics(r, p, r.p(0.3));
        Sched s = transport(r, p, (prop == "C07" ? r.u(1.5, 3.0) : r.u(1.2, 2.2)) * L);
        if (r.p(0.4)) p.set("exterr", 0.01);
        if (r.p(0.5)) { p.set("na", std::round(r.u(0.002, 0.2) * 1000) / 1000); p.set("ng", std::round(r.u(0.002, 0.1) * 1000) / 1000); p.set("nwa", std::round(r.u(0.001, 0.05) * 1000) / 1000); p.set("nwg", std::round(r.u(0.001, 0.02) * 1000) / 1000); }
        if (r.p(0.3)) p.set("vn", std::round(r.u(0.002, 0.02) * 1000) / 1000);
        if (r.p(0.5)) { p.set("ba", 0.03); p.set("bg", 0.02); p.set("bcfg", r.p(0.5) ? 1 : 0.5); }
        if (r.p(0.4)) p.set("jitimu", 0.3);
        if (r.p(0.4)) s.lossI = 0.01;
        if (r.p(0.4)) s.lossF = r.u(0, 0.2);
        if (r.p(0.4)) s.imuGap = windows(r, 2, 1.0, s.dur, 0.01, 0.1);
        if (r.p(0.4)) s.stall = windows(r, 2, 0.3, s.dur, 0.02, 0.4);
        if (r.p(0.4)) s.oneCam = windows(r, 2, 0, s.dur, 0.1, 0.6);
        if (r.p(0.5)) { s.dropP = r.u(0, 0.6); s.dropFrac = r.u(0.2, 1); }
        if (r.p(0.3)) s.nofP = 0.08;
        if (r.p(0.3)) { s.outlP = 0.3; s.outlFrac = 0.2; s.omag = 0.05; }
        if (r.p(0.5)) { p.set("exterr", 0.01); s.calibSig = std::round(std::pow(10.0, r.u(-3.5, -1.5)) * 1e5) / 1e5; for (long i = r.i(1, 3); i > 0; --i) s.calib.push_back(r.u(0.3, s.dur)); }
        if (prop == "C08" && r.p(0.2)) { p.set("nfeat", (double)r.i(35, 60)); }
        if (r.p(0.2)) s.resets.push_back(r.u(0.5, s.dur));
        suspend(r, p, s, 0.3, prop == "C07" ? (sizeof(S) == 4 ? 0.7 : 30) : r.p(0.3) ? 6 : 1);
        schedule(r, p, s, 0, ev); uptime(r, p, ev, 0.25); emit(p, ev);
    } else if (prop == "C12") {
        worldBasics(r, p, false);
        p.set("win", (double)r.i(5, 8)); p.set("nfeat", (double)r.i(26, 40)); p.set("depth", 6);
        p.hdr.erase("occl"); if (r.p(0.4)) p.set("occl", 0.12);
        if (r.p(0.6)) { p.set("ba", 0.02); p.set("bg", 0.005); p.set("bcfg", r.p(0.7) ? 1 : 0); }
        p.set("camdiv", std::max(4.0, std::round(r.u(0.035, 0.06) / p.num("dt", 0.005))));
        p.set("amp", std::round(r.u(0.2, 0.7) * 100) / 100); p.set("ampr", std::round(r.u(0.05, 0.35) * 100) / 100);
        Sched s = transport(r, p, r.u(4, 8) * L);
        double safe = p.num("rest", 0.5) + 0.3;
        if (r.p(0.5)) s.lossF = r.u(0, 0.25);
        if (r.p(0.5)) { for (long i = r.i(1, 12); i > 0; --i) { double t = r.u(0.1, s.dur); s.imuGap.emplace_back(t, t + p.num("dt", 0.005) * 0.999); } }
        if (r.p(0.4)) s.camGap = windows(r, 3, safe, s.dur, 0.1, 0.35);
        if (r.p(0.5)) s.oneCam = windows(r, 3, safe, s.dur, 0.1, 0.8);
        if (r.p(0.5)) { s.dropP = r.u(0, 0.5); s.dropFrac = r.u(0.1, 0.5); }
        if (r.p(0.3)) p.set("jitcam", 0.2);
        if (r.p(0.3)) s.stall = windows(r, 2, 0.3, s.dur, 0.02, 0.3);
        if (!p.num("spx", 0)) { p.set("tolp", 0.15); p.set("tolpr", 0.02); p.set("tolv", 0.35); p.set("tola", 0.07); }
        else { p.set("tolv", 0.9); p.set("tolp", 0.6); }
        p.set("mustinit", 1);
        schedule(r, p, s, 0, ev); uptime(r, p, ev, 0.15); emit(p, ev);
    } else if (prop == "C13") {
        worldBasics(r, p, false);
        p.set("nfeat", (double)r.i(28, 40)); p.set("win", (double)r.i(4, 8)); p.hdr.erase("occl"); p.set("depth", 6);
        p.set("amp", 0.3); p.set("ampr", 0.15);
        p.set("tolv", 1.0); p.set("tolp", 1.0); p.set("tola", 0.2);
        double faultEnd = r.u(1.5, 3.0) * L, camLong = r.p(0.15) ? r.u(1, 4) : 0;
        faultEnd += camLong;
        p.set("faultend", faultEnd);
        p.set("camdiv", std::max(4.0, std::round(r.u(0.035, 0.07) / p.num("dt", 0.005))));
        Sched s = transport(r, p, faultEnd + 2.0);
        s.latFj = std::min(s.latFj, 0.05); s.pollMax = -1;
        double a = p.num("rest", 0.5);
        auto clip = [&](std::vector<std::pair<double, double>> v) { for (auto &x : v) x.second = std::min(x.second, faultEnd); return v; };
        if (r.p(0.6)) s.imuGap = clip(windows(r, 3, a, faultEnd, 0.02, 0.4));
        if (r.p(0.6)) s.camGap = clip(windows(r, 3, a, faultEnd, 0.1, 1.0));
        if (camLong > 0) { double x = r.u(a, faultEnd - camLong); s.camGap.emplace_back(x, x + camLong); }
        if (r.p(0.3)) { double x = r.u(a, faultEnd - 0.1); s.susp.emplace_back(x, std::min(x + r.u(0.05, 0.8), faultEnd)); }       // longer ones: known finding
        if (r.p(0.4)) s.stall = clip(windows(r, 2, a, faultEnd, 0.05, 0.5));
        if (r.p(0.4)) s.oneCam = clip(windows(r, 2, 0, faultEnd, 0.1, 1.0));
        if (camLong > 0 && r.p(0.3)) s.oneCam.emplace_back(0, faultEnd);            // no initialisation can succeed before regular data arrive
        if (r.p(0.4)) for (long i = r.i(1, 3); i > 0; --i) s.resets.push_back(r.u(0.3, faultEnd));
        double cd = p.num("camdiv", 10) * p.num("dt", 0.005);
        s.marks.emplace_back(faultEnd + s.latF + s.latFj, 1);
        s.marks.emplace_back(faultEnd + s.latF + s.latFj + s.pollEvery + 6.2 * cd, 2);
        schedule(r, p, s, 0, ev); uptime(r, p, ev, 0.1); emit(p, ev);
    } else if (prop == "C13R") {                // resets at arbitrary points against newly created estimators
        worldBasics(r, p, false); oddDeployment(r, p);
        Sched s = chaos(r, p, r.u(2.0, 3.5) * L);
        for (long i = r.i(1, 4); i > 0; --i) s.resets.push_back(r.p(0.2) ? r.u(0, 0.06) : r.p(0.2) ? r.u(0, 0.6) : r.u(0.2, s.dur * 0.8));
        suspend(r, p, s, 0.15, 20);
        schedule(r, p, s, 0, ev); uptime(r, p, ev, 0.1); emit(p, ev);
    } else if (prop == "C14") {
        worldBasics(r, p, false);
        int n = (int)r.i(2, 3);
        p.set("nbackends", n); p.set("samerand", r.p(0.5));
        double dur = r.u(1.2, 2.2) * L;
        bool sh = r.p(0.6), own = r.p(0.6);
        for (int b = 0; b < n; ++b) {
            Sched s = chaos(r, p, dur * r.u(0.6, 1.0));
            s.share = sh;
            if (r.p(0.3)) s.resets.push_back(r.u(0.3, dur));
            if (r.p(0.4)) s.recreates.push_back(r.u(0.2, dur));
            if (r.p(0.3)) s.reconfigs.push_back(r.u(0.2, dur));
            if (own && r.p(0.8)) {          // a configuration of its own
                auto own1 = [&](const char *k, double v) { p.set(("b" + std::to_string(b) + "." + k).c_str(), v); };
                if (r.p(0.6)) own1("cfggrav", p.num("gravity", 9.8) + std::round(r.u(-0.03, 0.03) * 1000) / 1000);
                if (r.p(0.4)) own1("win", (double)r.i(2, 8));
                if (r.p(0.4)) own1("kfmin", (double)r.i(4, 25));
                if (r.p(0.4)) own1("kfdist", std::round(r.u(0.01, 0.3) * 100) / 100);
                if (r.p(0.4)) own1("vn", std::round(r.u(0.002, 0.02) * 1000) / 1000);
                if (r.p(0.4)) { own1("na", std::round(r.u(0.005, 0.1) * 1000) / 1000); own1("nwg", std::round(r.u(0.001, 0.02) * 1000) / 1000); }
                if (r.p(0.4)) { own1("exterr", 0.01); }
                if (r.p(0.3)) own1("bcfg", r.p(0.5) ? 1 : 0.5);
            }
            schedule(r, p, s, b, ev);
        }
        emit(p, ev);
    } else if (prop == "C15") {
        worldBasics(r, p, true);
        if (r.p(0.5)) p.set("jitimu", 0.3);
        if (r.p(0.3)) p.set("jitcam", 0.2);
        Sched s = chaos(r, p, r.u(1.5, 3.0) * L);
        if (r.p(0.5)) s.resets.push_back(r.u(0.3, s.dur));
        for (long i = r.i(0, 3); i > 0; --i) s.wallSteps.push_back(r.u(0, s.dur));
        suspend(r, p, s, 0.2, 20);
        double sh[] = {1024, -512.25, 65536, 1048576.5, -0.5, 3.0e6};
        p.set("shift", r.pick(sh));
        schedule(r, p, s, 0, ev);
        if (r.p(0.3)) { for (long i = r.i(1, 2); i > 0; --i) { Op o = mk(r.p(0.5) ? 'I' : 'F', 0, r.i(0, 40)); o.kind == 'I' ? malformImu(r, o) : malformFeat(r, o, (int)p.num("ncam", 2)); ev.push_back({-1, i, o}); } }
        uptime(r, p, ev, 0.15); emit(p, ev);
    } else if (prop == "C16") {
        worldBasics(r, p, false); oddDeployment(r, p);
        Sched s = chaos(r, p, r.u(1.5, 3.0) * L);
        if (r.p(0.4)) s.resets.push_back(r.u(0.3, s.dur));
        if (r.p(0.3)) s.recreates.push_back(r.u(0.2, s.dur));
        suspend(r, p, s, 0.15, 20);
        schedule(r, p, s, 0, ev); uptime(r, p, ev, 0.1); emit(p, ev);
    } else if (prop == "C18") {
        worldBasics(r, p, false); oddDeployment(r, p);
        Sched s = chaos(r, p, r.u(1.2, 2.2) * L);
        schedule(r, p, s, 0, ev); emit(p, ev);
        double po = r.u(0.002, 0.03);
        for (auto &o : p.ops) if (o.kind == 'I' || o.kind == 'F' || o.kind == 'R') {
            double q = o.kind == 'F' ? po * 6 : o.kind == 'R' ? po * 0.5 : po;
            if (!r.p(q)) continue;
            long n = o.kind == 'I' ? r.i(0, 2) : o.kind == 'F' ? (r.p(0.5) ? r.i(0, 12) : r.i(0, 150)) : (r.p(0.5) ? r.i(0, 12) : (long)std::pow(10.0, r.u(0, 4)));
            o.muts.emplace_back("oom", std::to_string(n));
        }
        // some processing calls fail at many different allocations, each in a fork of the simulation
        std::vector<size_t> rs;
        for (size_t k = 0; k < p.ops.size(); ++k) if (p.ops[k].kind == 'R' && !p.ops[k].has("oom")) rs.push_back(k);
        for (long i = 0; i < (thorough ? 12 : 3) && !rs.empty(); ++i) {
            Op &o = p.ops[rs[(size_t)r.i(0, (long)rs.size() - 1)]];
            if (o.has("sweep")) continue;
            o.muts.emplace_back("sweep", std::to_string(r.i(8, 24))); o.muts.emplace_back("phase", std::to_string(r.i(0, 997)));
        }
    } else if (prop == "C20") {
        worldBasics(r, p, false);
        p.set("nfeat", (double)r.i(26, 40)); p.hdr.erase("occl"); p.set("depth", 6); p.set("dmin", 2.2);
        p.set("mount", (double)r.i(0, 4)); p.set("tilt", 3.14159);
        if (r.p(0.7)) { p.set("ba", std::round(r.u(0, 0.3) * 100) / 100); p.set("bg", std::round(r.u(0, 0.1) * 100) / 100); p.set("bcfg", 1); }
        p.set("amp", std::round(r.u(0.1, 0.6) * 100) / 100); p.set("ampr", std::round(r.u(0.05, 0.5) * 100) / 100);
        p.set("camdiv", std::max(4.0, std::round(r.u(0.03, 0.06) / p.num("dt", 0.005))));
        p.set("rest", std::round(r.u(0.05, 0.5) * 100) / 100);
        Sched s = transport(r, p, 0);
        s.camStart = r.p(0.3) ? 0 : r.u(0, 4.0);
        s.dur = s.camStart + 0.6;
        if (r.p(0.3)) s.lossF = 0.2;
        p.set("mustinit", 1);
        bool noisy = p.num("spx", 0) > 0;
        p.set("tolv", noisy ? 0.8 : 0.2); p.set("tolp", noisy ? 0.08 : 0.06); p.set("tola", 0.07); p.set("tolatt", 0.07);
        schedule(r, p, s, 0, ev); uptime(r, p, ev, 0.25); emit(p, ev);
    } else if (prop == "C21") {
        worldBasics(r, p, false);
        p.set("dt", 0.01); p.set("camdiv", (double)r.i(5, 10)); p.set("nfeat", (double)r.i(12, 20)); p.set("win", (double)r.i(2, 4));
        p.hdr.erase("occl");
        int mode = (int)r.i(0, 7);
        if (mode == 0) p.set("mono", 1);                                 // initialisation keeps failing
        if (mode == 1) p.set("fewstereo", 1);
        Sched s = transport(r, p, r.u(20, 40) * (thorough ? 3 : 1));
        s.stall.clear();
        if (mode == 2) { s.lossI = 0.02; s.dropP = 0.5; s.dropFrac = 1; s.imuGap = windows(r, 30, 1, s.dur, 0.02, 0.2); }
        if (mode == 3) { s.dropP = 0.3; s.emptyP = 0.2; s.nofP = 0.05; }
        if (mode == 4) { p.set("amp", 0); p.set("ampr", 0); p.set("kfdist", 0.3); p.set("kfmin", 5); p.set("win", (double)r.i(2, 6)); }     // the device stands still
        if (mode >= 6) {                                                  // many short lives
            if (r.p(0.6)) { p.set("amp", 0); p.set("ampr", 0); }
            for (double t = r.u(0.3, 2); t < s.dur; t += r.u(0.2, 1.5)) (mode == 6 ? s.recreates : s.resets).push_back(t);
        }
        if (mode == 5) { for (double t = r.u(1, 8); t < s.dur; t += r.u(1, 8)) s.resets.push_back(t); }
        s.pollMax = -1; s.reordF = r.p(0.3) ? 0.05 : 0;
        schedule(r, p, s, 0, ev); emit(p, ev);
    }
    return p;
}
