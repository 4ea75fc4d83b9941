// The simulated deployment: hand-overs, processing calls and faults of one plan, in order, against real estimators.
//   I b k   hand IMU sample k to estimator b          F b k  hand camera message k
//   R b n   n processing calls (n<0: until the buffer model is empty)
//   X b s   reset (random stream reseeded with s)     N b s  destroy and create again
//   Y b s   reset and configure again
//   W b ms  host wall clock steps by ms               S b n  marker n
//   U b 0   uncertainty sig= is added to the camera calibration
#include "exec.h"
#include "inst.h"
#include <cmath>
#include <csignal>
#include <cstddef>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

std::string g_scratch = "/tmp";
void (*g_afterConfig)(const std::string &dir, int ncam) = nullptr;

static std::string num(double v) { char b[40]; snprintf(b, sizeof b, sizeof(S) == 4 ? "%.9g" : "%.17g", v); return b; }
static void put(const std::string &path, const std::string &text) {
    rmdir(path.c_str());
    FILE *f = fopen(path.c_str(), "w");
    if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) harnessError("cannot write " + path);
    fclose(f);
}
std::string writeConfig(const Plan &p, const World &w) {
    std::string d = g_scratch + "/cfg" + p.str("cfgdir", "");
    mkdir(g_scratch.c_str(), 0700); mkdir(d.c_str(), 0700);
    put(d + "/imu_frequence.txt", num(p.num("freq", 1.0 / w.dt)) + "\n");
    put(d + "/imu_na_ng_nwa_nwg.txt", num(p.num("na", 0.019)) + " " + num(p.num("ng", 0.015)) + " " + num(p.num("nwa", 0.001)) + " " + num(p.num("nwg", 0.0001)) + "\n");
    double k = p.num("bcfg", 0);
    std::string s;
    for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) s += num(k * (r ? w.bg[c] : w.ba[c])) + (c == 2 ? "\n" : " ");
    put(d + "/imu_bias_a_g_init.txt", s);
    put(d + "/gravity_norm.txt", num(p.num("cfggrav", w.gravity)) + "\n");
    for (int c = 0; c < w.ncam; ++c) {
        Qd q = w.q_bc[c]; V3 t = w.p_bc[c];
        double e = p.num("exterr", 0);
        if (e > 0) {
            uint64_t sd = (uint64_t)p.lnum("wseed", 1);
            t += e * V3(hashN(sd, 61, c, 0), hashN(sd, 61, c, 1), hashN(sd, 61, c, 2));
            q = (q * ref::smallRot(e * V3(hashN(sd, 62, c, 0), hashN(sd, 62, c, 1), hashN(sd, 62, c, 2)))).normalized();
        }
        M3 R = q.toRotationMatrix();
        s.clear();
        auto rd = [&](double v) { return p.hdr.count("extdig") ? fmt("%.*f", (int)p.lnum("extdig", 6), v) : num(v); };      // calibrations written by hand
        for (int r = 0; r < 3; ++r) s += rd(R(r, 0)) + " " + rd(R(r, 1)) + " " + rd(R(r, 2)) + " " + num(t[r]) + "\n";
        put(d + "/T_bc" + std::to_string(c) + ".txt", s + "0 0 0 1\n");
    }
    for (int c = w.ncam; c < 10; ++c) { std::string t = d + "/T_bc" + std::to_string(c) + ".txt"; unlink(t.c_str()); rmdir(t.c_str()); }
    put(d + "/window_size.txt", std::to_string(p.lnum("win", 6)) + "\n");
    put(d + "/vision_measure_noise.txt", num(p.num("vn", 0.003)) + "\n");
    put(d + "/keyframe_policy.txt", std::to_string(p.lnum("kfmin", 15)) + " 0.1 " + num(p.num("kfdist", 0.1)) + "\n");
    return d;
}

// ---------------------------------------------------------------------------------------------------------
static void putState(double *o, const E::IMUFullState &s) {
    for (int i = 0; i < 3; ++i) { o[i] = s.p_wb[i]; o[3 + i] = s.v_wb[i]; o[10 + i] = s.bias_a[i]; o[13 + i] = s.bias_g[i]; }
    o[6] = s.q_wb.w(); o[7] = s.q_wb.x(); o[8] = s.q_wb.y(); o[9] = s.q_wb.z();
}
static void observe(E::Backend &be, Obs &o) {
    memset(o.P, 0, sizeof o.P); memset(o.U, 0, sizeof o.U);
    o.tP = o.tU = 0;
    seam::InSut guard;
    o.status = (int)be.status;
    {
        E::IMUFullState s; double t = -12345.0;
        o.hasP = be.PublishPropagateState(s, t);
        if (o.hasP) { putState(o.P, s); o.tP = t; }
    }
    {
        E::IMUFullState s; double t = -12345.0;
        o.hasU = be.PublishUpdateState(s, t);
        if (o.hasU) { putState(o.U, s); o.tU = t; }
    }
}

struct Exec {
    const Plan &p; World w; unsigned mon; const Shared *calibFrom;
    std::map<int, Inst *> inst;
    std::map<std::string, std::shared_ptr<E::IMUMessage>> shI;
    std::map<std::string, std::shared_ptr<E::FeaturesMessage>> shF;
    std::vector<std::pair<std::shared_ptr<E::IMUMessage>, MImu>> keepI;
    std::vector<std::pair<std::shared_ptr<E::FeaturesMessage>, MFeat>> keepF;
    std::string cfg; std::map<int, std::string> cfgs;       // the common configuration; those of single estimators
    long opIdx = 0;
    int sync = 0;
    const bool syncCount = false;
    Exec(const Plan &p_, unsigned m, const Shared *c) : p(p_), w(p_), mon(m), calibFrom(c), syncCount(p_.lnum("synccount", 0) != 0) {}

    Inst &get(int b) {
        auto it = inst.find(b);
        if (it != inst.end()) return *it->second;
        Inst *i = new Inst(p, w, b);
        inst[b] = i;
        i->rs.state = hash64((uint64_t)p.lnum("rseed", 1), (uint64_t)(p.lnum("samerand", 0) ? 0 : b));
        if (p.hdr.count("rinit")) i->rs.state = hash64((uint64_t)p.lnum("rseed", 1), 1000, (uint64_t)p.lnum("rinit", 0));
        i->rs.mode = (int)p.lnum("rmode", 0);
        i->rs.budget = 50000000;
        create(*i);
        return *i;
    }
    void create(Inst &i) {
        seam::InSut guard;
        i.be = new E::Backend();
        seam::g_rand = &i.rs;
        if (!i.be->ConfigParams(cfgs.count(i.b) ? cfgs[i.b] : cfg)) { seam::g_in_sut = false; violation("config", "loading an intact configuration fails"); }
        seam::g_in_sut = false;
        i.restart(true);
    }
    void configureAgain(Inst &i) {
        {
            seam::InSut guard;
            i.be->Reset();
            bool ok = i.be->ConfigParams(cfgs.count(i.b) ? cfgs[i.b] : cfg);
            seam::g_in_sut = false;
            if (!ok) violation("config", "loading an intact configuration again fails");
        }
        i.restart(true);
    }
    void dumpCalib(Inst &i, long key) {
        if (g_out->nCalib >= 256) harnessError("too many calibration records");
        Calib &c = g_out->calib[g_out->nCalib++];
        memset(&c, 0, sizeof c);
        c.op = key; c.b = i.b;
        Snap s = takeSnap(*i.be, 0);
        c.n = (int)s.ext.size();
        for (int k = 0; k < 3; ++k) { c.ba[k] = s.ba[k]; c.bg[k] = s.bg[k]; }
        for (int k = 0; k < c.n && k < 8; ++k) {
            for (int j = 0; j < 3; ++j) c.ext[k][j] = s.ext[k].p[j];
            c.ext[k][3] = s.ext[k].q.w(); c.ext[k][4] = s.ext[k].q.x(); c.ext[k][5] = s.ext[k].q.y(); c.ext[k][6] = s.ext[k].q.z();
        }
    }
    // stand-in for a reset in the reference run: a new estimator with the calibration recorded in the other run
    void freshWithCalib(Inst &i, long seed, long key) {
        const Calib *c = nullptr;
        for (long k = 0; k < calibFrom->nCalib; ++k) if (calibFrom->calib[k].op == key && calibFrom->calib[k].b == i.b) c = &calibFrom->calib[k];
        if (!c) harnessError("no calibration record");
        destroy(i); create(i);
        auto &ext = SimProbe::frm(*i.be).extrinsics;
        for (int k = 0; k < c->n && k < (int)ext.size(); ++k) {
            ext[k].p_bc = E::Vector3((S)c->ext[k][0], (S)c->ext[k][1], (S)c->ext[k][2]);
            ext[k].q_bc = E::Quaternion((S)c->ext[k][3], (S)c->ext[k][4], (S)c->ext[k][5], (S)c->ext[k][6]);
        }
        E::Vector3 ba((S)c->ba[0], (S)c->ba[1], (S)c->ba[2]), bg((S)c->bg[0], (S)c->bg[1], (S)c->bg[2]);
        SimProbe::prop(*i.be).bias_a = ba; SimProbe::prop(*i.be).bias_g = bg;
        SimProbe::att(*i.be).bias_a = ba; SimProbe::att(*i.be).bias_g = bg;
        i.rs.state = hash64((uint64_t)p.lnum("rseed", 1), 1000, (uint64_t)seed);
    }
    // The camera calibration is not as well known as assumed: independent uncertainty is added to every mounting.
    void calibUncertain(Inst &i, double sig) {
        auto &c = SimProbe::prop(*i.be).exCamCov;
        int n = 6 * w.ncam;
        if (i.be->status != E::INITIALIZED || c.rows() < n || c.cols() != c.rows()) return;
        for (int k = 0; k < n; ++k) c(k, k) += (S)(sig * sig);
    }
    void destroy(Inst &i) { { seam::InSut guard; delete i.be; i.be = nullptr; } if (mon & M_C21) i.released(0); }
    void reset(Inst &i, long seed, long key) {
        dumpCalib(i, key);
        { seam::InSut guard; i.be->Reset(); }
        i.restart(false);
        if (mon & M_C21) i.released(1);
        i.rs.state = hash64((uint64_t)p.lnum("rseed", 1), 1000, (uint64_t)seed);
        Obs o; memset(&o, 0, sizeof o);
        observe(*i.be, o);
        if ((mon & M_C05) && (o.hasP || o.hasU || o.status != E::NEED_INIT)) violation("C05:reset", "an estimate is still published right after a reset");
    }

    template <class M> bool handOver(Inst &i, const std::shared_ptr<M> &m, const Op &o, bool &threw);
    template <class M, class Mod> void push(Inst &i, std::shared_ptr<M> m, const Op &o, Mod model, bool wf);
    void record(Inst &i, int ret) {
        if (g_out->nObs >= Shared::MAXOBS) harnessError("too many observations");
        Obs &o = g_out->obs[g_out->nObs++];
        o.b = i.b; o.ret = ret; o.sync = syncCount ? (int)((i.camCount << 16) | i.imuCount) : sync; o.hasP = o.hasU = 0;
        observe(*i.be, o);
        static const bool trace = getenv("VSIM_TRACE") != nullptr;
        if (trace) fprintf(stderr, "op %ld step %ld b%d ret %d status %d tP %.6f tU %.6f buffered %zu window %zu items %zu p %.3f %.3f %.3f v %.3f %.3f %.3f\n", g_out->op, g_out->steps, i.b, o.ret, o.status, o.tP, o.tU, i.ml.buffered(), SimProbe::frm(*i.be).frames.size(), SimProbe::prop(*i.be).items.size(), o.P[0], o.P[1], o.P[2], o.P[3], o.P[4], o.P[5]);
        uint64_t h = hash64(g_out->hash, o.status, o.hasP, o.hasU, i.b);
        for (int k = 0; k < 16; ++k) { uint64_t x, y; memcpy(&x, &o.P[k], 8); memcpy(&y, &o.U[k], 8); h = mix64(h ^ x); h = mix64(h ^ y); }
        uint64_t x; memcpy(&x, &o.tP, 8); g_out->hash = mix64(h ^ x);
    }
    // Lets this processing call run out of memory at many different allocations, each in a fork of the simulation:
    // the exception must come out, and reset, normal operation and destruction must work afterwards.
    Shared *sw = nullptr;
    bool inSweep = false;
    void sweepChild(Inst &i, long at) {
        seam::install_crash_handlers(30);
        bool threw = false;
        seam::g_heap.fail_after = at;
        uint64_t fails = seam::g_heap.failures, a0 = seam::g_heap.allocs;
        try { seam::InSut guard; i.be->RunOnce(); }
        catch (const std::bad_alloc &) { threw = true; }
        catch (...) { seam::g_in_sut = false; violation("exception", "a processing call threw something else than the out-of-memory exception"); }
        seam::g_in_sut = false;
        seam::g_heap.fail_after = -1;
        if (at < 0) { g_out->steps = (long)(seam::g_heap.allocs - a0); g_out->done = 1; _exit(0); }
        bool failed = seam::g_heap.failures > fails;
        if (threw != failed) violation(threw ? "exception" : "oom:swallowed", threw ? "out-of-memory exception without an allocation failure" : "an allocation failure inside a processing call did not surface as the out-of-memory exception");
        g_out->nCalib = g_out->nThrow = g_out->nObs = 0;
        { seam::InSut guard; i.be->Reset(); }
        i.restart(false);
        Obs x; memset(&x, 0, sizeof x);
        observe(*i.be, x);
        if (x.hasP || x.hasU || x.status != E::NEED_INIT) violation("oom:reset", "an estimate is still published after a failed processing call and a reset");
        for (size_t k = (size_t)opIdx + 1; k < p.ops.size() && k < (size_t)opIdx + 60; ++k) {
            Op c = p.ops[k];
            std::vector<std::pair<std::string, std::string>> keep;
            for (auto &m : c.muts) if (m.first != "oom" && m.first != "sweep") keep.push_back(m);
            c.muts = keep;
            op(c);
        }
        for (auto &e : inst) destroy(*e.second);
        g_out->done = 1;
        _exit(0);
    }
    void sweep(Inst &i, const Op &o) {
        if (!sw) {
            sw = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (sw == MAP_FAILED) harnessError("no memory for a sweep");
        }
        long count = 1, n = std::labs((long)o.num("sweep")), phase = (long)o.num("phase");
        bool counted = false;
        for (long k = -1; k < n; ++k) {
            long at = k < 0 ? -1 : (k * count) / n + (phase % std::max(1L, count / n));
            if (counted && at >= count) break;
            memset((void *)sw, 0, offsetof(Shared, obs));
            fflush(stdout);
            pid_t pid = fork();
            if (pid < 0) harnessError("fork failed");
            if (pid == 0) { g_out = sw; mon = M_C05 | M_LOAD; inSweep = true; sweepChild(i, at); }
            int st = 0;
            waitpid(pid, &st, 0);
            if (sw->cls[0]) violation(sw->cls, fmt("%s (allocation %ld of %ld in a processing call failed)", std::string(sw->msg).substr(0, 700).c_str(), at, count));
            if (!sw->done) violation(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? "harness" : "crash:exit", fmt("the process ended unexpectedly after allocation %ld of a processing call failed", at));
            if (k < 0) { count = sw->steps; counted = true; if (count <= 0) return; }
            else ++g_out->fault[FA_OOM];
        }
    }
    void runOnce(Inst &i, const Op &o) {
        RefLoader::Out out;
        bool popped = i.ml.popOne(out);
        if (mon) i.before(mon, popped, out);
        bool oom = o.has("oom"), threw = false; int ret = 0;
        if (popped) { i.camCount += out.hasF; i.imuCount += (long)out.i.size(); }
        seam::g_rand = &i.rs;
        if (o.has("sweep") && !calibFrom && popped && (out.hasF || o.num("sweep") < 0)) sweep(i, o);
        if (oom && !calibFrom) { seam::g_heap.fail_after = (long)o.num("oom"); }
        uint64_t fails = seam::g_heap.failures;
        try {
            seam::InSut guard;
            ret = i.be->RunOnce();
            seam::g_heap.fail_after = -1;
        } catch (const std::bad_alloc &) {
            seam::g_heap.fail_after = -1; seam::g_in_sut = false;
            threw = true;
        } catch (...) {
            seam::g_heap.fail_after = -1; seam::g_in_sut = false;
            violation("exception", "a processing call threw something else than the out-of-memory exception");
        }
        ++g_out->steps;
        if (oom && !calibFrom) {
            if (seam::g_heap.failures > fails) ++g_out->fault[FA_OOM];
            if (threw) {
                if (g_out->nThrow < 512) g_out->throwOp[g_out->nThrow++] = g_out->steps;
                reset(i, o.k + 77, -g_out->steps - 1);
                return;
            }
            if (seam::g_heap.failures > fails) violation("oom:swallowed", "an allocation failure inside a processing call did not surface as the out-of-memory exception");
        } else if (oom) {                      // reference run: the same call failed in the other run
            bool t = false;
            for (long k = 0; k < calibFrom->nThrow; ++k) t |= calibFrom->throwOp[k] == g_out->steps;
            if (t) { freshWithCalib(i, o.k + 77, -g_out->steps - 1); i.restart(false); return; }
        }
        if (threw) violation("exception", "out-of-memory exception without an allocation failure");
        record(i, ret);
        if (mon) i.after(mon, g_out->obs[g_out->nObs - 1]);
        else i.note(g_out->obs[g_out->nObs - 1], popped, out);
    }
    void op(const Op &o) {
        Inst &i = get(o.b);
        seam::g_rand = &i.rs;
        countMuts(o);
        switch (o.kind) {
        case 'I': {
            std::shared_ptr<E::IMUMessage> m;
            std::string key;
            if (o.has("share")) { Op c = o; c.b = 0; key = c.text(); auto it = shI.find(key); if (it != shI.end()) m = it->second; }
            if (!m) m = mkImu(w, o);
            if (!key.empty()) shI[key] = m;
            push(i, m, o, m ? toModel(*m) : MImu(), wellFormed(m));
            break;
        }
        case 'F': {
            std::shared_ptr<E::FeaturesMessage> m;
            std::string key;
            if (o.has("share")) { Op c = o; c.b = 0; key = c.text(); auto it = shF.find(key); if (it != shF.end()) m = it->second; }
            if (!m) m = mkFeat(w, o);
            if (!key.empty()) shF[key] = m;
            push(i, m, o, m ? toModel(*m) : MFeat(), wellFormed(m, w.ncam) && !o.has("mism"));
            break;
        }
        case 'R': {
            long n = o.k < 0 ? (long)i.ml.buffered() : o.k;
            if (o.k < 0) { for (long guard = 0; i.ml.buffered() > 0 && guard < 100000; ++guard) runOnce(i, o); }
            else for (long r = 0; r < n; ++r) runOnce(i, o);
            break;
        }
        case 'X': ++g_out->fault[FA_RESET]; if (calibFrom && !p.lnum("keepreset", 0)) { freshWithCalib(i, o.k, opIdx); i.restart(false); } else reset(i, o.k, opIdx); break;
        case 'N': ++g_out->fault[FA_RECREATE]; destroy(i); create(i); i.rs.state = hash64((uint64_t)p.lnum("rseed", 1), 1000, (uint64_t)o.k); break;
        case 'Y': ++g_out->fault[FA_RESET]; configureAgain(i); i.rs.state = hash64((uint64_t)p.lnum("rseed", 1), 1000, (uint64_t)o.k); break;
        case 'W': ++g_out->fault[FA_WALL]; seam::g_clock.wall += (int64_t)o.k * 1000000LL; seam::g_clock.pass(1000003LL * (std::labs(o.k) % 1000)); break;
        case 'S': sync = (int)o.k; i.marker(mon, (int)o.k); break;
        case 'U': ++g_out->fault[FA_CALUNC]; calibUncertain(i, o.num("sig")); break;
        case 'D': break;        // damage to the configuration directory, applied before the run
        default: harnessError("unknown operation");
        }
    }
};

static bool handCall(E::Backend &be, const std::shared_ptr<E::IMUMessage> &m) { return be.GetIMUMessage(m); }
static bool handCall(E::Backend &be, const std::shared_ptr<E::FeaturesMessage> &m) { return be.GetFeaturesMessage(m); }
static bool modelPush(RefLoader &l, const MImu &m) { return l.pushI(m); }
static bool modelPush(RefLoader &l, const MFeat &m) { return l.pushF(m); }

template <class M> bool Exec::handOver(Inst &i, const std::shared_ptr<M> &m, const Op &o, bool &threw) {
    threw = false;
    bool r = false;
    if (o.has("oom") && !calibFrom) seam::g_heap.fail_after = (long)o.num("oom");
    uint64_t fails = seam::g_heap.failures;
    try {
        seam::InSut guard;
        r = handCall(*i.be, m);
        seam::g_heap.fail_after = -1;
    } catch (const std::bad_alloc &) {
        seam::g_heap.fail_after = -1; seam::g_in_sut = false;
        threw = true;
        if (seam::g_heap.failures == fails) violation("exception", "out-of-memory exception without an allocation failure");
        ++g_out->fault[FA_OOM];
    } catch (...) {
        seam::g_heap.fail_after = -1; seam::g_in_sut = false;
        violation("exception", "a hand-over threw something else than the out-of-memory exception");
    }
    if (!threw && seam::g_heap.failures > fails) violation("oom:swallowed", "an allocation failure inside a hand-over did not surface as the out-of-memory exception");
    return r;
}
template <class M, class Mod> void Exec::push(Inst &i, std::shared_ptr<M> m, const Op &o, Mod model, bool wf) {
    bool threw;
    bool got = handOver(i, m, o, threw);
    if (threw) {                                // the caller tries again with the same message
        Op again = o; again.muts.clear();
        got = handOver(i, m, again, threw);
        if (threw) violation("oom:retry", "the retried hand-over fails without an allocation failure");
    }
    ++g_out->pushes;
    if (m && !same(toModel(*m), model)) violation("modified", "handing a message in modified it");
    bool want = wf && modelPush(i.ml, [&] {
        Mod x = model;
        return x; }());
    ++(want ? g_out->accepted : g_out->refused);
    if (wf && !want) ++g_out->fault[FA_STALE];
    if ((mon & M_LOAD) && got != want)
        violation(wf ? "push:wellformed" : "push:malformed", fmt("hand-over of a %s message returned %s where %s was due", wf ? "well-formed" : "malformed", got ? "accepted" : "refused", want ? "accepted" : "refused"));
    if ((mon & M_C21) && m && !o.has("share")) i.watch(m);
    if constexpr (std::is_same_v<M, E::IMUMessage>) { if (mon & M_UNMOD) keepI.emplace_back(m, model); }
    else { if ((mon & M_UNMOD) && m) keepF.emplace_back(m, model); }
}

void execPlan(const Plan &p, unsigned mon, const Shared *calibFrom) {
    seam::g_heap.fill = (unsigned char)p.lnum("hfill", 0xA5);
    seam::g_heap.pad = (unsigned)p.lnum("hpad", 0);
    seam::heap_shape((unsigned)p.lnum("hshape", 0));
    seam::g_entropy = seam::g_entropy0 = 77 + (uint64_t)p.lnum("rseed", 0) + 7919 * (uint64_t)p.lnum("hshape", 0);
    seam::g_clock.wall = 1700000000LL * 1000000000LL + p.lnum("wall0", 0) * 1000000LL;
    seam::g_clock.mono += p.lnum("mono0", 0); seam::g_clock.cpu += p.lnum("mono0", 0) / 7; seam::g_clock.tick = p.lnum("tick", 0);
    if (p.lnum("hfill", 0xA5) != 0xA5 || p.lnum("hpad", 0)) ++g_out->fault[FA_HEAP];
    if (p.lnum("rmode", 0)) ++g_out->fault[FA_RANDLOW];
    for (int i = 0; i < FA_N; ++i) g_out->fault[i] += p.lnum(std::string("f_") + FAULT_NAMES[i], 0);
    Exec *x = new Exec(p, mon, calibFrom);
    x->cfg = writeConfig(p, x->w);
    for (int b = 0; b < 8; ++b) {
        Plan pb; std::string pre = "b" + std::to_string(b) + ".";
        for (auto &h : p.hdr) if (h.first.compare(0, pre.size(), pre)) pb.hdr.insert(h);
        size_t n = pb.hdr.size();
        if (n == p.hdr.size()) continue;
        for (auto &h : p.hdr) if (!h.first.compare(0, pre.size(), pre)) pb.hdr[h.first.substr(pre.size())] = h.second;
        pb.hdr["cfgdir"] = "_" + std::to_string(b);
        x->cfgs[b] = writeConfig(pb, x->w);
    }
    if (g_afterConfig) g_afterConfig(x->cfg, x->w.ncam);
    for (size_t k = 0; k < p.ops.size(); ++k) {
        x->opIdx = (long)k; g_out->op = (long)k;
        if (p.ops[k].has("skip") && calibFrom) continue;
        x->op(p.ops[k]);
    }
    for (auto &i : x->inst) { i.second->finish(mon); }
    for (auto &k : x->keepI) if (k.first && !same(toModel(*k.first), k.second)) violation("modified", "processing modified a handed-in IMU message");
    for (auto &k : x->keepF) if (!same(toModel(*k.first), k.second)) violation("modified", "processing modified a handed-in camera message");
    for (auto &i : x->inst) x->destroy(*i.second);
    if (g_out->worst[15] < 0) harnessError("?");
}
