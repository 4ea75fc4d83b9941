// vsim: seeded simulation of the estimator.
//   vsim batch PROP FIRST COUNT [thorough] [wall=SECONDS] [calibrate]   one JSON line per run, a summary line at the end
//   vsim replay FILE                                                    one JSON line
//   vsim gen PROP SEED [thorough]                                       the plan of a seed
//   vsim minimise FILE OUT SECONDS                                      smaller plan with the same violation class
#include "arena.h"
#include "gen.h"
#include "inst.h"
#include <alloca.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <unistd.h>

static Shared *g_slot[5];
static long g_execs = 0;

static void onCrash(const char *cls, const char *detail) {
    if (g_out && !g_out->cls[0]) {
        bool sut = strstr(detail, "outside the system") == nullptr;
        snprintf(g_out->cls, sizeof g_out->cls, "%s", sut ? cls : "harness");
        snprintf(g_out->msg, sizeof g_out->msg, "%s: %s", cls, detail);
        g_out->done = 1;
    }
}
static Shared *forkRun(int slot, const std::function<void()> &body) {
    Shared *s = g_slot[slot];
    memset((void *)s, 0, offsetof(Shared, obs));
    ++g_execs;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        g_out = s;
        seam::g_on_crash = onCrash;
        seam::heap_regions();
        seam::install_crash_handlers(30);
        try { body(); }
        catch (const std::exception &e) { violation(seam::g_in_sut ? "exception" : "harness", std::string("uncaught exception: ") + e.what()); }
        catch (...) { violation("exception", "uncaught exception"); }
        s->done = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!s->done && !s->cls[0]) {
        snprintf(s->cls, sizeof s->cls, "%s", WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? "harness" : "crash:exit");
        snprintf(s->msg, sizeof s->msg, "the process ended unexpectedly (status %d)", st);
    }
    return s;
}
static void fail(Shared *s, const std::string &cls, const std::string &msg) {
    if (s->cls[0]) return;
    snprintf(s->cls, sizeof s->cls, "%s", cls.c_str());
    snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
}
static std::string obsText(const Obs &o) {
    if (!o.hasP) return fmt("%s, no estimate", o.status ? "initialised" : "not initialised");
    return fmt("t=%.6f p=[%.6g %.6g %.6g] v=[%.4g %.4g %.4g]", o.tP, o.P[0], o.P[1], o.P[2], o.P[3], o.P[4], o.P[5]);
}
// bitwise comparison of everything published; b < 0: all estimators, otherwise that one in a against all of c
static void compareObs(Shared *a, const Shared *c, int b, long &from, const std::string &cls, const char *what) {
    if (a->cls[0]) return;
    long j = from;
    for (long i = 0; i < c->nObs; ++i, ++j) {
        while (b >= 0 && j < a->nObs && a->obs[j].b != b) ++j;
        if (j >= a->nObs) { fail(a, cls, fmt("%s: %ld estimates fewer", what, c->nObs - i)); return; }
        Obs x = a->obs[j], y = c->obs[i];
        x.sync = y.sync = 0; x.b = y.b = 0;
        if (memcmp(&x, &y, sizeof x)) {
            std::string d;
            if (x.ret != y.ret) d = fmt("return value %d against %d", x.ret, y.ret);
            else d = obsText(x) + "  against  " + obsText(y);
            fail(a, cls, fmt("%s: processing call %ld differs: %s", what, i, d.c_str())); return;
        }
    }
    from = j;
}
static bool keepRun(Shared *a, const Shared *c) {       // a violation in a companion run counts as well
    if (!a->cls[0] && c->cls[0]) { memcpy(a->cls, c->cls, sizeof a->cls); memcpy(a->msg, c->msg, sizeof a->msg); a->op = c->op; }
    return a->cls[0] == 0;
}
static __attribute__((noinline)) void poisonStack(int v) {
    volatile char *p = (volatile char *)alloca(400000);
    for (int i = 0; i < 400000; ++i) p[i] = (char)v;
}
static const Plan *g_cfgPlan;

static Shared *runCase(const Plan &p) {
    const std::string prop = p.str("prop", ""), mode = p.str("mode", "");
    auto run = [](int slot, const Plan &q, unsigned mon, const Shared *cal = nullptr) { return forkRun(slot, [&] { execPlan(q, mon, cal); }); };
    if (mode == "loader") return forkRun(0, [&] { runLoader(p); });
    if (mode == "config") return forkRun(0, [&] { runConfig(p); });
    if (mode == "ransac") return forkRun(0, [&] { runRansac(p); });
    if (mode == "timer") return forkRun(0, [&] { runTimer(p); });
    if (prop == "C01B") return run(0, p, M_LOAD);
    if (prop == "C05") return run(0, p, M_C05);
    if (prop == "C07") return run(0, p, M_C07);
    if (prop == "C08") return run(0, p, M_C08);
    if (prop == "C09") return run(0, p, M_C09);
    if (prop == "C10") return run(0, p, M_C10);
    if (prop == "C11") return run(0, p, M_C11);
    if (prop == "C12") return run(0, p, M_C12);
    if (prop == "C13") return run(0, p, M_C13);
    if (prop == "C20") return run(0, p, M_C20);
    if (prop == "C21") return run(0, p, M_C21);
    if (prop == "C03") {
        World w(p);
        Plan q = p; q.ops.clear();
        for (auto &o : p.ops) {
            if (o.kind == 'I' && !wellFormed(mkImu(w, o))) continue;
            if (o.kind == 'F' && !wellFormed(mkFeat(w, o), w.ncam)) continue;
            Op c = o;
            c.muts.erase(std::remove_if(c.muts.begin(), c.muts.end(), [](auto &m) { return m.first == "empty"; }), c.muts.end());
            q.ops.push_back(c);
        }
        Shared *a = run(0, p, M_LOAD);
        if (a->cls[0]) return a;
        Shared *b = run(1, q, 0);
        long from = 0;
        if (keepRun(a, b)) compareObs(a, b, -1, from, "C03:trace", "against a run without the malformed messages");
        if (!a->cls[0] && a->nObs != b->nObs) fail(a, "C03:trace", "the malformed messages caused additional processing");
        return a;
    }
    if (prop == "C04B") {
        g_cfgPlan = &p;
        auto both = [&](int slot, bool clean) { return forkRun(slot, [&] {
            g_afterConfig = clean ? [](const std::string &d, int n) { damageConfig(*g_cfgPlan, d, n); writeExpectedConfig(*g_cfgPlan, d, n); }
                                  : [](const std::string &d, int n) { damageConfig(*g_cfgPlan, d, n); };
            execPlan(*g_cfgPlan, 0, nullptr); }); };
        Shared *a = both(0, false);
        if (a->cls[0]) return a;
        Shared *b = both(1, true);
        long from = 0;
        if (keepRun(a, b)) compareObs(a, b, -1, from, "C04:behaviour", "against a run on an intact configuration with the same values");
        return a;
    }
    if (prop == "C06") {
        Plan d = p; d.set("synccount", 1);
        Shared *a = run(0, d, 0);
        if (a->cls[0]) return a;
        // the same messages without any delay: every camera message right after the IMU sample past it
        World w(p);
        std::vector<long> is; std::set<long> fs; double lastT = -1e300;
        std::map<long, Op> fop;
        for (auto &o : p.ops) {
            if (o.kind == 'I' && w.imuTime(o.k) > lastT) { is.push_back(o.k); lastT = w.imuTime(o.k); }
            if (o.kind == 'F' && (fs.empty() || o.k > *fs.rbegin())) { fs.insert(o.k); fop[o.k] = o; }
        }
        Plan q = d; q.ops.clear();
        auto f = fs.begin();
        Op r; r.kind = 'R'; r.k = -1;
        // the time origin is that of the first message handed over
        for (long k : is) {
            Op o; o.kind = 'I'; o.k = k; q.ops.push_back(o);
            // (processing waits for the sample past a pending camera message, as the property presupposes)
            bool pending = f != fs.end() && w.camTime(*f) >= w.imuTime(k);
            (void)pending;
            while (f != fs.end() && w.camTime(*f) < w.imuTime(k)) { q.ops.push_back(fop[*f]); ++f; }
            q.ops.push_back(r);
        }
        Shared *b = run(1, q, 0);
        if (!keepRun(a, b)) return a;
        // compare wherever both have processed the same messages
        std::map<int, long> at;
        long stopB = b->nObs;
        bool init = false;
        for (long i = 0; i < b->nObs; ++i) { bool in = b->obs[i].status != 0; if (init && !in) { stopB = i; break; } init |= in; at[b->obs[i].sync] = i; }
        init = false;
        double tol = p.num("tol6", 1e-5);
        for (long i = 0; i < a->nObs; ++i) {
            const Obs &x = a->obs[i];
            if (init && x.status == 0) break;
            init |= x.status != 0;
            auto it = at.find(x.sync);
            if (it == at.end()) continue;
            const Obs &y = b->obs[it->second];
            ++a->checks;
            if (x.status != y.status) { fail(a, "C06:status", fmt("after the same messages (camera %d, IMU %d) one is initialised and the other is not: %s / %s", x.sync >> 16, x.sync & 65535, obsText(x).c_str(), obsText(y).c_str())); return a; }
            if (!x.status) continue;
            ++a->checksB;
            if (std::fabs(x.tP - y.tP) > 1e-9 || std::fabs(x.tU - y.tU) > 1e-9) { fail(a, "C06:time", fmt("after the same messages the estimates carry times %.9f/%.9f and %.9f/%.9f", x.tP, x.tU, y.tP, y.tU)); return a; }
            double e = 0;
            for (int k = 0; k < 16; ++k) {
                double s = 1 + std::fabs(y.P[k]);
                double sp = 1, su = 1;
                if (k >= 6 && k < 10) {         // q and -q are the same attitude
                    double dp = 0, du = 0; for (int j = 6; j < 10; ++j) { dp += x.P[j] * y.P[j]; du += x.U[j] * y.U[j]; }
                    if (dp < 0) sp = -1;
                    if (du < 0) su = -1;
                }
                e = std::max(e, std::max(std::fabs(x.P[k] - sp * y.P[k]), std::fabs(x.U[k] - su * y.U[k])) / s);
                if (!(std::isfinite(x.P[k]) && std::isfinite(y.P[k]))) e = INFINITY;
            }
            a->worst[0] = std::max(a->worst[0], e);
            if (!(e <= tol)) { fail(a, "C06:estimate", fmt("after the same messages (camera %d, IMU %d) the estimates differ by %.3g: delayed %s; undelayed %s", x.sync >> 16, x.sync & 65535, e, obsText(x).c_str(), obsText(y).c_str())); return a; }
        }
        return a;
    }
    if (prop == "C13R") {
        Shared *a = run(0, p, 0);
        if (a->cls[0]) return a;
        Shared *b = run(1, p, 0, a);
        long from = 0;
        if (keepRun(a, b)) compareObs(a, b, -1, from, "C13:reset", "reset against a newly created estimator");
        return a;
    }
    if (prop == "C14") {
        Shared *a = run(0, p, M_UNMOD);
        if (a->cls[0]) return a;
        long n = p.lnum("nbackends", 2);
        for (long b = 0; b < n && !a->cls[0]; ++b) {
            std::vector<Plan> segs; Plan q = p; q.ops.clear();
            for (auto &o : p.ops) {
                if (o.b != b) continue;
                if (o.kind == 'N' || o.kind == 'Y') { segs.push_back(q); q.ops.clear(); q.hdr["rinit"] = std::to_string(o.k); continue; }
                q.ops.push_back(o);
            }
            segs.push_back(q);
            long from = 0;
            for (size_t s = 0; s < segs.size() && !a->cls[0]; ++s) {
                if (segs[s].ops.empty()) continue;
                Shared *c = run(1, segs[s], 0);
                if (keepRun(a, c)) compareObs(a, c, (int)b, from, "C14:influence", fmt("estimator %ld, life %zu, against the same estimator alone in a fresh process", b, s).c_str());
            }
        }
        return a;
    }
    if (prop == "C15") {
        Shared *a = run(0, p, M_C05 | M_UNMOD);
        if (a->cls[0]) return a;
        Plan q = p; q.set("t0", p.num("t0", 0) + p.num("shift", 0)); q.set("wall0", 86400000.0 * 365); q.set("mono0", 1e12 + 77); q.set("tick", 1009);
        q.ops.erase(std::remove_if(q.ops.begin(), q.ops.end(), [](const Op &o) { return o.kind == 'W'; }), q.ops.end());
        Shared *b = run(1, q, M_C05 | M_UNMOD);
        ++a->fault[FA_SHIFT];
        long from = 0;
        if (keepRun(a, b)) compareObs(a, b, -1, from, "C15:shift", "against a run with all time stamps shifted");
        return a;
    }
    if (prop == "C16") {
        Shared *a = run(0, p, 0);
        if (a->cls[0]) return a;
        struct V { int fill, pad; double wall; int stack; const char *tz; } vs[] = {{0x00, 0, 0, 0, "UTC"}, {0x7F, 48, 1e9, 0x7F, "Asia/Tokyo"}, {0xFF, 16, -1e12, 0xFF, "x"}, {0x3F, 4096, 5e10, 0x3F, ""}};
        for (auto &v : vs) {
            Plan q = p; q.set("hfill", v.fill); q.set("hpad", v.pad); q.set("hshape", (double)(1 + (&v - vs))); q.set("wall0", v.wall); q.set("mono0", 1e9 * v.fill + 12345); q.set("tick", 1 + 337 * v.fill); q.set("cfgdir", v.fill % 7);
            Shared *b = forkRun(1, [&] { setenv("TZ", v.tz, 1); setenv("HOME", v.tz, 1); poisonStack(v.stack); execPlan(q, 0, nullptr); });
            ++a->fault[FA_HEAP];
            long from = 0;
            if (keepRun(a, b)) compareObs(a, b, -1, from, "C16:differs", fmt("against a run with heap pattern %#x, block padding %d, host time shifted", v.fill, v.pad).c_str());
            if (a->cls[0]) break;
        }
        return a;
    }
    if (prop == "C18") {
        Shared *a = run(0, p, 0);
        if (a->cls[0]) return a;
        Shared *b = run(1, p, 0, a);
        long from = 0;
        if (keepRun(a, b)) compareObs(a, b, -1, from, "C18:recovery", "against a run without allocation failures (fresh estimators instead of resets)");
        return a;
    }
    Shared *a = g_slot[0]; memset((void *)a, 0, offsetof(Shared, obs)); fail(a, "harness", "unknown property " + prop);
    return a;
}
static Plan planOf(const std::string &prop, uint64_t seed, bool thorough) {
    if (prop == "C01") return seed % 3 == 0 ? generate("C01B", seed, thorough) : genArena("C01", seed, thorough);
    if (prop == "C02" || prop == "C17" || prop == "C19") return genArena(prop, seed, thorough);
    if (prop == "C04") return seed % 3 == 0 ? genArena("C04B", seed, thorough) : genArena("C04", seed, thorough);
    if (prop == "C13") return seed % 2 ? generate("C13", seed, thorough) : generate("C13R", seed, thorough);
    return generate(prop, seed, thorough);
}
// ---------------------------------------------------------------------------------------------------------
static std::string jstr(const char *s) {
    std::string r = "\"";
    for (; *s; ++s) { if (*s == '"' || *s == '\\') { r += '\\'; r += *s; } else if ((unsigned char)*s < 32) r += ' '; else r += *s; }
    return r + "\"";
}
static void report(FILE *f, uint64_t seed, const Shared *s, bool states) {
    fprintf(f, "{\"seed\":%lu,\"cls\":%s,\"msg\":%s,\"op\":%ld,\"hash\":\"%016lx\",\"steps\":%ld,\"pushes\":%ld,\"accepted\":%ld,\"refused\":%ld,\"inits\":%ld,\"updates\":%ld,\"failures\":%ld,\"imu\":%ld,\"cam\":%ld,\"checks\":%ld,\"checksB\":%ld,\"checksC\":%ld,\"sim\":%.6f,\"nobs\":%ld,\"throws\":%ld",
        seed, jstr(s->cls).c_str(), jstr(s->msg).c_str(), s->op, s->hash ^ hash64(s->steps, s->pushes, s->nObs, s->checks), s->steps, s->pushes, s->accepted, s->refused, s->inits, s->updates, s->updFails, s->imuSteps, s->camSteps, s->checks, s->checksB, s->checksC, s->simTime, s->nObs, s->nThrow);
    fprintf(f, ",\"worst\":[");
    for (int i = 0; i < 8; ++i) fprintf(f, "%s%.6g", i ? "," : "", std::isfinite(s->worst[i]) ? s->worst[i] : 1e308);
    fprintf(f, "],\"faults\":{");
    bool first = true;
    for (int i = 0; i < FA_N; ++i) if (s->fault[i]) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", FAULT_NAMES[i], s->fault[i]); first = false; }
    fprintf(f, "}");
    if (states) { fprintf(f, ",\"states\":["); for (long i = 0; i < s->nState; ++i) fprintf(f, "%s\"%lx\"", i ? "," : "", s->states[i]); fprintf(f, "]"); }
    fprintf(f, "}\n");
    fflush(f);
}
static Plan readPlan(const char *path) {
    std::ifstream in(path);
    if (!in) { fprintf(stderr, "cannot read %s\n", path); exit(2); }
    std::stringstream ss; ss << in.rdbuf();
    return Plan::parse(ss.str());
}
static Plan minimise(Plan p, const std::string &cls, double until) {
    auto fails = [&](const Plan &q) { Shared *s = runCase(q); return cls == s->cls; };
    // drop everything after the violating operation first
    Shared *s = runCase(p);
    if (s->op + 1 < (long)p.ops.size()) { Plan q = p; q.ops.resize((size_t)s->op + 1); if (fails(q)) p = q; }
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1 && seam::real_now() < until;) {
        bool any = false;
        for (size_t i = 0; i < p.ops.size() && seam::real_now() < until;) {
            Plan q = p;
            q.ops.erase(q.ops.begin() + (long)i, q.ops.begin() + (long)std::min(p.ops.size(), i + chunk));
            if (fails(q)) { p = q; any = true; } else i += chunk;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > 1) chunk = std::max<size_t>(1, chunk / 2);
    }
    // drop fault annotations that do not matter
    for (size_t i = 0; i < p.ops.size() && seam::real_now() < until; ++i)
        for (size_t m = 0; m < p.ops[i].muts.size() && p.str("mode", "").empty();) {
            Plan q = p; q.ops[i].muts.erase(q.ops[i].muts.begin() + (long)m);
            if (fails(q)) p = q; else ++m;
            if (seam::real_now() > until) break;
        }
    for (auto it = p.hdr.begin(); it != p.hdr.end();) {       // fault counters of the generator no longer apply
        if (it->first.compare(0, 2, "f_") == 0) it = p.hdr.erase(it); else ++it;
    }
    return p;
}

int main(int argc, char **argv) {
    std::cout.setstate(std::ios::badbit);
    int pers = personality(0xffffffff);             // stack and library addresses as well, where the sandbox allows it
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    std::string cmd = argc > 1 ? argv[1] : "";
    for (auto &s : g_slot) {
        s = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (s == MAP_FAILED) { perror("mmap"); return 2; }
    }
    g_out = g_slot[4];
    const char *t = getenv("VSIM_SCRATCH");
    g_scratch = t ? t : fmt("/tmp/vsim.%d", (int)getpid());
    if (cmd == "batch" && argc >= 5) {
        std::string prop = argv[2]; uint64_t first = strtoull(argv[3], nullptr, 10); long count = atol(argv[4]);
        bool thorough = false; double wall = 1e9;
        for (int i = 5; i < argc; ++i) { std::string a = argv[i]; if (a == "thorough") thorough = true; else if (a == "calibrate") g_calibrate = true; else if (a.compare(0, 5, "wall=") == 0) wall = atof(a.c_str() + 5); }
        double start = seam::real_now();
        std::set<uint64_t> states; long done = 0, bad = 0;
        for (long i = 0; i < count; ++i) {
            if (seam::real_now() - start > wall) break;
            Plan p = planOf(prop, first + (uint64_t)i, thorough);
            Shared *s = runCase(p);
            for (long k = 0; k < s->nState; ++k) states.insert(s->states[k]);
            report(stdout, first + (uint64_t)i, s, false);
            ++done;
            if (s->cls[0] && ++bad >= 1) break;
        }
        printf("{\"summary\":1,\"runs\":%ld,\"executions\":%ld,\"seconds\":%.3f,\"states\":[", done, g_execs, seam::real_now() - start);
        bool f = true; for (auto h : states) { printf("%s\"%lx\"", f ? "" : ",", h); f = false; }
        printf("]}\n");
        return 0;
    }
    if (cmd == "replay" && argc >= 3) { Plan p = readPlan(argv[2]); Shared *s = runCase(p); report(stdout, strtoull(p.str("seed", "0").c_str(), nullptr, 10), s, false); return 0; }
    if (cmd == "gen" && argc >= 4) { fputs(planOf(argv[2], strtoull(argv[3], nullptr, 10), argc > 4).text().c_str(), stdout); return 0; }
    if (cmd == "minimise" && argc >= 5) {
        Plan p = readPlan(argv[2]); Shared *s = runCase(p);
        if (!s->cls[0]) return 4;
        std::string cls = s->cls;
        Plan q = minimise(p, cls, seam::real_now() + atof(argv[4]));
        std::ofstream(argv[3]) << q.text();
        return 0;
    }
    fprintf(stderr, "usage: vsim batch|replay|gen|minimise ...\n");
    return 2;
}
