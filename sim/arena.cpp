#include "arena.h"
#include "gen.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

static Op mk(char kind, int b, long k) { Op o; o.kind = kind; o.b = b; o.k = k; return o; }
static void worst(int i, double v) { if (v > g_out->worst[i] || v != v) g_out->worst[i] = v; }
static void mixHash(double v) { uint64_t x; memcpy(&x, &v, 8); g_out->hash = mix64(g_out->hash ^ x); }

// ======================================================================================== message buffer
// i b k t=..   hand over IMU message k   f b k t=..  hand over camera message k   (share: object of the same k; scribble: the caller reuses the object)
// o b n        n ordered pops            q b n       n packed pops                c b 0   clear
struct LoaderUnit { E::DataLoader *d = nullptr; RefLoader m; };
static std::shared_ptr<E::IMUMessage> arenaImu(const Op &o, uint64_t seed) {
    if (o.has("null")) return nullptr;
    auto m = std::make_shared<E::IMUMessage>();
    for (int i = 0; i < 3; ++i) { m->accel[i] = (S)(hashU(seed, 1, o.k, i) * 20 - 10); m->gyro[i] = (S)(hashU(seed, 2, o.k, i) * 6 - 3); }
    if (o.has("huge")) (o.k & 1 ? m->accel : m->gyro)[o.k % 3] = (S)o.num("huge");
    m->timeStamp = o.num("t");
    if (o.has("tx")) m->timeStamp = o.get("tx")[0] == 'n' ? NAN : INFINITY;
    if (o.has("nx")) (o.k & 1 ? m->accel : m->gyro)[o.k % 3] = (S)(o.get("nx")[0] == 'n' ? NAN : INFINITY);
    return m;
}
static std::shared_ptr<E::FeaturesMessage> arenaFeat(const Op &o, uint64_t seed) {
    if (o.has("null")) return nullptr;
    auto m = std::make_shared<E::FeaturesMessage>();
    m->timeStamp = o.num("t");
    long n = (long)(hash64(seed, 3, o.k) % 6);
    for (long i = 0; i < n; ++i) {
        auto ob = std::make_shared<E::FeatureObserve>();
        for (uint32_t c = 0; c < 3; ++c) if (hash64(seed, 4, o.k, i, c) & 1) ob->norms[c] = E::Vector2((S)((hashU(seed, 5, o.k, i, c) - 0.5) * (o.has("huge") ? o.num("huge") : 1)), (S)(hashU(seed, 6, o.k, i, c) - 0.5));
        m->ids.push_back((uint32_t)(hash64(seed, 7, i, o.k / 4) % 1000 * 8 + (uint64_t)i)); m->observes.push_back(ob); m->flag.push_back((uint8_t)i);
    }
    if (o.has("tx")) m->timeStamp = o.get("tx")[0] == 'n' ? NAN : INFINITY;
    if (o.has("mism")) m->ids.push_back(99999);
    if (o.has("nullobs")) { m->ids.push_back(99998); m->observes.push_back(nullptr); m->flag.push_back(0); }
    if (o.has("dupid")) for (int i = 0; i < 2; ++i) { m->ids.push_back(99997); m->observes.push_back(std::make_shared<E::FeatureObserve>()); m->flag.push_back(0); }
    if (o.k & 1) return std::make_shared<E::FeaturesMessage>(m->ids, m->observes, m->flag, m->timeStamp);
    return m;
}
static void scribble(E::IMUMessage &m) { m.accel.setConstant(S(77)); m.gyro.setConstant(S(-77)); m.timeStamp += 1000; }
static void scribble(E::FeaturesMessage &m) {
    for (auto &ob : m.observes) if (ob) { for (auto &n : ob->norms) n.second.setConstant(S(55)); ob->norms[7] = E::Vector2(S(1), S(1)); }
    for (auto &i : m.ids) i += 12345;
    m.timeStamp += 1000;
}
static std::string show(const RefLoader::Out &o) { return fmt("%s and %zu IMU samples%s", o.hasF ? fmt("camera message of %.9f", o.f.t).c_str() : "no camera message", o.i.size(), o.i.empty() ? "" : fmt(" [%.9f .. %.9f]", o.i.front().t, o.i.back().t).c_str()); }

void runLoader(const Plan &p) {
    uint64_t seed = (uint64_t)p.lnum("wseed", 1);
    const bool packedProp = p.str("prop", "") == "C02";
    const std::string P = packedProp ? "C02:" : "C01:";
    std::map<int, LoaderUnit> units;
    std::map<long, std::shared_ptr<E::IMUMessage>> shI; std::map<long, std::shared_ptr<E::FeaturesMessage>> shF;
    struct Delivered { std::shared_ptr<E::IMUMessage> i; std::shared_ptr<E::FeaturesMessage> f; MImu mi; MFeat mf; };
    std::vector<Delivered> given;
    std::map<int, std::shared_ptr<E::CombinedMessage>> keep;
    for (size_t k = 0; k < p.ops.size(); ++k) {
        const Op &o = p.ops[k]; g_out->op = (long)k;
        countMuts(o);
        LoaderUnit &u = units[o.b];
        if (!u.d) { seam::InSut g; u.d = new E::DataLoader(); u.d->imuPeriod = p.num("period", 0.005); seam::g_in_sut = false; u.m = RefLoader(p.num("period", 0.005)); }
        if (o.kind == 'i' || o.kind == 'f') {
            bool got, want;
            if (o.kind == 'i') {
                std::shared_ptr<E::IMUMessage> m;
                if (o.has("share") && shI.count(o.k)) m = shI[o.k]; else m = arenaImu(o, seed);
                if (o.has("share")) shI[o.k] = m;
                bool wf = wellFormed(m); MImu model = m ? toModel(*m) : MImu();
                { seam::InSut g; got = u.d->PushIMUMessage(m); }
                if (m && !same(toModel(*m), model)) violation(P + "modified", "handing an IMU message in modified it");
                want = wf && u.m.pushI(model);
                if (wf && !want) ++g_out->fault[FA_STALE];
                if (m && o.has("scribble")) scribble(*m);
            } else {
                std::shared_ptr<E::FeaturesMessage> m;
                if (o.has("share") && shF.count(o.k)) m = shF[o.k]; else m = arenaFeat(o, seed);
                if (o.has("share")) shF[o.k] = m;
                bool wf = wellFormed(m, -1) && !o.has("mism"); MFeat model = m ? toModel(*m) : MFeat();
                { seam::InSut g; got = u.d->PushFeaturesMessage(m); }
                if (m && !same(toModel(*m), model)) violation(P + "modified", "handing a camera message in modified it");
                want = wf && u.m.pushF(model);
                if (wf && !want) ++g_out->fault[FA_STALE];
                if (m && o.has("scribble")) scribble(*m);
            }
            ++g_out->pushes; ++g_out->checks;
            ++(want ? g_out->accepted : g_out->refused);
            if (got != want) violation(P + "accept", fmt("hand-over number %zu was %s, it had to be %s", k, got ? "accepted" : "refused", want ? "accepted" : "refused"));
        } else if (o.kind == 'c') { { seam::InSut g; u.d->Clear(); } u.m.clear(); ++g_out->fault[FA_RESET]; }
        else if (o.kind == 'z') { { seam::InSut g; delete u.d; u.d = new E::DataLoader(); u.d->imuPeriod = p.num("period", 0.005); } u.m.clear(); ++g_out->fault[FA_RECREATE]; }
        else if (o.kind == 'o' || o.kind == 'q') {
            long n = o.k < 0 ? (long)u.m.buffered() + 1 : o.k;
            for (long r = 0; r < n; ++r) {
                RefLoader::Out want; bool interp = false, got, exp;
                std::shared_ptr<E::CombinedMessage> out = o.has("keepout") ? keep[o.b] : nullptr;
                exp = o.kind == 'o' ? u.m.popOne(want) : u.m.popPacked(want, interp);
                { seam::InSut g; got = o.kind == 'o' ? u.d->PopOneMessage(out) : u.d->PopPackedMessage(out); }
                keep[o.b] = out;
                ++g_out->steps; ++g_out->checks;
                if (got != exp) violation(P + "pop", fmt("pop number %zu %s, it had to %s (%s)", k, got ? "succeeded" : "failed", exp ? "succeed" : "fail", exp ? show(want).c_str() : "nothing to deliver"));
                if (!got) {
                    if (out && (out->featMeas || !out->imuMeas.empty())) violation(P + "stale", fmt("pop number %zu failed and left measurements in its output", k));
                    g_out->hash = mix64(g_out->hash ^ 3); continue;
                }
                if (!out) violation(P + "null", "a pop reported success without any output");
                bool hasF = out->featMeas != nullptr;
                if (hasF != want.hasF) violation(P + "content", fmt("delivered %s camera message where %s was due", hasF ? "a" : "no", show(want).c_str()));
                if (hasF) {
                    MFeat mf = toModel(*out->featMeas);
                    if (mf.t != want.f.t) violation(P + "order", fmt("delivered the camera message of %.9f where that of %.9f was due", mf.t, want.f.t));
                    if (!same(mf, want.f)) violation(P + "content", fmt("the camera message of %.9f was delivered with other content than was handed over", mf.t));
                    given.push_back({nullptr, out->featMeas, MImu(), mf});
                    ++g_out->camSteps;
                }
                if (out->imuMeas.size() != want.i.size()) violation(P + "bundle", fmt("delivered %zu IMU samples where %s were due", out->imuMeas.size(), show(want).c_str()));
                for (size_t j = 0; j < want.i.size(); ++j) {
                    if (!out->imuMeas[j]) violation(P + "content", "a delivered IMU sample is absent");
                    MImu mi = toModel(*out->imuMeas[j]);
                    bool last = interp && j + 1 == want.i.size();
                    if (mi.t != want.i[j].t) violation(P + "order", fmt("delivered the IMU sample of %.9f where that of %.9f was due", mi.t, want.i[j].t));
                    if (last) {
                        double e = std::max((mi.a - want.i[j].a).cwiseAbs().maxCoeff(), (mi.g - want.i[j].g).cwiseAbs().maxCoeff());
                        worst(0, e); ++g_out->checksB;
                        if (!(e < 1e-4)) violation(P + "interpolation", fmt("the interpolated sample of %.9f is off by %.3g", mi.t, e));
                        // the reference continues with what was delivered: it is the boundary sample of the next pack
                        u.m.I.front() = mi;
                    } else if (!same(mi, want.i[j])) violation(P + "content", fmt("the IMU sample of %.9f was delivered with other values than were handed over", mi.t));
                    given.push_back({out->imuMeas[j], nullptr, mi, MFeat()});
                    mixHash(mi.a[0]); mixHash(mi.t);
                    ++g_out->imuSteps;
                    g_out->simTime = std::max(g_out->simTime, mi.t);
                }
                addState(hash64(o.kind, want.hasF, std::min<size_t>(want.i.size(), 12), interp, (std::min<size_t>(u.m.I.size(), 15) << 4) + std::min<size_t>(u.m.F.size(), 15)));
            }
        } else harnessError("unknown loader operation");
    }
    for (auto &g : given) {
        if (g.i && !same(toModel(*g.i), g.mi)) violation(P + "mutated", "an IMU sample changed after it was delivered");
        if (g.f && !same(toModel(*g.f), g.mf)) violation(P + "mutated", "a camera message changed after it was delivered");
    }
}
static Plan genLoader(const std::string &prop, uint64_t seed, bool thorough) {
    Rng r(hash64(seed, 99, std::hash<std::string>()(prop)));
    Plan p; p.hdr["prop"] = prop; p.hdr["seed"] = std::to_string(seed); p.hdr["mode"] = "loader";
    p.set("wseed", (double)r.i(1, 1000000000));
    const double u = 1.0 / 1024;
    long per = r.i(2, 8); p.set("period", per * u);
    bool packed = prop == "C02";
    int nb = r.p(0.5) ? 1 : 2;
    double t0s[] = {0, 0, -64, 1024.5, 65536, 1048576};
    double base = packed ? r.pick(t0s) : (r.p(0.15) ? 1403636480.0 : r.pick(t0s));
    double tI[3], tF[3], lastI[3];
    for (int b = 0; b < 3; ++b) { tI[b] = tF[b] = base + (r.p(0.3) ? r.i(-40, 40) * u : 0); lastI[b] = tI[b]; }
    long n = r.i(10, thorough ? 500 : 160), ids = 1;
    double wI = r.u(2, 12), wF = r.u(0.3, 4), wP = r.u(0.2, 5), wC = r.p(0.3) ? 0.05 : 0, wBad = r.p(0.5) ? r.u(0, 1.0) : 0, wStale = r.p(0.6) ? r.u(0, 1.5) : 0;
    double W = wI + wF + wP + wC + wBad + wStale;
    long burst = r.p(0.3) ? r.i(2, 20) : 1;
    Rng rr(hash64(seed, 98, std::hash<std::string>()(prop)));
    // long stretches without any pop (a stalled consumer), and leaps of the sensors' clock (a suspended device): histories with thousands of
    // buffered messages and with stamps far from the first one
    bool backlog = rr.p(0.12), leaps = rr.p(0.25), late = rr.p(0.15);      // late: camera messages arrive ever further behind the IMU
    long nBack = backlog ? (long)std::pow(10.0, rr.u(2, thorough ? 4 : 3.6)) : 0, atBack = rr.i(0, n - 1);
    for (long k = 0; k < n; ++k) {
        int b = (int)r.i(0, nb - 1);
        double x = r.u() * W;
        Op o;
        if (leaps && rr.p(0.02)) { double j = std::ldexp(1.0, (int)rr.i(3, 20)); for (int q = 0; q < 3; ++q) { tI[q] += j; tF[q] += j; lastI[q] += j; } }
        if (backlog && k == atBack) {
            double fps = rr.p(0.3) ? 1 : rr.u(0.02, 0.3); 
            for (long q = 0; q < nBack; ++q) {
                tI[b] += (rr.p(0.9) ? per : rr.i(1, 3 * per)) * u; lastI[b] = tI[b];
                o = mk('i', b, ids++); o.muts.emplace_back("t", dstr(tI[b])); p.ops.push_back(o);
                if (rr.p(fps)) { double t = rr.p(0.3) ? tI[b] : tI[b] - rr.i(-per, per) * u; if (t > tF[b]) { tF[b] = t; o = mk('f', b, ids++); o.muts.emplace_back("t", dstr(t)); p.ops.push_back(o); } }
            }
            continue;
        }
        if ((x -= wI) < 0) {
            for (long q = r.i(1, burst); q > 0; --q) {
                long step = r.p(0.7) ? per : r.i(1, 3 * per);
                tI[b] += step * u; lastI[b] = tI[b];
                o = mk('i', b, ids++); o.muts.emplace_back("t", dstr(tI[b]));
                if (nb > 1 && r.p(0.2)) { o.muts.emplace_back("share", ""); p.ops.push_back(o); o.b = 1 - b; if (tI[1 - b] < tI[b]) tI[1 - b] = tI[b]; }
                else if (r.p(0.15)) o.muts.emplace_back("scribble", "");
                p.ops.push_back(o);
            }
            continue;
        } else if ((x -= wF) < 0) {
            double t = tF[b] + r.i(1, 8 * per) * u;
            double c = late ? 1 : r.u();
            if (c < 0.25) t = lastI[b]; else if (c < 0.4) t = lastI[b] + per * u; else if (c < 0.5) t = lastI[b] - per * u; else if (c < 0.6) t = lastI[b] - (per - 1) * u; else if (c < 0.65) t = lastI[b] + r.i(1, 30) * u;
            if (packed && r.p(0.35)) t += (r.p(0.5) ? 1.0 / 4194304 : r.p(0.5) ? 1.0 / 2097152 : 1.0 / 262144);
            if (t > tF[b]) tF[b] = t; else if (r.p(0.7)) { tF[b] += r.i(1, 3 * per) * u; t = tF[b]; }
            o = mk('f', b, ids++); o.muts.emplace_back("t", dstr(t));
            if (nb > 1 && r.p(0.2)) { o.muts.emplace_back("share", ""); p.ops.push_back(o); o.b = 1 - b; if (tF[1 - b] < t) tF[1 - b] = t; }
            else if (r.p(0.2)) o.muts.emplace_back("scribble", "");
        } else if ((x -= wP) < 0) {
            o = mk(packed ? 'q' : 'o', b, r.p(0.1) ? -1 : r.i(1, 1 + burst));
            if (r.p(0.3)) o.muts.emplace_back("keepout", "");
        } else if ((x -= wC) < 0) o = mk(r.p(0.6) ? 'c' : 'z', b, 0);
        else if ((x -= wBad) < 0) {
            o = mk(r.p(0.5) ? 'i' : 'f', b, ids++);
            o.muts.emplace_back("t", dstr((o.kind == 'i' ? tI[b] : tF[b]) + r.i(-20, 20) * u));
            long q = r.i(0, o.kind == 'i' ? 2 : 4);
            if (q == 0) o.muts.emplace_back("null", ""); else if (q == 1) o.muts.emplace_back("tx", r.p(0.5) ? "nan" : "inf");
            else if (o.kind == 'i') o.muts.emplace_back("nx", r.p(0.5) ? "nan" : "inf");
            else o.muts.emplace_back(q == 2 ? "mism" : q == 3 ? "nullobs" : "dupid", "");
        } else {
            bool im = r.p(0.5);
            o = mk(im ? 'i' : 'f', b, ids++);
            o.muts.emplace_back("t", dstr((im ? tI[b] : tF[b]) - (r.p(0.4) ? 0 : r.i(1, 10 * per) * u)));
            o.muts.emplace_back("dup", "");
        }
        p.ops.push_back(o);
    }
    for (int b = 0; b < nb; ++b) { p.ops.push_back(mk(packed ? 'q' : 'o', b, -1)); if (rr.p(0.5)) p.ops.back().muts.emplace_back("keepout", ""); }
    // finite but absurd values are none of the buffer's business
    if (!packed && rr.p(0.3)) for (auto &o : p.ops) if ((o.kind == 'i' || o.kind == 'f') && rr.p(0.05)) o.muts.emplace_back("huge", dstr(std::pow(10.0, rr.i(2, 37)) * (rr.p(0.5) ? 1 : -1)));
    return p;
}

// ======================================================================================== configuration
static const char *const CFG_FILES[] = {"imu_frequence", "imu_na_ng_nwa_nwg", "imu_bias_a_g_init", "gravity_norm", "window_size", "vision_measure_noise", "keyframe_policy"};
static const int CFG_ROWS[] = {1, 1, 2, 1, 1, 1, 1}, CFG_COLS[] = {1, 4, 3, 1, 1, 1, 3};
static bool slurp(const std::string &path, std::string &out) {
    struct stat st;
    if (stat(path.c_str(), &st) || !S_ISREG(st.st_mode)) return false;
    FILE *f = fopen(path.c_str(), "rb"); if (!f) return false;
    char b[4096]; size_t n; out.clear();
    while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
    fclose(f); return true;
}
static void spit(const std::string &path, const std::string &s) {
    FILE *f = fopen(path.c_str(), "wb"); if (!f) harnessError("cannot write " + path);
    fwrite(s.data(), 1, s.size(), f); fclose(f);
}
// Independent reading of one parameter file.
struct CfgText { bool usable = false, clean = false, odd = false; std::vector<float> v; };
static CfgText readCfg(const std::string &path, int rows, int cols) {
    CfgText r; std::string s;
    if (!slurp(path, s)) return r;
    size_t pos = 0; bool clean = true;
    for (int row = 0; row < rows; ++row) {
        if (pos >= s.size()) return r;
        size_t e = s.find('\n', pos); std::string line = s.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
        pos = e == std::string::npos ? s.size() : e + 1;
        const char *c = line.c_str(), *end = c + line.size();
        for (int col = 0; col < cols; ++col) {
            while (c < end && isspace((unsigned char)*c)) ++c;
            // decimal number only
            const char *q = c; if (q < end && (*q == '+' || *q == '-')) ++q;
            bool digits = false;
            while (q < end && isdigit((unsigned char)*q)) { ++q; digits = true; }
            if (q < end && *q == '.') { ++q; while (q < end && isdigit((unsigned char)*q)) { ++q; digits = true; } }
            if (!digits) return r;
            if (q < end && (*q == 'e' || *q == 'E')) {
                ++q; if (q < end && (*q == '+' || *q == '-')) ++q;
                bool ed = false; while (q < end && isdigit((unsigned char)*q)) { ++q; ed = true; }
                if (!ed) return r;
            }
            std::string tok(c, q); float v = strtof(tok.c_str(), nullptr);
            if (!std::isfinite(v)) return r;
            if (v != 0 && (std::fabs(v) < 1e-35f || std::fabs(v) > 1e37f)) r.odd = true;
            r.v.push_back(v);
            if (q < end && !isspace((unsigned char)*q)) clean = false;
            c = q;
        }
        while (c < end) { if (!isspace((unsigned char)*c)) clean = false; ++c; }
    }
    if (s.find_first_not_of(" \t\r\n", pos) != std::string::npos) clean = false;
    r.usable = true; r.clean = clean && s.find('\0') == std::string::npos;
    return r;
}
static void applyDamage(const Op &o, const std::string &dir) {
    if (!o.has("file")) return;
    std::string path = dir + "/" + o.get("file") + ".txt", s, kind = o.get("dmg");
    uint64_t h = hash64((uint64_t)o.num("seed"), 4);
    ++g_out->fault[FA_FILE];
    if (!slurp(path, s)) { if (kind != "create") return; }
    if (kind == "missing") { unlink(path.c_str()); return; }
    if (kind == "dir") { unlink(path.c_str()); mkdir(path.c_str(), 0700); return; }
    if (kind == "empty") s.clear();
    else if (kind == "trunc") s = s.substr(0, s.empty() ? 0 : h % s.size());
    else if (kind == "droplast") { size_t e = s.find_last_not_of(" \n"); size_t q = s.find_last_of(" \n", e); s = q == std::string::npos ? "" : s.substr(0, q + 1); }
    else if (kind == "dropline") { size_t q = s.find('\n'); s = q == std::string::npos ? "" : s.substr(q + 1); }
    else if (kind == "byte") { if (!s.empty()) { const char repl[] = "x \nz#,;\0q-e"; s[h % s.size()] = repl[mix64(h) % (sizeof repl - 1)]; } }
    else if (kind == "garbage") { std::string g; for (int i = 0; i < 200; ++i) g += (char)(mix64(h + i) & 255); s = g; }
    else if (kind == "prefix") s = "corrupt\n" + s;
    else if (kind == "blank") s = "\n" + s;
    else if (kind == "longer") s += "7 7 7 7\n8 8 8 8\n";
    else if (kind == "long") { std::string g; for (int i = 0; i < 40000; ++i) g += "3.25 "; s = s.substr(0, s.find_last_not_of("\n") + 1) + " " + g + "\n" + s; }
    else if (kind == "comment") s += "# end of file\n";
    else if (kind == "crlf") { std::string g; for (char c : s) { if (c == '\n') g += '\r'; g += c; } s = g; }
    else if (kind == "noeol") { while (!s.empty() && s.back() == '\n') s.pop_back(); }
    else if (kind == "nan") { size_t q = s.find_first_of(" \n"); s = "nan" + (q == std::string::npos ? "" : s.substr(q)); }
    else if (kind == "big") { size_t q = s.find_first_of(" \n"); s = "1e999" + (q == std::string::npos ? "" : s.substr(q)); }
    spit(path, s);
}
static std::string cfgNum(float v) { char b[32]; snprintf(b, sizeof b, "%.9g", v); return b; }
static void writeValues(const std::string &path, const std::vector<float> &v, int cols) {
    std::string s; for (size_t i = 0; i < v.size(); ++i) s += cfgNum(v[i]) + ((int)(i % cols) == cols - 1 ? "\n" : " ");
    spit(path, s);
}
static void wipe(const std::string &dir) {      // removes the files this harness may have put there
    for (auto f : CFG_FILES) { unlink((dir + "/" + f + ".txt").c_str()); rmdir((dir + "/" + f + ".txt").c_str()); }
    for (int c = 0; c < 8; ++c) { std::string t = dir + "/T_bc" + std::to_string(c) + ".txt"; unlink(t.c_str()); rmdir(t.c_str()); }
}
struct Params { std::vector<std::vector<float>> g; std::vector<std::vector<float>> cams; };
static Params defaults() { return {{{200.f}, {0.019f, 0.015f, 0.001f, 0.0001f}, {0, 0, 0, 0, 0, 0}, {9.8f}, {6}, {0.0021739f}, {25, 0.2f, 0.1f}}, {}}; }
static void writeRandomConfig(Rng &r, const std::string &dir) {
    mkdir(dir.c_str(), 0700); wipe(dir);
    auto rv = [&](double a, double b) { return (float)(std::round(r.u(a, b) * 10000) / 10000); };
    std::vector<std::vector<float>> v = {{(float)r.i(50, 800)}, {rv(0.01, 1), rv(0.01, 1), rv(0.001, 0.1), rv(0.001, 0.1)}, {rv(-1, 1), rv(-1, 1), rv(-1, 1), rv(-1, 1), rv(-1, 1), rv(-1, 1)},
        {rv(9, 10)}, {(float)r.i(2, 30)}, {rv(0.001, 0.1)}, {(float)r.i(1, 60), rv(0.01, 1), rv(0.01, 2)}};
    for (int i = 0; i < 7; ++i) writeValues(dir + "/" + CFG_FILES[i] + ".txt", v[i], CFG_COLS[i]);
    long nc = r.i(0, 4);
    for (long c = 0; c < nc; ++c) {
        V3 ax(r.n(), r.n(), r.n()); M3 R = Qd(Eigen::AngleAxisd(r.u(0, 3), ax.normalized())).toRotationMatrix();
        std::vector<float> m;
        for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m.push_back((float)R(i, j)); m.push_back(rv(-1, 1)); }
        m.insert(m.end(), {0, 0, 0, 1});
        writeValues(dir + "/T_bc" + std::to_string(c) + ".txt", m, 4);
    }
}
// G 0 s : a fresh directory with random contents;  D 0 k file= dmg= : damage;  L 0 k eio= short= eintr= open= : load and judge
void runConfig(const Plan &p) {
    std::string dir = g_scratch + "/conf";
    mkdir(g_scratch.c_str(), 0700); mkdir(dir.c_str(), 0700); wipe(dir);
    Params prev = defaults();
    auto *cfg = E::Configurator::GetInstance();
    for (size_t k = 0; k < p.ops.size(); ++k) {
        const Op &o = p.ops[k]; g_out->op = (long)k;
        if (o.kind == 'G') { Rng r((uint64_t)o.k); writeRandomConfig(r, dir); }
        else if (o.kind == 'D') applyDamage(o, dir);
        else if (o.kind == 'L') {
            Params want = prev; bool odd[7] = {}, amb[7] = {}; Params alt = prev;
            CfgText ct[7];
            for (int i = 0; i < 7; ++i) {
                ct[i] = readCfg(dir + "/" + CFG_FILES[i] + ".txt", CFG_ROWS[i], CFG_COLS[i]);
                if (ct[i].usable) { want.g[i] = ct[i].v; amb[i] = !ct[i].clean; odd[i] = ct[i].odd; }
            }
            std::vector<CfgText> cams;
            for (int c = 0; c < 8; ++c) cams.push_back(readCfg(dir + "/T_bc" + std::to_string(c) + ".txt", 4, 4));
            auto &d = seam::g_disk;
            d = seam::Disk();
            d.rng = (uint64_t)o.k; d.p_short = o.num("short"); d.p_eintr = o.num("eintr"); d.eio_after = o.has("eio") ? (long)o.num("eio") : -1;
            if (o.has("open")) { d.open_fail_after = (long)o.num("open"); d.open_errno = EMFILE; }
            d.on = true;
            bool ret;
            { seam::InSut g; ret = cfg->ReadConfigParams(dir); }
            d.on = false;
            g_out->fault[FA_READ] += (long)(d.n_short + d.n_eintr + d.n_eio + d.n_open);
            bool disturbed = d.n_eio || d.n_open;
            ++g_out->steps; (void)ret;
            auto &im = cfg->imu; auto &vi = cfg->vision;
            Params got;
            got.g = {{(float)im.period}, {(float)im.sigmaBiasAccel, (float)im.sigmaBiasGyro, (float)im.sigmaBiasAccelRandomWalk, (float)im.sigmaBiasGyroRandomWalk},
                {(float)im.defaultBiasAccel[0], (float)im.defaultBiasAccel[1], (float)im.defaultBiasAccel[2], (float)im.defaultBiasGyro[0], (float)im.defaultBiasGyro[1], (float)im.defaultBiasGyro[2]},
                {(float)im.gravityNorm}, {(float)vi.maxFrameNum}, {(float)vi.sigmaVision}, {(float)vi.minKeyframeTrackedFeatureNum, (float)vi.minKeyframeMeanParallax, (float)vi.maxKeyframeTranslation}};
            auto eq = [&](int i, const std::vector<float> &a, const std::vector<float> &b) {
                for (size_t j = 0; j < a.size(); ++j) {
                    float w = b[j];
                    if (i == 0) { w = 1.0f / w; if (!(std::fabs(a[j] - w) <= 1e-6f * std::fabs(w)) && !(a[j] == w)) return false; continue; }
                    if ((i == 4 || (i == 6 && j == 0)) && !(w >= 0 && w < 4e9f)) continue;
                    if (i == 4 || (i == 6 && j == 0)) w = std::floor(w);
                    if (a[j] != w) return false;
                }
                return true;
            };
            for (int i = 0; i < 7; ++i) {
                ++g_out->checks;
                if (odd[i]) { prev.g[i] = got.g[i]; if (i == 0) prev.g[i][0] = 1.0f / got.g[i][0]; continue; }
                bool isNew = ct[i].usable && eq(i, got.g[i], want.g[i]), isOld = eq(i, got.g[i], prev.g[i]);
                bool newOk = ct[i].usable, oldOk = !ct[i].usable || amb[i] || disturbed;
                if (ct[i].usable) ++g_out->checksB; else ++g_out->checksC;
                if (!((isNew && newOk) || (isOld && oldOk)))
                    violation(ct[i].usable ? "C04:values" : "C04:damaged", fmt("after loading, the parameters of %s.txt are neither %s (first value is %.9g)", CFG_FILES[i], ct[i].usable ? "those of the file nor (where allowed) the former ones" : "unchanged nor complete", got.g[i][0]));
                prev.g[i] = isNew && newOk ? want.g[i] : prev.g[i];
                mixHash(got.g[i][0]);
            }
            // cameras: numbered from zero up to the first unusable file
            size_t n = vi.default_p_bc.size();
            if (vi.default_q_bc.size() != n || vi.maxCameraNum != n) violation("C04:cameras", fmt("%zu positions, %zu rotations, %u cameras", n, vi.default_q_bc.size(), (unsigned)vi.maxCameraNum));
            size_t sure = 0, most = 0;
            while (sure < cams.size() && cams[sure].usable && cams[sure].clean) ++sure;
            while (most < cams.size() && cams[most].usable) ++most;
            if (n > most || (n < sure && !disturbed)) violation("C04:cameras", fmt("%zu cameras were loaded, the files define %zu", n, sure));
            for (size_t c = 0; c < n; ++c) {
                auto &m = cams[c].v; if (cams[c].odd) continue;
                for (int i = 0; i < 3; ++i) if ((float)vi.default_p_bc[c][i] != m[i * 4 + 3]) violation("C04:extrinsic", fmt("position of camera %zu is not that of its file", c));
                M3 R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = m[i * 4 + j];
                if ((R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff() < 1e-3 && R.determinant() > 0) {
                    M3 G = toD(vi.default_q_bc[c]).toRotationMatrix();
                    if (!((G - R).cwiseAbs().maxCoeff() < 5e-3)) violation("C04:extrinsic", fmt("rotation of camera %zu is not that of its file", c));
                }
                ++g_out->checksB;
            }
            addState(hash64(n, disturbed, (uint64_t)(ct[0].usable + 2 * ct[1].usable + 4 * ct[2].usable + 8 * ct[3].usable + 16 * ct[4].usable + 32 * ct[5].usable + 64 * ct[6].usable), (uint64_t)(amb[0] + 2 * amb[1] + 4 * amb[2] + 8 * amb[6])));
        } else harnessError("unknown configuration operation");
    }
    wipe(dir);
}
static Op damageOp(Rng &r, int ncam, bool gentle) {
    static const char *const K[] = {"missing", "dir", "empty", "trunc", "trunc", "droplast", "droplast", "dropline", "byte", "byte", "garbage", "prefix", "blank", "longer", "long", "comment", "crlf", "noeol", "nan", "big"};
    static const char *const G[] = {"missing", "dir", "empty", "droplast", "dropline", "garbage", "prefix", "noeol"};
    Op o = mk('D', 0, 0);
    o.muts.emplace_back("file", r.p(0.4) ? "T_bc" + std::to_string(r.i(0, ncam)) : CFG_FILES[r.i(0, 6)]);
    o.muts.emplace_back("dmg", gentle ? r.pick(G) : r.pick(K)); o.muts.emplace_back("seed", std::to_string(r.i(1, 1000000)));
    return o;
}
static Plan genConfig(uint64_t seed, bool thorough) {
    Rng r(hash64(seed, 98));
    Plan p; p.hdr["prop"] = "C04"; p.hdr["seed"] = std::to_string(seed); p.hdr["mode"] = "config";
    for (long n = r.i(1, thorough ? 8 : 4); n > 0; --n) {
        p.ops.push_back(mk('G', 0, r.i(1, 1000000000)));
        for (long d = r.i(0, 4); d > 0; --d) p.ops.push_back(damageOp(r, 3, false));
        Op l = mk('L', 0, r.i(1, 1000000));
        if (r.p(0.3)) l.muts.emplace_back("short", r.p(0.5) ? "1" : "0.5");
        if (r.p(0.2)) l.muts.emplace_back("eintr", "0.3");
        if (r.p(0.25)) l.muts.emplace_back("eio", std::to_string(r.i(0, 30)));
        else if (r.p(0.15)) l.muts.emplace_back("open", std::to_string(r.i(0, 12)));
        p.ops.push_back(l);
    }
    return p;
}
void damageConfig(const Plan &p, const std::string &dir, int) { for (auto &o : p.ops) if (o.kind == 'D') applyDamage(o, dir); }
// replaces every parameter file by a clean one with the values that have to be in force
void writeExpectedConfig(const Plan &, const std::string &dir, int) {
    Params d = defaults();
    for (int i = 0; i < 7; ++i) {
        CfgText c = readCfg(dir + "/" + CFG_FILES[i] + ".txt", CFG_ROWS[i], CFG_COLS[i]);
        std::string path = dir + "/" + CFG_FILES[i] + ".txt";
        rmdir(path.c_str());
        writeValues(path, c.usable ? c.v : d.g[i], CFG_COLS[i]);
    }
    bool on = true;
    for (int k = 0; k < 8; ++k) {
        std::string path = dir + "/T_bc" + std::to_string(k) + ".txt";
        CfgText c = readCfg(path, 4, 4);
        if (!c.usable) on = false;
        rmdir(path.c_str()); unlink(path.c_str());
        if (on) writeValues(path, c.v, 4);
    }
}

// ======================================================================================== sampling pose solver
// P 0 k n= out= omag= err= mode= iters= mism= ...
void runRansac(const Plan &p) {
    for (size_t k = 0; k < p.ops.size(); ++k) {
        const Op &o = p.ops[k]; g_out->op = (long)k;
        if (o.kind != 'P') harnessError("unknown pose operation");
        Rng r(hash64((uint64_t)o.k, 31));
        long n = (long)o.num("n"); double outFrac = o.num("out"), noise = o.num("noise");
        Qd q = Qd(Eigen::AngleAxisd(r.u(0, 3), V3(r.n(), r.n(), r.n()).normalized())); V3 t(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2));
        std::vector<E::Vector3> p3; std::vector<E::Vector2> p2; std::vector<bool> outl;
        for (long i = 0; i < n; ++i) {
            V3 pc(r.u(-2, 2), r.u(-2, 2), r.u(2.5, 6)); V3 pw = q * pc + t;
            V2 z(pc.x() / pc.z(), pc.y() / pc.z()); z += noise * V2(r.n(), r.n());
            bool bad = (double)i < std::floor(outFrac * (double)n + 1e-9);
            if (bad) { double a = r.u(0, 6.28); z += r.u(0.15, 0.8) * V2(std::cos(a), std::sin(a)); }
            p3.push_back(toS(pw)); p2.push_back(z.cast<S>()); outl.push_back(bad);
        }
        for (long i = n - 1; i > 0; --i) { long j = r.i(0, i); std::swap(p3[i], p3[j]); std::swap(p2[i], p2[j]); bool a = outl[i]; outl[i] = outl[j]; outl[j] = a; }
        if (o.has("degen")) for (auto &x : p3) x = p3[0];
        if (o.has("nanpt") && n) p3[(size_t)r.i(0, n - 1)][0] = (S)NAN;
        if (o.has("mism")) p2.pop_back();
        double err = o.num("err");
        Qd q0 = (q * Qd(Eigen::AngleAxisd(err, V3(r.n(), r.n(), r.n()).normalized()))).normalized(); V3 t0 = t + err * V3(r.n(), r.n(), r.n()).normalized();
        long iters = (long)o.num("iters", 20);
        seam::RandStream base; base.state = hash64((uint64_t)o.k, 32); base.mode = (int)o.num("mode"); base.budget = (uint64_t)(1000 + iters * 2000);
        std::vector<int> script;
        if (o.has("script")) { int c = (int)o.num("script"); script.assign(100000, c); base.mode = 1; base.script = script.data(); base.script_len = script.size(); }
        if (base.mode) ++g_out->fault[FA_RANDLOW];
        if (outFrac > 0) ++g_out->fault[FA_OUTLIER];
        auto support = [&](const E::Quaternion &qq, const E::Vector3 &tt, S thr, std::vector<bool> *in, std::vector<bool> *close) {
            long s = 0; if (in) { in->assign(p3.size(), false); close->assign(p3.size(), false); }
            for (size_t i = 0; i < p3.size(); ++i) {
                V3 pc = toD(qq).inverse() * (p3[i].cast<double>() - tt.cast<double>());
                V2 e = V2(pc.x() / pc.z(), pc.y() / pc.z()) - p2[i].cast<double>();
                bool is = e.squaredNorm() < (double)thr;
                s += is;
                if (in) { (*in)[i] = is; (*close)[i] = std::fabs(e.squaredNorm() - (double)thr) < 2e-2 * (double)thr || std::fabs(pc.z()) < 1e-3; }
            }
            return s;
        };
        auto solve = [&](long it, bool marks, E::Quaternion &qq, E::Vector3 &tt, std::vector<bool> &in, bool &ok) {
            E::PnPSolver s; s.ransacParam.maxIterateTimes = (uint32_t)it;
            seam::RandStream rs = base; seam::g_rand = &rs;
            qq = E::Quaternion((S)q0.w(), (S)q0.x(), (S)q0.y(), (S)q0.z()); tt = toS(t0);
            { seam::InSut g; ok = marks ? s.EstimatePoseRANSAC(p3, p2, qq, tt, in) : s.EstimatePoseRANSAC(p3, p2, qq, tt); }
            seam::g_rand = nullptr; ++g_out->steps;
            g_out->worst[6] = std::max(g_out->worst[6], (double)rs.draws);
            return s.ransacParam.inlierThres;
        };
        E::Quaternion qq; E::Vector3 tt; std::vector<bool> in(o.has("stalemarks") ? (size_t)r.i(0, 80) : 0, r.p(0.5)); bool ok;
        S thr = solve(iters, true, qq, tt, in, ok);
        ++g_out->checks;
        addState(hash64((uint64_t)n, ok, (uint64_t)(outFrac * 10), (uint64_t)base.mode, (uint64_t)(err * 10)));
        mixHash(qq.w()); mixHash(tt[0]);
        if (n < 3 || p2.size() != p3.size()) {
            if (ok) violation("C17:toofew", fmt("%ld points (%zu images of them) were accepted although they cannot be sampled from", n, p2.size()));
            continue;
        }
        if (!ok) violation("C17:refused", fmt("a set of %ld points was refused", n));
        std::vector<bool> mine, close; long sup = support(qq, tt, thr, &mine, &close);
        if (in.size() != p3.size()) violation("C17:marks", fmt("%zu inlier marks for %ld points", in.size(), n));
        long doubt = 0;
        for (size_t i = 0; i < in.size(); ++i) { if (close[i]) { ++doubt; continue; } if (in[i] != mine[i]) violation("C17:marks", fmt("point %zu is marked %s although it is %s of the returned pose", i, in[i] ? "inlier" : "outlier", mine[i] ? "an inlier" : "an outlier")); }
        if (o.has("nanpt")) continue;
        if (!(std::fabs(toD(qq).norm() - 1) < 1e-3) || !tt.allFinite()) violation("C17:invalid", "the returned pose is not a valid pose");
        std::vector<bool> m0, c0; long s0 = support(E::Quaternion((S)q0.w(), (S)q0.x(), (S)q0.y(), (S)q0.z()), toS(t0), thr, &m0, &c0);
        long d0 = std::count(c0.begin(), c0.end(), true);
        if (sup + doubt < s0 - d0) violation("C17:initial", fmt("the returned pose is supported by %ld points, the initial one by %ld", sup, s0));
        // the same random sequence with a smaller iteration budget is a prefix of the search: its result was among the examined samples
        long best = 0, bestIt = 0;
        for (long it : {1L, 2L, 3L, 5L, iters / 2, iters - 1}) {
            if (it < 1 || it >= iters) continue;
            E::Quaternion q1; E::Vector3 t1; std::vector<bool> i1; bool ok1; solve(it, false, q1, t1, i1, ok1);
            std::vector<bool> m1, c1; long s1 = support(q1, t1, thr, &m1, &c1) - std::count(c1.begin(), c1.end(), true);
            if (s1 > best) { best = s1; bestIt = it; }
            ++g_out->checksB;
        }
        if (sup + doubt < best) violation("C17:best", fmt("the returned pose is supported by %ld points, one examined within the first %ld iterations by %ld", sup, bestIt, best));
        long good = std::count(outl.begin(), outl.end(), false);
        if (base.mode == 0 && n >= 8 && outFrac <= 0.2 && err <= 0.12 && iters >= 20 && noise == 0 && !o.has("degen")) {
            long need = std::min(good, (long)std::floor(0.9 * (double)n));
            double eq = (toD(qq).inverse() * q).vec().norm() * 2, et = (toD(tt) - t).norm();
            worst(0, std::max(eq, et)); ++g_out->checksC;
            if (sup + doubt < need) violation("C17:true", fmt("despite only %.0f%% wrong matches the returned pose is supported by %ld of %ld correct points (pose error %.3g rad, %.3g m)", outFrac * 100, sup, good, eq, et));
        }
    }
}
static Plan genRansac(uint64_t seed, bool thorough) {
    Rng r(hash64(seed, 97));
    Plan p; p.hdr["prop"] = "C17"; p.hdr["seed"] = std::to_string(seed); p.hdr["mode"] = "ransac";
    for (long c = r.i(2, thorough ? 20 : 8); c > 0; --c) {
        Op o = mk('P', 0, r.i(1, 1000000000));
        long n = r.p(0.2) ? r.i(0, 4) : r.i(5, 60);
        o.muts.emplace_back("n", std::to_string(n));
        o.muts.emplace_back("out", dstr(r.p(0.3) ? 0 : r.p(0.6) ? std::round(r.u(0, 0.2) * 100) / 100 : std::round(r.u(0.2, 0.8) * 100) / 100));
        o.muts.emplace_back("err", dstr(r.p(0.2) ? 0 : r.p(0.7) ? std::round(r.u(0, 0.12) * 100) / 100 : std::round(r.u(0.1, 1.5) * 100) / 100));
        if (r.p(0.3)) o.muts.emplace_back("noise", dstr(std::round(r.u(0, 0.02) * 1000) / 1000));
        o.muts.emplace_back("iters", std::to_string(r.p(0.5) ? 20 : r.i(1, 60)));
        if (r.p(0.25)) o.muts.emplace_back("mode", "2");
        else if (r.p(0.2)) o.muts.emplace_back("script", std::to_string(r.p(0.3) ? 0 : r.p(0.4) ? 2147483647 : r.i(0, 1000)));
        if (r.p(0.05)) o.muts.emplace_back("degen", "");
        if (r.p(0.04) && n > 3) o.muts.emplace_back("nanpt", "");
        if (r.p(0.05) && n > 0) o.muts.emplace_back("mism", "");
        if (r.p(0.3)) o.muts.emplace_back("stalemarks", "");
        p.ops.push_back(o);
    }
    return p;
}

// ======================================================================================== interval timer
// N b 0 create   A 0 ns  time passes   W 0 ms  host clock steps   T b 0  reading
// Reading a clock takes time (tick=): the thread may be suspended there for as long as it pleases. Whatever instant
// within a call a reading refers to, the sum of consecutive intervals is the time between the first and the last of them.
void runTimer(const Plan &p) {
    struct Call { int64_t a, e; double sum, abs; };
    struct T { E::TickTockTimer *t; std::vector<Call> calls; };
    std::map<int, T> ts;
    seam::g_clock.wall = 1700000000LL * 1000000000LL + p.lnum("wall0", 0) * 1000000LL;
    auto call = [&](const Op &o, auto &&fn) {
        Call c; c.sum = c.abs = 0; c.a = seam::g_clock.mono; seam::g_clock.tick = (int64_t)o.num("tick", 0);
        { seam::InSut g; fn(); }
        seam::g_clock.tick = 0; c.e = seam::g_clock.mono;
        g_out->simTime += 1e-9 * (double)(c.e - c.a);
        return c;
    };
    auto make = [&](const Op &o) {
        T t; t.t = nullptr;
        t.calls.push_back(call(o, [&] { t.t = new E::TickTockTimer(); }));
        ts[o.b] = t;
    };
    for (size_t k = 0; k < p.ops.size(); ++k) {
        const Op &o = p.ops[k]; g_out->op = (long)k;
        if (o.kind == 'A') { seam::g_clock.pass(o.k); g_out->simTime += 1e-9 * (double)o.k; }
        else if (o.kind == 'W') { seam::g_clock.wall += o.k * 1000000LL; ++g_out->fault[FA_WALL]; }
        else if (o.kind == 'N') { if (ts.count(o.b)) { seam::InSut g; delete ts[o.b].t; } make(o); }
        else if (o.kind == 'T') {
            if (!ts.count(o.b)) make(o);
            T &t = ts[o.b];
            double got = 0;
            Call c = call(o, [&] { got = (double)t.t->TickTock(); });
            const Call &pr = t.calls.back();
            c.sum = pr.sum + got; c.abs = pr.abs + std::fabs(got);
            ++g_out->steps; mixHash(got);
            if (o.num("tick", 0) > 0) ++g_out->fault[FA_SUSPEND];
            int64_t el = c.a - pr.e;
            addState(hash64((uint64_t)(el == 0 ? 0 : 1 + (long)std::log2((double)el)), (uint64_t)o.b, (uint64_t)(seam::g_clock.wall < 1700000000LL * 1000000000LL), (uint64_t)o.has("tick")));
            if (got < 0) violation("C19:negative", fmt("the interval is reported as %.6g ms", got));
            for (size_t j = 0; j < t.calls.size(); ++j) {
                const Call &f = t.calls[j];
                double s = c.sum - f.sum, lo = 1e-6 * (double)(c.a - f.e), hi = 1e-6 * (double)(c.e - f.a), tol = 1e-6 * (c.abs - f.abs) + 1e-9 * c.abs + 1e-6;
                ++g_out->checks;
                if (!(s >= lo - tol && s <= hi + tol))
                    violation("C19:interval", fmt("%zu consecutive intervals sum up to %.9g ms, between %.9g ms and %.9g ms passed", t.calls.size() - j, s, lo, hi));
            }
            t.calls.push_back(c);
        } else harnessError("unknown timer operation");
    }
    if (g_out->steps && seam::g_clock.reads == 0) harnessError("the timer does not read the simulated clock");
}
static Plan genTimer(uint64_t seed, bool thorough) {
    Rng r(hash64(seed, 96));
    Plan p; p.hdr["prop"] = "C19"; p.hdr["seed"] = std::to_string(seed); p.hdr["mode"] = "timer";
    p.set("wall0", (double)(long)(r.n() * 1e9));
    for (long n = r.i(3, thorough ? 200 : 60); n > 0; --n) {
        double x = r.u(); int b = (int)r.i(0, 2);
        if (x < 0.4) p.ops.push_back(mk('A', 0, r.p(0.1) ? 0 : (long)std::pow(10.0, r.u(0, 14))));
        else if (x < 0.6) p.ops.push_back(mk('W', 0, (long)(r.n() * std::pow(10.0, r.u(0, 11)))));
        else if (x < 0.65) p.ops.push_back(mk('N', b, 0));
        else {
            p.ops.push_back(mk('T', b, 0));
            if (r.p(0.4)) p.ops.back().muts.emplace_back("tick", std::to_string((long)std::pow(10.0, r.u(0, 10))));
        }
    }
    return p;
}
Plan genArena(const std::string &prop, uint64_t seed, bool thorough) {
    if (prop == "C01" || prop == "C02") return genLoader(prop, seed, thorough);
    if (prop == "C04") return genConfig(seed, thorough);
    if (prop == "C17") return genRansac(seed, thorough);
    if (prop == "C19") return genTimer(seed, thorough);
    Plan p = generate("C05", seed, false);              // C04: a whole estimator on a damaged configuration
    Rng r(hash64(seed, 95));
    p.hdr["prop"] = "C04B";
    std::vector<Op> ops;
    for (long d = r.i(1, 4); d > 0; --d) ops.push_back(damageOp(r, (int)p.lnum("ncam", 2), true));
    for (auto &o : p.ops) if (o.kind != 'X') ops.push_back(o);
    p.ops = ops;
    return p;
}
