// Messages: construction with faults, well-formedness, and the specification of the message buffer.
#include "exec.h"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <limits>
#include <set>
#include <unistd.h>

Shared *g_out = nullptr;
const char *const FAULT_NAMES[FA_N] = {"message_loss", "duplicate", "reorder", "delay", "consumer_stall", "imu_outage", "camera_outage", "single_camera_stall",
    "feature_dropout", "outlier", "malformed", "empty_entry", "reset", "recreate", "alloc_failure", "wall_clock_step", "imu_spike", "adversarial_random",
    "heap_pattern", "read_fault", "file_damage", "stale_stamp", "shared_object", "clock_shift", "calibration_uncertainty", "suspension"};

std::string fmt(const char *f, ...) {
    char b[800]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
void violation(const std::string &cls, const std::string &msg) {
    if (!g_out->cls[0]) {
        snprintf(g_out->cls, sizeof g_out->cls, "%s", cls.c_str());
        snprintf(g_out->msg, sizeof g_out->msg, "%s", msg.c_str());
    }
    g_out->done = 1;
    _exit(0);
}
void harnessError(const std::string &msg) { violation("harness", msg); }
void addState(uint64_t h) {
    long n = g_out->nState;
    for (long i = 0; i < n; ++i) if (g_out->states[i] == h) return;
    if (n < 2048) { g_out->states[n] = h; g_out->nState = n + 1; }
}
static bool bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
bool same(const MImu &a, const MImu &b) {
    if (!bits(a.t, b.t)) return false;
    for (int i = 0; i < 3; ++i) if (!bits(a.a[i], b.a[i]) || !bits(a.g[i], b.g[i])) return false;
    return true;
}
bool same(const MFeat &a, const MFeat &b) {
    if (!bits(a.t, b.t) || a.f.size() != b.f.size()) return false;
    for (size_t i = 0; i < a.f.size(); ++i) {
        if (a.f[i].first != b.f[i].first || a.f[i].second.size() != b.f[i].second.size()) return false;
        auto p = a.f[i].second.begin(); auto q = b.f[i].second.begin();
        for (; p != a.f[i].second.end(); ++p, ++q)
            if (p->first != q->first || !bits(p->second.x(), q->second.x()) || !bits(p->second.y(), q->second.y())) return false;
    }
    return true;
}
MImu toModel(const E::IMUMessage &m) { return {m.timeStamp, toD(m.accel), toD(m.gyro)}; }
MFeat toModel(const E::FeaturesMessage &m) {
    MFeat r; r.t = m.timeStamp;
    for (size_t i = 0; i < m.ids.size() && i < m.observes.size(); ++i) {
        r.f.emplace_back(m.ids[i], std::map<uint32_t, V2>());
        if (m.observes[i]) for (auto &n : m.observes[i]->norms) r.f.back().second[n.first] = n.second.template cast<double>();
    }
    return r;
}
bool wellFormed(const std::shared_ptr<E::IMUMessage> &m) {
    if (!m || !std::isfinite(m->timeStamp)) return false;
    for (int i = 0; i < 3; ++i) if (!std::isfinite(m->accel[i]) || !std::isfinite(m->gyro[i])) return false;
    return true;
}
bool wellFormed(const std::shared_ptr<E::FeaturesMessage> &m, int ncam) {
    if (!m || !std::isfinite(m->timeStamp) || m->ids.size() != m->observes.size()) return false;
    std::set<uint32_t> ids;
    for (size_t i = 0; i < m->ids.size(); ++i) {
        if (!m->observes[i] || !ids.insert(m->ids[i]).second) return false;
        for (auto &n : m->observes[i]->norms) {
            if (!std::isfinite(n.second.x()) || !std::isfinite(n.second.y())) return false;
            if (ncam >= 0 && n.first >= (uint32_t)ncam) return false;
        }
    }
    return true;
}

bool RefLoader::pushI(MImu m) {
    if (!have) { have = true; off = m.t; }
    m.t -= off;
    if (anyI && !(m.t > lastI)) return false;
    anyI = true; lastI = m.t; I.push_back(m);
    return true;
}
bool RefLoader::pushF(MFeat m) {
    if (!have) { have = true; off = m.t; }
    m.t -= off;
    if (anyF && !(m.t > lastF)) return false;
    anyF = true; lastF = m.t; F.push_back(m);
    return true;
}
bool RefLoader::popOne(Out &o) {
    o = Out();
    if (I.empty() && F.empty()) return false;
    if (!F.empty() && (I.empty() || F.front().t <= I.front().t)) {
        o.hasF = true; o.f = F.front(); F.pop_front();
        if (!I.empty() && I.front().t - o.f.t < period) { o.i.push_back(I.front()); I.pop_front(); }
        return true;
    }
    o.i.push_back(I.front()); I.pop_front();
    return true;
}
bool RefLoader::popPacked(Out &o, bool &interpolated) {
    o = Out(); interpolated = false;
    if (F.empty() || I.empty() || I.back().t <= F.front().t) return false;
    if (I.front().t >= F.front().t) { F.pop_front(); return false; }
    o.hasF = true; o.f = F.front(); F.pop_front();
    while (I.front().t <= o.f.t) { o.i.push_back(I.front()); I.pop_front(); }
    if (o.f.t - o.i.back().t > 1e-6) {
        const MImu &l = o.i.back(), &r = I.front();
        double k = (o.f.t - l.t) / (r.t - l.t);
        MImu m{o.f.t, l.a * (1 - k) + r.a * k, l.g * (1 - k) + r.g * k};
        o.i.push_back(m);
        interpolated = true;
    }
    I.push_front(o.i.back());
    return true;
}

static double special(const std::string &s) {
    if (s == "inf") return std::numeric_limits<double>::infinity();
    if (s == "-inf") return -std::numeric_limits<double>::infinity();
    return std::numeric_limits<double>::quiet_NaN();
}
std::shared_ptr<E::IMUMessage> mkImu(const World &w, const Op &o) {
    if (o.has("null")) return nullptr;
    ImuSample s = w.imu(o.k);
    auto m = std::make_shared<E::IMUMessage>(toS(s.gyr), toS(s.acc), s.t + o.num("dt"));
    if (o.has("tx")) m->timeStamp = special(o.get("tx"));
    if (o.has("nx")) { int i = (int)o.num("ni") % 6; (i < 3 ? m->accel[i] : m->gyro[i - 3]) = (S)special(o.get("nx")); }
    if (o.has("spike")) { int i = (int)o.num("ni") % 6; (i < 3 ? m->accel[i] : m->gyro[i - 3]) += (S)o.num("spike"); }
    if (o.has("zeroacc")) m->accel.setZero();
    return m;
}
std::shared_ptr<E::FeaturesMessage> mkFeat(const World &w, const Op &o) {
    if (o.has("null")) return nullptr;
    FeatSample s = w.feat(o.k);
    if (o.has("nof")) s.feats.clear();
    if (o.has("drop")) {
        double pr = o.num("drop"); uint64_t sd = (uint64_t)o.num("seed");
        std::vector<FeatEntry> k;
        for (auto &f : s.feats) if (hashU(sd, 5, f.id) >= pr) k.push_back(f);
        s.feats = k;
    }
    if (o.has("keep") && (long)s.feats.size() > (long)o.num("keep")) s.feats.resize((size_t)o.num("keep"));
    if (o.has("cams")) {
        long mask = (long)o.num("cams");
        std::vector<FeatEntry> k;
        for (auto &f : s.feats) { FeatEntry e{f.id, {}}; for (auto &c : f.obs) if (mask >> c.first & 1) e.obs.insert(c); if (!e.obs.empty()) k.push_back(e); }
        s.feats = k;
    }
    if (o.has("outl")) {
        double fr = o.num("outl"); uint64_t sd = (uint64_t)o.num("seed");
        for (auto &f : s.feats) for (auto &c : f.obs)
            if (hashU(sd, 6, f.id, c.first) < fr) c.second += V2(hashU(sd, 7, f.id, c.first) - 0.5, hashU(sd, 8, f.id, c.first) - 0.5) * o.num("omag", 0.3);
    }
    auto m = std::make_shared<E::FeaturesMessage>();
    m->timeStamp = s.t + o.num("dt");
    auto add = [&](const FeatEntry &f) {
        auto ob = std::make_shared<E::FeatureObserve>();
        for (auto &c : f.obs) ob->norms[(uint32_t)c.first] = c.second.cast<S>();
        m->ids.push_back(f.id); m->observes.push_back(ob); m->flag.push_back(0);
    };
    for (auto &f : s.feats) add(f);
    if (o.has("zero")) for (auto &ob : m->observes) for (auto &c : ob->norms) c.second.setZero();
    if (o.has("empty")) {               // entries without any measurement: known ids and new ones
        long n = (long)o.num("empty"); uint64_t sd = (uint64_t)o.num("seed");
        for (long i = 0; i < n; ++i) {
            uint32_t id = 0;
            if (hash64(sd, 9, i) & 1) id = (uint32_t)(4000000000u + hash64(sd, 10, i) % 1000);
            else {                       // an id that is seen in a neighbouring frame but not in this one
                FeatSample nb = w.feat(std::max(0L, o.k - 1 - (long)(hash64(sd, 12, i) % 3)));
                if (!nb.feats.empty()) id = nb.feats[hash64(sd, 11, i) % nb.feats.size()].id;
            }
            bool dup = id == 0;
            for (uint32_t x : m->ids) if (x == id) dup = true;
            if (dup) continue;
            size_t at = hash64(sd, 13, i) % (m->ids.size() + 1);
            m->ids.insert(m->ids.begin() + at, id);
            m->observes.insert(m->observes.begin() + at, std::make_shared<E::FeatureObserve>());
            m->flag.push_back(0);
        }
    }
    if (o.has("tx")) m->timeStamp = special(o.get("tx"));
    size_t n = m->ids.size(), at = n ? (size_t)o.num("at") % n : 0;
    if (o.has("mism")) { if (n && o.get("mism") == "ids") m->ids.pop_back(); else if (n && o.get("mism") == "obs") m->observes.pop_back(); else m->ids.push_back(123456789u); }
    if (o.has("nullobs")) { if (n) m->observes[at].reset(); else { m->ids.push_back(5); m->observes.push_back(nullptr); } }
    if (o.has("dupid")) { if (n) { m->ids.push_back(m->ids[at]); m->observes.push_back(m->observes[(at * 7 + 1) % n]); } else { for (int i = 0; i < 2; ++i) { m->ids.push_back(7); m->observes.push_back(std::make_shared<E::FeatureObserve>()); } } m->flag.resize(m->ids.size(), 0); }
    if (o.has("badcam")) { if (!n) { m->ids.push_back(9); m->observes.push_back(std::make_shared<E::FeatureObserve>()); } 
        auto &nm = m->observes[at]->norms; const std::pair<const uint32_t, E::Vector2> bad((uint32_t)std::stoul(o.get("badcam")), E::Vector2(S(0.1), S(-0.1)));
        if (o.has("early")) { auto old = nm; nm.clear(); nm.insert(bad); for (auto &x : old) nm.insert(x); } else nm.insert(bad); }
    if (o.has("nx")) { if (!n) { m->ids.push_back(9); m->observes.push_back(std::make_shared<E::FeatureObserve>()); } auto &nm = m->observes[at]->norms; if (nm.empty()) nm[0] = E::Vector2(0, 0); std::next(nm.begin(), (long)(o.num("ni") / 2) % (long)nm.size())->second[(int)o.num("ni") & 1] = (S)special(o.get("nx")); }
    // put together field by field or by the constructor
    if (o.has("ctor") || (!o.has("mism") && (o.k & 1))) return std::make_shared<E::FeaturesMessage>(m->ids, m->observes, m->flag, m->timeStamp);
    return m;
}
void countMuts(const Op &o) {
    auto &f = g_out->fault;
    for (auto &m : o.muts) {
        const std::string &k = m.first;
        if (k == "null" || k == "tx" || k == "nx" || k == "mism" || k == "nullobs" || k == "dupid" || k == "badcam") ++f[FA_MALFORMED];
        else if (k == "empty") ++f[FA_EMPTY];
        else if (k == "drop" || k == "keep" || k == "nof") ++f[FA_DROPFEAT];
        else if (k == "cams") ++f[FA_CAMSTALL];
        else if (k == "outl" || k == "zero") ++f[FA_OUTLIER];
        else if (k == "spike" || k == "zeroacc") ++f[FA_SPIKE];
        else if (k == "dup") ++f[FA_DUP];
        else if (k == "share") ++f[FA_SHARE];
    }
}
