// Step-by-step judges: publication, window, measurement bookkeeping, accuracy, memory.
#include "inst.h"
#include <algorithm>
#include <cmath>
#include <set>

static void worst(int i, double v) { if (v > g_out->worst[i] || v != v) g_out->worst[i] = v; }

Inst::Inst(const Plan &p_, const World &w_, int b_) : p(p_), w(w_), b(b_) {
    noise = {(double)(S)p.num("na", 0.019), (double)(S)p.num("ng", 0.015), (double)(S)p.num("nwa", 0.001), (double)(S)p.num("nwg", 0.0001)};
    grav = (double)(S)w.gravity; sigma = (double)(S)p.num("vn", 0.003);
    maxWin = (int)p.lnum("win", 6); kfMin = (int)p.lnum("kfmin", 15); kfDist = (double)(S)p.num("kfdist", 0.1);
    maxUsed = 30;
}
void Inst::restart(bool created) {
    if (created) ml = RefLoader(SimProbe::loader(*be).imuPeriod);
    else ml.clear();
    raw.clear(); window.clear(); lastCam = NAN; attReady = false; wasInit = false; aligned = false; attAligned = false; camCount = imuCount = 0;
}
void Inst::before(unsigned mon, bool popped, const RefLoader::Out &o) {
    stepPopped = popped; cur = o;
    preInit = be->status == E::INITIALIZED;
    int flags = 0;
    if (mon & M_C07) flags = SNAP_COV_ENDS;
    if ((mon & M_C08) && o.hasF) flags = SNAP_COV_ALL;
    if (mon & (M_C07 | M_C08 | M_C11)) pre = takeSnap(*be, flags);
}
void Inst::stats(const Obs &o, bool popped, const RefLoader::Out &out) {
    if (!popped) return;
    if (!out.i.empty()) ++g_out->imuSteps;
    if (out.hasF) { ++g_out->camSteps; ++camSinceMark; }
    if (out.hasF) {
        if (o.status == E::INITIALIZED) { ++g_out->updates; if (!wasInit) { ++g_out->inits; ++initCount; } }
        else if (wasInit) { ++g_out->updFails; ++failsSinceMark; }
    }
    if (!out.i.empty()) { if (std::isnan(firstImu)) firstImu = out.i.front().t; g_out->simTime = std::max(g_out->simTime, out.i.back().t - firstImu); }
    size_t nf = 0, ni = 0, nfe = 0;
    nf = SimProbe::frm(*be).frames.size(); ni = SimProbe::prop(*be).items.size(); nfe = SimProbe::fm(*be).features.size();
    auto bk = [](size_t n) { size_t r = 0; while (n) { ++r; n >>= 1; } return r; };
    addState(hash64(o.status * 4 + o.hasP * 2 + wasInit, nf, bk(ni), bk(nfe), (bk(ml.I.size()) << 8) + (bk(ml.F.size()) << 4) + (out.hasF ? 2 : 0) + (out.i.empty() ? 0 : 1)));
}
void Inst::note(const Obs &o, bool popped, const RefLoader::Out &out) { stats(o, popped, out); wasInit = o.status == E::INITIALIZED; }

void Inst::after(unsigned mon, const Obs &o) {
    bool nowInit = o.status == E::INITIALIZED;
    stats(o, stepPopped, cur);
    for (auto &s : cur.i) raw.push_back(s);
    if (cur.hasF) {
        WFrame f; f.t = cur.f.t; prevCam = lastCam; lastCam = cur.f.t;
        for (auto &e : cur.f.f) if (!e.second.empty()) f.f[e.first] = e.second;
        window.push_back(f);
    }
    int flags = 0;
    if (mon & M_C07) flags = cur.hasF ? SNAP_COV_ALL : SNAP_COV_ENDS;
    if (mon & M_C08) flags = std::max(flags, cur.hasF ? (int)SNAP_COV_ENDS : 0);
    if ((mon & M_C08) && (mon & M_C07) && cur.hasF) flags = SNAP_COV_ALL;
    if (mon & M_C09) flags = cur.hasF ? SNAP_COV_ALL : SNAP_COV_ENDS;
    if (mon & (M_C07 | M_C08 | M_C09 | M_C10 | M_C11)) post = takeSnap(*be, flags);
    if (mon & M_C05) checkC05(o);
    if (mon & M_C11) checkC11();
    if ((mon & (M_C10 | M_C08 | M_C11)) && cur.hasF) {
        std::vector<WFrame> keep = window;
        if (mon & M_C08) checkC08();
        window.clear();
        for (auto &f : keep) for (auto &s : post.frames) if (s.t == f.t) { window.push_back(f); break; }
        if ((mon & M_C10) && window.size() != post.frames.size()) violation("C10:frame", "the window holds a frame of a time no camera message was processed for");
    }
    if (mon & M_C10) checkC10();
    if (mon & M_C07) checkC07();
    if (mon & M_C09) checkC09();
    if (mon & M_C13) checkRecovery(o);
    if (mon & (M_C12 | M_C13)) checkC12(o, mon);
    if (mon & M_C20) checkC20(o);
    if (mon & M_C21) checkC21();
    if (!(mon & (M_C07 | M_C05)) && raw.size() > 1024) raw.erase(raw.begin(), raw.begin() + 512);
    wasInit = nowInit;
}

// ---- C05 ------------------------------------------------------------------------------------------------
void Inst::checkC05(const Obs &o) {
    bool init = o.status == E::INITIALIZED;
    ++g_out->checks;
    if ((o.hasP != 0) != init || (o.hasU != 0) != init)
        violation("C05:availability", fmt("status is %s but the propagated estimate is %s and the updated estimate is %s", init ? "initialised" : "not initialised", o.hasP ? "published" : "not published", o.hasU ? "published" : "not published"));
    if (!stepPopped && init != wasInit) violation("C05:spontaneous", "the status changed although nothing was processed");
    if (stepPopped && !cur.hasF && init != wasInit) violation("C05:transition", "the status changed although no camera message was processed");
    if (!init) return;
    ++g_out->checksB;
    for (int k = 0; k < 16; ++k) if (!std::isfinite(o.P[k]) || !std::isfinite(o.U[k])) violation("C05:finite", fmt("a published estimate is not finite (component %d)", k));
    if (raw.empty()) violation("C05:nodata", "an estimate is published although no IMU sample was ever processed");
    if (std::fabs(o.tP - raw.back().t) > 1e-9) violation("C05:stamp", fmt("propagated estimate is stamped %.9f, the newest processed IMU sample is of %.9f", o.tP, raw.back().t));
    if (std::isnan(lastCam) || std::fabs(o.tU - lastCam) > ml.period * (1 + 1e-6) + 1e-9)
        violation("C05:updstamp", fmt("updated estimate is stamped %.9f, the last fused camera message is of %.9f", o.tU, lastCam));
    bool found = false;
    for (size_t k = raw.size(); k-- > 0 && !found;) { if (std::fabs(raw[k].t - o.tU) <= 1e-9) found = true; if (raw[k].t < o.tU - 1) break; }
    if (!found) violation("C05:updsample", fmt("updated estimate is stamped %.9f, which is no processed IMU sample's time", o.tU));
    if (wasInit) {
        if (stepPopped && !cur.i.empty() && !(o.tP > lastTP)) violation("C05:stuck", "an IMU sample was processed but the propagated time did not move forward");
        if (o.tP < lastTP) violation("C05:back", "the propagated time moved back");
        if (o.tU < lastTU) violation("C05:back", "the updated time moved back");
    }
    lastTP = o.tP; lastTU = o.tU;
}

// ---- C10 ------------------------------------------------------------------------------------------------
void Inst::checkC10() {
    if (!cur.hasF) return;
    ++g_out->checks;
    auto &fm = SimProbe::fm(*be).features;
    auto &frames = SimProbe::frm(*be).frames;
    std::map<uint32_t, long> counts;
    for (auto &f : window) for (auto &e : f.f) counts[e.first] += (long)e.second.size();
    if (fm.size() != counts.size()) {
        for (auto &e : fm) if (!counts.count(e.first)) violation("C10:stale", fmt("feature %u is retained although no window frame observed it", e.first));
        for (auto &e : counts) if (!fm.count(e.first)) violation("C10:lost", fmt("feature %u of a window frame is not retained", e.first));
    }
    size_t fi = 0;
    for (auto &fr : frames) {
        auto &wf = window[fi++];
        if (fr->features.size() != wf.f.size()) violation("C10:frameset", fmt("frame at %.6f lists %zu features, %zu were reported", fr->timeStamp, fr->features.size(), wf.f.size()));
        for (auto &e : fr->features) {
            auto it = wf.f.find(e.first);
            if (it == wf.f.end()) violation("C10:frameset", fmt("frame at %.6f lists feature %u which was not reported", fr->timeStamp, e.first));
            auto g = fm.find(e.first);
            if (g == fm.end() || g->second != e.second) violation("C10:object", fmt("frame at %.6f and the feature list disagree on feature %u", fr->timeStamp, e.first));
        }
    }
    uint32_t firstId = frames.empty() ? 0 : frames.front()->id, lastId = frames.empty() ? 0 : frames.back()->id;
    for (auto &e : fm) {
        auto &ft = *e.second;
        auto c = counts.find(e.first);
        if (c == counts.end()) violation("C10:stale", fmt("feature %u is retained although no window frame observed it", e.first));
        if (ft.id != e.first) violation("C10:id", "a feature is filed under a wrong id");
        if ((long)ft.observeNum != c->second) violation("C10:count", fmt("feature %u claims %u measurements, %ld were reported", e.first, ft.observeNum, c->second));
        long held = 0;
        for (auto &ob : ft.observes) if (ob) held += (long)ob->norms.size();
        if (held != c->second) violation("C10:held", fmt("feature %u holds %ld measurements, %ld belong to window frames", e.first, held, c->second));
        if (ft.observes.empty() || ft.firstFrameID < firstId || ft.FinalFrameID() > lastId) violation("C10:range", fmt("feature %u refers to frames [%u, %u] outside the window [%u, %u]", e.first, ft.firstFrameID, ft.FinalFrameID(), firstId, lastId));
        size_t k = 0;
        for (auto &fr : frames) {
            auto &wf = window[k++];
            auto it = wf.f.find(e.first);
            for (int cam = 0; cam < w.ncam; ++cam) {
                E::Vector2 n(S(0), S(0));
                bool has = ft.GetNorm(fr->id, (uint32_t)cam, n);
                bool should = it != wf.f.end() && it->second.count((uint32_t)cam);
                if (has != should) violation("C10:assoc", fmt("feature %u camera %d frame %.6f: measurement %s", e.first, cam, fr->timeStamp, has ? "held but never reported" : "reported but not held"));
                if (has && ((double)n.x() != it->second[(uint32_t)cam].x() || (double)n.y() != it->second[(uint32_t)cam].y()))
                    violation("C10:value", fmt("feature %u camera %d frame %.6f: held (%g, %g), reported (%g, %g)", e.first, cam, fr->timeStamp, (double)n.x(), (double)n.y(), it->second[(uint32_t)cam].x(), it->second[(uint32_t)cam].y()));
                if (has) ++g_out->checksB;
            }
        }
    }
}

// ---- C11 ------------------------------------------------------------------------------------------------
void Inst::checkC11() {
    ++g_out->checks;
    for (size_t k = 1; k < post.frames.size(); ++k) {
        if (post.frames[k].id != post.frames[k - 1].id + 1) violation("C11:index", fmt("frame indices %u, %u are not consecutive", post.frames[k - 1].id, post.frames[k].id));
        if (!(post.frames[k].t > post.frames[k - 1].t)) violation("C11:order", "frames are not ordered by time");
    }
    if (!cur.hasF) {
        if (post.frames.size() != pre.frames.size()) violation("C11:spontaneous", "the window changed without a camera message");
        return;
    }
    std::vector<double> have, full;
    for (auto &f : post.frames) have.push_back(f.t);
    for (auto &f : pre.frames) full.push_back(f.t);
    full.push_back(cur.f.t);
    if (post.status != E::INITIALIZED) {
        if (have.size() != 1 || have[0] != cur.f.t) violation("C11:failtrim", fmt("after a failed initialisation or update the window holds %zu frames instead of the newest only", have.size()));
        return;
    }
    if ((int)full.size() <= maxWin) {
        if (have != full) violation("C11:grow", fmt("a window of %zu frames (limit %d) did not simply grow by the new frame", pre.frames.size(), maxWin));
        return;
    }
    ++g_out->checksB;
    auto without = [&](size_t i) { auto v = full; v.erase(v.begin() + (long)i); return v; };
    std::vector<double> oldest = without(0), subnew = without(full.size() - 2);
    bool allowOld = false, allowSub = false;
    if (full.size() < 3) allowOld = true;
    else {
        const WFrame *a = nullptr, *c = nullptr;
        for (auto &f : window) { if (f.t == full[full.size() - 2]) a = &f; if (f.t == full[full.size() - 3]) c = &f; }
        if (!a || !c) violation("C11:frame", "the window holds a frame no camera message was processed for");
        long shared = 0;
        for (auto &e : a->f) { auto it = c->f.find(e.first); if (it != c->f.end() && e.second.count(0) && it->second.count(0)) ++shared; }
        if (shared < kfMin) { allowOld = true; }
        else {
            // the distance as known before or after the update; close calls and disagreements allow both outcomes
            double d[2]; int n = 0;
            if (preInit) { auto &fr = pre.frames; d[n++] = (fr[fr.size() - 1].p - fr[fr.size() - 2].p).norm(); }
            const FrameState *x = nullptr, *y = nullptr;
            for (auto &f : post.frames) { if (f.t == a->t) x = &f; if (f.t == c->t) y = &f; }
            if (x && y) d[n++] = (x->p - y->p).norm();
            for (int k = 0; k < n; ++k) {
                if (d[k] > kfDist - 1e-4) allowOld = true;
                if (d[k] < kfDist + 1e-4) allowSub = true;
            }
            if (!preInit) allowOld = allowSub = true;
            if (allowOld != allowSub) ++g_out->checksC;
        }
    }
    bool isOld = have == oldest, isSub = have == subnew;
    if (!isOld && !isSub) violation("C11:drop", fmt("a full window of %zu frames lost neither exactly its oldest nor exactly its second newest frame", full.size()));
    if (!((isOld && allowOld) || (isSub && allowSub))) violation("C11:policy", fmt("the %s frame left the window where the %s was due", isOld ? "oldest" : "second newest", isOld ? "second newest" : "oldest"));
}

// ---- accuracy (C12, C13, C20) ------------------------------------------------------------------------------
static double yawOf(const Qd &d) { return 2 * std::atan2(d.z(), d.w()); }
static double angleOf(const Qd &q) { return 2 * std::atan2(V3(q.x(), q.y(), q.z()).norm(), std::fabs(q.w())); }
static Qd rz(double a) { return Qd(std::cos(a / 2), 0, 0, std::sin(a / 2)); }
static V3 v3(const double *p) { return V3(p[0], p[1], p[2]); }
static Qd q4(const double *p) { return Qd(p[0], p[1], p[2], p[3]); }

// Initialisation needs a sample that measures gravity only (after a reset), then a bounded number of regular camera messages.
void Inst::checkRecovery(const Obs &o) {
    for (auto &s : cur.i) if (std::fabs((s.a - toD(SimProbe::att(*be).bias_a)).norm() - grav) < 0.038) attReady = true;
    if (!attReady || mark < 1) camSinceReady = 0;
    else if (cur.hasF && worldTime(cur.f.t) > p.num("faultend", 0)) ++camSinceReady;
    if (o.status == E::INITIALIZED || !cur.hasF) return;
    ++g_out->checksB;
    if (camSinceReady >= 7) violation("C13:recovery", fmt("still not initialised after %ld regular camera messages", camSinceReady));
}
void Inst::checkC12(const Obs &o, unsigned mon) {
    if (o.status != E::INITIALIZED) { aligned = false; return; }
    if (!wasInit) coarse = (mon & M_C13) && cur.f.t - prevCam > 1 && !p.lnum("judgecoarse", 0);
    if (!stepPopped || cur.i.empty() || coarse) return;
    if ((mon & M_C13) && mark < 2) return;
    Truth x = w.truth(worldTime(o.tP));
    Qd q = q4(o.P + 6);
    if (!aligned) {
        alYaw = yawOf(q * x.q.inverse()); alP = v3(o.P); alT = x.p; aligned = true; alTime = o.tP;
    }
    Qd Y = rz(alYaw);
    double ep = (v3(o.P) - (alP + Y * (x.p - alT))).norm(), ev = (v3(o.P + 3) - Y * x.v).norm(), ea = angleOf((Y * x.q).inverse() * q);
    double age = o.tP - alTime;
    worst(0, ep); worst(1, ev); worst(2, ea);
    ++g_out->checks;
    double tp = p.num("tolp", 0.5) + p.num("tolpr", 0.05) * age, tv = p.num("tolv", 0.5), ta = p.num("tola", 0.12);
    if (!(ep <= tp)) violation(mon & M_C13 ? "C13:position" : "C12:position", fmt("position error %.3f m, %.2f s after initialisation (limit %.3f)", ep, age, tp));
    if (!(ev <= tv)) violation(mon & M_C13 ? "C13:velocity" : "C12:velocity", fmt("velocity error %.3f m/s, %.2f s after initialisation (limit %.3f)", ev, age, tv));
    if (!(ea <= ta)) violation(mon & M_C13 ? "C13:attitude" : "C12:attitude", fmt("attitude error %.4f rad, %.2f s after initialisation (limit %.3f)", ea, age, ta));
}
void Inst::checkC20(const Obs &o) {
    if (!stepPopped) return;
    if (o.status != E::INITIALIZED) {
        // attitude tracking before initialisation
        auto &it = SimProbe::att(*be).items;
        if (it.empty() || cur.i.empty()) return;
        if (it.back()->timeStamp != cur.i.back().t) return;
        Truth x = w.truth(worldTime(cur.i.back().t));
        Qd q = toD(it.back()->q_wb);
        if (!attAligned) { attAligned = true; attYaw = yawOf(q * x.q.inverse()); }
        double e = angleOf((rz(attYaw) * x.q).inverse() * q);
        worst(3, e); ++g_out->checksB;
        if (!(e <= p.num("tolatt", 0.05))) violation("C20:tracking", fmt("attitude tracked before initialisation is off by %.4f rad", e));
        return;
    }
    if (wasInit || std::isnan(prevCam)) return;
    // first published estimate
    Truth x = w.truth(worldTime(o.tP));
    double ti = worldTime(prevCamT());
    Truth xi = w.truth(ti);
    Qd q = q4(o.P + 6);
    double yaw = yawOf(q * x.q.inverse());
    Qd Y = rz(yaw);
    double ea = angleOf((Y * x.q).inverse() * q), ev = (v3(o.P + 3) - Y * x.v).norm(), ep = (v3(o.P) - Y * (x.p - xi.p)).norm();
    worst(4, ea); worst(5, ev); worst(6, ep); ++g_out->checks;
    double ta = p.num("tola", 0.05), tv = p.num("tolv", 0.2), tp = p.num("tolp", 0.1);
    if (!(ea <= ta)) violation("C20:tilt", fmt("tilt of the first estimate is off by %.4f rad (limit %.3f)", ea, ta));
    if (!(ev <= tv)) violation("C20:velocity", fmt("velocity of the first estimate is off by %.3f m/s (limit %.3f)", ev, tv));
    if (!(ep <= tp)) violation("C20:position", fmt("position of the first estimate is off by %.3f m from the origin plus the true motion (limit %.3f)", ep, tp));
}
void Inst::marker(unsigned mon, int n) {
    mark = n; camSinceMark = 0;
    if (n == 1) failsSinceMark = 0;
    if ((mon & M_C13) && n == 2) {
        failsSinceMark = 0; aligned = false;
    }
}
void Inst::finish(unsigned mon) {
    if ((mon & M_C13) && mark >= 2 && failsSinceMark > 0 && !coarse) violation("C13:relapse", "tracking was lost again although the data stayed regular");
    if ((mon & M_C12) && p.lnum("mustinit", 0) && initCount == 0) violation("C12:noinit", "no initialisation although the device started from rest in view of enough stereo features");
    if ((mon & M_C20) && p.lnum("mustinit", 0) && initCount == 0) violation("C20:noinit", "no initialisation although camera data with enough stereo features came in");
    if (mon & M_C21) {
        // what one life leaves behind (buffers the process keeps) must not add up
        for (int h = 0; h < 2; ++h) {
            size_t n = gone[h].size();
            if (n < 12) continue;
            double first = *std::max_element(gone[h].begin(), gone[h].begin() + n / 3), last = *std::min_element(gone[h].begin() + n - n / 3, gone[h].end());
            ++g_out->checksC; worst(6, (last - first) / 1000);
            if (last > first + 3000) violation("C21:leak", fmt("%zu %s left %.0f bytes more behind at the end than at the beginning", n, h ? "resets" : "destructions", last - first));
        }
        // steady state: the last third must not exceed the bound set by the first two thirds
        size_t n = liveSamples.size();
        if (n >= 30) {
            double early = 0, late = 0;
            for (size_t k = 0; k < n; ++k) { double &m = k < n * 2 / 3 ? early : late; m = std::max(m, liveSamples[k]); }
            worst(7, late / early);
            ++g_out->checks;
            if (late > early * 1.25 + 20000) violation("C21:growth", fmt("memory held grew from at most %.0f to %.0f bytes while camera messages kept being processed", early, late));
        }
    }
}
void Inst::released(int how) {
    gone[how].push_back((double)seam::g_heap.live);
    for (auto &m : watched) if (!m.expired()) violation("C21:retained", how ? "a handed-over message is still referenced after a reset" : "a handed-over message is still referenced after the estimator was destroyed");
    watched.clear();
}
void Inst::checkC21() {
    if (!stepPopped || !cur.hasF) return;
    ++g_out->checksB;
    double live = (double)seam::g_heap.live;
    ++liveN;
    // states newer than the fused camera message are rightly held: their share depends on how late the message came
    double pending = 0, each = 15.0 * (15 + 6 * (w.ncam + maxWin + 1)) * sizeof(S) + 500;
    for (size_t k = raw.size(); k-- > 0 && raw[k].t > cur.f.t - ml.period;) ++pending;
    if (liveN > 20) liveSamples.push_back(std::max(1.0, live - each * pending));
    if (ml.buffered() == 0) {
        for (auto &m : watched) if (!m.expired()) violation("C21:retained", "a handed-over message is still referenced although everything was processed");
        watched.clear();
    }
}
