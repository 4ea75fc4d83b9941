// Judges of the estimator's mathematics: inertial propagation, Kalman update, validity of state and covariance.
#include "inst.h"
#include <algorithm>
#include <cmath>

static void worst(int i, double v) { if (v > g_out->worst[i] || v != v) g_out->worst[i] = v; }
static const bool DBL = sizeof(S) == 8;
static double angDiff(const Qd &a, const Qd &b) { Qd d = a.inverse() * b; double s = d.w() < 0 ? -1 : 1; return 2 * V3(s * d.x(), s * d.y(), s * d.z()).norm(); }
static double maxAbs(const MX &m) { double r = 0; for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) r = std::max(r, std::fabs(m(i, j))); return r; }
static bool equalM(const MX &a, const MX &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int j = 0; j < a.cols(); ++j) for (int i = 0; i < a.rows(); ++i) if (!(a(i, j) == b(i, j))) return false;
    return true;
}

// ---- C07 ------------------------------------------------------------------------------------------------
// one propagated state against the model; scale-aware
static void compareNav(const NavState &got, const NavState &want, const MX &exCam, bool cov, const char *what) {
    const double tn = DBL ? 1e-9 : 2e-4, tc = DBL ? 1e-8 : 2e-3;
    double ep = (got.p - want.p).norm() / (1 + want.p.norm()), ev = (got.v - want.v).norm() / (1 + want.v.norm()), eq = angDiff(want.q, got.q);
    worst(0, std::max({ep, ev, eq}));
    if (!(got.t == want.t)) violation("C07:time", fmt("%s: state carries time %.9f, the sample integrated last is of %.9f", what, got.t, want.t));
    if (!DBL && !(want.cov.allFinite() && maxAbs(want.cov) <= 1e25 && want.p.norm() + want.v.norm() <= 1e25)) return;        // about to leave the range of single precision
    if (!(eq <= tn)) violation("C07:attitude", fmt("%s: attitude differs from midpoint integration by %.3g rad", what, eq));
    if (!(ev <= tn)) violation("C07:velocity", fmt("%s: velocity differs from midpoint integration by %.3g", what, ev));
    if (!(ep <= tn)) violation("C07:position", fmt("%s: position differs from midpoint integration by %.3g", what, ep));
    if (!cov) return;
    if (got.cov.rows() != 15 || got.cov.cols() != 15 || got.xc.rows() != 15 || got.xc.cols() != want.xc.cols()) violation("C07:dimension", fmt("%s: covariance has a wrong size", what));
    double e = 0;
    for (int i = 0; i < 15; ++i) for (int j = 0; j < 15; ++j) {
        double s = std::sqrt(std::fabs(want.cov(i, i) * want.cov(j, j))) + 1e-15;
        double d = std::fabs(got.cov(i, j) - want.cov(i, j)) / s;
        if (!(d <= tc)) violation("C07:covariance", fmt("%s: covariance element (%d,%d) is %.9g, the error model gives %.9g", what, i, j, got.cov(i, j), want.cov(i, j)));
        e = std::max(e, d);
    }
    for (int i = 0; i < 15; ++i) for (int j = 0; j < want.xc.cols(); ++j) {
        double s = std::sqrt(std::fabs(want.cov(i, i) * exCam(j, j))) + 1e-15;
        double d = std::fabs(got.xc(i, j) - want.xc(i, j)) / s;
        if (!(d <= tc)) violation("C07:crosscov", fmt("%s: cross covariance element (%d,%d) is %.9g, the error model gives %.9g", what, i, j, got.xc(i, j), want.xc(i, j)));
        e = std::max(e, d);
    }
    worst(1, e);
}
void Inst::checkC07() {
    if (post.status != E::INITIALIZED || post.items.empty()) return;
    if (!stepPopped) return;
    if (!DBL && !(pre.exCam.allFinite() && maxAbs(pre.exCam) < 1e25)) return;
    if (!cur.hasF) {
        if (pre.status != E::INITIALIZED || pre.items.empty() || cur.i.empty() || raw.size() < 2) return;
        ++g_out->checks;
        NavState m = pre.items.back();
        const MImu &r0 = raw[raw.size() - 2], &r1 = raw.back();
        if (m.t != r0.t) violation("C07:missed", fmt("the newest state is of %.9f although the sample of %.9f was processed", m.t, r0.t));
        m.acc = r0.a; m.gyr = r0.g;
        ref::propagate(m, {r1.t, r1.a, r1.g}, pre.ba, pre.bg, grav, noise);
        compareNav(post.items.back(), m, post.exCam, true, "new sample");
        if ((post.ba - pre.ba).norm() != 0 || (post.bg - pre.bg).norm() != 0) violation("C07:bias", "an IMU sample changed the biases");
        if (!equalM(pre.exCam, post.exCam)) violation("C07:windowcov", "an IMU sample changed the covariance of calibration and window poses");
        for (size_t k = 0; k < pre.ext.size(); ++k) if (k >= post.ext.size() || (pre.ext[k].p - post.ext[k].p).norm() != 0 || pre.ext[k].q.coeffs() != post.ext[k].q.coeffs()) violation("C07:ext", "an IMU sample changed the camera calibration");
        if (pre.frames.size() != post.frames.size()) violation("C07:window", "an IMU sample changed the window");
        for (size_t k = 0; k < pre.frames.size(); ++k) if ((pre.frames[k].p - post.frames[k].p).norm() != 0 || pre.frames[k].q.coeffs() != post.frames[k].q.coeffs()) violation("C07:window", "an IMU sample changed a window pose");
        return;
    }
    // after an initialisation or update: everything that is integrated again
    ++g_out->checksB;
    size_t r = raw.size();
    double t0 = post.items.front().t;
    while (r > 0 && raw[r - 1].t > t0) --r;
    if (r == 0 || raw[r - 1].t != t0) violation("C07:anchor", fmt("the updated state is of %.9f, no IMU sample of that time was processed", t0));
    --r;
    if (raw.size() - r != post.items.size()) violation("C07:missed", fmt("%zu samples were processed since the updated state, %zu are integrated on it", raw.size() - r - 1, post.items.size() - 1));
    NavState m = post.items.front();
    for (size_t k = 1; k < post.items.size(); ++k) {
        m.acc = raw[r + k - 1].a; m.gyr = raw[r + k - 1].g;
        ref::propagate(m, {raw[r + k].t, raw[r + k].a, raw[r + k].g}, post.ba, post.bg, grav, noise);
        compareNav(post.items[k], m, post.exCam, true, "re-integrated sample");
        ++g_out->checksC;
        if (!DBL) m = post.items[k];
    }
}

// ---- C08 ------------------------------------------------------------------------------------------------
static MX assemble(const NavState &s, const MX &exCam) {
    int n = 15 + (int)exCam.rows();
    MX P = MX::Zero(n, n);
    for (int i = 0; i < 15; ++i) { for (int j = 0; j < 15; ++j) P(i, j) = s.cov(i, j); for (int j = 15; j < n; ++j) P(i, j) = P(j, i) = s.xc(i, j - 15); }
    for (int i = 15; i < n; ++i) for (int j = 15; j < n; ++j) P(i, j) = exCam(i - 15, j - 15);
    return P;
}
void Inst::checkC08() {
    if (pre.status != E::INITIALIZED || pre.items.empty()) return;
    // the motion state of every sample up to now
    std::vector<NavState> chain = pre.items;
    if (!cur.i.empty()) {
        NavState m = chain.back();
        size_t r = raw.size();
        if (r >= 2 && raw[r - 2].t == m.t) { m.acc = raw[r - 2].a; m.gyr = raw[r - 2].g; }
        ref::propagate(m, {cur.i[0].t, cur.i[0].a, cur.i[0].g}, pre.ba, pre.bg, grav, noise);
        chain.push_back(m);
    }
    const double t = cur.f.t, per = ml.period;
    int at = -1; bool clear = true;
    for (size_t k = 0; k < chain.size(); ++k) {
        if (std::fabs(std::fabs(chain[k].t - t) - per) < 1e-7) clear = false;
        if (at < 0 && t - chain[k].t <= per) at = (int)k;
    }
    bool exists = at >= 0 && chain[at].t - t <= per;
    if (post.status != E::INITIALIZED) {
        if (exists && clear) violation("C08:refused", fmt("the camera message of %.6f was not fused although a state of its time exists", t));
        return;
    }
    ++g_out->checks;
    if (post.items.empty()) violation("C08:nostate", "no state after a successful update");
    int idx = -1;
    for (size_t k = 0; k < chain.size(); ++k) if (chain[k].t == post.items.front().t) idx = (int)k;
    if (idx < 0 || std::fabs(chain[idx].t - t) > per * (1 + 1e-6) + 1e-9) violation("C08:time", fmt("a camera message of %.6f was fused into the state of %.6f", t, post.items.front().t));
    const NavState &x0 = chain[idx];
    ref::Full x;
    x.p = x0.p; x.v = x0.v; x.q = x0.q; x.ba = pre.ba; x.bg = pre.bg; x.ext = pre.ext;
    for (auto &f : pre.frames) x.frames.push_back({f.p, f.q});
    const int nc = (int)x.ext.size(), nf = (int)x.frames.size(), n = 15 + 6 * nc + 6 * nf;
    if (pre.exCam.rows() != 6 * nc + 6 * nf || x0.xc.cols() != 6 * nc + 6 * nf) violation("C08:dimension", "the prior covariance does not match window and cameras");
    x.P = assemble(x0, pre.exCam);
    const MX P0 = x.P;
    // the measurements of every feature, from what was reported
    std::vector<const WFrame *> wf;
    for (auto &f : pre.frames) { const WFrame *m = nullptr; for (auto &q : window) if (q.t == f.t) m = &q; if (!m) violation("C08:frame", "window frame of unknown time"); wf.push_back(m); }
    wf.push_back(&window.back());
    auto views = [&](uint32_t id, std::vector<Meas_> *out) {
        std::vector<ref::View> v;
        for (int k = 0; k <= nf; ++k) {
            auto it = wf[k]->f.find(id);
            if (it == wf[k]->f.end()) continue;
            Qd q = k == nf ? x.q : x.frames[k].q; V3 pb = k == nf ? x.p : x.frames[k].p;
            for (auto &c : it->second) {
                v.push_back({q * x.ext[c.first].q, q * x.ext[c.first].p + pb, c.second});
                if (out) out->push_back({k, (int)c.first, c.second});
            }
        }
        return v;
    };
    auto &used = SimProbe::used(*be);
    std::vector<ref::FeatObs> obs;
    std::map<uint32_t, int> seen;
    bool comparable = true;
    for (auto &f : used) {
        if (seen[f->id]++) violation("C08:twice", fmt("feature %u was used twice in one update", f->id));
        if (!wf[nf]->f.count(f->id)) violation("C08:notnewest", fmt("feature %u was used although the newest frame does not see it", f->id));
        std::vector<Meas_> ms;
        auto vs = views(f->id, &ms);
        V3 pt; double margin;
        bool ok = ref::triangulate(vs, pt, margin);
        if (!ok && margin > 1e-2) violation("C08:untriangulated", fmt("feature %u was used although it does not triangulate in front of all its cameras", f->id));
        V3 pw = toD(f->p_w);
        for (auto &v : vs) { double z = (v.q_wc.inverse() * (pw - v.p_wc)).z(); if (z < 0.02) comparable = false; if (z < -1e-6) violation("C08:behind", fmt("feature %u was used although it lies behind a camera", f->id)); }
        if (ok && margin > 1e-3 && DBL) {
            // the point the solver used must explain the measurements as well as the linear solution does
            double sa = 0, sb = 0;
            for (auto &v : vs) {
                V3 a = v.q_wc.inverse() * (pt - v.p_wc), c = v.q_wc.inverse() * (pw - v.p_wc);
                sa += (V2(a.x() / a.z(), a.y() / a.z()) - v.z).squaredNorm(); sb += (V2(c.x() / c.z(), c.y() / c.z()) - v.z).squaredNorm();
            }
            worst(2, (pt - pw).norm() / pt.norm());
            if (std::sqrt(sb) > 1.5 * std::sqrt(sa) + 2e-5) violation("C08:point", fmt("the position used for feature %u does not fit its measurements (%.3g against %.3g)", f->id, std::sqrt(sb), std::sqrt(sa)));
        }
        ref::FeatObs fo; fo.p_w = pw;
        for (auto &m : ms) fo.meas.push_back({m.frame, m.cam, m.z});
        obs.push_back(fo);
    }
    if ((int)used.size() > maxUsed) violation("C08:toomany", fmt("%zu features used, %d are configured", used.size(), maxUsed));
    if (used.empty()) {
        for (auto &e : wf[nf]->f) { V3 pt; double mg; if (ref::triangulate(views(e.first, nullptr), pt, mg) && mg > 1e-2) violation("C08:unused", fmt("no feature was used although feature %u triangulates", e.first)); }
    }
    double cond = 0;
    if (!obs.empty() && comparable) comparable = ref::update(x, obs, sigma, &cond);
    if (cond > 1e5) comparable = false;
    if (comparable && !obs.empty()) ++g_out->checksB;
    MX Pu = x.P;
    // window change
    ref::expand(x);
    std::vector<double> full;
    for (auto &f : pre.frames) full.push_back(f.t);
    full.push_back(t);
    std::vector<int> gone;
    size_t k2 = 0;
    for (size_t k = 0; k < full.size(); ++k) { if (k2 < post.frames.size() && post.frames[k2].t == full[k]) ++k2; else gone.push_back((int)k); }
    if (k2 != post.frames.size() || gone.size() > 1) violation("C08:window", "the window after the update is not the old one plus the new frame minus at most one");
    V3 newestP = x.p; Qd newestQ = x.q;
    if (gone.size() == 1) { ref::drop(x, gone[0]); ++g_out->checksC; }
    if (!comparable) return;
    // state
    const double ts = DBL ? 1e-8 : 0.05;
    auto sd = [&](int i) { return std::sqrt(std::max(0.0, P0(i, i))); };
    auto cmp3 = [&](const V3 &got, const V3 &want, int i, const char *what) {
        double s = (sd(i) + sd(i + 1) + sd(i + 2)) * ts + (DBL ? 1e-10 : 2e-5) * (1 + want.norm());
        double e = (got - want).norm();
        worst(3, e / s);
        if (!(e <= s)) violation(std::string("C08:state-") + what, fmt("%s after the update differs from the Kalman update by %.3g (tolerance %.3g)", what, e, s));
    };
    auto cmpq = [&](const Qd &got, const Qd &want, int i, const char *what) {
        double s = (sd(i) + sd(i + 1) + sd(i + 2)) * ts + (DBL ? 1e-10 : 2e-5);
        double e = angDiff(want, got);
        worst(3, e / s);
        if (!(e <= s)) violation(std::string("C08:state-") + what, fmt("%s after the update differs from the Kalman update by %.3g rad (tolerance %.3g)", what, e, s));
    };
    const NavState &f0 = post.items.front();
    cmp3(f0.p, x.p, 0, "position"); cmp3(f0.v, x.v, 3, "velocity"); cmpq(f0.q, x.q, 6, "attitude");
    cmp3(post.ba, x.ba, 9, "accelerometer-bias"); cmp3(post.bg, x.bg, 12, "gyroscope-bias");
    if (post.ext.size() != pre.ext.size()) violation("C08:ext", "the number of cameras changed");
    for (int c = 0; c < nc; ++c) { cmp3(post.ext[c].p, x.ext[c].p, 15 + 6 * c, "calibration"); cmpq(post.ext[c].q, x.ext[c].q, 18 + 6 * c, "calibration"); }
    for (size_t k = 0; k < post.frames.size(); ++k) {
        bool newest = k + 1 == post.frames.size() && post.frames[k].t == t;
        int orig = (int)k + (gone.size() == 1 && (int)k >= gone[0] ? 1 : 0);
        int pi = newest ? 0 : 15 + 6 * nc + 6 * orig, qi = newest ? 6 : pi + 3;
        cmp3(post.frames[k].p, newest ? newestP : x.frames[k].p, pi, newest ? "newest-pose" : "window-pose");
        cmpq(post.frames[k].q, newest ? newestQ : x.frames[k].q, qi, newest ? "newest-pose" : "window-pose");
    }
    // covariance
    if (f0.xc.cols() != post.exCam.rows() || post.exCam.rows() != x.P.rows() - 15) violation("C08:dimension", fmt("the covariance after the update has size %d, %d is due", 15 + (int)post.exCam.rows(), (int)x.P.rows()));
    MX G = assemble(f0, post.exCam);
    // scale: prior uncertainty of the component, carried through the window change
    VX s0(n + 6);
    for (int i = 0; i < n; ++i) s0(i) = sd(i);
    for (int j = 0; j < 3; ++j) { s0(n + j) = sd(j); s0(n + 3 + j) = sd(6 + j); }
    std::vector<double> sc;
    for (int i = 0; i < n + 6; ++i) if (gone.empty() || i < 15 + 6 * nc + 6 * gone[0] || i >= 15 + 6 * nc + 6 * gone[0] + 6) sc.push_back(s0(i));
    const double tp = DBL ? 1e-8 : 0.05;
    double smax = 0;
    for (double v : sc) smax = std::max(smax, v);
    const double fl = DBL ? 1e-7 * smax + 1e-9 : 1e-5;          // rounding is relative to the largest uncertainty
    double e = 0;
    for (int i = 0; i < G.rows(); ++i) for (int j = 0; j < G.cols(); ++j) {
        double d = std::fabs(G(i, j) - x.P(i, j)) / ((sc[i] + fl) * (sc[j] + fl));
        if (!(d <= tp)) violation("C08:covariance", fmt("covariance element (%d,%d) after the update is %.9g, the Kalman update gives %.9g (prior deviations %.3g, %.3g)", i, j, G(i, j), x.P(i, j), sc[i], sc[j]));
        e = std::max(e, d);
    }
    worst(4, e);
}

// ---- C09 ------------------------------------------------------------------------------------------------
void Inst::checkC09() {
    if (post.status != E::INITIALIZED || !stepPopped) return;
    ++g_out->checks;
    const double tu = DBL ? 1e-12 : 2e-6;
    auto unit = [&](const Qd &q, const char *what) {
        double e = std::fabs(std::sqrt(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z()) - 1);
        worst(0, e);
        if (!(e <= tu)) violation("C09:quaternion", fmt("the %s orientation is no unit quaternion (off by %.3g)", what, e));
    };
    auto fin = [&](const V3 &v, const char *what) { if (!v.allFinite()) violation("C09:finite", fmt("the %s is not finite", what)); };
    if (post.items.empty()) violation("C09:empty", "no state although initialised");
    for (auto &i : post.items) { unit(i.q, "motion"); fin(i.p, "position"); fin(i.v, "velocity"); }
    for (auto &f : post.frames) { unit(f.q, "window pose"); fin(f.p, "window pose"); }
    for (auto &x : post.ext) { unit(x.q, "calibration"); fin(x.p, "calibration"); }
    fin(post.ba, "accelerometer bias"); fin(post.bg, "gyroscope bias");
    int ex = 6 * (int)(post.ext.size() + post.frames.size());
    if (post.exCam.rows() != ex || post.exCam.cols() != ex) violation("C09:dimension", fmt("the covariance of calibration and window has size %d, %d is due", (int)post.exCam.rows(), ex));
    for (size_t k = 0; k < post.items.size(); ++k) {
        const NavState &s = post.items[k];
        if (s.cov.size() == 0) continue;
        if (s.xc.rows() != 15 || s.xc.cols() != ex) violation("C09:dimension", fmt("the cross covariance has %d columns, %d are due", (int)s.xc.cols(), ex));
        if (k != 0 && k + 1 != post.items.size() && (k % 7)) continue;
        MX P = assemble(s, post.exCam);
        const int n = (int)P.rows();
        if (!(maxAbs(P) < 1e300)) violation("C09:finite", "the covariance is not finite");
        double mx = 0;
        for (int i = 0; i < n; ++i) mx = std::max(mx, P(i, i));
        std::vector<double> d(n);
        for (int i = 0; i < n; ++i) {
            if (!std::isfinite(P(i, i))) violation("C09:finite", "the covariance is not finite");
            d[i] = std::sqrt(std::max(0.0, P(i, i)) + (DBL ? 1e-14 : 1e-8) * (1e-6 + mx));
        }
        const double ts = DBL ? 1e-9 : 1e-3, te = DBL ? p.num("psdtol", 1e-8) : p.num("psdtol", 1e-3);
        double asym = 0;
        MX A(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            asym = std::max(asym, std::fabs(P(i, j) - P(j, i)) / (d[i] * d[j]));
            A(i, j) = 0.5 * (P(i, j) + P(j, i)) / (d[i] * d[j]);
        }
        worst(1, asym);
        if (!(asym <= ts)) violation("C09:symmetry", fmt("the covariance is not symmetric (relative deviation %.3g)", asym));
        double lo = 0;
        if (g_calibrate) { for (lo = 1e-16; lo < 1; lo *= 2) { MX B = A; for (int i = 0; i < n; ++i) B(i, i) += lo; if (ref::cholesky(B)) break; } worst(2, lo); }
        for (int i = 0; i < n; ++i) A(i, i) += te;
        if (!ref::cholesky(A)) violation("C09:semidefinite", fmt("the joint covariance has a negative eigenvalue beyond rounding (item %zu of %zu, size %d)", k, post.items.size(), n));
        ++g_out->checksB;
    }
}
bool g_calibrate = false;
