#include "ref.h"
#include <algorithm>

Snap takeSnap(E::Backend &b, int flags) {
    Snap s;
    auto &pr = SimProbe::prop(b);
    auto &fr = SimProbe::frm(b);
    s.status = (int)b.status;
    size_t n = pr.items.size(), i = 0;
    s.items.resize(n);
    for (auto &it : pr.items) {
        NavState &d = s.items[i];
        d.t = it->timeStamp;
        d.p = toD(it->nominalState.p_wb); d.v = toD(it->nominalState.v_wb); d.q = toD(it->nominalState.q_wb);
        d.acc = toD(it->accel); d.gyr = toD(it->gyro);
        if ((flags & SNAP_COV_ALL) || ((flags & SNAP_COV_ENDS) && (i == 0 || i + 1 == n))) {
            d.cov = it->imuCov.cast<double>();
            d.xc = it->imuExCamCov.cast<double>();
        }
        ++i;
    }
    if (flags) s.exCam = pr.exCamCov.cast<double>();
    s.ba = toD(pr.bias_a); s.bg = toD(pr.bias_g);
    for (auto &e : fr.extrinsics) s.ext.push_back({toD(e.p_bc), toD(e.q_bc)});
    for (auto &f : fr.frames) s.frames.push_back({f->id, f->timeStamp, toD(f->p_wb), toD(f->v_wb), toD(f->q_wb)});
    return s;
}

namespace ref {
// Householder triangularisation of the first k columns of A, applied to all of A. Plain loops on purpose.
static void householder(MX &A, int k) {
    const int m = (int)A.rows(), n = (int)A.cols();
    std::vector<double> v(m);
    for (int j = 0; j < k && j < m - 1; ++j) {
        double s = 0;
        for (int i = j; i < m; ++i) s += A(i, j) * A(i, j);
        s = std::sqrt(s);
        if (s == 0) continue;
        double a = A(j, j) > 0 ? -s : s, vv = 0;
        for (int i = j; i < m; ++i) { v[i] = A(i, j); if (i == j) v[i] -= a; vv += v[i] * v[i]; }
        if (vv == 0) continue;
        for (int c = j; c < n; ++c) {
            double *col = &A(0, c), d = 0;
            for (int i = j; i < m; ++i) d += v[i] * col[i];
            d *= 2 / vv;
            for (int i = j; i < m; ++i) col[i] -= d * v[i];
        }
    }
}
static MX mul(const MX &A, const MX &B, bool tb = false) {      // A*B or A*B^T
    const int m = (int)A.rows(), k = (int)A.cols(), n = (int)(tb ? B.rows() : B.cols());
    MX C = MX::Zero(m, n);
    for (int j = 0; j < n; ++j)
        for (int l = 0; l < k; ++l) {
            const double b = tb ? B(j, l) : B(l, j);
            if (b == 0) continue;
            const double *a = &A(0, l); double *c = &C(0, j);
            for (int i = 0; i < m; ++i) c[i] += a[i] * b;
        }
    return C;
}
// eigenvalues (ascending) and the eigenvector of the smallest one of a symmetric 4x4 matrix, by Jacobi rotations
static void eigen4(double A[4][4], double ev[4], double x[4]) {
    double V[4][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
    for (int sweep = 0; sweep < 60; ++sweep) {
        double off = 0, dg = 0;
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) (i == j ? dg : off) += A[i][j] * A[i][j];
        if (off <= 1e-40 * dg) break;
        for (int p = 0; p < 3; ++p) for (int q = p + 1; q < 4; ++q) {
            if (A[p][q] == 0) continue;
            double th = (A[q][q] - A[p][p]) / (2 * A[p][q]);
            double t = (th >= 0 ? 1.0 : -1.0) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < 4; ++k) { double a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
            for (int k = 0; k < 4; ++k) { double a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
            for (int k = 0; k < 4; ++k) { double a = V[k][p], b = V[k][q]; V[k][p] = c * a - s * b; V[k][q] = s * a + c * b; }
        }
    }
    int mi = 0;
    for (int i = 0; i < 4; ++i) { ev[i] = A[i][i]; if (ev[i] < ev[mi]) mi = i; }
    for (int k = 0; k < 4; ++k) x[k] = V[k][mi];
    std::sort(ev, ev + 4);
}
bool cholesky(MX &A) {                     // lower factor in place; false if not positive definite
    const int n = (int)A.rows();
    for (int j = 0; j < n; ++j) {
        double d = A(j, j);
        for (int k = 0; k < j; ++k) d -= A(j, k) * A(j, k);
        if (!(d > 0)) return false;
        d = std::sqrt(d); A(j, j) = d;
        for (int i = j + 1; i < n; ++i) {
            double s = A(i, j);
            for (int k = 0; k < j; ++k) s -= A(i, k) * A(j, k);
            A(i, j) = s / d;
        }
    }
    return true;
}
Qd smallRot(const V3 &th) { return Qd(1.0, 0.5 * th.x(), 0.5 * th.y(), 0.5 * th.z()); }
M3 skew(const V3 &v) { M3 m; m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0; return m; }

void propagate(NavState &s, const RawImu &to, const V3 &ba, const V3 &bg, double g, const Noise &n) {
    double dt = to.t - s.t;
    V3 w = 0.5 * (s.gyr + to.gyr) - bg;
    V3 am = 0.5 * (s.acc + to.acc) - ba;
    Qd q1 = (s.q * smallRot(w * dt)).normalized();
    V3 aw = 0.5 * (s.q * (s.acc - ba) + q1 * (to.acc - ba)) - V3(0, 0, g);
    V3 v1 = s.v + aw * dt;
    V3 p1 = s.p + 0.5 * (s.v + v1) * dt;
    // error model: p' = p + v dt ; v' = v - R [a]x th dt - R ba dt - R na dt ; th' = th - [w]x th dt - bg dt - ng dt
    M3 R = s.q.toRotationMatrix();
    MX F = MX::Identity(15, 15), B = MX::Zero(15, 12);
    F.block<3, 3>(0, 3) = dt * M3::Identity();
    F.block<3, 3>(3, 6) = -dt * (R * skew(am));
    F.block<3, 3>(3, 9) = -dt * R;
    F.block<3, 3>(6, 6) -= dt * skew(w);
    F.block<3, 3>(6, 12) = -dt * M3::Identity();
    B.block<3, 3>(0, 0) = 0.5 * dt * dt * R;
    B.block<3, 3>(3, 0) = dt * R;
    B.block<3, 3>(6, 3) = dt * M3::Identity();
    B.block<3, 3>(9, 6) = dt * M3::Identity();
    B.block<3, 3>(12, 9) = dt * M3::Identity();
    VX d(12);
    d << n.na, n.na, n.na, n.ng, n.ng, n.ng, n.nwa, n.nwa, n.nwa, n.nwg, n.nwg, n.nwg;
    if (s.cov.size()) {
        MX Bd = B;
        for (int j = 0; j < 12; ++j) Bd.col(j) *= d(j);
        s.cov = mul(mul(F, s.cov), F, true) + mul(Bd, B, true);
        s.xc = mul(F, s.xc);
    }
    s.t = to.t; s.p = p1; s.v = v1; s.q = q1; s.acc = to.acc; s.gyr = to.gyr;
}

bool triangulate(const std::vector<View> &views, V3 &p, double &margin) {
    margin = 0;
    if (views.size() < 2) { margin = 1; return false; }
    double A[4][4] = {}, ev[4], xv[4];
    for (auto &vw : views) {
        M3 R = vw.q_wc.inverse().toRotationMatrix();
        V3 t = -(R * vw.p_wc);
        for (int k = 0; k < 2; ++k) {
            double z = k ? vw.z.y() : vw.z.x(), row[4];
            for (int j = 0; j < 4; ++j) row[j] = z * (j < 3 ? R(2, j) : t(2)) - (j < 3 ? R(k, j) : t(k));
            for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) A[i][j] += row[i] * row[j];
        }
    }
    eigen4(A, ev, xv);
    Eigen::Vector4d x(xv[0], xv[1], xv[2], xv[3]);
    double gap = ev[1] / std::max(1e-300, ev[3]);       // is the null direction well defined?
    double w = std::fabs(x(3));
    if (w < 1e-6) { margin = std::min(gap * 1e6, (1e-6 - w) / 1e-6); return false; }
    p = x.head<3>() / x(3);
    bool front = true;
    double zm = 1e300;
    for (auto &v : views) {
        V3 c = v.q_wc.inverse() * (p - v.p_wc);
        zm = std::min(zm, c.z());
        if (c.z() < 0) front = false;
    }
    margin = std::min({gap * 1e6, (w - 1e-6) / 1e-6, front ? std::max(0.0, zm - 0.3) : std::fabs(zm) / 1e-3});   // points right in front of a camera may be refused
    return front;
}

// A number with its derivative along one direction: exact derivatives of the measurement model without formulae.
struct Dual { double v, d; };
static Dual operator+(Dual a, Dual b) { return {a.v + b.v, a.d + b.d}; }
static Dual operator-(Dual a, Dual b) { return {a.v - b.v, a.d - b.d}; }
static Dual operator*(Dual a, Dual b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
static Dual operator/(Dual a, Dual b) { double q = a.v / b.v; return {q, (a.d - q * b.d) / b.v}; }
struct DVec { Dual c[3]; };
static DVec lift(const V3 &v, const V3 &d) { return {{{v.x(), d.x()}, {v.y(), d.y()}, {v.z(), d.z()}}}; }
// x expressed in the frame (p, q), where the pose is disturbed by dp and, on the right, by the rotation dth
static DVec intoFrame(const DVec &x, const V3 &p, const Qd &q, const V3 &dp, const V3 &dth) {
    M3 R = q.toRotationMatrix(), dR = R * skew(dth);
    DVec r;
    for (int i = 0; i < 3; ++i) {
        r.c[i] = {0, 0};
        for (int j = 0; j < 3; ++j) r.c[i] = r.c[i] + Dual{R(j, i), dR(j, i)} * (x.c[j] - Dual{p[j], dp[j]});
    }
    return r;
}
struct Dir { V3 f = V3::Zero(), pb = V3::Zero(), tb = V3::Zero(), pc = V3::Zero(), tc = V3::Zero(); };
static void project(const V3 &pw, const V3 &p_wb, const Qd &q_wb, const V3 &p_bc, const Qd &q_bc, const Dir &d, V2 &z, V2 &dz) {
    DVec c = intoFrame(intoFrame(lift(pw, d.f), p_wb, q_wb, d.pb, d.tb), p_bc, q_bc, d.pc, d.tc);
    Dual u = c.c[0] / c.c[2], v = c.c[1] / c.c[2];
    z = V2(u.v, v.v); dz = V2(u.d, v.d);
}
static Qd turn(const Qd &q, const V3 &th) { return (q * smallRot(th)).normalized(); }

bool update(Full &x, const std::vector<FeatObs> &feats, double sigma, double *maxCond) {
    const int nc = (int)x.ext.size(), nf = (int)x.frames.size(), n = 15 + 6 * nc + 6 * nf;
    int rows = 0;
    for (auto &f : feats) rows += 2 * (int)f.meas.size() - 3;
    MX H = MX::Zero(rows, n); VX r(rows);
    int at = 0;
    *maxCond = 0;
    for (auto &f : feats) {
        int m = (int)f.meas.size();
        MX Hf(2 * m, 3), Hx = MX::Zero(2 * m, n); VX rr(2 * m);
        for (int k = 0; k < m; ++k) {
            const Meas &z = f.meas[k];
            bool newest = z.frame == nf;
            V3 pb = newest ? x.p : x.frames[z.frame].p; Qd qb = newest ? x.q : x.frames[z.frame].q;
            V3 pc = x.ext[z.cam].p; Qd qc = x.ext[z.cam].q;
            V2 zh, dz;
            // derivative of the predicted measurement with respect to the point and every error component
            int cp = newest ? 0 : 15 + 6 * nc + 6 * z.frame, ct = newest ? 6 : cp + 3, ce = 15 + 6 * z.cam;
            for (int j = 0; j < 3; ++j) {
                V3 e = V3::Unit(j);
                auto col = [&](V3 Dir::*m) { Dir d; d.*m = e; project(f.p_w, pb, qb, pc, qc, d, zh, dz); return dz; };
                Hf.block<2, 1>(2 * k, j) = col(&Dir::f);
                Hx.block<2, 1>(2 * k, cp + j) = col(&Dir::pb);
                Hx.block<2, 1>(2 * k, ct + j) = col(&Dir::tb);
                Hx.block<2, 1>(2 * k, ce + j) = col(&Dir::pc);
                Hx.block<2, 1>(2 * k, ce + 3 + j) = col(&Dir::tc);
            }
            rr.segment<2>(2 * k) = z.z - zh;
        }
        MX J(2 * m, 4 + n);
        J.leftCols(3) = Hf; J.middleCols(3, n) = Hx; J.col(3 + n) = rr;
        householder(J, 3);
        double dmax = 0, dmin = 1e300;
        for (int j = 0; j < 3; ++j) { dmax = std::max(dmax, std::fabs(J(j, j))); dmin = std::min(dmin, std::fabs(J(j, j))); }
        *maxCond = std::max(*maxCond, dmax / std::max(1e-300, dmin));
        for (int i = 0; i < 2 * m - 3; ++i) {
            for (int j = 0; j < n; ++j) H(at + i, j) = J(3 + i, 3 + j);
            r(at + i) = J(3 + i, 3 + n);
        }
        at += 2 * m - 3;
    }
    if (rows > n) {             // an orthogonal change of measurement basis: same information, fewer rows
        MX Hr(rows, n + 1); Hr.leftCols(n) = H; Hr.col(n) = r;
        householder(Hr, n);
        H.resize(n, n); r.resize(n);
        for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) H(i, j) = j < i ? 0.0 : Hr(i, j); r(i) = Hr(i, n); }
        rows = n;
    }
    MX PHt = mul(x.P, H, true);
    MX Sm = mul(H, PHt);
    Sm.diagonal().array() += sigma * sigma;
    if (!cholesky(Sm)) return false;
    MX K = PHt;                                            // K = PHt S^-1, row by row with the triangular factor
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < rows; ++j) { double s = K(i, j); for (int k = 0; k < j; ++k) s -= K(i, k) * Sm(j, k); K(i, j) = s / Sm(j, j); }
        for (int j = rows - 1; j >= 0; --j) { double s = K(i, j); for (int k = j + 1; k < rows; ++k) s -= K(i, k) * Sm(k, j); K(i, j) = s / Sm(j, j); }
    }
    VX dx = VX::Zero(n);
    for (int j = 0; j < rows; ++j) for (int i = 0; i < n; ++i) dx(i) += K(i, j) * r(j);
    MX A = -mul(K, H);
    for (int i = 0; i < n; ++i) A(i, i) += 1;
    MX KK = mul(K, K, true);
    x.P = mul(mul(A, x.P), A, true);
    x.P += (sigma * sigma) * KK;
    x.p += dx.segment<3>(0); x.v += dx.segment<3>(3); x.q = turn(x.q, dx.segment<3>(6));
    x.ba += dx.segment<3>(9); x.bg += dx.segment<3>(12);
    for (int c = 0; c < nc; ++c) { x.ext[c].p += dx.segment<3>(15 + 6 * c); x.ext[c].q = turn(x.ext[c].q, dx.segment<3>(18 + 6 * c)); }
    for (int f = 0; f < nf; ++f) { int o = 15 + 6 * nc + 6 * f; x.frames[f].p += dx.segment<3>(o); x.frames[f].q = turn(x.frames[f].q, dx.segment<3>(o + 3)); }
    return true;
}

void expand(Full &x) {
    const int n = (int)x.P.rows();
    MX T = MX::Zero(n + 6, n);
    T.topRows(n).setIdentity();
    T.block<3, 3>(n, 0).setIdentity();
    T.block<3, 3>(n + 3, 6).setIdentity();
    x.P = mul(mul(T, x.P), T, true);
    x.frames.push_back({x.p, x.q});
}
void drop(Full &x, int frame) {
    const int n = (int)x.P.rows(), o = 15 + 6 * (int)x.ext.size() + 6 * frame;
    MX T = MX::Zero(n - 6, n);
    T.topLeftCorner(o, o).setIdentity();
    T.bottomRightCorner(n - 6 - o, n - 6 - o).setIdentity();
    x.P = mul(mul(T, x.P), T, true);
    x.frames.erase(x.frames.begin() + frame);
}
}
