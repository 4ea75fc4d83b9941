#include "world.h"
#include <algorithm>

static Qd randomRotation(Rng &r, double maxAngle) {
    V3 ax(r.n(), r.n(), r.n());
    if (ax.norm() < 1e-9) ax = V3(1, 0, 0);
    return Qd(Eigen::AngleAxisd(r.u(0, maxAngle), ax.normalized()));
}

World::World(const Plan &p) {
    seed = (uint64_t)p.lnum("wseed", 1);
    t0 = p.num("t0", 0); dt = p.num("dt", 0.005); camDiv = p.num("camdiv", 10); camPhase = p.num("camphase", 0);
    ncam = (int)p.lnum("ncam", 2);
    gravity = p.num("gravity", 9.8); restT = p.num("rest", 0.5); rampT = p.num("ramp", 1.5);
    sa = p.num("sa", 0); sg = p.num("sg", 0); spx = p.num("spx", 0);
    nfeat = p.lnum("nfeat", 30);
    jitImu = p.num("jitimu", 0); jitCam = p.num("jitcam", 0);
    occl = p.num("occl", 0); depthMax = p.num("depth", 10); idmode = (int)p.lnum("idmode", 0);
    rigidYawRate = p.num("yawrate", 0);
    mono = p.lnum("mono", 0) != 0;
    fewStereo = p.lnum("fewstereo", 0) != 0;
    Rng r(hash64(seed, 11));
    double A = p.num("amp", 0.6), AR = p.num("ampr", 0.3);
    for (int ax = 0; ax < 3; ++ax)
        for (int j = 0; j < 3; ++j) {
            amp[ax][j] = A * r.u(-1, 1) / (j + 1); frq[ax][j] = r.u(0.4, 0.9) * (j + 1); pha[ax][j] = r.u(0, 6.28);
            ramp_[ax][j] = AR * r.u(-1, 1) / (j + 1); rfrq[ax][j] = r.u(0.4, 0.9) * (j + 1); rpha[ax][j] = r.u(0, 6.28);
        }
    int m = (int)p.lnum("mount", 0);
    mount = Qd::Identity();
    double tilt = p.num("tilt", 3.14159);
    if (m == 1) mount = randomRotation(r, tilt);
    else if (m == 2) mount = Qd(Eigen::AngleAxisd(3.14159265358979, V3(1, 0, 0)));
    else if (m == 3) mount = Qd(Eigen::AngleAxisd(r.u(-tilt, tilt), V3(std::cos(r.u(0, 6.28)), std::sin(r.u(0, 6.28)), 0).normalized()));
    else if (m == 4) mount = Qd(Eigen::AngleAxisd(1.5707963267948966, V3(0, 1, 0)));
    ba = p.num("ba", 0) * V3(r.n(), r.n(), r.n()).normalized();
    bg = p.num("bg", 0) * V3(r.n(), r.n(), r.n()).normalized();
    // camera rig: all cameras look in roughly the same direction
    Qd qrig = p.lnum("rigrot", 1) ? randomRotation(r, 3.1) : Qd::Identity();
    V3 prig = V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * p.num("lever", 0.1);
    double base = p.num("baseline", 0.25);
    for (int c = 0; c < ncam; ++c) {
        Qd dq = randomRotation(r, p.num("camrot", 0.08));
        V3 off(base * c, r.u(-0.02, 0.02) * c, r.u(-0.02, 0.02) * c);
        q_bc.push_back((qrig * dq).normalized());
        p_bc.push_back(prig + qrig * off);
    }
    long nlm = nfeat * 14;
    double dmin = p.num("dmin", 2.5 + A);
    for (long i = 0; i < nlm; ++i) {
        V3 d(r.n(), r.n(), r.n());
        if (d.norm() < 1e-6) d = V3(1, 0, 0);
        lm.push_back(d.normalized() * r.u(dmin, dmin + depthMax));
        lmId.push_back(idmode == 0 ? (uint32_t)i + 1 : idmode == 1 ? (uint32_t)((hash64(seed, 77, i) & ~1023u) | (uint64_t)i) : (uint32_t)(4294967295u - i * 7));
    }
}

void World::warp(double t, double &u, double &du, double &ddu) const {
    if (t <= restT) { u = du = ddu = 0; return; }
    double s = t - restT;
    if (s >= rampT) { u = 0.5 * rampT + (s - rampT); du = 1; ddu = 0; return; }
    double x = s / rampT;                         // smoothstep speed 3x^2-2x^3
    u = rampT * (x * x * x - 0.5 * x * x * x * x);
    du = 3 * x * x - 2 * x * x * x;
    ddu = (6 * x - 6 * x * x) / rampT;
}

Truth World::truth(double t) const {
    double u, du, ddu;
    warp(t, u, du, ddu);
    Truth r;
    double e[3], de[3];
    for (int ax = 0; ax < 3; ++ax) {
        double P = 0, dP = 0, ddP = 0, E = 0, dE = 0;
        for (int j = 0; j < 3; ++j) {
            double f = frq[ax][j], a = amp[ax][j], ph = pha[ax][j];
            P += a * (std::sin(f * u + ph) - std::sin(ph)); dP += a * f * std::cos(f * u + ph); ddP -= a * f * f * std::sin(f * u + ph);
            f = rfrq[ax][j]; a = ramp_[ax][j]; ph = rpha[ax][j];
            E += a * (std::sin(f * u + ph) - std::sin(ph)); dE += a * f * std::cos(f * u + ph);
        }
        r.p[ax] = P; r.v[ax] = dP * du; r.a[ax] = ddP * du * du + dP * ddu;
        e[ax] = E; de[ax] = dE * du;
    }
    e[2] += rigidYawRate * u; de[2] += rigidYawRate * du;
    double ro = e[0], pi = e[1], ya = e[2];
    Qd qe = Qd(Eigen::AngleAxisd(ya, V3::UnitZ())) * Qd(Eigen::AngleAxisd(pi, V3::UnitY())) * Qd(Eigen::AngleAxisd(ro, V3::UnitX()));
    V3 we(de[0] - de[2] * std::sin(pi),
          de[1] * std::cos(ro) + de[2] * std::sin(ro) * std::cos(pi),
          -de[1] * std::sin(ro) + de[2] * std::cos(ro) * std::cos(pi));
    r.q = (qe * mount).normalized();
    r.w = mount.inverse() * we;
    return r;
}

static double dyadic(double v) { return std::floor(v * 1048576.0) / 1048576.0; }
double World::imuTime(long k) const {
    double t = k * dt;
    if (jitImu > 0) t += dyadic(jitImu * dt * (hashU(seed, 21, k) - 0.5));
    return t;
}
double World::camTime(long f) const {
    double t = (f * camDiv + camPhase) * dt;
    if (jitCam > 0) t += dyadic(jitCam * camDiv * dt * (hashU(seed, 22, f) - 0.5));
    return t;
}
ImuSample World::imu(long k) const {
    double t = imuTime(k);
    Truth x = truth(t);
    ImuSample s;
    s.t = t0 + t;
    s.acc = x.q.inverse() * (x.a + V3(0, 0, gravity)) + ba;
    s.gyr = x.w + bg;
    if (sa > 0) s.acc += sa * V3(hashN(seed, 31, k, 0), hashN(seed, 31, k, 1), hashN(seed, 31, k, 2));
    if (sg > 0) s.gyr += sg * V3(hashN(seed, 32, k, 0), hashN(seed, 32, k, 1), hashN(seed, 32, k, 2));
    return s;
}
FeatSample World::feat(long f) const {
    double t = camTime(f);
    Truth x = truth(t);
    FeatSample out;
    out.t = t0 + t;
    struct Cand { uint64_t pr; long i; std::map<int, V2> obs; };
    std::vector<Cand> cs;
    std::vector<Qd> qcw; std::vector<V3> pwc;
    for (int c = 0; c < ncam; ++c) { qcw.push_back((x.q * q_bc[c]).inverse()); pwc.push_back(x.q * p_bc[c] + x.p); }
    for (long i = 0; i < (long)lm.size(); ++i) {
        Cand cd; cd.i = i;
        if (occl > 0) {                         // hidden for whole slots of about a second: tracks are lost and found again
            long slot = (long)std::floor(t / (0.6 + hashU(seed, 41, i)) + 10 * hashU(seed, 42, i));
            if (hashU(seed, 43, i, slot) < occl) continue;
        }
        for (int c = 0; c < ncam; ++c) {
            if (mono && c > 0) break;
            if (fewStereo && c > 0 && (hash64(seed, 46, i) % 7) != 0) continue;
            V3 pc = qcw[c] * (lm[i] - pwc[c]);
            if (pc.z() < 0.3) continue;
            V2 n(pc.x() / pc.z(), pc.y() / pc.z());
            if (std::fabs(n.x()) > 0.9 || std::fabs(n.y()) > 0.7) continue;
            if (occl > 0 && hashU(seed, 44, i, c, (uint64_t)std::floor(t / 0.8)) < occl * 0.5) continue;
            if (spx > 0) n += spx * V2(hashN(seed, 45, i, c, f * 2), hashN(seed, 45, i, c, f * 2 + 1));
            cd.obs[c] = n;
        }
        if (cd.obs.empty()) continue;
        cd.pr = hash64(seed, 47, i);
        cs.push_back(cd);
    }
    std::sort(cs.begin(), cs.end(), [](const Cand &a, const Cand &b) { return a.pr < b.pr; });
    if ((long)cs.size() > nfeat) cs.resize(nfeat);
    std::sort(cs.begin(), cs.end(), [](const Cand &a, const Cand &b) { return a.i < b.i; });
    for (auto &c : cs) out.feats.push_back({lmId[c.i], c.obs});
    return out;
}
