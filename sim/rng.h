// Deterministic pseudo-random numbers of the simulator.
#pragma once
#include <cmath>
#include <cstdint>

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
inline uint64_t hash64(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0, uint64_t e = 0) {
    return mix64(mix64(mix64(mix64(mix64(a) ^ b) ^ c) ^ d) ^ e);
}
inline double h2u(uint64_t h) { return (double)(h >> 11) * (1.0 / 9007199254740992.0); }
inline double hashU(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0, uint64_t e = 0) { return h2u(hash64(a, b, c, d, e)); }
inline double hashN(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0, uint64_t e = 0) {
    uint64_t h = hash64(a, b, c, d, e);
    double u1 = h2u(h), u2 = h2u(mix64(h ^ 0xabcdef));
    if (u1 < 1e-16) u1 = 1e-16;
    return std::sqrt(-2 * std::log(u1)) * std::cos(6.283185307179586 * u2);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
    double u() { return h2u(next()); }
    double u(double a, double b) { return a + (b - a) * u(); }
    long i(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }     // inclusive
    bool p(double q) { return u() < q; }
    double n() { double a = u(), b = u(); if (a < 1e-16) a = 1e-16; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
    double expo(double mean) { double a = u(); if (a < 1e-16) a = 1e-16; return -mean * std::log(a); }
    template <class T> const T &pick(const T *v, int n_) { return v[i(0, n_ - 1)]; }
    template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[i(0, (long)N - 1)]; }
};
