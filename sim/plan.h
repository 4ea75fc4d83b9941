// A plan is one complete, replayable simulated execution: parameters of the world and of the configuration,
// followed by the list of operations (hand-overs, processing calls, faults) in the order they happen.
#pragma once
#include <map>
#include <string>
#include <utility>
#include <vector>

struct Op {
    char kind = 0;              // see main comment in exec.cpp
    int b = 0;                  // estimator index
    long k = 0;                 // sample / frame index, count, reseed value ...
    std::vector<std::pair<std::string, std::string>> muts;
    bool has(const char *key) const { for (auto &m : muts) if (m.first == key) return true; return false; }
    std::string get(const char *key, const char *def = "") const { for (auto &m : muts) if (m.first == key) return m.second; return def; }
    double num(const char *key, double def = 0) const { for (auto &m : muts) if (m.first == key) return std::stod(m.second); return def; }
    std::string text() const;
};

struct Plan {
    std::map<std::string, std::string> hdr;
    std::vector<Op> ops;
    double num(const std::string &k, double def) const { auto it = hdr.find(k); return it == hdr.end() ? def : std::stod(it->second); }
    long lnum(const std::string &k, long def) const { auto it = hdr.find(k); return it == hdr.end() ? def : std::stol(it->second); }
    std::string str(const std::string &k, const std::string &def) const { auto it = hdr.find(k); return it == hdr.end() ? def : it->second; }
    void set(const std::string &k, double v);
    void set(const std::string &k, const std::string &v) { hdr[k] = v; }
    std::string text() const;
    static Plan parse(const std::string &text);
};
std::string dstr(double v);     // shortest text that reads back exactly
