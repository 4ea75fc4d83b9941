#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>

std::string dstr(double v) {
    char b[40];
    for (int p = 6; p <= 17; ++p) { snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, nullptr) == v) break; }
    return b;
}
void Plan::set(const std::string &k, double v) { hdr[k] = dstr(v); }
std::string Op::text() const {
    std::string s(1, kind);
    s += " " + std::to_string(b) + " " + std::to_string(k);
    for (auto &m : muts) { s += " " + m.first; if (!m.second.empty()) s += "=" + m.second; }
    return s;
}
std::string Plan::text() const {
    std::string s;
    for (auto &h : hdr) s += "#" + h.first + " " + h.second + "\n";
    for (auto &o : ops) s += o.text() + "\n";
    return s;
}
Plan Plan::parse(const std::string &text) {
    Plan p;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '%') continue;
        if (line[0] == '#') {
            size_t sp = line.find(' ');
            if (sp == std::string::npos) p.hdr[line.substr(1)] = "";
            else p.hdr[line.substr(1, sp - 1)] = line.substr(sp + 1);
            continue;
        }
        std::istringstream ls(line);
        Op o; std::string t;
        ls >> o.kind >> o.b >> o.k;
        while (ls >> t) {
            size_t e = t.find('=');
            if (e == std::string::npos) o.muts.emplace_back(t, ""); else o.muts.emplace_back(t.substr(0, e), t.substr(e + 1));
        }
        p.ops.push_back(o);
    }
    return p;
}
