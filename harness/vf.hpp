// Shared by every driver: reads one case per line (whitespace separated tokens written by tools/vf.py),
// writes one JSON line per case: {"id":N,"ev":[...]}, flushed, so that a crash is attributed to its case.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace vf {

struct Reader {
    std::istringstream in;
    explicit Reader(const std::string& s) : in(s) {}
    long i() { long v; if (!(in >> v)) { std::fprintf(stderr, "bad case line\n"); std::exit(99); } return v; }
    std::string s() { std::string v; in >> v; return v; }
    std::vector<long> vec() { long n = i(); std::vector<long> r(n); for (auto& x : r) x = i(); return r; }
    std::vector<std::vector<long>> mat() { long n = i(); std::vector<std::vector<long>> r(n); for (auto& x : r) x = vec(); return r; }
};

// JSON text builder
struct J {
    std::string t;
    static std::string num(long v) { return std::to_string(v); }
};
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(unsigned long v) { return std::to_string(v); }
inline std::string js(bool v) { return v ? "true" : "false"; }
inline std::string js(const std::string& v) { return "\"" + v + "\""; }
inline std::string js(const char* v) { return std::string("\"") + v + "\""; }
template <class T> std::string js(const std::vector<T>& v);
template <class A, class B> std::string js(const std::pair<A, B>& p);
template <class T> std::string js(const std::vector<T>& v) {
    std::string r = "[";
    for (std::size_t k = 0; k < v.size(); ++k) { if (k) r += ","; r += js(static_cast<T>(v[k])); }
    return r + "]";
}
template <class A, class B> std::string js(const std::pair<A, B>& p) { return "[" + js(p.first) + "," + js(p.second) + "]"; }

struct Obj {
    std::string t = "{";
    template <class T> Obj& f(const char* k, const T& v) { if (t.size() > 1) t += ","; t += "\""; t += k; t += "\":"; t += js(v); return *this; }
    Obj& raw(const char* k, const std::string& v) { if (t.size() > 1) t += ","; t += "\""; t += k; t += "\":"; t += v; return *this; }
    std::string str() const { return t + "}"; }
};
struct Events {
    std::vector<std::string> e;
    void add(const Obj& o) { e.push_back(o.str()); }
    std::string str() const { std::string r = "["; for (std::size_t k = 0; k < e.size(); ++k) { if (k) r += ","; r += e[k]; } return r + "]"; }
};

// --- projections of real numbers onto integers ---------------------------------------------------
constexpr long BAD = -999999;

// v is expected to be an integer (up to tol): that integer, else BAD
inline long to_int(double v, double tol = 1e-3) {
    if (!std::isfinite(v) || std::fabs(v) > 2e9) return BAD;
    double r = std::nearbyint(v);
    return std::fabs(v - r) <= tol ? static_cast<long>(r) : BAD;
}
// v is expected to be sqrt of an integer q >= 0: q, else BAD. rel: relative precision of v
inline long to_q(double v, double rel = 1e-4) {
    if (!std::isfinite(v) || v < 0 || v > 46000.0) return BAD;
    double q = std::nearbyint(v * v);
    double e = std::sqrt(q);
    return std::fabs(v - e) <= rel * (e > 1 ? e : 1.0) && (q == 0 || std::fabs(v * v - q) < 0.45) ? static_cast<long>(q) : BAD;
}
// fixed point
inline long to_fix(double v, double scale) {
    if (!std::isfinite(v) || std::fabs(v * scale) > 2e9) return BAD;
    return static_cast<long>(std::nearbyint(v * scale));
}

// the node a link leads to, whichever way the link is kept
template <class P> std::shared_ptr<P> locked(const std::shared_ptr<P>& p) { return p; }
template <class P> std::shared_ptr<P> locked(const std::weak_ptr<P>& p) { return p.lock(); }
template <class P> P* locked(P* p) { return p; }
template <class L> auto raw(const L& l) { auto p = locked(l); return p ? &*p : nullptr; }

inline std::string& out_buf() { static std::string b; return b; }

// Redirects the library's own stdout chatter to /dev/null and keeps the real stdout for results.
inline int& out_fd() { static int fd = 1; return fd; }

inline int run(const std::function<void(Reader&, Events&)>& f) {
    std::fflush(stdout);
    out_fd() = dup(1);
    int nul  = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        Reader r(line);
        long   id = r.i();
        Events ev;
        f(r, ev);
        std::string o = "{\"id\":" + std::to_string(id) + ",\"ev\":" + ev.str() + "}\n";
        std::size_t off = 0;
        while (off < o.size()) { auto w = write(out_fd(), o.data() + off, o.size() - off); if (w <= 0) return 98; off += w; }
    }
    return 0;
}

}  // namespace vf
