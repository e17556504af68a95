#include "tree.hpp"
#include "ffcl/common/math/random/Distributions.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include <map>
#include <numeric>
namespace rnd = ffcl::common::math::random;
namespace kpp = ffcl::kmeansplusplus;
using VL = std::vector<long>;
template <class V> VL L(const V& v) { VL o; for (auto x : v) o.push_back(static_cast<long>(x)); return o; }
template <class T> void select(vf::Reader& r, vf::Events& ev) {
    std::size_t n = r.i(); auto a0 = r.vec(); long draws = r.i(), how = r.i();
    std::vector<T> a(a0.begin(), a0.end());
    std::map<VL, long> arr; std::vector<VL> slots(n, VL(a.size(), 0)); std::map<long, std::size_t> at; for (std::size_t i = 0; i < a0.size(); ++i) at[a0[i]] = i;
    bool dup = at.size() != a0.size(), bad = false;
    for (long d = 0; d < draws; ++d) {
        std::vector<T> v;
        if (how == 0) v = rnd::select_n_elements(a.begin(), a.end(), n);
        else v = rnd::make_n_elements_from_interval<T>(n, std::pair<T, T>(static_cast<T>(a0[0]), static_cast<T>(a0[0] + (long)a0.size())));
        auto lv = L(v);
        bool odd = lv.size() != n; for (auto x : lv) if (!at.count(x)) odd = true;
        { auto t = lv; std::sort(t.begin(), t.end()); if (!dup && std::unique(t.begin(), t.end()) != t.end()) odd = true; }
        if (d < 15 || (odd && !bad)) { vf::Obj e; e.f("op", "draw").f("v", lv); ev.add(e); }
        if (odd) { bad = true; continue; }
        if (!dup) { ++arr[lv]; for (std::size_t s = 0; s < n; ++s) ++slots[s][at[lv[s]]]; }
    }
    if (!dup && draws > 100 && n) {
        long tot = 1; for (std::size_t i = 0; i < n && tot < 1000000; ++i) tot *= a.size() - i;
        if (tot * 300 <= draws) { std::vector<std::pair<VL, long>> o(arr.begin(), arr.end()); vf::Obj e; e.f("op", "arrangements").f("v", o).f("draws", draws); ev.add(e); }
        vf::Obj e; e.f("op", "slots").f("v", slots).f("draws", draws); ev.add(e);
    }
}
template <class T> void rows(vf::Reader& r, vf::Events& ev) {
    std::size_t n = r.i(), nf = r.i(); auto X = r.mat(); auto ind0 = r.vec(); long draws = r.i(), how = r.i();
    auto d = vf::make_data<T>(X, nf, 0, 0);
    std::vector<std::size_t> ind(ind0.begin(), ind0.end());
    std::map<VL, long> hist; bool one = false;
    std::map<VL, long> known; for (auto& x : X) known[x] = 1;
    for (long q = 0; q < draws; ++q) {
        std::vector<T> v;
        switch (how) {
            case 0: v = rnd::select_random_sample(d.x.begin(), d.x.end(), nf); one = true; break;
            case 1: v = rnd::select_n_random_samples(d.x.begin(), d.x.end(), nf, n); break;
            case 2: v = rnd::init_uniform(d.x.begin(), d.x.end(), nf, n); break;
            case 3: v = rnd::select_n_random_samples_from_indices(ind.begin(), ind.end(), d.x.begin(), d.x.end(), nf, n); break;
            case 4: v = kpp::make_centroids(d.x.begin(), d.x.end(), nf, n); break;
            default: v = kpp::make_centroids_from_previous_centroid(d.x.begin(), d.x.end(), nf, n); break;
        }
        std::vector<VL> rs; for (std::size_t i = 0; i + nf <= v.size(); i += nf) rs.push_back(L(std::vector<T>(v.begin() + i, v.begin() + i + nf)));
        bool odd = false; for (auto& x : rs) if (!known.count(x)) odd = true;
        if (q < 12 || odd) { vf::Obj e; e.f("op", how < 4 ? "rows" : how == 4 ? "pp" : "prev").f("from", how == 3 ? "ind" : "all").f("v", rs); ev.add(e); }
        if (odd) break;
        if (!rs.empty()) ++hist[rs[0]];   // every slot is uniform: count the first
    }
    // how often a row with the position of sample i came first
    if (draws > 100) { VL o; for (auto& x : X) o.push_back(hist[x]); vf::Obj e; e.f("op", "rowcounts").f("from", how == 3 ? "ind" : "all").f("v", o).f("draws", draws); ev.add(e); }
}
template <class T> void pairs(vf::Reader& r, vf::Events& ev) {   // different samples on a line
    auto x0 = r.vec(); long draws = r.i(), how = r.i(); std::vector<T> x(x0.begin(), x0.end());
    std::map<long, std::size_t> at; for (std::size_t i = 0; i < x0.size(); ++i) at[x0[i]] = i;
    std::vector<VL> h(x.size(), VL(x.size(), 0));
    for (long q = 0; q < draws; ++q) {
        auto c = how == 0 ? kpp::make_centroids(x.begin(), x.end(), 1, 2) : kpp::make_centroids_from_previous_centroid(x.begin(), x.end(), 1, 2);
        ++h[at[static_cast<long>(c[0])]][at[static_cast<long>(c[1])]];
    }
    vf::Obj e; e.f("op", "pairs").f("v", h).f("draws", draws); ev.add(e);
}
template <class T> void box(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); long draws = r.i(), sexp = r.i();
    auto d = vf::make_data<T>(X, nf, sexp, 0);
    auto v = rnd::init_spatial_uniform(d.x.begin(), d.x.end(), nf, static_cast<std::size_t>(draws) - 160);
    for (std::size_t n : {1, 2, 3, 4, 7, 15}) for (int again = 0; again < 5; ++again) {   // few centroids at a time, 160 in all
        auto w = rnd::init_spatial_uniform(d.x.begin(), d.x.end(), nf, n); v.insert(v.end(), w.begin(), w.end());
    }
    std::vector<VL> q(nf, VL(4, 0)); VL lo, hi; std::vector<bool> in;
    for (std::size_t f = 0; f < nf; ++f) {
        double mn = 1e300, mx = -1e300; for (auto& s : X) { mn = std::min(mn, (double)s[f]); mx = std::max(mx, (double)s[f]); }
        double a = 1e300, b = -1e300; bool ok = v.size() == nf * draws;
        for (std::size_t i = f; i < v.size(); i += nf) {
            double y = static_cast<double>(v[i]) / d.scale; a = std::min(a, y); b = std::max(b, y); if (!(y >= mn && y <= mx)) ok = false;
            if (mx > mn && y >= mn && y <= mx) ++q[f][std::min(3, (int)(4 * (y - mn) / (mx - mn)))];
        }
        lo.push_back(vf::to_fix(a, 1000)); hi.push_back(vf::to_fix(b, 1000)); in.push_back(ok);
    }
    vf::Obj e; e.f("op", "box").f("lo", lo).f("hi", hi).f("in", in).f("q", q).f("draws", draws); ev.add(e);
}
template <class T> void weights(vf::Reader& r, vf::Events& ev) {
    auto w0 = r.vec(); long draws = r.i(); std::vector<T> w(w0.begin(), w0.end());
    bool thrown = false; VL h(w.size(), 0); long bad = 0;
    try {
        rnd::VosesAliasMethod<T> v(w);
        for (long q = 0; q < draws; ++q) { auto i = q % 2 ? v.sample() : v(); if (i < h.size()) ++h[i]; else ++bad; }
    } catch (const std::invalid_argument&) { thrown = true; }
    { vf::Obj e; e.f("op", "throw").f("v", thrown); ev.add(e); }
    if (!thrown) { vf::Obj e; e.f("op", "weights").f("v", h).f("draws", draws); ev.add(e); }
}
template <class T> void ints(vf::Reader& r, vf::Events& ev) {
    long lo = r.i(), hi = r.i(), draws = r.i(); VL h(hi - lo + 1, 0); long out = 0;
    rnd::uniform_distribution<T> u(static_cast<T>(lo), static_cast<T>(hi));
    for (long q = 0; q < draws; ++q) { long x = static_cast<long>(q % 3 ? u() : u(static_cast<std::size_t>(7))); if (x >= lo && x <= hi) ++h[x - lo]; else ++out; }
    vf::Obj e; e.f("op", "ints").f("v", h).f("out", out).f("draws", draws); ev.add(e);
}
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) {
        long k = r.i(), t = r.i();
        switch (k) {
            case 0: if (t == 0) select<std::size_t>(r, ev); else if (t == 1) select<int>(r, ev); else select<long>(r, ev); break;
            case 1: if (t == 0) rows<double>(r, ev); else rows<float>(r, ev); break;
            case 2: if (t == 0) pairs<double>(r, ev); else pairs<float>(r, ev); break;
            case 3: if (t == 0) box<double>(r, ev); else box<float>(r, ev); break;
            case 4: if (t == 0) weights<double>(r, ev); else if (t == 1) weights<float>(r, ev); else if (t == 2) weights<int>(r, ev); else weights<std::size_t>(r, ev); break;
            default: if (t == 0) ints<int>(r, ev); else if (t == 1) ints<std::size_t>(r, ev); else ints<long>(r, ev);
        }
    });
}
