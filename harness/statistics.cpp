#include "tree.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
namespace st = ffcl::common::math::statistics;
template <class T> void samples(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto ind0 = r.vec(); auto mask0 = r.vec(); long sexp = r.i(), off = r.i();
    auto d = vf::make_data<T>(X, nf, sexp, off);
    std::vector<std::size_t> ind(ind0.begin(), ind0.end()), mask(mask0.begin(), mask0.end());
    constexpr bool fl = std::is_floating_point_v<T>;
    auto& x = d.x;
    auto mean = [&](const char* var, std::vector<T> v, std::size_t n) {
        std::vector<long> o;
        for (auto m : v) if constexpr (fl) o.push_back(vf::to_int((static_cast<double>(m) / d.scale - off) * n, 0.05)); else o.push_back(static_cast<long>(m));
        vf::Obj e; e.f("op", "mean").f("var", var).f("v", o); ev.add(e);
    };
    mean("plain", st::compute_mean_per_feature(x.begin(), x.end(), nf), X.size());
    mean("indexed", st::compute_mean_per_feature(ind.begin(), ind.end(), x.begin(), x.end(), nf), ind.size());
    mean("masked", st::compute_mean_per_feature(ind.begin(), ind.end(), x.begin(), x.end(), nf, mask), ind.size());
    if constexpr (fl) {
        auto vari = [&](const char* var, std::vector<T> v, std::size_t n) {
            if (n < 2) return;
            std::vector<long> o;
            for (auto m : v) o.push_back(vf::to_fix(static_cast<double>(m) / d.scale / d.scale * n, n - 1));
            vf::Obj e; e.f("op", "variance").f("var", var).f("v", o); ev.add(e);
        };
        vari("plain", st::compute_variance_per_feature(x.begin(), x.end(), nf), X.size());
        vari("indexed", st::compute_variance_per_feature(ind.begin(), ind.end(), x.begin(), x.end(), nf), ind.size());
        vari("masked", st::compute_variance_per_feature(ind.begin(), ind.end(), x.begin(), x.end(), nf, mask), ind.size());
        auto arg = [&](const char* var, std::size_t v) { vf::Obj e; e.f("op", "argvar").f("var", var).f("v", (long)v); ev.add(e); };
        arg("plain", st::argmax_variance_per_feature(x.begin(), x.end(), nf));
        arg("indexed", st::argmax_variance_per_feature(ind.begin(), ind.end(), x.begin(), x.end(), nf));
        arg("masked", st::argmax_variance_per_feature(ind.begin(), ind.end(), x.begin(), x.end(), nf, mask));
    }
}
template <class T> void ranges(vf::Reader& r, vf::Events& ev) {
    auto a0 = r.vec(), b0 = r.vec();
    std::vector<T> a(a0.begin(), a0.end()), b(b0.begin(), b0.end());
    auto L = [](auto v) { return static_cast<long>(v); };
    { vf::Obj e; e.f("op", "argmin").f("p", L(st::argmin(a.begin(), a.end()))); ev.add(e); }
    { vf::Obj e; e.f("op", "argmax").f("p", L(st::argmax(a.begin(), a.end()))); ev.add(e); }
    { auto [p, v] = st::get_min_index_value_pair(a.begin(), a.end()); vf::Obj e; e.f("op", "min").f("p", L(p)).f("v", L(v)); ev.add(e); }
    { auto [p, v] = st::get_max_index_value_pair(a.begin(), a.end()); auto [p2, v2] = st::get_second_max_index_value_pair(a.begin(), a.end());
      vf::Obj e; e.f("op", "max2").f("p", L(p)).f("v", L(v)).f("p2", L(p2)).f("v2", L(v2)); ev.add(e); }
    if (a.size() <= 24) {
        std::vector<long> P, V; for (std::size_t n = 1; n <= a.size(); ++n) { auto [p, v] = st::find_nth_smallest_index_and_element(a.begin(), a.end(), n); P.push_back(L(p)); V.push_back(L(v)); }
        vf::Obj e; e.f("op", "nth").f("p", P).f("v", V); ev.add(e);
    }
    auto fix = [](const auto& v) { std::vector<long> o; for (auto x : v) o.push_back(vf::to_fix(x, 10000)); return o; };
    { vf::Obj e; e.f("op", "minmax").f("v", fix(st::normalize_min_max(a.begin(), a.end()))); ev.add(e); }
    { vf::Obj e; e.f("op", "minmax").f("v", fix(st::normalize_min_max<float>(a.begin(), a.end()))); ev.add(e); }
    long s = 0; for (auto v : a0) s += v;
    if (s) { vf::Obj e; e.f("op", "norm").f("v", fix(st::normalize(a.begin(), a.end()))); ev.add(e); }
    { auto c = a; st::min_container_inplace_left(c, b); std::vector<long> o; for (auto v : c) o.push_back(L(v)); vf::Obj e; e.f("op", "mins").f("v", o); ev.add(e); }
    if constexpr (std::is_floating_point_v<T>) if (a.size() > 1) {
        double n = a.size(); vf::Obj e; e.f("op", "var1").f("v", vf::to_fix(st::compute_variance(a.begin(), a.end()) * n, n - 1)); ev.add(e);
    }
}
#define TY(T) do { if (k == 0) samples<T>(r, ev); else ranges<T>(r, ev); } while (0)
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) {
        long k = r.i();
        switch (r.i()) {
            case 0: TY(double); break; case 1: TY(float); break; case 2: TY(int); break; case 3: TY(long); break; case 4: TY(short); break;
            case 5: TY(unsigned char); break; case 6: TY(std::size_t); break; default: TY(unsigned); break;
        }
    });
}
