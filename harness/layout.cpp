#include "vf.hpp"
#include "ffcl/common/Utils.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/datastruct/vector/FeaturesMask.hpp"
#include "ffcl/datastruct/vector/FeaturesVector.hpp"
#include <array>
namespace la = ffcl::common::math::linear_algebra;
namespace co = ffcl::common;
namespace fd = ffcl::datastruct;
template <class V> std::vector<long> L(const V& v) { std::vector<long> o; for (auto x : v) o.push_back(static_cast<long>(x)); return o; }
template <class T> std::vector<T> as(const std::vector<long>& v) { return std::vector<T>(v.begin(), v.end()); }
template <class F, class T> auto tr(F which, std::vector<T>& d, std::size_t n) {
    return which == 0 ? la::transpose_sequential(d.begin(), d.end(), n) : which == 1 ? la::transpose_parallel_openmp(d.begin(), d.end(), n) : la::transpose(d.begin(), d.end(), n);
}
template <class T> void small(vf::Reader& r, vf::Events& ev) {
    std::size_t n = r.i(); auto a0 = r.vec(), b0 = r.vec(), ind0 = r.vec(); long x = r.i(), what = r.i(), it = r.i();
    auto a = as<T>(a0), b = as<T>(b0);
    T xv = static_cast<T>(x);
    if (what == 0) {
        for (int w = 0; w < 3; ++w) {
            auto [t, rr, cc] = tr(w, a, n); vf::Obj e; e.f("op", "transpose").f("v", L(t)).f("r", (long)rr).f("c", (long)cc); ev.add(e);
            auto [u, r2, c2] = tr((w + 1) % 3, t, cc); vf::Obj f; f.f("op", "back").f("v", L(u)).f("r", (long)r2).f("c", (long)c2); ev.add(f);
        }
    } else if (what == 1) {
        auto go = [&](auto tag) {
            using I = decltype(tag);
            auto ind = as<I>(ind0);
            bool thrown = false; std::vector<T> v;
            try { v = co::remap_ranges_from_indices(ind, a, n); } catch (const std::invalid_argument&) { thrown = true; }
            { vf::Obj e; e.f("op", "throw").f("v", thrown); ev.add(e); }
            if (!thrown) { vf::Obj e; e.f("op", "remap").f("v", L(v)); ev.add(e); }
            if (n == 1) {
                thrown = false;
                try { v = co::permutation_from_indices(ind, a); } catch (const std::invalid_argument&) { thrown = true; }
                { vf::Obj e; e.f("op", "throw").f("v", thrown); ev.add(e); }
                if (!thrown) { vf::Obj e; e.f("op", "permute").f("v", L(v)); ev.add(e); }
            }
        };
        if (it == 0) go(std::size_t{}); else if (it == 1) go(int{}); else if (it == 2) go((unsigned char)0); else go((unsigned short)0);
    } else if (what == 2) {
        { vf::Obj e; e.f("op", "in").f("v", co::is_element_in(a.begin(), a.end(), xv)).f("w", co::is_element_not_in(a.begin(), a.end(), xv)); ev.add(e); }
        std::vector<std::pair<T, long>> p; for (std::size_t i = 0; i < a.size(); ++i) p.emplace_back(a[i], x + (long)i);
        { vf::Obj e; e.f("op", "in").f("v", co::is_element_in_first(p.begin(), p.end(), xv)).f("w", co::is_element_not_in_first(p.begin(), p.end(), xv)); ev.add(e); }
        { vf::Obj e; e.f("op", "convert").f("v", L(co::to_type<double>(a.begin(), a.end()))); ev.add(e); }
        { vf::Obj e; e.f("op", "convert").f("v", L(co::to_type<T>(a.begin(), a.end()))); ev.add(e); }
        { vf::Obj e; e.f("op", "convert").f("v", L(co::to_type<long>(a.begin(), a.end()))); ev.add(e); }
        { vf::Obj e; e.f("op", "convert").f("v", L(co::to_type<float>(a.begin(), a.end()))); ev.add(e); }
        bool eq = co::are_containers_equal(a, b), tol;
        std::vector<double> da(a.begin(), a.end()), db(b.begin(), b.end());
        tol = co::are_containers_equal(da, db, static_cast<double>(x) + 0.5);
        { vf::Obj e; e.f("op", "equal").f("v", eq).f("w", tol); ev.add(e); }
        if (a.size() == b.size()) {
            { vf::Obj e; e.f("op", "equal").f("v", co::are_containers_equal(a.begin(), a.end(), b.begin())).f("w", co::are_containers_equal(da.begin(), da.end(), db.begin(), x + 0.5)); ev.add(e); }
            { vf::Obj e; e.f("op", "matches").f("v", (long)co::count_matches(a.begin(), a.end(), b.begin())).f("w", (long)co::count_matches_for_value(a.begin(), a.end(), b.begin(), xv)); ev.add(e); }
            if constexpr (std::is_signed_v<T>) {
                { vf::Obj e; e.f("op", "translate").f("v", L(la::translate_right_range_to_origin(a.begin(), a.end(), b.begin(), b.end()))); ev.add(e); }
                { vf::Obj e; e.f("op", "translate").f("v", L(la::translate_right_range_to_origin(da.begin(), da.end(), b.begin(), b.end()))); ev.add(e); }
            }
        }
    } else {
        auto dump = [&](auto& v) {
            const auto& cv = v;
            std::vector<long> o, w; for (std::size_t i = 0; i < v.size(); ++i) o.push_back((long)cv[i]);
            for (auto q = cv.begin(); q != cv.end(); ++q) w.push_back((long)*q);
            { vf::Obj e; e.f("op", "vector").f("v", o).f("w", w).f("n", (long)v.size()); ev.add(e); }
            std::vector<long> o2(v.begin(), v.end()), w2(v.cbegin(), v.cend());
            { vf::Obj e; e.f("op", "vector").f("v", o2).f("w", w2).f("n", (long)v.size()); ev.add(e); }
            auto c = v; std::size_t p = (std::size_t)std::labs(x) % c.size(); c[p] = xv; std::vector<long> s(c.begin(), c.end());
            { vf::Obj e; e.f("op", "set").f("v", s).f("p", (long)p); ev.add(e); }
            *(c.begin() + p) = v[p]; std::vector<long> s2(c.begin(), c.end());
            { vf::Obj e; e.f("op", "vector").f("v", s2).f("w", s2).f("n", (long)c.size()); ev.add(e); }
        };
        { fd::FeaturesVector<T, 0> v(a); dump(v); auto m = std::move(v); dump(m); }
        { fd::FeaturesVector<T, 0> v(a.begin(), a.end()); dump(v); }
        { auto c = a; fd::FeaturesVector<T, 0> v(std::move(c)); dump(v); }
        { fd::FeaturesMask<T> v(a); dump(v); }
        { fd::FeaturesMask<T> v(a.size()); vf::Obj e; e.f("op", "mask").f("v", L(v)).f("n", (long)a.size()); ev.add(e); }
        if (a.size() == 3) {
            { fd::FeaturesVector<T, 0> v{a[0], a[1], a[2]}; dump(v); }
            { fd::FeaturesVector<T, 3> v(a[0], a[1], a[2]); dump(v); }
            { fd::FeaturesVector<T, 3> v(std::array<T, 3>{a[0], a[1], a[2]}); dump(v); }
            { fd::FeaturesMask<T> v{a[0], a[1], a[2]}; dump(v); }
            { fd::FeaturesMask<T, 3> v(std::array<T, 3>{a[0], a[1], a[2]}); dump(v); }
            if constexpr (std::is_same_v<T, std::size_t>) { fd::FeaturesMask<T, 3> v; vf::Obj e; e.f("op", "mask").f("v", L(v)).f("n", 3L); ev.add(e); }
        }
    }
}
template <class T> void big(vf::Reader& r, vf::Events& ev) {
    std::size_t n = r.i(), rows = r.i(); long s = r.i(), m = r.i(), which = r.i();
    std::vector<T> d; for (std::size_t i = 0; i < rows; ++i) for (std::size_t j = 0; j < n; ++j) d.push_back(static_cast<T>((i * 131 + j * 17 + s) % m));
    auto [t, rr, cc] = tr(which, d, n);
    auto [u, r2, c2] = tr(which, t, cc);
    vf::Obj e; e.f("op", "big").f("v", L(t)).f("r", (long)rr).f("c", (long)cc).f("back", u == d && r2 == rows && c2 == n); ev.add(e);
}
#define TY(T) do { if (k == 0) small<T>(r, ev); else big<T>(r, ev); } while (0)
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) {
        long k = r.i();
        switch (r.i()) {
            case 0: TY(double); break; case 1: TY(float); break; case 2: TY(int); break; case 3: TY(std::size_t); break; case 4: TY(short); break; default: TY(unsigned char); break;
        }
    });
}
