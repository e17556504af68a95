// every case runs the four routines (and the median split built on them) on fresh copies of the same index array
#include "tree.hpp"
#include "ffcl/common/algorithms/Sorting.hpp"
namespace al = ffcl::common::algorithms;
template <class T, class I> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto ind = r.vec(); long f = r.i(), p = r.i(), sexp = r.i(), off = r.i();
    const auto d = vf::make_data<T>(X, nf, sexp, off);
    auto emit = [&](const char* op, const std::vector<I>& v, long q, long len, const std::vector<T>& x) {
        vf::Obj o; std::vector<long> w(v.begin(), v.end());
        o.f("op", op).f("ind", w).f("p", q).f("len", len).f("same", x == d.x); ev.add(o);
    };
    for (int op = 0; op < 5; ++op) {
        auto x = d.x; std::vector<I> v(ind.begin(), ind.end());
        if (op == 0) { long q = al::median_index_of_three(v.begin(), v.end(), x.begin(), x.end(), nf, f); emit("median3", v, q, 1, x); }
        if (op == 1) { long q = al::partition_around_pivot_index(v.begin(), v.end(), x.begin(), x.end(), nf, p, f); emit("partition", v, q, 1, x); }
        if (op == 2) { auto q = al::quickselect(v.begin(), v.end(), x.begin(), x.end(), nf, p, f); emit("select", v, q.first - v.begin(), q.second - q.first, x); }
        if (op == 3) { long q = al::quicksort(v.begin(), v.end(), x.begin(), x.end(), nf, p, f); emit("sort", v, q, 1, x); }
        if (op == 4) {
            auto [m, left, mid, right] = ffcl::datastruct::kdtree::algorithms::quickselect_median(v.begin(), v.end(), x.begin(), x.end(), nf, f);
            vf::Obj o; std::vector<long> w(v.begin(), v.end());
            o.f("op", "split").f("ind", w).f("p", (long)m).f("same", x == d.x)
                .f("cuts", std::vector<long>{left.first - v.begin(), left.second - v.begin(), mid.first - v.begin(), mid.second - v.begin(), right.first - v.begin(), right.second - v.begin()}); ev.add(o);
        }
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { long t = r.i(); if (t == 0) run<double, std::size_t>(r, ev); else if (t == 1) run<float, std::size_t>(r, ev); else if (t == 2) run<int, std::size_t>(r, ev); else run<double, int>(r, ev); }); }
