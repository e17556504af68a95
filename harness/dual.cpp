#include "tree.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include <unordered_set>
namespace al = ffcl::search::algorithms;
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto Y = r.mat(); auto Q = r.vec(), R = r.vec(); auto cq = vf::read_conf(r), cr = vf::read_conf(r);
    long sexp = r.i(), off = r.i(), kind = r.i(); std::size_t k = r.i(); auto excl = r.vec(); long rep = r.i(); auto merges = r.mat();
    auto dx = vf::make_data<T>(X, nf, sexp, off);
    auto dy = Y.empty() ? dx : vf::make_data<T>(Y, nf, sexp, off);
    auto& rx = Y.empty() ? dx.x : dy.x;
    std::vector<std::size_t> q(Q.begin(), Q.end()), rr(R.begin(), R.end());
    std::unordered_set<std::size_t> ex(excl.begin(), excl.end());
    ffcl::datastruct::UnionFind<std::size_t> uf(std::max(X.size(), Y.size()));
    for (auto& m : merges) uf.merge(static_cast<std::size_t>(m[0]), static_cast<std::size_t>(m[1]));
    std::size_t rp = rep < 0 ? 0 : rep;
    auto emit = [&](auto e) { vf::Obj o; o.f("op", "edge").f("a", (long)std::get<0>(e)).f("b", (long)std::get<1>(e)).f("d", vf::to_q(std::get<2>(e) / dx.scale, vf::prec<T>())); ev.add(o); };
    auto qs = dx.x.begin(), qe = dx.x.end(), rs = rx.begin(), re = rx.end();
    if (kind <= 6) {
        auto qt = vf::make_tree<T>(q, dx.x, nf, cq); auto rt = vf::make_tree<T>(rr, rx, nf, cr);
        using Tree = decltype(qt);
        ffcl::search::Searcher<Tree> s(std::move(rt));
        for (int again = 0; again < 2; ++again) {   // searching leaves both indexes as they were
            if (kind == 0) emit(s.dual_tree_shortest_edge(qt, k));
            if (kind == 1) emit(again ? s.dual_tree_shortest_edge(qt, std::unordered_set<std::size_t>(ex), std::size_t(k)) : s.dual_tree_shortest_edge(qt, ex, k));
            if (kind == 2) emit(s.dual_tree_shortest_edge(qt, uf, rp, k));
            if (kind == 3) emit(s.dual_tree_shortest_edge_with_core_distances(qt, k));
            if (kind == 4) emit(again ? s.dual_tree_shortest_edge_with_core_distances(qt, std::unordered_set<std::size_t>(ex), std::size_t(k)) : s.dual_tree_shortest_edge_with_core_distances(qt, ex, k));
            if (kind == 5) emit(s.dual_tree_shortest_edge_with_core_distances(qt, uf, rp, k));
            if (kind <= 5 && !again) s.dual_tree_shortest_edge(qt, std::size_t{1});
        }
        if (kind == 6) emit(s.dual_tree_shortest_edge(std::move(qt), k));
    }
    if (kind == 7) emit(al::dual_set_shortest_edge(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf, k));
    if (kind == 8) emit(al::dual_set_shortest_edge(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf, uf, rp, k));
    if (kind == 9) emit(al::sequential_dual_set_shortest_edge(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf, uf, rp));
    if (kind == 10) emit(al::simple_dual_set_shortest_edge(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf));
    if (kind == 12) for (int again = 0; again < 2; ++again)
        emit(again ? al::dual_set_shortest_edge(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf, std::unordered_set<std::size_t>(ex), k) : al::dual_set_shortest_edge(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf, ex, k));
    if (kind == 13) { auto d = al::dual_set_shortest_distance(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf, ex, k); vf::Obj o; o.f("op", "dist").f("d", vf::to_q(d / dx.scale, vf::prec<T>())); ev.add(o); }
    if (kind == 14) { auto d = al::dual_set_shortest_distance(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf, uf, rp, k); vf::Obj o; o.f("op", "dist").f("d", vf::to_q(d / dx.scale, vf::prec<T>())); ev.add(o); }
    if (kind == 11) { auto d = al::dual_set_shortest_distance(q.begin(), q.end(), qs, qe, nf, rr.begin(), rr.end(), rs, re, nf, k); vf::Obj o; o.f("op", "dist").f("d", vf::to_q(d / dx.scale, vf::prec<T>())); ev.add(o); }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { if (r.i() == 0) run<double>(r, ev); else run<float>(r, ev); }); }
