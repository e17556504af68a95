#include "tree.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto perm = r.vec(); auto cf = vf::read_conf(r); long sexp = r.i(), off = r.i(); std::size_t k = r.i(); long how = r.i();
    auto d = vf::make_data<T>(X, nf, sexp, off);
    std::vector<std::size_t> ind(perm.begin(), perm.end());
    using Tree = typename vf::TreeTypes<T>::Tree;
    using B = ffcl::BoruvkasAlgorithm<Tree>;
    auto tree = vf::make_tree<T>(ind, d.x, nf, cf);
    auto q = [&](double v) { return vf::to_q(v / d.scale, vf::prec<T>()); };
    if (k > 1) {
        std::vector<long> cd;
        auto core = ffcl::datastruct::mst::make_static_core_distances(ffcl::search::Searcher<Tree>(tree), k);
        for (std::size_t i = 0; i < X.size(); ++i) cd.push_back(q(core[i]));
        vf::Obj o; o.f("op", "core").f("d", cd); ev.add(o);
    }
    auto emit = [&](const auto& mst) {
        std::vector<std::vector<long>> e;
        for (auto& x : mst) e.push_back({(long)std::get<0>(x), (long)std::get<1>(x), q(std::get<2>(x))});
        vf::Obj o; o.f("op", "mst").f("e", e); ev.add(o);
    };
    B b{typename B::Options().k_nearest_neighbors(k)};
    if (how == 0) emit(b.make_tree(std::move(tree)));
    if (how == 1) { emit(b.make_tree(tree)); emit(b.make_tree(tree)); }
    if constexpr (std::is_floating_point_v<T>) { if (how == 2) emit(b.make_tree_2(std::move(tree))); }
    if (how == 3) { B c; c.make_tree(tree); c.set_options(typename B::Options().k_nearest_neighbors(k)); emit(c.make_tree(std::move(tree))); }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { long t = r.i(); if (t == 0) run<double>(r, ev); else if (t == 1) run<float>(r, ev); else if (t == 2) run<int>(r, ev); else run<std::size_t>(r, ev); }); }
