#include "tree.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto perm = r.vec(); auto cf = vf::read_conf(r); long sexp = r.i(), off = r.i(); std::size_t k = r.i(); auto opts = r.mat();
    auto d = vf::make_data<T>(X, nf, sexp, off);
    using Tree = typename vf::TreeTypes<T>::Tree;
    using H = ffcl::HDBSCAN<Tree>;
    using O = typename H::Options;
    H shared;
    for (auto& q : opts) {
        long ms = q[0], single = q[1], leaves = q[2], how = q[3];
        std::vector<std::size_t> ind(perm.begin(), perm.end());
        auto tree = vf::make_tree<T>(ind, d.x, nf, cf);
        O op;
        if (how == 3) {   // options that have their documented default are left alone
            if (k != 1) op.k_nearest_neighbors(k);
            if (ms != 5) op.min_cluster_size(ms);
            if (!single) op.allow_single_cluster(single);
            if (leaves) op.return_leaf_nodes(leaves);
        } else op.k_nearest_neighbors(k).min_cluster_size(ms).allow_single_cluster(single).return_leaf_nodes(leaves);
        std::vector<std::size_t> L;
        if (how == 0 && k == 1 && ms == 5 && single && !leaves) { H h; L = h.predict(std::move(tree)); }
        else if (how == 1) { shared.set_options(op); L = shared.predict(std::move(tree)); }
        else if (how == 2) { H h(op); L = h.predict(tree); }
        else { H h(op); L = h.predict(std::move(tree)); }
        vf::Obj e; e.f("op", "labels").f("ms", ms).f("single", single).f("leaves", leaves).f("L", std::vector<long>(L.begin(), L.end())); ev.add(e);
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { if (r.i() == 0) run<double>(r, ev); else run<float>(r, ev); }); }
