#include "tree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto perm = r.vec(); auto cf = vf::read_conf(r); long sexp = r.i(), off = r.i(); auto opts = r.mat();
    auto d = vf::make_data<T>(X, nf, sexp, off);
    using Tree = typename vf::TreeTypes<T>::Tree;
    using H = ffcl::DBSCAN<Tree>;
    using O = typename H::Options;
    H shared;
    for (auto& q : opts) {
        long rad = q[0], ms = q[1], how = q[2];
        std::vector<std::size_t> ind(perm.begin(), perm.end());
        auto tree = vf::make_tree<T>(ind, d.x, nf, cf);
        O op; if (how != 1 || ms != 5) op.min_samples(ms);
        op.radius(static_cast<T>(rad) * d.scale / 2);
        std::vector<std::size_t> L;
        if (how == 0) { shared.set_options(op); L = shared.predict(std::move(tree)); }
        else { H h(op); L = h.predict(std::move(tree)); if (how == 2) { auto t2 = vf::make_tree<T>(ind, d.x, nf, cf); L = h.predict(std::move(t2)); } }
        vf::Obj e; e.f("op", "labels").f("r", rad).f("ms", ms).f("L", std::vector<long>(L.begin(), L.end())); ev.add(e);
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { switch (r.i()) { case 0: return run<double>(r, ev); case 1: return run<float>(r, ev); case 2: return run<int>(r, ev); default: return run<std::size_t>(r, ev); } }); }
