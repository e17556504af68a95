#include "vf.hpp"
#include <filesystem>
#include <fstream>
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
using namespace ffcl::datastruct;
template <class I, class T> void run(vf::Reader& r, vf::Events& ev) {
    auto E = r.mat(); long sexp = r.i(); auto opts = r.mat();
    const T s = std::ldexp(T(1), sexp);
    using S = SingleLinkageClusterTree<I, T>;
    using C = CondensedClusterTree<I, T>;
    using O = typename C::Options;
    mst::EdgesList<I, T> m;
    for (auto& e : E) m.emplace_back(e[0], e[1], e[2] ? s / T(e[2]) : T(0));
    S t(m);
    auto lam = [&](double v) { return v == 0 ? 0L : vf::to_int(s / v, 0.01); };
    std::vector<std::string> nodes;
    std::function<long(typename S::SingleLinkageClusterNodePtr, long)> walk = [&](auto n, long p) -> long {
        long k = nodes.size() + 1; nodes.emplace_back();
        long l = 0, rr = 0;
        if (!n->is_leaf()) { l = walk(n->left_, k); rr = walk(n->right_, k); }
        vf::Obj o; o.f("rep", (long)n->representative_).f("lv", lam(n->level_)).f("sz", (long)n->size()).f("l", l).f("r", rr).f("p", p);
        nodes[k - 1] = o.str();
        return k;
    };
    walk(t.root(), 0);
    std::string js = "[";
    for (std::size_t k = 0; k < nodes.size(); ++k) js += (k ? "," : "") + nodes[k];
    vf::Obj o; o.f("op", "tree").raw("n", js + "]"); ev.add(o);
    for (auto& q : opts) {
        long ms = q[0], single = q[1], leaves = q[2], how = q[3];
        O op; op.min_cluster_size(ms).allow_single_cluster(single).return_leaf_nodes(leaves);
        O op2; op2 = op;
        C ct = how == 0 && ms == 1 && !single && !leaves ? C(t.root()) : how == 1 ? C(t.root(), op2) : C(t.root(), op);
        for (int again = 0; again < (how == 1 ? 2 : 1); ++again) {
        auto L = how == 2 ? ct.extract_flat_clusters() : ct.predict();
        vf::Obj e; e.f("op", "labels").f("ms", ms).f("single", single).f("leaves", leaves).f("L", std::vector<long>(L.begin(), L.end())); ev.add(e);
        }
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) {
    switch (r.i()) { case 0: return run<std::size_t, double>(r, ev); case 1: return run<std::size_t, float>(r, ev); default: return run<int, double>(r, ev); } }); }
