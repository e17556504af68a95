// Building indices (kd-trees) from a case
#pragma once
#include "vf.hpp"
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include <cstddef>
#include <vector>
namespace vf {
template <class T> struct Data {
    std::vector<T> x; std::size_t nf; T scale; T off;
    T at(double v) const { if constexpr (std::is_integral_v<T>) return static_cast<T>(static_cast<long>(v) + static_cast<long>(off)); else return static_cast<T>(v) * scale + off; }
};
// integer samples -> T: v * 2^sexp + offset (exact in the ranges the generator uses)
template <class T> Data<T> make_data(const std::vector<std::vector<long>>& X, std::size_t nf, long sexp, long off) {
    Data<T> d; d.nf = nf;
    if constexpr (std::is_floating_point_v<T>) { d.scale = sexp >= 1000 ? static_cast<T>(1) / static_cast<T>(sexp - 997) : static_cast<T>(std::ldexp(1.0, sexp)); }
    else d.scale = 1;
    d.off = static_cast<T>(off) * d.scale;
    if constexpr (std::is_unsigned_v<T>) if (sexp == 77) d.off += static_cast<T>(1) << 63;   // unsigned features beyond the signed range
    for (auto& s : X) for (auto v : s) d.x.push_back(d.at(v));
    return d;
}
template <class T> struct TreeTypes {
    using II = std::vector<std::size_t>::iterator;
    using XI = typename std::vector<T>::iterator;
    using Tree = ffcl::datastruct::KDTree<II, XI>;
};
struct TreeConf { long bucket, depth, axis; std::vector<std::size_t> mask; long rate; };
inline TreeConf read_conf(Reader& r) {
    TreeConf c; c.bucket = r.i(); c.depth = r.i(); c.axis = r.i();
    for (auto v : r.vec()) c.mask.push_back(static_cast<std::size_t>(v));
    c.rate = r.i();
    return c;
}
template <class T> typename TreeTypes<T>::Tree make_tree(std::vector<std::size_t>& ind, std::vector<T>& x, std::size_t nf, const TreeConf& c) {
    using TT = TreeTypes<T>;
    using II = typename TT::II; using XI = typename TT::XI; using Tree = typename TT::Tree;
    namespace pol = ffcl::datastruct::kdtree::policy;
    auto mask = [&](auto& p) { if (c.mask.empty()) return; if (c.bucket % 2) { auto m = c.mask; p.feature_mask(std::move(m)); } else p.feature_mask(c.mask); };
    typename Tree::Options o;
    // 2000000000 + i stands for a limit beyond the integers of the specification (props/common.py)
    auto limit = [](long v) {
        constexpr std::size_t huge[] = {1ul << 31, (1ul << 32) + 5, 1ul << 40, 1ul << 62, 1ul << 63, ~0ul};
        return v >= 2000000000 ? huge[v - 2000000000] : static_cast<std::size_t>(v);
    };
    o.bucket_size(limit(c.bucket));
    if (c.depth >= 0) o.max_depth(limit(c.depth));
    if (c.axis == 1) { pol::HighestVarianceBuild<II, XI> p; p.sampling_rate(c.rate / 100.0); mask(p); o.axis_selection_policy(p); }
    if (c.axis == 2) { pol::CycleThroughAxesBuild<II, XI> p; mask(p); o.axis_selection_policy(p); }
    if (c.axis == 3) { pol::MaximumSpreadBuild<II, XI> p; mask(p); o.axis_selection_policy(p); }
    o.splitting_rule_policy(pol::QuickselectMedianRange<II, XI>{});
    return Tree(ind.begin(), ind.end(), x.begin(), x.end(), nf, o);
}
template <class T> double prec() { return std::is_same_v<T, float> ? 2e-5 : 1e-9; }
}  // namespace vf
