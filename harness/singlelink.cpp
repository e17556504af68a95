#include "vf.hpp"
#include <filesystem>
#include <fstream>
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "rapidjson/document.h"
#include "rapidjson/istreamwrapper.h"
using namespace ffcl::datastruct;
template <class I, class T> void run(vf::Reader& r, vf::Events& ev) {
    auto E = r.mat(); long sexp = r.i(), how = r.i(), ser = r.i(); auto cuts = r.mat();
    const T s = sexp >= 1000 ? T(1) / T(sexp - 997) : std::ldexp(T(1), sexp);
    using S = SingleLinkageClusterTree<I, T>;
    using O = typename S::Options;
    mst::EdgesList<I, T> m;
    for (auto& e : E) m.emplace_back(e[0], e[1], e[2] * s);
    // the integer whose weight is exactly v
    auto lev = [&](double v) { const long k = vf::to_int(v / s, 1e-3); return k != vf::BAD && static_cast<T>(k * s) == static_cast<T>(v) ? k : vf::BAD; };
    auto lv0 = [&](long c) { return c < 0 ? ffcl::common::infinity<T>() : static_cast<T>(c * s); };
    O first; first.cut_level(lv0(cuts[0][0])).min_cluster_size(cuts[0][1]);
    S t = how == 0 ? S(m) : how == 1 ? S(m, first) : how == 2 ? S(mst::EdgesList<I, T>(m)) : S(mst::EdgesList<I, T>(m), first);
    auto emit = [&](std::vector<std::string>& nodes) {
        std::string js = "[";
        for (std::size_t k = 0; k < nodes.size(); ++k) js += (k ? "," : "") + nodes[k];
        vf::Obj o; o.f("op", "tree").raw("n", js + "]"); ev.add(o);
    };
    if (!ser) {
        std::vector<std::string> nodes;
        std::function<long(typename S::SingleLinkageClusterNodePtr, long)> walk = [&](auto n, long p) -> long {
            long k = nodes.size() + 1;
            if (k > 4 * (long)E.size() + 10) return 0;
            nodes.emplace_back();
            long l = 0, rr = 0;
            bool linked = p == 0 ? !n->has_parent() : true;
            if (!n->is_leaf()) {
                l = walk(n->left_, k); rr = walk(n->right_, k);
                if (vf::raw(n->left_->parent_) != &*n || vf::raw(n->right_->parent_) != &*n) linked = false;
            }
            vf::Obj o; o.f("rep", (long)n->representative_).f("lv", lev(n->level_)).f("sz", (long)n->size()).f("l", l).f("r", rr).f("p", linked ? p : -1L);
            nodes[k - 1] = o.str();
            return k;
        };
        walk(t.root(), 0);
        emit(nodes);
    } else {
        char path[] = "/tmp/vf-slink-XXXXXX"; int fd = mkstemp(path); close(fd);
        t.serialize(std::filesystem::path(path));
        std::ifstream in(path); rapidjson::IStreamWrapper w(in); rapidjson::Document d; d.ParseStream<rapidjson::kParseFullPrecisionFlag>(w);
        std::vector<std::string> nodes;
        std::function<long(const rapidjson::Value&, long)> walk = [&](const rapidjson::Value& n, long p) -> long {
            long k = nodes.size() + 1; nodes.emplace_back();
            long l = 0, rr = 0;
            if (n.HasMember("left")) l = walk(n["left"], k);
            if (n.HasMember("right")) rr = walk(n["right"], k);
            vf::Obj o; o.f("rep", (long)n["representative"].GetInt64()).f("lv", lev(n["level"].GetDouble())).f("sz", (long)n["cluster_size"].GetInt64()).f("l", l).f("r", rr).f("p", p);
            nodes[k - 1] = o.str();
            return k;
        };
        if (!d.HasParseError() && d.IsObject() && d.HasMember("root")) walk(d["root"], 0);
        emit(nodes);
        in.close(); unlink(path);
    }
    for (std::size_t k = 0; k < cuts.size(); ++k) {
        long c = cuts[k][0], mm = cuts[k][1];
        if (k == 0 && (how == 0 || how == 2)) { if (c >= 0 || mm != 1) t.set_options(first); }
        if (k > 0) t.set_options(c < 0 ? O().min_cluster_size(mm) : O().cut_level(lv0(c)).min_cluster_size(mm));
        auto L = k % 2 ? t.extract_flat_clusters() : t.predict();
        vf::Obj o; o.f("op", "cut").f("lv", c).f("m", mm).f("L", std::vector<long>(L.begin(), L.end())); ev.add(o);
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) {
    switch (r.i()) { case 0: return run<std::size_t, double>(r, ev); case 1: return run<std::size_t, float>(r, ev);
                     case 2: return run<int, double>(r, ev); default: return run<unsigned, float>(r, ev); } }); }
