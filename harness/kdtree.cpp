#include "tree.hpp"
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
// what: 1 build (shape), 2 boxes, 4 document
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto ind0 = r.vec(); auto conf = vf::read_conf(r);
    long sexp = r.i(), off = r.i(), what = r.i(), how = r.i();
    auto data = vf::make_data<T>(X, nf, sexp, off);
    auto x0 = data.x;
    std::vector<std::size_t> ind(ind0.begin(), ind0.end());
    using Tree = typename vf::TreeTypes<T>::Tree;
    std::unique_ptr<Tree> tree = std::make_unique<Tree>(vf::make_tree<T>(ind, data.x, nf, conf));
    if (how == 1) { auto t2 = std::make_unique<Tree>(*tree); tree = std::move(t2); }
    if (how == 2) { auto t2 = std::make_unique<Tree>(std::move(*tree)); tree = std::move(t2); }
    if (how == 3) { Tree c(*tree); auto t2 = std::make_unique<Tree>(std::move(c)); auto t3 = std::make_unique<Tree>(*t2); t2.reset(); tree = std::move(t3); }
    auto back = [&](T v) -> long {
        if constexpr (std::is_integral_v<T>) return static_cast<long>(v) - static_cast<long>(data.off);
        else return vf::to_int(((double)v - (double)data.off) / (double)data.scale, 1e-4); };
    // pre-order dump
    std::vector<typename Tree::NodePtr> order; std::map<const void*, long> num;
    std::function<void(const typename Tree::NodePtr&)> walk = [&](const typename Tree::NodePtr& n) {
        if (!n || order.size() > 4000) return; order.push_back(n); num[n.get()] = (long)order.size(); walk(n->left_); walk(n->right_); };
    walk(tree->root());
    std::string ns = "[";
    for (std::size_t i = 0; i < order.size(); ++i) {
        auto& n = order[i];
        std::vector<long> blo, bhi;
        for (std::size_t f = 0; f < nf; ++f) { blo.push_back(back(n->bound_.segment_at(f).lower_bound())); bhi.push_back(back(n->bound_.segment_at(f).upper_bound())); }
        auto par = vf::locked(n->parent_);
        vf::Obj o;
        o.f("lo", (long)std::distance(ind.begin(), n->indices_range_.first)).f("hi", (long)std::distance(ind.begin(), n->indices_range_.second))
         .f("axis", (long)n->cut_axis_feature_index_).f("l", n->left_ ? num[n->left_.get()] : 0L).f("r", n->right_ ? num[n->right_.get()] : 0L)
         .f("p", par ? (num.count(par.get()) ? num[par.get()] : -1L) : 0L).f("blo", blo).f("bhi", bhi);
        o.f("ns", (long)n->n_samples()).f("em", (bool)n->is_empty()).f("leaf", (bool)n->is_leaf()).f("hp", (bool)n->has_parent()).f("hc", (bool)n->has_children())
         .f("rng", n->begin() == n->indices_range_.first && n->end() == n->indices_range_.second);
        if (i) ns += ","; ns += o.str();
    }
    ns += "]";
    std::vector<long> indl(ind.begin(), ind.end());
    bool acc = tree->n_features() == nf && tree->n_samples() == X.size();
    for (std::size_t i = 0; i < X.size() && acc; ++i) acc = std::equal(tree->features_range_first(i), tree->features_range_last(i), x0.begin() + i * nf) && (*tree)[i] == tree->features_range_first(i)
        && (std::size_t)std::distance(tree->features_range_first(i), tree->features_range_last(i)) == nf;
    acc = acc && std::distance(tree->begin(), tree->end()) == (long)x0.size() && std::equal(tree->begin(), tree->end(), x0.begin())
        && std::distance(tree->cbegin(), tree->cend()) == (long)x0.size() && std::equal(tree->cbegin(), tree->cend(), x0.begin());
    if (what & 1) { vf::Obj o; o.f("op", "build").f("ind", indl).f("same", data.x == x0 && acc).raw("nodes", ns); ev.add(o); }
    if (what & 2) { vf::Obj o; o.f("op", "boxes").f("ind", indl).raw("nodes", ns); ev.add(o); }
    if (what & 4) {
        char tmpl[] = "/tmp/vf-kd-XXXXXX"; if (!mkdtemp(tmpl)) std::exit(98);
        std::string path = std::string(tmpl) + "/t.json";
        tree->serialize(std::filesystem::path(path));
        std::ifstream in(path); std::string txt((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        std::remove(path.c_str()); rmdir(tmpl);
        std::string esc; for (char ch : txt) { if (ch == '"' || ch == '\\') esc += '\\'; if ((unsigned char)ch >= 32) esc += ch; }
        vf::Obj o; o.f("op", "doc").f("ind", indl).raw("nodes", ns).raw("doc", "\"" + esc + "\""); 
        // the values the samples really have, for an exact comparison of the document with them
        std::string vals = "["; for (std::size_t i = 0; i < x0.size(); ++i) {
            char b[64];
            if constexpr (std::is_integral_v<T>) vals += (i ? ",\"" : "\"") + std::to_string(x0[i]) + "\"";
            else { std::snprintf(b, sizeof b, "%s\"%a\"", i ? "," : "", (double)x0[i]); vals += b; } }
        o.raw("vals", vals + "]"); ev.add(o);
    }
}
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) { long t = r.i(); if (t == 0) run<double>(r, ev); else if (t == 1) run<float>(r, ev); else if (t == 2) run<int>(r, ev); else run<std::size_t>(r, ev); });
}
