// What is still allocated, and which nodes of a hierarchy are still alive, while objects are made, copied, moved and released.
#include <atomic>
#include <cstdlib>
#include <cstddef>
#include <new>
#include <malloc.h>
// every block the code of this program takes and gives back (linked with --wrap, see props/c29.py)
static std::atomic<long> g_blocks{0}, g_bytes{0};
extern "C" {
void* __real_malloc(std::size_t); void* __real_calloc(std::size_t, std::size_t); void* __real_realloc(void*, std::size_t); void __real_free(void*);
static void took(void* p) { if (p) { ++g_blocks; g_bytes += (long)malloc_usable_size(p); } }
static void gave(void* p) { if (p) { --g_blocks; g_bytes -= (long)malloc_usable_size(p); } }
void* __wrap_malloc(std::size_t n) { void* p = __real_malloc(n); took(p); return p; }
void* __wrap_calloc(std::size_t a, std::size_t b) { void* p = __real_calloc(a, b); took(p); return p; }
void* __wrap_realloc(void* q, std::size_t n) { gave(q); void* p = __real_realloc(q, n); took(p); return p; }
void __wrap_free(void* p) { gave(p); __real_free(p); }
}
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return ::operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#include "tree.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp"
#include <dirent.h>
#include <map>
#include <memory>
#include <unordered_set>
namespace B = ffcl::search::buffer;
namespace bd = ffcl::datastruct::bounds;
namespace rnd = ffcl::common::math::random;
namespace heu = ffcl::common::math::heuristics;
namespace st = ffcl::common::math::statistics;
using VL = std::vector<long>;
using vf::Obj;
static long files() { long n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
using vf::locked;

// --- the nodes of hierarchies, and who holds them ---------------------------------------------------------------
template <class T> struct Hold {
    using S = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
    using C = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
    using Tree = typename vf::TreeTypes<T>::Tree;
    using SN = std::decay_t<decltype(std::declval<S>().root())>;
    using KN = std::decay_t<decltype(std::declval<Tree>().root())>;
    using Searcher = ffcl::search::Searcher<Tree>;
    struct Slot { std::unique_ptr<S> slt; SN sn; std::unique_ptr<C> cond; std::unique_ptr<Tree> kd; KN kn; std::unique_ptr<Searcher> sr; VL first; long node = 0; };
    std::vector<Slot> slots;
    std::vector<std::weak_ptr<typename SN::element_type>> sw; std::vector<long> sid;
    std::vector<std::weak_ptr<typename KN::element_type>> kw; std::vector<long> kid;
    long next = 1;
    template <class N, class W> long grow(const N& n, W& w, std::vector<long>& ids, std::vector<VL>& out) {
        long k = next++; w.emplace_back(n); ids.push_back(k);
        std::size_t at = out.size(); out.push_back({k, 0, 0});
        if (n->left_) { long l = grow(n->left_, w, ids, out); out[at][1] = l; }
        if (n->right_) { long r = grow(n->right_, w, ids, out); out[at][2] = r; }
        return k;
    }
    template <class N, class W> long name(const N& n, const W& w, const std::vector<long>& ids) { if (!n) return 0; for (std::size_t i = ids.size(); i-- > 0;) if (auto p = w[i].lock()) if (&*p == &*n) return ids[i]; return vf::BAD; }
    VL alive() const { VL a; for (std::size_t i = 0; i < sw.size(); ++i) if (!sw[i].expired()) a.push_back(sid[i]); for (std::size_t i = 0; i < kw.size(); ++i) if (!kw[i].expired()) a.push_back(kid[i]); return a; }
};
template <class T> void hold(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto perm = r.vec(); auto cf = vf::read_conf(r); long sexp = r.i(), off = r.i();
    auto E = r.mat(); auto prog = r.mat(); long ns = r.i(), mcs = r.i();
    using H = Hold<T>; using S = typename H::S; using C = typename H::C; using Tree = typename H::Tree;
    auto d = vf::make_data<T>(X, nf, sexp, off);
    std::vector<std::size_t> ind(perm.begin(), perm.end());
    long left[3] = {0, 0, 0};
    for (int pass = 0; pass < 2; ++pass) {          // recorded the first time, measured the second
        const long b0 = g_blocks, y0 = g_bytes, f0 = files();
        {
            H h; h.slots.resize(ns);
            auto labels = [&](typename H::Slot& s) -> VL {
                VL v;
                if (s.slt) for (auto x : s.slt->predict()) v.push_back((long)x);
                if (s.cond) for (auto x : s.cond->predict()) v.push_back((long)x);
                if (s.sn) { std::function<void(const typename H::SN&)> walk = [&](const typename H::SN& n) { if (n->is_leaf()) v.push_back((long)n->representative_); else { walk(n->left_); walk(n->right_); } }; walk(s.sn); std::sort(v.begin(), v.end()); v.push_back((long)s.sn->size()); }
                if (s.kd || s.sr) { std::unique_ptr<typename H::Searcher> own; if (s.kd) own = std::make_unique<typename H::Searcher>(*s.kd); const auto& q = s.sr ? *s.sr : *own; for (std::size_t i = 0; i < X.size() && i < 3; ++i) { auto b = q(B::Unsorted(d.x.begin() + i * nf, d.x.begin() + (i + 1) * nf, std::size_t(1))); for (auto t : b.distances()) v.push_back(t == 0); } }
                if (s.kn) { std::function<void(const typename H::KN&)> walk = [&](const typename H::KN& n) { for (auto i : *n) v.push_back((long)i); if (!n->is_leaf()) { if (n->left_) walk(n->left_); if (n->right_) walk(n->right_); } }; walk(s.kn); std::sort(v.begin(), v.end()); }
                return v;
            };
            for (auto& o : prog) {
                long k = o[0]; auto& s = h.slots[o[1]]; auto& a = h.slots[o[2]];
                Obj e; e.f("op", "did").f("k", k).f("s", o[1] + 1).f("a", o[2] + 1);
                typename H::Slot n; long res = 0; bool ok = true; std::vector<VL> made; bool put = true;
                switch (k) {
                    case 1: { ffcl::datastruct::mst::EdgesList<std::size_t, T> m; for (auto& t : E) m.emplace_back(t[0], t[1], static_cast<T>(t[2])); typename S::Options so; so.cut_level(static_cast<T>(2)).min_cluster_size(1); n.slt = std::make_unique<S>(m, so); res = h.grow(n.slt->root(), h.sw, h.sid, made); break; }
                    case 2: { n.kd = std::make_unique<Tree>(vf::make_tree<T>(ind, d.x, nf, cf)); res = h.grow(n.kd->root(), h.kw, h.kid, made); break; }
                    case 3: if (!a.slt && !a.sn) put = false; else { typename C::Options co; co.min_cluster_size(mcs); auto root = a.slt ? a.slt->root() : a.sn; if (root->size() != E.size() + 1) { put = false; break; } res = a.node; n.cond = std::make_unique<C>(root, co); } break;
                    case 4: if (a.slt) n.slt = std::make_unique<S>(*a.slt); n.sn = a.sn; if (a.cond) n.cond = std::make_unique<C>(*a.cond); if (a.kd) n.kd = std::make_unique<Tree>(*a.kd); if (a.sr) n.sr = std::make_unique<typename H::Searcher>(*a.sr); n.kn = a.kn; n.first = a.first; res = a.node; break;
                    case 5: if (a.slt) n.slt = std::make_unique<S>(std::move(*a.slt)); n.sn = std::move(a.sn); if (a.cond) n.cond = std::make_unique<C>(std::move(*a.cond)); if (a.kd) n.kd = std::make_unique<Tree>(std::move(*a.kd)); if (a.sr) n.sr = std::make_unique<typename H::Searcher>(std::move(*a.sr)); n.kn = std::move(a.kn); n.first = a.first; res = a.node; a = typename H::Slot(); break;
                    case 6: if (a.slt) n.sn = a.slt->root(); else if (a.sn) n.sn = a.sn; else if (a.kd) n.kn = a.kd->root(); else if (a.kn) n.kn = a.kn; else { put = false; break; } res = n.sn ? h.name(n.sn, h.sw, h.sid) : h.name(n.kn, h.kw, h.kid); break;
                    case 7: case 8: if (a.sn) { n.sn = k == 7 ? a.sn->left_ : a.sn->right_; res = h.name(n.sn, h.sw, h.sid); } else if (a.kn) { n.kn = k == 7 ? a.kn->left_ : a.kn->right_; res = h.name(n.kn, h.kw, h.kid); } else put = false; break;
                    case 9: if (a.sn) { ok = a.sn->has_parent() == bool(locked(a.sn->parent_)); if (auto p = locked(a.sn->parent_)) { res = h.name(p, h.sw, h.sid); if constexpr (std::is_convertible_v<decltype(p), typename H::SN>) n.sn = p; } }
                            else if (a.kn) { ok = a.kn->has_parent() == bool(locked(a.kn->parent_)); if (auto p = locked(a.kn->parent_)) { res = h.name(p, h.kw, h.kid); if constexpr (std::is_convertible_v<decltype(p), typename H::KN>) n.kn = p; } }
                            else put = false; break;
                    case 14: if (a.kd) { n.sr = mcs % 2 ? std::make_unique<typename H::Searcher>(*a.kd) : std::make_unique<typename H::Searcher>(Tree(*a.kd)); res = a.node; } else put = false; break;
                    case 10: put = true; break;                                                   // released
                    case 11: { VL v = labels(s); ok = v == s.first; put = false; break; }          // still usable, and the same
                    case 12: if (s.slt && a.slt) { *s.slt = *a.slt; s.first = a.first; s.node = a.node; } else if (s.cond && a.cond) { *s.cond = *a.cond; s.first = a.first; s.node = a.node; } res = s.node; put = false; break;
                }
                if (k == 12 && !((s.slt && a.slt) || (s.cond && a.cond))) e = Obj(), e.f("op", "did").f("k", 0L).f("s", o[1] + 1).f("a", o[2] + 1);
                if (!put && k != 11 && k != 12) e = Obj(), e.f("op", "did").f("k", 0L).f("s", o[1] + 1).f("a", o[2] + 1);
                if (put) { n.node = res; bool fresh = n.first.empty(); if (fresh) n.first = labels(n); s = std::move(n); }
                e.f("res", res).f("ok", ok).f("made", made).f("alive", h.alive());
                if (!pass) ev.add(e);
            }
            h.slots.clear();
            Obj e; e.f("op", "did").f("k", 13L).f("s", 1L).f("a", 1L).f("res", 0L).f("ok", true).f("made", std::vector<VL>()).f("alive", h.alive());
            if (!pass) ev.add(e);
        }
        left[0] = g_blocks - b0; left[1] = g_bytes - y0; left[2] = files() - f0;
    }
    Obj e; e.f("op", "left").f("blocks", left[0]).f("bytes", left[1]).f("files", left[2]); ev.add(e);
}

// --- every operation, again and again ----------------------------------------------------------------------------
template <class T> void again(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto perm = r.vec(); auto cf = vf::read_conf(r); long sexp = r.i(), off = r.i();
    auto C2 = r.mat(); auto M = r.vec(); auto excl = r.vec(); auto L0 = r.vec(); long times = r.i(); auto ops = r.mat();
    auto d = vf::make_data<T>(X, nf, sexp, off); auto& x = d.x; const std::size_t n = X.size();
    std::vector<std::size_t> ind(perm.begin(), perm.end()), lab(L0.begin(), L0.end()), med(M.begin(), M.end());
    std::vector<T> cen; for (auto& p : C2) for (auto v : p) cen.push_back(d.at(v / 2.0));
    using It = typename std::vector<T>::iterator; using Tree = typename vf::TreeTypes<T>::Tree;
    using DB = ffcl::DBSCAN<Tree>; using HD = ffcl::HDBSCAN<Tree>; using BO = ffcl::BoruvkasAlgorithm<Tree>;
    using PDM = ffcl::datastruct::PairwiseDistanceMatrix<It>;
    using S = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>; using C = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
    const std::unordered_set<std::size_t> ex(excl.begin(), excl.end());
    char path[] = "/tmp/vf-mem-XXXXXX"; { int fd = mkstemp(path); if (fd >= 0) close(fd); }
    const std::filesystem::path fp(path), nofp("/nonexistent-vf/none.json");
    long sink = 0;
    auto perform = [&](const std::vector<long>& o) {
        auto c = x.begin() + (o[1] % n) * nf; std::size_t k = o[2];
        auto tree_of = [&](std::vector<std::size_t>& in) { return vf::make_tree<T>(in, x, nf, cf); };
        std::vector<std::size_t> in(perm.begin(), perm.end());
        switch (o[0]) {
            case 0: { auto t = tree_of(in); Tree u(t); Tree w(std::move(t)); sink += u.n_samples() + w.n_samples(); break; }
            case 1: { auto t = tree_of(in); ffcl::search::Searcher<Tree> s(t); auto b = s(B::Unsorted(c, c + nf, k)); sink += b.indices().size(); break; }
            case 2: { auto t = tree_of(in); ffcl::search::Searcher<Tree> s(std::move(t)); auto b = s(B::WithMemory<It>(c, c + nf, ex, k)); sink += b.indices().size(); bd::BallView<It> v(c, c + nf, d.scale * static_cast<T>(k)); auto b2 = s(B::Unsorted<It, bd::BallView<It>>(std::move(v))); sink += b2.indices().size(); break; }
            case 3: { auto t = tree_of(in); ffcl::search::Searcher<Tree> s(t); std::vector<B::Unsorted<It>> bs; for (std::size_t i = 0; i < n; ++i) bs.emplace_back(x.begin() + i * nf, x.begin() + (i + 1) * nf, k); sink += s(std::move(bs)).size(); break; }
            case 4: { auto t = tree_of(in); ffcl::search::Searcher<Tree> s(t); if (excl.size() < n) sink += (long)std::get<0>(s.dual_tree_shortest_edge(t, ex, 1)); break; }
            case 5: { auto t = tree_of(in); DB db(typename DB::Options().min_samples(k).radius(d.scale * 2)); sink += db.predict(Tree(t)).size(); sink += db.predict(std::move(t)).size(); break; }
            case 6: { auto t = tree_of(in); BO b{typename BO::Options().k_nearest_neighbors(std::min<std::size_t>(k, n))}; sink += b.make_tree(t).size(); break; }
            case 7: case 8: { if (n < 2) break; auto t = tree_of(in); BO b{typename BO::Options().k_nearest_neighbors(1)}; auto m = b.make_tree(t); typename S::Options so; so.cut_level(d.scale * 2).min_cluster_size(1); S s(m, so); S s2(s); sink += s.predict().size(); s2 = std::move(s); s2.serialize(fp);
                     if (o[0] == 8) { typename C::Options co; co.min_cluster_size(k); C cc(s2.root(), co); C c2(cc); sink += cc.predict().size(); cc = std::move(c2); sink += cc.predict().size(); } break; }
            case 9: { if (n < 2) break; auto t = tree_of(in); HD h(typename HD::Options().k_nearest_neighbors(1).min_cluster_size(std::max<std::size_t>(k, 1)).allow_single_cluster(true)); sink += h.predict(Tree(t)).size(); sink += h.predict(std::move(t)).size(); break; }
            case 10: { ffcl::KMeans<T> m(C2.size(), cen); sink += (o[1] ? m.template fit<ffcl::Hamerly>(x.begin(), x.end(), nf) : m.template fit<ffcl::Lloyd>(x.begin(), x.end(), nf)).size(); sink += m.predict(x.begin(), x.end(), nf).size() + m.forward(x.begin(), x.end(), nf).size(); sink += m.template fit<ffcl::Lloyd>(x.begin(), x.end(), nf).size(); break; }
            case 11: { ffcl::KMeans<T> m(std::min<std::size_t>(2, n)); sink += m.template fit<ffcl::Lloyd>(x.begin(), x.end(), nf).size(); sink += m.template fit<ffcl::Hamerly>(x.begin(), x.end(), nf).size(); break; }
            case 12: { PDM p(x.begin(), x.end(), nf); PDM q(p); ffcl::KMedoids<T, true> m(med.size(), med); sink += (o[1] ? m.template fit<ffcl::FasterPAM>(p) : m.template fit<ffcl::FasterPAM>(x.begin(), x.end(), nf)).size(); sink += m.predict(q).size() + m.forward(x.begin(), x.end(), nf).size(); break; }
            case 13: { if (med.size() < 2) break; PDM p(x.begin(), x.end(), nf); ffcl::KMedoids<T, true> m(med.size(), med); sink += m.template fit<ffcl::FasterMSC>(p).size(); break; }
            case 14: { sink += ffcl::kmeansplusplus::make_centroids(x.begin(), x.end(), nf, std::min<std::size_t>(k + 1, n)).size(); sink += rnd::select_n_random_samples(x.begin(), x.end(), nf, std::min<std::size_t>(k + 1, n)).size(); sink += rnd::init_uniform(x.begin(), x.end(), nf, std::min<std::size_t>(k, n)).size(); break; }
            case 15: { rnd::VosesAliasMethod<double> v(std::vector<double>(k + 1, 1.0)); sink += (long)v(); try { rnd::VosesAliasMethod<double> w{std::vector<double>{}}; sink += (long)w(); } catch (const std::invalid_argument&) { ++sink; } break; }
            case 16: { sink += heu::silhouette(x.begin(), x.end(), nf, lab.begin(), lab.end()).size(); break; }
            case 17: { sink += st::compute_mean_per_feature(x.begin(), x.end(), nf).size() + st::compute_variance_per_feature(x.begin(), x.end(), nf).size(); auto t = ffcl::common::math::linear_algebra::transpose(x.begin(), x.end(), nf); sink += std::get<0>(t).size(); break; }
            case 18: { auto t = tree_of(in); t.serialize(fp); rapidjson::StringBuffer sb; rapidjson::Writer<rapidjson::StringBuffer> w(sb); t.serialize(t.root(), w); sink += sb.GetSize(); break; }
            case 19: { auto t = tree_of(in); auto core = ffcl::datastruct::mst::make_static_core_distances(ffcl::search::Searcher<Tree>(t), std::min<std::size_t>(k, n)); auto dyn = ffcl::datastruct::PairwiseDistanceMatrixDynamic<It>(x.begin(), x.end(), nf); sink += core[0] > 0; sink += dyn(0, n - 1) > 0; break; }
            case 20: { ffcl::datastruct::UnionFind<std::size_t> u(n); for (std::size_t i = 1; i < n; ++i) if (i % (k + 1)) u.merge(i - 1, i); sink += (long)u.find(n - 1); break; }
            case 21: { std::vector<long> a = L0, b = X[o[1] % n]; sink += (long)heu::levenshtein_distance(a.begin(), a.end(), b.begin(), b.end()); break; }
        }
    };
    for (auto& o : ops) {
        for (int w = 0; w < 3; ++w) perform(o);
        long f0 = files(), b0 = g_blocks, y0 = g_bytes;
        for (long t = 0; t < times; ++t) perform(o);
        long b1 = g_blocks - b0, y1 = g_bytes - y0, f1 = files() - f0;
        Obj e; e.f("op", "again").f("kind", o[0]).f("times", times).f("blocks", b1).f("bytes", y1).f("files", f1); ev.add(e);
    }
    unlink(path);
    if (sink == 987654321) ev.add(Obj());
}
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) {
        long part = r.i(), t = r.i();
        if (part == 0) { if (t == 0) hold<double>(r, ev); else hold<float>(r, ev); }
        else { if (t == 0) again<double>(r, ev); else again<float>(r, ev); }
    });
}
