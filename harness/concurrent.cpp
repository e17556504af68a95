// Several threads at once: const operations of shared objects, and independent objects over the same samples.
#include "tree.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp"
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <unordered_set>
#if defined(__SANITIZE_THREAD__)
static std::atomic<long> races{0};
extern "C" void __tsan_on_report(void*) { ++races; }
extern "C" const char* __tsan_default_options() { return "exitcode=66:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:symbolize=0:suppress_equal_stacks=0:report_signal_unsafe=0:report_destroy_locked=0"; }
static long races_now() { return races.load(); }
#else
static long races_now() { return 0; }
#endif
namespace B = ffcl::search::buffer;
namespace bd = ffcl::datastruct::bounds;
namespace al = ffcl::common::algorithms;
namespace st = ffcl::common::math::statistics;
using VL = std::vector<long>;
using vf::Obj;
template <class V> VL ids(const V& v) { VL o; for (auto x : v) o.push_back(static_cast<unsigned long>(x) > 1000000ul ? vf::BAD : static_cast<long>(x)); return o; }
static VL canon(const VL& v) { std::map<long, long> m; VL o; for (auto x : v) { if (x == 0) { o.push_back(0); continue; } auto it = m.emplace(x, (long)m.size() + 1).first; o.push_back(it->second); } return o; }
struct Op { long kind, a, b, c; };
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto perm = r.vec(); auto cf = vf::read_conf(r); long sexp = r.i(), off = r.i();
    auto C2 = r.mat(); auto M = r.vec(); auto Q = r.mat(); auto excl = r.vec(); auto L0 = r.vec();
    long nt = r.i(), rounds = r.i(); auto ops = r.mat();
    const long before = races_now();
    auto d = vf::make_data<T>(X, nf, sexp, off);
    std::vector<std::size_t> ind(perm.begin(), perm.end());
    auto tree = vf::make_tree<T>(ind, d.x, nf, cf);
    using Tree = decltype(tree); using It = typename std::vector<T>::iterator;
    auto& x = d.x;
    const ffcl::search::Searcher<Tree> searcher(tree);
    std::vector<T> cen; for (auto& p : C2) for (auto v : p) cen.push_back(d.at(v / 2.0));
    std::vector<std::size_t> med(M.begin(), M.end());
    const ffcl::KMeans<T> km(C2.size(), cen);
    const ffcl::KMedoids<T, true> kmed(med.size(), med);
    using PDM = ffcl::datastruct::PairwiseDistanceMatrix<It>;
    const PDM pdm(x.begin(), x.end(), nf);
    std::vector<std::vector<T>> centers; for (auto& q : Q) { std::vector<T> c; for (auto v : q) c.push_back(d.at(v / 2.0)); centers.push_back(c); }
    const std::unordered_set<std::size_t> ex(excl.begin(), excl.end());
    std::vector<std::size_t> lab(L0.begin(), L0.end());
    using DB = ffcl::DBSCAN<Tree>; using HD = ffcl::HDBSCAN<Tree>; using BO = ffcl::BoruvkasAlgorithm<Tree>;
    std::map<std::pair<long, long>, std::unique_ptr<const DB>> dbs;
    for (auto& o : ops) if (o[0] == 4) dbs.emplace(std::make_pair(o[1], o[2]), std::make_unique<const DB>(typename DB::Options().min_samples(o[2]).radius(static_cast<T>(o[1]) * d.scale / 2)));
    using S = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>; using C = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
    std::unique_ptr<const S> slt; std::unique_ptr<const C> cct;
    const bool links = std::any_of(ops.begin(), ops.end(), [](auto& o) { return o[0] == 14; }) && X.size() > 1;
    if (links) { BO b{typename BO::Options().k_nearest_neighbors(1)}; auto m = b.make_tree(tree); typename S::Options so; so.cut_level(d.scale * 2).min_cluster_size(1); slt = std::make_unique<const S>(m, so); cct = std::make_unique<const C>(slt->root()); }
    auto q2 = [&](double v) { return vf::to_q(2.0 * v / d.scale, vf::prec<T>()); };
    auto q1 = [&](double v) { return vf::to_q(v / d.scale, vf::prec<T>()); };
    auto fixs = [&](const auto& v, double s) { VL o; for (auto e : v) o.push_back(vf::to_fix(e, s)); return o; };
    auto found = [&](const auto& b, long q, long k, const char* reg, long r2, const VL& exl) {
        VL I = ids(b.indices()), D; for (auto v : b.distances()) D.push_back(q2(v));
        Obj o; o.f("op", "found").f("q", q + 1).f("k", k).f("reg", reg).f("r2", r2).f("excl", exl).f("idx", I).f("d", D); return o;
    };
    auto rows = [&](const std::vector<T>& v) { std::vector<VL> rs; for (std::size_t i = 0; i + nf <= v.size(); i += nf) { VL p; for (std::size_t f = 0; f < nf; ++f) p.push_back(vf::to_int((double(v[i + f]) - double(d.off)) / double(d.scale))); rs.push_back(p); } return rs; };
    // one operation: what it returned, as events
    auto perform = [&](const std::vector<long>& o, std::vector<std::string>& out) {
        auto put = [&](const Obj& e) { out.push_back(e.str()); };
        auto same = [&](const VL& v) { Obj e; e.f("op", "same").f("o", o).f("v", v); put(e); };
        switch (o[0]) {
            case 0: { auto& c = centers[o[1]]; auto b = searcher(B::Unsorted(c.begin(), c.end(), (std::size_t)o[2])); put(found(b, o[1], o[2], "all", 0, {})); break; }
            case 1: { auto& c = centers[o[1]]; bd::BallView<It> v(c.begin(), c.end(), static_cast<T>(o[3] / 2.0) * d.scale); auto b = searcher(B::Unsorted<It, bd::BallView<It>>(std::move(v))); put(found(b, o[1], 0, "ball", o[3], {})); break; }
            case 2: { auto& c = centers[o[1]]; auto b = searcher(B::WithMemory<It>(c.begin(), c.end(), ex, (std::size_t)o[2])); put(found(b, o[1], o[2], "all", 0, excl)); break; }
            case 3: { using BB = B::Unsorted<It>; std::vector<BB> bs; for (auto& c : centers) bs.emplace_back(c.begin(), c.end(), (std::size_t)o[2]); auto rs = searcher(std::move(bs));
                      for (std::size_t i = 0; i < rs.size() && i < centers.size(); ++i) put(found(rs[i], i, o[2], "all", 0, {})); Obj e; e.f("op", "count").f("n", (long)rs.size()); put(e); break; }
            case 4: { auto L = dbs.at(std::make_pair(o[1], o[2]))->predict(Tree(tree)); Obj e; e.f("op", "dense").f("r", o[1]).f("ms", o[2]).f("L", ids(L)); put(e); break; }
            case 5: { BO b{typename BO::Options().k_nearest_neighbors((std::size_t)o[1])}; std::vector<VL> E; for (auto& t : b.make_tree(Tree(tree))) E.push_back({(long)std::get<0>(t), (long)std::get<1>(t), q1(std::get<2>(t))}); Obj e; e.f("op", "mst").f("k", o[1]).f("e", E); put(e); break; }
            case 6: { VL p = ids(km.predict(x.begin(), x.end(), nf)), dd; for (auto v : km.forward(x.begin(), x.end(), nf)) dd.push_back(q2(v)); Obj e; e.f("op", "near").f("p", p).f("d", dd); put(e); break; }
            case 7: { for (int w = 0; w < 2; ++w) { VL p = ids(w ? kmed.predict(pdm) : kmed.predict(x.begin(), x.end(), nf)), dd; for (auto v : w ? kmed.forward(pdm) : kmed.forward(x.begin(), x.end(), nf)) dd.push_back(q1(v)); Obj e; e.f("op", "medoid").f("p", p).f("d", dd); put(e); } break; }
            case 8: { ffcl::KMeans<T> own(C2.size(), cen); std::vector<T> c = o[1] ? own.template fit<ffcl::Hamerly>(x.begin(), x.end(), nf) : own.template fit<ffcl::Lloyd>(x.begin(), x.end(), nf); for (auto& v : c) v = (v - d.off) / d.scale; same(fixs(c, 1e4)); break; }
            case 9: { ffcl::KMedoids<T, true> own(med.size(), med); if (o[1]) same(ids(own.template fit<ffcl::FasterPAM>(pdm))); else same(ids(own.template fit<ffcl::FasterPAM>(x.begin(), x.end(), nf))); break; }
            case 10: { std::vector<T> v; std::size_t k = o[2]; if (o[1] == 0) v = ffcl::kmeansplusplus::make_centroids(x.begin(), x.end(), nf, k); else if (o[1] == 1) v = ffcl::common::math::random::select_n_random_samples(x.begin(), x.end(), nf, k); else v = ffcl::common::math::random::init_uniform(x.begin(), x.end(), nf, k);
                       Obj e; e.f("op", "rows").f("n", (long)k).f("new", (long)(o[1] == 0)).f("v", rows(v)); put(e); break; }
            case 11: { std::vector<std::size_t> in2(perm.begin(), perm.end()); auto t2 = vf::make_tree<T>(in2, x, nf, cf); const ffcl::search::Searcher<Tree> s2(t2); auto& c = centers[o[1]]; auto b = s2(B::Unsorted(c.begin(), c.end(), (std::size_t)o[2])); put(found(b, o[1], o[2], "all", 0, {})); break; }
            case 12: { namespace h = ffcl::common::math::heuristics; auto s = h::silhouette(x.begin(), x.end(), nf, lab.begin(), lab.end()); same(fixs(s, 1e4)); break; }
            case 13: { auto e3 = searcher.dual_tree_shortest_edge(tree, ex, (std::size_t)o[2]); Obj e; e.f("op", "edge").f("k", o[2]).f("a", (long)std::get<0>(e3)).f("b", (long)std::get<1>(e3)).f("d", q1(std::get<2>(e3))); put(e); break; }
            case 14: { if (!links) break; same(canon(ids(o[1] ? cct->predict() : slt->predict()))); break; }
            case 15: { HD h(typename HD::Options().k_nearest_neighbors((std::size_t)o[1]).min_cluster_size((std::size_t)o[2]).allow_single_cluster(true)); auto L = h.predict(Tree(tree)); Obj e; e.f("op", "flat").f("L", ids(L)); put(e); break; }
            case 16: { std::vector<std::size_t> v(perm.begin(), perm.end()); std::size_t f = o[1] % nf, p = o[2] % v.size(); al::quickselect(v.begin(), v.end(), x.begin(), x.end(), nf, p, f); Obj e; e.f("op", "nth").f("f", (long)f).f("p", (long)p).f("v", ids(v)); put(e); break; }
            case 17: { VL v; auto a = st::compute_mean_per_feature(x.begin(), x.end(), nf); auto b = st::compute_variance_per_feature(x.begin(), x.end(), nf); for (auto w : a) v.push_back(vf::to_fix((double(w) - double(d.off)) / double(d.scale), 1e4)); for (auto w : b) v.push_back(vf::to_fix(double(w) / double(d.scale) / double(d.scale), 1e3)); v.push_back((long)st::argmin(x.begin(), x.end())); v.push_back((long)st::argmax(x.begin(), x.end())); same(v); break; }
            case 18: { rapidjson::StringBuffer sb; rapidjson::Writer<rapidjson::StringBuffer> w(sb); tree.serialize(tree.root(), w); std::string t(sb.GetString(), sb.GetSize()); VL v{(long)t.size()}; long h = 7; for (char ch : t) h = (h * 31 + (unsigned char)ch) % 1000000007; v.push_back(h); same(v); break; }
            case 19: { namespace h = ffcl::common::math::heuristics; VL v; std::size_t n = X.size(), a = o[2] % n; const ffcl::datastruct::PairwiseDistanceMatrixDynamic<It> dyn(x.begin(), x.end(), nf);
                       for (std::size_t b = 0; b < n; ++b) { auto p = x.begin() + a * nf, q = x.begin() + b * nf;
                           v.push_back(q1(h::euclidean_distance(p, p + nf, q, q + nf))); v.push_back(q1(dyn(a, b))); v.push_back(q1(pdm(a, b))); v.push_back(vf::to_fix(h::cosine_similarity(p, p + nf, q, q + nf), 1e3)); v.push_back(vf::to_int(h::manhattan_distance(p, p + nf, q, q + nf) / d.scale)); }
                       std::vector<long> s1 = X[a], s2 = X[o[2] / 2 % n]; s1.insert(s1.end(), L0.begin(), L0.end()); s2.insert(s2.end(), L0.rbegin(), L0.rend()); v.push_back((long)h::levenshtein_distance(s1.begin(), s1.end(), s2.begin(), s2.end())); same(v); break; }
            case 20: { auto t = ffcl::common::math::linear_algebra::transpose(x.begin(), x.end(), nf); VL v; for (auto w : std::get<0>(t)) v.push_back(vf::to_int((double(w) - double(d.off)) / double(d.scale))); same(v); break; }
            case 21: { auto core = ffcl::datastruct::mst::make_static_core_distances(ffcl::search::Searcher<Tree>(tree), (std::size_t)o[1] + 1); VL v; for (std::size_t i = 0; i < X.size(); ++i) v.push_back(q1(core[i])); same(v); break; }
        }
    };
    std::vector<std::set<std::string>> alone(ops.size()), seen(ops.size());
    std::vector<std::vector<std::string>> order(ops.size());
    for (std::size_t i = 0; i < ops.size(); ++i) { std::vector<std::string> out; perform(ops[i], out); for (auto& s : out) { if (alone[i].insert(s).second) { order[i].push_back(s); } seen[i].insert(s); } }
    std::mutex mu; std::atomic<long> arrived{0}; std::atomic<bool> stop{false}; std::vector<std::vector<std::string>> extra(ops.size());
    auto work = [&](long t) {
        for (long rd = 0; rd < rounds; ++rd) {   // a race is reported once: no need to go on
            if (rd && races_now() > before) stop = true;
            ++arrived; while (!stop && arrived.load() < nt * (rd + 1)) std::this_thread::yield();
            if (stop) return;
            for (std::size_t j = 0; j < ops.size(); ++j) {
                std::size_t i = rd % 2 ? j : (j + t) % ops.size();
                std::vector<std::string> out; perform(ops[i], out);
                std::lock_guard<std::mutex> g(mu);
                for (auto& s : out) if (seen[i].insert(s).second) extra[i].push_back(s);
            }
        }
    };
    std::vector<std::thread> th; for (long t = 0; t < nt; ++t) th.emplace_back(work, t);
    for (auto& t : th) t.join();
    for (std::size_t i = 0; i < ops.size(); ++i) {
        for (auto& s : order[i]) ev.e.push_back("{\"w\":0," + s.substr(1));
        for (std::size_t k = 0; k < extra[i].size() && k < 40; ++k) ev.e.push_back("{\"w\":1," + extra[i][k].substr(1));
    }
    bool intact = true; { auto d2 = vf::make_data<T>(X, nf, sexp, off); intact = d2.x == x; }
    Obj e; e.f("op", "end").f("races", races_now() - before).f("intact", intact); ev.add(e);
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { if (r.i() == 0) run<double>(r, ev); else run<float>(r, ev); }); }
