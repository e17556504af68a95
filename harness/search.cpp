#include "tree.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include <unordered_set>
namespace B = ffcl::search::buffer;
namespace bd = ffcl::datastruct::bounds;
struct Query { long kind, how, k, r2, rep; std::vector<long> c2, lo, hi, excl; std::vector<std::vector<long>> merges; };
static Query read_query(vf::Reader& r) {
    Query q; q.kind = r.i(); q.how = r.i(); q.k = r.i(); q.c2 = r.vec(); q.r2 = r.i(); q.lo = r.vec(); q.hi = r.vec(); q.excl = r.vec(); q.rep = r.i(); q.merges = r.mat(); return q;
}
template <class T, class Buf> vf::Obj result(const Buf& b, T scale) {
    vf::Obj o;
    std::vector<long> idx, d;
    auto I = b.indices(); auto D = b.distances();
    for (auto i : I) idx.push_back(static_cast<long>(i));
    for (auto x : D) d.push_back(vf::to_q(2.0 * x / scale, vf::prec<T>()));
    auto& I2 = b.indices_const_ref(); auto& D2 = b.distances_const_ref();
    bool same = I2 == I && D2 == D;
    o.f("idx", idx).f("d", d).f("size", same ? (long)b.size() : -1L).f("empty", (bool)b.empty());
    if (!I.empty()) o.f("ci", (long)b.closest_index()).f("cd", vf::to_q(2.0 * b.closest_distance() / scale, vf::prec<T>()))
                     .f("fi", (long)b.furthest_index()).f("fd", vf::to_q(2.0 * b.furthest_distance() / scale, vf::prec<T>()));
    else o.f("ci", 0L).f("cd", 0L).f("fi", 0L).f("fd", 0L);
    return o;
}
template <class T, class S, class Buf> vf::Obj go(S& s, Buf&& b, long how, T scale) {
    using BT = std::decay_t<Buf>;
    if (how == 1) { BT m(std::move(b)); auto r = s(std::move(m)); return result<T>(r, scale); }
    if (how == 2) { auto p = std::make_unique<BT>(b); auto p2 = std::make_unique<BT>(*p); p.reset(); auto r = s(std::move(*p2)); return result<T>(r, scale); }
    auto r = s(std::forward<Buf>(b));
    return result<T>(r, scale);
}
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto ind0 = r.vec(); auto conf = vf::read_conf(r);
    long sexp = r.i(), off = r.i(); long batch = r.i(), share = r.i();
    auto data = vf::make_data<T>(X, nf, sexp, off);
    std::vector<std::size_t> ind(ind0.begin(), ind0.end());
    auto tree = vf::make_tree<T>(ind, data.x, nf, conf);
    auto ind_after = ind; auto x_after = data.x;
    using Tree = decltype(tree);
    using It = typename std::vector<T>::iterator;
    // the searcher owns the index, or a copy of it
    auto body = [&](const auto& searcher) {
    long nq = r.i();
    using BallBuf = B::Unsorted<It, bd::BallView<It>>; using MemBuf = B::WithMemory<It>;
    std::vector<BallBuf> ballb; std::vector<MemBuf> memb; std::vector<long> ballq, memq;
    std::vector<std::vector<T>> centers(nq); std::vector<long> bq; std::vector<long> bk;
    for (long qi = 0; qi < nq; ++qi) {
        auto q = read_query(r);
        auto& c = centers[qi];
        for (auto v : q.c2) c.push_back(data.at(v / 2.0));
        T rad = static_cast<T>(q.r2 / 2.0) * data.scale;
        std::size_t k = static_cast<std::size_t>(q.k);
        std::unordered_set<std::size_t> ex(q.excl.begin(), q.excl.end());
        std::vector<std::size_t> exv(q.excl.begin(), q.excl.end());
        vf::Obj o; std::string rec;
        auto emit = [&](const vf::Obj& res) { std::string t = res.t; t += ",\"op\":\"search\",\"q\":" + std::to_string(qi + 1); vf::Obj z; z.t = t; ev.add(z); };
        if (q.kind == 1) { if (k) ballb.emplace_back(bd::BallView<It>(c.begin(), c.end(), rad), k); else ballb.emplace_back(bd::BallView<It>(c.begin(), c.end(), rad)); ballq.push_back(qi + 1); }
        if (q.kind >= 5 && q.kind <= 7) { auto e2 = ex; if (k) memb.emplace_back(c.begin(), c.end(), std::move(e2), k); else memb.emplace_back(c.begin(), c.end(), std::move(e2)); memq.push_back(qi + 1); }
        using CV = ffcl::datastruct::FeaturesVector<T, 0>;
        switch (q.kind) {
            case 0: { if (k) emit(go<T>(searcher, B::Unsorted(c.begin(), c.end(), k), q.how, data.scale)); else emit(go<T>(searcher, B::Unsorted(c.begin(), c.end()), q.how, data.scale)); bq.push_back(qi); bk.push_back(q.k); break; }
            case 1: { bd::BallView<It> b(c.begin(), c.end(), rad); if (k) emit(go<T>(searcher, B::Unsorted<It, bd::BallView<It>>(std::move(b), k), q.how, data.scale)); else emit(go<T>(searcher, B::Unsorted<It, bd::BallView<It>>(std::move(b)), q.how, data.scale)); break; }
            case 2: { CV cv{std::vector<T>(c)}; bd::Ball<T> b{cv, rad}; if (k) emit(go<T>(searcher, B::Unsorted<It, bd::Ball<T>>(std::move(b), k), q.how, data.scale)); else emit(go<T>(searcher, B::Unsorted<It, bd::Ball<T>>(std::move(b)), q.how, data.scale)); break; }
            case 3: { using Seg = bd::segment::LowerBoundAndUpperBound<T>; using A = bd::AABBWithCentroid<Seg>; std::vector<Seg> sg; for (std::size_t f = 0; f < nf; ++f) sg.emplace_back(data.at(q.lo[f]), data.at(q.hi[f]));
                      A a{typename A::SegmentsType(std::move(sg))}; if (k) emit(go<T>(searcher, B::Unsorted<It, A>(std::move(a), k), q.how, data.scale)); else emit(go<T>(searcher, B::Unsorted<It, A>(std::move(a)), q.how, data.scale)); break; }
            case 4: { using Seg = bd::segment::LowerBoundAndLength<T>; using A = bd::AABBWithCentroid<Seg>; std::vector<Seg> sg; for (std::size_t f = 0; f < nf; ++f) sg.emplace_back(data.at(q.lo[f]), data.at(q.hi[f]) - data.at(q.lo[f]));
                      A a{typename A::SegmentsType(std::move(sg))}; if (k) emit(go<T>(searcher, B::Unsorted<It, A>(std::move(a), k), q.how, data.scale)); else emit(go<T>(searcher, B::Unsorted<It, A>(std::move(a)), q.how, data.scale)); break; }
            case 5: { if (k) emit(go<T>(searcher, B::WithMemory<It>(c.begin(), c.end(), ex, k), q.how, data.scale)); else emit(go<T>(searcher, B::WithMemory<It>(c.begin(), c.end(), ex), q.how, data.scale)); break; }
            case 6: { auto e2 = ex; if (k) emit(go<T>(searcher, B::WithMemory<It>(c.begin(), c.end(), std::move(e2), k), q.how, data.scale)); else emit(go<T>(searcher, B::WithMemory<It>(c.begin(), c.end(), std::move(e2)), q.how, data.scale)); break; }
            case 7: { if (k) emit(go<T>(searcher, B::WithMemory<It>(c.begin(), c.end(), ex.begin(), ex.end(), k), q.how, data.scale)); else emit(go<T>(searcher, B::WithMemory<It>(c.begin(), c.end(), ex.begin(), ex.end()), q.how, data.scale)); break; }
            case 8: { bd::BallView<It> b(c.begin(), c.end(), rad); using W = B::WithMemory<It, bd::BallView<It>>; if (k) emit(go<T>(searcher, W(std::move(b), ex, k), q.how, data.scale)); else emit(go<T>(searcher, W(std::move(b), ex), q.how, data.scale)); break; }
            case 9: { bd::BallView<It> b(c.begin(), c.end(), rad); using W = B::WithMemory<It, bd::BallView<It>>; auto e2 = ex; if (k) emit(go<T>(searcher, W(std::move(b), std::move(e2), k), q.how, data.scale)); else emit(go<T>(searcher, W(std::move(b), std::move(e2)), q.how, data.scale)); break; }
            case 10: case 11: {
                ffcl::datastruct::UnionFind<std::size_t> uf(X.size());
                for (auto& m : q.merges) uf.merge(static_cast<std::size_t>(m[0]), static_cast<std::size_t>(m[1]));
                std::size_t rep = static_cast<std::size_t>(q.rep);
                if (q.kind == 10) { using W = B::WithUnionFind<It>; if (k) emit(go<T>(searcher, W(c.begin(), c.end(), uf, rep, k), q.how, data.scale)); else emit(go<T>(searcher, W(c.begin(), c.end(), uf, rep), q.how, data.scale)); }
                else { bd::BallView<It> b(c.begin(), c.end(), rad); using W = B::WithUnionFind<It, bd::BallView<It>>; if (k) emit(go<T>(searcher, W(std::move(b), uf, rep, k), q.how, data.scale)); else emit(go<T>(searcher, W(std::move(b), uf, rep), q.how, data.scale)); }
                break; }
            case 12: { CV cv{std::vector<T>(c)}; bd::UnboundedBall<T> b{cv}; using W = B::Unsorted<It, bd::UnboundedBall<T>>; if (k) emit(go<T>(searcher, W(std::move(b), k), q.how, data.scale)); else emit(go<T>(searcher, W(std::move(b)), q.how, data.scale)); break; }
        }
    }
    auto sendb = [&](auto&& bufs, const std::vector<long>& qs) {
        auto out = searcher(std::move(bufs));
        std::string res = "["; for (std::size_t j = 0; j < out.size(); ++j) { if (j) res += ","; res += result<T>(out[j], data.scale).str(); } res += "]";
        vf::Obj o; o.f("op", "batch").f("qs", qs).raw("res", res); ev.add(o);
    };
    if (batch && !bq.empty()) {
        std::vector<B::Unsorted<It>> bufs; std::vector<long> qs;
        for (std::size_t j = 0; j < bq.size(); ++j) { auto& c = centers[bq[j]]; if (bk[j]) bufs.emplace_back(c.begin(), c.end(), static_cast<std::size_t>(bk[j])); else bufs.emplace_back(c.begin(), c.end()); qs.push_back(bq[j] + 1); }
        sendb(std::move(bufs), qs);
    }
    if (batch) { if (!ballb.empty()) sendb(std::move(ballb), ballq); if (!memb.empty()) sendb(std::move(memb), memq); }
    bool same = std::distance(searcher.begin(), searcher.end()) == (long)data.x.size() && std::distance(searcher.cbegin(), searcher.cend()) == (long)data.x.size()
        && std::equal(searcher.begin(), searcher.end(), x_after.begin()) && std::equal(searcher.cbegin(), searcher.cend(), x_after.begin());
    for (std::size_t i = 0; i < X.size() && same; ++i) same = std::distance(searcher.features_range_first(i), searcher.features_range_last(i)) == (long)nf && std::equal(searcher.features_range_first(i), searcher.features_range_last(i), x_after.begin() + i * nf);
    vf::Obj sh; sh.f("op", "shape").f("n", (long)searcher.n_samples()).f("nf", (long)searcher.n_features()).f("same", same); ev.add(sh);
    };
    using S1 = ffcl::search::Searcher<Tree>; using S2 = ffcl::search::TreeTraverser<Tree>;
    if (share == 0) body(S1(std::move(tree))); else if (share == 1) body(S1(tree)); else if (share == 2) body(S2(std::move(tree))); else body(S2(tree));
    vf::Obj o; o.f("op", "stable").f("same", ind == ind_after && data.x == x_after); ev.add(o);
}
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) { switch (r.i()) { case 0: return run<double>(r, ev); case 1: return run<float>(r, ev); case 2: return run<int>(r, ev); default: return run<std::size_t>(r, ev); } });
}
