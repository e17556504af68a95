#include "tree.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include <memory>
#include <unordered_set>
namespace B = ffcl::search::buffer;
namespace bd = ffcl::datastruct::bounds;
template <class T, class Buf> void drive(std::unique_ptr<Buf> b, const std::vector<std::vector<long>>& ops, vf::Data<T>& data, std::size_t nf, vf::Events& ev, ffcl::datastruct::UnionFind<std::size_t>& uf) {
    for (std::size_t j = 0; j <= ops.size(); ++j) {
        if (j > 0) {
            auto& op = ops[j - 1];
            if (op[0] == 0) b->update(static_cast<std::size_t>(op[1]), static_cast<T>(op[2] / 2.0) * data.scale);
            if (op[0] == 1) { std::vector<std::size_t> r(op.begin() + 1, op.end()); b->partial_search(r.begin(), r.end(), data.x.begin(), data.x.end(), nf); }
            if (op[0] == 2) { auto n = std::make_unique<Buf>(std::move(*b)); b = std::move(n); }
            if (op[0] == 4) uf.merge(static_cast<std::size_t>(op[1]), static_cast<std::size_t>(op[2]));
            if (op[0] == 3) { auto n = std::make_unique<Buf>(*b); b = std::move(n); }
        }
        vf::Obj o; std::vector<long> idx, d;
        for (auto i : b->indices()) idx.push_back((long)i);
        for (auto x : b->distances()) d.push_back(vf::to_q(2.0 * x / data.scale, vf::prec<T>()));
        long rem = b->remaining_capacity() > 1000000 ? 1000000 : (long)b->remaining_capacity();
        o.f("op", "state").f("j", (long)j).f("idx", idx).f("d", d).f("size", (long)b->size()).f("cap", (long)b->max_capacity()).f("rem", rem).f("empty", (bool)b->empty());
        if (!idx.empty()) o.f("ci", (long)b->closest_index()).f("cd", vf::to_q(2.0 * b->closest_distance() / data.scale, vf::prec<T>())).f("fi", (long)b->furthest_index()).f("fd", vf::to_q(2.0 * b->furthest_distance() / data.scale, vf::prec<T>()));
        else o.f("ci", 0L).f("cd", 0L).f("fi", 0L).f("fd", 0L);
        std::vector<long> idx2, d2, ctr;
        for (auto i : b->indices_const_ref()) idx2.push_back((long)i);
        for (auto x : b->distances_const_ref()) d2.push_back(vf::to_q(2.0 * x / data.scale, vf::prec<T>()));
        for (auto it = b->centroid_begin(); it != b->centroid_end(); ++it) {
            if constexpr (std::is_integral_v<T>) ctr.push_back(2 * (static_cast<long>(*it) - static_cast<long>(data.off)));
            else ctr.push_back(vf::to_int(2.0 * (static_cast<double>(*it) - static_cast<double>(data.off)) / data.scale, 1e-4)); }
        o.f("idx2", idx2).f("d2", d2).f("ctr", ctr).f("ff", idx.empty() || b->furthest_distance(0) == b->furthest_distance());
        ev.add(o);
    }
    {   // what a consumed buffer hands over
        auto i = std::move(*b).move_indices(); auto d = std::move(*b).move_distances();
        vf::Obj o; std::vector<long> idx, dd; for (auto x : i) idx.push_back((long)x); for (auto x : d) dd.push_back(vf::to_q(2.0 * x / data.scale, vf::prec<T>()));
        o.f("op", "moved").f("idx", idx).f("d", dd); ev.add(o);
    }
}
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); long sexp = r.i(), off = r.i();
    long kind = r.i(), k = r.i(); auto c2 = r.vec(); long r2 = r.i(); auto lo = r.vec(), hi = r.vec(), excl = r.vec(); long rep = r.i(); auto merges = r.mat(); auto ops = r.mat();
    auto data = vf::make_data<T>(X, nf, sexp, off);
    using It = typename std::vector<T>::iterator;
    std::vector<T> c; for (auto v : c2) c.push_back(data.at(v / 2.0));
    T rad = static_cast<T>(r2 / 2.0) * data.scale; std::size_t K = k;
    std::unordered_set<std::size_t> ex(excl.begin(), excl.end());
    ffcl::datastruct::UnionFind<std::size_t> uf(X.size());
    for (auto& m : merges) uf.merge(static_cast<std::size_t>(m[0]), static_cast<std::size_t>(m[1]));
    std::size_t rp = rep < 0 ? 0 : static_cast<std::size_t>(rep);
    auto go = [&](auto p) { drive<T>(std::move(p), ops, data, nf, ev, uf); };
    using BV = bd::BallView<It>;
    switch (kind) {
        case 0: { using W = B::Unsorted<It>; go(k ? std::make_unique<W>(c.begin(), c.end(), K) : std::make_unique<W>(c.begin(), c.end())); break; }
        case 1: { using W = B::Unsorted<It, BV>; go(k ? std::make_unique<W>(BV(c.begin(), c.end(), rad), K) : std::make_unique<W>(BV(c.begin(), c.end(), rad))); break; }
        case 2: { using W = B::WithMemory<It>; go(k ? std::make_unique<W>(c.begin(), c.end(), ex, K) : std::make_unique<W>(c.begin(), c.end(), ex)); break; }
        case 3: { using W = B::WithMemory<It>; auto e = ex; go(k ? std::make_unique<W>(c.begin(), c.end(), std::move(e), K) : std::make_unique<W>(c.begin(), c.end(), std::move(e))); break; }
        case 4: { using W = B::WithMemory<It, BV>; go(k ? std::make_unique<W>(BV(c.begin(), c.end(), rad), ex, K) : std::make_unique<W>(BV(c.begin(), c.end(), rad), ex)); break; }
        case 5: { using W = B::WithUnionFind<It>; go(k ? std::make_unique<W>(c.begin(), c.end(), uf, rp, K) : std::make_unique<W>(c.begin(), c.end(), uf, rp)); break; }
        case 6: { using W = B::WithUnionFind<It, BV>; go(k ? std::make_unique<W>(BV(c.begin(), c.end(), rad), uf, rp, K) : std::make_unique<W>(BV(c.begin(), c.end(), rad), uf, rp)); break; }
        case 7: { using Seg = bd::segment::LowerBoundAndUpperBound<T>; using A = bd::AABBWithCentroid<Seg>; using W = B::Unsorted<It, A>; std::vector<Seg> sg; for (std::size_t f = 0; f < nf; ++f) sg.emplace_back(data.at(lo[f]), data.at(hi[f]));
                  A a{typename A::SegmentsType(std::move(sg))}; go(k ? std::make_unique<W>(std::move(a), K) : std::make_unique<W>(std::move(a))); break; }
        case 8: { using W = B::WithMemory<It>; go(k ? std::make_unique<W>(c.begin(), c.end(), ex.begin(), ex.end(), K) : std::make_unique<W>(c.begin(), c.end(), ex.begin(), ex.end())); break; }
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { switch (r.i()) { case 0: return run<double>(r, ev); case 1: return run<float>(r, ev); case 2: return run<int>(r, ev); default: return run<std::size_t>(r, ev); } }); }
