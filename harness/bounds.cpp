#include "tree.hpp"
#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"
namespace fb = ffcl::datastruct::bounds;
// the same bounds with the number of features fixed at compile time
template <class T, std::size_t N, class LU, class LL>
void fixed(vf::Events& ev, std::vector<LU>& sa, std::vector<LU>& sb, std::vector<LL>& la, std::vector<LL>& lb, std::vector<T>& ca, std::vector<T>& cb, T tra, T trb,
           std::vector<std::vector<long>>& P, double sc, double off, double pr) {
    auto q = [&](double v) { return vf::to_q(v / sc, pr); }; auto q4 = [&](double v) { return vf::to_q(2 * v / sc, pr); };
    auto len2 = [&](double v) { return vf::to_int(2 * v / sc, 1e-4); }; auto dbl = [&](double v) { return vf::to_int(2 * (v - off) / sc, 1e-4); };
    auto arr = [](auto& v) { std::array<std::decay_t<decltype(v[0])>, N> a = [&]() { if constexpr (N == 2) return std::array<std::decay_t<decltype(v[0])>, N>{v[0], v[1]}; else return std::array<std::decay_t<decltype(v[0])>, N>{v[0], v[1], v[2]}; }(); return a; };
    using SU = ffcl::datastruct::FeaturesVector<LU, N>; using SL = ffcl::datastruct::FeaturesVector<LL, N>; using FV = ffcl::datastruct::FeaturesVector<T, N>;
    const SU ua(arr(sa)), ub(arr(sb)); const SL ula(arr(la)), ulb(arr(lb)); const FV fa(arr(ca)), fbv(arr(cb));
    fb::AABB<LU, N> pa(ua), pb(SU(arr(sb))); fb::AABB<LL, N> pla(ula), plb(ulb);
    fb::AABBWithCentroid<LU, N> wa(ua), wb(SU(arr(sb))), wc(wa.centroid(), ua); fb::AABBWithCentroid<LL, N> wla(ula), wlb(SL(arr(lb)));
    fb::Ball<T, N> ka(fa, tra), kb(FV(arr(cb)), trb); fb::UnboundedBall<T, N> na(fa), nb(FV(arr(cb)));
    std::vector<std::vector<long>> ctr, far; std::vector<long> n;
    auto add = [&](auto& bd) {
        std::vector<long> c1, c2, h; auto c = bd.centroid();
        for (auto v : c) c1.push_back(dbl(v));
        for (auto it = bd.centroid_begin(); it != bd.centroid_end(); ++it) c2.push_back(dbl(*it));
        for (std::size_t f = 0; f < N; ++f) { double v = bd.centroid_to_bound_distance(f); h.push_back(std::isinf(v) && v > 0 ? -2L : len2(v)); }
        { double v = bd.centroid_to_furthest_bound_distance(); h.push_back(std::isinf(v) && v > 0 ? -2L : len2(v)); }
        ctr.push_back(c1); ctr.push_back(c2); far.push_back(h); n.push_back((long)bd.n_features());
    };
    add(wa); add(wc); add(wla); add(ka); add(na); n.push_back((long)pa.n_features());
    auto bg = [&](double v) { return v == 0 ? -1L : v < 0 ? vf::BAD : vf::to_q((v + tra + trb) / sc, pr); };
    std::vector<long> boxd, balld, alld, boxin, ballin;
    for (auto& pt : P) {
        std::array<T, N> x; for (std::size_t f = 0; f < N; ++f) x[f] = static_cast<T>(pt[f]) * static_cast<T>(sc) / 2 + static_cast<T>(off);
        auto opt = [&](auto& bd) { auto d = bd.compute_distance_to_centroid_if_within_bounds(x.begin(), x.end()); return d ? q4(*d) : -1L; };
        boxd.push_back(opt(wa)); boxd.push_back(opt(wla)); balld.push_back(opt(ka)); alld.push_back(opt(na)); alld.push_back(q4(wa.distance_to_centroid(x.begin(), x.end())));
        for (bool v : {wa.is_in_bounds(x.begin(), x.end()), wla.is_in_bounds(x.begin(), x.end()), pa.is_in_bounds(x.begin(), x.end()), pla.is_in_bounds(x.begin(), x.end())}) boxin.push_back(v);
        ballin.push_back(ka.is_in_bounds(x.begin(), x.end()));
    }
    vf::Obj o; o.f("op", "fixed").f("ctr", ctr).f("far", far).f("n", n)
        .f("d", std::vector<long>{q(pa.diameter()), q(pla.diameter()), q(wa.diameter()), q(wla.diameter())}).f("dk", len2(ka.diameter()))
        .f("gap", std::vector<long>{q(fb::min_distance(pa, pb)), q(fb::min_distance(pla, plb)), q(fb::min_distance(wa, wb)), q(fb::min_distance(wlb, wla))})
        .f("bgap", bg(fb::min_distance(ka, kb))).f("un", q(fb::min_distance(na, nb)))
        .f("boxd", boxd).f("balld", balld).f("alld", alld).f("boxin", boxin).f("ballin", ballin);
    ev.add(o);
}
// case: nf X A B ra rb P ; A, B: subsets of samples; P: probe points in doubled coordinates
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto A = r.vec(), B = r.vec(); long ra = r.i(), rb = r.i(); auto P = r.mat();
    long sexp = r.i(), off = r.i();
    auto data = vf::make_data<T>(X, nf, sexp, off);
    double pr = vf::prec<T>(); double sc = data.scale;
    auto back = [&](double v) { return vf::to_int((v - (double)data.off) / sc, 1e-4); };
    auto len2 = [&](double v) { return vf::to_int(2 * v / sc, 1e-4); };          // doubled length
    auto q = [&](double v) { return vf::to_q(v / sc, pr); };                     // squared length
    auto q4 = [&](double v) { return vf::to_q(2 * v / sc, pr); };                // 4 * squared length
    using LU = fb::segment::LowerBoundAndUpperBound<T>;
    using LL = fb::segment::LowerBoundAndLength<T>;
    std::vector<std::size_t> a(A.begin(), A.end()), b(B.begin(), B.end());
    using II = std::vector<std::size_t>::iterator; using XI = typename std::vector<T>::iterator;
    using Box = fb::AABBWithCentroid<LU>;
    Box ba = ffcl::datastruct::make_tight_bound<II, XI, Box>(a.begin(), a.end(), data.x.begin(), data.x.end(), nf);
    Box bb = ffcl::datastruct::make_tight_bound<II, XI, Box>(b.begin(), b.end(), data.x.begin(), data.x.end(), nf);
    auto corners = [&](auto& bx) { std::vector<std::vector<long>> o; for (std::size_t f = 0; f < nf; ++f) o.push_back({back(bx.segment_at(f).lower_bound()), back(bx.segment_at(f).upper_bound())}); return o; };
    {   // tight boxes and segments, from indices and from a contiguous range
        std::vector<T> ax; for (auto i : a) for (std::size_t f = 0; f < nf; ++f) ax.push_back(data.x[i * nf + f]);
        Box bc = ffcl::datastruct::make_tight_bound<XI, Box>(ax.begin(), ax.end(), nf);
        std::vector<std::vector<long>> s1, s2;
        for (std::size_t f = 0; f < nf; ++f) {
            auto g1 = ffcl::datastruct::make_tight_segment(a.begin(), a.end(), data.x.begin(), data.x.end(), nf, f);
            auto g2 = ffcl::datastruct::make_tight_segment(ax.begin(), ax.end(), nf, f);
            s1.push_back({back(g1.lower_bound()), back(g1.upper_bound())}); s2.push_back({back(g2.lower_bound()), back(g2.upper_bound())});
        }
        vf::Obj o; o.f("op", "tight").f("a", corners(ba)).f("b", corners(bb)).f("c", corners(bc)).f("s1", s1).f("s2", s2); ev.add(o);
    }
    std::vector<LU> sa, sb; std::vector<LL> la, lb;
    for (std::size_t f = 0; f < nf; ++f) {
        sa.emplace_back(ba.segment_at(f).lower_bound(), ba.segment_at(f).upper_bound()); sb.emplace_back(bb.segment_at(f).lower_bound(), bb.segment_at(f).upper_bound());
        la.emplace_back(sa[f].lower_bound(), sa[f].upper_bound() - sa[f].lower_bound()); lb.emplace_back(sb[f].lower_bound(), sb[f].upper_bound() - sb[f].lower_bound());
    }
    fb::AABB<LU> pa(sa), pb(sb); fb::AABB<LL> pla(la), plb(lb); const ffcl::datastruct::FeaturesVector<LU, 0> fsa(sa); const ffcl::datastruct::FeaturesVector<LL, 0> fla(la);
    fb::AABBWithCentroid<LL> wla(fla), wlb(lb); Box wfa(fsa), wa(wfa.centroid(), fsa);
    {   // geometry of the box of A
        std::vector<long> c1, c2, h1, h2, c3;
        for (std::size_t f = 0; f < nf; ++f) {
            auto dbl = [&](double v) { return vf::to_int(2 * (v - (double)data.off) / sc, 1e-4); };
            c1.push_back(dbl(wa.centroid_begin()[f])); c2.push_back(dbl(wla.centroid_begin()[f])); c3.push_back(dbl(pa.centroid_at(f)));
            h1.push_back(len2(wa.centroid_to_bound_distance(f))); h2.push_back(len2(wla.centroid_to_bound_distance(f)));
        }
        vf::Obj o; o.f("op", "geom").f("c1", c1).f("c2", c2).f("c3", c3).f("h1", h1).f("h2", h2)
            .f("far1", len2(wa.centroid_to_furthest_bound_distance())).f("far2", len2(wla.centroid_to_furthest_bound_distance()))
            .f("d", std::vector<long>{q(wa.diameter()), q(pa.diameter()), q(pla.diameter()), q(wla.diameter())})
            .f("nf", std::vector<long>{(long)wa.n_features(), (long)pa.n_features(), (long)pla.n_features(), (long)wla.n_features()});
        ev.add(o);
    }
    {   // boxes of whole numbers are closed, too: the corners, or the first corner and how many values there are
        using IU = fb::segment::LowerBoundAndUpperBound<int>; using IL = fb::segment::LowerBoundAndLength<int>;
        std::vector<IU> iu; std::vector<IL> il; std::vector<std::vector<long>> u, l, bx;
        auto at = [&](std::size_t f, bool up) { return (int)back(up ? ba.segment_at(f).upper_bound() : ba.segment_at(f).lower_bound()); };
        for (std::size_t f = 0; f < nf; ++f) { iu.emplace_back(at(f, false), at(f, true)); il.emplace_back(at(f, false), at(f, true) - at(f, false) + 1); }
        fb::AABB<IU> bu(iu); fb::AABB<IL> bl(il);
        for (std::size_t f = 0; f < nf; ++f) {
            std::vector<long> v, w, z;
            for (int x = at(f, false) - 2; x <= at(f, true) + 2; ++x) {
                v.push_back(iu[f].contains_value(x)); w.push_back(il[f].contains_value(x));
                std::vector<int> p; for (std::size_t g = 0; g < nf; ++g) p.push_back(g == f ? x : at(g, x % 2));
                z.push_back(bu.is_in_bounds(p.begin(), p.end()) && bl.is_in_bounds(p.begin(), p.end()) ? 1 : bu.is_in_bounds(p.begin(), p.end()) || bl.is_in_bounds(p.begin(), p.end()) ? 2 : 0);
            }
            u.push_back(v); l.push_back(w); bx.push_back(z);
        }
        vf::Obj o; o.f("op", "whole").f("u", u).f("l", l).f("b", bx); ev.add(o);
    }
    // balls around the first sample of A and of B
    std::vector<T> ca, cb; for (std::size_t f = 0; f < nf; ++f) { ca.push_back(data.x[a[0] * nf + f]); cb.push_back(data.x[b[0] * nf + f]); }
    T tra = static_cast<T>(ra) * data.scale, trb = static_cast<T>(rb) * data.scale;
    using FV = ffcl::datastruct::FeaturesVector<T, 0>;
    fb::Ball<T> ka(FV(ca), tra), kb(FV(cb), trb); fb::BallView<XI> va(ca.begin(), ca.end(), tra), vb(cb.begin(), cb.end(), trb);
    fb::UnboundedBall<T> ua{FV(ca)}, ub{FV(cb)}; fb::UnboundedBallView<XI> uva(ca.begin(), ca.end()), uvb(cb.begin(), cb.end());
    {   // what every bound says about itself: size, centre (copied and by range) and distances to its boundary
        std::vector<std::vector<long>> ctr, far; std::vector<long> n, cn;
        auto dbl = [&](double v) { return vf::to_int(2 * (v - (double)data.off) / sc, 1e-4); };
        auto add = [&](auto& bd) {
            std::vector<long> c1, c2, h; auto c = bd.centroid();
            for (auto v : c) c1.push_back(dbl(v));
            for (auto it = bd.centroid_begin(); it != bd.centroid_end(); ++it) c2.push_back(dbl(*it));
            for (std::size_t f = 0; f < nf; ++f) { double v = bd.centroid_to_bound_distance(f); h.push_back(std::isinf(v) && v > 0 ? -2L : len2(v)); }
            { double v = bd.centroid_to_furthest_bound_distance(); h.push_back(std::isinf(v) && v > 0 ? -2L : len2(v)); }
            ctr.push_back(c1); ctr.push_back(c2); far.push_back(h); n.push_back((long)bd.n_features());
        };
        add(ba); add(wa); add(wla); add(ka); add(va); add(ua); add(uva);
        const Box& cwa = wa; const auto& cpa = pa; std::vector<long> at1, at2; std::vector<std::vector<long>> sg1, sg2, sg3, sg4;
        for (std::size_t f = 0; f < nf; ++f) {
            at1.push_back(dbl(wa.centroid_at(f))); at2.push_back(dbl(cwa.centroid_at(f)));
            auto two = [&](auto& g) { return std::vector<long>{back(g.lower_bound()), back(g.upper_bound())}; };
            sg1.push_back(two(wa.segment_at(f))); sg2.push_back(two(cwa.segment_at(f))); sg3.push_back(two(pa.segment_at(f))); sg4.push_back(two(cpa.segment_at(f)));
        }
        std::vector<std::vector<long>> sg5; for (auto it = wa.segments_begin(); it != wa.segments_end(); ++it) sg5.push_back({back(it->lower_bound()), back(it->upper_bound())});
        double d1 = ua.diameter();
        vf::Obj o; o.f("op", "self").f("ctr", ctr).f("far", far).f("n", n).f("at1", at1).f("at2", at2).f("sg1", sg1).f("sg2", sg2).f("sg3", sg3).f("sg4", sg4).f("sg5", sg5)
            .f("inf", std::isinf(d1) && d1 > 0);
        ev.add(o);
    }
    if (nf == 2) fixed<T, 2>(ev, sa, sb, la, lb, ca, cb, tra, trb, P, sc, (double)data.off, pr);
    else if (nf == 3) fixed<T, 3>(ev, sa, sb, la, lb, ca, cb, tra, trb, P, sc, (double)data.off, pr);
    for (std::size_t p = 0; p < P.size(); ++p) {
        std::vector<T> x; for (auto v : P[p]) x.push_back(static_cast<T>(v) * data.scale / 2 + data.off);
        auto in = [&](auto& bd) { return bd.is_in_bounds(x.begin(), x.end()); };
        auto dist = [&](auto& bd) { return q4(bd.distance_to_centroid(x.begin(), x.end())); };
        auto opt = [&](auto& bd) { auto d = bd.compute_distance_to_centroid_if_within_bounds(x.begin(), x.end()); return d ? q4(*d) : -1L; };
        vf::Obj o; o.f("op", "probe").f("p", (long)p + 1)
            .raw("box", "[" + vf::js(in(wa)) + "," + vf::js(in(ba)) + "," + vf::js(in(pa)) + "," + vf::js(in(pla)) + "," + vf::js(in(wla)) + "]")
            .f("boxd", std::vector<long>{opt(wa), opt(wla), opt(ba)}).f("boxc", std::vector<long>{dist(wa), dist(wla), dist(ba)})
            .raw("ball", "[" + vf::js(in(ka)) + "," + vf::js(in(va)) + "]").f("balld", std::vector<long>{opt(ka), opt(va)})
            .f("ballc", std::vector<long>{dist(ka), dist(va), dist(ua), dist(uva)})
            .raw("all", "[" + vf::js(in(ua)) + "," + vf::js(in(uva)) + "]").f("alld", std::vector<long>{opt(ua), opt(uva)});
        ev.add(o);
    }
    {   // gaps
        std::vector<long> seg;
        for (std::size_t f = 0; f < nf; ++f) { seg.push_back(vf::to_int(fb::min_distance(sa[f], sb[f]) / sc, 1e-4)); seg.push_back(vf::to_int(fb::min_distance(sb[f], sa[f]) / sc, 1e-4));
            seg.push_back(vf::to_int(fb::min_distance(la[f], lb[f]) / sc, 1e-4)); seg.push_back(vf::to_int(fb::min_distance(sa[f], lb[f]) / sc, 1e-4)); }
        auto bg = [&](double v) { return v == 0 ? -1L : v < 0 ? vf::BAD : vf::to_q((v + tra + trb) / sc, pr); };
        vf::Obj o; o.f("op", "gap").f("seg", seg)
            .f("box", std::vector<long>{q(fb::min_distance(pa, pb)), q(fb::min_distance(pb, pa)), q(fb::min_distance(pla, plb)), q(fb::min_distance(ba, bb)), q(fb::min_distance(wla, wlb))})
            .f("ball", std::vector<long>{bg(fb::min_distance(ka, kb)), bg(fb::min_distance(kb, ka)), bg(fb::min_distance(va, vb))})
            .f("un", std::vector<long>{q(fb::min_distance(ua, ub)), q(fb::min_distance(uva, uvb))})
            .f("dia", std::vector<long>{len2(ka.diameter()), len2(va.diameter()), len2(2 * ka.centroid_to_furthest_bound_distance()), len2(2 * va.centroid_to_furthest_bound_distance())});
        ev.add(o);
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { if (r.i() == 0) run<double>(r, ev); else run<float>(r, ev); }); }
