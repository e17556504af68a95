#include "tree.hpp"
#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include <list>
namespace h = ffcl::common::math::heuristics;
namespace fd = ffcl::datastruct;
struct Out { vf::Events& ev; void operator()(const char* op, long v) { vf::Obj e; e.f("op", op).f("v", v); ev.add(e); } };
template <class A, class B> void vec(vf::Reader& r, vf::Events& ev) {
    auto p = r.vec(), q = r.vec(); long sexp = r.i();
    Out o{ev};
    if constexpr (std::is_floating_point_v<A>) {
        double s = std::ldexp(1.0, sexp);
        std::vector<A> a; std::vector<B> b; for (auto v : p) a.push_back(v * s); for (auto v : q) b.push_back(v * s);
        o("sq", vf::to_int(h::squared_euclidean_distance(a.begin(), a.end(), b.begin(), b.end()) / s / s));
        o("eu", vf::to_q(h::euclidean_distance(a.begin(), a.end(), b.begin(), b.end()) / s));
        o("sq0", vf::to_int(h::squared_euclidean_distance_from_origin(a.begin(), a.end()) / s / s));
        o("eu0", vf::to_q(h::euclidean_distance_from_origin(a.begin(), a.end()) / s));
        o("man", vf::to_int(h::manhattan_distance(a.begin(), a.end(), b.begin(), b.end()) / s));
        o("man0", vf::to_int(h::manhattan_distance_from_origin(a.begin(), a.end()) / s));
        if constexpr (std::is_same_v<A, B>) o("auto", vf::to_q(h::auto_distance(a.begin(), a.end(), b.begin(), b.end()) / s));
        o("auto0", vf::to_q(h::auto_distance_from_origin(a.begin(), a.end()) / s));
        double c = h::cosine_similarity(a.begin(), a.end(), b.begin(), b.end());
        o("cos", std::isinf(c) && c > 0 ? 888888 : vf::to_fix(c, 1000));
    } else {
        std::vector<A> a(p.begin(), p.end()); std::vector<B> b(q.begin(), q.end());
        if constexpr (std::is_signed_v<A>) {
            o("man", h::manhattan_distance(a.begin(), a.end(), b.begin(), b.end()));
            o("man0", h::manhattan_distance_from_origin(a.begin(), a.end()));
        } else {
            o("man", h::unsigned_manhattan_distance(a.begin(), a.end(), b.begin(), b.end()));
            o("man0", h::unsigned_manhattan_distance_from_origin(a.begin(), a.end()));
        }
        o("auto", h::auto_distance(a.begin(), a.end(), b.begin(), b.end()));
        o("auto0", h::auto_distance_from_origin(a.begin(), a.end()));
    }
}
template <class A> void lev(vf::Reader& r, vf::Events& ev) {
    auto p = r.vec(), q = r.vec(); Out o{ev};
    std::vector<A> a(p.begin(), p.end()), b(q.begin(), q.end());
    o("lev", h::levenshtein_distance(a.begin(), a.end(), b.begin(), b.end()));
    o("lev", h::levenshtein_distance(b.begin(), b.end(), a.begin(), a.end()));
}
template <class A> void mat(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); long sexp = r.i(), off = r.i();
    auto d = vf::make_data<A>(X, nf, sexp, off);
    auto dump = [&](const auto& M) {
        std::vector<std::vector<long>> v;
        for (std::size_t i = 0; i < M.n_rows(); ++i) {
            v.emplace_back();
            for (std::size_t j = 0; j < M.n_columns(); ++j)
                if constexpr (std::is_floating_point_v<A>) v.back().push_back(vf::to_q(M(i, j) / d.scale)); else v.back().push_back(M(i, j));
        }
        vf::Obj e; e.f("op", "mat").f("n", std::vector<long>{(long)M.n_rows(), (long)M.n_columns()}).f("v", v); ev.add(e);
    };
    using It = typename std::vector<A>::iterator;
    { fd::PairwiseDistanceMatrix<It> M(d.x.begin(), d.x.end(), nf); dump(M); auto M2 = M; auto M3 = std::move(M2); dump(M3); }
    { fd::PairwiseDistanceMatrix<It> M(std::make_tuple(d.x.begin(), d.x.end(), nf)); dump(M); }
    { fd::PairwiseDistanceMatrixDynamic<It> M(d.x.begin(), d.x.end(), nf); dump(M); }
    { fd::PairwiseDistanceMatrixDynamic<It> M(std::make_tuple(d.x.begin(), d.x.end(), nf)); dump(M); }
}
#define TY(T) (k == 0 ? vec<T, T>(r, ev) : k == 1 ? mat<T>(r, ev) : lev_or<T>(r, ev))
template <class T> void lev_or(vf::Reader& r, vf::Events& ev) { if constexpr (std::is_integral_v<T>) lev<T>(r, ev); else std::exit(99); }
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) {
        long k = r.i(), t = r.i();
        switch (t) {
            case 0: TY(double); break; case 1: TY(float); break; case 2: TY(int); break; case 3: TY(long); break; case 4: TY(short); break; case 5: TY(signed char); break;
            case 6: TY(unsigned); break; case 7: TY(std::size_t); break; case 8: TY(unsigned char); break; case 9: TY(std::uint16_t); break;
            case 10: if (k == 0) vec<double, float>(r, ev); else std::exit(99); break;
            case 11: if (k == 2) lev<char>(r, ev); else std::exit(99); break;
        }
    });
}
