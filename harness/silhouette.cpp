#include "tree.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include <numeric>
namespace h = ffcl::common::math::heuristics;
template <class T, class Lab> void run(vf::Reader& r, vf::Events& ev) {
    std::size_t nf = r.i(); auto X = r.mat(); auto L0 = r.vec(); long sexp = r.i(), off = r.i();
    auto d = vf::make_data<T>(X, nf, sexp, off);
    std::vector<Lab> L(L0.begin(), L0.end());
    double u = 1000.0 / static_cast<double>(d.scale);
    auto fix = [&](const auto& v, double s) { std::vector<long> o; for (auto x : v) o.push_back(vf::to_fix(x, s)); return o; };
    { auto s = h::get_cluster_sizes(L.begin(), L.end()); vf::Obj e; e.f("op", "sizes").f("v", std::vector<long>(s.begin(), s.end())); ev.add(e); }
    { auto s = h::cohesion(d.x.begin(), d.x.end(), nf, L.begin(), L.end()); vf::Obj e; e.f("op", "coh").f("v", fix(s, u)); ev.add(e); }
    { auto s = h::separation(d.x.begin(), d.x.end(), nf, L.begin(), L.end()); vf::Obj e; e.f("op", "sep").f("v", fix(s, u)); ev.add(e); }
    auto s = h::silhouette(d.x.begin(), d.x.end(), nf, L.begin(), L.end());
    { vf::Obj e; e.f("op", "sil").f("v", fix(s, 1000)); ev.add(e); }
    { vf::Obj e; e.f("op", "avg").f("v", vf::to_fix(h::get_average_silhouette(s.begin(), s.end()), 1000)).f("s", fix(s, 1000)); ev.add(e); }
}
template <class T> void go(vf::Reader& r, vf::Events& ev) {
    switch (r.i()) {
        case 0: return run<T, std::size_t>(r, ev);
        case 1: return run<T, int>(r, ev);
        case 2: return run<T, unsigned char>(r, ev);
        case 3: return run<T, short>(r, ev);
        default: return run<T, std::uint32_t>(r, ev);
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { if (r.i() == 0) go<double>(r, ev); else go<float>(r, ev); }); }
