#include "vf.hpp"
#include "ffcl/kmeans/KMeans.hpp"
using vf::Obj;
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    long alg = r.i(), mode = r.i(); std::size_t nf = r.i(); auto X = r.mat(); long sexp = r.i(), off = r.i();
    long nc = r.i(); std::vector<std::vector<std::vector<long>>> C2; for (long k = 0; k < nc; ++k) C2.push_back(r.mat());
    long maxit = r.i(), early = r.i(), tol = r.i(), patience = r.i(), how = r.i(), steps = r.i(); auto Y = r.mat();
    const T s = std::ldexp(T(1), sexp), o = T(off) * s;
    std::vector<T> x, y; for (auto& v : X) for (auto a : v) x.push_back(T(a) * s + o);
    for (auto& v : Y) for (auto a : v) y.push_back(T(a) * s + o);
    std::size_t k = C2[0].size();
    std::vector<std::vector<T>> init;
    for (auto& c : C2) { std::vector<T> v; for (auto& p : c) for (auto a : p) v.push_back(T(a) / 2 * s + o); init.push_back(v); }
    auto cs = [&](const std::vector<T>& c) {
        std::vector<std::vector<long>> out;
        for (std::size_t j = 0; j + nf <= c.size() || (c.size() % nf && j == 0); j += nf) { std::vector<long> p; for (std::size_t f = 0; f < nf && j + f < c.size(); ++f) p.push_back(vf::to_fix((double(c[j + f]) - double(o)) / double(s), 1e5)); out.push_back(p); }
        return out;
    };
    auto milli = [&](double d) { return vf::to_fix(d / double(s), 1000); };
    auto desc = std::make_tuple(x.begin(), x.end(), nf);
    auto steps_of = [&](auto& a, std::size_t i, long n) {
        Obj e; e.f("op", "start").f("i", (long)i + 1).f("dev", milli(a.total_deviation())); ev.add(e);
        for (long t = 0; t < n; ++t) { auto c = a.step(); Obj q; q.f("op", "step").f("c", cs(c)).f("dev", milli(a.total_deviation())); ev.add(q); }
    };
    using It = typename std::vector<T>::iterator;
    if (mode < 2) {
        namespace ku = kmeans::utils;
        auto& c0 = init[0];
        auto p = ku::samples_to_nearest_centroid_indices(x.begin(), x.end(), nf, c0);
        auto d1 = ku::samples_to_nearest_centroid_distances(x.begin(), x.end(), nf, c0);
        auto d2 = ku::samples_to_second_nearest_centroid_distances(x.begin(), x.end(), nf, c0);
        auto sz = ku::compute_cluster_sizes(p.begin(), p.end(), k);
        auto sum = ku::compute_cluster_positions_sum(x.begin(), x.end(), nf, p.begin(), k);
        auto nn = ku::nearest_neighbor_distances(c0.begin(), c0.end(), nf);
        std::vector<long> m1, m2, m3; for (auto v : d1) m1.push_back(milli(v));
        for (auto v : d2) m2.push_back(v == std::numeric_limits<T>::max() ? -1L : milli(v));
        for (auto v : nn) m3.push_back(v == ffcl::common::infinity<T>() ? -1L : milli(v));
        std::vector<std::vector<long>> sm;
        for (std::size_t j = 0; j < k; ++j) { std::vector<long> q; for (std::size_t f = 0; f < nf; ++f) q.push_back(vf::to_int((double(sum[j * nf + f]) - double(sz[j]) * double(o)) / double(s), 1e-3)); sm.push_back(q); }
        Obj e; e.f("op", "utils").f("p", std::vector<long>(p.begin(), p.end())).f("d1", m1).f("d2", m2).f("sz", std::vector<long>(sz.begin(), sz.end())).f("sum", sm).f("nn", m3); ev.add(e);
    }
    if (mode < 2)
        for (std::size_t i = 0; i < init.size(); ++i) {
            if (alg == 0) { ffcl::Lloyd<It> a(desc, init[i]); steps_of(a, i, steps); }
            else { ffcl::Hamerly<It> a(desc, init[i]); steps_of(a, i, steps); }
        }
    using KM = ffcl::KMeans<T>;
    typename KM::Options op; const bool lazy = X.size() % 2;   // lazy: options that have their documented default are left alone
    if (!lazy || maxit != 100) op.max_iter(maxit);
    if (!lazy || !early) op.early_stopping(early);
    if (!lazy || tol) op.tolerance(T(tol) * T(1e-5) * s);
    if (!lazy || patience) op.patience(patience);
    if (!lazy || init.size() != 1) op.n_init(init.size());
    auto predict = [&](KM& km) {
        auto p = km.predict(y.begin(), y.end(), nf); auto d = km.forward(y.begin(), y.end(), nf);
        std::vector<long> dd; for (auto v : d) dd.push_back(milli(v));
        Obj e; e.f("op", "predict").f("Y", Y).f("p", std::vector<long>(p.begin(), p.end())).f("d", dd); ev.add(e);
    };
    if (mode == 1) {
        long calls = 0;
        auto initializer = [&](const It& f, const It& l, std::size_t n, std::size_t kk) {
            if (f != x.begin() || l != x.end() || n != nf || kk != k) return std::vector<T>(k * nf, T(-12345) * s);
            return init[calls++ % init.size()];
        };
        auto given = how == 1;
        std::unique_ptr<KM> km;
        if (given) km = std::make_unique<KM>(k, init[0], op);
        else { km = std::make_unique<KM>(k); km->set_options(op); }
        std::vector<T> c;
        if (given) c = alg == 0 ? km->template fit<ffcl::Lloyd>(x.begin(), x.end(), nf) : km->fit(x.begin(), x.end(), nf);
        else c = alg == 0 ? km->template fit<ffcl::Lloyd>(x.begin(), x.end(), nf, initializer) : how == 0 ? km->template fit<ffcl::Hamerly>(x.begin(), x.end(), nf, initializer) : km->fit(x.begin(), x.end(), nf, initializer);
        Obj e; e.f("op", "fit").f("c", cs(c)).f("calls", calls); ev.add(e);
        predict(*km);
        if (maxit > 0 && how != 1) {   // fitting again goes on from the centroids that were found
            auto again = [&](auto& al) { Obj q; q.f("op", "again").f("dev", milli(al.total_deviation())); ev.add(q);
                for (long t = 0; t < steps; ++t) { auto cc = al.step(); Obj z; z.f("op", "step").f("c", cs(cc)).f("dev", milli(al.total_deviation())); ev.add(z); } };
            if (alg == 0) { ffcl::Lloyd<It> al(desc, c); again(al); } else { ffcl::Hamerly<It> al(desc, c); again(al); }
            auto c2 = alg == 0 ? km->template fit<ffcl::Lloyd>(x.begin(), x.end(), nf, initializer) : km->template fit<ffcl::Hamerly>(x.begin(), x.end(), nf, initializer);
            Obj e2; e2.f("op", "fit").f("c", cs(c2)).f("calls", calls); ev.add(e2);
            predict(*km);
        }
    }
    if (mode == 3) {   // the library's own random initialization, until nothing moves
        typename KM::Options o3; o3.max_iter(500).early_stopping(true).patience(0).tolerance(0).n_init(std::max<long>(1, maxit));
        KM km(k, o3);
        auto c = alg == 0 ? km.template fit<ffcl::Lloyd>(x.begin(), x.end(), nf) : how == 0 ? km.template fit<ffcl::Hamerly>(x.begin(), x.end(), nf) : km.fit(x.begin(), x.end(), nf);
        std::vector<long> lab; for (auto v : km.predict(x.begin(), x.end(), nf)) lab.push_back((long)v);
        bool tie = false; std::vector<long> size(k);
        for (std::size_t i = 0; i < lab.size(); ++i) {
            ++size[lab[i]]; std::vector<double> q(k); double m = 0;
            for (std::size_t j = 0; j < k; ++j) for (std::size_t f = 0; f < nf; ++f) { double v = (double(x[i * nf + f]) - double(c[j * nf + f])) / double(s); q[j] += v * v; m = std::max(m, q[j]); }
            std::sort(q.begin(), q.end()); if (k > 1 && q[1] - q[0] < 1e-4 * (1 + m)) tie = true;
        }
        bool full = std::count(size.begin(), size.end(), 0) == 0;
        Obj e; e.f("op", "auto").f("c", cs(c)).f("lab", lab).f("tie", tie).f("full", full); ev.add(e);
        if (full && !tie) predict(km);
    }
    if (mode == 2) {
        KM km(k, init[0]);
        Obj e; e.f("op", "given"); ev.add(e);
        predict(km);
    }
}
int main() { return vf::run([](vf::Reader& r, vf::Events& ev) { if (r.i() == 0) run<double>(r, ev); else run<float>(r, ev); }); }
