#include "vf.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
using vf::Obj;
template <class T> void run(vf::Reader& r, vf::Events& ev) {
    long mode = r.i(), store = r.i(); std::size_t nf = r.i(); auto X = r.mat(); long sexp = r.i(), off = r.i(), exact = r.i();
    auto M = r.vec(); long steps = r.i(), maxit = r.i(), early = r.i(), patience = r.i(), ninit = r.i(), k = r.i(), alg = r.i();
    const T s = std::is_floating_point_v<T> ? T(std::ldexp(1.0, sexp)) : T(1), o = T(off) * s;
    std::vector<T> x; for (auto& v : X) for (auto a : v) x.push_back(T(a) * s + o);
    std::vector<std::size_t> med(M.begin(), M.end());
    auto numd = [&](T d) { return exact ? vf::to_int(double(d) / double(s)) : vf::to_fix(double(d) / double(s), 1000); };
    auto nums = [&](const std::vector<T>& d) { std::vector<long> q; for (auto v : d) q.push_back(numd(v)); return q; };
    auto ids = [](const std::vector<std::size_t>& v) { std::vector<long> q; for (auto a : v) q.push_back(a > 1000000 ? vf::BAD : long(a)); return q; };
    using It = typename std::vector<T>::iterator;
    using PDM = ffcl::datastruct::PairwiseDistanceMatrix<It>;
    auto desc = std::make_tuple(x.begin(), x.end(), nf);
    auto go = [&](auto& a) {
        auto num = [&](T v) { return alg == 2 ? vf::to_fix(v, exact ? 1e6 : 1e3) : numd(v); };
        Obj e; e.f("op", "start").f("dev", num(a.total_deviation())); ev.add(e);
        for (long t = 0; t < steps; ++t) { auto m = a.step(); Obj q; q.f("op", "step").f("m", ids(m)).f("dev", num(a.total_deviation())); ev.add(q); }
    };
    if constexpr (std::is_floating_point_v<T>)
        if ((mode == 0 || mode == 1) && alg == 2) {
            if (store == 0) { ffcl::FasterMSC<It> a(desc, med); go(a); }
            else { PDM pdm(x.begin(), x.end(), nf); ffcl::FasterMSC<It> a(pdm, med); go(a); }
        }
    if ((mode == 0 || mode == 1) && alg != 2) {
        if (store == 0) { ffcl::FasterPAM<It> a(desc, med); go(a); }
        else { PDM pdm(x.begin(), x.end(), nf); ffcl::FasterPAM<It> a(pdm, med); go(a); }
    }
    auto predict = [&](auto& km) {
        PDM pdm(desc);
        Obj e; e.f("op", "predict").f("p", ids(km.predict(x.begin(), x.end(), nf))).f("d", nums(km.forward(x.begin(), x.end(), nf))); ev.add(e);
        Obj e2; e2.f("op", "predict").f("p", ids(km.predict(pdm))).f("d", nums(km.forward(pdm))); ev.add(e2);
    };
    auto options = [&](auto op) { 
        const bool lazy = X.size() % 2;   // options that have their documented default are left alone
        if (!lazy || maxit != 100) op.max_iter(maxit);
        if (!lazy || !early) op.early_stopping(early);
        if (!lazy || patience) op.patience(patience);
        if (!lazy || ninit != 1) op.n_init(ninit);
        return op; };
    auto fit1 = [&](auto& km, const char* name) {
        std::vector<std::size_t> m;
        if (store == 0) { 
            if constexpr (std::is_floating_point_v<T>) { if (alg == 2) m = km.template fit<ffcl::FasterMSC>(x.begin(), x.end(), nf); }
            if (alg == 0) m = km.fit(x.begin(), x.end(), nf); else if (alg == 1) m = km.template fit<ffcl::FasterPAM>(x.begin(), x.end(), nf);
        } else {
            PDM pdm(desc);
            if constexpr (std::is_floating_point_v<T>) { if (alg == 2) m = km.template fit<ffcl::FasterMSC>(pdm); }
            if (alg == 0) m = km.fit(pdm); else if (alg == 1) m = km.template fit<ffcl::FasterPAM>(pdm);
        }
        Obj e; e.f("op", name).f("m", ids(m)); ev.add(e);
        predict(km);
    };
    auto fit = [&](auto& km, const char* name) {
        fit1(km, name);
        if (patience != 1) fit1(km, "again");   // fitting again goes on from the medoids that were found
    };
    using A = ffcl::KMedoids<T, true>; using B = ffcl::KMedoids<T, false>;
    if (mode == 1) {
        const auto s0 = store;
        { A km(k, med, options(typename A::Options())); fit(km, "fit"); }
        store = 1 - s0;
        { A km(k, med, options(typename A::Options())); fit(km, "fit"); }
        store = 0;
        { B km(k, med); km.set_options(options(typename B::Options())); fit(km, "fit"); }
    }
    if (mode == 2) {
        if (patience == 1) { B km(k, options(typename B::Options())); fit(km, "rand"); }
        else { A km(k); km.set_options(options(typename A::Options())); fit(km, "rand"); }
    }
    if (mode == 3) { A km(k, med); km.set_options(options(typename A::Options())); fit(km, "any"); }
    if (mode == 4 || mode == 1) {
        namespace pu = pam::utils;
        PDM pdm(desc);
        for (int st = 0; st < 2; ++st) {
            std::vector<std::vector<long>> p, q;
            std::vector<std::vector<T>> dist; std::vector<std::size_t> near;
            for (std::size_t nth = 1; nth <= std::min<std::size_t>(3, med.size()); ++nth) {
                auto i = st ? pu::samples_to_nth_nearest_medoid_indices(pdm, med, nth) : pu::samples_to_nth_nearest_medoid_indices(x.begin(), x.end(), nf, med, nth);
                auto d = st ? pu::samples_to_nth_nearest_medoid_distances(pdm, med, nth) : pu::samples_to_nth_nearest_medoid_distances(x.begin(), x.end(), nf, med, nth);
                if (nth == 1) near = i;
                p.push_back(ids(i)); q.push_back(nums(d)); dist.push_back(d);
            }
            auto rem = pu::compute_losses_with_closest_medoid_removal(near, dist[0], dist[1], med.size());
            auto first = st ? pu::first_medoid_td_index_pair(pdm) : pu::first_medoid_td_index_pair(x.begin(), x.end(), nf);
            auto c = pu::medoids_to_centroids(x.begin(), x.end(), nf, med);
            std::vector<std::vector<long>> cs;
            for (std::size_t j = 0; j < med.size(); ++j) { std::vector<long> v; for (std::size_t f = 0; f < nf; ++f) v.push_back(c.size() == med.size() * nf ? vf::to_int(double(c[j * nf + f] - o) / double(s)) : vf::BAD); cs.push_back(v); }
            // no medoids, no rank, or more ranks than medoids: refused
            std::vector<long> ref;
            auto refuses = [&](const std::vector<std::size_t>& m, std::size_t nth) {
                for (int d = 0; d < 2; ++d) {
                    bool thrown = false;
                    try {
                        if (d) st ? pu::samples_to_nth_nearest_medoid_distances(pdm, m, nth) : pu::samples_to_nth_nearest_medoid_distances(x.begin(), x.end(), nf, m, nth);
                        else st ? pu::samples_to_nth_nearest_medoid_indices(pdm, m, nth) : pu::samples_to_nth_nearest_medoid_indices(x.begin(), x.end(), nf, m, nth);
                    } catch (const std::invalid_argument&) { thrown = true; }
                    ref.push_back(thrown);
                }
            };
            refuses({}, 1); refuses(med, 0); refuses(med, med.size() + 1);
            for (int d = 0; d < 2; ++d) {
                bool thrown = false; const std::vector<std::size_t> none;
                try {
                    if (d) st ? pu::samples_to_nearest_medoid_distances(pdm, none) : pu::samples_to_nearest_medoid_distances(x.begin(), x.end(), nf, none);
                    else st ? pu::samples_to_nearest_medoid_indices(pdm, none) : pu::samples_to_nearest_medoid_indices(x.begin(), x.end(), nf, none);
                } catch (const std::invalid_argument&) { thrown = true; }
                ref.push_back(thrown);
            }
            Obj e; e.f("op", "utils").f("ref", ref).f("p", p).f("q", q).f("rem", nums(rem)).f("td", numd(first.first)).f("first", (long)first.second).f("cs", cs); ev.add(e);
        }
    }
    if (mode == 4) { A km(k, med); Obj e; e.f("op", "given"); ev.add(e); predict(km); }
}
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) {
        switch (r.i()) { case 0: run<double>(r, ev); break; case 1: run<float>(r, ev); break; case 2: run<int>(r, ev); break; default: run<long>(r, ev); }
    });
}
