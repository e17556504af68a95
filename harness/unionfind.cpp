#include "vf.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include <cstddef>
template <class I>
static void run(vf::Reader& r, vf::Events& ev) {
    long n = r.i();
    auto parents = r.vec();
    auto ops = r.mat();
    auto probe = r.vec();  // for each op: record the full table of representatives afterwards?
    using UF = ffcl::datastruct::UnionFind<I>;
    std::unique_ptr<UF> uf;
    if (parents.empty()) uf = std::make_unique<UF>(static_cast<std::size_t>(n));
    else {
        auto p = std::make_unique<I[]>(n);
        for (long i = 0; i < n; ++i) p[i] = static_cast<I>(parents[i]);
        uf = std::make_unique<UF>(static_cast<std::size_t>(n), std::move(p));
    }
    for (std::size_t k = 0; k < ops.size(); ++k) {
        I a = static_cast<I>(ops[k][1]), b = static_cast<I>(ops[k][2]);
        vf::Obj o;
        if (ops[k][0]) { auto x = uf->merge(a, b); o.f("op", "merge").f("a", (long)a).f("b", (long)b).f("r", (long)x); }
        else { auto x = uf->find(a); o.f("op", "find").f("a", (long)a).f("r", (long)x); }
        std::vector<long> reps;
        if (probe[k]) for (long i = 0; i < n; ++i) reps.push_back((long)uf->find(static_cast<I>(i)));
        o.f("reps", reps);
        ev.add(o);
    }
}
int main() {
    return vf::run([](vf::Reader& r, vf::Events& ev) {
        long t = r.i();
        if (t == 0) run<std::size_t>(r, ev); else if (t == 1) run<int>(r, ev); else run<unsigned short>(r, ev);
    });
}
