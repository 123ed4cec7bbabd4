// C14: apply_even_versor, apply_odd_versor, apply_rotor for every representation of versor and argument; sequences.
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "versors.hpp"

static std::set<int> grades(MV const &a) { std::set<int> s; for (auto &t : a.c) if (std::fabs(t.second) > 1e-9L) s.insert(ref::popc(t.first)); return s; }
static int parity(MV const &a) { int p = -1; for (auto &t : a.c) { int q = ref::popc(t.first) & 1; if (p >= 0 && p != q) return 2; p = q; } return p; }

template<int P, int Q, typename V, typename X, typename M> void pairs(std::string const &kv, items<V> const &vs, std::string const &kx, items<X> const &xs, M const &m, ref::Metric const &rm, std::string const &sp) {
    mc::section("apply/" + sp + "/" + kv + "/" + kx);
    const Num tol = std::is_same<typename coeff<V>::t, float>::value || std::is_same<typename coeff<X>::t, float>::value ? FTOL : TOL;
    if constexpr (knorm<typename expr_of<V>::t>::get(P, Q) != 0)
    for (auto &v : vs) {
        Num n2; if (!versor(v.m, rm, n2)) continue;
        int par = parity(v.m); if (par != 0 && par != 1) continue;
        mc::state(mc::mix(mc::hash(sp + kv), mc::hash(v.m)));
        MV iv = ref::inv(v.m, rm);
        for (auto &x : xs) {
            auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + kv + "/" + kx + "/" + v.m.str() + "," + x.m.str(); }; };
            MV arg = par ? ref::involute(x.m) : x.m, want = ref::gp(ref::gp(v.m, arg, rm), iv, rm);
            MV got = par ? obs::see(apply_odd_versor(v.x, x.x, m)) : obs::see(apply_even_versor(v.x, x.x, m));
            mc::eq(got, want, key(par ? "odd" : "even"), tol);
            std::set<int> g = grades(got), gx = grades(x.m);
            mc::check(std::includes(gx.begin(), gx.end(), g.begin(), g.end()), key("grades preserved"));
            mc::eq(MV(ref::norm2(got, rm)), MV(ref::norm2(x.m, rm)), key("norm preserved"), 1e3L * tol);
            if (!par) mc::eq(obs::see(apply_rotor(v.x, x.x, m)), ref::gp(ref::gp(v.m, x.m, rm), ref::reverse(v.m), rm), key("rotor"), tol);
        }
        mc::trace();
    }
}
template<typename Y, typename R> void trivial_copy_grade1(Y &y, R const &r) { MV m = obs::see(r); put(y, ref::clean(ref::grade_part(m, 1), 0)); }
template<typename A, typename B, typename M> auto sp_(A const &a, B const &b, M const &m) { return ga::sp(a, b, m); }
template<int P, int Q, int R> void sig() {
    constexpr int n = P + Q + R;
    signed_metric_space<P, Q, R> m; ref::Metric rm = ref::Metric::sig(P, Q, R); std::string sp = sigkey(P, Q, R);
#if PART == 1 // representations
    zoo<n, MASKV>([&](std::string const &kv, auto const &vs) { zoo<n, MASK>([&](std::string const &kx, auto const &xs) { pairs<P, Q>(kv, vs, kx, xs, m, rm, sp); }); });
#elif PART == 2 // every product of up to LEN small vectors
    using F = full_multivector_t<double, n>;
    auto v = versors<F>(n, rm, VALS, LEN, false);
    pairs<P, Q>("versor", v, "full", basis<F>(n), m, rm, sp);
    pairs<P, Q>("versor", v, "vec", basis<full_vector_t<int, n>>(n), m, rm, sp);
    auto w = versors<full_vector_t<double, n>>(n, rm, VALS, 1, false);
    pairs<P, Q>("vector", w, "full", basis<F>(n), m, rm, sp);
    pairs<P, Q>("vector", w, "vec", grid<full_vector_t<double, n>>(n, {-1, 0, 2}), m, rm, sp);
#elif PART == 3 // histories: versors applied one after another, every sequence up to LEN, against applying their product
    using V = full_vector_t<double, n>; using F = full_multivector_t<double, n>;
    auto vs = versors<V>(n, rm, VALS, 1, false);
    vs.erase(std::remove_if(vs.begin(), vs.end(), [](auto const &x) { return parity(x.m) != 1; }), vs.end());
    items<F> xs = basis<F>(n);
    struct St { F x; MV m; F prod; MV pm; int len; std::string h; };
    mc::section("histories/" + sp);
    for (std::size_t ix = 0; ix < xs.size(); ++ix) {
        std::vector<St> front{{xs[ix].x, xs[ix].m, make<F>(MV(1)), MV(1), 0, ""}};
        for (int l = 1; l <= LEN; ++l) {
            std::vector<St> next;
            for (auto &s : front) for (std::size_t k = 0; k < vs.size(); ++k) {
                F y; y = apply_odd_versor(vs[k].x, s.x, m);
                F p; p = gp(vs[k].x, s.prod, m);
                MV ym = ref::apply_odd_versor(vs[k].m, s.m, rm), pm = ref::gp(vs[k].m, s.pm, rm);
                std::string h = s.h + "," + std::to_string(k);
                auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + xs[ix].m.str() + "/" + h; }; };
                mc::state(mc::mix(mc::hash(sp + std::to_string(ix)), mc::mix(mc::hash(ym), mc::hash(pm))));
                mc::eq(obs::see(y), ym, key("step"), 1e-10L);
                mc::eq(obs::see(p), pm, key("product"));
                F z; if (l % 2) z = apply_odd_versor(p, xs[ix].x, m); else z = apply_even_versor(p, xs[ix].x, m);
                mc::eq(obs::see(z), obs::see(y), key("applying the product"), 1e-9L);
                next.push_back({y, ym, p, pm, l, h});
                mc::trace();
            }
            front = next;
        }
    }
#elif PART == 4 // inner products of all pairs of transformed vectors
    using V = full_vector_t<double, n>; using F = full_multivector_t<double, n>;
    auto vs = versors<F>(n, rm, VALS, LEN, false); auto xs = grid<V>(n, {-1, 0, 2});
    mc::section("isometry/" + sp);
    for (auto &v : vs) {
        int par = parity(v.m); if (par != 0 && par != 1) continue;
        mc::state(mc::mix(mc::hash(sp), mc::hash(v.m)));
        std::vector<V> ys;
        for (auto &x : xs) { V y = make<V>(MV()); if (par) trivial_copy_grade1(y, apply_odd_versor(v.x, x.x, m)); else trivial_copy_grade1(y, apply_even_versor(v.x, x.x, m)); ys.push_back(y); }
        for (std::size_t i = 0; i < xs.size(); ++i) for (std::size_t j = 0; j <= i; ++j)
            mc::eq(obs::see(sp_(ys[i], ys[j], m)), ref::sp(xs[i].m, xs[j].m, rm), [&] { return "isometry/" + sp + "/" + v.m.str() + "/" + xs[i].m.str() + "," + xs[j].m.str(); }, 1e-10L);
        mc::trace();
    }
#endif
}
void explore() {
#define S(p, q, r) sig<p, q, r>();
    SIGS
}
