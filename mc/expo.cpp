// C15: the exponential of every even blade of a bounded set, for every representation, against the power series.
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "versors.hpp"

static bool even_blade(MV const &a, ref::Metric const &m) { // even, with a scalar square
    for (auto &t : a.c) if (ref::popc(t.first) & 1) return false;
    MV q = ref::gp(a, a, m); for (auto &t : q.c) if (t.first) return false;
    int g = -1; for (auto &t : a.c) { int k = ref::popc(t.first); if (g >= 0 && g != k) return false; g = k; }
    return true;
}
template<typename B, typename M> void exps(std::string const &kind, items<B> const &bs, M const &m, ref::Metric const &rm, std::string const &sp) {
    mc::section("exp/" + sp + "/" + kind);
    constexpr bool flt = std::is_same<typename coeff<B>::t, float>::value;
    const Num tol = flt ? 2e-6L : 1e-12L;
    for (auto &b : bs) {
        if (!even_blade(b.m, rm)) continue;
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + kind + "/" + b.m.str(); }; };
        mc::state(mc::mix(mc::hash(sp + kind), mc::hash(b.m)));
        Num sq = ref::sp(b.m, b.m, rm).scalar();
        MV series = ref::exp_series(b.m, rm, 120), line = MV(1) + b.m;
        const bool nonscalar = !b.m.c.empty() && b.m.c.begin()->first != 0;
        mc::eq(obs::see(exp(b.x, m)), nonscalar && std::fabs(sq) <= (Num)default_tolerance<typename coeff<B>::t>() ? line : series, key("exp"), tol);
        mc::eq(obs::see(exp(b.x, 0, m)), series, key("exp0"), tol);
        if constexpr (is_clifford_expression_v<B>) { // the branch at the tolerance (for scalars exp is the ordinary exponential)
            if (b.m.c.empty() || b.m.c.begin()->first) {
                mc::eq(obs::see(exp(b.x, 4, m)), std::fabs(sq) <= 4 ? line : series, key("exp4"), tol);
                mc::eq(obs::see(exp(b.x, 0.25, m)), std::fabs(sq) <= 0.25L ? line : series, key("exp0.25"), tol);
                mc::eq(obs::see(exp(b.x, c<1>, m)), std::fabs(sq) <= 1 ? line : series, key("expc1"), tol);
            }
        }
        mc::eq(obs::see(b.x), b.m, key("operand"));
    }
    mc::trace();
}
template<typename X> items<X> even_values(int n, std::vector<double> const &vals) { // blades of even grade: combinations a^b of small vectors, scaled
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
    std::set<MV> s; std::vector<MV> v;
    std::vector<std::size_t> ix(n, 0);
    for (;;) { MV m; for (int i = 0; i < n; ++i) m.add(Bits(1) << i, (int)ix[i] - 1); v.push_back(m); int i = 0; for (; i < n; ++i) { if (++ix[i] < 3) break; ix[i] = 0; } if (i == n) break; }
    for (auto &a : v) for (auto &b : v) s.insert(ref::op(a, b));
    s.insert(MV(1)); s.insert(MV()); if (n >= 4) for (Bits b = 0; b < Bits(1) << n; ++b) if (ref::popc(b) == 4) s.insert(MV::blade(b));
    items<X> r;
    for (auto &a : s) for (double w : vals) { MV m = ref::scale(a, w); bool fits = true; for (auto &t : m.c) if (std::find(bs.begin(), bs.end(), t.first) == bs.end()) fits = false; if (!fits) continue; X x = make<X>(m); r.push_back({x, obs::see(x)}); }
    return r;
}
template<typename X> items<X> scaled(int n, std::vector<double> const &vals) {
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
    items<X> r; for (Bits b : bs) for (double v : vals) { X x = make<X>(MV::blade(b, v)); r.push_back({x, obs::see(x)}); }
    return r;
}
template<int P, int Q, int R> void sig() {
    constexpr int n = P + Q + R;
    signed_metric_space<P, Q, R> m; ref::Metric rm = ref::Metric::sig(P, Q, R); std::string sp = sigkey(P, Q, R);
    std::vector<double> vals{1, -1, 0.5, 2, -2.5, 1e-3, 1e-6, 3.25};
#if PART == 1 // blades chosen at run time and compile-time blades
    exps("dyn", scaled<scaled_basis_blade_t<double, 0, n>>(n, vals), m, rm, sp);
    exps("dynf", scaled<scaled_basis_blade_t<float, 0, n>>(n, vals), m, rm, sp);
    exps("dyni", blades<scaled_basis_blade_t<int, 0, n>>(n, {1, -2, 0}), m, rm, sp);
    exps("udyn", blades<unit_basis_blade_t<0, n>>(n, {1}), m, rm, sp);
    if constexpr (n >= 2) exps("dyn2", scaled<scaled_basis_blade_t<double, 2>>(n, vals), m, rm, sp);
#elif PART == 2
    each_bits([&](auto v) { constexpr bitset_t V = decltype(v)::value;
        if constexpr (__builtin_popcountll(V) % 2 == 0) {
            exps("c" + std::to_string(V), scaled<cblade<double, V>>(n, vals), m, rm, sp); exps("ci" + std::to_string(V), blades<cblade<int, V>>(n, {1, -2, 0}), m, rm, sp);
            exps("k" + std::to_string(V), single(kblade<V, 1>()), m, rm, sp); exps("kn" + std::to_string(V), single(kblade<V, -3>()), m, rm, sp);
        } }, std::make_integer_sequence<bitset_t, (bitset_t(1) << n)>());
    exps("int", natives<int>({-2, 0, 1, 3}), m, rm, sp); exps("double", natives<double>({-2.5, 0, 0.5, 4}), m, rm, sp); exps("scalar", scalars(), m, rm, sp);
    exps("c2", single(c<2>), m, rm, sp); exps("c0", single(c<0>), m, rm, sp);
#elif PART == 3 // k-vectors and full multivectors holding blades that are not basis blades
    if constexpr (n >= 2) { exps("biv", even_values<full_kvector_t<double, n, 2>>(n, vals), m, rm, sp); exps("bivi", even_values<full_kvector_t<int, n, 2>>(n, {1, 2}), m, rm, sp); }
    exps("full", even_values<full_multivector_t<double, n>>(n, vals), m, rm, sp);
    exps("fulli", even_values<full_multivector_t<long, n>>(n, {1, -2}), m, rm, sp);
#endif
}
void explore() {
#define S(p, q, r) sig<p, q, r>();
    SIGS
}
