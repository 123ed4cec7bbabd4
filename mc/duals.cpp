// C13: dual and undual of every representation against every pseudoscalar (of the space and of its sub-spaces).
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "versors.hpp"

template<int P, int Q, typename A, typename I, typename M> void pairs(std::string const &ka, items<A> const &as, std::string const &ki, items<I> const &is, M const &m, ref::Metric const &rm, std::string const &sp) {
    mc::section("dual/" + sp + "/" + ka + "/" + ki);
    constexpr long KI = knorm<typename expr_of<I>::t>::get(P, Q);
    for (auto &i : is) {
        Num n2; bool ok = versor(i.m, rm, n2);
        MV ii = ok ? ref::inv(i.m, rm) : MV();
        mc::state(mc::mix(mc::hash(sp + ki), mc::hash(i.m)));
        for (auto &a : as) {
            auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + ka + "/" + ki + "/" + a.m.str() + "," + i.m.str(); }; };
            mc::eq(obs::see(undual(a.x, i.x, m)), ref::lcont(a.m, i.m, rm), key("undual"), TOL);
            if constexpr (KI != 0) if (ok) mc::eq(obs::see(dual(a.x, i.x, m)), ref::lcont(a.m, ii, rm), key("dual"), TOL);
            mc::eq(obs::see(a.x), a.m, key("operand"));
        }
        mc::trace();
    }
}
template<int P, int Q, typename A, typename I, typename M> void round_trip(std::string const &ka, items<A> const &as, std::string const &ki, I const &I_, M const &m, std::string const &sp) {
    mc::section("roundtrip/" + sp + "/" + ka + "/" + ki);
    for (auto &a : as) {
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + ka + "/" + ki + "/" + a.m.str(); }; };
        mc::eq(obs::see(undual(dual(a.x, I_, m), I_, m)), a.m, key("undual(dual)"), TOL);
        mc::eq(obs::see(dual(undual(a.x, I_, m), I_, m)), a.m, key("dual(undual)"), TOL);
        mc::trace();
    }
}
template<int n, typename F> void pseudoscalars(F &&f) { // every blade that can serve as a pseudoscalar
#if PSEUDO == 1 // compile-time unit blades: the space and its sub-spaces
    each_bits([&](auto v) { constexpr bitset_t V = decltype(v)::value + 1; f("I" + std::to_string(V), single(kblade<V, 1>())); }, std::make_integer_sequence<bitset_t, (bitset_t(1) << n) - 1>());
    f("minus I", single(kblade<(bitset_t(1) << n) - 1, -2>()));
    f("scalar", single(c<2>));
#elif PSEUDO == 2 // stored coefficients on compile-time blades
    each_bits([&](auto v) { constexpr bitset_t V = decltype(v)::value + 1; f("sI" + std::to_string(V), blades<cblade<double, V>>(n, {2, -1})); }, std::make_integer_sequence<bitset_t, (bitset_t(1) << n) - 1>());
    f("kvec", blades<full_kvector_t<int, n, n>>(n, {3}));
#elif PSEUDO == 3 // blades chosen at run time
    f("dyn", blades<scaled_basis_blade_t<double, 0, n>>(n, {2}));
    f("udyn", blades<unit_basis_blade_t<1, n>>(n, {1}));
#elif PSEUDO == 4 // non-basis blades: every product of small integer vectors
    f("vector", grid<full_kvector_t<double, n, 1>>(n, {-1, 0, 2}));
    auto v = grid<full_kvector_t<int, n, 1>>(n, {-1, 0, 1});
    if constexpr (n >= 2) { std::set<MV> s; for (auto &a : v) for (auto &b : v) s.insert(ref::op(a.m, b.m)); items<full_kvector_t<double, n, 2>> r; for (auto &x : s) r.push_back({make<full_kvector_t<double, n, 2>>(x), x}); f("bivector", r); }
#endif
}
template<int P, int Q, int R> void sig() {
    constexpr int n = P + Q + R;
    signed_metric_space<P, Q, R> m; ref::Metric rm = ref::Metric::sig(P, Q, R); std::string sp = sigkey(P, Q, R);
    zoo<n, MASK>([&](std::string const &k, auto const &xs) {
        pseudoscalars<n>([&](std::string const &ki, auto const &is) { pairs<P, Q>(k, xs, ki, is, m, rm, sp); });
        if constexpr (R == 0 && PSEUDO == 1) {
            round_trip<P, Q>(k, xs, "I", pseudoscalar(m), m, sp);
            round_trip<P, Q>(k, xs, "-3I", kblade<(bitset_t(1) << n) - 1, -3>(), m, sp);
        }
        if constexpr (R == 0 && PSEUDO == 2) round_trip<P, Q>(k, xs, "sI", make<cblade<double, (bitset_t(1) << n) - 1>>(MV::blade((Bits(1) << n) - 1, -2)), m, sp);
        if constexpr (R == 0 && PSEUDO == 3) round_trip<P, Q>(k, xs, "dynI", make<scaled_basis_blade_t<double, n>>(MV::blade((Bits(1) << n) - 1, 2)), m, sp);
    });
}
void explore() {
#define S(p, q, r) sig<p, q, r>();
    SIGS
}
