// C08: reversion, grade involution, conjugation, unary + and -; alone and composed.
#include <gatl/ga.hpp>
#include "zoo.hpp"
using namespace kinds;
using namespace ga;

#define UN(NM, EXPR, MODEL) struct u_##NM { static char const *name() { return #NM; } template<typename X> static auto run(X const &x) { return EXPR; } static MV model(MV const &x) { return MODEL; } };
UN(reverse, ga::reverse(x), ref::reverse(x))
UN(involute, ga::involute(x), ref::involute(x))
UN(conjugate, ga::conjugate(x), ref::conjugate(x))
UN(minus, -x, -x)
UN(plus, +x, +x)
struct u_tilde { static char const *name() { return "~"; } template<typename X> static auto run(X const &x) { if constexpr (std::is_arithmetic<X>::value) return x; else return ~x; } static MV model(MV const &x) { return ref::reverse(x); } };

template<typename Op, typename X> void one(std::string const &kind, items<X> const &xs) {
    mc::section(std::string(Op::name()) + "/" + kind);
    for (auto &x : xs) {
        mc::state(mc::mix(mc::hash(kind), mc::hash(x.m)));
        mc::eq(obs::see(Op::run(x.x)), Op::model(x.m), [&] { return std::string(Op::name()) + "/" + kind + "/" + x.m.str(); });
        mc::check(obs::see(x.x) == x.m, [&] { return std::string(Op::name()) + "/" + kind + "/operand/" + x.m.str(); }, "operand changed");
    }
    mc::trace();
}
template<typename X> void all(std::string const &kind, items<X> const &xs) {
    one<u_reverse>(kind, xs); one<u_tilde>(kind, xs); one<u_involute>(kind, xs); one<u_conjugate>(kind, xs); one<u_minus>(kind, xs); one<u_plus>(kind, xs);
}
#if PART == 2 // every sequence of three unary operations
template<typename Op, int depth, typename X> void seq(std::string const &hist, std::string const &kind, X const &x, MV const &m);
template<int depth, typename X> void fan(std::string const &hist, std::string const &kind, X const &x, MV const &m) {
    if constexpr (depth > 0) {
        seq<u_reverse, depth>(hist, kind, x, m); seq<u_involute, depth>(hist, kind, x, m); seq<u_conjugate, depth>(hist, kind, x, m); seq<u_minus, depth>(hist, kind, x, m);
    } else mc::trace();
}
template<typename Op, int depth, typename X> void seq(std::string const &hist, std::string const &kind, X const &x, MV const &m) {
    auto r = Op::run(x); MV want = Op::model(m); std::string h = hist + "." + Op::name();
    mc::state(mc::mix(mc::hash(kind), mc::hash(want)));
    mc::eq(obs::see(r), want, [&] { return "seq/" + kind + "/" + m.str() + "/" + h; });
    fan<depth - 1>(h, kind, r, want);
}
#endif
void explore() {
#if PART == 1
    zoo<MC_N, MASK>([](std::string const &k, auto const &xs) { all(k, xs); });
#elif PART == 2
    zoo<MC_N, MASK>([](std::string const &k, auto const &xs) { mc::section("seq/" + k); for (auto &x : xs) fan<3>("", k, x.x, x.m); });
#elif PART == 3 // run-time blades of every grade up to the maximum, at several positions
    constexpr int n = GA_MAX_BASIS_VECTOR_INDEX;
    auto run = [&](auto proto, std::string const &kind, int lo, int hi) {
        using X = decltype(proto);
        items<X> xs;
        for (int g = lo; g <= hi; ++g) for (int s = 0; s + g <= n; ++s) {
            Bits b = (g == 0 ? 0 : (g >= 64 ? ~Bits(0) : ((Bits(1) << g) - 1)) << s);
            X x; put(x, MV::blade(b, 2)); xs.push_back({x, obs::see(x)});
            if (g >= 1 && s + g + 3 <= n) { Bits c = (b & ~(Bits(1) << (s + g - 1))) | Bits(1) << (s + g + 2); put(x, MV::blade(c, 2)); xs.push_back({x, obs::see(x)}); }
        }
        all(kind, xs);
    };
#ifdef GRADE_LO
    each_int([&](auto k) { constexpr int G = decltype(k)::value + GRADE_LO; run(scaled_basis_blade_t<int, G>(), "g" + std::to_string(G), G, G); }, std::make_integer_sequence<int, GRADE_N>());
#else
    run(scaled_basis_blade_t<int, 0, n>(), "high", 0, n);
    run(unit_basis_blade_t<0, n>(), "uhigh", 0, n);
    run(scaled_basis_blade_t<double, n / 2, n>(), "upper", n / 2, n);
    run(scaled_basis_blade_t<int, 0, n / 2>(), "lower", 0, n / 2);
    run(scaled_basis_blade_t<int, 2, 3>(), "g23", 2, 3);
    run(scaled_basis_blade_t<int, n>(), "top", n, n);
    all("ctop", blades<cblade<int, (bitset_t(1) << n) - 1>>(1, {2}));
    all("ctop1", blades<cblade<int, ((bitset_t(1) << n) - 1) & ~bitset_t(1)>>(1, {2}));
    all("kvec", single(kblade<bitset_t(1) << (n - 1), 3>() + kblade<(bitset_t(1) << n) - 1, 5>() + kblade<7, 11>()));
#endif
#endif
}
