// C21: the components of the declared types of multivectors: each blade that the declaration names, once, and no other.
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "zoo.hpp"
using namespace kinds; using namespace ga;
using mc::MV;
// every blade of the given dimensions whose grade is in the set
static std::vector<Bits> of_grades(int n, std::set<int> const &g) { std::vector<Bits> r; for (Bits b = 0; b < (Bits(1) << n); ++b) if (g.count(ref::popc(b))) r.push_back(b); return r; }
template<typename X> static void stored(std::string const &nm, std::vector<Bits> const &want) {
    mc::section(nm); X x; int k = 1; for (auto &v : x.values()) { v = typename X::coefficient_type(k % 97); ++k; }
    std::map<Bits, int> seen; std::set<long> vals; bool ok = true; int i = 1;
    for_each_component(x, [&](bitset_t b, auto const &v, entry_source_t const bs, entry_source_t const vs, bool &) { ++seen[(Bits)b]; ok = ok && (long)v == i % 97 && bs == COMPILE_TIME_DEFINED_ENTRY && vs == STORED_RUNTIME_DEFINED_ENTRY; ++i; });
    for (auto &s : seen) ok = ok && s.second == 1;
    std::set<Bits> w(want.begin(), want.end()); std::set<Bits> g; for (auto &s : seen) g.insert(s.first);
    mc::check(ok && g == w && k - 1 == (int)want.size(), [&] { return nm + "/components"; }, "the components are not the declared ones");
    MV got = obs::see(x); mc::check(got.c.size() <= want.size(), [&] { return nm + "/see"; }, "more components than declared");
    { X const &c_ = x; std::size_t k1 = 0, k2 = 0; auto j = x.values().begin(); bool same = true; for (auto i2 = c_.values().begin(); i2 != c_.values().end(); ++i2, ++k1, ++j) same = same && &*i2 == &*j; j = x.values().begin(); for (auto i2 = x.values().cbegin(); i2 != x.values().cend(); ++i2, ++k2, ++j) same = same && &*i2 == &*j;
      mc::check(same && k1 == want.size() && k2 == want.size() && x.bitsets().begin() == x.bitsets().end() && c_.bitsets().cbegin() == c_.bitsets().cend(), [&] { return nm + "/storage"; }, "the stored entries are not the components"); }
    for (Bits b : want) { X y; for (auto &v : y.values()) v = 0; put(y, MV::blade(b, 5)); mc::eq(obs::see(y), MV::blade(b, 5), [&] { return nm + "/" + MV::blade(b).str(); }); mc::state(mc::mix(mc::hash(nm), b)); }
    mc::trace();
}
template<typename X> static void blade(std::string const &nm, int n, int lo, int hi, bool unit) { // a blade chosen at run time
    mc::section(nm); using E = typename X::expression_type; (void)sizeof(E);
    for (Bits b = 0; b < (Bits(1) << n); ++b) {
        int const g = ref::popc(b); if (g < lo || g > hi) continue;
        X x; for (auto &q : x.bitsets()) q = (bitset_t)b; int v = 1;
        if (!unit) { for (auto &q : x.values()) q = 3; v = 3; }
        MV m = MV::blade(b, v); int k = 0; for_each_component(x, [&](bitset_t s, auto const &q, entry_source_t const, entry_source_t const, bool &) { ++k; mc::check((Bits)s == b && (long)q == v, [&] { return nm + "/" + m.str(); }, "the component is not the declared one"); });
        mc::check(k == 1, [&] { return nm + "/" + m.str() + "/count"; }, "not one component");
        obs::bad_grades() = 0; mc::eq(obs::see(x), m, [&] { return nm + "/" + m.str() + "/see"; }); mc::check(obs::bad_grades() == 0, [&] { return nm + "/" + m.str() + "/grades"; }, "a declared grade is excluded");
        mc::eq(obs::see(involute(x)), ref::involute(m), [&] { return nm + "/" + m.str() + "/involute"; }); mc::eq(obs::see(reverse(x)), ref::reverse(m), [&] { return nm + "/" + m.str() + "/reverse"; }); mc::eq(obs::see(x + scalar(1)), m + MV(1), [&] { return nm + "/" + m.str() + "/plus"; });
        mc::state(mc::mix(mc::hash(nm), b));
    }
    mc::check(largest_possible_grade_v<E> == hi && smallest_possible_grade_v<E> == lo, [&] { return nm + "/range"; }, "the possible grades are not the declared ones");
    mc::trace();
}
template<typename X> static void fixed(std::string const &nm, Bits b, bool unit) {
    mc::section(nm); X x; if (!unit) for (auto &q : x.values()) q = 3; MV const m = MV::blade(b, unit ? 1 : 3);
    mc::eq(obs::see(x), m, [&] { return nm; }); int k = 0; for_each_component(x, [&](bitset_t s, auto const &q, entry_source_t const, entry_source_t const vs, bool &) { ++k; mc::check((Bits)s == b && (long)q == (unit ? 1 : 3) && vs == (unit ? COMPILE_TIME_DEFINED_ENTRY : STORED_RUNTIME_DEFINED_ENTRY), [&] { return nm + "/component"; }, "the component is not the declared one"); });
    mc::check(k == 1, [&] { return nm + "/count"; }, "not one component"); mc::state(mc::hash(nm)); mc::trace();
}
template<int N> static void types() {
    std::string const p = "/" + std::to_string(N); std::set<int> all; for (int k = 0; k <= N; ++k) all.insert(k);
    stored<full_multivector_t<int, N>>("full_multivector_t" + p, of_grades(N, all)); stored<full_vector_t<double, N>>("full_vector_t" + p, of_grades(N, {1}));
    each_int([&](auto g_) { constexpr int G = decltype(g_)::value;
        stored<full_kvector_t<long, N, G>>("full_kvector_t" + p + "/" + std::to_string(G), of_grades(N, {G}));
        blade<scaled_basis_blade_t<int, G>>("scaled_basis_blade_t" + p + "/" + std::to_string(G), N, G, G, false); blade<unit_basis_blade_t<G>>("unit_basis_blade_t" + p + "/" + std::to_string(G), N, G, G, true);
        each_int([&](auto d) { constexpr int H = G + decltype(d)::value; std::set<int> s; for (int k = G; k <= H; ++k) s.insert(k); std::string const q = p + "/" + std::to_string(G) + ".." + std::to_string(H);
            stored<full_multivector_t<float, N, G, H>>("full_multivector_t" + q, of_grades(N, s));
            blade<scaled_basis_blade_t<double, G, H>>("scaled_basis_blade_t" + q, N, G, H, false); blade<unit_basis_blade_t<G, H>>("unit_basis_blade_t" + q, N, G, H, true); }, std::make_integer_sequence<int, N + 1 - G>()); }, std::make_integer_sequence<int, N + 1>());
    each_int([&](auto i) { constexpr int I = decltype(i)::value + 1; std::string const q = p + "/" + std::to_string(I); Bits b = Bits(1) << (I - 1);
        fixed<scaled_constant_basis_vector_t<int, I>>("scaled_constant_basis_vector_t" + q, b, false); fixed<unit_constant_basis_vector_t<I>>("unit_constant_basis_vector_t" + q, b, true); fixed<scaled_constant_basis_blade_t<double, I>>("scaled_constant_basis_blade_t" + q, b, false); fixed<unit_constant_basis_blade_t<I>>("unit_constant_basis_blade_t" + q, b, true);
        mc::eq(obs::see(e(c<I>)), MV::blade(b), [&] { return "e(c)" + q; }); mc::eq(obs::see(e(I)), MV::blade(b), [&] { return "e" + q; });
        each_int([&](auto j) { constexpr int J = decltype(j)::value + 1; if constexpr (I < J) { std::string const qq = q + "," + std::to_string(J); Bits bb = b | Bits(1) << (J - 1); fixed<scaled_constant_basis_blade_t<long, I, J>>("scaled_constant_basis_blade_t" + qq, bb, false); fixed<unit_constant_basis_blade_t<I, J>>("unit_constant_basis_blade_t" + qq, bb, true);
            if constexpr (J < N) { fixed<scaled_constant_basis_blade_t<long, I, J, N>>("scaled_constant_basis_blade_t3" + qq, bb | Bits(1) << (N - 1), false); fixed<unit_constant_basis_blade_t<I, J, N>>("unit_constant_basis_blade_t3" + qq, bb | Bits(1) << (N - 1), true); } } }, std::make_integer_sequence<int, N>()); }, std::make_integer_sequence<int, N>());
    Bits const ps = (Bits(1) << N) - 1;
    fixed<scaled_pseudoscalar_t<int, N>>("scaled_pseudoscalar_t" + p, ps, false); fixed<unit_pseudoscalar_t<N>>("unit_pseudoscalar_t" + p, ps, true); mc::eq(obs::see(pseudoscalar(euclidean_metric_space<N>())), MV::blade(ps), [&] { return "pseudoscalar" + p; });
    blade<scaled_basis_vector_t<int>>("scaled_basis_vector_t" + p, N, 1, 1, false); blade<unit_basis_vector_t>("unit_basis_vector_t" + p, N, 1, 1, true);
}
void explore() {
    fixed<scaled_scalar_t<int>>("scaled_scalar_t", 0, false); fixed<unit_scalar_t>("unit_scalar_t", 0, true); fixed<scaled_constant_basis_blade_t<int>>("scaled_constant_basis_blade_t", 0, false); fixed<unit_constant_basis_blade_t<>>("unit_constant_basis_blade_t", 0, true);
    types<MC_N>();
}
