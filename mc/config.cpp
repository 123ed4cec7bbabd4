// C22: the configured types and tolerances are the ones in effect. The driver is built once per configuration with the
// expected settings in EXPECT_I, EXPECT_F (types), EXPECT_TF, EXPECT_TD (tolerances of float and double) and EXPECT_MAX.
// PART 1: types; PART 2: every function with a default tolerance, at every combination of coefficients around it, must
// do what it does with that tolerance given explicitly, which must be what the model does.
#include <gatl/ga2e.hpp>
#include <gatl/ga/model/minkowski.hpp>
#include <gatl/ga/model/conformal.hpp>
#include "zoo.hpp"
using namespace kinds;
using ga::default_integral_t; using ga::default_floating_point_t; using ga::bitset_t;
template<typename X> struct coeff { using t = X; };
template<typename T, typename E> struct coeff<ga::clifford_expression<T, E>> { using t = T; };
template<typename X> using coeff_t = typename coeff<std::decay_t<X>>::t;
struct nokey { std::string s; std::string operator()() const { return s; } };
template<typename A, typename B> void type(std::string const &w) { mc::state(mc::hash(w)); mc::trace(); mc::Ctx::get().outcomes.insert(mc::hash(w)); mc::check(std::is_same<A, B>::value, nokey{"type/" + w}, "another type"); }
#if PART == 1
void explore() {
    type<default_integral_t, EXPECT_I>("default_integral_t"); type<default_floating_point_t, EXPECT_F>("default_floating_point_t"); type<ga::grade_t, EXPECT_I>("grade_t"); type<ga::index_t, std::uint64_t>("index_t"); type<ga::ndims_t, std::uint64_t>("ndims_t");
    type<bitset_t, std::conditional_t<(EXPECT_MAX < 8), std::uint8_t, std::conditional_t<(EXPECT_MAX < 16), std::uint16_t, std::conditional_t<(EXPECT_MAX < 32), std::uint32_t, std::uint64_t>>>>("bitset_t");
    type<coeff_t<decltype(ga::c<3>)>, EXPECT_I>("coefficients of c<3>"); type<coeff_t<decltype(ga::e(ga::c<1>))>, EXPECT_I>("coefficients of e(c<1>)"); type<coeff_t<decltype(ga::e(1))>, EXPECT_I>("coefficients of e(1)"); type<coeff_t<ga::unit_basis_blade_t<1>>, EXPECT_I>("coefficients of a unit blade");
    type<coeff_t<decltype(ga::pseudoscalar(ga2e::space))>, EXPECT_I>("coefficients of the pseudoscalar");
    using namespace ga2e;
    auto i = ga::scalar(4); auto s = ga::scalar((short)4); auto l = ga::scalar(4L); auto f = ga::scalar(4.f); auto d = ga::scalar(4.); auto q = ga::scalar(4.L);
    // what leaves the integers goes to the default floating-point type, floating-point types are kept
#define INT_(X) { auto x = X; (void)x; type<coeff_t<decltype(inv(x))>, EXPECT_F>("inv " #X); type<coeff_t<decltype(x / 2)>, EXPECT_F>(#X " / 2"); type<coeff_t<decltype(2 / x)>, EXPECT_F>("2 / " #X); type<coeff_t<decltype(unit(x))>, EXPECT_F>("unit " #X); mc::eq(obs::see(inv(x)), MV(0.25L), nokey{"value inv " #X}); }
    INT_(i) INT_(s) INT_(l)
#define KEEP(X, T) { auto x = X; (void)x; type<coeff_t<decltype(x * x)>, T>(#X " * " #X); type<coeff_t<decltype(x + x)>, T>(#X " + " #X); type<coeff_t<decltype(x * e1)>, std::common_type_t<T, EXPECT_I>>(#X " * e1"); }
    KEEP(f, float) KEEP(d, double) KEEP(q, long double)
    mc::check(std::numeric_limits<bitset_t>::digits >= EXPECT_MAX && GA_MAX_BASIS_VECTOR_INDEX == EXPECT_MAX, nokey{"width of bitset_t"});
    mc::check((Num)ga::default_tolerance<float>() == (Num)(EXPECT_TF), nokey{"tolerance of float"}); mc::check((Num)ga::default_tolerance<double>() == (Num)(EXPECT_TD), nokey{"tolerance of double"}); mc::check((Num)ga::default_tolerance<int>() == 0, nokey{"tolerance of int"});
    // the largest index
    constexpr int n = EXPECT_MAX; auto const top = ga::e(ga::c<n>); auto const tops = ga::e(n);
    MV const t = MV::blade(Bits(1) << (n - 1)); mc::eq(obs::see(top), t, nokey{"e(c<max>)"}); mc::eq(obs::see(tops), t, nokey{"e(max)"});
    ga::euclidean_metric_space<n> m; mc::eq(obs::see(ga::gp(top, tops, m)), MV(1), nokey{"square of the last vector"}); mc::eq(obs::see(ga::op(top, tops, m)), MV(), nokey{"wedge of the last vector"});
    mc::eq(obs::see(ga::pseudoscalar(m)), MV::blade(n == 64 ? ~Bits(0) : (Bits(1) << n) - 1), nokey{"pseudoscalar"}); mc::check(m.vector_space_dimensions == (ga::ndims_t)n && (bitset_t)m.basis_vectors == (bitset_t)((Bits(2) << (n - 1)) - 1), nokey{"dimensions"});
    mc::eq(obs::see(ga::lcont(tops, ga::pseudoscalar(m), m)), MV::blade(((Bits(1) << n) - 1) & ~(Bits(1) << (n - 1)), n % 2 ? 1 : -1), nokey{"contraction of the last vector"}); mc::eq(obs::see(ga::dual(top, ga::pseudoscalar(m), m)), ref::gp(t, ref::reverse(MV::blade((Bits(1) << n) - 1)), ref::Metric::sig(n, 0, 0)), nokey{"dual of the last vector"});
    mc::check((int)(ga::grade_t)ga::grade(ga::pseudoscalar(m)) == n, nokey{"grade of the pseudoscalar"}); mc::eq(obs::see(ga::take_grade(ga::pseudoscalar(m), n)), MV::blade((Bits(1) << n) - 1), nokey{"grade part of the pseudoscalar"}); mc::eq(obs::see(ga::take_grade(ga::pseudoscalar(m), ga::c<n>)), MV::blade((Bits(1) << n) - 1), nokey{"grade part of the pseudoscalar, constant"});
    auto const dyn = ga::op(tops, ga::e(1), m); mc::eq(obs::see(ga::inv(dyn, m)), ref::inv(obs::see(dyn), ref::Metric::sig(n, 0, 0)), nokey{"inverse of a blade with the last vector"});
}
#else
using T = TYPE;
struct Expect { int grade, largest; };
Expect model(MV const &m, Num tol) { int g = -2, l = -2; for (auto &t : m.c) if (std::fabs(t.second) > tol) { int k = ref::popc(t.first); g = g == -2 ? k : g == k ? g : -1; l = std::max(l, k); } return {g, l}; }
template<bool Copies = true, typename X> void queries(std::string const &kind, items<X> const &l, T const tol) {
    using namespace ga2e;
    mc::section(kind);
    for (auto &x : l) {
        auto key = [&](char const *w) { return nokey{std::string(w) + "/" + kind + "/" + x.m.str()}; };
        mc::state(mc::mix(mc::hash(kind), mc::hash(x.m))); mc::trace();
        Expect const e = model(x.m, (Num)tol);
        mc::same((int)(ga::grade_t)grade(x.x), e.grade, key("grade")); mc::eq(obs::see(largest_grade(x.x)), MV((Num)e.largest), key("largest_grade")); mc::same((bool)is_zero(x.x), e.largest == -2, key("is_zero"));
        if (e.largest >= 0) mc::eq(obs::see(take_largest_grade(x.x)), ref::grade_part(x.m, e.largest), key("take_largest_grade"));
        if constexpr (Copies) {
        bool fits = true; for (auto &t : x.m.c) if (ref::popc(t.first) != 1 && std::fabs(t.second) > tol) fits = false;
        bool fit = true; ga::full_vector_t<T, 2> v; try { ga::checked_trivial_copy(x.x, v); } catch (ga::bad_checked_copy_exception const &) { fit = false; }
        mc::same(fit, fits, key("checked copy to vector")); if (fit && fits) mc::eq(obs::see(v), ref::grade_part(x.m, 1), key("checked copy"));
        }
    }
}
template<typename X> void explicit_(std::string const &kind, items<X> const &l, T const tol) { // equal to the call with the tolerance given
    using namespace ga2e;
    for (auto &x : l) {
        auto key = [&](char const *w) { return nokey{std::string(w) + "/" + kind + "/" + x.m.str()}; };
        MV const sq = ref::gp(x.m, x.m, ref::Metric::sig(2, 0, 0));
        if (sq == MV(sq.scalar())) mc::eq(obs::see(exp(x.x)), obs::see(exp(x.x, tol)), key("exp"));
    }
}
template<typename X, typename Y> void both(std::string const &kind, items<X> const &l, items<Y> const &r, T const tol) {
    using namespace ga2e;
    mc::section(kind);
    for (auto &x : l) for (auto &y : r) {
        auto key = [&](char const *w) { return nokey{std::string(w) + "/" + kind + "/" + x.m.str() + "/" + y.m.str()}; };
        mc::state(mc::mix(mc::mix(mc::hash(kind), mc::hash(x.m)), mc::hash(y.m))); mc::trace();
        MV const d = obs::see(dp(x.x, y.x)); mc::eq(d, ref::dp(x.m, y.m, tol, ref::Metric::sig(2, 0, 0)), key("dp"), std::is_same<T, float>::value ? 1e-6L : 1e-12L);
        mc::eq(d, obs::see(dp(x.x, y.x, tol)), key("dp explicit"));
        if (tol == 0 || std::fabs(ref::norm2(x.m, ref::Metric::sig(2, 0, 0))) < 1e-3L || std::fabs(ref::norm2(y.m, ref::Metric::sig(2, 0, 0))) < 1e-3L) continue; // blades that are not almost zero
        auto j = meet_and_join(x.x, y.x), k = meet_and_join(x.x, y.x, tol); mc::eq(obs::see(std::get<0>(j)), obs::see(std::get<0>(k)), key("meet")); mc::eq(obs::see(std::get<1>(j)), obs::see(std::get<1>(k)), key("join"));
        auto fj = fast_meet_and_join(x.x, y.x), fk = fast_meet_and_join(x.x, y.x, tol); mc::eq(obs::see(std::get<0>(fj)), obs::see(std::get<0>(fk)), key("fast meet")); mc::eq(obs::see(std::get<1>(fj)), obs::see(std::get<1>(fk)), key("fast join"));
        mc::eq(obs::see(fast_join(x.x, y.x)), obs::see(fast_join(x.x, y.x, tol)), key("fast_join")); mc::eq(obs::see(plunge(x.x, y.x)), obs::see(plunge(x.x, y.x, tol)), key("plunge")); mc::eq(obs::see(fast_plunge(x.x, y.x)), obs::see(fast_plunge(x.x, y.x, tol)), key("fast plunge"));
    }
}
template<typename X> items<X> tuples(std::vector<T> const &vals) { // every tuple of coefficients
    items<X> r; X x; std::size_t const k = std::distance(x.values().begin(), x.values().end()); std::vector<std::size_t> i(k, 0);
    for (;;) { auto it = x.values().begin(); for (std::size_t j = 0; j < k; ++j) *it++ = vals[i[j]]; r.push_back({x, obs::see(x)}); std::size_t j = 0; while (j < k && ++i[j] == vals.size()) i[j++] = 0; if (j == k) return r; }
}
template<typename X> items<X> dynamic(std::vector<T> const &vals) { items<X> r; for (Bits b : {0, 1, 2, 3}) for (T v : vals) { X x; *x.values().begin() = v; *x.bitsets().begin() = (bitset_t)b; r.push_back({x, obs::see(x)}); } return r; }
void explore() {
    T const tol = std::is_same<T, float>::value ? (T)(EXPECT_TF) : (T)(EXPECT_TD), u = tol > 0 ? tol : std::numeric_limits<T>::min();
    std::vector<T> const vals{0, u / 2, -u, std::nextafter(u, T(1)), T(-1.5) * u, 1}, few{0, -u, T(1.25) * u, 1};
    queries("full", tuples<ga::full_multivector_t<T, 2>>(vals), tol); queries("vector", tuples<ga::full_vector_t<T, 2>>(vals), tol); queries<false>("dyn", dynamic<ga::scaled_basis_blade_t<T, 0, 2>>(vals), tol); queries("even", tuples<decltype(ga::full_kvector_t<T, 2, 0>() + ga::full_kvector_t<T, 2, 2>())>(vals), tol);
    explicit_("vector", tuples<ga::full_vector_t<T, 2>>(vals), tol); explicit_("bivector", tuples<ga::full_kvector_t<T, 2, 2>>(vals), tol); explicit_("dyn", dynamic<ga::scaled_basis_blade_t<T, 0, 2>>(vals), tol);
    both("vectors", tuples<ga::full_vector_t<T, 2>>({0, 1, T(1.25) * u, -u}), tuples<ga::full_vector_t<T, 2>>({0, -u, 1, T(1) + T(2) * u}), tol); both("vector.bivector", tuples<ga::full_vector_t<T, 2>>(few), tuples<ga::full_kvector_t<T, 2, 2>>(few), tol);
}
#endif
