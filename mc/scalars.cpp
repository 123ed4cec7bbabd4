// C07: every scalar formula of bounded size has the real-number value of the formula as written, eager and lazy, for every
// argument of a grid at which it is defined. A formula is a tree; the model evaluates it in long double and carries an
// error bound, which decides whether a point is well inside the domain and how close the library must come.
// PART 1: u3(u2(u1(x))); PART 2: b2(b1(l,m),r) and b2(r,b1(l,m)); PART 3: b(u1(l),u2(m)); PART 4: u2(b(u1(l),m)) and u2(b(m,u1(l)))
// TX, TY: types of the run-time values x and y.
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "versors.hpp"
#include <cmath>
static const ga::euclidean_metric_space<1> met;
using X_ = TX; using Y_ = TY;
#ifndef MC_FLOAT
#define MC_FLOAT false
#endif
constexpr Num EPS = MC_FLOAT || std::is_same<X_, float>::value || std::is_same<Y_, float>::value ? 2e-6L : 1e-13L;
struct Val { Num v, e; bool ok; };
static const Val UNDEF{0, 0, false};
inline Val val(Num v, Num e) { return std::isfinite(v) && std::isfinite(e) && std::fabs(v) < 1e9L && e < 1e-3L * std::max(Num(1), std::fabs(v)) ? Val{v, e, true} : UNDEF; }
template<bool EXACT = false, typename F> Val apply(Val a, F f) { // f returns NaN outside its domain
    if (!a.ok) return UNDEF;
    Num v = f(a.v), lo = f(a.v - a.e), hi = f(a.v + a.e);
    if (!std::isfinite(v) || !std::isfinite(lo) || !std::isfinite(hi)) return UNDEF;
    if (EXACT && a.e == 0 && std::fabs(v) < 1e6L && v * 64 == std::floor(v * 64)) return val(v, 0); // ring operations on small dyadic numbers are exact
    return val(v, std::max(std::fabs(hi - v), std::fabs(lo - v)) + EPS * std::fabs(v));
}
constexpr Num NaN_ = __builtin_nanl("");
inline Num rpow(Num a, Num b) { // real power: negative bases only with integral exponents
    if (a > 0) return std::pow(a, b);
    if (a == 0) return b > 0 ? Num(0) : NaN_;
    return b == std::floor(b) ? std::pow(a, b) : NaN_;
}
inline Num fpow(Num a, int p, int q) { // exponent p/q in lowest terms: odd roots are defined for negative bases
    if (a >= 0 || q % 2 == 0) return a < 0 ? NaN_ : rpow(a, Num(p) / q);
    Num r = std::pow(-a, Num(p) / q); return p % 2 ? -r : r;
}
// what is known about a library expression at compile time: formulas that can never be defined are refused by the library
template<typename A> struct lit { static constexpr bool known = false; static constexpr long value = 1; };
template<typename T, default_integral_t V> struct lit<clifford_expression<T, gd::component<gd::constant_value<V>, gd::constant_basis_blade<0>>>> { static constexpr bool known = true; static constexpr long value = V; };
template<typename A> using L = lit<std::decay_t<A>>;
template<typename A> constexpr bool nz = !(L<A>::known && L<A>::value == 0);
// ... and even roots of what is negative or zero for every argument (a negative constant times something non-negative)
template<typename E> struct nonneg { static constexpr bool value = false; };
template<default_integral_t V> struct nonneg<gd::constant_value<V>> { static constexpr bool value = V >= 0; };
template<typename A> struct nonneg<gd::function<gd::name_t::absolute, A>> { static constexpr bool value = true; };
template<typename A> struct nonneg<gd::function<gd::name_t::exponential, A>> { static constexpr bool value = true; };
template<typename A> struct nonneg<gd::function<gd::name_t::hyperbolic_cosine, A>> { static constexpr bool value = true; };
template<typename A, default_integral_t V> struct nonneg<gd::function<gd::name_t::power, A, gd::constant_value<V>>> { static constexpr bool value = V % 2 == 0 || nonneg<A>::value; };
using half_t = gd::function<gd::name_t::power, gd::constant_value<2>, gd::constant_value<-1>>;
template<typename A> struct nonneg<gd::function<gd::name_t::power, A, half_t>> { static constexpr bool value = true; };
template<typename A, default_integral_t V> struct nonneg<gd::function<gd::name_t::power, A, gd::function<gd::name_t::mul, gd::constant_value<V>, half_t>>> { static constexpr bool value = true; };
template<typename A, typename... B> struct nonneg<gd::function<gd::name_t::power, A, gd::function<gd::name_t::mul, B...>>> { static constexpr bool value = nonneg<A>::value; };
template<typename A, default_integral_t V, default_integral_t W> struct nonneg<gd::function<gd::name_t::power, A, gd::function<gd::name_t::power, gd::constant_value<V>, gd::constant_value<W>>>> { static constexpr bool value = V == 2 || nonneg<A>::value; };
template<typename... A> struct nonneg<gd::function<gd::name_t::mul, A...>> { static constexpr bool value = (nonneg<A>::value && ...); };
template<typename... A> struct nonneg<gd::function<gd::name_t::add, A...>> { static constexpr bool value = (nonneg<A>::value && ...); };
template<typename E> struct nonpos { static constexpr bool value = false; };
template<default_integral_t V> struct nonpos<gd::constant_value<V>> { static constexpr bool value = V < 0; };
template<default_integral_t V, default_integral_t W> struct nonpos<gd::function<gd::name_t::power, gd::constant_value<V>, gd::constant_value<W>>> { static constexpr bool value = V < 0 && W % 2 != 0; };
template<default_integral_t V, typename... A> struct nonpos<gd::function<gd::name_t::mul, gd::constant_value<V>, A...>> { static constexpr bool value = V < 0 && (nonneg<A>::value && ...); };
template<typename A> struct expression_of { using t = void; };
template<typename T, typename C, ga::bitset_t V> struct expression_of<clifford_expression<T, gd::component<C, gd::constant_basis_blade<V>>>> { using t = C; };
template<typename A> constexpr bool nn = !nonpos<typename expression_of<std::decay_t<A>>::t>::value;
template<typename A> constexpr bool pos = nn<A> && nz<A>;
struct refused {}; // formula refused at compile time

template<long V> struct k { static constexpr bool eager = false; static std::string name() { return std::to_string(V); } static constexpr bool var = false; template<typename A, typename B> static auto run(A const &, B const &) { return ga::c<V>; } static Val model(Num, Num) { return {V, 0, true}; } };
struct x_ { static constexpr bool eager = false; static std::string name() { return "x"; } static constexpr bool var = true; template<typename A, typename B> static decltype(auto) run(A const &a, B const &) { return (a); } static Val model(Num x, Num) { return {x, 0, true}; } };
struct y_ { static constexpr bool eager = false; static std::string name() { return "y"; } static constexpr bool var = true; template<typename A, typename B> static decltype(auto) run(A const &, B const &b) { return (b); } static Val model(Num, Num y) { return {y, 0, true}; } };
struct half { static constexpr bool eager = false; static std::string name() { return "1/2"; } static constexpr bool var = false; template<typename A, typename B> static auto run(A const &, B const &) { return ga::igp(ga::c<1>, ga::c<2>, met); } static Val model(Num, Num) { return {0.5L, 0, true}; } };
struct third { static constexpr bool eager = false; static std::string name() { return "-2/3"; } static constexpr bool var = false; template<typename A, typename B> static auto run(A const &, B const &) { return ga::igp(ga::c<-2>, ga::c<3>, met); } static Val model(Num, Num) { return {-2 / 3.0L, EPS, true}; } };
struct root2 { static constexpr bool eager = false; static std::string name() { return "sqrt2"; } static constexpr bool var = false; template<typename A, typename B> static auto run(A const &, B const &) { return ga::sqrt(ga::c<2>); } static Val model(Num, Num) { return {std::sqrt(2.0L), EPS, true}; } };

constexpr bool same(char const *a, char const *b) { return *a == *b && (*a == 0 || same(a + 1, b + 1)); }
constexpr bool exact(char const *n) { return same(n, "neg") || same(n, "sq") || same(n, "pow2") || same(n, "pow3") || same(n, "abs") || same(n, "plus1") || same(n, "times2") || same(n, "minus") || same(n, "addself") || same(n, "rns"); }
#define UN(...) UNE(false, __VA_ARGS__)
#define UNE(EAGER, N_, OK, CALL, F) struct u_##N_ { static constexpr bool eager = EAGER; static std::string name(std::string const &x) { return #N_ "(" + x + ")"; } \
    template<typename A> static auto run(A const &a) { if constexpr (std::is_same<A, refused>::value) return refused(); else if constexpr (!(OK)) return refused(); else return CALL; } \
    static Val model(Val a) { return apply<exact(#N_)>(a, [](Num a) -> Num { return F; }); } };
#define UE(N_, OK, CALL, F) UNE(true, N_, (OK) && !lazy_argument<A>::value, CALL, F) // operands outside the context: eager only
template<typename E> struct tagged { static constexpr bool value = false; };
template<gd::tag_t T, std::size_t I> struct tagged<gd::get_value<T, I>> { static constexpr bool value = true; };
template<gd::name_t N_, typename... A> struct tagged<gd::function<N_, A...>> { static constexpr bool value = (tagged<A>::value || ...); };
template<typename A> struct lazy_argument { static constexpr bool value = tagged<typename expression_of<A>::t>::value; };
#define FRAC(P, Q) ga::pow(a, ga::igp(ga::c<P>, ga::c<Q>, met))
UN(neg, true, -a, -a) UN(sq, true, ga::gp(a, a, met), a * a) UN(inv, nz<A>, ga::pow(a, ga::c<-1>), a == 0 ? NaN_ : 1 / a) UN(pow2, true, ga::pow(a, ga::c<2>), a * a) UN(pow3, true, ga::pow(a, ga::c<3>), a * a * a)
UN(powm2, nz<A>, ga::pow(a, ga::c<-2>), a == 0 ? NaN_ : 1 / (a * a)) UN(pow0, nz<A>, ga::pow(a, ga::c<0>), a == 0 ? NaN_ : 1) UN(sqrt, nn<A>, ga::sqrt(a), a < 0 ? NaN_ : std::sqrt(a)) UN(cbrt, true, ga::cbrt(a), std::cbrt(a))
UN(pow2_3, true, FRAC(2, 3), fpow(a, 2, 3)) UN(pow3_2, nn<A>, FRAC(3, 2), fpow(a, 3, 2)) UN(powm1_2, pos<A>, FRAC(-1, 2), fpow(a, -1, 2)) UN(pow4_2, true, FRAC(4, 2), a * a) UN(powm1_3, nz<A>, FRAC(-1, 3), fpow(a, -1, 3))
UN(abs, true, ga::abs(a), std::fabs(a)) UN(exp, true, ga::exp(a), std::exp(a)) UN(log, pos<A>, ga::log(a), a <= 0 ? NaN_ : std::log(a)) UN(cos, true, ga::cos(a), std::cos(a)) UN(sin, true, ga::sin(a), std::sin(a)) UN(tan, true, ga::tan(a), std::tan(a))
UN(cosh, true, ga::cosh(a), std::cosh(a)) UN(sinh, true, ga::sinh(a), std::sinh(a)) UN(tanh, true, ga::tanh(a), std::tanh(a)) UN(plus1, true, a + ga::c<1>, a + 1) UN(times2, true, ga::gp(ga::c<2>, a, met), 2 * a) UN(minus, true, ga::c<3> - a, 3 - a)
UE(npow2, nz<A>, ga::pow(a, 2), a * a) UE(npowh, nz<A>, ga::pow(a, 1.5), rpow(a, 1.5L)) UE(powof, true, ga::pow(2.0, a), std::pow(2.0L, a)) UN(rnorm, true, ga::rnorm(a, met), std::fabs(a)) UN(rns, true, ga::rnorm_sqr(a, met), a * a) UN(ginv, nz<A>, ga::inv(a, met), a == 0 ? NaN_ : 1 / a)
UN(addself, true, a + a, 2 * a) UN(subself, true, a - a, Num(0) * a) UN(divself, nz<A>, ga::igp(a, a, met), a == 0 ? NaN_ : 1)
#define BI(N_, OK, CALL, MODEL) struct b_##N_ { static std::string name(std::string const &x, std::string const &y) { return "(" + x + " " #N_ " " + y + ")"; } \
    template<typename A, typename B> static auto run(A const &a, B const &b) { if constexpr (std::is_same<A, refused>::value || std::is_same<B, refused>::value) return refused(); else if constexpr (!(OK)) return refused(); else return CALL; } \
    static Val model(Val a, Val b) { if (!a.ok || !b.ok) return UNDEF; MODEL; } };
BI(add, true, a + b, return val(a.v + b.v, a.e + b.e + EPS * (std::fabs(a.v) + std::fabs(b.v)) * (a.v + b.v != 0 || a.e + b.e != 0)))
BI(sub, true, a - b, return val(a.v - b.v, a.e + b.e + EPS * (std::fabs(a.v) + std::fabs(b.v)) * (a.v - b.v != 0 || a.e + b.e != 0)))
BI(mul, true, ga::gp(a, b, met), return val(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + EPS * std::fabs(a.v * b.v)))
BI(div, nz<B>, ga::igp(a, b, met), if (std::fabs(b.v) <= b.e) return UNDEF; return val(a.v / b.v, (a.e + std::fabs(a.v / b.v) * b.e) / (std::fabs(b.v) - b.e) + EPS * std::fabs(a.v / b.v)))
// the exponent is any expression: negative bases need an exactly integral exponent
BI(pow, (nz<A> && nn<A> && !(L<A>::known && !L<B>::known && L<A>::value <= 0)), ga::pow(a, b),
    if (a.v - a.e < 0 && (b.e != 0 || b.v != std::floor(b.v))) return UNDEF; if (a.v - a.e <= 0 && b.v - b.e <= 0 && std::fabs(a.v) <= a.e) return UNDEF;
    Num v = rpow(a.v, b.v); Num s = 0; for (Num da : {-a.e, a.e}) for (Num db : {-b.e, b.e}) { Num w = rpow(a.v + da, b.v + db); if (!(w == w)) return UNDEF; s = std::max(s, std::fabs(w - v)); } return val(v, s + EPS * std::fabs(v)))
template<typename O, typename A> struct un { static constexpr bool eager = O::eager || A::eager; static std::string name() { return O::name(A::name()); } static constexpr bool var = A::var; template<typename X, typename Y> static auto run(X const &x, Y const &y) { return O::run(A::run(x, y)); } static Val model(Num x, Num y) { return O::model(A::model(x, y)); } };
template<typename O, typename A, typename B> struct bin { static constexpr bool eager = A::eager || B::eager; static std::string name() { return O::name(A::name(), B::name()); } static constexpr bool var = A::var || B::var; template<typename X, typename Y> static auto run(X const &x, Y const &y) { return O::run(A::run(x, y), B::run(x, y)); } static Val model(Num x, Num y) { return O::model(A::model(x, y), B::model(x, y)); } };

template<typename T> std::vector<T> grid() {
    if (std::is_integral<T>::value) return {T(-8), T(-3), T(-1), T(0), T(1), T(2), T(4)};
    return {T(-2.5), T(-1), T(-0.125), T(0), T(0.5), T(1), T(4)};
}
template<typename P> void formula() {
    auto once = [](Num x, Num y, auto const &got, char const *how) {
        Val w = P::model(x, y);
        if (!w.ok) return;
        auto key = [&] { return std::string(how) + "/" + P::name() + "/x=" + std::to_string((double)x) + ",y=" + std::to_string((double)y); };
        if constexpr (std::is_same<std::decay_t<decltype(got)>, refused>::value) (void)key;
        else {
            MV const g = obs::see(got); Num const d = std::fabs(g.scalar() - w.v);
            mc::state(mc::mix(mc::hash(P::name()), mc::hash(MV::blade(0, x) + MV::blade(1, y)))); mc::Ctx::get().outcomes.insert(mc::hash(MV(w.v)));
            bool ok = d <= w.e * 16 + EPS * 16 && (g.zero() || (g.c.size() == 1 && g.c.begin()->first == 0));
            if (!ok) mc::check(false, key, "library: " + g.str() + " ; model: " + MV(w.v).str() + " +- " + std::to_string((double)w.e));
            else mc::check(true, key);
        }
    };
    mc::section(P::name());
    if constexpr (!P::var) once(0, 0, P::run(0, 0), "constant");
    else for (X_ x : grid<X_>()) for (Y_ y : grid<Y_>()) {
        auto const sx = ga::scalar(x); auto const sy = ga::scalar(y);
        if (!P::model(x, y).ok) continue;
        once(x, y, P::run(sx, sy), "eager");
        if constexpr (!P::eager) {
        auto const ctx = ga::make_lazy_context_tuple(sx, sy);
        using E = decltype(P::run(std::get<1>(ctx), std::get<2>(ctx)));
        if constexpr (std::is_same<E, refused>::value) once(x, y, refused(), "lazy"); else once(x, y, std::get<0>(ctx).eval(P::run(std::get<1>(ctx), std::get<2>(ctx))), "lazy");
        }
        mc::trace();
    }
}
template<typename... T> struct list {};
template<typename F, typename... T> void each(list<T...>, F &&f) { (void)std::initializer_list<int>{(f((T *)nullptr), 0)...}; }
struct none {};
#define FOR(LIST, T_) each(LIST(), [&](auto p_##T_) { using T_ = std::remove_pointer_t<decltype(p_##T_)>; if constexpr (!std::is_same<T_, none>::value) {
#define END }})
#define O(F) b_##F,
#define U(F) u_##F,
#define V(F) F,
using leaves = list<LEAVES none>; using ops1 = list<OPS1 none>; using ops2 = list<OPS2 none>;
#ifdef OPS3
using ops3 = list<OPS3 none>;
#endif
void explore() {
#if PART == 1
    FOR(leaves, l) FOR(ops1, u1) FOR(ops2, u2) FOR(ops3, u3) formula<un<u3, un<u2, un<u1, l>>>>(); END; END; END; END;
#elif PART == 2
    FOR(leaves, l) FOR(leaves, m) FOR(ops1, b1) using in = bin<b1, l, m>; FOR(ops2, b2) FOR(leaves, r) formula<bin<b2, in, r>>(); formula<bin<b2, r, in>>(); END; END; END; END; END;
#elif PART == 3
    FOR(leaves, l) FOR(leaves, m) FOR(ops1, u1) FOR(ops2, u2) FOR(ops3, b) formula<bin<b, un<u1, l>, un<u2, m>>>(); END; END; END; END; END;
#elif PART == 4
    FOR(leaves, l) FOR(leaves, m) FOR(ops1, u1) FOR(ops2, b) FOR(ops3, u2) formula<un<u2, bin<b, un<u1, l>, m>>>(); formula<un<u2, bin<b, m, un<u1, l>>>>(); END; END; END; END; END;
#endif
}
