// C23: operations have value semantics. Every operation is called with every combination of kinds and value categories of
// operands; the coefficients know when they are read after having been moved from, destroyed or never made (tracked.hpp);
// built with address and undefined-behaviour sanitizers.
#include "tracked.hpp"
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include <gatl/ga/model/homogeneous.hpp>
#include <gatl/ga/model/plane_based.hpp>
#include <gatl/ga/model/minkowski.hpp>
#include <gatl/ga/model/conformal.hpp>
#include "zoo.hpp"
using namespace kinds;
#ifdef __SANITIZE_ADDRESS__
extern "C" char const *__asan_default_options() { return "detect_stack_use_after_return=1"; }
#endif
#ifndef CT
#define CT trk::Tr
#endif
using T = CT;
using trk::Log;
struct nokey { std::string s; std::string operator()() const { return s; } };
using Met = ga::signed_metric_space<MP, MQ, MR>; constexpr int N = MP + MQ + MR;
static Met const met; static ref::Metric const rm = ref::Metric::sig(MP, MQ, MR);

MV look(T const &x) { return MV((Num)x); }
template<typename X, std::enable_if_t<std::is_arithmetic<X>::value && !std::is_same<X, T>::value, int> = 0> MV look(X const &x) { return MV((Num)x); }
template<typename X, typename E> MV look(ga::clifford_expression<X, E> const &x) { return obs::see(x); }

// the operands
template<typename X, typename V> X make_full(V const &vals) { X x; auto it = x.values().begin(); for (double v : vals) *it++ = T(v); return x; }
struct K_T { using X = T; static char const *name() { return "native"; } static std::vector<X> all() { return {T(3), T(0)}; } };
struct K_I { using X = int; static char const *name() { return "int"; } static std::vector<X> all() { return {-2}; } };
struct K_S { using X = std::decay_t<decltype(ga::scalar(std::declval<T>()))>; static char const *name() { return "scalar"; } static std::vector<X> all() { return {ga::scalar(T(-2)), ga::scalar(T(0.5))}; } };
struct K_V { using X = ga::full_vector_t<T, N>; static char const *name() { return "vector"; } static std::vector<X> all() { std::vector<double> a(N), b(N); for (int i = 0; i < N; ++i) { a[i] = 2 * i + 3; b[i] = i ? 0 : -2; } return {make_full<X>(a), make_full<X>(b)}; } };
struct K_M { using X = ga::full_multivector_t<T, N>; static char const *name() { return "multivector"; } static std::vector<X> all() { std::vector<double> a(1 << N), b(1 << N); for (int i = 0; i < 1 << N; ++i) { a[i] = i % 3 - 1.5 * i; b[i] = i == 1; } return {make_full<X>(a), make_full<X>(b)}; } };
struct K_D { using X = ga::scaled_basis_blade_t<T, 0, N>; static char const *name() { return "blade"; } static std::vector<X> all() { std::vector<X> r; for (Bits b = 0; b < (Bits(1) << N); ++b) { X x; *x.values().begin() = T(b + 2); *x.bitsets().begin() = (ga::bitset_t)b; r.push_back(x); } return r; } };
struct K_W { using X = ga::scaled_basis_vector_t<T>; static char const *name() { return "basis vector"; } static std::vector<X> all() { std::vector<X> r; for (int i = 0; i < N; ++i) { X x; *x.values().begin() = T(i - 3); *x.bitsets().begin() = (ga::bitset_t)1 << i; r.push_back(x); } return r; } };
struct K_U { using X = ga::unit_basis_vector_t; static char const *name() { return "unit basis vector"; } static std::vector<X> all() { std::vector<X> r; for (int i = 1; i <= N; ++i) r.push_back(ga::e(i)); return r; } };
struct K_B { using X = cblade<T, 3>; static char const *name() { return "bivector"; } static std::vector<X> all() { X x; *x.values().begin() = T(-3); return {x}; } };
struct K_E { using X = std::decay_t<decltype(ga::e(ga::c<1>))>; static char const *name() { return "e1"; } static std::vector<X> all() { return {X()}; } };
struct K_C { using X = std::decay_t<decltype(ga::c<2>)>; static char const *name() { return "c2"; } static std::vector<X> all() { return {X()}; } };
struct K_X { using X = ga::full_vector_t<double, N>; static char const *name() { return "double vector"; } static std::vector<X> all() { X x; double v = 1; for (auto &c : x.values()) c = v += 2; return {x}; } };
struct K_P { using X = std::decay_t<decltype(std::declval<K_V::X>() + std::declval<K_D::X>())>; static char const *name() { return "vector+blade"; } static std::vector<X> all() { std::vector<X> r; for (auto &d : K_D::all()) r.push_back(K_V::all()[0] + d); return r; } };
struct K_R { using X = std::decay_t<decltype(std::declval<K_S::X>() + std::declval<K_B::X>())>; static char const *name() { return "rotor"; } static std::vector<X> all() { return {K_S::all()[0] + K_B::all()[0]}; } };

inline void spoil_bitset(ga::bitset_t &b) { b = 1; }
template<typename B> void spoil_bitset(B &) {}
template<typename X, typename E> void spoil(ga::clifford_expression<X, E> &x) { for (auto &v : x.values()) v = X(77); for (auto &b : x.bitsets()) spoil_bitset(b); }
inline void spoil(T &x) { x = T(77); }
template<typename X, std::enable_if_t<std::is_arithmetic<X>::value && !std::is_same<X, T>::value, int> = 0> void spoil(X &x) { x = 77; }

// one scenario: f is run, nothing may be reported and no coefficient may be lost
template<typename F> void scenario(std::string const &key, F &&f) {
    Log &l = Log::get(); l.bad.clear(); long const live = l.live;
    mc::section(key); mc::trace(); mc::state(mc::hash(key));
    f();
    mc::check(l.bad.empty(), nokey{key + "/lifetime"}, l.bad); mc::check(l.live == live, nokey{key + "/count"}, "coefficients alive after the scenario: " + std::to_string(l.live - live));
}
char const *const CAT[] = {"named", "const", "temporary", "moved"};
// calls f(x) with x in the given category
template<int C, typename X, typename F> decltype(auto) with(X &named, F &&f) {
    if constexpr (C == 0) return f(named); else if constexpr (C == 1) return f(static_cast<X const &>(named)); else if constexpr (C == 2) return f(X(named)); else { X copy(named); return f(std::move(copy)); }
}
inline MV rnd(MV m) { return m; }
#if PART == 1 // unary operations
template<int C, typename K, typename Op, typename Model> void one(Op const &op, Model const &model, char const *name) {
    auto const all = K::all();
    for (auto const &v : all) {
        MV const want = model(look(v)); std::string const key = std::string(name) + "/" + K::name() + "/" + look(v).str() + "/" + CAT[C];
        scenario(key, [&] {
            typename K::X x(v);
            auto r = with<C>(x, [&](auto &&a) { auto r = op(std::forward<decltype(a)>(a)); return r; });
            mc::eq(look(x), look(v), nokey{key + "/operand"}); mc::eq(look(r), want, nokey{key}, 1e-12L);
            spoil(x); mc::eq(look(r), want, nokey{key + "/after the operand changed"}, 1e-12L);
            auto s = r; spoil(r); mc::eq(look(s), want, nokey{key + "/copy"}, 1e-12L); auto t = std::move(s); mc::eq(look(t), want, nokey{key + "/moved copy"}, 1e-12L);
        });
        scenario(key + "/bound", [&] { // the result bound to a reference, the operand a named object
            typename K::X x(v);
            if constexpr (C == 2) { auto &&r = op(typename K::X(v)); mc::eq(look(r), want, nokey{key + "/bound to a reference"}, 1e-12L); }
            else { auto &&r = with<C>(x, [&](auto &&a) -> decltype(auto) { return op(std::forward<decltype(a)>(a)); }); if constexpr (C < 2) mc::eq(look(r), want, nokey{key + "/bound to a reference"}, 1e-12L); (void)r; }
        });
    }
}
#define O(NAME, GUARD, CALL, MODEL) template<typename K> void run_##NAME() { \
    auto op = [](auto &&a_) -> decltype(auto) { return CALL; }; auto model = [](MV const &a) -> MV { return MODEL; }; \
    if constexpr (GUARD) { one<0, K>(op, model, #NAME); one<1, K>(op, model, #NAME); one<2, K>(op, model, #NAME); one<3, K>(op, model, #NAME); } }
#define A_ std::forward<decltype(a_)>(a_)
template<typename K> constexpr bool isscalar = std::is_same<K, K_S>::value || std::is_same<K, K_C>::value;
template<typename K> constexpr bool invertible = std::is_same<K, K_S>::value || std::is_same<K, K_B>::value || std::is_same<K, K_E>::value || std::is_same<K, K_U>::value || std::is_same<K, K_D>::value || std::is_same<K, K_W>::value || std::is_same<K, K_V>::value;
template<typename K> constexpr bool is_ga = ga::is_clifford_expression_v<typename K::X>;
#include "values_unary.inc"
void explore() {
    mc::check_model();
#define K(k) all_unary<K_##k>();
    KINDS
#undef K
}
#endif
#if PART == 2 // binary operations
template<int C, int D, typename K, typename L, typename Op, typename Model> void two(Op const &op, Model const &model, char const *name) {
    auto const all = K::all(); auto const bll = L::all();
    for (auto const &v : all) for (auto const &w : bll) {
        MV const want = model(look(v), look(w)); std::string const key = std::string(name) + "/" + K::name() + "/" + look(v).str() + "/" + CAT[C] + "/" + L::name() + "/" + look(w).str() + "/" + CAT[D];
        scenario(key, [&] {
            typename K::X x(v); typename L::X y(w);
            auto r = with<C>(x, [&](auto &&a) { return with<D>(y, [&](auto &&b) { auto r = op(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); return r; }); });
            mc::eq(look(x), look(v), nokey{key + "/left operand"}); mc::eq(look(y), look(w), nokey{key + "/right operand"}); mc::eq(look(r), want, nokey{key}, 1e-12L);
            spoil(x); spoil(y); mc::eq(look(r), want, nokey{key + "/after the operands changed"}, 1e-12L);
        });
        if constexpr (C == 2 && D == 2) scenario(key + "/bound", [&] { auto &&r = op(typename K::X(v), typename L::X(w)); mc::eq(look(r), want, nokey{key + "/bound to a reference"}, 1e-12L); });
        if constexpr (C == 0 && D == 0 && std::is_same<K, L>::value) scenario(key + "/same", [&] { // the same object on both sides
            typename K::X x(v); MV const square = model(look(v), look(v)); auto r = op(x, x); mc::eq(look(x), look(v), nokey{key + "/same/operand"}); mc::eq(look(r), square, nokey{key + "/same"}, 1e-12L);
            if constexpr (std::is_same<decltype(r), typename K::X>::value) { x = op(x, x); mc::eq(look(x), square, nokey{key + "/assigned to its operand"}, 1e-12L); x = op(std::move(x), typename K::X(v)); mc::eq(look(x), model(square, look(v)), nokey{key + "/assigned to its moved operand"}, 1e-12L); }
        });
    }
}
#define O(NAME, GUARD, CALL, MODEL) template<typename K, typename L> void run_##NAME() { \
    auto op = [](auto &&a_, auto &&b_) -> decltype(auto) { return CALL; }; auto model = [](MV const &a, MV const &b) -> MV { return MODEL; }; \
    if constexpr (GUARD) { two<0, 0, K, L>(op, model, #NAME); two<0, 1, K, L>(op, model, #NAME); two<0, 2, K, L>(op, model, #NAME); two<0, 3, K, L>(op, model, #NAME); two<1, 0, K, L>(op, model, #NAME); two<1, 2, K, L>(op, model, #NAME); \
        two<2, 0, K, L>(op, model, #NAME); two<2, 1, K, L>(op, model, #NAME); two<2, 2, K, L>(op, model, #NAME); two<2, 3, K, L>(op, model, #NAME); two<3, 0, K, L>(op, model, #NAME); two<3, 2, K, L>(op, model, #NAME); two<3, 3, K, L>(op, model, #NAME); } }
#define A_ std::forward<decltype(a_)>(a_)
#define B_ std::forward<decltype(b_)>(b_)
template<typename K> constexpr bool invertible = std::is_same<K, K_S>::value || std::is_same<K, K_B>::value || std::is_same<K, K_E>::value || std::is_same<K, K_U>::value || std::is_same<K, K_D>::value || std::is_same<K, K_W>::value || std::is_same<K, K_V>::value || std::is_same<K, K_C>::value || std::is_same<K, K_X>::value;
template<typename K> constexpr bool is_ga = ga::is_clifford_expression_v<typename K::X>;
template<typename K, typename L> constexpr bool some_ga = is_ga<K> || is_ga<L>;
template<typename K, typename L> constexpr bool some = some_ga<K, L>;
using namespace ga;
O(add, (some<K, L>), A_ + B_, a + b)
O(sub, (some<K, L>), A_ - B_, a - b)
#define P(NAME) O(NAME, true, ga::NAME(A_, B_, met), ref::NAME(a, b, rm))
P(gp) P(op) P(lcont) P(rcont) P(dot) P(hip) P(sp) P(cp) P(rp)
O(igp, invertible<L>, ga::igp(A_, B_, met), ref::igp(a, b, rm))
O(dp, (some<K, L>), ga::dp(A_, B_, met), ref::dp(a, b, 0, rm))
O(even, invertible<K>, ga::apply_even_versor(A_, B_, met), ref::apply_even_versor(a, b, rm))
O(rotor, true, ga::apply_rotor(A_, B_, met), ref::apply_rotor(a, b, rm))
O(odd, invertible<K>, ga::apply_odd_versor(A_, B_, met), ref::apply_odd_versor(a, b, rm))
O(nested, (some<K, L>), ga::gp(A_ + ga::scalar(T(2)), ga::op(B_, ga::e(ga::c<1>), met), met), ref::gp(a + MV(2), ref::op(b, MV::blade(1)), rm))
void explore() {
    mc::check_model();
#define R(NAME) run_##NAME<LEFT, L>();
#define K(k) { using L = K_##k; BINARY }
    KINDS
#undef K
}
#endif
#if PART == 3 // lazy contexts: the inputs may be gone or changed when the context evaluates; the context may be gone when the result is used
#define A_ a_
#define B_ b_
using namespace ga;
template<typename K, typename L, int C, typename Expr, typename Model> void lazily(Expr const &expr, Model const &model, char const *name) {
    auto const all = K::all(); auto const bll = L::all();
    for (auto const &v : all) for (auto const &w : bll) {
        MV const want = model(look(v), look(w)); std::string const key = std::string(name) + "/" + K::name() + "/" + look(v).str() + "/" + L::name() + "/" + look(w).str() + "/" + CAT[C];
        scenario(key, [&] {
            typename K::X x(v); typename L::X y(w);
            auto tuple = with<C>(x, [&](auto &&a) { return with<C>(y, [&](auto &&b) { return ga::make_lazy_context_tuple(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
            mc::eq(look(x), look(v), nokey{key + "/left input"}); mc::eq(look(y), look(w), nokey{key + "/right input"});
            auto [lazy, a_, b_] = tuple; spoil(x); spoil(y);
            auto e = expr(a_, b_);
            auto r = lazy.eval(e); mc::eq(look(r), want, nokey{key}, 1e-12L); mc::eq(look(lazy.eval(e)), want, nokey{key + "/again"}, 1e-12L); mc::eq(look(lazy.eval(expr(a_, b_))), want, nokey{key + "/of a temporary expression"}, 1e-12L);
            { auto copy = lazy; auto s = copy.eval(e); spoil(s); mc::eq(look(lazy.eval(e)), want, nokey{key + "/after a result changed"}, 1e-12L); auto moved = std::move(copy); mc::eq(look(moved.eval(e)), want, nokey{key + "/moved context"}, 1e-12L); }
            mc::eq(look(r), want, nokey{key + "/later"}, 1e-12L);
        });
        scenario(key + "/outlives", [&] { // the result outlives inputs, expression and context
            auto r = [&] { typename K::X x(v); typename L::X y(w); auto [lazy, a_, b_] = ga::make_lazy_context_tuple(x, y); return lazy.eval(expr(a_, b_)); }();
            mc::eq(look(r), want, nokey{key + "/outlives"}, 1e-12L);
            auto ctx = [&] { typename K::X x(v); typename L::X y(w); return ga::make_lazy_context_tuple(x, y); }(); auto [lazy, a_, b_] = std::move(ctx); mc::eq(look(lazy.eval(expr(a_, b_))), want, nokey{key + "/context outlives its inputs"}, 1e-12L);
            typename K::X z(v); auto [l1, p_] = ga::make_lazy_context_tuple(z); auto [l2, q_, o_] = ga::make_lazy_context_tuple(l1.eval(p_), typename L::X(w)); spoil(z); mc::eq(look(l2.eval(expr(q_, o_))), want, nokey{key + "/inputs that are results"}, 1e-12L);
        });
    }
}
#define O(NAME, GUARD, CALL, MODEL) template<typename K, typename L> void run_##NAME() { \
    auto op = [](auto const &a_, auto const &b_) { return CALL; }; auto model = [](MV const &a, MV const &b) -> MV { return MODEL; }; \
    if constexpr (GUARD) { lazily<K, L, 0>(op, model, #NAME); lazily<K, L, 1>(op, model, #NAME); lazily<K, L, 2>(op, model, #NAME); lazily<K, L, 3>(op, model, #NAME); } }
template<typename K> constexpr bool num = std::is_same<K, K_S>::value || std::is_same<K, K_C>::value;
template<typename K, typename L> constexpr bool nums = num<K> && num<L>;
inline Num sc(MV const &m) { return m.scalar(); }
O(add, true, A_ + B_, a + b)
O(same, true, A_ + A_ + B_, a + a + b)
O(sub, true, A_ - gp(B_, B_, met), a - ref::gp(b, b, rm))
O(gp, true, ga::gp(A_, B_, met), ref::gp(a, b, rm))
O(sandwich, true, ga::gp(ga::gp(A_, B_, met), ga::reverse(A_), met), ref::gp(ref::gp(a, b, rm), ref::reverse(a), rm))
O(op3, true, ga::op(ga::op(A_, ga::e(ga::c<1>), met), B_ + A_, met), ref::op(ref::op(a, MV::blade(1)), b + a))
O(lcont, true, ga::lcont(A_, ga::rcont(B_, A_, met), met), ref::lcont(a, ref::rcont(b, a, rm), rm))
O(norm2, true, ga::rnorm_sqr(A_ + B_, met), ref::rnorm_sqr(a + b, rm))
O(half, true, (A_ + B_) / ga::c<2>, ref::scale(a + b, 0.5L))
O(pow2, (nums<K, L>), ga::pow(A_ + B_, ga::c<2>), MV(std::pow(sc(a) + sc(b), 2)))
O(pow3, (nums<K, L>), ga::pow(A_ + B_, ga::c<3>), MV(std::pow(sc(a) + sc(b), 3)))
O(pow4, (nums<K, L>), ga::pow(A_ - B_, ga::c<4>), MV(std::pow(sc(a) - sc(b), 4)))
O(pow3s, (nums<K, L>), ga::pow(A_ + ga::exp(B_), ga::c<3>) + ga::pow(B_, ga::c<3>), MV(std::pow(sc(a) + std::exp(sc(b)), 3) + std::pow(sc(b), 3)))
O(powm3, (nums<K, L>), ga::pow(A_ + ga::exp(B_), ga::c<-3>), MV(std::pow(sc(a) + std::exp(sc(b)), -3)))
O(div, (nums<K, L>), ga::igp(A_, ga::gp(B_, B_, met) + ga::c<1>, met), MV(sc(a) / (sc(b) * sc(b) + 1)))
O(abs, (nums<K, L>), ga::abs(A_ - B_) + ga::cos(A_) - ga::sinh(B_), MV(std::fabs(sc(a) - sc(b)) + std::cos(sc(a)) - std::sinh(sc(b))))
O(sqrt, (nums<K, L>), ga::sqrt(ga::gp(A_, A_, met) + ga::gp(B_, B_, met)), MV(std::sqrt(sc(a) * sc(a) + sc(b) * sc(b))))
O(expo, (nums<K, L>), ga::log(ga::exp(A_) + ga::exp(B_)), MV(std::log(std::exp(sc(a)) + std::exp(sc(b)))))
void explore() {
    mc::check_model();
#define R(NAME) run_##NAME<LEFT, L>();
#define K(k) { using L = K_##k; BINARY }
    KINDS
#undef K
}
#endif
#if PART == 4 // constructions, copies, conversions and assignments
template<int C, typename F> void built(std::string const &name, std::vector<double> const &c, MV const &want, F const &make) {
    std::string key = name; for (double v : c) key += "/" + std::to_string((int)v); key += std::string("/") + CAT[C];
    scenario(key, [&] {
        std::vector<T> x; x.reserve(c.size()); for (double v : c) x.push_back(T(v));
        auto r = [&] { if constexpr (C == 2) return make(T(c[0]), T(c[1]), T(c[2])); else if constexpr (C == 3) { std::vector<T> y(x); return make(std::move(y[0]), std::move(y[1]), std::move(y[2])); } else if constexpr (C == 1) { auto const &y = x; return make(y[0], y[1], y[2]); } else return make(x[0], x[1], x[2]); }();
        for (int i = 0; i < 3; ++i) mc::check((double)x[i] == c[i], nokey{key + "/argument"}, "an argument changed");
        for (auto &v : x) v = T(77);
        mc::eq(look(r), want, nokey{key}, 1e-12L);
        if constexpr (C == 0) { auto rs = make(x[0], x[0], x[0]); for (auto &v : x) mc::check((double)v == 77, nokey{key + "/same argument"}, "an argument changed"); (void)rs; }
    });
}
template<typename F> void every(std::string const &name, MV (*model)(double const *), F const &make) {
    for (double a : {2., 0.}) for (double b : {-3., 0.}) for (double d : {5., 0.}) { std::vector<double> c{a, b, d}; MV const w = model(c.data()); built<0>(name, c, w, make); built<1>(name, c, w, make); built<2>(name, c, w, make); built<3>(name, c, w, make); }
}
inline MV vec(double const *c, int first = 0) { return MV::blade(Bits(1) << first, c[0]) + MV::blade(Bits(2) << first, c[1]) + MV::blade(Bits(4) << first, c[2]); }
inline Num sq(double const *c) { return Num(c[0]) * c[0] + Num(c[1]) * c[1] + Num(c[2]) * c[2]; }
template<typename F> void ranges(std::string const &name, MV (*model)(double const *), F const &make) {
    for (double a : {2., 0.}) for (double b : {-3., 0.}) for (double d : {5., 0.}) {
        double const c[3]{a, b, d}; std::string key = name + "/" + std::to_string((int)a) + "/" + std::to_string((int)b) + "/" + std::to_string((int)d);
        scenario(key, [&] {
            std::vector<T> x{T(a), T(b), T(d)}; std::vector<T> const y(x); std::array<T, 3> z{T(a), T(b), T(d)};
            auto r1 = make(x.begin(), x.end()); auto r2 = make(y.begin(), y.end()); auto r3 = make(z.data(), z.data() + 3); auto r4 = make(y.data(), y.data() + 3);
            for (int i = 0; i < 3; ++i) mc::check((double)x[i] == c[i] && (double)y[i] == c[i] && (double)z[i] == c[i], nokey{key + "/argument"}, "the range changed");
            for (auto &v : x) v = T(77); for (auto &v : z) v = T(77);
            mc::eq(look(r1), model(c), nokey{key + "/iterators"}, 1e-12L); mc::eq(look(r2), model(c), nokey{key + "/const iterators"}, 1e-12L); mc::eq(look(r3), model(c), nokey{key + "/pointers"}, 1e-12L); mc::eq(look(r4), model(c), nokey{key + "/const pointers"}, 1e-12L);
            std::vector<T> w{T(a), T(b), T(d)}; { auto r = make(std::make_move_iterator(w.begin()), std::make_move_iterator(w.end())); mc::eq(look(r), model(c), nokey{key + "/moving iterators"}, 1e-12L); }
        });
    }
}
template<typename K, typename X, bool Checked, int C> void converted(char const *to) {
    for (auto const &v : K::all()) {
        std::string const key = std::string("conversion/") + K::name() + "/" + look(v).str() + "/" + to + "/" + CAT[C];
        scenario(key, [&] {
            typename K::X x(v); X r; spoil(r); X s; spoil(s);
            with<C>(x, [&](auto &&a) { if constexpr (Checked) ga::checked_trivial_copy(std::forward<decltype(a)>(a), r); else ga::trivial_copy(std::forward<decltype(a)>(a), r); return 0; });
            mc::eq(look(x), look(v), nokey{key + "/operand"}); spoil(x); mc::eq(look(r), look(v), nokey{key}, 1e-12L);
            if constexpr (ga::is_clifford_expression_v<typename K::X>) {
            typename K::X y(v); with<C>(y, [&](auto &&a) { s = std::forward<decltype(a)>(a); return 0; }); mc::eq(look(y), look(v), nokey{key + "/assigned operand"}); spoil(y); mc::eq(look(s), look(v), nokey{key + "/assignment"}, 1e-12L);
            typename K::X z(v); X t = with<C>(z, [&](auto &&a) { X q(std::forward<decltype(a)>(a)); return q; }); mc::eq(look(z), look(v), nokey{key + "/constructed operand"}); spoil(z); mc::eq(look(t), look(v), nokey{key + "/construction"}, 1e-12L);
            }
        });
    }
}
template<typename K, typename X> void conversions(char const *to) { converted<K, X, false, 0>(to); converted<K, X, false, 1>(to); converted<K, X, false, 2>(to); converted<K, X, false, 3>(to); converted<K, X, true, 0>(to); converted<K, X, true, 2>(to); converted<K, X, true, 3>(to); }
template<typename K> void copies() { // the special members, in every order of copying, assigning, swapping and moving
    using X = typename K::X; auto const all = K::all();
    for (auto const &v : all) for (auto const &w : all) {
        std::string const key = std::string("copies/") + K::name() + "/" + look(v).str() + "/" + look(w).str();
        scenario(key, [&] {
            X a(v), b(w); X c = a; X d = std::move(a); mc::eq(look(c), look(v), nokey{key + "/copy"}); mc::eq(look(d), look(v), nokey{key + "/moved to"});
            a = b; mc::eq(look(a), look(w), nokey{key + "/assigned after a move"}); spoil(b); mc::eq(look(a), look(w), nokey{key + "/assigned, then the source changed"});
            b = std::move(a); mc::eq(look(b), look(w), nokey{key + "/move-assigned"}); a = d; auto &self = a; a = self; mc::eq(look(a), look(v), nokey{key + "/self-assigned"});
            using std::swap; swap(a, b); mc::eq(look(a), look(w), nokey{key + "/swapped"}); mc::eq(look(b), look(v), nokey{key + "/swapped"});
            X e; e = c; std::vector<X> l; for (int i = 0; i < 5; ++i) { l.push_back(i % 2 ? v : w); l.insert(l.begin(), c); } l.erase(l.begin() + 1); mc::eq(look(l[0]), look(v), nokey{key + "/in a vector"}); mc::eq(look(l.back()), look(w), nokey{key + "/in a vector"}); mc::eq(look(e), look(v), nokey{key + "/assigned to a fresh object"});
        });
    }
}
template<int BUILD_> void part() {
    ga::euclidean_metric_space<3> e3; ga::homogeneous_metric_space<3> h3; ga::plane_based_metric_space<3> p3; ga::minkowski_metric_space<3> m3; ga::conformal_metric_space<3> c3;
#define F_(...) [&](auto &&x, auto &&y, auto &&z) { return __VA_ARGS__; }
#define X_ std::forward<decltype(x)>(x)
#define Y_ std::forward<decltype(y)>(y)
#define Z_ std::forward<decltype(z)>(z)
#define FORMS(NAME, CALL, M, WANT) every(NAME, [](double const *c) -> MV { return WANT; }, F_(CALL(M, X_, Y_, Z_))); every(NAME " of scalars", [](double const *c) -> MV { return WANT; }, F_(CALL(M, ga::scalar(X_), Y_, ga::scalar(Z_)))); \
    every(NAME " with a constant", [](double const *c0) -> MV { double const c[3] = {c0[0], 4, c0[2]}; return WANT; }, F_((void(y), CALL(M, X_, ga::c<4>, Z_)))); every(NAME " with int and double", [](double const *c0) -> MV { double const c[3] = {c0[0], 7, 0.5}; return WANT; }, F_((void(y), void(z), CALL(M, X_, 7, 0.5)))); \
    every(NAME " of results", [](double const *c0) -> MV { double const c[3] = {c0[0] + c0[1], -c0[2], 2 * c0[0]}; return WANT; }, F_(CALL(M, ga::scalar(x) + ga::scalar(y), -ga::scalar(z), ga::scalar(x) * 2))); \
    ranges(NAME " of a range", [](double const *c) -> MV { return WANT; }, [&](auto b, auto e) { return CALL(M, b, e); });
    if constexpr (BUILD_ == 1) { FORMS("vector", ga::vector, e3, vec(c)) FORMS("euclidean_vector", ga::euclidean_vector, e3, vec(c)) }
    if constexpr (BUILD_ == 2) { FORMS("euclidean_vector h", ga::euclidean_vector, h3, vec(c)) FORMS("point h", ga::point, h3, vec(c) + MV::blade(8)) }
    if constexpr (BUILD_ == 3) { FORMS("euclidean_vector p", ga::euclidean_vector, p3, vec(c)) FORMS("euclidean_vector m", ga::euclidean_vector, m3, vec(c)) }
    if constexpr (BUILD_ == 4) { FORMS("point m", ga::point, m3, vec(c) + MV::blade(8, (sq(c) - 1) / 2) + MV::blade(16, (sq(c) + 1) / 2)) }
    if constexpr (BUILD_ == 5) { FORMS("euclidean_vector c", ga::euclidean_vector, c3, vec(c)) FORMS("point c", ga::point, c3, vec(c) + MV::blade(8) + MV::blade(16, sq(c) / 2)) }
    if constexpr (BUILD_ == 6) {
        every("scalar", [](double const *c) -> MV { return MV(c[0]); }, F_((void(y), void(z), ga::scalar(X_))));
        every("storage", [](double const *c) -> MV { return vec(c); }, F_(ga::full_vector_t<T, 3>(ga::make_sequential_storage(X_, Y_, Z_))));
        every("times a vector", [](double const *c) -> MV { return MV::blade(1, c[0]) + MV::blade(2, c[1]) + MV::blade(4, c[2]); }, F_(X_ * ga::e(ga::c<1>) + Y_ * ga::e(2) + ga::e(ga::c<3>) * Z_));
        every("native of a scalar", [](double const *c) -> MV { return MV(c[0] + c[1]); }, [&](auto &&x, auto &&y, auto &&) { T n = ga::scalar(X_) + ga::scalar(Y_); return n; });
        copies<K_T>(); copies<K_S>(); copies<K_V>(); copies<K_M>(); copies<K_D>(); copies<K_W>(); copies<K_U>(); copies<K_B>(); copies<K_E>(); copies<K_C>(); copies<K_X>(); copies<K_P>(); copies<K_R>();
    }
    if constexpr (BUILD_ == 7) {
        using M = K_M::X; using V = K_V::X; using R = K_R::X; using MD = ga::full_multivector_t<T, N>;
        conversions<K_T, M>("multivector"); conversions<K_T, K_S::X>("scalar"); conversions<K_T, R>("rotor"); conversions<K_S, M>("multivector"); conversions<K_S, R>("rotor"); conversions<K_C, M>("multivector"); conversions<K_C, K_S::X>("scalar"); conversions<K_V, M>("multivector"); conversions<K_X, M>("multivector"); conversions<K_X, V>("vector"); conversions<K_E, V>("vector"); conversions<K_E, M>("multivector"); conversions<K_B, M>("multivector"); conversions<K_B, R>("rotor"); conversions<K_R, MD>("multivector"); conversions<K_V, V>("vector"); conversions<K_M, M>("multivector"); conversions<K_D, K_D::X>("blade"); conversions<K_W, K_W::X>("basis vector"); conversions<K_U, K_W::X>("basis vector"); conversions<K_I, K_S::X>("scalar"); conversions<K_I, M>("multivector");
    }
}
void explore() { mc::check_model(); part<BUILD>(); }
#endif
#if PART == 5 // histories: every sequence of operations on a set of variables up to a depth
struct Vars { K_S::X s, t; K_V::X v, w; K_M::X m, n; K_D::X d, e; };
struct Ref { MV s, t, v, w, m, n, d, e; };
using ga::gp; using ga::op;
struct Action { char const *name; void (*run)(Vars &); void (*model)(Ref &); };
#define ACT(CODE, MODEL) {#CODE, [](Vars &x) { auto &[s, t, v, w, m, n, d, e] = x; (void)s; (void)t; (void)v; (void)w; (void)m; (void)n; (void)d; (void)e; CODE; }, [](Ref &x) { auto &[s, t, v, w, m, n, d, e] = x; (void)s; (void)t; (void)v; (void)w; (void)m; (void)n; (void)d; (void)e; MODEL; }},
static Action const actions[] = {
    ACT(s = t, s = t) ACT(v = w, v = w) ACT(m = n, m = n) ACT(d = e, d = e) ACT(std::swap(v, w), std::swap(v, w)) ACT(std::swap(m, n), std::swap(m, n)) ACT(std::swap(d, e); std::swap(s, t), (std::swap(d, e), std::swap(s, t)))
    ACT(w = std::move(v); v = w, w = v) ACT(n = std::move(m); m = std::move(n); n = m, n = m) ACT(m = v, m = v) ACT(n = gp(s, m, met), n = ref::gp(s, m, rm)) ACT(m = m + v, m = m + v) ACT(m = gp(std::move(m), v, met), m = ref::gp(m, v, rm)) ACT(m = gp(m, std::move(n), met); n = m, (m = ref::gp(m, n, rm), n = m))
    ACT(v = v - w, v = v - w) ACT(v = -std::move(v), v = -v) ACT(w = gp(v, s, met), w = ref::gp(v, s, rm)) ACT(m = op(v, std::move(m), met), m = ref::op(v, m)) ACT(s = ga::sp(v, w, met), s = ref::sp(v, w, rm)) ACT(s = ga::rnorm_sqr(std::move(v), met); v = w, (s = ref::rnorm_sqr(v, rm), v = w))
    ACT(s = std::move(s) + T(1); t = s * s, (s = s + MV(1), t = MV(s.scalar() * s.scalar()))) ACT(e = gp(d, std::move(e), met), e = ref::gp(d, e, rm)) ACT(d = ga::reverse(gp(d, t, met)), d = ref::reverse(ref::gp(d, t, rm))) ACT(n = ga::lcont(v, n, met), n = ref::lcont(v, n, rm)) ACT(m = ga::reverse(m) + ga::scalar(2), m = ref::reverse(m) + MV(2)) ACT(n = ga::take_grade(m, ga::c<2>) , n = ref::grade_part(m, 2))
    ACT(*v.values().begin() = *s.values().begin(), v = ref::grade_part(v - MV::blade(1, v.c.count(1) ? v.c[1] : 0) + MV::blade(1, s.scalar()), 1))
    ACT(auto lazy = ga::make_lazy_context_tuple(m, v); m = std::get<0>(lazy).eval(gp(std::get<1>(lazy), std::get<2>(lazy), met) - std::get<1>(lazy)), m = ref::gp(m, v, rm) - m)
    ACT(auto lazy = ga::make_lazy_context_tuple(std::move(v), w); spoil(w); v = std::get<0>(lazy).eval(std::get<1>(lazy) + std::get<2>(lazy)); w = std::get<0>(lazy).eval(std::get<2>(lazy)), v = v + w)
};
constexpr int A = sizeof actions / sizeof *actions;
inline bool agree(Vars const &x, Ref const &r, std::string const &key) {
    auto eq = [&](MV const &a, MV const &b, char const *w) { return mc::eq(a, b, nokey{key + w}); };
    bool ok = eq(look(x.s), r.s, "/s"); ok &= eq(look(x.t), r.t, "/t"); ok &= eq(look(x.v), r.v, "/v"); ok &= eq(look(x.w), r.w, "/w"); ok &= eq(look(x.m), r.m, "/m"); ok &= eq(look(x.n), r.n, "/n"); ok &= eq(look(x.d), r.d, "/d"); ok &= eq(look(x.e), r.e, "/e"); return ok;
}
static std::unordered_set<std::uint64_t> seen;
void go(Vars const &x, Ref const &r, int depth, std::string const &path) {
    std::uint64_t h = depth; for (MV const *m : {&r.s, &r.t, &r.v, &r.w, &r.m, &r.n, &r.d, &r.e}) h = mc::mix(h, mc::hash(*m));
    if (!seen.insert(h).second) return;
    mc::state(h); if (!depth) return;
    for (auto &a : actions) {
        std::string const key = path + ";" + a.name; mc::section(key); mc::trace();
        Log &l = Log::get(); l.bad.clear(); long const live = l.live;
        {
            Vars y(x); Ref q(r); a.run(y); a.model(q);
            bool ok = agree(y, q, key) && mc::check(l.bad.empty(), nokey{key + "/lifetime"}, l.bad);
            if (ok) go(y, q, depth - 1, key);
        }
        mc::check(l.live == live, nokey{key + "/count"}, "coefficients alive after the history: " + std::to_string(l.live - live));
    }
}
void explore() {
    mc::check_model();
    for (int start = 0; start < 2; ++start) {
        Vars x{K_S::all()[start], K_S::all()[1 - start], K_V::all()[start], K_V::all()[1 - start], K_M::all()[start], K_M::all()[1 - start], K_D::all()[start + 1], K_D::all()[start + 2]};
        Ref r{look(x.s), look(x.t), look(x.v), look(x.w), look(x.m), look(x.n), look(x.d), look(x.e)};
        go(x, r, DEPTH, "start" + std::to_string(start));
    }
}
#endif
