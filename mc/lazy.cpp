// C06: programs composed over the arguments of a lazy context and evaluated once give what the eager operations give.
// A program is a tree over the leaves A, B (run-time inputs), K (constant blade) and Z (constant scalar); every tree of the
// given shape over the given operations is enumerated, with every value of the inputs. TA, TB: types of the inputs.
// PART 1: (x o1 y) o2 z and z o2 (x o1 y); PART 2: u2(u1(x) o y) and u2(y o u1(x)); PART 3: u3(u2(u1(x)));
// PART 5, 6: tolerances and grades (inputs of the context, constants, defaults, literals)
// PART 4: contexts (positions of the inputs, temporaries, copies of contexts, constant inputs, nested contexts)
// PART 7: contexts of four and five inputs of every tuple of kinds
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include <gatl/ga/model/conformal.hpp>
#include "versors.hpp"
#include <cmath>
constexpr int n = MC_N;
#ifdef CONF
static const ga::conformal_metric_space<n - 2> met; static const std::string SP = "conformal" + std::to_string(n - 2);
static const ref::Metric rmet = ref::Metric::conformal(n - 2);
#else
static const ga::signed_metric_space<MP, MQ, MR> met; static const std::string SP = sigkey(MP, MQ, MR);
static const ref::Metric rmet = ref::Metric::sig(MP, MQ, MR);
#endif
constexpr auto PSS = kblade<(bitset_t(1) << n) - 1, 1>();
#define MC_BIN(N_, CALL, MODEL) struct b_##N_ { static std::string name(std::string const &x, std::string const &y) { return "(" + x + " " #N_ " " + y + ")"; } \
    template<typename A, typename B> static auto run(A const &a, B const &b) { return CALL; } static MV model(MV const &a, MV const &b) { return MODEL; } };
#define MC_UN(N_, CALL, MODEL) struct u_##N_ { static std::string name(std::string const &x) { return #N_ "(" + x + ")"; } \
    template<typename A> static auto run(A const &a) { return CALL; } static MV model(MV const &a) { return MODEL; } };
#define MC_B(N_) MC_BIN(N_, ga::N_(a, b, met), ref::N_(a, b, rmet))
#define MC_U(N_) MC_UN(N_, ga::N_(a, met), ref::N_(a, rmet))
MC_B(gp) MC_B(op) MC_B(lcont) MC_B(rcont) MC_B(dot) MC_B(hip) MC_B(sp) MC_B(cp) MC_B(rp) MC_B(apply_rotor) MC_B(undual)
static bool undefined = false; // the model divided by zero: nothing is claimed for these inputs
inline MV divisor(MV const &a) { if (ref::norm2(a, rmet) == 0) undefined = true; return a; }
template<typename E> struct is_zero_ct { static constexpr bool value = false; };
template<typename B> struct is_zero_ct<gd::component<gd::constant_value<0>, B>> { static constexpr bool value = true; };
// a divisor which is zero whatever the inputs are is refused at compile time
template<typename A> constexpr bool nonzero = !is_zero_ct<typename std::decay_t<decltype(ga::rnorm_sqr(std::declval<A const &>(), met))>::expression_type>::value;
#define MC_BG(N_, D_, d_) struct b_##N_ { static std::string name(std::string const &x, std::string const &y) { return "(" + x + " " #N_ " " + y + ")"; } \
    template<typename A, typename B> static auto run(A const &a, B const &b) { if constexpr (nonzero<D_>) return ga::N_(a, b, met); else return ga::scalar(0.0); } static MV model(MV const &a, MV const &b) { divisor(d_); return ref::N_(a, b, rmet); } };
#define MC_UG(N_) struct u_##N_ { static std::string name(std::string const &x) { return #N_ "(" + x + ")"; } \
    template<typename A> static auto run(A const &a) { if constexpr (nonzero<A>) return ga::N_(a, met); else return ga::scalar(0.0); } static MV model(MV const &a) { divisor(a); return ref::N_(a, rmet); } };
MC_BG(igp, B, b) MC_BG(dual, B, b) MC_BG(apply_even_versor, A, a) MC_BG(apply_odd_versor, A, a) MC_UG(inv) MC_UG(unit)
MC_BIN(add, a + b, a + b) MC_BIN(sub, a - b, a - b) MC_BIN(ssub, a - ga::gp(b, ga::c<2>, met), a - ref::scale(b, 2))
MC_UN(neg, -a, -a) MC_UN(reverse, ga::reverse(a), ref::reverse(a)) MC_UN(involute, ga::involute(a), ref::involute(a)) MC_UN(conjugate, ga::conjugate(a), ref::conjugate(a))
MC_UN(grade0, ga::take_grade(a, ga::c<0>), ref::grade_part(a, 0)) MC_UN(grade1, ga::take_grade(a, ga::c<1>), ref::grade_part(a, 1)) MC_UN(grade2, ga::take_grade(a, ga::c<2>), ref::grade_part(a, 2))
MC_U(rnorm_sqr) MC_U(rnorm) MC_UN(dualI, ga::dual(a, PSS, met), ref::dual(a, rmet)) MC_UN(undualI, ga::undual(a, PSS, met), ref::undual(a, rmet))
MC_UN(plus, +a, a) MC_UN(twice, a + a, a + a) MC_UN(square, ga::gp(a, a, met), ref::gp(a, a, rmet)) MC_UN(half, ga::gp(a, ga::pow(ga::c<2>, ga::c<-1>), met), ref::scale(a, 0.5L)) MC_UN(plus3, a + ga::c<3>, a + MV(3)) MC_UN(minus_e1, a - (kblade<1, 1>()), a - MV::blade(1))

struct leaf_A { static std::string name() { return "A"; } template<typename A, typename B> static decltype(auto) run(A const &a, B const &) { return (a); } static MV model(MV const &a, MV const &) { return a; } static constexpr bool var = true; };
struct leaf_B { static std::string name() { return "B"; } template<typename A, typename B> static decltype(auto) run(A const &, B const &b) { return (b); } static MV model(MV const &, MV const &b) { return b; } static constexpr bool var = true; };
struct leaf_K { static std::string name() { return "3e2"; } template<typename A, typename B> static auto run(A const &, B const &) { return kblade<n < 2 ? 1 : 2, 3>(); } static MV model(MV const &, MV const &) { return MV::blade(n < 2 ? 1 : 2, 3); } static constexpr bool var = false; };
struct leaf_Z { static std::string name() { return "-2"; } template<typename A, typename B> static auto run(A const &, B const &) { return ga::c<-2>; } static MV model(MV const &, MV const &) { return MV(-2); } static constexpr bool var = false; };
template<typename O, typename X, typename Y> struct bin {
    static std::string name() { return O::name(X::name(), Y::name()); } static constexpr bool var = X::var || Y::var;
    template<typename A, typename B> static auto run(A const &a, B const &b) { return O::run(X::run(a, b), Y::run(a, b)); }
    static MV model(MV const &a, MV const &b) { return O::model(X::model(a, b), Y::model(a, b)); }
};
template<typename O, typename X> struct un {
    static std::string name() { return O::name(X::name()); } static constexpr bool var = X::var;
    template<typename A, typename B> static auto run(A const &a, B const &b) { return O::run(X::run(a, b)); }
    static MV model(MV const &a, MV const &b) { return O::model(X::model(a, b)); }
};
inline bool finite(MV const &m) { for (auto &t : m.c) if (!std::isfinite((double)t.second)) return false; return true; }

template<typename E> struct runtime_blade { static constexpr bool value = false; };
template<typename C, bitset_t G, typename B> struct runtime_blade<gd::component<C, gd::dynamic_basis_blade<G, B>>> { static constexpr bool value = true; };
using XA = TA; using XB = TB;
template<typename X> static items<X> values() {
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
    constexpr bool dynamic = runtime_blade<typename X::expression_type>::value;
    items<X> r;
    if constexpr (dynamic) { for (Bits b : bs) for (int v : {2, -1}) { X x; put(x, MV::blade(b, v)); MV m = obs::see(x); bool seen = false; for (auto &q : r) seen = seen || q.m == m; if (!seen) r.push_back({x, m}); } }
    else {
        static const int pr[] = {3, -2, 5, 1, -4, 7, -1, 2};
        MV m; for (std::size_t i = 0; i < bs.size(); ++i) m.add(bs[i], pr[i % 8]); r.push_back({make<X>(m), m});
        m = MV(); for (std::size_t i = 0; i < bs.size(); ++i) m.add(bs[i], pr[(3 * i + 5) % 8] * 0.5 * (std::is_integral<typename coeff<X>::t>::value ? 2 : 1)); r.push_back({make<X>(m), m});
        if (bs.size() > 1) { m = MV::blade(bs.back(), 1); r.push_back({make<X>(m), m}); m = MV::blade(bs[bs.size() / 2], -3); r.push_back({make<X>(m), m}); }
        r.push_back({make<X>(MV()), MV()});
    }
    return r;
}
constexpr Num LT = std::is_same<typename coeff<XA>::t, float>::value || std::is_same<typename coeff<XB>::t, float>::value ? FTOL : TOL;
template<typename P> void program() {
    if constexpr (P::var) {
        static items<XA> const as = values<XA>(); static items<XB> const bs = values<XB>();
        mc::section(P::name());
        for (auto &x : as) for (auto &y : bs) {
            undefined = false; MV want = P::model(x.m, y.m);
            if (undefined || !finite(want)) continue; // a division by zero or a root of a negative number
            auto key = [&](char const *how) { return std::string(how) + "/" + SP + "/" + P::name() + "/A=" + x.m.str() + ",B=" + y.m.str(); };
            auto const context = ga::make_lazy_context_tuple(x.x, y.x);
            auto const &lazy = std::get<0>(context);
            auto const got = lazy.eval(P::run(std::get<1>(context), std::get<2>(context)));
            MV const g = obs::see(got);
            mc::state(mc::mix(mc::hash(P::name()), mc::mix(mc::hash(x.m), mc::hash(y.m))));
            mc::eq(g, obs::see(P::run(x.x, y.x)), [&] { return key("lazy=eager"); }, LT);
            mc::eq(g, want, [&] { return key("lazy=model"); }, LT);
            mc::check(obs::bad_grades() == 0, [&] { return key("grades"); }, "a run-time basis blade has a grade that its type excludes"); obs::bad_grades() = 0;
            mc::trace();
        }
    }
}
template<typename... T> struct list {};
template<typename F, typename... T> void each(list<T...>, F &&f) { (void)std::initializer_list<int>{(f((T *)nullptr), 0)...}; }
#define FOR(LIST, T_) each(LIST(), [&](auto p_##T_) { using T_ = std::remove_pointer_t<decltype(p_##T_)>; if constexpr (!std::is_same<T_, none>::value) {
#define END }})
struct none {};
#if PART <= 3
using leaves = list<LEAVES>;
#endif
#define O(F) b_##F,
#define U(F) u_##F,
#if PART <= 3
using ops1 = list<OPS1 none>; using ops2 = list<OPS2 none>;
#endif
#ifdef OPS3
using ops3 = list<OPS3 none>;
#endif
#if PART == 4 || PART == 7
// inputs of every kind in every position of a context
struct k_vec { static std::string name() { return "vec"; } static auto get(int v) { return make<full_vector_t<double, n>>(MV::blade(1, 2 + v) + MV::blade(1 << (n - 1), -1 - 2 * v)); } };
struct k_dyn { static std::string name() { return "dyn"; } static auto get(int v) { return make<scaled_basis_blade_t<int, 0, n>>(MV::blade((v * 3 + 1) % (1 << n), 3 - 5 * v)); } };
struct k_sca { static std::string name() { return "scalar"; } static auto get(int v) { return ga::scalar(0.5 - 3 * v); } };
struct k_con { static std::string name() { return "const"; } static auto get(int) { return kblade<1, 3>() + kblade<3, -2>(); } };
struct k_two { static std::string name() { return "dyn+dyn"; } static auto get(int v) { return make<scaled_basis_blade_t<long, 1>>(MV::blade(1 << v % n, 2)) + make<scaled_basis_blade_t<long, 1, 2>>(MV::blade(v % 2 ? 3 : 2, 5)) + ga::scalar(7); } };
struct k_uni { static std::string name() { return "unit dyn"; } static auto get(int v) { return make<unit_basis_blade_t<0, n>>(MV::blade(v ? 2 : 3, 1)); } };
struct k_mix { static std::string name() { return "const+blade+dyn"; } static auto get(int v) { cblade<float, 2> c; put(c, MV::blade(2, 2.5 - v)); return kblade<1, 4>() + c + make<unit_basis_blade_t<0, 2>>(MV::blade(v ? 0 : 3, 1)); } };
using KINDS = list<k_vec, k_dyn, k_con>;
using kinds_ = list<k_vec, k_dyn, k_sca, k_con, k_two, k_uni, k_mix>;
#ifndef THIRD
#define THIRD kinds_
#else
#define K(X) k_##X,
using third = list<THIRD none>;
#undef THIRD
#define THIRD third
#endif
template<typename C> struct boxed { C c; template<typename E> auto eval(E const &e) const { return c.eval(e); } };
template<typename A, typename B, typename C> void positions() {
    std::string const kk = A::name() + "," + B::name() + "," + C::name();
    mc::section(kk);
    for (int v = 0; v < 3; ++v) {
        auto a = A::get(v), b = B::get((v + 1) % 3); auto c = C::get((v + 2) % 3);
        MV const ma = obs::see(a), mb = obs::see(b), mc_ = obs::see(c);
        mc::state(mc::mix(mc::hash(kk), mc::mix(mc::hash(ma), mc::mix(mc::hash(mb), mc::hash(mc_)))));
        auto key = [&](char const *what) { return std::string(what) + "/" + SP + "/" + kk + "/" + std::to_string(v); };
        auto eq = [&](auto const &got, MV const &want, char const *what) { mc::eq(obs::see(got), want, [&] { return key(what); }, 1e-6L); mc::check(obs::bad_grades() == 0, [&] { return key(what) + "/grades"; }); obs::bad_grades() = 0; };
        auto const ctx = ga::make_lazy_context_tuple(a, b, c);
        auto const &lazy = std::get<0>(ctx); auto const &a_ = std::get<1>(ctx); auto const &b_ = std::get<2>(ctx); auto const &c_ = std::get<3>(ctx);
        eq(lazy.eval(a_), ma, "first"); eq(lazy.eval(b_), mb, "second"); eq(lazy.eval(c_), mc_, "third"); // identities
        using L = std::decay_t<decltype(lazy)>;
        eq(lazy.eval(L::template argument<0>()), ma, "argument<0>"); eq(lazy.eval(L::template argument<1>()), mb, "argument<1>"); eq(lazy.eval(L::template argument<2>()), mc_, "argument<2>");
        eq(lazy.eval(std::get<1>(L::arguments())), mb, "arguments()");
        auto const e1 = ga::op(c_, a_, met) - b_; MV const w1 = ref::op(mc_, ma) - mb;
        eq(lazy.eval(e1), w1, "c^a-b"); eq(lazy.eval(e1), w1, "again");
        auto const e2 = ga::gp(b_, ga::reverse(c_), met); MV const w2 = ref::gp(mb, ref::reverse(mc_), rmet);
        eq(lazy.eval(e2), w2, "b~c");
        { L copy(lazy); eq(copy.eval(e1), w1, "copy"); L moved(std::move(copy)); eq(moved.eval(e2), w2, "moved"); }
        { // temporaries: the context outlives the objects it was made from
            auto ctx2 = [&] { auto x = a; auto z = c; auto r = ga::make_lazy_context_tuple(x, B::get((v + 1) % 3), std::move(z)); put(x, MV()); return r; }();
            char junk[256]; std::memset(junk, 0x5a, sizeof junk); __asm__ volatile("" : : "r"(junk) : "memory");
            eq(std::get<0>(ctx2).eval(ga::op(std::get<3>(ctx2), std::get<1>(ctx2), met) - std::get<2>(ctx2)), w1, "temporaries");
        }
        { auto const direct = ga::make_lazy_context(a, b, c); eq(direct.eval(e1), w1, "make_lazy_context"); boxed<L> box{lazy}; eq(box.eval(e2), w2, "member"); }
        { // a context over lazy arguments has no input of its own: evaluating it keeps the expression for the outer one
            auto const inner = ga::make_lazy_context_tuple(c_, a_); auto const part = std::get<0>(inner).eval(ga::op(std::get<1>(inner), std::get<2>(inner), met));
            eq(lazy.eval(part - b_), w1, "nested");
        }
        { // the same object given twice
            auto const twice = ga::make_lazy_context_tuple(a, a, b); eq(std::get<0>(twice).eval(ga::op(std::get<1>(twice), std::get<3>(twice), met) + std::get<2>(twice)), ref::op(ma, mb) + ma, "same twice");
        }
        { // results of one context are inputs of the next
            auto const r = lazy.eval(e2); auto const next = ga::make_lazy_context_tuple(r, a); eq(std::get<0>(next).eval(std::get<1>(next) + std::get<2>(next)), w2 + ma, "next context");
        }
        { auto const one = ga::make_lazy_context_tuple(b); eq(std::get<0>(one).eval(std::get<1>(one) + ga::c<1>), mb + MV(1), "single"); auto const four = ga::make_lazy_context_tuple(c, ga::c<2>, a, b); eq(std::get<0>(four).eval(ga::gp(std::get<2>(four), std::get<4>(four), met) - std::get<3>(four)), ref::scale(mb, 2) - ma, "four"); }
        mc::check(obs::see(a) == ma && obs::see(b) == mb && obs::see(c) == mc_, [&] { return key("inputs"); }, "an input changed");
        mc::trace();
    }
}
#endif
#if PART == 5 // operations with a tolerance: the tolerance is an input of the context too
template<typename X> void tolerances(std::string const &nm) {
    auto xs = values<X>();
    for (auto &x : xs) for (double t : {0.0, 1e-8, 2.5}) {
        auto key = [&](char const *what) { return std::string(what) + "/" + SP + "/" + nm + "/" + x.m.str() + "/tol " + std::to_string(t); };
        auto const ctx = ga::make_lazy_context_tuple(x.x, ga::scalar(t)); auto const &lazy = std::get<0>(ctx); auto const &a_ = std::get<1>(ctx); auto const &t_ = std::get<2>(ctx);
        mc::section(key("tol"));
        auto both = [&](char const *what, auto const &got, auto const &want) { mc::eq(obs::see(got), obs::see(want), [&] { return key(what); }, TOL); };
        both("take_largest_grade", lazy.eval(ga::take_largest_grade(a_, t_)), ga::take_largest_grade(x.x, t)); 
        both("dp", lazy.eval(ga::dp(a_, ga::reverse(a_), t_, met)), ga::dp(x.x, ga::reverse(x.x), t, met));
        // compared with the model: eager sums of run-time blades keep coinciding components apart (known finding of C11)
        { MV const sum = x.m + ref::reverse(x.m); int const k = ref::largest_grade(sum, t); mc::eq(obs::see(lazy.eval(ga::take_largest_grade(a_ + ga::reverse(a_), t_))), k < 0 ? MV() : ref::grade_part(sum, k), [&] { return key("largest of sum"); }, TOL); }
        both("take_grade", lazy.eval(ga::take_grade(a_, ga::c<1>) + a_), ga::take_grade(x.x, ga::c<1>) + x.x);
        mc::state(mc::mix(mc::hash(nm), mc::hash(x.m))); mc::trace();
    }
}
#endif
#if PART == 6 // tolerances and grades which are constants, defaults or literals; expressions which hold values of their own beside the arguments of the context
template<typename X, typename Y> void literals() {
    auto xs = values<X>(); auto ys = values<Y>();
    for (auto &x : xs) for (auto &y : ys) {
        auto key = [&](char const *what) { return std::string(what) + "/" + SP + "/" + x.m.str() + "/" + y.m.str(); };
        mc::section(key("literals"));
        auto both = [&](char const *what, auto const &got, auto const &want) { mc::eq(obs::see(got), obs::see(want), [&] { return key(what); }, TOL); };
        for (double t : {0.25, 1e-8, 2.5}) { // the values held are exactly the literals: no more, no less, none changed
            auto const ctx = ga::make_lazy_context_tuple(x.x, y.x); auto const &a_ = std::get<1>(ctx); auto const &b_ = std::get<2>(ctx); (void)a_; (void)b_;
            auto holds = [&](char const *what, auto const &e) {
                std::size_t k = 0; bool same = true; for (auto &v : e.values()) { ++k; same = same && (double)v == t; }
                mc::check(same && k == gd::count_stored_values_v<typename std::decay_t<decltype(e)>::expression_type>, [&] { return key(what) + "/tol " + std::to_string(t); }, "the values held are not the literals");
            };
            holds("largest_grade", ga::largest_grade(a_, t)); holds("take_largest_grade", ga::take_largest_grade(a_, t)); holds("largest of sum", ga::largest_grade(a_ + b_, t));
#ifndef DYN
            holds("dp", ga::dp(a_, b_, t, met));
#endif
#ifdef BLADE
            holds("exp", ga::exp(a_, t, met));
#endif
        }
        auto const ctx = ga::make_lazy_context_tuple(x.x, y.x, ga::scalar(1), ga::scalar(2L)); auto const &lazy = std::get<0>(ctx); auto const &a_ = std::get<1>(ctx); auto const &b_ = std::get<2>(ctx); auto const &k1 = std::get<3>(ctx); auto const &k2 = std::get<4>(ctx);
        both("constant tolerance", lazy.eval(ga::take_largest_grade(a_, ga::c<0>)), ga::take_largest_grade(x.x, ga::c<0>));
        both("constant tolerance of dp", lazy.eval(ga::dp(a_, b_, ga::c<0>, met)), ga::dp(x.x, y.x, ga::c<0>, met));
        both("default tolerance of dp", lazy.eval(ga::dp(a_ + b_, ga::reverse(b_), met)), ga::dp(x.x + y.x, ga::reverse(y.x), met));
        both("default tolerance of a product", lazy.eval(ga::take_largest_grade(ga::gp(a_, b_, met))), ga::take_largest_grade(ga::gp(x.x, y.x, met)));
        both("default tolerance of a sum", lazy.eval(ga::largest_grade(a_ - b_)), ga::largest_grade(x.x - y.x));
        both("grade 1", lazy.eval(ga::take_grade(ga::gp(a_, b_, met), k1)), ga::take_grade(ga::gp(x.x, y.x, met), 1));
        both("grade 2", lazy.eval(ga::take_grade(ga::gp(a_, b_, met), k2) + ga::take_grade(a_, k1)), ga::take_grade(ga::gp(x.x, y.x, met), ga::c<2>) + ga::take_grade(x.x, ga::c<1>));
        both("grade of grade", lazy.eval(ga::take_grade(ga::take_grade(a_ + b_, k2 - k1), k1)), ga::take_grade(x.x + y.x, ga::c<1>));
#ifdef BLADE
        both("exp", lazy.eval(ga::exp(a_, ga::c<0>, met)), ga::exp(x.x, ga::c<0>, met));
        both("exp of a half", lazy.eval(ga::exp(ga::gp(a_, ga::pow(ga::c<2>, ga::c<-1>), met), met)), ga::exp(ga::gp(x.x, 0.5, met), met));
#endif
        mc::state(mc::mix(mc::hash(x.m), mc::hash(y.m))); mc::trace();
    }
}
#endif
#if PART == 7 // contexts of NIN inputs of every tuple of kinds: every input, every pair of inputs in both orders, every input but one, all of them
template<typename F, std::size_t... I> void upto(F &&f, std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>()), ...); }
template<typename Ctx, std::size_t I, std::size_t N, std::size_t Skip> auto total(Ctx const &c) { // the sum of the arguments I..N-1 but Skip, each multiplied by its position + 1
    auto const t = ga::gp(std::get<I + 1>(c), ga::c<(int)I + 1>, met);
    if constexpr (I == Skip) { if constexpr (I + 1 < N) return total<Ctx, I + 1, N, Skip>(c); else return ga::c<0>; }
    else if constexpr (I + 1 < N) return t + total<Ctx, I + 1, N, Skip>(c); else return t;
}
template<typename... K> void inputs() {
    constexpr std::size_t N = sizeof...(K);
    std::string kk; for (auto &s : {K::name()...}) kk += (kk.empty() ? "" : ",") + s;
    mc::section(kk);
    for (int v = 0; v < 2; ++v) {
        int i = v; std::tuple<decltype(K::get(0))...> x{K::get(i++ % 3)...};
        std::vector<MV> m; std::apply([&](auto const &... a) { (m.push_back(obs::see(a)), ...); }, x);
        auto key = [&](std::string const &what) { return what + "/" + SP + "/" + kk + "/" + std::to_string(v); };
        auto eq = [&](auto const &got, MV const &want, std::string const &what) { mc::eq(obs::see(got), want, [&] { return key(what); }, 1e-6L); mc::check(obs::bad_grades() == 0, [&] { return key(what) + "/grades"; }); obs::bad_grades() = 0; };
        auto const ctx = std::apply([](auto const &... a) { return ga::make_lazy_context_tuple(a...); }, x); auto const &lazy = std::get<0>(ctx); using C = std::decay_t<decltype(ctx)>;
        std::uint64_t h = mc::hash(kk); for (auto &q : m) h = mc::mix(h, mc::hash(q)); mc::state(h);
        auto all = [&](int skip) { MV r; for (std::size_t k = 0; k < N; ++k) if ((int)k != skip) r = r + ref::scale(m[k], k + 1); return r; };
        auto each_ = [&](auto J) { constexpr std::size_t j = decltype(J)::value;
            eq(lazy.eval(std::get<j + 1>(ctx)), m[j], "input " + std::to_string(j));
            eq(lazy.eval(total<C, 0, N, j>(ctx)), all(j), "all but " + std::to_string(j));
            auto with = [&](auto L) { constexpr std::size_t l = decltype(L)::value; if constexpr (l != j && (l + 1 == j || l == j + 1 || l + N == j + 1 || j + N == l + 1))
                eq(lazy.eval(ga::op(std::get<j + 1>(ctx), std::get<l + 1>(ctx), met)), ref::op(m[j], m[l]), "op of " + std::to_string(j) + " and " + std::to_string(l)); };
            upto(with, std::make_index_sequence<N>());
        };
        upto(each_, std::make_index_sequence<N>());
        eq(lazy.eval(total<C, 0, N, N>(ctx)), all(-1), "all"); 
        std::size_t k = 0; std::apply([&](auto const &... a) { (mc::check(obs::see(a) == m[k++], [&] { return key("inputs"); }, "an input changed"), ...); }, x);
        mc::trace();
    }
}
template<std::size_t Left, typename... K> void tuples() { if constexpr (Left == 0) inputs<K...>(); else each(KINDS(), [&](auto p) { tuples<Left - 1, K..., std::remove_pointer_t<decltype(p)>>(); }); }
#endif
void explore() {
#if PART == 7
    tuples<NIN - 1, FIRST>();
#elif PART == 4
    FOR(kinds_, b) FOR(THIRD, c) positions<FIRST, b, c>(); END; END;
#elif PART == 5
    tolerances<XA>("A"); tolerances<XB>("B");
#elif PART == 6
    literals<XA, XB>();
#endif

#if PART == 1
    FOR(ops1, o1) FOR(leaves, x) FOR(leaves, y) using in = bin<o1, x, y>;
        if constexpr (in::var) { FOR(ops2, o2) FOR(leaves, z) program<bin<o2, in, z>>(); program<bin<o2, z, in>>(); END; END; }
    END; END; END;
#elif PART == 2
    FOR(ops1, u1) FOR(leaves, x) FOR(leaves, y) using in = un<u1, x>; FOR(ops2, o) FOR(ops3, u2) program<un<u2, bin<o, in, y>>>(); program<un<u2, bin<o, y, in>>>(); END; END; END; END; END;
#elif PART == 3
    FOR(leaves, x) FOR(ops1, u1) FOR(ops2, u2) FOR(ops3, u3) program<un<u3, un<u2, un<u1, x>>>>(); END; END; END; END;
#endif
}
