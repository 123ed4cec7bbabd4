// C05: results do not depend on how a multivector is represented. The same values are held in every form that can hold
// them; for every operation and every pair of values, the results of all pairs of forms must be the same multivector.
// MCN dimensions, metric MP,MQ,MR or CONF; FA, FB masks of the forms of the operands; OPS operations.
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include <gatl/ga/model/conformal.hpp>
#include "versors.hpp"
using mc::MV; using mc::Num;
constexpr int n = MC_N;
#ifdef CONF
static const ga::conformal_metric_space<n - 2> met; static const std::string SP = "conformal" + std::to_string(n - 2);
#define SPACE ga::euclidean_metric_space<n>()
#else
static const ga::signed_metric_space<MP, MQ, MR> met; static const std::string SP = sigkey(MP, MQ, MR);
#endif
enum { F_FULL = 1, F_KVEC = 2, F_DYN = 4, F_BLADE = 8, F_CONST = 16, F_NATIVE = 32, F_SUM = 64 };

static std::vector<MV> const &values() { // single blades, a vector, a mixed multivector
    static std::vector<MV> r;
    if (r.empty()) {
        for (Bits b = 0; b < (Bits(1) << n); ++b) for (int v : {1, -2}) r.push_back(MV::blade(b, v));
        MV v = MV::blade(1, 3); if (n > 1) v.add(2, -2); r.push_back(v);
        MV w = MV::blade(0, 3); w.add((Bits(1) << n) - 1, -2); if (n > 1) w.add(1, 1); r.push_back(w);
    }
    return r;
}
template<typename X> items<X> hold() { // every value that the form can hold
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n); std::set<Bits> can(bs.begin(), bs.end());
    items<X> r;
    for (auto &m : values()) {
        bool ok = true; for (auto &t : m.c) ok = ok && can.count(t.first);
        if (!ok) continue;
        X x; put(x, m); if (obs::see(x) == m) r.push_back({x, m});
    }
    return r;
}
template<typename X> items<X> just(X const &x) { items<X> r; MV m = obs::see(x); for (auto &v : values()) if (v == m) r.push_back({x, m}); return r; }
template<typename T> items<T> numbers() { items<T> r; for (int v : {1, -2}) r.push_back({T(v), MV(v)}); return r; }
template<int mask, typename F> void forms(F &&f) {
    auto g = [&](std::string const &name, auto const &xs) { if (!xs.empty()) f(name, xs); };
    if constexpr ((mask & F_FULL) != 0) { g("full<int>", hold<ga::full_multivector_t<int, n>>()); g("full<double>", hold<ga::full_multivector_t<double, n>>()); }
    if constexpr ((mask & F_KVEC) != 0) each_int([&](auto k) {
        constexpr int G = decltype(k)::value;
        g("kvec<int>" + std::to_string(G), hold<ga::full_kvector_t<int, n, G>>()); g("kvec<float>" + std::to_string(G), hold<ga::full_kvector_t<float, n, G>>());
    }, std::make_integer_sequence<int, n + 1>());
    if constexpr ((mask & F_DYN) != 0) {
        g("dyn<int>", hold<ga::scaled_basis_blade_t<int, 0, n>>()); g("dyn<double>", hold<ga::scaled_basis_blade_t<double, 0, n>>()); g("unit dyn", hold<ga::unit_basis_blade_t<0, n>>()); g("unit vector", hold<ga::unit_basis_vector_t>());
        each_int([&](auto k) { constexpr int G = decltype(k)::value; g("dyn<long>" + std::to_string(G), hold<ga::scaled_basis_blade_t<long, G>>()); }, std::make_integer_sequence<int, n + 1>());
    }
    if constexpr ((mask & F_BLADE) != 0) each_bits([&](auto v) { constexpr ga::bitset_t V = decltype(v)::value; g("blade<int>" + std::to_string(V), hold<cblade<int, V>>()); g("blade<double>" + std::to_string(V), hold<cblade<double, V>>()); }, std::make_integer_sequence<ga::bitset_t, (ga::bitset_t(1) << n)>());
    if constexpr ((mask & F_CONST) != 0) each_bits([&](auto v) { constexpr ga::bitset_t V = decltype(v)::value; g("const1 " + std::to_string(V), hold<kblade<V, 1>>()); g("const-2 " + std::to_string(V), hold<kblade<V, -2>>()); }, std::make_integer_sequence<ga::bitset_t, (ga::bitset_t(1) << n)>());
    if constexpr ((mask & F_NATIVE) != 0) { g("int", numbers<int>()); g("double", numbers<double>()); g("scalar", just(ga::scalar(-2.0))); g("c<1>", just(ga::c<1>)); g("c<-2>", just(ga::c<-2>)); }
    if constexpr ((mask & F_SUM) != 0 && n > 1) {
        auto b = [](auto v, Bits k, auto x) { cblade<decltype(x), decltype(v)::value> r; put(r, MV::blade(k, x)); return r; };
        g("blade+blade", just(b(std::integral_constant<ga::bitset_t, 1>(), 1, 3) + b(std::integral_constant<ga::bitset_t, 2>(), 2, -2.0)));
        g("const+const", just(kblade<1, 3>() + kblade<2, -2>()));
        g("const+blade", just(kblade<1, 3>() + b(std::integral_constant<ga::bitset_t, 2>(), 2, -2)));
        g("dyn+dyn", just(make<ga::scaled_basis_blade_t<int, 1>>(MV::blade(1, 3)) + make<ga::scaled_basis_blade_t<int, 1>>(MV::blade(2, -2))));
        g("const+dyn+scalar", just(kblade<(ga::bitset_t(1) << n) - 1, -2>() + make<ga::scaled_basis_blade_t<int, 1>>(MV::blade(1, 1)) + ga::scalar(3)));
    }
}
template<typename X> constexpr bool coarse = std::is_same<typename coeff<X>::t, float>::value;

// canonical results: operation name and values -> the first result seen and who gave it
struct First { MV r; std::string who; };
static std::map<std::string, First> &table() { static std::map<std::string, First> t; return t; }
static void record(std::string const &op, std::string const &vals, std::string const &who, MV const &r, Num tol) {
    auto it = table().find(op + "/" + vals);
    mc::state(mc::hash(op + vals));
    if (it == table().end()) { table()[op + "/" + vals] = {r, who}; return; }
    mc::eq(r, it->second.r, [&] { return op + "/" + SP + "/" + vals + "/" + who + " vs " + it->second.who; }, tol);
}
static void grades_ok(std::string const &op, std::string const &vals, std::string const &who) {
    mc::check(obs::bad_grades() == 0, [&] { return op + "/" + SP + "/" + vals + "/" + who; }, "a run-time basis blade has a grade that its type excludes");
    obs::bad_grades() = 0;
}
template<typename A> int grade_of(A const &a) { return (int)(ga::grade_t)ga::grade(a, 1e-8); }
#define MC_BIN(NAME, CALL, OK) struct B_##NAME { static char const *name() { return #NAME; } template<typename A, typename B> static constexpr bool ok() { return OK; } \
    template<typename A, typename B> static auto run(A const &a, B const &b) { return CALL; } static bool dom(MV const &a, MV const &b) { (void)a; (void)b; return true; } };
#define MC_BIND(NAME, CALL, OK, DOM) struct B_##NAME { static char const *name() { return #NAME; } template<typename A, typename B> static constexpr bool ok() { return OK; } \
    template<typename A, typename B> static auto run(A const &a, B const &b) { return CALL; } static bool dom(MV const &a, MV const &b) { (void)a; (void)b; return DOM; } };
#ifdef CONF
static const ref::Metric rmet = ref::Metric::conformal(n - 2);
#else
static const ref::Metric rmet = ref::Metric::sig(MP, MQ, MR);
#endif
template<typename X> constexpr bool native = std::is_arithmetic<X>::value;
#ifdef CONF
template<typename X> constexpr long NRM = 0;
#else
template<typename X> constexpr long NRM = knorm<typename expr_of<X>::t>::get(MP, MQ);
#endif
template<typename A, typename B> constexpr bool TRUE_ = true;
template<typename A, typename B> constexpr bool NN = !(native<A> && native<B>); // two native numbers are not the library's business
template<typename A, typename B> constexpr bool INVB = NN<A, B> && NRM<B> != 0;
template<typename A, typename B> constexpr bool VERA = !native<A> && NRM<A> != 0;
template<typename A, typename B> constexpr bool LIBB = !native<B>;
inline bool invertible(MV const &a) { return ref::norm2(a, rmet) != 0; }
inline int parity(MV const &a) { int p = -1; for (auto &t : a.c) { int q = ref::popc(t.first) & 1; if (p >= 0 && p != q) return 2; p = q; } return p; }
inline bool is_versor(MV const &a) { Num x; return versor(a, rmet, x); }
#define MC_BIN(NAME, CALL, OK, DOM) struct B_##NAME { static char const *name() { return #NAME; } template<typename A, typename B> static constexpr bool ok() { return OK<A, B>; } \
    template<typename A, typename B> static auto run(A const &a, B const &b) { return CALL; } static bool dom(MV const &a, MV const &b) { (void)a; (void)b; return DOM; } };
MC_BIN(gp, ga::gp(a, b, met), TRUE_, true) MC_BIN(op, ga::op(a, b, met), TRUE_, true) MC_BIN(lcont, ga::lcont(a, b, met), TRUE_, true) MC_BIN(rcont, ga::rcont(a, b, met), TRUE_, true)
MC_BIN(dot, ga::dot(a, b, met), TRUE_, true) MC_BIN(hip, ga::hip(a, b, met), TRUE_, true) MC_BIN(sp, ga::sp(a, b, met), TRUE_, true) MC_BIN(cp, ga::cp(a, b, met), TRUE_, true) MC_BIN(rp, ga::rp(a, b, met), TRUE_, true)
MC_BIN(add, a + b, NN, true) MC_BIN(sub, a - b, NN, true) MC_BIN(igp, ga::igp(a, b, met), INVB, invertible(b)) MC_BIN(dual, ga::dual(a, b, met), INVB, invertible(b)) MC_BIN(undual, ga::undual(a, b, met), LIBB, true)
MC_BIN(even, ga::apply_even_versor(a, b, met), VERA, is_versor(a) && parity(a) == 0) MC_BIN(odd, ga::apply_odd_versor(a, b, met), VERA, is_versor(a) && parity(a) == 1) MC_BIN(rotor, ga::apply_rotor(a, b, met), VERA, is_versor(a) && parity(a) == 0)
MC_BIN(dp, ga::dp(a, b, 1e-8, met), NN, true) 
#define MC_UN(NAME, CALL, OK, DOM) struct U_##NAME { static char const *name() { return #NAME; } template<typename A> static constexpr bool ok() { return OK; } \
    template<typename A> static auto run(A const &a) { return CALL; } static bool dom(MV const &a) { (void)a; return DOM; } };
MC_UN(neg, -a, !native<A>, true) MC_UN(plus, +a, !native<A>, true) MC_UN(reverse, ga::reverse(a), true, true) MC_UN(involute, ga::involute(a), true, true) MC_UN(conjugate, ga::conjugate(a), true, true)
MC_UN(rnorm_sqr, ga::rnorm_sqr(a, met), true, true) MC_UN(inv, ga::inv(a, met), NRM<A> != 0, invertible(a)) MC_UN(rnorm, ga::rnorm(a, met), NRM<A> > 0, ref::norm2(a, rmet) > 0) MC_UN(unit, ga::unit(a, met), NRM<A> != 0, invertible(a))
MC_UN(exp, ga::exp(a, 1e-8, met), !native<A>, parity(a) == 0 && ref::gp(a, a, rmet) == MV(ref::gp(a, a, rmet).scalar())) 
MC_UN(grade1, ga::take_grade(a, (ga::grade_t)1), !native<A>, true) MC_UN(gradec, ga::take_grade(a, ga::c<1>), !native<A>, true) MC_UN(lgrade, ga::take_largest_grade(a, 1e-8), !native<A>, true) MC_UN(Rdual, ga::dual(a, ga::pseudoscalar(ga::euclidean_metric_space<n>()), met), true, n == 0 || ref::norm2(ref::pseudoscalar(n), rmet) != 0)
MC_UN(grade, grade_of(a), !native<A>, true)
MC_UN(zero, (double)ga::is_zero(a, 1e-8), !native<A>, true) MC_UN(isnull, (double)ga::is_null(a, 1e-8, met), !native<A>, true) MC_UN(isunit, (double)ga::is_unit(a, 1e-8, met), !native<A>, true)

template<typename Op, int MA, int MB> void binary() {
    mc::section(std::string(Op::name()) + "/" + SP);
    forms<MA>([&](std::string const &na, auto const &as) { forms<MB>([&](std::string const &nb, auto const &bs) {
        using A = std::decay_t<decltype(as[0].x)>; using B = std::decay_t<decltype(bs[0].x)>;
        if constexpr (Op::template ok<A, B>()) for (auto &a : as) for (auto &b : bs) if (Op::dom(a.m, b.m)) {
            std::string vals = a.m.str() + " , " + b.m.str(), who = na + "|" + nb;
            record(Op::name(), vals, who, obs::see(Op::run(a.x, b.x)), coarse<A> || coarse<B> ? FTOL : TOL);
            grades_ok(Op::name(), vals, who);
            mc::trace();
        }
    }); });
}
template<typename Op, int M> void unary() {
    mc::section(std::string(Op::name()) + "/" + SP);
    forms<M>([&](std::string const &na, auto const &as) {
        using A = std::decay_t<decltype(as[0].x)>;
        if constexpr (Op::template ok<A>()) for (auto &a : as) if (Op::dom(a.m)) {
            record(Op::name(), a.m.str(), na, obs::see(Op::run(a.x)), coarse<A> ? FTOL : TOL);
            grades_ok(Op::name(), a.m.str(), na);
            mc::trace();
        }
    });
}
void explore() {
#define O(F) binary<B_##F, 1, 1>(); binary<B_##F, FA, FB>(); // the full multivectors give the first result
#define V(F) unary<U_##F, 1>(); unary<U_##F, FA>();
    OPS
}
