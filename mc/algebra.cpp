// The ready-made algebras gaNx.hpp: operators and functions without an explicit metric, overloads for natives and
// scalars, basis vectors, pseudoscalars and names. NS is the namespace (e.g. ga3c), MC_D its parameter, KIND one of
// E H P M C (model), OPS the binary operations, GROUP further explorations (= the property they belong to).
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define MC_HDR(x) <gatl/x.hpp>
#include MC_HDR(NS)
#include "versors.hpp"

#define E_ 1
#define H_ 2
#define P_ 3
#define M_ 4
#define C_ 5
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define K MC_CAT(KIND, _)
#if K == E_
constexpr int n = MC_D; inline ref::Metric metric() { return ref::Metric::sig(MC_D, 0, 0); }
#elif K == H_
constexpr int n = MC_D + 1; inline ref::Metric metric() { return ref::Metric::sig(MC_D + 1, 0, 0); }
#elif K == P_
constexpr int n = MC_D + 1; inline ref::Metric metric() { return ref::Metric::sig(MC_D, 0, 1); }
#elif K == M_
constexpr int n = MC_D + 2; inline ref::Metric metric() { return ref::Metric::sig(MC_D + 1, 1, 0); }
#else
constexpr int n = MC_D + 2; inline ref::Metric metric() { return ref::Metric::conformal(MC_D); }
#endif
static const ref::Metric rm = metric();
static const std::string NAME = MC_STR(NS);

// library side: every name is looked up with the algebra's namespace open, as a program would do
namespace lib {
using namespace NS;
#define BIN(NM, EXPR) struct NM { static char const *name() { return #NM; } template<typename A, typename B> static auto run(A const &a, B const &b) { return EXPR; }
#define MOD(EXPR) static MV model(MV const &a, MV const &b) { (void)a; (void)b; return EXPR; } };
BIN(gp_f, gp(a, b)) MOD(ref::gp(a, b, rm))
BIN(gp_o, a * b) MOD(ref::gp(a, b, rm))
BIN(op_f, op(a, b)) MOD(ref::op(a, b))
BIN(op_o, a ^ b) MOD(ref::op(a, b))
BIN(rp_f, rp(a, b)) MOD(ref::rp(a, b, rm))
BIN(lcont_f, lcont(a, b)) MOD(ref::lcont(a, b, rm))
BIN(lcont_o, a < b) MOD(ref::lcont(a, b, rm))
BIN(rcont_f, rcont(a, b)) MOD(ref::rcont(a, b, rm))
BIN(rcont_o, a > b) MOD(ref::rcont(a, b, rm))
BIN(dot_f, dot(a, b)) MOD(ref::dot(a, b, rm))
BIN(dot_o, a | b) MOD(ref::dot(a, b, rm))
BIN(hip_f, hip(a, b)) MOD(ref::hip(a, b, rm))
BIN(sp_f, sp(a, b)) MOD(ref::sp(a, b, rm))
BIN(cp_f, cp(a, b)) MOD(ref::cp(a, b, rm))
BIN(add_o, a + b) MOD(a + b)
BIN(sub_o, a - b) MOD(a - b)
BIN(igp_f, igp(a, b)) MOD(ref::igp(a, b, rm))
BIN(div_o, a / b) MOD(ref::igp(a, b, rm))
}

template<typename Op, typename A, typename B> void pairs(std::string const &ka, items<A> const &as, std::string const &kb, items<B> const &bs, Num tol = 0) {
    mc::section(std::string(Op::name()) + "/" + NAME + "/" + ka + "*" + kb);
    std::uint64_t ha = mc::hash(NAME + ka), hb = mc::hash(NAME + kb);
    for (auto &b : bs) mc::state(mc::mix(hb, mc::hash(b.m)));
    for (auto &a : as) {
        mc::state(mc::mix(ha, mc::hash(a.m)));
        for (auto &b : bs) mc::eq(obs::see(Op::run(a.x, b.x)), Op::model(a.m, b.m), [&] { return std::string(Op::name()) + "/" + NAME + "/" + ka + "*" + kb + "/" + a.m.str() + "," + b.m.str(); }, tol);
        mc::trace();
    }
}
struct Ops2 {
    items<ga::full_kvector_t<int, n, 1>> vec = n <= 3 ? grid<ga::full_kvector_t<int, n, 1>>(n, {-1, 0, 2}) : basis<ga::full_kvector_t<int, n, 1>>(n);
    items<ga::full_kvector_t<double, n, 2 <= n ? 2 : 0>> biv = basis<ga::full_kvector_t<double, n, 2 <= n ? 2 : 0>>(n);
    items<ga::full_multivector_t<int, n>> full = basis<ga::full_multivector_t<int, n>>(n);
    items<int> si; items<double> sd;
    Ops2() { for (int v : {-2, 0, 1, 3}) si.push_back({v, MV(v)}); for (double v : {-0.5, 4.0}) sd.push_back({v, MV(v)}); }
    template<typename Op> void all() {
        pairs<Op>("vec", vec, "vec", vec);
        pairs<Op>("vec", vec, "biv", biv);
        pairs<Op>("biv", biv, "vec", vec);
        if constexpr (n <= 3) pairs<Op>("full", full, "full", full);
        mixed<Op>();
#if K != C_
        auto dyn = blades<ga::scaled_basis_blade_t<int, 0, n>>(n, {2});
        pairs<Op>("dyn", dyn, "dyn", dyn);
        pairs<Op>("int", si, "dyn", dyn);
        pairs<Op>("dyn", dyn, "double", sd);
#endif
    }
    template<typename Op> void mixed() {
        pairs<Op>("int", si, "vec", vec);
        pairs<Op>("vec", vec, "int", si);
        pairs<Op>("double", sd, "vec", vec);
        pairs<Op>("biv", biv, "double", sd);
        pairs<Op>("c3", single(ga::c<3>), "vec", vec);
        pairs<Op>("vec", vec, "c-2", single(ga::c<-2>));
        items<ga::scaled_constant_basis_blade_t<int>> ss; // scalar expressions
        for (int v : {-3, 2}) { auto x = ga::scalar(v); MV m = obs::see(x); items<decltype(x)> one{{x, m}}; pairs<Op>("scalar", one, "vec", vec); pairs<Op>("biv", biv, "scalar", one); pairs<Op>("scalar", one, "scalar", one); pairs<Op>("scalar", one, "int", si); pairs<Op>("double", sd, "scalar", one); }
    }
};

template<typename X, typename F, typename G> void each1(std::string const &what, items<X> const &xs, F lib, G model, Num tol = 0) {
    mc::section(what + "/" + NAME);
    std::uint64_t h = mc::hash(NAME + what);
    for (auto &x : xs) { mc::state(mc::mix(h, mc::hash(x.m))); mc::eq(obs::see(lib(x.x)), model(x.m), [&] { return what + "/" + NAME + "/" + x.m.str(); }, tol); }
    mc::trace();
}

#if GROUP == 12 || GROUP == 13 || GROUP == 14 || GROUP == 15
constexpr bitset_t FULL = (bitset_t(1) << n) - 1;
items<full_multivector_t<double, n>> some_versors(int len) { // products of basis vectors and a few combinations of them
    std::vector<MV> v; for (int i = 0; i < n; ++i) { v.push_back(MV::blade(Bits(1) << i)); v.push_back(MV::blade(Bits(1) << i, 2) - MV::blade(Bits(1) << (i + 1) % n)); v.push_back(MV::blade(Bits(1) << i) + MV::blade(Bits(1) << (i + 1) % n, 3)); }
    std::set<MV> s, last{MV(1)};
    for (int l = 0; l < len; ++l) { std::set<MV> next; for (auto &a : last) for (auto &b : v) { Num q; if (versor(b, rm, q)) next.insert(ref::gp(a, b, rm)); } s.insert(next.begin(), next.end()); last = next; }
    items<full_multivector_t<double, n>> r; for (auto &m : s) r.push_back({make<full_multivector_t<double, n>>(m), m});
    return r;
}
#endif
#if GROUP == 12 // norms, inverse, unit, quotient, predicates
template<typename X> void norms(std::string const &what, items<X> const &xs) {
    using namespace NS;
    mc::section("norms/" + NAME + "/" + what);
#if K == P_
    constexpr long KS = knorm<typename expr_of<X>::t>::get(MC_D, 0);
#else // constants with a negative square are refused by rnorm at compile time
    constexpr bool KC = knorm<typename expr_of<X>::t>::constant; constexpr long KS = KC && (K == M_ || K == C_) ? -1 : 1;
#endif
    for (auto &x : xs) {
        Num n2; bool v = versor(x.m, rm, n2);
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + NAME + "/" + what + "/" + x.m.str(); }; };
        mc::state(mc::mix(mc::hash(NAME + what), mc::hash(x.m)));
        mc::eq(obs::see(rnorm_sqr(x.x)), MV(n2), key("rnorm_sqr"), TOL);
        if constexpr (KS > 0) if (n2 >= 0) mc::eq(obs::see(rnorm(x.x)), MV(std::sqrt(n2)), key("rnorm"), TOL);
        if constexpr (is_clifford_expression_v<X>) { mc::same((bool)is_null(x.x, 0.5), std::fabs(n2) <= 0.5, key("is_null")); mc::same((bool)is_unit(x.x, 0.25), std::fabs(std::fabs(n2) - 1) <= 0.25, key("is_unit")); }
        if constexpr (KS != 0) if (n2 != 0) mc::eq(obs::see(unit(x.x)), ref::unit(x.m, rm), key("unit"), TOL);
        if constexpr (KS != 0) if (v) {
        MV iv = ref::inv(x.m, rm);
        mc::eq(obs::see(inv(x.x)), iv, key("inv"), TOL);
        mc::eq(obs::see(igp(c<2>, x.x)), ref::scale(iv, 2), key("2/V"), TOL);
        mc::eq(obs::see(e1 / x.x), ref::gp(MV::blade(1), iv, rm), key("e1/V"), TOL);
        mc::eq(obs::see(igp(x.x, e1)), ref::gp(x.m, ref::inv(MV::blade(1), rm), rm), key("V/e1"), TOL);
        mc::eq(obs::see(x.x / 4), ref::scale(x.m, 0.25L), key("V/4"), TOL);
        mc::eq(obs::see(x.x / 0.5), ref::scale(x.m, 2), key("V/0.5"), TOL);
        mc::eq(obs::see(3 / x.x), ref::scale(iv, 3), key("3/V"), TOL);
        mc::eq(obs::see(x.x / c<3>), ref::scale(x.m, 1 / 3.0L), key("V/c3"), TOL);
        }
    }
    mc::trace();
}
void group() {
    norms("vec", grid<full_vector_t<double, n>>(n, {-1, 0, 2}));
    norms("veci", basis<full_vector_t<int, n>>(n));
    if constexpr (n <= 4) norms("versor", some_versors(2)); 
    norms("biv", basis<full_kvector_t<double, n, 2 <= n ? 2 : 0>>(n));
    norms("scalar", blades<cblade<int, 0>>(n, {2, -3, 0})); 
    norms("I", single(kblade<FULL, 2>())); norms("e1", single(kblade<1, -3>()));
#if K != C_
    norms("dyn", blades<scaled_basis_blade_t<int, 0, n>>(n, {2, -3}));
    norms("uvec", blades<unit_basis_vector_t>(n, {1}));
#endif
}
#elif GROUP == 13 // duals
template<typename X> void duals(std::string const &what, items<X> const &xs) {
    using namespace NS;
    mc::section("dual/" + NAME + "/" + what);
    MV I_ = ref::pseudoscalar(n); Num n2; bool ok = versor(I_, rm, n2); (void)ok;
    for (auto &x : xs) {
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + NAME + "/" + what + "/" + x.m.str(); }; };
        mc::state(mc::mix(mc::hash(NAME + what), mc::hash(x.m)));
        mc::eq(obs::see(undual(x.x)), ref::lcont(x.m, I_, rm), key("undual"), TOL);
        mc::eq(obs::see(undual(x.x, e1)), ref::lcont(x.m, MV::blade(1), rm), key("undual(e1)"), TOL);
        mc::eq(obs::see(dual(x.x, e1)), ref::lcont(x.m, ref::inv(MV::blade(1), rm), rm), key("dual(e1)"), TOL);
#if MC_D >= 2
        mc::eq(obs::see(dual(x.x, 2 * (e1 ^ e2))), ref::lcont(x.m, ref::inv(MV::blade(3, 2), rm), rm), key("dual(2e12)"), TOL);
#endif
#if K != P_
        mc::eq(obs::see(dual(x.x)), ref::lcont(x.m, ref::inv(I_, rm), rm), key("dual"), TOL);
        mc::eq(obs::see(dual(x.x, I)), ref::lcont(x.m, ref::inv(I_, rm), rm), key("dual(I)"), TOL);
        mc::eq(obs::see(undual(dual(x.x))), x.m, key("undual(dual)"), TOL);
        mc::eq(obs::see(dual(undual(x.x))), x.m, key("dual(undual)"), TOL);
#endif
#if K == H_ || K == M_ || K == C_
        mc::eq(obs::see(dual(x.x, Ie)), ref::lcont(x.m, ref::inv(obs::see(Ie), rm), rm), key("dual(Ie)"), TOL);
        mc::eq(obs::see(undual(x.x, Ie)), ref::lcont(x.m, obs::see(Ie), rm), key("undual(Ie)"), TOL);
#endif
    }
    mc::trace();
}
void group() {
    duals("vec", basis<full_vector_t<int, n>>(n)); duals("biv", basis<full_kvector_t<double, n, 2 <= n ? 2 : 0>>(n)); 
#if MC_D <= 3
    duals("full", basis<full_multivector_t<double, n>>(n)); 
#endif
    duals("int", natives<int>({-2, 0, 3})); duals("double", natives<double>({0.5})); duals("c2", single(c<2>)); duals("scalar", blades<cblade<int, 0>>(n, {2, -3}));
    duals("e1", single(kblade<1, -3>())); duals("I", single(kblade<FULL, 2>()));
#if K != C_
    duals("dyn", blades<scaled_basis_blade_t<int, 0, n>>(n, {2, -3})); duals("uvec", blades<unit_basis_vector_t>(n, {1}));
#endif
}
#elif GROUP == 14 // versors
template<typename V, typename X> void applies(std::string const &kv, items<V> const &vs, std::string const &kx, items<X> const &xs) {
    using namespace NS;
    mc::section("apply/" + NAME + "/" + kv + "/" + kx);
    for (auto &v : vs) {
        Num n2; if (!versor(v.m, rm, n2)) continue;
        MV iv = ref::inv(v.m, rm);
        mc::state(mc::mix(mc::hash(NAME + kv), mc::hash(v.m)));
        bool odd = !v.m.c.empty() && ref::popc(v.m.c.begin()->first) & 1;
        for (auto &x : xs) {
            auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + NAME + "/" + kv + "/" + kx + "/" + v.m.str() + "," + x.m.str(); }; };
            if (odd) mc::eq(obs::see(apply_odd_versor(v.x, x.x)), ref::gp(ref::gp(v.m, ref::involute(x.m), rm), iv, rm), key("odd"), TOL);
            else {
                mc::eq(obs::see(apply_even_versor(v.x, x.x)), ref::gp(ref::gp(v.m, x.m, rm), iv, rm), key("even"), TOL);
                mc::eq(obs::see(apply_rotor(v.x, x.x)), ref::gp(ref::gp(v.m, x.m, rm), ref::reverse(v.m), rm), key("rotor"), TOL);
            }
        }
        mc::trace();
    }
}
void group() {
    auto vec = basis<full_vector_t<double, n>>(n); 
    applies("vec", grid<full_vector_t<double, n>>(n, n <= 3 ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 1}), "vec", vec);
    applies("int", natives<int>({-2, 3}), "vec", vec); applies("vec", vec, "int", natives<int>({-2, 0, 3})); applies("c2", single(c<2>), "vec", vec); applies("vec", vec, "c2", single(c<2>)); applies("int", natives<int>({-2, 3}), "int", natives<int>({5}));
    applies("e1", single(kblade<1, -3>()), "vec", vec); applies("vec", vec, "e1", single(kblade<1, -3>()));
#if MC_D >= 2
    applies("e12", single(kblade<3, 2>()), "vec", vec);
#endif
#ifdef FULLV
    applies("versor", some_versors(2), "vec", vec);
#endif
#if K != C_ && K != M_
    auto dyn = blades<scaled_basis_blade_t<int, 0, n>>(n, {2}); applies("dyn", dyn, "dyn", dyn); applies("dyn", dyn, "int", natives<int>({7}));
#endif
}
#elif GROUP == 15 // exponentials
template<typename X> void exps(std::string const &what, items<X> const &xs) {
    using namespace NS;
    mc::section("exp/" + NAME + "/" + what);
    for (auto &x : xs) {
        MV q = ref::gp(x.m, x.m, rm); if (!(q == MV(q.scalar()))) continue;
        bool even = true; for (auto &t : x.m.c) if (ref::popc(t.first) & 1) even = false;
        if (!even) continue;
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + NAME + "/" + what + "/" + x.m.str(); }; };
        mc::state(mc::mix(mc::hash(NAME + what), mc::hash(x.m)));
        mc::eq(obs::see(exp(x.x)), ref::exp_series(x.m, rm, 120), key("exp"), TOL);
        bool scalar_ = !x.m.c.empty() && x.m.c.begin()->first == 0;
        if (!scalar_) mc::eq(obs::see(exp(x.x, 1)), std::fabs(q.scalar()) <= 1 ? MV(1) + x.m : ref::exp_series(x.m, rm, 120), key("exp1"), TOL);
    }
    mc::trace();
}
void group() {
    if constexpr (n >= 2) exps("biv", n <= 3 ? grid<full_kvector_t<double, n, 2 <= n ? 2 : 0>>(n, {-1, 0, 2}) : n == 4 ? grid<full_kvector_t<double, n, 2 <= n ? 2 : 0>>(n, {0, 1}) : basis<full_kvector_t<double, n, 2 <= n ? 2 : 0>>(n));
#if K != C_
    exps("dyn", blades<scaled_basis_blade_t<double, 0, n>>(n, {2, -1}));
#endif
    each_bits([&](auto v) { constexpr bitset_t V = decltype(v)::value; if constexpr (__builtin_popcountll(V) % 2 == 0 && __builtin_popcountll(V) <= 4) { exps("c" + std::to_string(V), blades<cblade<double, V>>(n, {2, -1, 0})); exps("k" + std::to_string(V), single(kblade<V, -2>())); } }, std::make_integer_sequence<bitset_t, (bitset_t(1) << (n < 4 ? n : 4))>());
    exps("top", blades<cblade<double, bitset_t(3) << (n >= 2 ? n - 2 : 0) & FULL>>(n, {2, -1}));
}
#elif GROUP == 16 // delta product, meet, join, plunge
template<typename A, typename B> void meets(std::string const &what, items<A> const &as, items<B> const &bs) {
    using namespace NS;
    mc::section("meet/" + NAME + "/" + what);
    ref::Metric em = ref::Metric::sig(n, 0, 0);
    auto clean = [](MV const &x) { return ref::clean(x, 1e-9L * std::max(Num(1), x.maxabs())); };
    for (auto &a : as) for (auto &b : bs) {
        if (a.m.zero() || b.m.zero()) continue;
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + NAME + "/" + what + "/" + a.m.str() + "," + b.m.str(); }; };
        mc::state(mc::mix(mc::hash(NAME + what), mc::mix(mc::hash(a.m), mc::hash(b.m))));
        mc::eq(obs::see(dp(a.x, b.x)), ref::dp(a.m, b.m, 1e-9L, rm), key("dp"));
        mc::eq(obs::see(dp(a.x, b.x, 1.5)), ref::dp(a.m, b.m, 1.5L, rm), key("dp tol"));
        mc::eq(obs::see(cp(a.x, b.x)), ref::cp(a.m, b.m, rm), key("cp"));
#ifdef JOINS // the operands are blades: the delta product of the Euclidean algebra gives the join and the meet
        MV d = ref::dp(a.m, b.m, 1e-9L, em); int gd = ref::largest_grade(d, 1e-9L), ga_ = ref::largest_grade(a.m, 0), gb = ref::largest_grade(b.m, 0), gj = (ga_ + gb + gd) / 2;
        MV M, J; std::tie(M, J) = [&] { auto r = meet_and_join(a.x, b.x); return std::make_pair(clean(obs::see(std::get<0>(r))), clean(obs::see(std::get<1>(r)))); }();
        auto only = [&](MV const &x, int k, char const *w) { mc::check(!x.zero() && ref::grade_part(x, k) == x, key(w), "expected grade " + std::to_string(k) + ", library: " + x.str()); };
        only(J, gj, "join grade"); only(M, ga_ + gb - gj, "meet grade");
        // containment: X ^ J and the like vanish on every factor, i.e. J J^-1 X = X for the vectors of X
        auto inside = [&](MV const &x, MV const &j) { return ref::near(ref::lcont(ref::lcont(x, ref::inv(j, em), em), j, em), x, 1e-8L * std::max(Num(1), x.maxabs())); };
        mc::check(inside(a.m, J) && inside(b.m, J), key("join contains"), J.str()); mc::check(inside(M, a.m) && inside(M, b.m), key("meet contained"), M.str());
        auto fm = fast_meet_and_join(a.x, b.x); MV FM = clean(obs::see(std::get<0>(fm))), FJ = clean(obs::see(std::get<1>(fm)));
        mc::check(ref::parallel(FM, M), key("fast meet"), FM.str() + " ; " + M.str()); mc::check(ref::parallel(FJ, J), key("fast join"), FJ.str() + " ; " + J.str()); mc::eq(clean(obs::see(fast_join(a.x, b.x))), FJ, key("fast_join"));
        auto tm = meet_and_join(a.x, b.x, 1e-6); mc::eq(clean(obs::see(std::get<1>(tm))), J, key("join tol")); auto tf = fast_meet_and_join(a.x, b.x, 1e-6); mc::eq(clean(obs::see(std::get<1>(tf))), FJ, key("fast join tol")); mc::eq(clean(obs::see(fast_join(a.x, b.x, 1e-6))), FJ, key("fast_join tol"));
#ifdef PLUNGES
        if (std::fabs(ref::norm2(J, rm)) > 1e-9L) {
            auto pl = [&](MV const &j) { return clean(ref::op(ref::dual(b.m, j, rm), ref::dual(a.m, j, rm))); };
            mc::eq(clean(obs::see(plunge(a.x, b.x))), pl(J), key("plunge"), 1e-8L); mc::eq(clean(obs::see(fast_plunge(a.x, b.x))), pl(FJ), key("fast plunge"), 1e-8L);
            mc::eq(clean(obs::see(plunge(a.x, b.x, 1e-6))), pl(J), key("plunge tol"), 1e-8L); mc::eq(clean(obs::see(fast_plunge(a.x, b.x, 1e-6))), pl(FJ), key("fast plunge tol"), 1e-8L);
        }
#endif
#endif
    }
    mc::trace();
}
void group() {
    auto vec = grid<full_vector_t<double, n>>(n, n <= 2 ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 1});
    meets("vec,vec", vec, vec);
#ifndef JOINS
    meets("vec,biv", vec, basis<full_kvector_t<int, n, 2 <= n ? 2 : 0>>(n)); if constexpr (n <= 2) meets("full,vec", basis<full_multivector_t<double, n>>(n), vec);
    meets("e1,vec", single(kblade<1, -3>()), vec);
#else
    items<full_kvector_t<double, n, 2 <= n ? 2 : 0>> biv; std::set<MV> seen;
    for (auto &a : vec) for (auto &b : vec) { MV w = n >= 2 ? ref::op(a.m, b.m) : MV(2); if (!w.zero() && seen.insert(w).second) biv.push_back({make<full_kvector_t<double, n, 2 <= n ? 2 : 0>>(w), w}); }
#ifdef BIV
    meets("vec,biv", vec, biv);
#endif
#endif
}
#endif

void declared() { // what the header declares: space, basis vectors, pseudoscalar, names
    using namespace NS;
    mc::section("declared/" + NAME);
    auto eqv = [&](auto const &x, MV const &m, char const *w) { mc::eq(obs::see(x), m, [&] { return "declared/" + NAME + "/" + w; }); };
    auto b = [](int i) { return MV::blade(Bits(1) << (i - 1)); };
    mc::same((int)decltype(space)::vector_space_dimensions, n, [&] { return "declared/" + NAME + "/dimensions"; });
    mc::same((std::uint64_t)decltype(space)::basis_vectors, (std::uint64_t)((Bits(1) << n) - 1), [&] { return "declared/" + NAME + "/basis_vectors"; });
    eqv(I, ref::pseudoscalar(n), "I"); eqv(pseudoscalar(), ref::pseudoscalar(n), "pseudoscalar()");
    eqv(_0, MV(0), "_0"); eqv(_1, MV(1), "_1"); eqv(_2, MV(2), "_2");
    eqv(e1, b(1), "e1");
    std::vector<std::string> names{"e1"};
    for (int i = 1; i <= n; ++i) eqv(e(i), b(i), "e(i)");
#if MC_D >= 2
    eqv(e2, b(2), "e2"); names.push_back("e2");
#endif
#if MC_D >= 3
    eqv(e3, b(3), "e3"); names.push_back("e3");
#endif
#if MC_D >= 4
    eqv(e4, b(4), "e4"); names.push_back("e4");
#endif
#if MC_D >= 5
    eqv(e5, b(5), "e5"); names.push_back("e5");
#endif
#if K == P_
    eqv(e0, b(n), "e0"); names.push_back("e0");
#elif K == H_
    eqv(ep, b(n), "ep"); names.push_back("ep");
#elif K == M_
    eqv(ep, b(n - 1), "ep"); eqv(em, b(n), "em");
    eqv(no, ref::scale(b(n), 0.5) - ref::scale(b(n - 1), 0.5), "no"); eqv(ni, b(n - 1) + b(n), "ni");
    names.push_back("ep"); names.push_back("em");
#elif K == C_
    eqv(no, b(n - 1), "no"); eqv(ni, b(n), "ni");
    eqv(ep, ref::scale(b(n), 0.5) - b(n - 1), "ep"); eqv(em, ref::scale(b(n), 0.5) + b(n - 1), "em");
    names.push_back("no"); names.push_back("ni");
#endif
#if K == H_
    eqv(Ie, ref::rcont(ref::pseudoscalar(n), b(n), rm), "Ie");
#elif K == M_ || K == C_
    eqv(Ie, MV::blade((Bits(1) << MC_D) - 1), "Ie");
#endif
    std::vector<std::string> got(basis_vectors_names.begin(), basis_vectors_names.end());
    mc::check(got == names, [&] { return "declared/" + NAME + "/names"; });
    // the metric of the space, by products of the basis vectors
    for (int i = 1; i <= n; ++i) for (int j = 1; j <= n; ++j) mc::eq(obs::see(gp(e(i), e(j))), ref::gp(b(i), b(j), rm), [&] { return "declared/" + NAME + "/e" + std::to_string(i) + "*e" + std::to_string(j); });
    mc::state(mc::hash(NAME)); mc::trace();
}

void explore() {
#ifdef GROUP
    group(); return;
#endif
#ifdef DECLARED
    declared();
#endif
    Ops2 o; (void)o;
#ifdef OPS
#define O(X) o.all<lib::X>();
    OPS
#undef O
#endif
}
