// C04: products on spaces with arbitrary symmetric metric matrices and on conformal spaces.
// METRICS is a list of G(n, row-major entries...); OPS the operations; PART selects operand representations.
#include <gatl/ga.hpp>
#include <gatl/ga/model/general.hpp>
#include <gatl/ga/model/conformal.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "kinds.hpp"

using namespace kinds;

MC_OP(gp) MC_OP(op) MC_OP(lcont) MC_OP(rcont) MC_OP(dot) MC_OP(hip) MC_OP(sp) MC_OP(cp) MC_OP(rp)

template<typename Op, typename A, typename B, typename M>
void pairs(std::string const &ka, items<A> const &as, std::string const &kb, items<B> const &bs, M const &m, Table const &tab, std::string const &sp) {
    mc::section(std::string(Op::name()) + "/" + sp + "/" + ka + "*" + kb);
    std::uint64_t ha = mc::hash(sp + ka), hb = mc::hash(sp + kb);
    for (auto &b : bs) mc::state(mc::mix(hb, mc::hash(b.m)));
    for (auto &a : as) {
        mc::state(mc::mix(ha, mc::hash(a.m)));
        for (auto &b : bs) {
            MV got = obs::see(Op::run(a.x, b.x, m));
            mc::eq(got, tab(a.m, b.m), [&] { return std::string(Op::name()) + "/" + sp + "/" + ka + "*" + kb + "/" + a.m.str() + "," + b.m.str(); });
        }
        mc::trace();
    }
}
template<typename F, ga::bitset_t... V> void each_bits(F &&f, std::integer_sequence<ga::bitset_t, V...>) { (void)std::initializer_list<int>{(f(std::integral_constant<ga::bitset_t, V>()), 0)...}; }
template<typename T, ga::bitset_t V> using cblade = ga::clifford_expression<T, gd::component_t<gd::stored_value, gd::constant_basis_blade<V>>>;
template<ga::bitset_t V, ga::default_integral_t C> using kblade = ga::clifford_expression<ga::default_integral_t, gd::component_t<gd::constant_value<C>, gd::constant_basis_blade<V>>>;

// the model's product is associative and satisfies ab + ba = 2 M(a,b) for this metric (sanity of the oracle)
inline void check_model_metric(ref::Metric const &rm) {
    for (int i = 0; i < rm.n; ++i) {
        MV a = MV::blade(Bits(1) << i);
        for (int j = 0; j < rm.n; ++j) {
            MV b = MV::blade(Bits(1) << j);
            if (!(ref::gp(a, b, rm) + ref::gp(b, a, rm) == MV(2 * rm(i, j)))) { std::fprintf(stderr, "reference model inconsistent\n"); std::exit(9); }
        }
        if (rm.n <= 4)
            for (Bits x = 0; x < (Bits(1) << rm.n); ++x) for (Bits y = 0; y < (Bits(1) << rm.n); ++y) {
                MV X = MV::blade(x), Y = MV::blade(y);
                if (!(ref::gp(ref::gp(a, X, rm), Y, rm) == ref::gp(a, ref::gp(X, Y, rm), rm))) { std::fprintf(stderr, "reference model inconsistent\n"); std::exit(9); }
            }
    }
}

template<typename Op, int n, typename M> void run(M const &m, ref::Metric const &rm, std::string const &sp) {
    Table tab(n, [&](MV const &a, MV const &b) { return Op::model(a, b, rm); });
#if PART == 1 // full multivectors
    using F = ga::full_multivector_t<long, n>;
    auto b = basis<F>(n);
    pairs<Op>("full", b, "full", b, m, tab, sp);
    if constexpr (n <= 2) { auto g = grid<F>(n, {-1, 0, 1}); pairs<Op>("full", g, "full", g, m, tab, sp); }
#elif PART == 2 // compile-time blades
    constexpr auto all = std::make_integer_sequence<ga::bitset_t, (ga::bitset_t(1) << n)>();
    each_bits([&](auto va) { each_bits([&](auto vb) {
        constexpr ga::bitset_t A = decltype(va)::value, B = decltype(vb)::value;
        std::string ka = "c" + std::to_string(A), kb = "c" + std::to_string(B);
        pairs<Op>(ka, blades<cblade<int, A>>(n, {2, 0}), kb, blades<cblade<int, B>>(n, {-3}), m, tab, sp);
        pairs<Op>("k" + ka, single(kblade<A, 2>()), "k" + kb, single(kblade<B, -3>()), m, tab, sp);
    }, all); }, all);
#elif PART == 3 // vectors and k-vectors
    auto vec = grid<ga::full_kvector_t<int, n, 1>>(n, {-1, 0, 2});
    pairs<Op>("vec", vec, "vec", vec, m, tab, sp);
    if constexpr (n >= 2) {
        auto biv = basis<ga::full_kvector_t<double, n, 2>>(n);
        pairs<Op>("vec", vec, "biv", biv, m, tab, sp);
        pairs<Op>("biv", biv, "vec", vec, m, tab, sp);
        pairs<Op>("biv", biv, "biv", biv, m, tab, sp);
    }
    items<int> si; for (int v : {-2, 0, 1, 3}) si.push_back({v, MV(v)});
    pairs<Op>("int", si, "vec", vec, m, tab, sp);
    pairs<Op>("vec", vec, "int", si, m, tab, sp);
#elif PART == 4 // run-time blades
    auto d01 = blades<ga::scaled_basis_blade_t<int, 0, 1>>(n, {2, -1});
    auto d12 = blades<ga::scaled_basis_blade_t<int, 1, 2>>(n, {2, -1});
    auto dv = blades<ga::scaled_basis_blade_t<int, 1>>(n, {3});
    auto d2 = blades<ga::scaled_basis_blade_t<int, 2>>(n, {1});
    pairs<Op>("dynv", dv, "dynv", dv, m, tab, sp);
    pairs<Op>("dynv", dv, "dyn2", d2, m, tab, sp);
    pairs<Op>("dyn2", d2, "dyn2", d2, m, tab, sp);
    pairs<Op>("dyn2", d2, "dynv", dv, m, tab, sp);
    pairs<Op>("dyn01", d01, "dyn01", d01, m, tab, sp);
    pairs<Op>("dyn01", d01, "dyn12", d12, m, tab, sp);
#elif PART == 6 // run-time blades of undetermined grade
    auto d12 = blades<ga::scaled_basis_blade_t<int, 1, 2>>(n, {2, -1});
    pairs<Op>("dyn12", d12, "dyn12", d12, m, tab, sp);
#elif PART == 5 // a diagonal matrix against the signed space with that signature, through the library itself
#endif
}

template<int N, ga::default_integral_t... V> void G_() {
    static_assert(sizeof...(V) == N * N, "entries");
    ref::Metric rm = ref::Metric::of(N, {V...});
    check_model_metric(rm);
    std::string sp = "g"; (void)std::initializer_list<int>{(sp += "," + std::to_string(V), 0)...};
    ga::constant_general_metric_space_t<V...> m;
#define O(X) run<op_##X, N>(m, rm, sp);
    OPS
#undef O
}
template<int D> void C_() {
    ref::Metric rm = ref::Metric::conformal(D);
    check_model_metric(rm);
    ga::conformal_metric_space<D> m;
#define O(X) run<op_##X, D + 2>(m, rm, "conformal" + std::to_string(D));
    OPS
#undef O
}

void explore() {
#define G(...) G_<__VA_ARGS__>();
#define C(D) C_<D>();
    METRICS
}
