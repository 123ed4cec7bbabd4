// Bilinear products on signed metric spaces (C01 gp, C02 op, C03 lcont/rcont/dot/hip/sp/cp, C17 rp).
// PART selects the operand representations, SIGS the signatures, OPS the operations; everything below is enumerated
// completely: all pairs of operands of the listed finite sets.
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include <gatl/ga/model/homogeneous.hpp>
#include <gatl/ga/model/minkowski.hpp>
#include <gatl/ga/model/plane_based.hpp>
#include "kinds.hpp"

using namespace kinds;

MC_OP(gp) MC_OP(op) MC_OP(lcont) MC_OP(rcont) MC_OP(dot) MC_OP(hip) MC_OP(sp) MC_OP(cp) MC_OP(rp)

template<typename Op, typename A, typename B, typename M>
void pairs(std::string const &ka, items<A> const &as, std::string const &kb, items<B> const &bs, M const &m, Table const &tab, std::string const &sp) {
    mc::section(std::string(Op::name()) + "/" + sp + "/" + ka + "*" + kb);
    std::uint64_t ha = mc::hash(sp + ka), hb = mc::hash(sp + kb);
    for (auto &b : bs) mc::state(mc::mix(hb, mc::hash(b.m)));
    for (auto &a : as) {
        mc::state(mc::mix(ha, mc::hash(a.m)));
        for (auto &b : bs) {
            MV got = obs::see(Op::run(a.x, b.x, m));
            mc::eq(got, tab(a.m, b.m), [&] { return std::string(Op::name()) + "/" + sp + "/" + ka + "*" + kb + "/" + a.m.str() + "," + b.m.str(); });
        }
        mc::trace();
    }
}

// all pairs of compile-time blades (unit and scaled), all pairs of k-vector types, natives with everything
template<typename F, ga::bitset_t... V> void each_bits(F &&f, std::integer_sequence<ga::bitset_t, V...>) { (void)std::initializer_list<int>{(f(std::integral_constant<ga::bitset_t, V>()), 0)...}; }
template<typename T, ga::bitset_t V> using cblade = ga::clifford_expression<T, gd::component_t<gd::stored_value, gd::constant_basis_blade<V>>>;
template<ga::bitset_t V, ga::default_integral_t C> using kblade = ga::clifford_expression<ga::default_integral_t, gd::component_t<gd::constant_value<C>, gd::constant_basis_blade<V>>>;

template<typename Op, int P, int Q, int R, typename M>
void run_sig(M const &m, std::string const &sp) {
    constexpr int n = P + Q + R;
    ref::Metric rm = ref::Metric::sig(P, Q, R);
    Table tab(n, [&](MV const &a, MV const &b) { return Op::model(a, b, rm); });
    (void)m;
#if PART == 1 // run-time blades
    using DS = ga::scaled_basis_blade_t<int, 0, n>;
    using DU = ga::unit_basis_blade_t<0, n>;
    using DV = ga::unit_basis_vector_t;
    using SV = ga::scaled_basis_vector_t<long>;
    auto ds = blades<DS>(n, {2, -3}); auto dz = blades<DS>(n, {0, 1}); auto du = blades<DU>(n, {1});
    auto dv = blades<DV>(n, {1}); auto sv = blades<SV>(n, {-5});
    pairs<Op>("dyn", ds, "dyn", ds, m, tab, sp);
    pairs<Op>("dyn", dz, "udyn", du, m, tab, sp);
    pairs<Op>("udyn", du, "dyn", dz, m, tab, sp);
    pairs<Op>("uvec", dv, "dyn", ds, m, tab, sp);
    pairs<Op>("udyn", du, "svec", sv, m, tab, sp);
    if constexpr (n >= 2) { // blades of one fixed grade each
        auto d1 = blades<ga::scaled_basis_blade_t<int, 1, n - 1>>(n, {1});
        auto d2 = blades<ga::scaled_basis_blade_t<int, 2>>(n, {-1});
        pairs<Op>("dynmid", d1, "dyn2", d2, m, tab, sp);
        pairs<Op>("dyn2", d2, "dynmid", d1, m, tab, sp);
        pairs<Op>("dyn2", d2, "dyn2", d2, m, tab, sp);
    }
#elif PART == 2 // full multivectors
    using F = ga::full_multivector_t<long, n>;
    items<F> g;
    if constexpr (n <= 2) g = grid<F>(n, {-1, 0, 1});
    else if constexpr (n == 3) g = grid<F>(n, {0, 1});
    auto b = basis<F>(n);
    pairs<Op>("full", b, "full", b, m, tab, sp);
    if (!g.empty()) {
#ifdef GRID
        pairs<Op>("full", g, "full", g, m, tab, sp);
#else
        pairs<Op>("full", g, "full", b, m, tab, sp);
        pairs<Op>("full", b, "full", g, m, tab, sp);
#endif
    }
#elif PART == 3 // compile-time blades
    constexpr auto all = std::make_integer_sequence<ga::bitset_t, (ga::bitset_t(1) << n)>();
    each_bits([&](auto va) { each_bits([&](auto vb) {
        constexpr ga::bitset_t A = decltype(va)::value, B = decltype(vb)::value;
        std::string ka = "c" + std::to_string(A), kb = "c" + std::to_string(B);
        pairs<Op>(ka, blades<cblade<int, A>>(n, {2, 0}), kb, blades<cblade<int, B>>(n, {-3}), m, tab, sp);
        pairs<Op>("k" + ka, single(kblade<A, 2>()), "k" + kb, single(kblade<B, -3>()), m, tab, sp);
        if constexpr ((A + B) % 3 == 0) pairs<Op>("k" + ka, single(kblade<A, -1>()), "s" + kb, blades<cblade<double, B>>(n, {1, -7}), m, tab, sp);
    }, all); }, all);
#elif PART == 7 // spaces of many dimensions: all pairs of run-time blades, and fixed blades against all of them
    using DS = ga::scaled_basis_blade_t<int, 0, n>;
    constexpr ga::bitset_t I = (ga::bitset_t(1) << n) - 1;
    auto ds = blades<DS>(n, {2});
    pairs<Op>("dyn", ds, "dyn", ds, m, tab, sp);
    pairs<Op>("dynmid", blades<ga::scaled_basis_blade_t<double, 2, n - 2>>(n, {-1}), "udyn", blades<ga::unit_basis_blade_t<1, n - 1>>(n, {1}), m, tab, sp);
    constexpr std::integer_sequence<ga::bitset_t, ga::bitset_t(1) << (n - 1), 0x2a & I, 0x55 & I, 0x1e & I, I ^ 0x29, I> some{};
    each_bits([&](auto va) {
        constexpr ga::bitset_t A = decltype(va)::value; std::string ka = "c" + std::to_string(A);
        auto x = blades<cblade<int, A>>(n, {-3});
        pairs<Op>(ka, x, "dyn", ds, m, tab, sp);
        pairs<Op>("dyn", ds, "k" + ka, single(kblade<A, 5>()), m, tab, sp);
        each_bits([&](auto vb) {
            constexpr ga::bitset_t B = decltype(vb)::value; std::string kb = "c" + std::to_string(B);
            pairs<Op>(ka, x, kb, blades<cblade<double, B>>(n, {2}), m, tab, sp);
            pairs<Op>("k" + ka, single(kblade<A, 2>()), "k" + kb, single(kblade<B, -3>()), m, tab, sp);
        }, some);
    }, some);
#elif PART == 6 // k-vectors, and mixes of representations
    using F = ga::full_multivector_t<int, n>;
    auto full = basis<F>(n);
    auto dyn = blades<ga::scaled_basis_blade_t<long, 0, n>>(n, {-2});
    auto vec = grid<ga::full_kvector_t<int, n, 1>>(n, {-1, 0, 2});
    pairs<Op>("vec", vec, "vec", vec, m, tab, sp);
    pairs<Op>("vec", vec, "dyn", dyn, m, tab, sp);
    pairs<Op>("dyn", dyn, "vec", vec, m, tab, sp);
    pairs<Op>("full", full, "dyn", dyn, m, tab, sp);
    pairs<Op>("dyn", dyn, "full", full, m, tab, sp);
    if constexpr (n >= 2) {
        auto biv = grid<ga::full_kvector_t<double, n, 2>>(n, n <= 3 ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 1});
        pairs<Op>("vec", vec, "biv", biv, m, tab, sp);
        pairs<Op>("biv", biv, "vec", vec, m, tab, sp);
        pairs<Op>("biv", biv, "biv", biv, m, tab, sp);
        pairs<Op>("biv", biv, "full", full, m, tab, sp);
        pairs<Op>("full", full, "vec", vec, m, tab, sp);
        pairs<Op>("biv", biv, "dyn", dyn, m, tab, sp);
    }
    items<int> si; for (int v : {-2, 0, 1, 3}) si.push_back({v, MV(v)});
    items<double> sd; for (double v : {-0.5, 4.0}) sd.push_back({v, MV(v)});
    pairs<Op>("int", si, "dyn", dyn, m, tab, sp);
    pairs<Op>("dyn", dyn, "double", sd, m, tab, sp);
    pairs<Op>("full", full, "int", si, m, tab, sp);
    pairs<Op>("double", sd, "vec", vec, m, tab, sp);
    pairs<Op>("c3", single(ga::c<3>), "full", full, m, tab, sp);
    pairs<Op>("dyn", dyn, "c-2", single(ga::c<-2>), m, tab, sp);
#endif
}


#if PART == 4 // high indices: sparse boundary sets of basis vectors in spaces of up to 63 dimensions
template<typename Op, int P, int Q, int R>
void run_high() {
    constexpr int n = P + Q + R;
    ga::signed_metric_space<P, Q, R> m;
    ref::Metric rm = ref::Metric::sig(P, Q, R);
    std::string sp = sigkey(P, Q, R);
    std::vector<int> idx;
    for (int i : {1, 2, P, P + 1, P + Q, P + Q + 1, 8, 9, 16, 17, 31, 32, 33, n - 1, n}) if (i >= 1 && i <= n) idx.push_back(i - 1);
    std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end());
    // all blades of grade <= GRADES over the boundary indices, plus the (near-)pseudoscalars
    std::vector<Bits> bs{0};
    for (std::size_t lo = 0, g = 0; g < GRADES; ++g) { std::size_t hi = bs.size(); for (std::size_t k = lo; k < hi; ++k) for (int i : idx) if (bs[k] < (Bits(1) << i)) bs.push_back(bs[k] | Bits(1) << i); lo = hi; }
    Bits I = (Bits(1) << n) - 1;
    std::vector<Bits> big{I}; for (int i : idx) big.push_back(I & ~(Bits(1) << i));
    std::vector<Bits> all = bs; all.insert(all.end(), big.begin(), big.end());
    using DS = ga::scaled_basis_blade_t<int, 0, n>;
    mc::section(std::string(Op::name()) + "/high/" + sp);
    for (Bits a : all) for (Bits b : all) {
        DS x = make<DS>(MV::blade(a, 2)), y = make<DS>(MV::blade(b, -3));
        mc::state(mc::mix(mc::hash(sp), a));
        if (b == all.back()) mc::trace();
        mc::eq(obs::see(Op::run(x, y, m)), Op::model(MV::blade(a, 2), MV::blade(b, -3), rm), [&] { return std::string(Op::name()) + "/high/" + sp + "/" + MV::blade(a, 2).str() + "," + MV::blade(b, -3).str(); });
    }
    // every pair of basis vectors of the whole space
    for (int i = 1; i <= n; ++i) for (int j = 1; j <= n; ++j) {
        mc::state(mc::mix(mc::hash(sp + "v"), i));
        if (j == n) mc::trace();
        mc::eq(obs::see(Op::run(ga::e(i), ga::e(j), m)), Op::model(MV::blade(Bits(1) << (i - 1)), MV::blade(Bits(1) << (j - 1)), rm), [&] { return std::string(Op::name()) + "/high/" + sp + "/e" + std::to_string(i) + ",e" + std::to_string(j); });
    }
}
#endif

template<typename Op, int P, int Q, int R> void sig() {
#if PART == 4
    run_high<Op, P, Q, R>();
#else
    run_sig<Op, P, Q, R>(ga::signed_metric_space<P, Q, R>(), sigkey(P, Q, R));
#endif
}
template<int P, int Q, int R> void ops() {
#define O(X) sig<op_##X, P, Q, R>();
    OPS
#undef O
}
#if PART == 5 // the named model spaces are the signed spaces they are documented to be
template<int P, int Q, int R, typename M> void model_space(M const &m, std::string const &name) {
    constexpr int n = P + Q + R;
    ref::Metric rm = ref::Metric::sig(P, Q, R);
    auto ds = blades<ga::scaled_basis_blade_t<int, 0, n>>(n, {2, -3});
#define O(X) { Table tab(n, [&](MV const &a, MV const &b) { return op_##X::model(a, b, rm); }); pairs<op_##X>("dyn", ds, "dyn", ds, m, tab, name); }
    OPS
#undef O
}
template<int... D> void models(std::integer_sequence<int, D...>) {
    (void)std::initializer_list<int>{(
        model_space<D + 1, 0, 0>(ga::euclidean_metric_space<D + 1>(), "euclidean" + std::to_string(D + 1)),
        model_space<D + 2, 0, 0>(ga::homogeneous_metric_space<D + 1>(), "homogeneous" + std::to_string(D + 1)),
        model_space<D + 1, 0, 1>(ga::plane_based_metric_space<D + 1>(), "plane_based" + std::to_string(D + 1)),
        model_space<D + 2, 1, 0>(ga::minkowski_metric_space<D + 1>(), "minkowski" + std::to_string(D + 1)), 0)...};
}
#endif

void explore() {
#if PART == 5
    models(std::make_integer_sequence<int, 3>());
#else
#define S(p, q, r) ops<p, q, r>();
    SIGS
#endif
}
