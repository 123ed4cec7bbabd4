// Every way a multivector of an n-dimensional space can be held: zoo<n>(f) calls f(name, items) for each representation,
// with a finite, completely enumerated set of values each.
#pragma once
#include "kinds.hpp"

namespace kinds {

template<typename F, ga::bitset_t... V> void each_bits(F &&f, std::integer_sequence<ga::bitset_t, V...>) { (void)std::initializer_list<int>{(f(std::integral_constant<ga::bitset_t, V>()), 0)...}; }
template<typename F, int... V> void each_int(F &&f, std::integer_sequence<int, V...>) { (void)std::initializer_list<int>{(f(std::integral_constant<int, V>()), 0)...}; }
template<typename T, ga::bitset_t V> using cblade = ga::clifford_expression<T, gd::component_t<gd::stored_value, gd::constant_basis_blade<V>>>;
template<ga::bitset_t V, ga::default_integral_t C> using kblade = ga::clifford_expression<ga::default_integral_t, gd::component_t<gd::constant_value<C>, gd::constant_basis_blade<V>>>;

template<typename T> items<T> natives(std::initializer_list<T> l) { items<T> r; for (T v : l) r.push_back({v, MV((Num)v)}); return r; }
inline auto scalars() { items<decltype(ga::scalar(1.5))> r; for (double v : {-1.5, 2.0, 0.0}) r.push_back({ga::scalar(v), MV(v)}); return r; }

enum { Z_FULL = 1, Z_KVEC = 2, Z_DYN = 4, Z_CONST = 8, Z_NATIVE = 16, Z_MIX = 32, Z_GRID = 64, Z_ALL = 63 };

template<int n, int mask, typename F> void zoo(F &&f) {
    if constexpr ((mask & Z_FULL) != 0) {
        f("full", basis<ga::full_multivector_t<int, n>>(n));
        f("fulld", basis<ga::full_multivector_t<double, n>>(n));
        if constexpr ((mask & Z_GRID) != 0 && n <= 3) f("fullgrid", grid<ga::full_multivector_t<long, n>>(n, n <= 2 ? std::vector<int>{-1, 0, 1, 3} : std::vector<int>{-1, 0, 1}));
    }
    if constexpr ((mask & Z_KVEC) != 0) {
        each_int([&](auto k) { constexpr int G = decltype(k)::value; f(std::string("kvec") + std::to_string(G), basis<ga::full_kvector_t<int, n, G>>(n)); }, std::make_integer_sequence<int, n + 1>());
        f("vecgrid", grid<ga::full_vector_t<float, n>>(n, {-2, 0, 1}));
    }
    if constexpr ((mask & Z_DYN) != 0) {
        f("dyn", blades<ga::scaled_basis_blade_t<int, 0, n>>(n, {2, -3, 0}));
        f("dynd", blades<ga::scaled_basis_blade_t<double, 0, n>>(n, {1, -5}));
        f("udyn", blades<ga::unit_basis_blade_t<0, n>>(n, {1}));
        each_int([&](auto k) { constexpr int G = decltype(k)::value; f(std::string("dyn") + std::to_string(G), blades<ga::scaled_basis_blade_t<int, G>>(n, {1, -2})); }, std::make_integer_sequence<int, n + 1>());
        f("uvec", blades<ga::unit_basis_vector_t>(n, {1}));
        f("svec", blades<ga::scaled_basis_vector_t<long>>(n, {-5}));
        if constexpr (n >= 2) f("dynmid", blades<ga::scaled_basis_blade_t<float, 1, n - 1>>(n, {3}));
    }
    if constexpr ((mask & Z_CONST) != 0) {
        each_bits([&](auto v) {
            constexpr ga::bitset_t V = decltype(v)::value;
            f("c" + std::to_string(V), blades<cblade<int, V>>(n, {2, 0, -1}));
            f("k" + std::to_string(V), single(kblade<V, 3>()));
            f("kn" + std::to_string(V), single(kblade<V, -1>()));
        }, std::make_integer_sequence<ga::bitset_t, (ga::bitset_t(1) << n)>());
    }
    if constexpr ((mask & Z_NATIVE) != 0) {
        f("int", natives<int>({-2, 0, 1, 5}));
        f("double", natives<double>({-0.5, 4.0}));
        f("scalar", scalars());
        f("c0", single(ga::c<0>));
        f("c-4", single(ga::c<-4>));
    }
    if constexpr ((mask & Z_MIX) != 0) { // sums of different representations
        auto v = basis<ga::full_kvector_t<int, n, 1>>(n);
        auto d = blades<ga::scaled_basis_blade_t<int, 0, n>>(n, {2});
        using VD = decltype(v[0].x + d[0].x);
        items<std::decay_t<VD>> vd;
        for (auto &a : v) for (auto &b : d) vd.push_back({a.x + b.x, a.m + b.m});
        f("vec+dyn", vd);
        using KD = decltype(kblade<1, 2>() + d[0].x);
        items<std::decay_t<KD>> kd;
        for (auto &b : d) kd.push_back({kblade<1, 2>() + b.x, MV::blade(1, 2) + b.m});
        f("k+dyn", kd);
        if constexpr (n >= 2) {
            auto e = blades<ga::scaled_basis_blade_t<int, 1, 2>>(n, {-1});
            using DD = decltype(d[0].x + e[0].x);
            items<std::decay_t<DD>> dd;
            for (auto &a : d) for (auto &b : e) dd.push_back({a.x + b.x, a.m + b.m});
            f("dyn+dyn", dd);
            f("k+c", single(kblade<1, 2>() + kblade<3, -3>() + kblade<0, 7>()));
        }
    }
}

} // namespace kinds
