// Operand kinds: the ways a multivector can be held, each with a finite, completely enumerated set of values.
#pragma once
#include "mc.hpp"
#include "obs.hpp"
#include <type_traits>
#include <utility>

namespace kinds {

namespace gd = ga::detail;
using ref::MV; using ref::Num; using ref::Bits;

// ---- writing a reference multivector into the stored entries of an expression
template<typename E> struct fill;
template<ga::bitset_t V> struct fill<gd::component<gd::stored_value, gd::constant_basis_blade<V>>> {
    template<typename VI, typename BI> static void run(MV const &m, VI &vi, BI &) { *vi = (std::decay_t<decltype(*vi)>)m[(Bits)V]; ++vi; }
};
template<typename C, ga::bitset_t V> struct fill<gd::component<C, gd::constant_basis_blade<V>>> {
    template<typename VI, typename BI> static void run(MV const &, VI &, BI &) {}
};
template<ga::bitset_t G> struct fill<gd::component<gd::stored_value, gd::dynamic_basis_blade<G, gd::stored_bitset>>> {
    template<typename VI, typename BI> static void run(MV const &m, VI &vi, BI &bi) {
        Bits low = 0; Num v = 0;
        if (m.c.empty()) { int k = 0; while (!((Bits)G >> k & 1)) ++k; low = (Bits(1) << k) - 1; }
        else { low = m.c.begin()->first; v = m.c.begin()->second; }
        *vi = (std::decay_t<decltype(*vi)>)v; ++vi;
        *bi = (ga::bitset_t)low; ++bi;
    }
};
template<typename C, ga::bitset_t G> struct fill<gd::component<C, gd::dynamic_basis_blade<G, gd::stored_bitset>>> {
    template<typename VI, typename BI> static void run(MV const &m, VI &, BI &bi) { *bi = (ga::bitset_t)m.c.begin()->first; ++bi; }
};
template<typename... Cs> struct fill<gd::add<Cs...>> {
    template<typename VI, typename BI> static void run(MV const &m, VI &vi, BI &bi) { (void)std::initializer_list<int>{(fill<Cs>::run(m, vi, bi), 0)...}; }
};
template<typename T, typename E> void put(ga::clifford_expression<T, E> &x, MV const &m) {
    auto vi = x.values().begin(); auto bi = x.bitsets().begin();
    fill<E>::run(m, vi, bi);
}
template<typename X> X make(MV const &m) { X x; put(x, m); return x; }

// ---- basis blades representable by an expression
template<typename E> struct blades_of;
template<typename C, ga::bitset_t V> struct blades_of<gd::component<C, gd::constant_basis_blade<V>>> { static void run(std::vector<Bits> &r, int) { r.push_back((Bits)V); } };
template<typename C, ga::bitset_t G> struct blades_of<gd::component<C, gd::dynamic_basis_blade<G, gd::stored_bitset>>> {
    static void run(std::vector<Bits> &r, int n) { for (Bits b = 0; b < (Bits(1) << n); ++b) if ((Bits)G >> ref::popc(b) & 1) r.push_back(b); }
};
template<typename... Cs> struct blades_of<gd::add<Cs...>> { static void run(std::vector<Bits> &r, int n) { (void)std::initializer_list<int>{(blades_of<Cs>::run(r, n), 0)...}; } };

template<typename X> struct item { X x; MV m; };
template<typename X> using items = std::vector<item<X>>;

// single-component types: every representable blade with every coefficient in vals
template<typename X> items<X> blades(int n, std::vector<int> const &vals) {
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
    items<X> r;
    for (Bits b : bs) for (int v : vals) { MV m = MV::blade(b, v); X x; put(x, v == 0 ? MV() : m); MV o = obs::see(x); r.push_back({x, o}); }
    return r;
}
// many-component types: every tuple of coefficients from vals
template<typename X> items<X> grid(int n, std::vector<int> const &vals) {
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
    items<X> r;
    std::vector<std::size_t> ix(bs.size(), 0);
    for (;;) {
        MV m; for (std::size_t i = 0; i < bs.size(); ++i) m.add(bs[i], vals[ix[i]]);
        X x; put(x, m); r.push_back({x, m});
        std::size_t i = 0;
        for (; i < ix.size(); ++i) { if (++ix[i] < vals.size()) break; ix[i] = 0; }
        if (i == ix.size()) break;
    }
    return r;
}
// one nonzero coefficient at a time, plus all-distinct values
template<typename X> items<X> basis(int n) {
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
    items<X> r;
    static const int pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131};
    for (Bits b : bs) { MV m = MV::blade(b, 1); X x; put(x, m); r.push_back({x, m}); }
    MV m; for (std::size_t i = 0; i < bs.size(); ++i) m.add(bs[i], (i & 1 ? -1 : 1) * pr[i % 32]);
    X x; put(x, m); r.push_back({x, m});
    return r;
}
template<typename X> items<X> single(X const &x) { return {{x, obs::see(x)}}; }

inline std::string sigkey(int p, int q, int r) { return std::to_string(p) + "." + std::to_string(q) + "." + std::to_string(r); }

// structure constants of a bilinear operation of the model, for dense comparison
struct Table {
    int n; std::size_t N; std::vector<std::vector<std::pair<Bits, Num>>> t;
    template<typename Op> Table(int n_, Op op) : n(n_), N(std::size_t(1) << n_), t(N * N) {
        for (Bits a = 0; a < N; ++a) for (Bits b = 0; b < N; ++b) { MV r = op(MV::blade(a), MV::blade(b)); t[a * N + b].assign(r.c.begin(), r.c.end()); }
    }
    MV operator()(MV const &a, MV const &b) const {
        if (a.c.size() * b.c.size() <= 4) {
            MV r;
            for (auto &x : a.c) for (auto &y : b.c) for (auto &z : t[x.first * N + y.first]) r.add(z.first, x.second * y.second * z.second);
            return r;
        }
        std::vector<Num> v(N, 0);
        for (auto &x : a.c) for (auto &y : b.c) for (auto &z : t[x.first * N + y.first]) v[z.first] += x.second * y.second * z.second;
        MV r; for (Bits i = 0; i < N; ++i) if (v[i] != 0) r.c.emplace_hint(r.c.end(), i, v[i]);
        return r;
    }
};

// operations: name, library call, model call
#define MC_OP(NAME) struct op_##NAME { static char const *name() { return #NAME; } \
    template<typename A, typename B, typename M> static auto run(A const &a, B const &b, M const &m) { return ga::NAME(a, b, m); } \
    static MV model(MV const &a, MV const &b, ref::Metric const &m) { return ref::NAME(a, b, m); } };

} // namespace kinds
