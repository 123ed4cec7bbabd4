// Versors and squared norms: which operands are versors, which compile-time constants have a nonzero or negative square,
// and the complete sets of products of small integer vectors.
#pragma once
#include "zoo.hpp"
#include <set>
using namespace kinds;
using namespace ga;

inline bool versor(MV const &a, ref::Metric const &m, Num &n2) { // A ~A = ~A A = n2, a nonzero scalar
    MV p = ref::gp(a, ref::reverse(a), m); n2 = p.scalar();
    return n2 != 0 && p == MV(n2);
}
#ifdef MC_FLOAT // the default floating-point type is float
constexpr Num TOL = 1e-5L, FTOL = 1e-5L;
#else
constexpr Num TOL = 1e-12L, FTOL = 1e-5L;
#endif
template<typename X> struct coeff { using t = X; };
template<typename T, typename E> struct coeff<clifford_expression<T, E>> { using t = T; };

// compile-time constants: the sign of the squared norm decides which calls exist (others are refused at compile time)
template<typename E> struct knorm { static constexpr bool constant = false; static constexpr long get(int, int) { return 1; } };
template<default_integral_t C, bitset_t V> struct knorm<gd::component<gd::constant_value<C>, gd::constant_basis_blade<V>>> {
    static constexpr bool constant = true;
    static constexpr long get(int p, int q) { long s = C * C; for (int i = 0; i < (int)(8 * sizeof V); ++i) if (V >> i & 1) s *= i < p ? 1 : i < p + q ? -1 : 0; return s; }
};
template<bitset_t V> struct knorm<gd::component<gd::stored_value, gd::constant_basis_blade<V>>> { // the sign is known at compile time
    static constexpr bool constant = false;
    static constexpr long get(int p, int q) { return knorm<gd::component<gd::constant_value<1>, gd::constant_basis_blade<V>>>::get(p, q); }
};
template<typename... Cs> struct knorm<gd::add<Cs...>> {
    static constexpr bool constant = (knorm<Cs>::constant && ...);
    static constexpr long get(int p, int q) {
        if (constant) return (0 + ... + knorm<Cs>::get(p, q));
        if (((knorm<Cs>::get(p, q) > 0) || ...)) return 1;
        int neg = (0 + ... + (knorm<Cs>::get(p, q) < 0 ? 1 : 0));
        return neg == 0 ? 0 : neg == 1 ? -1 : 1; // one negative term: the square root is refused at compile time
    }
};
template<typename X> struct expr_of { using t = X; };
template<typename T, typename E> struct expr_of<clifford_expression<T, E>> { using t = E; };

// every product of up to `len` vectors with coefficients in vals
template<typename X> items<X> versors(int n, ref::Metric const &rm, std::vector<int> const &vals, int len, bool even_only) {
    std::vector<MV> vs; std::vector<std::size_t> ix(n, 0);
    for (;;) {
        MV m; for (int i = 0; i < n; ++i) m.add(Bits(1) << i, vals[ix[i]]);
        if (ref::norm2(m, rm) != 0) vs.push_back(m);
        int i = 0; for (; i < n; ++i) { if (++ix[i] < vals.size()) break; ix[i] = 0; }
        if (i == n) break;
    }
    std::set<MV> all{MV(1), MV(-2)}, last{MV(1)};
    for (int l = 1; l <= len; ++l) { std::set<MV> next; for (auto &a : last) for (auto &v : vs) next.insert(ref::gp(a, v, rm)); last = next; all.insert(next.begin(), next.end()); }
    items<X> r;
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
    for (auto &a : all) { bool fits = true; for (auto &t : a.c) if (std::find(bs.begin(), bs.end(), t.first) == bs.end()) fits = false; if (fits && (!even_only || ref::popc(a.c.begin()->first) % 2 == 0)) r.push_back({make<X>(a), a}); }
    return r;
}
