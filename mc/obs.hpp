// Observation of GATL values: turns any Clifford expression (or native number) into the reference representation.
// It walks the expression type itself and reads the stored values and bitsets in storage order; it does not call any
// GATL algorithm, so a defect in GATL's own iteration cannot hide another one.
#pragma once
#include "ref.hpp"
#include <type_traits>
#include <tuple>

namespace obs {

namespace gd = ga::detail;
using ref::MV; using ref::Num; using ref::Bits;

template<typename T, typename = void> struct number { static Num get(T const &v) { return static_cast<Num>(v); } };

// compile-time constant coefficients
template<typename E> struct konst;
template<ga::default_integral_t V> struct konst<gd::constant_value<V>> { static Num get() { return static_cast<Num>(V); } };
template<typename A, typename B> struct konst<gd::power<A, B>> {
    static Num get() {
        Num a = konst<A>::get(), b = konst<B>::get();
        Num third = b * 3;
        if (a < 0 && b != std::floor(b) && third == std::floor(third)) return (std::fmod(third, 2) != 0 ? -1 : 1) * std::pow(-a, b);
        return std::pow(a, b);
    }
};
template<typename... As> struct konst<gd::mul<As...>> { static Num get() { Num r = 1; (void)std::initializer_list<int>{(r *= konst<As>::get(), 0)...}; return r; } };
template<typename... As> struct konst<gd::add<As...>> { static Num get() { Num r = 0; (void)std::initializer_list<int>{(r += konst<As>::get(), 0)...}; return r; } };
template<typename E> struct konst { static Num get() { return static_cast<Num>(E::template eval<0, 0>(std::tuple<>{})); } };

inline long &bad_grades() { static long n = 0; return n; }

template<typename E> struct walk; // component, or a sum of components
template<typename C> struct coef {
    template<typename VI> static Num get(VI &) { return konst<C>::get(); }
};
template<> struct coef<gd::stored_value> {
    template<typename VI> static Num get(VI &it) { Num v = number<std::decay_t<decltype(*it)>>::get(*it); ++it; return v; }
};
template<typename B> struct base;
template<ga::bitset_t V> struct base<gd::constant_basis_blade<V>> {
    template<typename BI> static Bits get(BI &) { return (Bits)V; }
    static bool possible(int k) { return ref::popc((Bits)V) == k; }
};
template<ga::bitset_t G> struct base<gd::dynamic_basis_blade<G, gd::stored_bitset>> {
    template<typename BI> static Bits get(BI &it) { Bits b = (Bits)*it; ++it; return b; }
    static bool possible(int k) { return k >= 64 ? false : ((Bits)G >> k & 1); }
};
template<typename C, typename B> struct walk<gd::component<C, B>> {
    template<typename VI, typename BI> static void run(MV &r, VI &vi, BI &bi) {
        Num v = coef<C>::get(vi);
        Bits b = base<B>::get(bi);
        if (v != 0 && !base<B>::possible(ref::popc(b))) ++bad_grades();
        r.add(b, v);
        if (v != v) r.c[b] = v; // keep NaN visible
    }
};
template<typename... Cs> struct walk<gd::add<Cs...>> {
    template<typename VI, typename BI> static void run(MV &r, VI &vi, BI &bi) { (void)std::initializer_list<int>{(walk<Cs>::run(r, vi, bi), 0)...}; }
};

template<typename T, typename E> MV see(ga::clifford_expression<T, E> const &x) {
    MV r;
    auto vi = x.values().cbegin();
    auto bi = x.bitsets().cbegin();
    walk<E>::run(r, vi, bi);
    return r;
}
template<typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> MV see(T const &x) { return MV(static_cast<Num>(x)); }

// metrics seen through the public interface used by programs: products of basis vectors are compared with these
template<typename M> struct metric_of;

} // namespace obs
