// C18, C19: the same objects as a user writes them - outer products of library points, constant and run-time basis
// blades - so that the parameter functions meet expressions with constants, natives, run-time blades and partial grades.
// MODEL 2 homogeneous, 4 Minkowski, 5 conformal (MC_D base dimensions); PARTS: S(shape) list; COORD: K(kind) list.
#include <gatl/ga.hpp>
#include <gatl/ga/model/homogeneous.hpp>
#include <gatl/ga/model/minkowski.hpp>
#include <gatl/ga/model/conformal.hpp>
#include "zoo.hpp"
using namespace kinds;
using mc::MV; using mc::Num;
constexpr int D = MC_D;
#if MODEL == 2
constexpr int n = D + 1; using Mtr = ga::homogeneous_metric_space<D>; static ref::Metric const rm = ref::Metric::sig(n, 0, 0);
#elif MODEL == 4
constexpr int n = D + 2; using Mtr = ga::minkowski_metric_space<D>; static ref::Metric const rm = ref::Metric::sig(D + 1, 1, 0);
#else
constexpr int n = D + 2; using Mtr = ga::conformal_metric_space<D>; static ref::Metric const rm = ref::Metric::conformal(D);
#endif
static const Mtr mtr;
static const std::string SP = std::string(1, "ehhpmc"[MODEL]) + std::to_string(D);
const Num TOL = 1e-9L;
// base of the model, in the reference algebra
inline MV A_() { return MV::blade(Bits(1) << D); } inline MV B_() { return MV::blade(Bits(1) << (D + 1)); }
#if MODEL == 2
inline MV point_of(MV const &p) { return A_() + p; }
#else
inline MV no_() { return MODEL == 5 ? A_() : ref::scale(B_() - A_(), 0.5L); } inline MV ni_() { return MODEL == 5 ? B_() : A_() + B_(); }
inline MV point_of(MV const &p) { return no_() + p + ref::scale(ni_(), ref::gp(p, p, rm).scalar() / 2); }
#endif
template<typename T> inline auto W(T const &x) { return x; }
template<typename X, typename Y, typename... R> inline auto W(X const &x, Y const &y, R const &...r) { return W(ga::op(x, y, mtr), r...); }
inline MV V(Num a, Num b = 0) { MV r; r.add(1, a); if (D > 1) r.add(2, b); return r; }

template<int kind, typename X> void judge(std::string const &name, X const &x, MV const &E, MV const &p, int s, Num rr) { // kind: 1 flat, 2 round, 3 tangent, +4 dual
    (void)rr; (void)s;
    MV seen = obs::see(x);
    mc::state(mc::mix(mc::hash(SP + name), mc::hash(seen))); mc::trace();
    mc::section(SP + "/" + name);
    auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + SP + "/" + name + "/" + seen.str(); }; };
    (void)key; MV Einv = E == MV(1) ? E : ref::inv(E, rm);
    MV closest = E == MV(1) ? p : p - ref::gp(ref::lcont(p, E, rm), Einv, rm);
#if MODEL == 2
    MV X0 = ref::scale(ref::op(point_of(p), E), s);
    if (!mc::eq(seen, X0, key("construction"), TOL)) return;
    mc::eq(obs::see(ga::flat_direction(x, mtr)), ref::scale(E, s), key("flat direction"), TOL);
    mc::eq(obs::see(ga::flat_moment(x, mtr)), ref::scale(ref::op(p, E), s), key("flat moment"), TOL);
    mc::eq(obs::see(ga::flat_support_vector(x, mtr)), closest, key("flat support vector"), TOL);
    mc::eq(obs::see(ga::flat_unit_support_point(x, mtr)), A_() + closest, key("flat unit support point"), TOL);
    MV t = V(2, -1);
    auto tv = 
#if MC_D == 3
        ga::euclidean_vector(mtr, 2, -1.0, ga::c<0>)
#else
        ga::euclidean_vector(mtr, 2, -1.0)
#endif
        ;
    mc::eq(obs::see(ga::translate(tv, x, mtr)), ref::scale(ref::op(point_of(p + t), E), s), key("translate"), TOL);
#else
    MV ni = ni_(), En = ref::op(E, ni), T = MV(1) - ref::scale(ref::op(p, ni), 0.5L);
    MV X0 = (kind & 3) == 1 ? ref::op(ref::op(point_of(p), E), ni) : ref::gp(ref::gp(T, ref::op(no_() + ref::scale(ni, rr / 2), E), rm), ref::reverse(T), rm);
    X0 = ref::scale(X0, s);
    MV I = ref::pseudoscalar(n);
    if (kind & 4) X0 = ref::dual(X0, I, rm);
    if (!mc::eq(seen, X0, key("construction"), TOL)) return;
    MV flatloc = no_() + closest + ref::scale(ni, ref::gp(closest, closest, rm).scalar());
    if constexpr (kind == 1) {
        mc::eq(obs::see(ga::primal_flat_direction(x, mtr)), ref::scale(En, s), key("primal flat direction"), TOL);
        mc::eq(obs::see(ga::primal_flat_location(x, mtr)), flatloc, key("primal flat location"), TOL);
    }
    else if constexpr (kind == 5) {
        mc::eq(obs::see(ga::dual_flat_direction(x, mtr)), ref::scale(En, s), key("dual flat direction"), TOL);
        mc::eq(obs::see(ga::dual_flat_location(x, mtr)), flatloc, key("dual flat location"), TOL);
    }
    else if constexpr (kind == 2) {
        mc::eq(obs::see(ga::primal_round_direction(x, mtr)), ref::scale(En, s), key("primal round direction"), TOL);
        mc::eq(obs::see(ga::primal_round_location(x, mtr)), point_of(p), key("primal round location"), TOL);
        mc::eq(obs::see(ga::primal_round_size_sqr(x, mtr)), MV(rr), key("primal round size"), TOL);
    }
    else if constexpr (kind == 6) {
        mc::eq(obs::see(ga::dual_round_direction(x, mtr)), ref::scale(En, s), key("dual round direction"), TOL);
        mc::eq(obs::see(ga::dual_round_location(x, mtr)), point_of(p), key("dual round location"), TOL);
        mc::eq(obs::see(ga::dual_round_size_sqr(x, mtr)), MV(rr), key("dual round size"), TOL);
    }
    else if constexpr (kind == 3) {
        mc::eq(obs::see(ga::primal_tangent_direction(x, mtr)), ref::scale(En, s), key("primal tangent direction"), TOL);
        mc::eq(obs::see(ga::primal_tangent_location(x, mtr)), point_of(p), key("primal tangent location"), TOL);
        mc::eq(obs::see(ga::primal_round_size_sqr(x, mtr)), MV(0), key("primal tangent size"), TOL);
    }
    else {
        mc::eq(obs::see(ga::dual_tangent_direction(x, mtr)), ref::scale(En, s), key("dual tangent direction"), TOL);
        mc::eq(obs::see(ga::dual_tangent_location(x, mtr)), point_of(p), key("dual tangent location"), TOL);
        mc::eq(obs::see(ga::dual_round_size_sqr(x, mtr)), MV(0), key("dual tangent size"), TOL);
    }
#endif
}

// the coordinates (a, b) of a kind of coordinate: all pairs over {-1, 0, 2}
template<typename F> void all_pairs(F &&f) { for (int a : {-1, 0, 2}) for (int b : {-1, 0, 2}) f(a, b); }
#if MC_D == 1
#define PT(x, y) ga::point(mtr, x)
#elif MC_D == 3
#define PT(x, y) ga::point(mtr, x, y, ga::c<0>)
#else
#define PT(x, y) ga::point(mtr, x, y)
#endif
struct Int { static constexpr char const *name = "int"; template<typename F> static void each(F &&f) { all_pairs([&](int a, int b) { f(PT(a, b), a, b); }); } };
struct Dbl { static constexpr char const *name = "double"; template<typename F> static void each(F &&f) { all_pairs([&](double a, double b) { f(PT(a, b), a, b); }); } };
struct Mix { static constexpr char const *name = "mixed"; template<typename F> static void each(F &&f) { for (int a : {-1, 0, 2}) f(PT(a, ga::c<-1>), a, -1); } };
struct Sca { static constexpr char const *name = "scalar"; template<typename F> static void each(F &&f) { for (double a : {-1.0, 0.0, 2.0}) f(PT(ga::scalar(a), ga::scalar(-1)), a, -1); } };
struct Con { static constexpr char const *name = "constant"; template<typename F> static void each(F &&f) { f(PT(ga::c<2>, ga::c<-1>), 2, -1); f(PT(ga::c<-1>, ga::c<1>), -1, 1); } };
struct Org { static constexpr char const *name = "origin"; template<typename F> static void each(F &&f) { f(PT(ga::c<0>, ga::c<0>), 0, 0); } };

constexpr auto E1 = ga::e(ga::c<1>); constexpr auto E2 = ga::e(ga::c<2>);
#if MODEL == 5
constexpr auto NO = ga::e(ga::c<D + 1>); constexpr auto NI = ga::e(ga::c<D + 2>);
#elif MODEL == 4
constexpr auto NI = ga::e(ga::c<D + 1>) + ga::e(ga::c<D + 2>); const auto NO = (ga::e(ga::c<D + 2>) - ga::e(ga::c<D + 1>)) / 2;
#endif
template<typename K> struct S_ {
    static std::string nm(char const *w) { return std::string(w) + " " + K::name; }
#if MODEL == 2
    static void points() { K::each([](auto const &P, int a, int b) { judge<1>(nm("P"), P, MV(1), V(a, b), 1, 0); judge<1>(nm("-2P"), -2 * P, MV(1), V(a, b), -2, 0); judge<1>(nm("c<3>P"), ga::c<3> * P, MV(1), V(a, b), 3, 0); }); }
    static void lines() { K::each([](auto const &P, int a, int b) {
        judge<1>(nm("P^e1"), W(P, E1), MV::blade(1), V(a, b), 1, 0);
        if constexpr (D > 1) { judge<1>(nm("P^(e1-e2)"), W(P, E1 - E2), V(1, -1), V(a, b), 1, 0);
        for (int i : {1, 2}) judge<1>(nm("P^e(i)"), W(P, 
#if MC_D == 3
            ga::euclidean_vector(mtr, i == 1 ? 1 : 0, i == 2 ? 1 : 0, ga::c<0>)
#else
            ga::euclidean_vector(mtr, i == 1 ? 1 : 0, i == 2 ? 1 : 0)
#endif
            ), MV::blade(Bits(i)), V(a, b), 1, 0); }
        for (int c : {-1, 3}) { auto Q = PT(c, 1.0); if (V(a, b) == V(c, 1)) continue; judge<1>(nm("P^Q"), W(P, Q), V(c, 1) - V(a, b), V(a, b), 1, 0); } }); }
    static void planes() { if constexpr (D > 1) K::each([](auto const &P, int a, int b) { judge<1>(nm("P^e1^e2"), W(P, E1, E2), MV::blade(3), V(a, b), 1, 0); if (a != 3) judge<1>(nm("P^Q^e2"), W(P, PT(3, b), E2), MV::blade(3, 3 - a), V(a, b), 1, 0); }); }
#else
    static auto I() { return ga::pseudoscalar(mtr); }
    template<int kind, typename X> static void both(char const *w, X const &x, MV const &E, MV const &p, int s, Num rr) { 
#ifndef DUAL
        judge<kind>(nm(w), x, E, p, s, rr);
#else
        judge<kind | 4>("dual " + nm(w), ga::dual(x, I(), mtr), E, p, s, rr);
#endif
    }
    static void flat0() { K::each([](auto const &P, int a, int b) { both<1>("P^ni", W(P, NI), MV(1), V(a, b), 1, 0); both<1>("c<-2>*P^ni", ga::c<-2> * W(P, NI), MV(1), V(a, b), -2, 0); }); }
    static void flat1() { K::each([](auto const &P, int a, int b) { both<1>("P^e1^ni", W(P, E1, NI), MV::blade(1), V(a, b), 1, 0);
        if constexpr (D > 1) { both<1>("P^(e1-e2)^ni", W(P, E1 - E2, NI), V(1, -1), V(a, b), 1, 0); both<1>("P^Q^ni", W(P, PT(3, 1.0), NI), V(3, 1) - V(a, b), V(a, b), 1, 0); } }); }
    static void flat2() { if constexpr (D > 1) K::each([](auto const &P, int a, int b) { both<1>("P^e1^e2^ni", W(P, E1, E2, NI), MV::blade(3), V(a, b), 1, 0); }); }
    static void round0() { K::each([](auto const &P, int a, int b) { both<2>("P + 2ni", P + 2 * NI, MV(1), V(a, b), 1, 4); both<2>("-2P + ni", -2 * P + 1.0 * NI, MV(1), V(a, b), -2, -1); }); }
    static void round0c() { K::each([](auto const &P, int a, int b) { both<2>("P + c<2>ni", P + ga::c<2> * NI, MV(1), V(a, b), 1, 4); }); }
    static void round1() { K::each([](auto const &P, int a, int b) { if (a == 3) return; auto Q = PT(3, b); // P^Q: centre (a+3)/2
        both<2>("P^Q", W(P, Q), V(3 - a), V((a + 3) / 2.0, b), 1, (3 - a) * (3 - a) / 4.0L); }); }
    static void round2() { if constexpr (D > 1) K::each([](auto const &P, int a, int b) { auto Q = PT(a + 2, b); auto R = PT(a + 1, b + 1); // on the unit circle around (a+1, b)
        both<2>("P^Q^R", W(P, Q, R), MV::blade(3, 2), V(a + 1, b), 1, 1); }); }
    static void tang0() { K::each([](auto const &P, int a, int b) { both<3>("P", P, MV(1), V(a, b), 1, 0); both<3>("2P", 2 * P, MV(1), V(a, b), 2, 0); }); }
    static void tang1() { K::each([](auto const &P, int a, int b) { both<3>("tangent e1", ga::lcont(P, W(P, E1, NI), mtr), MV::blade(1), V(a, b), -1, 0); }); }
#endif
};
void explore() {
#define K(k) { using K = S_<k>;
#define S(s) K::s();
    SHAPES
}
