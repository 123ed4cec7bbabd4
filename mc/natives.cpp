// Operations whose operands are plain numbers (or scalars), with and without the metric space: the number is the scalar of that value.
#include <gatl/ga.hpp>
#include <gatl/ga/model/signed/metric_space.hpp>
#include "zoo.hpp"
using namespace kinds;
using namespace ga;

signed_metric_space<2, 1, 0> m; ref::Metric const rm = ref::Metric::sig(2, 1, 0);
template<typename X> struct named { char const *name; items<X> xs; };
template<typename X> named<X> nm(char const *n, items<X> xs) { return {n, xs}; }
template<typename X> items<X> full(std::vector<MV> const &ms) { items<X> r; for (auto &v : ms) { X x; put(x, v); r.push_back({x, obs::see(x)}); } return r; }
template<typename T> items<decltype(scalar(T()))> sc(std::vector<T> const &v) { items<decltype(scalar(T()))> r; for (T t : v) r.push_back({scalar(t), MV((Num)t)}); return r; }
template<typename T> items<T> nat(std::vector<T> const &v) { items<T> r; for (T t : v) r.push_back({t, MV((Num)t)}); return r; }
// the operands: numbers, scalars and others
auto numbers() { return std::make_tuple(nm("double", nat<double>({2.5, -0.5})), nm("int", nat<int>({3, -2})), nm("float", nat<float>({0.25f, -4.f}))); }
auto scalars_() { return std::make_tuple(nm("sdouble", sc<double>({-1.5, 4})), nm("sint", sc<int>({2, -3})), nm("c", items<decltype(c<-2>)>{{c<-2>, MV(-2)}})); }
#ifdef N_DP // the cost of take_largest_grade limits the operands here (other representations: subspaces.cpp)
auto others() {
    return std::make_tuple(nm("vec", full<full_vector_t<double, 3>>({MV::blade(1, 2) + MV::blade(4, -3), MV::blade(2, 1.5)})), nm("e2", items<decltype(e(c<2>))>{{e(c<2>), MV::blade(2)}}));
}
#else
auto others() {
    MV v = MV::blade(1, 2) + MV::blade(4, -3), w = MV(2) + MV::blade(2, -1) + MV::blade(6, 3), t = MV::blade(7, -2);
    return std::make_tuple(nm("vec", full<full_vector_t<double, 3>>({v, MV::blade(2, 1.5)})), nm("multi", full<full_multivector_t<int, 3>>({w, v, t})),
        nm("dyn", full<scaled_basis_blade_t<double, 0, 3>>({MV::blade(3, -2), MV(3), t})), nm("e2", items<decltype(e(c<2>))>{{e(c<2>), MV::blade(2)}}));
}
#endif
template<typename T, typename F> void each(T const &t, F const &f) { std::apply([&](auto const &...x) { (void)std::initializer_list<int>{(f(x), 0)...}; }, t); }

template<typename A, typename B, typename L, typename R> void pair(std::string const &what, A const &a, B const &b, L const &lib, R const &mod) {
    mc::section(what + "/" + a.name + "/" + b.name);
    for (auto &x : a.xs) for (auto &y : b.xs) {
        MV want; if (!mod(x.m, y.m, want)) continue;
        MV got = obs::see(lib(x.x, y.x));
        auto key = [&] { return what + "/" + a.name + "/" + b.name + "/" + x.m.str() + "," + y.m.str(); };
        mc::state(mc::mix(mc::hash(what), mc::mix(mc::hash(std::string(a.name) + b.name), mc::mix(mc::hash(x.m), mc::hash(y.m)))));
        mc::check(ref::near(got, want, 1e-6L * std::max<Num>(1, want.maxabs())), key, "library: " + got.str() + " ; model: " + want.str());
    }
    mc::trace();
}
// BOTH: combinations that do not need the metric; MTR: all that involve a number or a scalar, with the metric
template<typename L, typename R> void with_metric(std::string const &what, L const &lib, R const &mod) {
    each(numbers(), [&](auto const &a) { each(numbers(), [&](auto const &b) { pair(what, a, b, lib, mod); }); each(scalars_(), [&](auto const &b) { pair(what, a, b, lib, mod); pair(what, b, a, lib, mod); });
        each(others(), [&](auto const &b) { pair(what, a, b, lib, mod); pair(what, b, a, lib, mod); }); });
    each(scalars_(), [&](auto const &a) { each(others(), [&](auto const &b) { pair(what, a, b, lib, mod); pair(what, b, a, lib, mod); }); each(scalars_(), [&](auto const &b) { pair(what, a, b, lib, mod); }); });
}
template<bool NumLeft, bool NumRight, typename L, typename R> void without_metric(std::string const &what, L const &lib, R const &mod) {
    each(numbers(), [&](auto const &a) { each(numbers(), [&](auto const &b) { pair(what, a, b, lib, mod); }); each(scalars_(), [&](auto const &b) { pair(what, a, b, lib, mod); pair(what, b, a, lib, mod); });
        each(others(), [&](auto const &b) { if constexpr (NumLeft) pair(what, a, b, lib, mod); if constexpr (NumRight) pair(what, b, a, lib, mod); (void)b; }); });
    each(scalars_(), [&](auto const &a) { each(others(), [&](auto const &b) { if constexpr (NumLeft) pair(what, a, b, lib, mod); pair(what, b, a, lib, mod); }); each(scalars_(), [&](auto const &b) { pair(what, a, b, lib, mod); }); });
}
#define PRODUCT(F) { auto mod = [](MV const &a, MV const &b, MV &w) { w = ref::F(a, b, rm); return true; }; \
    with_metric(#F "/mtr", [](auto const &a, auto const &b) { return F(a, b, m); }, mod); without_metric<true, true>(#F, [](auto const &a, auto const &b) { return F(a, b); }, mod); }
bool regular(MV const &b) { Num q = ref::norm2(b, rm); MV r = ref::gp(b, ref::reverse(b), rm); return std::fabs(q) > 1e-9L && r.c.size() == 1 && r.c.begin()->first == 0; }

template<typename T, typename L, typename R> void unary(std::string const &what, T const &ops, L const &lib, R const &mod) {
    each(ops, [&](auto const &a) {
        mc::section(what + "/" + a.name);
        for (auto &x : a.xs) {
            MV want; if (!mod(x.m, want)) continue;
            MV got = obs::see(lib(x.x));
            mc::state(mc::mix(mc::hash(what + a.name), mc::hash(x.m)));
            mc::check(ref::near(got, want, 1e-6L * std::max<Num>(1, want.maxabs())), [&] { return what + "/" + a.name + "/" + x.m.str(); }, "library: " + got.str() + " ; model: " + want.str());
        }
        mc::trace();
    });
}
#define UNARY(NAME, CALL, MODEL) { auto mod = [](MV const &a, MV &w) { (void)a; w = MODEL; return true; }; unary(NAME, numbers(), [](auto const &x) { return CALL; }, mod); unary(NAME, scalars_(), [](auto const &x) { return CALL; }, mod); }

void explore() {
#ifdef N_GP
    PRODUCT(gp)
#endif
#ifdef N_OP
    PRODUCT(op)
#endif
#ifdef N_IN
    PRODUCT(lcont) PRODUCT(rcont) PRODUCT(dot) PRODUCT(hip) PRODUCT(sp)
#endif
#ifdef N_CP
    PRODUCT(cp)
#endif
#ifdef N_RP
    with_metric("rp", [](auto const &a, auto const &b) { return rp(a, b, m); }, [](MV const &a, MV const &b, MV &w) { w = ref::rp(a, b, rm); return true; });
#endif
#ifdef N_IGP
    { auto mod = [](MV const &a, MV const &b, MV &w) { if (!regular(b)) return false; w = ref::igp(a, b, rm); return true; };
      with_metric("igp/mtr", [](auto const &a, auto const &b) { return igp(a, b, m); }, mod); without_metric<false, true>("igp", [](auto const &a, auto const &b) { return igp(a, b); }, mod); }
    UNARY("inv", inv(x), ref::inv(a, rm)) UNARY("inv/mtr", inv(x, m), ref::inv(a, rm)) UNARY("unit", unit(x), ref::unit(a, rm)) UNARY("unit/mtr", unit(x, m), ref::unit(a, rm))
    UNARY("rnorm", rnorm(x), ref::rnorm(a, rm)) UNARY("rnorm/mtr", rnorm(x, m), ref::rnorm(a, rm)) UNARY("rnorm_sqr", rnorm_sqr(x), ref::rnorm_sqr(a, rm)) UNARY("rnorm_sqr/mtr", rnorm_sqr(x, m), ref::rnorm_sqr(a, rm))
#endif
#ifdef N_DP
    for (int k = 0; k < 4; ++k) {
        static int s; s = k;
        auto tol = [](int i) { return i == 0 ? 0.0 : i == 1 ? 1.0 : i == 2 ? 3.0 : 9.0; };
        auto mod = [=](MV const &a, MV const &b, MV &w) { w = ref::dp(a, b, tol(s), rm); MV p = ref::gp(a, b, rm); for (auto &t : p.c) if (std::fabs(std::fabs(t.second) - tol(s)) < 1e-9L) return false; return true; };
        std::string at = "tol" + std::to_string((int)tol(k));
        with_metric("dp/mtr/" + at, [=](auto const &a, auto const &b) { return dp(a, b, tol(s), m); }, mod);
        without_metric<true, true>("dp/" + at, [=](auto const &a, auto const &b) { return dp(a, b, tol(s)); }, mod);
    }
    { auto mod = [](MV const &a, MV const &b, MV &w) { w = ref::dp(a, b, 1e-9L, rm); return true; };
      with_metric("dp/mtr", [](auto const &a, auto const &b) { return dp(a, b, m); }, mod); without_metric<true, true>("dp", [](auto const &a, auto const &b) { return dp(a, b); }, mod); }
#endif
#ifdef N_APPLY
#define APPLY(F) with_metric(#F, [](auto const &a, auto const &b) { return F(a, b, m); }, [](MV const &a, MV const &b, MV &w) { if (!regular(a)) return false; \
    int par = -1; for (auto &t : a.c) { int p = ref::popc(t.first) & 1; if (par >= 0 && p != par) return false; par = p; } w = ref::F(a, b, rm); return true; });
    APPLY(apply_even_versor) APPLY(apply_odd_versor) APPLY(apply_rotor)
#endif
#ifdef N_EXP
    UNARY("exp", exp(x), MV(std::exp(a.scalar()))) UNARY("exp/mtr", exp(x, m), MV(std::exp(a.scalar()))) unary("exp/tol", numbers(), [](auto const &x) { return exp(x, 1e-3); }, [](MV const &a, MV &w) { w = MV(std::exp(a.scalar())); return true; }); UNARY("exp/tol/mtr", exp(x, 1e-3, m), MV(std::exp(a.scalar())))
#endif
#ifdef N_POW
    { auto mod = [](MV const &a, MV const &b, MV &w) { Num x = a.scalar(), y = b.scalar(); if (a.c.size() != 1 || b.c.size() != 1 || (x < 0 && y != std::floor(y))) return false; w = MV(std::pow(x, y)); return true; };
      each(numbers(), [&](auto const &a) { each(scalars_(), [&](auto const &b) { auto f = [](auto const &x, auto const &y) { return pow(x, y); }; pair("pow", a, b, f, mod); pair("pow", b, a, f, mod); }); }); }
#endif
#ifdef N_GRADE
    UNARY("grade", (int)(grade_t)grade(x), MV(0)) UNARY("grade/tol", (int)(grade_t)grade(x, 0.01), MV(0)) UNARY("largest_grade", largest_grade(x), MV(0)) UNARY("largest_grade/tol", largest_grade(x, 0.01), MV(0))
    UNARY("grade/large", (int)(grade_t)grade(x, 100), MV(-2)) UNARY("take_largest_grade", take_largest_grade(x), a) UNARY("take_largest_grade/tol", take_largest_grade(x, 0.01), a)
    UNARY("take_grade0", take_grade(x, 0), a) UNARY("take_grade1", take_grade(x, 1), MV()) UNARY("take_grade-1", take_grade(x, -1), MV())
    UNARY("take_gradec0", take_grade(x, c<0>), a) UNARY("take_gradec2", take_grade(x, c<2>), MV())
#endif
#ifdef N_SIGN
    UNARY("reverse", reverse(x), a) UNARY("involution", involute(x), a) UNARY("conjugation", conjugate(x), a)
#endif
}
