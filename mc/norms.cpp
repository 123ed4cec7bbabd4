// C12: squared reverse norm, reverse norm, inverse, inverse geometric product, unit, is_null, is_unit on signed spaces.
// PART 1: every representation (zoo); PART 2: versors = every product of up to three small integer vectors;
// PART 3: igp of every pair; PART 4: predicates around the tolerance.
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "versors.hpp"

template<int P, int Q, typename X, typename M> void unary(std::string const &kind, items<X> const &xs, M const &m, ref::Metric const &rm, std::string const &sp) {
    const Num tol = std::is_same<typename coeff<X>::t, float>::value ? FTOL : TOL;
    constexpr long K2 = knorm<typename expr_of<X>::t>::get(P, Q);
    mc::section("norms/" + sp + "/" + kind);
    for (auto &x : xs) {
        mc::state(mc::mix(mc::hash(sp + kind), mc::hash(x.m)));
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + kind + "/" + x.m.str(); }; };
        Num n2 = 0; bool v = versor(x.m, rm, n2);
        mc::eq(obs::see(rnorm_sqr(x.x, m)), MV(n2), key("rnorm_sqr"));
        if constexpr (K2 >= 0) if (n2 >= 0) mc::eq(obs::see(rnorm(x.x, m)), MV(std::sqrt(n2)), key("rnorm"), tol);
        if constexpr (!std::is_arithmetic<X>::value) {
            mc::same((bool)is_null(x.x, 0, m), n2 == 0, key("is_null"));
            mc::same((bool)is_unit(x.x, 0, m), std::fabs(n2) == 1, key("is_unit"));
            mc::same((bool)is_null(x.x, 3, m), std::fabs(n2) <= 3, key("is_null3"));
            mc::same((bool)is_unit(x.x, c<3>, m), std::fabs(std::fabs(n2) - 1) <= 3, key("is_unit3"));
        }
        if constexpr (K2 != 0) if (n2 != 0) mc::eq(obs::see(unit(x.x, m)), ref::unit(x.m, rm), key("unit"), tol);
        if constexpr (K2 != 0) if (v) {
            auto iv = inv(x.x, m);
            MV o = obs::see(iv);
            mc::eq(o, ref::inv(x.m, rm), key("inv"), tol);
            mc::eq(ref::gp(o, x.m, rm), MV(1), key("inv*V"), tol);
            mc::eq(ref::gp(x.m, o, rm), MV(1), key("V*inv"), tol);
        }
        mc::eq(obs::see(x.x), x.m, key("operand"));
    }
    mc::trace();
}
template<int P, int Q, typename A, typename B, typename M> void division(std::string const &ka, items<A> const &as, std::string const &kb, items<B> const &bs, M const &m, ref::Metric const &rm, std::string const &sp) {
    const Num tol = std::is_same<typename coeff<A>::t, float>::value || std::is_same<typename coeff<B>::t, float>::value ? FTOL : TOL;
    mc::section("igp/" + sp + "/" + ka + "/" + kb);
    if constexpr (knorm<typename expr_of<B>::t>::get(P, Q) != 0)
    for (auto &b : bs) {
        Num n2; if (!versor(b.m, rm, n2)) continue;
        MV ib = ref::inv(b.m, rm);
        mc::state(mc::mix(mc::hash(sp + ka + kb), mc::hash(b.m)));
        for (auto &a : as) {
            auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + ka + "/" + kb + "/" + a.m.str() + "," + b.m.str(); }; };
            mc::eq(obs::see(igp(a.x, b.x, m)), ref::gp(a.m, ib, rm), key("igp"), tol);
#if PART == 2
            mc::eq(obs::see(igp(gp(a.x, b.x, m), b.x, m)), a.m, key("(A*V)/V"), tol);
#endif
        }
        mc::trace();
    }
}
template<typename T, typename... C> std::true_type fits_sum(clifford_expression<T, gd::add<C...>> const &);
std::false_type fits_sum(...);
template<int P, int Q, int R> void sig() {
    constexpr int n = P + Q + R;
    signed_metric_space<P, Q, R> m; ref::Metric rm = ref::Metric::sig(P, Q, R); std::string sp = sigkey(P, Q, R);
    (void)m;
#if PART == 1
    zoo<n, MASK>([&](std::string const &k, auto const &xs) { unary<P, Q>(k, xs, m, rm, sp); });
#elif PART == 2
    using F = full_multivector_t<double, n>;
    auto v = versors<F>(n, rm, VALS, LEN, false);
    unary<P, Q>("versor", v, m, rm, sp);
    auto b = basis<F>(n);
    division<P, Q>("full", b, "versor", v, m, rm, sp);
    using V = full_vector_t<int, n>;
    auto vv = versors<V>(n, rm, VALS, 1, false);
    unary<P, Q>("vector", vv, m, rm, sp);
    division<P, Q>("full", b, "vector", vv, m, rm, sp);
    auto g = basis<V>(n);
    division<P, Q>("vec", g, "vector", vv, m, rm, sp); division<P, Q>("vec", g, "versor", v, m, rm, sp);
#elif PART == 3
    zoo<n, MASK>([&](std::string const &ka, auto const &as) { zoo<n, MASKB>([&](std::string const &kb, auto const &bs) { division<P, Q>(ka, as, kb, bs, m, rm, sp); }); });
#elif PART == 4 // squares around the default tolerance and around 1 (exactly representable cases)
    auto pred = [&](auto proto, std::string const &kind) {
        using X = decltype(proto); using T = typename X::value_type;
        items<X> xs; std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
        Num dt = (Num)default_tolerance<T>();
        mc::section("predicates/" + sp + "/" + kind);
        for (Bits b : bs) for (double v : {0.0, 1.0, -1.0, 0x1p-13, 0x1p-14, -0x1p-12, 1 + 0x1p-10, 1 + 0x1p-20, 1 - 0x1p-20, 2.0, 1.5, 0.5}) for (Bits b2 : bs) for (double w : {0.0, 1.0, 0x1p-13}) {
            if (b2 <= b && w != 0) continue;
            if (std::is_integral<T>::value && (v != std::floor(v) || w != std::floor(w))) continue;
            if (bs.size() == 1 ? w != 0 : false) continue;
            MV mm = MV::blade(b, v) + MV::blade(b2, w);
            if (!std::is_same<decltype(fits_sum(proto)), std::true_type>::value && mm.c.size() > 1) continue;
            X x = make<X>(mm);
            Num n2 = 0; for (auto &t : mm.c) { MV q = ref::gp(MV::blade(t.first), ref::reverse(MV::blade(t.first)), rm); n2 += q.scalar() * t.second * t.second; }
            auto key = [&](char const *wh) { return [&, wh] { return std::string(wh) + "/" + sp + "/" + kind + "/" + mm.str(); }; };
            mc::state(mc::mix(mc::hash(sp + kind), mc::hash(mm)));
            auto near = [&](Num a, Num t) { return std::fabs(a - t) < 1e-12L; };
            for (double tol : {0.0, 0.25, 0x1p-24, 1.0, 3.0, 1e-8}) {
                if (near(std::fabs(n2), tol) && tol != 0 && std::fabs(n2) != tol) continue; // not decidable exactly
                mc::same((bool)is_null(x, tol, m), std::fabs(n2) <= tol, key("is_null"));
                if (!(near(std::fabs(std::fabs(n2) - 1), tol) && std::fabs(std::fabs(n2) - 1) != tol)) mc::same((bool)is_unit(x, tol, m), std::fabs(std::fabs(n2) - 1) <= tol, key("is_unit"));
            }
            (void)dt;
        }
        mc::trace();
    };
    pred(full_multivector_t<double, n>(), "fulld"); pred(full_multivector_t<int, n>(), "fulli"); pred(full_vector_t<double, n>(), "vec"); pred(scaled_basis_blade_t<double, 0, n>(), "dyn"); pred(cblade<double, 1>(), "c1");
#endif
}
void explore() {
#define S(p, q, r) sig<p, q, r>();
    SIGS
}
