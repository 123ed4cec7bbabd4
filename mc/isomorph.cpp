// C20: the conformal and the Minkowski model are the same algebra. phi maps no to (em-ep)/2 and ni to ep+em; every
// operation is run by the library in both models on corresponding operands and the results must correspond. phi of the
// conformal pseudoscalar is minus that of Minkowski, hence the sign in duals and regressive products.
#include <gatl/ga1c.hpp>
#include <gatl/ga1m.hpp>
#include <gatl/ga2c.hpp>
#include <gatl/ga2m.hpp>
#include <gatl/ga3c.hpp>
#include <gatl/ga3m.hpp>
#include "zoo.hpp"
using namespace kinds;
using mc::MV; using mc::Num;
constexpr int D = MC_D, n = MC_D + 2;
#define CAT3(a, b, c) a##b##c
#define CAT(a, b, c) CAT3(a, b, c)
namespace cc = CAT(ga, MC_D, c);
namespace mm = CAT(ga, MC_D, m);
static const ga::conformal_metric_space<D> mc_; static const ga::minkowski_metric_space<D> mm_;
const Num TOL = 1e-9L;
static const std::string SP = "R" + std::to_string(D);

// the outermorphism
static MV phi(MV const &x) {
    static std::map<Bits, MV> memo;
    MV r;
    for (auto &t : x.c) {
        auto it = memo.find(t.first);
        if (it == memo.end()) {
            MV b(1), ep = MV::blade(Bits(1) << D), em = MV::blade(Bits(1) << (D + 1));
            for (int i = 0; i < n; ++i) if (t.first >> i & 1) b = ref::op(b, i < D ? MV::blade(Bits(1) << i) : i == D ? ref::scale(em - ep, 0.5L) : ep + em);
            it = memo.emplace(t.first, b).first;
        }
        r = r + ref::scale(it->second, t.second);
    }
    return r;
}
template<typename Key> void same(MV const &c, MV const &m, Key key, int sign = 1) { mc::eq(ref::scale(m, sign), phi(c), key, TOL); }

#ifndef VALS
#define VALS {-1, 0, 2}
#endif
inline std::vector<std::vector<int>> tuples(int k, std::vector<int> const &vals) {
    std::vector<std::vector<int>> r{{}};
    for (int i = 0; i < k; ++i) { std::vector<std::vector<int>> s; for (auto &t : r) for (int v : vals) { auto u = t; u.push_back(v); s.push_back(u); } r = s; }
    return r;
}
template<typename X> struct pairing { X c, m; MV v; };
template<typename X> std::vector<pairing<X>> corresponding(items<X> const &xs) {
    std::vector<pairing<X>> r;
    for (auto &x : xs) r.push_back({x.x, make<X>(phi(x.m)), x.m});
    return r;
}
#ifdef FULL
template<int k> using Op = ga::full_multivector_t<double, n>;
#else
template<int k> using Op = ga::full_kvector_t<double, n, k>;
#endif
#define BIN(F, S) same(obs::see(ga::F(a.c, b.c, mc_)), obs::see(ga::F(a.m, b.m, mm_)), [&] { return std::string(#F "/") + SP + "/" + a.v.str() + "," + b.v.str(); }, S);
#define UN(F, S) same(obs::see(F(a.c, mc_)), obs::see(F(a.m, mm_)), [&] { return std::string(#F "/") + SP + "/" + a.v.str(); }, S);
#define UN0(F) same(obs::see(ga::F(a.c)), obs::see(ga::F(a.m)), [&] { return std::string(#F "/") + SP + "/" + a.v.str(); });
template<typename X> items<X> values() {
    items<X> r = basis<X>(n);
    return r;
}
#if PART == 1 // binary operations
template<int ka, int kb> void binary() {
    auto as = corresponding(values<Op<ka>>()); auto bs = corresponding(values<Op<kb>>());
    mc::section("binary/" + SP);
    for (auto &a : as) for (auto &b : bs) {
        mc::state(mc::mix(mc::hash(a.v), mc::hash(b.v)));
#define O(F) BIN(F, 1)
#define R(F) BIN(F, -1)
        OPS
#undef O
#undef R
        mc::trace();
    }
}
void explore() {
#define P(a, b) binary<a, b>();
    PAIRS
}
#elif PART == 2 // unary operations
template<int k> void unary() {
    ref::Metric rm = ref::Metric::conformal(D);
    auto as = corresponding(values<Op<k>>());
    // scaled and summed values as well
    { std::size_t m = as.size() - 1; for (std::size_t i = 0; i < m; ++i) for (std::size_t j = 0; j < m; ++j) if (i != j) { MV v = ref::scale(as[i].v, 2) - as[j].v; as.push_back({make<Op<k>>(v), make<Op<k>>(phi(v)), v}); } }
    mc::section("unary/" + SP);
    for (auto &a : as) {
        mc::state(mc::hash(a.v));
        UN0(reverse) UN0(involute) UN0(conjugate)
        UN(ga::rnorm_sqr, 1)
        auto Ic = ga::pseudoscalar(mc_); auto Im = ga::pseudoscalar(mm_);
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + SP + "/" + a.v.str(); }; };
        same(obs::see(ga::dual(a.c, Ic, mc_)), obs::see(ga::dual(a.m, Im, mm_)), key("dual"), -1);
        same(obs::see(ga::undual(a.c, Ic, mc_)), obs::see(ga::undual(a.m, Im, mm_)), key("undual"), -1);
        same(obs::see(cc::dual(a.c)), obs::see(mm::dual(a.m)), key("dual()"), -1);
        same(obs::see(cc::undual(a.c)), obs::see(mm::undual(a.m)), key("undual()"), -1);
        Num q = ref::norm2(a.v, rm);
        mc::check(cc::is_null(a.c, 1e-8) == (std::fabs(q) <= 1e-8L), key("is_null, conformal")); mc::check(mm::is_null(a.m, 1e-8) == (std::fabs(q) <= 1e-8L), key("is_null, Minkowski"));
        mc::check(cc::is_unit(a.c, 1e-8) == (std::fabs(std::fabs(q) - 1) <= 1e-8L), key("is_unit, conformal")); mc::check(mm::is_unit(a.m, 1e-8) == (std::fabs(std::fabs(q) - 1) <= 1e-8L), key("is_unit, Minkowski"));
        if (q != 0) { UN(ga::inv, 1) }
        if constexpr (k != n) if (q > 0) { UN(ga::rnorm, 1) } // the norm of a pseudoscalar of negative square is refused at compile time
        if (q > 0) { UN(ga::unit, 1) }
        mc::trace();
    }
}
void explore() {
#define P(k) unary<k>();
    KS
}
#elif PART == 3 // versors: products of vectors applied to every grade
template<int k> void versors() {
    ref::Metric rm = ref::Metric::conformal(D);
    using V = ga::full_vector_t<double, n>;
    std::vector<pairing<V>> vs;
    for (auto &t : tuples(n, VALS)) { MV v; for (int i = 0; i < n; ++i) v.add(Bits(1) << i, t[i]); if (ref::norm2(v, rm) != 0) vs.push_back({make<V>(v), make<V>(phi(v)), v}); }
    auto as = corresponding(values<Op<k>>());
    mc::section("versors/" + SP);
    for (auto &v : vs) for (auto &a : as) {
        mc::state(mc::mix(mc::hash(v.v), mc::hash(a.v)));
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + SP + "/" + v.v.str() + "," + a.v.str(); }; };
        same(obs::see(ga::apply_odd_versor(v.c, a.c, mc_)), obs::see(ga::apply_odd_versor(v.m, a.m, mm_)), key("apply_odd_versor"));
        same(obs::see(ga::igp(a.c, v.c, mc_)), obs::see(ga::igp(a.m, v.m, mm_)), key("igp"));
#ifdef EVEN
        for (std::size_t j = 0; j < vs.size(); j += 3) {
            auto &w = vs[j];
            auto c = ga::gp(v.c, w.c, mc_); auto m = ga::gp(v.m, w.m, mm_);
            same(obs::see(ga::apply_even_versor(c, a.c, mc_)), obs::see(ga::apply_even_versor(m, a.m, mm_)), key("apply_even_versor"));
            same(obs::see(ga::apply_rotor(c, a.c, mc_)), obs::see(ga::apply_rotor(m, a.m, mm_)), key("apply_rotor"));
        }
#endif
        mc::trace();
    }
}
void explore() {
#define P(k) versors<k>();
    KS
}
#elif PART == 4 // the declared constants, points and vectors of the two algebras
template<typename... T> void one(T... t) {
    std::string s; (void)std::initializer_list<int>{(s += " " + obs::see(ga::scalar(t)).str(), 0)...};
    auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + SP + "/" + s; }; };
    mc::state(mc::hash(s));
    same(obs::see(cc::point(t...)), obs::see(mm::point(t...)), key("point"));
    same(obs::see(cc::euclidean_vector(t...)), obs::see(mm::euclidean_vector(t...)), key("euclidean_vector"));
    // the inner product of two points is minus half of the squared distance, in both models
    mc::eq(obs::see(cc::dot(cc::point(t...), cc::point((t + 1)...))), MV(-Num(D) / 2), key("distance, conformal"), TOL);
    mc::eq(obs::see(mm::dot(mm::point(t...), mm::point((t + 1)...))), MV(-Num(D) / 2), key("distance, Minkowski"), TOL);
    mc::eq(obs::see(cc::dot(cc::point(t...), cc::point(t...))), MV(), key("null, conformal"), TOL); mc::eq(obs::see(mm::dot(mm::point(t...), mm::point(t...))), MV(), key("null, Minkowski"), TOL);
    mc::trace();
}
template<typename T, std::size_t... I> void call(std::vector<int> const &t, std::index_sequence<I...>) { one(T(t[I])...); }
void explore() {
    mc::section("declared/" + SP);
    auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + SP; }; };
#define DECL(x, s) same(obs::see(cc::x), obs::see(mm::x), key(#x), s);
    DECL(no, 1) DECL(ni, 1) DECL(ep, 1) DECL(em, 1) DECL(I, -1) DECL(Ie, 1) DECL(e1, 1) DECL(_1, 1) DECL(_2, 1) DECL(_0, 1)
#if MC_D > 1
    DECL(e2, 1)
#endif
    for (auto &t : tuples(D, {-3, -1, 0, 1, 2})) { call<int>(t, std::make_index_sequence<D>()); call<double>(t, std::make_index_sequence<D>()); call<float>(t, std::make_index_sequence<D>()); call<long>(t, std::make_index_sequence<D>()); }
}
#elif PART == 5 // objects spanned by points, and their parameters
using std::size_t;
template<typename A> auto keep(A const &a) { return a; }
template<size_t... I> auto pc(std::vector<int> const &t, std::index_sequence<I...>) { return cc::point(double(t[I])...); }
template<size_t... I> auto pm(std::vector<int> const &t, std::index_sequence<I...>) { return mm::point(double(t[I])...); }
#define PAR(F, C, M) same(obs::see(cc::F(C)), obs::see(mm::F(M)), [&] { return std::string(#F "/") + SP + "/" + h; });
void explore() {
    auto seq = std::make_index_sequence<D>();
    auto all = tuples(D, VALS);
    ref::Metric rm = ref::Metric::conformal(D);
    for (auto &t : all) {
        auto c = pc(t, seq); auto m = pm(t, seq);
        for (auto &u : all) {
            if (t == u) continue;
            auto c2 = pc(u, seq); auto m2 = pm(u, seq);
            std::string h = obs::see(c).str() + "," + obs::see(c2).str();
            mc::section("objects/" + SP + "/" + h); mc::state(mc::hash(h));
#if WHAT == 1 // flat through two points
            auto xc = cc::op(cc::op(c, c2), cc::ni); auto xm = mm::op(mm::op(m, m2), mm::ni);
            same(obs::see(xc), obs::see(xm), [&] { return "flat/" + h; });
            PAR(primal_flat_direction, xc, xm) PAR(primal_flat_location, xc, xm)
#elif WHAT == 2 // point pair
            auto xc = cc::op(c, c2); auto xm = mm::op(m, m2);
            same(obs::see(xc), obs::see(xm), [&] { return "round/" + h; });
            PAR(primal_round_direction, xc, xm) PAR(primal_round_location, xc, xm) PAR(primal_round_size_sqr, xc, xm)
#elif WHAT == 3 // sphere about the first point through the second one, in dual form
            auto xc = cc::lcont(c2, cc::op(c, cc::ni)); auto xm = mm::lcont(m2, mm::op(m, mm::ni));
            same(obs::see(xc), obs::see(xm), [&] { return "dual sphere/" + h; });
            PAR(dual_round_location, xc, xm) PAR(dual_round_size_sqr, xc, xm)
            same(obs::see(cc::dual_round_direction(xc)), obs::see(mm::dual_round_direction(xm)), [&] { return "dual_round_direction/" + h; }, -1);
#elif WHAT == 4 // midplane, in dual form
            auto xc = c2 - c; auto xm = m2 - m;
            same(obs::see(xc), obs::see(xm), [&] { return "dual plane/" + h; });
            PAR(dual_flat_location, xc, xm)
            same(obs::see(cc::dual_flat_direction(xc)), obs::see(mm::dual_flat_direction(xm)), [&] { return "dual_flat_direction/" + h; }, -1);
#elif WHAT == 5 // tangent at the first point towards the second one
            auto xc = cc::lcont(c, cc::op(cc::op(c, c2), cc::ni)); auto xm = mm::lcont(m, mm::op(mm::op(m, m2), mm::ni));
            same(obs::see(xc), obs::see(xm), [&] { return "tangent/" + h; });
            PAR(primal_tangent_direction, xc, xm) PAR(primal_tangent_location, xc, xm)
            auto yc = cc::dual(xc); auto ym = mm::dual(xm);
            PAR(dual_tangent_direction, yc, ym) 
            same(obs::see(cc::dual_tangent_location(yc)), obs::see(mm::dual_tangent_location(ym)), [&] { return "dual_tangent_location/" + h; });
#endif
            mc::trace();
        }
    }
}
#endif
