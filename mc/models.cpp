// C18: parameters of flats, rounds and tangents of the conformal and Minkowski models.
// Objects are built in the reference model from every (direction, location, squared radius, scale) of a finite set and
// handed to the library, which must give the ingredients back.
#ifdef NS
#define MC_STR2(x) #x
#define MC_HDR2(x) MC_STR2(gatl/x.hpp)
#define MC_HDR(x) MC_HDR2(x)
#include MC_HDR(NS)
#else
#include <gatl/ga.hpp>
#include <gatl/ga/model/conformal.hpp>
#include <gatl/ga/model/minkowski.hpp>
#endif
#include "zoo.hpp"
using namespace kinds;
using mc::MV; using mc::Num;

struct Model { // the ingredients of one model, in the reference algebra
    bool conf; int d; ref::Metric m; MV no, ni;
    Model(bool c, int d_) : conf(c), d(d_), m(c ? ref::Metric::conformal(d_) : ref::Metric::sig(d_ + 1, 1, 0)) {
        MV a = MV::blade(Bits(1) << d), b = MV::blade(Bits(1) << (d + 1));
        if (c) { no = a; ni = b; } else { no = ref::scale(b - a, 0.5L); ni = a + b; }
    }
    MV translate(MV const &p, MV const &x) const { // T x ~T with T = 1 - p^ni/2
        MV t = MV(1) - ref::scale(ref::op(p, ni), 0.5L);
        return ref::gp(ref::gp(t, x, m), ref::reverse(t), m);
    }
    MV point(MV const &p) const { return no + p + ref::scale(ni, ref::gp(p, p, m).scalar() / 2); }
};
inline MV vec(std::vector<int> const &v) { MV r; for (std::size_t i = 0; i < v.size(); ++i) r.add(Bits(1) << i, v[i]); return r; }
inline std::vector<std::vector<int>> tuples(int n, std::vector<int> const &vals) {
    std::vector<std::vector<int>> r{{}};
    for (int i = 0; i < n; ++i) { std::vector<std::vector<int>> s; for (auto &t : r) for (int v : vals) { auto u = t; u.push_back(v); s.push_back(u); } r = s; }
    return r;
}
// every blade of grade k spanned by vectors of R^d over vals (without repetition)
inline std::vector<MV> directions(int d, int k, std::vector<int> const &vals) {
    std::vector<MV> r{MV(1)};
    for (int i = 0; i < k; ++i) { std::set<MV> s; for (auto &b : r) for (auto &t : tuples(d, vals)) { MV w = ref::op(b, vec(t)); if (!w.zero()) s.insert(w); } r.assign(s.begin(), s.end()); }
    return r;
}
const Num TOL = 1e-9L;

#ifndef VALS
#define VALS {-1, 0, 2}
#endif
#ifndef DVALS
#define DVALS {-1, 0, 1}
#endif
#ifdef NS // the overloads of a ready-made algebra: no metric argument
#define CALL(F) NS::F(x)
#else
#define CALL(F) ga::F(x, mtr)
#endif

#ifndef WHAT
#define WHAT 7 // 1 direction, 2 location, 4 squared size
#endif
#define IF1 if constexpr ((WHAT & 1) != 0)
#define IF2 if constexpr ((WHAT & 2) != 0)
#define IF4 if constexpr ((WHAT & 4) != 0)
#ifndef KIND_
#define KIND_(n, k) ga::full_kvector_t<double, n, (k)>
#endif

template<int D, bool CONF, int K, typename Mtr> void objects(Mtr const &mtr) {
    (void)mtr;
    Model M(CONF, D); constexpr int n = D + 2;
    std::string sp = std::string(CONF ? "conformal" : "minkowski") + std::to_string(D);
    MV I = ref::pseudoscalar(n);
    auto D0 = directions(D, K, DVALS);
    for (MV const &E : D0) for (auto const &pt : tuples(D, VALS)) for (int s : {1, -2}) {
        MV p = vec(pt), En = ref::op(E, M.ni);
        MV closest = K == 0 ? p : p - ref::gp(ref::lcont(p, E, M.m), ref::inv(E, M.m), M.m);
        std::string h = E.str() + " at " + p.str() + " times " + std::to_string(s);
        mc::state(mc::mix(mc::hash(sp + h), K));
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + h; }; };
#if PART == 1 || PART == 2 // flats: p ^ E ^ ni
        MV X = ref::scale(ref::op(ref::op(M.point(p), E), M.ni), s);
        MV loc = M.no + closest + ref::scale(M.ni, ref::gp(closest, closest, M.m).scalar()); // the projection of the origin on the flat
#if PART == 1
        { auto x = make<KIND_(n, K + 2)>(X); mc::section("flat/" + sp + "/" + h);
          IF1 mc::eq(obs::see(CALL(primal_flat_direction)), ref::scale(En, s), key("primal flat direction"), TOL);
          IF2 mc::eq(obs::see(CALL(primal_flat_location)), loc, key("primal flat location"), TOL); }
#else
        { auto x = make<KIND_(n, n - K - 2)>(ref::dual(X, I, M.m)); mc::section("dual flat/" + sp + "/" + h);
          IF1 mc::eq(obs::see(CALL(dual_flat_direction)), ref::scale(En, s), key("dual flat direction"), TOL);
          IF2 mc::eq(obs::see(CALL(dual_flat_location)), loc, key("dual flat location"), TOL); }
#endif
#else // rounds: T_p[(no + rho^2 ni / 2) ^ E]; tangents: the same with rho = 0
        for (int rr : {0, 4, 1, -1}) {
            MV X = ref::scale(M.translate(p, ref::op(M.no + ref::scale(M.ni, rr / 2.0L), E)), s);
            h = E.str() + " at " + p.str() + " size " + std::to_string(rr) + " times " + std::to_string(s);
#if PART == 3
            auto x = make<KIND_(n, K + 1)>(X); mc::section("round/" + sp + "/" + h);
            if (rr) {
                IF1 mc::eq(obs::see(CALL(primal_round_direction)), ref::scale(En, s), key("primal round direction"), TOL);
                IF2 mc::eq(obs::see(CALL(primal_round_location)), M.point(p), key("primal round location"), TOL);
                IF4 mc::eq(obs::see(CALL(primal_round_size_sqr)), MV(rr), key("primal round size"), TOL);
            }
            else {
                IF4 mc::eq(obs::see(CALL(primal_round_size_sqr)), MV(rr), key("primal round size"), TOL);
                IF1 mc::eq(obs::see(CALL(primal_tangent_direction)), ref::scale(En, s), key("primal tangent direction"), TOL);
                IF2 mc::eq(obs::see(CALL(primal_tangent_location)), M.point(p), key("primal tangent location"), TOL);
            }
#else
            auto x = make<KIND_(n, n - K - 1)>(ref::dual(X, I, M.m)); mc::section("dual round/" + sp + "/" + h);
            if (rr) {
                IF1 mc::eq(obs::see(CALL(dual_round_direction)), ref::scale(En, s), key("dual round direction"), TOL);
                IF2 mc::eq(obs::see(CALL(dual_round_location)), M.point(p), key("dual round location"), TOL);
                IF4 mc::eq(obs::see(CALL(dual_round_size_sqr)), MV(rr), key("dual round size"), TOL);
            }
            else {
                IF4 mc::eq(obs::see(CALL(dual_round_size_sqr)), MV(rr), key("dual round size"), TOL);
                IF1 mc::eq(obs::see(CALL(dual_tangent_direction)), ref::scale(En, s), key("dual tangent direction"), TOL);
                IF2 mc::eq(obs::see(CALL(dual_tangent_location)), M.point(p), key("dual tangent location"), TOL);
            }
#endif
        }
#endif
        mc::trace();
    }
}
template<typename Mtr, int D, bool CONF> void model(Mtr const &mtr) {
#define O(K) objects<D, CONF, K>(mtr);
    KS
}
void explore() {
#ifdef NS
    model<NS::space_t, MC_D, MC_CONF>(NS::space);
#elif MC_CONF
    ga::conformal_metric_space<MC_D> m; model<decltype(m), MC_D, true>(m);
#else
    ga::minkowski_metric_space<MC_D> m; model<decltype(m), MC_D, false>(m);
#endif
}
