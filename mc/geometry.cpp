// C19: constructors of vectors, Euclidean vectors and points; projection and rejection; flats of the homogeneous model.
// PART 1 constructors, 2 project/reject, 3 flats and translation. MODEL is 1 E, 2 H, 3 P, 4 M, 5 C; with NS the overloads
// of the ready-made algebra are used instead of those with an explicit metric.
#ifdef NS
#define MC_STR2(x) #x
#define MC_HDR2(x) MC_STR2(gatl/x.hpp)
#define MC_HDR(x) MC_HDR2(x)
#include MC_HDR(NS)
#define LIB(F, ...) NS::F(__VA_ARGS__)
#else
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include <gatl/ga/model/homogeneous.hpp>
#include <gatl/ga/model/plane_based.hpp>
#include <gatl/ga/model/minkowski.hpp>
#include <gatl/ga/model/conformal.hpp>
#define LIB(F, ...) ga::F(mtr, __VA_ARGS__)
#endif
#include "zoo.hpp"
#include <array>
#include <deque>
#include <map>
using namespace kinds;
using mc::MV; using mc::Num;

#ifdef NS
using Mtr = NS::space_t;
#elif MODEL == 1
using Mtr = ga::euclidean_metric_space<MC_D>;
#elif MODEL == 2
using Mtr = ga::homogeneous_metric_space<MC_D>;
#elif MODEL == 3
using Mtr = ga::plane_based_metric_space<MC_D>;
#elif MODEL == 4
using Mtr = ga::minkowski_metric_space<MC_D>;
#else
using Mtr = ga::conformal_metric_space<MC_D>;
#endif
constexpr int D = MC_D, n = MC_D + (MODEL == 1 ? 0 : MODEL <= 3 ? 1 : 2);
static const Mtr mtr;
static const std::string SP = std::string(1, " ehpmc"[MODEL]) + std::to_string(D);
const Num TOL = 1e-9L;
inline std::vector<std::vector<int>> tuples(int n, std::vector<int> const &vals) {
    std::vector<std::vector<int>> r{{}};
    for (int i = 0; i < n; ++i) { std::vector<std::vector<int>> s; for (auto &t : r) for (int v : vals) { auto u = t; u.push_back(v); s.push_back(u); } r = s; }
    return r;
}
inline MV vec(std::vector<int> const &v) { MV r; for (std::size_t i = 0; i < v.size(); ++i) r.add(Bits(1) << i, v[i]); return r; }
inline std::vector<MV> directions(int d, int k, std::vector<int> const &vals) {
    std::vector<MV> r{MV(1)};
    for (int i = 0; i < k; ++i) { std::set<MV> s; for (auto &b : r) for (auto &t : tuples(d, vals)) { MV w = ref::op(b, vec(t)); if (!w.zero()) s.insert(w); } r.assign(s.begin(), s.end()); }
    return r;
}

#ifndef VALS
#define VALS {-1, 0, 1}
#endif
#ifndef KIND_
#define KIND_(k) ga::full_kvector_t<double, n, (k)>
#endif
#if PART == 1
// kinds of coordinates
struct Int { static int get(int v) { return v; } static Num val(int v) { return v; } static constexpr char name = 'i'; };
struct Dbl { static double get(int v) { return v + 0.5; } static Num val(int v) { return v + 0.5L; } static constexpr char name = 'd'; };
struct Flt { static float get(int v) { return v - 0.25f; } static Num val(int v) { return v - 0.25L; } static constexpr char name = 'f'; };
struct Sca { static auto get(int v) { return ga::scalar(v * 1.5); } static Num val(int v) { return v * 1.5L; } static constexpr char name = 's'; };
struct Con { static auto get(int) { return ga::c<3>; } static Num val(int) { return 3; } static constexpr char name = 'c'; };
struct Zer { static auto get(int) { return ga::c<0>; } static Num val(int) { return 0; } static constexpr char name = 'z'; };
struct Neg { static auto get(int) { return ga::c<-1>; } static Num val(int) { return -1; } static constexpr char name = 'n'; };

inline MV as_vector(std::vector<Num> const &c) { MV r; for (std::size_t i = 0; i < c.size(); ++i) r.add(Bits(1) << i, c[i]); return r; }
inline MV as_point(std::vector<Num> const &c) {
    MV r = as_vector(c); Num q = 0; for (Num v : c) q += v * v;
    if (MODEL == 2) r.add(Bits(1) << D, 1);
    if (MODEL == 4) { r.add(Bits(1) << D, (q - 1) / 2); r.add(Bits(1) << (D + 1), (q + 1) / 2); }
    if (MODEL == 5) { r.add(Bits(1) << D, 1); r.add(Bits(1) << (D + 1), q / 2); }
    return r;
}
template<typename... Ks> void coords() {
    std::string kn{Ks::name...};
    mc::section("coordinates " + SP + "/" + kn);
    for (auto const &t : tuples(D, sizeof...(Ks) > 3 ? std::vector<int>{0, 2} : std::vector<int>{-2, 0, 1})) {
        int i = 0; std::vector<Num> want{Ks::val(t[i++])...};
        i = 0; std::tuple<decltype(Ks::get(0))...> args{Ks::get(t[i++])...};
        auto const cargs = args;
        auto key = [&](char const *w) { return [&, w] { std::string s = std::string(w) + "/" + SP + "/" + kn; for (int v : t) s += " " + std::to_string(v); return s; }; };
        mc::state(mc::mix(mc::hash(SP + kn), mc::hash(as_vector(want))));
        auto all = [&](auto &&f, MV const &m, char const *w) {
            mc::eq(obs::see(std::apply([&](auto &... a) { return f(a...); }, args)), m, key(w), 1e-15L);
            mc::eq(obs::see(std::apply([&](auto &... a) { return f(a...); }, cargs)), m, key(w), 1e-15L);
            mc::eq(obs::see(std::apply([&](auto... a) { return f(std::move(a)...); }, args)), m, key(w), 1e-15L);
        };
        all([&](auto &&... a) { return LIB(euclidean_vector, std::forward<decltype(a)>(a)...); }, as_vector(want), "euclidean_vector");
#if MODEL == 1
        all([&](auto &&... a) { return LIB(vector, std::forward<decltype(a)>(a)...); }, as_vector(want), "vector");
#elif MODEL <= 3
        auto w2 = want; w2.push_back(5);
        all([&](auto &&... a) { return LIB(vector, std::forward<decltype(a)>(a)..., 5); }, as_vector(w2), "vector");
        all([&](auto &&... a) { return LIB(vector, std::forward<decltype(a)>(a)..., ga::c<5>); }, as_vector(w2), "vector");
#else
        auto w2 = want; w2.push_back(5); w2.push_back(-7);
        all([&](auto &&... a) { return LIB(vector, std::forward<decltype(a)>(a)..., 5, ga::c<-7>); }, as_vector(w2), "vector");
        all([&](auto &&... a) { return LIB(vector, std::forward<decltype(a)>(a)..., ga::c<5>, -7.0); }, as_vector(w2), "vector");
#endif
#if MODEL == 2 || MODEL >= 4
        auto pt = [&](auto &&... a) { return LIB(point, std::forward<decltype(a)>(a)...); };
        all(pt, as_point(want), "point");
#endif
        mc::trace();
    }
}
template<typename...> struct list {};
template<typename... Ks> void spread(list<Ks...>) { coords<Ks...>(); }
template<int k, typename... Ks> void each() {
    if constexpr (k == 0) spread(list<Ks...>());
    else {
#define O(X) each<k - 1, Ks..., X>();
#ifdef COORDS
        COORDS
#endif
    }
}
template<typename It> void range(char const *w, It b, It e, std::vector<Num> c) {
    auto key = [&](char const *f) { return [&, f] { return std::string(f) + "(begin, end)/" + SP + "/" + w + "/" + as_vector(c).str(); }; };
    std::vector<Num> eu(c.begin(), c.begin() + D);
    mc::eq(obs::see(LIB(vector, b, e)), as_vector(c), key("vector"));
    It m = b; m += D;
    mc::eq(obs::see(LIB(euclidean_vector, b, m)), as_vector(eu), key("euclidean_vector"));
    It const cb = b, cm = m, ce = e;
    mc::eq(obs::see(LIB(vector, cb, ce)), as_vector(c), key("vector"));
    mc::eq(obs::see(LIB(euclidean_vector, cb, cm)), as_vector(eu), key("euclidean_vector"));
    mc::eq(obs::see(LIB(euclidean_vector, It(b), It(m))), as_vector(eu), key("euclidean_vector"));
#if MODEL == 2 || MODEL >= 4
    mc::eq(obs::see(LIB(point, b, m)), as_point(eu), key("point"));
    mc::eq(obs::see(LIB(point, cb, cm)), as_point(eu), key("point"));
    mc::eq(obs::see(LIB(point, It(b), It(m))), as_point(eu), key("point"));
#endif
}
template<typename T> void ranges() {
    for (auto const &t : tuples(n, n > 3 ? std::vector<int>{-1, 2} : std::vector<int>{-1, 0, 2})) {
        std::vector<Num> c(t.begin(), t.end());
        std::vector<T> v(t.begin(), t.end()); v.push_back(99); v.insert(v.begin(), 77);
        std::vector<T> const cv = v; std::deque<T> q(t.begin(), t.end()); std::array<T, n> a; std::copy(t.begin(), t.end(), a.begin());
        std::vector<T> rv(t.rbegin(), t.rend());
        mc::section("ranges " + SP); mc::state(mc::hash(as_vector(c)));
        range("vector", v.begin() + 1, v.end() - 1, c); range("const vector", cv.begin() + 1, cv.end() - 1, c); range("cbegin", v.cbegin() + 1, v.cend() - 1, c);
        range("pointer", v.data() + 1, v.data() + 1 + n, c); range("const pointer", cv.data() + 1, cv.data() + 1 + n, c);
        range("deque", q.begin(), q.end(), c); range("array", a.begin(), a.end(), c); range("reverse", rv.rbegin(), rv.rend(), c);
        mc::trace();
    }
}
void explore() {
#ifdef COORDS
    each<D>();
#else
    ranges<int>(); ranges<double>(); ranges<float>(); ranges<long>();
#endif
}

#elif PART == 2
// projection of the blade a1^...^ak on the blade B, from the projections of its factors: solved in the reference by
// expressing each factor in an orthogonal basis of B
static MV proj(MV const &v, MV const &B) { ref::Metric m = ref::Metric::sig(n, 0, 0); return ref::gp(ref::lcont(v, B, m), ref::inv(B, m), m); }
template<typename X> struct coefficient { using t = X; };
template<typename T, typename E> struct coefficient<ga::clifford_expression<T, E>> { using t = T; };
template<typename A, typename B> void pairs(std::string const &ka, items<A> const &as, std::vector<std::vector<MV>> const &factors, std::string const &kb, items<B> const &bs) {
    const Num TOL = std::is_same<typename coefficient<A>::t, float>::value || std::is_same<typename coefficient<B>::t, float>::value ? 1e-5L : 1e-9L;
    mc::section("project/" + SP + "/" + ka + "/" + kb);
    for (std::size_t i = 0; i < as.size(); ++i) for (auto &b : bs) {
        if (b.m.zero()) continue;
        auto &a = as[i];
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + SP + "/" + ka + "/" + kb + "/" + a.m.str() + "," + b.m.str(); }; };
        mc::state(mc::mix(mc::hash(a.m), mc::hash(b.m)));
        MV want;
        if (factors.empty()) want = ref::lcont(ref::lcont(a.m, ref::inv(b.m, ref::Metric::sig(n, 0, 0)), ref::Metric::sig(n, 0, 0)), b.m, ref::Metric::sig(n, 0, 0));
        else { want = MV(1); for (auto &f : factors[i]) want = ref::op(want, proj(f, b.m)); want = ref::clean(want, 1e-12L); }
#ifdef NS
        MV p = obs::see(NS::project(a.x, b.x)), r = obs::see(NS::reject(a.x, b.x));
#else
        MV p = obs::see(ga::project(a.x, b.x, mtr)), r = obs::see(ga::reject(a.x, b.x, mtr));
#endif
        mc::eq(p, want, key("project"), TOL);
        mc::eq(p + r, a.m, key("projection plus rejection"), TOL);
        mc::eq(r, a.m - want, key("reject"), TOL);
        mc::trace();
    }
}
template<int GA, int GB> void grades() {
    using A = ga::full_kvector_t<double, n, GA>; using B = ga::full_kvector_t<double, n, GB>;
    std::map<MV, std::vector<MV>> fac{{MV(1), {}}};
    for (int i = 0; i < GA; ++i) {
        std::map<MV, std::vector<MV>> nx;
        for (auto &f : fac) for (auto &t : tuples(n, VALS)) { MV w = ref::op(f.first, vec(t)); if (w.zero() || nx.count(w)) continue; auto v = f.second; v.push_back(vec(t)); nx[w] = v; }
        fac = nx;
    }
    items<A> as; std::vector<std::vector<MV>> fs; for (auto &f : fac) { as.push_back({make<A>(f.first), f.first}); fs.push_back(f.second); }
    items<B> bs; for (auto &m : directions(n, GB, VALS)) for (int s : {1, -3}) { MV b = ref::scale(m, s); bs.push_back({make<B>(b), b}); }
    pairs("kvec" + std::to_string(GA), as, fs, "kvec" + std::to_string(GB), bs);
}
void explore() {
#ifdef MASKA
    zoo<n, MASKA>([&](std::string const &ka, auto const &as) {
        zoo<n, MASKB>([&](std::string const &kb, auto const &bs) {
            using B = std::decay_t<decltype(bs[0].x)>;
            std::remove_const_t<std::remove_reference_t<decltype(bs)>> ok;
            for (auto &b : bs) if (b.m.c.size() == 1) ok.push_back(b);
            if constexpr (!std::is_arithmetic<B>::value) if (!ok.empty()) pairs(ka, as, {}, kb, ok);
        });
    });
#else
    grades<KA, KB>();
#endif
}

#elif PART == 3
#ifdef NS
#define CALL(F) NS::F(x)
#define TRANS(t, x) NS::translate(t, x)
#else
#define CALL(F) ga::F(x, mtr)
#define TRANS(t, x) ga::translate(t, x, mtr)
#endif
void explore() {
    constexpr int K = MC_K; // grade of the direction
    ref::Metric m = ref::Metric::sig(n, 0, 0); MV ep = MV::blade(Bits(1) << D);
    for (MV const &E : directions(D, K, DVALS)) for (auto const &pt : tuples(D, VALS)) for (int s : {1, -2}) {
        MV p = vec(pt), X = ref::scale(ref::op(ep + p, E), s), dir = ref::scale(E, s);
        MV closest = K == 0 ? p : p - ref::gp(ref::lcont(p, E, m), ref::inv(E, m), m);
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + SP + "/" + E.str() + " at " + p.str() + " times " + std::to_string(s); }; };
        mc::section("flats " + SP + " " + E.str() + " at " + p.str()); mc::state(mc::hash(X));
        auto queries = [&](auto const &x) {
            mc::eq(obs::see(CALL(flat_direction)), dir, key("direction"), TOL);
            mc::eq(obs::see(CALL(flat_moment)), ref::op(p, dir), key("moment"), TOL);
            mc::eq(obs::see(CALL(flat_support_vector)), closest, key("support vector"), TOL);
            mc::eq(obs::see(CALL(flat_unit_support_point)), ep + closest, key("unit support point"), TOL);
        };
        auto x = make<KIND_(K + 1)>(X); auto free = make<ga::full_kvector_t<double, n, K>>(dir);
        queries(x);
        mc::eq(obs::see(ga::op(x, make<ga::full_vector_t<double, n>>(ep + closest), mtr)), MV(), key("the support point lies on the flat"), TOL);
        for (auto const &tt : tuples(D, VALS)) {
            MV t = vec(tt), want = ref::scale(ref::op(ep + p + t, E), s);
            auto key2 = [&](char const *w) { return [&, w] { return std::string(w) + "/" + SP + "/" + E.str() + " at " + p.str() + " times " + std::to_string(s) + " by " + t.str(); }; };
            auto tv = make<ga::full_vector_t<double, D>>(t); auto ti = make<ga::full_vector_t<int, n>>(t);
            auto y = TRANS(tv, x); mc::eq(obs::see(y), want, key2("translate"), TOL);
            mc::eq(obs::see(TRANS(ti, x)), want, key2("translate (integers)"), TOL);
            mc::eq(obs::see(TRANS(tv, free)), dir, key2("translate a direction"), TOL);
            // there and back, and twice
            auto mt = make<ga::full_vector_t<double, D>>(-t);
            mc::eq(obs::see(TRANS(mt, y)), X, key2("translate back"), TOL);
            mc::eq(obs::see(TRANS(ga::e(ga::c<1>), y)), ref::scale(ref::op(ep + p + t + MV::blade(1), E), s), key2("then by e1"), TOL);
        }
        mc::trace();
    }
}
#endif
