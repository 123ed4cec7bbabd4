// C16: delta product, meet, join and plunge of every pair of blades built from small integer vectors, against linear algebra.
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "versors.hpp"

template<typename X> struct blade_item { X x; MV m; std::vector<MV> f; }; // a blade, its reference value and vectors spanning it
template<typename X> using blade_items = std::vector<blade_item<X>>;

inline std::vector<MV> small_vectors(int n, std::vector<int> const &vals) {
    std::vector<MV> r; std::vector<std::size_t> ix(n, 0);
    for (;;) {
        MV m; for (int i = 0; i < n; ++i) m.add(Bits(1) << i, vals[ix[i]]);
        if (!m.zero()) r.push_back(m);
        int i = 0; for (; i < n; ++i) { if (++ix[i] < vals.size()) break; ix[i] = 0; }
        if (i == n) break;
    }
    return r;
}
// every outer product of k small vectors (each value once)
inline std::vector<std::pair<MV, std::vector<MV>>> spans(int n, int k, std::vector<int> const &vals) {
    auto vs = small_vectors(n, vals);
    std::map<MV, std::vector<MV>> cur{{MV(1), {}}};
    for (int i = 0; i < k; ++i) {
        std::map<MV, std::vector<MV>> next;
        for (auto &a : cur) for (auto &v : vs) { MV w = ref::op(a.first, v); if (w.zero()) continue; auto f = a.second; f.push_back(v); next.emplace(w, f); }
        cur = next;
    }
    std::vector<std::pair<MV, std::vector<MV>>> r;
    if (k == 0) for (int s : {1, -2}) r.push_back({MV(s), {}});
    else { // blades that differ only by scale describe the same subspace: keep two of each
        std::map<MV, int> seen;
        for (auto &c : cur) { MV u = ref::scale(c.first, 1 / c.first.c.begin()->second); if (++seen[u] <= 2) r.push_back(c); }
    }
    return r;
}
template<typename X> blade_items<X> of_grade(int n, int k, std::vector<int> const &vals) {
    blade_items<X> r; for (auto &s : spans(n, k, vals)) r.push_back({make<X>(s.first), s.first, s.second}); return r;
}
template<typename X> blade_items<X> of_basis(items<X> const &xs) {
    blade_items<X> r;
    for (auto &x : xs) {
        if (x.m.zero()) continue;
        std::vector<MV> f; bool one = x.m.c.size() == 1, vec = true;
        for (auto &t : x.m.c) if (ref::popc(t.first) != 1) vec = false;
        if (vec) f.push_back(x.m);
        else if (one) { for (int i = 0; i < 63; ++i) if (x.m.c.begin()->first >> i & 1) f.push_back(MV::blade(Bits(1) << i)); }
        else continue;
        r.push_back({x.x, x.m, f});
    }
    return r;
}
inline std::vector<MV> join_vectors(std::vector<MV> f, std::vector<MV> const &g) { // a basis of the union, extending f
    MV w(1); for (auto &v : f) w = ref::op(w, v);
    for (auto &v : g) { MV x = ref::op(w, v); if (!x.zero()) { w = x; f.push_back(v); } }
    return f;
}
template<typename J> MV see_of(J const &x) { return obs::see(x); }

template<int n, typename A, typename B, typename Call, typename CallF>
void subspace_checks(std::string const &what, blade_items<A> const &as, blade_items<B> const &bs, Call call, CallF callf, Num eps) {
    ref::Metric em = ref::Metric::sig(n, 0, 0);
    mc::section(what);
    for (auto &a : as) for (auto &b : bs) {
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + what + "/" + a.m.str() + "," + b.m.str(); }; };
        auto jv = join_vectors(a.f, b.f);
        MV J(1); for (auto &v : jv) J = ref::op(J, v);
        MV Mt = ref::lcont(ref::lcont(b.m, ref::inv(J, em), em), a.m, em); // Euclidean meet, a known identity: (B _| J^-1) _| A
        mc::check((int)(a.f.size() + b.f.size() - jv.size()) == ref::largest_grade(Mt, 1e-9L), key("oracle"), "the two definitions of the intersection disagree");
        MV meet, join; std::tie(meet, join) = call(a, b);
        meet = ref::clean(meet, eps * std::max(Num(1), meet.maxabs())); join = ref::clean(join, eps * std::max(Num(1), join.maxabs()));
        auto par = [&](MV const &x, MV const &y, char const *w) { mc::check(ref::parallel(x, y, eps), key(w), "library: " + x.str() + " ; model (any multiple): " + y.str()); };
        par(meet, Mt, "meet"); par(join, J, "join");
        auto [fm, fj] = callf(a, b);
        fm = ref::clean(fm, eps * std::max(Num(1), fm.maxabs())); fj = ref::clean(fj, eps * std::max(Num(1), fj.maxabs()));
        par(fm, Mt, "fast meet"); par(fj, J, "fast join");
        mc::eq(obs::see(a.x), a.m, key("left operand")); mc::eq(obs::see(b.x), b.m, key("right operand"));
        mc::state(mc::mix(mc::hash(what), mc::mix(mc::hash(a.m), mc::hash(b.m))));
        mc::trace();
    }
}
#if PART == 1 // delta products
template<typename A, typename B, typename M> void deltas(std::string const &ka, items<A> const &as, std::string const &kb, items<B> const &bs, M const &m, ref::Metric const &rm, std::string const &sp) {
    mc::section("dp/" + sp + "/" + ka + "/" + kb);
    for (auto &a : as) for (auto &b : bs) {
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + sp + "/" + ka + "/" + kb + "/" + a.m.str() + "," + b.m.str(); }; };
        mc::eq(obs::see(dp(a.x, b.x, m)), ref::dp(a.m, b.m, 1e-9L, rm), key("dp"));
#ifdef TOLS
        mc::eq(obs::see(dp(a.x, b.x, 2, m)), ref::dp(a.m, b.m, 2, rm), key("dp tol 2"));
        mc::eq(obs::see(dp(a.x, b.x, 5.5, m)), ref::dp(a.m, b.m, 5.5, rm), key("dp tol 5.5"));
#endif
        mc::state(mc::mix(mc::hash(sp + ka + kb), mc::mix(mc::hash(a.m), mc::hash(b.m))));
    }
    mc::trace();
}
template<int P, int Q, int R> void sig() {
    constexpr int n = P + Q + R;
    signed_metric_space<P, Q, R> m; ref::Metric rm = ref::Metric::sig(P, Q, R); std::string sp = sigkey(P, Q, R);
    zoo<n, MASKA>([&](std::string const &ka, auto const &as) { zoo<n, MASKB>([&](std::string const &kb, auto const &bs) { deltas(ka, as, kb, bs, m, rm, sp); }); });
}
void explore() {
#define S(p, q, r) sig<p, q, r>();
    SIGS
}
#elif PART == 2 // meet, join and plunge of blades of fixed grade held as k-vectors
template<int P, int Q, int R> void plunges_of() {}
void explore() {
    constexpr int n = MC_N;
    using A = full_kvector_t<TA, n, KA>; using B = full_kvector_t<TB, n, KB>;
    constexpr bool flt = std::is_same<std::common_type_t<TA, TB>, float>::value;
    Num eps = flt ? 1e-3L : 1e-9L;
    euclidean_metric_space<n> m;
    std::vector<int> vals VALS;
    auto as = of_grade<A>(n, KA, vals); auto bs = of_grade<B>(n, KB, vals);
    std::string what = std::to_string(n) + "d/" + std::to_string(KA) + "," + std::to_string(KB);
    if (flt) {
        subspace_checks<n>("meet/float/" + what, as, bs, [&](auto &a, auto &b) { auto r = meet_and_join(a.x, b.x, 1e-4f, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); },
            [&](auto &a, auto &b) { auto r = fast_meet_and_join(a.x, b.x, 1e-4f, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); }, eps);
    }
    else {
        subspace_checks<n>("meet/default/" + what, as, bs, [&](auto &a, auto &b) { auto r = meet_and_join(a.x, b.x, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); },
            [&](auto &a, auto &b) { auto r = fast_meet_and_join(a.x, b.x, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); }, eps);
        subspace_checks<n>("meet/tol/" + what, as, bs, [&](auto &a, auto &b) { auto r = meet_and_join(a.x, b.x, 1e-6, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); },
            [&](auto &a, auto &b) { auto r = fast_meet_and_join(a.x, b.x, 1e-6, m); auto j = fast_join(a.x, b.x, 1e-6, m); mc::check(obs::see(j) == obs::see(std::get<1>(r)), [] { return std::string("fast_join"); }); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); }, eps);
    }
}
#elif PART == 3 // blades chosen at run time, compile-time constants, and spaces where k-vectors of any grade are blades held in full multivectors
template<int n, typename A, typename B> void both(std::string const &what, blade_items<A> const &as, blade_items<B> const &bs) {
    euclidean_metric_space<n> m;
    subspace_checks<n>("meet/" + what, as, bs, [&](auto &a, auto &b) { auto r = meet_and_join(a.x, b.x, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); },
        [&](auto &a, auto &b) { auto r = fast_meet_and_join(a.x, b.x, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); }, 1e-9L);
}
void explore() {
    constexpr int n = MC_N;
    zoo<n, MASKA>([&](std::string const &ka, auto const &as) { zoo<n, MASKB>([&](std::string const &kb, auto const &bs) {
        if constexpr (is_clifford_expression_v<std::decay_t<decltype(as[0].x)>> && is_clifford_expression_v<std::decay_t<decltype(bs[0].x)>>) both<n>(ka + "," + kb, of_basis(as), of_basis(bs));
    }); });
}
#elif PART == 6 // every basis blade with the blade V, in higher dimensions; zero operands
template<int n, typename A, typename B> void both(std::string const &what, blade_items<A> const &as, blade_items<B> const &bs) {
    euclidean_metric_space<n> m;
    subspace_checks<n>("meet/" + what, as, bs, [&](auto &a, auto &b) { auto r = meet_and_join(a.x, b.x, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); },
        [&](auto &a, auto &b) { auto r = fast_meet_and_join(a.x, b.x, m); return std::make_pair(obs::see(std::get<0>(r)), obs::see(std::get<1>(r))); }, 1e-9L);
}
void explore() {
    constexpr int n = MC_N;
    auto held = [](auto v) { using X = cblade<double, decltype(v)::value>; items<X> r; for (double k : {2.0, -3.0}) { X x; put(x, MV::blade((Bits)decltype(v)::value, k)); r.push_back({x, obs::see(x)}); } return r; };
    auto as = held(std::integral_constant<bitset_t, BLADE_V>()); euclidean_metric_space<n> m;
    each_bits([&](auto k) { constexpr bitset_t W = FROM + decltype(k)::value; auto bs = held(std::integral_constant<bitset_t, W>()); both<n>(std::to_string(n) + "d/" + std::to_string(BLADE_V) + "," + std::to_string(W), of_basis(as), of_basis(bs));
        // a zero operand has no subspace: everything is zero
        auto z = bs[0].x; put(z, MV::blade((Bits)W, 0)); auto key = [&](char const *w) { return [&, w] { return std::string("zero/") + w + "/" + std::to_string(n) + "d/" + std::to_string(BLADE_V) + "," + std::to_string(W); }; };
        auto const l = meet_and_join(as[0].x, z, m), r = meet_and_join(z, as[0].x, m); mc::check(obs::see(std::get<0>(l)).zero() && obs::see(std::get<1>(l)).zero() && obs::see(std::get<0>(r)).zero() && obs::see(std::get<1>(r)).zero(), key("meet_and_join"), "not zero");
        mc::check(obs::see(fast_join(as[0].x, z, m)).zero() && obs::see(fast_join(z, as[0].x, m)).zero(), key("fast_join"), "not zero"); }, std::make_integer_sequence<bitset_t, HOW_MANY>());
}
#elif PART == 4 // plunge in metric spaces
template<int P, int Q, int R> void sig() {
    constexpr int n = P + Q + R;
    signed_metric_space<P, Q, R> m; ref::Metric rm = ref::Metric::sig(P, Q, R);
    using A = full_kvector_t<double, n, KA>; using B = full_kvector_t<TB, n, KB>;
    std::vector<int> vals VALS;
    auto as = of_grade<A>(n, KA, vals); auto bs = of_grade<B>(n, KB, vals);
    std::string what = "plunge/" + sigkey(P, Q, R) + "/" + std::to_string(KA) + "," + std::to_string(KB);
    mc::section(what);
    for (auto &a : as) for (auto &b : bs) {
        auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + what + "/" + a.m.str() + "," + b.m.str(); }; };
        auto jv = join_vectors(a.f, b.f); MV J(1); for (auto &v : jv) J = ref::op(J, v);
        if (std::fabs(ref::norm2(J, rm)) < 1e-9L) continue;
        MV want = ref::op(ref::dual(b.m, J, rm), ref::dual(a.m, J, rm));
        auto clean = [&](MV const &x) { return ref::clean(x, 1e-9L * std::max(Num(1), x.maxabs())); };
        MV p = clean(obs::see(plunge(a.x, b.x, m))), f = clean(obs::see(fast_plunge(a.x, b.x, m)));
        mc::check(ref::parallel(p, clean(want)), key("plunge"), "library: " + p.str() + " ; model (any multiple): " + want.str());
        mc::check(ref::parallel(f, clean(want)), key("fast plunge"), "library: " + f.str() + " ; model (any multiple): " + want.str());
        // its definition from the library's own join, scale included
        MV lj = clean(obs::see(std::get<1>(meet_and_join(a.x, b.x, m)))), fj = clean(obs::see(fast_join(a.x, b.x, m)));
        mc::eq(p, clean(ref::op(ref::dual(b.m, lj, rm), ref::dual(a.m, lj, rm))), key("plunge in the join"), 1e-8L);
        mc::eq(f, clean(ref::op(ref::dual(b.m, fj, rm), ref::dual(a.m, fj, rm))), key("fast plunge in the join"), 1e-8L);
        // it completes: every factor of A or B is orthogonal to the duals it is made of
        mc::eq(clean(obs::see(plunge(a.x, b.x, 1e-6, m))), p, key("plunge tol"), 1e-9L); mc::eq(clean(obs::see(fast_plunge(a.x, b.x, 1e-6, m))), f, key("fast plunge tol"), 1e-9L);
        mc::state(mc::mix(mc::hash(what), mc::mix(mc::hash(a.m), mc::hash(b.m)))); mc::trace();
    }
}
void explore() {
#define S(p, q, r) sig<p, q, r>();
    SIGS
}
#endif
