// C10: copies and conversions between representations: every pair of types, every pattern of coefficients around the
// tolerance, every way of copying; the destination is filled with other values beforehand.
#include <gatl/ga.hpp>
#include "zoo.hpp"
using namespace kinds;
using namespace ga;

constexpr int n = MC_N;
template<typename X> struct type { using t = X; };
template<typename E> struct only_const : std::true_type {}; // every blade of the expression is fixed at compile time
template<typename C, ga::bitset_t G, typename B> struct only_const<gd::component<C, gd::dynamic_basis_blade<G, B>>> : std::false_type {};
template<typename... Cs> struct only_const<gd::add<Cs...>> : std::conjunction<only_const<Cs>...> {};
template<typename E, ga::bitset_t V> struct slot : std::false_type {};
template<typename C, ga::bitset_t V> struct slot<gd::component<C, gd::constant_basis_blade<V>>, V> : std::true_type {};
template<typename... Cs, ga::bitset_t V> struct slot<gd::add<Cs...>, V> : std::disjunction<slot<Cs, V>...> {};
template<typename X> using E_of = typename X::expression_type;
template<typename X> bool holds(Bits b) { // the type has a slot for this blade
    std::vector<Bits> r; blades_of<E_of<X>>::run(r, n);
    return std::find(r.begin(), r.end(), b) != r.end();
}
template<typename X> std::string hist(X const &x, char const *how) { return std::string(how) + "/" + obs::see(x).str(); }

template<typename D> D garbage() { // every entry set to something else
    D d; for (auto it = d.values().begin(); it != d.values().end(); ++it) *it = (std::decay_t<decltype(*it)>)77;
    for (auto it = d.bitsets().begin(); it != d.bitsets().end(); ++it) *it = (bitset_t)((bitset_t(1) << n) - 1);
    return d;
}
// exact = the forms agree, so that success is required when everything fits; otherwise only "exact or reported"
template<typename S, typename D> void copy_pair(std::string const &ks, items<S> const &ss, std::string const &kd, type<D>, bool exact, Num deftol) {
    mc::section("copy/" + ks + "->" + kd);
    for (auto &s : ss) for (int way = 0; way < (std::is_arithmetic<S>::value ? 4 : 5); ++way) {
        Num tol = way == 1 ? 0 : way == 2 ? 0.5L : way == 3 ? 2 : deftol;
        MV want; bool fits = true;
        for (auto &t : s.m.c) { if (holds<D>(t.first)) want.add(t.first, (Num)(typename D::value_type)t.second); else if (std::fabs(t.second) > tol) fits = false; }
        bool ok = true; MV got; std::string other;
        try {
            if (way == 4) { if constexpr (!std::is_arithmetic<S>::value) { D d = s.x; got = obs::see(d); D d2 = garbage<D>(); d2 = s.x; if (!(obs::see(d2) == got)) other = "assignment differs"; D d3(s.x); if (!(obs::see(d3) == got)) other = "construction differs"; } }
            else { D d = garbage<D>();
                if (way == 0) checked_trivial_copy(s.x, d); else if (way == 1) checked_trivial_copy(s.x, d, 0); else if (way == 2) checked_trivial_copy(s.x, d, 0.5); else checked_trivial_copy(s.x, d, 2);
                got = obs::see(d); }
        } catch (bad_checked_copy_exception const &e) { ok = false; if (std::string(e.what()).empty()) other = "no message"; }
        auto key = [&] { return "copy/" + ks + "->" + kd + "/way" + std::to_string(way) + "/" + s.m.str(); };
        mc::state(mc::mix(mc::hash(ks + kd + std::to_string(way)), mc::hash(s.m)));
        if (ok) { if (exact) mc::eq(got, want, key); else mc::check(ref::near(got, want, tol), key, "library: " + got.str() + " ; model: " + want.str()); mc::check(fits, key, "a component that does not fit was dropped silently"); }
        else mc::check(!exact || !fits, key, "everything fits but the copy was refused");
        mc::check(other.empty(), key, other);
    }
    mc::trace();
}
template<typename S, typename D> void plain_pair(std::string const &ks, items<S> const &ss, std::string const &kd, type<D>) { // statically known to fit
    mc::section("plain/" + ks + "->" + kd);
    for (auto &s : ss) {
        auto key = [&](char const *w) { return [&, w] { return "plain/" + ks + "->" + kd + "/" + w + "/" + s.m.str(); }; };
        D d = garbage<D>(); trivial_copy(s.x, d); mc::eq(obs::see(d), s.m, key("trivial_copy"));
        D e = garbage<D>(); checked_trivial_copy(s.x, e); mc::eq(obs::see(e), s.m, key("checked"));
        D f = s.x; mc::eq(obs::see(f), s.m, key("init"));
        D g = garbage<D>(); g = s.x; mc::eq(obs::see(g), s.m, key("assign"));
        D h(g); mc::eq(obs::see(h), s.m, key("copy")); D i(std::move(h)); mc::eq(obs::see(i), s.m, key("move"));
        D j = garbage<D>(); j = g; j = j; mc::eq(obs::see(j), s.m, key("copy assign")); D k = garbage<D>(); k = std::move(g); mc::eq(obs::see(k), s.m, key("move assign"));
        mc::state(mc::mix(mc::hash(ks + kd), mc::hash(s.m)));
    }
    mc::trace();
}

template<typename F> void dests(F &&f) {
    f("full", type<full_multivector_t<double, n>>());
    f("fullf", type<full_multivector_t<float, n>>());
    f("g01", type<full_multivector_t<double, n, 0, 1>>());
    f("g12", type<full_multivector_t<double, n, 1, 2>>());
    f("scalar", type<full_kvector_t<double, n, 0>>());
    f("vec", type<full_vector_t<double, n>>());
    f("biv", type<full_kvector_t<double, n, 2>>());
    f("ps", type<full_kvector_t<double, n, n>>());
    f("c1", type<cblade<double, 1>>());
    f("c2", type<cblade<double, 2>>());
    f("c3", type<cblade<double, 3>>());
    f("even", type<decltype(make<full_kvector_t<double, n, 0>>(MV()) + make<full_kvector_t<double, n, 2>>(MV()))>());
    f("e1+e12", type<decltype(make<cblade<double, 1>>(MV()) + make<cblade<double, 3>>(MV()))>());
    f("derived", type<full_derived_multivector_t<double, E_of<decltype(kblade<1, 2>() + kblade<3, -3>() + kblade<0, 7>())>>>());
}
// patterns around the tolerances 0, 0.5, 2 and the default one
template<typename X> items<X> around(bool wide) {
    using V = typename X::value_type;
    double tiny = (double)default_tolerance<V>();
    std::vector<Bits> bs; blades_of<E_of<X>>::run(bs, n);
    std::vector<double> vals = wide ? std::vector<double>{0, 0.5, -0.5, 0.75, -2, 3, tiny, -2 * tiny, std::nextafter((float)0.5, 1.f), -(tiny + tiny / 4)} : std::vector<double>{0, -0.5, 2, tiny, 3 * tiny};
    items<X> r;
    auto add = [&](MV const &m) { X x; put(x, m); r.push_back({x, obs::see(x)}); };
    add(MV());
    for (Bits a : bs) for (double v : vals) add(MV::blade(a, (V)v));
    for (std::size_t i = 0; i < bs.size(); ++i) for (std::size_t j = i + 1; j < bs.size(); ++j) for (double v : {-0.5, 1.0}) for (double w : {0.25, -2.5, tiny}) { MV m = MV::blade(bs[i], (V)v); m.add(bs[j], (V)w); add(m); }
    MV m; for (std::size_t i = 0; i < bs.size(); ++i) m.add(bs[i], (Num)(V)(i + 1.5)); add(m);
    return r;
}
template<typename S, typename D> void pair_of(char const *ks, char const *kd, type<S>, type<D>) {
    if constexpr (n >= 2) {
        auto ss = around<S>(true);
        Num dt = (Num)default_tolerance<typename S::value_type>();
        copy_pair(ks, ss, kd, type<D>(), true, dt);
    }
}

void explore() {
#if PART == 1 // fixed blades into fixed blades
    int is = 0;
    dests([&](char const *ks, auto s) { if (is++ % PIECES != PIECE) return; });
    is = 0;
    dests([&](char const *ks, auto s) { ++is; if ((is - 1) % PIECES != PIECE) return; dests([&](char const *kd, auto d) { pair_of(ks, kd, s, d); }); });
#elif PART == 2 // constants, expressions with constants, natives, integers
    dests([&](char const *kd, auto d) {
        using D = typename decltype(d)::t;
        constexpr bool h0 = slot<E_of<D>, 0>::value, h1 = slot<E_of<D>, 1>::value, h3 = slot<E_of<D>, 3>::value; // constants that do not fit are refused at compile time
        if constexpr (h1) copy_pair("k1", single(kblade<1, 2>()), kd, d, true, 0);
        if constexpr (h3) copy_pair("k3", single(kblade<3, -1>()), kd, d, true, 0);
        if constexpr (h0) copy_pair("k0", single(c<5>), kd, d, true, 0);
        copy_pair("c0", single(c<0>), kd, d, true, 0);
        copy_pair("int", natives<int>({0, -3}), kd, d, true, 0); copy_pair("double", natives<double>({0, 0.25, -1.5}), kd, d, true, default_tolerance<double>()); copy_pair("scalar", scalars(), kd, d, true, default_tolerance<double>());
        if constexpr (h0 && h1 && h3) copy_pair("ki", single(kblade<1, 2>() + kblade<3, -3>() + kblade<0, 7>()), kd, d, true, 0);
        copy_pair("ifull", basis<full_multivector_t<int, n>>(n), kd, d, true, 0); copy_pair("lvec", basis<full_vector_t<long, n>>(n), kd, d, true, 0);
        if constexpr (h3) { auto v = basis<full_vector_t<double, n>>(n); items<std::decay_t<decltype(v[0].x + kblade<3, -2>())>> q; for (auto &a : v) q.push_back({a.x + kblade<3, -2>(), a.m + MV::blade(3, -2)}); copy_pair("vec+k", q, kd, d, true, default_tolerance<double>()); }
    });
#elif PART == 3 // copies known to fit
    auto full = type<full_multivector_t<double, n>>();
    zoo<n, Z_FULL | Z_KVEC | Z_CONST | Z_GRID>([&](std::string const &k, auto const &xs) { plain_pair(k, xs, "full", full); plain_pair(k, xs, "fulll", type<full_multivector_t<long, n>>()); });
    each_int([&](auto k) { constexpr int G = decltype(k)::value; plain_pair("kvec", basis<full_kvector_t<int, n, G>>(n), "same", type<full_kvector_t<double, n, G>>()); plain_pair("kvec", basis<full_kvector_t<int, n, G>>(n), "up", type<full_multivector_t<long double, n, 0, G>>()); }, std::make_integer_sequence<int, n + 1>());
#elif PART == 5 // sums with run-time blades, in every order
    auto letter = [](auto k) {
        constexpr int K = decltype(k)::value;
        if constexpr (K == 0) return blades<unit_basis_blade_t<0, n>>(n, {1});
        else if constexpr (K == 1) { auto us = blades<unit_basis_blade_t<1, 2>>(n, {1}); items<std::decay_t<decltype(c<-2> * us[0].x)>> r; for (auto &u : us) r.push_back({c<-2> * u.x, ref::scale(u.m, -2)}); return r; }
        else if constexpr (K == 2) return blades<scaled_basis_blade_t<int, 0, n>>(n, {2});
        else if constexpr (K == 3) return blades<scaled_basis_blade_t<double, 2>>(n, {-3, 0});
        else if constexpr (K == 4) { items<cblade<double, 1>> r; for (double v : {5.0, 0.0}) { cblade<double, 1> x; put(x, MV::blade(1, v)); r.push_back({x, obs::see(x)}); } return r; }
        else if constexpr (K == 5) return single(kblade<3, -7>());
        else return scalars();
    };
    auto few = [](auto xs, std::size_t m) { if (xs.size() > m) { auto last = xs.back(); xs.resize(m - 1); xs.push_back(last); } return xs; };
    auto derived = [&](std::string const &k, auto const &xs) {
        using X = std::decay_t<decltype(xs[0].x)>; plain_pair(k, xs, "derived", type<full_derived_multivector_t<double, E_of<X>>>()); plain_pair(k, xs, "same", type<X>());
    };
    each_int([&](auto a) { each_int([&](auto b) {
        if constexpr (a.value != b.value) {
            auto as = letter(a); auto bs = letter(b);
            items<std::decay_t<decltype(as[0].x + bs[0].x)>> q; for (auto &x : as) for (auto &y : bs) q.push_back({x.x + y.x, obs::see(x.x + y.x)});
            std::string k = "sum" + std::to_string(a.value) + std::to_string(b.value);
            derived(k, q);
            { using D = full_derived_multivector_t<double, E_of<std::decay_t<decltype(q[0].x)>>>; plain_pair(k + "<-left", as, "derived", type<D>()); plain_pair(k + "<-right", bs, "derived", type<D>()); }
            if constexpr (a.value >= PIECE * 7 / PIECES && a.value < (PIECE + 1) * 7 / PIECES) each_int([&](auto c_) {
                if constexpr (c_.value != a.value && c_.value != b.value) {
                    auto cs = few(letter(c_), 3);
                    auto qs = few(q, 9);
                    items<std::decay_t<decltype(qs[0].x + cs[0].x)>> r; for (auto &x : qs) for (auto &y : cs) r.push_back({x.x + y.x, obs::see(x.x + y.x)});
                    derived(k + std::to_string(c_.value), r);
                    { using D = full_derived_multivector_t<double, E_of<std::decay_t<decltype(r[0].x)>>>; plain_pair(k + std::to_string(c_.value) + "<-two", qs, "derived", type<D>()); plain_pair(k + std::to_string(c_.value) + "<-one", cs, "derived", type<D>()); }
                }
            }, std::make_integer_sequence<int, 7>());
        }
    }, std::make_integer_sequence<int, 7>()); }, std::make_integer_sequence<int, 7>());
#elif PART == 4 // run-time blades: into the same or wider grades exactly, into anything else exactly or reported
    auto same = [&](char const *ks, auto sp, auto dp) { plain_pair(ks, blades<typename decltype(sp)::t>(n, {2, -3, 0}), "same", dp); };
    same("dyn", type<scaled_basis_blade_t<int, 0, n>>(), type<scaled_basis_blade_t<double, 0, n>>()); same("dynl", type<scaled_basis_blade_t<double, 0, n>>(), type<scaled_basis_blade_t<long, 0, n>>());
    same("dyn12", type<scaled_basis_blade_t<int, 1, 2>>(), type<scaled_basis_blade_t<float, 1, 2>>()); same("dyn1", type<scaled_basis_blade_t<int, 1>>(), type<scaled_basis_vector_t<long>>()); same("dynn", type<scaled_basis_blade_t<int, n>>(), type<scaled_basis_blade_t<double, n>>());
    plain_pair("udyn", blades<unit_basis_blade_t<0, n>>(n, {1}), "dyn", type<scaled_basis_blade_t<double, 0, n>>());
    plain_pair("udyn", blades<unit_basis_blade_t<1, 2>>(n, {1}), "udyn", type<unit_basis_blade_t<1, 2>>());
    plain_pair("uvec", blades<unit_basis_vector_t>(n, {1}), "svec", type<scaled_basis_vector_t<double>>());
    { zoo<n, Z_MIX>([&](std::string const &k, auto const &xs) { using X = std::decay_t<decltype(xs[0].x)>; plain_pair(k, xs, "derived", type<full_derived_multivector_t<double, E_of<X>>>()); }); }
    auto loose = [&](char const *kd, auto d) {
        copy_pair("dyn12", blades<scaled_basis_blade_t<double, 1, 2>>(n, {2, 0, -1}), kd, d, false, default_tolerance<double>());
        copy_pair("vec", around<full_vector_t<double, n>>(false), kd, d, false, default_tolerance<double>());
        copy_pair("c3", around<cblade<float, 3>>(true), kd, d, false, default_tolerance<float>());
    };
    loose("dyn", type<scaled_basis_blade_t<double, 0, n>>()); loose("dyn2", type<scaled_basis_blade_t<double, 2>>()); loose("svec", type<scaled_basis_vector_t<float>>());
    dests([&](char const *kd, auto d) {
        copy_pair("dyn", blades<scaled_basis_blade_t<double, 0, n>>(n, {2, 0, -1}), kd, d, false, default_tolerance<double>());
        copy_pair("dyn1", blades<scaled_basis_blade_t<int, 1>>(n, {2, 0, -1}), kd, d, false, 0);
    });
#endif
}
