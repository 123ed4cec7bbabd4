// C11: grade, largest_grade, take_grade, take_largest_grade, is_zero around the tolerance, for every representation.
#include <gatl/ga.hpp>
#include <limits>
#include "zoo.hpp"
using namespace kinds;
using namespace ga;
constexpr int n = MC_N;

#if LARGEST >= 1 || defined TAKE_LARGEST // the compile-time cost of take_largest_grade limits where it is explored
#define TL1(...) , __VA_ARGS__
#else
#define TL1(...)
#endif
#if LARGEST >= 2
#define TL2(...) , __VA_ARGS__
#else
#define TL2(...)
#endif
#if LARGEST >= 0
#define GR(...) grade(__VA_ARGS__)
#else
#define GR(...) 0
#endif
struct Expect { int grade, largest; };
Expect model(MV const &m, Num tol) {
    int g = -2, l = -2;
    for (auto &t : m.c) if (std::fabs(t.second) > tol) { int k = ref::popc(t.first); g = g == -2 ? k : g == k ? g : -1; l = std::max(l, k); }
    return {g, l};
}
template<typename X> std::true_type stored_type(X const &);
template<typename X> struct coeff { using t = X; };
template<typename T, typename E> struct coeff<clifford_expression<T, E>> { using t = T; };

template<typename X, typename G> void one(std::string const &kind, item<X> const &s, Num tol, char const *tname, G const &call) {
    Expect e = model(s.m, tol);
    auto key = [&](char const *w) { return [&, w] { return std::string(w) + "/" + kind + "/" + tname + "/" + s.m.str(); }; };
    call(s.x, [&](auto const &g, auto const &l, auto const &...tls) {
#if LARGEST >= 0
        mc::same((int)(grade_t)g, e.grade, key("grade"));
        mc::check(g.flag() == (e.grade >= 0 ? SINGLE_GRADE : e.grade == -1 ? MIXED_GRADE : UNDETERMINED_GRADE), key("flag"));
#endif
        mc::eq(obs::see(l), MV(e.largest), key("largest_grade"));
        MV want = e.largest < 0 ? MV() : ref::grade_part(s.m, e.largest);
        auto part = [&](auto const &tl) { MV got = obs::see(tl); mc::check(ref::near(got, want, e.largest < 0 ? tol : 0), key("take_largest_grade"), "library: " + got.str() + " ; model: " + want.str()); };
        (void)std::initializer_list<int>{(part(tls), 0)...}; (void)part; (void)want;
    });
}
template<typename X> void queries(std::string const &kind, items<X> const &ss) {
    using T = typename coeff<X>::t;
    Num dt = (Num)default_tolerance<T>();
    mc::section("grades/" + kind);
    for (auto &s : ss) {
        mc::state(mc::mix(mc::hash(kind), mc::hash(s.m)));
        one(kind, s, dt, "default", [](auto const &x, auto const &f) { f(GR(x), largest_grade(x) TL1(take_largest_grade(x))); });
        one(kind, s, 0, "0", [](auto const &x, auto const &f) { f(GR(x, 0), largest_grade(x, 0) TL2(take_largest_grade(x, 0))); });
        one(kind, s, 2, "2", [](auto const &x, auto const &f) { f(GR(x, 2), largest_grade(x, 2) TL2(take_largest_grade(x, 2))); });
        if constexpr (std::is_floating_point<T>::value) one(kind, s, 0.5, "0.5", [](auto const &x, auto const &f) { f(GR(x, 0.5), largest_grade(x, 0.5) TL2(take_largest_grade(x, 0.5))); });
        one(kind, s, 1, "c1", [](auto const &x, auto const &f) { f(GR(x, c<1>), largest_grade(x, c<1>) TL2(take_largest_grade(x, c<1>))); });
        bool z = true, z2 = true; for (auto &t : s.m.c) { if (std::fabs(t.second) > dt) z = false; if (std::fabs(t.second) > 2) z2 = false; }
        if constexpr (!std::is_arithmetic<X>::value) {
        mc::same((bool)is_zero(s.x), z, [&] { return "is_zero/" + kind + "/" + s.m.str(); });
        mc::same((bool)is_zero(s.x, 2), z2, [&] { return "is_zero2/" + kind + "/" + s.m.str(); });
        }
        // grade parts: run-time and compile-time grades, also absent ones
        for (int k = -1; k <= n + 1; ++k) mc::eq(obs::see(take_grade(s.x, (grade_t)k)), ref::grade_part(s.m, k), [&] { return "take_grade/" + kind + "/" + std::to_string(k) + "/" + s.m.str(); });
        mc::eq(obs::see(take_grade(s.x, scalar((grade_t)1))), ref::grade_part(s.m, 1), [&] { return "take_grade/" + kind + "/scalar1/" + s.m.str(); });
        each_int([&](auto kk) { constexpr int k = decltype(kk)::value - 1; mc::eq(obs::see(take_grade(s.x, c<k>)), ref::grade_part(s.m, k), [&] { return "take_grade/" + kind + "/c" + std::to_string(k) + "/" + s.m.str(); }); }, std::make_integer_sequence<int, n + 3>());
        // the grade parts add up
        MV sum; for (int k = 0; k <= n; ++k) sum = sum + obs::see(take_grade(s.x, (grade_t)k));
        mc::eq(sum, s.m, [&] { return "grade parts add up/" + kind + "/" + s.m.str(); });
    }
    mc::trace();
}
template<typename X> items<X> patterns(std::vector<double> const &vals, int pick) { // all assignments of vals to up to `pick` blades at once
    using V = typename X::value_type;
    std::vector<Bits> bs; blades_of<typename X::expression_type>::run(bs, n);
    items<X> r;
    std::function<void(std::size_t, int, MV const &)> rec = [&](std::size_t i, int left, MV const &m) {
        X x; put(x, m); r.push_back({x, obs::see(x)});
        if (left) for (std::size_t j = i; j < bs.size(); ++j) for (double v : vals) { MV m2 = m; m2.add(bs[j], (V)v); rec(j + 1, left - 1, m2); }
    };
    rec(0, pick, MV());
    return r;
}
template<typename T> std::vector<double> around() {
    double t = (double)default_tolerance<T>();
    if (std::is_integral<T>::value) return {1, -2, 3};
    if (std::is_same<T, float>::value) { float f = (float)t; return {f, -f, (double)std::nextafter(f, 1.f), -(double)std::nextafter(f, 0.f), 0.5, -0.75, 2, 2.5}; }
    return {t, -t, std::nextafter(t, 1), -std::nextafter(t, 0), 0.5, -std::nextafter(0.5, 1), 2, -2.5};
}
// blades of every grade up to 63, alone and in sums of two
template<typename X> void tall(std::string const &kind, items<X> const &ss) {
    using T = typename coeff<X>::t;
    Num dt = (Num)default_tolerance<T>();
    mc::section("tall/" + kind);
    for (auto &s : ss) {
        mc::state(mc::mix(mc::hash(kind), mc::hash(s.m)));
        one(kind, s, dt, "default", [](auto const &x, auto const &f) { f(GR(x), largest_grade(x), take_largest_grade(x)); });
        one(kind, s, 2, "2", [](auto const &x, auto const &f) { f(GR(x, 2), largest_grade(x, 2), take_largest_grade(x, 2)); });
        MV sum;
        for (int k = -1; k <= 64; ++k) { MV p = obs::see(take_grade(s.x, (grade_t)k)); sum = sum + p; mc::eq(p, ref::grade_part(s.m, k), [&] { return "take_grade/" + kind + "/" + std::to_string(k) + "/" + s.m.str(); }); }
        mc::eq(sum, s.m, [&] { return "grade parts add up/" + kind + "/" + s.m.str(); });
        std::initializer_list<int>{(mc::eq(obs::see(take_grade(s.x, c<0>)), ref::grade_part(s.m, 0), [&] { return "take_grade/" + kind + "/c0/" + s.m.str(); }), 0)};
        mc::eq(obs::see(take_grade(s.x, c<31>)), ref::grade_part(s.m, 31), [&] { return "take_grade/" + kind + "/c31/" + s.m.str(); });
        mc::eq(obs::see(take_grade(s.x, c<32>)), ref::grade_part(s.m, 32), [&] { return "take_grade/" + kind + "/c32/" + s.m.str(); });
        mc::eq(obs::see(take_grade(s.x, c<62>)), ref::grade_part(s.m, 62), [&] { return "take_grade/" + kind + "/c62/" + s.m.str(); });
        mc::eq(obs::see(take_grade(s.x, c<63>)), ref::grade_part(s.m, 63), [&] { return "take_grade/" + kind + "/c63/" + s.m.str(); });
    }
    mc::trace();
}
template<typename X> items<X> every_grade(int lo, int hi, int top) { // of each grade: the lowest, the highest and a spread-out blade of e1..e<top>
    items<X> r;
    for (int g = lo; g <= hi; ++g) {
        Bits low = g == 64 ? ~Bits(0) : ((Bits(1) << g) - 1), spread = 0;
        for (int i = 0, k = 0; k < g; ++k, i += (i + 2 < top && (top - i - 2) >= (g - k - 1)) ? 2 : 1) spread |= Bits(1) << i;
        for (Bits b : {low, low << (top - g), spread}) for (double v : {-3.0, 1.0, 0.0}) { X x; put(x, MV::blade(b, v)); r.push_back({x, obs::see(x)}); }
    }
    return r;
}
void explore() {
#if PART == 5
    auto dyn = every_grade<scaled_basis_blade_t<int, 0, 63>>(0, 63, 63);
    tall("dyn", dyn);
    tall("dynd", every_grade<scaled_basis_blade_t<double, 0, 63>>(0, 63, 63));
    tall("upper", every_grade<scaled_basis_blade_t<int, 31, 63>>(31, 63, 63));
    each_int([&](auto k) { constexpr int g = "\0\1\2\36\37\40\41\76\77"[decltype(k)::value]; tall("g" + std::to_string(g), every_grade<scaled_basis_blade_t<int, g>>(g, g, 63)); }, std::make_integer_sequence<int, 9>());
    auto sums = [&](char const *name, auto const &fixed, MV const &fm) {
        using X = std::decay_t<decltype(dyn[0].x + fixed)>;
        items<X> q;
        for (auto &x : dyn) if (!x.m.c.empty() && x.m[fm.c.begin()->first] == 0) q.push_back({x.x + fixed, x.m + fm});
        tall(name, q);
    };
    sums("dyn+e63", kblade<(Bits(1) << 62), 3>(), MV::blade(Bits(1) << 62, 3));
    sums("dyn+g31", kblade<0x7FFFFFFFu, 3>(), MV::blade(0x7FFFFFFFu, 3));
    sums("dyn+g63", kblade<((~Bits(0)) >> 1), 3>(), MV::blade((~Bits(0)) >> 1, 3));
    sums("dyn+1", scalar(3), MV::blade(0, 3));
#elif PART == 1
    zoo<n, MASK>([](std::string const &k, auto const &xs) { queries(k, xs); });
#elif PART == 2
#define Q(...) Q2(__VA_ARGS__)
#define Q2(...) queries(#__VA_ARGS__, patterns<__VA_ARGS__>(around<typename __VA_ARGS__::value_type>(), PICK));
#ifdef ONLYQ
    Q(ONLYQ)
#else
    Q(full_multivector_t<double, n>) Q(full_multivector_t<float, n>) Q(full_multivector_t<int, n>)
    Q(full_vector_t<double, n>) Q(full_multivector_t<double, n, 1, n>)
    Q(scaled_basis_blade_t<double, 0, n>) Q(scaled_basis_blade_t<float, 0, n>)
#endif
#elif PART == 3 // sums that only meet at run time
    // (blades that coincide at run time stay separate components: see the part below)
    { using A = scaled_basis_blade_t<double, 0, n>;
      auto a = patterns<A>({0.5, -2, 3}, 1); auto a0 = blades<A>(n, {1});
      items<std::decay_t<decltype(a[0].x + kblade<1, 2>())>> q; for (auto &x : a) if (x.m[1] == 0) q.push_back({x.x + kblade<1, 2>(), x.m + MV::blade(1, 2)});
      items<std::decay_t<decltype(a[0].x + make<full_vector_t<double, n>>(MV()))>> w; for (auto &x : a) for (double v : {0.5, -2.0, 3.0}) { MV m = MV::blade(2, v); auto y = x.x + make<full_vector_t<double, n>>(m); if (x.m[2] == 0) w.push_back({y, x.m + m}); }
      queries("dyn+k", q); queries("dyn+vec", w); }
#elif PART == 4 // known finding: entries for the same blade that meet only at run time are judged one by one
    auto d = make<scaled_basis_blade_t<double, 0, n>>(MV::blade(1, -2));
    auto z = d + kblade<1, 2>(); // = 0
    mc::section("coinciding"); mc::state(1); mc::state(2); mc::trace();
    mc::eq(obs::see(z), MV(), [] { return std::string("coinciding/value"); });
    mc::check(is_zero(z), [] { return std::string("coinciding/is_zero"); }, "is_zero(-2*e1 + 2*e1) is false: the run-time e1 and the compile-time e1 are separate components");
    mc::check((int)(grade_t)grade(z) == UNDETERMINED_GRADE, [] { return std::string("coinciding/grade"); }, "grade(-2*e1 + 2*e1) is 1");
    mc::check((int)(grade_t)largest_grade(z) < 0, [] { return std::string("coinciding/largest_grade"); }, "largest_grade(-2*e1 + 2*e1) is 1");
#endif
}
