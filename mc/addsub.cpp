// C09: sums and differences, of every pair of representations, of every chain of operands up to a length, and with
// mixed coefficient types.
#include <gatl/ga.hpp>
#include "zoo.hpp"
using namespace kinds;
using namespace ga;

struct o_add { static char const *name() { return "+"; } template<typename A, typename B> static auto run(A const &a, B const &b) { return a + b; } static MV model(MV const &a, MV const &b) { return a + b; } };
struct o_sub { static char const *name() { return "-"; } template<typename A, typename B> static auto run(A const &a, B const &b) { return a - b; } static MV model(MV const &a, MV const &b) { return a - b; } };

template<typename Op, typename A, typename B> void two(std::string const &ka, items<A> const &as, std::string const &kb, items<B> const &bs) {
    if constexpr (std::is_arithmetic<A>::value && std::is_arithmetic<B>::value) return;
    else {
        mc::section(ka + Op::name() + kb);
        std::uint64_t hb = mc::hash(kb);
        for (auto &b : bs) mc::state(mc::mix(hb, mc::hash(b.m)));
        for (auto &a : as) {
            for (auto &b : bs) mc::eq(obs::see(Op::run(a.x, b.x)), Op::model(a.m, b.m), [&] { return ka + Op::name() + kb + "/" + a.m.str() + "," + b.m.str(); });
            mc::trace();
        }
    }
}
#if PART == 2 // chains: every sequence of operands of the alphabet, every sign, both association orders
template<int n> struct Alphabet {
    full_vector_t<int, n> v; scaled_basis_blade_t<int, 0, n> d; scaled_basis_blade_t<double, 1, 2> w; unit_basis_vector_t u; cblade<int, 1> c; full_multivector_t<long, n> f;
    MV mv, md, mw, mu, mcc, mf;
    template<int I> auto get() const {
        if constexpr (I == 0) return v; else if constexpr (I == 1) return d; else if constexpr (I == 2) return w; else if constexpr (I == 3) return u;
        else if constexpr (I == 4) return c; else if constexpr (I == 5) return kblade<1, -2>(); else if constexpr (I == 6) return 3; else if constexpr (I == 7) return f;
        else if constexpr (I == 8) return kblade<3, 5>(); else return 0.5;
    }
    MV model(int i) const { MV t[] = {mv, md, mw, mu, mcc, MV::blade(1, -2), MV(3), mf, MV::blade(3, 5), MV(0.5)}; return t[i]; }
};
constexpr int AN = ALPHA;
template<typename X> constexpr bool arith = std::is_arithmetic<std::decay_t<X>>::value;
template<int n, int depth, typename X> void chain(Alphabet<n> const &al, std::string const &h, X const &x, MV const &m) {
    if constexpr (depth == 0) mc::trace();
    else each_int([&](auto i) {
        constexpr int I = decltype(i)::value;
        if constexpr (!(depth < LEN - 1 && (I == 7 || I == 9))) {
        auto y = al.template get<I>(); MV my = al.model(I);
        std::string hp = h + "+" + std::to_string(I), hm = h + "-" + std::to_string(I), hr = std::to_string(I) + "-(" + h + ")";
        if constexpr (!(arith<X> && arith<decltype(y)>)) {
            auto p = x + y; auto q = x - y; auto r = y - x;
            mc::eq(obs::see(p), m + my, [&] { return "chain/" + hp + "/" + m.str(); });
            mc::eq(obs::see(q), m - my, [&] { return "chain/" + hm + "/" + m.str(); });
            mc::eq(obs::see(r), my - m, [&] { return "chain/" + hr + "/" + m.str(); });
            mc::state(mc::mix(mc::hash(hp), mc::hash(m + my))); mc::state(mc::mix(mc::hash(hm), mc::hash(m - my)));
            chain<n, depth - 1>(al, hp, p, m + my);
            if constexpr (depth >= LEN - 1) chain<n, depth - 1>(al, hm, q, m - my);
            else mc::trace();
        }
        }
    }, std::make_integer_sequence<int, AN>());
}
void chains() {
    constexpr int n = MC_N;
    int const vals[3][3] = {{1, 0, 2}, {0, -1, 1}, {-2, 1, -1}};
    for (int c = 0; c < 3; ++c) for (Bits db = 0; db < (Bits(1) << n); ++db) for (Bits wb : {Bits(1), Bits(2), Bits(3)}) for (int ui = 0; ui < 2; ++ui) {
        Alphabet<n> al;
        for (int i = 0; i < n; ++i) al.mv.add(Bits(1) << i, vals[c][i]);
        al.md = MV::blade(db, c - 1); al.mw = MV::blade(wb, 1.5); al.mu = MV::blade(Bits(1) << ui); al.mcc = MV::blade(1, 1 - c);
        for (Bits b = 0; b < (Bits(1) << n); ++b) al.mf.add(b, (int)((b * 5 + c * 3) % 7) - 3);
        put(al.v, al.mv); put(al.d, al.md); put(al.w, al.mw); put(al.u, al.mu); put(al.c, al.mcc); put(al.f, al.mf);
        each_int([&](auto i) { constexpr int I = decltype(i)::value + FIRST; chain<n, LEN - 1>(al, std::to_string(I), al.template get<I>(), al.model(I)); }, std::make_integer_sequence<int, COUNT>());
    }
}
#elif PART == 3 // coefficient types: every pair keeps the precision of the common type
template<typename T, typename U> void types(char const *t, char const *u) {
    constexpr int n = 2;
    std::vector<Num> tv, uv;
    auto fill = [](auto z, std::vector<Num> &v) {
        using Z = decltype(z);
        v = {0, 1, 2, 100};
        if (std::is_signed<Z>::value) { v.push_back(-1); v.push_back(-3); }
        if (std::is_floating_point<Z>::value) { v.push_back(0.25L); v.push_back(-2.75L); }
        if (sizeof(Z) >= 4) v.push_back(30001);
        if (sizeof(Z) >= 8 && !std::is_same<Z, float>::value) v.push_back(5000000001.0L);
    };
    fill(T(), tv); fill(U(), uv);
    mc::section(std::string("types/") + t + u);
    using R = std::common_type_t<T, U>;
    auto run = [&](auto pa, char const *ka, auto pb, char const *kb, bool same) {
        using A = decltype(pa); using B = decltype(pb);
        for (Num x : tv) for (Num y : uv) {
            if (std::is_unsigned<R>::value && std::is_integral<R>::value && (x < y || x < 0 || y < 0)) continue; // out of the type's range
            if (std::is_integral<R>::value && sizeof(R) < 8 && std::fabs(x) + std::fabs(y) > 2000000000.0L) continue;
            if (std::is_same<R, float>::value && (std::fabs(x) > 4e9L || std::fabs(y) > 4e9L)) continue;
            A a = make<A>(MV::blade(1, x)); B b = make<B>(MV::blade(same ? 1 : 2, y));
            MV ma = MV::blade(1, x), mb = MV::blade(same ? 1 : 2, y);
            auto key = [&](char const *o) { return [&, o] { return std::string("types/") + t + "," + u + "/" + ka + o + kb + "/" + ma.str() + "," + mb.str(); }; };
            mc::eq(obs::see(a + b), ma + mb, key("+")); 
            if (!std::is_unsigned<T>::value && !std::is_unsigned<U>::value) mc::eq(obs::see(a - b), ma - mb, key("-"));
            mc::state(mc::mix(mc::hash(std::string(t) + u + ka + kb), mc::hash(ma + mb)));
        }
        mc::trace();
    };
    run(full_vector_t<T, n>(), "vec", full_vector_t<U, n>(), "vec", true);
    run(full_vector_t<T, n>(), "vec", full_vector_t<U, n>(), "vec", false);
    run(scaled_basis_blade_t<T, 0, n>(), "dyn", scaled_basis_blade_t<U, 0, n>(), "dyn", true);
    run(scaled_basis_blade_t<T, 0, n>(), "dyn", scaled_basis_blade_t<U, 0, n>(), "dyn", false);
    run(cblade<T, 1>(), "c", cblade<U, 1>(), "c", true);
    run(full_vector_t<T, n>(), "vec", scaled_basis_blade_t<U, 0, n>(), "dyn", true);
}
template<typename T> void types1(char const *t) {
    types<T, int>(t, "int"); types<T, double>(t, "double"); types<T, float>(t, "float"); types<T, long>(t, "long"); types<T, long double>(t, "long double"); types<T, unsigned long>(t, "ulong");
    types<T, short>(t, "short");
}
#endif
void explore() {
#if PART == 1
    zoo<MC_N, MASKA>([](std::string const &ka, auto const &as) { zoo<MC_N, MASKB>([&](std::string const &kb, auto const &bs) { two<o_add>(ka, as, kb, bs); two<o_sub>(ka, as, kb, bs); }); });
#elif PART == 2
    chains();
#elif PART == 3
    types1<int>("int"); types1<double>("double"); types1<float>("float"); types1<long>("long"); types1<unsigned long>("ulong"); types1<unsigned char>("uchar");
#elif PART == 4 // high indices
    constexpr int n = GA_MAX_BASIS_VECTOR_INDEX;
    std::vector<Bits> bs{0};
    for (int i : {1, 2, 31, 32, 33, n - 1, n}) if (i <= n) for (int j : {1, 2, 31, 32, 33, n - 1, n}) if (j <= n) { Bits b = (Bits(1) << (i - 1)) | (Bits(1) << (j - 1)); bs.push_back(b); }
    bs.push_back((Bits(1) << n) - 1); bs.push_back(((Bits(1) << n) - 1) & ~Bits(1));
    std::sort(bs.begin(), bs.end()); bs.erase(std::unique(bs.begin(), bs.end()), bs.end());
    using D = scaled_basis_blade_t<int, 0, n>; using C = cblade<int, bitset_t(1) << (n - 1)>; using C2 = cblade<long, (bitset_t(1) << n) - 1>;
    items<D> d; for (Bits b : bs) for (int v : {2, -3}) d.push_back({make<D>(MV::blade(b, v)), MV::blade(b, v)});
    items<C> c; c.push_back({make<C>(MV::blade(Bits(1) << (n - 1), 3)), MV::blade(Bits(1) << (n - 1), 3)});
    items<C2> c2; c2.push_back({make<C2>(MV::blade((Bits(1) << n) - 1, 3)), MV::blade((Bits(1) << n) - 1, 3)});
    two<o_add>("dyn", d, "dyn", d); two<o_sub>("dyn", d, "dyn", d); two<o_add>("dyn", d, "c", c); two<o_sub>("c", c, "dyn", d); two<o_sub>("dyn", d, "c2", c2); two<o_add>("c", c, "c2", c2); two<o_sub>("c2", c2, "c", c);
    using S = decltype(d[0].x + c[0].x); items<S> s; for (auto &a : d) s.push_back({a.x + c[0].x, a.m + c[0].m});
    two<o_sub>("dyn+c", s, "dyn", d); two<o_add>("dyn+c", s, "dyn+c", s);
#endif
}
