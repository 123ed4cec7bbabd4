// C21: iteration over components and basis vectors, and textual output, present the multivector entry by entry.
// The model is the list of entries (basis blade, coefficient, constant or stored) read from the expression type and its
// storage by this file's own walk. PART 1: every representation of an MC_N-dimensional space; PART 2: sums and products of
// two representations; PART 3: constant coefficients of every form; PART 4: every basis blade of an algebra (header ALG,
// namespace NS, names of its vectors in NAMES, in the order of the dimensions); PART 5: blades at the highest indices.
#include <cmath>
#if PART == 4
#include ALG
#endif
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "zoo.hpp"
#include <sstream>
#include <array>
using namespace kinds;
struct Entry { Bits b; Num v; bool cb, cv; }; // basis blade, coefficient, and whether each is a compile-time constant
using List = std::vector<Entry>;
template<typename E> struct entries;
template<typename C> constexpr bool stored_v = std::is_same<C, gd::stored_value>::value;
template<typename C, typename B> struct constant_blade { static constexpr bool value = false; };
template<typename C, ga::bitset_t V> struct constant_blade<C, gd::constant_basis_blade<V>> { static constexpr bool value = true; };
template<typename C, typename B> struct entries<gd::component<C, B>> {
    template<typename VI, typename BI> static void run(List &r, VI &vi, BI &bi) { Num v = obs::coef<C>::get(vi); r.push_back({obs::base<B>::get(bi), v, constant_blade<C, B>::value, !stored_v<C>}); }
};
template<typename... Cs> struct entries<gd::add<Cs...>> { template<typename VI, typename BI> static void run(List &r, VI &vi, BI &bi) { (void)std::initializer_list<int>{(entries<Cs>::run(r, vi, bi), 0)...}; } };
template<typename T, typename E> List list_of(ga::clifford_expression<T, E> const &x) { List r; auto vi = x.values().cbegin(); auto bi = x.bitsets().cbegin(); entries<E>::run(r, vi, bi); return r; }
std::string str(List const &l) { std::ostringstream o; for (auto &e : l) { o << '['; for (int k = 0; k < 64; ++k) if (e.b >> k & 1) o << k + 1 << ' '; o << ": " << (double)e.v << (e.cb ? " constant blade" : "") << (e.cv ? " constant value]" : "]"); } return o.str(); }
bool close(Num a, Num b) { return (a != a && b != b) || std::fabs(a - b) <= 1e-5L * std::max(std::fabs(a), std::fabs(b)); }
bool same(List const &a, List const &b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (a[i].b != b[i].b || !close(a[i].v, b[i].v) || a[i].cb != b[i].cb || a[i].cv != b[i].cv) return false; return true; }

// ---- reader of the textual form: terms separated by " + ", each a product " * " of factors of which the last is the blade
struct Reader {
    std::string s; std::size_t i = 0; std::vector<std::string> names; bool ok = true;
    bool eat(std::string const &t) { if (s.compare(i, t.size(), t) == 0) { i += t.size(); return true; } return false; }
    Num number() { char const *b = s.c_str() + i; char *e; Num v = std::strtold(b, &e); if (e == b) { ok = false; return 0; } i += e - b; return v; }
    Num factor(bool &c) { // c: only constants so far
        if (eat("<")) { Num v = number(); if (!eat(">")) ok = false; return v; }
        if (eat("(")) { Num v = sum(c); if (!eat(")")) ok = false; return v; }
        if (eat("pow(")) { Num a = sum(c); if (!eat(", ")) ok = false; Num b = sum(c); if (!eat(")")) ok = false; Num t = b * 3; if (a < 0 && b != std::floor(b) && std::fabs(t - std::round(t)) < 1e-12L) return (std::fmod(std::round(t), 2) != 0 ? -1 : 1) * std::pow(-a, b); return std::pow(a, b); }
#define FN(F) if (eat(#F "(")) { Num a = sum(c); if (!eat(")")) ok = false; using namespace std; return F(a); }
        FN(exp) FN(log) FN(cosh) FN(sinh) FN(tanh) FN(cos) FN(sin) FN(tan)
        if (eat("abs(")) { Num a = sum(c); if (!eat(")")) ok = false; return std::fabs(a); }
        c = false; return number();
    }
    Num product(bool &c) { Num v = factor(c); while (ok && eat(" * ")) v *= factor(c); return v; }
    Num sum(bool &c) { Num v = product(c); while (ok && eat(" + ")) v += product(c); return v; }
    Bits blade(bool &c) {
        c = eat("<"); Bits r = 0;
        if (!(s.compare(i, 1, "1") == 0 && (i + 1 == s.size() || s[i + 1] == '>' || s[i + 1] == ' '))) do {
            std::size_t best = names.size(), len = 0; // longest name that fits
            for (std::size_t k = 0; k < names.size(); ++k) if (names[k].size() > len && s.compare(i, names[k].size(), names[k]) == 0) best = k, len = names[k].size();
            if (best == names.size()) { ok = false; return 0; }
            i += len; if (r >> best) ok = false; // each vector once, in the order of the space
            r |= Bits(1) << best;
        } while (ok && eat("^"));
        else ++i;
        if (c && !eat(">")) ok = false;
        return r;
    }
    List read() {
        List r;
        do {
            std::size_t end = i; int depth = 0; std::size_t last = std::string::npos; // find the last " * " of this term
            for (; end < s.size(); ++end) { if (s[end] == '(') ++depth; if (s[end] == ')') --depth; if (depth == 0 && s.compare(end, 3, " * ") == 0) last = end; if (depth == 0 && s.compare(end, 3, " + ") == 0) break; }
            if (last == std::string::npos) { ok = false; return r; }
            Entry e; e.cv = true;
            Reader c{s.substr(0, last), i, names}; e.v = c.product(e.cv); if (!c.ok || c.i != last) { ok = false; return r; }
            i = last + 3; e.b = blade(e.cb); r.push_back(e);
            if (i != end) ok = false;
        } while (ok && eat(" + "));
        if (i != s.size()) ok = false;
        return r;
    }
};
template<std::size_t K> void text(std::string const &name, std::string const &text_, List const &want, std::array<std::string, K> const &names) {
    Reader r{text_}; r.names.assign(names.begin(), names.end()); for (std::size_t k = r.names.size(); k < 63; ++k) r.names.push_back("e" + std::to_string(k + 1));
    List got = r.read();
    mc::check(r.ok && ::same(got, want), [&] { return name + "/text"; }, "text: " + text_ + (r.ok ? " ; read as: " + str(got) : " ; cannot be read") + " ; entries: " + str(want));
}
template<typename X> void visit(std::string const &name, X const &x, bool names_too = true) {
    List const want = list_of(x);
    mc::section(name); for (auto &e : want) mc::state(mc::mix(mc::hash(name), mc::mix(e.b, (std::uint64_t)(std::int64_t)(e.v * 4096)))); mc::trace();
    List got; std::size_t n = 0;
    bool full = ga::for_each_component(x, [&](ga::bitset_t b, auto const &v, ga::entry_source_t sb, ga::entry_source_t sv, bool &) {
        ++n; got.push_back({(Bits)b, (Num)v, sb == ga::COMPILE_TIME_DEFINED_ENTRY, sv == ga::COMPILE_TIME_DEFINED_ENTRY});
        if ((sb != ga::COMPILE_TIME_DEFINED_ENTRY && sb != ga::STORED_RUNTIME_DEFINED_ENTRY) || (sv != ga::COMPILE_TIME_DEFINED_ENTRY && sv != ga::STORED_RUNTIME_DEFINED_ENTRY)) got.back().b = ~Bits(0); });
    mc::Ctx::get().outcomes.insert(mc::hash(str(got)));
    mc::check(full && ::same(got, want), [&] { return name + "/components"; }, "visited: " + str(got) + " ; entries: " + str(want));
    for (std::size_t stop = 0; stop < want.size(); ++stop) { // stop after each position
        List part; bool all = ga::for_each_component(x, [&](ga::bitset_t b, auto const &v, ga::entry_source_t sb, ga::entry_source_t sv, bool &go) { part.push_back({(Bits)b, (Num)v, sb == ga::COMPILE_TIME_DEFINED_ENTRY, sv == ga::COMPILE_TIME_DEFINED_ENTRY}); if (part.size() == stop + 1) go = false; });
        mc::check(!all && ::same(part, List(want.begin(), want.begin() + stop + 1)), [&] { return name + "/stop" + std::to_string(stop); }, "visited: " + str(part) + " ; entries: " + str(want));
    }
    if (names_too) {
        { std::ostringstream o; std::array<std::string, 4> n4{"a", "b1", "b", "zz"}; ga::write(o, x, n4); text(name + "/own names", o.str(), want, n4); }
        { std::ostringstream o; std::array<std::string, 1> n1{"first"}; auto &r = ga::write(o, x, n1); mc::check(&r == &o, [&] { return name + "/stream"; }); text(name + "/one name", o.str(), want, n1); }
    }
}
template<typename X> void vectors(std::string const &name, X const &x, Bits b) {
    std::vector<int> want, got; for (int k = 0; k < 64; ++k) if (b >> k & 1) want.push_back(k + 1);
    for (std::size_t stop = 0; stop <= want.size(); ++stop) {
        got.clear(); bool all = ga::for_each_basis_vector(x, [&](auto i, bool &go) { got.push_back((int)i); if (got.size() == stop + 1) go = false; });
        bool const stopped = stop < want.size();
        mc::check(all == !stopped && got == std::vector<int>(want.begin(), want.begin() + std::min(stop + 1, want.size())), [&] { return name + "/vectors, stop " + std::to_string(stop); }, "visited " + std::to_string(got.size()) + " vectors, first " + std::to_string(got.empty() ? 0 : got[0]));
    }
    mc::state(mc::mix(91, b)); mc::Ctx::get().outcomes.insert(mc::mix(92, b)); mc::trace();
}
template<typename X> void all(std::string const &name, items<X> const &l) {
    for (auto &i : l) {
        std::string const key = name + "/" + i.m.str();
        if constexpr (std::is_arithmetic<X>::value) visit(key, ga::scalar(i.x)); else visit(key, i.x);
    }
}
template<typename X, typename = void> struct single_component : std::false_type {};
template<typename T, typename C, typename B> struct single_component<ga::clifford_expression<T, gd::component<C, B>>, void> : std::true_type {};
#if PART == 4
#define TXT_(x) #x
#define TXT(x) TXT_(x)
template<typename X, std::size_t K> void named(std::string const &name, X const &x, std::array<std::string, K> const &names) {
    std::ostringstream o; using NS::operator<<; o << x; text(name, o.str(), list_of(x), names);
    visit(name, x, false);
}
#endif
void explore() {
#if PART == 1
    zoo<MC_N, MASK>([](std::string const &k, auto const &l) {
        all(k, l); using X = std::decay_t<decltype(l[0].x)>;
        if constexpr (single_component<X>::value) for (auto &i : l) vectors(k + "/" + i.m.str(), i.x, list_of(i.x)[0].b);
    });
    for (Bits b = 0; b < (Bits(1) << (GA_MAX_BASIS_VECTOR_INDEX < 12 ? GA_MAX_BASIS_VECTOR_INDEX : 12)); ++b) vectors("bitset " + std::to_string(b), (ga::bitset_t)b, b);
#elif PART == 2
    static const ga::euclidean_metric_space<MC_N> m;
    zoo<MC_N, MASK>([](std::string const &k, auto const &l) { zoo<MC_N, MASKB>([&](std::string const &h, auto const &r) {
        for (auto &a : l) for (auto &b : r) { auto const s = a.x + b.x; auto const p = ga::gp(a.x, b.x, m); if constexpr (!std::is_arithmetic<std::decay_t<decltype(s)>>::value) visit(k + "+" + h + "/" + a.m.str() + "/" + b.m.str(), s); if constexpr (!std::is_arithmetic<std::decay_t<decltype(p)>>::value) visit(k + "*" + h + "/" + a.m.str() + "/" + b.m.str(), p); }
    }); });
#elif PART == 3
    static const ga::euclidean_metric_space<MC_N> m;
    auto const half = ga::igp(ga::c<1>, ga::c<2>, m); auto const third = ga::igp(ga::c<-2>, ga::c<3>, m); auto const root = ga::sqrt(ga::c<2>); auto const cub = ga::cbrt(ga::c<-5>);
    auto coefs = [&](auto f) {
        f("0", ga::c<0>); f("1", ga::c<1>); f("-1", ga::c<-1>); f("7", ga::c<7>); f("-12", ga::c<-12>); f("1/2", half); f("-2/3", third); f("sqrt2", root); f("cbrt-5", cub); f("sqrt2+1", root + ga::c<1>); f("sqrt2-cbrt-5", root - cub); f("-sqrt2", -root); f("3 sqrt2", ga::gp(ga::c<3>, root, m));
        f("exp1", ga::exp(ga::c<1>)); f("log2", ga::log(ga::c<2>)); f("cos2", ga::cos(ga::c<2>)); f("sin-1", ga::sin(ga::c<-1>)); f("tan1", ga::tan(ga::c<1>)); f("cosh1", ga::cosh(ga::c<1>)); f("sinh1", ga::sinh(ga::c<1>)); f("tanh1", ga::tanh(ga::c<1>)); f("abs cos2", ga::abs(ga::cos(ga::c<2>))); f("-exp(1/2)", -ga::exp(half));
        f("(exp1+2)/3", ga::igp(ga::exp(ga::c<1>) + ga::c<2>, ga::c<3>, m)); f("(sqrt2+1)^-1", ga::pow(root + ga::c<1>, ga::c<-1>)); f("1/2+1/3", half - third); f("exp(cos(2)-sqrt2)", ga::exp(ga::cos(ga::c<2>) - root));
    };
    auto dyn = ga::unit_basis_blade_t<0, MC_N>(); *dyn.bitsets().begin() = 2;
    auto sca = ga::scaled_basis_blade_t<float, 0, MC_N>(); *sca.bitsets().begin() = 3; *sca.values().begin() = -2.5f;
    auto vec = ga::full_vector_t<double, MC_N>(); *vec.values().begin() = -0.125;
    coefs([&](std::string const &n, auto const &k) {
        visit(n, k); visit(n + " e1", ga::gp(k, ga::e(ga::c<1>), m)); visit(n + " I + e1", ga::gp(k, ga::pseudoscalar(m), m) + ga::e(ga::c<1>)); visit(n + " dyn", ga::gp(k, dyn, m)); visit(n + " scaled dyn", ga::gp(k, sca, m));
        visit(n + " e1 + dyn", ga::gp(k, ga::e(ga::c<1>), m) + dyn); visit(n + " + vec", k + vec); visit(n + " dyn + vec", ga::gp(k, dyn, m) + vec); visit(n + " vec", ga::gp(k, vec, m)); visit(n + " e2 - scaled dyn", ga::gp(k, ga::e(ga::c<2>), m) - sca);
    });
#elif PART == 4
    using namespace NS; std::array<std::string, MC_N> const names{NAMES};
#define V(I, X) { std::string const n = #X; mc::check(obs::see(NS::X) == MV::blade(Bits(1) << (I - 1)) && names[I - 1] == n, [&] { return "vector " + n; }, obs::see(NS::X).str()); }
    VECTORS
    for (int k = 0; k < MC_N; ++k) mc::check(NS::basis_vectors_names[k] == names[k], [&] { return "name of vector " + std::to_string(k + 1); }, NS::basis_vectors_names[k]);
    each_bits([&](auto v) { constexpr ga::bitset_t B = decltype(v)::value; named("k" + std::to_string(B), kblade<B, -2>(), names); auto x = cblade<float, B>(); *x.values().begin() = 2.5f; named("c" + std::to_string(B), x, names); }, std::make_integer_sequence<ga::bitset_t, (ga::bitset_t(1) << (MC_N < 6 ? MC_N : 5))>());
    named("I", NS::I, names);
    for (auto &i : blades<ga::scaled_basis_blade_t<int, 0, MC_N>>(MC_N, {1, -3, 0})) named("dyn/" + i.m.str(), i.x, names);
    for (auto &i : basis<ga::full_multivector_t<double, MC_N>>(MC_N)) named("full/" + i.m.str(), i.x, names);
#ifdef POINTS
    { auto s = NS::no; named("no", s, names); named("ni", NS::ni, names); named("ep", NS::ep, names); named("em", NS::em, names); }
#endif
#elif PART == 5
    constexpr int n = GA_MAX_BASIS_VECTOR_INDEX; std::vector<Bits> bs{0, 1, 2};
    for (int i = 0; i < n; ++i) { bs.push_back(Bits(1) << i); bs.push_back((Bits(2) << i) - 1); for (int j = 0; j < i; ++j) bs.push_back((Bits(1) << i) | (Bits(1) << j)); }
    for (Bits b : bs) {
        auto d = ga::scaled_basis_blade_t<int, 0, n>(); *d.values().begin() = -7; *d.bitsets().begin() = (ga::bitset_t)b; auto u = ga::unit_basis_blade_t<0, n>(); *u.bitsets().begin() = (ga::bitset_t)b;
        visit("dyn " + std::to_string(b), d); visit("unit " + std::to_string(b), u); vectors("dyn " + std::to_string(b), d, b); vectors("unit " + std::to_string(b), u, b); vectors("bits " + std::to_string(b), (ga::bitset_t)b, b);
    }
    using C = cblade<long, ga::bitset_t(1) << (n - 1)>; using P = kblade<(ga::bitset_t(1) << (n - 1)) | (((ga::bitset_t(1) << (n - 1)) - 1)), -5>; C c; *c.values().begin() = 9; P p;
    visit("highest vector", c); vectors("highest vector", c, Bits(1) << (n - 1)); visit("pseudoscalar", p); vectors("pseudoscalar", p, list_of(p)[0].b); visit("sum", c + p);
#endif
}
