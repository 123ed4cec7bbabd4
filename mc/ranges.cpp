// Basis blades chosen at run time among a range of grades: the grades which the type of the result admits are enough for
// the operations applied next. Every pair of ranges of grades (and every constant blade), every pair of blades.
// MC_N dimensions; metric MP,MQ,MR; OP the product; LEFT the range of the left operand
#include <gatl/ga.hpp>
#include <gatl/ga/model/euclidean.hpp>
#include "versors.hpp"
constexpr int n = MC_N;
using mc::MV;
static const ga::signed_metric_space<MP, MQ, MR> met; static const ref::Metric rmet = ref::Metric::sig(MP, MQ, MR); static const std::string SP = sigkey(MP, MQ, MR);
#define STR_(x) #x
#define STR(x) STR_(x)
template<typename A, typename B> static void run(std::string const &nm, items<A> const &as, items<B> const &bs) {
    for (auto &a : as) for (auto &b : bs) {
        auto key = [&](char const *what) { return std::string(STR(OP)) + "/" + SP + "/" + nm + "/" + a.m.str() + "/" + b.m.str() + "/" + what; };
        mc::section(key(""));
        MV const w = ref::OP(a.m, b.m, rmet); auto const r = ga::OP(a.x, b.x, met);
        auto eq = [&](auto const &got, MV const &want, char const *what) { mc::eq(obs::see(got), want, [&] { return key(what); }, 1e-9L); };
        eq(r, w, "value"); eq(ga::reverse(r), ref::reverse(w), "reverse"); eq(ga::involute(r), ref::involute(w), "involute"); eq(ga::conjugate(r), ref::conjugate(w), "conjugate");
        each_int([&](auto k) { constexpr int G = decltype(k)::value; eq(ga::take_grade(r, ga::c<G>), ref::grade_part(w, G), G == 0 ? "grade 0" : G == 1 ? "grade 1" : G == 2 ? "grade 2" : "grade k"); }, std::make_integer_sequence<int, n + 1>());
        eq(ga::op(r, kblade<1, 1>(), met), ref::op(w, MV::blade(1)), "op e1"); eq(ga::op(kblade<2, 1>(), r, met), ref::op(MV::blade(2), w), "e2 op");
        mc::check(obs::bad_grades() == 0, [&] { return key("grades"); }, "a run-time basis blade has a grade that its type excludes"); obs::bad_grades() = 0;
        mc::state(mc::mix(mc::hash(nm), mc::mix(mc::hash(a.m), mc::hash(b.m)))); mc::trace();
    }
}
template<typename F> static void ranges(F &&f) {
    each_int([&](auto l) { constexpr int L = decltype(l)::value; each_int([&](auto d) { constexpr int H = L + decltype(d)::value; f(std::string("dyn") + std::to_string(L) + ".." + std::to_string(H), blades<ga::scaled_basis_blade_t<int, L, H>>(n, {2, -1})); }, std::make_integer_sequence<int, n + 1 - L>()); }, std::make_integer_sequence<int, n + 1>());
}
void explore() {
    auto const xs = blades<ga::scaled_basis_blade_t<double, LEFT>>(n, {1, -3}); std::string const nx = "dyn" STR((LEFT));
    ranges([&](std::string const &ny, auto const &ys) { run(nx + "," + ny, xs, ys); run(ny + "," + nx, ys, xs); });
    each_bits([&](auto v) { constexpr ga::bitset_t V = decltype(v)::value; items<kblade<V, 3>> k; k.push_back({kblade<V, 3>(), MV::blade(V, 3)}); run(nx + ",const" + std::to_string(V), xs, k); run("const" + std::to_string(V) + "," + nx, k, xs); }, std::make_integer_sequence<ga::bitset_t, (1 << n)>());
}
