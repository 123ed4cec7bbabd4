// Bookkeeping of the exhaustive explorations: counters, comparison with the reference model, reports.
// Every driver enumerates a finite space completely; each visited (state, operation) pair is a transition executed on
// the real library and compared with the reference model. Reports are JSON lines on stdout.
#pragma once
#include "ref.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <set>
#include <unistd.h>
#include <unordered_set>

namespace mc {

using ref::MV; using ref::Num; using ref::Bits;

inline std::string esc(std::string const &s) {
    std::string r;
    for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; }
    return r;
}

struct Ctx {
    std::string only;               // replay: report only this key
    char where[512] = "start";      // current section, printed when the process dies
    std::uint64_t transitions = 0, traces = 0, fails = 0, reported = 0;
    std::unordered_set<std::uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::uint64_t next_sample = 1;
    static Ctx &get() { static Ctx c; return c; }
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline std::uint64_t hash(MV const &m) {
    std::uint64_t h = 1469598103934665603ull;
    for (auto &t : m.c) { double d = (double)t.second; std::uint64_t u; std::memcpy(&u, &d, 8); h = mix(mix(h, t.first), u); }
    return h;
}
inline std::uint64_t hash(std::string const &s) { std::uint64_t h = 14695981039346656037ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }

inline void die(int sig) {
    char buf[700];
    int n = std::snprintf(buf, sizeof buf, "{\"crash\": %d, \"where\": \"%s\"}\n", sig, Ctx::get().where);
    if (n > 0) { ssize_t w = ::write(1, buf, (size_t)n); (void)w; }
    ::_exit(70);
}
inline void section(std::string const &s) { std::snprintf(Ctx::get().where, sizeof Ctx::get().where, "%s", esc(s).c_str()); }
inline void state(std::uint64_t h) { Ctx::get().states.insert(h); }

inline void fail(std::string const &key, std::string const &what) {
    Ctx &c = Ctx::get();
    ++c.fails;
    if (!c.only.empty() && c.only != key) return;
    if (++c.reported > 12) return;
    std::printf("{\"fail\": \"%s\", \"what\": \"%s\"}\n", esc(key).c_str(), esc(what).c_str());
    std::fflush(stdout);
}
// One transition: compare what the library produced with the model.
template<typename Key>
bool eq(MV const &got, MV const &want, Key key, Num tol = 0) {
    Ctx &c = Ctx::get();
    ++c.transitions;
    c.outcomes.insert(hash(want));
    bool ok;
    if (tol == 0) ok = got == want;
    else ok = ref::near(got, want, tol * std::max(Num(1), want.maxabs()));
    if (ok) {
        if (c.transitions >= c.next_sample && c.samples.size() < 8) { c.samples.push_back(key() + " = " + want.str()); c.next_sample = c.next_sample * 7 + 3; }
        return true;
    }
    fail(key(), "library: " + got.str() + " ; model: " + want.str());
    return false;
}
template<typename Key>
bool check(bool ok, Key key, std::string const &what = "") {
    Ctx &c = Ctx::get();
    ++c.transitions;
    if (ok) {
        if (c.transitions >= c.next_sample && c.samples.size() < 8) { c.samples.push_back(key()); c.next_sample = c.next_sample * 7 + 3; }
        return true;
    }
    fail(key(), what);
    return false;
}
template<typename A, typename B, typename Key>
bool same(A const &got, B const &want, Key key) {
    if (got == want) { Ctx::get().outcomes.insert(mix(17, hash(std::to_string((long double)0) ))); return check(true, key); }
    std::ostringstream os; os << "library: " << got << " ; model: " << want;
    return check(false, key, os.str());
}
inline void trace() { ++Ctx::get().traces; }

inline int finish() {
    Ctx &c = Ctx::get();
    std::printf("{\"done\": true, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"outcomes\": %llu, \"fails\": %llu, \"samples\": [",
        (unsigned long long)c.states.size(), (unsigned long long)c.transitions, (unsigned long long)c.traces, (unsigned long long)c.outcomes.size(), (unsigned long long)c.fails);
    for (std::size_t i = 0; i < c.samples.size(); ++i) std::printf("%s\"%s\"", i ? ", " : "", esc(c.samples[i]).c_str());
    std::printf("]}\n");
    std::fflush(stdout);
    return c.fails ? 3 : 0;
}

// sanity of the oracle itself: the two definitions of the product agree on every blade pair and signature with n <= 4
inline void check_model() {
    for (int p = 0; p <= 4; ++p) for (int q = 0; p + q <= 4; ++q) for (int r = 0; p + q + r <= 4; ++r) {
        ref::Metric m = ref::Metric::sig(p, q, r);
        for (Bits a = 0; a < (Bits(1) << m.n); ++a) for (Bits b = 0; b < (Bits(1) << m.n); ++b)
            if (!(ref::gp(MV::blade(a), MV::blade(b), m) == ref::list_product(a, b, m))) { std::fprintf(stderr, "reference model inconsistent\n"); std::exit(9); }
    }
}

} // namespace mc

void explore();

int main(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], "--only")) mc::Ctx::get().only = argv[i + 1];
    std::signal(SIGSEGV, mc::die); std::signal(SIGABRT, mc::die); std::signal(SIGFPE, mc::die); std::signal(SIGILL, mc::die); std::signal(SIGBUS, mc::die);
    mc::check_model();
    try { explore(); }
    catch (std::exception const &e) { mc::fail(std::string("exception/") + mc::Ctx::get().where, e.what()); }
    return mc::finish();
}
