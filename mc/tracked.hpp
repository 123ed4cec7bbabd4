// A coefficient type that owns its value and knows its own state: reading a moved-from, destroyed or never constructed
// object, or destroying one twice, is recorded as a violation. Include before any GATL header that instantiates with it.
#pragma once
#include "ref.hpp"
#include <cmath>
#include <cstdint>
#include <string>
#include <type_traits>

namespace trk {

enum : std::uint64_t { LIVE = 0x6c6976656c697665ull, MOVED = 0x6d6f7665646d6f76ull, DEAD = 0x6465616464656164ull };
struct Log { std::string bad; long live = 0, made = 0, copies = 0, moves = 0; static Log &get() { static Log l; return l; } };
inline void bad(char const *w) { auto &b = Log::get().bad; if (b.empty()) b = w; }

struct Tr {
    std::uint64_t m; double *p;
    void born(double v) { m = LIVE; p = new double(v); ++Log::get().live; ++Log::get().made; }
    Tr() { born(0); }
    template<typename N, std::enable_if_t<std::is_arithmetic<N>::value, int> = 0> Tr(N v) { born((double)v); }
    Tr(Tr const &o) { ++Log::get().copies; born(o.v()); }
    Tr(Tr &&o) noexcept { ++Log::get().moves; born(o.v()); if (o.m == LIVE) { o.m = MOVED; *o.p = -7777.25; } }
    ~Tr() { if (m == LIVE || m == MOVED) { delete p; --Log::get().live; p = nullptr; m = DEAD; } else bad("destroyed an object that is not alive"); }
    Tr &operator=(Tr const &o) { double const v = o.v(); if (m != LIVE && m != MOVED) { bad("assigned to an object that is not alive"); return *this; } m = LIVE; *p = v; return *this; }
    Tr &operator=(Tr &&o) noexcept { double const v = o.v(); if (m != LIVE && m != MOVED) { bad("assigned to an object that is not alive"); return *this; } m = LIVE; *p = v; if (&o != this && o.m == LIVE) { o.m = MOVED; *o.p = -7777.25; } return *this; }
    double v() const { if (m == LIVE) return *p; bad(m == MOVED ? "read a coefficient that was moved from" : m == DEAD ? "read a coefficient that was destroyed" : "read a coefficient that was never constructed"); return m == MOVED ? *p : -8888.5; }
    explicit operator long double() const { return v(); }
    explicit operator double() const { return v(); }
    explicit operator bool() const { return v() != 0; }
    Tr &operator+=(Tr const &o) { return *this = Tr(v() + o.v()); } Tr &operator-=(Tr const &o) { return *this = Tr(v() - o.v()); } Tr &operator*=(Tr const &o) { return *this = Tr(v() * o.v()); } Tr &operator/=(Tr const &o) { return *this = Tr(v() / o.v()); }
};
#define TRK_B(OP, R) inline R operator OP(Tr const &a, Tr const &b) { return R(a.v() OP b.v()); } \
    template<typename N, std::enable_if_t<std::is_arithmetic<N>::value, int> = 0> R operator OP(Tr const &a, N b) { return R(a.v() OP (double)b); } \
    template<typename N, std::enable_if_t<std::is_arithmetic<N>::value, int> = 0> R operator OP(N a, Tr const &b) { return R((double)a OP b.v()); }
inline void take(Tr &a) { if (a.m == LIVE) { a.m = MOVED; *a.p = -7777.25; } }
// arithmetic on temporaries reuses them, as that of numbers which own memory does
#define TRK_R(OP) inline Tr operator OP(Tr &&a, Tr const &b) { Tr r(a.v() OP b.v()); take(a); return r; } inline Tr operator OP(Tr const &a, Tr &&b) { Tr r(a.v() OP b.v()); take(b); return r; } inline Tr operator OP(Tr &&a, Tr &&b) { Tr r(a.v() OP b.v()); take(a); take(b); return r; } \
    template<typename N, std::enable_if_t<std::is_arithmetic<N>::value, int> = 0> Tr operator OP(Tr &&a, N b) { Tr r(a.v() OP (double)b); take(a); return r; } \
    template<typename N, std::enable_if_t<std::is_arithmetic<N>::value, int> = 0> Tr operator OP(N a, Tr &&b) { Tr r((double)a OP b.v()); take(b); return r; }
TRK_R(+) TRK_R(-) TRK_R(*) TRK_R(/)
TRK_B(+, Tr) TRK_B(-, Tr) TRK_B(*, Tr) TRK_B(/, Tr) TRK_B(<, bool) TRK_B(<=, bool) TRK_B(>, bool) TRK_B(>=, bool) TRK_B(==, bool) TRK_B(!=, bool)
inline Tr operator-(Tr const &a) { return Tr(-a.v()); }
inline Tr operator-(Tr &&a) { Tr r(-a.v()); take(a); return r; }
inline Tr operator+(Tr const &a) { return a; }
#define TRK_F(F) inline Tr F(Tr const &a) { return Tr(std::F(a.v())); } inline Tr F(Tr &&a) { Tr r(std::F(a.v())); take(a); return r; }
TRK_F(abs) TRK_F(sqrt) TRK_F(cbrt) TRK_F(exp) TRK_F(log) TRK_F(sin) TRK_F(cos) TRK_F(tan) TRK_F(sinh) TRK_F(cosh) TRK_F(tanh)
inline Tr pow(Tr const &a, Tr const &b) { return Tr(std::pow(a.v(), b.v())); }
template<typename N, std::enable_if_t<std::is_arithmetic<N>::value, int> = 0> Tr pow(Tr const &a, N b) { return Tr(std::pow(a.v(), (double)b)); }
template<typename N, std::enable_if_t<std::is_arithmetic<N>::value, int> = 0> Tr pow(N a, Tr const &b) { return Tr(std::pow((double)a, b.v())); }
inline std::ostream &operator<<(std::ostream &o, Tr const &a) { return o << a.v(); }

} // namespace trk

namespace std {
#define TRK_C(N) template<> struct common_type<trk::Tr, N> { using type = trk::Tr; }; template<> struct common_type<N, trk::Tr> { using type = trk::Tr; };
TRK_C(int) TRK_C(long) TRK_C(long long) TRK_C(float) TRK_C(double) TRK_C(long double)
}
