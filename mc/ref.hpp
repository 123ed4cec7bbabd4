// Reference model: geometric algebra over an arbitrary symmetric metric matrix, written for clarity only.
// It shares no code and no formula layout with GATL: multivectors are sparse maps, the geometric product is the
// textbook recursion  e_i X = e_i ^ X + e_i _| X,  (e_i ^ A) X = e_i (A X) - (e_i _| A) X,
// and every other operation is defined from it (grade selection, series, linear algebra).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace ref {

using Bits = std::uint64_t;
using Num = long double;

inline int popc(Bits x) { int n = 0; for (; x; x &= x - 1) ++n; return n; }

struct Metric {
    int n = 0;
    std::vector<Num> g;
    explicit Metric(int n_ = 0) : n(n_), g(n_ * n_, 0) {}
    Num &at(int i, int j) { return g[i * n + j]; }
    Num operator()(int i, int j) const { return g[i * n + j]; }
    bool diagonal() const { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && g[i * n + j] != 0) return false; return true; }
    static Metric sig(int p, int q, int r) {
        Metric m(p + q + r);
        for (int i = 0; i < p; ++i) m.at(i, i) = 1;
        for (int i = p; i < p + q; ++i) m.at(i, i) = -1;
        return m;
    }
    static Metric conformal(int d) {
        Metric m(d + 2);
        for (int i = 0; i < d; ++i) m.at(i, i) = 1;
        m.at(d, d + 1) = m.at(d + 1, d) = -1;
        return m;
    }
    static Metric of(int n, std::initializer_list<int> v) { Metric m(n); std::copy(v.begin(), v.end(), m.g.begin()); return m; }
};

struct MV {
    std::map<Bits, Num> c;
    MV() = default;
    MV(Num s) { if (s != 0) c[0] = s; }
    static MV blade(Bits b, Num v = 1) { MV m; if (v != 0) m.c[b] = v; return m; }
    Num operator[](Bits b) const { auto it = c.find(b); return it == c.end() ? Num(0) : it->second; }
    void add(Bits b, Num v) { if (v != 0) { auto &x = c[b]; x += v; if (x == 0) c.erase(b); } }
    bool zero() const { return c.empty(); }
    Num scalar() const { return (*this)[0]; }
    Num maxabs() const { Num m = 0; for (auto &t : c) m = std::max(m, std::fabs(t.second)); return m; }
    bool operator==(MV const &o) const { return c == o.c; }
    bool operator<(MV const &o) const { return c < o.c; }
    std::string str() const {
        if (c.empty()) return "0";
        std::ostringstream os; os.precision(12);
        bool first = true;
        for (auto &t : c) {
            if (!first) os << " + ";
            first = false;
            os << t.second << "*{";
            bool f = true;
            for (int i = 0; i < 64; ++i) if (t.first >> i & 1) { if (!f) os << ","; f = false; os << i + 1; }
            os << "}";
        }
        return os.str();
    }
};

inline MV operator+(MV a, MV const &b) { for (auto &t : b.c) a.add(t.first, t.second); return a; }
inline MV operator-(MV a, MV const &b) { for (auto &t : b.c) a.add(t.first, -t.second); return a; }
inline MV operator-(MV a) { for (auto &t : a.c) t.second = -t.second; return a; }
inline MV operator+(MV a) { return a; }
inline MV scale(MV const &a, Num s) { MV r; if (s != 0) for (auto &t : a.c) { Num v = t.second * s; if (v != 0) r.c[t.first] = v; } return r; }
inline MV clean(MV const &a, Num tol) { MV r; for (auto &t : a.c) if (std::fabs(t.second) > tol) r.c.insert(t); return r; }

// e_i ^ X: move e_i past the smaller-index factors of each blade.
inline MV wedge_vec(int i, MV const &X) {
    MV r;
    for (auto &t : X.c) {
        if (t.first >> i & 1) continue;
        int pass = popc(t.first & ((Bits(1) << i) - 1));
        r.add(t.first | Bits(1) << i, pass & 1 ? -t.second : t.second);
    }
    return r;
}
// e_i _| X: alternating sum over the factors of each blade.
inline MV cont_vec(int i, MV const &X, Metric const &m) {
    MV r;
    for (auto &t : X.c) {
        int k = 0;
        for (int j = 0; j < m.n; ++j) if (t.first >> j & 1) {
            if (m(i, j) != 0) r.add(t.first & ~(Bits(1) << j), (k & 1 ? -1 : 1) * m(i, j) * t.second);
            ++k;
        }
    }
    return r;
}
inline MV blade_mul(Bits a, MV const &X, Metric const &m) {
    if (!a || X.zero()) return X;
    int i = 0; while (!(a >> i & 1)) ++i;
    Bits rest = a & (a - 1);
    MV Y = blade_mul(rest, X, m);
    MV r = wedge_vec(i, Y) + cont_vec(i, Y, m);
    MV corr = cont_vec(i, MV::blade(rest), m); // empty when the metric is orthogonal
    for (auto &t : corr.c) r = r - scale(blade_mul(t.first, X, m), t.second);
    return r;
}
inline MV gp(MV const &a, MV const &b, Metric const &m) {
    MV r;
    for (auto &t : a.c) r = r + scale(blade_mul(t.first, b, m), t.second);
    return r;
}
inline MV op(MV const &a, MV const &b) {
    MV r;
    for (auto &t : a.c) {
        MV Y = scale(b, t.second);
        for (int i = 63; i >= 0; --i) if (t.first >> i & 1) Y = wedge_vec(i, Y);
        r = r + Y;
    }
    return r;
}
inline MV op(MV const &a, MV const &b, Metric const &) { return op(a, b); }
inline MV grade_part(MV const &a, int k) { MV r; for (auto &t : a.c) if (popc(t.first) == k) r.c.insert(t); return r; }
template<typename Sel>
MV graded_product(MV const &a, MV const &b, Metric const &m, Sel sel) {
    MV r;
    for (int i = 0; i <= m.n; ++i) {
        MV ai = grade_part(a, i); if (ai.zero()) continue;
        for (int j = 0; j <= m.n; ++j) {
            int k = sel(i, j); if (k < 0) continue;
            MV bj = grade_part(b, j); if (bj.zero()) continue;
            r = r + grade_part(gp(ai, bj, m), k);
        }
    }
    return r;
}
inline MV lcont(MV const &a, MV const &b, Metric const &m) { return graded_product(a, b, m, [](int r, int s) { return s - r; }); }
inline MV rcont(MV const &a, MV const &b, Metric const &m) { return graded_product(a, b, m, [](int r, int s) { return r - s; }); }
inline MV dot(MV const &a, MV const &b, Metric const &m) { return graded_product(a, b, m, [](int r, int s) { return std::abs(r - s); }); }
inline MV hip(MV const &a, MV const &b, Metric const &m) { return graded_product(a, b, m, [](int r, int s) { return r == 0 || s == 0 ? -1 : std::abs(r - s); }); }
inline MV sp(MV const &a, MV const &b, Metric const &m) { return grade_part(gp(a, b, m), 0); }
inline MV cp(MV const &a, MV const &b, Metric const &m) { return scale(gp(a, b, m) - gp(b, a, m), 0.5L); }

// complement: A ^ complement(A) = |A|^2 I on basis blades
inline MV complement(MV const &a, int n) {
    Bits I = n >= 64 ? ~Bits(0) : (Bits(1) << n) - 1;
    MV r;
    for (auto &t : a.c) { Bits d = I & ~t.first; r.add(d, t.second * op(MV::blade(t.first), MV::blade(d))[I]); }
    return r;
}
inline MV uncomplement(MV const &a, int n) {
    Bits I = n >= 64 ? ~Bits(0) : (Bits(1) << n) - 1;
    MV r;
    for (auto &t : a.c) { Bits d = I & ~t.first; r.add(d, t.second * op(MV::blade(d), MV::blade(t.first))[I]); }
    return r;
}
inline MV rp(MV const &a, MV const &b, Metric const &m) { return uncomplement(op(complement(a, m.n), complement(b, m.n)), m.n); }

inline MV by_grade(MV a, int (*s)(int)) { for (auto &t : a.c) if (s(popc(t.first)) & 1) t.second = -t.second; return a; }
inline MV reverse(MV const &a) { return by_grade(a, [](int k) { return k * (k - 1) / 2; }); }
inline MV involute(MV const &a) { return by_grade(a, [](int k) { return k; }); }
inline MV conjugate(MV const &a) { return by_grade(a, [](int k) { return k * (k + 1) / 2; }); }
inline Num norm2(MV const &a, Metric const &m) { return gp(a, reverse(a), m).scalar(); }
inline MV rnorm_sqr(MV const &a, Metric const &m) { return MV(norm2(a, m)); }
inline MV rnorm(MV const &a, Metric const &m) { return MV(std::sqrt(norm2(a, m))); }
inline MV inv(MV const &a, Metric const &m) { return scale(reverse(a), 1 / norm2(a, m)); }
inline MV unit(MV const &a, Metric const &m) { return scale(a, 1 / std::sqrt(std::fabs(norm2(a, m)))); }
inline MV igp(MV const &a, MV const &b, Metric const &m) { return gp(a, inv(b, m), m); }
inline MV pseudoscalar(int n) { return MV::blade(n >= 64 ? ~Bits(0) : (Bits(1) << n) - 1); }
inline MV dual(MV const &a, MV const &I, Metric const &m) { return lcont(a, inv(I, m), m); }
inline MV undual(MV const &a, MV const &I, Metric const &m) { return lcont(a, I, m); }
inline MV dual(MV const &a, Metric const &m) { return dual(a, pseudoscalar(m.n), m); }
inline MV undual(MV const &a, Metric const &m) { return undual(a, pseudoscalar(m.n), m); }
inline MV apply_even_versor(MV const &v, MV const &x, Metric const &m) { return gp(gp(v, x, m), inv(v, m), m); }
inline MV apply_odd_versor(MV const &v, MV const &x, Metric const &m) { return gp(gp(v, involute(x), m), inv(v, m), m); }
inline MV apply_rotor(MV const &v, MV const &x, Metric const &m) { return gp(gp(v, x, m), reverse(v), m); }
inline int largest_grade(MV const &a, Num tol) { int k = -1; for (auto &t : a.c) if (std::fabs(t.second) > tol) k = std::max(k, popc(t.first)); return k; }
inline MV dp(MV const &a, MV const &b, Num tol, Metric const &m) { MV p = gp(a, b, m); int k = largest_grade(p, tol); return k < 0 ? MV() : grade_part(p, k); }
inline MV exp_series(MV const &b, Metric const &m, int terms = 60) {
    MV r(1), t(1);
    for (int k = 1; k < terms; ++k) { t = scale(gp(t, b, m), Num(1) / k); r = r + t; }
    return r;
}

// Second, independent definition of the product of basis blades for orthogonal metrics (sorting an index list),
// used only to cross-check the recursion above at start-up.
inline MV list_product(Bits a, Bits b, Metric const &m) {
    std::vector<int> v;
    for (int i = 0; i < m.n; ++i) if (a >> i & 1) v.push_back(i);
    for (int i = 0; i < m.n; ++i) if (b >> i & 1) v.push_back(i);
    Num s = 1;
    for (bool again = true; again;) {
        again = false;
        for (std::size_t i = 0; i + 1 < v.size(); ++i) {
            if (v[i] == v[i + 1]) { s *= m(v[i], v[i]); v.erase(v.begin() + i, v.begin() + i + 2); again = true; break; }
            if (v[i] > v[i + 1]) { std::swap(v[i], v[i + 1]); s = -s; again = true; }
        }
    }
    Bits r = 0; for (int i : v) r |= Bits(1) << i;
    return MV::blade(r, s);
}

// ---- linear algebra on multivectors seen as coordinate vectors (for subspace tests)
inline int rank(std::vector<std::vector<Num>> M) {
    int rk = 0; std::size_t rows = M.size(), cols = rows ? M[0].size() : 0;
    for (std::size_t c = 0; c < cols && rk < (int)rows; ++c) {
        std::size_t piv = rk; for (std::size_t r = rk; r < rows; ++r) if (std::fabs(M[r][c]) > std::fabs(M[piv][c])) piv = r;
        if (std::fabs(M[piv][c]) < 1e-9L) continue;
        std::swap(M[piv], M[rk]);
        for (std::size_t r = 0; r < rows; ++r) if ((int)r != rk) { Num f = M[r][c] / M[rk][c]; for (std::size_t k = c; k < cols; ++k) M[r][k] -= f * M[rk][k]; }
        ++rk;
    }
    return rk;
}
inline bool near(MV const &a, MV const &b, Num tol) {
    for (auto &t : a.c) { Num d = std::fabs(t.second - b[t.first]); if (!(d <= tol)) return false; }
    for (auto &t : b.c) { Num d = std::fabs(t.second - a[t.first]); if (!(d <= tol)) return false; }
    return true;
}
// a = k*b for some k != 0 (both nonzero), or both zero
inline bool parallel(MV const &a, MV const &b, Num tol = 1e-9L) {
    if (a.maxabs() <= tol || b.maxabs() <= tol) return a.maxabs() <= tol && b.maxabs() <= tol;
    Bits best = 0; Num bv = 0; for (auto &t : b.c) if (std::fabs(t.second) > std::fabs(bv)) { bv = t.second; best = t.first; }
    Num k = a[best] / bv;
    return std::fabs(k) > 0 && near(a, scale(b, k), tol * std::max(Num(1), a.maxabs()));
}

} // namespace ref
