O(plus, is_ga<K>, +A_, a)
O(neg, is_ga<K>, -A_, -a)
O(rev, true, ga::reverse(A_), ref::reverse(a))
O(revop, is_ga<K>, ~A_, ref::reverse(a))
O(involute, true, ga::involute(A_), ref::involute(a))
O(conjugate, true, ga::conjugate(A_), ref::conjugate(a))
O(take1, true, ga::take_grade(A_, ga::c<1>), ref::grade_part(a, 1))
O(take0, true, ga::take_grade(A_, 0), ref::grade_part(a, 0))
O(norm2, true, ga::rnorm_sqr(A_, met), ref::rnorm_sqr(a, rm))
O(gpself, is_ga<K>, ga::gp(a_, a_, met), ref::gp(a, a, rm))
O(times, is_ga<K>, A_ * 2, ref::scale(a, 2))
O(timest, is_ga<K>, A_ * T(-3), ref::scale(a, -3))
O(plus1, is_ga<K>, 1 + A_, MV(1) + a)
O(plust, is_ga<K>, A_ + T(-3), a + MV(-3))
O(minus, is_ga<K>, A_ - A_, (void(a), MV()))
O(half, is_ga<K>, A_ / T(2), ref::scale(a, 0.5L))
O(half2, is_ga<K>, A_ / 2, ref::scale(a, 0.5L))
O(dual, true, ga::dual(A_, ga::pseudoscalar(met), met), ref::dual(a, rm))
O(undual, true, ga::undual(A_, ga::pseudoscalar(met), met), ref::undual(a, rm))
O(take_largest, true, ga::take_largest_grade(A_), ref::grade_part(a, ref::largest_grade(a, 0)))
O(expr, is_ga<K>, ga::gp(ga::reverse(A_), ga::e(1), met), ref::gp(ref::reverse(a), MV::blade(1), rm))
O(scalarof, (!is_ga<K> || isscalar<K>), ga::scalar(A_), a)
O(nabs, isscalar<K>, ga::abs(A_), MV(std::fabs(a.scalar())))
O(npow2, isscalar<K>, ga::pow(A_, ga::c<2>), MV(a.scalar() * a.scalar()))
O(npow3, isscalar<K>, ga::pow(A_, ga::c<3>), MV(a.scalar() * a.scalar() * a.scalar()))
O(nexp, isscalar<K>, ga::exp(A_), MV(std::exp(a.scalar())))
O(ncos, isscalar<K>, ga::cos(A_), MV(std::cos(a.scalar())))
O(ncbrt, isscalar<K>, ga::cbrt(A_), MV(std::cbrt(a.scalar())))
O(inv, invertible<K>, ga::inv(A_, met), ref::inv(a, rm))
O(unit, invertible<K>, ga::unit(A_, met), ref::unit(a, rm))
O(rnorm, invertible<K>, ga::rnorm(A_, met), ref::rnorm(a, rm))
template<typename K> void all_unary() {
#define R(NAME) run_##NAME<K>();
    UNARY
#undef R
}
