From 4d045bd6caf2b62dbf8ce844920191e47103c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 01/27] fix: even central moments above the fourth order lost
 their sign

---
 include/dspbb/Math/Statistics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Statistics.hpp b/include/dspbb/Math/Statistics.hpp
index 503636e..2faaf91 100644
--- a/include/dspbb/Math/Statistics.hpp
+++ b/include/dspbb/Math/Statistics.hpp
@@ -85,7 +85,8 @@ auto CentralMoment(const SignalT& signal, size_t k, U mean) {
 		using T = decltype(mean); // Must be a scalar.
 		using V = std::decay_t<decltype(a)>; // May be SIMD vector type.
 		const auto d = a - mean;
-		return d * kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
+		const auto m = kernels::math_functions::abs(d);
+		return (k % 2 == 0 ? m : d) * kernels::math_functions::pow(m, V(T(k) - T(1)));
 	};
 
 	const T den = T(signal.size());
-- 
2.43.0


From 2563874f144b507f8d5cff3e352794969f3e1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 02/27] fix: element-wise math functions wrote past a shorter
 output instead of rejecting it

---
 include/dspbb/Math/Functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Math/Functions.hpp b/include/dspbb/Math/Functions.hpp
index 4ed4d44..7d97a97 100644
--- a/include/dspbb/Math/Functions.hpp
+++ b/include/dspbb/Math/Functions.hpp
@@ -2,6 +2,7 @@
 
 #include "../Kernels/Math.hpp"
 #include "../Kernels/Numeric.hpp"
+#include "../Primitives/SignalArithmetic.hpp"
 #include "../Primitives/SignalTraits.hpp"
 
 #include <complex>
@@ -14,6 +15,7 @@ namespace dspbb {
 #define DSPBB_IMPL_FUNCTION_2_PARAM(NAME, FUNC)                                                                                                                        \
 	template <class SignalT, class SignalU, std::enable_if_t<is_mutable_signal_v<SignalT> && is_same_domain_v<std::decay_t<SignalT>, std::decay_t<SignalU>>, int> = 0> \
 	auto NAME(SignalT&& out, const SignalU& in) {                                                                                                                      \
+		CheckSizes(out, in);                                                                                                                                           \
 		return kernels::Transform(in.begin(), in.end(), out.begin(), [](const auto& v) { return kernels::math_functions::FUNC(v); });                                  \
 	}
 
@@ -58,6 +60,7 @@ DSPBB_IMPL_FUNCTION(Exp, exp)
 
 template <class SignalT, class SignalU, std::enable_if_t<is_mutable_signal_v<SignalT> && is_same_domain_v<std::decay_t<SignalT>, std::decay_t<SignalU>>, int> = 0>
 auto Pow(SignalT&& out, const SignalU& in, typename signal_traits<std::decay_t<SignalU>>::type power) {
+	CheckSizes(out, in);
 	return kernels::Transform(in.begin(), in.end(), out.begin(), [power](const auto& v) { return kernels::math_functions::pow(v, static_cast<std::decay_t<decltype(v)>>(power)); });
 }
 template <class SignalT, std::enable_if_t<is_signal_like_v<std::decay_t<SignalT>>, int> = 0>
-- 
2.43.0


From 995ba4364d075c02a4a77db67fca982992b15f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 03/27] fix: FFT shifts through two views of the same data
 corrupted the spectrum

---
 include/dspbb/Math/FFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 60245a6..def5298 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -192,7 +192,7 @@ namespace impl {
 	template <class SignalR, class SignalT, std::enable_if_t<is_same_domain_v<SignalR, SignalT>, int> = 0>
 	void BasicShift(SignalR&& out, const SignalT& in, size_t shift) {
 		assert(out.size() == in.size());
-		if (static_cast<const void*>(std::addressof(out)) == static_cast<const void*>(std::addressof(in))) {
+		if (static_cast<const void*>(out.data()) == static_cast<const void*>(in.data())) {
 			const auto first = out.begin();
 			const auto mid = out.begin() + shift;
 			const auto last = out.end();
-- 
2.43.0


From dd8451bbeaf535db22fb34ab67e41d63ddb2eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 04/27] fix: FftShift and IfftShift of a view return an owning
 spectrum instead of failing to compile

---
 include/dspbb/Math/FFT.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index def5298..b3f5d92 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -215,8 +215,8 @@ void FftShift(SignalR&& out, const SignalT& in) {
 }
 
 template <class SignalT, std::enable_if_t<is_signal_like_v<SignalT>, int> = 0>
-SignalT FftShift(const SignalT& in) {
-	SignalT out(in.size());
+auto FftShift(const SignalT& in) -> BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> {
+	BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> out(in.size());
 	FftShift(out, in);
 	return out;
 }
@@ -228,8 +228,8 @@ void IfftShift(SignalR&& out, const SignalT& in) {
 }
 
 template <class SignalT, std::enable_if_t<is_signal_like_v<SignalT>, int> = 0>
-SignalT IfftShift(const SignalT& in) {
-	SignalT out(in.size());
+auto IfftShift(const SignalT& in) -> BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> {
+	BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> out(in.size());
 	IfftShift(out, in);
 	return out;
 }
-- 
2.43.0


From 50ab0632f78f5a97c70de2a15c40f9729c631462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 05/27] fix: sawtooth and PWM waves with negative phase used
 the wrong part of the period

---
 include/dspbb/Generators/Waveforms.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Generators/Waveforms.hpp b/include/dspbb/Generators/Waveforms.hpp
index 56c715f..ceb4dab 100644
--- a/include/dspbb/Generators/Waveforms.hpp
+++ b/include/dspbb/Generators/Waveforms.hpp
@@ -4,7 +4,9 @@
 #include "../Utility/Numbers.hpp"
 #include "../Utility/TypeTraits.hpp"
 
+#include <cmath>
 #include <cstdint>
+#include <limits>
 #include <type_traits>
 
 
@@ -44,8 +46,8 @@ namespace impl {
 
 	inline double Sawtooth(double phase, double tilt) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double numPeriods = phase / pi2;
+		const double unitPhase = numPeriods - std::floor(numPeriods);
 		const double length = unitPhase > tilt ? (1.0 - tilt) : tilt + std::numeric_limits<double>::denorm_min();
 		const double distance = std::abs(unitPhase - tilt);
 		const double value = 1.0 - distance / length;
@@ -54,8 +56,8 @@ namespace impl {
 
 	inline double Pwm(double phase, double fill) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double numPeriods = phase / pi2;
+		const double unitPhase = numPeriods - std::floor(numPeriods);
 		return double(unitPhase < fill || fill >= 1.0);
 	}
 
-- 
2.43.0


From 8fc3a6ecbb8ef618e81bd3734e2f38b4d28b52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 06/27] fix: multiplying a Rational by a negative integer gave
 a negative denominator

---
 include/dspbb/Math/Rational.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index b87a102..2e43b60 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -61,9 +61,8 @@ constexpr Rational<T> operator-(const Rational<T>& lhs, T rhs) noexcept {
 template <class T>
 constexpr Rational<T> operator*(const Rational<T>& lhs, T rhs) noexcept {
 	const auto simplification = std::gcd(rhs, lhs.Denominator());
-	const auto sign = rhs < 0 ? T(-1) : T(1);
-	return { sign * lhs.Numerator() * (rhs / simplification),
-			 sign * lhs.Denominator() / simplification };
+	return { lhs.Numerator() * (rhs / simplification),
+			 lhs.Denominator() / simplification };
 }
 template <class T>
 constexpr Rational<T> operator/(const Rational<T>& lhs, T rhs) noexcept {
-- 
2.43.0


From 90ca83489d82ed8729fd3ccbe7b591eee4aac7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 07/27] fix: floor, ceil and frac of negative Rationals rounded
 toward zero or away

---
 include/dspbb/Math/Rational.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index 2e43b60..caa205d 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -313,12 +313,14 @@ constexpr bool operator>=(S lhs, const Rational<T>& rhs) noexcept {
 
 template <class T>
 constexpr T ceil(const Rational<T>& rational) {
-	return (rational.Numerator() + rational.Denominator() - 1) / rational.Denominator();
+	const T truncated = rational.Numerator() / rational.Denominator();
+	return truncated * rational.Denominator() < rational.Numerator() ? truncated + 1 : truncated;
 }
 
 template <class T>
 constexpr T floor(const Rational<T>& rational) {
-	return rational.Numerator() / rational.Denominator();
+	const T truncated = rational.Numerator() / rational.Denominator();
+	return truncated * rational.Denominator() > rational.Numerator() ? truncated - 1 : truncated;
 }
 
 template <class T>
-- 
2.43.0


From 2c296f8d27ee1fe281987fdea20cdb3f0bb0c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 08/27] fix: Interval equality ignored the upper bound

---
 include/dspbb/Utility/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Interval.hpp b/include/dspbb/Utility/Interval.hpp
index 8a6cfdf..1bc2422 100644
--- a/include/dspbb/Utility/Interval.hpp
+++ b/include/dspbb/Utility/Interval.hpp
@@ -37,7 +37,7 @@ Interval<T>& operator-=(Interval<T>& lhs, T rhs) {
 
 template <class T>
 bool operator==(const Interval<T>& lhs, const Interval<T>& rhs) {
-	return lhs.first == rhs.first && lhs.last && rhs.last;
+	return lhs.first == rhs.first && lhs.last == rhs.last;
 }
 
 template <class T>
-- 
2.43.0


From 2376b6e0146af83fffc6bab174357a3f57ce89b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 09/27] fix: FIR filtering did not compile with both FIR.hpp
 and IIR.hpp included

---
 include/dspbb/Filtering/IIR/Filter.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Filter.hpp b/include/dspbb/Filtering/IIR/Filter.hpp
index e29596f..dd4979b 100644
--- a/include/dspbb/Filtering/IIR/Filter.hpp
+++ b/include/dspbb/Filtering/IIR/Filter.hpp
@@ -8,7 +8,7 @@ namespace dspbb {
 
 namespace impl {
 	template <class SignalR, class SignalT, class System, class State, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
-	auto Filter(SignalR&& out, const SignalT& signal, const System& filter, State& state) {
+	auto FilterRecursive(SignalR&& out, const SignalT& signal, const System& filter, State& state) {
 		assert(out.size() == signal.size());
 		state.feed(signal.begin(), signal.end(), out.begin(), filter);
 	}
@@ -16,17 +16,17 @@ namespace impl {
 
 template <class SignalR, class SignalT, class T, class U, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
 auto Filter(SignalR&& out, const SignalT& signal, const DiscreteTransferFunction<U>& filter, DirectFormI<T>& state) {
-	impl::Filter(out, signal, filter, state);
+	impl::FilterRecursive(out, signal, filter, state);
 }
 
 template <class SignalR, class SignalT, class T, class U, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
 auto Filter(SignalR&& out, const SignalT& signal, const DiscreteTransferFunction<U>& filter, DirectFormII<T>& state) {
-	impl::Filter(out, signal, filter, state);
+	impl::FilterRecursive(out, signal, filter, state);
 }
 
 template <class SignalR, class SignalT, class T, class U, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
 auto Filter(SignalR&& out, const SignalT& signal, const CascadedBiquad<U>& filter, CascadedForm<T>& state) {
-	impl::Filter(out, signal, filter, state);
+	impl::FilterRecursive(out, signal, filter, state);
 }
 
 template <class SignalT, class T, class U>
-- 
2.43.0


From 60fe46912708126088b331d3767891676438db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 10/27] fix: assignment of factored polynomials did not return
 a value

---
 include/dspbb/Math/Polynomials.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index bdcc2ef..544e15f 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -173,6 +173,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(FactoredPolynomial&& rhs
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
 	rhs.m_real = {};
 	rhs.m_complex = {};
+	return *this;
 }
 
 template <class T>
@@ -180,6 +181,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(const FactoredPolynomial
 	m_mem = rhs.m_mem,
 	m_real = { m_mem.data(), rhs.m_real.size() },
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
+	return *this;
 }
 
 
-- 
2.43.0


From 8b6555345451afa04a6d2fe80c432cf9a5cc140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 11/27] fix: growing the real roots of a factored polynomial
 lost its complex roots

---
 include/dspbb/Math/Polynomials.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index 544e15f..fe101b5 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -4,6 +4,7 @@
 #include "../Primitives/SignalView.hpp"
 #include "../Utility/TypeTraits.hpp"
 
+#include <algorithm>
 #include <complex>
 #include <initializer_list>
 #include <numeric>
@@ -222,7 +223,8 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	}
 	m_mem.resize(numCoeffs);
 	if (currentRealRoots < numRealRoots) {
-		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (numCoeffs - numRealRoots), m_mem.end());
+		const size_t numKept = 2 * std::min(currentComplexPairs, numComplexPairs);
+		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (currentRealRoots + numKept), m_mem.begin() + (numRealRoots + numKept));
 	}
 	m_real = { m_mem.data(), numRealRoots };
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + numRealRoots), numComplexPairs };
-- 
2.43.0


From dac045a722f75b3188c4822bdb21f4d1db3fdd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 12/27] fix: the order of a cascaded biquad system was one too
 high

---
 include/dspbb/LTISystems/Systems.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index da11bd8..392630a 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -130,13 +130,13 @@ T CascadedBiquad<T>::operator()(const T& x) const {
 
 template <class T>
 size_t CascadedBiquad<T>::order() const {
-	size_t numOrder = 1;
-	size_t denOrder = 1;
+	size_t numOrder = 0;
+	size_t denOrder = 0;
 	for (auto& section : sections) {
 		numOrder += section.numOrder;
 		denOrder += section.denOrder;
 	}
-	return sections.empty() ? 0 : std::max(numOrder, denOrder);
+	return std::max(numOrder, denOrder);
 }
 
 template <class T>
-- 
2.43.0


From 2f0e3f55eca3b5a21aa62f4fc029dd95a8f80049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 13/27] fix: recursive filtering of a view did not compile

---
 include/dspbb/Filtering/IIR/Filter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Filter.hpp b/include/dspbb/Filtering/IIR/Filter.hpp
index dd4979b..fc33ff7 100644
--- a/include/dspbb/Filtering/IIR/Filter.hpp
+++ b/include/dspbb/Filtering/IIR/Filter.hpp
@@ -31,21 +31,21 @@ auto Filter(SignalR&& out, const SignalT& signal, const CascadedBiquad<U>& filte
 
 template <class SignalT, class T, class U>
 auto Filter(const SignalT& signal, const DiscreteTransferFunction<U>& filter, DirectFormI<T>& state) {
-	SignalT out(signal.size());
+	BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> out(signal.size());
 	Filter(out, signal, filter, state);
 	return out;
 }
 
 template <class SignalT, class T, class U>
 auto Filter(const SignalT& signal, const DiscreteTransferFunction<U>& filter, DirectFormII<T>& state) {
-	SignalT out(signal.size());
+	BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> out(signal.size());
 	Filter(out, signal, filter, state);
 	return out;
 }
 
 template <class SignalT, class T, class U>
 auto Filter(const SignalT& signal, const CascadedBiquad<U>& filter, CascadedForm<T>& state) {
-	SignalT out(signal.size());
+	BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> out(signal.size());
 	Filter(out, signal, filter, state);
 	return out;
 }
-- 
2.43.0


From 12d3e7dba422c9c49ab7b6fdba193108e04cd240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 14/27] fix: direct form II did not normalise the recursion by
 the leading coefficient

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 9cbb372..2ac29e2 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -167,7 +167,7 @@ void DirectFormII<T>::feed(InIter first, InIter last, OutIter outFirst, const Di
 
 	while (first != last) {
 		const auto input = *first++;
-		const auto stateNext = input * normalization - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0));
+		const auto stateNext = (input - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0))) * normalization;
 		std::move(++m_state.begin(), m_state.end(), m_state.begin());
 		*m_state.rbegin() = static_cast<T>(stateNext);
 		const auto output = static_cast<T>(std::inner_product(fwFull.begin(), fwFull.end(), stateFwView.begin(), T(0)));
-- 
2.43.0


From 3d96c0daaf229fd18554d0e2d375ba34a228798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 15/27] fix: the Window setter tested whether the old window
 was callable instead of the new one

---
 include/dspbb/Filtering/FIR/Descs.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/Descs.hpp b/include/dspbb/Filtering/FIR/Descs.hpp
index c20dc8f..3908053 100644
--- a/include/dspbb/Filtering/FIR/Descs.hpp
+++ b/include/dspbb/Filtering/FIR/Descs.hpp
@@ -33,7 +33,7 @@ namespace impl {
 				impl::ThrowIfNotNormalized(cutoffNew);
 				return Desc<NewParamType, WindowType>{ { std::move(cutoffNew), window } };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<NewWindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return Desc<ParamType, NewWindowType>{ { cutoff, std::move(windowNew) } };
 			}
@@ -63,7 +63,7 @@ namespace impl {
 				impl::ThrowIfNotSorted(lowerNew, upperNew);
 				return Desc<NewParamType, WindowType>{ { std::move(lowerNew), std::move(upperNew), window } };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<NewWindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return Desc<ParamType, NewWindowType>{ { lower, upper, std::move(windowNew) } };
 			}
@@ -89,7 +89,7 @@ namespace impl {
 			[[nodiscard]] auto Response(NewResponseFunc responseFuncNew) const {
 				return ArbitraryDesc<NewResponseFunc, WindowType>{ std::move(responseFuncNew), window };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<NewWindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return ArbitraryDesc<ResponseFunc, NewWindowType>{ responseFunc, std::move(windowNew) };
 			}
@@ -103,7 +103,7 @@ namespace impl {
 		struct HilbertDesc {
 			WindowType window;
 
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<NewWindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return HilbertDesc<NewWindowType>{ std::move(windowNew) };
 			}
-- 
2.43.0


From 06c83428ad08090a76ddc94019fb49cbd0dd55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 16/27] fix: half-band highpass and half-width bandpass
 transformations divided by zero

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 65ebd96..50e60de 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -104,8 +104,8 @@ DiscreteZeroPoleGain<T> Halfband2Highpass(const DiscreteZeroPoleGain<T>& system,
 	const T w = to * pi_v<T>;
 
 	const T s = -T(1);
-	const T a1 = std::cos(w) / (-1 + std::sin(w));
-	const T a0 = 1;
+	const T a1 = 1;
+	const T a0 = -(std::cos(w) / (1 + std::sin(w)));
 
 	return impl::MapZDomain(system, s, a0, a1);
 }
@@ -116,9 +116,9 @@ DiscreteZeroPoleGain<T> Halfband2Bandpass(const DiscreteZeroPoleGain<T>& system,
 	const T w2 = to2 * pi_v<T>;
 
 	const T s = -T(1);
-	const T a2 = -1 + 2 / (1 + std::tan((w1 - w2) / 2));
-	const T a1 = -((std::cos(w1) + std::cos(w2) + std::sin(w1) - std::sin(w2)) / (1 + std::sin(w1 - w2)));
-	const T a0 = 1;
+	const T a2 = 1;
+	const T a1 = (std::cos(w1) + std::cos(w2) - std::sin(w1) + std::sin(w2)) / (-1 + std::sin(w1 - w2));
+	const T a0 = -1 - 2 / (-1 + std::tan((w1 - w2) / 2));
 
 	return impl::MapZDomain(system, s, a0, a1, a2);
 }
-- 
2.43.0


From 61d1133b5ab4b3f9a6a3347a3652f33744d5c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 17/27] fix: gain of band transformed systems with more zeros
 than poles

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 50e60de..590205e 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -39,8 +39,8 @@ namespace impl {
 		const auto rgain = [s, a1, a0](const T& p) {
 			return a1 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
-		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
+		const T normGainExponent = T(system.poles.num_roots()) - T(system.zeros.num_roots());
+		const T normGain = normGainExponent != T(0) ? T(std::pow(a0, normGainExponent)) : T(1);
 
 		// Do transform
 		const size_t numRoots = std::max(system.zeros.num_roots(), system.poles.num_roots());
@@ -74,8 +74,8 @@ namespace impl {
 		const auto rgain = [s, a2, a0](const T& p) {
 			return a2 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
-		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
+		const T normGainExponent = T(system.poles.num_roots()) - T(system.zeros.num_roots());
+		const T normGain = normGainExponent != T(0) ? T(std::pow(a0, normGainExponent)) : T(1);
 
 		// Do transform
 		const size_t numRoots = std::max(system.zeros.num_roots(), system.poles.num_roots());
-- 
2.43.0


From 7f94ff24a2a89677ebd6feb45f814ac44d7f58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 18/27] fix: in-place design of a zero-pole-gain filter did not
 compile

---
 include/dspbb/Filtering/IIR.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/IIR.hpp b/include/dspbb/Filtering/IIR.hpp
index aed4319..3e3b0da 100644
--- a/include/dspbb/Filtering/IIR.hpp
+++ b/include/dspbb/Filtering/IIR.hpp
@@ -195,10 +195,7 @@ void DesignFilter(DiscreteZeroPoleGain<T>& out, const ResponseDesc& desc) {
 	// This is kinda useless. I should maybe add view-like analogs to LTI systems.
 	assert(out.zeros.num_roots() == out.poles.num_roots());
 	const size_t order = out.poles.num_roots();
-	const auto filter = DesignFilter(order, desc);
-	out.regroup(filter.num_real_roots());
-	std::copy(filter.real_roots().begin(), filter.real_roots.end(), out.real_roots.begin());
-	std::copy(filter.complex_pairs().begin(), filter.complex_pairs.end(), out.complex_pairs.begin());
+	out = DesignFilter<T>(order, desc);
 }
 
 } // namespace dspbb
\ No newline at end of file
-- 
2.43.0


From f58f517bd84092e1dca3a073056fca08cd54fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 19/27] fix: out-of-place ShiftResponse left the middle
 coefficient unwritten

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 7686214..a46272d 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -43,6 +43,9 @@ void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency
 		moved[i] = c * filter[i];
 		moved[size - i - 1] = c * filter[size - i - 1];
 	}
+	if (size % 2 == 1) {
+		moved[size / 2] = filter[size / 2];
+	}
 	moved *= typename signal_traits<SignalT>::type(2);
 }
 
-- 
2.43.0


From 1ccbeca3a90d7939eac8b101af6c62616889f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 20/27] fix: least squares Hilbert design dropped the grid size

---
 include/dspbb/Filtering/FIR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 5d22050..50cf9a1 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -188,7 +188,7 @@ auto DesignFilter(SignalR&& out, const impl::windowed::HilbertDesc<WindowType>&
 template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 auto DesignFilter(SignalR&& out, const impl::least_squares::HilbertDesc<ParamType>& desc) {
 	const ParamType transitionBand = desc.transitionWidth;
-	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1);
+	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1).Grid(desc.grid);
 	impl::FirFilterHilbert(out, halfband);
 }
 
-- 
2.43.0


From f9d62cd392389eaea193827af06d576e10dc8ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 21/27] fix: Interpolate left outputs with no contributing
 samples unwritten

---
 include/dspbb/Filtering/Resample.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 8449a26..0396c2d 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -254,6 +254,9 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 			const auto value = DotProduct(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
+		else {
+			hrOutput[hrOutputIdx - hrOffset] = typename signal_traits<std::decay_t<SignalR>>::type(0);
+		}
 	}
 
 	return impl::FindInterpolSuspensionPoint(hrOutputIdx, polyphase.size_original(), polyphase.num_phases());
-- 
2.43.0


From 9c55d1e93ee158d6bc9b928ce37afea33868001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 22/27] fix: even-length Hilbert design did not compile without
 Resample.hpp or into a view

---
 include/dspbb/Filtering/FIR.hpp                |  3 ++-
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 50cf9a1..e8f07c6 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -167,7 +167,8 @@ namespace impl {
 	void FirFilterHilbert(SignalR&& out, const HalfbandDesc& halfbandDesc) {
 		if (out.size() % 2 == 0) {
 			const size_t halfbandSize = out.size() * 2 - 1;
-			std::decay_t<SignalR> halfband(halfbandSize);
+			using traits = signal_traits<std::decay_t<SignalR>>;
+			BasicSignal<typename traits::type, traits::domain> halfband(halfbandSize);
 			DesignFilter(halfband, halfbandDesc);
 			fir::HalfbandToHilbertEven(out, halfband);
 		}
diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index a46272d..50cb48e 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -61,6 +61,13 @@ namespace impl {
 		2, 0, -2, 0, 2, 0, -2, 0,
 		2, 0, -2, 0, 2, 0, -2, 0
 	};
+
+	template <class SignalR, class SignalT>
+	void KeepEvenSamples(SignalR&& out, const SignalT& in) {
+		for (size_t i = 0; i < out.size(); ++i) {
+			out[i] = in[2 * i];
+		}
+	}
 } // namespace impl
 
 
@@ -125,7 +132,7 @@ void HalfbandToHilbertEven(SignalR& out, const SignalT& halfband) {
 		const auto kernelRegion = kernel.subsignal(offset, filterSize);
 		const auto scratchRegion = scratch.subsignal(0, filterSize);
 		Multiply(scratchRegion, halfband, kernelRegion);
-		Decimate(out, scratchRegion, 2);
+		impl::KeepEvenSamples(out, scratchRegion);
 	}
 	else {
 		size_t tap = (filterSize / 2 - kernelCenter) % kernelSize;
@@ -133,20 +140,20 @@ void HalfbandToHilbertEven(SignalR& out, const SignalT& halfband) {
 		Multiply(scratch.subsignal(0, tap),
 				 BasicSignalView<const T, Domain>{ halfband.data(), tap },
 				 kernel.subsignal(kernelSize - tap));
-		Decimate(BasicSignalView<T, Domain>(out.begin(), (tap + 1) / 2), scratch.subsignal(0, tap), 2);
+		impl::KeepEvenSamples(BasicSignalView<R, Domain>{ out.data(), (tap + 1) / 2 }, scratch.subsignal(0, tap));
 
 		for (; tap + kernelSize < filterSize; tap += kernelSize) {
 			Multiply(scratch,
 					 BasicSignalView<const T, Domain>{ halfband.data() + tap, kernelSize },
 					 kernel);
-			Decimate(BasicSignalView<R, Domain>{ out.begin() + (tap + 1) / 2, (kernelSize + 1) / 2 }, scratch, 2);
+			impl::KeepEvenSamples(BasicSignalView<R, Domain>{ out.data() + (tap + 1) / 2, (kernelSize + 1) / 2 }, scratch);
 		}
 
 		const size_t lastChunkSize = filterSize - tap;
 		Multiply(scratch.subsignal(0, lastChunkSize),
 				 BasicSignalView<const T, Domain>{ halfband.data() + tap, lastChunkSize },
 				 kernel.subsignal(0, lastChunkSize));
-		Decimate(BasicSignalView<R, Domain>{ out.begin() + (tap + 1) / 2, (lastChunkSize + 1) / 2 }, scratch.subsignal(0, lastChunkSize), 2);
+		impl::KeepEvenSamples(BasicSignalView<R, Domain>{ out.data() + (tap + 1) / 2, (lastChunkSize + 1) / 2 }, scratch.subsignal(0, lastChunkSize));
 	}
 }
 
-- 
2.43.0


From 6d91644d739341567201245236b5d022594402b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 23/27] fix: FIR band transformations did not compile for views
 of constant samples

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 50cb48e..69bd927 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -15,7 +15,7 @@ template <class SignalR, class SignalT, std::enable_if_t<is_mutable_signal_v<Sig
 void MirrorResponse(SignalR&& mirrored, const SignalT& filter) {
 	assert(mirrored.size() == filter.size());
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
-	using T = typename signal_traits<std::decay_t<SignalT>>::type;
+	using T = std::remove_const_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	T sign = T(1);
 	for (size_t i = 0; i < filter.size(); ++i, sign *= T(-1)) {
 		mirrored[i] = R(sign * filter[i]);
@@ -78,7 +78,7 @@ void HalfbandToHilbertOdd(SignalR& out, const SignalT& halfband) {
 
 	using impl::kernelSize;
 	using R = typename std::decay_t<SignalR>::value_type;
-	using T = typename std::decay_t<SignalT>::value_type;
+	using T = std::remove_const_t<typename std::decay_t<SignalT>::value_type>;
 	constexpr auto Domain = signal_traits<std::decay_t<SignalR>>::domain;
 	constexpr size_t kernelCenter = kernelSize / 2 - 1;
 	constexpr size_t maxSizeSingleStep = kernelSize - 1;
@@ -116,7 +116,7 @@ void HalfbandToHilbertEven(SignalR& out, const SignalT& halfband) {
 
 	using impl::kernelSize;
 	using R = typename std::decay_t<SignalR>::value_type;
-	using T = typename std::decay_t<SignalT>::value_type;
+	using T = std::remove_const_t<typename std::decay_t<SignalT>::value_type>;
 	constexpr auto Domain = signal_traits<std::decay_t<SignalR>>::domain;
 	constexpr size_t kernelCenter = kernelSize / 2 - 1;
 	constexpr size_t maxSizeSingleStep = kernelSize - 1;
-- 
2.43.0


From f2dae99da37324e4311e43ff22565dc78687c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 24/27] fix: stateful overlap-add filtering with a single tap
 failed an assertion

---
 include/dspbb/Filtering/FIR/Filter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/Filter.hpp b/include/dspbb/Filtering/FIR/Filter.hpp
index 0013883..9da0502 100644
--- a/include/dspbb/Filtering/FIR/Filter.hpp
+++ b/include/dspbb/Filtering/FIR/Filter.hpp
@@ -63,7 +63,9 @@ auto Filter(SignalR&& out, const SignalU& signal, const SignalV& filter, SignalS
 	assert(out.size() == signal.size());
 
 	std::fill(out.begin(), out.end(), remove_complex_t<typename std::decay_t<SignalR>::value_type>(0));
-	OverlapAdd(AsView(out).subsignal(0, std::min(out.size(), state.size())), state, filter, filter.size() - 1, chunkSize, false);
+	if (state.size() != 0) {
+		OverlapAdd(AsView(out).subsignal(0, std::min(out.size(), state.size())), state, filter, filter.size() - 1, chunkSize, false);
+	}
 	OverlapAdd(out, signal, filter, 0, chunkSize, false);
 	impl::ShiftFilterState(state, signal);
 }
-- 
2.43.0


From 6cbaa63a9902ff25cab7b1979782ae0261f59b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 25/27] fix: least squares grid was capped at the number of
 coefficients instead of raised to it

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 21b6e39..15e7d0d 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -73,7 +73,7 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 	using T = remove_complex_t<R>;
 
 	const size_t filterLength = (coefficients.size() + 1) / 2;
-	gridSize = gridSize == 0 ? 4 * filterLength : std::min(filterLength, gridSize);
+	gridSize = gridSize == 0 ? 4 * filterLength : std::max(filterLength, gridSize);
 
 	const auto coefficientMatrix = impl::CoefficientMatrix<T>(filterLength, gridSize);
 	const auto weightMatrix = impl::WeightMatrix<T>(gridSize, weightFunc);
-- 
2.43.0


From cc8b5d0aa386b38cd527f36b7049715b3a7d18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 26/27] fix: polyphase decomposition of a view of constant
 coefficients did not compile

---
 include/dspbb/Filtering/Polyphase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/Polyphase.hpp b/include/dspbb/Filtering/Polyphase.hpp
index 1cd85b6..c36de83 100644
--- a/include/dspbb/Filtering/Polyphase.hpp
+++ b/include/dspbb/Filtering/Polyphase.hpp
@@ -124,7 +124,7 @@ auto PolyphaseDecompose(SignalR&& output, const SignalT& filter, size_t numFilte
 
 template <class SignalT>
 auto PolyphaseDecompose(const SignalT& filter, size_t numFilters) {
-	using R = typename signal_traits<std::decay_t<SignalT>>::type;
+	using R = std::remove_const_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	constexpr auto Domain = signal_traits<std::decay_t<SignalT>>::domain;
 	PolyphaseFilter<R, Domain> polyphase{ filter.size(), numFilters };
 
-- 
2.43.0


From 5f462dd5c7f3a60d1e9169c021583896c2bc0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:15 +0000
Subject: [PATCH 27/27] fix: EllipticArcSN dropped the sign of its argument

---
 include/dspbb/Math/EllipticFunctions.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 63e2829..2cfc98c 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -234,11 +234,10 @@ auto EllipticDN(T1 x, T2 k) {
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
 T EllipticArcSN(T x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
@@ -261,11 +260,10 @@ T EllipticArcDN(T x, T k) {
 
 template <class T>
 std::complex<T> EllipticArcSN(std::complex<T> x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T>
-- 
2.43.0

