From 3618a11d60e414ad2894bc62003310ed4434daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 01/10] fix: binary16: round to nearest even, handle overflow
 and underflow, and report accuracy in NewFromBig and NewFromFloat64

---
 binary16/binary16.go | 52 ++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 7299c3c..75ef77a 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -75,11 +75,7 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 		// +NaN
 		return NaN, big.Exact
 	}
-	y := big.NewFloat(x)
-	y.SetPrec(precision)
-	y.SetMode(big.ToNearestEven)
-	// TODO: check accuracy after setting precision?
-	return NewFromBig(y)
+	return NewFromBig(big.NewFloat(x))
 }
 
 // NewFromBig returns the nearest half precision floating-point number for x and
@@ -117,28 +113,48 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
-	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
+	// Round to nearest even. The precision of denormalized values decreases with
+	// the exponent.
+	prec := precision
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
+		prec = precision - 1 + exp
+	}
+	if prec <= 0 {
+		// |x| is less than the smallest denormalized value; round up if above the
+		// midpoint between zero and the smallest denormalized value.
+		up := prec == 0 && mant.MinPrec() > 1
+		acc := big.Below
+		if up != x.Signbit() {
+			acc = big.Above
+		}
+		if up {
+			bits |= 1
 		}
+		return Float{bits: bits}, acc
+	}
+	mant.SetMode(big.ToNearestEven).SetPrec(uint(prec))
+	acc := mant.Acc()
+	// Rounding may carry into the exponent.
+	exp += mant.MantExp(mant)
+
+	// Handle denormalized values.
+	if exp <= 0 {
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		mantissa, _ := mant.Uint64()
-		// TODO: calculate acc based on if mantissa&^0x7FF != 0 {}
 		bits |= uint16(mantissa & 0x7FF)
 		return Float{bits: bits}, acc
 	}
 
 	// exponent mask (5 bits): 0b11111
-	acc := big.Exact
-	if (exp &^ 0x1F) != 0 {
-		acc = big.Above
+	if exp >= 0x1F {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
 	}
 	bits |= uint16(exp&0x1F) << 10
 
@@ -146,16 +162,10 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Uint64()
 	mantissa &^= 0x400 // clear implicit lead bit; 2^10
 
 	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
-	if acc == big.Exact && (mantissa&^0x7FF) != 0 {
-		acc = big.Below
-	}
 	mantissa &= 0x7FF
 	bits |= uint16(mantissa)
 	return Float{bits: bits}, acc
-- 
2.43.0


From 7f96e3edd5a7d1b84a407a1fe80c615e438c815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 02/10] fix: binary128: round to nearest even, handle overflow
 and underflow, and report accuracy in NewFromBig

---
 binary128/binary128.go | 46 +++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index f1251ce..085fa8e 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -118,14 +118,32 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
-	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
+	// Round to nearest even. The precision of denormalized values decreases with
+	// the exponent.
+	prec := precision
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
+		prec = precision - 1 + exp
+	}
+	if prec <= 0 {
+		// |x| is less than the smallest denormalized value; round up if above the
+		// midpoint between zero and the smallest denormalized value.
+		up := prec == 0 && mant.MinPrec() > 1
+		acc := big.Below
+		if up != x.Signbit() {
+			acc = big.Above
+		}
+		if up {
+			b |= 1
 		}
+		return Float{a: a, b: b}, acc
+	}
+	mant.SetMode(big.ToNearestEven).SetPrec(uint(prec))
+	acc := mant.Acc()
+	// Rounding may carry into the exponent.
+	exp += mant.MantExp(mant)
+
+	// Handle denormalized values.
+	if exp <= 0 {
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
@@ -142,16 +160,18 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 		bigA.Rsh(bigA, 64)
 		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-		// TODO: calculate acc based on if mantissa&^maskA != 0 {}
 		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 		b = bigB.Uint64()
 		return Float{a: a, b: b}, acc
 	}
 
 	// exponent mask (15 bits): 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
+	if exp >= 0x7FFF {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
 	}
 	a |= uint64(exp&0x7FFF) << 48
 
@@ -159,9 +179,6 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Int(nil)
 	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112
 
@@ -177,9 +194,6 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 	bigA.Rsh(bigA, 64)
 	bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-	if acc == big.Exact && (bigA.Uint64()&^0x0000FFFFFFFFFFFF) != 0 {
-		acc = big.Below
-	}
 	a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 	b = bigB.Uint64()
 	return Float{a: a, b: b}, acc
-- 
2.43.0


From 6f3e7a9d00dddc578127d9d0197fdd7f0ea90d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 03/10] fix: float80x86: round to nearest even, handle overflow
 and underflow, and report accuracy in NewFromBig

---
 float80x86/float80x86.go | 48 ++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index e4bdf0c..63c7478 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -141,28 +141,48 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
-	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
+	// Round to nearest even. The precision of denormalized values decreases with
+	// the exponent.
+	prec := precision
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
+		prec = precision - 1 + exp
+	}
+	if prec <= 0 {
+		// |x| is less than the smallest denormalized value; round up if above the
+		// midpoint between zero and the smallest denormalized value.
+		up := prec == 0 && mant.MinPrec() > 1
+		acc := big.Below
+		if up != x.Signbit() {
+			acc = big.Above
 		}
+		if up {
+			m |= 1
+		}
+		return Float{se: se, m: m}, acc
+	}
+	mant.SetMode(big.ToNearestEven).SetPrec(uint(prec))
+	acc := mant.Acc()
+	// Rounding may carry into the exponent.
+	exp += mant.MantExp(mant)
+
+	// Handle denormalized values.
+	if exp <= 0 {
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		v, _ := mant.Uint64()
-		// TODO: calculate acc based on if v&^0x7FFFFFFFFFFFFFFF != 0 {}
 		m |= v & 0x7FFFFFFFFFFFFFFF
 		return Float{se: se, m: m}, acc
 	}
 
 	// 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
+	if exp >= 0x7FFF {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
 	}
 	se |= uint16(exp & 0x7FFF)
 
@@ -170,14 +190,8 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	// mantissa, including explicit lead bit
-	mantissa, acc2 := mant.Uint64()
-	if acc == big.Exact {
-		acc = acc2
-	}
+	mantissa, _ := mant.Uint64()
 	m |= mantissa
 	return Float{se: se, m: m}, acc
 }
-- 
2.43.0


From 22837ebb10f29b54b3899a6175c59c4a9e3e9b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 04/10] fix: float128ppc: NegInf is negative infinity

---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 9fdc9b3..bd962cc 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -24,7 +24,7 @@ var (
 	// +Inf
 	Inf = Float{high: math.Inf(1), low: 0}
 	// -Inf
-	NegInf = Float{high: -math.Inf(-1), low: 0}
+	NegInf = Float{high: math.Inf(-1), low: 0}
 	// +zero
 	Zero = Float{high: 0, low: 0}
 	// -zero
-- 
2.43.0


From 4e6a9ca333df5c2d7b026eb5bafd21e21d3bb824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 05/10] fix: float128ppc: NewFromBig rounds each part once,
 reports accuracy, handles overflow and leaves its argument unchanged

---
 float128ppc/float128ppc.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index bd962cc..332167e 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -100,22 +100,19 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
-	// set precision of x.
-	x.SetPrec(precision).SetMode(big.ToNearestEven)
-
 	// get high part of the double-double floating-point value.
-	high, _ := x.Float64()
-	h := big.NewFloat(high).SetPrec(precision).SetMode(big.ToNearestEven)
+	high, acc := x.Float64()
+	if math.IsInf(high, 0) || high == 0 {
+		// overflow or underflow.
+		return Float{high: high, low: 0}, acc
+	}
+	h := big.NewFloat(high)
 
-	// compute low part by subtracting high from x.
-	l := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
+	// compute low part by subtracting high from x; the difference is exact at
+	// the larger precision of x and h.
+	l := new(big.Float)
 	l.Sub(x, h)
-	low, _ := l.Float64()
-
-	// check accuracy of results.
-	result := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
-	result.Add(h, l)
-	acc := big.Accuracy(x.Cmp(result))
+	low, acc := l.Float64()
 
 	return Float{high: high, low: low}, acc
 }
-- 
2.43.0


From 3bf08cfaadd875fb9128e9bed1d0084fd6fe71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 06/10] fix: float128ppc: Big returns the exact sum of the two
 parts

---
 float128ppc/float128ppc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 332167e..800b3ab 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -10,9 +10,9 @@ import (
 )
 
 const (
-	// precision specifies the number of bits in the mantissa (including the
-	// implicit lead bit).
-	precision = 106
+	// precision specifies the number of bits required to represent the exact sum
+	// of any two double-precision values, from 2^1023 down to 2^-1074.
+	precision = 2098
 )
 
 // Positive and negative Not-a-Number, infinity and zero.
-- 
2.43.0


From b5bfc34db61b6772cfd4fcda26e2dc52e15bed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 07/10] fix: float128ppc: opposite infinities are NaN and a NaN
 keeps its sign

---
 float128ppc/float128ppc.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 800b3ab..44e4a83 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -153,6 +153,9 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	x.SetPrec(precision)
 	x.SetMode(big.ToNearestEven)
 	if f.IsNaN() {
+		if math.Signbit(f.high) {
+			x.Neg(x)
+		}
 		return x, true
 	}
 	h := big.NewFloat(f.high).SetPrec(precision)
@@ -172,6 +175,10 @@ func (f Float) Big() (x *big.Float, nan bool) {
 
 // IsNaN returns true if the Float is NaN
 func (f Float) IsNaN() bool {
+	// Inf - Inf is NaN
+	if math.IsInf(f.high, 0) && f.low == -f.high {
+		return true
+	}
 	// NaN + NaN should be NaN in consideration
 	return math.IsNaN(f.high) || math.IsNaN(f.low)
 }
-- 
2.43.0


From 04cd4f7e726d7ace3a91a2923a9a57ee5b3d340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 08/10] fix: float: IsExact functions test for exact conversion
 rather than comparing decimal strings

---
 float.go | 52 +++++++---------------------------------------------
 1 file changed, 7 insertions(+), 45 deletions(-)

diff --git a/float.go b/float.go
index b5053f6..b539e16 100644
--- a/float.go
+++ b/float.go
@@ -2,66 +2,28 @@
 package float
 
 import (
-	"fmt"
 	"math/big"
-	"strings"
 
-	"github.com/mewmew/float/internal/strconv"
+	"github.com/mewmew/float/binary16"
 )
 
 // IsExact16 reports whether x may be represented exactly as a 16-bit
 // floating-point value.
 func IsExact16(x *big.Float) bool {
-	f, acc := x.Float64()
-	if acc != big.Exact {
-		return false
-	}
-	s1 := strconv.FormatFloat(f, 'e', -1, 16)
-	s2 := trimZeros(x.Text('e', 100))
-	return s1 == s2
+	_, acc := binary16.NewFromBig(x)
+	return acc == big.Exact
 }
 
 // IsExact32 reports whether x may be represented exactly as a 32-bit
 // floating-point value.
 func IsExact32(x *big.Float) bool {
-	f, acc := x.Float32()
-	if acc != big.Exact {
-		return false
-	}
-	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)
-	s2 := trimZeros(x.Text('e', 100))
-	return s1 == s2
+	_, acc := x.Float32()
+	return acc == big.Exact
 }
 
 // IsExact64 reports whether x may be represented exactly as a 64-bit
 // floating-point value.
 func IsExact64(x *big.Float) bool {
-	f, acc := x.Float64()
-	if acc != big.Exact {
-		return false
-	}
-	s1 := strconv.FormatFloat(f, 'e', -1, 64)
-	s2 := trimZeros(x.Text('e', 100))
-	return s1 == s2
-}
-
-// trimZeros trims trailing zeroes after the decimal point in the given
-// floating-point value (represented in scientific notation). If all digits
-// after the decimal point are trimmed this way, the decimal point is also
-// trimmed.
-func trimZeros(s string) string {
-	epos := strings.Index(s, "e")
-	if epos == -1 {
-		panic(fmt.Errorf("unable to locate position of exponent (e.g. e+02) in %q", s))
-	}
-	pos := epos - 1
-	for ; pos > 0; pos-- {
-		if s[pos] != '0' {
-			break
-		}
-	}
-	if s[pos] != '.' {
-		pos++
-	}
-	return fmt.Sprintf("%s%s", s[:pos], s[epos:])
+	_, acc := x.Float64()
+	return acc == big.Exact
 }
-- 
2.43.0


From 2818160647cb8ed0cb0a1c14013f548f8b6690d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 09/10] fix: float128ppc: NewFromBig rounds the smallest
 exponents to zero rather than infinity

---
 float128ppc/float128ppc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 44e4a83..b7a1cb1 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -100,6 +100,15 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
+	// |x| < 2^-1075 rounds to zero. This also keeps the smallest exponents, for
+	// which Float64 wraps around and returns infinity, away from Float64.
+	if x.MantExp(nil) <= -1075 {
+		if x.Signbit() {
+			return NegZero, big.Above
+		}
+		return Zero, big.Below
+	}
+
 	// get high part of the double-double floating-point value.
 	high, acc := x.Float64()
 	if math.IsInf(high, 0) || high == 0 {
-- 
2.43.0


From 2a65487de322514b030af0fcd165328d492f003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:36 +0000
Subject: [PATCH 10/10] fix: internal/strconv: shortest formatting chooses the
 nearest of the shortest decimals

---
 internal/strconv/ftoa.go | 63 +++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index c2c5ea5..d837eac 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -296,39 +296,80 @@ func roundShortest(d *decimal, mant uint64, exp int, flt *floatInfo) {
 	// would round to the original mantissa and not the neighbors.
 	inclusive := mant%2 == 0
 
+	// As we walk the digits we want to know whether rounding up would fall
+	// within the upper bound. This is tracked by upperdelta:
+	//
+	// If upperdelta == 0, the digits of d and upper are the same so far.
+	//
+	// If upperdelta == 1, we saw a difference of 1 between d and upper on a
+	// previous digit and subsequently only 9s for d and 0s for upper.
+	// (Thus rounding up may fall outside the bound, if it is exclusive.)
+	//
+	// If upperdelta == 2, then the difference is greater than 1
+	// and we know that rounding up falls within the bound.
+	var upperdelta uint8
+
 	// Now we can figure out the minimum number of digits required.
 	// Walk along until d has distinguished itself from upper and lower.
-	for i := 0; i < d.nd; i++ {
+	for ui := 0; ; ui++ {
+		// lower, d, and upper may have the decimal points at different
+		// places. In this case upper is the longest, so we iterate from
+		// ui==0 and start li and mi at (possibly) -1.
+		mi := ui - upper.dp + d.dp
+		if mi >= d.nd {
+			break
+		}
+		li := ui - upper.dp + lower.dp
 		l := byte('0') // lower digit
-		if i < lower.nd {
-			l = lower.d[i]
+		if li >= 0 && li < lower.nd {
+			l = lower.d[li]
+		}
+		m := byte('0') // middle digit
+		if mi >= 0 {
+			m = d.d[mi]
 		}
-		m := d.d[i]    // middle digit
 		u := byte('0') // upper digit
-		if i < upper.nd {
-			u = upper.d[i]
+		if ui < upper.nd {
+			u = upper.d[ui]
 		}
 
 		// Okay to round down (truncate) if lower has a different digit
 		// or if lower is inclusive and is exactly the result of rounding
 		// down (i.e., and we have reached the final digit of lower).
-		okdown := l != m || inclusive && i+1 == lower.nd
+		okdown := l != m || inclusive && li+1 == lower.nd
 
+		switch {
+		case upperdelta == 0 && m+1 < u:
+			// Example:
+			// m = 12345xxx
+			// u = 12347xxx
+			upperdelta = 2
+		case upperdelta == 0 && m != u:
+			// Example:
+			// m = 12345xxx
+			// u = 12346xxx
+			upperdelta = 1
+		case upperdelta == 1 && (m != '9' || u != '0'):
+			// Example:
+			// m = 1234598x
+			// u = 1234600x
+			upperdelta = 2
+		}
 		// Okay to round up if upper has a different digit and either upper
 		// is inclusive or upper is bigger than the result of rounding up.
-		okup := m != u && (inclusive || m+1 < u || i+1 < upper.nd)
+		okup := upperdelta > 0 && (inclusive || upperdelta > 1 || ui+1 < upper.nd)
 
 		// If it's okay to do either, then round to the nearest one.
 		// If it's okay to do only one, do it.
 		switch {
 		case okdown && okup:
-			d.Round(i + 1)
+			d.Round(mi + 1)
 			return
 		case okdown:
-			d.RoundDown(i + 1)
+			d.RoundDown(mi + 1)
 			return
 		case okup:
-			d.RoundUp(i + 1)
+			d.RoundUp(mi + 1)
 			return
 		}
 	}
-- 
2.43.0

