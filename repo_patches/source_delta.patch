From 815c263e13c1743297e79f40b5589ca09fda47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 01/15] fix: binary16: round to nearest even in NewFromBig

NewFromBig truncated values which need more than 11 bits of mantissa, wrapped
the exponent of values which are too large, produced arbitrary bits for values
below the denormalized range, and reported the accuracy of results as Exact or
Below regardless of the value of x. NewFromFloat64 reported Exact for rounded
values.
---
 binary16/binary16.go | 64 ++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 7299c3c..a6d822d 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -75,11 +75,7 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 		// +NaN
 		return NaN, big.Exact
 	}
-	y := big.NewFloat(x)
-	y.SetPrec(precision)
-	y.SetMode(big.ToNearestEven)
-	// TODO: check accuracy after setting precision?
-	return NewFromBig(y)
+	return NewFromBig(big.NewFloat(x))
 }
 
 // NewFromBig returns the nearest half precision floating-point number for x and
@@ -111,56 +107,78 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bits |= 0x8000
 	}
 
+	// Round to the nearest representable value, and determine the accuracy of
+	// the result.
+	y := round(x)
+	acc := big.Accuracy(y.Cmp(x))
+	if y.Sign() == 0 {
+		return Float{bits: bits}, acc
+	}
+
 	// Exponent and mantissa.
 	mant := new(big.Float)
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
+	// Handle overflow.
+	if y.IsInf() || exp >= 0x1F {
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
+	}
+
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		mantissa, _ := mant.Uint64()
-		// TODO: calculate acc based on if mantissa&^0x7FF != 0 {}
 		bits |= uint16(mantissa & 0x7FF)
 		return Float{bits: bits}, acc
 	}
 
 	// exponent mask (5 bits): 0b11111
-	acc := big.Exact
-	if (exp &^ 0x1F) != 0 {
-		acc = big.Above
-	}
 	bits |= uint16(exp&0x1F) << 10
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Uint64()
 	mantissa &^= 0x400 // clear implicit lead bit; 2^10
 
 	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
-	if acc == big.Exact && (mantissa&^0x7FF) != 0 {
-		acc = big.Below
-	}
 	mantissa &= 0x7FF
 	bits |= uint16(mantissa)
 	return Float{bits: bits}, acc
 }
 
+// round returns the finite value x rounded to the precision available at its
+// magnitude (denormalized values have fewer mantissa bits), ties to even.
+func round(x *big.Float) *big.Float {
+	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)
+	// Exponent of the smallest normalized value; 2^(1-bias).
+	const minExp = 1 - bias
+	switch exp := x.MantExp(nil) - 1; {
+	case exp >= minExp:
+		return y.Set(x)
+	case exp < minExp-precision:
+		// Less than half of the smallest denormalized value.
+		return y
+	}
+	// Adding the smallest normalized value aligns the last mantissa bit with
+	// the last bit of the denormalized values.
+	min := new(big.Float).SetMantExp(big.NewFloat(1), minExp)
+	if x.Signbit() {
+		min.Neg(min)
+	}
+	y.Add(x, min)
+	return y.Sub(y, min)
+}
+
 // Bits returns the IEEE 754 half precision binary representation of f.
 func (f Float) Bits() uint16 {
 	return f.bits
-- 
2.43.0


From 8334e570cc62877b28ca9f72f3cdb1f814c9197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 02/15] fix: binary128: round to nearest even in NewFromBig

NewFromBig truncated values which need more than 113 bits of mantissa, wrapped
the exponent of values which are too large, produced arbitrary bits for values
below the denormalized range, and reported the accuracy of results as Exact or
Below regardless of the value of x.
---
 binary128/binary128.go | 58 +++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index f1251ce..4cd718b 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -112,20 +112,30 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		a |= 0x8000000000000000
 	}
 
+	// Round to the nearest representable value, and determine the accuracy of
+	// the result.
+	y := round(x)
+	acc := big.Accuracy(y.Cmp(x))
+	if y.Sign() == 0 {
+		return Float{a: a, b: b}, acc
+	}
+
 	// Exponent and mantissa.
 	mant := new(big.Float).SetPrec(precision)
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
+	// Handle overflow.
+	if y.IsInf() || exp >= 0x7FFF {
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
+	}
+
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
@@ -142,26 +152,18 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 		bigA.Rsh(bigA, 64)
 		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-		// TODO: calculate acc based on if mantissa&^maskA != 0 {}
 		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 		b = bigB.Uint64()
 		return Float{a: a, b: b}, acc
 	}
 
 	// exponent mask (15 bits): 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
-	}
 	a |= uint64(exp&0x7FFF) << 48
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Int(nil)
 	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112
 
@@ -177,14 +179,34 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 	bigA.Rsh(bigA, 64)
 	bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-	if acc == big.Exact && (bigA.Uint64()&^0x0000FFFFFFFFFFFF) != 0 {
-		acc = big.Below
-	}
 	a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 	b = bigB.Uint64()
 	return Float{a: a, b: b}, acc
 }
 
+// round returns the finite value x rounded to the precision available at its
+// magnitude (denormalized values have fewer mantissa bits), ties to even.
+func round(x *big.Float) *big.Float {
+	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)
+	// Exponent of the smallest normalized value; 2^(1-bias).
+	const minExp = 1 - bias
+	switch exp := x.MantExp(nil) - 1; {
+	case exp >= minExp:
+		return y.Set(x)
+	case exp < minExp-precision:
+		// Less than half of the smallest denormalized value.
+		return y
+	}
+	// Adding the smallest normalized value aligns the last mantissa bit with
+	// the last bit of the denormalized values.
+	min := new(big.Float).SetMantExp(big.NewFloat(1), minExp)
+	if x.Signbit() {
+		min.Neg(min)
+	}
+	y.Add(x, min)
+	return y.Sub(y, min)
+}
+
 // Bits returns the IEEE 754 quadruple precision binary representation of f.
 func (f Float) Bits() (a, b uint64) {
 	return f.a, f.b
-- 
2.43.0


From 14259e1621715859f8f2f01c72847acbf95d67d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 03/15] fix: float80x86: round to nearest even in NewFromBig

NewFromBig truncated values which need more than 64 bits of mantissa, wrapped
the exponent of values which are too large, produced arbitrary bits for values
below the denormalized range, and reported the accuracy of results as Exact or
Below regardless of the value of x.
---
 float80x86/float80x86.go | 62 +++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index e4bdf0c..402e5a0 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -133,55 +133,77 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		se |= 0x8000
 	}
 
-	// Exponent and mantissa.
 	var m uint64
+	// Round to the nearest representable value, and determine the accuracy of
+	// the result.
+	y := round(x)
+	acc := big.Accuracy(y.Cmp(x))
+	if y.Sign() == 0 {
+		return Float{se: se, m: m}, acc
+	}
+
+	// Exponent and mantissa.
 	mant := &big.Float{}
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
 	// TODO: verify, as float80x86 also has an explicit lead bit.
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
+	// Handle overflow.
+	if y.IsInf() || exp >= 0x7FFF {
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
+	}
+
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		v, _ := mant.Uint64()
-		// TODO: calculate acc based on if v&^0x7FFFFFFFFFFFFFFF != 0 {}
 		m |= v & 0x7FFFFFFFFFFFFFFF
 		return Float{se: se, m: m}, acc
 	}
 
 	// 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
-	}
 	se |= uint16(exp & 0x7FFF)
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	// mantissa, including explicit lead bit
-	mantissa, acc2 := mant.Uint64()
-	if acc == big.Exact {
-		acc = acc2
-	}
+	mantissa, _ := mant.Uint64()
 	m |= mantissa
 	return Float{se: se, m: m}, acc
 }
 
+// round returns the finite value x rounded to the precision available at its
+// magnitude (denormalized values have fewer mantissa bits), ties to even.
+func round(x *big.Float) *big.Float {
+	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)
+	// Exponent of the smallest normalized value; 2^(1-bias).
+	const minExp = 1 - bias
+	switch exp := x.MantExp(nil) - 1; {
+	case exp >= minExp:
+		return y.Set(x)
+	case exp < minExp-precision:
+		// Less than half of the smallest denormalized value.
+		return y
+	}
+	// Adding the smallest normalized value aligns the last mantissa bit with
+	// the last bit of the denormalized values.
+	min := new(big.Float).SetMantExp(big.NewFloat(1), minExp)
+	if x.Signbit() {
+		min.Neg(min)
+	}
+	y.Add(x, min)
+	return y.Sub(y, min)
+}
+
 // Bits returns the x86 extended precision binary representation of f.
 func (f Float) Bits() (se uint16, m uint64) {
 	return f.se, f.m
-- 
2.43.0


From 6cd4a43632b48e6d4461d0be36343ef22f2c1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 04/15] fix: float128ppc: use negative infinity for NegInf

---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 9fdc9b3..bd962cc 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -24,7 +24,7 @@ var (
 	// +Inf
 	Inf = Float{high: math.Inf(1), low: 0}
 	// -Inf
-	NegInf = Float{high: -math.Inf(-1), low: 0}
+	NegInf = Float{high: math.Inf(-1), low: 0}
 	// +zero
 	Zero = Float{high: 0, low: 0}
 	// -zero
-- 
2.43.0


From 3b4c9d6e8c84e64b6582827ea347963bf85b1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 05/15] fix: float128ppc: keep sign of NaN, treat Inf - Inf as
 NaN

Big dropped the sign of NaN values, and panicked on a pair of infinities of
opposite signs.
---
 float128ppc/float128ppc.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index bd962cc..811aa03 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -156,6 +156,9 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	x.SetPrec(precision)
 	x.SetMode(big.ToNearestEven)
 	if f.IsNaN() {
+		if math.Signbit(f.high) {
+			x.Neg(x)
+		}
 		return x, true
 	}
 	h := big.NewFloat(f.high).SetPrec(precision)
@@ -175,6 +178,6 @@ func (f Float) Big() (x *big.Float, nan bool) {
 
 // IsNaN returns true if the Float is NaN
 func (f Float) IsNaN() bool {
-	// NaN + NaN should be NaN in consideration
-	return math.IsNaN(f.high) || math.IsNaN(f.low)
+	// NaN + NaN should be NaN in consideration, as should Inf - Inf.
+	return math.IsNaN(f.high + f.low)
 }
-- 
2.43.0


From 7d43b9703c12a09efef44c2cd4ed4bf7fba93f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 06/15] fix: float128ppc: compute exact sum of high and low
 parts in Big

Big rounded the sum to 106 bits, thus dropping the low part of double-double
values with a gap between the high and low part.
---
 float128ppc/float128ppc.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 811aa03..2b02247 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -13,6 +13,9 @@ const (
 	// precision specifies the number of bits in the mantissa (including the
 	// implicit lead bit).
 	precision = 106
+	// exactPrecision specifies the number of bits needed to hold the exact sum
+	// of any two double-precision values.
+	exactPrecision = 1025 + 1074
 )
 
 // Positive and negative Not-a-Number, infinity and zero.
@@ -161,9 +164,15 @@ func (f Float) Big() (x *big.Float, nan bool) {
 		}
 		return x, true
 	}
-	h := big.NewFloat(f.high).SetPrec(precision)
-	l := big.NewFloat(f.low).SetPrec(precision)
-	x.Add(h, l)
+	h := big.NewFloat(f.high)
+	l := big.NewFloat(f.low)
+	// Compute the exact sum; more than 106 bits of precision are used only when
+	// there is a gap between high and low.
+	sum := new(big.Float).SetPrec(exactPrecision).Add(h, l)
+	if prec := sum.MinPrec(); prec > precision {
+		x.SetPrec(prec)
+	}
+	x.Set(sum)
 
 	zero := big.NewFloat(0).SetPrec(precision)
 	if x.Cmp(zero) == 0 && math.Signbit(f.high) {
-- 
2.43.0


From 0c4df52da3dee783cd1d1ea00a9e90eb92c16837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 07/15] fix: float128ppc: handle overflow, accuracy and
 argument in NewFromBig

NewFromBig rounded its argument in place, panicked for values too large to be
represented, dropped the low part of values with a gap between high and low,
and always reported the accuracy of results as Exact.
---
 float128ppc/float128ppc.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 2b02247..b3368b4 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -103,24 +103,36 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
-	// set precision of x.
-	x.SetPrec(precision).SetMode(big.ToNearestEven)
-
 	// get high part of the double-double floating-point value.
-	high, _ := x.Float64()
-	h := big.NewFloat(high).SetPrec(precision).SetMode(big.ToNearestEven)
+	high, acc := x.Float64()
+	if math.IsInf(high, 0) {
+		return Float{high: high, low: 0}, acc
+	}
+	h := big.NewFloat(high)
 
-	// compute low part by subtracting high from x.
-	l := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
+	// compute low part by subtracting high from x, using enough precision for
+	// the difference to be exact.
+	l := new(big.Float).SetPrec(x.Prec() + 64).SetMode(big.ToNearestEven)
 	l.Sub(x, h)
 	low, _ := l.Float64()
 
+	// rounding low may have made it half a unit in the last place of high;
+	// ensure that high remains the double-precision value nearest to the sum.
+	if sum := high + low; sum != high {
+		if math.IsInf(sum, 0) {
+			low = 0
+		} else {
+			low = high - sum + low
+		}
+		high = sum
+	}
+
 	// check accuracy of results.
-	result := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
-	result.Add(h, l)
-	acc := big.Accuracy(x.Cmp(result))
+	f := Float{high: high, low: low}
+	result, _ := f.Big()
+	acc = big.Accuracy(result.Cmp(x))
 
-	return Float{high: high, low: low}, acc
+	return f, acc
 }
 
 // Bits returns the double-double binary representation of f.
-- 
2.43.0


From 8f4ed0e265024508987fa18fda4d91be2760f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 08/15] fix: internal/strconv: round shortest output to nearest
 decimal

---
 internal/strconv/ftoa.go | 63 +++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index c2c5ea5..d837eac 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -296,39 +296,80 @@ func roundShortest(d *decimal, mant uint64, exp int, flt *floatInfo) {
 	// would round to the original mantissa and not the neighbors.
 	inclusive := mant%2 == 0
 
+	// As we walk the digits we want to know whether rounding up would fall
+	// within the upper bound. This is tracked by upperdelta:
+	//
+	// If upperdelta == 0, the digits of d and upper are the same so far.
+	//
+	// If upperdelta == 1, we saw a difference of 1 between d and upper on a
+	// previous digit and subsequently only 9s for d and 0s for upper.
+	// (Thus rounding up may fall outside the bound, if it is exclusive.)
+	//
+	// If upperdelta == 2, then the difference is greater than 1
+	// and we know that rounding up falls within the bound.
+	var upperdelta uint8
+
 	// Now we can figure out the minimum number of digits required.
 	// Walk along until d has distinguished itself from upper and lower.
-	for i := 0; i < d.nd; i++ {
+	for ui := 0; ; ui++ {
+		// lower, d, and upper may have the decimal points at different
+		// places. In this case upper is the longest, so we iterate from
+		// ui==0 and start li and mi at (possibly) -1.
+		mi := ui - upper.dp + d.dp
+		if mi >= d.nd {
+			break
+		}
+		li := ui - upper.dp + lower.dp
 		l := byte('0') // lower digit
-		if i < lower.nd {
-			l = lower.d[i]
+		if li >= 0 && li < lower.nd {
+			l = lower.d[li]
+		}
+		m := byte('0') // middle digit
+		if mi >= 0 {
+			m = d.d[mi]
 		}
-		m := d.d[i]    // middle digit
 		u := byte('0') // upper digit
-		if i < upper.nd {
-			u = upper.d[i]
+		if ui < upper.nd {
+			u = upper.d[ui]
 		}
 
 		// Okay to round down (truncate) if lower has a different digit
 		// or if lower is inclusive and is exactly the result of rounding
 		// down (i.e., and we have reached the final digit of lower).
-		okdown := l != m || inclusive && i+1 == lower.nd
+		okdown := l != m || inclusive && li+1 == lower.nd
 
+		switch {
+		case upperdelta == 0 && m+1 < u:
+			// Example:
+			// m = 12345xxx
+			// u = 12347xxx
+			upperdelta = 2
+		case upperdelta == 0 && m != u:
+			// Example:
+			// m = 12345xxx
+			// u = 12346xxx
+			upperdelta = 1
+		case upperdelta == 1 && (m != '9' || u != '0'):
+			// Example:
+			// m = 1234598x
+			// u = 1234600x
+			upperdelta = 2
+		}
 		// Okay to round up if upper has a different digit and either upper
 		// is inclusive or upper is bigger than the result of rounding up.
-		okup := m != u && (inclusive || m+1 < u || i+1 < upper.nd)
+		okup := upperdelta > 0 && (inclusive || upperdelta > 1 || ui+1 < upper.nd)
 
 		// If it's okay to do either, then round to the nearest one.
 		// If it's okay to do only one, do it.
 		switch {
 		case okdown && okup:
-			d.Round(i + 1)
+			d.Round(mi + 1)
 			return
 		case okdown:
-			d.RoundDown(i + 1)
+			d.RoundDown(mi + 1)
 			return
 		case okup:
-			d.RoundUp(i + 1)
+			d.RoundUp(mi + 1)
 			return
 		}
 	}
-- 
2.43.0


From a782e9cfd445a037c4870270d0611b07d5ce1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 09/15] fix: internal/strconv: do not panic on unknown format
 with precision 0

---
 internal/strconv/ftoa.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index d837eac..2dcba5e 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -149,6 +149,9 @@ func genericFtoa(dst []byte, val float64, fmt byte, prec, bitSize int) []byte {
 				prec = 1
 			}
 			digits = prec
+		default:
+			// Invalid mode.
+			digits = 1
 		}
 		if digits <= 15 {
 			// try fast algorithm when the number of digits is reasonable.
-- 
2.43.0


From ff166e1841a6b14c6d13fee0dc977c4f894f307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 10/15] fix: do not panic on infinity in IsExact16, IsExact32
 and IsExact64

---
 float.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/float.go b/float.go
index b5053f6..dc94804 100644
--- a/float.go
+++ b/float.go
@@ -12,6 +12,9 @@ import (
 // IsExact16 reports whether x may be represented exactly as a 16-bit
 // floating-point value.
 func IsExact16(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float64()
 	if acc != big.Exact {
 		return false
@@ -24,6 +27,9 @@ func IsExact16(x *big.Float) bool {
 // IsExact32 reports whether x may be represented exactly as a 32-bit
 // floating-point value.
 func IsExact32(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float32()
 	if acc != big.Exact {
 		return false
@@ -36,6 +42,9 @@ func IsExact32(x *big.Float) bool {
 // IsExact64 reports whether x may be represented exactly as a 64-bit
 // floating-point value.
 func IsExact64(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float64()
 	if acc != big.Exact {
 		return false
-- 
2.43.0


From 48c9052583424ccf1b967c575bbba8fb5a2cc5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 11/15] fix: check that x is a binary16 value in IsExact16

---
 float.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/float.go b/float.go
index dc94804..9030c23 100644
--- a/float.go
+++ b/float.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"strings"
 
+	"github.com/mewmew/float/binary16"
 	"github.com/mewmew/float/internal/strconv"
 )
 
@@ -15,10 +16,11 @@ func IsExact16(x *big.Float) bool {
 	if x.IsInf() {
 		return true
 	}
-	f, acc := x.Float64()
+	f16, acc := binary16.NewFromBig(x)
 	if acc != big.Exact {
 		return false
 	}
+	f, _ := f16.Float64()
 	s1 := strconv.FormatFloat(f, 'e', -1, 16)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
-- 
2.43.0


From 735c0e766e1fd4db5fa114ac86dc7173a8ad0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 12/15] fix: binary128: extract exponent before conversion to
 int in Exp

On 32-bit platforms int(f.a&mask) drops the exponent bits, so that Exp was
always zero and with it the results of Big, Float32 and Float64 wrong.
---
 binary128/binary128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index 4cd718b..14cf409 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -310,7 +310,7 @@ func (f Float) Signbit() bool {
 // Exp returns the exponent of f.
 func (f Float) Exp() int {
 	// 15 bit exponent
-	return int(f.a&0x7FFF000000000000) >> 48
+	return int(f.a & 0x7FFF000000000000 >> 48)
 }
 
 // Frac returns the fraction of f.
-- 
2.43.0


From 03705fa6e9b772886d20652742d8aa48aade384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 13/15] fix: do not overflow int for extreme exponents in
 NewFromBig

On 32-bit platforms adding the bias to the largest exponents of a big.Float,
and subtracting one from the smallest, wrapped around.
---
 binary128/binary128.go   | 8 ++++----
 binary16/binary16.go     | 8 ++++----
 float80x86/float80x86.go | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index 14cf409..7bf328e 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -127,7 +127,7 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	exp := exponent - 1 + bias
 
 	// Handle overflow.
-	if y.IsInf() || exp >= 0x7FFF {
+	if y.IsInf() || exponent > bias+1 {
 		if x.Signbit() {
 			return NegInf, big.Below
 		}
@@ -190,10 +190,10 @@ func round(x *big.Float) *big.Float {
 	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)
 	// Exponent of the smallest normalized value; 2^(1-bias).
 	const minExp = 1 - bias
-	switch exp := x.MantExp(nil) - 1; {
-	case exp >= minExp:
+	switch exp := x.MantExp(nil); {
+	case exp > minExp:
 		return y.Set(x)
-	case exp < minExp-precision:
+	case exp <= minExp-precision:
 		// Less than half of the smallest denormalized value.
 		return y
 	}
diff --git a/binary16/binary16.go b/binary16/binary16.go
index a6d822d..579f02e 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -122,7 +122,7 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	exp := exponent - 1 + bias
 
 	// Handle overflow.
-	if y.IsInf() || exp >= 0x1F {
+	if y.IsInf() || exponent > bias+1 {
 		if x.Signbit() {
 			return NegInf, big.Below
 		}
@@ -162,10 +162,10 @@ func round(x *big.Float) *big.Float {
 	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)
 	// Exponent of the smallest normalized value; 2^(1-bias).
 	const minExp = 1 - bias
-	switch exp := x.MantExp(nil) - 1; {
-	case exp >= minExp:
+	switch exp := x.MantExp(nil); {
+	case exp > minExp:
 		return y.Set(x)
-	case exp < minExp-precision:
+	case exp <= minExp-precision:
 		// Less than half of the smallest denormalized value.
 		return y
 	}
diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index 402e5a0..b672704 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -150,7 +150,7 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	exp := exponent - 1 + bias
 
 	// Handle overflow.
-	if y.IsInf() || exp >= 0x7FFF {
+	if y.IsInf() || exponent > bias+1 {
 		if x.Signbit() {
 			return NegInf, big.Below
 		}
@@ -187,10 +187,10 @@ func round(x *big.Float) *big.Float {
 	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)
 	// Exponent of the smallest normalized value; 2^(1-bias).
 	const minExp = 1 - bias
-	switch exp := x.MantExp(nil) - 1; {
-	case exp >= minExp:
+	switch exp := x.MantExp(nil); {
+	case exp > minExp:
 		return y.Set(x)
-	case exp < minExp-precision:
+	case exp <= minExp-precision:
 		// Less than half of the smallest denormalized value.
 		return y
 	}
-- 
2.43.0


From 53e1d1a0632e307e6f10f09cc4958a8613c7d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 14/15] fix: float128ppc.NewFromBig for precisions near
 big.MaxPrec on 32-bit words

x.Prec() + 64 wraps around in 32 bits, so that the low part was computed with a
few bits of precision. The precision that x uses suffices for the difference
to be exact.
---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index b3368b4..758f4ef 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -112,7 +112,7 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 
 	// compute low part by subtracting high from x, using enough precision for
 	// the difference to be exact.
-	l := new(big.Float).SetPrec(x.Prec() + 64).SetMode(big.ToNearestEven)
+	l := new(big.Float).SetPrec(x.MinPrec() + 64).SetMode(big.ToNearestEven)
 	l.Sub(x, h)
 	low, _ := l.Float64()
 
-- 
2.43.0


From 9bc695664b57c92fd2d9f1a924da68847d46379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:33 +0000
Subject: [PATCH 15/15] fix: float128ppc.NewFromBig of numbers with the
 smallest exponent

---
 float128ppc/float128ppc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 758f4ef..c5932a7 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -103,6 +103,15 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
+	// less than half of the smallest denormalized double (the exponent arithmetic
+	// of big.Float.Float64 overflows for the smallest of these).
+	if x.MantExp(nil) < -1074 {
+		if x.Signbit() {
+			return NegZero, big.Above
+		}
+		return Zero, big.Below
+	}
+
 	// get high part of the double-double floating-point value.
 	high, acc := x.Float64()
 	if math.IsInf(high, 0) {
-- 
2.43.0

