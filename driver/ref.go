package main

import (
	"math/big"
)

// This file is the screening oracle: exact integer arithmetic over the same
// abstract numbers as the specification. It never decides anything; it selects
// which calls of a large sweep are worth handing to TLC, and lets generators
// aim at rounding boundaries.

// rn is (-1)^s * m * 2^e ("fin", m > 0), or "zero", "inf", "nan".
type rn struct {
	k string
	s int
	m *big.Int
	e int
}

func (f *format) bias() int   { return 1<<uint(f.w-1) - 1 }
func (f *format) maxExp() int { return 1<<uint(f.w) - 1 }
func (f *format) qmin() int   { return 1 - f.bias() - (f.p - 1) }

// fields splits a raw encoding of a single-layout format.
func (f *format) fields(w limbs) (s, eb int, fr *big.Int) {
	top := w[len(w)-1]
	s = int(top >> 15)
	eb = int(top&0x7FFF) >> uint(15-f.w)
	if f.lead {
		return s, eb, intOfLimbs(w[:len(w)-1])
	}
	l := append(limbs{}, w...)
	l[len(l)-1] = top & (1<<uint(15-f.w) - 1)
	return s, eb, intOfLimbs(l)
}

// pack builds a raw encoding; sig includes the leading bit when eb > 0.
func (f *format) pack(s, eb int, sig *big.Int) limbs {
	z := new(big.Int).Set(sig)
	if !f.lead && eb > 0 {
		z.SetBit(z, f.p-1, 0)
	}
	w := make(limbs, f.n)
	copy(w, limbsOfInt(z))
	w[f.n-1] |= uint16(s)<<15 | uint16(eb)<<uint(15-f.w)
	return w
}

func refDecode(f *format, w limbs) rn {
	if f.w == 0 {
		return refDecodeDD(w)
	}
	s, eb, fr := f.fields(w)
	if eb == f.maxExp() {
		inf := fr.Sign() == 0
		if f.lead {
			inf = fr.BitLen() == 64 && fr.TrailingZeroBits() == 63
		}
		if inf {
			return rn{k: "inf", s: s}
		}
		return rn{k: "nan", s: s}
	}
	q := f.qmin()
	if eb > 0 {
		q += eb - 1
		if !f.lead {
			fr.SetBit(fr, f.p-1, 1)
		}
	}
	return mkrn(s, fr, q)
}

func mkrn(s int, m *big.Int, e int) rn {
	if m.Sign() == 0 {
		return rn{k: "zero", s: s}
	}
	return rn{k: "fin", s: s, m: m, e: e}
}

func refDecodeDD(w limbs) rn {
	h, l := refDecode(fmtF64, w[4:]), refDecode(fmtF64, w[:4])
	switch {
	case h.k == "nan" || l.k == "nan":
		return rn{k: "nan", s: h.s}
	case h.k == "inf":
		if l.k == "inf" && l.s != h.s {
			return rn{k: "nan", s: h.s}
		}
		return h
	case l.k == "inf":
		return l
	}
	v := refAdd(h, l)
	if v.k == "zero" {
		v.s = h.s
	}
	return v
}

func refAdd(x, y rn) rn {
	if x.k == "zero" {
		return y
	}
	if y.k == "zero" {
		return x
	}
	e := x.e
	if y.e < e {
		e = y.e
	}
	a := new(big.Int).Lsh(x.m, uint(x.e-e))
	b := new(big.Int).Lsh(y.m, uint(y.e-e))
	if x.s == 1 {
		a.Neg(a)
	}
	if y.s == 1 {
		b.Neg(b)
	}
	a.Add(a, b)
	s := 0
	if a.Sign() < 0 {
		s = 1
		a.Neg(a)
	}
	return mkrn(s, a, e)
}

func rneg(x rn) rn { x.s = 1 - x.s; return x }

// refCmp compares two non-NaN numbers.
func refCmp(x, y rn) int {
	rank := func(v rn) int {
		r := 0
		switch v.k {
		case "zero":
			return 0
		case "fin":
			r = 1
		case "inf":
			r = 2
		}
		if v.s == 1 {
			return -r
		}
		return r
	}
	a, b := rank(x), rank(y)
	if a != b {
		if a < b {
			return -1
		}
		return 1
	}
	if x.k != "fin" {
		return 0
	}
	c := 0
	tx, ty := x.m.BitLen()+x.e, y.m.BitLen()+y.e
	switch {
	case tx < ty:
		c = -1
	case tx > ty:
		c = 1
	case x.e >= y.e:
		c = new(big.Int).Lsh(x.m, uint(x.e-y.e)).Cmp(y.m)
	default:
		c = x.m.Cmp(new(big.Int).Lsh(y.m, uint(y.e-x.e)))
	}
	if x.s == 1 {
		return -c
	}
	return c
}

var bigOne = big.NewInt(1)

// rshr rounds m / 2^k to an integer, ties to even.
func rshr(m *big.Int, k int) *big.Int {
	if k <= 0 {
		return new(big.Int).Lsh(m, uint(-k))
	}
	if k > m.BitLen()+1 {
		return new(big.Int)
	}
	q := new(big.Int).Rsh(m, uint(k))
	if m.Bit(k-1) == 1 && (int(m.TrailingZeroBits()) < k-1 || q.Bit(0) == 1) {
		q.Add(q, bigOne)
	}
	return q
}

// refParts rounds a finite non-zero x to f.
func refParts(f *format, x rn) (inf bool, eb int, sig *big.Int) {
	top := x.m.BitLen() + x.e - 1
	if top > f.bias() {
		return true, 0, nil
	}
	if top < f.qmin()-1 {
		return false, 0, new(big.Int)
	}
	q := top - (f.p - 1)
	if q < f.qmin() {
		q = f.qmin()
	}
	sig = rshr(x.m, q-x.e)
	if sig.BitLen() > f.p {
		sig.Rsh(sig, 1)
		q++
	}
	if sig.BitLen() == f.p {
		eb = q - f.qmin() + 1
	}
	return eb >= f.maxExp(), eb, sig
}

func (f *format) infRaw(s int) limbs {
	w := make(limbs, f.n)
	if f.lead {
		w[f.n-2] = 0x8000
	}
	w[f.n-1] = uint16(s)<<15 | uint16(f.maxExp())<<uint(15-f.w)
	return w
}

func refRound(f *format, x rn) rn {
	if f.w == 0 {
		return refDecode(f, refEncode(f, x))
	}
	if x.k != "fin" {
		return x
	}
	inf, eb, sig := refParts(f, x)
	if inf {
		return rn{k: "inf", s: x.s}
	}
	q := f.qmin()
	if eb > 0 {
		q += eb - 1
	}
	return mkrn(x.s, sig, q)
}

func refEncode(f *format, x rn) limbs {
	if f.w == 0 {
		return refEncodeDD(x)
	}
	switch x.k {
	case "zero":
		return f.pack(x.s, 0, new(big.Int))
	case "inf":
		return f.infRaw(x.s)
	}
	inf, eb, sig := refParts(f, x)
	if inf {
		return f.infRaw(x.s)
	}
	return f.pack(x.s, eb, sig)
}

func ddJoin(h, l rn) limbs { return append(refEncode(fmtF64, l), refEncode(fmtF64, h)...) }

func refEncodeDD(x rn) limbs {
	zero := rn{k: "zero"}
	if x.k != "fin" {
		return ddJoin(x, zero)
	}
	h := refRound(fmtF64, x)
	if h.k == "inf" {
		return ddJoin(h, zero)
	}
	l := refRound(fmtF64, refAdd(x, rneg(h)))
	if l.k == "zero" {
		l.s = 0
		if h.k == "zero" {
			h.s = x.s
		}
		return ddJoin(h, l)
	}
	v := refAdd(h, l)
	g := refRound(fmtF64, v)
	if refCmp(g, h) == 0 {
		return ddJoin(h, l)
	}
	if g.k == "inf" {
		return ddJoin(g, zero)
	}
	return ddJoin(g, refAdd(v, rneg(g)))
}

func rnOf(x *big.Float) rn {
	n := project(x)
	r := rn{k: n.k, s: n.s, e: n.e}
	if n.k == "fin" {
		r.m = intOfLimbs(n.m)
	}
	return r
}

// num returns the specification's unique representation of r.
func (r rn) num() num {
	n := num{k: r.k, s: r.s}
	if r.k == "fin" {
		t := r.m.TrailingZeroBits()
		n.m = limbsOfInt(new(big.Int).Rsh(r.m, t))
		n.e = r.e + int(t)
	}
	return n
}

func (n num) equal(o num) bool {
	if n.k != o.k || n.s != o.s || n.e != o.e || len(n.m) != len(o.m) {
		return false
	}
	for i := range n.m {
		if n.m[i] != o.m[i] {
			return false
		}
	}
	return true
}

func (w limbs) equal(o limbs) bool {
	if len(w) != len(o) {
		return false
	}
	for i := range w {
		if w[i] != o[i] {
			return false
		}
	}
	return true
}

// ddSame compares double-double encodings up to the sign of an underflowed
// zero low half (unspecified).
func sameRaw(f *format, w, o limbs) bool {
	if f.w == 0 && len(w) == 8 && len(o) == 8 {
		a, b := append(limbs{}, w...), append(limbs{}, o...)
		if u64(a)<<1 == 0 && u64(b)<<1 == 0 {
			a[3], b[3] = 0, 0
		}
		return a.equal(b)
	}
	return w.equal(o)
}

func refCanonical(f *format, w limbs) bool {
	if f.w == 0 {
		v := refDecode(f, w)
		return v.k != "nan" && v.k != "zero" && w.equal(refEncode(f, v)) ||
			v.k == "zero" && u64(w) == 0
	}
	if !f.lead {
		return true
	}
	eb := int(w[4] & 0x7FFF)
	return (eb == 0) == (w[3]>>15 == 0)
}
