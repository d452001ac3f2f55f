// Package main is the conformance driver: it calls the library's exported
// API on generated inputs and logs every call for the TLA+ trace specs.
// It is compiled into the module under test with 'go build -overlay'.
package main

import (
	"math"
	"math/big"
	"strconv"
)

// limbs is a little-endian sequence of base-2^16 digits.
type limbs []uint16

// num is the projection of a big.Float used by the specification (Numbers.tla):
// kind, sign, odd mantissa and exponent.
type num struct {
	k string
	s int
	m limbs
	e int
}

func limbsOfInt(z *big.Int) limbs {
	b := z.Bytes() // big-endian
	n := (len(b) + 1) / 2
	out := make(limbs, n)
	for i := 0; i < n; i++ {
		lo := len(b) - 1 - 2*i
		v := uint16(b[lo])
		if lo > 0 {
			v |= uint16(b[lo-1]) << 8
		}
		out[i] = v
	}
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

func intOfLimbs(l limbs) *big.Int {
	z := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		z.Lsh(z, 16)
		z.Or(z, big.NewInt(int64(l[i])))
	}
	return z
}

func limbs64(v uint64) limbs {
	return limbs{uint16(v), uint16(v >> 16), uint16(v >> 32), uint16(v >> 48)}
}

func u64(l limbs) uint64 {
	return uint64(l[0]) | uint64(l[1])<<16 | uint64(l[2])<<32 | uint64(l[3])<<48
}

func limbs32(v uint32) limbs { return limbs{uint16(v), uint16(v >> 16)} }

func sgn(b bool) int {
	if b {
		return 1
	}
	return 0
}

// project is the abstraction function from big.Float to the specification's
// numbers.
func project(x *big.Float) num {
	s := sgn(x.Signbit())
	switch {
	case x.IsInf():
		return num{k: "inf", s: s}
	case x.Sign() == 0:
		return num{k: "zero", s: s}
	}
	mant := new(big.Float)
	exp := x.MantExp(mant)
	p := int(x.MinPrec())
	mant.SetMantExp(mant, p)
	z, _ := mant.Int(nil)
	z.Abs(z)
	e := int64(exp) - int64(p)
	if int64(int(e)) != e { // on 32-bit words; far beyond every format anyway
		e = math.MinInt32
	}
	return num{k: "fin", s: s, m: limbsOfInt(z), e: int(e)}
}

// withExp returns x with another exponent, as MantExp counts it.
func withExp(x *big.Float, e int) *big.Float {
	mant := new(big.Float)
	x.MantExp(mant)
	return x.SetMantExp(mant, e)
}

// far clamps an exponent beyond what TLC's integers hold. The specification
// does not tell numbers of that size apart: they are beyond every format.
func (n *num) far() bool {
	const max = 1 << 30
	switch {
	case n.e > max:
		n.e = max
	case n.e < -max:
		n.e = -max
	default:
		return false
	}
	return true
}

// mkFloat returns a big.Float with the given value, precision, mode and (if
// possible) recorded accuracy.
func mkFloat(n num, prec uint, mode big.RoundingMode, acc big.Accuracy) *big.Float {
	if n.k != "fin" { // these may have no precision
		x := new(big.Float).SetPrec(prec).SetMode(mode)
		if n.k == "inf" {
			return x.SetInf(n.s == 1)
		}
		if n.s == 1 {
			x.Neg(x)
		}
		return x
	}
	z := intOfLimbs(n.m)
	y := new(big.Float).SetPrec(uint(z.BitLen())).SetInt(z)
	y.SetMantExp(y, n.e)
	if n.s == 1 {
		y.Neg(y)
	}
	if prec < uint(z.BitLen()) {
		prec = uint(z.BitLen())
	}
	if acc != 0 {
		d := new(big.Float).SetMantExp(big.NewFloat(1), y.MantExp(nil)-int(prec)-4)
		if acc == big.Above {
			d.Neg(d)
		}
		t := new(big.Float).SetPrec(prec+64).Add(y, d)
		x := new(big.Float).SetPrec(prec).SetMode(mode)
		if x.Set(t); x.Cmp(y) == 0 && x.Acc() == acc {
			return x
		}
	}
	return new(big.Float).SetPrec(prec).SetMode(mode).Set(y)
}

// jb builds one JSON object.
type jb struct{ b []byte }

func obj() *jb { return &jb{b: append(make([]byte, 0, 256), '{')} }

func (j *jb) key(k string) *jb {
	if len(j.b) > 1 {
		j.b = append(j.b, ',')
	}
	j.b = append(j.b, '"')
	j.b = append(j.b, k...)
	j.b = append(j.b, '"', ':')
	return j
}

func (j *jb) str(k, v string) *jb {
	j.key(k)
	j.b = strconv.AppendQuote(j.b, v)
	return j
}

func (j *jb) int(k string, v int) *jb {
	j.key(k)
	j.b = strconv.AppendInt(j.b, int64(v), 10)
	return j
}

func (j *jb) bool(k string, v bool) *jb {
	j.key(k)
	j.b = strconv.AppendBool(j.b, v)
	return j
}

func appendLimbs(b []byte, l limbs) []byte {
	b = append(b, '[')
	for i, v := range l {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(v), 10)
	}
	return append(b, ']')
}

func (j *jb) raw(k string, l limbs) *jb {
	j.key(k)
	j.b = appendLimbs(j.b, l)
	return j
}

func appendNum(b []byte, n num) []byte {
	b = append(b, `{"k":"`...)
	b = append(b, n.k...)
	b = append(b, `","s":`...)
	b = strconv.AppendInt(b, int64(n.s), 10)
	b = append(b, `,"m":`...)
	b = appendLimbs(b, n.m)
	b = append(b, `,"e":`...)
	b = strconv.AppendInt(b, int64(n.e), 10)
	return append(b, '}')
}

func (j *jb) num(k string, n num) *jb {
	j.key(k)
	j.b = appendNum(j.b, n)
	return j
}

func (j *jb) text(k string, t string) *jb {
	j.key(k)
	return j.bytes(t)
}

func (j *jb) bytes(t string) *jb {
	j.b = append(j.b, '[')
	for i := 0; i < len(t); i++ {
		if i > 0 {
			j.b = append(j.b, ',')
		}
		j.b = strconv.AppendInt(j.b, int64(t[i]), 10)
	}
	j.b = append(j.b, ']')
	return j
}

func (j *jb) json(k string, raw []byte) *jb {
	j.key(k)
	j.b = append(j.b, raw...)
	return j
}

func (j *jb) done() []byte { return append(j.b, '}') }
