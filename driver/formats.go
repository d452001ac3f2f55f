package main

import (
	"math"
	"math/big"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
)

// value is a Float of one of the format packages.
type value interface {
	Big() (*big.Float, bool)
}

// native is implemented by the formats that convert to Go's float types.
type native interface {
	Float32() (float32, big.Accuracy)
	Float64() (float64, big.Accuracy)
}

// format adapts one format package to a uniform shape over raw encodings
// (little-endian 16-bit limbs, sign in the last limb).
type format struct {
	name string
	n    int // limbs
	p    int // precision
	w    int // exponent bits (0: double-double)
	lead bool

	mk  func(w limbs) value
	raw func(v value) limbs
	enc func(x *big.Float) (value, big.Accuracy)
	e64 func(v float64) (value, big.Accuracy)
	e32 func(v float32) (value, big.Accuracy)
	isn func(v value) bool
	fld func(v value) (sg bool, ex int, fr limbs, ld int)
	con func() map[string]value
}

func l128(a, b uint64) limbs        { return append(limbs64(b), limbs64(a)...) }
func ab(w limbs) (a, b uint64)      { return u64(w[4:]), u64(w) }
func l80(se uint16, m uint64) limbs { return append(limbs64(m), se) }

var (
	fmt16 = &format{
		name: "binary16", n: 1, p: 11, w: 5,
		mk:  func(w limbs) value { return binary16.NewFromBits(w[0]) },
		raw: func(v value) limbs { return limbs{v.(binary16.Float).Bits()} },
		enc: func(x *big.Float) (value, big.Accuracy) { return binary16.NewFromBig(x) },
		e64: func(v float64) (value, big.Accuracy) { return binary16.NewFromFloat64(v) },
		e32: func(v float32) (value, big.Accuracy) { return binary16.NewFromFloat32(v) },
		fld: func(v value) (bool, int, limbs, int) {
			f := v.(binary16.Float)
			return f.Signbit(), f.Exp(), limbs{f.Frac()}, 0
		},
		con: func() map[string]value {
			return map[string]value{
				"NaN": binary16.NaN, "NegNaN": binary16.NegNaN, "Inf": binary16.Inf,
				"NegInf": binary16.NegInf, "Zero": binary16.Zero, "NegZero": binary16.NegZero,
			}
		},
	}
	fmtBF = &format{
		name: "bfloat16", n: 1, p: 8, w: 8,
		mk: func(w limbs) value { return bfloat.NewFromBits(w[0]) },
		raw: func(v value) limbs { // no Bits method
			f := v.(bfloat.Float)
			return limbs{uint16(sgn(f.Signbit()))<<15 | uint16(f.Exp())<<7 | f.Frac()}
		},
		fld: func(v value) (bool, int, limbs, int) {
			f := v.(bfloat.Float)
			return f.Signbit(), f.Exp(), limbs{f.Frac()}, 0
		},
	}
	fmt80 = &format{
		name: "float80x86", n: 5, p: 64, w: 15, lead: true,
		mk:  func(w limbs) value { return float80x86.NewFromBits(w[4], u64(w)) },
		raw: func(v value) limbs { return l80(v.(float80x86.Float).Bits()) },
		enc: func(x *big.Float) (value, big.Accuracy) { return float80x86.NewFromBig(x) },
		e64: func(v float64) (value, big.Accuracy) { return float80x86.NewFromFloat64(v) },
		e32: func(v float32) (value, big.Accuracy) { return float80x86.NewFromFloat32(v) },
		fld: func(v value) (bool, int, limbs, int) {
			f := v.(float80x86.Float)
			return f.Signbit(), f.Exp(), limbs64(f.Frac()), f.Lead()
		},
		con: func() map[string]value {
			return map[string]value{
				"NaN": float80x86.NaN, "NegNaN": float80x86.NegNaN, "Inf": float80x86.Inf,
				"NegInf": float80x86.NegInf, "Zero": float80x86.Zero, "NegZero": float80x86.NegZero,
			}
		},
	}
	fmt128 = &format{
		name: "binary128", n: 8, p: 113, w: 15,
		mk:  func(w limbs) value { return binary128.NewFromBits(ab(w)) },
		raw: func(v value) limbs { return l128(v.(binary128.Float).Bits()) },
		enc: func(x *big.Float) (value, big.Accuracy) { return binary128.NewFromBig(x) },
		e64: func(v float64) (value, big.Accuracy) { return binary128.NewFromFloat64(v) },
		e32: func(v float32) (value, big.Accuracy) { return binary128.NewFromFloat32(v) },
		fld: func(v value) (bool, int, limbs, int) {
			f := v.(binary128.Float)
			a, b := f.Frac()
			return f.Signbit(), f.Exp(), l128(a, b), 0
		},
		con: func() map[string]value {
			return map[string]value{
				"NaN": binary128.NaN, "NegNaN": binary128.NegNaN, "Inf": binary128.Inf,
				"NegInf": binary128.NegInf, "Zero": binary128.Zero, "NegZero": binary128.NegZero,
			}
		},
	}
	fmtDD = &format{
		name: "float128ppc", n: 8, p: 106,
		mk:  func(w limbs) value { return float128ppc.NewFromBits(ab(w)) },
		raw: func(v value) limbs { return l128(v.(float128ppc.Float).Bits()) },
		enc: func(x *big.Float) (value, big.Accuracy) { return float128ppc.NewFromBig(x) },
		e64: func(v float64) (value, big.Accuracy) { return float128ppc.NewFromFloat64(v) },
		e32: func(v float32) (value, big.Accuracy) { return float128ppc.NewFromFloat32(v) },
		isn: func(v value) bool { return v.(float128ppc.Float).IsNaN() },
		con: func() map[string]value {
			return map[string]value{
				"NaN": float128ppc.NaN, "NegNaN": float128ppc.NegNaN, "Inf": float128ppc.Inf,
				"NegInf": float128ppc.NegInf, "Zero": float128ppc.Zero, "NegZero": float128ppc.NegZero,
			}
		},
	}

	// all formats of the library; those that can be encoded to; native formats
	formats    = []*format{fmt16, fmtBF, fmt80, fmt128, fmtDD}
	encFormats = []*format{fmt16, fmt80, fmt128, fmtDD}
	// for generators and screening only
	fmtF32 = &format{name: "float32", n: 2, p: 24, w: 8}
	fmtF64 = &format{name: "float64", n: 4, p: 53, w: 11}
)

func fmtByName(name string) *format {
	for _, f := range append([]*format{fmtF32, fmtF64}, formats...) {
		if f.name == name {
			return f
		}
	}
	return nil
}

func nativeFmt(size int) *format {
	switch size {
	case 16:
		return fmt16
	case 32:
		return fmtF32
	}
	return fmtF64
}

func f64raw(v float64) limbs { return limbs64(math.Float64bits(v)) }
func f32raw(v float32) limbs { return limbs32(math.Float32bits(v)) }
