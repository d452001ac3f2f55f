package main

import (
	"math"
	"math/big"
)

// A mode lists what a property's check calls. next returns the i-th call of a
// worker; each returns calls that are made on every run, in any case.
type mode struct {
	next func(g *gen, i int) *call
	all  func(g *gen) []*call // enumerated, always validated by TLC
	keep func(c *call) bool   // sample filter (nil: everything)
	// enumerated, screened
	grids []grid
	// only whether calls return is screened
	returns bool
}

func pick(g *gen, fs []*format) *format { return fs[g.Intn(len(fs))] }

func decCall(g *gen, f *format) *call { return &call{op: "dec", f: f, w: g.raw(f)} }
func encCall(g *gen, f *format) *call { return &call{op: "enc", f: f, x: g.number(f)} }
func e64Call(g *gen, f *format) *call { return &call{op: "e64", f: f, i: g.nat64(f)} }
func e32Call(g *gen, f *format) *call { return &call{op: "e32", f: f, i: g.nat32(f)} }
func n64Call(g *gen, f *format) *call { return &call{op: "n64", f: f, w: g.rawFor(f, fmtF64)} }
func n32Call(g *gen, f *format) *call { return &call{op: "n32", f: f, w: g.rawFor(f, fmtF32)} }
func isxCall(g *gen) *call {
	n := []int{16, 32, 64}[g.Intn(3)]
	return &call{op: "isx", n: n, x: g.exactInput(n)}
}

var fms = []byte{'e', 'E', 'f', 'g', 'G', 'b'}

func shortCall(g *gen) *call {
	n := []int{16, 32, 64}[g.Intn(3)]
	return &call{op: "ff", n: n, i: g.textInput(n), fm: fms[g.Intn(5)], prec: -1}
}

func fixedCall(g *gen) *call {
	n := []int{16, 32, 64}[g.Intn(3)]
	c := &call{op: "ff", n: n, i: g.textInput(n), fm: fms[g.Intn(6)]}
	switch g.Intn(4) {
	case 0:
		c.prec = g.Intn(4)
	case 1:
		c.prec = g.Intn(25)
	case 2:
		c.prec = 12 + g.Intn(8)
	default:
		c.prec = g.Intn(60)
	}
	if g.Intn(100) == 0 {
		c.prec = g.Intn(900)
	}
	// halfway decimals: the value has exactly one digit more than asked for
	if g.Intn(4) == 0 {
		m := g.Int63n(1 << uint(4+g.Intn(40)))
		k := 1 + g.Intn(10)
		v := math.Ldexp(float64(2*m+1), -k)
		c.n, c.i = 64, math.Float64bits(v)
		c.prec = k - 1
		if c.fm != 'f' {
			d := len(refText(64, v, 'e', -1))
			c.prec = g.Intn(d + 1)
		}
	}
	return c
}

func intCall(g *gen, append bool) *call {
	c := &call{op: "fi", b: 10}
	var m uint64
	switch g.Intn(6) {
	case 0:
		m = uint64(g.Intn(200))
	case 1:
		m = g.pattern(64).Uint64()
	case 2:
		m = uint64(math.Pow10(g.Intn(19)))
		m += uint64(g.Intn(3)) - 1
	case 3:
		m = g.lit()
	case 4:
		m = g.Uint64() >> uint(g.Intn(64))
	case 5: // around powers of the base
		b := uint64(2 + g.Intn(35))
		c.b = int(b)
		m = 1
		for k := g.Intn(64); k > 0 && m <= math.MaxUint64/b; k-- {
			m *= b
		}
		m += uint64(g.Intn(3)) - 1
	}
	if g.Intn(2) == 0 {
		c.b = 2 + g.Intn(35)
	}
	signed := g.Intn(3) != 0
	if signed {
		c.v = "FormatInt"
		if g.Intn(2) == 0 {
			c.neg = true
			if m > 1<<63 {
				m = 1 << 63
			}
			if m == 0 {
				c.neg = false
			}
		} else {
			m &= math.MaxInt64
		}
		if c.b == 10 && g.Intn(2) == 0 {
			c.v = "Itoa"
		}
	} else {
		c.v = "FormatUint"
	}
	c.mag = m
	if append {
		c.op = "appi"
		if signed {
			c.v = "AppendInt"
		} else {
			c.v = "AppendUint"
		}
		c.pre, c.spare = g.prefix()
	}
	return c
}

func (g *gen) prefix() ([]byte, int) {
	if g.Intn(8) == 0 { // nil
		return nil, -1
	}
	n := g.Intn(12)
	if g.Intn(6) == 0 {
		n = g.Intn(80)
	}
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(g.Intn(256))
	}
	return p, []int{0, 1, 5, 30, 100}[g.Intn(5)]
}

func appfCall(g *gen) *call {
	c := shortCall(g)
	if g.Intn(2) == 0 {
		c = fixedCall(g)
	}
	c.op = "appf"
	c.pre, c.spare = g.prefix()
	return c
}

// refusedCall asks for a letter, precision, size or base that does not exist.
func refusedCall(g *gen) *call {
	odd := func(max int) int {
		switch g.Intn(4) {
		case 0:
			return g.Intn(2*max) - max
		case 1:
			return int(int32(g.Uint32()))
		case 2:
			return int(int32(g.Intn(max) + 1<<uint(8*(1+g.Intn(3)))))
		}
		return g.Intn(max + 2)
	}
	switch g.Intn(6) {
	case 0:
		c := intCall(g, g.Intn(2) == 0)
		c.b = odd(64)
		if c.v == "Itoa" {
			c.v = "FormatInt"
		}
		return c
	case 1:
		c := appfCall(g)
		c.n = odd(80)
		return c
	case 2:
		c := fixedCall(g)
		c.n = odd(80)
		return c
	case 3:
		c := shortCall(g)
		c.prec = -1 - g.Intn(40)
		if g.Intn(4) == 0 {
			c.prec = -int(g.Int31())
		}
		return c
	case 4:
		c := appfCall(g)
		c.fm = byte(g.Intn(256))
		return c
	}
	c := fixedCall(g)
	c.fm = byte(g.Intn(256))
	return c
}

// all16 enumerates an operation over every 16-bit encoding.
func all16(op string, fs ...*format) []*call {
	var out []*call
	for _, f := range fs {
		for b := 0; b < 1<<16; b++ {
			out = append(out, &call{op: op, f: f, w: limbs{uint16(b)}})
		}
	}
	return out
}

// specials are raw encodings of the values every format treats separately.
func specials(f *format) []limbs {
	var out []limbs
	if f.w == 0 {
		hs := specials(fmtF64)
		for _, h := range hs {
			for _, l := range hs {
				out = append(out, append(append(limbs{}, l...), h...))
			}
		}
		return out
	}
	fr := []*big.Int{new(big.Int), big.NewInt(1), big.NewInt(2)}
	for _, k := range []int{f.p - 2, f.p - 3, f.p / 2} {
		fr = append(fr, new(big.Int).SetBit(new(big.Int), k, 1))
	}
	ones := new(big.Int).Lsh(bigOne, uint(f.p-1))
	fr = append(fr, ones.Sub(ones, bigOne))
	for _, eb := range []int{0, 1, f.bias(), f.maxExp() - 1, f.maxExp()} {
		for _, z := range fr {
			leads := []uint{0}
			if f.lead {
				leads = []uint{0, 1}
			}
			for _, ld := range leads {
				for s := 0; s < 2; s++ {
					w := make(limbs, f.n)
					y := new(big.Int).Set(z)
					if f.lead {
						y.SetBit(y, 63, ld)
					}
					copy(w, limbsOfInt(y))
					w[f.n-1] |= uint16(s)<<15 | uint16(eb)<<uint(15-f.w)
					out = append(out, w)
				}
			}
		}
	}
	return out
}

var conNames = []string{"NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero"}

func specialCalls(g *gen) []*call {
	var out []*call
	for _, f := range encFormats {
		for _, c := range conNames {
			out = append(out, &call{op: "con", f: f, v: c})
		}
		for s := 0; s < 2; s++ {
			for _, r := range []rn{{k: "zero", s: s}, {k: "inf", s: s}} {
				for prec := uint(1); prec < 300; prec = prec*2 + 1 {
					for m := 0; m < 6; m++ {
						x := mkFloat(r.num(), prec, big.RoundingMode(m), 0)
						out = append(out, &call{op: "enc", f: f, x: x})
					}
				}
			}
		}
		for _, w := range specials(fmtF64) {
			out = append(out, &call{op: "e64", f: f, i: u64(w)})
		}
		for _, w := range specials(fmtF32) {
			out = append(out, &call{op: "e32", f: f, i: u64any(w)})
		}
	}
	for _, f := range formats {
		for _, w := range specials(f) {
			out = append(out, &call{op: "dec", f: f, w: w})
			if f.enc != nil {
				out = append(out, &call{op: "n64", f: f, w: w}, &call{op: "n32", f: f, w: w})
			}
			if f.isn != nil {
				out = append(out, &call{op: "isn", f: f, w: w})
			}
		}
	}
	return out
}

// specialRaw returns NaN, infinity or zero encodings (any payload).
func specialRaw(g *gen, f *format) limbs {
	if f.w == 0 {
		h, l := g.raw(fmtF64), g.raw(fmtF64)
		switch g.Intn(4) {
		case 0:
			h = specialRaw(g, fmtF64)
		case 1:
			l = specialRaw(g, fmtF64)
		default:
			h, l = specialRaw(g, fmtF64), specialRaw(g, fmtF64)
		}
		return append(append(limbs{}, l...), h...)
	}
	w := g.rawFresh(f)
	m := uint16(f.maxExp()) << uint(15-f.w)
	switch g.Intn(4) {
	case 0: // zero
		for i := range w {
			w[i] = 0
		}
		w[f.n-1] = uint16(g.Intn(2)) << 15
	case 1: // a single bit away from zero or infinity
		w = f.infRaw(g.Intn(2))
		if g.Intn(2) == 0 {
			w[f.n-1] &^= m
		}
		k := g.Intn(16*(f.n-1) + 1)
		w[k/16] ^= 1 << uint(k%16)
	default:
		w[f.n-1] |= m
	}
	return w
}

func specialCall(g *gen) *call {
	f := pick(g, formats)
	if g.Intn(3) == 0 {
		f = fmtDD
	}
	w := specialRaw(g, f)
	switch g.Intn(6) {
	case 0, 1:
		return &call{op: "dec", f: f, w: w}
	case 2:
		if f.isn != nil {
			return &call{op: "isn", f: f, w: w}
		}
		fallthrough
	case 3:
		if f.enc != nil {
			return &call{op: "n64", f: f, w: w}
		}
		return &call{op: "dec", f: f, w: w}
	case 4:
		if f.enc != nil {
			return &call{op: "n32", f: f, w: w}
		}
		return &call{op: "dec", f: f, w: w}
	}
	e := pick(g, encFormats)
	if g.Intn(2) == 0 {
		return &call{op: "e64", f: e, i: u64(specialRaw(g, fmtF64))}
	}
	return &call{op: "e32", f: e, i: u64any(specialRaw(g, fmtF32))}
}

// hops returns a chain of encodable formats.
func hops(g *gen) []*format {
	n := 1 + g.Intn(4)
	out := make([]*format, n)
	for i := range out {
		out[i] = pick(g, encFormats)
	}
	return out
}

func migCall(g *gen) *call {
	for {
		f := pick(g, formats)
		w := g.raw(f)
		if g.Intn(2) == 0 && f.enc != nil {
			w = g.rawFor(f, pick(g, []*format{fmt16, fmtF64, fmt80, fmt128}))
		}
		if refDecode(f, w).k == "nan" {
			continue
		}
		return &call{op: "mig", f: f, w: w, hops: hops(g)}
	}
}

// ordered returns a pair of numbers that are close together.
func ordCall(g *gen, f *format) *call {
	a := g.anyNum(f)
	b := g.anyNum(f)
	if g.Intn(3) != 0 && a.k == "fin" {
		d := mkrn(g.Intn(2), bigOne, a.e+a.m.BitLen()-1-g.Intn(f.p+8))
		if d.e > -20000 && d.e < 20000 && a.e > -30000 && a.e < 30000 {
			b = refAdd(a, d)
		}
	}
	return &call{op: "ord", f: f, x: g.float(a), y: g.float(b)}
}

// canonical returns the canonical encoding of what w denotes.
func canonical(f *format, w limbs) limbs {
	v := refDecode(f, w)
	if v.k == "nan" {
		return w
	}
	return refEncode(f, v)
}

func dordCall(g *gen, f *format) *call {
	c := &call{op: "dord", f: f, w: g.raw(f), w2: g.raw(f)}
	if g.Intn(2) == 0 { // neighbours
		c.w2 = append(limbs{}, c.w...)
		k := g.Intn(f.n)
		c.w2[k] += uint16(g.Intn(3)) - 1
	}
	if f == fmt80 || f == fmtDD {
		c.w, c.w2 = canonical(f, c.w), canonical(f, c.w2)
	}
	return c
}

// nativeOrdCall: two native floats converted, or two encodings to native floats.
func nativeOrdCall(g *gen, f *format) *call {
	ops := [2]string{"eo64", "no64"}
	nat, nf := g.nat64, fmtF64
	if g.Intn(2) == 0 {
		ops = [2]string{"eo32", "no32"}
		nat, nf = g.nat32, fmtF32
	}
	if g.Intn(2) == 0 {
		c := &call{op: ops[0], f: f, i: nat(f), i2: nat(f)}
		if g.Intn(2) == 0 { // close together
			c.i2 = c.i + uint64(g.Intn(5)) - 2
			if nf == fmtF32 {
				c.i2 = uint64(uint32(c.i2))
			}
		}
		return c
	}
	c := dordCall(g, f)
	if g.Intn(2) == 0 && f != fmt16 { // next to a number of the native format, or a tie
		c.w = g.rawFor(f, nf)
		c.w2 = append(limbs{}, c.w...)
		c.w2[g.Intn(len(c.w2))] ^= 1 << uint(g.Intn(16))
	}
	c.op = ops[1]
	return c
}

func rtCall(g *gen) *call {
	f := pick(g, encFormats)
	if k := g.Intn(4); f != fmt16 && k == 0 {
		return &call{op: "nrt64", f: f, i: g.nat64(f)}
	} else if f != fmt16 && k == 1 {
		return &call{op: "nrt32", f: f, i: g.nat32(f)}
	}
	w := g.raw(f)
	if g.Intn(2) == 0 && f.w == 0 {
		v := refDecode(f, w)
		if v.k != "nan" {
			w = refEncode(f, v)
		}
	}
	return &call{op: "rt", f: f, w: w}
}

func accCall(g *gen) *call {
	f := pick(g, encFormats)
	switch g.Intn(8) {
	case 0:
		return e64Call(g, f)
	case 1:
		return e32Call(g, f)
	case 2, 3:
		return n64Call(g, f)
	case 4:
		return n32Call(g, f)
	}
	return encCall(g, f)
}

func rawAccessCall(g *gen) *call {
	f := pick(g, formats)
	op := "fld"
	if f.w == 0 || f.enc != nil && g.Intn(2) == 0 {
		op = "bits"
	}
	return &call{op: op, f: f, w: g.raw(f)}
}

// anyCall is any operation with any arguments it is specified for.
func anyCall(g *gen) *call {
	switch g.Intn(17) {
	case 0, 1:
		return decCall(g, pick(g, formats))
	case 2, 3:
		return encCall(g, pick(g, encFormats))
	case 4:
		return e64Call(g, pick(g, encFormats))
	case 5:
		return e32Call(g, pick(g, encFormats))
	case 6:
		return n64Call(g, pick(g, encFormats))
	case 7:
		return n32Call(g, pick(g, encFormats))
	case 8:
		return specialCall(g)
	case 9:
		return isxCall(g)
	case 10:
		return shortCall(g)
	case 11:
		c := fixedCall(g)
		if g.Intn(8) == 0 { // letters outside the specified ones must not crash
			c.fm = byte(g.Intn(256))
		}
		return c
	case 12:
		return intCall(g, false)
	case 13:
		return intCall(g, true)
	case 14:
		return appfCall(g)
	case 15:
		return rawAccessCall(g)
	}
	f := fmtDD
	return &call{op: "isn", f: f, w: g.raw(f)}
}

func one(mk func(g *gen) *call) mode {
	return mode{next: func(g *gen, _ int) *call { return mk(g) }}
}

func modes() map[string]mode {
	encOf := func(f *format) mode {
		return one(func(g *gen) *call { return encCall(g, f) })
	}
	m := map[string]mode{
		"C01": {
			next: func(g *gen, _ int) *call { return decCall(g, []*format{fmt16, fmtBF}[g.Intn(2)]) },
			all:  func(g *gen) []*call { return all16("dec", fmt16, fmtBF) },
			keep: func(*call) bool { return false },
		},
		"C02": one(func(g *gen) *call { return decCall(g, fmt128) }),
		"C03": one(func(g *gen) *call { return decCall(g, fmt80) }),
		"C04": one(func(g *gen) *call { return decCall(g, fmtDD) }),
		"C05": encOf(fmt16),
		"C06": encOf(fmt128),
		"C07": encOf(fmt80),
		"C08": encOf(fmtDD),
		"C09": one(accCall),
		"C10": one(func(g *gen) *call {
			f := pick(g, encFormats)
			if g.Intn(2) == 0 {
				return e64Call(g, f)
			}
			return e32Call(g, f)
		}),
		"C11": {
			next: func(g *gen, _ int) *call {
				f := pick(g, []*format{fmt16, fmt80, fmt80, fmt128, fmt128, fmtDD, fmtDD})
				if g.Intn(2) == 0 {
					return n64Call(g, f)
				}
				return n32Call(g, f)
			},
		},
		"C12": {
			next: func(g *gen, _ int) *call { return rtCall(g) },
			all:  func(g *gen) []*call { return all16("rt", fmt16) },
		},
		"C13": {
			next: func(g *gen, _ int) *call { return specialCall(g) },
			all:  specialCalls,
		},
		"C14": {
			next: func(g *gen, _ int) *call { return rawAccessCall(g) },
			all: func(g *gen) []*call {
				return append(all16("fld", fmt16, fmtBF), all16("bits", fmt16)...)
			},
		},
		"C16": {next: func(g *gen, _ int) *call { return anyCall(g) }, returns: true},
		"C15": {next: massCall},
		"C24": one(refusedCall),
		"C17": one(isxCall),
		"C18": one(shortCall),
		"C19": one(fixedCall),
		"C20": one(func(g *gen) *call {
			switch g.Intn(5) {
			case 0:
				return appfCall(g)
			case 1, 2:
				return intCall(g, true)
			}
			return intCall(g, false)
		}),
		"C21": one(func(g *gen) *call {
			switch g.Intn(5) {
			case 0, 1:
				return dordCall(g, pick(g, formats))
			case 2:
				f := pick(g, encFormats)
				return &call{op: "sym", f: f, x: g.number(f)}
			case 3: // native floats
				return nativeOrdCall(g, pick(g, encFormats))
			}
			return ordCall(g, pick(g, encFormats))
		}),
		"C22": one(migCall),
		"C23": one(func(g *gen) *call {
			f := pick(g, formats)
			w := g.raw(f)
			if g.Intn(6) == 0 {
				w = specialRaw(g, f)
			}
			return &call{op: "dec", f: f, w: w}
		}),
	}
	addGrids(m)
	return m
}
