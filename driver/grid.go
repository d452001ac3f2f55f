package main

import (
	"math"
	"math/big"
)

// A grid enumerates calls systematically: every exponent of a format with a
// few significands, every rounding boundary of half precision, every power of
// every base, and so on. Its calls are screened; the specification judges the
// disputed ones.
type grid struct {
	n     int
	at    func(i int) *call
	quiet bool // too large to be sampled: only disputed calls go to the trace
}

// ix takes the next digit (mixed radix) off an index.
func ix(i *int, n int) int {
	d := *i % n
	*i /= n
	return d
}

// mix is a fixed hash, for digits that need no structure.
func mix(i int) uint64 {
	z := uint64(i)*0x9e3779b97f4a7c15 + 0x1234567
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func mixBits(i, n int) *big.Int {
	z := new(big.Int)
	for k := 0; k < n; k += 64 {
		z.Lsh(z, 64).Or(z, new(big.Int).SetUint64(mix(i*4+k/64)))
	}
	return z.And(z, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(n)), bigOne))
}

// fracs is the number of fractions fracAt knows.
const fracs = 8

func (f *format) fracAt(k, seed int) *big.Int {
	t := f.p - 1
	ones := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(t)), bigOne)
	switch k {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return ones
	case 3:
		return new(big.Int).SetBit(new(big.Int), t-1, 1)
	case 4: // ones in the low half only
		return new(big.Int).Rsh(ones, uint(t/2))
	case 5: // a single bit
		return new(big.Int).SetBit(new(big.Int), int(mix(seed)%uint64(t)), 1)
	case 6: // ones but for a single bit
		return ones.SetBit(ones, int(mix(seed)%uint64(t)), 0)
	}
	return mixBits(seed, t)
}

// rawAt packs fields.
func (f *format) rawAt(s, eb int, fr *big.Int, ld uint) limbs {
	w := make(limbs, f.n)
	y := new(big.Int).Set(fr)
	if f.lead {
		y.SetBit(y, f.p-1, ld)
	}
	copy(w, limbsOfInt(y))
	w[f.n-1] |= uint16(s)<<15 | uint16(eb)<<uint(15-f.w)
	return w
}

// rawGrid: every exponent and sign with each kind of fraction.
func rawGrid(f *format, mk func(w limbs) *call) grid {
	leads := 1
	if f.lead {
		leads = 2
	}
	n := 2 * leads * fracs * (f.maxExp() + 1)
	return grid{n: n, at: func(i int) *call {
		k := i
		s, ld, fr := ix(&k, 2), uint(ix(&k, leads)), ix(&k, fracs)
		return mk(f.rawAt(s, k, f.fracAt(fr, i), ld))
	}}
}

func opGrid(op string, f *format) grid {
	return rawGrid(f, func(w limbs) *call { return &call{op: op, f: f, w: w} })
}

// boundary numbers of a format: at every exponent from below the smallest
// denormal to beyond the largest finite number, some representable numbers and
// their surroundings.
const boundaries = 2 * 4 * 9

func (f *format) boundary(k, e, seed int) rn {
	s := ix(&k, 2)
	sg := ix(&k, 4)
	q := e - f.p + 1
	if q < f.qmin() {
		q = f.qmin()
	}
	sig := new(big.Int) // about 2^e in units of 2^q
	if e >= q {
		sig.SetBit(sig, e-q, 1)
	}
	switch sg {
	case 1:
		sig.Add(sig, bigOne)
	case 2:
		sig.Lsh(sig, 1)
		sig.Sub(sig, bigOne)
		if sig.Sign() < 0 {
			sig.SetInt64(0)
		}
	case 3:
		if e > q {
			sig.Or(sig, mixBits(seed, e-q))
		}
	}
	sh, d := 2, int64(0)
	switch k {
	case 1:
		d = 2
	case 2, 3:
		sh = 3 + int(mix(seed)%200)
		d = int64(2*k - 5)
	case 4, 5:
		sh = 3 + int(mix(seed)%200)
		z := new(big.Int).Lsh(sig, uint(sh))
		z.SetBit(z, sh-1, 1)
		z.Add(z, big.NewInt(int64(2*k-9)))
		return signed(s, z, q-sh)
	case 6:
		d = 1
	case 7:
		d = 3
	case 8:
		sh = 66
		d = int64(mix(seed) >> 1)
	}
	z := new(big.Int).Lsh(sig, uint(sh))
	z.Add(z, big.NewInt(d))
	return signed(s, z, q-sh)
}

func (f *format) emin() int { return 1 - f.bias() }

// encGrid: the boundaries of f.
func encGrid(f *format, stride int, mk func(x *big.Float, seed int) *call) grid {
	lo := f.qmin() - 3
	hi := f.bias() + 2
	return grid{n: (hi - lo) * boundaries / stride, at: func(i int) *call {
		i = i*stride + int(mix(i)%uint64(stride))
		r := f.boundary(i%boundaries, lo+i/boundaries, i)
		return mk(floatOf(r, i), i)
	}}
}

// floatOf makes a big.Float of r with a precision and mode picked by seed.
func floatOf(r rn, seed int) *big.Float {
	prec := uint(1)
	if r.k == "fin" {
		prec = uint(r.m.BitLen())
	}
	h := mix(seed + 77)
	switch h % 5 {
	case 4:
		prec = hugePrec(int(h >> 8 % (1 << 16)))
	case 0:
		prec += uint(h >> 8 % 70)
	case 1:
		if prec < 53 {
			prec = 53
		}
	case 2:
		prec += uint(h >> 8 % 2000)
	case 3:
		if r.k != "fin" {
			prec = 0
		}
	}
	return mkFloat(r.num(), prec, big.RoundingMode(h>>32%6), 0)
}

// half16: all half-precision encodings with the points around each of them at
// which rounding changes.
const around16 = 7

func half16(i int) rn {
	w := limbs{uint16(i % 65536)}
	k := i / 65536
	s, eb, fr := fmt16.fields(w)
	if eb == 31 {
		if fr.Sign() != 0 {
			k = 0
		}
		eb, fr = 31, new(big.Int) // as if there were a next binade
	}
	q := fmt16.qmin()
	if eb > 0 {
		fr.SetBit(fr, 10, 1)
		q += eb - 1
	}
	sh := 14
	d := []int64{0, 1 << 13, 1<<13 - 1, 1<<13 + 1, 1, -1, 1 << 12}[k]
	z := new(big.Int).Lsh(fr, uint(sh))
	z.Add(z, big.NewInt(d))
	return signed(s, z, q-sh)
}

// natives: every exponent of a native format with each kind of fraction.
func nativeGrid(nf *format, mk func(bits uint64) *call) grid {
	return rawGrid(nf, func(w limbs) *call { return mk(u64any(w)) })
}

// ddGrid: pairs of a high and a low half over their exponents.
func ddGrid(stride int, mk func(w limbs) *call) grid {
	const exps = 2048
	n := exps * exps / stride
	return grid{n: n, at: func(i int) *call {
		i = i*stride + int(mix(i)%uint64(stride))
		h := mix(i + 5)
		he, le := i%exps, i/exps%exps
		hi := fmtF64.rawAt(int(h&1), he, fmtF64.fracAt(int(h>>8%fracs), i), 0)
		lo := fmtF64.rawAt(int(h>>1&1), le, fmtF64.fracAt(int(h>>16%fracs), i+1), 0)
		return mk(append(append(limbs{}, lo...), hi...))
	}}
}

// ddNear: for every exponent of the high half, low halves at every distance up
// to 130 binades below it, and at the edges of what is canonical.
func ddNear(stride int, mk func(w limbs) *call) grid {
	const gaps = 130
	n := 2047 * gaps / stride
	return grid{n: n, at: func(i int) *call {
		i = i*stride + int(mix(i)%uint64(stride))
		h := mix(i + 9)
		he := i % 2047
		le := he - 50 - i/2047%gaps
		fr := fmtF64.fracAt(int(h>>16%fracs), i+1)
		if le < 0 {
			fr.Rsh(fr, uint(-le)%52)
			le = 0
		}
		hi := fmtF64.rawAt(int(h&1), he, fmtF64.fracAt(int(h>>8%fracs), i), 0)
		lo := fmtF64.rawAt(int(h>>1&1), le, fr, 0)
		return mk(append(append(limbs{}, lo...), hi...))
	}}
}

// narrow: encodings of f whose number is at or around a boundary of the
// narrower format nf, over all exponents of nf.
func narrow(f, nf *format, op string) grid {
	lo := nf.qmin() - 3
	hi := nf.bias() + 2
	return grid{n: (hi - lo) * boundaries, at: func(i int) *call {
		r := nf.boundary(i%boundaries, lo+i/boundaries, i)
		if f.w == 0 {
			return &call{op: op, f: f, w: refEncodeDD(r)}
		}
		return &call{op: op, f: f, w: refEncode(f, r)}
	}}
}

// neighbours makes calls with native floats calls on pairs of neighbours.
func neighbours(g grid) grid {
	return grid{n: g.n, at: func(i int) *call {
		c := g.at(i)
		c.op = map[string]string{"e64": "eo64", "e32": "eo32", "n64": "no64", "n32": "no32"}[c.op]
		c.i2 = c.i + 1
		if c.op == "eo32" {
			c.i2 = uint64(uint32(c.i2))
		}
		c.w2 = nextRaw(c.w)
		return c
	}}
}

func nextRaw(w limbs) limbs {
	u := append(limbs{}, w...)
	for k := range u {
		u[k]++
		if u[k] != 0 {
			break
		}
	}
	return u
}

// texts of every half-precision number.
func text16(fms []byte, precs []int) grid {
	n := 65536 * len(fms) * len(precs)
	return grid{n: n, at: func(i int) *call {
		w := limbs{uint16(ix(&i, 65536))}
		fm := fms[ix(&i, len(fms))]
		v := toF64(refDecode(fmt16, w))
		return &call{op: "ff", n: 16, i: math.Float64bits(v), fm: fm, prec: precs[i]}
	}}
}

// texts at every exponent of float32 or float64.
func textGrid(nf *format, fms []byte, precs []int) grid {
	per := 2 * fracs * len(fms) * len(precs)
	return grid{n: per * (nf.maxExp() + nf.p), at: func(i int) *call {
		k := i
		s, fr, fm, prec := ix(&k, 2), ix(&k, fracs), fms[ix(&k, len(fms))], precs[ix(&k, len(precs))]
		eb := k - nf.p + 1
		z := nf.fracAt(fr, i)
		if eb < 0 { // denormal numbers of every length
			z.SetBit(z, nf.p-2, 1)
			z.Rsh(z, uint(-eb))
			eb = 0
		}
		v := toF64(refDecode(nf, nf.rawAt(s, eb, z, 0)))
		n := 64
		if nf == fmtF32 {
			n = 32
		}
		return &call{op: "ff", n: n, i: math.Float64bits(v), fm: fm, prec: prec}
	}}
}

// ints: all small integers, and the surroundings of every power of every base.
func ints() grid {
	const small = 10100
	n := (small + 64*5) * 35 * 6
	return grid{n: n, at: func(i int) *call {
		b := 2 + ix(&i, 35)
		v := ix(&i, 6)
		m := uint64(i)
		if i >= small {
			k := i - small
			d := ix(&k, 5)
			m = 1
			for ; k > 0; k-- {
				m *= uint64(b)
			}
			m += uint64(d) - 2
		}
		c := &call{op: "fi", b: b, mag: m, v: "FormatUint"}
		if v > 0 {
			c.v = []string{"FormatInt", "FormatInt", "AppendInt", "AppendInt", "AppendUint"}[v-1]
			c.neg = v == 1 || v == 3
			if v != 5 && m > math.MaxInt64 {
				c.mag &= math.MaxInt64
			}
			if c.neg && c.mag == 0 {
				c.neg = false
			}
		}
		if v >= 3 {
			c.op = "appi"
			c.pre, c.spare = []byte("ab"), int(mix(i)%80)
		} else if v > 0 && b == 10 && mix(i)%2 == 0 {
			c.v = "Itoa"
		}
		return c
	}}
}

// append a text of every length into spare capacities around it.
func appendGrid() grid {
	precs := []int{-1, 0, 1, 2, 3, 5, 8, 12, 15, 16, 17, 18, 20, 24, 30, 40, 64, 100}
	return grid{n: len(precs) * 6 * 60 * 5, at: func(i int) *call {
		prec, fm := precs[ix(&i, len(precs))], fms[ix(&i, 6)]
		spare, pre := ix(&i, 60), []int{0, 1, 7, 8, 24}[i]
		h := mix(i + prec*1000 + spare)
		v := math.Ldexp(float64(h%1000003)+0.5, int(h>>40%80)-50)
		return &call{op: "appf", n: 64, i: math.Float64bits(v), fm: fm, prec: prec,
			pre: []byte("0123456789abcdefghijklmnop")[:pre], spare: spare}
	}}
}

// exactness of short numbers at every exponent.
func isxGrid(n int) grid {
	nf := nativeFmt(n)
	lo, hi := nf.qmin()-2, nf.bias()+2
	const sigs = 128
	return grid{n: (hi - lo) * sigs * 2, at: func(i int) *call {
		k := i
		s, m := ix(&k, 2), ix(&k, sigs)
		z := big.NewInt(int64(2*m + 1))
		if m >= sigs/2 { // as many bits as the exponent leaves room for, or one more
			z = mixBits(i, 1+int(mix(i)%uint64(nf.p+1)))
			z.SetBit(z, 0, 1)
		}
		return &call{op: "isx", n: n, x: floatOf(mkrn(s, z, lo+k), i)}
	}}
}

func addGrids(m map[string]mode) {
	set := func(id string, gs ...grid) {
		x := m[id]
		x.grids = append(x.grids, gs...)
		m[id] = x
	}
	enc := func(f *format, stride int) grid {
		return encGrid(f, stride, func(x *big.Float, _ int) *call { return &call{op: "enc", f: f, x: x} })
	}
	op := func(op string, f *format) func(w limbs) *call {
		return func(w limbs) *call { return &call{op: op, f: f, w: w} }
	}
	nat := func(op string, f *format) func(bits uint64) *call {
		return func(bits uint64) *call { return &call{op: op, f: f, i: bits} }
	}
	enc16 := grid{n: around16 * 65536, at: func(i int) *call { return &call{op: "enc", f: fmt16, x: floatOf(half16(i), i)} }}
	e16 := func(op string, nf *format) grid {
		return grid{n: around16 * 65536, at: func(i int) *call {
			v := refEncode(nf, half16(i))
			return &call{op: op, f: fmt16, i: u64any(v)}
		}}
	}
	set("C02", opGrid("dec", fmt128))
	set("C03", opGrid("dec", fmt80))
	set("C04", ddGrid(8, op("dec", fmtDD)), ddNear(1, op("dec", fmtDD)))
	set("C05", enc16)
	set("C06", enc(fmt128, 2))
	set("C07", enc(fmt80, 2))
	set("C08", encGrid(fmtF64, 1, func(x *big.Float, _ int) *call { return &call{op: "enc", f: fmtDD, x: x} }),
		ddNear(1, func(w limbs) *call {
			x := refDecodeDD(w)
			if x.k != "fin" {
				x = refDecode(fmtF64, w[4:])
			}
			h := int(mix(int(w[4]) + int(w[0])*65536))
			// beyond the pair: a bit of the number below the low half
			if x.k == "fin" && h%3 == 0 {
				x = refAdd(x, mkrn(h>>2&1, bigOne, x.e-1-h>>4%60))
			}
			if x.k == "nan" {
				x = rn{k: "zero"}
			}
			return &call{op: "enc", f: fmtDD, x: floatOf(x, h&0xffffff)}
		}))
	set("C09", enc16, enc(fmt128, 8), enc(fmt80, 8), e16("e64", fmtF64), e16("e32", fmtF32))
	for _, f := range []*format{fmt80, fmt128, fmtDD} {
		set("C09", narrow(f, fmtF64, "n64"), narrow(f, fmtF32, "n32"))
		set("C11", narrow(f, fmtF64, "n64"), narrow(f, fmtF32, "n32"))
		set("C10", nativeGrid(fmtF64, nat("e64", f)), nativeGrid(fmtF32, nat("e32", f)))
		set("C12", nativeGrid(fmtF64, nat("nrt64", f)), nativeGrid(fmtF32, nat("nrt32", f)))
		set("C22", narrowMig(f))
	}
	set("C10", e16("e64", fmtF64), e16("e32", fmtF32))
	for _, o := range []string{"n64", "n32"} {
		o := o
		set("C11", grid{n: 65536, at: func(i int) *call { return &call{op: o, f: fmt16, w: limbs{uint16(i)}} }})
	}
	set("C12", opGrid("rt", fmt80), opGrid("rt", fmt128), ddNear(2, op("rt", fmtDD)))
	set("C14", opGrid("fld", fmt80), opGrid("fld", fmt128), opGrid("bits", fmt80), opGrid("bits", fmt128), ddNear(4, op("bits", fmtDD)))
	for _, f := range formats {
		f := f
		if f.w == 0 {
			set("C16", ddGrid(64, op("dec", f)), ddNear(16, op("n32", f)))
			continue
		}
		set("C16", thin(8, opGrid("dec", f)), thin(8, opGrid("fld", f)))
		if f.enc != nil {
			set("C16", thin(8, opGrid("n64", f)), thin(8, opGrid("n32", f)))
		}
	}
	set("C16", text16(fms, []int{-1, 5}), textGrid(fmtF32, fms, []int{-1}), textGrid(fmtF64, fms, []int{-1, 3}),
		appendGrid(), longTexts(), longNumbers(), extremes(encFormats, []int{16, 32, 64}, "enc", "sym"))
	set("C17", isxGrid(16), isxGrid(32), isxGrid(64),
		grid{n: 65536, at: func(i int) *call { return &call{op: "isx", n: 16, x: floatOf(half16(i), i)} }})
	set("C18", text16([]byte{'e', 'f', 'g', 'G', 'E'}, []int{-1}), textGrid(fmtF32, []byte{'e', 'f', 'g'}, []int{-1}),
		textGrid(fmtF64, []byte{'e', 'f', 'g'}, []int{-1}))
	set("C19", text16([]byte{'e', 'f', 'g', 'b'}, []int{0, 1, 2, 3, 4, 6, 11}),
		textGrid(fmtF32, []byte{'e', 'g'}, []int{0, 3, 7, 8, 9, 40}),
		textGrid(fmtF64, []byte{'e', 'g'}, []int{0, 2, 14, 15, 16, 17, 60}))
	set("C20", ints(), appendGrid())
	set("C21", grid{n: around16 * 65536, at: func(i int) *call { return &call{op: "sym", f: fmt16, x: floatOf(half16(i), i)} }})
	set("C21", grid{n: 65536, at: func(i int) *call { // neighbours in the order of the encodings
		return &call{op: "dord", f: fmt16, w: limbs{uint16(i)}, w2: limbs{uint16(i + 1)}}
	}}, grid{n: 65536, at: func(i int) *call {
		return &call{op: "dord", f: fmtBF, w: limbs{uint16(i)}, w2: limbs{uint16(i + 1)}}
	}})
	set("C21", neighbours(e16("e64", fmtF64)), neighbours(e16("e32", fmtF32)))
	for _, o := range []string{"n64", "n32"} {
		o := o
		set("C21", neighbours(grid{n: 65536, at: func(i int) *call { return &call{op: o, f: fmt16, w: limbs{uint16(i)}} }}))
	}
	for _, f := range []*format{fmt80, fmt128, fmtDD} {
		set("C21", neighbours(narrow(f, fmtF64, "n64")), neighbours(narrow(f, fmtF32, "n32")))
		set("C21", neighbours(nativeGrid(fmtF64, nat("e64", f))), neighbours(nativeGrid(fmtF32, nat("e32", f))))
	}
	for _, f := range []*format{fmt80, fmt128} {
		f := f
		set("C21", encGrid(f, 32, func(x *big.Float, _ int) *call { return &call{op: "sym", f: f, x: x} }))
		set("C21", rawGrid(f, func(w limbs) *call {
			return &call{op: "dord", f: f, w: w, w2: nextRaw(w)}
		}))
		set("C23", opGrid("dec", f))
	}
	for id, f := range map[string]*format{"C05": fmt16, "C06": fmt128, "C07": fmt80, "C08": fmtDD} {
		set(id, extremes([]*format{f}, nil, "enc"))
	}
	set("C09", extremes(encFormats, nil, "enc"))
	set("C17", extremes(nil, []int{16, 32, 64}))
	set("C21", extremes(encFormats, nil, "sym", "ord"))
	// arguments and results left alone, and no traces of earlier calls, in every corner
	for _, id := range []string{"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C17", "C18", "C19", "C20"} {
		set("C15", m[id].grids...)
	}
	set("C23", ddNear(2, op("dec", fmtDD)), ddGrid(64, op("dec", fmtDD)))
	set("C22", grid{n: 65536 * 3, at: func(i int) *call {
		h := mix(i)
		hops := []*format{[]*format{fmt80, fmt128, fmtDD}[i/65536], encFormats[h%4], encFormats[h>>8%4]}
		w := limbs{uint16(i)}
		if v := refDecode(fmt16, w); v.k == "nan" {
			w = limbs{0x3c01}
		}
		return &call{op: "mig", f: fmt16, w: w, hops: hops}
	}})
}

// narrowMig: numbers around the boundaries of each narrower format carried
// from f there and on.
func narrowMig(f *format) grid {
	tos := []*format{fmt16, fmtF64, fmt80}
	const lo, hi = -1100, 1030
	return grid{n: (hi - lo) * boundaries, at: func(i int) *call {
		h := mix(i + 3)
		to := tos[h%3]
		r := to.boundary(i%boundaries, lo+i/boundaries, i)
		w := refEncode2(f, r)
		hops := []*format{encFormats[h>>8%4], encFormats[h>>16%4], encFormats[h>>24%4]}
		return &call{op: "mig", f: f, w: w, hops: hops[:1+h>>32%3]}
	}}
}

func refEncode2(f *format, r rn) limbs {
	if f.w == 0 {
		return refEncodeDD(r)
	}
	return refEncode(f, r)
}

// longTexts: precisions far beyond what a number has digits for.
func longTexts() grid {
	precs := []int{700, 800, 1000, 1023, 1024, 1025, 1074, 1100, 2000, 4095, 4096, 5000, 9999, 10000, 32767, 65536, 1 << 17}
	vals := []float64{0, 1, -1.5, 0.1, 123456789, 5e-324, 1e22, 6.1e-5, math.MaxFloat64, math.MaxFloat32, math.Inf(1), math.NaN()}
	return grid{n: len(precs) * len(vals) * 6 * 3, quiet: true, at: func(i int) *call {
		v, fm, n := vals[ix(&i, len(vals))], fms[ix(&i, 6)], []int{16, 32, 64}[ix(&i, 3)]
		c := &call{op: "ff", n: n, i: math.Float64bits(v), fm: fm, prec: precs[i]}
		if mix(i)%2 == 0 {
			c.op, c.pre, c.spare = "appf", []byte("x"), i
		}
		return c
	}}
}

// longNumbers: numbers of very many bits.
func longNumbers() grid {
	bits := []int{500, 1000, 1023, 1024, 1025, 4096, 10000, 32768, 65535, 65536, 100000}
	exps := []int{0, -1, 1, 10, -24, 60, -1074, -1022, 1023, -16445, 16383, -16494, -70000, 70000}
	ops := []string{"enc", "enc", "enc", "enc", "isx", "isx", "isx", "sym"}
	return grid{n: len(bits) * len(exps) * len(ops) * 4, quiet: true, at: func(i int) *call {
		h := mix(i)
		o, b, e := ix(&i, len(ops)), bits[ix(&i, len(bits))], exps[ix(&i, len(exps))]
		z := mixBits(int(h%100000), b)
		switch i {
		case 0: // a tie and a single bit far below
			z = new(big.Int).SetBit(big.NewInt(1), b-1, 1)
		case 1: // all ones
			z = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(b)), bigOne)
		}
		z.SetBit(z, b-1, 1)
		c := &call{op: ops[o], f: encFormats[o%4], x: floatOf(mkrn(int(h>>60&1), z, e-b+1), int(h>>20&0xffff))}
		if c.op == "isx" {
			c.n = []int{16, 32, 64}[o%3]
		}
		return c
	}}
}

// extremes: numbers at the ends of big.Float's own range, among them those that
// rounding takes beyond it.
func extremes(fs []*format, isx []int, ops ...string) grid {
	lens := []int{1, 2, 3, 11, 12, 13, 23, 24, 25, 26, 52, 53, 54, 55, 63, 64, 65, 66, 105, 106, 107, 108, 112, 113, 114, 115, 128, 129, 160, 200, 300, 2098, 2099, 2100, 2101, 3000, 20000}
	offs := []int{0, 1, 2, 10, 11, 23, 24, 52, 53, 54, 63, 64, 65, 105, 106, 107, 112, 113, 114, 1074, 1075, 2100, 16383, 16495, 40000}
	k := len(fs)*len(ops) + len(isx)
	return grid{n: len(lens) * len(offs) * 2 * 5 * 2 * k, at: func(i int) *call {
		h := mix(i)
		n, off, low, kind, s := lens[ix(&i, len(lens))], offs[ix(&i, len(offs))], ix(&i, 2), ix(&i, 5), ix(&i, 2)
		z := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(n)), bigOne) // all ones
		switch kind {
		case 1: // all but the last but one
			if n > 2 {
				z.SetBit(z, 1, 0)
			}
		case 2: // a single one
			z.SetInt64(1)
		case 3: // two ones
			z.SetInt64(1).SetBit(z, n-1, 1)
		case 4:
			z = mixBits(int(h%100000), n)
			z.SetBit(z, n-1, 1)
		}
		x := floatOf(mkrn(s, z, 0), int(h>>20&0xffff))
		e := big.MaxExp - off
		if low == 1 {
			e = big.MinExp + off
		}
		withExp(x, e)
		if i < len(isx) {
			return &call{op: "isx", n: isx[i], x: x}
		}
		i -= len(isx)
		c := &call{op: ops[i/len(fs)], f: fs[i%len(fs)], x: x}
		if c.op == "ord" {
			c.y = floatOf(mkrn(int(h>>50&1), z, 0), 0)
		}
		return c
	}}
}

// thin takes one call in k.
func thin(k int, g grid) grid {
	if g.n < 1<<17 {
		return g
	}
	return grid{n: g.n / k, quiet: g.quiet, at: func(i int) *call {
		return g.at(i*k + int(mix(i)%uint64(k)))
	}}
}
