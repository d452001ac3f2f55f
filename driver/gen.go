package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	gostrconv "strconv"
	"strings"
)

// gen produces structured inputs. Every choice comes from one seeded source.
type gen struct {
	*rand.Rand
	dict []uint64 // literals of the sources under test
	// recently produced inputs, reused so that state kept between calls (by a
	// cache, say) meets related inputs
	raws map[*format][]limbs
	nums []*big.Float
	txts []uint64
	tame bool // no precisions beyond what fits in memory
}

func newGen(seed int64, dict []uint64) *gen {
	return &gen{Rand: rand.New(rand.NewSource(seed)), dict: dict, raws: map[*format][]limbs{}}
}

// mineLiterals collects the integer literals in the repository's sources (and
// their neighbours): inputs that a special case in the code might single out.
func mineLiterals(repo string) []uint64 {
	set := map[uint64]bool{}
	filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || strings.Contains(path, "zzverif") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.INT:
				if v, err := gostrconv.ParseUint(l.Value, 0, 64); err == nil {
					set[v], set[v+1], set[v-1] = true, true, true
				}
			case token.FLOAT:
				if v, err := gostrconv.ParseFloat(l.Value, 64); err == nil {
					set[math.Float64bits(v)] = true
				}
			case token.CHAR:
				if v, _, _, err := gostrconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
					set[uint64(v)] = true
				}
			}
			return true
		})
		return nil
	})
	var out []uint64
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) == 0 {
		out = []uint64{0}
	}
	return out
}

func (g *gen) lit() uint64 { return g.dict[g.Intn(len(g.dict))] }

// pattern returns a structured bit string of the given width.
func (g *gen) pattern(bits int) *big.Int {
	z := new(big.Int)
	if bits <= 0 {
		return z
	}
	max := new(big.Int).Lsh(bigOne, uint(bits))
	ones := func(k int) *big.Int {
		t := new(big.Int).Lsh(bigOne, uint(k))
		return t.Sub(t, bigOne)
	}
	k := g.Intn(bits + 1)
	switch g.Intn(17) {
	case 0:
	case 1:
		z = ones(bits)
	case 2:
		z.SetBit(z, g.Intn(bits), 1)
	case 3:
		z = ones(k)
	case 4:
		z.Lsh(ones(k), uint(bits-k))
	case 5, 6, 7:
		z.Rand(g.Rand, max)
	case 8: // few significant bits, shifted
		z.Rand(g.Rand, new(big.Int).Lsh(bigOne, uint(g.Intn(16)+1)))
		z.Lsh(z, uint(g.Intn(bits)))
	case 9:
		z.SetUint64(g.lit())
	case 10:
		z.SetUint64(g.lit())
		z.Lsh(z, uint(g.Intn(bits)))
	case 11:
		z.Sub(ones(bits), big.NewInt(int64(g.Intn(16))))
	case 12:
		z.SetInt64(int64(g.Intn(16)))
	case 13: // power of two and a neighbour
		z.SetBit(z, g.Intn(bits), 1)
		z.Add(z, big.NewInt(int64(g.Intn(5)-2)))
	case 14: // runs
		z.Rand(g.Rand, max)
		b := g.Intn(2)
		for i := 0; i < bits; {
			n := 1 + g.Intn(12)
			for ; n > 0 && i < bits; n-- {
				z.SetBit(z, i, uint(b))
				i++
			}
			b ^= 1
		}
	case 15: // a cleared bit
		z = ones(bits)
		z.SetBit(z, g.Intn(bits), 0)
	case 16: // two bits
		z.SetBit(z, g.Intn(bits), 1)
		z.SetBit(z, g.Intn(bits), 1)
	}
	if z.Sign() < 0 {
		z.Neg(z)
	}
	return z.Mod(z, max)
}

// expField picks an exponent field, favouring the edges.
func (g *gen) expField(f *format) int {
	m := f.maxExp()
	e := 0
	switch g.Intn(14) {
	case 0:
		e = 0
	case 1:
		e = 1
	case 2:
		e = m
	case 3:
		e = m - 1
	case 4:
		e = g.Intn(6)
	case 5:
		e = m - g.Intn(6)
	case 6, 7:
		e = f.bias() + g.Intn(2*f.p+3) - f.p - 1
	case 8:
		e = int(g.lit() % uint64(m+1))
	case 9: // where narrower formats over- and underflow
		edges := []int{15, -14, -24, -25, 127, 128, -126, -149, -150, 1023, 1024, -1022, -1074, -1075, 16383, -16382}
		e = f.bias() + edges[g.Intn(len(edges))] + g.Intn(5) - 2
	case 10:
		e = 1 << uint(g.Intn(f.w))
		e += g.Intn(3) - 1
	case 11:
		e = f.bias() + g.Intn(5) - 2
	default:
		e = g.Intn(m + 1)
	}
	if e < 0 {
		e = 0
	}
	if e > m {
		e = m
	}
	return e
}

// raw returns an encoding of format f.
func (g *gen) raw(f *format) limbs {
	pool := g.raws[f]
	if len(pool) > 0 && g.Intn(8) == 0 {
		w := append(limbs{}, pool[g.Intn(len(pool))]...)
		switch g.Intn(7) {
		case 0: // same low bits
			w[len(w)-1] = uint16(g.Uint32())
		case 1: // other sign
			w[len(w)-1] ^= 0x8000
		case 2: // same high bits
			w[g.Intn(len(w))] ^= 1 << uint(g.Intn(16))
		case 3: // the same bits in another order
			i, j := g.Intn(len(w)), g.Intn(len(w))
			w[i], w[j] = w[j], w[i]
		case 4: // the same exclusive or
			i, j, b := g.Intn(len(w)), g.Intn(len(w)), uint16(1)<<uint(g.Intn(16))
			w[i] ^= b
			w[j] ^= b
		case 5: // halves exchanged
			if h := len(w) / 2; len(w) == 2*h {
				w = append(append(limbs{}, w[h:]...), w[:h]...)
			}
		}
		return w
	}
	w := g.rawFresh(f)
	if len(pool) < 64 {
		g.raws[f] = append(pool, w)
	} else {
		pool[g.Intn(64)] = w
	}
	return w
}

func (g *gen) rawFresh(f *format) limbs {
	if f.w == 0 {
		return g.rawDD()
	}
	s := g.Intn(2)
	if f.lead {
		eb := g.expField(f)
		m := g.pattern(63)
		switch g.Intn(8) {
		case 0: // any lead bit
			m.SetBit(m, 63, uint(g.Intn(2)))
		default: // canonical
			if eb > 0 {
				m.SetBit(m, 63, 1)
			}
		}
		w := make(limbs, 5)
		copy(w, limbsOfInt(m))
		w[4] = uint16(s)<<15 | uint16(eb)
		return w
	}
	eb := g.expField(f)
	fr := g.pattern(f.p - 1)
	w := make(limbs, f.n)
	copy(w, limbsOfInt(fr))
	w[f.n-1] |= uint16(s)<<15 | uint16(eb)<<uint(15-f.w)
	return w
}

// rawDD returns a double-double pair: canonical and not.
func (g *gen) rawDD() limbs {
	h := g.rawFresh(fmtF64)
	var l limbs
	d := refDecode(fmtF64, h)
	if d.k != "fin" || g.Intn(6) == 0 {
		l = g.rawFresh(fmtF64)
		if g.Intn(3) == 0 {
			l = limbs{0, 0, 0, uint16(g.Intn(2)) << 15}
		}
		return append(append(limbs{}, l...), h...)
	}
	_, eb, _ := fmtF64.fields(h)
	if eb == 0 {
		eb = 1
	}
	le := 0
	switch g.Intn(6) {
	case 0: // half a unit in the last place
		le = eb - 53
	case 1:
		le = eb - 54
	case 2:
		le = eb - 53 - g.Intn(60)
	case 3: // overlapping
		le = eb - g.Intn(56)
	case 4: // wide gap
		if eb > 110 {
			le = g.Intn(eb - 106)
		}
	case 5:
		l = limbs{0, 0, 0, uint16(g.Intn(2)) << 15}
	}
	if l == nil {
		if le < 0 {
			le = 0
		}
		fr := g.pattern(52)
		if g.Intn(4) == 0 {
			fr.SetInt64(int64(g.Intn(3)))
		}
		l = make(limbs, 4)
		copy(l, limbsOfInt(fr))
		l[3] |= uint16(g.Intn(2))<<15 | uint16(le)<<4
	}
	return append(append(limbs{}, l...), h...)
}

// -- numbers -----------------------------------------------------------------

const maxShift = 700

// near returns a number at or around a rounding boundary of format f.
func (g *gen) near(f *format) rn {
	if f.w == 0 {
		return g.nearDD()
	}
	s := g.Intn(2)
	var eb int
	var sig *big.Int
	switch g.Intn(12) {
	case 0: // around the largest finite number
		eb = f.maxExp() - 1
		sig = new(big.Int).Lsh(bigOne, uint(f.p))
		sig.Sub(sig, big.NewInt(int64(1+g.Intn(3))))
	case 1: // around the smallest denormals and zero
		sig = big.NewInt(int64(g.Intn(4)))
	case 2: // around the smallest normal number
		sig = new(big.Int).Lsh(bigOne, uint(f.p-1))
		sig.Add(sig, big.NewInt(int64(g.Intn(5)-2)))
		eb = 1
	default:
		eb = g.expField(f)
		if eb == f.maxExp() {
			eb--
		}
		sig = g.pattern(f.p - 1)
		if eb > 0 {
			sig.SetBit(sig, f.p-1, 1)
		}
	}
	q := f.qmin()
	if eb > 0 {
		q += eb - 1
	}
	return g.nudge(s, sig, q)
}

// nudge returns sig * 2^q displaced by an interesting fraction of 2^q.
func (g *gen) nudge(s int, sig *big.Int, q int) rn {
	k := 2
	d := int64(0)
	switch g.Intn(10) {
	case 0:
		return mkrn(s, sig, q)
	case 1, 2: // half
		d = 2
	case 3: // quarters
		d = int64(g.Intn(7) - 3)
	case 4: // one unit
		d = 4
	default: // around half or around the value, at distance 2^-k
		k = 2 + g.Intn(12)
		switch g.Intn(4) {
		case 0:
			k = 2 + g.Intn(130)
		case 1:
			k = 2 + g.Intn(maxShift)
			if g.Intn(100) == 0 { // no working precision is enough
				k = 2 + g.Intn(1<<uint(10+g.Intn(8)))
			}
		}
		z := new(big.Int).Lsh(sig, uint(k))
		h := new(big.Int)
		if g.Intn(4) != 0 {
			h.SetBit(h, k-1, 1)
		}
		if g.Intn(2) == 0 {
			h.Neg(h)
		}
		z.Add(z, h)
		z.Add(z, big.NewInt(int64(g.Intn(5)-2)))
		return signed(s, z, q-k)
	}
	if g.Intn(2) == 0 {
		d = -d
	}
	z := new(big.Int).Lsh(sig, uint(k))
	z.Add(z, big.NewInt(d))
	return signed(s, z, q-k)
}

func signed(s int, z *big.Int, e int) rn {
	if z.Sign() < 0 {
		z.Neg(z)
		s = 1 - s
	}
	return mkrn(s, z, e)
}

// nearDD returns numbers around double-doubles.
func (g *gen) nearDD() rn {
	switch g.Intn(6) {
	case 0:
		return g.near(fmtF64)
	case 1: // high part half way between two doubles, and around
		x := g.near(fmtF64)
		if x.k != "fin" {
			return x
		}
		k := 1 + g.Intn(120)
		z := new(big.Int).Lsh(x.m, uint(k))
		z.Add(z, big.NewInt(int64(g.Intn(5)-2)))
		return signed(x.s, z, x.e-k)
	}
	w := g.rawDD()
	v := refDecodeDD(w)
	if v.k != "fin" {
		return g.near(fmtF64)
	}
	l := refDecode(fmtF64, w[:4])
	q := -1074
	if l.k == "fin" {
		q = l.e
	} else {
		q = v.e - 53
	}
	if q < -1200 {
		q = -1200
	}
	// v on the grid 2^q (v is a multiple of 2^-1074)
	if v.e < q {
		return v
	}
	return g.nudge(v.s, new(big.Int).Lsh(v.m, uint(v.e-q)), q)
}

// anyNum returns a number of any kind, aimed at format f.
func (g *gen) anyNum(f *format) rn {
	s := g.Intn(2)
	switch g.Intn(24) {
	case 0:
		return rn{k: "zero", s: s}
	case 1:
		return rn{k: "inf", s: s}
	case 2: // small integers and powers of ten
		return mkrn(s, big.NewInt(int64(g.Intn(70000))), 0)
	case 3:
		z := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(g.Intn(40))), nil)
		return mkrn(s, z.Add(z, big.NewInt(int64(g.Intn(3)))), 0)
	case 4: // far away
		e := g.Intn(1 << 30)
		switch g.Intn(4) {
		case 0:
			e = g.Intn(40000)
		case 1, 2: // would be in range in a narrower integer
			e = 1 << uint(6+g.Intn(24))
			if v := g.near(f); v.k == "fin" && v.e > -30000 {
				if g.Intn(2) == 0 {
					e = -e
				}
				return mkrn(s, v.m, v.e+e)
			}
		}
		if g.Intn(2) == 0 {
			e = -e
		}
		return mkrn(s, new(big.Int).SetBit(g.pattern(1+g.Intn(200)), 0, 1), e)
	case 5: // a few bits anywhere in range
		e := g.Intn(80) - 40
		return mkrn(s, new(big.Int).SetBit(g.pattern(1+g.Intn(130)), 0, 1), e)
	case 6, 7: // numbers of other formats
		fs := []*format{fmt16, fmtBF, fmtF32, fmtF64, fmt80, fmt128, fmtDD}
		h := fs[g.Intn(len(fs))]
		for {
			if v := refDecode(h, g.raw(h)); v.k != "nan" {
				return v
			}
		}
	case 8, 9: // around other formats' boundaries
		fs := []*format{fmt16, fmtF32, fmtF64, fmt80, fmt128, fmtDD}
		return g.near(fs[g.Intn(len(fs))])
	case 10: // decimal fractions, as big.ParseFloat would give them
		z := new(big.Rat).SetFrac64(int64(g.Intn(100000)+1), int64(math.Pow10(g.Intn(9))))
		x := new(big.Float).SetPrec(uint(g.Intn(200) + 2)).SetRat(z)
		if s == 1 {
			x.Neg(x)
		}
		return rnOf(x)
	}
	return g.near(f)
}

// float wraps a number in a big.Float of some precision, mode and accuracy.
func (g *gen) float(r rn) *big.Float {
	n := r.num()
	min := 1
	if r.k == "fin" {
		min = r.m.BitLen() - int(r.m.TrailingZeroBits())
	}
	prec := min
	switch g.Intn(6) {
	case 0:
	case 1:
		prec = min + g.Intn(8)
	case 2:
		prec = min + g.Intn(300)
	case 3:
		prec = []int{11, 24, 53, 64, 106, 113}[g.Intn(6)]
	case 4:
		prec = []int{53, 64, 113, 200, 256, 1000, 2100}[g.Intn(7)]
	case 5:
		prec = 64 * (1 + g.Intn(12))
	}
	if prec < min {
		prec = min
	}
	if r.k != "fin" && g.Intn(8) == 0 {
		prec = 0
	}
	mode := big.ToNearestEven
	if g.Intn(2) == 0 {
		mode = big.RoundingMode(g.Intn(6))
	}
	acc := big.Exact
	if g.Intn(4) == 0 {
		acc = big.Accuracy(g.Intn(3) - 1)
	}
	if acc == big.Exact && !g.tame && g.Intn(24) == 0 { // more precision than fits in memory
		return mkFloat(n, hugePrec(g.Intn(1<<16)), mode, acc)
	}
	return mkFloat(n, uint(prec), mode, acc)
}

// hugePrec is a precision near the largest one.
func hugePrec(h int) uint {
	if h%4 == 0 {
		return big.MaxPrec - uint(h>>2)
	}
	return big.MaxPrec - uint(h>>2%130)
}

// number returns a big.Float aimed at format f, sometimes one used before.
func (g *gen) number(f *format) *big.Float {
	if len(g.nums) > 0 && g.Intn(16) == 0 {
		x := g.nums[g.Intn(len(g.nums))]
		switch g.Intn(5) {
		case 0, 1:
			return new(big.Float).Neg(x)
		case 2: // same mantissa
			if !x.IsInf() && x.Sign() != 0 && x.MantExp(nil) < 30000 && x.MantExp(nil) > -30000 {
				return new(big.Float).SetMantExp(x, g.Intn(200)-100)
			}
		case 3: // same leading bits
			if x.MinPrec() > 2 {
				y := new(big.Float).SetMode(big.ToZero).SetPrec(1 + uint(g.Intn(int(x.MinPrec()))))
				return y.Set(x)
			}
		}
		return x
	}
	x := g.float(g.anyNum(f))
	if g.Intn(128) == 0 && x.Sign() != 0 && !x.IsInf() { // at the ends of big.Float's range
		off := g.Intn(1 << uint(g.Intn(17)))
		e := big.MaxExp - off
		if g.Intn(2) == 0 {
			e = big.MinExp + off
		}
		withExp(x, e)
	}
	if len(g.nums) < 64 {
		g.nums = append(g.nums, x)
	} else {
		g.nums[g.Intn(64)] = x
	}
	return x
}

// nat64 returns a float64 argument aimed at format f.
func (g *gen) nat64(f *format) uint64 {
	switch g.Intn(4) {
	case 0:
		if f.w != 0 || f.p <= 53 {
			r := g.near(f)
			if r.k == "fin" {
				r = refRound(fmtF64, r)
			}
			return u64(refEncode(fmtF64, r))
		}
	case 1:
		if g.Intn(2) == 0 {
			return u64(g.raw(fmtF64))
		}
		r := g.anyNum(f)
		return u64(refEncode(fmtF64, refRound(fmtF64, r)))
	}
	return u64(g.raw(fmtF64))
}

func (g *gen) nat32(f *format) uint64 {
	if g.Intn(3) == 0 {
		r := g.near(f)
		if r.k == "fin" {
			r = refRound(fmtF32, r)
		}
		w := refEncode(fmtF32, r)
		return uint64(w[0]) | uint64(w[1])<<16
	}
	w := g.raw(fmtF32)
	return uint64(w[0]) | uint64(w[1])<<16
}

// rawFor returns an encoding of f that is interesting when narrowed to nf.
func (g *gen) rawFor(f, nf *format) limbs {
	if f.w != 0 && f.p < 24 || g.Intn(3) == 0 {
		return g.raw(f)
	}
	r := g.near(nf)
	if g.Intn(4) == 0 {
		r = g.anyNum(nf)
	}
	if r.k == "nan" {
		return g.raw(f)
	}
	return refEncode(f, refRound(f, r))
}

// shortInput returns a float64 whose rendering with the given size is
// interesting: few-digit decimals, powers of two, boundaries.
func (g *gen) textInput(size int) uint64 {
	if len(g.txts) > 0 && g.Intn(10) == 0 { // used before, maybe with another size or precision
		i := g.txts[g.Intn(len(g.txts))]
		switch g.Intn(6) {
		case 0: // other sign
			i ^= 1 << 63
		case 1: // same fraction
			i ^= uint64(1+g.Intn(2047)) << 52
		case 2: // same high bits
			i ^= 1 << uint(g.Intn(32))
		}
		return i
	}
	i := g.textFresh(size)
	if len(g.txts) < 64 {
		g.txts = append(g.txts, i)
	} else {
		g.txts[g.Intn(64)] = i
	}
	return i
}

func (g *gen) textFresh(size int) uint64 {
	nf := nativeFmt(size)
	conv := func(r rn) uint64 { return u64(refEncode(fmtF64, r)) }
	switch g.Intn(13) {
	case 12: // next to a rounding boundary j * 2^t * 10^k, 10^k about the size of an ulp
		k := g.Intn(map[int]int{16: 6, 32: 12, 64: 24}[size])
		t := k*2322/1000 + g.Intn(8) - 3
		c := new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(k)), nil)
		j := g.pattern(nf.p + 2 - c.BitLen())
		j.SetBit(j, 0, 1)
		c.Mul(c, j)
		if c.BitLen() != nf.p+1 || t+k+1+nf.p-1 > nf.bias() || t+k+1 < nf.qmin() {
			break
		}
		c.Rsh(c, 1)
		return conv(mkrn(g.Intn(2), c.Add(c, big.NewInt(int64(g.Intn(2)))), t+k+1))
	case 0, 1: // few-digit decimals
		m := g.Int63n(int64(math.Pow10(1 + g.Intn(17))))
		e := g.Intn(640) - 330
		switch size {
		case 16:
			m %= 100000
			e = g.Intn(16) - 11
		case 32:
			m %= 10000000000
			e = g.Intn(86) - 52
		}
		if g.Intn(2) == 0 {
			e %= 24
		}
		v, _ := gostrconv.ParseFloat(gostrconv.FormatInt(m, 10)+"e"+gostrconv.Itoa(e), 64)
		return conv(refRound(nf, rnOf2(v)))
	case 2: // powers of two and neighbours
		f := nf
		w := f.pack(g.Intn(2), 1+g.Intn(f.maxExp()-1), new(big.Int).SetBit(new(big.Int), f.p-1, 1))
		w[0] += uint16(g.Intn(3))
		if g.Intn(3) == 0 {
			w[0]--
		}
		r := refDecode(f, w)
		if r.k == "nan" {
			r.k = "inf"
		}
		return conv(r)
	case 3: // integers
		return math.Float64bits(float64(g.Int63n(1 << uint(1+g.Intn(62)))))
	case 4: // needs rounding to size first
		return u64(g.raw(fmtF64))
	}
	r := refDecode(nf, g.raw(nf))
	if r.k == "nan" {
		return math.Float64bits(math.NaN()) | uint64(r.s)<<63
	}
	return conv(r)
}

func rnOf2(v float64) rn {
	return refDecode(fmtF64, f64raw(v))
}

// exactInput aims at the exactness predicates.
func (g *gen) exactInput(size int) *big.Float {
	if g.Intn(5) == 0 { // keep exponents moderate: texts are rendered in full
		r := g.anyNum(nativeFmt(size))
		if r.k == "fin" && (r.e > 3000 || r.e < -3000) {
			r.e %= 2000
		}
		return g.float(r)
	}
	var r rn
	switch g.Intn(4) {
	case 0: // short decimals that are dyadic
		k := g.Intn(12)
		z := big.NewInt(g.Int63n(1 << uint(1+g.Intn(40))))
		r = mkrn(g.Intn(2), z, -k)
	case 1: // large integers with trailing zeros
		z := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(g.Intn(24))), nil)
		z.Mul(z, big.NewInt(int64(1+g.Intn(2000))))
		r = mkrn(g.Intn(2), z, 0)
	case 2:
		r = refDecode(nativeFmt(size), g.raw(nativeFmt(size)))
	default:
		r = rnOf2(math.Float64frombits(g.textInput(size)))
	}
	if r.k == "nan" {
		r = rn{k: "inf", s: r.s}
	}
	return g.float(r)
}
