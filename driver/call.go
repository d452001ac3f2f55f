package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"runtime"
	gostrconv "strconv"
	"strings"

	float "github.com/mewmew/float"
	"github.com/mewmew/float/internal/strconv"
)

// call is one observation of the library: an operation and its arguments.
// Run executes it and renders the event the specification judges.
type call struct {
	op    string
	f     *format
	w     limbs      // raw encoding argument
	w2    limbs      // second raw encoding (dord)
	x     *big.Float // number argument
	y     *big.Float // second number (ord)
	i     uint64     // native argument, as bits
	i2    uint64     // second native argument (eo64, eo32)
	n     int        // size: 16, 32, 64
	fm    byte
	prec  int
	neg   bool
	mag   uint64
	b     int
	v     string // variant / constant name
	pre   []byte
	spare int
	buf   []byte // the destination
	was   []byte // all of its array before the call
	hops  []*format
	again func(j *jb) // records the results once more, from what the call returned
	cat   string      // generator category, for stratification only
}

// arg renders the arguments.
func (c *call) arg() *jb {
	j := obj().str("op", c.op)
	if gostrconv.IntSize == 32 {
		j.str("arch", runtime.GOARCH)
	}
	if c.f != nil {
		j.str("f", c.f.name)
	}
	numArg := func(k string, x *big.Float) {
		n := project(x)
		if t := n.e; n.far() {
			j.int(k+"t", t)
		}
		p := x.Prec()
		if p > maxEventPrec { // TLC's integers end at 2^31
			j.int(k+"q", int(big.MaxPrec-p))
			p = maxEventPrec
		}
		j.num(k, n).int(k+"p", int(p)).int(k+"m", int(x.Mode())).int(k+"a", int(x.Acc()))
	}
	switch c.op {
	case "dec", "bits", "fld", "isn", "n64", "n32", "rt":
		j.raw("w", c.w)
	case "dord", "no64", "no32":
		j.raw("w", c.w).raw("w2", c.w2)
	case "eo64":
		j.raw("i", limbs64(c.i)).raw("i2", limbs64(c.i2))
	case "eo32":
		j.raw("i", limbs32(uint32(c.i))).raw("i2", limbs32(uint32(c.i2)))
	case "enc", "sym":
		numArg("x", c.x)
	case "ord":
		numArg("x", c.x)
		numArg("y", c.y)
	case "e64", "nrt64":
		j.raw("i", limbs64(c.i))
	case "e32", "nrt32":
		j.raw("i", limbs32(uint32(c.i)))
	case "con":
		j.str("c", c.v)
	case "isx":
		j.int("n", c.n)
		numArg("x", c.x)
	case "ff", "appf":
		j.raw("i", limbs64(c.i)).int("fm", int(c.fm)).int("prec", c.prec).int("n", c.n)
	case "fi", "appi":
		j.bool("neg", c.neg).raw("m", limbsOfInt(new(big.Int).SetUint64(c.mag))).int("b", c.b).str("v", c.v)
	case "mig":
		j.raw("w", c.w).key("hops")
		j.b = append(j.b, '[')
		for i, h := range c.hops {
			if i > 0 {
				j.b = append(j.b, ',')
			}
			j.b = gostrconv.AppendQuote(j.b, h.name)
		}
		j.b = append(j.b, ']')
	default:
		panic("op " + c.op)
	}
	if c.op == "appf" || c.op == "appi" {
		j.text("pre", string(c.pre)).int("spare", c.spare)
	}
	return j
}

type panicked struct{ v interface{} }

// run executes the call. ok reports whether the screening oracle agrees.
func (c *call) run() (ev []byte, ok, returned bool) {
	_, ev, ok, returned = c.runOwn()
	return ev, ok, returned
}

// runOwn executes a copy of the call, which keeps the results.
func (c *call) runOwn() (own *call, ev []byte, ok, returned bool) {
	d := *c // calls may be shared between goroutines
	c = &d
	j, ok, p := c.try()
	if p != nil {
		e := c.arg()
		if c.op == "appf" || c.op == "appi" {
			e.text("t", string(c.buf)).int("spoilt", spoilt(c.buf, c.was, len(c.buf)))
		}
		e.str("o", "panic").str("why", fmt.Sprint(p.v))
		return c, e.done(), c.refused() && spoilt(c.buf, c.was, len(c.buf)) == 0, c.refused()
	}
	return c, j.done(), ok && !c.refused(), true
}

// refused: is the size or the base one that does not exist?
func (c *call) refused() bool {
	switch c.op {
	case "ff", "appf":
		return c.n != 16 && c.n != 32 && c.n != 64
	case "fi", "appi":
		return c.b < 2 || c.b > 36
	}
	return false
}

func (c *call) try() (j *jb, ok bool, p *panicked) {
	j = c.arg()
	defer func() {
		if r := recover(); r != nil {
			p = &panicked{r}
		}
	}()
	ok = c.do(j)
	j.str("o", "ok")
	return j, ok, nil
}

func (c *call) do(j *jb) bool {
	f := c.f
	switch c.op {
	case "dec":
		x, nan := f.mk(c.w).Big()
		n := project(x)
		j.num("x", n).bool("nan", nan).int("p", int(x.Prec()&(1<<31-1))).int("md", int(x.Mode()))
		c.again = func(j *jb) {
			j.num("x", project(x)).bool("nan", nan).int("p", int(x.Prec()&(1<<31-1))).int("md", int(x.Mode()))
		}
		return okDec(f, c.w, n, nan, x)
	case "enc":
		v, acc := f.enc(c.x)
		w := f.raw(v)
		j.raw("w", w).int("acc", int(acc))
		c.again = func(j *jb) { j.raw("w", f.raw(v)).int("acc", int(acc)) }
		return okEnc(f, rnOf(c.x), w, acc)
	case "e64":
		v, acc := f.e64(math.Float64frombits(c.i))
		w := f.raw(v)
		j.raw("w", w).int("acc", int(acc))
		return okFromNative(f, fmtF64, limbs64(c.i), w, acc)
	case "e32":
		v, acc := f.e32(math.Float32frombits(uint32(c.i)))
		w := f.raw(v)
		j.raw("w", w).int("acc", int(acc))
		return okFromNative(f, fmtF32, limbs32(uint32(c.i)), w, acc)
	case "n64":
		r, acc := f.mk(c.w).(native).Float64()
		j.raw("r", f64raw(r)).int("acc", int(acc))
		return okToNative(f, fmtF64, c.w, f64raw(r), acc)
	case "n32":
		r, acc := f.mk(c.w).(native).Float32()
		j.raw("r", f32raw(r)).int("acc", int(acc))
		return okToNative(f, fmtF32, c.w, f32raw(r), acc)
	case "bits":
		r := f.raw(f.mk(c.w))
		j.raw("r", r)
		return r.equal(c.w)
	case "isn":
		r := f.isn(f.mk(c.w))
		j.bool("r", r)
		return r == (refDecode(f, c.w).k == "nan")
	case "fld":
		sg, ex, fr, ld := f.fld(f.mk(c.w))
		j.bool("sg", sg).int("ex", ex).raw("fr", fr).int("ld", ld)
		return okFld(f, c.w, sg, ex, fr, ld)
	case "con":
		w := f.raw(f.con()[c.v])
		j.raw("w", w)
		return okCon(f, c.v, w)
	case "isx":
		var r bool
		switch c.n {
		case 16:
			r = float.IsExact16(c.x)
		case 32:
			r = float.IsExact32(c.x)
		default:
			r = float.IsExact64(c.x)
		}
		j.bool("r", r)
		c.again = func(j *jb) { j.bool("r", r) }
		return r == refIsExact(c.n, c.x)
	case "ff":
		t := c.float()
		j.text("t", t)
		c.again = func(j *jb) { j.text("t", t) }
		return okText(c, t)
	case "appf":
		dst := c.dst()
		out := c.appendFloat(dst)
		n := spoilt(dst, c.was, len(out))
		j.text("t", string(out)).int("spoilt", n)
		c.again = func(j *jb) { j.text("t", string(out)).int("spoilt", spoilt(dst, c.was, len(out))) }
		return n == 0 && len(out) >= len(c.pre) && string(out[:len(c.pre)]) == string(c.pre) &&
			okText(c, string(out[len(c.pre):]))
	case "fi":
		t := c.int()
		j.text("t", t)
		c.again = func(j *jb) { j.text("t", t) }
		return t == c.refInt()
	case "appi":
		dst := c.dst()
		out := c.appendInt(dst)
		n := spoilt(dst, c.was, len(out))
		j.text("t", string(out)).int("spoilt", n)
		c.again = func(j *jb) { j.text("t", string(out)).int("spoilt", spoilt(dst, c.was, len(out))) }
		return n == 0 && string(out) == string(c.pre)+c.refInt()
	case "rt": // decode, then encode again
		x, nan := f.mk(c.w).Big()
		n := project(x)
		j.num("x", n).bool("nan", nan)
		if nan {
			return refDecode(f, c.w).k == "nan"
		}
		v, acc := f.enc(x)
		w := f.raw(v)
		j.raw("r", w).int("acc", int(acc))
		d := refDecode(f, c.w)
		return d.k != "nan" && n.equal(d.num()) && sameRaw(f, w, refEncode(f, d)) && int(acc) == refCmp(refDecode(f, w), d)
	case "nrt64": // native to format and back
		v, acc := f.e64(math.Float64frombits(c.i))
		r, acc2 := v.(native).Float64()
		j.raw("w", f.raw(v)).int("acc", int(acc)).raw("r", f64raw(r)).int("acc2", int(acc2))
		return okNrt(f, fmtF64, limbs64(c.i), f.raw(v), acc, f64raw(r), acc2)
	case "nrt32":
		v, acc := f.e32(math.Float32frombits(uint32(c.i)))
		r, acc2 := v.(native).Float32()
		j.raw("w", f.raw(v)).int("acc", int(acc)).raw("r", f32raw(r)).int("acc2", int(acc2))
		return okNrt(f, fmtF32, limbs32(uint32(c.i)), f.raw(v), acc, f32raw(r), acc2)
	case "ord":
		v1, _ := f.enc(c.x)
		v2, _ := f.enc(c.y)
		j.raw("w", f.raw(v1)).raw("w2", f.raw(v2))
		d1, d2 := refDecode(f, f.raw(v1)), refDecode(f, f.raw(v2))
		if d1.k == "nan" || d2.k == "nan" {
			return false
		}
		switch c.x.Cmp(c.y) {
		case -1:
			return refCmp(d1, d2) <= 0
		case 1:
			return refCmp(d1, d2) >= 0
		}
		return refCmp(d1, d2) == 0
	case "sym":
		y := new(big.Float).Neg(c.x)
		v1, a1 := f.enc(c.x)
		v2, a2 := f.enc(y)
		j.raw("w", f.raw(v1)).int("acc", int(a1)).raw("w2", f.raw(v2)).int("acc2", int(a2))
		d1, d2 := refDecode(f, f.raw(v1)), refDecode(f, f.raw(v2))
		return d1.k != "nan" && d1.num().equal(rneg(d2).num()) && a1 == -a2
	case "dord":
		x, n1 := f.mk(c.w).Big()
		y, n2 := f.mk(c.w2).Big()
		j.num("x", project(x)).bool("nan", n1).num("y", project(y)).bool("nan2", n2)
		d1, d2 := refDecode(f, c.w), refDecode(f, c.w2)
		if n1 != (d1.k == "nan") || n2 != (d2.k == "nan") {
			return false
		}
		return n1 || n2 || x.Cmp(y) == refCmp(d1, d2)
	case "eo64", "eo32": // two native floats, and the first one negated
		var v [3]value
		var acc [3]big.Accuracy
		nf := fmtF64
		rn := [3]rn{}
		if c.op == "eo64" {
			for k, x := range []float64{math.Float64frombits(c.i), math.Float64frombits(c.i2), math.Float64frombits(c.i ^ 1<<63)} {
				r, a := f.e64(x)
				v[k], acc[k] = r, a
			}
			rn[0], rn[1] = refDecode(nf, limbs64(c.i)), refDecode(nf, limbs64(c.i2))
		} else {
			nf = fmtF32
			for k, x := range []uint32{uint32(c.i), uint32(c.i2), uint32(c.i) ^ 1<<31} {
				r, a := f.e32(math.Float32frombits(x))
				v[k], acc[k] = r, a
			}
			rn[0], rn[1] = refDecode(nf, limbs32(uint32(c.i))), refDecode(nf, limbs32(uint32(c.i2)))
		}
		j.raw("w", f.raw(v[0])).int("acc", int(acc[0])).raw("w2", f.raw(v[1])).raw("w3", f.raw(v[2])).int("acc3", int(acc[2]))
		return okOrder(rn[0], rn[1], refDecode(f, f.raw(v[0])), refDecode(f, f.raw(v[1]))) &&
			okNeg(refDecode(f, f.raw(v[0])), refDecode(f, f.raw(v[2]))) && acc[0] == -acc[2]
	case "no64", "no32": // two encodings, and the first one negated
		var r [3]limbs
		var acc [3]big.Accuracy
		nf := fmtF64
		for k, w := range []limbs{c.w, c.w2, negRaw(f, c.w)} {
			v := f.mk(w).(native)
			if c.op == "no64" {
				x, a := v.Float64()
				r[k], acc[k] = f64raw(x), a
			} else {
				nf = fmtF32
				x, a := v.Float32()
				r[k], acc[k] = f32raw(x), a
			}
		}
		j.raw("r", r[0]).int("acc", int(acc[0])).raw("r2", r[1]).raw("r3", r[2]).int("acc3", int(acc[2]))
		return okOrder(refDecode(f, c.w), refDecode(f, c.w2), refDecode(nf, r[0]), refDecode(nf, r[1])) &&
			okNeg(refDecode(nf, r[0]), refDecode(nf, r[2])) && acc[0] == -acc[2]
	case "mig":
		return c.migrate(j)
	}
	panic("op " + c.op)
}

// negRaw negates an encoding; a pair by negating both halves.
func negRaw(f *format, w limbs) limbs {
	u := append(limbs{}, w...)
	u[len(u)-1] ^= 0x8000
	if f == fmtDD {
		u[3] ^= 0x8000
	}
	return u
}

func okOrder(x, y, a, b rn) bool {
	if x.k == "nan" || y.k == "nan" {
		return true
	}
	if a.k == "nan" || b.k == "nan" {
		return false
	}
	o, r := refCmp(x, y), refCmp(a, b)
	return r == 0 || r == o
}

func okNeg(a, b rn) bool {
	if a.k == "nan" || b.k == "nan" {
		return a.k == b.k && a.s != b.s
	}
	return a.num().equal(rneg(b).num())
}

// migrate carries a value from format to format through its big-number form.
func (c *call) migrate(j *jb) bool {
	v := c.f.mk(c.w)
	want := refDecode(c.f, c.w)
	ok := true
	j.key("ws")
	j.b = append(j.b, '[')
	var accs []int
	for i, h := range c.hops {
		if i > 0 {
			j.b = append(j.b, ',')
		}
		x, nan := v.Big()
		if nan {
			panic("mig: NaN")
		}
		var acc big.Accuracy
		v, acc = h.enc(x)
		w := h.raw(v)
		j.b = appendLimbs(j.b, w)
		accs = append(accs, int(acc))
		ok = ok && sameRaw(h, w, refEncode(h, want))
		want = refRound(h, want)
	}
	j.b = append(j.b, ']')
	j.key("accs")
	j.b = append(j.b, '[')
	for i, a := range accs {
		if i > 0 {
			j.b = append(j.b, ',')
		}
		j.b = gostrconv.AppendInt(j.b, int64(a), 10)
	}
	j.b = append(j.b, ']')
	return ok
}

func (c *call) float() string {
	return strconv.FormatFloat(math.Float64frombits(c.i), c.fm, c.prec, c.n)
}

func (c *call) appendFloat(dst []byte) []byte {
	return strconv.AppendFloat(dst, math.Float64frombits(c.i), c.fm, c.prec, c.n)
}

func (c *call) int() string {
	switch c.v {
	case "Itoa":
		if n := c.signed(); int64(int(n)) == n {
			return strconv.Itoa(int(n))
		} // no int here
		return strconv.FormatInt(c.signed(), 10)
	case "FormatUint":
		return strconv.FormatUint(c.mag, c.b)
	}
	return strconv.FormatInt(c.signed(), c.b)
}

func (c *call) appendInt(dst []byte) []byte {
	if c.v == "AppendUint" {
		return strconv.AppendUint(dst, c.mag, c.b)
	}
	return strconv.AppendInt(dst, c.signed(), c.b)
}

func (c *call) dst() []byte {
	if c.spare < 0 { // no destination
		return nil
	}
	d := make([]byte, len(c.pre), len(c.pre)+c.spare)
	copy(d, c.pre)
	c.buf, c.was = d, litter(d)
	return d
}

// litter fills the room behind a destination, which may be anybody's, and
// returns all there is in its array now.
func litter(d []byte) []byte {
	all := d[:cap(d)]
	for i := len(d); i < len(all); i++ {
		all[i] = byte(i*37 + 11)
	}
	return append([]byte(nil), all...)
}

// spoilt counts the changes to a destination's array outside the place of the
// text; n is the length of destination and text.
func spoilt(d, was []byte, n int) int {
	k := 0
	for i, b := range d[:cap(d)] {
		if b != was[i] && (i < len(d) || i >= n) {
			k++
		}
	}
	return k
}

func (c *call) signed() int64 {
	if c.neg {
		return int64(-c.mag)
	}
	return int64(c.mag)
}

func (c *call) refInt() string {
	if c.refused() { // no base
		return ""
	}
	s := gostrconv.FormatUint(c.mag, c.b)
	if c.neg {
		s = "-" + s
	}
	return s
}

// -- screening ---------------------------------------------------------------

func okDec(f *format, w limbs, n num, nan bool, x *big.Float) bool {
	d := refDecode(f, w)
	if (d.k == "nan") != nan {
		return false
	}
	if nan {
		d = rn{k: "zero", s: d.s}
	}
	if !n.equal(d.num()) || x.Mode() != big.ToNearestEven {
		return false
	}
	if f.w == 0 {
		return x.Prec() >= 106
	}
	return x.Prec() == uint(f.p)
}

func okEnc(f *format, x rn, w limbs, acc big.Accuracy) bool {
	if !sameRaw(f, w, refEncode(f, x)) {
		return false
	}
	return int(acc) == refCmp(refDecode(f, w), x)
}

func okFromNative(f, nf *format, i, w limbs, acc big.Accuracy) bool {
	d := refDecode(nf, i)
	if d.k == "nan" {
		v := refDecode(f, w)
		return v.k == "nan" && v.s == d.s && acc == 0
	}
	return okEnc(f, d, w, acc)
}

func okToNative(f, nf *format, w, r limbs, acc big.Accuracy) bool {
	d := refDecode(f, w)
	if d.k == "nan" {
		v := refDecode(nf, r)
		return v.k == "nan" && v.s == d.s && acc == 0
	}
	return okEnc(nf, d, r, acc)
}

func okNrt(f, nf *format, i, w limbs, acc big.Accuracy, r limbs, acc2 big.Accuracy) bool {
	return okFromNative(f, nf, i, w, acc) && okToNative(f, nf, w, r, acc2)
}

func okFld(f *format, w limbs, sg bool, ex int, fr limbs, ld int) bool {
	s, eb, m := f.fields(w)
	l := 0
	if f.lead {
		l = int(m.Bit(63))
		m.SetBit(m, 63, 0)
	}
	return sgn(sg) == s && ex == eb && ld == l && intOfLimbs(fr).Cmp(m) == 0
}

func okCon(f *format, name string, w limbs) bool {
	d := refDecode(f, w)
	k := map[string]rn{
		"NaN": {k: "nan"}, "NegNaN": {k: "nan", s: 1}, "Inf": {k: "inf"}, "NegInf": {k: "inf", s: 1},
		"Zero": {k: "zero"}, "NegZero": {k: "zero", s: 1},
	}[name]
	return d.k == k.k && d.s == k.s
}

// refText is the expected text by other means (the standard library works on
// the exact float64 value; 16-bit shortest output is searched for).
func refText(size int, v float64, fm byte, prec int) string {
	switch size {
	case 64:
		return gostrconv.FormatFloat(v, fm, prec, 64)
	case 32:
		return gostrconv.FormatFloat(v, fm, prec, 32)
	}
	if math.IsNaN(v) {
		return "NaN"
	}
	r := refEncode(fmt16, rnOf(big.NewFloat(v)))
	d := refDecode(fmt16, r)
	if d.k == "inf" {
		return [2]string{"+Inf", "-Inf"}[d.s]
	}
	if fm == 'b' {
		_, eb, fr := fmt16.fields(r)
		q := fmt16.qmin()
		if eb > 0 {
			q += eb - 1
			fr.SetBit(fr, 10, 1)
		}
		return [2]string{"", "-"}[d.s] + fr.String() + "p" + fmt.Sprintf("%+d", q)
	}
	g := toF64(d)
	if prec >= 0 || d.k == "zero" {
		return gostrconv.FormatFloat(g, fm, prec, 64)
	}
	digits := 0
search:
	for n := 0; n < 20; n++ {
		s := gostrconv.FormatFloat(math.Abs(g), 'e', n, 64)
		ep := strings.IndexByte(s, 'e')
		m, _ := gostrconv.ParseInt(strings.Replace(s[:ep], ".", "", 1), 10, 64)
		ex, _ := gostrconv.Atoi(s[ep+1:])
		for _, o := range []int64{0, 1, -1} {
			back, _ := gostrconv.ParseFloat(fmt.Sprintf("%de%d", m+o, ex-n), 64)
			back = math.Copysign(back, g)
			if refEncode(fmt16, rnOf(big.NewFloat(back))).equal(r) {
				g, digits = back, n
				break search
			}
		}
	}
	switch fm {
	case 'e', 'E':
		return gostrconv.FormatFloat(g, fm, digits, 64)
	}
	// g now is the float64 nearest to the shortest decimal
	return gostrconv.FormatFloat(g, fm, -1, 64)
}

func okText(c *call, t string) bool {
	if c.refused() {
		return false
	}
	v := math.Float64frombits(c.i)
	switch c.fm {
	case 'e', 'E', 'f', 'g', 'G', 'b':
		prec := c.prec
		if prec < 0 {
			prec = -1
		}
		return t == refText(c.n, v, c.fm, prec)
	}
	if e := refText(c.n, v, 'e', -1); e[len(e)-1] == 'f' || e[len(e)-1] == 'N' { // Inf, NaN
		return t == e
	}
	return t == string([]byte{'%', c.fm})
}

func toF64(r rn) float64 {
	if r.k == "nan" {
		return math.NaN()
	}
	w := refEncode(fmtF64, r)
	return math.Float64frombits(u64(w))
}

// refIsExact: representable, and the shortest decimal denotes it exactly.
func refIsExact(size int, x *big.Float) bool {
	r := rnOf(x)
	if r.k != "fin" {
		return true
	}
	nf := nativeFmt(size)
	if refCmp(refRound(nf, r), r) != 0 {
		return false
	}
	v := toF64(r)
	s := refText(size, v, 'e', -1)
	q, ok := new(big.Rat).SetString(s)
	if !ok {
		return false
	}
	e, _ := x.Rat(nil)
	return q.Cmp(e) == 0
}

// -- replay ------------------------------------------------------------------

type jnum struct {
	K string `json:"k"`
	S int    `json:"s"`
	M limbs  `json:"m"`
	E int    `json:"e"`
}

type jcall struct {
	Op, F          string
	W, W2, I, I2   limbs
	M              limbs
	X, Y           jnum
	Xp, Xm, Xa     int
	Yp, Ym, Ya     int
	Xt, Yt         int
	Xq, Yq         int
	N, Fm, Prec, B int
	Neg            bool
	V, C           string
	Pre            []int
	Spare          int
	Hops           []string
}

func u64any(l limbs) uint64 {
	var v uint64
	for i := len(l) - 1; i >= 0; i-- {
		v = v<<16 | uint64(l[i])
	}
	return v
}

// maxEventPrec stands for the precisions from there to big.MaxPrec.
const maxEventPrec = 1 << 30

// parseCall rebuilds a call from its event.
func parseCall(b []byte) (*call, error) {
	var j jcall
	if err := json.Unmarshal(b, &j); err != nil {
		return nil, err
	}
	c := &call{op: j.Op, f: fmtByName(j.F), w: j.W, w2: j.W2, i: u64any(j.I), i2: u64any(j.I2), n: j.N,
		fm: byte(j.Fm), prec: j.Prec, neg: j.Neg, mag: u64any(j.M), b: j.B, v: j.V, spare: j.Spare}
	if j.Op == "con" {
		c.v = j.C
	}
	for _, p := range j.Pre {
		c.pre = append(c.pre, byte(p))
	}
	for _, h := range j.Hops {
		c.hops = append(c.hops, fmtByName(h))
	}
	mk := func(n jnum, t, q, p, m, a int) *big.Float {
		if t != 0 {
			n.E = t
		}
		prec := uint(p)
		if p == maxEventPrec {
			prec = big.MaxPrec - uint(q)
		}
		return mkFloat(num{k: n.K, s: n.S, m: n.M, e: n.E}, prec, big.RoundingMode(m), big.Accuracy(a))
	}
	switch j.Op {
	case "enc", "sym", "ord", "isx":
		c.x = mk(j.X, j.Xt, j.Xq, j.Xp, j.Xm, j.Xa)
	}
	if j.Op == "ord" {
		c.y = mk(j.Y, j.Yt, j.Yq, j.Yp, j.Ym, j.Ya)
	}
	return c, nil
}
