package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"runtime"
	gostrconv "strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	float "github.com/mewmew/float"
)

// A history is a sequence of steps over big.Float registers and format values
// held by one client (goroutine). The observed state -- every register, every
// value -- is logged after every step, for HistTrace.tla.

type step struct {
	A  string `json:"a"`
	R  int    `json:"r"`  // register, 1-based
	R2 int    `json:"r2"` // second register (mutations)
	V  int    `json:"v"`  // value, 1-based
	F  string `json:"f"`
	W  limbs  `json:"w"`
	X  jnum   `json:"x"`
	P  int    `json:"p"`
	Md int    `json:"md"`
	I  limbs  `json:"i"`
	N  int    `json:"n"`
	Fm int    `json:"fm"`
	Pr int    `json:"prec"`
	M  string `json:"m"`  // kind of mutation
	D  int    `json:"d"`  // text, 1-based
	Sr int    `json:"sr"` // text appended to
	T  []int  `json:"t"`  // contents of a text
	Ng bool   `json:"neg"`
	U  limbs  `json:"u"` // magnitude of an integer
	B  int    `json:"b"`
	Vr string `json:"vr"` // name of the function
	c  *call  // any other call
}

type history struct {
	Steps []step `json:"steps"`
}

const (
	nRegs = 3
	nVals = 3
	nTxts = 2
)

// text is a string, or a byte slice the client may write and append to.
type text struct {
	s string
	b []byte
}

func (t *text) contents() string {
	if t.b != nil {
		return string(t.b)
	}
	return t.s
}

// own makes sure the text is a slice.
func (t *text) own() {
	if t.b == nil {
		t.b = append(make([]byte, 0, len(t.s)+3), t.s...)
	}
}

type client struct {
	reg [nRegs + 1]*big.Float // the last one is shared between clients, never written by them
	val [nVals + 1]value
	vf  [nVals + 1]*format
	txt [nTxts + 1]*text // the last one is shared, and has no room to append
}

type shared struct {
	x *big.Float
	v value
	f *format
	t *text
}

func newClient(sh shared) *client {
	c := &client{}
	for i := 0; i < nRegs; i++ {
		c.reg[i] = new(big.Float).SetPrec(53)
	}
	for i := 0; i < nVals; i++ {
		c.vf[i] = fmt16
		c.val[i] = fmt16.mk(limbs{0})
	}
	for i := 0; i < nTxts; i++ {
		c.txt[i] = &text{}
	}
	c.reg[nRegs], c.val[nVals], c.vf[nVals], c.txt[nTxts] = sh.x, sh.v, sh.f, sh.t
	return c
}

func (c *client) state(j *jb) {
	j.key("reg")
	j.b = append(j.b, '[')
	for i, x := range c.reg {
		if i > 0 {
			j.b = append(j.b, ',')
		}
		o := obj().num("x", project(x)).int("p", int(x.Prec())).int("md", int(x.Mode())).int("ac", int(x.Acc()))
		j.b = append(j.b, o.done()...)
	}
	j.b = append(j.b, ']')
	j.key("val")
	j.b = append(j.b, '[')
	for i, v := range c.val {
		if i > 0 {
			j.b = append(j.b, ',')
		}
		o := obj().str("f", c.vf[i].name).raw("w", c.vf[i].raw(v))
		j.b = append(j.b, o.done()...)
	}
	j.b = append(j.b, ']')
	j.key("txt")
	j.b = append(j.b, '[')
	for i, t := range c.txt {
		if i > 0 {
			j.b = append(j.b, ',')
		}
		j.bytes(t.contents())
	}
	j.b = append(j.b, ']')
}

// do executes one step and renders its event.
func (c *client) do(s step) (ev []byte, ok bool) {
	j := obj().str("a", s.A)
	r, v := s.R-1, s.V-1
	defer func() {
		if p := recover(); p != nil {
			e := obj().str("a", s.A).str("o", "panic").str("why", fmt.Sprint(p))
			if b, err := json.Marshal(s); err == nil {
				e.json("s", bytes.Replace(b, []byte("null"), []byte("[]"), -1))
			}
			if s.c != nil {
				e.json("c", s.c.arg().done())
			}
			c.state(e)
			ev, ok = e.done(), false
		}
	}()
	switch s.A {
	case "setreg":
		n := num{k: s.X.K, s: s.X.S, m: s.X.M, e: s.X.E}
		c.reg[r] = mkFloat(n, uint(s.P), big.RoundingMode(s.Md), 0)
		j.int("r", s.R).num("x", project(c.reg[r])).int("p", int(c.reg[r].Prec())).int("md", int(c.reg[r].Mode())).int("ac", int(c.reg[r].Acc()))
	case "mutreg":
		c.mutate(s)
		j.int("r", s.R).num("x", project(c.reg[r])).int("p", int(c.reg[r].Prec())).int("md", int(c.reg[r].Mode())).int("ac", int(c.reg[r].Acc()))
	case "setval":
		f := fmtByName(s.F)
		c.val[v], c.vf[v] = f.mk(s.W), f
		j.int("v", s.V).str("f", s.F).raw("w", s.W)
	case "dec":
		x, nan := c.val[v].Big()
		c.reg[r] = x
		j.int("v", s.V).int("r", s.R).bool("nan", nan)
	case "enc":
		f := fmtByName(s.F)
		y, acc := f.enc(c.reg[r])
		c.val[v], c.vf[v] = y, f
		j.int("r", s.R).int("v", s.V).str("f", s.F).int("acc", int(acc))
	case "e64":
		f := fmtByName(s.F)
		y, acc := f.e64(math.Float64frombits(u64any(s.I)))
		c.val[v], c.vf[v] = y, f
		j.raw("i", s.I).int("v", s.V).str("f", s.F).int("acc", int(acc))
	case "e32":
		f := fmtByName(s.F)
		y, acc := f.e32(math.Float32frombits(uint32(u64any(s.I))))
		c.val[v], c.vf[v] = y, f
		j.raw("i", s.I).int("v", s.V).str("f", s.F).int("acc", int(acc))
	case "n64":
		if nt, ok := c.val[v].(native); ok {
			y, acc := nt.Float64()
			j.int("v", s.V).raw("q", f64raw(y)).int("acc", int(acc))
		} else {
			return nil, true
		}
	case "n32":
		if nt, ok := c.val[v].(native); ok {
			y, acc := nt.Float32()
			j.int("v", s.V).raw("q", f32raw(y)).int("acc", int(acc))
		} else {
			return nil, true
		}
	case "isx":
		var y bool
		switch s.N {
		case 16:
			y = float.IsExact16(c.reg[r])
		case 32:
			y = float.IsExact32(c.reg[r])
		default:
			y = float.IsExact64(c.reg[r])
		}
		j.int("r", s.R).int("n", s.N).bool("q", y)
	case "call":
		e, _, _ := s.c.run()
		j.key("c")
		j.b = append(j.b, e...)
	case "settxt":
		c.write(s)
		j.int("d", s.D).text("t", c.txt[s.D-1].contents())
	case "bad":
		t := s
		t.A = s.M
		e := t.text()
		j.int("sr", s.Sr).json("c", c.bad(e, c.txt[s.Sr-1]))
	case "ff", "fi", "appf", "appi":
		d := c.txt[s.D-1]
		e := s.text()
		ce := e.arg().text("t", "").text("pre", "")
		switch s.A {
		case "ff":
			*d = text{s: e.float()}
		case "fi":
			*d = text{s: e.int()}
		default:
			from := c.txt[s.Sr-1]
			j.int("sr", s.Sr)
			dst, was := from.b, []byte(nil)
			if s.Sr <= nTxts {
				if s.M != "nil" || from.contents() != "" {
					from.own()
				}
				dst = from.b
				if s.Sr != s.D { // a copy: what is shared by two texts is the client's own doing
					dst = append(make([]byte, 0, len(dst)+s.P%40), dst...)
					was = litter(dst)
				}
			}
			in := dst
			if s.A == "appf" {
				dst = e.appendFloat(dst)
			} else {
				dst = e.appendInt(dst)
			}
			if was != nil {
				ce.int("spoilt", spoilt(in, was, len(dst)))
			} else {
				ce.int("spoilt", 0)
			}
			if dst == nil {
				dst = []byte{}
			}
			*d = text{b: dst}
		}
		j.json("c", ce.done()).int("d", s.D)
	default:
		fatal(fmt.Errorf("step %q", s.A))
	}
	j.str("o", "ok")
	c.state(j)
	return j.done(), true
}

// mutate changes a register in place, as a client may do with its own number.
func (c *client) mutate(s step) {
	x, y := c.reg[s.R-1], c.reg[s.R2-1]
	if x.Prec() == 0 {
		x.SetPrec(53)
	}
	switch s.M {
	case "neg":
		x.Neg(x)
	case "add":
		if !x.IsInf() && !y.IsInf() && near(x) && near(y) {
			x.Add(x, y)
		}
	case "double":
		if !x.IsInf() {
			x.Add(x, x)
		}
	case "set":
		x.Set(y)
	case "prec":
		x.SetPrec(uint(s.P))
	case "mode":
		x.SetMode(big.RoundingMode(s.Md))
	case "int":
		x.SetInt64(int64(s.P) * 3)
	case "inf":
		x.SetInf(s.P%2 == 0)
	case "bit":
		toggle(x, s.P)
	default:
		x.SetUint64(uint64(s.P))
	}
}

// toggle changes one bit of a number, k below the leading one: neither sign nor
// exponent tells.
func toggle(x *big.Float, k int) {
	if x.Sign() == 0 || x.IsInf() || k < 1 || uint(k) >= x.Prec() {
		return
	}
	mant := new(big.Float)
	exp := x.MantExp(mant)
	z, _ := mant.Abs(mant).SetMantExp(mant, k+1).Int(nil)
	d := new(big.Float).SetMantExp(big.NewFloat(1), exp-1-k)
	if (z.Bit(0) == 1) != x.Signbit() {
		d.Neg(d)
	}
	x.Set(d.SetPrec(x.Prec()).Add(x, d)) // in place, the mantissa too
}

// bad makes a call that has to be refused.
func (c *client) bad(e *call, from *text) (ev []byte) {
	defer func() {
		if recover() != nil {
			ev = e.arg().str("o", "panic").done()
		}
	}()
	switch e.op {
	case "ff":
		e.float()
	case "fi":
		e.int()
	case "appf":
		e.appendFloat(from.b)
	default:
		e.appendInt(from.b)
	}
	return e.arg().str("o", "ok").done()
}

// write changes a text in place, as a client may do with what is its own.
func (c *client) write(s step) {
	t := c.txt[s.D-1]
	switch s.M {
	case "flip":
		t.own()
		for i := range t.b {
			t.b[i] ^= byte(s.P)
		}
	case "cut":
		t.own()
		t.b = t.b[:len(t.b)-len(t.b)*(s.P%4)/3]
	case "grow":
		t.own()
		for i := 0; i < 1+s.P%5; i++ {
			t.b = append(t.b, byte(s.P+i))
		}
	default:
		t.b = make([]byte, len(s.T), len(s.T)+s.P%80)
		for i := range t.b {
			t.b[i] = byte(s.T[i])
		}
	}
}

var writings = []string{"flip", "cut", "grow", "new"}

// text is the formatting call of a step.
func (s *step) text() *call {
	switch s.A {
	case "ff", "appf":
		return &call{op: s.A, i: u64any(s.I), fm: byte(s.Fm), prec: s.Pr, n: s.N}
	}
	return &call{op: s.A, neg: s.Ng, mag: u64any(s.U), b: s.B, v: s.Vr}
}

// near keeps sums of far-apart numbers from growing without bound.
func near(x *big.Float) bool {
	e := x.MantExp(nil)
	return e > -20000 && e < 20000
}

var mutations = []string{"neg", "add", "double", "set", "prec", "mode", "int", "inf", "uint", "bit", "bit", "bit"}

// pools limit the inputs of concurrent histories so that clients meet each
// other's values.
type pools struct {
	raws map[*format][]limbs
	nums []*big.Float
	f64  []uint64
	ints []*call
	// calls that involve no register, value or text
	calls []*call
}

func newPools(g *gen) *pools {
	p := &pools{raws: map[*format][]limbs{}}
	for _, f := range formats {
		for i := 0; i < 6; i++ {
			p.raws[f] = append(p.raws[f], g.raw(f))
		}
		for _, w := range p.raws[f][:3] { // close relatives
			u := append(limbs{}, w...)
			u[len(u)-1] ^= 0x8000
			t := append(limbs{}, w...)
			t[g.Intn(len(t))] ^= 1 << uint(g.Intn(16))
			p.raws[f] = append(p.raws[f], u, t)
		}
		p.raws[f] = append(p.raws[f], refEncode2(f, rnOf2(float64(g.Intn(40))-2)))
	}
	for i := 0; i < 12; i++ {
		p.nums = append(p.nums, g.float(g.anyNum(pick(g, encFormats))))
		p.f64 = append(p.f64, g.nat64(pick(g, encFormats)))
	}
	for i := 0; i < 8; i++ {
		p.ints = append(p.ints, intCall(g, i%2 == 0))
	}
	p.ints = append(p.ints, &call{v: "Itoa", mag: uint64(g.Intn(100)), b: 10}, &call{v: "FormatUint", mag: uint64(g.Intn(12)), b: 10})
	for i := 0; i < 16; i++ {
		p.calls = append(p.calls, pureCall(g))
	}
	return p
}

func (g *gen) step(p *pools) step {
	s := step{R: 1 + g.Intn(nRegs), R2: 1 + g.Intn(nRegs+1), V: 1 + g.Intn(nVals)}
	f := pick(g, encFormats)
	s.F = f.name
	src := func(n int) int { // a source: now and then the shared one
		if g.Intn(5) == 0 {
			return n + 1
		}
		return 1 + g.Intn(n)
	}
	i64 := p.f64[g.Intn(len(p.f64))]
	switch g.Intn(24) {
	case 0:
		n := project(p.nums[g.Intn(len(p.nums))])
		s.A, s.X = "setreg", jnum{n.k, n.s, n.m, n.e}
		s.P, s.Md = 1+g.Intn(200), g.Intn(6)
	case 1, 2:
		s.A, s.M = "mutreg", mutations[g.Intn(len(mutations))]
		s.P, s.Md = 1+g.Intn(200), g.Intn(6)
		if g.Intn(2) == 0 {
			s.P = 64 * (1 + g.Intn(4))
		}
	case 3, 4:
		f = pick(g, formats)
		s.A, s.F = "setval", f.name
		s.W = p.raws[f][g.Intn(len(p.raws[f]))]
	case 5, 6, 7, 8:
		s.A, s.V = "dec", src(nVals)
	case 9, 10, 11:
		s.A, s.R = "enc", src(nRegs)
	case 12:
		s.A, s.I = "e64", limbs64(i64)
		if g.Intn(2) == 0 {
			s.A, s.I = "e32", f32raw(float32(math.Float64frombits(i64)))
		}
	case 13:
		s.A, s.V = [2]string{"n64", "n32"}[g.Intn(2)], src(nVals)
	case 14:
		s.A, s.R, s.N = "isx", src(nRegs), []int{16, 32, 64}[g.Intn(3)]
	case 15, 16, 17:
		s.A, s.I, s.N = "ff", limbs64(i64), []int{16, 32, 64}[g.Intn(3)]
		s.Fm, s.Pr = int(fms[g.Intn(6)]), g.Intn(20)-1
		s.D, s.Sr, s.P = 1+g.Intn(nTxts), src(nTxts), g.Intn(1000)
		if g.Intn(2) == 0 {
			s.Pr = -1
		}
		if g.Intn(3) > 0 {
			s.A = "appf"
			s.M = []string{"", "nil"}[g.Intn(2)]
		}
	case 18, 19:
		c := p.ints[g.Intn(len(p.ints))]
		s.A, s.Ng, s.U, s.B = "fi", c.neg, limbsOfInt(new(big.Int).SetUint64(c.mag)), c.b
		s.D, s.Sr, s.P = 1+g.Intn(nTxts), src(nTxts), g.Intn(1000)
		kind := "Int"
		if strings.HasSuffix(c.v, "Uint") {
			kind = "Uint"
		}
		s.Vr = "Format" + kind
		if c.v == "Itoa" {
			s.Vr = c.v
		}
		if g.Intn(3) > 0 {
			s.A, s.Vr = "appi", "Append"+kind
			s.M = []string{"", "nil"}[g.Intn(2)]
		}
	case 20, 21:
		if g.Intn(5) == 0 {
			s.A, s.M, s.Sr = "bad", []string{"ff", "fi", "appf", "appi"}[g.Intn(4)], src(nTxts)
			s.I, s.Fm, s.Pr, s.N = limbs64(i64), int(fms[g.Intn(6)]), g.Intn(20)-1, []int{0, 8, 15, 63, 128}[g.Intn(5)]
			s.U, s.B, s.Vr = limbs{uint16(g.Intn(300))}, []int{-10, 0, 1, 37, 100}[g.Intn(5)], [2]string{"FormatInt", "FormatUint"}[g.Intn(2)]
			if s.M == "appi" {
				s.Vr = [2]string{"AppendInt", "AppendUint"}[g.Intn(2)]
			}
			break
		}
		s.A, s.D, s.M, s.P = "settxt", 1+g.Intn(nTxts), writings[g.Intn(len(writings))], g.Intn(1000)
		for n := g.Intn(30) - 8; n > 0; n-- {
			s.T = append(s.T, g.Intn(256))
		}
	default:
		s.A, s.c = "call", p.calls[g.Intn(len(p.calls))]
	}
	return s
}

// motif is a short run of steps that are easily confused with one another: the
// same operation on a slightly changed argument.
func (g *gen) motif(p *pools) []step {
	a := g.step(p)
	for a.A == "call" || a.A == "bad" || a.A == "settxt" || a.A == "setval" || a.A == "mutreg" || a.A == "setreg" {
		a = g.step(p)
	}
	b := a
	steps := []step{a}
	change := step{A: "mutreg", M: "bit", P: 1 + g.Intn(g.bits())}
	other := func(n, not int) int {
		for {
			if k := 1 + g.Intn(n); k != not {
				return k
			}
		}
	}
	switch a.A {
	case "enc", "isx":
		change.R, change.R2 = a.R, a.R
		if a.R > nRegs { // not the client's to change
			change.R = 1 + g.Intn(nRegs)
			change.R2 = change.R
			b.R = change.R
		}
		switch g.Intn(4) {
		case 0:
			change.M = []string{"neg", "double", "mode", "prec"}[g.Intn(4)]
			change.P, change.Md = 1+g.Intn(200), g.Intn(6)
		case 1:
			b.F = pick(g, encFormats).name
		}
		if g.Intn(3) == 0 {
			b.V = other(nVals, a.V)
		}
		steps = append(steps, change, b)
	case "dec":
		change.R, change.R2 = a.R, a.R
		if g.Intn(2) == 0 {
			b.R = other(nRegs, a.R)
		}
		steps = append(steps, change, b)
	case "e64", "e32":
		b.I = append(limbs{}, a.I...)
		if g.Intn(2) == 0 {
			b.I[g.Intn(len(b.I))] ^= 1 << uint(g.Intn(16))
		} else { // a close neighbour
			b.I[0] ^= 1 << uint(g.Intn(3))
		}
		b.F = a.F
		if g.Intn(3) == 0 {
			b.I, b.F = a.I, pick(g, encFormats).name
		}
		steps = append(steps, b)
	case "n64", "n32":
		f := fmtByName(a.F)
		set := step{A: "setval", V: 1 + g.Intn(nVals), F: f.name, W: g.pickRaw(p, f)}
		again := set
		again.W = append(limbs{}, set.W...)
		if k := g.Intn(len(again.W)); g.Intn(2) == 0 {
			again.W[k] ^= 1 << uint(g.Intn(16))
		} else { // a close neighbour
			again.W[0] ^= 1 << uint(g.Intn(3))
		}
		a.V = set.V
		steps = []step{set, a, again, a, {A: "enc", R: 1 + g.Intn(nRegs), V: set.V, F: f.name}, a}
	case "ff", "appf":
		b.I = append(limbs{}, a.I...)
		switch g.Intn(9) {
		case 0:
			b.I[g.Intn(4)] ^= 1 << uint(g.Intn(16))
		case 6, 7: // the neighbour, or a number close by
			k := map[int]int{16: 42, 32: 29, 64: 0}[a.N] + g.Intn(2)*g.Intn(4)
			b.I[k/16] ^= 1 << uint(k%16)
		case 1:
			b.I[3] ^= 0x8000
		case 2:
			b.Fm = int(fms[g.Intn(6)])
		case 3:
			b.N = []int{16, 32, 64}[g.Intn(3)]
		case 4:
			b.Pr = g.Intn(20) - 1
		}
		b.D = 1 + g.Intn(nTxts)
		if g.Intn(3) == 0 {
			steps = append(steps, step{A: "settxt", D: a.D, M: writings[g.Intn(3)], P: g.Intn(1000)})
		}
		steps = append(steps, b)
	case "fi", "appi":
		b.U = append(limbs{}, a.U...)
		kind := g.Intn(5)
		if !strings.Contains(a.Vr, "Uint") && len(a.U) == 4 && a.U[3] >= 0x7fff || a.Vr == "Itoa" && len(a.U) > 1 {
			kind = 4 // no room for a change
		}
		switch kind {
		case 0:
			if len(b.U) > 0 {
				b.U[0] ^= 1 << uint(g.Intn(16))
			}
		case 1:
			if !strings.Contains(a.Vr, "Uint") && a.Vr != "Itoa" {
				b.Ng = !b.Ng
			}
		case 2:
			if a.Vr != "Itoa" {
				b.B = 2 + g.Intn(35)
			}
		case 3:
			b.U = limbs{uint16(g.Intn(120))}
		}
		b.U = trim(b.U)
		if len(b.U) == 0 {
			b.Ng = false
		}
		b.D = 1 + g.Intn(nTxts)
		if g.Intn(3) == 0 {
			steps = append(steps, step{A: "settxt", D: a.D, M: writings[g.Intn(3)], P: g.Intn(1000)})
		}
		steps = append(steps, b)
	}
	return steps
}

// bits is a distance from the leading bit: often within the narrow formats.
func (g *gen) bits() int {
	return []int{7, 10, 24, 53, 64, 113}[g.Intn(6)]
}

func (g *gen) pickRaw(p *pools, f *format) limbs {
	return p.raws[f][g.Intn(len(p.raws[f]))]
}

func trim(u limbs) limbs {
	for len(u) > 0 && u[len(u)-1] == 0 {
		u = u[:len(u)-1]
	}
	return u
}

// exec runs a history for one client and renders it as one line.
func exec(sh shared, tick func(step, bool), next func() (step, bool)) []byte {
	c := newClient(sh)
	j := obj()
	if gostrconv.IntSize == 32 {
		j.str("arch", runtime.GOARCH)
	}
	j.key("st")
	o := obj()
	c.state(o)
	j.b = append(j.b, o.done()...)
	j.key("ev")
	j.b = append(j.b, '[')
	n := 0
	for {
		s, ok := next()
		if !ok {
			break
		}
		tick(s, true)
		ev, ok := c.do(s)
		tick(s, false)
		if ev == nil {
			continue
		}
		if n > 0 {
			j.b = append(j.b, ',')
		}
		j.b = append(j.b, ev...)
		n++
		if !ok {
			break
		}
	}
	j.b = append(j.b, ']')
	return j.done()
}

// watchSteps ends the driver when a step does not return.
func watchSteps(started []int64, at []atomic.Value) {
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		for k := range started {
			t := atomic.LoadInt64(&started[k])
			if t == 0 || time.Duration(now-t) <= *flagHang {
				continue
			}
			s := at[k].Load().(step)
			b, _ := json.Marshal(s)
			if s.c != nil {
				b = s.c.arg().done()
			}
			os.Stdout.Write(append(b, '\n'))
			fmt.Fprintln(os.Stderr, "driver: a step does not return")
			os.Exit(3)
		}
	}
}

func histories() {
	var scripts [][]step
	if *flagHist != "random" {
		in, err := os.Open(*flagHist)
		if err != nil {
			fatal(err)
		}
		sc := bufio.NewScanner(in)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var h []step
			if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
				fatal(err)
			}
			scripts = append(scripts, h)
		}
		if err := sc.Err(); err != nil {
			fatal(err)
		}
	}
	dict := mineLiterals(*flagRepo)
	g0 := newGen(*flagSeed, dict)
	g0.tame = true
	total := *flagN
	if scripts != nil {
		total = len(scripts)
	}
	lines := make([][]byte, total)
	started := make([]int64, *flagWorkers) // when each client began its step
	at := make([]atomic.Value, *flagWorkers)
	go watchSteps(started, at)
	const round = 32 // histories that share pools
	steps := 0
	for base := 0; base < total; base += round {
		p := newPools(g0)
		f := pick(g0, formats)
		w := p.raws[f][0]
		sh := shared{x: p.nums[0], v: f.mk(w), f: f, t: &text{b: make([]byte, 5)}}
		copy(sh.t.b, "share")
		if scripts != nil {
			sh = shared{x: new(big.Float).SetPrec(53), v: fmt16.mk(limbs{0}), f: fmt16, t: &text{b: make([]byte, 5)}}
			copy(sh.t.b, "share")
		}
		seeds := make([]int64, round)
		for i := range seeds {
			seeds[i] = g0.Int63()
		}
		var wg sync.WaitGroup
		for k := 0; k < *flagWorkers; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				tick := func(s step, on bool) {
					at[k].Store(s)
					var t int64
					if on {
						t = time.Now().UnixNano()
					}
					atomic.StoreInt64(&started[k], t)
				}
				for h := base + k; h < base+round && h < total; h += *flagWorkers {
					if scripts != nil {
						i := 0
						lines[h] = exec(sh, tick, func() (step, bool) {
							if i == len(scripts[h]) {
								return step{}, false
							}
							i++
							return scripts[h][i-1], true
						})
						continue
					}
					g := newGen(seeds[h-base], dict)
					g.tame = true
					i := 0
					var next []step
					lines[h] = exec(sh, tick, func() (step, bool) {
						i++
						if len(next) == 0 {
							if g.Intn(6) == 0 || *flagWorkers == 1 && g.Intn(2) == 0 {
								next = g.motif(p)
							} else {
								next = []step{g.step(p)}
							}
						}
						s := next[0]
						next = next[1:]
						return s, i <= 30
					})
				}
			}(k)
		}
		wg.Wait()
	}
	out, err := os.Create(*flagOut)
	if err != nil {
		fatal(err)
	}
	b := bufio.NewWriterSize(out, 1<<20)
	for _, l := range lines {
		steps += bytes.Count(l, []byte(`"a":`))
		b.Write(l)
		b.WriteByte('\n')
	}
	if err := b.Flush(); err != nil {
		fatal(err)
	}
	out.Close()
	writeStats(map[string]interface{}{"histories": len(lines), "calls": steps, "events": steps})
}
