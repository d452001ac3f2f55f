package main

import (
	"bufio"
	"bytes"
	"io/ioutil"
	"math/rand"
	"os"
	"sync"
)

// pureCall is any single library call that a history may contain: the
// operations of every package, special values included.
func pureCall(g *gen) *call {
	switch g.Intn(9) {
	case 2:
		return refusedCall(g)
	case 0:
		f := pick(g, encFormats)
		return &call{op: "con", f: f, v: conNames[g.Intn(len(conNames))]}
	case 1:
		return migCall(g)
	}
	c := anyCall(g)
	switch c.op {
	case "ff", "appf":
		c.fm = fms[g.Intn(6)]
	}
	return c
}

// twice makes the same calls from every goroutine, each in an order of its
// own, sharing the arguments, and pairs up the results: a call's outcome must
// not depend on when, where and after what it is made.
func twice() {
	const round = 512
	dict := mineLiterals(*flagRepo)
	g := newGen(*flagSeed, dict)
	out, err := os.Create(*flagOut)
	if err != nil {
		fatal(err)
	}
	b := bufio.NewWriterSize(out, 1<<20)
	calls, events, flagged := 0, 0, 0
	// outcomes to be compared with those of the same calls in another process
	var iso [][]byte
	disputed := 0
	byOp := map[string]int{}
	ws := make([]*worker, *flagWorkers)
	for i := range ws {
		ws[i] = &worker{id: i, byOp: map[string]int{}, keep: *flagKeep}
	}
	go watch(ws)
	for n := 0; n < *flagN; n++ {
		list := make([]*call, round)
		for i := range list {
			list[i] = pureCall(g)
		}
		res := make([][][]byte, len(ws))
		bad := make([][]bool, len(ws))
		orders := make([][]int, len(ws))
		for k := range ws {
			orders[k] = rand.New(rand.NewSource(g.Int63())).Perm(round)
		}
		var wg sync.WaitGroup
		for k, w := range ws {
			wg.Add(1)
			res[k] = make([][]byte, round)
			bad[k] = make([]bool, round)
			go func(k int, w *worker) {
				defer wg.Done()
				for _, i := range orders[k] {
					ev, ok := w.run(list[i])
					res[k][i], bad[k][i] = ev, !ok
				}
			}(k, w)
		}
		wg.Wait()
		put := func(x, y []byte) {
			b.Write(append(pair(x, y), '\n'))
			events++
		}
		for i := range list {
			same := true
			for k := 1; k < len(ws); k++ {
				if !bytes.Equal(res[0][i], res[k][i]) {
					same = false
					if flagged < maxFlagged {
						put(res[0][i], res[k][i])
					}
					flagged++
					break
				}
			}
			k := i % len(ws)
			switch {
			case bad[k][i] && disputed < 300:
				disputed++
				iso = append(iso, res[k][i])
			case i%128 == n%128 && len(iso) < 4000:
				iso = append(iso, res[k][i])
			}
			if same && i < round**flagSample/(round**flagN)+1 {
				put(res[0][i], res[len(ws)-1][i])
			}
		}
	}
	lookAtAll(ws)
	for _, w := range ws {
		calls += w.calls
		for k, v := range w.byOp {
			byOp[k] += v
		}
	}
	if err := b.Flush(); err != nil {
		fatal(err)
	}
	out.Close()
	if *flagIso != "" {
		if err := ioutil.WriteFile(*flagIso, append(bytes.Join(iso, []byte{'\n'}), '\n'), 0666); err != nil {
			fatal(err)
		}
	}
	writeStats(map[string]interface{}{"calls": calls, "events": events, "flagged": flagged, "by_operation": byOp})
}

// massKinds are the operations that massCall makes many calls of.
func massKinds() []func(g *gen) *call {
	ks := []func(g *gen) *call{isxCall, shortCall, fixedCall, appfCall, migCall,
		func(g *gen) *call { return intCall(g, false) }, func(g *gen) *call { return intCall(g, true) }}
	for _, f := range formats {
		f := f
		ks = append(ks, func(g *gen) *call { return decCall(g, f) })
	}
	for _, f := range encFormats {
		for _, op := range []func(*gen, *format) *call{encCall, e64Call, e32Call, n64Call, n32Call} {
			f, op := f, op
			ks = append(ks, func(g *gen) *call { return op(g, f) })
		}
	}
	return ks
}

var mass = massKinds()

// massCall makes very many calls of one operation after the other: effects that
// need a long past, such as a collision of hashes or a counter that wraps.
func massCall(g *gen, i int) *call {
	ks := mass
	per := *flagScreen / *flagWorkers / len(ks) + 1
	return ks[i/per%len(ks)](g)
}
