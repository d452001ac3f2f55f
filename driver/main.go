// Package main is the conformance driver: it calls the library's exported
// API on generated inputs and logs the calls for the TLA+ trace specification,
// which judges them. It is compiled into the module under test with
// 'go build -overlay'.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"
)

var (
	flagProp    = flag.String("prop", "", "property whose calls to make")
	flagSeed    = flag.Int64("seed", 1, "seed")
	flagSample  = flag.Int("sample", 1000, "calls validated by TLC")
	flagScreen  = flag.Int("screen", 0, "further calls, only screened")
	flagSeconds = flag.Float64("seconds", 0, "stop screening after this long (0: no limit)")
	flagOut     = flag.String("out", "", "trace file (ndjson)")
	flagStats   = flag.String("stats", "", "statistics file (json)")
	flagRepo    = flag.String("repo", "/repo", "sources to mine literals from")
	flagCareful = flag.String("careful", "", "directory: write each call there before making it")
	flagReplay  = flag.String("replay", "", "make the calls of this trace file again")
	flagHist    = flag.String("hist", "", "execute histories: 'random', or a file of histories generated from the specification")
	flagWorkers = flag.Int("workers", 8, "goroutines")
	flagKeep    = flag.Int("keep", 0, "hold the results of so many calls per goroutine, and look at them again later")
	flagLate    = flag.String("late", "", "file for the results that were found changed")
	flagTwice   = flag.Bool("twice", false, "make every call several times, concurrently and in different orders")
	flagIso     = flag.String("iso", "", "with -twice: file for outcomes to compare with another process")
	flagN       = flag.Int("n", 0, "number of histories")
	flagStride  = flag.Int("stride", 1, "take only every so many calls of the grids and enumerations")
	flagHang    = flag.Duration("hang", 20*time.Second, "a call taking longer is a hang")
)

const maxFlagged = 400 // per worker

type worker struct {
	id       int
	g        *gen
	cur      atomic.Value // *call
	start    int64        // unix nanoseconds, 0 when idle
	sampled  [][]byte
	flagged  [][]byte
	calls    int
	disputed int // enumerated calls that the screening disputes
	byOp     map[string]int
	returns  bool // screen only whether calls return
	keep     int  // look at the results of so many calls again, much later
	kept     []late
	changed  [][]byte // results that were found changed
}

// late is what a call returned, and what that was recorded as.
type late struct {
	c  *call
	ev []byte
}

// hold keeps what a call returned in place of another call's, which is looked
// at again: nothing that was done since may have changed it.
func (w *worker) hold(c *call, ev []byte) {
	if w.keep == 0 || c.again == nil || w.calls&1 != 0 {
		return
	}
	if len(w.kept) < w.keep {
		w.kept = append(w.kept, late{c, ev})
		return
	}
	// numbers from mix are as good as random here
	k := int(mix(w.calls) % uint64(w.keep))
	w.look(w.kept[k])
	w.kept[k] = late{c, ev}
}

func (w *worker) look(l late) {
	j := l.c.arg()
	l.c.again(j)
	now := j.str("o", "ok").done()
	if !bytes.Equal(now, l.ev) && len(w.changed) < maxFlagged {
		w.changed = append(w.changed, pair(l.ev, now))
	}
}

func pair(x, y []byte) []byte {
	return []byte(fmt.Sprintf(`{"op":"twice","o":"ok","c1":%s,"c2":%s}`, x, y))
}

// lookAtAll looks at all that is still held, and writes what has changed.
func lookAtAll(ws []*worker) {
	if *flagLate == "" {
		return
	}
	var all []byte
	for _, w := range ws {
		for _, l := range w.kept {
			w.look(l)
		}
		for _, e := range w.changed {
			all = append(append(all, e...), '\n')
		}
	}
	if err := ioutil.WriteFile(*flagLate, all, 0666); err != nil {
		fatal(err)
	}
}

func (w *worker) run(c *call) ([]byte, bool) {
	if *flagCareful != "" {
		p := filepath.Join(*flagCareful, fmt.Sprintf("cur.%d", w.id))
		if err := ioutil.WriteFile(p, append(c.arg().done(), '\n'), 0666); err != nil {
			fatal(err)
		}
	}
	w.cur.Store(c)
	atomic.StoreInt64(&w.start, time.Now().UnixNano())
	own, ev, ok, returned := c.runOwn()
	atomic.StoreInt64(&w.start, 0)
	if ok {
		w.hold(own, ev)
	}
	if w.returns {
		ok = returned
	}
	w.calls++
	key := c.op
	if c.f != nil {
		key += "." + c.f.name
	}
	w.byOp[key]++
	return ev, ok
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(4)
}

// watch ends the process when a call does not return; the runner then repeats
// that call on its own.
func watch(ws []*worker) {
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		for _, w := range ws {
			s := atomic.LoadInt64(&w.start)
			if s != 0 && time.Duration(now-s) > *flagHang {
				c := w.cur.Load().(*call)
				os.Stdout.Write(append(c.arg().done(), '\n'))
				fmt.Fprintln(os.Stderr, "driver: a call does not return")
				os.Exit(3)
			}
		}
	}
}

func main() {
	flag.Parse()
	switch {
	case *flagReplay != "":
		replay()
	case *flagHist != "":
		histories()
	case *flagTwice:
		twice()
	default:
		sweep()
	}
}

func sweep() {
	m, ok := modes()[*flagProp]
	if !ok {
		fatal(fmt.Errorf("no mode %q", *flagProp))
	}
	dict := mineLiterals(*flagRepo)
	workers := *flagWorkers
	ws := make([]*worker, workers)
	for i := range ws {
		ws[i] = &worker{id: i, g: newGen(*flagSeed*1000+int64(i), dict), byOp: map[string]int{}, returns: m.returns, keep: *flagKeep}
	}
	go watch(ws)
	var all []*call
	if m.all != nil {
		all = m.all(newGen(*flagSeed, dict))
	}
	deadline := time.Time{}
	if *flagSeconds > 0 {
		deadline = time.Now().Add(time.Duration(*flagSeconds * float64(time.Second)))
	}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			st := *flagStride
			first := w.id + workers*(int(*flagSeed)%st)
			for k := first; k < len(all); k += workers * st {
				ev, ok := w.run(all[k])
				w.sampled = append(w.sampled, ev)
				if !ok {
					w.disputed++
				}
			}
			for _, gr := range m.grids {
				for k := first; k < gr.n; k += workers * st {
					ev, ok := w.run(gr.at(k))
					switch {
					case !ok:
						if len(w.flagged) < maxFlagged {
							w.flagged = append(w.flagged, ev)
						}
					case !gr.quiet && *flagSample > 0 && mix(k+int(*flagSeed<<20))%uint64(gr.n/200/st+1) == 0:
						w.sampled = append(w.sampled, ev)
					}
				}
			}
			n := *flagSample / workers
			total := n + *flagScreen/workers
			for k := 0; k < total; k++ {
				if k > n && k%256 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
					break
				}
				c := m.next(w.g, k)
				ev, ok := w.run(c)
				switch {
				case !ok:
					if len(w.flagged) < maxFlagged {
						w.flagged = append(w.flagged, ev)
					}
				case k < n && (m.keep == nil || m.keep(c)):
					w.sampled = append(w.sampled, ev)
				}
			}
		}(w)
	}
	wg.Wait()
	lookAtAll(ws)
	out, err := os.Create(*flagOut)
	if err != nil {
		fatal(err)
	}
	b := bufio.NewWriterSize(out, 1<<20)
	lines, calls, flagged := 0, 0, 0
	byOp := map[string]int{}
	put := func(evs [][]byte) {
		for _, e := range evs {
			b.Write(e)
			b.WriteByte('\n')
			lines++
		}
	}
	for _, w := range ws {
		put(w.flagged)
		flagged += len(w.flagged) + w.disputed
	}
	for _, w := range ws {
		put(w.sampled)
		calls += w.calls
		for k, v := range w.byOp {
			byOp[k] += v
		}
	}
	if err := b.Flush(); err != nil {
		fatal(err)
	}
	out.Close()
	gridded := 0
	for _, gr := range m.grids {
		gridded += gr.n
	}
	writeStats(map[string]interface{}{
		"grid": gridded, "calls": calls, "events": lines, "flagged": flagged, "enumerated": len(all),
		"literals": len(dict), "by_operation": byOp,
	})
}

func writeStats(s map[string]interface{}) {
	if *flagStats == "" {
		return
	}
	b, err := json.MarshalIndent(s, "", " ")
	if err != nil {
		fatal(err)
	}
	if err := ioutil.WriteFile(*flagStats, append(b, '\n'), 0666); err != nil {
		fatal(err)
	}
}

// replay makes the calls of a trace again, in order, in one goroutine.
func replay() {
	in, err := os.Open(*flagReplay)
	if err != nil {
		fatal(err)
	}
	defer in.Close()
	w := &worker{byOp: map[string]int{}}
	go watch([]*worker{w})
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := os.Stdout
	if *flagOut != "" {
		if out, err = os.Create(*flagOut); err != nil {
			fatal(err)
		}
	}
	for sc.Scan() {
		c, err := parseCall(sc.Bytes())
		if err != nil {
			fatal(err)
		}
		ev, _ := w.run(c)
		out.Write(append(ev, '\n'))
	}
	if err := sc.Err(); err != nil {
		fatal(err)
	}
	out.Close()
}
