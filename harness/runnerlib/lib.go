// Package runnerlib runs harnesses natively on recorded assignments.
package runnerlib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/HannesKimara/cddlc/zzverif/sym"
)

type Result struct {
	I    int      `json:"i"`
	Out  string   `json:"out"`
	Msg  string   `json:"msg,omitempty"`
	Obs  []string `json:"obs,omitempty"`
	Trac string   `json:"trace,omitempty"`
}

func Main(table map[string]func()) {
	h := flag.String("h", "", "harness")
	par := flag.String("params", "{}", "parameters")
	from := flag.Int("from", 0, "first input")
	secs := flag.Int("timeout", 10, "seconds per input")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	f, ok := table[*h]
	if !ok {
		fmt.Fprintln(os.Stderr, "no harness", *h)
		os.Exit(9)
	}
	params := map[string]int{}
	if err := json.Unmarshal([]byte(*par), &params); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	out := os.NewFile(3, "results")
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		if i < *from {
			continue
		}
		var in []sym.Rec
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(9)
		}
		fmt.Fprintf(out, "{\"start\":%d}\n", i)
		ch := make(chan Result, 1)
		go func() { ch <- one(f, in, params, i) }()
		var r Result
		dead := time.After(time.Duration(*secs) * time.Second)
		tick := time.NewTicker(100 * time.Millisecond)
	wait:
		for {
			select {
			case r = <-ch:
				break wait
			case <-dead:
				emit(out, Result{I: i, Out: "hang", Msg: fmt.Sprintf("no result after %d s", *secs)})
				os.Exit(3)
			case <-tick.C:
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					emit(out, Result{I: i, Out: "mem", Msg: "more than 3 GB allocated"})
					os.Exit(3)
				}
			}
		}
		tick.Stop()
		emit(out, r)
	}
}

func emit(out *os.File, r Result) {
	b, _ := json.Marshal(r)
	out.Write(append(b, '\n'))
}

func one(f func(), in []sym.Rec, params map[string]int, i int) (r Result) {
	sym.Reset(in, params)
	r = Result{I: i, Out: "ok"}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case sym.AssertFailed:
				r.Out, r.Msg = "assert", x.Msg
			case sym.Skipped:
				r.Out = "skip"
			case sym.Diverged:
				r.Out, r.Msg = "diverged", x.Msg
			default:
				r.Out, r.Msg, r.Trac = "panic", fmt.Sprint(e), string(debug.Stack())
			}
		}
		r.Obs = sym.Observed()
	}()
	f()
	return
}
