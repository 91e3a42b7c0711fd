// replay runs harnesses natively on concrete input vectors: one JSON request
// per line on stdin, one JSON answer per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"verif/harness/h"
	"verif/harness/nd"
)

type req struct {
	Harness string
	Inputs  []uint64
	Params  map[string]int
}
type resp struct {
	Result string // ok, stop, fail, panic
	Msg    string
	Obs    []string
}

func run(q req) (r resp) {
	nd.Reset(q.Inputs, q.Params)
	f := h.All[q.Harness]
	if f == nil {
		return resp{Result: "nosuch", Msg: q.Harness}
	}
	defer func() {
		e := recover()
		r.Obs = nd.Obs
		switch x := e.(type) {
		case nil:
			r.Result = "ok"
		case nd.Stop:
			r.Result = "stop"
		case nd.Fail:
			r.Result, r.Msg = "fail", x.Msg
		default:
			r.Result, r.Msg = "panic", fmt.Sprint(e)
			if len(os.Args) > 1 && os.Args[1] == "-v" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return
}

func main() {
	debug.SetMemoryLimit(4 << 30)
	out := os.Stdout
	// the library prints to stdout: keep the answer channel clean
	if nul, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = nul
	}
	w := bufio.NewWriter(out)
	sc := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		var r resp
		if err := json.Unmarshal(line, &q); err != nil {
			r = resp{Result: "badreq", Msg: err.Error()}
		} else {
			r = run(q)
		}
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
