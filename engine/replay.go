package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"strings"
	"time"
)

// Replayer runs harnesses natively (compiled from the same sources, against
// /repo's working tree) on concrete input vectors.
type Replayer struct {
	bin  string
	race bool // built with the race detector
	log  *bytes.Buffer
	cmd  *osexec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	Runs int
}

func brief(s string) string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" && len(r) < 12 {
			r = append(r, l)
		}
	}
	return strings.Join(r, " | ")
}

type repReq struct {
	Harness string
	Inputs  []uint64
	Params  map[string]int
}

type repResp struct {
	Result string // ok stop fail panic crash hang
	Msg    string
	Obs    []string
}

func (r repResp) bad() bool {
	return r.Result == "fail" || r.Result == "panic" || r.Result == "crash" || r.Result == "hang"
}

func (r *Replayer) start() error {
	// a runaway allocation must end the child, not the sandbox
	r.cmd = osexec.Command("bash", "-c", "ulimit -v 12000000; exec "+r.bin)
	r.cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GOMAXPROCS=2")
	if r.race {
		r.cmd = osexec.Command(r.bin)
		r.cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
		r.log = &bytes.Buffer{}
		r.cmd.Stderr = r.log
	}
	var err error
	if r.in, err = r.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := r.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	r.out = bufio.NewReaderSize(o, 1<<20)
	return r.cmd.Start()
}

func (r *Replayer) Close() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func (r *Replayer) Run(q repReq, timeout time.Duration) repResp {
	r.Runs++
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return repResp{Result: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(q)
	type ans struct {
		l   []byte
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := r.in.Write(append(b, '\n')); err != nil {
			ch <- ans{nil, err}
			return
		}
		l, err := r.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			if r.race {
				r.in.Close()
				r.cmd.Wait()
				r.cmd = nil
				s := r.log.String()
				if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
					return repResp{Result: "crash", Msg: "the race detector reports: " + brief(s[i:])}
				}
				if i := strings.Index(s, "fatal error: concurrent map"); i >= 0 {
					return repResp{Result: "crash", Msg: brief(s[i:])}
				}
				return repResp{Result: "error", Msg: "the race detector's run ended: " + brief(s)}
			}
			r.Close()
			return repResp{Result: "crash", Msg: "the process died (stack overflow, out of memory or fatal error)"}
		}
		var p repResp
		if err := json.Unmarshal(a.l, &p); err != nil {
			return repResp{Result: "error", Msg: fmt.Sprintf("bad answer %q", a.l)}
		}
		return p
	case <-time.After(timeout):
		r.Close()
		return repResp{Result: "hang", Msg: fmt.Sprintf("no answer within %v", timeout)}
	}
}
