package main

// SMT solver process (z3 -in / cvc5 --incremental), one per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"strconv"
	"strings"
	"time"
)

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

type Solver struct {
	cmd  *osexec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	kind string

	Queries  int64
	NSat     int64
	NUnsat   int64
	NUnknown int64
	Time     time.Duration
	timeout  int
	sinceNew int
}

func newSolver(kind string, timeoutMs int) (*Solver, error) {
	s := &Solver{kind: kind, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	switch s.kind {
	case "cvc5":
		s.cmd = osexec.Command("cvc5", "--incremental", "--produce-models", "--tlimit-per="+strconv.Itoa(s.timeout))
	case "z3-new":
		s.cmd = osexec.Command("z3-new", "-in", "-t:"+strconv.Itoa(s.timeout))
	default:
		s.cmd = osexec.Command("z3", "-in", "-t:"+strconv.Itoa(s.timeout))
	}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.sinceNew = 0
	_, err = io.WriteString(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of ts. On Sat the values of vars are returned.
func (s *Solver) Check(ts []*Term, vars []int32) (Verdict, []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sinceNew++
	if s.sinceNew > 20000 {
		s.Close()
		if s.start() != nil {
			s.NUnknown++
			return Unknown, nil
		}
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	printQuery(&sb, ts)
	sb.WriteString("(check-sat)\n")
	v, vals, err := s.roundtrip(sb.String(), vars)
	if d := os.Getenv("VERIF_SLOW"); d != "" && time.Since(t0) > 200*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, time.Since(t0).Milliseconds()), []byte(sb.String()), 0o644)
	}
	if err != nil {
		s.Close()
		s.start()
		s.NUnknown++
		return Unknown, nil
	}
	switch v {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnknown++
	}
	return v, vals
}

func (s *Solver) roundtrip(q string, vars []int32) (Verdict, []uint64, error) {
	if _, err := io.WriteString(s.in, q); err != nil {
		return Unknown, nil, err
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return Unknown, nil, err
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		_, err := io.WriteString(s.in, "(pop 1)\n")
		return Unsat, nil, err
	case "unknown", "timeout":
		_, err := io.WriteString(s.in, "(pop 1)\n")
		return Unknown, nil, err
	case "sat":
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	vals := make([]uint64, len(vars))
	if len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for i, v := range vars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(&sb, "v%d", v)
		}
		sb.WriteString("))\n(pop 1)\n")
		if _, err := io.WriteString(s.in, sb.String()); err != nil {
			return Unknown, nil, err
		}
		// read balanced parens
		depth := 0
		var txt strings.Builder
		for {
			b, err := s.out.ReadByte()
			if err != nil {
				return Unknown, nil, err
			}
			txt.WriteByte(b)
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		s.out.ReadString('\n')
		f := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
		i := 0
		for k := range vars {
			if i+1 >= len(f) || f[i] != fmt.Sprintf("v%d", vars[k]) {
				return Unknown, nil, fmt.Errorf("bad model %q", txt.String())
			}
			i++
			w := f[i]
			i++
			switch {
			case w == "true":
				vals[k] = 1
			case w == "false":
				vals[k] = 0
			case strings.HasPrefix(w, "#x"):
				vals[k], err = strconv.ParseUint(w[2:], 16, 64)
			case strings.HasPrefix(w, "#b"):
				vals[k], err = strconv.ParseUint(w[2:], 2, 64)
			case w == "_":
				vals[k], err = strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
				i += 2
			default:
				err = fmt.Errorf("bad value %q", w)
			}
			if err != nil {
				return Unknown, nil, err
			}
		}
		return Sat, vals, nil
	}
	_, err = io.WriteString(s.in, "(pop 1)\n")
	return Sat, vals, err
}
