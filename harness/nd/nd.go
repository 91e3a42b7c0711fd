// Package nd is the interface between a harness and the two things that run
// it: the symbolic engine (/verif/engine replaces these functions with
// intrinsics over solver terms) and the native replayer (this implementation,
// which reads a concrete input vector found by the solver).
package nd

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"runtime"
	"sync"
)

// State of the current native run.
var (
	In     []uint64
	pos    int
	Obs    []string
	Params map[string]int
	mark   uint64
)

// Stop is panicked by Assume(false); Fail by a failed assertion.
type Stop struct{}
type Fail struct{ Msg string }

func Reset(in []uint64, p map[string]int) {
	In, pos, Obs, Params = in, 0, nil, p
}

func next() uint64 {
	if pos >= len(In) {
		pos++
		return 0
	}
	v := In[pos]
	pos++
	return v
}

// Byte is an arbitrary byte.
func Byte() byte { return byte(next()) }

// U64 is an arbitrary 64-bit value.
func U64() uint64 { return next() }

// Choose is an arbitrary value in [0,n); the engine explores each separately.
func Choose(n int) int {
	v := int(next())
	if v >= n || v < 0 {
		panic(Stop{})
	}
	return v
}

// Lit is a text that stands in the code under check; the engine explores each.
func Lit() string {
	n := int(next())
	var b []byte
	for i := 0; i < n; i += 8 {
		b = binary.LittleEndian.AppendUint64(b, next())
	}
	return string(b[:n])
}

// Num is a number from lo to hi that stands in the code under check, lo if
// there is none; the engine explores each.
func Num(lo, hi int) int { return int(next()) }

// Bytes is n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// Str is a string of n arbitrary bytes.
func Str(n int) string { return string(Bytes(n)) }

func Assume(b bool) {
	if !b {
		panic(Stop{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		panic(Fail{msg})
	}
}

// Eq, EqStr, And, Or, Not, Implies build one condition without forking the path.
func Eq(a, b []byte) bool     { return string(a) == string(b) }
func EqStr(a, b string) bool  { return a == b }
func EqByte(a, b byte) bool   { return a == b }
func In2(a, lo, hi byte) bool { return lo <= a && a <= hi }
func And(a, b bool) bool      { return a && b }
func Or(a, b bool) bool       { return a || b }
func Not(a bool) bool         { return !a }
func Ite(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Observe records output bytes: the engine's prediction for a sampled path is
// compared with what the compiled code does on the same inputs.
func Observe(label string, b []byte)    { Obs = append(Obs, label+"="+hex.EncodeToString(b)) }
func ObserveStr(label string, s string) { Obs = append(Obs, label+"="+hex.EncodeToString([]byte(s))) }
func ObserveInt(label string, n int)    { Obs = append(Obs, fmt.Sprintf("%s=%d", label, uint64(n))) }

// Cover marks a reachable situation (vacuity witness).
func Cover(label string) {}

// Param is a bound set by the tier.
func Param(name string, def int) int {
	if v, ok := Params[name]; ok {
		return v
	}
	return def
}

// Parallel is f(0) and f(1) in two goroutines; shared is what both can reach
// besides the package variables. In the engine they run one after the other,
// watched for accesses that would conflict; natively they only run at the same
// time in the build with the race detector. f must not draw inputs.
func Parallel(f func(i int), shared ...any) {
	if !raceBuild {
		f(0)
		f(1)
		return
	}
	var ready, done sync.WaitGroup
	start := make(chan bool)
	var died [2]any
	for i := range died {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() { died[i] = recover() }()
			ready.Done()
			<-start
			f(i)
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	for _, d := range died {
		if d != nil {
			panic(d)
		}
	}
}

// AllocMark and AllocSince account the bytes allocated in between.
func AllocMark() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	mark = ms.TotalAlloc
}

func AllocSince() int {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int(ms.TotalAlloc - mark)
}

// Symbolic reports whether the solver engine runs the harness.
func Symbolic() bool { return false }
