package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Options struct {
	Solver     string
	Cross      string // second solver for cross-checking, "" = off
	TimeoutMs  int
	Workers    int
	StepLimit  int64
	MaxDepth   int
	AllocLimit int64
	MaxPaths   int64
	Deadline   time.Time
	MaxViol    int
	MaxSample  int
	Param      map[string]int
	Trace      bool
}

// Dec is one recorded decision of a path.
type Dec struct {
	V uint64 // branch: 0/1; choice: value; concretisation: candidate value
	K uint8  // bit0: taken/equal ; bit1: forced (only one feasible side) ; bit2: choice
}

type item struct {
	pre   []Dec
	model []uint64
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, steps, hugealloc, depth
	Inputs  []uint64
	Labels  []string
	Site    string
}

type PathSample struct {
	Inputs []uint64
	Obs    []string
	End    string
}

type Stats struct {
	Paths, Infeasible, Branches, Forks   atomic.Int64
	Asserts, AssertSyntactic, AssertConc atomic.Int64
	CacheHit, Queries                    atomic.Int64
	Steps                                atomic.Int64
	Unknown                              atomic.Int64
	Aborted                              sync.Map // msg -> *atomic.Int64
	Notes                                sync.Map
	Covers                               sync.Map
	SolverNs                             atomic.Int64
	NSat, NUnsat                         atomic.Int64
	CrossQ, CrossDiff                    atomic.Int64
	MaxPC, MaxVars                       atomic.Int64
	Obligations                          atomic.Int64
}

type Explorer struct {
	eng     *Engine
	harness string
	fn      *Fn
	mu      sync.Mutex
	cond    *sync.Cond
	stack   []item
	active  int
	stop    bool
	stopWhy string
	st      Stats
	viols   []Violation
	vnext   map[string]int
	vseen   map[string]int
	samples []PathSample
	nsample int
	aborted []PathSample // models of paths the engine could not finish
}

type W struct {
	eng   *Engine
	ex    *Explorer
	ts    *TermStore
	sol   *Solver
	cross *Solver

	globals []*Val
	inited  []uint8

	undo    []undoEnt
	par     *parSt
	logging bool
	stack   []*Fn
	frames  []*frame
	steps   int64
	alloc   uint64

	stepLimit int64

	// current path
	pre          []Dec
	decs         []Dec
	model        []uint64
	pc           []*Term
	pcVars       map[int32][]int // var -> constraint indexes
	nvars        int
	kinds        []uint8  // per variable: width, 255 = choice
	inputs       []uint64 // for choices: the value; for vars: filled from the model
	labels       []string
	oblig        []oblig
	obs          []obsEnt
	baseAlloc    uint64
	allocMark    uint64
	cache        map[string]cacheEnt
	initErr      map[string]string
	initializing int
	sides        map[*Val]*any
}

type oblig struct {
	t   *Term
	msg string
}
type obsEnt struct {
	label string
	v     Val
	isB   bool
	w     uint8
}

type cacheEnt struct {
	v    Verdict
	vars []int32
	vals []uint64
}

func (w *W) note(s string) { w.ex.st.Notes.Store(s, true) }

// ---- decisions ----

func (w *W) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if t.op == OpBAnd {
		w.addPC(t.a[0])
		w.addPC(t.a[1])
		return
	}
	i := len(w.pc)
	w.pc = append(w.pc, t)
	for _, v := range t.vars {
		w.pcVars[v] = append(w.pcVars[v], i)
	}
}

// slice returns the path constraints transitively sharing variables with t.
func (w *W) slice(t *Term) []*Term {
	seenV := map[int32]bool{}
	seenC := map[int]bool{}
	q := append([]int32(nil), t.vars...)
	for _, v := range q {
		seenV[v] = true
	}
	var idx []int
	for len(q) > 0 {
		v := q[len(q)-1]
		q = q[:len(q)-1]
		for _, ci := range w.pcVars[v] {
			if seenC[ci] {
				continue
			}
			seenC[ci] = true
			idx = append(idx, ci)
			for _, u := range w.pc[ci].vars {
				if !seenV[u] {
					seenV[u] = true
					q = append(q, u)
				}
			}
		}
	}
	sort.Ints(idx)
	r := make([]*Term, 0, len(idx)+1)
	last := uint32(0)
	_ = last
	seenT := map[*Term]bool{}
	for _, i := range idx {
		if !seenT[w.pc[i]] {
			seenT[w.pc[i]] = true
			r = append(r, w.pc[i])
		}
	}
	return r
}

// check decides PC /\ t. On Sat the returned model extends the current one.
func (w *W) check(t *Term) (Verdict, []uint64) {
	if t.isConst() {
		if t.v == 1 {
			return Sat, w.model
		}
		return Unsat, nil
	}
	cs := append(w.slice(t), t)
	ids := make([]uint32, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	n := len(ids) - 1
	sort.Slice(ids[:n], func(i, j int) bool { return ids[i] < ids[j] })
	key := make([]byte, 4*len(ids))
	for i, d := range ids {
		binary.LittleEndian.PutUint32(key[4*i:], d)
	}
	ent, ok := w.cache[string(key)]
	if ok {
		w.ex.st.CacheHit.Add(1)
	} else {
		var vars []int32
		for _, c := range cs {
			vars = mergeVars(vars, c.vars)
		}
		v, vals := w.sol.Check(cs, vars)
		w.ex.st.Queries.Add(1)
		if w.cross != nil {
			v2, _ := w.cross.Check(cs, vars)
			w.ex.st.CrossQ.Add(1)
			if v2 != Unknown && v != Unknown && v2 != v {
				w.ex.st.CrossDiff.Add(1)
			}
			if v == Unknown && v2 == Unsat {
				v = Unsat
			}
		}
		ent = cacheEnt{v, vars, vals}
		w.cache[string(key)] = ent
		if v == Unknown {
			w.ex.st.Unknown.Add(1)
		}
	}
	if ent.v != Sat {
		return ent.v, nil
	}
	m := make([]uint64, max(len(w.model), w.nvars))
	copy(m, w.model)
	for i, v := range ent.vars {
		m[v] = ent.vals[i]
	}
	return Sat, m
}

func (w *W) setModel(m []uint64) {
	w.model = m
	w.ts.epoch++
}

func (w *W) eval(t *Term) uint64 { return w.ts.Eval(t, w.model) }

// branch decides a symbolic condition, forking if both sides are feasible.
func (w *W) branch(t *Term) bool {
	if t.isConst() {
		return t.v == 1
	}
	if w.initializing > 0 {
		panic(abort("unsupported", "symbolic branch in init"))
	}
	w.ex.st.Branches.Add(1)
	if len(w.decs) < len(w.pre) {
		d := w.pre[len(w.decs)]
		w.decs = append(w.decs, d)
		if d.K&2 == 0 {
			if d.K&1 == 1 {
				w.addPC(t)
			} else {
				w.addPC(w.ts.Not(t))
			}
		}
		return d.K&1 == 1
	}
	side := w.eval(t) != 0
	other := w.ts.Not(t)
	mine := t
	if !side {
		other, mine = t, other
	}
	v, m := w.check(other)
	k := uint8(0)
	if side {
		k = 1
	}
	switch v {
	case Sat:
		w.fork(Dec{K: k ^ 1}, m)
		w.decs = append(w.decs, Dec{K: k})
		w.addPC(mine)
	case Unknown:
		w.note("branch side skipped: solver unknown")
		w.decs = append(w.decs, Dec{K: k})
		w.addPC(mine)
	case Unsat:
		w.decs = append(w.decs, Dec{K: k | 2})
	}
	return side
}

func (w *W) fork(d Dec, m []uint64) {
	pre := make([]Dec, len(w.decs)+1)
	copy(pre, w.decs)
	pre[len(w.decs)] = d
	w.ex.st.Forks.Add(1)
	w.ex.push(item{pre, m})
}

// concretize enumerates all feasible values of t, one path each.
func (w *W) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.v
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(abort("unsupported", "too many values to enumerate: "+why+" at "+w.where()))
		}
		var d Dec
		if len(w.decs) < len(w.pre) {
			d = w.pre[len(w.decs)]
			w.decs = append(w.decs, d)
			eq := w.ts.Eq(t, w.ts.Const(t.w, d.V))
			if d.K&1 == 1 {
				if d.K&2 == 0 {
					w.addPC(eq)
				}
				return d.V
			}
			w.addPC(w.ts.Not(eq))
			continue
		}
		v := w.eval(t)
		eq := w.ts.Eq(t, w.ts.Const(t.w, v))
		r, m := w.check(w.ts.Not(eq))
		w.ex.st.Branches.Add(1)
		switch r {
		case Sat:
			w.fork(Dec{V: v, K: 0}, m)
			w.decs = append(w.decs, Dec{V: v, K: 1})
			w.addPC(eq)
		case Unknown:
			w.note("value enumeration cut: solver unknown")
			w.decs = append(w.decs, Dec{V: v, K: 1})
			w.addPC(eq)
		case Unsat:
			w.decs = append(w.decs, Dec{V: v, K: 3})
		}
		return v
	}
}

// choose is an n-way nondeterministic choice. internal choices (scheduling,
// map order) are not part of the input vector.
func (w *W) choose(n int, internal bool) int {
	if n <= 0 {
		panic(abort("infeasible", "choose from nothing"))
	}
	if w.initializing > 0 {
		return 0
	}
	var r int
	if len(w.decs) < len(w.pre) {
		d := w.pre[len(w.decs)]
		w.decs = append(w.decs, d)
		r = int(d.V)
	} else {
		for i := n - 1; i >= 1; i-- {
			w.fork(Dec{V: uint64(i), K: 4}, w.model)
		}
		w.decs = append(w.decs, Dec{V: 0, K: 4})
		r = 0
	}
	return r
}

func (w *W) newVar(width uint8) *Term {
	i := w.nvars
	w.nvars++
	w.kinds = append(w.kinds, width)
	w.inputs = append(w.inputs, 0)
	for len(w.model) <= i {
		w.model = append(w.model[:len(w.model):len(w.model)], 0)
	}
	return w.ts.Var(i, width)
}

func (w *W) newChoice(v uint64) {
	w.nvars++
	w.kinds = append(w.kinds, 255)
	w.inputs = append(w.inputs, v)
	for len(w.model) < w.nvars {
		w.model = append(w.model[:len(w.model):len(w.model)], 0)
	}
}

func (w *W) assume(t *Term) {
	if t.isConst() {
		if t.v == 0 {
			panic(abort("infeasible", ""))
		}
		return
	}
	if len(w.decs) < len(w.pre) {
		// an assumption met during replay was feasible when first met
		w.addPC(t)
		return
	}
	if w.eval(t) == 0 {
		v, m := w.check(t)
		if v != Sat {
			if v == Unknown {
				w.note("assumption undecided: solver unknown, path dropped")
			}
			panic(abort("infeasible", ""))
		}
		w.addPC(t)
		w.setModel(m)
		return
	}
	w.addPC(t)
}

func (w *W) assert(t *Term, msg string) {
	w.ex.st.Asserts.Add(1)
	if t.isConst() {
		if t.v == 1 {
			w.ex.st.AssertConc.Add(1)
			return
		}
		w.violate("assert", msg, w.model)
		panic(abort("violated", msg))
	}
	if len(w.decs) >= len(w.pre) && w.eval(t) == 0 {
		w.violate("assert", msg, w.model)
		panic(abort("violated", msg))
	}
	w.oblig = append(w.oblig, oblig{t, msg})
}

// discharge proves every collected obligation under the path condition.
func (w *W) discharge() bool {
	var flat func(t *Term, f func(*Term))
	flat = func(t *Term, f func(*Term)) {
		if t.op == OpBAnd {
			flat(t.a[0], f)
			flat(t.a[1], f)
			return
		}
		f(t)
	}
	good := true
	seen := map[*Term]bool{}
	for _, o := range w.oblig {
		flat(o.t, func(t *Term) {
			if !good || seen[t] {
				return
			}
			seen[t] = true
			w.ex.st.Obligations.Add(1)
			if w.eval(t) == 0 {
				w.violate("assert", o.msg, w.model)
				good = false
				return
			}
			v, m := w.check(w.ts.Not(t))
			switch v {
			case Sat:
				w.violate("assert", o.msg, m)
				good = false
			case Unknown:
				w.note("obligation undecided: " + o.msg)
			}
		})
	}
	return good
}

func (w *W) inputVector(m []uint64) []uint64 {
	r := make([]uint64, w.nvars)
	for i := range r {
		if w.kinds[i] == 255 {
			r[i] = w.inputs[i]
		} else if i < len(m) {
			r[i] = mask(maxw(w.kinds[i]), m[i])
		}
	}
	return r
}

func (w *W) violate(kind, msg string, m []uint64) {
	v := Violation{Harness: w.ex.harness, Msg: msg, Kind: kind, Inputs: w.inputVector(m), Site: w.where(),
		Labels: append([]string(nil), w.labels...)}
	w.ex.addViol(v)
}

func (ex *Explorer) halt(why string) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if !ex.stop {
		ex.stop = true
		ex.stopWhy = why
		ex.cond.Broadcast()
	}
}

func (ex *Explorer) addViol(v Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	k := v.Kind + "|" + v.Msg
	// the first dozen, then ever fewer: should those not reproduce, because the
	// engine counts allocations differently, say, others may
	n := ex.vseen[k] + 1
	ex.vseen[k] = n
	if n > 12 {
		if n < ex.vnext[k] {
			return
		}
		ex.vnext[k] = n + n/4
	}
	ex.viols = append(ex.viols, v)
	if len(ex.viols) >= ex.eng.opts.MaxViol && !ex.stop {
		ex.stop = true
		ex.stopWhy = "violation limit"
		ex.cond.Broadcast()
	}
}

// ---- worklist ----

func (ex *Explorer) push(it item) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() (item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return item{}, false
		}
		if len(ex.stack) > 0 {
			it := ex.stack[len(ex.stack)-1]
			ex.stack = ex.stack[:len(ex.stack)-1]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.stack) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func newExplorer(e *Engine, harness string, fn *Fn) *Explorer {
	ex := &Explorer{eng: e, harness: harness, fn: fn, vseen: map[string]int{}, vnext: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

// Explore runs every path of the harness on the given workers.
func (ex *Explorer) Explore(ws []*W) {
	ex.stack = []item{{nil, nil}}
	var wg sync.WaitGroup
	tick := make(chan struct{})
	go func() {
		for {
			select {
			case <-tick:
				return
			case <-time.After(200 * time.Millisecond):
				if !ex.eng.opts.Deadline.IsZero() && time.Now().After(ex.eng.opts.Deadline) {
					ex.mu.Lock()
					if !ex.stop {
						ex.stop = true
						ex.stopWhy = "time budget"
					}
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
			}
		}
	}()
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			w.ex = ex
			q0, t0, s0, u0 := w.sol.Queries, w.sol.Time, w.sol.NSat, w.sol.NUnsat
			_ = q0
			for {
				it, ok := ex.pop()
				if !ok {
					break
				}
				w.runPath(it)
				ex.done()
				if p := ex.st.Paths.Load(); ex.eng.opts.MaxPaths > 0 && p >= ex.eng.opts.MaxPaths {
					ex.mu.Lock()
					if !ex.stop && (len(ex.stack) > 0 || ex.active > 0) {
						ex.stop = true
						ex.stopWhy = "path budget"
					}
					ex.mu.Unlock()
					ex.cond.Broadcast()
				}
			}
			ex.st.SolverNs.Add(int64(w.sol.Time - t0))
			ex.st.NSat.Add(w.sol.NSat - s0)
			ex.st.NUnsat.Add(w.sol.NUnsat - u0)
		}(w)
	}
	wg.Wait()
	close(tick)
}

func atomicMax(a *atomic.Int64, v int64) {
	for {
		o := a.Load()
		if v <= o || a.CompareAndSwap(o, v) {
			return
		}
	}
}

func (w *W) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := &w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undoEnt{}
	}
	if cap(w.undo) > 1<<20 {
		w.undo = nil
	} else {
		w.undo = w.undo[:0]
	}
}

func (w *W) runPath(it item) {
	w.pre, w.decs = it.pre, w.decs[:0]
	w.pc = w.pc[:0]
	clear(w.pcVars)
	w.nvars = 0
	w.kinds, w.inputs, w.labels = w.kinds[:0], w.inputs[:0], w.labels[:0]
	w.oblig, w.obs = w.oblig[:0], w.obs[:0]
	w.stack = w.stack[:0]
	w.steps, w.alloc = 0, 0
	w.stepLimit = w.eng.opts.StepLimit
	w.setModel(append([]uint64(nil), it.model...))
	w.logging = true
	end := "ok"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch p := r.(type) {
			case *pathAbort:
				end = p.kind
				switch p.kind {
				case "infeasible":
				case "violated":
				case "steps", "depth", "hugealloc":
					w.violate(p.kind, p.kind+": "+p.msg, w.model)
				case "done":
					end = "ok"
				default:
					w.abortNote(p.kind + ": " + p.msg)
				}
			case *targetPanic:
				end = "panic"
				w.violate("panic", "panic: "+p.msg, w.model)
				if w.eng.opts.Trace {
					fmt.Println("PANIC", p.msg, p.site)
				}
			default:
				if w.eng.opts.Trace {
					panic(r)
				}
				end = "engine"
				w.abortNote(fmt.Sprintf("engine: %v at %s", r, w.where()))
			}
		}()
		w.call(nil, w.ex.fn, nil, nil)
	}()
	w.logging = false
	st := &w.ex.st
	st.Steps.Add(w.steps)
	if end == "infeasible" {
		st.Infeasible.Add(1)
		w.rollback()
		return
	}
	if end != "violated" {
		if !w.discharge() {
			end = "violated"
		}
	}
	st.Paths.Add(1)
	atomicMax(&st.MaxPC, int64(len(w.pc)))
	vars := 0
	for _, k := range w.kinds {
		if k != 255 {
			vars++
		}
	}
	atomicMax(&st.MaxVars, int64(vars))
	w.sample(end)
	w.rollback()
	if len(w.ts.terms) > 3_000_000 || len(w.cache) > 400_000 {
		w.ts = newTermStore()
		w.cache = map[string]cacheEnt{}
	}
}

func (w *W) abortNote(msg string) {
	c, _ := w.ex.st.Aborted.LoadOrStore(msg, new(atomic.Int64))
	c.(*atomic.Int64).Add(1)
}

// sample keeps the concrete inputs and observed outputs of some paths, spread
// over the run, to be replayed against the compiled code.
func (w *W) sample(end string) {
	ex := w.ex
	bad := end != "ok"
	if bad && end != "violated" && end != "panic" && end != "steps" && end != "depth" && end != "hugealloc" {
		ex.mu.Lock()
		if len(ex.aborted) < 200 {
			ex.aborted = append(ex.aborted, PathSample{Inputs: w.inputVector(w.model), End: end})
		}
		ex.mu.Unlock()
		return
	}
	if bad {
		return
	}
	n := ex.st.Paths.Load()
	lim := int64(ex.eng.opts.MaxSample)
	// keep every path up to lim/2, then a thinning deterministic selection
	if n > lim/2 {
		step := n / (lim / 4)
		if step > 1 && n%step != 0 {
			return
		}
	}
	ps := PathSample{Inputs: w.inputVector(w.model), End: end}
	for _, o := range w.obs {
		ps.Obs = append(ps.Obs, w.renderObs(o))
	}
	ex.mu.Lock()
	if len(ex.samples) < ex.eng.opts.MaxSample {
		ex.samples = append(ex.samples, ps)
	} else {
		ex.samples[int(n)%len(ex.samples)] = ps
	}
	ex.mu.Unlock()
}

func (w *W) renderObs(o obsEnt) string {
	var sb strings.Builder
	sb.WriteString(o.label + "=")
	if o.isB {
		for _, b := range strBytes(o.v) {
			fmt.Fprintf(&sb, "%02x", w.eval(w.term(b, 8)))
		}
	} else {
		fmt.Fprintf(&sb, "%d", w.eval(w.term(o.v, o.w)))
	}
	return sb.String()
}

// ---- globals and package initialisation ----

func (w *W) global(g *Glob) *Val {
	if w.inited[g.pkg.idx] == 0 {
		w.initPkg(g.pkg)
	}
	p := w.globals[g.idx]
	if p == nil {
		p = new(Val)
		*p = g.zero()
		w.globals[g.idx] = p
	}
	return p
}

func (w *W) initPkg(p *PkgInfo) {
	if w.inited[p.idx] != 0 {
		return
	}
	w.inited[p.idx] = 1
	if p.initF == nil {
		return
	}
	lg, st, sl, al, stk := w.logging, w.steps, w.stepLimit, w.alloc, len(w.stack)
	w.logging = false
	w.initializing++
	w.stepLimit = 1 << 60
	defer func() {
		w.logging, w.steps, w.stepLimit, w.alloc = lg, st, sl, al
		w.initializing--
		w.stack = w.stack[:stk]
		w.inited[p.idx] = 2
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *pathAbort:
				w.initErr[p.path] = x.kind + ": " + x.msg
			case *targetPanic:
				w.initErr[p.path] = "panic: " + x.msg + " " + x.site
			default:
				w.initErr[p.path] = fmt.Sprint(r)
			}
		}
	}()
	w.call(nil, p.initF, nil, nil)
}

func (e *Engine) newWorker() (*W, error) {
	w := &W{eng: e, ts: newTermStore(), pcVars: map[int32][]int{}, cache: map[string]cacheEnt{}, initErr: map[string]string{}, sides: map[*Val]*any{}}
	w.globals = make([]*Val, e.nglob)
	w.inited = make([]uint8, len(e.pkgList))
	var err error
	if w.sol, err = newSolver(e.opts.Solver, e.opts.TimeoutMs); err != nil {
		return nil, err
	}
	if e.opts.Cross != "" {
		if w.cross, err = newSolver(e.opts.Cross, e.opts.TimeoutMs); err != nil {
			return nil, err
		}
	}
	return w, nil
}

var _ types.Type
