package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"strings"
)

type intrF = func(w *W, fr *frame, args []Val) Val

func bytesOf(v Val) []Val {
	switch s := v.X.(type) {
	case nil:
		return nil
	case Slice:
		return s
	}
	return strBytes(v)
}

func intVal(i int) Val { return Val{N: uint64(int64(i))} }

// nativeFn wraps a Go function as a callable interpreted function.
func nativeFn(name string, f intrF) Val {
	return Val{X: &Closure{fn: &Fn{name: name, intr: f, recover: -1}}}
}

func (w *W) eqByte(a, b Val) *Term {
	if a.X == nil && b.X == nil {
		return w.ts.Bool(a.N == b.N)
	}
	return w.ts.Eq(w.term(a, 8), w.term(b, 8))
}

func (w *W) indexByte(s []Val, c Val) int {
	for i := range s {
		if s[i].X == nil && c.X == nil {
			if s[i].N == c.N {
				return i
			}
			continue
		}
		if w.branch(w.eqByte(s[i], c)) {
			return i
		}
	}
	return -1
}

func (w *W) lastIndexByte(s []Val, c Val) int {
	for i := len(s) - 1; i >= 0; i-- {
		if w.branch(w.eqByte(s[i], c)) {
			return i
		}
	}
	return -1
}

func (w *W) countByte(s []Val, c Val) int {
	n := 0
	for i := range s {
		if w.branch(w.eqByte(s[i], c)) {
			n++
		}
	}
	return n
}

func (w *W) indexSub(s, sub []Val) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		t := w.ts.tru
		for j := range sub {
			t = w.ts.And(t, w.eqByte(s[i+j], sub[j]))
			if t == w.ts.fls {
				break
			}
		}
		if w.branch(t) {
			return i
		}
	}
	return -1
}

func (w *W) compareBytes(a, b []Val) Val {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if w.branch(w.eqByte(a[i], b[i])) {
			continue
		}
		if w.branch(w.ts.Bin(OpUlt, 0, w.term(a[i], 8), w.term(b[i], 8))) {
			return intVal(-1)
		}
		return intVal(1)
	}
	switch {
	case len(a) < len(b):
		return intVal(-1)
	case len(a) > len(b):
		return intVal(1)
	}
	return intVal(0)
}

func (w *W) eqBytes(a, b []Val) *Term {
	if len(a) != len(b) {
		return w.ts.fls
	}
	r := w.ts.tru
	for i := range a {
		if a[i].X == nil && b[i].X == nil {
			if a[i].N != b[i].N {
				return w.ts.fls
			}
		}
	}
	for i := len(a) - 1; i >= 0; i-- {
		if a[i].X == nil && b[i].X == nil {
			continue
		}
		r = w.ts.And(w.eqByte(a[i], b[i]), r)
	}
	return r
}

// rawEqBytes is the obligation form: byte equalities are kept for the solver
// rather than folded by the term simplifier.
func (w *W) rawEqBytes(a, b []Val) *Term {
	if len(a) != len(b) {
		return w.ts.fls
	}
	r := w.ts.tru
	for i := len(a) - 1; i >= 0; i-- {
		if a[i].X == nil && b[i].X == nil {
			if a[i].N != b[i].N {
				return w.ts.fls
			}
			continue
		}
		r = w.ts.And(w.ts.RawEq(w.term(a[i], 8), w.term(b[i], 8)), r)
	}
	return r
}

func cell(w *W, v Val) *Val {
	if v.X == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	return w.derefCell(v)
}

// side state attached to a cell (pools, locks, sync.Map), undone per path.
func (w *W) side(p *Val) *any {
	x := w.sides[p]
	if x == nil {
		x = new(any)
		w.sides[p] = x
		if w.logging {
			w.undoF(func() { delete(w.sides, p) })
		}
	}
	return x
}

func (w *W) setSide(p *Val, v any) {
	x := w.side(p)
	old := *x
	*x = v
	w.undoF(func() { *x = old })
}

type lockSt struct{ w, r int }

func (w *W) lock(p *Val, dw, dr int) {
	var s lockSt
	if v, ok := (*w.side(p)).(lockSt); ok {
		s = v
	}
	if dw > 0 && (s.w > 0 || s.r > 0) || dr > 0 && s.w > 0 {
		panic(abort("steps", "deadlock: lock held by the same goroutine at "+w.where()))
	}
	s.w += dw
	s.r += dr
	if w.par != nil {
		w.par.heldW += dw
		w.par.heldR += dr
	}
	if s.w < 0 || s.r < 0 {
		panic(&targetPanic{v: Val{X: &Iface{T: types.Typ[types.String], V: mkStrS("sync: unlock of unlocked mutex")}}, msg: "fatal: unlock of unlocked mutex", site: w.where()})
	}
	w.setSide(p, s)
}

func (w *W) tryLock(p *Val, dw, dr int) Val {
	s, _ := (*w.side(p)).(lockSt)
	if dw > 0 && (s.w > 0 || s.r > 0) || dr > 0 && s.w > 0 {
		return boolVal(false)
	}
	s.w += dw
	s.r += dr
	if w.par != nil {
		w.par.heldW += dw
		w.par.heldR += dr
	}
	w.setSide(p, s)
	return boolVal(true)
}

func intrinsics(e *Engine) map[string]intrF {
	m := map[string]intrF{}
	anyT := types.Universe.Lookup("any").Type()

	// ---- internal/bytealg ----
	ib := func(w *W, fr *frame, a []Val) Val { return intVal(w.indexByte(bytesOf(a[0]), a[1])) }
	m["internal/bytealg.IndexByte"] = ib
	m["internal/bytealg.IndexByteString"] = ib
	lib := func(w *W, fr *frame, a []Val) Val { return intVal(w.lastIndexByte(bytesOf(a[0]), a[1])) }
	m["internal/bytealg.LastIndexByte"] = lib
	m["internal/bytealg.LastIndexByteString"] = lib
	cnt := func(w *W, fr *frame, a []Val) Val { return intVal(w.countByte(bytesOf(a[0]), a[1])) }
	m["internal/bytealg.Count"] = cnt
	m["internal/bytealg.CountString"] = cnt
	ix := func(w *W, fr *frame, a []Val) Val { return intVal(w.indexSub(bytesOf(a[0]), bytesOf(a[1]))) }
	m["internal/bytealg.Index"] = ix
	m["internal/bytealg.IndexString"] = ix
	m["strings.Index"] = ix
	m["bytes.Index"] = ix
	cmp := func(w *W, fr *frame, a []Val) Val { return w.compareBytes(bytesOf(a[0]), bytesOf(a[1])) }
	m["internal/bytealg.Compare"] = cmp
	m["internal/bytealg.CompareString"] = cmp
	m["strings.Compare"] = cmp
	m["bytes.Compare"] = cmp
	eq := func(w *W, fr *frame, a []Val) Val { return fromTerm(w.eqBytes(bytesOf(a[0]), bytesOf(a[1]))) }
	m["internal/bytealg.Equal"] = eq
	m["bytes.Equal"] = eq
	m["internal/bytealg.MakeNoZero"] = func(w *W, fr *frame, a []Val) Val {
		n := w.makeLen(a[0], tinfo{kInt, 64, true}, 1)
		c := roundupsize(n)
		w.allocCheck(uint64(c))
		return Val{X: make(Slice, c)[:n:c]}
	}

	id := func(w *W, fr *frame, a []Val) Val { return a[0] }
	m["internal/abi.NoEscape"] = id
	m["internal/abi.Escape"] = id
	m["strings.Clone"] = func(w *W, fr *frame, a []Val) Val { w.alloc += uint64(strLen(a[0])); return a[0] }
	m["internal/stringslite.Clone"] = m["strings.Clone"]
	nop := func(w *W, fr *frame, a []Val) Val { return Val{} }
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Read", "internal/race.Write", "internal/race.Disable", "internal/race.Enable",
		"internal/msan.Read", "internal/msan.Write", "internal/asan.Read", "internal/asan.Write", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/godebug.registerMetric", "internal/cpu.Initialize"} {
		m[n] = nop
	}
	m["runtime.GOMAXPROCS"] = func(w *W, fr *frame, a []Val) Val { return intVal(8) }
	m["runtime.NumCPU"] = func(w *W, fr *frame, a []Val) Val { return intVal(8) }
	m["(*internal/godebug.Setting).Value"] = func(w *W, fr *frame, a []Val) Val { return Val{} }
	m["(*internal/godebug.Setting).IncNonDefault"] = nop
	m["internal/godebug.New"] = func(w *W, fr *frame, a []Val) Val { return Val{X: new(Val)} }
	m["os.Getenv"] = func(w *W, fr *frame, a []Val) Val { return Val{} }
	m["syscall.Getenv"] = func(w *W, fr *frame, a []Val) Val { return Val{X: Tuple{Val{}, Val{}}} }

	// ---- math ----
	m["math.Float64bits"] = id
	m["math.Float64frombits"] = id
	m["math.Float32bits"] = func(w *W, fr *frame, a []Val) Val { return Val{N: uint64(math.Float32bits(float32(f64(a[0]))))} }
	m["math.Float32frombits"] = func(w *W, fr *frame, a []Val) Val {
		return Val{N: math.Float64bits(float64(math.Float32frombits(uint32(a[0].N))))}
	}

	// ---- sync ----
	for _, pre := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(*internal/sync.Mutex)."} {
		m[pre+"Lock"] = func(w *W, fr *frame, a []Val) Val { w.lock(cell(w, a[0]), 1, 0); return Val{} }
		m[pre+"Unlock"] = func(w *W, fr *frame, a []Val) Val { w.lock(cell(w, a[0]), -1, 0); return Val{} }
		m[pre+"RLock"] = func(w *W, fr *frame, a []Val) Val { w.lock(cell(w, a[0]), 0, 1); return Val{} }
		m[pre+"RUnlock"] = func(w *W, fr *frame, a []Val) Val { w.lock(cell(w, a[0]), 0, -1); return Val{} }
		m[pre+"TryLock"] = func(w *W, fr *frame, a []Val) Val { return w.tryLock(cell(w, a[0]), 1, 0) }
		m[pre+"TryRLock"] = func(w *W, fr *frame, a []Val) Val { return w.tryLock(cell(w, a[0]), 0, 1) }
	}
	m["(*sync.Pool).Put"] = func(w *W, fr *frame, a []Val) Val {
		if a[1].X == nil {
			return Val{}
		}
		p := cell(w, a[0])
		old, _ := (*w.side(p)).([]Val)
		w.setSide(p, append(append([]Val(nil), old...), a[1]))
		return Val{}
	}
	m["(*sync.Pool).Get"] = func(w *W, fr *frame, a []Val) Val {
		p := cell(w, a[0])
		old, _ := (*w.side(p)).([]Val)
		if n := len(old); n > 0 {
			w.setSide(p, append([]Val(nil), old[:n-1]...))
			return old[n-1]
		}
		ag := p.X.(*Agg)
		nf := ag.f[len(ag.f)-1]
		if cl, ok := nf.X.(*Closure); ok {
			return w.call(fr, cl.fn, nil, cl.env)
		}
		return Val{}
	}
	smap := func(w *W, v Val) *MapV {
		p := cell(w, v)
		mv, _ := (*w.side(p)).(*MapV)
		if mv == nil {
			mv = newMap(anyT)
			w.setSide(p, mv)
		}
		return mv
	}
	m["(*sync.Map).Load"] = func(w *W, fr *frame, a []Val) Val {
		if e := w.mapFind(smap(w, a[0]), a[1]); e != nil {
			return Val{X: Tuple{e.v, boolVal(true)}}
		}
		return Val{X: Tuple{Val{}, boolVal(false)}}
	}
	m["(*sync.Map).Store"] = func(w *W, fr *frame, a []Val) Val { w.mapSet(smap(w, a[0]), a[1], a[2]); return Val{} }
	m["(*sync.Map).LoadOrStore"] = func(w *W, fr *frame, a []Val) Val {
		mv := smap(w, a[0])
		if e := w.mapFind(mv, a[1]); e != nil {
			return Val{X: Tuple{e.v, boolVal(true)}}
		}
		w.mapSet(mv, a[1], a[2])
		return Val{X: Tuple{a[2], boolVal(false)}}
	}
	m["(*sync.Map).LoadAndDelete"] = func(w *W, fr *frame, a []Val) Val {
		mv := smap(w, a[0])
		if e := w.mapFind(mv, a[1]); e != nil {
			v := e.v
			w.mapDelEnt(mv, e)
			return Val{X: Tuple{v, boolVal(true)}}
		}
		return Val{X: Tuple{Val{}, boolVal(false)}}
	}
	m["(*sync.Map).Delete"] = func(w *W, fr *frame, a []Val) Val { w.mapDelete(smap(w, a[0]), a[1]); return Val{} }
	m["(*sync.Map).Range"] = func(w *W, fr *frame, a []Val) Val {
		cl := a[1].X.(*Closure)
		for _, e := range append([]*ment(nil), smap(w, a[0]).ents...) {
			r := w.call(fr, cl.fn, []Val{e.k, e.v}, cl.env)
			if r.N == 0 {
				break
			}
		}
		return Val{}
	}
	// WaitGroup: goroutines run synchronously
	for _, n := range []string{"Add", "Done", "Wait"} {
		m["(*sync.WaitGroup)."+n] = nop
	}
	m["(*sync.WaitGroup).Go"] = func(w *W, fr *frame, a []Val) Val {
		w.note("goroutine run synchronously at its go statement")
		cl := a[1].X.(*Closure)
		return w.call(fr, cl.fn, nil, cl.env)
	}

	// ---- atomics ----
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		t := t
		m["sync/atomic.Load"+t.n] = func(w *W, fr *frame, a []Val) Val { return *cell(w, a[0]) }
		m["sync/atomic.Store"+t.n] = func(w *W, fr *frame, a []Val) Val { w.storeTo(cell(w, a[0]), a[1]); return Val{} }
		m["sync/atomic.Swap"+t.n] = func(w *W, fr *frame, a []Val) Val {
			p := cell(w, a[0])
			o := *p
			w.storeTo(p, a[1])
			return o
		}
		m["sync/atomic.CompareAndSwap"+t.n] = func(w *W, fr *frame, a []Val) Val {
			p := cell(w, a[0])
			var same bool
			if t.w == 0 {
				same = refEq(*p, a[1])
			} else {
				same = w.branch(w.ts.Eq(w.term(*p, t.w), w.term(a[1], t.w)))
			}
			if same {
				w.storeTo(p, a[2])
			}
			return boolVal(same)
		}
		if t.w != 0 {
			m["sync/atomic.Add"+t.n] = func(w *W, fr *frame, a []Val) Val {
				p := cell(w, a[0])
				v := fromTerm(w.ts.Bin(OpAdd, t.w, w.term(*p, t.w), w.term(a[1], t.w)))
				w.storeTo(p, v)
				return v
			}
		}
	}
	ptrField := func(w *W, v Val) *Val {
		ag := cell(w, v).X.(*Agg)
		return &ag.f[len(ag.f)-1]
	}
	m["(*sync/atomic.Pointer[T]).Load"] = func(w *W, fr *frame, a []Val) Val { return *ptrField(w, a[0]) }
	m["(*sync/atomic.Pointer[T]).Store"] = func(w *W, fr *frame, a []Val) Val { w.storeTo(ptrField(w, a[0]), a[1]); return Val{} }
	m["(*sync/atomic.Pointer[T]).Swap"] = func(w *W, fr *frame, a []Val) Val {
		p := ptrField(w, a[0])
		o := *p
		w.storeTo(p, a[1])
		return o
	}
	m["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(w *W, fr *frame, a []Val) Val {
		p := ptrField(w, a[0])
		if refEq(*p, a[1]) {
			w.storeTo(p, a[2])
			return boolVal(true)
		}
		return boolVal(false)
	}
	m["(*sync/atomic.Value).Load"] = func(w *W, fr *frame, a []Val) Val { return *ptrField(w, a[0]) }
	m["(*sync/atomic.Value).Store"] = func(w *W, fr *frame, a []Val) Val { w.storeTo(ptrField(w, a[0]), a[1]); return Val{} }

	for n, f := range m {
		if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "(*sync.Map).") && !strings.HasSuffix(n, "Range") {
			f := f
			m[n] = func(w *W, fr *frame, a []Val) Val {
				p := w.par
				if p == nil {
					return f(w, fr, a)
				}
				p.heldW++
				defer func() { p.heldW-- }()
				return f(w, fr, a)
			}
		}
	}

	// ---- errors, fmt ----
	m["errors.Is"] = func(w *W, fr *frame, a []Val) Val {
		if a[0].X == nil || a[1].X == nil {
			return boolVal(a[0].X == nil && a[1].X == nil)
		}
		c := types.Comparable(a[1].X.(*Iface).T)
		return w.call(fr, e.stdFn("errors", "is"), []Val{a[0], a[1], boolVal(c)}, nil)
	}
	m["errors.As"] = func(w *W, fr *frame, a []Val) Val {
		if a[0].X == nil {
			return boolVal(false)
		}
		ti, _ := a[1].X.(*Iface)
		if ti == nil {
			panic(&targetPanic{v: a[0], msg: "errors: target cannot be nil", site: w.where()})
		}
		pt, ok := ti.T.Underlying().(*types.Pointer)
		if !ok {
			panic(&targetPanic{v: a[0], msg: "errors: target must be a non-nil pointer", site: w.where()})
		}
		return boolVal(w.errorsAs(fr, a[0], a[1], ti, pt.Elem()))
	}
	m["fmt.Errorf"] = func(w *W, fr *frame, a []Val) Val { return w.errorf(fr, a) }
	pr := func(w *W, fr *frame, a []Val) Val { return Val{X: Tuple{Val{}, Val{}}} }
	m["fmt.Println"] = pr
	m["fmt.Printf"] = pr
	m["fmt.Print"] = pr

	// ---- reflection (type names only) ----
	tOf := func(pkg string) intrF {
		return func(w *W, fr *frame, a []Val) Val {
			i, _ := a[0].X.(*Iface)
			if i == nil {
				return Val{}
			}
			rt := e.typ(pkg, "rtype")
			if rt == nil {
				panic(abort("unsupported", "reflect"))
			}
			if pkg == "reflect" {
				rt = types.NewPointer(rt)
			}
			return Val{X: &Iface{T: rt, V: Val{X: i.T}}}
		}
	}
	m["reflect.TypeOf"] = tOf("reflect")
	m["internal/reflectlite.TypeOf"] = tOf("internal/reflectlite")
	qual := func(p *types.Package) string { return p.Name() }
	rstr := func(w *W, fr *frame, a []Val) Val {
		t, ok := a[0].X.(types.Type)
		if !ok {
			panic(abort("unsupported", "reflect"))
		}
		return mkStrS(types.TypeString(t, qual))
	}
	m["(*reflect.rtype).String"] = rstr
	m["(internal/reflectlite.rtype).String"] = rstr
	m["(internal/reflectlite.rtype).Comparable"] = func(w *W, fr *frame, a []Val) Val {
		return boolVal(types.Comparable(a[0].X.(types.Type)))
	}
	m["(*reflect.rtype).Comparable"] = m["(internal/reflectlite.rtype).Comparable"]
	m["(*reflect.rtype).Kind"] = func(w *W, fr *frame, a []Val) Val {
		t, ok := a[0].X.(types.Type)
		if !ok {
			panic(abort("unsupported", "reflect"))
		}
		return Val{N: reflectKind(t)}
	}
	swapper := func(w *W, fr *frame, a []Val) Val {
		i, _ := a[0].X.(*Iface)
		s, _ := i.V.X.(Slice)
		return nativeFn("swapper", func(w *W, fr *frame, a []Val) Val {
			x, y := int(int64(a[0].N)), int(int64(a[1].N))
			if x < 0 || y < 0 || x >= len(s) || y >= len(s) {
				w.rtPanic("index out of range")
			}
			t := copyVal(s[x])
			w.storeTo(&s[x], copyVal(s[y]))
			w.storeTo(&s[y], t)
			return Val{}
		})
	}
	m["internal/reflectlite.Swapper"] = swapper
	m["reflect.Swapper"] = swapper
	m["internal/reflectlite.ValueOf"] = func(w *W, fr *frame, a []Val) Val { return Val{X: a[0].X} }
	m["(internal/reflectlite.Value).Len"] = func(w *W, fr *frame, a []Val) Val {
		if i, ok := a[0].X.(*Iface); ok {
			s, _ := i.V.X.(Slice)
			return intVal(len(s))
		}
		panic(abort("unsupported", "reflectlite.Value.Len"))
	}

	// ---- nd: the harness interface ----
	const nd = "verif/harness/nd."
	m[nd+"Byte"] = func(w *W, fr *frame, a []Val) Val { return fromTerm(w.newVar(8)) }
	m[nd+"U64"] = func(w *W, fr *frame, a []Val) Val { return fromTerm(w.newVar(64)) }
	m[nd+"Bytes"] = func(w *W, fr *frame, a []Val) Val {
		n := int(a[0].N)
		s := make(Slice, n)
		for i := range s {
			s[i] = fromTerm(w.newVar(8))
		}
		return Val{X: s}
	}
	m[nd+"Str"] = func(w *W, fr *frame, a []Val) Val {
		n := int(a[0].N)
		s := make([]Val, n)
		for i := range s {
			s[i] = fromTerm(w.newVar(8))
		}
		return mkStr(s)
	}
	m[nd+"Choose"] = func(w *W, fr *frame, a []Val) Val {
		if a[0].X != nil {
			panic(abort("harness", "symbolic Choose"))
		}
		r := w.choose(int(a[0].N), false)
		w.newChoice(uint64(r))
		return intVal(r)
	}
	m[nd+"Lit"] = func(w *W, fr *frame, a []Val) Val {
		if len(w.eng.lits) == 0 {
			w.newChoice(0)
			return Val{}
		}
		s := w.eng.lits[w.choose(len(w.eng.lits), false)]
		w.newChoice(uint64(len(s)))
		for i := 0; i < len(s); i += 8 { // for the replay
			var c [8]byte
			copy(c[:], s[i:])
			w.newChoice(binary.LittleEndian.Uint64(c[:]))
		}
		return mkStrS(s)
	}
	m[nd+"Num"] = func(w *W, fr *frame, a []Val) Val {
		lo, hi := int(a[0].N), int(a[1].N)
		var l []int
		for _, n := range w.eng.nums {
			if lo <= n && n <= hi {
				l = append(l, n)
			}
		}
		if len(l) == 0 {
			w.newChoice(uint64(lo))
			return intVal(lo)
		}
		n := l[w.choose(len(l), false)]
		w.newChoice(uint64(n))
		return intVal(n)
	}
	m[nd+"Assume"] = func(w *W, fr *frame, a []Val) Val { w.assume(w.term(a[0], 0)); return Val{} }
	m[nd+"Assert"] = func(w *W, fr *frame, a []Val) Val {
		s, _ := goString(a[1])
		w.assert(w.term(a[0], 0), s)
		return Val{}
	}
	req := func(w *W, fr *frame, a []Val) Val { return fromTerm(w.rawEqBytes(bytesOf(a[0]), bytesOf(a[1]))) }
	m[nd+"Eq"] = req
	m[nd+"EqStr"] = req
	m[nd+"EqByte"] = func(w *W, fr *frame, a []Val) Val { return fromTerm(w.eqByte(a[0], a[1])) }
	m[nd+"In2"] = func(w *W, fr *frame, a []Val) Val {
		x, lo, hi := w.term(a[0], 8), w.term(a[1], 8), w.term(a[2], 8)
		return fromTerm(w.ts.And(w.ts.Not(w.ts.Bin(OpUlt, 0, x, lo)), w.ts.Not(w.ts.Bin(OpUlt, 0, hi, x))))
	}
	m[nd+"And"] = func(w *W, fr *frame, a []Val) Val { return fromTerm(w.ts.And(w.term(a[0], 0), w.term(a[1], 0))) }
	m[nd+"Or"] = func(w *W, fr *frame, a []Val) Val { return fromTerm(w.ts.Or(w.term(a[0], 0), w.term(a[1], 0))) }
	m[nd+"Not"] = func(w *W, fr *frame, a []Val) Val { return fromTerm(w.ts.Not(w.term(a[0], 0))) }
	m[nd+"Ite"] = func(w *W, fr *frame, a []Val) Val {
		return fromTerm(w.ts.Ite(w.term(a[0], 0), w.term(a[1], 8), w.term(a[2], 8)))
	}
	ob := func(w *W, fr *frame, a []Val) Val {
		l, _ := goString(a[0])
		b := append([]Val(nil), bytesOf(a[1])...)
		w.obs = append(w.obs, obsEnt{label: l, v: Val{X: &SStr{b}}, isB: true})
		return Val{}
	}
	m[nd+"Observe"] = ob
	m[nd+"ObserveStr"] = ob
	m[nd+"ObserveInt"] = func(w *W, fr *frame, a []Val) Val {
		l, _ := goString(a[0])
		w.obs = append(w.obs, obsEnt{label: l, v: a[1], w: 64})
		return Val{}
	}
	m[nd+"Cover"] = func(w *W, fr *frame, a []Val) Val {
		l, _ := goString(a[0])
		w.ex.st.Covers.Store(l, true)
		return Val{}
	}
	m[nd+"Param"] = func(w *W, fr *frame, a []Val) Val {
		l, _ := goString(a[0])
		if v, ok := w.eng.opts.Param[l]; ok {
			return intVal(v)
		}
		return a[1]
	}
	m[nd+"AllocMark"] = func(w *W, fr *frame, a []Val) Val { w.allocMark = w.alloc; return Val{} }
	m[nd+"Parallel"] = func(w *W, fr *frame, a []Val) Val { w.parRun(fr, a[0], a[1]); return Val{} }
	m[nd+"AllocSince"] = func(w *W, fr *frame, a []Val) Val { return Val{N: w.alloc - w.allocMark} }
	m[nd+"Symbolic"] = func(w *W, fr *frame, a []Val) Val { return boolVal(true) }
	return m
}

func (w *W) errorsAs(fr *frame, err, target Val, ti *Iface, et types.Type) bool {
	for err.X != nil {
		ei := err.X.(*Iface)
		if it, ok := et.Underlying().(*types.Interface); ok {
			if w.eng.implements(ei.T, it, et) {
				w.storeTo(cell(w, ti.V), err)
				return true
			}
		} else if sameType(ei.T, et) {
			w.storeTo(cell(w, ti.V), ei.V)
			return true
		}
		if fn := w.methodByName(ei.T, "As"); fn != nil && fn.ssa.Signature.Params().Len() == 1 {
			if r := w.call(fr, fn, []Val{ei.V, target}, nil); r.X == nil && r.N == 1 {
				return true
			}
		}
		fn := w.methodByName(ei.T, "Unwrap")
		if fn == nil {
			return false
		}
		r := w.call(fr, fn, []Val{ei.V}, nil)
		if s, ok := r.X.(Slice); ok {
			for _, x := range s {
				if x.X != nil && w.errorsAs(fr, x, target, ti, et) {
					return true
				}
			}
			return false
		}
		err = r
	}
	return false
}

func (w *W) methodByName(t types.Type, name string) *Fn {
	ms := types.NewMethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	return w.eng.method(t, f)
}

// errorf keeps the wrapping behaviour of fmt.Errorf; the text is opaque.
func (w *W) errorf(fr *frame, a []Val) Val {
	f, ok := goString(a[0])
	if !ok {
		f = "<symbolic format>"
	}
	args, _ := a[1].X.(Slice)
	var wrapped []Val
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && ai < len(args) {
			if ei, ok := args[ai].X.(*Iface); ok && ei != nil {
				if w.eng.implements(ei.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface), types.Universe.Lookup("error").Type()) {
					wrapped = append(wrapped, args[ai])
				}
			}
		}
		ai++
	}
	w.alloc += uint64(64 + len(f))
	for _, x := range args {
		if i, ok := x.X.(*Iface); ok && i != nil {
			if infoOf(i.T).k == kString {
				w.alloc += 4 * uint64(strLen(i.V))
			} else if s, ok := i.V.X.(Slice); ok {
				w.alloc += 4 * uint64(len(s))
			}
		}
	}
	msg := mkStrS("errorf:" + f)
	switch len(wrapped) {
	case 0:
		t := w.eng.typ("errors", "errorString")
		return Val{X: &Iface{T: types.NewPointer(t), V: Val{X: &Val{X: &Agg{[]Val{msg}}}}}}
	case 1:
		t := w.eng.typ("fmt", "wrapError")
		return Val{X: &Iface{T: types.NewPointer(t), V: Val{X: &Val{X: &Agg{[]Val{msg, wrapped[0]}}}}}}
	default:
		t := w.eng.typ("fmt", "wrapErrors")
		return Val{X: &Iface{T: types.NewPointer(t), V: Val{X: &Val{X: &Agg{[]Val{msg, {X: Slice(wrapped)}}}}}}}
	}
}

var _ = fmt.Sprint

// reflectKind numbers a type as package reflect does.
func reflectKind(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8, types.Int16, types.Int32, types.Int64:
			return 3 + uint64(u.Kind()-types.Int8)
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return 7 + uint64(u.Kind()-types.Uint)
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	panic(abort("unsupported", "reflect kind of "+t.String()))
}
