package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type exec func(w *W, fr *frame)

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tRet
	tPanic
)

type phi struct {
	dst  int
	srcs []opnd
}

type blk struct {
	ins   []exec
	pos   []token.Pos
	phis  []phi
	term  termKind
	cond  opnd
	succ  [2]int
	predI [2]int // index of this block among succ's preds
	ret   []opnd
	pv    opnd
	n     int
	hits  atomic.Int64
}

type Fn struct {
	ssa      *ssa.Function
	name     string
	pkgPath  string
	once     sync.Once
	blocks   []*blk
	nslots   int
	nparam   int
	hasDefer bool
	recover  int
	resZero  func() Val
	intr     func(w *W, fr *frame, args []Val) Val
	calls    atomic.Int64
	noBody   bool
	isInit   bool
}

type deferred struct {
	f    func(w *W, fr *frame)
	site *frame
}

type frame struct {
	r         []Val
	fn        *Fn
	caller    *frame
	defers    []deferred
	panicking *targetPanic
	inDefers  bool
}

type opKind uint8

const (
	oSlot opKind = iota
	oConst
	oGlobal
)

type opnd struct {
	kind opKind
	slot int
	c    Val
	g    *Glob
}

type Glob struct {
	idx  int
	pkg  *PkgInfo
	name string
	zero func() Val
}

type PkgInfo struct {
	idx   int
	pkg   *ssa.Package
	path  string
	std   bool
	initF *Fn
	globs []*Glob
}

func (o *opnd) get(w *W, fr *frame) Val {
	switch o.kind {
	case oSlot:
		return fr.r[o.slot]
	case oConst:
		return o.c
	default:
		return Val{X: w.global(o.g)}
	}
}

type undoEnt struct {
	p   *Val
	old Val
	f   func()
}

// ---- engine-wide (shared) state ----

type Engine struct {
	prog      *ssa.Program
	mu        sync.Mutex
	fns       sync.Map // *ssa.Function -> *Fn
	globs     map[*ssa.Global]*Glob
	pkgs      map[*ssa.Package]*PkgInfo
	pkgList   []*PkgInfo
	nglob     int
	methods   sync.Map // methKey -> *Fn
	impl      sync.Map // implKey -> bool
	sizes     types.Sizes
	intr      map[string]func(w *W, fr *frame, args []Val) Val
	rtErrType types.Type
	opts      Options
	lits      []string // string constants of the package under check
	nums      []int    // and its integer constants
}

type methKey struct {
	t types.Type
	m *types.Func
}
type implKey struct{ t, i types.Type }

func (e *Engine) fn(f *ssa.Function) *Fn {
	if x, ok := e.fns.Load(f); ok {
		return x.(*Fn)
	}
	n := &Fn{ssa: f, name: f.String(), recover: -1}
	if f.Pkg != nil {
		n.pkgPath = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		n.pkgPath = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		n.pkgPath = f.Object().Pkg().Path()
	} else if p := f.Parent(); p != nil && p.Pkg != nil {
		n.pkgPath = p.Pkg.Pkg.Path()
	}
	key := n.name
	if o := f.Origin(); o != nil {
		key = o.String()
	}
	if in, ok := e.intr[key]; ok {
		n.intr = in
	}
	n.isInit = f.Synthetic == "package initializer"
	x, _ := e.fns.LoadOrStore(f, n)
	return x.(*Fn)
}

func (e *Engine) method(t types.Type, m *types.Func) *Fn {
	k := methKey{t, m}
	if x, ok := e.methods.Load(k); ok {
		return x.(*Fn)
	}
	e.mu.Lock()
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.mu.Unlock()
	if f == nil {
		return nil
	}
	fn := e.fn(f)
	e.methods.Store(k, fn)
	return fn
}

func (e *Engine) implements(t types.Type, i *types.Interface, it types.Type) bool {
	k := implKey{t, it}
	if x, ok := e.impl.Load(k); ok {
		return x.(bool)
	}
	r := types.Implements(t, i)
	e.impl.Store(k, r)
	return r
}

// ---- compilation ----

type compiler struct {
	e     *Engine
	f     *Fn
	slots map[ssa.Value]int
}

func (e *Engine) compile(f *Fn) {
	f.once.Do(func() {
		sf := f.ssa
		if len(sf.Blocks) == 0 {
			f.noBody = true
			return
		}
		c := &compiler{e: e, f: f, slots: map[ssa.Value]int{}}
		for _, p := range sf.Params {
			c.newSlot(p)
		}
		f.nparam = len(sf.Params)
		for _, p := range sf.FreeVars {
			c.newSlot(p)
		}
		for _, b := range sf.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					c.newSlot(v)
				}
				if _, ok := in.(*ssa.Defer); ok {
					f.hasDefer = true
				}
			}
		}
		res := sf.Signature.Results()
		switch res.Len() {
		case 0:
			f.resZero = func() Val { return Val{} }
		case 1:
			f.resZero = zeroFn(res.At(0).Type())
		default:
			f.resZero = zeroFn(res)
		}
		blocks := make([]*blk, len(sf.Blocks))
		for i, b := range sf.Blocks {
			blocks[i] = c.block(b)
		}
		if sf.Recover != nil {
			f.recover = sf.Recover.Index
		}
		f.nslots = len(c.slots)
		f.blocks = blocks
	})
}

func (c *compiler) newSlot(v ssa.Value) int {
	n := len(c.slots)
	c.slots[v] = n
	return n
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{kind: oConst}
	case *ssa.Const:
		return opnd{kind: oConst, c: constVal(x)}
	case *ssa.Global:
		return opnd{kind: oGlobal, g: c.e.glob(x)}
	case *ssa.Function:
		return opnd{kind: oConst, c: Val{X: &Closure{fn: c.e.fn(x)}}}
	case *ssa.Builtin:
		return opnd{kind: oConst}
	}
	s, ok := c.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %T %v in %s", v, v, c.f.name))
	}
	return opnd{kind: oSlot, slot: s}
}

func (e *Engine) glob(g *ssa.Global) *Glob {
	if x, ok := e.globs[g]; ok {
		return x
	}
	panic("unknown global " + g.String())
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		// zero value of any type
		return zeroFn(c.Type())()
	}
	in := infoOf(c.Type())
	switch in.k {
	case kBool:
		return boolVal(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return Val{N: mask(in.w, u)}
		}
		i, _ := constant.Int64Val(v)
		return Val{N: mask(in.w, uint64(i))}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if in.w == 32 {
			f = float64(float32(f))
		}
		return Val{N: math.Float64bits(f)}
	case kString:
		if c.Value.Kind() == constant.String {
			return mkStrS(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStrS(string(rune(i)))
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Val{X: complex(re, im)}
	case kUnsafe:
		return Val{}
	}
	panic(abort("const", c.String()))
}

func (c *compiler) block(b *ssa.BasicBlock) *blk {
	r := &blk{}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			p := phi{dst: c.slots[x]}
			for _, e := range x.Edges {
				p.srcs = append(p.srcs, c.op(e))
			}
			r.phis = append(r.phis, p)
		case *ssa.Jump:
			r.term = tJump
			r.succ[0] = b.Succs[0].Index
			r.predI[0] = predIndex(b, b.Succs[0], 0)
		case *ssa.If:
			r.term = tIf
			r.cond = c.op(x.Cond)
			r.succ[0], r.succ[1] = b.Succs[0].Index, b.Succs[1].Index
			r.predI[0] = predIndex(b, b.Succs[0], 0)
			if b.Succs[0] == b.Succs[1] {
				r.predI[1] = predIndex(b, b.Succs[1], 1)
			} else {
				r.predI[1] = predIndex(b, b.Succs[1], 0)
			}
		case *ssa.Return:
			r.term = tRet
			for _, v := range x.Results {
				r.ret = append(r.ret, c.op(v))
			}
		case *ssa.Panic:
			r.term = tPanic
			r.pv = c.op(x.X)
		case *ssa.DebugRef:
		default:
			e := c.instr(in)
			if e != nil {
				r.ins = append(r.ins, e)
				r.pos = append(r.pos, in.Pos())
			}
		}
	}
	r.n = len(r.ins) + len(r.phis) + 1
	return r
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("predIndex")
}

func f64(v Val) float64 { return math.Float64frombits(v.N) }

func unsupported(msg string) exec {
	return func(w *W, fr *frame) { panic(abort("unsupported", msg+" in "+fr.fn.name)) }
}

func (c *compiler) instr(in ssa.Instruction) exec {
	switch x := in.(type) {
	case *ssa.Alloc:
		dst := c.slots[x]
		et := x.Type().Underlying().(*types.Pointer).Elem()
		z := zeroFn(et)
		sz := uint64(0)
		if x.Heap {
			sz = uint64(c.e.sizeof(et))
		}
		return func(w *W, fr *frame) {
			p := new(Val)
			*p = z()
			w.alloc += sz
			fr.r[dst] = Val{X: p}
		}
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		call := c.callCommon(&x.Call)
		dst := c.slots[x]
		return func(w *W, fr *frame) { fr.r[dst] = call(w, fr) }
	case *ssa.Defer:
		prep := c.deferCommon(&x.Call)
		if x.DeferStack != nil {
			ds := c.op(x.DeferStack)
			return func(w *W, fr *frame) {
				target := ds.get(w, fr).X.(*frame)
				target.defers = append(target.defers, deferred{f: prep(w, fr)})
			}
		}
		return func(w *W, fr *frame) { fr.defers = append(fr.defers, deferred{f: prep(w, fr)}) }
	case *ssa.Go:
		prep := c.deferCommon(&x.Call)
		return func(w *W, fr *frame) {
			// One schedule only: the goroutine runs to completion at its start.
			w.note("goroutine run synchronously at its go statement")
			prep(w, fr)(w, fr)
		}
	case *ssa.RunDefers:
		return func(w *W, fr *frame) { w.runDefers(fr) }
	case *ssa.ChangeType:
		return c.move(x, x.X)
	case *ssa.ChangeInterface:
		return c.move(x, x.X)
	case *ssa.MakeInterface:
		s, dst, t := c.op(x.X), c.slots[x], x.X.Type()
		return func(w *W, fr *frame) {
			fr.r[dst] = Val{X: &Iface{T: t, V: s.get(w, fr)}}
		}
	case *ssa.Convert:
		return c.convert(x, x.X, x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return c.convert(x, x.X, x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		s, dst := c.op(x.X), c.slots[x]
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(w *W, fr *frame) {
			v := s.get(w, fr)
			if v.X == nil {
				if n > 0 {
					w.rtPanic("cannot convert slice to array pointer")
				}
				fr.r[dst] = Val{}
				return
			}
			sl := v.X.(Slice)
			if len(sl) < n {
				w.rtPanic("cannot convert slice with length to array pointer")
			}
			fr.r[dst] = Val{X: &Val{X: &Agg{sl[:n:n]}}}
		}
	case *ssa.Extract:
		s, dst, i := c.op(x.Tuple), c.slots[x], x.Index
		return func(w *W, fr *frame) { fr.r[dst] = s.get(w, fr).X.(Tuple)[i] }
	case *ssa.Field:
		s, dst, i := c.op(x.X), c.slots[x], x.Field
		return func(w *W, fr *frame) { fr.r[dst] = s.get(w, fr).X.(*Agg).f[i] }
	case *ssa.FieldAddr:
		s, dst, i := c.op(x.X), c.slots[x], x.Field
		return func(w *W, fr *frame) {
			v := s.get(w, fr)
			if v.X == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			p, ok := v.X.(*Val)
			if !ok {
				p = w.derefCell(v)
			}
			a, ok := p.X.(*Agg)
			if !ok {
				panic(abort("unsupported", fmt.Sprintf("FieldAddr on %T in %s", p.X, fr.fn.name)))
			}
			fr.r[dst] = Val{X: &a.f[i]}
		}
	case *ssa.Index:
		s, ix, dst := c.op(x.X), c.op(x.Index), c.slots[x]
		ixi := infoOf(x.Index.Type())
		isStr := infoOf(x.X.Type()).k == kString
		ew := uint8(8)
		if !isStr {
			ew = infoOf(x.Type()).w
		}
		return func(w *W, fr *frame) {
			base := s.get(w, fr)
			var arr []Val
			iv := ix.get(w, fr)
			if isStr {
				if iv.X == nil {
					i := sx(ixi.w, iv.N)
					if !ixi.signed {
						i = int64(iv.N)
					}
					if i < 0 || i >= int64(strLen(base)) {
						w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, strLen(base)))
					}
					fr.r[dst] = strAt(base, int(i))
					return
				}
				arr = strBytes(base)
			} else {
				arr = base.X.(*Agg).f
			}
			fr.r[dst] = w.index(arr, iv, ixi, ew)
		}
	case *ssa.IndexAddr:
		s, ix, dst := c.op(x.X), c.op(x.Index), c.slots[x]
		ixi := infoOf(x.Index.Type())
		_, isPtr := x.X.Type().Underlying().(*types.Pointer)
		scalar := false
		switch infoOf(deref(x.Type())).k {
		case kInt, kBool:
			scalar = true
		}
		return func(w *W, fr *frame) {
			base := s.get(w, fr)
			var arr []Val
			if isPtr {
				if base.X == nil {
					w.rtPanic("invalid memory address or nil pointer dereference")
				}
				a, ok := w.derefCell(base).X.(*Agg)
				if !ok {
					panic(abort("unsupported", "IndexAddr on non-array in "+fr.fn.name))
				}
				arr = a.f
			} else if base.X != nil {
				arr = base.X.(Slice)
			}
			iv := ix.get(w, fr)
			if iv.X != nil {
				t := w.boundsCheck(iv, ixi, len(arr))
				if scalar {
					fr.r[dst] = Val{X: &SymPtr{arr: arr, idx: t}}
					return
				}
				i := w.concretize(t, "index")
				fr.r[dst] = Val{X: &arr[i]}
				return
			}
			i := int64(iv.N)
			if ixi.signed {
				i = sx(ixi.w, iv.N)
			}
			if i < 0 || i >= int64(len(arr)) {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(arr)))
			}
			fr.r[dst] = Val{X: &arr[i]}
		}
	case *ssa.Lookup:
		s, k, dst := c.op(x.X), c.op(x.Index), c.slots[x]
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			// string index
			ixi := infoOf(x.Index.Type())
			return func(w *W, fr *frame) {
				fr.r[dst] = w.index(strBytes(s.get(w, fr)), k.get(w, fr), ixi, 8)
			}
		}
		z := zeroFn(x.X.Type().Underlying().(*types.Map).Elem())
		commaok := x.CommaOk
		return func(w *W, fr *frame) {
			m, _ := s.get(w, fr).X.(*MapV)
			e := w.mapFind(m, k.get(w, fr))
			var v Val
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = z()
			}
			if commaok {
				fr.r[dst] = Val{X: Tuple{v, boolVal(e != nil)}}
			} else {
				fr.r[dst] = v
			}
		}
	case *ssa.MakeMap:
		dst := c.slots[x]
		kt := x.Type().Underlying().(*types.Map).Key()
		var rsv opnd
		has := x.Reserve != nil
		if has {
			rsv = c.op(x.Reserve)
		}
		return func(w *W, fr *frame) {
			w.alloc += 48
			if has {
				r := rsv.get(w, fr)
				if r.X == nil && int64(r.N) > 0 {
					w.allocCheck(r.N * 32)
				} else if r.X != nil {
					w.allocTerm(w.term(r, 64), 32)
				}
			}
			fr.r[dst] = Val{X: newMap(kt)}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(w *W, fr *frame) {
			mv, _ := m.get(w, fr).X.(*MapV)
			w.mapSet(mv, k.get(w, fr), v.get(w, fr))
		}
	case *ssa.MakeSlice:
		l, cp, dst := c.op(x.Len), c.op(x.Cap), c.slots[x]
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := zeroFn(et)
		esz := uint64(c.e.sizeof(et))
		agg := infoOf(et).k == kStruct || infoOf(et).k == kArray
		li, ci := infoOf(x.Len.Type()), infoOf(x.Cap.Type())
		return func(w *W, fr *frame) {
			n := w.makeLen(l.get(w, fr), li, esz)
			m := w.makeLen(cp.get(w, fr), ci, esz)
			if m < n {
				w.rtPanic("makeslice: cap out of range")
			}
			w.allocCheck(uint64(m) * esz)
			s := make(Slice, m)
			if agg {
				for i := range s {
					s[i] = z()
				}
			}
			fr.r[dst] = Val{X: s[:n]}
		}
	case *ssa.MakeClosure:
		dst := c.slots[x]
		fn := c.e.fn(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(w *W, fr *frame) {
			env := make([]Val, len(bs))
			for i := range bs {
				env[i] = bs[i].get(w, fr)
			}
			fr.r[dst] = Val{X: &Closure{fn, env}}
		}
	case *ssa.MakeChan:
		sz, dst := c.op(x.Size), c.slots[x]
		return func(w *W, fr *frame) { fr.r[dst] = Val{X: &ChanV{cap: int(sz.get(w, fr).N)}} }
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(w *W, fr *frame) {
			cv, _ := ch.get(w, fr).X.(*ChanV)
			if cv == nil {
				panic(abort("unsupported", "send on nil channel"))
			}
			if cv.closed {
				w.rtPanic("send on closed channel")
			}
			if len(cv.q) >= cv.cap {
				panic(abort("unsupported", "blocking channel send"))
			}
			old := cv.q
			cv.q = append(append([]Val(nil), cv.q...), copyVal(v.get(w, fr)))
			w.undoF(func() { cv.q = old })
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.Store:
		p, v := c.op(x.Addr), c.op(x.Val)
		return func(w *W, fr *frame) {
			pv := p.get(w, fr)
			switch q := pv.X.(type) {
			case *Val:
				w.storeTo(q, v.get(w, fr))
			case nil:
				w.rtPanic("invalid memory address or nil pointer dereference")
			case *SymPtr:
				i := w.concretize(q.idx, "store index")
				w.storeTo(&q.arr[i], v.get(w, fr))
			default:
				panic(abort("unsupported", fmt.Sprintf("store through %T in %s", pv.X, fr.fn.name)))
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Range:
		s, dst := c.op(x.X), c.slots[x]
		return func(w *W, fr *frame) {
			v := s.get(w, fr)
			switch m := v.X.(type) {
			case *MapV:
				fr.r[dst] = Val{X: &mapIter{m: m, rest: append([]*ment(nil), m.ents...)}}
			case nil:
				fr.r[dst] = Val{X: &mapIter{}}
			default:
				fr.r[dst] = Val{X: &strIter{s: v}}
			}
		}
	case *ssa.Next:
		return c.next(x)
	case *ssa.Select:
		return unsupported("select")
	}
	return unsupported(fmt.Sprintf("%T", in))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *compiler) move(x ssa.Value, src ssa.Value) exec {
	s, dst := c.op(src), c.slots[x]
	return func(w *W, fr *frame) { fr.r[dst] = s.get(w, fr) }
}

func (e *Engine) sizeof(t types.Type) (n int64) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return e.sizes.Sizeof(t)
}

func (w *W) derefCell(v Val) *Val {
	switch p := v.X.(type) {
	case *Val:
		return p
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		i := w.concretize(p.idx, "pointer index")
		return &p.arr[i]
	}
	panic(abort("unsupported", fmt.Sprintf("deref of %T at %s", v.X, w.where())))
}

// boundsCheck forks an out-of-range panic path and returns the 64-bit index term.
func (w *W) boundsCheck(iv Val, in tinfo, n int) *Term {
	t := iv.X.(*Term)
	if in.w < 64 {
		if in.signed {
			t = w.ts.Bin(OpSext, 64, t, nil)
		} else {
			t = w.ts.Bin(OpZext, 64, t, nil)
		}
	}
	ok := w.ts.Bin(OpUlt, 0, t, w.ts.Const(64, uint64(n)))
	if !w.branch(ok) {
		w.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return t
}

func (w *W) index(arr []Val, iv Val, ixi tinfo, ew uint8) Val {
	if iv.X == nil {
		i := int64(iv.N)
		if ixi.signed {
			i = sx(ixi.w, iv.N)
		}
		if i < 0 || i >= int64(len(arr)) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(arr)))
		}
		return arr[i]
	}
	t := w.boundsCheck(iv, ixi, len(arr))
	return w.selectArr(arr, t, ew)
}

// selectArr builds arr[idx] for a symbolic in-range idx.
func (w *W) selectArr(arr []Val, idx *Term, ew uint8) Val {
	for i := range arr {
		if arr[i].X != nil {
			if _, ok := arr[i].X.(*Term); !ok {
				return arr[w.concretize(idx, "index")]
			}
		}
	}
	// range of indices worth considering: if idx is a zero-extended narrow term
	n := len(arr)
	if idx.op == OpZext && idx.a[0].w < 16 {
		if m := 1 << idx.a[0].w; m < n {
			n = m
		}
	}
	if n == 0 {
		panic(abort("infeasible", "empty select"))
	}
	// piecewise: runs that are constant, affine with slope 1, or symbolic singletons
	type run struct {
		lo, hi int
		v      *Term
	}
	var runs []run
	for i := 0; i < n; {
		if arr[i].X != nil {
			runs = append(runs, run{i, i, arr[i].X.(*Term)})
			i++
			continue
		}
		jc := i
		for jc+1 < n && arr[jc+1].X == nil && arr[jc+1].N == arr[i].N {
			jc++
		}
		ja := i
		for ja+1 < n && arr[ja+1].X == nil && arr[ja+1].N == mask(maxw(ew), arr[i].N+uint64(ja+1-i)) {
			ja++
		}
		if ja > jc && ew > 0 {
			var it *Term
			if ew < 64 {
				it = w.ts.Bin(OpTrunc, ew, idx, nil)
			} else {
				it = idx
			}
			runs = append(runs, run{i, ja, w.ts.Bin(OpAdd, ew, it, w.ts.Const(ew, arr[i].N-uint64(i)))})
			i = ja + 1
		} else {
			runs = append(runs, run{i, jc, w.ts.Const(ew, arr[i].N)})
			i = jc + 1
		}
	}
	if len(runs) > 300 {
		return arr[w.concretize(idx, "large table index")]
	}
	r := runs[len(runs)-1].v
	for k := len(runs) - 2; k >= 0; k-- {
		c := w.ts.Bin(OpUlt, 0, idx, w.ts.Const(64, uint64(runs[k].hi+1)))
		r = w.ts.Ite(c, runs[k].v, r)
	}
	return fromTerm(r)
}

func (w *W) makeLen(v Val, in tinfo, esz uint64) int {
	if v.X != nil {
		t := w.term(v, in.w)
		if in.w < 64 {
			if in.signed {
				t = w.ts.Bin(OpSext, 64, t, nil)
			} else {
				t = w.ts.Bin(OpZext, 64, t, nil)
			}
		}
		if w.branch(w.ts.Bin(OpSlt, 0, t, w.ts.Const(64, 0))) {
			w.rtPanic("makeslice: len out of range")
		}
		w.allocTerm(t, esz)
		return int(w.concretize(t, "make length"))
	}
	n := int64(v.N)
	if in.signed {
		n = sx(in.w, v.N)
	}
	if n < 0 || (esz > 0 && uint64(n) > (1<<47)/esz) {
		w.rtPanic("makeslice: len out of range")
	}
	return int(n)
}

// allocTerm deals with an allocation of n*esz bytes, n symbolic.
func (w *W) allocTerm(n *Term, esz uint64) {
	lim := uint64(w.eng.opts.AllocLimit)
	if esz > 0 {
		lim /= esz
	}
	if w.branch(w.ts.Bin(OpUlt, 0, w.ts.Const(64, lim), n)) {
		w.hugeAlloc("allocation larger than the engine limit, size symbolic")
	}
}

func (w *W) allocCheck(n uint64) {
	w.alloc += n
	if n > uint64(w.eng.opts.AllocLimit) {
		w.hugeAlloc(fmt.Sprintf("allocation of %d bytes", n))
	}
}

func (w *W) hugeAlloc(msg string) {
	panic(&pathAbort{"hugealloc", msg + " at " + w.where()})
}

// ---- operators ----

func (c *compiler) binop(x *ssa.BinOp) exec {
	a, b, dst := c.op(x.X), c.op(x.Y), c.slots[x]
	t := x.X.Type()
	in := infoOf(t)
	op := x.Op
	neg := op == token.NEQ
	if op == token.EQL || op == token.NEQ {
		// comparing with nil constants: pick the non-nil operand's type
		if in.k == kUnsafe {
			t = x.Y.Type()
			in = infoOf(t)
		}
		_, xi := x.X.Type().Underlying().(*types.Interface)
		_, yi := x.Y.Type().Underlying().(*types.Interface)
		if xi != yi {
			if xi {
				t = x.X.Type()
			} else {
				t = x.Y.Type()
			}
			panic(fmt.Sprintf("mixed interface comparison %s", x))
		}
		switch in.k {
		case kInt:
			wd := in.w
			return func(w *W, fr *frame) {
				p, q := a.get(w, fr), b.get(w, fr)
				if p.X == nil && q.X == nil {
					fr.r[dst] = boolVal((p.N == q.N) != neg)
					return
				}
				r := w.ts.Eq(w.term(p, wd), w.term(q, wd))
				if neg {
					r = w.ts.Not(r)
				}
				fr.r[dst] = fromTerm(r)
			}
		default:
			return func(w *W, fr *frame) {
				r := w.eqVals(t, a.get(w, fr), b.get(w, fr))
				if neg {
					r = w.ts.Not(r)
				}
				fr.r[dst] = fromTerm(r)
			}
		}
	}
	switch in.k {
	case kString:
		return func(w *W, fr *frame) {
			p, q := a.get(w, fr), b.get(w, fr)
			var r *Term
			switch op {
			case token.ADD:
				v := strConcat(p, q)
				w.alloc += uint64(strLen(v))
				fr.r[dst] = v
				return
			case token.LSS:
				r = w.strLess(p, q)
			case token.GTR:
				r = w.strLess(q, p)
			case token.LEQ:
				r = w.ts.Not(w.strLess(q, p))
			case token.GEQ:
				r = w.ts.Not(w.strLess(p, q))
			}
			fr.r[dst] = fromTerm(r)
		}
	case kFloat:
		return func(w *W, fr *frame) {
			p, q := f64(a.get(w, fr)), f64(b.get(w, fr))
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.LSS:
				fr.r[dst] = boolVal(p < q)
				return
			case token.LEQ:
				fr.r[dst] = boolVal(p <= q)
				return
			case token.GTR:
				fr.r[dst] = boolVal(p > q)
				return
			case token.GEQ:
				fr.r[dst] = boolVal(p >= q)
				return
			}
			if in.w == 32 {
				r = float64(float32(r))
			}
			fr.r[dst] = Val{N: math.Float64bits(r)}
		}
	case kInt:
		return c.intBinop(x, a, b, dst, in)
	case kBool:
		// & | on booleans do not exist in SSA for bools except via && (control flow)
		return func(w *W, fr *frame) {
			p, q := w.term(a.get(w, fr), 0), w.term(b.get(w, fr), 0)
			switch op {
			case token.AND, token.LAND:
				fr.r[dst] = fromTerm(w.ts.And(p, q))
			case token.OR, token.LOR:
				fr.r[dst] = fromTerm(w.ts.Or(p, q))
			default:
				panic(abort("unsupported", "bool op"))
			}
		}
	}
	return unsupported("binop " + x.String())
}

func (c *compiler) intBinop(x *ssa.BinOp, a, b opnd, dst int, in tinfo) exec {
	wd, signed := in.w, in.signed
	op := x.Op
	yi := infoOf(x.Y.Type())
	var top Op
	swap, negate := false, false
	cmp := false
	switch op {
	case token.ADD:
		top = OpAdd
	case token.SUB:
		top = OpSub
	case token.MUL:
		top = OpMul
	case token.QUO:
		top = OpUDiv
		if signed {
			top = OpSDiv
		}
	case token.REM:
		top = OpURem
		if signed {
			top = OpSRem
		}
	case token.AND:
		top = OpAnd
	case token.OR:
		top = OpOr
	case token.XOR:
		top = OpXor
	case token.AND_NOT:
		return func(w *W, fr *frame) {
			p, q := a.get(w, fr), b.get(w, fr)
			if p.X == nil && q.X == nil {
				fr.r[dst] = Val{N: p.N &^ q.N}
				return
			}
			fr.r[dst] = fromTerm(w.ts.Bin(OpAnd, wd, w.term(p, wd), w.ts.Bin(OpNot, wd, w.term(q, wd), nil)))
		}
	case token.SHL, token.SHR:
		top = OpShl
		if op == token.SHR {
			top = OpLshr
			if signed {
				top = OpAshr
			}
		}
		return func(w *W, fr *frame) {
			p, q := a.get(w, fr), b.get(w, fr)
			if yi.signed {
				if q.X == nil {
					if sx(yi.w, q.N) < 0 {
						w.rtPanic("negative shift amount")
					}
				} else if w.branch(w.ts.Bin(OpSlt, 0, q.X.(*Term), w.ts.Const(yi.w, 0))) {
					w.rtPanic("negative shift amount")
				}
			}
			if p.X == nil && q.X == nil {
				fr.r[dst] = Val{N: evalOp(top, wd, wd, p.N, q.N)}
				return
			}
			// bring the count to the width of the left operand, saturating
			var cnt *Term
			if q.X == nil {
				n := q.N
				if n > uint64(wd) {
					n = uint64(wd)
				}
				cnt = w.ts.Const(wd, n)
			} else {
				qt := q.X.(*Term)
				switch {
				case yi.w < wd:
					cnt = w.ts.Bin(OpZext, wd, qt, nil)
				case yi.w > wd:
					big := w.ts.Bin(OpUlt, 0, w.ts.Const(yi.w, uint64(wd)), qt)
					cnt = w.ts.Ite(big, w.ts.Const(wd, uint64(wd)), w.ts.Bin(OpTrunc, wd, qt, nil))
				default:
					cnt = qt
				}
			}
			fr.r[dst] = fromTerm(w.ts.Bin(top, wd, w.term(p, wd), cnt))
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		cmp = true
		top = OpUlt
		if signed {
			top = OpSlt
		}
		switch op {
		case token.GTR:
			swap = true
		case token.LEQ:
			swap, negate = true, true
		case token.GEQ:
			negate = true
		}
	default:
		return unsupported("int op " + op.String())
	}
	if cmp {
		return func(w *W, fr *frame) {
			p, q := a.get(w, fr), b.get(w, fr)
			if swap {
				p, q = q, p
			}
			if p.X == nil && q.X == nil {
				var r bool
				if signed {
					r = sx(wd, p.N) < sx(wd, q.N)
				} else {
					r = p.N < q.N
				}
				fr.r[dst] = boolVal(r != negate)
				return
			}
			r := w.ts.Bin(top, 0, w.term(p, wd), w.term(q, wd))
			if negate {
				r = w.ts.Not(r)
			}
			fr.r[dst] = fromTerm(r)
		}
	}
	isDiv := op == token.QUO || op == token.REM
	return func(w *W, fr *frame) {
		p, q := a.get(w, fr), b.get(w, fr)
		if isDiv {
			if q.X == nil {
				if q.N == 0 {
					w.rtPanic("integer divide by zero")
				}
			} else if w.branch(w.ts.Eq(q.X.(*Term), w.ts.Const(wd, 0))) {
				w.rtPanic("integer divide by zero")
			}
		}
		if p.X == nil && q.X == nil {
			switch top {
			case OpAdd:
				fr.r[dst] = Val{N: mask(wd, p.N+q.N)}
			default:
				fr.r[dst] = Val{N: evalOp(top, wd, wd, p.N, q.N)}
			}
			return
		}
		if isDiv && q.X == nil {
			if t := w.divmod(top, wd, w.term(p, wd), q.N); t != nil {
				fr.r[dst] = fromTerm(t)
				return
			}
		}
		fr.r[dst] = fromTerm(w.ts.Bin(top, wd, w.term(p, wd), w.term(q, wd)))
	}
}

func (c *compiler) unop(x *ssa.UnOp) exec {
	a, dst := c.op(x.X), c.slots[x]
	in := infoOf(x.X.Type())
	switch x.Op {
	case token.MUL:
		rt := infoOf(x.Type())
		return func(w *W, fr *frame) {
			v := a.get(w, fr)
			p, ok := v.X.(*Val)
			if !ok {
				if v.X == nil {
					w.rtPanic("invalid memory address or nil pointer dereference")
				}
				if sp, ok := v.X.(*SymPtr); ok {
					fr.r[dst] = w.selectArr(sp.arr, sp.idx, rt.w)
					return
				}
				panic(abort("unsupported", fmt.Sprintf("load through %T in %s", v.X, fr.fn.name)))
			}
			if w.par != nil && len(w.par.locked) > 0 {
				w.parRead(p)
			}
			r := *p
			switch y := r.X.(type) {
			case *Agg:
				if rt.k != kStruct && rt.k != kArray {
					panic(abort("unsupported", "reinterpreting load in "+fr.fn.name))
				}
				r = copyVal(r)
			case Slice:
				if rt.k == kString { // *(*string)(unsafe.Pointer(&b))
					r = mkStr(y)
				}
			}
			fr.r[dst] = r
		}
	case token.NOT:
		return func(w *W, fr *frame) {
			v := a.get(w, fr)
			if v.X == nil {
				fr.r[dst] = Val{N: v.N ^ 1}
				return
			}
			fr.r[dst] = fromTerm(w.ts.Not(v.X.(*Term)))
		}
	case token.SUB:
		if in.k == kFloat {
			return func(w *W, fr *frame) { fr.r[dst] = Val{N: math.Float64bits(-f64(a.get(w, fr)))} }
		}
		return func(w *W, fr *frame) {
			v := a.get(w, fr)
			if v.X == nil {
				fr.r[dst] = Val{N: mask(in.w, -v.N)}
				return
			}
			fr.r[dst] = fromTerm(w.ts.Bin(OpNeg, in.w, v.X.(*Term), nil))
		}
	case token.XOR:
		return func(w *W, fr *frame) {
			v := a.get(w, fr)
			if v.X == nil {
				fr.r[dst] = Val{N: mask(in.w, ^v.N)}
				return
			}
			fr.r[dst] = fromTerm(w.ts.Bin(OpNot, in.w, v.X.(*Term), nil))
		}
	case token.ARROW:
		commaok := x.CommaOk
		var et types.Type
		if ch, ok := x.X.Type().Underlying().(*types.Chan); ok {
			et = ch.Elem()
		}
		z := zeroFn(et)
		return func(w *W, fr *frame) {
			cv, _ := a.get(w, fr).X.(*ChanV)
			if cv == nil {
				panic(abort("unsupported", "receive on nil channel"))
			}
			var v Val
			ok := false
			if len(cv.q) > 0 {
				old := cv.q
				v, ok = cv.q[0], true
				cv.q = cv.q[1:]
				w.undoF(func() { cv.q = old })
			} else if cv.closed {
				v = z()
			} else {
				panic(abort("unsupported", "blocking channel receive"))
			}
			if commaok {
				fr.r[dst] = Val{X: Tuple{v, boolVal(ok)}}
			} else {
				fr.r[dst] = v
			}
		}
	}
	return unsupported("unop " + x.String())
}

func (w *W) convInt(v Val, from, to tinfo) Val {
	if v.X == nil {
		var n uint64
		if from.signed {
			n = uint64(sx(from.w, v.N))
		} else {
			n = v.N
		}
		return Val{N: mask(to.w, n)}
	}
	t := v.X.(*Term)
	switch {
	case to.w == from.w:
		return v
	case to.w < from.w:
		return fromTerm(w.ts.Bin(OpTrunc, to.w, t, nil))
	case from.signed:
		return fromTerm(w.ts.Bin(OpSext, to.w, t, nil))
	default:
		return fromTerm(w.ts.Bin(OpZext, to.w, t, nil))
	}
}

func (c *compiler) convert(x ssa.Value, src ssa.Value, ft, tt types.Type) exec {
	a, dst := c.op(src), c.slots[x]
	fi, ti := infoOf(ft), infoOf(tt)
	if _, ok := ft.Underlying().(*types.TypeParam); ok || ti.k == kInvalid {
		return unsupported("generic conversion")
	}
	switch {
	case fi.k == kInt && ti.k == kInt:
		return func(w *W, fr *frame) { fr.r[dst] = w.convInt(a.get(w, fr), fi, ti) }
	case fi.k == kInt && ti.k == kFloat:
		return func(w *W, fr *frame) {
			v := a.get(w, fr)
			if v.X != nil {
				v = Val{N: w.concretize(v.X.(*Term), "int to float")}
			}
			var f float64
			if fi.signed {
				f = float64(sx(fi.w, v.N))
			} else {
				f = float64(v.N)
			}
			if ti.w == 32 {
				f = float64(float32(f))
			}
			fr.r[dst] = Val{N: math.Float64bits(f)}
		}
	case fi.k == kFloat && ti.k == kInt:
		return func(w *W, fr *frame) {
			f := f64(a.get(w, fr))
			if ti.signed {
				fr.r[dst] = Val{N: mask(ti.w, uint64(int64(f)))}
			} else {
				fr.r[dst] = Val{N: mask(ti.w, uint64(f))}
			}
		}
	case fi.k == kFloat && ti.k == kFloat:
		return func(w *W, fr *frame) {
			f := f64(a.get(w, fr))
			if ti.w == 32 {
				f = float64(float32(f))
			}
			fr.r[dst] = Val{N: math.Float64bits(f)}
		}
	case fi.k == kInt && ti.k == kString:
		return func(w *W, fr *frame) {
			v := w.convInt(a.get(w, fr), fi, tinfo{kInt, 32, true})
			fr.r[dst] = w.runeToStr(v)
		}
	case fi.k == kString && ti.k == kSlice:
		et := tt.Underlying().(*types.Slice).Elem()
		if infoOf(et).w == 8 {
			return func(w *W, fr *frame) {
				b := strBytes(a.get(w, fr))
				r := make(Slice, len(b), roundupsize(len(b)))
				copy(r, b)
				w.alloc += uint64(len(b))
				fr.r[dst] = Val{X: r}
			}
		}
		return func(w *W, fr *frame) {
			s := a.get(w, fr)
			r := Slice{}
			for pos := 0; pos < strLen(s); {
				rn, n := w.decodeRune(s, pos)
				r = append(r, rn)
				pos += n
			}
			w.alloc += uint64(4 * len(r))
			fr.r[dst] = Val{X: r}
		}
	case fi.k == kSlice && ti.k == kString:
		et := ft.Underlying().(*types.Slice).Elem()
		if infoOf(et).w == 8 {
			return func(w *W, fr *frame) {
				s, _ := a.get(w, fr).X.(Slice)
				w.alloc += uint64(len(s))
				fr.r[dst] = mkStr(s)
			}
		}
		return func(w *W, fr *frame) {
			s, _ := a.get(w, fr).X.(Slice)
			r := Val{}
			for _, x := range s {
				r = strConcat(r, w.runeToStr(x))
			}
			fr.r[dst] = r
		}
	case fi.k == kSlice && ti.k == kArray:
		n := int(tt.Underlying().(*types.Array).Len())
		return func(w *W, fr *frame) {
			s, _ := a.get(w, fr).X.(Slice)
			if len(s) < n {
				w.rtPanic("cannot convert slice to array: length")
			}
			fr.r[dst] = copyVal(Val{X: &Agg{s[:n]}})
		}
	case fi.k == kPtr && ti.k == kUnsafe, fi.k == kUnsafe && ti.k == kPtr, fi.k == kUnsafe && ti.k == kUnsafe,
		fi.k == kPtr && ti.k == kPtr, fi.k == kString && ti.k == kString, fi.k == kSlice && ti.k == kSlice:
		return c.move(x, src)
	case fi.k == kUnsafe && ti.k == kInt:
		return func(w *W, fr *frame) {
			v := a.get(w, fr)
			if p, ok := v.X.(*Val); ok {
				fr.r[dst] = Val{N: uint64(uintptr(unsafe.Pointer(p)))}
			} else if v.X == nil {
				fr.r[dst] = Val{}
			} else {
				panic(abort("unsupported", "unsafe.Pointer to uintptr in "+fr.fn.name))
			}
		}
	}
	return unsupported(fmt.Sprintf("convert %s to %s", ft, tt))
}

func (w *W) decodeRune(s Val, pos int) (Val, int) {
	if cs, ok := s.X.(string); ok {
		for i, r := range cs[pos:] {
			_ = i
			n := len(string(r))
			if r == 0xFFFD && !strings.HasPrefix(cs[pos:], "\uFFFD") {
				n = 1
			}
			return Val{N: mask(32, uint64(uint32(r)))}, n
		}
	}
	b := strAt(s, pos)
	if b.X == nil && b.N < 0x80 {
		return Val{N: b.N}, 1
	}
	f := w.eng.stdFn("unicode/utf8", "DecodeRuneInString")
	r := w.call(nil, f, []Val{strSlice(s, pos, strLen(s))}, nil).X.(Tuple)
	n := r[1]
	if n.X != nil {
		n = Val{N: w.concretize(n.X.(*Term), "rune size")}
	}
	return r[0], int(n.N)
}

func (w *W) runeToStr(v Val) Val {
	if v.X == nil {
		return mkStrS(string(rune(int32(uint32(v.N)))))
	}
	f := w.eng.stdFn("unicode/utf8", "AppendRune")
	r := w.call(nil, f, []Val{{}, v}, nil)
	s, _ := r.X.(Slice)
	return mkStr(s)
}

func (c *compiler) slice(x *ssa.Slice) exec {
	s, dst := c.op(x.X), c.slots[x]
	var lo, hi, mx opnd
	hasLo, hasHi, hasMax := x.Low != nil, x.High != nil, x.Max != nil
	var li, hii, mi tinfo
	if hasLo {
		lo, li = c.op(x.Low), infoOf(x.Low.Type())
	}
	if hasHi {
		hi, hii = c.op(x.High), infoOf(x.High.Type())
	}
	if hasMax {
		mx, mi = c.op(x.Max), infoOf(x.Max.Type())
	}
	isStr := infoOf(x.X.Type()).k == kString
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(w *W, fr *frame) {
		v := s.get(w, fr)
		var arr Slice
		var ln, cp int
		if isStr {
			ln = strLen(v)
			cp = ln
		} else {
			if isPtr {
				a, ok := w.derefCell(v).X.(*Agg)
				if !ok {
					panic(abort("unsupported", "slicing a non-array pointer in "+fr.fn.name))
				}
				arr = a.f
			} else if v.X != nil {
				arr = v.X.(Slice)
			}
			ln, cp = len(arr), cap(arr)
		}
		m := cp
		if hasMax {
			m = w.sliceBound(mx.get(w, fr), mi, 0, cp)
		}
		h := ln
		if hasHi {
			h = w.sliceBound(hi.get(w, fr), hii, 0, m)
		}
		l := 0
		if hasLo {
			l = w.sliceBound(lo.get(w, fr), li, 0, h)
		}
		if isStr {
			fr.r[dst] = strSlice(v, l, h)
			return
		}
		if v.X == nil && !isPtr {
			fr.r[dst] = Val{}
			return
		}
		fr.r[dst] = Val{X: arr[l:h:m]}
	}
}

func (w *W) sliceBound(v Val, in tinfo, lo, hi int) int {
	if v.X == nil {
		n := int64(v.N)
		if in.signed {
			n = sx(in.w, v.N)
		}
		if n < int64(lo) || n > int64(hi) {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with limit %d", n, hi))
		}
		return int(n)
	}
	t := v.X.(*Term)
	if in.w < 64 {
		if in.signed {
			t = w.ts.Bin(OpSext, 64, t, nil)
		} else {
			t = w.ts.Bin(OpZext, 64, t, nil)
		}
	}
	if !w.branch(w.ts.Bin(OpUlt, 0, t, w.ts.Const(64, uint64(hi)+1))) {
		w.rtPanic("slice bounds out of range")
	}
	return int(w.concretize(t, "slice bound"))
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) exec {
	s, dst := c.op(x.X), c.slots[x]
	at := x.AssertedType
	commaok := x.CommaOk
	it, toIface := at.Underlying().(*types.Interface)
	z := zeroFn(at)
	return func(w *W, fr *frame) {
		v := s.get(w, fr)
		i, _ := v.X.(*Iface)
		ok := false
		var r Val
		if i != nil {
			if toIface {
				ok = w.eng.implements(i.T, it, at)
				r = v
			} else {
				ok = sameType(i.T, at)
				r = i.V
			}
		}
		if commaok {
			if !ok {
				r = z()
			}
			fr.r[dst] = Val{X: Tuple{r, boolVal(ok)}}
			return
		}
		if !ok {
			d := "nil"
			if i != nil {
				d = i.T.String()
			}
			w.rtPanic("interface conversion: interface is " + d + ", not " + at.String())
		}
		fr.r[dst] = r
	}
}

func (c *compiler) next(x *ssa.Next) exec {
	s, dst := c.op(x.Iter), c.slots[x]
	tup := x.Type().(*types.Tuple)
	return func(w *W, fr *frame) {
		switch it := s.get(w, fr).X.(type) {
		case *mapIter:
			var live []*ment
			for _, e := range it.rest {
				if !e.deleted {
					live = append(live, e)
				}
			}
			it.rest = live
			if len(live) == 0 {
				kz, vz := Val{}, Val{}
				if tup.At(1).Type() != nil {
					kz = zeroFn(tup.At(1).Type())()
				}
				if tup.At(2).Type() != nil {
					vz = zeroFn(tup.At(2).Type())()
				}
				fr.r[dst] = Val{X: Tuple{boolVal(false), kz, vz}}
				return
			}
			// Go randomises map order: every order is explored for small maps.
			k := 0
			if len(live) > 1 && w.logging {
				if len(it.m.ents) <= 4 {
					k = w.choose(len(live), true)
				} else {
					w.note("map iteration over >4 entries explored in 2 orders only")
					if len(live) == len(it.m.ents) {
						it.rest = append([]*ment(nil), live...)
						if w.choose(2, true) == 1 {
							for i, j := 0, len(it.rest)-1; i < j; i, j = i+1, j-1 {
								it.rest[i], it.rest[j] = it.rest[j], it.rest[i]
							}
						}
						live = it.rest
					}
				}
			}
			e := live[k]
			it.rest = append(append([]*ment(nil), live[:k]...), live[k+1:]...)
			fr.r[dst] = Val{X: Tuple{boolVal(true), copyVal(e.k), copyVal(e.v)}}
		case *strIter:
			if it.pos >= strLen(it.s) {
				fr.r[dst] = Val{X: Tuple{boolVal(false), Val{}, Val{}}}
				return
			}
			r, n := w.decodeRune(it.s, it.pos)
			fr.r[dst] = Val{X: Tuple{boolVal(true), Val{N: uint64(it.pos)}, r}}
			it.pos += n
		default:
			panic(abort("unsupported", "next"))
		}
	}
}

// ---- calls ----

func (c *compiler) callCommon(cc *ssa.CallCommon) func(w *W, fr *frame) Val {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(w *W, fr *frame) Val {
			i, _ := recv.get(w, fr).X.(*Iface)
			if i == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := w.eng.method(i.T, m)
			if fn == nil {
				panic(abort("unsupported", "no method "+m.Name()+" on "+i.T.String()))
			}
			av := make([]Val, len(args)+1)
			av[0] = i.V
			for k := range args {
				av[k+1] = args[k].get(w, fr)
			}
			return w.call(fr, fn, av, nil)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc, args)
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		fn := c.e.fn(f)
		if fn.isInit {
			return func(w *W, fr *frame) Val { return Val{} }
		}
		return func(w *W, fr *frame) Val {
			av := make([]Val, len(args))
			for k := range args {
				av[k] = args[k].get(w, fr)
			}
			return w.call(fr, fn, av, nil)
		}
	}
	fv := c.op(cc.Value)
	return func(w *W, fr *frame) Val {
		cl, _ := fv.get(w, fr).X.(*Closure)
		if cl == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		av := make([]Val, len(args))
		for k := range args {
			av[k] = args[k].get(w, fr)
		}
		return w.call(fr, cl.fn, av, cl.env)
	}
}

// deferCommon evaluates callee and args now, returns the thunk to run later.
func (c *compiler) deferCommon(cc *ssa.CallCommon) func(w *W, fr *frame) func(w *W, fr *frame) {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	ev := func(w *W, fr *frame, off int) []Val {
		av := make([]Val, len(args)+off)
		for k := range args {
			av[k+off] = args[k].get(w, fr)
		}
		return av
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(w *W, fr *frame) func(w *W, fr *frame) {
			i, _ := recv.get(w, fr).X.(*Iface)
			if i == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := w.eng.method(i.T, m)
			av := ev(w, fr, 1)
			av[0] = i.V
			return func(w *W, fr *frame) { w.call(fr, fn, av, nil) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(w *W, fr *frame) func(w *W, fr *frame) {
			av := ev(w, fr, 0)
			fixed := make([]opnd, len(av))
			for i := range av {
				fixed[i] = opnd{kind: oConst, c: av[i]}
			}
			call := c.builtin(b, cc, fixed)
			return func(w *W, fr *frame) { call(w, fr) }
		}
	}
	fv := c.op(cc.Value)
	return func(w *W, fr *frame) func(w *W, fr *frame) {
		cl, _ := fv.get(w, fr).X.(*Closure)
		av := ev(w, fr, 0)
		return func(w *W, fr *frame) {
			if cl == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			w.call(fr, cl.fn, av, cl.env)
		}
	}
}

func (w *W) call(caller *frame, fn *Fn, args []Val, env []Val) Val {
	if fn.intr != nil {
		return fn.intr(w, caller, args)
	}
	w.eng.compile(fn)
	if fn.noBody {
		panic(abort("unsupported", "no body: "+fn.name))
	}
	if len(w.stack) > w.eng.opts.MaxDepth {
		panic(abort("depth", "call depth limit at "+w.where()))
	}
	fn.calls.Add(1)
	fr := w.getFrame(fn)
	fr.caller = caller
	copy(fr.r, args)
	copy(fr.r[fn.nparam:], env)
	w.stack = append(w.stack, fn)
	sp := len(w.stack)
	var r Val
	if fn.hasDefer {
		r = w.runD(fr, sp)
	} else {
		r = w.run(fr, 0)
	}
	w.stack = w.stack[:sp-1]
	w.putFrame(fr)
	return r
}

func (w *W) getFrame(fn *Fn) *frame {
	n := fn.nslots
	if l := len(w.frames); l > 0 {
		fr := w.frames[l-1]
		w.frames = w.frames[:l-1]
		if cap(fr.r) >= n {
			fr.r = fr.r[:n]
		} else {
			fr.r = make([]Val, n, n+n/2+8)
		}
		fr.fn = fn
		return fr
	}
	return &frame{r: make([]Val, n, n+8), fn: fn}
}

func (w *W) putFrame(fr *frame) {
	clear(fr.r)
	fr.fn, fr.caller, fr.panicking = nil, nil, nil
	fr.defers = fr.defers[:0]
	fr.inDefers = false
	w.frames = append(w.frames, fr)
}

func (w *W) run(fr *frame, start int) Val {
	fn := fr.fn
	b := fn.blocks[start]
	for {
		b.hits.Add(1)
		w.steps += int64(b.n)
		if w.steps > w.stepLimit {
			panic(abort("steps", "step limit at "+w.where()))
		}
		for _, in := range b.ins {
			in(w, fr)
		}
		k := 0
		switch b.term {
		case tJump:
		case tIf:
			c := b.cond.get(w, fr)
			if c.X != nil {
				if !w.branch(c.X.(*Term)) {
					k = 1
				}
			} else if c.N == 0 {
				k = 1
			}
		case tRet:
			switch len(b.ret) {
			case 0:
				return Val{}
			case 1:
				return b.ret[0].get(w, fr)
			}
			t := make(Tuple, len(b.ret))
			for i := range b.ret {
				t[i] = b.ret[i].get(w, fr)
			}
			return Val{X: t}
		case tPanic:
			v := b.pv.get(w, fr)
			if v.X == nil {
				w.rtPanic("panic called with nil argument")
			}
			panic(&targetPanic{v: v, msg: w.describe(v), site: w.where()})
		}
		nb := fn.blocks[b.succ[k]]
		if np := len(nb.phis); np > 0 {
			pi := b.predI[k]
			if np == 1 {
				fr.r[nb.phis[0].dst] = nb.phis[0].srcs[pi].get(w, fr)
			} else {
				var tmp [8]Val
				ts := tmp[:0]
				for i := range nb.phis {
					ts = append(ts, nb.phis[i].srcs[pi].get(w, fr))
				}
				for i := range nb.phis {
					fr.r[nb.phis[i].dst] = ts[i]
				}
			}
		}
		b = nb
	}
}

func (w *W) describe(v Val) string {
	i, _ := v.X.(*Iface)
	if i == nil {
		return "nil"
	}
	if s, ok := goString(i.V); ok && infoOf(i.T).k == kString {
		return s
	}
	return i.T.String()
}

func (w *W) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d.f(w, fr)
	}
}

func (w *W) runD(fr *frame, sp int) (ret Val) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		w.stack = w.stack[:sp]
		fr.panicking = tp
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			w.runDeferred(fr, d, sp)
		}
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.fn.recover >= 0 {
			ret = w.run(fr, fr.fn.recover)
		} else {
			ret = fr.fn.resZero()
		}
	}()
	return w.run(fr, 0)
}

// runDeferred runs one deferred call while unwinding; a new panic replaces the old.
func (w *W) runDeferred(fr *frame, d deferred, sp int) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		w.stack = w.stack[:sp]
		fr.panicking = tp
	}()
	d.f(w, fr)
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []opnd) func(w *W, fr *frame) Val {
	switch b.Name() {
	case "len":
		k := infoOf(cc.Args[0].Type()).k
		var alen int64
		t := cc.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			alen = a.Len()
			k = kArray
		}
		return func(w *W, fr *frame) Val {
			v := args[0].get(w, fr)
			switch k {
			case kString:
				return Val{N: uint64(strLen(v))}
			case kArray:
				return Val{N: uint64(alen)}
			}
			switch x := v.X.(type) {
			case nil:
				return Val{}
			case Slice:
				return Val{N: uint64(len(x))}
			case *MapV:
				return Val{N: uint64(x.n)}
			case *ChanV:
				return Val{N: uint64(len(x.q))}
			}
			panic(abort("unsupported", "len"))
		}
	case "cap":
		t := cc.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			n := uint64(a.Len())
			return func(w *W, fr *frame) Val { return Val{N: n} }
		}
		return func(w *W, fr *frame) Val {
			switch x := args[0].get(w, fr).X.(type) {
			case nil:
				return Val{}
			case Slice:
				return Val{N: uint64(cap(x))}
			case *ChanV:
				return Val{N: uint64(x.cap)}
			}
			panic(abort("unsupported", "cap"))
		}
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		esz := int(c.e.sizeof(st.Elem()))
		z := zeroFn(st.Elem())
		agg := infoOf(st.Elem()).k == kStruct || infoOf(st.Elem()).k == kArray
		fromStr := len(cc.Args) > 1 && infoOf(cc.Args[1].Type()).k == kString
		made := false // append(x, make(...)...) allocates once
		if len(cc.Args) > 1 {
			m, ok := cc.Args[1].(*ssa.MakeSlice)
			made = ok && len(*m.Referrers()) == 1
		}
		return func(w *W, fr *frame) Val {
			v := args[0].get(w, fr)
			s, _ := v.X.(Slice)
			if len(args) < 2 {
				return v
			}
			e := args[1].get(w, fr)
			var es []Val
			if fromStr {
				es = strBytes(e)
			} else if e.X != nil {
				es = e.X.(Slice)
			}
			if made {
				w.alloc -= min(w.alloc, uint64(len(es)*esz))
			}
			return w.appendVals(v, s, es, esz, agg, z)
		}
	case "copy":
		fromStr := infoOf(cc.Args[1].Type()).k == kString
		return func(w *W, fr *frame) Val {
			d, _ := args[0].get(w, fr).X.(Slice)
			sv := args[1].get(w, fr)
			var s []Val
			if fromStr {
				if cs, ok := sv.X.(string); ok {
					n := min(len(cs), len(d))
					for i := 0; i < n; i++ {
						w.logWrite(&d[i])
						d[i] = Val{N: uint64(cs[i])}
					}
					return Val{N: uint64(n)}
				}
				s = strBytes(sv)
			} else if sv.X != nil {
				s = sv.X.(Slice)
			}
			n := min(len(s), len(d))
			w.copyCells(d[:n], s[:n])
			return Val{N: uint64(n)}
		}
	case "delete":
		return func(w *W, fr *frame) Val {
			m, _ := args[0].get(w, fr).X.(*MapV)
			if m != nil {
				w.mapDelete(m, args[1].get(w, fr))
			}
			return Val{}
		}
	case "clear":
		t := cc.Args[0].Type().Underlying()
		var z func() Val
		if s, ok := t.(*types.Slice); ok {
			z = zeroFn(s.Elem())
		}
		return func(w *W, fr *frame) Val {
			switch x := args[0].get(w, fr).X.(type) {
			case Slice:
				for i := range x {
					w.storeTo(&x[i], z())
				}
			case *MapV:
				for len(x.ents) > 0 {
					w.mapDelEnt(x, x.ents[0])
				}
			}
			return Val{}
		}
	case "close":
		return func(w *W, fr *frame) Val {
			cv := args[0].get(w, fr).X.(*ChanV)
			cv.closed = true
			w.undoF(func() { cv.closed = false })
			return Val{}
		}
	case "min", "max":
		in := infoOf(cc.Args[0].Type())
		isMin := b.Name() == "min"
		return func(w *W, fr *frame) Val {
			r := args[0].get(w, fr)
			for i := 1; i < len(args); i++ {
				q := args[i].get(w, fr)
				switch in.k {
				case kInt:
					op := OpUlt
					if in.signed {
						op = OpSlt
					}
					x, y := w.term(r, in.w), w.term(q, in.w)
					lt := w.ts.Bin(op, 0, x, y)
					if isMin {
						r = fromTerm(w.ts.Ite(lt, x, y))
					} else {
						r = fromTerm(w.ts.Ite(lt, y, x))
					}
				case kFloat:
					if isMin {
						r = Val{N: math.Float64bits(min(f64(r), f64(q)))}
					} else {
						r = Val{N: math.Float64bits(max(f64(r), f64(q)))}
					}
				case kString:
					lt := w.branch(w.strLess(r, q))
					if lt != isMin {
						r = q
					}
				}
			}
			return r
		}
	case "print", "println":
		return func(w *W, fr *frame) Val { return Val{} }
	case "panic":
		return func(w *W, fr *frame) Val {
			v := args[0].get(w, fr)
			panic(&targetPanic{v: v, msg: w.describe(v), site: w.where()})
		}
	case "recover":
		return func(w *W, fr *frame) Val {
			c := fr.caller
			if c != nil && c.panicking != nil {
				p := c.panicking
				c.panicking = nil
				return p.v
			}
			return Val{}
		}
	case "ssa:wrapnilchk":
		return func(w *W, fr *frame) Val {
			v := args[0].get(w, fr)
			if v.X == nil {
				w.rtPanic("value method called using nil pointer")
			}
			return v
		}
	case "ssa:deferstack":
		return func(w *W, fr *frame) Val { return Val{X: fr} }
	case "SliceData":
		return func(w *W, fr *frame) Val {
			s, _ := args[0].get(w, fr).X.(Slice)
			if cap(s) == 0 {
				return Val{}
			}
			return Val{X: &s[:1][0]}
		}
	case "String":
		return func(w *W, fr *frame) Val {
			n := int(args[1].get(w, fr).N)
			if n == 0 {
				return Val{}
			}
			p := args[0].get(w, fr).X.(*Val)
			return mkStr(unsafe.Slice(p, n))
		}
	case "Slice":
		return func(w *W, fr *frame) Val {
			n := int(args[1].get(w, fr).N)
			pv := args[0].get(w, fr)
			if pv.X == nil {
				return Val{}
			}
			return Val{X: Slice(unsafe.Slice(pv.X.(*Val), n))}
		}
	case "StringData":
		return func(w *W, fr *frame) Val {
			b := append([]Val(nil), strBytes(args[0].get(w, fr))...)
			if len(b) == 0 {
				return Val{}
			}
			return Val{X: &b[0]}
		}
	case "Add":
		return func(w *W, fr *frame) Val {
			panic(abort("unsupported", "unsafe.Add in "+fr.fn.name))
		}
	}
	return func(w *W, fr *frame) Val { panic(abort("unsupported", "builtin "+b.Name())) }
}

func (w *W) copyCells(d, s []Val) {
	if len(d) == 0 {
		return
	}
	if _, ok := s[0].X.(*Agg); ok {
		// value semantics; handle overlap through a temporary
		tmp := make([]Val, len(s))
		for i := range s {
			tmp[i] = copyVal(s[i])
		}
		for i := range d {
			w.storeTo(&d[i], tmp[i])
		}
		return
	}
	if w.par != nil {
		for i := range d {
			w.parWrite(&d[i])
		}
	}
	if w.logging {
		for i := range d {
			w.undo = append(w.undo, undoEnt{p: &d[i], old: d[i]})
		}
		if len(w.undo) > 20_000_000 {
			panic(abort("memory", "path writes too much memory for the engine"))
		}
	}
	copy(d, s)
}

func (w *W) appendVals(v Val, s Slice, es []Val, esz int, agg bool, z func() Val) Val {
	if len(es) == 0 {
		return v
	}
	n := len(s) + len(es)
	if n <= cap(s) {
		d := s[:n]
		w.copyCells(d[len(s):], es)
		return Val{X: d}
	}
	nc := growCap(cap(s), n, esz)
	w.allocCheck(uint64(nc * esz))
	d := make(Slice, n, nc)
	if agg {
		full := d[:nc]
		for i := range s {
			full[i] = copyVal(s[i])
		}
		for i := range es {
			full[len(s)+i] = copyVal(es[i])
		}
		for i := n; i < nc; i++ {
			full[i] = z()
		}
	} else {
		copy(d, s)
		copy(d[len(s):], es)
	}
	return Val{X: d}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(old, need, esz int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return nc
	}
	return roundupsize(nc*esz) / esz
}
