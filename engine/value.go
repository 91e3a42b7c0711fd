package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Val is an interpreted Go value.
//
//	bool/int: concrete in N (zero-extended to the width), or X=*Term
//	float:    float64 bits in N
//	string:   X = nil (""), string, or *SStr
//	pointer:  X = nil, *Val (cell), or *SymPtr
//	struct, array: X = *Agg
//	slice:    X = nil, Slice
//	map:      X = nil, *MapV ; chan: *ChanV ; func: nil, *Closure
//	interface: X = nil, *Iface
//	tuple:    X = Tuple
type Val struct {
	N uint64
	X any
}

type Agg struct{ f []Val }
type Slice []Val
type SStr struct{ b []Val }
type Iface struct {
	T types.Type
	V Val
}
type Closure struct {
	fn  *Fn
	env []Val
}
type Tuple []Val
type SymPtr struct {
	arr []Val
	idx *Term
}
type ment struct {
	k, v    Val
	ckey    string
	sym     bool
	deleted bool
}
type MapV struct {
	kt   types.Type
	ents []*ment
	idx  map[string]*ment
	nsym int
	n    int
}
type ChanV struct {
	q      []Val
	cap    int
	closed bool
}
type mapIter struct {
	m    *MapV
	rest []*ment
}
type strIter struct {
	s   Val
	pos int
}
type bound struct{ recv Val } // unused marker

type tkind uint8

const (
	kInvalid tkind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kUnsafe
)

type tinfo struct {
	k      tkind
	w      uint8
	signed bool
}

func infoOf(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{kBool, 0, false}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true}
		case types.Int8:
			return tinfo{kInt, 8, true}
		case types.Int16:
			return tinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false}
		case types.Uint8:
			return tinfo{kInt, 8, false}
		case types.Uint16:
			return tinfo{kInt, 16, false}
		case types.Uint32:
			return tinfo{kInt, 32, false}
		case types.Float32:
			return tinfo{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64, true}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tinfo{kComplex, 0, false}
		case types.String, types.UntypedString:
			return tinfo{kString, 0, false}
		case types.UnsafePointer:
			return tinfo{kUnsafe, 0, false}
		case types.UntypedNil:
			return tinfo{kUnsafe, 0, false}
		}
	case *types.Pointer:
		return tinfo{kPtr, 0, false}
	case *types.Struct:
		return tinfo{kStruct, 0, false}
	case *types.Array:
		return tinfo{kArray, 0, false}
	case *types.Slice:
		return tinfo{kSlice, 0, false}
	case *types.Map:
		return tinfo{kMap, 0, false}
	case *types.Chan:
		return tinfo{kChan, 0, false}
	case *types.Signature:
		return tinfo{kFunc, 0, false}
	case *types.Interface:
		return tinfo{kIface, 0, false}
	case *types.Tuple:
		return tinfo{kTuple, 0, false}
	}
	return tinfo{}
}

// zeroFn returns a generator of zero values of t.
func zeroFn(t types.Type) func() Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		sub := make([]func() Val, n)
		any := false
		for i := 0; i < n; i++ {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				sub[i] = zeroFn(ft)
				any = true
			}
		}
		if !any {
			return func() Val { return Val{X: &Agg{make([]Val, n)}} }
		}
		return func() Val {
			a := &Agg{make([]Val, n)}
			for i, s := range sub {
				if s != nil {
					a.f[i] = s()
				}
			}
			return Val{X: a}
		}
	case *types.Array:
		n := int(u.Len())
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			sub := zeroFn(u.Elem())
			return func() Val {
				a := &Agg{make([]Val, n)}
				for i := range a.f {
					a.f[i] = sub()
				}
				return Val{X: a}
			}
		}
		return func() Val { return Val{X: &Agg{make([]Val, n)}} }
	case *types.Tuple:
		n := u.Len()
		sub := make([]func() Val, n)
		for i := range sub {
			sub[i] = zeroFn(u.At(i).Type())
		}
		return func() Val {
			tp := make(Tuple, n)
			for i, s := range sub {
				tp[i] = s()
			}
			return Val{X: tp}
		}
	}
	return func() Val { return Val{} }
}

// copyVal copies aggregate values (value semantics).
func copyVal(v Val) Val {
	if a, ok := v.X.(*Agg); ok {
		n := &Agg{make([]Val, len(a.f))}
		for i, x := range a.f {
			if _, ok := x.X.(*Agg); ok {
				n.f[i] = copyVal(x)
			} else {
				n.f[i] = x
			}
		}
		return Val{X: n}
	}
	return v
}

func (w *W) logWrite(p *Val) {
	if w.par != nil {
		w.parWrite(p)
	}
	if w.logging {
		w.undo = append(w.undo, undoEnt{p: p, old: *p})
	}
}

// storeTo writes v into the cell p; aggregates are overwritten in place.
func (w *W) storeTo(p *Val, v Val) {
	if a, ok := v.X.(*Agg); ok {
		if d, ok := p.X.(*Agg); ok && len(d.f) == len(a.f) {
			if d == a {
				return
			}
			for i := range a.f {
				w.storeTo(&d.f[i], a.f[i])
			}
			return
		}
		w.logWrite(p)
		*p = copyVal(v)
		return
	}
	w.logWrite(p)
	*p = v
}

// ---- strings ----

func strLen(v Val) int {
	switch s := v.X.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(abort("string", fmt.Sprintf("not a string: %T", v.X)))
}

func strAt(v Val, i int) Val {
	switch s := v.X.(type) {
	case string:
		return Val{N: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Val) []Val {
	switch s := v.X.(type) {
	case nil:
		return nil
	case string:
		r := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			r[i].N = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic(abort("string", fmt.Sprintf("not a string: %T", v.X)))
}

// mkStr builds a string from bytes; b is copied when keep is false.
func mkStr(b []Val) Val {
	for i := range b {
		if b[i].X != nil {
			c := make([]Val, len(b))
			copy(c, b)
			return Val{X: &SStr{c}}
		}
	}
	if len(b) == 0 {
		return Val{}
	}
	x := make([]byte, len(b))
	for i := range b {
		x[i] = byte(b[i].N)
	}
	return Val{X: string(x)}
}

func mkStrS(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{X: s}
}

func strSlice(v Val, lo, hi int) Val {
	if lo == hi {
		return Val{}
	}
	switch s := v.X.(type) {
	case string:
		return Val{X: s[lo:hi]}
	case *SStr:
		b := s.b[lo:hi:hi]
		for i := range b {
			if b[i].X != nil {
				return Val{X: &SStr{b}}
			}
		}
		return mkStr(b)
	}
	panic("strSlice")
}

func strConcat(a, b Val) Val {
	if a.X == nil {
		return b
	}
	if b.X == nil {
		return a
	}
	if x, ok := a.X.(string); ok {
		if y, ok := b.X.(string); ok {
			return Val{X: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Val, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return Val{X: &SStr{r}}
}

// goString gives the concrete string, or ok=false.
func goString(v Val) (string, bool) {
	switch s := v.X.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (w *W) strEq(a, b Val) *Term {
	la, lb := strLen(a), strLen(b)
	if la != lb {
		return w.ts.fls
	}
	if x, ok := goString(a); ok {
		if y, ok := goString(b); ok {
			return w.ts.Bool(x == y)
		}
	}
	r := w.ts.tru
	// quick concrete mismatch check first
	for i := 0; i < la; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x.X == nil && y.X == nil && x.N != y.N {
			return w.ts.fls
		}
	}
	for i := la - 1; i >= 0; i-- {
		x, y := strAt(a, i), strAt(b, i)
		if x.X == nil && y.X == nil {
			continue
		}
		r = w.ts.And(w.ts.Eq(w.term(x, 8), w.term(y, 8)), r)
	}
	return r
}

// strLess is lexicographic a<b.
func (w *W) strLess(a, b Val) *Term {
	if x, ok := goString(a); ok {
		if y, ok := goString(b); ok {
			return w.ts.Bool(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	r := w.ts.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := w.term(strAt(a, i), 8), w.term(strAt(b, i), 8)
		r = w.ts.Or(w.ts.Bin(OpUlt, 0, x, y), w.ts.And(w.ts.Eq(x, y), r))
	}
	return r
}

func (w *W) term(v Val, width uint8) *Term {
	if v.X == nil {
		return w.ts.Const(width, v.N)
	}
	t, ok := v.X.(*Term)
	if !ok {
		panic(abort("value", fmt.Sprintf("not a scalar: %T", v.X)))
	}
	return t
}

func fromTerm(t *Term) Val {
	if t.op == OpConst {
		return Val{N: t.v}
	}
	return Val{X: t}
}

func boolVal(b bool) Val {
	if b {
		return Val{N: 1}
	}
	return Val{}
}

// ---- equality ----

func (w *W) eqVals(t types.Type, a, b Val) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		in := infoOf(t)
		switch in.k {
		case kString:
			return w.strEq(a, b)
		case kFloat:
			return w.ts.Bool(f64(a) == f64(b))
		case kInt, kBool:
			if a.X == nil && b.X == nil {
				return w.ts.Bool(a.N == b.N)
			}
			return w.ts.Eq(w.term(a, in.w), w.term(b, in.w))
		case kUnsafe:
			return w.ts.Bool(a.X == b.X)
		}
		panic(abort("eq", "basic "+t.String()))
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return w.ts.Bool(refEq(a, b))
	case *types.Slice:
		// only nil comparison is legal
		return w.ts.Bool((a.X == nil) == (b.X == nil))
	case *types.Interface:
		return w.ifaceEq(a, b)
	case *types.Struct:
		x, y := a.X.(*Agg), b.X.(*Agg)
		r := w.ts.tru
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.ts.And(r, w.eqVals(u.Field(i).Type(), x.f[i], y.f[i]))
			if r == w.ts.fls {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.X.(*Agg), b.X.(*Agg)
		r := w.ts.tru
		for i := range x.f {
			r = w.ts.And(r, w.eqVals(u.Elem(), x.f[i], y.f[i]))
			if r == w.ts.fls {
				return r
			}
		}
		return r
	}
	panic(abort("eq", t.String()))
}

func refEq(a, b Val) bool {
	switch x := a.X.(type) {
	case nil:
		return b.X == nil
	case *Val:
		y, ok := b.X.(*Val)
		return ok && x == y
	case *MapV:
		y, ok := b.X.(*MapV)
		return ok && x == y
	case *ChanV:
		y, ok := b.X.(*ChanV)
		return ok && x == y
	case *Closure:
		y, ok := b.X.(*Closure)
		return ok && x == y
	case *SymPtr:
		y, ok := b.X.(*SymPtr)
		return ok && x == y
	}
	return a.X == b.X
}

func (w *W) ifaceEq(a, b Val) *Term {
	x, _ := a.X.(*Iface)
	y, _ := b.X.(*Iface)
	if x == nil || y == nil {
		return w.ts.Bool(x == nil && y == nil)
	}
	if !sameType(x.T, y.T) {
		return w.ts.fls
	}
	if !types.Comparable(x.T) {
		w.rtPanic("comparing uncomparable type " + x.T.String())
	}
	return w.eqVals(x.T, x.V, y.V)
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}

// ---- maps ----

func (w *W) concKey(t types.Type, v Val, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		in := infoOf(t)
		if in.k == kString {
			s, ok := goString(v)
			if !ok {
				return false
			}
			fmt.Fprintf(sb, "%d:%s;", len(s), s)
			return true
		}
		if v.X != nil {
			if _, ok := v.X.(*Term); ok {
				return false
			}
			fmt.Fprintf(sb, "%p;", v.X)
			return true
		}
		fmt.Fprintf(sb, "%x;", v.N)
		return true
	case *types.Pointer, *types.Chan:
		if v.X == nil {
			sb.WriteString("nil;")
		} else {
			fmt.Fprintf(sb, "%p;", v.X)
		}
		return true
	case *types.Interface:
		i, _ := v.X.(*Iface)
		if i == nil {
			sb.WriteString("nil;")
			return true
		}
		if !types.Comparable(i.T) {
			w.rtPanic("hash of unhashable type " + i.T.String())
		}
		sb.WriteString(types.TypeString(i.T, nil) + "/")
		return w.concKey(i.T, i.V, sb)
	case *types.Struct:
		a := v.X.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			if !w.concKey(u.Field(i).Type(), a.f[i], sb) {
				return false
			}
		}
		return true
	case *types.Array:
		a := v.X.(*Agg)
		for i := range a.f {
			if !w.concKey(u.Elem(), a.f[i], sb) {
				return false
			}
		}
		return true
	}
	panic(abort("mapkey", t.String()))
}

func (w *W) mapFind(m *MapV, k Val) *ment {
	if m == nil {
		return nil
	}
	if w.par != nil && len(w.par.locked) > 0 {
		w.parRead(m)
	}
	var sb strings.Builder
	conc := w.concKey(m.kt, k, &sb)
	if conc {
		if e := m.idx[sb.String()]; e != nil && !e.deleted {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted || (conc && !e.sym) {
			continue
		}
		if w.branch(w.eqVals(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *MapV, k, v Val) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	if w.par != nil {
		w.parWriteMap(m)
	}
	if e := w.mapFind(m, k); e != nil {
		old := e.v
		e.v = copyVal(v)
		w.undoF(func() { e.v = old })
		return
	}
	var sb strings.Builder
	conc := w.concKey(m.kt, k, &sb)
	e := &ment{k: copyVal(k), v: copyVal(v), sym: !conc}
	if conc {
		e.ckey = sb.String()
		m.idx[e.ckey] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
	w.alloc += 64
	n := len(m.ents)
	w.undoF(func() {
		m.ents = m.ents[:n-1]
		m.n--
		if e.sym {
			m.nsym--
		} else {
			delete(m.idx, e.ckey)
		}
	})
}

func (w *W) mapDelete(m *MapV, k Val) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	w.mapDelEnt(m, e)
}

func (w *W) mapDelEnt(m *MapV, e *ment) {
	if w.par != nil {
		w.parWriteMap(m)
	}
	e.deleted = true
	m.n--
	oldEnts := m.ents
	ne := make([]*ment, 0, len(m.ents))
	for _, x := range m.ents {
		if x != e {
			ne = append(ne, x)
		}
	}
	m.ents = ne
	if e.sym {
		m.nsym--
	} else {
		delete(m.idx, e.ckey)
	}
	w.undoF(func() {
		e.deleted = false
		m.n++
		m.ents = oldEnts
		if e.sym {
			m.nsym++
		} else {
			m.idx[e.ckey] = e
		}
	})
}

func (w *W) undoF(f func()) {
	if w.logging {
		w.undo = append(w.undo, undoEnt{f: f})
	}
}

func newMap(kt types.Type) *MapV { return &MapV{kt: kt, idx: map[string]*ment{}} }

// ---- errors ----

type pathAbort struct {
	kind string
	msg  string
}

func abort(kind, msg string) *pathAbort { return &pathAbort{kind, msg} }

type targetPanic struct {
	v    Val // interface value
	msg  string
	rt   bool
	site string
}

func (w *W) rtPanic(msg string) {
	var v Val
	if w.eng.rtErrType != nil {
		v = Val{X: &Iface{T: w.eng.rtErrType, V: mkStrS(msg)}}
	} else {
		v = Val{X: &Iface{T: types.Typ[types.String], V: mkStrS(msg)}}
	}
	panic(&targetPanic{v: v, msg: "runtime error: " + msg, rt: true, site: w.where()})
}

func (w *W) where() string {
	var s []string
	for i := len(w.stack) - 1; i >= 0 && len(s) < 6; i-- {
		s = append(s, w.stack[i].name)
	}
	return strings.Join(s, " < ")
}
