package main

// Bit-vector / boolean terms, hash-consed per worker.

import (
	"fmt"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpTrunc
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd // boolean
	OpBOr
	OpBNot
	OpRawEq // equality kept unsimplified: proof obligations only
)

// Term: width 0 means boolean.
type Term struct {
	op    Op
	w     uint8
	a     [3]*Term
	v     uint64 // const value / var index
	id    uint32
	vars  []int32 // sorted
	epoch uint64
	cache uint64
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	v       uint64
}

type TermStore struct {
	tab   map[termKey]*Term
	terms []*Term
	epoch uint64
	tru   *Term
	fls   *Term
}

func newTermStore() *TermStore {
	s := &TermStore{tab: map[termKey]*Term{}, epoch: 1}
	s.tru = s.mk(OpConst, 0, nil, nil, nil, 1)
	s.fls = s.mk(OpConst, 0, nil, nil, nil, 0)
	return s
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id + 1
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func (s *TermStore) mk(op Op, w uint8, a, b, c *Term, v uint64) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), v}
	if t, ok := s.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: [3]*Term{a, b, c}, v: v, id: uint32(len(s.terms))}
	if op == OpVar {
		t.vars = []int32{int32(v)}
	} else {
		for _, x := range t.a {
			if x != nil {
				t.vars = mergeVars(t.vars, x.vars)
			}
		}
	}
	s.tab[k] = t
	s.terms = append(s.terms, t)
	return t
}

func mask(w uint8, v uint64) uint64 {
	if w >= 64 {
		return v
	}
	return v & (1<<w - 1)
}

func sx(w uint8, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (s *TermStore) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return s.tru
		}
		return s.fls
	}
	return s.mk(OpConst, w, nil, nil, nil, mask(w, v))
}
func (s *TermStore) Var(idx int, w uint8) *Term { return s.mk(OpVar, w, nil, nil, nil, uint64(idx)) }
func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.tru
	}
	return s.fls
}

func (t *Term) isConst() bool { return t.op == OpConst }

func evalOp(op Op, w uint8, aw uint8, a, b uint64) uint64 {
	switch op {
	case OpAdd:
		return mask(w, a+b)
	case OpSub:
		return mask(w, a-b)
	case OpMul:
		return mask(w, a*b)
	case OpUDiv:
		if b == 0 {
			return mask(w, ^uint64(0))
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sx(w, a), sx(w, b)
		if y == 0 {
			if x >= 0 {
				return mask(w, ^uint64(0))
			}
			return 1
		}
		if y == -1 {
			return mask(w, uint64(-x))
		}
		return mask(w, uint64(x/y))
	case OpSRem:
		x, y := sx(w, a), sx(w, b)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return mask(w, uint64(x%y))
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpNot:
		return mask(w, ^a)
	case OpNeg:
		return mask(w, -a)
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return mask(w, a<<b)
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return mask(w, uint64(sx(w, a)>>b))
	case OpZext:
		return a
	case OpSext:
		return mask(w, uint64(sx(aw, a)))
	case OpTrunc:
		return mask(w, a)
	case OpEq, OpRawEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sx(aw, a) < sx(aw, b))
	case OpSle:
		return b2u(sx(aw, a) <= sx(aw, b))
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBNot:
		return a ^ 1
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Bin builds a simplified binary (or unary with b nil) term of result width w.
func (s *TermStore) Bin(op Op, w uint8, a, b *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) {
		var bv uint64
		if b != nil {
			bv = b.v
		}
		return s.Const(w, evalOp(op, w, a.w, a.v, bv))
	}
	// canonical: constant on the right for commutative ops
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor, OpEq, OpBAnd, OpBOr:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	switch op {
	case OpAdd:
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if a.op == OpAdd && a.a[1].isConst() {
				return s.Bin(OpAdd, w, a.a[0], s.Const(w, a.a[1].v+b.v))
			}
		}
	case OpSub:
		if b.isConst() {
			return s.Bin(OpAdd, w, a, s.Const(w, -b.v))
		}
		if a == b {
			return s.Const(w, 0)
		}
		if a.op == OpAdd {
			// (b+d)-b, (b+d+c)-b
			for k := 0; k < 2; k++ {
				if a.a[k] == b {
					return a.a[1-k]
				}
			}
			if x := a.a[0]; x.op == OpAdd && a.a[1].isConst() {
				for k := 0; k < 2; k++ {
					if x.a[k] == b {
						return s.Bin(OpAdd, w, x.a[1-k], a.a[1])
					}
				}
			}
		}
	case OpMul:
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == 1 {
				return a
			}
		}
	case OpAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == mask(w, ^uint64(0)) {
				return a
			}
			if a.op == OpZext && b.v&mask(a.a[0].w, ^uint64(0)) == mask(a.a[0].w, ^uint64(0)) {
				return a
			}
		}
	case OpOr:
		if a == b {
			return a
		}
		if b.isConst() && b.v == 0 {
			return a
		}
	case OpXor:
		if a == b {
			return s.Const(w, 0)
		}
		if b.isConst() && b.v == 0 {
			return a
		}
	case OpShl, OpLshr, OpAshr:
		if b.isConst() && b.v == 0 {
			return a
		}
	case OpZext:
		if a.w == w {
			return a
		}
		if a.op == OpZext {
			return s.mk(OpZext, w, a.a[0], nil, nil, 0)
		}
		return s.mk(OpZext, w, a, nil, nil, 0)
	case OpSext:
		if a.w == w {
			return a
		}
		if a.op == OpZext {
			return s.mk(OpZext, w, a.a[0], nil, nil, 0)
		}
		return s.mk(OpSext, w, a, nil, nil, 0)
	case OpTrunc:
		if a.w == w {
			return a
		}
		if a.op == OpZext || a.op == OpSext {
			if a.a[0].w == w {
				return a.a[0]
			}
			if a.a[0].w > w {
				return s.Bin(OpTrunc, w, a.a[0], nil)
			}
			return s.Bin(a.op, w, a.a[0], nil)
		}
	case OpEq:
		if a == b {
			return s.tru
		}
		if a.w == 0 && b.isConst() {
			if b.v == 1 {
				return a
			}
			return s.Not(a)
		}
		if b.isConst() {
			if a.op == OpZext {
				if b.v > mask(a.a[0].w, ^uint64(0)) {
					return s.fls
				}
				return s.Bin(OpEq, 0, a.a[0], s.Const(a.a[0].w, b.v))
			}
			if a.op == OpAdd && a.a[1].isConst() {
				return s.Bin(OpEq, 0, a.a[0], s.Const(a.w, b.v-a.a[1].v))
			}
			if a.op == OpIte && a.a[1].isConst() && a.a[2].isConst() {
				t, f := a.a[1].v == b.v, a.a[2].v == b.v
				switch {
				case t && f:
					return s.tru
				case t:
					return a.a[0]
				case f:
					return s.Not(a.a[0])
				default:
					return s.fls
				}
			}
		}
		if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
			return s.Bin(OpEq, 0, a.a[0], b.a[0])
		}
	case OpUlt:
		if a == b {
			return s.fls
		}
		if b.isConst() && b.v == 0 {
			return s.fls
		}
		if a.op == OpZext && b.isConst() {
			m := mask(a.a[0].w, ^uint64(0))
			if b.v > m {
				return s.tru
			}
			return s.Bin(OpUlt, 0, a.a[0], s.Const(a.a[0].w, b.v))
		}
		if b.op == OpZext && a.isConst() {
			m := mask(b.a[0].w, ^uint64(0))
			if a.v >= m {
				return s.fls
			}
			return s.Bin(OpUlt, 0, s.Const(b.a[0].w, a.v), b.a[0])
		}
	case OpUle:
		if a == b {
			return s.tru
		}
		return s.Not(s.Bin(OpUlt, 0, b, a))
	case OpSlt:
		if a == b {
			return s.fls
		}
		if a.op == OpZext && b.isConst() {
			if sx(a.w, b.v) <= 0 {
				return s.fls
			}
			return s.Bin(OpUlt, 0, a, b)
		}
		if b.op == OpZext && a.isConst() {
			if sx(a.w, a.v) < 0 {
				return s.tru
			}
			return s.Bin(OpUlt, 0, a, b)
		}
		if a.op == OpZext && b.op == OpZext {
			return s.Bin(OpUlt, 0, a, b)
		}
	case OpSle:
		return s.Not(s.Bin(OpSlt, 0, b, a))
	case OpBAnd:
		if b.isConst() {
			if b.v == 1 {
				return a
			}
			return s.fls
		}
		if a == b {
			return a
		}
	case OpBOr:
		if b.isConst() {
			if b.v == 1 {
				return s.tru
			}
			return a
		}
		if a == b {
			return a
		}
	}
	return s.mk(op, w, a, b, nil, 0)
}

func (s *TermStore) Not(a *Term) *Term {
	if a.isConst() {
		return s.Const(0, a.v^1)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return s.mk(OpBNot, 0, a, nil, nil, 0)
}
func (s *TermStore) And(a, b *Term) *Term { return s.Bin(OpBAnd, 0, a, b) }
func (s *TermStore) Or(a, b *Term) *Term  { return s.Bin(OpBOr, 0, a, b) }
func (s *TermStore) Eq(a, b *Term) *Term  { return s.Bin(OpEq, 0, a, b) }
func (s *TermStore) RawEq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Bool(a.v == b.v)
	}
	return s.mk(OpRawEq, 0, a, b, nil, 0)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.v == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.v == 1 {
				return c
			}
			return s.Not(c)
		}
		if a.isConst() {
			if a.v == 1 {
				return s.Or(c, b)
			}
			return s.And(s.Not(c), b)
		}
		if b.isConst() {
			if b.v == 0 {
				return s.And(c, a)
			}
			return s.Or(s.Not(c), a)
		}
	}
	if c.op == OpBNot {
		return s.Ite(c.a[0], b, a)
	}
	return s.mk(OpIte, a.w, c, a, b, 0)
}

// Eval under a model (indexed by variable).
func (s *TermStore) Eval(t *Term, model []uint64) uint64 {
	if t.op == OpConst {
		return t.v
	}
	if t.epoch == s.epoch {
		return t.cache
	}
	var r uint64
	switch t.op {
	case OpVar:
		if int(t.v) < len(model) {
			r = mask(maxw(t.w), model[t.v])
		}
	case OpIte:
		if s.Eval(t.a[0], model) != 0 {
			r = s.Eval(t.a[1], model)
		} else {
			r = s.Eval(t.a[2], model)
		}
	default:
		a := s.Eval(t.a[0], model)
		var b uint64
		if t.a[1] != nil {
			b = s.Eval(t.a[1], model)
		}
		r = evalOp(t.op, t.w, t.a[0].w, a, b)
	}
	t.epoch, t.cache = s.epoch, r
	return r
}

func maxw(w uint8) uint8 {
	if w == 0 {
		return 1
	}
	return w
}

// ---- SMT-LIB printing ----

var opName = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor",
	OpNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpIte: "ite", OpEq: "=", OpRawEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpBAnd: "and", OpBOr: "or", OpBNot: "not",
}

// printQuery renders the conjunction of ts as a sequence of commands using
// local definitions for shared subterms.
func printQuery(sb *strings.Builder, ts []*Term) {
	cnt := map[*Term]int{}
	vars := map[*Term]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		if t.op == OpVar {
			vars[t] = true
			return
		}
		for _, x := range t.a {
			if x != nil {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	vl := make([]*Term, 0, len(vars))
	for v := range vars {
		vl = append(vl, v)
	}
	sort.Slice(vl, func(i, j int) bool { return vl[i].v < vl[j].v })
	for _, v := range vl {
		if v.w == 0 {
			fmt.Fprintf(sb, "(declare-const v%d Bool)\n", v.v)
		} else {
			fmt.Fprintf(sb, "(declare-const v%d (_ BitVec %d))\n", v.v, v.w)
		}
	}
	var pr func(t *Term, top bool)
	pr = func(t *Term, top bool) {
		switch t.op {
		case OpConst:
			if t.w == 0 {
				if t.v == 1 {
					sb.WriteString("true")
				} else {
					sb.WriteString("false")
				}
			} else if t.w%4 == 0 {
				fmt.Fprintf(sb, "#x%0*x", int(t.w/4), t.v)
			} else {
				fmt.Fprintf(sb, "(_ bv%d %d)", t.v, t.w)
			}
			return
		case OpVar:
			fmt.Fprintf(sb, "v%d", t.v)
			return
		}
		if !top && cnt[t] > 1 {
			fmt.Fprintf(sb, "t%d", t.id)
			return
		}
		switch t.op {
		case OpZext:
			fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a[0].w)
		case OpSext:
			fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a[0].w)
		case OpTrunc:
			fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
		default:
			sb.WriteString("(" + opName[t.op] + " ")
		}
		for i, x := range t.a {
			if x == nil {
				break
			}
			if i > 0 {
				sb.WriteByte(' ')
			}
			pr(x, false)
		}
		sb.WriteByte(')')
	}
	for _, t := range order {
		if t.op == OpConst {
			continue
		}
		if cnt[t] > 1 {
			sort := "Bool"
			if t.w > 0 {
				sort = fmt.Sprintf("(_ BitVec %d)", t.w)
			}
			fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sort)
			pr(t, true)
			sb.WriteString(")\n")
		}
	}
	for _, t := range ts {
		sb.WriteString("(assert ")
		pr(t, false)
		sb.WriteString(")\n")
	}
}
