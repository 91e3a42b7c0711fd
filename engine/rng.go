package main

import "math/bits"

// Ranges of terms under the path condition, used only to rewrite divisions
// into something a bit-vector solver decides quickly. Every rewrite is an
// equality under the path condition.

// feasible lists the values of an 8-bit variable its unary constraints allow.
func (w *W) feasible(v int32) []uint64 {
	var cs []*Term
	for _, i := range w.pcVars[v] {
		if c := w.pc[i]; len(c.vars) == 1 {
			cs = append(cs, c)
		}
	}
	m := make([]uint64, v+1)
	var r []uint64
	for x := uint64(0); x < 256; x++ {
		m[v] = x
		w.ts.epoch++
		ok := true
		for _, c := range cs {
			if w.ts.Eval(c, m) == 0 {
				ok = false
				break
			}
		}
		if ok {
			r = append(r, x)
		}
	}
	w.ts.epoch++
	return r
}

// rng gives unsigned bounds of t (ok false: nothing better than its width).
func (w *W) rng(t *Term) (lo, hi uint64) {
	full := mask(maxw(t.w), ^uint64(0))
	if t.isConst() {
		return t.v, t.v
	}
	if len(t.vars) == 1 && w.kinds[t.vars[0]] == 8 {
		v := t.vars[0]
		m := make([]uint64, v+1)
		lo, hi = full, 0
		for _, x := range w.feasible(v) {
			m[v] = x
			w.ts.epoch++
			y := w.ts.Eval(t, m)
			lo, hi = min(lo, y), max(hi, y)
		}
		w.ts.epoch++
		if lo > hi {
			return 0, full
		}
		return
	}
	switch t.op {
	case OpZext:
		return w.rng(t.a[0])
	case OpAdd:
		a, b := w.rngOf(t.a[0])
		c, d := w.rngOf(t.a[1])
		if s, ov := bits.Add64(b, d, 0); ov == 0 && s <= full {
			return a + c, s
		}
	case OpMul:
		a, b := w.rngOf(t.a[0])
		c, d := w.rngOf(t.a[1])
		if h, l := bits.Mul64(b, d); h == 0 && l <= full {
			return a * c, l
		}
	case OpUDiv:
		if t.a[1].isConst() && t.a[1].v != 0 {
			a, b := w.rngOf(t.a[0])
			return a / t.a[1].v, b / t.a[1].v
		}
	case OpTrunc:
		a, b := w.rngOf(t.a[0])
		if b <= full {
			return a, b
		}
	}
	return 0, full
}

func (w *W) rngOf(t *Term) (uint64, uint64) { return w.rng(t) }

// divmod rewrites a division by a positive constant; nil: no rewrite.
func (w *W) divmod(op Op, wd uint8, a *Term, c uint64) *Term {
	if c == 0 || a.isConst() {
		return nil
	}
	signed := op == OpSDiv || op == OpSRem
	lo, hi := w.rng(a)
	_ = lo
	if signed {
		if sx(wd, c) <= 0 || hi > mask(wd, ^uint64(0))>>1 {
			return nil
		}
	}
	div := op == OpSDiv || op == OpUDiv
	if hi < c {
		if div {
			return w.ts.Const(wd, 0)
		}
		return a
	}
	if a.op == OpAdd {
		for k := 0; k < 2; k++ {
			m, d := a.a[k], a.a[1-k]
			if m.op != OpMul || !m.a[1].isConst() || m.a[1].v != c {
				continue
			}
			_, mh := w.rng(m.a[0])
			_, dh := w.rng(d)
			h, l := bits.Mul64(mh, c)
			s, ov := bits.Add64(l, dh, 0)
			if dh < c && h == 0 && ov == 0 && s <= mask(wd, ^uint64(0)) {
				if div {
					return m.a[0]
				}
				return d
			}
		}
	}
	if a.op == OpMul && a.a[1].isConst() && a.a[1].v == c {
		_, mh := w.rng(a.a[0])
		if h, l := bits.Mul64(mh, c); h == 0 && l <= mask(wd, ^uint64(0)) {
			if div {
				return a.a[0]
			}
			return w.ts.Const(wd, 0)
		}
	}
	n := uint8(bits.Len64(hi))
	if n >= wd {
		return nil
	}
	uop := OpURem
	if div {
		uop = OpUDiv
	}
	t := w.ts.Bin(uop, n, w.ts.Bin(OpTrunc, n, a, nil), w.ts.Const(n, c))
	return w.ts.Bin(OpZext, wd, t, nil)
}
