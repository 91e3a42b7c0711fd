package main

// Concurrent operations. nd.Parallel(f, shared...) stands for f(0) and f(1)
// running in two goroutines. The engine runs them one after the other with
// every memory cell that both can reach (from the package variables of the
// code under test and from shared) marked: a path on which one of them writes
// such a cell without holding a lock, or reads without one what the other
// wrote under one, is a candidate race under the path's condition. The
// compiled code is then run with real goroutines under the race detector on
// the solver's values to confirm it.

import "strings"

type parSt struct {
	cells  map[*Val]bool
	maps   map[*MapV]bool
	locked map[any]bool // written under a lock or atomically
	heldW  int
	heldR  int
	seen   map[string]bool
}

func (w *W) parRoots(shared Val) {
	var todo []*Val
	p := w.par
	var visit func(v Val)
	cellv := func(c *Val) {
		if !p.cells[c] {
			p.cells[c] = true
			todo = append(todo, c)
		}
	}
	var fields func(a *Agg)
	fields = func(a *Agg) {
		for i := range a.f {
			cellv(&a.f[i])
		}
	}
	visit = func(v Val) {
		switch x := v.X.(type) {
		case *Val:
			cellv(x)
		case *Agg:
			fields(x)
		case Slice:
			x = x[:cap(x)]
			for i := range x {
				cellv(&x[i])
			}
		case *SymPtr:
			for i := range x.arr {
				cellv(&x.arr[i])
			}
		case *MapV:
			if x != nil && !p.maps[x] {
				p.maps[x] = true
				for _, e := range x.ents {
					visit(e.k)
					visit(e.v)
				}
			}
		case *Iface:
			if x != nil {
				visit(x.V)
			}
		case *Closure:
			if x != nil {
				for _, e := range x.env {
					visit(e)
				}
			}
		case Tuple:
			for _, e := range x {
				visit(e)
			}
		}
	}
	for _, pk := range w.eng.pkgList {
		if !strings.HasPrefix(pk.path, underTest) {
			continue
		}
		for _, g := range pk.globs {
			cellv(w.global(g))
		}
	}
	visit(shared)
	for len(todo) > 0 {
		c := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if s := w.sides[c]; s != nil {
			// the contents of a sync.Map, not the map itself
			if mv, ok := (*s).(*MapV); ok {
				for _, e := range mv.ents {
					visit(e.k)
					visit(e.v)
				}
			}
		}
		visit(*c)
	}
}

const underTest = "github.com/ipfs/go-ipld-git"

func (w *W) parRun(fr *frame, f Val, shared Val) {
	cl := f.X.(*Closure)
	w.par = &parSt{cells: map[*Val]bool{}, maps: map[*MapV]bool{}, locked: map[any]bool{}, seen: map[string]bool{}}
	defer func() { w.par = nil }()
	for i := 0; i < 2; i++ {
		w.parRoots(shared)
		w.call(fr, cl.fn, []Val{intVal(i)}, cl.env)
	}
}

func (w *W) parWrite(c *Val) {
	p := w.par
	if p.cells[c] {
		p.wrote(w, c)
	}
}

func (w *W) parWriteMap(m *MapV) {
	p := w.par
	if p.maps[m] {
		p.wrote(w, m)
	}
}

func (p *parSt) wrote(w *W, c any) {
	if p.heldW > 0 {
		p.locked[c] = true
		return
	}
	w.race("writes memory that both can reach, without synchronisation")
}

// parRead is called for loads while something was written under a lock.
func (w *W) parRead(c any) {
	p := w.par
	if p.heldW == 0 && p.heldR == 0 && p.locked[c] {
		w.race("reads memory without synchronisation that the other wrote under a lock")
	}
}

func (w *W) race(what string) {
	site := ""
	if len(w.stack) > 0 {
		site = w.stack[len(w.stack)-1].name
	}
	k := "one of two concurrent operations " + what + ", in " + site
	if w.par.seen[k] {
		return
	}
	w.par.seen[k] = true
	w.violate("race", k, w.model)
}
