package h

import (
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"

	"verif/harness/nd"
)

func init() {
	All["FormsCommit"] = FormsCommit
	All["FormsTag"] = FormsTag
	All["FormsTree"] = FormsTree
	All["FormsBlob"] = FormsBlob
	All["FormsDecoded"] = FormsDecoded
	All["Build"] = Build
	All["BuildWeird"] = BuildWeird
	All["Pure"] = Pure
}

func reprOf(n ipld.Node) ipld.Node {
	tn, ok := n.(schema.TypedNode)
	if !ok {
		return n
	}
	r := tn.Representation()
	nd.Assert(r != nil, "a typed node has a representation")
	return r
}

func (p *person) val() val {
	return vmap(kv("date", vs(p.date)), kv("timezone", vs(p.tz)), kv("email", vs(p.email)), kv("name", vs(p.name)))
}

// commitVal is the content of c in the order of the schema.
func commitVal(c *commit) val {
	f := []fieldVal{kv("tree", vl(unhex(c.tree)))}
	var ps, ms, os []val
	for _, p := range c.parents {
		ps = append(ps, vl(unhex(p)))
	}
	f = append(f, kv("parents", vlist(ps...)), kv("message", vs(c.message)))
	if c.author != nil {
		f = append(f, kv("author", c.author.val()))
	}
	if c.committer != nil {
		f = append(f, kv("committer", c.committer.val()))
	}
	if c.encoding != nil {
		f = append(f, kv("encoding", vs(c.encoding)))
	}
	if c.sig != nil {
		var s []byte
		for _, l := range c.sig {
			s = cat(s, line(bs(" "), l))
		}
		f = append(f, kv("signature", vs(s)))
	}
	for i := range c.mtags {
		m := &c.mtags[i]
		var s []byte
		for _, l := range m.message {
			s = cat(s, line(bs(" "), l))
		}
		tg := m.tagger
		if tg == nil {
			tg = &person{}
		}
		ms = append(ms, vmap(kv("object", vl(unhex(m.object))), kv("type", vs(m.typ)), kv("tag", vs(m.tag)), kv("tagger", tg.val()), kv("message", vs(s))))
	}
	for _, o := range c.other {
		os = append(os, vs(o))
	}
	return vmap(append(f, kv("mergetag", vlist(ms...)), kv("other", vlist(os...)))...)
}

func tagVal(t *tag) val {
	tg := t.tagger
	if tg == nil {
		tg = &person{}
	}
	return vmap(kv("object", vl(unhex(t.object))), kv("type", vs(t.typ)), kv("tag", vs(t.tag)), kv("tagger", tg.val()), kv("message", vs(t.message)))
}

func treeVal(t tree) val {
	var f []fieldVal
	for _, e := range t {
		f = append(f, kv(string(e.name), vmap(kv("mode", vs(e.mode)), kv("hash", vl(e.sha)))))
	}
	return vmap(f...)
}

// reorder moves fields about; an order chosen once holds for the maps within.
type order struct{ kind, i, j int }

func pickOrder(n int) order {
	switch nd.Choose(4) {
	case 0:
		return order{}
	case 1:
		return order{1, nd.Choose(n), 0} // rotation
	case 2:
		return order{2, 0, 0} // reversal
	}
	return order{3, nd.Choose(n), nd.Choose(n)} // one field moved
}

func (o order) apply(v val) val {
	switch v.k {
	case vList:
		var l []val
		for _, x := range v.list {
			l = append(l, o.apply(x))
		}
		return vlist(l...)
	case vMap:
	default:
		return v
	}
	n := len(v.m)
	var m []fieldVal
	for i := range v.m {
		j := i
		switch o.kind {
		case 1:
			j = (i + o.i) % n
		case 2:
			j = n - 1 - i
		}
		m = append(m, kv(v.m[j].name, o.apply(v.m[j].v)))
	}
	if o.kind == 3 && n > 0 {
		i, j := o.i%n, o.j%n
		x := m[i]
		m = append(append([]fieldVal{}, m[:i]...), m[i+1:]...)
		m = append(append(append([]fieldVal{}, m[:j]...), x), m[j:]...)
	}
	return vmap(m...)
}

// putKV is put by way of AssembleKey and AssembleValue.
func putKV(na datamodel.NodeAssembler, v val) error {
	switch v.k {
	case vList:
		la, err := na.BeginList(-1)
		if err != nil {
			return err
		}
		for _, x := range v.list {
			if err := putKV(la.AssembleValue(), x); err != nil {
				return err
			}
		}
		return la.Finish()
	case vMap:
		ma, err := na.BeginMap(-1)
		if err != nil {
			return err
		}
		for _, f := range v.m {
			if err := ma.AssembleKey().AssignString(f.name); err != nil {
				return err
			}
			if err := putKV(ma.AssembleValue(), f.v); err != nil {
				return err
			}
		}
		return ma.Finish()
	}
	return put(na, v)
}

const nForm = 9

// form makes a node with the content v in one of the ways there are.
func form(k int, tp, rp ipld.NodePrototype, v val, in []byte) ipld.Node {
	must := func(err error) { nd.Assert(err == nil, "assembling conforming data succeeds") }
	switch k {
	case 0:
		return typed(tp, v)
	case 1:
		return reprOf(typed(tp, v))
	case 2:
		return typed(rp, v)
	case 3:
		nb := tp.NewBuilder()
		must(putKV(nb, v))
		return nb.Build()
	case 4:
		nb := rp.NewBuilder()
		must(putKV(nb, v))
		return nb.Build()
	case 5: // a copy of a foreign node
		nb := tp.NewBuilder()
		must(nb.AssignNode(generic(v)))
		return nb.Build()
	case 6:
		nb := rp.NewBuilder()
		must(nb.AssignNode(generic(v)))
		return nb.Build()
	case 7:
		n, err := parse(in)
		must(err)
		return n
	}
	return generic(v)
}

// encodesTo: the node encodes to out, every time, and is left as it was.
func encodesTo(n ipld.Node, out []byte) {
	d := digest(n)
	b, err := enc(n)
	nd.Assert(err == nil, "every form of the node encodes")
	nd.Assert(nd.Eq(b, out), "every form of the node encodes to the same bytes")
	nd.Assert(nd.Eq(digest(n), d), "encoding leaves the node as it was")
	b, err = enc(n)
	nd.Assert(err == nil && nd.Eq(b, out), "encoding again gives the same bytes")
	nd.Observe("out", b)
}

func formCommit() *commit {
	c := stdCommit()
	c.tree = hexSha(1, 2)
	switch nd.Choose(3) {
	case 0:
		c.parents = [][]byte{hexSha(2, 2), hexSha(3, 0)}
		c.encoding = cat(bs("E"), text(1, "\n"))
		c.sig = [][]byte{{}, cat(bs("iQ"), text(1, "\n"))}
		c.mtags = []mtag{stdMtag(4)}
		c.other = [][]byte{cat(bs("x"), text(1, "\n")), bs("y z")}
		c.author.name = text(1, noPers)
		c.committer.email = text(1, noPers)
	case 1: // which of the optional fields are there
		if nd.Choose(2) == 0 {
			c.author = nil
		}
		if nd.Choose(2) == 0 {
			c.committer = nil
		}
		if nd.Choose(2) == 0 {
			c.encoding = cat(bs("E"), text(1, "\n"))
		}
		if nd.Choose(2) == 0 {
			c.sig = [][]byte{{}, cat(bs("iQ"), text(1, "\n"))}
		}
	case 2:
		c.mtags = []mtag{stdMtag(4), stdMtag(5)}
		c.mtags[nd.Choose(2)].tagger = nil
		c.message = nd.Bytes(nd.Choose(2))
	}
	return c
}

func FormsCommit() {
	c := formCommit()
	v := commitVal(c)
	o := order{}
	k := nd.Choose(nForm)
	if k != 7 {
		o = pickOrder(9)
	}
	encodesTo(form(k, git.Type.Commit, git.Type.Commit__Repr, o.apply(v), c.bytes()), c.bytes())
}

func FormsTag() {
	t := stdTag()
	t.tag = text(nd.Choose(2), "\n")
	t.message = nd.Bytes(nd.Choose(2))
	if nd.Choose(2) == 0 {
		t.tagger = nil
	}
	v := tagVal(t)
	k := nd.Choose(nForm + 1)
	if k == nForm { // an untyped tag may lack the tagger
		if t.tagger != nil {
			return
		}
		v.m = append(v.m[:3], v.m[4])
		k = 8
	}
	o := order{}
	if k != 7 {
		o = pickOrder(5)
	}
	encodesTo(form(k, git.Type.Tag, git.Type.Tag__Repr, o.apply(v), t.bytes()), t.bytes())
}

func FormsTree() {
	t := genTree(nd.Choose(3))
	v := treeVal(t)
	// the order of the entries is content; that of their fields is not
	if nd.Choose(2) == 1 {
		for i := range v.m {
			v.m[i].v = order{kind: 2}.apply(v.m[i].v)
		}
	}
	k := nd.Choose(nForm - 1)
	encodesTo(form(k, git.Type.Tree, git.Type.Tree__Repr, v, t.bytes()), t.bytes())
}

func FormsBlob() {
	in := object("blob", nd.Bytes(nd.Choose(5)))
	v := val{k: vBytes, b: in}
	encodesTo(form(nd.Choose(nForm), git.Type.Blob, git.Type.Blob__Repr, v, in), in)
}

// FormsDecoded: what was decoded encodes the same from its representation, a
// copy, and (but for trees) an untyped copy.
func FormsDecoded() {
	in, _ := genObject()
	n, err := parse(in)
	nd.Assert(err == nil, "decodes")
	if len(in) > 20000 {
		return
	}
	switch nd.Choose(5) {
	case 0:
		n = reprOf(n)
	case 1:
		nb := n.Prototype().NewBuilder()
		nd.Assert(nb.AssignNode(n) == nil, "a node can be copied")
		n = nb.Build()
	case 2:
		r := reprOf(n)
		nb := r.Prototype().NewBuilder()
		nd.Assert(nb.AssignNode(r) == nil, "a representation can be copied")
		n = nb.Build()
	case 3:
		if protoFor(in) == git.Type.Tree {
			return
		}
		nb := basicnode.Prototype.Any.NewBuilder()
		nd.Assert(datamodel.Copy(reprOf(n), nb) == nil, "a node can be copied")
		n = nb.Build()
	case 4:
		nb := n.Prototype().NewBuilder()
		nd.Assert(datamodel.Copy(n, nb) == nil, "a node can be copied field by field")
		n = nb.Build()
	}
	encodesTo(n, in)
}

// sameContent is equality of what the fields hold; absent fields may be left
// out.
func sameContent(a, b ipld.Node) bool {
	if a == nil || b == nil || a.Kind() != b.Kind() {
		return false
	}
	if a.Kind() != datamodel.Kind_Map {
		return sameNode(a, b)
	}
	r := true
	sub := func(a, b ipld.Node) {
		for it := a.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				r = false
				return
			}
			if v.IsAbsent() {
				continue
			}
			s, _ := k.AsString()
			w, err := b.LookupByString(s)
			if err != nil {
				r = false
				return
			}
			r = nd.And(r, sameContent(v, w))
		}
	}
	sub(a, b)
	sub(b, a)
	return r
}

// Build: a node built from conforming content encodes to the git object with
// that content, with a correct header, and decoding gives the node back.
func Build() {
	var n ipld.Node
	var want []byte
	switch nd.Choose(3) {
	case 0:
		c := genCommit(nd.Choose(nCommit))
		if len(c.bytes()) > 20000 {
			return
		}
		n, want = typed(git.Type.Commit, commitVal(c)), c.bytes()
	case 1:
		t := genTag(nd.Choose(nTag))
		if len(t.bytes()) > 20000 {
			return
		}
		n, want = typed(git.Type.Tag, tagVal(t)), t.bytes()
	case 2:
		t := genTree(nd.Choose(nTree))
		if len(t.bytes()) > 20000 {
			return
		}
		n, want = typed(git.Type.Tree, treeVal(t)), t.bytes()
	}
	out, err := enc(n)
	nd.Assert(err == nil, "a node built from conforming content encodes")
	nd.Assert(nd.Eq(out, want), "to the git object with that content")
	m, err := parse(out)
	nd.Assert(err == nil, "what was encoded decodes")
	nd.Assert(sameContent(m, n) && sameNode(m, n), "to the node it was encoded from")
	nd.Observe("out", out)
}

// BuildWeird: whatever text the fields hold, the output is framed correctly:
// its header states the length of the rest, in decimal.
func BuildWeird() {
	n, t := weird()
	out, err := enc(n)
	if err != nil {
		return // refusing content git cannot hold would be fine, too
	}
	nd.Cover("encoded")
	framed(out, t)
}

// Pure: encoding leaves any node as it was, whether git could hold it or not,
// and gives the same again.
func Pure() {
	n, _ := weird()
	if nd.Choose(2) == 1 {
		n = reprOf(n)
	}
	d := digest(n)
	out, err := enc(n)
	nd.Assert(nd.Eq(digest(n), d), "encoding leaves the node as it was")
	o, e := enc(n)
	nd.Assert((err == nil) == (e == nil) && nd.Eq(o, out), "encoding again gives the same")
	nd.Assert(nd.Eq(digest(n), d), "encoding leaves the node as it was")
}

// weird is a node with arbitrary text in one field.
func weird() (n ipld.Node, t string) {
	t = "commit"
	any1 := func() val {
		if nd.Choose(2) == 1 {
			return vs(litText(""))
		}
		return vs(nd.Bytes(nd.Choose(3)))
	}
	switch nd.Choose(3) {
	case 0:
		f := commitFields()
		switch nd.Choose(6) {
		case 0:
			f[2].v = any1()
		case 1:
			f[3].v.m[nd.Choose(4)].v = any1()
		case 2:
			f[5].v = any1()
		case 3:
			f[6].v = any1()
		case 4:
			f[7].v.list[0].m[[]int{1, 2, 4}[nd.Choose(3)]].v = any1()
		case 5:
			f[8].v.list[nd.Choose(2)] = any1()
		}
		n = typed(git.Type.Commit, vmap(f...))
	case 1:
		t = "tag"
		f := tagFields()
		switch nd.Choose(4) {
		case 0:
			f[1].v = any1()
		case 1:
			f[2].v = any1()
		case 2:
			f[3].v.m[nd.Choose(4)].v = any1()
		case 3:
			f[4].v = any1()
		}
		n = typed(git.Type.Tag, vmap(f...))
	case 2:
		t = "tree"
		f := entryFields(1)
		f[0].v = any1()
		n = typed(git.Type.Tree, vmap(kv(string(nd.Bytes(nd.Choose(3))), vmap(f...))))
	}
	return n, t
}

// framed: out is type, space, decimal length of the rest, NUL, the rest.
func framed(out []byte, t string) {
	p := len(t) + 1
	nd.Assert(len(out) > p && nd.Eq(out[:p], bs(t+" ")), "the header names the type")
	i := p
	for i < len(out) && i < p+12 && out[i] != 0 {
		i++
	}
	nd.Assert(i < len(out) && out[i] == 0, "the header ends in NUL")
	nd.Assert(nd.Eq(out[p:i], bs(itoa(len(out)-i-1))), "the header states the length of the rest")
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
