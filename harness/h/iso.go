package h

import (
	"bytes"
	"strconv"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"

	"verif/harness/nd"
)

func init() {
	All["IsoBuffer"] = IsoBuffer
	All["IsoHistory"] = IsoHistory
	All["IsoReentrant"] = IsoReentrant
	All["IsoOutput"] = IsoOutput
	All["IsoBuilder"] = IsoBuilder
	All["IsoFollow"] = IsoFollow
	All["IsoTwins"] = IsoTwins
	All["IsoLong"] = IsoLong
}

func anySmall() []byte { return smallObject(nd.Choose(nSmall)) }

// longish is an object whose parts do not fit small reader buffers.
func longish(k int) []byte {
	switch k {
	case 0:
		return object("blob", cat(fill(5000, 1), nd.Bytes(1)))
	case 1:
		return tree{{bs("100644"), fill(4100, 1), rawSha(1, 2)}, {bs("40000"), bs("b"), rawSha(2, 2)}}.bytes()
	case 2:
		c := stdCommit()
		c.author.name = fill(4200, 2)
		c.mtags = []mtag{stdMtag(1)}
		c.mtags[0].message = [][]byte{fill(600, 1), fill(5000, 2), bs("x")}
		c.sig = [][]byte{{}, fill(4090, 3), fill(700, 4)}
		c.other = [][]byte{fill(900, 5), fill(4096, 6)}
		c.encoding = fill(300, 7)
		c.message = cat(fill(5000, 8), nd.Bytes(1))
		return c.bytes()
	}
	t := stdTag()
	t.tag = fill(4100, 1)
	t.typ = fill(500, 1)
	t.message = cat(fill(5000, 8), nd.Bytes(1))
	return t.bytes()
}

func someObject() []byte {
	if nd.Choose(3) == 0 {
		return longish(nd.Choose(4))
	}
	return anySmall()
}

// IsoBuffer: a node does not depend on the buffer it was decoded from.
func IsoBuffer() {
	in := someObject()
	buf := cat(in)
	k := nd.Choose(nEntry)
	if k >= 7 && len(in) > 1000 {
		return
	}
	var n ipld.Node
	var err error
	if k >= 7 {
		z := zl(in, 1)
		n, err = git.ParseCompressedObject(bytes.NewReader(z))
		buf = z
	} else {
		n, err = entryPoint(k, buf)
	}
	nd.Assert(err == nil && n != nil, "a well-formed object decodes")
	d := digest(n)
	x := nd.Byte()
	for i := range buf {
		buf[i] = x
	}
	nd.Assert(nd.Eq(digest(n), d), "overwriting the input leaves the node as it was")
	out, err := enc(n)
	nd.Assert(err == nil && nd.Eq(out, in), "and it still encodes to the object")
}

// op is something else going on in the process.
func op(k int) {
	switch {
	case k < nSmall:
		n, err := parse(smallObject(k))
		nd.Assert(err == nil, "decodes")
		enc(n)
	case k < nSmall+4: // objects that fail half way
		o := longish(k - nSmall)
		parse(o[:len(o)-nd.Choose(2)*2000-1])
	case k == nSmall+4:
		o := smallObject(2)
		o[bytes.Index(o, bs("\nparent "))+9] = 'x'
		_, err := parse(o)
		nd.Assert(err != nil, "refused")
	case k == nSmall+5: // encoding that fails
		enc(mkMap(kv("x", vs(bs("a")))))
		n, _ := parse(smallObject(2))
		git.Encode(n, &faulty{left: nd.Choose(3) * 20})
	case k == nSmall+6:
		git.ParseCompressedObject(bytes.NewReader(zl(smallObject(1), 1)[:20]))
		git.ParseCompressedObject(bytes.NewReader(zl(smallObject(3), 1)))
	}
}

const nOp = nSmall + 7

// IsoHistory: what was decoded before, or fails, has no influence, and what
// is decoded afterwards leaves a node alone.
func IsoHistory() {
	in := someObject()
	for i := nd.Choose(nd.Param("before", 2)); i > 0; i-- {
		op(nd.Choose(nOp))
	}
	n := roundTrip(in)
	d := digest(n)
	for i := nd.Choose(nd.Param("after", 2)); i > 0; i-- {
		op(nd.Choose(nOp))
	}
	nd.Assert(nd.Eq(digest(n), d), "a node stays as it was")
	out, err := enc(n)
	nd.Assert(err == nil && nd.Eq(out, in), "and encodes to its object")
	m, err := parse(in)
	nd.Assert(err == nil && sameNode(m, n), "decoding the object again gives an equal node")
	o, err := enc(m)
	nd.Assert(err == nil && nd.Eq(o, in), "with the same encoding")
}

// IsoFollow: two different objects of one type, one after the other: nothing
// of the first shows in the second.
func IsoFollow() {
	k := nd.Choose(4)
	a, b := longish(k), smallObject(k)
	if nd.Choose(2) == 1 {
		b = smallObject(k + 4)
	}
	if nd.Choose(2) == 1 {
		a, b = b, a
	}
	na := roundTrip(a)
	nb := roundTrip(b)
	oa, ea := enc(na)
	ob, eb := enc(nb)
	nd.Assert(ea == nil && eb == nil && nd.Eq(oa, a) && nd.Eq(ob, b), "each node encodes to its own object")
}

// IsoReentrant: a reader or writer that itself uses the codec gets in nobody's
// way.
func IsoReentrant() {
	in := someObject()
	k := nd.Choose(4)
	inner := longish(k)
	if nd.Choose(2) == 1 {
		inner = smallObject(k)
	}
	times := 0
	nested := func() {
		if times++; times > 3 {
			return
		}
		n, err := parse(inner)
		nd.Assert(err == nil, "the inner object decodes")
		o, err := enc(n)
		nd.Assert(err == nil && nd.Eq(o, inner), "and re-encodes")
	}
	if nd.Choose(2) == 0 {
		r := &chunked{b: in, every: max(len(in)/3, 1), buf: nested}
		n, err := via(nd.Choose(nVia), in, r)
		nd.Assert(err == nil, "the outer object decodes")
		o, err := enc(n)
		nd.Assert(err == nil && nd.Eq(o, in), "and re-encodes")
		return
	}
	n, err := parse(in)
	nd.Assert(err == nil, "the outer object decodes")
	w := &nesting{f: nested}
	nd.Assert(git.Encode(n, w) == nil && nd.Eq(w.got, in), "the outer node encodes to its object")
}

type nesting struct {
	got []byte
	f   func()
}

func (w *nesting) Write(p []byte) (int, error) {
	w.f()
	w.got = append(w.got, p...)
	return len(p), nil
}

// IsoOutput: the bytes written are the writer's alone.
func IsoOutput() {
	in := someObject()
	if in[0] == 'b' {
		return // a blob's bytes go out as they are: a writer may not modify them
	}
	n, err := parse(in)
	nd.Assert(err == nil, "decodes")
	k := &holder{}
	nd.Assert(git.Encode(n, k) == nil, "encodes")
	op(nd.Choose(nOp))
	k2 := &holder{}
	nd.Assert(git.Encode(n, k2) == nil, "encodes")
	nd.Assert(nd.Eq(k2.copy, in), "the object is written")
	nd.Assert(nd.Eq(k.copy, in), "the object is written")
}

// holder copies what it is given.
type holder struct{ copy []byte }

func (h *holder) Write(p []byte) (int, error) {
	h.copy = append(h.copy, p...)
	return len(p), nil
}

// IsoBuilder: decoding with a reused builder gives independent nodes.
func IsoBuilder() {
	k := nd.Choose(4)
	a, b := smallObject(k), smallObject(k+4)
	if nd.Choose(2) == 1 {
		a, b = b, a
	}
	p := protoFor(a)
	if nd.Choose(2) == 1 {
		p = reprFor(a)
	}
	nb := p.NewBuilder()
	nd.Assert(git.Decode(nb, bytes.NewReader(a)) == nil, "decodes")
	na := nb.Build()
	nb.Reset()
	if nd.Choose(2) == 1 { // a failure in between
		nd.Assert(git.Decode(nb, bytes.NewReader(a[:3])) != nil, "refused")
		nb.Reset()
	}
	nd.Assert(git.Decode(nb, bytes.NewReader(b)) == nil, "decodes")
	n2 := nb.Build()
	oa, ea := enc(na)
	ob, eb := enc(n2)
	nd.Assert(ea == nil && nd.Eq(oa, a), "the first node is the first object")
	nd.Assert(eb == nil && nd.Eq(ob, b), "the second node is the second object")
}

// varied is the i-th of any number of different concrete objects.
func varied(i int) []byte {
	num := func(k int) []byte { return []byte(strconv.Itoa(k)) }
	who := func(k int) *person {
		return &person{cat(bs("N "), num(k)), cat(num(k%7), bs("@"), num(k/3)), num(1000000000 + k*7919), bs([]string{"+0000", "-0730", "+0545"}[k%3])}
	}
	switch i % 4 {
	case 0:
		return object("blob", cat(num(i), fill(i*37%3000, i)))
	case 1:
		var t tree
		for j := 0; j < i%11; j++ {
			t = append(t, entry{bs([]string{"100644", "40000", "120000", "160000", "100755"}[j%5]), cat(bs("f"), num(j*i)), rawSha(i%50+j, 0)})
			if i == 0 {
				break
			}
		}
		return t.bytes()
	case 2:
		c := stdCommit()
		c.tree = hexSha(i, 0)
		c.author, c.committer = who(i), who(i+1)
		for j := 0; j < i%4; j++ {
			c.parents = append(c.parents, hexSha(i+j, 0))
		}
		if i%3 == 0 {
			m := stdMtag(i)
			m.tagger = who(i + 2)
			m.message = [][]byte{num(i), fill(i%90, 2)}
			c.mtags = []mtag{m}
		}
		if i%5 == 0 {
			c.encoding = cat(bs("E"), num(i))
		}
		if i%7 == 0 {
			c.sig = [][]byte{{}, num(i)}
		}
		if i%9 == 0 {
			c.other = [][]byte{cat(bs("h "), num(i)), bs("HG:extra x")}
		}
		c.message = cat(num(i), fill(i*13%700, 1), bs("\n"))
		return c.bytes()
	}
	t := stdTag()
	t.object = hexSha(i, 0)
	t.tag = cat(bs("v"), num(i))
	t.typ = bs([]string{"commit", "tree", "blob", "tag"}[i/4%4])
	if i%3 == 0 {
		t.tagger = nil
	} else {
		t.tagger = who(i)
	}
	if i%8 == 3 {
		t.message = cat(num(i), fill(i%100, 3), bs("\n"))
	} else {
		t.message = nil
	}
	return t.bytes()
}

// IsoLong: a long history of other objects, whole and cut, decoded in every
// way and encoded to writers that take them and that fail.
func IsoLong() {
	var ins [][]byte
	var ns []ipld.Node
	history := func(lo, hi int) {
		for i := lo; i < hi; i++ {
			in := varied(i)
			n, err := entryPoint(i/4%7, in)
			nd.Assert(err == nil && n != nil, "a well-formed object decodes")
			if i%5 == 0 {
				parse(in[:len(in)*(i%9)/9])
			}
			if i%6 == 0 {
				git.Encode(n, &faulty{left: i % 70})
			}
			out, err := enc(n)
			nd.Assert(err == nil && nd.Eq(out, in), "it encodes to the object")
			ins, ns = append(ins, in), append(ns, n)
		}
	}
	n := nd.Param("n", 120)
	history(0, n)
	in := someObject()
	x := roundTrip(in)
	d := digest(x)
	history(n, n+n/4)
	for i := range ins {
		out, err := enc(ns[i])
		nd.Assert(err == nil && nd.Eq(out, ins[i]), "after many others, a node still encodes to its object")
	}
	nd.Assert(nd.Eq(digest(x), d), "a node stays as it was")
	out, err := enc(x)
	nd.Assert(err == nil && nd.Eq(out, in), "and encodes to its object")
}

const nTwin = 20

// twin is an object of which part k is arbitrary; i tells its other parts from
// those of its twins.
func twin(k, i int) []byte {
	t := func(excl string) []byte { return text(nd.Param("twin", 3), excl) }
	person := func(k int) *person {
		p := pers("N"+strconv.Itoa(i), "e"+strconv.Itoa(i), "1112911"+strconv.Itoa(i), "+010"+strconv.Itoa(i))
		switch k {
		case 0:
			p.name = t(noPers + " ")
		case 1:
			p.email = t(noPers)
		case 2:
			p.date = t(noPers + " ")
		case 3:
			p.tz = t(noPers + " ")
		}
		return p
	}
	switch {
	case k < 13:
		c := stdCommit()
		c.tree = hexSha(i, 0)
		c.author, c.committer = person(k), person(9)
		c.parents = [][]byte{hexSha(i+5, 0)}
		m := stdMtag(i)
		c.encoding = bs("U" + strconv.Itoa(i))
		c.sig = [][]byte{{}, bs("iQ" + strconv.Itoa(i))}
		c.other = [][]byte{bs("x y" + strconv.Itoa(i))}
		c.message = bs("m" + strconv.Itoa(i) + "\n")
		switch k {
		case 4:
			c.tree = hexSha(i, 6)
		case 5:
			c.parents = [][]byte{hexSha(1, 6)}
		case 6:
			c.encoding = t("\n")
		case 7:
			m.tag = t("\n")
		case 8:
			m.tagger = person(nd.Choose(4))
		case 9:
			m.message = [][]byte{t("\n")}
		case 10:
			c.sig = [][]byte{t("\n")}
		case 11:
			c.other = [][]byte{cat(bs("x"), t("\n"))}
		case 12:
			c.message = t("")
		}
		c.mtags = []mtag{m}
		return c.bytes()
	case k < 16:
		e := entry{bs("100644"), bs("n" + strconv.Itoa(i)), rawSha(i, 0)}
		switch k {
		case 13:
			e.mode = t(" ")
		case 14:
			e.name = t("\x00")
		case 15:
			e.sha = rawSha(1, 4)
		}
		return tree{e}.bytes()
	case k < 19:
		g := stdTag()
		g.object = hexSha(i, 0)
		g.tagger = person(9)
		g.message = bs("m" + strconv.Itoa(i) + "\n")
		switch k {
		case 16:
			g.tag = t("\n")
		case 17:
			g.tagger = person(nd.Choose(4))
		case 18:
			g.message = t("")
		}
		return g.bytes()
	}
	return object("blob", t(""))
}

// IsoTwins: three objects that are alike in any way.
func IsoTwins() {
	k := nd.Choose(nTwin)
	var in [3][]byte
	var n [3]ipld.Node
	for i := range in {
		in[i] = twin(k, i)
		n[i] = roundTrip(in[i])
	}
	for i := range in {
		out, err := enc(n[i])
		nd.Assert(err == nil && nd.Eq(out, in[i]), "each node encodes to its own object")
	}
}
