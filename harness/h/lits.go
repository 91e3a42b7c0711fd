package h

import (
	"bytes"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"

	"verif/harness/nd"
)

func init() {
	All["LitBlob"] = LitBlob
	All["LitTree"] = LitTree
	All["LitCommit"] = LitCommit
	All["LitTag"] = LitTag
	All["NumBlob"] = NumBlob
	All["NumTree"] = NumTree
	All["NumCommit"] = NumCommit
	All["NumTag"] = NumTag
	All["NumAgree"] = NumAgree
	All["NumList"] = NumList
	All["NumMap"] = NumMap
	All["LitStruct"] = LitStruct
	All["LitScalar"] = LitScalar
	All["LitLines"] = LitLines
	All["LitPerson"] = LitPerson
	All["NumPerson"] = NumPerson
}

// Objects built around the constants of the code under check: every text that
// stands in it may be what it compares its input with, every number a size at
// which it does something else.

// litText is a text of the code, without some bytes, alone or with an
// arbitrary byte before it, behind it, or both.
func litText(excl string) []byte {
	s := bs(strings.Map(func(r rune) rune {
		if strings.ContainsRune(excl, r) {
			return -1
		}
		return r
	}, nd.Lit()))
	switch nd.Choose(nd.Param("litforms", 4)) {
	case 1:
		s = cat(s, text(1, excl))
	case 2:
		s = cat(text(1, excl), s)
	case 3:
		s = cat(text(1, excl), s, text(1, excl))
	}
	return s
}

var commitHeaders = []string{"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object ", "gpgsig -----BEGIN PGP SIGNATURE-----"}

// no assumes that b does not begin with s.
func no(b []byte, s string) {
	if len(b) >= len(s) {
		nd.Assume(nd.Not(nd.Eq(b[:len(s)], bs(s))))
	}
}

const nLitCommit = 11

func litCommit(k int) *commit {
	c := stdCommit()
	switch k {
	case 0:
		c.message = litText("")
	case 1:
		c.message = cat(bs("subject\n\n"), litText(""), bs("\nend"))
	case 2:
		c.author = &person{litText(noPers), bs("a@b"), bs("1"), bs("+0000")}
	case 3:
		c.committer = &person{bs("A"), litText(noPers), bs("1"), bs("+0000")}
	case 4:
		c.encoding = litText("\n")
	case 5, 6:
		o := litText("\n")
		if k == 6 {
			o = cat(bs("x-"), o)
		}
		nd.Assume(len(o) > 0)
		for _, h := range commitHeaders {
			no(o, h)
		}
		c.other = [][]byte{bs("x y"), o, bs(" more")}
	case 7:
		l := litText("\n")
		no(l, "-----END PGP SIGNATURE-----")
		c.sig = [][]byte{{}, l, bs("=x")}
		c.other = [][]byte{bs("x y")}
	case 8:
		m := stdMtag(5)
		m.message = [][]byte{litText("\n"), bs("end")}
		c.mtags = []mtag{m, stdMtag(6)}
	case 9:
		m := stdMtag(5)
		m.tag, m.typ = litText("\n"), bs("tree")
		c.mtags = []mtag{m}
	case 10:
		m := stdMtag(5)
		m.tagger = &person{litText(noPers), bs("a@b"), bs("1"), bs("+0000")}
		c.mtags = []mtag{m}
	}
	return c
}

const nLitTag = 6

func litTag(k int) *tag {
	t := stdTag()
	switch k {
	case 0:
		t.message = litText("")
	case 1:
		t.message = cat(bs("subject\n\n"), litText(""), bs("\nend"))
	case 2:
		t.tag = litText("\n")
	case 3:
		t.typ = litText("\n")
	case 4:
		t.tagger = &person{litText(noPers), bs("a@b"), bs("1"), bs("+0000")}
	case 5:
		t.tagger = &person{bs("A"), litText(noPers), bs("1"), bs("+0000")}
	}
	return t
}

func litTree(k int) tree {
	if k == 2 {
		return tree{{litText("\x00 "), bs("a"), rawSha(1, 2)}, {bs("40000"), bs("b"), rawSha(2, 2)}}
	}
	n := litText("\x00")
	t := tree{{bs("100644"), n, rawSha(1, 2)}, {bs("40000"), cat(n, bs("b")), rawSha(2, 2)}}
	if k == 1 {
		t = tree{{bs("40000"), bs("a"), rawSha(1, 2)}, {bs("160000"), cat(n, bs(".")), rawSha(1, 2)}, {bs("120000"), n, rawSha(1, 2)}}
		nd.Assume(len(n) > 1) // not "a"
	}
	return t
}

func LitBlob() {
	var c []byte
	switch nd.Choose(3) {
	case 0:
		c = litText("")
	case 1:
		c = cat(litText(""), bs("\n"), fill(100, 1), text(1, ""))
	case 2:
		c = cat(fill(100, 1), bs("\n"), litText(""))
	}
	b := object("blob", c)
	x, err := roundTrip(b).AsBytes()
	nd.Assert(err == nil && nd.Eq(x, b), "a blob node holds the object's bytes")
}

func again(in []byte, want func(ipld.Node)) { want(roundTrip(in)) }

func LitTree() {
	t := litTree(nd.Choose(3))
	again(t.bytes(), t.want)
}

func LitCommit() {
	c := litCommit(nd.Choose(nLitCommit))
	again(c.bytes(), c.want)
}

func LitTag() {
	t := litTag(nd.Choose(nLitTag))
	again(t.bytes(), t.want)
}

// num is a number that stands in the code, give or take one.
func num(lo, hi int) int { return nd.Num(lo, hi) - 1 + nd.Choose(3) }

// long is text of n bytes, the last ones arbitrary.
func long(n int, excl string) []byte {
	k := min(n, 2)
	return cat(fill(n-k, n), text(k, excl))
}

// NumBlob: blobs, or the objects, as long as a number of the code.
func NumBlob() {
	n := num(3, nd.Param("num", 3_000_000))
	if nd.Choose(2) == 1 {
		n = max(0, n-len("blob ")-len(itoa(n))-1)
	}
	b := object("blob", long(n, ""))
	x, err := roundTrip(b).AsBytes()
	nd.Assert(err == nil && nd.Eq(x, b), "a blob node holds the object's bytes")
}

func NumTree() {
	var t tree
	switch nd.Choose(3) {
	case 0: // that long a name
		t = tree{{bs("100644"), long(num(3, nd.Param("num", 70000)), "\x00"), rawSha(1, 2)}, {bs("40000"), bs("b"), rawSha(2, 2)}}
	case 1: // that many entries
		n := num(3, nd.Param("count", 2000))
		for i := 0; i < n-1; i++ {
			t = append(t, entry{bs("100644"), cat(bs("f"), []byte{byte('A' + i%26), byte('A' + i/26%26), byte('A' + i/676%26), byte('A' + i/17576%26)}), rawSha(i, 0)})
		}
		t = append(t, entry{bs("40000"), cat(bs("last"), text(1, "\x00")), rawSha(3, 4)})
	case 2: // a tree of that many bytes
		n := num(60, nd.Param("num", 70000))
		t = tree{{bs("100644"), long(max(1, n-28), "\x00"), rawSha(1, 2)}}
	}
	again(t.bytes(), t.want)
}

// numLines is n lines, the last one arbitrary.
func numLines(n int) [][]byte {
	var r [][]byte
	for i := 1; i < n; i++ {
		r = append(r, cat(bs("l"), fill(i%5, i)))
	}
	return append(r, text(1, "\n"))
}

// NumCommit: one part of a commit as long, or as often, as a number of the code.
func NumCommit() {
	c := stdCommit()
	size := func() int { return num(3, nd.Param("num", 70000)) }
	count := func() int { return num(3, nd.Param("count", 2000)) }
	switch nd.Choose(11) {
	case 0:
		c.message = long(size(), "")
	case 1:
		c.message = join(numLines(count()))
	case 2:
		c.author = &person{long(size(), noPers+" "), bs("a@b"), bs("1"), bs("+0000")}
	case 3:
		c.committer = &person{bs("A"), long(size(), noPers), bs("1"), bs("+0000")}
	case 4:
		c.encoding = long(size(), "\n")
	case 5:
		c.other = [][]byte{cat(bs("x-"), long(size()-2, "\n")), bs(" more")}
	case 6:
		c.other = numLines(count())
	case 7:
		c.sig = append(numLines(count()), bs("=x"))
	case 8:
		m := stdMtag(5)
		m.message = numLines(count())
		c.mtags = []mtag{m}
	case 9:
		n := count()
		for i := 1; i < n; i++ {
			c.parents = append(c.parents, hexSha(i, 0))
		}
		c.parents = append(c.parents, hexSha(7, 2))
	case 10:
		n := num(3, nd.Param("count", 300))
		for i := 0; i < n; i++ {
			m := mtag{object: hexSha(i, 0), typ: bs("commit"), tag: bs("t"), tagger: stdTagger(), message: [][]byte{bs("m")}}
			c.mtags = append(c.mtags, m)
		}
		c.mtags[n-1].tag = text(1, "\n")
	}
	again(c.bytes(), c.want)
}

func NumTag() {
	t := stdTag()
	n := num(3, nd.Param("num", 70000))
	switch nd.Choose(5) {
	case 0:
		t.message = long(n, "")
	case 1:
		t.tag = long(n, "\n")
	case 2:
		t.typ = long(n, "\n")
	case 3:
		t.tagger = &person{long(n, noPers+" "), bs("a@b"), bs("1"), bs("+0000")}
	case 4:
		t.message = join(numLines(min(n, 2000)))
	}
	again(t.bytes(), t.want)
}

// NumAgree: the ways of decoding agree on objects, and parts of them, that are
// as long as a number of the code.
func NumAgree() {
	n := num(3, nd.Param("num", 70000))
	var in []byte
	switch nd.Choose(5) {
	case 0:
		in = object("blob", long(n, ""))
	case 1: // the whole is that long
		in = object("blob", long(max(0, n-len("blob ")-len(itoa(n))-1), ""))
	case 2:
		in = tree{{bs("100644"), long(n, "\x00"), rawSha(1, 2)}}.bytes()
	case 3:
		c := stdCommit()
		c.message = long(max(0, n-len(c.body())+len(c.message)), "")
		in = c.bytes()
	case 4:
		t := stdTag()
		t.tag = long(n, "\n")
		in = t.bytes()
	}
	n1, e1 := parse(in)
	nd.Assert(e1 == nil, "a well-formed object decodes without error")
	n2, e2 := entryPoint(nd.Choose(nEntry-1), in)
	sameResult(n1, e1, n2, e2, "entry points")
	o, err := enc(n2)
	nd.Assert(err == nil && nd.Eq(o, in), "the node re-encodes to the object")
}

// NumList: lists of as many elements as a number of the code.
func NumList() {
	lt := listOf(nd.Choose(nList))
	most := nd.Param("count", 300)
	if lt.name == "Tag_List" {
		most /= 5
	}
	n := num(3, most)
	v := vlist()
	for i := 0; i < n; i++ {
		switch lt.name {
		case "String_List":
			v.list = append(v.list, vs(cat(bs("s"), fill(i%7, i))))
		case "Commit_Link_List":
			v.list = append(v.list, vl(rawSha(i, 0)))
		default:
			if i > 0 {
				v.list = append(v.list, v.list[0])
			} else {
				v.list = append(v.list, vmap(tagFields()...))
			}
		}
	}
	v.list[n-1] = lt.elem(1)
	proto := lt.tp
	if nd.Choose(2) == 1 {
		proto = lt.rp
	}
	nb := proto.NewBuilder()
	if nd.Choose(3) == 0 {
		nd.Assert(nb.AssignNode(generic(v)) == nil, "a list takes a list")
	} else {
		la, err := nb.BeginList([]int64{-1, int64(n)}[nd.Choose(2)])
		nd.Assert(err == nil, "a list begins")
		for _, x := range v.list {
			nd.Assert(put(la.AssembleValue(), x) == nil, "an element takes its value")
		}
		nd.Assert(la.Finish() == nil, "a list finishes")
	}
	b := nb.Build()
	readList(b, v, lt.name)
	readList(reprOf(b), v, lt.name)
}

// NumMap: trees of as many entries, and of names as long, as a number of the code.
func NumMap() {
	var t tree
	if nd.Choose(2) == 1 {
		t = tree{{bs("100644"), long(num(3, nd.Param("num", 70000)), ""), rawSha(1, 2)}, {bs("40000"), bs("b"), rawSha(2, 2)}}
	} else {
		n := num(3, nd.Param("count", 300))
		for i := 1; i < n; i++ {
			t = append(t, entry{bs("100644"), cat(bs("f"), []byte{byte('A' + i%26), byte('A' + i/26%26), byte('A' + i/676%26)}), rawSha(i, 0)})
		}
		t = append(t, entry{bs("40000"), cat(bs("last"), nd.Bytes(1)), rawSha(3, 4)})
	}
	proto := ipld.NodePrototype(git.Type.Tree)
	if nd.Choose(2) == 1 {
		proto = git.Type.Tree__Repr
	}
	var n ipld.Node
	if nd.Choose(2) == 1 {
		nb := proto.NewBuilder()
		nd.Assert(nb.AssignNode(generic(treeVal(t))) == nil, "a tree takes a map of entries")
		n = nb.Build()
	} else {
		n = typed(proto, treeVal(t))
	}
	readTree(n, t)
	readTree(reprOf(n), t)
}

// LitStruct: struct fields keep any text that stands in the code.
func LitStruct() {
	st := structOf(pick(nStruct))
	i := nd.Choose(len(st.fields))
	if st.fields[i].v.k != vStr {
		return
	}
	st.fields[i].v = vs(litText(""))
	proto := st.tp
	if nd.Choose(2) == 1 {
		proto = st.rp
	}
	both(typed(proto, vmap(st.fields...)), st, allOf(len(st.fields)))
}

// LitScalar: strings and bytes keep any text that stands in the code.
func LitScalar() {
	sp := scalarProtos[nd.Choose(len(scalarProtos))]
	if sp.k == vLink {
		return
	}
	v := val{k: sp.k, b: litText("")}
	proto := sp.tp
	if nd.Choose(2) == 1 {
		proto = sp.rp
	}
	nb := proto.NewBuilder()
	if nd.Choose(2) == 1 {
		nd.Assert(nb.AssignNode(generic(v)) == nil, "a scalar takes a node of its kind")
	} else {
		nd.Assert(put(nb, v) == nil, "a scalar takes its value")
	}
	n := nb.Build()
	wantVal(n, v, "scalar")
	wantVal(reprOf(n), v, "scalar's representation")
}

// LitLines: a text that stands in the code as a line of its own, put before
// any line of a commit or tag or in its place, or as a mode or name in a tree.
func LitLines() {
	k := 1 + nd.Choose(3)
	if k == 1 {
		l := litText("")
		switch nd.Choose(3) {
		case 0:
			survive(object("tree", cat(l, bs(" a\x00"), rawSha(1, 2))))
		case 1:
			survive(object("tree", cat(bs("100644 "), l, bs("\x00"), rawSha(1, 2))))
		case 2:
			survive(object("tree", cat(bs("100644 a\x00"), rawSha(1, 2), l)))
		}
		return
	}
	o := smallObject(k)
	i := bytes.IndexByte(o, 0)
	ls := bytes.Split(o[i+1:], []byte("\n"))
	p := nd.Choose(len(ls))
	r := append([][]byte{}, ls[:p]...)
	r = append(r, litText(""))
	if m := nd.Param("both", 0); m == 0 && p%2 == 1 || m == 1 && nd.Choose(2) == 1 {
		r = append(r, ls[p+1:]...)
	} else {
		r = append(r, ls[p:]...)
	}
	survive(object(types[k], bytes.Join(r, []byte("\n"))))
}

func personPlace(p *person) {
	switch nd.Choose(4) {
	case 0:
		c := stdCommit()
		c.author = p
		again(c.bytes(), c.want)
	case 1:
		c := stdCommit()
		c.committer = p
		again(c.bytes(), c.want)
	case 2:
		t := stdTag()
		t.tagger = p
		again(t.bytes(), t.want)
	case 3:
		c := stdCommit()
		m := stdMtag(5)
		m.tagger = p
		c.mtags = []mtag{m}
		again(c.bytes(), c.want)
	}
}

// LitPerson: a person of whom one part is a text that stands in the code.
func LitPerson() {
	p := stdAuthor()
	switch nd.Choose(4) {
	case 0:
		p.name = litText(noPers)
	case 1:
		p.email = litText(noPers)
	case 2:
		p.date = litText("\n ")
		nd.Assume(len(p.date) > 0)
	case 3:
		p.tz = litText("\n ")
		nd.Assume(len(p.tz) > 0)
	}
	personPlace(p)
}

// NumPerson: a person of whom one part is as long, or has as many words, as a
// number of the code.
func NumPerson() {
	p := stdAuthor()
	switch nd.Choose(5) {
	case 0:
		p.name = long(num(3, nd.Param("num", 9000)), noPers+" ")
	case 1:
		p.email = long(num(3, nd.Param("num", 9000)), noPers+" ")
	case 2:
		p.date = long(num(3, nd.Param("num", 9000)), "\n ")
	case 3:
		p.tz = long(num(3, nd.Param("num", 9000)), "\n ")
	case 4:
		w := bytes.Repeat([]byte("w "), num(3, nd.Param("count", 300)))
		p.name = cat(w, text(1, noPers))
		if nd.Choose(2) == 1 {
			p.name, p.email = bs("A"), p.name
		}
	}
	personPlace(p)
}
