package h

import (
	"github.com/ipld/go-ipld-prime"

	"verif/harness/nd"
)

// A model of git objects, written from git's own format: what is encoded in
// the bytes, and what the node must therefore hold.

type person struct {
	name, email, date, tz []byte // date, tz nil: not present
}

func (p *person) bytes() []byte {
	r := cat(p.name, []byte(" <"), p.email, []byte(">"))
	if p.date != nil {
		r = add(r, []byte(" "), p.date)
	}
	if p.tz != nil {
		r = add(r, []byte(" "), p.tz)
	}
	return r
}

func (p *person) want(n ipld.Node) {
	wantStr(n, "name", p.name)
	wantStr(n, "email", p.email)
	wantStr(n, "date", p.date)
	wantStr(n, "timezone", p.tz)
}

func pers(name, email, date, tz string) *person {
	return &person{[]byte(name), []byte(email), []byte(date), []byte(tz)}
}

func stdAuthor() *person { return pers("A U Thor", "author@example.com", "1112911993", "-0700") }
func stdCommitter() *person {
	return pers("C O Mitter", "committer@example.com", "1112912053", "+0130")
}
func stdTagger() *person { return pers("T A Gger", "tagger@example.com", "1112912113", "+0200") }

type mtag struct {
	object  []byte // hex
	typ     []byte
	tag     []byte
	tagger  *person  // nil: none
	message [][]byte // lines
}

type commit struct {
	tree      []byte // hex
	parents   [][]byte
	author    *person
	committer *person
	encoding  []byte // nil: none
	mtags     []mtag
	sig       [][]byte // nil: none; armor lines between BEGIN and END
	other     [][]byte
	message   []byte
}

func line(parts ...[]byte) []byte { return append(cat(parts...), '\n') }
func bs(s string) []byte          { return []byte(s) }

// add appends in place.
func add(r []byte, parts ...[]byte) []byte {
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func (m *mtag) bytes() []byte {
	r := line(bs("mergetag object "), m.object)
	r = add(r, line(bs(" type "), m.typ), line(bs(" tag "), m.tag))
	if m.tagger != nil {
		r = add(r, line(bs(" tagger "), m.tagger.bytes()))
	}
	r = add(r, bs(" \n"))
	for _, l := range m.message {
		r = add(r, line(bs(" "), l))
	}
	return r
}

func (c *commit) body() []byte {
	r := line(bs("tree "), c.tree)
	for _, p := range c.parents {
		r = add(r, line(bs("parent "), p))
	}
	if c.author != nil {
		r = add(r, line(bs("author "), c.author.bytes()))
	}
	if c.committer != nil {
		r = add(r, line(bs("committer "), c.committer.bytes()))
	}
	if c.encoding != nil {
		r = add(r, line(bs("encoding "), c.encoding))
	}
	for i := range c.mtags {
		r = add(r, c.mtags[i].bytes())
	}
	if c.sig != nil {
		r = add(r, bs("gpgsig -----BEGIN PGP SIGNATURE-----\n"))
		for _, l := range c.sig {
			r = add(r, line(bs(" "), l))
		}
		r = add(r, bs(" -----END PGP SIGNATURE-----\n"))
	}
	for _, o := range c.other {
		r = add(r, line(o))
	}
	return cat(r, bs("\n"), c.message)
}

func (c *commit) bytes() []byte { return object("commit", c.body()) }

func (c *commit) want(n ipld.Node) {
	wantLink(n, "tree", unhex(c.tree))
	ps := field(n, "parents")
	nd.Assert(ps.Length() == int64(len(c.parents)), "parents: one link per parent header")
	for i, p := range c.parents {
		l, err := ps.LookupByIndex(int64(i))
		nd.Assert(err == nil, "parents can be indexed")
		nd.Assert(nd.Eq(linkBytes(l, "parent"), cidOf(unhex(p))), "parents are links in header order")
	}
	if c.author != nil {
		c.author.want(field(n, "author"))
	} else {
		wantAbsent(n, "author")
	}
	if c.committer != nil {
		c.committer.want(field(n, "committer"))
	} else {
		wantAbsent(n, "committer")
	}
	if c.encoding == nil {
		wantAbsent(n, "encoding")
	} else {
		wantStr(n, "encoding", c.encoding)
	}
	ms := field(n, "mergetag")
	nd.Assert(ms.Length() == int64(len(c.mtags)), "mergetag: one entry per mergetag header")
	for i := range c.mtags {
		m := &c.mtags[i]
		v, err := ms.LookupByIndex(int64(i))
		nd.Assert(err == nil, "mergetags can be indexed")
		wantLink(v, "object", unhex(m.object))
		wantStr(v, "type", m.typ)
		wantStr(v, "tag", m.tag)
		if m.tagger != nil {
			m.tagger.want(field(v, "tagger"))
		}
		var msg []byte
		for _, l := range m.message {
			msg = add(msg, line(bs(" "), l))
		}
		wantStr(v, "message", msg)
	}
	if c.sig == nil {
		wantAbsent(n, "signature")
	} else {
		var sig []byte
		for _, l := range c.sig {
			sig = add(sig, line(bs(" "), l))
		}
		wantStr(n, "signature", sig)
	}
	os := field(n, "other")
	nd.Assert(os.Length() == int64(len(c.other)), "other: one entry per unrecognised header line")
	for i, o := range c.other {
		v, err := os.LookupByIndex(int64(i))
		nd.Assert(err == nil, "other can be indexed")
		nd.Assert(nd.Eq(strOf(v, "other"), o), "other holds the header lines in order")
	}
	wantStr(n, "message", c.message)
}

type tag struct {
	object  []byte // hex
	typ     []byte
	tag     []byte
	tagger  *person
	message []byte
}

func (t *tag) body() []byte {
	r := cat(line(bs("object "), t.object), line(bs("type "), t.typ), line(bs("tag "), t.tag))
	if t.tagger != nil {
		r = add(r, line(bs("tagger "), t.tagger.bytes()))
	}
	if len(t.message) > 0 {
		r = add(r, bs("\n"), t.message)
	}
	return r
}

func (t *tag) bytes() []byte { return object("tag", t.body()) }

func (t *tag) want(n ipld.Node) {
	wantLink(n, "object", unhex(t.object))
	wantStr(n, "type", t.typ)
	wantStr(n, "tag", t.tag)
	if t.tagger != nil {
		t.tagger.want(field(n, "tagger"))
	} else {
		(&person{}).want(field(n, "tagger"))
	}
	wantStr(n, "message", t.message)
}

type entry struct{ mode, name, sha []byte }

type tree []entry

func (t tree) bytes() []byte {
	var r []byte
	for _, e := range t {
		r = add(r, e.mode, bs(" "), e.name, []byte{0}, e.sha)
	}
	return object("tree", r)
}

func (t tree) want(n ipld.Node) {
	nd.Assert(n.Length() == int64(len(t)), "a tree has one entry per git entry")
	it := n.MapIterator()
	for _, e := range t {
		nd.Assert(!it.Done(), "iteration reaches every entry")
		k, v, err := it.Next()
		nd.Assert(err == nil, "iteration succeeds")
		nd.Assert(nd.Eq(strOf(k, "name"), e.name), "entries come in the object's order under their names")
		wantStr(v, "mode", e.mode)
		wantLink(v, "hash", e.sha)
		nd.Observe("k", strOf(k, "name"))
	}
	nd.Assert(it.Done(), "iteration stops after the last entry")
	for _, e := range t {
		v, err := n.LookupByString(string(e.name))
		nd.Assert(err == nil, "every entry can be looked up by name")
		wantStr(v, "mode", e.mode)
		wantLink(v, "hash", e.sha)
	}
}

// ---- generators ----

// sizes around the buffer boundaries of the streaming reader
func edgeLen() int {
	if nd.Param("lite", 0) == 1 {
		return []int{0, 511, 4091, 9000}[nd.Choose(4)]
	}
	l := []int{0, 1, 2, 100, 511, 512, 513, 4000}
	if k := nd.Choose(3); k == 0 {
		return l[nd.Choose(len(l))]
	} else if k == 1 {
		// every length for which some line boundary falls on the 4096 buffer edge
		return nd.Param("edgeLo", 4085) + nd.Choose(nd.Param("edgeN", 14))
	}
	l = []int{8190, 8192, 9000, 66000}
	return l[nd.Choose(len(l))]
}

const noPers = "<>\n"

func genPerson() *person {
	d, z := bs("1112911993"), bs("-0700")
	switch nd.Choose(11) {
	case 8: // longer text in every part at once
		k := nd.Param("words", 8)
		return &person{text(k, noPers+" "), text(k, noPers+" "), text(10, " \n"), text(5, " \n")}
	case 9:
		d = []byte{nd.Byte(), nd.Byte(), '3'}
		for _, x := range d {
			nd.Assume(nd.In2(x, '0', '9'))
		}
		z = text(1+nd.Choose(7), " \n")
		return &person{bs("A"), bs("a@b"), d, z}
	case 0:
		return &person{text(nd.Choose(nd.Param("name", 3)+1), noPers), bs("a@b"), d, z}
	case 1:
		return &person{bs("A"), text(nd.Choose(nd.Param("email", 3)+1), noPers), d, z}
	case 2:
		return &person{bs("A B"), bs("a@b"), text(1+nd.Choose(3), " \n"), text(1+nd.Choose(3), " \n")}
	case 3:
		return &person{cat(bs("A"), text(1, noPers), bs("B"), text(1, noPers)), cat(text(1, noPers), bs("x y"), text(1, noPers)), d, z}
	case 4: // no timezone
		return &person{cat(bs("A"), text(1, noPers)), text(1, noPers), text(1+nd.Choose(2), " \n"), nil}
	case 5: // neither date nor timezone
		return &person{cat(bs("A"), text(1, noPers)), text(1, noPers), nil, nil}
	case 6: // empty name, empty email
		return &person{nil, nil, d, text(2, " \n")}
	case 7:
		return &person{cat(bs("Jean  "), text(1, noPers), bs(" M\xc3\xbcller, Jr.")), cat(bs("j. m  "), text(1, noPers), bs("@ex ample.org")), d, z}
	default:
		l := edgeLen()
		return &person{cat(fill(l, 3), text(1, noPers), bs(" x")), cat(fill(l%700, 5), text(1, noPers)), d, z}
	}
}

// genLine is arbitrary one-line text (no newline), of arbitrary small length.
func genLine(max int) []byte { return text(nd.Choose(max+1), "\n") }

// genOther is a header line that no known header of a commit starts.
func genOther(max int) []byte {
	switch nd.Choose(5) {
	case 4:
		return cat(bs("h"), text(nd.Param("words", 8), "\n"))
	case 0:
		return text(1+nd.Choose(max), "\n") // up to 4 bytes cannot be "tree "
	case 1:
		st := []string{"treex", "parents ", "authors ", "committers ", "encodings ", "mergetags ", "mergetag obj", "gpgsig-sha256 ", "HG:extra ", "tree", "parent", "author", "committer", "encoding", "gpgsig", " continuation", "\t", " tree ", " ", "object ", "tagger "}
		s := st[nd.Choose(len(st))]
		t := text(nd.Choose(2), "\n")
		if len(t) > 0 && s[len(s)-1] != ' ' {
			nd.Assume(nd.Not(nd.EqByte(t[0], ' ')))
		}
		return cat(bs(s), t)
	case 2:
		return cat(bs("x-long "), fill(edgeLen(), 1), text(1, "\n"))
	}
	return bs("HG:rename-source hg")
}

// genMsg is an arbitrary message.
func genMsg(max int) []byte {
	switch nd.Choose(4) {
	case 0:
		return nd.Bytes(nd.Choose(max + 1))
	case 3:
		return nd.Bytes(nd.Param("msglong", 24))
	case 1:
		return cat(bs("subject"), nd.Bytes(1), bs("\r\n\n body tree x"), nd.Bytes(2))
	}
	return cat(fill(edgeLen(), 2), nd.Bytes(2))
}

func stdCommit() *commit {
	return &commit{tree: hexSha(1, 2), author: stdAuthor(), committer: stdCommitter(), message: bs("msg\n")}
}

func stdMtag(seed int) mtag {
	return mtag{object: hexSha(seed, 2), typ: bs("commit"), tag: cat(bs("v"), text(1, "\n")), tagger: stdTagger(), message: [][]byte{bs("Merge me"), {}, cat(bs("x"), text(1, "\n"))}}
}

// genCommitShape varies which headers are present and how often, with a few
// arbitrary bytes in every part.
func genCommitShape() *commit {
	c := &commit{tree: hexSha(1, 2), author: stdAuthor(), committer: stdCommitter()}
	np, nm, no := nd.Param("parents", 3), nd.Param("mtags", 2), nd.Param("others", 2)
	if nd.Param("lite", 0) == 1 {
		np, nm, no = 1, 1, 1
	}
	np = nd.Choose(np + 1)
	for i := 0; i < np; i++ {
		c.parents = append(c.parents, hexSha(10+i, 2))
	}
	if nd.Choose(2) == 1 {
		c.encoding = cat(bs("ISO-8859-"), text(1, "\n"))
	}
	nm = nd.Choose(nm + 1)
	for i := 0; i < nm; i++ {
		c.mtags = append(c.mtags, stdMtag(20+i))
	}
	switch nd.Choose(3) {
	case 1:
		c.sig = [][]byte{{}, cat(bs("iQ"), text(1, "\n"))}
	case 2:
		c.sig = [][]byte{bs("Version: GnuPG v2"), {}, bs("iQIcBAABAgAGBQ"), bs("=abcd")}
	}
	no = nd.Choose(no + 1)
	for i := 0; i < no; i++ {
		c.other = append(c.other, cat(bs("x"), text(1, "\n"), bs(" v")))
	}
	switch nd.Choose(3) {
	case 0:
	case 1:
		c.message = nd.Bytes(1)
	case 2:
		c.message = bs("subject\n\nbody\n")
	}
	return c
}

// genCommit covers one part of a commit in depth per variant.
func genCommit(k int) *commit {
	c := stdCommit()
	switch k {
	case 9:
		return realCommit()
	case 10:
		return confusedCommit()
	case 0: // shapes
		return genCommitShape()
	case 1: // all hash digits
		c.tree = hexSha(1, 40)
		c.parents = [][]byte{hexSha(2, 40)}
	case 2: // persons
		switch nd.Choose(3) {
		case 0:
			c.author = genPerson()
		case 1:
			c.committer = genPerson()
		case 2: // missing ones
			if nd.Choose(2) == 0 {
				c.author = nil
			}
			if nd.Choose(2) == 0 {
				c.committer = nil
			}
			c.parents = [][]byte{hexSha(2, 2)}
			c.message = nd.Bytes(1)
		}
	case 3: // message
		c.message = genMsg(nd.Param("msg", 4))
	case 4: // other headers
		if nd.Choose(3) == 0 {
			// a signature of another kind is kept line by line
			k := []string{"SSH SIGNATURE", "SIGNED MESSAGE", "PGP MESSAGE", "PGP SIGNATURE----", "SSH SIG"}[nd.Choose(5)]
			c.other = [][]byte{bs("gpgsig -----BEGIN " + k + "-----"), cat(bs(" U1NI"), text(1, "\n")), bs(" -----END " + k + "-----")}
			if nd.Choose(2) == 1 {
				c.other[0] = cat(bs("gpgsig "), text(2, "\n"))
			}
			break
		}
		n := 1 + nd.Choose(2)
		for i := 0; i < n; i++ {
			c.other = append(c.other, genOther(4))
		}
	case 5: // encoding
		switch nd.Choose(3) {
		case 0:
			c.encoding = genLine(nd.Param("enc", 3))
			if c.encoding == nil {
				c.encoding = []byte{}
			}
		case 1:
			c.encoding = fill(edgeLen(), 4)
		case 2:
			c.encoding = text(nd.Param("words", 8), "\n")
		}
	case 6: // signature
		switch nd.Choose(6) {
		case 5: // any armor header, or none
			c.sig = [][]byte{}
			for i := nd.Choose(3); i > 0; i-- {
				c.sig = append(c.sig, genLine(2))
			}
			if nd.Choose(2) == 1 {
				c.sig = append([][]byte{cat(bs("Charset: "), text(1, "\n"))}, c.sig...)
			}
		case 0:
			c.sig = [][]byte{{}}
		case 1:
			c.sig = [][]byte{{}, genLine(3), genLine(2)}
			if nd.Choose(4) == 0 {
				c.sig = [][]byte{text(nd.Param("words", 8), "\n"), text(nd.Param("words", 8), "\n")}
			}
		case 2:
			c.sig = [][]byte{cat(bs("Version: "), genLine(2)), {}, genLine(2)}
		case 3:
			c.sig = [][]byte{cat(bs("Comment: "), genLine(2)), genLine(2), {}, bs("=x")}
		case 4:
			c.sig = [][]byte{{}, fill(edgeLen(), 6), text(1, "\n")}
		}
		if nd.Choose(2) == 1 {
			c.other = [][]byte{bs(" ")}
		}
	case 7: // mergetag
		n := 1 + nd.Choose(2)
		for i := 0; i < n; i++ {
			m := stdMtag(30 + i)
			if i == 0 {
				switch nd.Choose(8) {
				case 7:
					k := nd.Param("words", 8)
					m.typ, m.tag, m.message = text(k, "\n"), text(k, "\n"), [][]byte{text(k, "\n"), text(k, "\n")}
				case 0:
					m.typ = genLine(3)
				case 1:
					m.tag = genLine(3)
				case 2:
					m.tagger = genPerson()
				case 3:
					m.tagger = nil
				case 4:
					m.message = nil
					for j := nd.Choose(3); j > 0; j-- {
						m.message = append(m.message, genLine(2))
					}
				case 5:
					m.message = [][]byte{fill(edgeLen(), 8), text(1, "\n")}
				case 6:
					m.object = hexSha(3, 40)
				}
			}
			c.mtags = append(c.mtags, m)
		}
		if nd.Choose(2) == 1 {
			c.sig = [][]byte{{}, bs("iQ")}
			c.other = [][]byte{bs("x y")}
		}
	case 8: // many
		n := nd.Param("many", 40)
		for i := 0; i < n; i++ {
			c.parents = append(c.parents, hexSha(50+i, 0))
		}
		c.parents[n-1] = hexSha(7, 4)
		for i := 0; i < n/2; i++ {
			m := stdMtag(100 + i)
			m.message = [][]byte{bs("l1")}
			c.mtags = append(c.mtags, m)
			c.other = append(c.other, cat(bs("h"), fill(i+1, i)))
		}
	}
	return c
}

const nCommit = 11

func stdTag() *tag {
	return &tag{object: hexSha(1, 2), typ: bs("commit"), tag: bs("v1.0"), tagger: stdTagger(), message: bs("release\n")}
}

const nTag = 9

func genTag(k int) *tag {
	t := stdTag()
	switch k {
	case 7:
		return realTag()
	case 8:
		return confusedTag()
	case 0: // shapes
		t.typ = bs([]string{"commit", "tree", "blob", "tag"}[nd.Choose(4)])
		t.tag = text(nd.Choose(3), "\n")
		if nd.Choose(2) == 1 {
			t.tagger = nil
		}
		t.message = nd.Bytes(nd.Choose(3))
	case 1:
		t.object = hexSha(1, 40)
	case 2:
		t.tagger = genPerson()
	case 3:
		t.message = genMsg(nd.Param("msg", 4))
	case 4:
		t.tag = genLine(nd.Param("tag", 4))
		if nd.Choose(4) == 0 {
			t.tag = text(nd.Param("words", 8)*2, "\n")
		}
	case 5:
		t.typ = genLine(nd.Param("typ", 4))
		if nd.Choose(4) == 0 {
			t.typ = text(nd.Param("words", 8), "\n")
		}
	case 6:
		if nd.Choose(2) == 0 {
			t.tag = cat(fill(edgeLen(), 9), text(1, "\n"))
		} else {
			t.typ = cat(fill(edgeLen(), 9), text(1, "\n"))
		}
	}
	return t
}

const nTree = 6

func genTree(k int) tree {
	var t tree
	modes := []string{"100644", "100755", "40000", "120000", "160000", "100664", "040000"}
	switch k {
	case 5:
		t = realTree()
	case 0: // small trees, arbitrary names
		n := nd.Choose(nd.Param("entries", 2) + 1)
		for i := 0; i < n; i++ {
			t = append(t, entry{bs(modes[nd.Choose(len(modes))]), text(1+nd.Choose(nd.Param("tname", 2)), "\x00"), rawSha(i, 2)})
		}
	case 1: // arbitrary mode text and full arbitrary hash
		t = tree{{text(nd.Choose(7), " "), text(nd.Choose(3), "\x00"), rawSha(1, 20)}}
		if nd.Choose(4) == 0 {
			t = tree{{bs("100755"), text(nd.Param("words", 8), "\x00"), rawSha(1, 2)}, {bs("040000"), text(nd.Param("words", 8), "\x00"), rawSha(2, 2)}}
		}
	case 2: // order: git sorts directories as if they ended in a slash
		a := text(1, "\x00")
		t = tree{{bs("100644"), cat(bs("foo"), a), rawSha(1, 2)}, {bs("40000"), bs("foo"), rawSha(2, 2)}, {bs("100644"), cat(bs("foo"), a, bs("b")), rawSha(3, 2)}, {bs("160000"), bs("b"), rawSha(4, 2)}}
	case 3: // long names
		t = tree{{bs("100644"), cat(fill(edgeLen(), 1), text(1, "\x00")), rawSha(1, 2)}, {bs("100755"), bs("z"), rawSha(2, 20)}}
	case 4: // many entries
		n := nd.Param("many", 40) * 5
		for i := 0; i < n; i++ {
			t = append(t, entry{bs(modes[i%len(modes)]), cat(bs("f"), fill(i%9+1, i), []byte{byte('A' + i%26), byte('A' + i/26%26)}), rawSha(i, 0)})
		}
		t[n-1] = entry{bs("100644"), cat(bs("last"), text(1, "\x00")), rawSha(3, 4)}
	}
	for i := range t {
		for j := 0; j < i; j++ {
			if len(t[i].name) == len(t[j].name) {
				nd.Assume(nd.Not(nd.Eq(t[i].name, t[j].name)))
			}
		}
	}
	return t
}

const nBlob = 5

func genBlob(k int) []byte {
	switch k {
	case 4:
		return realMsg()
	case 0:
		return nd.Bytes(nd.Choose(nd.Param("blob", 12) + 1))
	case 1:
		return cat(fill(edgeLen(), 2), nd.Bytes(2))
	case 2:
		return cat(nd.Bytes(2), fill(edgeLen(), 2), nd.Bytes(1))
	}
	l := []int{9, 10, 99, 100, 101, 999, 1000, 1023, 1024, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 131073, 1000000, 1048577, 3000000}
	n := l[nd.Choose(nd.Param("bigblobs", 20))]
	return cat(fill(n-2, 1), nd.Bytes(2))
}

// genObject is any well-formed object of the model.
func genObject() ([]byte, func(ipld.Node)) {
	switch nd.Choose(4) {
	case 0:
		b := object("blob", genBlob(nd.Choose(nBlob)))
		return b, func(n ipld.Node) {
			x, err := n.AsBytes()
			nd.Assert(err == nil, "a blob has bytes")
			nd.Assert(nd.Eq(x, b), "a blob node holds the object")
		}
	case 1:
		t := genTree(nd.Choose(nTree))
		return t.bytes(), t.want
	case 2:
		c := genCommit(nd.Choose(nCommit))
		return c.bytes(), c.want
	}
	t := genTag(nd.Choose(nTag))
	return t.bytes(), t.want
}

// smallObject is one representative object per type with few arbitrary bytes.
func smallObject(k int) []byte {
	switch k {
	case 0:
		return object("blob", cat(nd.Bytes(2), bs("\x00\nblob"), nd.Bytes(1)))
	case 1:
		t := tree{{bs("100644"), cat(bs("a"), text(1, "\x00")), rawSha(1, 2)}, {bs("40000"), bs("b"), rawSha(2, 2)}}
		nd.Assume(nd.Not(nd.Eq(t[0].name, t[1].name)))
		return t.bytes()
	case 2:
		c := stdCommit()
		c.parents = [][]byte{hexSha(4, 2), hexSha(5, 2)}
		c.encoding = cat(bs("E"), text(1, "\n"))
		c.mtags = []mtag{stdMtag(6)}
		c.sig = [][]byte{{}, bs("iQ")}
		c.other = [][]byte{cat(bs("x"), text(1, "\n"))}
		c.message = cat(bs("m"), nd.Bytes(1), bs("\n"))
		return c.bytes()
	case 3:
		t := stdTag()
		t.message = cat(bs("r"), nd.Bytes(1), bs("\n"))
		return t.bytes()
	case 4:
		return object("blob", nil)
	case 5:
		return tree{}.bytes()
	case 6:
		c := stdCommit()
		c.message = nil
		return c.bytes()
	}
	t := stdTag()
	t.tagger, t.message = nil, nil
	return t.bytes()
}

const nSmall = 8
