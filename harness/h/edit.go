package h

import (
	"bytes"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/traversal"

	"verif/harness/nd"
)

func init() {
	All["EditCommit"] = EditCommit
	All["EditTag"] = EditTag
	All["EditTree"] = EditTree
	All["EditBad"] = EditBad
	All["Chain"] = Chain
	All["CopyAny"] = CopyAny
}

// edited is the object after replacing (nil: removing) what is at path, which
// must leave n as it was.
func edited(n ipld.Node, path string, v ipld.Node) (ipld.Node, error) {
	before := digest(n)
	r, err := traversal.FocusedTransform(n, datamodel.ParsePath(path), func(_ traversal.Progress, prev datamodel.Node) (datamodel.Node, error) {
		return v, nil
	}, false)
	nd.Assert(nd.Eq(digest(n), before), "an edit leaves the node it starts from as it was")
	return r, err
}

func wantEdit(n ipld.Node, path string, v ipld.Node, in, out []byte) {
	r, err := edited(n, path, v)
	nd.Assert(err == nil, "an edit of what is there succeeds")
	var b bytes.Buffer
	nd.Assert(git.Encode(r, &b) == nil, "an edited node encodes")
	nd.Assert(len(b.Bytes()) == len(out), "an edit changes only what it names")
	nd.Assert(nd.Eq(b.Bytes(), out), "an edit changes only what it names")
	o, err := enc(n)
	nd.Assert(err == nil && nd.Eq(o, in), "the node before the edit still encodes to its object")
	nd.Observe("edit", b.Bytes())
}

func strNode(b []byte) ipld.Node    { return basicnode.NewString(string(b)) }
func linkNode(sha []byte) ipld.Node { return basicnode.NewLink(mkLink(sha)) }

// start is the decoded object, as representation or, where nothing optional is
// missing, also typed.
func start(in []byte, full bool) ipld.Node {
	n, err := parse(in)
	nd.Assert(err == nil, "a well-formed object decodes")
	if !full || nd.Choose(2) == 1 {
		return reprOf(n)
	}
	return n
}

func EditCommit() {
	c := stdCommit()
	c.parents = [][]byte{hexSha(2, 2), hexSha(3, 0)}
	c.mtags = []mtag{stdMtag(4), stdMtag(5)}
	c.other = [][]byte{cat(bs("x"), text(1, "\n")), bs("y z")}
	full := nd.Choose(2) == 0
	if full {
		c.encoding = cat(bs("E"), text(1, "\n"))
		c.sig = [][]byte{{}, cat(bs("iQ"), text(1, "\n"))}
		if nd.Choose(2) == 1 { // there, but empty
			c.encoding, c.sig = []byte{}, [][]byte{}
		}
	} else if nd.Choose(2) == 1 { // nothing that need not be
		c.author, c.committer, c.message = nil, nil, nil
	}
	in := c.bytes()
	n := start(in, full)
	s := text(nd.Choose(3), "\n")
	h := rawSha(9, 4)
	var v ipld.Node
	var path string
	switch nd.Choose(17) {
	case 0:
		path, v, c.tree = "tree", linkNode(h), hexOf(h)
	case 1:
		path, v, c.parents[1] = "parents/1", linkNode(h), hexOf(h)
	case 2:
		path, v = "parents/-", linkNode(h)
		c.parents = append(c.parents, hexOf(h))
	case 3: // the parents replaced
		path, v, c.parents = "parents", generic(vlist(vl(h))), [][]byte{hexOf(h)}
	case 4:
		path, v, c.message = "message", strNode(s), s
	case 5:
		if c.author == nil {
			return
		}
		nd.Assume(nd.And(without1(s, '<'), without1(s, '>')))
		p := *c.author
		p.name = s
		path, v, c.author = "author/name", strNode(s), &p
	case 6:
		if c.committer == nil {
			return
		}
		nd.Assume(nd.And(without1(s, '<'), without1(s, '>')))
		p := *c.committer
		p.email = s
		path, v, c.committer = "committer/email", strNode(s), &p
	case 7:
		p := &person{cat(bs("N"), text(1, noPers)), bs("e@f"), bs("12"), bs("+0100")}
		path, v, c.author = "author", generic(p.val()), p
	case 8:
		path, v, c.encoding = "encoding", strNode(s), s
		if s == nil {
			c.encoding = []byte{}
		}
	case 9: // optional parts removed
		nd.Assume(full)
		path, c.encoding = "encoding", nil
	case 10:
		nd.Assume(full)
		path, c.sig = "signature", nil
	case 11:
		nd.Assume(c.author != nil)
		path, c.author = "author", nil
	case 12:
		path, v, c.mtags[1].tag = "mergetag/1/tag", strNode(s), s
	case 13:
		path, v, c.mtags[0].object = "mergetag/0/object", linkNode(h), hexOf(h)
	case 14:
		path, v, c.mtags[0].typ = "mergetag/0/type", strNode(s), s
	case 15:
		s = cat(bs("z"), s)
		path, v, c.other[0] = "other/0", strNode(s), s
	case 16: // or emptied
		path, v, c.other = "other", generic(vlist()), nil
	}
	wantEdit(n, path, v, in, c.bytes())
}

func without1(b []byte, x byte) bool {
	r := true
	for _, y := range b {
		r = nd.And(r, nd.Not(nd.EqByte(x, y)))
	}
	return r
}

func EditTag() {
	t := stdTag()
	t.tag = cat(bs("v"), text(1, "\n"))
	in := t.bytes()
	n := start(in, true)
	s := text(1+nd.Choose(2), "\n")
	h := rawSha(9, 4)
	var v ipld.Node
	var path string
	switch nd.Choose(6) {
	case 0:
		path, v, t.object = "object", linkNode(h), hexOf(h)
	case 1:
		path, v, t.typ = "type", strNode(s), s
	case 2:
		path, v, t.tag = "tag", strNode(s), s
	case 3:
		path, v, t.message = "message", strNode(s), s
	case 4:
		p := *t.tagger
		p.tz = bs("+0530")
		path, v, t.tagger = "tagger/timezone", strNode(p.tz), &p
	case 5:
		p := &person{bs("N O"), cat(bs("e"), text(1, noPers)), bs("12"), bs("+0100")}
		path, v, t.tagger = "tagger", generic(p.val()), p
	}
	wantEdit(n, path, v, in, t.bytes())
}

func EditTree() {
	t := tree{{bs("100644"), cat(bs("f"), text(1, "\x00/")), rawSha(1, 2)}, {bs("40000"), bs("d"), rawSha(2, 2)}, {bs("120000"), bs("l"), rawSha(3, 0)}}
	in := t.bytes()
	n := start(in, true)
	m := cat(bs("1"), text(nd.Choose(3), " "))
	h := rawSha(9, 4)
	k := nd.Choose(3)
	name := string(t[k].name)
	u := append(tree{}, t...)
	var v ipld.Node
	var path string
	switch nd.Choose(5) {
	case 0:
		path, v, u[k].mode = name+"/mode", strNode(m), m
	case 1:
		path, v, u[k].sha = name+"/hash", linkNode(h), h
	case 2:
		path, v, u[k] = name, generic(vmap(kv("mode", vs(m)), kv("hash", vl(h)))), entry{m, t[k].name, h}
	case 3: // removed
		path = name
		u = append(append(tree{}, t[:k]...), t[k+1:]...)
	case 4: // added
		path, v = "new", generic(vmap(kv("mode", vs(m)), kv("hash", vl(h))))
		u = append(u, entry{m, bs("new"), h})
	}
	wantEdit(n, path, v, in, u.bytes())
}

// EditBad: an edit that does not fit is an error and leaves the node alone.
func EditBad() {
	k := nd.Choose(4)
	in := smallObject(k)
	if k == 0 {
		return
	}
	n, err := parse(in)
	nd.Assert(err == nil, "a well-formed object decodes")
	n = reprOf(n)
	paths := [][]string{1: {"b/mode", "b/hash", "b", "b/nope", "b/mode/x", "b/hash/x"}, 2: {"tree", "parents", "parents/0", "parents/7", "message", "author", "author/name", "nope", "mergetag/0", "mergetag/0/type", "other/0", "other/x", "signature/x", "encoding", "signature", "mergetag", "other", "committer"}, 3: {"object", "type", "tag", "tagger", "tagger/date", "tagger/nope", "message", "nope"}}[k]
	p := paths[nd.Choose(len(paths))]
	var v ipld.Node
	switch nd.Choose(6) {
	case 3:
		v = datamodel.Null
	case 4:
		v = basicnode.NewBytes(nd.Bytes(nd.Choose(2)))
	case 5:
		v = mkList(val{k: vInt})
	case 0:
		v = basicnode.NewInt(7)
	case 1:
		v = basicnode.NewBool(true)
	case 2:
		v = mkMap(kv("nope", vs(bs("x"))))
	}
	_, err = edited(n, p, v)
	nd.Assert(err != nil, "an edit that does not fit the schema is an error")
	o, err := enc(n)
	nd.Assert(err == nil && nd.Eq(o, in), "and leaves the node as it was")
}

// Chain: what was encoded, decoded and copied any number of times stays one
// and the same.
func Chain() {
	in := smallObject(nd.Choose(nSmall))
	n, err := parse(in)
	nd.Assert(err == nil, "a well-formed object decodes")
	d := digest(n)
	for i := 0; i < nd.Param("chain", 2); i++ {
		n = copied(nd.Choose(nCopied), n)
		nd.Assert(nd.Eq(digest(n), d), "every copy is the same")
	}
	o, err := enc(n)
	nd.Assert(err == nil && len(o) == len(in), "the last copy encodes")
	nd.Assert(nd.Eq(o, in), "the last copy is still the object")
}

const nCopied = 6

// copied is n, another way.
func copied(k int, n ipld.Node) ipld.Node {
	switch k {
	case 0: // through bytes
		b, err := enc(n)
		nd.Assert(err == nil, "encodes")
		n, err = parse(b)
		nd.Assert(err == nil, "what was encoded decodes")
		return n
	case 1: // copied into a builder of its own type
		nb := n.Prototype().NewBuilder()
		nd.Assert(nb.AssignNode(n) == nil, "a node can be copied")
		return nb.Build()
	case 2: // through an untyped node
		nb := basicnode.Prototype.Any.NewBuilder()
		nd.Assert(datamodel.Copy(reprOf(n), nb) == nil, "a node can be copied field by field")
		m := nb.Build()
		nb = reprOf(n).Prototype().NewBuilder()
		nd.Assert(nb.AssignNode(m) == nil, "an untyped copy can be assigned")
		return nb.Build()
	case 3: // through the registered codec, as the representation
		b, err := enc(reprOf(n))
		nd.Assert(err == nil, "encodes")
		nb := reprOf(n).Prototype().NewBuilder()
		nd.Assert(git.Decode(nb, bytes.NewReader(b)) == nil, "what was encoded decodes")
		return nb.Build()
	case 4: // the representation, field by field
		nb := reprOf(n).Prototype().NewBuilder()
		nd.Assert(datamodel.Copy(reprOf(n), nb) == nil, "a representation can be copied field by field")
		return nb.Build()
	}
	// from the representation to the type
	nb := n.Prototype().NewBuilder()
	nd.Assert(nb.AssignNode(reprOf(n)) == nil, "a representation can be assigned")
	return nb.Build()
}

// CopyAny: any object, copied once in any way.
func CopyAny() {
	in, want := genObject()
	if len(in) > nd.Param("most", 700) {
		return
	}
	n, err := parse(in)
	nd.Assert(err == nil, "a well-formed object decodes")
	n = copied(1+nd.Choose(nCopied-1), n)
	want(n)
	o, err := enc(n)
	nd.Assert(err == nil && nd.Eq(o, in), "a copy is still the object")
}
