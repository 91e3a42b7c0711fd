package h

import (
	"bytes"

	"github.com/ipfs/go-cid"
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"

	"verif/harness/nd"
)

func init() {
	All["HashLink"] = HashLink
	All["LinkHash"] = LinkHash
	All["BadLink"] = BadLink
}

const nPos = 5

// HashLink: a hash in an object becomes exactly the link made of those 20
// bytes, wherever it stands, and encodes back to the same digits.
func HashLink() {
	switch nd.Choose(nPos) {
	case 0:
		c := stdCommit()
		c.tree = hexSha(1, 40)
		wantLink(roundTrip(c.bytes()), "tree", unhex(c.tree))
	case 1:
		c := stdCommit()
		c.parents = [][]byte{hexSha(1, 4), hexSha(1, 4), hexSha(2, 4)}
		c.parents[nd.Choose(3)] = hexSha(3, 40)
		n := field(roundTrip(c.bytes()), "parents")
		nd.Assert(n.Length() == 3, "every parent is there")
		for i, p := range c.parents {
			l, err := n.LookupByIndex(int64(i))
			nd.Assert(err == nil, "parents can be indexed")
			nd.Assert(nd.Eq(linkBytes(l, "parent"), cidOf(unhex(p))), "a parent is the link of its hash")
		}
	case 2:
		c := stdCommit()
		c.mtags = []mtag{stdMtag(1), stdMtag(2)}
		k := nd.Choose(2)
		c.mtags[k].object = hexSha(3, 40)
		n, err := field(roundTrip(c.bytes()), "mergetag").LookupByIndex(int64(k))
		nd.Assert(err == nil, "mergetags can be indexed")
		wantLink(n, "object", unhex(c.mtags[k].object))
	case 3:
		t := stdTag()
		t.object = hexSha(1, 40)
		t.typ = bs(types[nd.Choose(4)])
		wantLink(roundTrip(t.bytes()), "object", unhex(t.object))
	case 4:
		t := tree{{bs("100644"), bs("a"), rawSha(1, 2)}, {bs("40000"), bs("b"), rawSha(2, 2)}}
		t[nd.Choose(2)].sha = rawSha(3, 20)
		t.want(roundTrip(t.bytes()))
	}
}

// withLink is a node of the given form with the link at the given position,
// and the object's bytes up to the position of the hash and after it.
func withLink(pos int, l datamodel.Link, form int) (n ipld.Node, pre, post []byte, raw bool) {
	lk := func(na datamodel.NodeAssembler) error { return na.AssignLink(l) }
	_ = lk
	mark := val{k: vLink, b: nil}
	var v val
	switch pos {
	case 0, 1, 2:
		c := stdCommit()
		c.tree, c.parents = hexSha(1, 0), [][]byte{hexSha(2, 0), hexSha(3, 0)}
		c.mtags = []mtag{{object: hexSha(4, 0), typ: bs("commit"), tag: bs("v"), tagger: stdTagger(), message: [][]byte{bs("m")}}}
		v = commitVal(c)
		b := c.bytes()
		var h []byte
		switch pos {
		case 0:
			h = c.tree
			v.m[0].v = mark
		case 1:
			h = c.parents[1]
			v.m[1].v.list[1] = mark
		case 2:
			h = c.mtags[0].object
			v.m[len(v.m)-2].v.list[0].m[0].v = mark
		}
		i := bytes.Index(b, h)
		pre, post = b[:i], b[i+40:]
		return mkNode(git.Type.Commit, git.Type.Commit__Repr, v, l, form), pre, post, false
	case 3:
		t := stdTag()
		t.object = hexSha(1, 0)
		v = tagVal(t)
		v.m[0].v = mark
		b := t.bytes()
		i := bytes.Index(b, t.object)
		return mkNode(git.Type.Tag, git.Type.Tag__Repr, v, l, form), b[:i], b[i+40:], false
	}
	t := tree{{bs("100644"), bs("a"), rawSha(1, 0)}, {bs("40000"), bs("b"), rawSha(2, 0)}}
	v = treeVal(t)
	v.m[1].v.m[1].v = mark
	b := t.bytes()
	if form == 2 {
		form = 0 // trees are only recognised by their type
	}
	return mkNode(git.Type.Tree, git.Type.Tree__Repr, v, l, form), b[:len(b)-20], nil, true
}

// mkNode builds v, with l for the link without a hash.
func mkNode(tp, rp ipld.NodePrototype, v val, l datamodel.Link, form int) ipld.Node {
	var nb ipld.NodeBuilder
	switch form {
	case 0, 3:
		nb = tp.NewBuilder()
	case 1:
		nb = rp.NewBuilder()
	default:
		nb = basicnode.Prototype.Any.NewBuilder()
	}
	err := putL(nb, v, l)
	nd.Assert(err == nil, "assembling conforming data succeeds")
	n := nb.Build()
	if form == 3 {
		n = reprOf(n)
	}
	return n
}

func putL(na datamodel.NodeAssembler, v val, l datamodel.Link) error {
	switch v.k {
	case vLink:
		if v.b == nil {
			return na.AssignLink(l)
		}
	case vList:
		la, err := na.BeginList(int64(len(v.list)))
		if err != nil {
			return err
		}
		for _, x := range v.list {
			if err := putL(la.AssembleValue(), x, l); err != nil {
				return err
			}
		}
		return la.Finish()
	case vMap:
		ma, err := na.BeginMap(int64(len(v.m)))
		if err != nil {
			return err
		}
		for _, f := range v.m {
			va, err := ma.AssembleEntry(f.name)
			if err != nil {
				return err
			}
			if err := putL(va, f.v, l); err != nil {
				return err
			}
		}
		return ma.Finish()
	}
	return put(na, v)
}

func hexOf(b []byte) []byte {
	r := make([]byte, 2*len(b))
	for i, x := range b {
		r[2*i] = nd.Ite(nd.In2(x>>4, 0, 9), '0'+x>>4, 'a'+x>>4-10)
		r[2*i+1] = nd.Ite(nd.In2(x&15, 0, 9), '0'+x&15, 'a'+x&15-10)
	}
	return r
}

// LinkHash: every git link encodes to exactly its hash, in every position and
// for every form of node.
func LinkHash() {
	s := rawSha(9, 20)
	n, pre, post, raw := withLink(nd.Choose(nPos), mkLink(s), nd.Choose(4))
	out, err := enc(n)
	nd.Assert(err == nil, "a node with git links encodes")
	if raw {
		nd.Assert(nd.Eq(out, cat(pre, s, post)), "the hash of the link is written")
	} else {
		nd.Assert(nd.Eq(out, cat(pre, hexOf(s), post)), "the hash of the link is written in lower-case hex")
	}
	m, err := parse(out)
	nd.Assert(err == nil, "what was encoded decodes")
	nd.Assert(sameContent(m, n), "to the links it was encoded from")
}

type otherLink struct{ s string }

func (o otherLink) Prototype() datamodel.LinkPrototype { return nil }
func (o otherLink) String() string                     { return o.s }
func (o otherLink) Binary() string                     { return o.s }

// badLink is a link that no git hash can stand for.
func badLink() datamodel.Link {
	var raw []byte
	switch nd.Choose(8) {
	case 0: // CIDv0
		raw = cat([]byte{0x12, 0x20}, fill(30, 1), nd.Bytes(2))
	case 1:
		raw = cat([]byte{1, 0x70, 0x12, 0x20}, fill(30, 1), nd.Bytes(2))
	case 2: // a SHA-1 multihash of another length
		n := []int{0, 1, 19, 21, 32, 40}[nd.Choose(6)]
		raw = cat([]byte{1, 0x78, 0x11, byte(n)}, fill(n, 1))
	case 3: // 20 bytes of another hash function
		m := anyUv(1 + nd.Choose(9))
		nd.Assume(nd.Not(nd.Eq(m, uv(0x11))))
		codec := uv(0x78)
		if nd.Choose(2) == 1 {
			codec = uv([]uint64{0x55, 0x70, 0x71, 0x0129}[nd.Choose(4)])
		}
		raw = cat([]byte{1}, codec, m, []byte{20}, rawSha(1, 2))
	case 4:
		return cidlink.Link{}
	case 5:
		return otherLink{string(cidOf(rawSha(1, 2)))}
	case 6:
		return cidlink.Link{Cid: cid.Undef}
	case 7: // SHA-256 of a git object
		raw = cat([]byte{1, 0x78, 0x12, 0x20}, rawSha(1, 2), fill(12, 2))
	}
	c, err := cid.Cast(raw)
	nd.Assume(err == nil)
	return cidlink.Link{Cid: c}
}

// BadLink: a link that is no git hash is refused on encoding, and nothing is
// written for it.
func BadLink() {
	n, _, _, _ := withLink(nd.Choose(nPos), badLink(), nd.Choose(4))
	w := &faulty{left: 1 << 20}
	err := git.Encode(n, w)
	nd.Assert(err != nil, "a link that is no git hash is refused")
	nd.Assert(len(w.got) == 0, "nothing is written for a refused node")
}
