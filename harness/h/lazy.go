package h

import (
	"errors"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"

	"verif/harness/nd"
)

func init() {
	All["LazyEncode"] = LazyEncode
	All["LazyAssign"] = LazyAssign
}

// lazy is a node whose content is fetched as it is read, which may fail: the
// reads left are counted, and the one after them fails, and so do all others
// unless it is a passing failure.
type lazy struct {
	ipld.Node
	st *lazyState
}

type lazyState struct {
	left   int
	once   bool
	failed bool
}

var errLazy = errors.New("content cannot be fetched")

func (s *lazyState) fail() bool {
	if s.failed {
		return !s.once
	}
	if s.left == 0 {
		s.failed = true
		return true
	}
	s.left--
	return false
}

func (l lazy) wrap(n ipld.Node, err error) (ipld.Node, error) {
	if err != nil || n == nil {
		return n, err
	}
	if l.st.fail() {
		return nil, errLazy
	}
	return lazy{n, l.st}, nil
}

func (l lazy) LookupByString(k string) (ipld.Node, error)  { return l.wrap(l.Node.LookupByString(k)) }
func (l lazy) LookupByNode(k ipld.Node) (ipld.Node, error) { return l.wrap(l.Node.LookupByNode(k)) }
func (l lazy) LookupByIndex(i int64) (ipld.Node, error)    { return l.wrap(l.Node.LookupByIndex(i)) }
func (l lazy) LookupBySegment(s ipld.PathSegment) (ipld.Node, error) {
	return l.wrap(l.Node.LookupBySegment(s))
}

func (l lazy) AsString() (string, error) {
	s, err := l.Node.AsString()
	if err == nil && l.st.fail() {
		return "", errLazy
	}
	return s, err
}

func (l lazy) AsBytes() ([]byte, error) {
	s, err := l.Node.AsBytes()
	if err == nil && l.st.fail() {
		return nil, errLazy
	}
	return s, err
}

func (l lazy) AsLink() (ipld.Link, error) {
	s, err := l.Node.AsLink()
	if err == nil && l.st.fail() {
		return nil, errLazy
	}
	return s, err
}

func (l lazy) MapIterator() ipld.MapIterator {
	it := l.Node.MapIterator()
	if it == nil {
		return nil
	}
	return lazyMap{it, l}
}

func (l lazy) ListIterator() ipld.ListIterator {
	it := l.Node.ListIterator()
	if it == nil {
		return nil
	}
	return lazyList{it, l}
}

type lazyMap struct {
	ipld.MapIterator
	l lazy
}

func (i lazyMap) Next() (ipld.Node, ipld.Node, error) {
	k, v, err := i.MapIterator.Next()
	if err == nil && i.l.st.fail() {
		return nil, nil, errLazy
	}
	if err != nil {
		return nil, nil, err
	}
	return lazy{k, i.l.st}, lazy{v, i.l.st}, nil
}

type lazyList struct {
	ipld.ListIterator
	l lazy
}

func (i lazyList) Next() (int64, ipld.Node, error) {
	k, v, err := i.ListIterator.Next()
	if err == nil && i.l.st.fail() {
		return 0, nil, errLazy
	}
	if err != nil {
		return 0, nil, err
	}
	return k, lazy{v, i.l.st}, nil
}

// lazyOf is n read lazily, and what tells whether a read of it failed.
func lazyOf(n ipld.Node) (ipld.Node, *lazyState) {
	st := &lazyState{left: nd.Choose(nd.Param("reads", 140)), once: nd.Choose(2) == 1}
	return lazy{n, st}, st
}

// LazyEncode: a node that fails while it is read is not encoded, and one that
// does not fail encodes as if it were at hand.
func LazyEncode() {
	var v val
	var in []byte
	switch nd.Choose(4) {
	case 0:
		in = object("blob", cat(bs("b"), nd.Bytes(1)))
		v = val{k: vBytes, b: in}
	case 1:
		t := stdTag()
		if nd.Choose(2) == 1 {
			t.tagger = &person{}
		}
		v, in = tagVal(t), t.bytes()
		if t.tagger.name == nil {
			t.tagger = nil
			in = t.bytes()
		}
	case 2:
		c := stdCommit()
		v, in = commitVal(c), c.bytes()
	case 3:
		c := stdCommit()
		c.parents = [][]byte{hexSha(2, 2)}
		c.encoding = cat(bs("E"), text(1, "\n"))
		c.mtags = []mtag{stdMtag(4)}
		c.sig = [][]byte{{}, bs("iQ")}
		c.other = [][]byte{bs("x y")}
		v, in = commitVal(c), c.bytes()
	}
	n, st := lazyOf(generic(v))
	w := &faulty{left: 1 << 20}
	err := git.Encode(n, w)
	if st.failed {
		nd.Cover("failed")
		nd.Assert(err != nil, "a node that cannot be read is not encoded")
		nd.Assert(len(w.got) == 0, "nothing is written for a node that cannot be read")
		return
	}
	nd.Cover("read")
	nd.Assert(err == nil && nd.Eq(w.got, in), "a node that is fetched as it is read encodes like any")
}

// LazyAssign: what fails while it is read is not taken by any builder.
func LazyAssign() {
	k := pick(nType)
	src, tp, rp, _ := anyNode(k)
	p := tp
	if nd.Choose(2) == 1 {
		p = rp
	}
	if nd.Choose(2) == 1 {
		src = reprOf(src)
	}
	d := digest(src)
	n, st := lazyOf(src)
	nb := p.NewBuilder()
	var err error
	if nd.Choose(2) == 1 {
		err = nb.AssignNode(n)
	} else {
		err = datamodel.Copy(n, nb)
	}
	if st.failed {
		nd.Cover("failed")
		nd.Assert(err != nil, "a node that cannot be read is not taken")
		nd.Assert(noNode(nb), "and gives no node")
		return
	}
	nd.Cover("read")
	nd.Assert(err == nil, "a node that is fetched as it is read is taken like any")
	nd.Assert(nd.Eq(digest(nb.Build()), d), "with its content")
}
