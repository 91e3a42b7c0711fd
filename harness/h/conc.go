package h

import (
	"bytes"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"

	"verif/harness/nd"
)

func init() {
	All["ConcDecode"] = ConcDecode
	All["ConcBytes"] = ConcBytes
	All["ConcEncode"] = ConcEncode
	All["ConcRead"] = ConcRead
	All["ConcBuild"] = ConcBuild
	All["ConcWalk"] = ConcWalk
	All["ConcMixed"] = ConcMixed
}

// result is what an operation gave, as bytes.
func result(n ipld.Node, err error) []byte {
	if err != nil {
		return []byte("error: " + err.Error())
	}
	return digest(n)
}

// ConcDecode: decoding the same bytes twice at once.
func ConcDecode() {
	if nd.Choose(2) == 0 {
		concDecode(smallObject(nd.Choose(nSmall)), nd.Choose(nConc))
		return
	}
	in, _ := genObject()
	concDecode(in, 0)
}

// ConcBytes: the same with arbitrary bytes after each header, mostly refused.
func ConcBytes() {
	k := nd.Choose(5)
	b := nd.Bytes(nd.Choose(nd.Param("n", 4) + 1))
	if k == 4 {
		concDecode(b, nd.Choose(nConc))
		return
	}
	concDecode(object(types[k], b), nd.Choose(nConc))
}

const nConc = 8 // of the ways in; the last is the compressed form

func concDecode(in []byte, k int) {
	var ns [2]ipld.Node
	var es [2]error
	nd.Parallel(func(i int) { ns[i], es[i] = entryPoint(k, in) }, in)
	nd.Assert((es[0] == nil) == (es[1] == nil), "two concurrent decodings of the same bytes agree")
	nd.Assert(nd.Eq(result(ns[0], es[0]), result(ns[1], es[1])), "two concurrent decodings of the same bytes give the same")
}

// ConcEncode: encoding one node into two writers at once.
func ConcEncode() {
	var in []byte
	all := nd.Choose(2) == 0
	if all {
		in, _ = genObject()
	} else {
		in = smallObject(nd.Choose(nSmall))
	}
	n, err := parse(in)
	nd.Assume(err == nil)
	if !all && nd.Choose(2) == 1 {
		n = reprOf(n)
	}
	var out [2]bytes.Buffer
	var es [2]error
	nd.Parallel(func(i int) { es[i] = git.Encode(n, &out[i]) }, n)
	for i := range out {
		nd.Assert(es[i] == nil, "a shared node encodes")
		nd.Assert(nd.Eq(out[i].Bytes(), in), "each encoding of a shared node is the object")
	}
}

// everything reads all there is in a node.
func everything(n ipld.Node) []byte {
	r := digest(n)
	r = append(r, digest(reprOf(n))...)
	switch n.Kind() {
	case datamodel.Kind_Map:
		for it := n.MapIterator(); !it.Done(); {
			k, _, err := it.Next()
			if err != nil {
				return append(r, '!')
			}
			s, _ := k.AsString()
			v, err := n.LookupByString(s)
			r = append(r, result(v, err)...)
			v, err = n.LookupByNode(k)
			r = append(r, result(v, err)...)
			v, err = n.LookupBySegment(datamodel.PathSegmentOfString(s))
			r = append(r, result(v, err)...)
		}
		_, err := n.LookupByString("nope")
		r = append(r, byte('0'+b2i(err == nil)))
	}
	return r
}

// ConcRead: reading one node, and copying it, twice at once.
func ConcRead() {
	n, tp, rp, _ := anyNode(nd.Choose(nType))
	var ds [2][]byte
	var cs [2]ipld.Node
	var es [2]error
	if nd.Choose(2) == 1 {
		n, tp = reprOf(n), rp
	}
	nd.Parallel(func(i int) {
		ds[i] = everything(n)
		nb := tp.NewBuilder()
		if es[i] = nb.AssignNode(n); es[i] == nil {
			cs[i] = nb.Build()
		}
	}, n)
	nd.Assert(nd.Eq(ds[0], ds[1]), "two concurrent readings of a node agree")
	nd.Assert(es[0] == nil && es[1] == nil, "a node can be copied")
	nd.Assert(sameNode(cs[0], cs[1]), "two concurrent copies of a node agree")
}

// ConcBuild: assembling the same value twice at once.
func ConcBuild() {
	var v val
	var tp, rp ipld.NodePrototype
	switch nd.Choose(3) {
	case 0:
		v, tp, rp = commitVal(formCommit()), git.Type.Commit, git.Type.Commit__Repr
	case 1:
		t := stdTag()
		v, tp, rp = tagVal(t), git.Type.Tag, git.Type.Tag__Repr
	case 2:
		v, tp, rp = treeVal(smallTree()), git.Type.Tree, git.Type.Tree__Repr
	}
	if nd.Choose(2) == 1 {
		tp = rp
	}
	var out [2]bytes.Buffer
	var es [2]error
	nd.Parallel(func(i int) {
		nb := tp.NewBuilder()
		if es[i] = put(nb, v); es[i] == nil {
			es[i] = git.Encode(nb.Build(), &out[i])
		}
	})
	nd.Assert(es[0] == nil && es[1] == nil, "conforming data assembles and encodes")
	nd.Assert(nd.Eq(out[0].Bytes(), out[1].Bytes()), "two concurrent assemblies of a value agree")
}

// ConcWalk: following links of one repository twice at once.
func ConcWalk() {
	r := mkRepo()
	w := []struct {
		start int
		path  string
	}{{3, "src/hash/b c/hash"}, {5, "parents/1/tree/a.txt/hash"}, {5, "mergetag/0/object/author/name"}, {6, "object/tree/README.md/hash"}, {4, "tree/nothing"}}
	c := w[nd.Choose(len(w))]
	n, err := parse(r.m[string(cidOf(sh(c.start)))])
	nd.Assert(err == nil, "the start decodes")
	var ds [2][]byte
	how := nd.Choose(2)
	nd.Parallel(func(i int) { ds[i] = result(r.follow(n, c.path, how)) }, r.m, n)
	nd.Assert(nd.Eq(ds[0], ds[1]), "two concurrent walks agree")
}

// ConcMixed: different operations at once.
func ConcMixed() {
	a, b := smallObject(nd.Choose(nSmall)), smallObject(nd.Choose(nSmall))
	n, err := parse(b)
	nd.Assume(err == nil)
	ka := nd.Choose(nConc)
	want := digest(n)
	var n1 ipld.Node
	var e1, e2 error
	var out bytes.Buffer
	var seen []byte
	nd.Parallel(func(i int) {
		if i == 0 {
			n1, e1 = entryPoint(ka, a)
		} else {
			seen = digest(n)
			e2 = git.Encode(n, &out)
		}
	}, a, b, n)
	nd.Assert(e1 == nil && e2 == nil, "concurrent operations on well-formed objects succeed")
	nd.Assert(nd.Eq(out.Bytes(), b), "the encoded object is its own")
	nd.Assert(nd.Eq(seen, want), "the node read is unchanged")
	o, err := enc(n1)
	nd.Assert(err == nil && len(o) == len(a), "the decoded object encodes")
	nd.Assert(nd.Eq(o, a), "the decoded object is its own")
}
