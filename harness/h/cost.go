package h

import (
	"bytes"
	"strconv"

	git "github.com/ipfs/go-ipld-git"

	"verif/harness/nd"
)

func init() {
	All["CostDeclared"] = CostDeclared
	All["CostGrowth"] = CostGrowth
	All["CostZip"] = CostZip
}

// allowed memory for an input of n bytes
func allowed(n int) int { return 1<<20 + 64*n }

func decodeCost(in []byte, k int) {
	nd.AllocMark()
	entryPoint(k, in)
	used := nd.AllocSince()
	nd.Assert(used <= allowed(len(in)), "decoding takes memory in proportion to the input, not to what it declares")
}

// CostDeclared: a size header alone costs nothing.
func CostDeclared() {
	t := types[nd.Choose(4)]
	var size []byte
	switch nd.Choose(4) {
	case 0: // any number of four or more digits
		size = digits(1)
		size = cat(size, bs("0000000000000000")[:3+nd.Choose(13)])
	case 1:
		size = cat(bs([]string{"1", "100", "1048576", "2147483647", "4294967296", "9223372036854775807"}[nd.Choose(6)]))
	case 2:
		size = cat(bs("10000"), digits(2), bs("0000"))
	case 3:
		size = cat(bs("-"), digits(1), bs("0000000"))
	}
	body := nd.Bytes(nd.Choose(4))
	if nd.Choose(2) == 1 {
		o := smallObject(nd.Choose(4))
		body = o[bytes.IndexByte(o, 0)+1:]
	}
	decodeCost(cat(bs(t+" "), size, []byte{0}, body), nd.Choose(nEntry-2))
}

func digits(n int) []byte {
	b := nd.Bytes(n)
	for i := range b {
		nd.Assume(nd.In2(b[i], '0', '9'))
	}
	nd.Assume(nd.Not(nd.EqByte(b[0], '0')))
	return b
}

const nGrow = 12

// bigObject is an object whose part k is long or has many pieces.
func bigObject(k, n int) []byte {
	c := stdCommit()
	t := stdTag()
	lines := func() [][]byte {
		var r [][]byte
		for i := 0; i < n; i++ {
			r = append(r, fill(62, i))
		}
		return append(r, text(1, "\n"))
	}
	switch k {
	case 0:
		c.sig = append([][]byte{{}}, lines()...)
	case 1:
		m := stdMtag(1)
		m.message = lines()
		c.mtags = []mtag{m}
	case 2:
		for i := 0; i < n; i++ {
			c.parents = append(c.parents, hexSha(i, 0))
		}
	case 3:
		c.other = lines()
	case 4:
		for i := 0; i < n/4; i++ {
			c.mtags = append(c.mtags, mtag{object: hexSha(i, 0), typ: bs("commit"), tag: bs("v"), tagger: stdTagger(), message: [][]byte{bs("m")}})
		}
	case 5:
		for i := 0; i < n; i++ {
			c.author.name = append(c.author.name, bs(" ab")...)
		}
	case 6:
		for i := 0; i < n; i++ {
			c.author.email = append(c.author.email, bs("ab ")...)
		}
		c.author.email = append(c.author.email, 'x')
	case 7:
		for i := 0; i < n; i++ {
			c.message = append(c.message, fill(63, i)...)
			c.message = append(c.message, '\n')
		}
	case 8:
		for i := 0; i < n; i++ {
			t.message = append(t.message, fill(63, i)...)
			t.message = append(t.message, '\n')
		}
		return t.bytes()
	case 9:
		var tr tree
		for i := 0; i < n; i++ {
			tr = append(tr, entry{bs("100644"), bs("f" + strconv.Itoa(i)), rawSha(i, 0)})
		}
		return tr.bytes()
	case 10:
		return object("blob", cat(fill(64*n, 1), nd.Bytes(1)))
	case 11:
		c.encoding = fill(64*n, 1)
	}
	return c.bytes()
}

// CostGrowth: memory grows with the input and no faster, decoding and
// encoding.
func CostGrowth() {
	in := bigObject(nd.Choose(nGrow), nd.Param("pieces", 2000))
	nd.AllocMark()
	n, err := git.ParseObjectFromBuffer(in)
	used := nd.AllocSince()
	nd.Assert(err == nil, "a large object decodes")
	nd.Assert(used <= allowed(len(in)), "decoding takes memory in proportion to the input")
	nd.AllocMark()
	out, err := enc(n)
	used = nd.AllocSince()
	nd.Assert(err == nil && len(out) == len(in), "a large object re-encodes")
	nd.Assert(used <= allowed(len(in)), "encoding takes memory in proportion to the object")
}

// CostZip: nor does a compressed object cost more than it holds.
func CostZip() {
	in := smallObject(nd.Choose(nSmall))
	z := zl(in, 1)
	if nd.Choose(2) == 1 {
		z = zl(cat(bs("blob 1"), digits(1), bs("00000000\x00"), nd.Bytes(1)), 1)
	}
	nd.AllocMark()
	git.ParseCompressedObject(bytes.NewReader(z))
	used := nd.AllocSince()
	nd.Assert(used <= allowed(len(z)), "decoding takes memory in proportion to the input")
}
