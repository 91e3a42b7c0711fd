package h

import (
	"github.com/ipld/go-ipld-prime"

	"verif/harness/nd"
)

func init() {
	All["LongBlob"] = LongBlob
	All["LongTree"] = LongTree
	All["LongCommit"] = LongCommit
	All["LongTag"] = LongTag
	All["LongAgree"] = LongAgree
}

// longLen is a length beyond what buffers, scanners and limits allow for; the
// last ones are left out.
func longLen(less int) int {
	return []int{40000, 140000, 1100000, 4300000}[nd.Choose(nd.Param("long", 3)-less)]
}

// lines is text of n bytes in lines of up to 70, the last one arbitrary.
func lines(n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i += 71 {
		r = append(r, fill(min(70, n-i), i/71))
	}
	return append(r, text(1, "\n"))
}

// words is text of n bytes with a space after every ten.
func words(n int) []byte {
	b := fill(n, 3)
	for i := 10; i < n-1; i += 11 {
		b[i] = ' '
	}
	return cat(b, text(1, noPers+" "))
}

func join(l [][]byte) []byte {
	var r []byte
	for _, x := range l {
		r = append(append(r, x...), '\n')
	}
	return r
}

const nLongObj = 11

// genLong is an object of which one part is long.
func genLong(k, less int) ([]byte, func(ipld.Node)) {
	n := longLen(less)
	switch k {
	case 0:
		b := object("blob", cat(fill(n, 1), text(2, "")))
		return b, func(x ipld.Node) {
			c, err := x.AsBytes()
			nd.Assert(err == nil && nd.Eq(c, b), "a blob node holds the object")
		}
	case 1:
		var t tree
		for i := 0; i < min(n/40, 8000); i++ {
			t = append(t, entry{bs("100644"), cat(bs("f"), fill(i%9+1, i), []byte{byte('A' + i%26), byte('A' + i/26%26), byte('A' + i/676%26), byte('A' + i/17576%26)}), rawSha(i, 0)})
		}
		t = append(t, entry{bs("40000"), cat(bs("last"), text(1, "\x00")), rawSha(1, 2)})
		return t.bytes(), t.want
	case 9, 10:
		t := stdTag()
		if k == 9 {
			t.message = join(lines(n))
		} else {
			t.tag = cat(fill(n, 2), text(1, "\n"))
		}
		return t.bytes(), t.want
	}
	c := stdCommit()
	switch k {
	case 2:
		c.message = join(lines(n))
	case 3:
		c.message = cat(fill(n, 4), text(2, ""))
	case 4:
		c.other = [][]byte{cat(bs("x-long "), fill(n, 1), text(1, "\n"))}
	case 5:
		c.sig = lines(n)
	case 6:
		m := stdMtag(30)
		m.message = lines(n)
		c.mtags = []mtag{m}
	case 7:
		c.author = &person{words(n), bs("a@b"), bs("1"), bs("+0000")}
	case 8:
		for i := 0; i < min(n/48, 5000); i++ {
			c.parents = append(c.parents, hexSha(i, 0))
		}
		c.parents = append(c.parents, hexSha(1, 2))
	}
	return c.bytes(), c.want
}

func longRT(lo, n int) {
	k := nd.Param("k", -1)
	if k < 0 {
		k = lo + nd.Choose(n)
	}
	b, want := genLong(k, 0)
	want(roundTrip(b))
}

// LongAgree: the ways of decoding agree on long objects.
func LongAgree() {
	k := nd.Param("k", -1)
	if k < 0 {
		k = nd.Choose(nLongObj)
	}
	e, less := nd.Choose(nEntry-2), 1
	if e == 0 {
		e, less = nEntry-2, 0
		pinned = true
		defer func() { pinned = false }()
	}
	in, want := genLong(k, less)
	var n ipld.Node
	var err error
	if e == nEntry-2 {
		n, err = entryPoint(7+len(in)/60000, in)
	} else {
		n, err = entryPoint(e, in)
	}
	nd.Assert(err == nil && n != nil, "a long object decodes")
	if e != 3 { // an untyped node holds the same, but as maps
		want(n)
	}
	o, err := enc(n)
	nd.Assert(err == nil && nd.Eq(o, in), "the node re-encodes to the object")
}

func LongBlob() { longRT(0, 1) }

func LongTree() { longRT(1, 1) }

func LongCommit() { longRT(2, 7) }

func LongTag() { longRT(9, 2) }
