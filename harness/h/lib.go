// Package h holds the harnesses: ordinary Go functions over the exported API
// of go-ipld-git whose inputs come from package nd. The symbolic engine runs
// them with solver variables for inputs; the replayer runs them natively.
package h

import (
	"bytes"
	"strconv"

	"github.com/ipfs/go-cid"
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"

	"verif/harness/nd"
)

// All is the harness table; each file's init adds its own.
var All = map[string]func(){}

// ---- building blocks ----

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// object frames a body as a git object.
func object(typ string, body []byte) []byte {
	return cat([]byte(typ+" "+strconv.Itoa(len(body))+"\x00"), body)
}

// pinned makes what text, hexSha and rawSha give concrete: checksums over long
// objects are beyond the solver otherwise.
var pinned bool

// text is n arbitrary bytes, none of them in excl.
func text(n int, excl string) []byte {
	if pinned {
		return fill(n, 5)
	}
	b := nd.Bytes(n)
	for i := range b {
		for j := 0; j < len(excl); j++ {
			nd.Assume(nd.Not(nd.EqByte(b[i], excl[j])))
		}
	}
	return b
}

// fill is n concrete printable bytes.
func fill(n int, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+seed)%26)
	}
	return b
}

const hexd = "0123456789abcdef"

// hexSha is 40 lower-case hex digits; the first sym/2 and last sym-sym/2 of
// them are arbitrary, the others concrete and depending on seed.
func hexSha(seed int, sym int) []byte {
	b := make([]byte, 40)
	for i := range b {
		if !pinned && (i < sym/2 || i >= 40-(sym-sym/2)) {
			x := nd.Byte()
			nd.Assume(nd.Or(nd.In2(x, '0', '9'), nd.In2(x, 'a', 'f')))
			b[i] = x
		} else {
			b[i] = hexd[(i*5+seed*3+i*i*seed)%16]
		}
	}
	return b
}

// unhex decodes lower-case hex digits (independently of encoding/hex).
func unhex(b []byte) []byte {
	r := make([]byte, len(b)/2)
	for i := range r {
		r[i] = nib(b[2*i])<<4 | nib(b[2*i+1])
	}
	return r
}

func nib(x byte) byte { return nd.Ite(nd.In2(x, '0', '9'), x-'0', x-'a'+10) }

// cidOf is the binary CIDv1 / git-raw / sha1 for a 20-byte hash.
func cidOf(sha []byte) []byte { return cat([]byte{1, 0x78, 0x11, 0x14}, sha) }

func rawSha(seed int, sym int) []byte {
	b := make([]byte, 20)
	for i := range b {
		if !pinned && (i < sym/2 || i >= 20-(sym-sym/2)) {
			b[i] = nd.Byte()
		} else {
			b[i] = byte(i*11 + seed*17 + 3)
		}
	}
	return b
}

func mkLink(sha []byte) ipld.Link {
	_, c, err := cid.CidFromBytes(cidOf(sha))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return cidlink.Link{Cid: c}
}

func parse(in []byte) (ipld.Node, error) { return git.ParseObject(bytes.NewReader(in)) }

func enc(n ipld.Node) ([]byte, error) {
	var b bytes.Buffer
	err := git.Encode(n, &b)
	return b.Bytes(), err
}

// ---- node access ----

func field(n ipld.Node, k string) ipld.Node {
	v, err := n.LookupByString(k)
	nd.Assert(err == nil, "field "+k+" can be looked up")
	return v
}

func strOf(n ipld.Node, what string) []byte {
	nd.Assert(n != nil && !n.IsAbsent() && !n.IsNull(), what+" is present")
	s, err := n.AsString()
	nd.Assert(err == nil, what+" is a string")
	return []byte(s)
}

func linkBytes(n ipld.Node, what string) []byte {
	l, err := n.AsLink()
	nd.Assert(err == nil && l != nil, what+" is a link")
	cl, ok := l.(cidlink.Link)
	nd.Assert(ok, what+" is a CID link")
	return cl.Cid.Bytes()
}

func wantStr(n ipld.Node, k string, v []byte) {
	nd.Assert(nd.Eq(strOf(field(n, k), k), v), k+" holds the object's value")
}

func wantLink(n ipld.Node, k string, sha []byte) {
	nd.Assert(nd.Eq(linkBytes(field(n, k), k), cidOf(sha)), k+" is the git-raw sha1 CIDv1 link of the object's hash")
}

func wantAbsent(n ipld.Node, k string) {
	nd.Assert(field(n, k).IsAbsent(), k+" is absent")
}

// sameNode is deep equality without forking on byte comparisons.
func sameNode(a, b ipld.Node) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case datamodel.Kind_Null:
		return a.IsAbsent() == b.IsAbsent()
	case datamodel.Kind_Bool:
		x, _ := a.AsBool()
		y, _ := b.AsBool()
		return x == y
	case datamodel.Kind_Int:
		x, _ := a.AsInt()
		y, _ := b.AsInt()
		return x == y
	case datamodel.Kind_String:
		x, e1 := a.AsString()
		y, e2 := b.AsString()
		return e1 == nil && e2 == nil && nd.EqStr(x, y)
	case datamodel.Kind_Bytes:
		x, e1 := a.AsBytes()
		y, e2 := b.AsBytes()
		return e1 == nil && e2 == nil && nd.Eq(x, y)
	case datamodel.Kind_Link:
		x, e1 := a.AsLink()
		y, e2 := b.AsLink()
		if e1 != nil || e2 != nil || x == nil || y == nil {
			return false
		}
		return nd.EqStr(x.Binary(), y.Binary())
	case datamodel.Kind_List:
		if a.Length() != b.Length() {
			return false
		}
		r := true
		for i := int64(0); i < a.Length(); i++ {
			x, e1 := a.LookupByIndex(i)
			y, e2 := b.LookupByIndex(i)
			if e1 != nil || e2 != nil {
				return false
			}
			r = nd.And(r, sameNode(x, y))
		}
		return r
	case datamodel.Kind_Map:
		r := true
		ia, ib := a.MapIterator(), b.MapIterator()
		for !ia.Done() && !ib.Done() {
			k1, v1, e1 := ia.Next()
			k2, v2, e2 := ib.Next()
			if e1 != nil || e2 != nil {
				return false
			}
			r = nd.And(r, nd.And(sameNode(k1, k2), sameNode(v1, v2)))
		}
		if !ia.Done() || !ib.Done() {
			return false
		}
		return r
	}
	return false
}

// digest renders a node as bytes, for history comparisons and observations.
func digest(n ipld.Node) []byte {
	if n == nil {
		return []byte("nil;")
	}
	switch n.Kind() {
	case datamodel.Kind_Null:
		if n.IsAbsent() {
			return []byte("absent;")
		}
		return []byte("null;")
	case datamodel.Kind_String:
		s, err := n.AsString()
		if err != nil {
			return []byte("err;")
		}
		return cat([]byte("s"+strconv.Itoa(len(s))+":"), []byte(s), []byte(";"))
	case datamodel.Kind_Bytes:
		b, err := n.AsBytes()
		if err != nil {
			return []byte("err;")
		}
		return cat([]byte("b"+strconv.Itoa(len(b))+":"), b, []byte(";"))
	case datamodel.Kind_Link:
		l, err := n.AsLink()
		if err != nil || l == nil {
			return []byte("nolink;")
		}
		return cat([]byte("l:"), []byte(l.Binary()), []byte(";"))
	case datamodel.Kind_List:
		r := []byte("[" + strconv.Itoa(int(n.Length())) + ":")
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				return append(r, []byte("err]")...)
			}
			r = append(r, digest(v)...)
		}
		return append(r, ']')
	case datamodel.Kind_Map:
		r := []byte("{" + strconv.Itoa(int(n.Length())) + ":")
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				return append(r, []byte("err}")...)
			}
			r = append(r, digest(k)...)
			r = append(r, digest(v)...)
		}
		return append(r, '}')
	}
	return []byte("?;")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// roundTrip: the object decodes and re-encodes to exactly the same bytes.
func roundTrip(in []byte) ipld.Node {
	n, err := parse(in)
	nd.Assert(err == nil, "a well-formed object decodes without error")
	nd.Assert(n != nil, "decoding gives a node")
	out, err := enc(n)
	nd.Assert(err == nil, "the decoded node encodes without error")
	nd.Assert(len(out) == len(in), "re-encoding gives an object of the same length")
	nd.Assert(nd.Eq(out, in), "re-encoding gives the identical bytes")
	nd.Observe("out", out)
	return n
}

func must[T any](x T, err error) T {
	nd.Assert(err == nil, "no error")
	return x
}
