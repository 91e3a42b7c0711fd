package h

import (
	"bytes"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/schema"

	"verif/harness/nd"
)

func init() {
	All["AnyBytes"] = AnyBytes
	All["AnyBody"] = AnyBody
	All["AnySize"] = AnySize
	All["Havoc"] = Havoc
	All["Trunc"] = Trunc
	All["Lines"] = Lines
	All["AnyPerson"] = AnyPerson
	All["LineOps"] = LineOps
	All["DeepMtags"] = DeepMtags
}

// survive: decoding returns, with exactly one of a node and an error; a node
// can be read, converted and encoded, again without any of it going wrong.
func survive(in []byte) {
	n, err := parse(in)
	nd.Assert((n == nil) == (err != nil), "decoding gives either a node or an error")
	if err != nil {
		nd.Cover("rejected")
		nd.ObserveInt("ok", 0)
		return
	}
	nd.Cover("accepted")
	nd.ObserveInt("ok", 1)
	nd.Observe("node", digest(n))
	out, err := enc(n)
	nd.ObserveInt("enc", b2i(err == nil))
	if err == nil {
		nd.Observe("out", out)
	}
	if tn, ok := n.(schema.TypedNode); ok {
		r := tn.Representation()
		nd.Assert(r != nil, "a decoded node has a representation")
		digest(r)
		_, e2 := enc(r)
		nd.Assert((e2 == nil) == (err == nil), "node and representation encode alike")
	}
}

// AnyBytes: completely arbitrary input.
func AnyBytes() { survive(nd.Bytes(nd.Choose(nd.Param("n", 8) + 1))) }

var types = []string{"blob", "tree", "commit", "tag"}

// AnyBody: a valid header, then arbitrary bytes.
func AnyBody() {
	t := types[nd.Choose(4)]
	m := nd.Choose(nd.Param("m", 7) + 1)
	pre := ""
	if nd.Choose(2) == 1 {
		pre = []string{"", "100644 a", "author ", "tagger "}[nd.Choose(4)]
	}
	survive(object(t, cat(bs(pre), nd.Bytes(m))))
}

// AnySize: an arbitrary size header before a small body.
func AnySize() {
	t := types[nd.Choose(4)]
	pre := []string{"", "", "1234", "-", "+", "00", "-99", "92233720368547758", "9223372036854775807", "1844674407370955161", "99999999999999999999999999999999999999", "0x", "1_", " "}[nd.Choose(14)]
	survive(cat(bs(t+" "+pre), nd.Bytes(nd.Choose(nd.Param("n", 2)+1)), []byte{0}, bs("100644 x\x0001234567890123456789")))
}

// Havoc: a window of arbitrary bytes anywhere in an otherwise valid object.
func Havoc() {
	k := nd.Choose(4)
	o := smallObject(k)
	w := nd.Param("w", 2)
	if k == 0 {
		w = 1
	}
	p := nd.Choose(len(o) - w + 1)
	copy(o[p:p+w], nd.Bytes(w))
	survive(o)
}

// Trunc: an object cut short anywhere, with one arbitrary byte added.
func Trunc() {
	o := smallObject(nd.Choose(4))
	o = o[:nd.Choose(len(o)+1)]
	survive(cat(o, nd.Bytes(nd.Choose(2))))
}

func headerLine(k int) []byte {
	switch k {
	case 0:
		return bs("tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904")
	case 1:
		return bs("parent 4b825dc642cb6eb9a060e54bf8d69288fbee4905")
	case 2:
		return bs("author A <a> 1 +1")
	case 3:
		return bs("mergetag object 4b825dc642cb6eb9a060e54bf8d69288fbee4906")
	case 4:
		return bs("gpgsig -----BEGIN PGP SIGNATURE-----")
	case 5:
		return bs(" -----END PGP SIGNATURE-----")
	case 6:
		return bs(" ")
	case 7:
		return nil
	case 8:
		return bs(" type commit")
	case 9:
		return bs("object 4b825dc642cb6eb9a060e54bf8d69288fbee4907")
	case 10:
		return bs("tagger T <t> 2 +2")
	case 11:
		return bs(" tagger T <t>")
	case 12:
		return bs("encoding e")
	case 13:
		return bs("gpgsig -----BEGIN SSH SIGNATURE-----")
	case 14:
		return bs(" Version: 1")
	case 15:
		return bs("committer")
	case 16:
		return bs(" tag v")
	case 17:
		return bs("tag v")
	}
	return nd.Bytes(1)
}

const nHeaderLine = 19

// Lines: any sequence of header lines, in any order, complete or not.
func Lines() {
	t := types[2+nd.Choose(2)]
	n := 1 + nd.Choose(nd.Param("lines", 3))
	var b []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, '\n')
		}
		b = cat(b, headerLine(nd.Choose(nHeaderLine)))
	}
	if nd.Choose(2) == 1 {
		b = append(b, '\n')
	}
	survive(object(t, b))
}

// AnyPerson: arbitrary bytes after author, committer, tagger and mergetag tagger.
func AnyPerson() {
	s := []string{"author ", "committer ", "tagger ", "mergetag object 4b825dc642cb6eb9a060e54bf8d69288fbee4906\n tagger "}
	k := nd.Choose(4)
	x := nd.Bytes(nd.Choose(nd.Param("p", 6) + 1))
	if k == 2 {
		survive(object("tag", cat(bs("object 4b825dc642cb6eb9a060e54bf8d69288fbee4907\n"), bs(s[k]), x, bs("\n\nm"))))
	} else {
		survive(object("commit", cat(bs("tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\n"), bs(s[k]), x, bs("\n\nm"))))
	}
}

// LineOps: a valid commit or tag with one line dropped, doubled or moved.
func LineOps() {
	o := smallObject(2 + nd.Choose(2))
	i := bytes.IndexByte(o, 0)
	ls := bytes.Split(o[i+1:], []byte("\n"))
	k := nd.Choose(len(ls))
	var r [][]byte
	switch nd.Choose(3) {
	case 0:
		r = append(append(r, ls[:k]...), ls[k+1:]...)
	case 1:
		r = append(append(append(r, ls[:k]...), ls[k]), ls[k:]...)
	case 2:
		j := nd.Choose(len(ls))
		r = append(r, ls...)
		r[j], r[k] = r[k], r[j]
	}
	survive(cat(o[:i+1], bytes.Join(r, []byte("\n"))))
}

// DeepMtags: very many mergetags, so that nesting would show.
func DeepMtags() {
	n := nd.Param("n", 3000)
	if !nd.Symbolic() {
		n = nd.Param("native", 300000)
	}
	var b bytes.Buffer
	b.WriteString("tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\n")
	for i := 0; i < n; i++ {
		b.WriteString("mergetag object 4b825dc642cb6eb9a060e54bf8d69288fbee4906\n \n")
	}
	b.WriteString("\nm")
	b.Write(nd.Bytes(1))
	nn, err := parse(object("commit", b.Bytes()))
	nd.Assert(err == nil, "a commit with many mergetags decodes")
	nd.Assert(field(nn, "mergetag").Length() == int64(n), "every mergetag is there")
}

var _ ipld.Node
var _ = git.Encode
