package h

import (
	"bytes"
	"strconv"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"

	"verif/harness/nd"
)

func init() {
	All["RejType"] = RejType
	All["RejSize"] = RejSize
	All["RejBlob"] = RejBlob
	All["RejTree"] = RejTree
	All["RejHash"] = RejHash
	All["RejMissing"] = RejMissing
	All["RejPerson"] = RejPerson
	All["RejCut"] = RejCut
}

func refused(in []byte, why string) {
	n, err := parse(in)
	nd.Assert(err != nil, why)
	nd.Assert(n == nil, "no node comes with an error")
	// and through the codec interface, whose builder must not be completed
	nb := protoFor(in).NewBuilder()
	err = git.Decode(nb, bytes.NewReader(in))
	nd.Assert(err != nil, why)
	nd.Assert(noNode(nb), "the builder of a refused object gives no node")
}

// RejType: anything but the four object types is refused.
func RejType() {
	var t []byte
	switch nd.Choose(3) {
	case 0:
		t = text(nd.Choose(8), " ")
		for _, x := range types {
			if len(t) == len(x) {
				nd.Assume(nd.Not(nd.Eq(t, bs(x))))
			}
		}
	case 1: // one byte off
		x := bs(types[nd.Choose(4)])
		p := nd.Choose(len(x))
		b := nd.Byte()
		nd.Assume(nd.Not(nd.EqByte(b, x[p])))
		nd.Assume(nd.Not(nd.EqByte(b, ' ')))
		x[p] = b
		t = x
	case 2: // something before or after
		x := bs(types[nd.Choose(4)])
		if nd.Choose(2) == 0 {
			t = cat(x, text(1, " "))
		} else {
			t = cat(nd.Bytes(1), x)
		}
	}
	refused(cat(t, bs(" 0\x00")), "an object of an unknown type is refused")
	if nd.Choose(2) == 0 {
		refused(t, "an object without a header is refused")
	}
}

// RejSize: a size that is not a decimal number is refused, for every type.
func RejSize() {
	t := types[nd.Choose(4)]
	o := smallObject(nd.Choose(4))
	body := o[bytes.IndexByte(o, 0)+1:]
	var s []byte
	switch nd.Choose(5) {
	case 0: // nothing
	case 1: // one byte that is no digit
		s = text(1, "\x00")
		nd.Assume(nd.Not(nd.In2(s[0], '0', '9')))
	case 2: // digits with something else among them
		s = bs("1234")
		b := text(1, "\x00")
		nd.Assume(nd.Not(nd.In2(b[0], '0', '9')))
		s[1+nd.Choose(3)] = b[0]
	case 3: // leading garbage; a sign is another matter
		b := text(1, "\x00+-")
		nd.Assume(nd.Not(nd.In2(b[0], '0', '9')))
		s = cat(b, bs("12"))
	case 4: // too big for any machine
		s = bs("99999999999999999999" + string(text(1, "\x00")))
	}
	in := cat(bs(t+" "), s, []byte{0}, body)
	refused(in, "a size that is not a number is refused")
	refused(cat(bs(t+" "), s), "a header without its NUL is refused")
	refused(bs(t+" 12"), "a header without its NUL is refused")
	refused(bs(t+" "), "a header without its size is refused")
	if t == "blob" {
		refused(bs("blob -1\x00"), "a negative blob size is refused")
	}
}

// RejBlob: a blob with fewer bytes than declared is refused.
func RejBlob() {
	n := nd.Choose(nd.Param("n", 6))
	if nd.Choose(3) == 0 {
		n = []int{511, 512, 4088, 4089, 4090, 4096, 5000, 33000}[nd.Choose(8)]
	}
	b := nd.Bytes(min(n, 4))
	b = cat(b, fill(n-len(b), 1))
	more := []int{1, 2, 3, 100, 5000, 1 << 20, 1 << 30, 1 << 40, 1<<62 - n}[nd.Choose(9)]
	in := cat(bs("blob "+strconv.Itoa(n+more)+"\x00"), b)
	refused(in, "a blob shorter than its declared size is refused")
	r := &chunked{b: in, every: 1 + nd.Choose(2)*4000, last: nd.Choose(2) == 0}
	x, err := git.ParseObject(r)
	nd.Assert(err != nil && x == nil, "a blob shorter than its declared size is refused")
}

// RejTree: a tree that ends inside an entry, or repeats a name, is refused;
// one that ends after an entry has exactly the entries before.
func RejTree() {
	k := pick(3)
	var t tree
	if k == 2 {
		t = tree{{bs("100644"), fill(4080, 1), rawSha(1, 2)}, {bs("40000"), bs("b"), rawSha(2, 2)}}
	} else {
		t = tree{{bs("100644"), cat(bs("a"), text(1, "\x00")), rawSha(1, 2)}, {bs("40000"), cat(text(1, "\x00")), rawSha(2, 2)}, {bs("120000"), bs("zz"), rawSha(3, 2)}}
		nd.Assume(nd.Not(nd.Eq(t[0].name, t[2].name)))
	}
	if k == 1 {
		t[nd.Choose(2)+1].name = t[0].name
		refused(t.bytes(), "a tree with two entries of one name is refused")
		return
	}
	in := t.bytes()
	h := bytes.IndexByte(in, 0) + 1
	var cut int
	if k == 2 {
		cut = len(in) - h - 1 - nd.Choose(60)
	} else {
		cut = nd.Choose(len(in) - h)
	}
	// entry boundaries
	at, whole := 0, -1
	for i := 0; i <= len(t); i++ {
		if at == cut {
			whole = i
		}
		if i < len(t) {
			at += len(t[i].mode) + 1 + len(t[i].name) + 1 + 20
		}
	}
	if whole < 0 {
		refused(in[:h+cut], "a tree that ends inside an entry is refused")
		return
	}
	n, err := parse(in[:h+cut])
	nd.Assert(err == nil, "a tree that ends after an entry decodes")
	t[:whole].want(n)
}

// badHex is text that is not 40 hex digits.
func badHex() []byte {
	x := hexSha(3, 2)
	switch nd.Choose(6) {
	case 0: // a byte that is no hex digit
		b := text(1, "\n")
		nd.Assume(nd.Not(nd.In2(b[0], '0', '9')))
		nd.Assume(nd.Not(nd.In2(b[0], 'a', 'f')))
		nd.Assume(nd.Not(nd.In2(b[0], 'A', 'F')))
		x[nd.Choose(40)] = b[0]
		return x
	case 1:
		return x[:nd.Choose(40)]
	case 2:
		return cat(x, text(1, "\n"))
	case 3:
		return cat(x, hexSha(4, 0)[:2])
	case 4: // SHA-256 size
		return cat(x, hexSha(4, 0)[:24])
	}
	return cat(text(1, "\n"), x)
}

// RejHash: a hash field that is not exactly 40 hex digits is refused.
func RejHash() {
	switch nd.Choose(4) {
	case 0:
		c := stdCommit()
		c.tree = badHex()
		refused(c.bytes(), "a commit whose tree is no hash is refused")
	case 1:
		c := stdCommit()
		c.parents = [][]byte{hexSha(2, 0), hexSha(5, 0)}
		c.parents[nd.Choose(2)] = badHex()
		refused(c.bytes(), "a commit whose parent is no hash is refused")
	case 2:
		c := stdCommit()
		c.mtags = []mtag{stdMtag(4)}
		c.mtags[0].object = badHex()
		refused(c.bytes(), "a commit whose mergetag names no hash is refused")
	case 3:
		t := stdTag()
		t.object = badHex()
		refused(t.bytes(), "a tag whose object is no hash is refused")
	}
}

// RejMissing: a commit without a tree and a tag without an object are refused.
func RejMissing() {
	if nd.Choose(2) == 0 {
		c := stdCommit()
		if nd.Choose(2) == 0 {
			c.parents = [][]byte{hexSha(2, 2)}
		}
		b := c.body()
		b = b[bytes.IndexByte(b, '\n')+1:]
		switch nd.Choose(4) {
		case 0:
		case 1:
			b = nil
		case 2: // the tree line only in the message
			b = cat(b, bs("tree "), hexSha(1, 0), bs("\n"))
		case 3:
			b = cat(bs("x-tree "), hexSha(1, 2), bs("\n"), b)
		}
		refused(object("commit", b), "a commit without a tree is refused")
		return
	}
	t := stdTag()
	b := t.body()
	b = b[bytes.IndexByte(b, '\n')+1:]
	switch nd.Choose(3) {
	case 0:
	case 1:
		b = nil
	case 2:
		b = cat(b, bs("object "), hexSha(1, 0), bs("\n"))
	}
	refused(object("tag", b), "a tag without an object is refused")
}

// RejPerson: a person without an email in angle brackets is refused.
func RejPerson() {
	var p []byte
	switch nd.Choose(4) {
	case 0: // no bracket at all
		p = text(nd.Choose(nd.Param("p", 5)+1), "<>\n")
	case 1: // never opened
		p = cat(bs("A "), text(nd.Choose(3), "<>\n"), bs("> 1 +1"))
	case 2: // never closed
		p = cat(bs("A <"), text(nd.Choose(4), "<>\n"), bs(" 1 +1"))
	case 3:
		p = cat(bs("A B C <"), text(1, "<>\n"))
	}
	switch nd.Choose(4) {
	case 0, 1:
		k := []string{"author ", "committer "}[nd.Choose(2)]
		refused(object("commit", cat(bs("tree "), hexSha(1, 0), bs("\n"+k), p, bs("\n\nm"))), "a person without an email is refused")
	case 2:
		refused(object("tag", cat(bs("object "), hexSha(1, 0), bs("\ntype commit\ntag v\ntagger "), p, bs("\n\nm"))), "a person without an email is refused")
	case 3:
		refused(object("commit", cat(bs("tree "), hexSha(1, 0), bs("\nmergetag object "), hexSha(2, 0), bs("\n type commit\n tag v\n tagger "), p, bs("\n \n m\n\nm"))), "a person without an email is refused")
	}
}

// RejCut: a commit that ends inside its signature or mergetag message is refused.
func RejCut() {
	c := stdCommit()
	var b []byte
	if nd.Choose(3) == 0 {
		// a line that is not a continuation ends the header
		c.sig = [][]byte{{}, bs("iQ"), bs("=x")}
		b = c.body()
		l := text(nd.Choose(3), "\n")
		if len(l) > 0 {
			nd.Assume(nd.Not(nd.EqByte(l[0], ' ')))
		}
		if nd.Choose(3) == 0 {
			l = cat(bs("parent "), hexSha(3, 2))
		}
		i := bytes.Index(b, bs("PGP SIGNATURE-----\n")) + len("PGP SIGNATURE-----\n")
		for k := nd.Choose(4); k > 0; k-- {
			i += bytes.IndexByte(b[i:], '\n') + 1
		}
		in := object("commit", cat(b[:i], line(l), b[i:]))
		refused(in, "a signature that is not closed within its header is refused")
		return
	}
	if nd.Choose(2) == 0 {
		c.sig = [][]byte{{}, cat(bs("iQ"), text(1, "\n")), genLine(2)}
		b = c.body()
		i := bytes.Index(b, bs("gpgsig"))
		j := bytes.Index(b, bs(" -----END"))
		lo := i + len("gpgsig -----BEGIN PGP SIGNATURE-----")
		b = b[:lo+nd.Choose(j-lo+len(" -----END PGP SIGNATURE-----"))]
	} else {
		c.mtags = []mtag{stdMtag(3)}
		b = c.body()
		i := bytes.Index(b, bs("\n \n")) + 3
		j := bytes.Index(b, bs("\n\nmsg"))
		b = b[:i+nd.Choose(j-i+1)]
	}
	refused(object("commit", b), "a commit that ends inside a multi-line header is refused")
}

var _ ipld.Node
