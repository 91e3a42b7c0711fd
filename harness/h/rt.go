package h

import (
	"github.com/ipld/go-ipld-prime"

	"verif/harness/nd"
)

func init() {
	All["BlobRT"] = BlobRT
	All["TreeRT"] = TreeRT
	All["TreeFields"] = TreeFields
	All["CommitRT"] = CommitRT
	All["CommitFields"] = CommitFields
	All["TagRT"] = TagRT
	All["TagFields"] = TagFields
	All["PersonRT"] = PersonRT
	All["MtagEnd"] = MtagEnd
}

// pick chooses a variant, or the one the parameter names.
func pick(n int) int {
	if k := nd.Param("k", -1); k >= 0 {
		return k
	}
	return nd.Choose(n)
}

func BlobRT() {
	b := object("blob", genBlob(pick(nBlob)))
	n := roundTrip(b)
	x, err := n.AsBytes()
	nd.Assert(err == nil, "a blob node has bytes")
	nd.Assert(nd.Eq(x, b), "a blob node holds the object's bytes")
}

func TreeRT()   { roundTrip(genTree(pick(nTree)).bytes()) }
func CommitRT() { roundTrip(genCommit(pick(nCommit)).bytes()) }
func TagRT()    { roundTrip(genTag(pick(nTag)).bytes()) }

func decoded(in []byte) ipld.Node {
	n, err := parse(in)
	nd.Assert(err == nil && n != nil, "a well-formed object decodes without error")
	nd.Observe("node", digest(n))
	return n
}

func TreeFields() {
	t := genTree(pick(nTree))
	t.want(decoded(t.bytes()))
}

func CommitFields() {
	c := genCommit(pick(nCommit))
	c.want(decoded(c.bytes()))
}

func TagFields() {
	t := genTag(pick(nTag))
	t.want(decoded(t.bytes()))
}

// PersonRT: author, committer, tagger and mergetag tagger keep every part.
func PersonRT() {
	p := genPerson()
	switch nd.Choose(4) {
	case 0:
		c := stdCommit()
		c.author = p
		p.want(field(roundTrip(c.bytes()), "author"))
	case 1:
		c := stdCommit()
		c.committer = p
		p.want(field(roundTrip(c.bytes()), "committer"))
	case 2:
		t := stdTag()
		t.tagger = p
		p.want(field(roundTrip(t.bytes()), "tagger"))
	case 3:
		c := stdCommit()
		m := stdMtag(5)
		m.tagger = p
		c.mtags = []mtag{m}
		l := field(roundTrip(c.bytes()), "mergetag")
		v, err := l.LookupByIndex(0)
		nd.Assert(err == nil, "mergetag is there")
		p.want(field(v, "tagger"))
	}
}

// MtagEnd: a mergetag ends with its continuation lines, whatever follows it,
// so it never takes in the headers or the message behind it.
func MtagEnd() {
	c := stdCommit()
	c.message = cat(bs("the"), nd.Bytes(1), bs("message\n"))
	b := line(bs("tree "), c.tree)
	b = cat(b, bs("author "), line(c.author.bytes()), bs("committer "), line(c.committer.bytes()))
	m := stdMtag(5)
	h := line(bs("mergetag object "), m.object)
	h = cat(h, line(bs(" type "), m.typ))
	if nd.Choose(2) == 1 {
		h = cat(h, line(bs(" tag "), m.tag))
	} else {
		m.tag = nil
	}
	if nd.Choose(2) == 1 {
		h = cat(h, line(bs(" tagger "), m.tagger.bytes()))
	} else {
		m.tagger = &person{}
	}
	m.message = nil
	if nd.Choose(2) == 1 {
		h = cat(h, bs(" \n"))
		for i := nd.Choose(3); i > 0; i-- {
			m.message = append(m.message, text(1, "\n"))
			h = cat(h, line(bs(" "), m.message[len(m.message)-1]))
		}
	}
	b = cat(b, h)
	c.mtags = []mtag{m}
	switch nd.Choose(5) {
	case 0:
	case 1:
		c.mtags = append(c.mtags, stdMtag(6))
		b = cat(b, c.mtags[1].bytes())
	case 2:
		c.sig = [][]byte{{}, bs("iQ")}
		b = cat(b, bs("gpgsig -----BEGIN PGP SIGNATURE-----\n \n iQ\n -----END PGP SIGNATURE-----\n"))
	case 3:
		c.other = [][]byte{cat(bs("x"), text(1, "\n"))}
		b = cat(b, line(c.other[0]))
	case 4:
		c.encoding = text(1, "\n")
		b = cat(b, bs("encoding "), line(c.encoding))
	}
	b = cat(b, bs("\n"), c.message)
	c.want(decoded(object("commit", b)))
}
