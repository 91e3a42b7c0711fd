package h

import (
	"strings"

	"verif/harness/nd"
)

// What git objects really hold, and what means something somewhere: text that
// is longer than the wholly arbitrary parts and that code could take for
// something else.
var phrases = []string{
	"-----BEGIN PGP SIGNATURE-----", "-----END PGP SIGNATURE-----", "-----BEGIN SSH SIGNATURE-----",
	"gpgsig -----BEGIN PGP SIGNATURE-----", "tree 0123456789abcdef0123456789abcdef01234567",
	"parent 0123456789abcdef0123456789abcdef01234567", "mergetag object 0123456789abcdef0123456789abcdef01234567",
	"author A U Thor <a@b> 1 +0000", "Signed-off-by: A U Thor <a@example.com>", "encoding UTF-8", "ISO-8859-1", "type commit", "tag v1",
	"blob 12\x00", "commit 0\x00tree ", "%s %d %%!x(MISSING)", "\xef\xbb\xbfBOM", "caf\xc3\xa9 \xe2\x80\x8b", "\xff\xfe\x80", "x\r", "\r\r", "\x00nul\x00",
	"\x1b[1mred\x1b[0m", "  two  spaces  ", "\ttab\t", "\\n\\x00\"quoted\"'", "a/b/../c", ".git", "null", "{\"/\":\"x\"}", "# comment", "\x7f\x01\x02",
}

// phrase is one of them with up to two arbitrary bytes around it, and nothing
// of excl in it.
func phrase(excl string) []byte {
	p := phrases[nd.Choose(len(phrases))]
	p = without(p, excl)
	switch nd.Choose(3) {
	case 1:
		return cat(text(1, excl), bs(p))
	case 2:
		return cat(bs(p), text(1, excl))
	}
	return bs(p)
}

func without(s, excl string) string {
	var r []byte
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(excl, s[i]) < 0 {
			r = append(r, s[i])
		}
	}
	return string(r)
}

// realMsg is a message with a phrase in it.
func realMsg() []byte {
	p := phrase("")
	switch nd.Choose(4) {
	case 0:
		return p
	case 1:
		return cat(bs("subject\n\n"), p, bs("\n"))
	case 2:
		return cat(p, bs("\n\n\nmore\n\n"))
	}
	// a signed tag
	return cat(bs("v1\n\n"), p, bs("\n-----BEGIN PGP SIGNATURE-----\nVersion: GnuPG v1\n\niQ"), nd.Bytes(1), bs("\n=x\n-----END PGP SIGNATURE-----\n"))
}

func realPerson() *person {
	d, z := bs("1112911993"), bs("-0700")
	switch nd.Choose(3) {
	case 0:
		return &person{phrase(noPers), bs("a@b"), d, z}
	case 1:
		return &person{bs("A"), phrase(noPers), d, z}
	default:
		ds := []string{"0", "-1", "-62167219200", "99999999999999999999", "4294967296", "1112911993.5", "+1", "0001", "never"}
		zs := []string{"+0000", "-0000", "+1400", "-1200", "+0545", "Z", "UTC", "0", "+051800"}
		k := nd.Choose(len(ds))
		return &person{bs("A"), text(1, noPers), bs(ds[k]), bs(zs[nd.Choose(len(zs))])}
	}
}

// realCommit is a commit as they come, or with a coincidence in it.
func realCommit() *commit {
	c := stdCommit()
	switch nd.Choose(8) {
	case 0:
		c.message = realMsg()
	case 1:
		c.other = [][]byte{cat(bs("x "), phrase("\n"))}
	case 2:
		c.encoding = phrase("\n")
	case 3:
		c.sig = [][]byte{{}, bs("iQ"), phrase("\n"), bs("=x")}
		nd.Assume(nd.Not(nd.Eq(c.sig[2], bs("-----END PGP SIGNATURE-----"))))
	case 4:
		m := stdMtag(3)
		m.message = [][]byte{bs("Tag"), {}, phrase("\n"), bs("-----BEGIN PGP SIGNATURE-----"), {}, bs("iQ"), bs("-----END PGP SIGNATURE-----")}
		c.mtags = []mtag{m, stdMtag(4)}
		if nd.Choose(2) == 1 {
			c.sig = [][]byte{{}, bs("iQ")}
		}
	case 5:
		m := stdMtag(3)
		m.tag, m.typ = phrase("\n"), bs("tag")
		c.mtags = []mtag{m}
	case 6:
		c.author = realPerson()
		if nd.Choose(2) == 1 {
			c.committer = c.author
		}
	case 7: // everything the same
		c.committer = c.author
		c.parents = [][]byte{c.tree, c.tree}
		m := stdMtag(4)
		m.object, m.tagger = c.tree, c.author
		c.mtags = []mtag{m, m}
		if nd.Choose(2) == 1 {
			c.tree = []byte("0000000000000000000000000000000000000000")
			c.parents[0], m.object = c.tree, c.tree
		}
		l := cat(bs("x-y "), text(1, "\n"))
		c.other = [][]byte{l, l, bs(" z"), l, bs("gpgsig-sha256 -----BEGIN PGP SIGNATURE-----"), bs(" "), bs(" iQ"), bs(" -----END PGP SIGNATURE-----")}
		c.message = l
	}
	return c
}

func realTag() *tag {
	t := stdTag()
	switch nd.Choose(4) {
	case 0:
		t.message = realMsg()
	case 1:
		t.tag = phrase("\n")
	case 2:
		t.typ = phrase("\n")
	case 3:
		t.tagger = realPerson()
	}
	return t
}

func realTree() tree {
	h := rawSha(1, 2)
	switch nd.Choose(3) {
	case 0: // entries of one content
		return tree{{bs("100644"), bs("a"), h}, {bs("100755"), bs("b"), h}, {bs("40000"), bs("c"), make([]byte, 20)}, {bs("40000"), bs("d"), make([]byte, 20)}}
	case 1:
		p := phrase("\x00")
		nd.Assume(nd.Not(nd.Eq(p, bs("a"))))
		return tree{{bs("100644"), p, h}, {bs("100644"), bs("a"), rawSha(2, 2)}}
	}
	// names that only differ in case or form, and hashes full of separators
	s := make([]byte, 20)
	for i := range s {
		s[i] = " \x00\n4"[i%4]
	}
	return tree{{bs("100644"), bs("readme"), s}, {bs("100644"), bs("README"), h}, {bs("100644"), bs("caf\xc3\xa9"), s[:20]}, {bs("100644"), bs("cafe\xcc\x81"), h}, {bs("120000"), bs(" "), s}}
}

// headerish is a line that looks like a header where none is expected.
func headerish() []byte {
	l := []string{"tag ", "type ", "tagger A <a> 1 +0000", "object 0123456789abcdef0123456789abcdef01234567", "tree 0123456789abcdef0123456789abcdef01234567",
		"parent 0123456789abcdef0123456789abcdef01234567", "author A <a> 1 +0000", "committer ", "encoding ", "gpgsig -----BEGIN PGP SIGNATURE-----", "-----END PGP SIGNATURE-----", "", " "}
	if nd.Param("lite", 0) == 1 {
		l = []string{"tag ", "tree 0123456789abcdef0123456789abcdef01234567", "-----END PGP SIGNATURE-----", ""}
	}
	k := nd.Choose(len(l) + 1)
	if k == len(l) {
		return text(3, "\n")
	}
	return cat(bs(l[k]), text(nd.Choose(2), "\n"))
}

func orNone(s string) []byte {
	if nd.Choose(2) == 0 {
		return []byte{}
	}
	return bs(s)
}

// confusedCommit has text that looks like headers where some are missing or empty.
func confusedCommit() *commit {
	c := stdCommit()
	switch nd.Choose(3) {
	case 0:
		m := stdMtag(30)
		m.typ, m.tag = orNone("commit"), orNone("v1")
		if nd.Choose(2) == 0 {
			m.tagger = nil
		}
		m.message = [][]byte{headerish(), bs("x")}
		c.mtags = []mtag{m}
		if nd.Choose(2) == 0 {
			m.message = [][]byte{bs("x"), m.message[0]}
			c.mtags[0].message = m.message
		}
	case 1:
		if nd.Choose(2) == 0 {
			c.author = nil
		}
		if nd.Choose(2) == 0 {
			c.committer = nil
		}
		if nd.Choose(2) == 0 {
			c.encoding = []byte{}
		}
		c.message = join([][]byte{headerish(), bs("x")})
	case 2:
		h := headerish()
		nd.Assume(nd.Not(nd.Eq(h, bs("-----END PGP SIGNATURE-----"))))
		c.sig = [][]byte{h, bs("iQ")}
		if nd.Choose(2) == 0 {
			c.sig = [][]byte{{}, h}
		}
		c.message = orNone("m")
		if nd.Choose(2) == 0 {
			c.mtags = []mtag{{hexSha(3, 0), bs("tag"), []byte{}, nil, nil}}
		}
	}
	return c
}

func confusedTag() *tag {
	t := stdTag()
	t.typ, t.tag = orNone("tree"), orNone("v1")
	if nd.Choose(2) == 0 {
		t.tagger = nil
	}
	h := headerish()
	t.message = join([][]byte{h, bs("x")})
	if nd.Choose(2) == 0 {
		t.message = cat(bs("x\n"), h, bs("."))
	}
	return t
}
