package h

import (
	"bytes"
	"context"
	"errors"
	"io"

	"github.com/ipfs/go-cid"
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
	"github.com/ipld/go-ipld-prime/traversal/selector"
	selectorparse "github.com/ipld/go-ipld-prime/traversal/selector/parse"

	"verif/harness/nd"
)

func init() {
	All["Walk"] = Walk
	All["WalkBad"] = WalkBad
	All["LinkSys"] = LinkSys
	All["WalkName"] = WalkName
	All["WalkAll"] = WalkAll
	All["Links"] = Links
}

// repoStore is a small object store; hashes stand for themselves.
type repoStore struct {
	m map[string][]byte
}

func (s *repoStore) open(_ linking.LinkContext, l datamodel.Link) (io.Reader, error) {
	b, ok := s.m[l.Binary()]
	if !ok {
		return nil, errors.New("no such object")
	}
	return bytes.NewReader(b), nil
}

func (s *repoStore) put(sha, obj []byte) { s.m[string(cidOf(sha))] = obj }

func (s *repoStore) sys() linking.LinkSystem {
	ls := cidlink.DefaultLinkSystem()
	ls.TrustedStorage = true
	ls.StorageReadOpener = s.open
	return ls
}

func chooser(lnk datamodel.Link, lctx linking.LinkContext) (datamodel.NodePrototype, error) {
	if t, ok := lctx.LinkNode.(schema.TypedLinkNode); ok {
		return t.LinkTargetNodePrototype(), nil
	}
	return basicnode.Prototype.Any, nil
}

type repo struct {
	repoStore
	blob, blob2   []byte
	root, sub     tree
	c1, c2        *commit
	tg            *tag
	head          ipld.Node
	shaC1, shaTag []byte
}

func sh(i int) []byte { return rawSha(40+i, 0) }

func mkRepo() *repo {
	r := &repo{}
	r.m = map[string][]byte{}
	r.blob = object("blob", cat(bs("data "), nd.Bytes(1)))
	r.blob2 = object("blob", nil)
	r.put(sh(0), r.blob)
	r.put(sh(1), r.blob2)
	r.sub = tree{{bs("100644"), bs("a.txt"), sh(1)}, {bs("100755"), bs("b c"), sh(0)}}
	r.put(sh(2), r.sub.bytes())
	r.root = tree{{bs("100644"), bs("README.md"), sh(0)}, {bs("40000"), bs("src"), sh(2)}, {bs("160000"), bs("vendor"), sh(9)}}
	r.put(sh(3), r.root.bytes())
	r.c1 = &commit{tree: hexOf(sh(2)), author: stdAuthor(), committer: stdCommitter(), message: cat(bs("first"), nd.Bytes(1))}
	r.put(sh(4), r.c1.bytes())
	r.c2 = &commit{tree: hexOf(sh(3)), parents: [][]byte{hexOf(sh(8)), hexOf(sh(4))}, author: stdAuthor(), committer: stdCommitter(), message: cat(bs("second"), nd.Bytes(1))}
	r.c2.author.name = cat(bs("N"), text(1, noPers))
	r.c2.mtags = []mtag{{object: hexOf(sh(4)), typ: bs("commit"), tag: bs("v1"), tagger: stdTagger(), message: [][]byte{cat(bs("m"), text(1, "\n"))}}}
	r.c2.other = [][]byte{cat(bs("x-y "), text(1, "\n"))}
	r.put(sh(5), r.c2.bytes())
	r.tg = &tag{object: hexOf(sh(5)), typ: bs("commit"), tag: cat(bs("v"), text(1, "\n")), tagger: stdTagger(), message: bs("rel\n")}
	r.put(sh(6), r.tg.bytes())
	return r
}

func (r *repo) get(start int, path string) (ipld.Node, error) {
	o := r.m[string(cidOf(sh(start)))]
	n, err := parse(o)
	nd.Assert(err == nil, "the start decodes")
	if nd.Choose(2) == 1 {
		n = reprOf(n)
	}
	return r.follow(n, path, nd.Choose(2))
}

func (r *repo) follow(n ipld.Node, path string, how int) (ipld.Node, error) {
	if how == 1 {
		return r.step(n, path)
	}
	prog := traversal.Progress{Cfg: &traversal.Config{Ctx: context.Background(), LinkSystem: r.sys(), LinkTargetNodePrototypeChooser: chooser}}
	return prog.Get(n, datamodel.ParsePath(path))
}

// step follows a path segment by segment.
func (r *repo) step(n ipld.Node, path string) (ipld.Node, error) {
	ls := r.sys()
	for p := datamodel.ParsePath(path); ; {
		if n.Kind() == datamodel.Kind_Link {
			l, err := n.AsLink()
			if err != nil {
				return nil, err
			}
			np, err := chooser(l, linking.LinkContext{LinkNode: n})
			if err != nil {
				return nil, err
			}
			if n, err = ls.Load(linking.LinkContext{}, l, np); err != nil {
				return nil, err
			}
		}
		if p.Len() == 0 {
			return n, nil
		}
		var seg datamodel.PathSegment
		seg, p = p.Shift()
		next, err := n.LookupBySegment(seg)
		if err != nil {
			return nil, err
		}
		if next == nil || next.IsAbsent() {
			return nil, errors.New("nothing there")
		}
		n = next
	}
}

// Walk: a path through links arrives at the content of the object there.
func Walk() {
	r := mkRepo()
	isStr := func(v []byte) func(ipld.Node) {
		return func(n ipld.Node) { nd.Assert(nd.Eq(strOf(n, "target"), v), "a path arrives at its value") }
	}
	isBytes := func(v []byte) func(ipld.Node) {
		return func(n ipld.Node) {
			b, err := n.AsBytes()
			nd.Assert(err == nil && nd.Eq(b, v), "a path arrives at the blob")
		}
	}
	isLink := func(s []byte) func(ipld.Node) {
		return func(n ipld.Node) { nd.Assert(nd.Eq(linkBytes(n, "target"), cidOf(s)), "a path arrives at the link") }
	}
	steps := []struct {
		start int
		path  string
		want  func(ipld.Node)
	}{
		{5, "message", isStr(r.c2.message)},
		{5, "author/name", isStr(r.c2.author.name)},
		{5, "committer/timezone", isStr(bs("+0130"))},
		{5, "tree/README.md/mode", isStr(bs("100644"))},
		{5, "tree/README.md/hash/", isBytes(r.blob)},
		{5, "tree/src/hash/b c/hash/", isBytes(r.blob)},
		{5, "tree/src/hash/a.txt/hash/", isBytes(r.blob2)},
		{5, "tree/src/hash/a.txt/mode", isStr(bs("100644"))},
		{5, "parents/1/message", isStr(r.c1.message)},
		{5, "parents/1/tree/b c/mode", isStr(bs("100755"))},
		{5, "mergetag/0/object/message", isStr(r.c1.message)},
		{5, "mergetag/0/message", isStr(cat(bs(" "), r.c2.mtags[0].message[0], bs("\n")))},
		{5, "mergetag/0/tagger/email", isStr(stdTagger().email)},
		{5, "other/0", isStr(r.c2.other[0])},
		{6, "object/parents/1/author/email", isStr(stdAuthor().email)},
		{6, "object/tree/vendor/mode", isStr(bs("160000"))},
		{6, "object/tree/src/hash/b c/hash/", isBytes(r.blob)},
		{6, "tagger/date", isStr(stdTagger().date)},
		{6, "tag", isStr(r.tg.tag)},
		{5, "parents/0", nil},
		{3, "src/hash", nil},
		{3, "vendor/mode", isStr(bs("160000"))},
	}
	_ = isLink
	s := steps[nd.Choose(len(steps))]
	if s.want == nil {
		return
	}
	p := s.path
	if p[len(p)-1] == '/' { // up to the link, and through it
		p = p[:len(p)-1]
	}
	n, err := r.get(s.start, p)
	nd.Assert(err == nil && n != nil, "a path through the objects can be followed")
	if n.Kind() == datamodel.Kind_Link {
		l, err := n.AsLink()
		nd.Assert(err == nil, "a link is a link")
		ls := r.sys()
		np, err := chooser(l, linking.LinkContext{LinkNode: n})
		nd.Assert(err == nil, "a prototype is chosen")
		n, err = ls.Load(linking.LinkContext{}, l, np)
		nd.Assert(err == nil, "a link loads")
	}
	s.want(n)
	nd.Observe("n", digest(n))
}

// WalkBad: a path that leads nowhere is an error.
func WalkBad() {
	r := mkRepo()
	bad := []struct {
		start int
		path  string
	}{
		{5, "tre"}, {5, "parents/2"}, {5, "parents/-1"}, {5, "parents/x"}, {5, "tree/nope"}, {5, "tree/README.md/size"},
		{5, "author/0"}, {5, "encoding/x"}, {5, "tree/vendor/hash/x"}, {5, "parents/0/tree"}, {5, "message/x"},
		{6, "object/tree/src/hash/missing/hash"}, {6, "typ"}, {6, "tagger/nick"}, {3, ""},
	}
	b := bad[nd.Choose(len(bad))]
	if b.path == "" {
		k := string(text(nd.Choose(4), "/"))
		if nd.Choose(2) == 1 {
			k = "src" + string(text(1, "/"))
		}
		if k == "" {
			return
		}
		nd.Assume(nd.Not(nd.EqStr(k, "src")))
		b.path = k
	}
	_, err := r.get(b.start, b.path)
	nd.Assert(err != nil, "a path that leads nowhere is an error")
}

// LinkSys: storing through a link system writes exactly the object, loading
// gives the node back.
func LinkSys() {
	in := smallObject(nd.Choose(nSmall))
	n, err := parse(in)
	nd.Assert(err == nil, "decodes")
	var stored []byte
	ls := cidlink.DefaultLinkSystem()
	ls.TrustedStorage = true
	ls.StorageReadOpener = func(linking.LinkContext, datamodel.Link) (io.Reader, error) { return bytes.NewReader(stored), nil }
	e, err := ls.EncoderChooser(cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: cid.GitRaw, MhType: 0x11, MhLength: 20}})
	nd.Assert(err == nil, "the link system has the encoder")
	var w bytes.Buffer
	nd.Assert(e(n, &w) == nil, "it encodes")
	stored = w.Bytes()
	nd.Assert(nd.Eq(stored, in), "to the object")
	var np datamodel.NodePrototype = protoFor(in)
	switch nd.Choose(3) {
	case 1:
		np = reprFor(in)
	case 2:
		np = basicnode.Prototype.Any
	}
	m, err := ls.Load(linking.LinkContext{}, mkLink(rawSha(1, 0)), np)
	nd.Assert(err == nil, "loading succeeds")
	nd.Assert(sameContent(m, n), "and gives the node back")
}

var _ = git.Type

// WalkName: a path by the name of a tree entry leads to that entry, whatever
// the name, and by the name of none nowhere.
func WalkName() {
	names := [][]byte{bs("0"), bs("1"), bs("-1"), bs("+1"), bs("00"), bs("1e0"), bs("..x"), bs("%30"), bs("caf\xc3\xa9"), bs("a b"), bs("mode"), bs("hash"), bs("\xff"), bs("9223372036854775808"), bs("*")}
	start, top := 3, ""
	a, b := []byte(nil), bs("3")
	lit := false
	if k := nd.Choose(len(names) + 2); k == len(names)+1 {
		lit = true
		a = litText("\x00/")
		nd.Assume(len(a) > 1)
	} else if k < len(names) {
		a = names[k]
		switch nd.Choose(3) {
		case 1:
			start, top = 5, "tree/"
		case 2:
			start, top = 6, "object/tree/"
		}
	} else {
		a, b = text(1+nd.Choose(2), "\x00/"), text(1, "\x00/")
	}
	nd.Assume(nd.Not(nd.Eq(a, b)))
	r := mkRepo()
	r.root = tree{{bs("100644"), bs("f"), sh(0)}, {bs("100755"), a, sh(1)}, {bs("40000"), b, sh(2)}}
	nd.Assume(nd.Not(nd.Eq(b, bs("f"))))
	if len(a) == 1 {
		nd.Assume(nd.Not(nd.Eq(a, bs("f"))))
	}
	r.put(sh(3), r.root.bytes())
	k := 1
	if !lit {
		k = nd.Choose(4)
	}
	if k == 3 {
		c := text(1+nd.Choose(2), "\x00/")
		for _, e := range r.root {
			if len(e.name) == len(c) {
				nd.Assume(nd.Not(nd.Eq(e.name, c)))
			}
		}
		_, err := r.get(start, top+string(c)+"/mode")
		nd.Assert(err != nil, "the name of no entry leads nowhere")
		return
	}
	e := r.root[k]
	n, err := r.get(start, top+string(e.name)+"/mode")
	nd.Assert(err == nil && n != nil, "an entry's name leads to it")
	nd.Assert(nd.Eq(strOf(n, "mode"), e.mode), "and to its mode")
	if k == 2 {
		n, err = r.get(start, top+string(e.name)+"/hash/b c/mode")
		nd.Assert(err == nil && n != nil, "an entry's name leads through it")
		nd.Assert(nd.Eq(strOf(n, "mode"), bs("100755")), "and to what is below")
		return
	}
	n, err = r.get(start, top+string(e.name)+"/hash")
	nd.Assert(err == nil && n != nil, "an entry's name leads through it")
	nd.Assert(n.Kind() == datamodel.Kind_Bytes, "to a blob")
	nd.Assert(nd.Eq(must(n.AsBytes()), [][]byte{r.blob, r.blob2}[k]), "that is the entry's")
}

// Links: the links of a node are those of the object, in order.
func Links() {
	var in []byte
	var want [][]byte
	switch nd.Choose(3) {
	case 0:
		c := genCommitShape()
		in = c.bytes()
		want = append(want, c.tree)
		want = append(want, c.parents...)
		for _, m := range c.mtags {
			want = append(want, m.object)
		}
		for i := range want {
			want[i] = unhex(want[i])
		}
	case 1:
		t := stdTag()
		t.object = hexSha(1, 40)
		in = t.bytes()
		want = [][]byte{unhex(t.object)}
	case 2:
		var t tree
		for i := nd.Choose(nd.Param("entries", 4)); i > 0; i-- {
			t = append(t, entry{bs("100644"), bs(itoa(i)), rawSha(i, 4)})
			want = append(want, t[len(t)-1].sha)
		}
		in = t.bytes()
	}
	n, err := parse(in)
	nd.Assert(err == nil, "decodes")
	if nd.Choose(2) == 1 {
		n = reprOf(n)
	}
	ls, err := traversal.SelectLinks(n)
	nd.Assert(err == nil, "a node can be searched for links")
	nd.Assert(len(ls) == len(want), "a node has the links of the object and no more")
	for i, l := range ls {
		nd.Assert(nd.EqStr(l.Binary(), string(cidOf(want[i]))), "a node has the links of the object, in order")
	}
}

// WalkAll: a walk of everything visits every value of every object, once per
// way that leads to it.
func WalkAll() {
	r := mkRepo()
	r.root[2].sha = sh(2)
	r.put(sh(3), r.root.bytes())
	r.c2.parents = [][]byte{hexOf(sh(4))}
	r.put(sh(5), r.c2.bytes())
	type leaf struct {
		path string
		v    []byte
	}
	var want []leaf
	addS := func(p string, v []byte) { want = append(want, leaf{p, v}) }
	addP := func(p string, x *person) {
		addS(p+"/name", x.name)
		addS(p+"/email", x.email)
		addS(p+"/date", x.date)
		addS(p+"/timezone", x.tz)
	}
	var addT func(p string, t tree)
	addT = func(p string, t tree) {
		for _, e := range t {
			addS(p+"/"+string(e.name)+"/mode", e.mode)
			q := p + "/" + string(e.name) + "/hash"
			switch string(e.sha) {
			case string(sh(0)):
				addS(q, r.blob)
			case string(sh(1)):
				addS(q, r.blob2)
			default:
				// a tree entry may be anything, so it is read as what it is
				addT(q, r.sub)
			}
		}
	}
	addC := func(p string, c *commit, t tree) {
		addT(p+"tree", t)
		addP(p+"author", c.author)
		addP(p+"committer", c.committer)
		addS(p+"message", c.message)
	}
	addC("", r.c2, r.root)
	addC("parents/0/", r.c1, r.sub)
	addC("mergetag/0/object/", r.c1, r.sub)
	m := r.c2.mtags[0]
	addS("mergetag/0/type", m.typ)
	addS("mergetag/0/tag", m.tag)
	addP("mergetag/0/tagger", m.tagger)
	addS("mergetag/0/message", cat(bs(" "), m.message[0], bs("\n")))
	addS("other/0", r.c2.other[0])

	n, err := parse(r.c2.bytes())
	nd.Assert(err == nil, "decodes")
	if nd.Choose(2) == 1 {
		n = reprOf(n)
	}
	sel, err := selector.CompileSelector(selectorparse.CommonSelector_MatchAllRecursively)
	nd.Assert(err == nil, "the selector compiles")
	prog := traversal.Progress{Cfg: &traversal.Config{Ctx: context.Background(), LinkSystem: r.sys(), LinkTargetNodePrototypeChooser: chooser}}
	got := 0
	err = prog.WalkMatching(n, sel, func(p traversal.Progress, x datamodel.Node) error {
		var v []byte
		switch x.Kind() {
		case datamodel.Kind_String:
			v = bs(must(x.AsString()))
		case datamodel.Kind_Bytes:
			v = must(x.AsBytes())
		default:
			return nil
		}
		got++
		path := p.Path.String()
		for _, l := range want {
			if l.path == path {
				nd.Assert(nd.Eq(v, l.v), "a walk arrives at the values of the objects")
				return nil
			}
		}
		nd.Assert(false, "a walk arrives at nothing else: "+path)
		return nil
	})
	nd.Assert(err == nil, "a walk of everything ends well")
	nd.Assert(got == len(want), "a walk arrives everywhere")
}
