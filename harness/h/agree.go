package h

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"errors"
	"io"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"

	"verif/harness/nd"
)

func init() {
	All["Agree"] = Agree
	All["AgreeBad"] = AgreeBad
	All["AgreeEntry"] = AgreeEntry
	All["Compressed"] = Compressed
	All["Deflated"] = Deflated
	All["CompressedBad"] = CompressedBad
	All["Gate"] = Gate
	All["Registry"] = Registry
	All["WrongTarget"] = WrongTarget
}

// zl wraps data as a zlib stream of one stored block (git's own loose objects
// use deflate; stored blocks keep the data visible to the solver).
func zl(b []byte, parts int) []byte {
	r := []byte{0x78, 0x01}
	for i := 0; i < parts; i++ {
		p := b[len(b)*i/parts : len(b)*(i+1)/parts]
		n := len(p)
		f := byte(0)
		if i == parts-1 {
			f = 1
		}
		r = cat(r, []byte{f, byte(n), byte(n >> 8), ^byte(n), ^byte(n >> 8)}, p)
	}
	s1, s2 := uint32(1), uint32(0)
	for i, x := range b {
		s1 += uint32(x)
		s2 += s1
		if i%5000 == 4999 {
			s1, s2 = s1%65521, s2%65521
		}
	}
	s1, s2 = s1%65521, s2%65521
	return append(r, byte(s2>>8), byte(s2), byte(s1>>8), byte(s1))
}

func gitCid() cid.Cid {
	_, c, err := cid.CidFromBytes(cidOf(make([]byte, 20)))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return c
}

func block(c cid.Cid, in []byte) blocks.Block {
	b, err := blocks.NewBlockWithCid(in, c)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

func into(nb ipld.NodeBuilder, in []byte) (ipld.Node, error) {
	if err := git.Decode(nb, bytes.NewReader(in)); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

func reprFor(in []byte) ipld.NodePrototype {
	switch protoFor(in) {
	case git.Type.Tree:
		return git.Type.Tree__Repr
	case git.Type.Commit:
		return git.Type.Commit__Repr
	case git.Type.Tag:
		return git.Type.Tag__Repr
	}
	return git.Type.Blob__Repr
}

// entryPoint is every way of decoding an object.
func entryPoint(k int, in []byte) (ipld.Node, error) {
	switch k {
	case 0:
		return git.ParseObjectFromBuffer(in)
	case 1:
		return into(protoFor(in).NewBuilder(), in)
	case 2:
		return into(reprFor(in).NewBuilder(), in)
	case 3:
		return into(basicnode.Prototype.Any.NewBuilder(), in)
	case 4:
		return git.DecodeBlock(block(gitCid(), in))
	case 5:
		dec, err := mc.LookupDecoder(0x78)
		nd.Assert(err == nil, "a git-raw decoder is registered")
		nb := protoFor(in).NewBuilder()
		if err := dec(nb, bytes.NewReader(in)); err != nil {
			return nil, err
		}
		return nb.Build(), nil
	case 6: // the per-type functions, after the type
		i := bytes.IndexByte(in, ' ')
		if i < 0 {
			return nil, errors.New("no type")
		}
		nb := protoFor(in).NewBuilder()
		rd := bufio.NewReader(bytes.NewReader(in[i+1:]))
		var err error
		switch string(in[:i]) {
		case "tree":
			err = git.DecodeTree(nb, rd)
		case "commit":
			err = git.DecodeCommit(nb, rd)
		case "tag":
			err = git.DecodeTag(nb, rd)
		case "blob":
			err = git.DecodeBlob(nb, rd)
		default:
			return nil, errors.New("no such type")
		}
		if err != nil {
			return nil, err
		}
		return nb.Build(), nil
	}
	return git.ParseCompressedObject(bytes.NewReader(zl(in, 1+k-7)))
}

const nEntry = 9

// Agree: all entry points give the same node for well-formed objects.
func Agree() {
	in, want := genObject()
	n1, e1 := parse(in)
	nd.Assert(e1 == nil, "a well-formed object decodes without error")
	if len(in) > 60000 {
		return
	}
	n2, e2 := entryPoint(nd.Choose(nEntry-2), in)
	sameResult(n1, e1, n2, e2, "entry points")
	want(n2)
	o, err := enc(n2)
	nd.Assert(err == nil && nd.Eq(o, in), "the node re-encodes to the object")
}

// badObject is some object that may be malformed.
func badObject() []byte {
	switch nd.Choose(7) {
	case 6: // what stands in the code, as a line or an entry
		o := smallObject(nd.Choose(4))
		i := bytes.IndexByte(o, 0) + 1
		l := litText("")
		return object(string(o[:bytes.IndexByte(o, ' ')]), [][]byte{cat(l, bs("\n"), o[i:]), cat(o[i:], l)}[nd.Choose(2)])
	case 4: // a byte too many
		o := smallObject(nd.Choose(4))
		p := nd.Choose(min(len(o)+1, nd.Param("ins", 16)))
		return cat(o[:p], nd.Bytes(1), o[p:])
	case 5: // a byte too few
		o := smallObject(nd.Choose(4))
		p := nd.Choose(min(len(o), nd.Param("ins", 16)))
		return cat(o[:p], o[p+1:])
	case 0:
		o := smallObject(nd.Choose(4))
		return o[:nd.Choose(len(o)+1)]
	case 1:
		k := nd.Choose(4)
		o := smallObject(k)
		p := nd.Choose(len(o))
		o[p] = nd.Byte()
		return o
	case 2:
		return cat(bs([]string{"blob", "tree", "commit", "tag", "blobs", "tre", "", "Commit"}[nd.Choose(8)]), []byte{[]byte{' ', 0, '\n'}[nd.Choose(3)]}, nd.Bytes(1), []byte{0}, nd.Bytes(1))
	}
	return object(types[2+nd.Choose(2)], cat(headerLine(nd.Choose(nHeaderLine)), bs("\n"), headerLine(nd.Choose(nHeaderLine)), bs("\nm")))
}

// AgreeBad: the entry points agree on what they refuse, too.
func AgreeBad() {
	in := badObject()
	n1, e1 := parse(in)
	nd.ObserveInt("ok", b2i(e1 == nil))
	n2, e2 := entryPoint(nd.Choose(nEntry-2), in)
	sameResult(n1, e1, n2, e2, "entry points")
}

// AgreeEntry: reading a tree entry by entry gives the tree.
func AgreeEntry() {
	t := genTree(nd.Choose(3))
	in := t.bytes()
	rd := bufio.NewReader(bytes.NewReader(in[bytes.IndexByte(in, 0)+1:]))
	for _, e := range t {
		name, n, err := git.DecodeTreeEntry(rd)
		nd.Assert(err == nil && n != nil, "each entry decodes")
		nd.Assert(nd.EqStr(name, string(e.name)), "under its name")
		wantStr(n, "mode", e.mode)
		wantLink(n, "hash", e.sha)
	}
	_, n, err := git.DecodeTreeEntry(rd)
	nd.Assert(err == io.EOF && n == nil, "the end of the tree is io.EOF")
}

// Compressed: zlib-wrapped objects decode like plain ones.
func Compressed() {
	in := smallObject(nd.Choose(nSmall))
	n1, e1 := parse(in)
	z := zl(in, 1+nd.Choose(3))
	var r io.Reader = bytes.NewReader(z)
	if nd.Choose(2) == 1 {
		r = &chunked{b: z, every: 1 + nd.Choose(2), last: nd.Choose(2) == 1}
	}
	n2, e2 := git.ParseCompressedObject(r)
	sameResult(n1, e1, n2, e2, "compressed")
	nd.Assert(e2 == nil, "a compressed well-formed object decodes")
}

// CompressedBad: damage to the wrapping, or a malformed object in it, is refused.
func CompressedBad() {
	k := nd.Choose(nSmall)
	in := smallObject(k)
	z := zl(in, 1)
	var r io.Reader
	switch nd.Choose(6) {
	case 0: // checksum
		p := len(z) - 4 + nd.Choose(4)
		x := nd.Byte()
		nd.Assume(nd.Not(nd.EqByte(x, z[p])))
		z[p] = x
		r = bytes.NewReader(z)
	case 1: // cut short
		r = bytes.NewReader(z[:nd.Choose(len(z))])
	case 2: // header
		p := nd.Choose(2)
		x := nd.Byte()
		z[p] = x
		nd.Assume(nd.Or(nd.Not(nd.EqByte(z[0]&15, 8)), nd.Not((uint(z[0])<<8|uint(z[1]))%31 == 0)))
		r = bytes.NewReader(z)
	case 3: // a malformed object, correctly wrapped
		if k == 4 || k == 5 {
			return
		}
		in = in[:nd.Choose(bytes.IndexByte(in, 0)+1)]
		r = bytes.NewReader(zl(in, 1))
	case 5: // no wrapping at all, or one of another kind
		r = bytes.NewReader(in)
		switch nd.Choose(3) {
		case 1:
			r = bytes.NewReader(z[2:]) // bare deflate
		case 2:
			r = bytes.NewReader(cat([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3}, z[2:]))
		}
	case 4: // a fault of the underlying reader
		r = &chunked{b: z[:nd.Choose(len(z))], end: errInjected}
		n, err := git.ParseCompressedObject(r)
		nd.Assert(err != nil && n == nil, "a read error is reported")
		nd.Assert(errors.Is(err, errInjected), "the reader's own error is reported")
		return
	}
	n, err := git.ParseCompressedObject(r)
	nd.Assert(err != nil, "a damaged compressed object is refused")
	nd.Assert(n == nil, "no node comes with an error")
}

// fixedZl wraps b, all of whose bytes are below 144, in a zlib stream of one
// block of fixed Huffman codes.
func fixedZl(b []byte) []byte {
	r := []byte{0x78, 0x01}
	var acc uint
	var n uint
	bits := func(v, k uint) { // lowest first
		acc |= v << n
		for n += k; n >= 8; n -= 8 {
			r = append(r, byte(acc))
			acc >>= 8
		}
	}
	bits(1, 1)
	bits(1, 2)
	for _, x := range b {
		c := uint(x) + 0x30
		c = c>>4&0xf | c&0xf<<4
		c = c>>2&0x33 | c&0x33<<2
		c = c>>1&0x55 | c&0x55<<1
		bits(c, 8)
	}
	bits(0, 7)
	if n > 0 {
		bits(0, 8-n)
	}
	z := zl(b, 1)
	return append(r, z[len(z)-4:]...)
}

// Deflated: objects that are really compressed decode like plain ones, and
// damaged ones are refused.
func Deflated() {
	k := nd.Param("k", -1)
	if k < 0 {
		k = nd.Choose(3)
	}
	switch k {
	case 0:
		pinned = true // nothing arbitrary goes through the compressor
		defer func() { pinned = false }()
		in := object("blob", bytes.Repeat(fill(300, 1), nd.Param("rep", 100)))
		if k := nd.Choose(13); k < 12 {
			in = varied(k)
		}
		var b bytes.Buffer
		w, err := zlib.NewWriterLevel(&b, []int{-2, 1, 6, 9, 0}[nd.Choose(nd.Param("levels", 3))])
		nd.Assert(err == nil, "a level")
		w.Write(in[:len(in)/2])
		w.Write(in[len(in)/2:])
		w.Close()
		n1, e1 := parse(in)
		n2, e2 := git.ParseCompressedObject(&b)
		nd.Assert(e2 == nil, "a compressed well-formed object decodes")
		sameResult(n1, e1, n2, e2, "compressed")
	case 1:
		var in []byte
		if nd.Choose(2) == 0 {
			in = object("blob", cat(bs("ab"), text(1, string(high)), bs("c\n")))
		} else {
			in = object("tag", cat(bs("object "), hexSha(1, 0), bs("\ntype tag\ntag v"), text(1, string(high)+"\n"), bs("\n\nm\n")))
		}
		n1, e1 := parse(in)
		n2, e2 := git.ParseCompressedObject(bytes.NewReader(fixedZl(in)))
		nd.Assert(e2 == nil, "a compressed well-formed object decodes")
		sameResult(n1, e1, n2, e2, "compressed")
	case 2:
		in := object("blob", bs("some text"))
		z := fixedZl(in)
		step := nd.Param("step", 1)
		p := len(z) - 1 - step*nd.Choose((len(z)+step-1)/step)
		x := nd.Byte()
		nd.Assume(nd.Not(nd.EqByte(x, z[p])))
		z[p] = x
		n1, e1 := parse(in)
		n2, e2 := git.ParseCompressedObject(bytes.NewReader(z))
		if p >= len(z)-4 {
			nd.Assert(e2 != nil, "a wrong checksum is refused")
		}
		if e2 == nil {
			sameResult(n1, e1, n2, e2, "compressed, with a change that does not matter")
		} else {
			nd.Assert(n2 == nil, "no node comes with an error")
		}
	}
}

// high is every byte with a longer Huffman code.
var high = func() (r []byte) {
	for x := 144; x < 256; x++ {
		r = append(r, byte(x))
	}
	return
}()

func uv(x uint64) []byte {
	var r []byte
	for x >= 0x80 {
		r = append(r, byte(x)|0x80)
		x >>= 7
	}
	return append(r, byte(x))
}

// anyUv is any number that takes n bytes to write.
func anyUv(n int) []byte {
	b := nd.Bytes(n)
	for i := 0; i < n-1; i++ {
		nd.Assume(nd.In2(b[i], 0x80, 0xff))
	}
	nd.Assume(nd.In2(b[n-1], byte(b2i(n > 1)), 0x7f))
	return b
}

// Gate: DecodeBlock takes a block exactly if its CID says git-raw and SHA-1.
func Gate() {
	in := smallObject(nd.Choose(4))
	cb, mb, ln := uv(0x78), uv(0x11), uint64(20)
	switch nd.Choose(5) {
	case 0: // any codec
		cb = anyUv(1 + nd.Choose(9))
	case 1: // any hash function
		mb = anyUv(1 + nd.Choose(9))
	case 2:
		ln = []uint64{20, 0, 1, 19, 21, 28, 32, 64, 127, 128, 276}[nd.Choose(11)]
	case 3: // both
		n := 1 + nd.Choose(4)
		cb, mb = anyUv(n), anyUv(n)
	case 4: // CIDv0
		_, c, err := cid.CidFromBytes(cat([]byte{0x12, 0x20}, fill(32, 1)))
		if err != nil {
			panic("harness: " + err.Error())
		}
		n, err := git.DecodeBlock(block(c, in))
		nd.Assert(err != nil && n == nil, "a CIDv0 block is refused")
		return
	}
	raw := cat([]byte{1}, cb, mb, uv(ln), fill(int(ln), 3))
	c, err := cid.Cast(raw)
	if err != nil {
		return // no such CID can be made
	}
	n, err := git.DecodeBlock(block(c, in))
	good := ln == 20 && nd.And(nd.Eq(cb, uv(0x78)), nd.Eq(mb, uv(0x11)))
	nd.ObserveInt("good", b2i(good))
	if good {
		nd.Cover("taken")
		n1, e1 := parse(in)
		sameResult(n1, e1, n, err, "block")
		nd.Assert(err == nil, "a git-raw block is decoded")
	} else {
		nd.Cover("refused")
		nd.Assert(err != nil && n == nil, "a block of another kind is refused")
	}
}

// Registry: the codec registered for git-raw is this one, and only for it.
func Registry() {
	in := smallObject(nd.Choose(nSmall))
	dec, err := mc.LookupDecoder(uint64(cid.GitRaw))
	nd.Assert(err == nil && dec != nil, "a decoder is registered for git-raw")
	e, err := mc.LookupEncoder(0x78)
	nd.Assert(err == nil && e != nil, "an encoder is registered for git-raw")
	nb := basicnode.Prototype.Any.NewBuilder()
	if nd.Choose(2) == 1 {
		nb = protoFor(in).NewBuilder()
	}
	nd.Assert(dec(nb, bytes.NewReader(in)) == nil, "the registered decoder decodes")
	n := nb.Build()
	n1, _ := parse(in)
	nd.Assert(sameNode(n, n1), "as ParseObject does")
	var b bytes.Buffer
	nd.Assert(e(n, &b) == nil, "the registered encoder encodes")
	nd.Assert(nd.Eq(b.Bytes(), in), "to the object")
	// a link system finds the codec from a git link
	ls := cidlink.DefaultLinkSystem()
	d2, err := ls.DecoderChooser(cidlink.Link{Cid: gitCid()})
	nd.Assert(err == nil && d2 != nil, "a link system finds the decoder")
	nb = protoFor(in).NewBuilder()
	nd.Assert(d2(nb, bytes.NewReader(in)) == nil && sameNode(nb.Build(), n1), "and it decodes alike")
	e2, err := ls.EncoderChooser(cidlink.LinkPrototype{Prefix: gitCid().Prefix()})
	nd.Assert(err == nil && e2 != nil, "a link system finds the encoder")
	b.Reset()
	nd.Assert(e2(n1, &b) == nil && nd.Eq(b.Bytes(), in), "and it encodes alike")
}

// WrongTarget: an object is never forced into a builder for another type.
func WrongTarget() {
	in := smallObject(nd.Choose(nSmall))
	if len(in) == len("tree 0")+1 {
		return // an empty tree is an empty map, which other map types refuse for want of fields
	}
	ps := []ipld.NodePrototype{git.Type.Blob, git.Type.Tree, git.Type.Commit, git.Type.Tag,
		git.Type.Blob__Repr, git.Type.Tree__Repr, git.Type.Commit__Repr, git.Type.Tag__Repr,
		git.Type.String, git.Type.Link, git.Type.PersonInfo, git.Type.String_List, basicnode.Prototype.String, basicnode.Prototype.List}
	p := ps[nd.Choose(len(ps))]
	if p == protoFor(in) || p == reprFor(in) {
		return
	}
	nb := p.NewBuilder()
	nd.Assert(git.Decode(nb, bytes.NewReader(in)) != nil, "an object does not decode into a builder of another type")
}

var _ schema.TypedNode
