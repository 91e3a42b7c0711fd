package h

import (
	"bufio"
	"bytes"
	"errors"
	"io"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/node/basicnode"

	"verif/harness/nd"
)

func init() {
	All["Chunks"] = Chunks
	All["ChunksLong"] = ChunksLong
	All["ReadFault"] = ReadFault
	All["ReadFaultLong"] = ReadFaultLong
	All["WriteFault"] = WriteFault
	All["Rewrite"] = Rewrite
	All["EncodeReject"] = EncodeReject
}

// chunked delivers b in the given piece lengths, then the rest in one piece.
type chunked struct {
	b     []byte
	sizes []int
	every int  // if > 0: pieces of at most this length
	last  bool // deliver the end together with the last bytes
	zero  bool // an empty read before each piece
	zn    bool
	end   error // what comes after b; nil: io.EOF
	once  bool  // end comes once, and then the bytes in then and io.EOF
	then  []byte
	buf   func()
}

func (c *chunked) fin() error {
	if c.end != nil {
		e := c.end
		if c.once {
			c.b, c.then, c.end, c.last = c.then, nil, nil, false
		}
		return e
	}
	return io.EOF
}

func (c *chunked) Read(p []byte) (int, error) {
	if c.buf != nil {
		c.buf()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.b) == 0 {
		return 0, c.fin()
	}
	if c.zero && !c.zn {
		c.zn = true
		return 0, nil
	}
	c.zn = false
	n := len(p)
	if len(c.b) < n {
		n = len(c.b)
	}
	if len(c.sizes) > 0 {
		if c.sizes[0] < n {
			n = c.sizes[0]
		}
		c.sizes[0] -= n
		if c.sizes[0] <= 0 {
			c.sizes = c.sizes[1:]
		}
	} else if c.every > 0 && c.every < n {
		n = c.every
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.last {
		return n, c.fin()
	}
	return n, nil
}

// how an object is delivered
func delivery(in []byte) *chunked {
	r := &chunked{b: in}
	switch nd.Choose(6) {
	case 0:
		r.every = 1
	case 1:
		r.every = 1 + nd.Choose(7)
		r.last = true
	case 2:
		r.every = 1 + nd.Choose(3)
		r.zero = true
	case 3:
		r.sizes = []int{1 + nd.Choose(len(in))}
	case 4:
		p := 1 + nd.Choose(len(in))
		r.sizes = []int{p, 1}
		r.last = true
	case 5:
		r.last = true
	}
	return r
}

// via decodes from a reader through one of the stream entry points.
func via(k int, in []byte, r io.Reader) (ipld.Node, error) {
	switch k {
	case 0:
		return git.ParseObject(r)
	case 1:
		nb := basicnode.Prototype.Any.NewBuilder()
		if err := git.Decode(nb, r); err != nil {
			return nil, err
		}
		return nb.Build(), nil
	case 2:
		nb := protoFor(in).NewBuilder()
		if err := git.Decode(nb, r); err != nil {
			return nil, err
		}
		return nb.Build(), nil
	}
	// a reader of the caller's, with its own small buffer, past the type
	br := bufio.NewReaderSize(r, 16)
	i := bytes.IndexByte(in, ' ')
	if i < 0 {
		return git.ParseObject(br)
	}
	if _, err := br.Discard(i + 1); err != nil {
		return nil, err
	}
	nb := protoFor(in).NewBuilder()
	var err error
	switch string(in[:i]) {
	case "tree":
		err = git.DecodeTree(nb, br)
	case "commit":
		err = git.DecodeCommit(nb, br)
	case "tag":
		err = git.DecodeTag(nb, br)
	default:
		err = git.DecodeBlob(nb, br)
	}
	if err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

const nVia = 4

func protoFor(in []byte) ipld.NodePrototype {
	switch {
	case bytes.HasPrefix(in, []byte("tree ")):
		return git.Type.Tree
	case bytes.HasPrefix(in, []byte("commit ")):
		return git.Type.Commit
	case bytes.HasPrefix(in, []byte("tag ")):
		return git.Type.Tag
	}
	return git.Type.Blob
}

// sameResult: both fail, or both give the same node.
func sameResult(n1 ipld.Node, e1 error, n2 ipld.Node, e2 error, what string) {
	nd.Assert((e1 == nil) == (e2 == nil), what+": same verdict")
	if e1 == nil && e2 == nil {
		nd.Assert(sameNode(n1, n2), what+": same node")
		nd.Assert(nd.Eq(digest(n1), digest(n2)), what+": same contents")
	}
}

// Chunks: how the reader splits the bytes does not matter, for valid objects
// and for ones cut short.
func Chunks() {
	in := smallObject(nd.Choose(nSmall))
	var r *chunked
	if nd.Choose(2) == 1 {
		in = in[:1+nd.Choose(len(in)-1)]
		r = &chunked{b: in, every: nd.Choose(3), last: nd.Choose(2) == 1}
	} else {
		r = delivery(in)
	}
	n1, e1 := parse(in)
	k := nd.Choose(nVia)
	n2, e2 := via(k, in, r)
	nd.ObserveInt("ok", b2i(e1 == nil))
	sameResult(n1, e1, n2, e2, "split delivery")
}

// longObject has every kind of field cross the reader's 4096-byte buffer.
func longObject(k int) []byte {
	pad := 4096 - 60 + nd.Choose(nd.Param("pads", 20))*nd.Param("step", 7)
	switch k {
	case 0:
		return object("blob", cat(fill(pad, 1), nd.Bytes(2)))
	case 1:
		return tree{{bs("100644"), fill(pad, 2), rawSha(1, 2)}, {bs("40000"), cat(bs("d"), text(1, "\x00")), rawSha(2, 2)}}.bytes()
	case 2:
		c := stdCommit()
		c.other = [][]byte{fill(pad-170, 3)}
		c.message = cat(bs("m"), nd.Bytes(1))
		return c.bytes()
	case 3:
		c := stdCommit()
		c.parents = [][]byte{hexSha(2, 2)}
		c.author.name = fill(pad-110, 3)
		return c.bytes()
	case 4:
		c := stdCommit()
		m := stdMtag(5)
		m.message = [][]byte{fill(pad-330, 4), text(1, "\n")}
		c.mtags = []mtag{m, stdMtag(6)}
		c.sig = [][]byte{{}, bs("iQ")}
		return c.bytes()
	case 5:
		c := stdCommit()
		c.sig = [][]byte{{}, fill(pad-210, 4), text(1, "\n")}
		c.other = [][]byte{bs("x y")}
		return c.bytes()
	}
	t := stdTag()
	t.tag = fill(pad-80, 5)
	t.message = cat(bs("m"), nd.Bytes(1))
	return t.bytes()
}

const nLong = 7

func ChunksLong() {
	in := longObject(nd.Choose(nLong))
	n1, e1 := parse(in)
	nd.Assert(e1 == nil, "a well-formed object decodes without error")
	r := &chunked{b: in}
	switch nd.Choose(5) {
	case 0:
		r.every = 1
	case 1:
		r.every = 4095
	case 2:
		r.every = 1000
		r.zero = true
	case 3:
		r.sizes = []int{len(in) - 1}
		r.last = true
	case 4:
		r.sizes = []int{4096, 1}
	}
	n2, e2 := via(nd.Choose(nVia), in, r)
	sameResult(n1, e1, n2, e2, "split delivery")
	out, err := enc(n2)
	nd.Assert(err == nil && nd.Eq(out, in), "the object read in pieces re-encodes to itself")
}

var errInjected = errors.New("injected fault")

// someFault is one of the errors a failing reader returns. Only io.EOF is not
// a fault.
func someFault() error {
	return []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer}[nd.Choose(nd.Param("faults", 5))]
}

// ReadFault: a read error anywhere before the object is complete is reported.
func ReadFault() {
	k := nd.Choose(nSmall)
	in := smallObject(k)
	blob := k == 0 || k == 4
	at := nd.Choose(len(in) + 1)
	if blob && at == len(in) {
		return // the blob is complete: its reader need not be asked again
	}
	fault := someFault()
	r := &chunked{b: in[:at], end: fault}
	switch nd.Choose(3) {
	case 1:
		r.every = 1
	case 2:
		r.last = true
	}
	// The fault passes. Not if it came with bytes: io.ReadFull, by its contract,
	// keeps such an error to itself if it got all it wanted.
	if !r.last {
		t := nd.Choose(3)
		r.once = t > 0
		if t == 2 {
			r.then = in[at:]
		}
	}
	v := nd.Choose(nVia)
	if v == 3 && at <= bytes.IndexByte(in, ' ') {
		return // the harness's own skipping would meet the fault
	}
	n, err := via(v, in, r)
	nd.Assert(err != nil, "a read error is reported")
	nd.Assert(n == nil, "no node comes with a read error")
	nd.Assert(errors.Is(err, fault), "the reader's own error is reported")
}

func ReadFaultLong() {
	k := nd.Choose(nLong)
	in := longObject(k)
	at := len(in) - nd.Choose(nd.Param("back", 12))
	if nd.Choose(2) == 1 {
		at = 4096 - 4 + nd.Choose(9)
		if at > len(in) {
			return
		}
	}
	if k == 0 && at == len(in) {
		return
	}
	fault := someFault()
	r := &chunked{b: in[:at], end: fault, last: nd.Choose(2) == 1}
	if !r.last && nd.Choose(2) == 1 {
		r.once, r.then = true, in[at:]
	}
	n, err := via(nd.Choose(nVia), in, r)
	nd.Assert(err != nil && n == nil, "a read error is reported")
	nd.Assert(errors.Is(err, fault), "the reader's own error is reported")
}

// faulty accepts left bytes, then fails.
type faulty struct {
	got    []byte
	left   int
	once   bool // recovers after the first failure
	failed bool
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.failed && f.once {
		f.got = append(f.got, p...)
		return len(p), nil
	}
	if len(p) <= f.left {
		f.got = append(f.got, p...)
		f.left -= len(p)
		return len(p), nil
	}
	n := f.left
	f.got = append(f.got, p[:n]...)
	f.left, f.failed = 0, true
	return n, errInjected
}

// WriteFault: a write error at any byte is reported, and only the object's
// own bytes were written before it.
func WriteFault() {
	in := smallObject(nd.Choose(nSmall))
	n, err := parse(in)
	nd.Assert(err == nil, "decodes")
	at := nd.Choose(len(in))
	w := &faulty{left: at, once: nd.Choose(2) == 1}
	err = git.Encode(n, w)
	nd.Assert(err != nil, "a write error is reported")
	nd.Assert(errors.Is(err, errInjected), "the writer's own error is reported")
	nd.Assert(len(w.got) <= at, "nothing is written after a failure")
	nd.Assert(nd.Eq(w.got, in[:len(w.got)]), "what was written is the start of the object")
	out, err := enc(n)
	nd.Assert(err == nil && nd.Eq(out, in), "a failed encoding leaves the node as it was")
}

// scribbler overwrites what it was given, as the io.Writer rules forbid
// keeping but an in-place transformer may do; counts calls.
type keeper struct{ parts [][]byte }

func (k *keeper) Write(p []byte) (int, error) {
	k.parts = append(k.parts, append([]byte(nil), p...))
	return len(p), nil
}

// Rewrite: encoding twice gives the same bytes, whatever the writer.
func Rewrite() {
	in, _ := genObject()
	n, err := parse(in)
	nd.Assert(err == nil, "decodes")
	a, e1 := enc(n)
	k := &keeper{}
	e2 := git.Encode(n, k)
	nd.Assert(e1 == nil && e2 == nil, "encodes")
	nd.Assert(nd.Eq(cat(k.parts...), in), "the written pieces are the object")
	nd.Assert(nd.Eq(a, in), "the object again")
}

// EncodeReject: a node that is no git object gives an error and no output.
func EncodeReject() {
	var n ipld.Node
	switch nd.Choose(14) {
	case 0:
		n = basicnode.NewString(string(text(nd.Choose(3), "")))
	case 1:
		n = basicnode.NewInt(5)
	case 2:
		n = basicnode.NewBool(true)
	case 3:
		n = basicnode.NewFloat(1.5)
	case 4:
		n = ipld.Null
	case 5:
		n = basicnode.NewLink(mkLink(rawSha(1, 2)))
	case 6:
		n = mkList(vs(bs("a")))
	case 7:
		n = mkMap()
	case 8:
		n = mkMap(kv("x", vs(bs("a"))))
	case 9:
		f := commitFields()
		k := []int{0, 1, 2, 7, 8}[nd.Choose(5)] // required ones
		n = mkMap(append(append([]fieldVal{}, f[:k]...), f[k+1:]...)...)
	case 10:
		f := tagFields()
		k := []int{1, 2, 4}[nd.Choose(3)]
		n = mkMap(append(append([]fieldVal{}, f[:k]...), f[k+1:]...)...)
	case 11: // wrong kind in a field
		f := commitFields()
		f[nd.Choose(len(f))].v = val{k: vInt}
		n = mkMap(f...)
	case 12:
		f := tagFields()
		f[nd.Choose(len(f))].v = val{k: vInt}
		n = mkMap(f...)
	case 13:
		n = mkMap(append(commitFields(), kv("extra", vs(bs("x"))))...)
	}
	w := &faulty{left: 1 << 20}
	err := git.Encode(n, w)
	nd.Assert(err != nil, "a node that is not a git object is refused")
	nd.Assert(len(w.got) == 0, "nothing is written for a refused node")
}
