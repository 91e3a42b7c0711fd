#!/usr/bin/env python3
"""make.py [NAME...]: applies behaviour-preserving rewrites to scratch copies
of /repo and runs every check on them: all must stay quiet."""
import os, shutil, subprocess, sys, time
V = '/verif'
R = {}
def ref(name, *edits): R[name] = edits

ref('dispatch-table', ('unmarshal.go', '''	switch typ {
	case "tree":
		return DecodeTree(na, rd)
	case "commit":
		return DecodeCommit(na, rd)
	case "blob":
		return DecodeBlob(na, rd)
	case "tag":
		return DecodeTag(na, rd)
	default:
		return fmt.Errorf("unrecognized object type: %q", typ)
	}
}
''', '''	if k, ok := kinds[typ]; ok {
		return k.decode(na, rd)
	}
	return fmt.Errorf("unrecognized object type: %q", typ)
}

type kind struct {
	decode func(ipld.NodeAssembler, *bufio.Reader) error
	proto  func() ipld.NodePrototype
}

var kinds = map[string]kind{
	"tree":   {DecodeTree, func() ipld.NodePrototype { return Type.Tree }},
	"commit": {DecodeCommit, func() ipld.NodePrototype { return Type.Commit }},
	"blob":   {DecodeBlob, func() ipld.NodePrototype { return Type.Blob }},
	"tag":    {DecodeTag, func() ipld.NodePrototype { return Type.Tag }},
}
'''), ('unmarshal.go', '''	var na ipld.NodeBuilder
	var decode func(ipld.NodeAssembler, *bufio.Reader) error
	switch typ {
	case "tree":
		na = Type.Tree.NewBuilder()
		decode = DecodeTree
	case "commit":
		na = Type.Commit.NewBuilder()
		decode = DecodeCommit
	case "blob":
		na = Type.Blob.NewBuilder()
		decode = DecodeBlob
	case "tag":
		na = Type.Tag.NewBuilder()
		decode = DecodeTag
	default:
		return nil, fmt.Errorf("unrecognized object type: %q", typ)
	}
	// fmt.Printf("type %s\\n", typ)

	if err := decode(na, rd); err != nil {
		return nil, err
	}
	return na.Build(), nil
''', '''	k, ok := kinds[typ]
	if !ok {
		return nil, fmt.Errorf("unrecognized object type: %q", typ)
	}
	na := k.proto().NewBuilder()
	if err := k.decode(na, rd); err != nil {
		return nil, err
	}
	return na.Build(), nil
'''))

ref('shared-header', ('unmarshal.go', '''	rd := bufio.NewReader(r)

	typ, err := rd.ReadString(' ')
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	if err != nil {
		return err
	}
	typ = typ[:len(typ)-1]
''', '''	rd := bufio.NewReaderSize(r, 8192)
	typ, err := objectType(rd)
	if err != nil {
		return err
	}
'''), ('unmarshal.go', '''	rd := bufio.NewReader(r)

	typ, err := rd.ReadString(' ')
	if err == io.EOF {
		return nil, io.ErrUnexpectedEOF
	}
	if err != nil {
		return nil, err
	}
	typ = typ[:len(typ)-1]
''', '''	rd := bufio.NewReaderSize(r, 16)
	typ, err := objectType(rd)
	if err != nil {
		return nil, err
	}
'''), ('unmarshal.go', '''// ParseObject produces''', '''func objectType(rd *bufio.Reader) (_ string, err error) {
	defer func() {
		if errors.Is(err, io.EOF) {
			err = io.ErrUnexpectedEOF
		}
	}()
	var typ []byte
	for {
		b, err := rd.ReadByte()
		if err != nil {
			return "", err
		}
		if b == ' ' {
			return string(typ), nil
		}
		typ = append(typ, b)
	}
}

// ParseObject produces'''), ('unmarshal.go', '	"bufio"\n', '	"bufio"\n	"errors"\n'))

ref('readline-slices', ('helper.go', '''	line, err := rd.ReadBytes('\\n')
	if err == nil {
		return line[:len(line)-1], nil
	}
	if err == io.EOF && len(line) > 0 {
		return line, nil
	}
	return nil, err
''', '''	var line []byte
	for {
		part, err := rd.ReadSlice('\\n')
		line = append(line, part...)
		switch {
		case errors.Is(err, bufio.ErrBufferFull):
			continue
		case err == nil:
			line, _ = bytes.CutSuffix(line, []byte("\\n"))
			if line == nil {
				line = []byte{}
			}
			return line, nil
		case errors.Is(err, io.EOF) && len(line) > 0:
			return line, nil
		}
		return nil, err
	}
''') )

ref('encode-commit-builder', ('commit.go', '''	buf := new(bytes.Buffer)

''', '''	var buf strings.Builder
	hexLine := func(key string, sha []byte) {
		buf.WriteString(key)
		buf.WriteByte(' ')
		for _, b := range sha {
			buf.WriteByte("0123456789abcdef"[b>>4])
			buf.WriteByte("0123456789abcdef"[b&15])
		}
		buf.WriteByte('\\n')
	}

'''), ('commit.go', '''	fmt.Fprintf(buf, "tree %s\\n", hex.EncodeToString(treeSha))
''', '''	hexLine("tree", treeSha)
'''), ('commit.go', '''		fmt.Fprintf(buf, "parent %s\\n", hex.EncodeToString(psha))
''', '''		hexLine("parent", psha)
'''), ('commit.go', '''		fmt.Fprintf(buf, "author %s\\n", c.author.v.GitString())
''', '''		buf.WriteString("author " + c.author.v.GitString() + "\\n")
'''), ('commit.go', '''		fmt.Fprintf(buf, "committer %s\\n", c.committer.v.GitString())
''', '''		fmt.Fprintln(&buf, "committer", c.committer.v.GitString())
'''), ('commit.go', '''		fmt.Fprintf(buf, "encoding %s\\n", c.encoding.v.x)
''', '''		fmt.Fprintf(&buf, "%s %v\\n", "encoding", c.encoding.v.x)
'''), ('commit.go', '''		fmt.Fprintf(buf, "mergetag object %s\\n", hex.EncodeToString(objSha))
		fmt.Fprintf(buf, " type %s\\n", mtag.typ.x)
		fmt.Fprintf(buf, " tag %s\\n", mtag.tag.x)
''', '''		hexLine("mergetag object", objSha)
		for _, kv := range [][2]string{{"type", mtag.typ.x}, {"tag", mtag.tag.x}} {
			buf.WriteString(strings.Join([]string{"", kv[0], kv[1]}, " "))
			buf.WriteRune('\\n')
		}
'''), ('commit.go', '''			fmt.Fprintf(buf, " tagger %s\\n", mtag.tagger.GitString())
''', '''			fmt.Fprintf(&buf, " tagger %s\\n", mtag.tagger.GitString())
'''), ('commit.go', '''		fmt.Fprintf(buf, " \\n%s", mtag.message.x)
''', '''		fmt.Fprintf(&buf, " \\n%s", mtag.message.x)
'''), ('commit.go', '''		fmt.Fprintln(buf, "gpgsig -----BEGIN PGP SIGNATURE-----")
		fmt.Fprint(buf, c.signature.v.x)
		fmt.Fprintln(buf, " -----END PGP SIGNATURE-----")
''', '''		fmt.Fprintln(&buf, "gpgsig -----BEGIN PGP SIGNATURE-----")
		fmt.Fprint(&buf, c.signature.v.x)
		fmt.Fprintln(&buf, " -----END PGP SIGNATURE-----")
'''), ('commit.go', '''		fmt.Fprintln(buf, line.x)
''', '''		fmt.Fprintln(&buf, line.x)
'''), ('commit.go', '''	fmt.Fprintf(buf, "\\n%s", c.message.x)
''', '''	fmt.Fprintf(&buf, "\\n%s", c.message.x)
'''), ('commit.go', '''	_, err = fmt.Fprintf(w, "commit %d\\x00", buf.Len())
	if err != nil {
		return err
	}

	_, err = buf.WriteTo(w)
	return err
''', '''	out := strconv.AppendInt([]byte("commit "), int64(buf.Len()), 10)
	out = append(out, 0)
	out = append(out, buf.String()...)
	_, err = io.Copy(w, bytes.NewReader(out))
	return err
'''), ('commit.go', '''	"strings"
''', '''	"strconv"
	"strings"
'''))

ref('person-rewrite', ('personinfo.go', '''	parts := bytes.Split(line, []byte{' '})
	if len(parts) < 3 {
''', '''	var parts [][]byte
	for rest, more := line, true; more; {
		var part []byte
		part, rest, more = bytes.Cut(rest, []byte(" "))
		parts = append(parts, part)
	}
	if len(parts) < 3 {
'''), ('personinfo.go', '''	f := "%s <%s>"
	arg := []any{p.name.x, p.email.x}
	if p.date.x != "" {
		f = f + " %s"
		arg = append(arg, p.date.x)
	}

	if p.timezone.x != "" {
		f = f + " %s"
		arg = append(arg, p.timezone.x)
	}
	return fmt.Sprintf(f, arg...)
''', '''	out := []string{p.name.x, "<" + p.email.x + ">"}
	for _, s := range [...]_String{p.date, p.timezone} {
		if s.x != "" {
			out = append(out, s.x)
		}
	}
	return strings.Join(out, " ")
'''))

ref('commit-ifchain', ('commit.go', '''	switch {
	case bytes.HasPrefix(line, []byte("tree ")):
		sha, err := hex.DecodeString(string(line[5:]))
		if err != nil {
			return nil, err
		}

		treeCid, err := shaToCid(sha)
		if err != nil {
			return nil, err
		}

		c.tree = _Tree_Link{cidlink.Link{Cid: treeCid}}
	case bytes.HasPrefix(line, []byte("parent ")):
		psha, err := hex.DecodeString(string(line[7:]))
		if err != nil {
			return nil, err
		}

		parentCid, err := shaToCid(psha)
		if err != nil {
			return nil, err
		}

		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})
	case''', '''	link := func(at int) (cidlink.Link, error) {
		sha := make([]byte, hex.DecodedLen(len(line)-at))
		if _, err := hex.Decode(sha, line[at:]); err != nil {
			return cidlink.Link{}, err
		}
		c, err := shaToCid(sha)
		return cidlink.Link{Cid: c}, err
	}
	if rest, ok := strings.CutPrefix(string(line), "tree "); ok {
		l, err := link(len(line) - len(rest))
		if err != nil {
			return nil, err
		}
		c.tree = _Tree_Link{l}
		return nil, nil
	}
	if strings.HasPrefix(string(line), "parent ") {
		l, err := link(len("parent "))
		if err != nil {
			return nil, err
		}
		c.parents.x = append(c.parents.x, _Commit_Link{l})
		return nil, nil
	}
	switch {
	case'''))

ref('blob-readfull', ('blob.go', '''	var buf bytes.Buffer
	buf.WriteString(prefix)

	n, err := io.Copy(&buf, io.LimitReader(rd, int64(sizen)))
	if err != nil {
		return err
	}

	// Match io.ReadFull: EOF if the body was entirely absent, ErrUnexpectedEOF
	// if it was short.
	if n != int64(sizen) {
		if n == 0 {
			return io.EOF
		}
		return io.ErrUnexpectedEOF
	}

	return na.AssignBytes(buf.Bytes())
''', '''	buf := []byte(prefix)
	for n := 0; n < sizen; {
		step := min(sizen-n, max(512, n))
		buf = slices.Grow(buf, step)
		m, err := io.ReadFull(rd, buf[len(buf):len(buf)+step])
		buf = buf[:len(buf)+m]
		n += m
		if err == io.EOF && n > 0 {
			err = io.ErrUnexpectedEOF
		}
		if err != nil {
			return err
		}
	}
	return na.AssignBytes(buf)
'''), ('blob.go', '''	"bytes"
	"fmt"
	"io"
''', '''	"fmt"
	"io"
	"slices"
'''))

ref('tree-peek', ('tree.go', '''	sha := make([]byte, 20)
	_, err = io.ReadFull(rd, sha)
	if err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return "", nil, err
	}
''', '''	var raw [gitSHALen]byte
	for i := range raw {
		b, err := rd.ReadByte()
		if errors.Is(err, io.EOF) {
			return "", nil, io.ErrUnexpectedEOF
		} else if err != nil {
			return "", nil, err
		}
		raw[i] = b
	}
	sha := raw[:]
'''), ('tree.go', '''	_, err = fmt.Fprintf(w, "%s %s\\x00", ms, name)
	if err != nil {
		return err
	}

	hal, err := ha.AsLink()
	if err != nil {
		return err
	}
	hash, err := sha(hal)
	if err != nil {
		return err
	}
	_, err = w.Write(hash)
	if err != nil {
		return err
	}

	return nil
''', '''	hal, err := ha.AsLink()
	if err != nil {
		return err
	}
	hash, err := sha(hal)
	if err != nil {
		return err
	}
	for _, part := range []string{ms, " ", name, "\\x00", string(hash)} {
		if _, err := io.WriteString(w, part); err != nil {
			return err
		}
	}
	return nil
'''), ('tree.go', '	"bytes"\n', '	"bytes"\n	"errors"\n'))

ref('tag-fields', ('tag.go', '''	tt, err := n.LookupByString("type")
	if err != nil {
		return err
	}
	ttStr, err := tt.AsString()
	if err != nil {
		return err
	}

	tag, err := n.LookupByString("tag")
	if err != nil {
		return err
	}
	tagStr, err := tag.AsString()
	if err != nil {
		return err
	}

	message, err := n.LookupByString("message")
	if err != nil {
		return err
	}
	messageStr, err := message.AsString()
	if err != nil {
		return err
	}
''', '''	fields := map[string]string{}
	for _, k := range []string{"message", "tag", "type"} {
		v, err := n.LookupByString(k)
		if err != nil {
			return err
		}
		if fields[k], err = v.AsString(); err != nil {
			return err
		}
	}
	ttStr, tagStr, messageStr := fields["type"], fields["tag"], fields["message"]
'''), ('tag.go', '''	if _, err := fmt.Fprintf(w, "tag %d\\x00", buf.Len()); err != nil {
		return err
	}
	_, err = buf.WriteTo(w)
	return err
''', '''	bw := bufio.NewWriter(w)
	fmt.Fprintf(bw, "tag %d\\x00", buf.Len())
	bw.Write(buf.Bytes())
	return bw.Flush()
'''))

ref('pooled', ('commit.go', '''	buf := new(bytes.Buffer)

''', '''	buf := bufs.Get().(*bytes.Buffer)
	defer bufs.Put(buf)
	buf.Reset()

'''), ('commit.go', '''const prefixMergetag''', '''var bufs = sync.Pool{New: func() any { return new(bytes.Buffer) }}

const prefixMergetag'''), ('commit.go', '	"strings"\n', '	"strings"\n	"sync"\n'),
 ('util.go', '''	h, err := mh.Encode(sha, mh.SHA1)
	if err != nil {
		return cid.Undef, err
	}
	return cid.NewCidV1(cid.GitRaw, h), nil
''', '''	key := [gitSHALen]byte(sha)
	if c, ok := known.Load(key); ok {
		return c.(cid.Cid), nil
	}
	h, err := mh.Encode(sha, mh.SHA1)
	if err != nil {
		return cid.Undef, err
	}
	c := cid.NewCidV1(cid.GitRaw, h)
	known.Store(key, c)
	return c, nil
'''), ('util.go', 'func shaToCid', 'var known sync.Map\n\nfunc shaToCid'), ('util.go', '	"fmt"\n', '	"fmt"\n	"sync"\n'))

ref('gen-helpers', ('ipldsch_satisfaction.go', '''	l := 9
	if rn.author.m == schema.Maybe_Absent {
		l--
	}
	if rn.committer.m == schema.Maybe_Absent {
		l--
	}
	if rn.encoding.m == schema.Maybe_Absent {
		l--
	}
	if rn.signature.m == schema.Maybe_Absent {
		l--
	}
	return int64(l)
''', '''	l := int64(5)
	for _, m := range []schema.Maybe{rn.signature.m, rn.encoding.m, rn.author.m, rn.committer.m} {
		if m != schema.Maybe_Absent {
			l++
		}
	}
	return l
'''), ('ipldsch_satisfaction.go', '''	na.w.m = make(map[_String]*_TreeEntry, sizeHint)
	na.w.t = make([]_Tree__entry, 0, sizeHint)
	return na, nil
}
func (_Tree__Assembler) BeginList''', '''	na.w.m = map[_String]*_TreeEntry{}
	na.w.t = nil
	return na, nil
}
func (_Tree__Assembler) BeginList'''), ('ipldsch_satisfaction.go', '''	switch key {
	case "tree":
		return n.tree.Representation(), nil
	case "parents":
		return n.parents.Representation(), nil
	case "message":
		return n.message.Representation(), nil
''', '''	if get, ok := map[string]func() ipld.Node{
		"message": n.message.Representation,
		"tree":    n.tree.Representation,
		"parents": n.parents.Representation,
	}[key]; ok {
		return get(), nil
	}
	switch key {
'''))

ref('init-once', ('init.go', '''func init() {
	mc.RegisterEncoder(cid.GitRaw, Encode)
	mc.RegisterDecoder(cid.GitRaw, Decode)
}''', '''var register sync.Once

func init() {
	register.Do(func() {
		code := uint64(cid.GitRaw)
		mc.RegisterDecoder(code, func(na ipld.NodeAssembler, r io.Reader) error { return Decode(na, r) })
		mc.RegisterEncoder(code, Encode)
	})
}'''), ('init.go', 'import (\n', 'import (\n	"io"\n	"sync"\n\n'))

ref('size-parse', ('helper.go', '''	lstr, err := rd.ReadString(0)
	if err != nil {
		return 0, err
	}
	lstr = lstr[:len(lstr)-1]

	return strconv.Atoi(lstr)
''', '''	lstr, err := rd.ReadBytes(0)
	if err != nil {
		return 0, err
	}
	n, err := strconv.ParseInt(strings.TrimSuffix(string(lstr), "\\x00"), 10, strconv.IntSize)
	if err != nil {
		var ne *strconv.NumError
		if errors.As(err, &ne) {
			ne.Func = "Atoi"
		}
		return 0, err
	}
	return int(n), nil
'''))

ref('mtag-closure', ('tag.go', '''			var msg strings.Builder
			for {
				line, err := readLine(rd)
				if err != nil {
					out.message.x = msg.String()
					return nil, nil, err
				}

				if !bytes.HasPrefix(line, []byte(" ")) {
					out.message.x = msg.String()
					return &out, line, nil
				}

				msg.WriteString(string(line) + "\\n")
			}
''', '''			var lines [][]byte
			next := func() ([]byte, bool, error) {
				l, err := readLine(rd)
				return l, err == nil && len(l) > 0 && l[0] == ' ', err
			}
			for {
				line, cont, err := next()
				if err != nil {
					return nil, nil, err
				}
				if !cont {
					if lines != nil {
						out.message.x = string(bytes.Join(lines, []byte("\\n"))) + "\\n"
					}
					return &out, line, nil
				}
				lines = append(lines, line)
			}
'''), ('tag.go', '	"strings"\n', ''))

# ---- second batch: other language and library features ----

PERSON_BODY = open('/repo/personinfo.go').read()
PERSON_BODY = PERSON_BODY[PERSON_BODY.index('	parts := bytes.Split'):PERSON_BODY.index('func (p _PersonInfo) GitString')]

ref('person-regexp', ('personinfo.go', PERSON_BODY, '''	m := personRE.FindSubmatch(line)
	if m == nil {
		return nil, fmt.Errorf("invalid personInfo: %q", line)
	}
	return &_PersonInfo{
		name:     _String{string(m[1])},
		email:    _String{strings.ReplaceAll(string(m[2]), " <", " ")},
		date:     _String{string(m[3])},
		timezone: _String{string(m[4])},
	}, nil
}

// the name ends at the first word that starts with '<', the email at the first
// word that ends with '>'
var personRE = regexp.MustCompile(`(?s)^[^ ]*(?: (.*?))?? <(.*?)>(?: ([^ ]*)(?: ([^ ]*)(?: .*)?)?)?$`)

'''))

ref('person-seq', ('personinfo.go', '''	parts := bytes.Split(line, []byte{' '})
''', '''	var parts [][]byte
	for p := range bytes.SplitSeq(line, []byte(" ")) {
		parts = append(parts, p)
	}
'''))

ref('errors-wrap', ('unmarshal.go', '''	if err := decode(na, rd); err != nil {
		return nil, err
	}
''', '''	if err := decode(na, rd); err != nil {
		return nil, fmt.Errorf("decoding %s: %w", typ, err)
	}
'''), ('commit.go', '''		a, err := parsePersonInfo(line)
		if err != nil {
			return nil, err
		}
''', '''		a, err := parsePersonInfo(line)
		if err != nil {
			return nil, fmt.Errorf("author: %w", err)
		}
'''), ('tree.go', '''		if err := encodeTreeEntry(name, te, buf); err != nil {
			return err
		}
''', '''		if err := encodeTreeEntry(name, te, buf); err != nil {
			return fmt.Errorf("entry %q: %w", name, err)
		}
'''), ('blob.go', '''	sizen, err := readNullTerminatedNumber(rd)
	if err != nil {
		return err
	}
''', '''	sizen, err := readNullTerminatedNumber(rd)
	if err != nil {
		return fmt.Errorf("blob size: %w", err)
	}
'''))

ref('generic-hash', ('commit.go', '''		sha, err := hex.DecodeString(string(line[5:]))
		if err != nil {
			return nil, err
		}

		treeCid, err := shaToCid(sha)
		if err != nil {
			return nil, err
		}

		c.tree = _Tree_Link{cidlink.Link{Cid: treeCid}}
''', '''		l, err := linkOf(line[5:], func(l ipld.Link) _Tree_Link { return _Tree_Link{l} })
		if err != nil {
			return nil, err
		}
		c.tree = l
'''), ('commit.go', '''		psha, err := hex.DecodeString(string(line[7:]))
		if err != nil {
			return nil, err
		}

		parentCid, err := shaToCid(psha)
		if err != nil {
			return nil, err
		}

		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})
''', '''		l, err := linkOf(line[7:], func(l ipld.Link) _Commit_Link { return _Commit_Link{l} })
		if err != nil {
			return nil, err
		}
		c.parents.x = slices.Concat(c.parents.x, []_Commit_Link{l})
'''), ('commit.go', '''func decodeGpgSig(''', '''func linkOf[T _Tree_Link | _Commit_Link](digits []byte, mk func(ipld.Link) T) (T, error) {
	var zero T
	sha, err := hex.AppendDecode(nil, digits)
	if err != nil {
		return zero, err
	}
	c, err := shaToCid(sha)
	if err != nil {
		return zero, err
	}
	return mk(cidlink.Link{Cid: c}), nil
}

func decodeGpgSig('''))

ref('tag-readall', ('tag.go', '''	out := _Tag{}

	for {
		line, err := readLine(rd)
		if err != nil {
			if err == io.EOF {
				break
			}
			return err
		}

		switch {
		case bytes.HasPrefix(line, []byte("object ")):
			sha, err := hex.DecodeString(string(line[tagObjectPrefixLen:]))
''', '''	out := _Tag{}

	data, err := io.ReadAll(rd)
	if err != nil {
		return err
	}
	for len(data) > 0 {
		var line []byte
		line, data, _ = bytes.Cut(data, []byte{'\\n'})

		switch {
		case bytes.HasPrefix(line, []byte("object ")):
			sha, err := hex.DecodeString(string(line[tagObjectPrefixLen:]))
'''), ('tag.go', '''			rest, err := io.ReadAll(rd)
			if err != nil {
				return err
			}

			out.message = _String{string(rest)}
''', '''			out.message = _String{string(data)}
			data = nil
'''))

ref('tree-slices', ('tree.go', '''	sha := make([]byte, 20)
	_, err = io.ReadFull(rd, sha)
	if err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return "", nil, err
	}

	c, err := shaToCid(sha)
''', '''	var sha [20]byte
	if _, err := io.ReadFull(rd, sha[:]); errors.Is(err, io.EOF) {
		return "", nil, io.ErrUnexpectedEOF
	} else if err != nil {
		return "", nil, err
	}

	c, err := shaToCid(sha[:])
'''), ('tree.go', '''	mi := n.MapIterator()
	for !mi.Done() {
		key, te, err := mi.Next()
		if err != nil {
			return err
		}
		name, err := key.AsString()
		if err != nil {
			return err
		}
		if err := encodeTreeEntry(name, te, buf); err != nil {
			return err
		}
	}
''', '''	for key, te := range entries(n) {
		name, err := key.AsString()
		if err != nil {
			return err
		}
		if err := encodeTreeEntry(name, te, buf); err != nil {
			return err
		}
	}
'''), ('tree.go', '''func encodeTreeEntry(''', '''func entries(n ipld.Node) iter.Seq2[ipld.Node, ipld.Node] {
	return func(yield func(ipld.Node, ipld.Node) bool) {
		for mi := n.MapIterator(); !mi.Done(); {
			k, v, err := mi.Next()
			if err != nil || !yield(k, v) {
				return
			}
		}
	}
}

func encodeTreeEntry('''))

ref('encode-append', ('tag.go', '''	buf := new(bytes.Buffer)
	fmt.Fprintf(buf, "object %s\\n", hex.EncodeToString(objSha))
	fmt.Fprintf(buf, "type %s\\n", ttStr)
	fmt.Fprintf(buf, "tag %s\\n", tagStr)
''', '''	buf := new(bytes.Buffer)
	b := buf.AvailableBuffer()
	b = append(b, "object "...)
	b = hex.AppendEncode(b, objSha)
	b = fmt.Appendf(b, "\\ntype %v\\n", ttStr)
	b = append(append(append(b, "tag "...), tagStr...), '\\n')
	buf.Write(b)
'''), ('personinfo.go', '''	f := "%s <%s>"
	arg := []any{p.name.x, p.email.x}
	if p.date.x != "" {
		f = f + " %s"
		arg = append(arg, p.date.x)
	}

	if p.timezone.x != "" {
		f = f + " %s"
		arg = append(arg, p.timezone.x)
	}
	return fmt.Sprintf(f, arg...)
''', '''	parts := []string{p.name.x, "<" + p.email.x + ">", p.date.x, p.timezone.x}
	out := slices.Concat(parts[:2], slices.DeleteFunc(parts[2:], func(s string) bool { return len(s) == 0 }))
	return strings.Join(out, " ")
'''))

ref('header-scan', ('helper.go', '''	lstr, err := rd.ReadString(0)
	if err != nil {
		return 0, err
	}
	lstr = lstr[:len(lstr)-1]

	return strconv.Atoi(lstr)
''', '''	var digits []byte
	for {
		b, err := rd.ReadByte()
		if err != nil {
			return 0, err
		}
		if b == 0 {
			break
		}
		digits = append(digits, b)
	}
	n, err := strconv.ParseInt(string(digits), 10, strconv.IntSize)
	return int(n), err
'''), ('marshal.go', '''	switch n.Prototype() {
	case Type.Blob, Type.Blob__Repr:
		return encodeBlob(n, w)
	case Type.Commit, Type.Commit__Repr:
		return encodeCommit(n, w)
	case Type.Tree, Type.Tree__Repr:
		return encodeTree(n, w)
	case Type.Tag, Type.Tag__Repr:
		return encodeTag(n, w)
	default:
	}
''', '''	for _, e := range [...]struct {
		typed, repr ipld.NodePrototype
		encode      func(ipld.Node, io.Writer) error
	}{
		{Type.Blob, Type.Blob__Repr, encodeBlob},
		{Type.Commit, Type.Commit__Repr, encodeCommit},
		{Type.Tree, Type.Tree__Repr, encodeTree},
		{Type.Tag, Type.Tag__Repr, encodeTag},
	} {
		if p := n.Prototype(); p == e.typed || p == e.repr {
			return e.encode(n, w)
		}
	}
'''))

# ---- third batch ----
def whole(f, start):
    """the function of f that starts so"""
    s = open('/repo/' + f).read()
    i = s.index(start)
    return s[i:s.index('\n}\n', i) + 3]

def body_tag_loop():
    s = open('/repo/tag.go').read()
    i = s.index('\tfor {\n')
    return s[i:s.index('\n\t}\n', i) + 4]

ref('modern-commit', ('commit.go', whole('commit.go', 'func decodeCommitLine('), """type lineHandler func(c Commit, rest, line []byte, rd *bufio.Reader) ([]byte, error)

func onHash(set func(Commit, cidlink.Link)) lineHandler {
	return func(c Commit, rest, _ []byte, _ *bufio.Reader) ([]byte, error) {
		dst := make([]byte, hex.DecodedLen(len(rest)))
		n, err := hex.Decode(dst, rest)
		if err != nil {
			return nil, err
		}
		l, err := shaToCid(dst[:n])
		if err != nil {
			return nil, err
		}
		set(c, cidlink.Link{Cid: l})
		return nil, nil
	}
}

func onPerson(at func(Commit) *_PersonInfo__Maybe) lineHandler {
	return func(c Commit, _, line []byte, _ *bufio.Reader) ([]byte, error) {
		p, err := parsePersonInfo(line)
		if err == nil {
			*at(c) = _PersonInfo__Maybe{m: schema.Maybe_Value, v: p}
		}
		return nil, err
	}
}

var lineHandlers = []struct {
	prefix string
	handle lineHandler
}{
	{"tree ", onHash(func(c Commit, l cidlink.Link) { c.tree = _Tree_Link{l} })},
	{"parent ", onHash(func(c Commit, l cidlink.Link) { c.parents.x = append(c.parents.x, _Commit_Link{l}) })},
	{"author ", onPerson(func(c Commit) *_PersonInfo__Maybe { return &c.author })},
	{"committer ", onPerson(func(c Commit) *_PersonInfo__Maybe { return &c.committer })},
	{"encoding ", func(c Commit, rest, _ []byte, _ *bufio.Reader) ([]byte, error) {
		c.encoding.m, c.encoding.v.x = schema.Maybe_Value, string(rest)
		return nil, nil
	}},
	{"mergetag object ", func(c Commit, rest, _ []byte, rd *bufio.Reader) ([]byte, error) {
		sha, err := hex.AppendDecode(nil, rest)
		if err != nil {
			return nil, err
		}
		mt, next, err := readMergeTag(sha, rd)
		if err != nil {
			return nil, err
		}
		c.mergetag.x = append(c.mergetag.x, *mt)
		return next, nil
	}},
}

func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) ([]byte, error) {
	if i := slices.IndexFunc(lineHandlers, func(h struct {
		prefix string
		handle lineHandler
	}) bool {
		return strings.HasPrefix(string(line), h.prefix)
	}); i >= 0 {
		h := lineHandlers[i]
		rest, _ := bytes.CutPrefix(line, []byte(h.prefix))
		return h.handle(c, rest, line, rd)
	}
	switch string(line) {
	case "gpgsig -----BEGIN PGP SIGNATURE-----":
		sig, err := decodeGpgSig(rd)
		if err != nil {
			return nil, err
		}
		c.signature = _GpgSig__Maybe{m: schema.Maybe_Value, v: sig}
	case "":
		rest, err := io.ReadAll(rd)
		if err != nil {
			return nil, err
		}
		c.message = _String{string(rest)}
	default:
		c.other.x = append(c.other.x, _String{string(line)})
	}
	return nil, nil
}
"""), ('commit.go', whole('commit.go', 'func encodeCommit('), """func encodeCommit(n ipld.Node, w io.Writer) (err error) {
	ci := Type.Commit__Repr.NewBuilder()
	if err := ci.AssignNode(n); err != nil {
		return fmt.Errorf("not a Commit: %T %w", n, err)
	}
	c := ci.Build().(Commit)

	var b []byte
	hash := func(key string, sha []byte, e error) {
		if err == nil {
			err = e
		}
		b = append(b, key...)
		b = append(hex.AppendEncode(b, sha), '\\n')
	}
	person := func(key string, p interface{ GitString() string }) {
		b = fmt.Appendln(b, key, p.GitString())
	}
	sha, e := c.tree.sha()
	hash("tree ", sha, e)
	for i := range c.parents.x {
		sha, e := c.parents.x[i].sha()
		hash("parent ", sha, e)
	}
	if c.author.Exists() {
		person("author", c.author.Must())
	}
	if c.committer.Exists() {
		person("committer", c.committer.Must())
	}
	if c.encoding.m == schema.Maybe_Value {
		b = append(b, strings.Join([]string{"encoding ", c.encoding.v.x, "\\n"}, "")...)
	}
	for i := range len(c.mergetag.x) {
		m := &c.mergetag.x[i]
		sha, e := m.object.sha()
		hash("mergetag object ", sha, e)
		for _, kv := range [][2]string{{"type", m.typ.x}, {"tag", m.tag.x}} {
			b = fmt.Appendf(b, " %s %s\\n", kv[0], kv[1])
		}
		if m.tagger != (_PersonInfo{}) {
			person(" tagger", m.tagger)
		}
		b = append(append(b, " \\n"...), m.message.x...)
	}
	if c.signature.m == schema.Maybe_Value {
		b = slices.Concat(b, []byte("gpgsig -----BEGIN PGP SIGNATURE-----\\n"), []byte(c.signature.v.x), []byte(" -----END PGP SIGNATURE-----\\n"))
	}
	for _, l := range c.other.x {
		b = append(b, l.x+"\\n"...)
	}
	b = append(b, '\\n')
	b = append(b, c.message.x...)
	if err != nil {
		return err
	}
	bw := bufio.NewWriter(w)
	defer func() {
		if e := bw.Flush(); err == nil {
			err = e
		}
	}()
	if _, err := io.WriteString(bw, "commit "+strconv.FormatInt(int64(len(b)), 10)+"\\x00"); err != nil {
		return err
	}
	_, err = bw.Write(b)
	return err
}
"""))

ref('tree-whole', ('tree.go', whole('tree.go', 'func DecodeTree('), """func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
	if _, err := readNullTerminatedNumber(rd); err != nil {
		return err
	}
	body, err := io.ReadAll(rd)
	if err != nil {
		return err
	}
	t := Type.Tree__Repr.NewBuilder()
	ma, err := t.BeginMap(int64(len(body) / 60))
	if err != nil {
		return err
	}
	for len(body) > 0 {
		mode, rest, ok1 := bytes.Cut(body, []byte(" "))
		name, rest, ok2 := bytes.Cut(rest, []byte{0})
		if !ok1 || !ok2 || len(rest) < 20 {
			return io.ErrUnexpectedEOF
		}
		c, err := shaToCid(bytes.Clone(rest[:20]))
		if err != nil {
			return err
		}
		body = rest[20:]
		ee, err := ma.AssembleEntry(string(name))
		if err != nil {
			return err
		}
		if err := ee.AssignNode(&_TreeEntry{mode: _String{string(mode)}, hash: _Link{cidlink.Link{Cid: c}}}); err != nil {
			return err
		}
	}
	if err := ma.Finish(); err != nil {
		return err
	}
	return na.AssignNode(t.Build())
}
"""), ('tree.go', whole('tree.go', 'func encodeTree('), """type counter int

func (c *counter) Write(p []byte) (int, error) { *c += counter(len(p)); return len(p), nil }

func encodeTree(n ipld.Node, w io.Writer) error {
	type item struct {
		name  string
		entry ipld.Node
	}
	var items []item
	for mi := n.MapIterator(); !mi.Done(); {
		k, v, err := mi.Next()
		if err != nil {
			return err
		}
		name, err := k.AsString()
		if err != nil {
			return err
		}
		items = append(items, item{name, v})
	}
	var size counter
	var buf bytes.Buffer
	both := io.MultiWriter(&size, &buf)
	for _, it := range items {
		if err := encodeTreeEntry(it.name, it.entry, both); err != nil {
			return err
		}
	}
	_, err := io.Copy(w, io.MultiReader(strings.NewReader(fmt.Sprint("tree ", int(size), "\\x00")), &buf))
	return err
}
"""))

ref('tag-scanner', ('tag.go', body_tag_loop(), """	scan := bufio.NewScanner(rd)
	scan.Buffer(nil, math.MaxInt)
	inMessage := false
	scan.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		if inMessage {
			if atEOF && len(data) > 0 {
				return len(data), data, nil
			}
			return 0, nil, nil
		}
		if i := bytes.IndexByte(data, '\\n'); i >= 0 {
			return i + 1, data[:i:i], nil
		}
		if atEOF && len(data) > 0 {
			return len(data), data, nil
		}
		return 0, nil, nil
	})
	fail := func(err error) error {
		if e := scan.Err(); e != nil {
			return e
		}
		return err
	}
	for scan.Scan() {
		line := scan.Text()
		if inMessage {
			out.message = _String{line}
			break
		}
		key, value, _ := strings.Cut(line, " ")
		if line == "" {
			inMessage = true
			continue
		}
		if len(key) == len(line) {
			key = ""
		}
		switch key {
		case "object":
			sha, err := hex.DecodeString(value)
			if err != nil {
				return fail(err)
			}
			c, err := shaToCid(sha)
			if err != nil {
				return fail(err)
			}
			out.object = _Link{cidlink.Link{Cid: c}}
		case "tag":
			out.tag = _String{value}
		case "tagger":
			c, err := parsePersonInfo([]byte(line))
			if err != nil {
				return fail(err)
			}
			out.tagger = *c
		case "type":
			out.typ = _String{value}
		default:
			fmt.Println("unhandled line: ", line)
		}
	}
	if err := scan.Err(); err != nil {
		return err
	}
"""))

ref('blob-pieces', ('blob.go', """	var buf bytes.Buffer
	buf.WriteString(prefix)

	n, err := io.Copy(&buf, io.LimitReader(rd, int64(sizen)))
	if err != nil {
		return err
	}
""", """	pieces := [][]byte{[]byte(prefix)}
	n := int64(0)
	for n < int64(sizen) {
		p := make([]byte, min(int64(sizen)-n, 4000))
		k, err := rd.Read(p)
		pieces = append(pieces, p[:k])
		n += int64(k)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
	}
"""), ('blob.go', 'na.AssignBytes(buf.Bytes())', 'na.AssignBytes(slices.Concat(pieces...))'))


env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', VERIF_SEED='1')
d = '/tmp/refac%d' % os.getpid()
os.makedirs(d + '/verif/evidence')
subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
for x in ('harness', 'checks.json', 'known_findings.json'):
    subprocess.run(['cp', '-a', V + '/' + x, d + '/verif/'], check=True)
p = d + '/verif/harness/go.mod'
s = open(p).read().replace('=> /repo', '=> ' + d + '/repo'); open(p, 'w').write(s)
r = d + '/repo'
try:
    for name in sys.argv[1:] or R:
        ok = True
        for f, a, b in R[name]:
            s = open(r + '/' + f).read()
            if s.count(a) != 1: print(name, 'EDIT', f, s.count(a), a[:60]); ok = False; continue
            open(r + '/' + f, 'w').write(s.replace(a, b))
        for f in set(e[0] for e in R[name]): # imports that a rewrite leaves unused or needs
            subprocess.run(['goimports', '-w', r + '/' + f], cwd=r, env=env)
        o = subprocess.run('gofmt -l . ; go build ./... && go test ./...', shell=True, cwd=r, env=env, capture_output=True, text=True)
        if o.returncode: print(name, 'BUILD/TEST', o.stdout[-300:], o.stderr[-500:]); ok = False
        if ok:
            t0 = time.time()
            for c in (os.environ.get('C') or ' '.join('C%02d' % k for k in range(1, 24))).split():
                t = time.time()
                o = subprocess.run([V + '/bin/engine', '-verif', d + '/verif', '-prop', c, '-tier', 'quick', '-workers', os.environ.get('W', '8'), '-budget', '300'], env=env, cwd=d, capture_output=True, text=True)
                out = o.stdout + o.stderr
                if o.returncode or 'not exhausted' in out or time.time() - t > 150:
                    print(name, c, 'rc=%d %.0fs' % (o.returncode, time.time() - t), out[-500:], flush=True)
            print(name, 'done %.0fs' % (time.time() - t0), flush=True)
        subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'], check=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
