From a432460d69d28e6a5feed58346b51a7be44551c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:51 +0000
Subject: [PATCH 01/20] fix: keep carriage returns and long lines when decoding
 commits and tags

bufio.Reader.ReadLine drops a trailing CR and splits lines longer than its
4096-byte buffer, so such header, signature and mergetag lines were altered,
misread as further headers or rejected. The person name is now accumulated in
a builder since the line length is no longer capped.
---
 commit.go     |  6 +++---
 helper.go     | 17 +++++++++++++++++
 personinfo.go | 12 ++++++------
 tag.go        |  6 +++---
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/commit.go b/commit.go
index 44e133e..d61a643 100644
--- a/commit.go
+++ b/commit.go
@@ -25,7 +25,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -125,7 +125,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, _, err := rd.ReadLine()
+	line, err := readLine(rd)
 	if err != nil {
 		return out, err
 	}
@@ -145,7 +145,7 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
diff --git a/helper.go b/helper.go
index 602cefe..8a5060b 100644
--- a/helper.go
+++ b/helper.go
@@ -51,3 +51,20 @@ func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 
 	return strconv.Atoi(lstr)
 }
+
+// readLine reads up to and including the next newline and returns the line
+// without it; a last line that has no newline is returned as it is, and io.EOF
+// only when there is nothing left. Unlike bufio.Reader.ReadLine it neither
+// strips a trailing carriage return nor splits lines longer than the buffer:
+// both are content that has to survive decoding. The returned slice is not
+// reused by later reads.
+func readLine(rd *bufio.Reader) ([]byte, error) {
+	line, err := rd.ReadBytes('\n')
+	if err == nil {
+		return line[:len(line)-1], nil
+	}
+	if err == io.EOF && len(line) > 0 {
+		return line, nil
+	}
+	return nil, err
+}
diff --git a/personinfo.go b/personinfo.go
index be7e182..3b646a6 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -17,7 +17,7 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	at := 1
 
 	var pi _PersonInfo
-	var name string
+	var name strings.Builder
 
 	for {
 		if at == len(parts) {
@@ -28,14 +28,14 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 			if part[0] == '<' {
 				break
 			}
-			name += string(part) + " "
-		} else if len(name) > 0 {
-			name += " "
+			name.WriteString(string(part) + " ")
+		} else if name.Len() > 0 {
+			name.WriteString(" ")
 		}
 		at++
 	}
-	if len(name) != 0 {
-		pi.name = _String{name[:len(name)-1]}
+	if name.Len() != 0 {
+		pi.name = _String{name.String()[:name.Len()-1]}
 	}
 
 	var email strings.Builder
diff --git a/tag.go b/tag.go
index ff6c544..9608438 100644
--- a/tag.go
+++ b/tag.go
@@ -26,7 +26,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -82,7 +82,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	}
 	out.object = _Link{cidlink.Link{Cid: objCid}}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -106,7 +106,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 			// repeated string concatenation would copy it on every line.
 			var msg strings.Builder
 			for {
-				line, _, err := rd.ReadLine()
+				line, err := readLine(rd)
 				if err != nil {
 					out.message.x = msg.String()
 					return nil, nil, err
-- 
2.43.0


From 4660de35a39eaa924bc2791dfea12b66cb9328a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 02/20] fix: keep leading spaces of person names

A name starting with spaces lost them, so the commit or tag re-encoded to
different bytes.
---
 personinfo.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/personinfo.go b/personinfo.go
index 3b646a6..4222843 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -24,14 +24,11 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 			return nil, fmt.Errorf("invalid personInfo: %q", line)
 		}
 		part := parts[at]
-		if len(part) != 0 {
-			if part[0] == '<' {
-				break
-			}
-			name.WriteString(string(part) + " ")
-		} else if name.Len() > 0 {
-			name.WriteString(" ")
+		if len(part) != 0 && part[0] == '<' {
+			break
 		}
+		// Empty parts come from repeated spaces, which belong to the name.
+		name.WriteString(string(part) + " ")
 		at++
 	}
 	if name.Len() != 0 {
-- 
2.43.0


From 9e61011a2b83470d852664dae1a3b2420ef001aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:07 +0000
Subject: [PATCH 03/20] fix: do not invent a tagger line for tags that have
 none

Tags made by early git versions have no tagger; they re-encoded with an
added "tagger  <>" line, on their own and as a commit's mergetag.
---
 commit.go | 7 +++++--
 tag.go    | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index d61a643..78fd449 100644
--- a/commit.go
+++ b/commit.go
@@ -184,8 +184,11 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
-		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
-		fmt.Fprintf(buf, "%s", mtag.message.x)
+		// a mergetag without a tagger line decodes to an empty tagger
+		if mtag.tagger != (_PersonInfo{}) {
+			fmt.Fprintf(buf, " tagger %s\n", mtag.tagger.GitString())
+		}
+		fmt.Fprintf(buf, " \n%s", mtag.message.x)
 	}
 	if c.signature.m == schema.Maybe_Value {
 		fmt.Fprintln(buf, "gpgsig -----BEGIN PGP SIGNATURE-----")
diff --git a/tag.go b/tag.go
index 9608438..1f40213 100644
--- a/tag.go
+++ b/tag.go
@@ -177,7 +177,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		if !ok {
 			return fmt.Errorf("could not parse tagger person info %v", tagger)
 		}
-		fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		// a tag without a tagger line decodes to an empty tagger
+		if *parsed != (_PersonInfo{}) {
+			fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		}
 	}
 	if messageStr != "" {
 		fmt.Fprintf(buf, "\n%s", messageStr)
-- 
2.43.0


From 173eee1b174be5cb0df971b2b90a768c0fee5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 04/20] fix: reject trees that end in the middle of an entry

A tree cut off inside a mode, inside a name or right before a hash decoded
successfully with the partial entry dropped.
---
 tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree.go b/tree.go
index 42959c1..c278d20 100644
--- a/tree.go
+++ b/tree.go
@@ -47,12 +47,20 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	data, err := rd.ReadString(' ')
 	if err != nil {
+		if err == io.EOF && len(data) > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 	data = data[:len(data)-1]
 
+	// From here on the entry has begun, so running out of input is an error
+	// and not the end of the tree.
 	name, err := rd.ReadString(0)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 	name = name[:len(name)-1]
@@ -60,6 +68,9 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	sha := make([]byte, 20)
 	_, err = io.ReadFull(rd, sha)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 
-- 
2.43.0


From 10b08fb86638fe2d8c0da4bc3f24be472d85a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 05/20] fix: encode commits without an author or committer

Both fields are optional in the schema, but encoding a commit that lacks one
panicked with a nil dereference.
---
 commit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index 78fd449..f4ff873 100644
--- a/commit.go
+++ b/commit.go
@@ -175,8 +175,12 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	for _, p := range c.parents.x {
 		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
 	}
-	fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
-	fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	if c.author.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
+	}
+	if c.committer.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	}
 	if c.encoding.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
-- 
2.43.0


From 2f3d973dbf65116e7f3aedbd0fb69be14b941c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 06/20] fix: return an error when asked to encode a list

No git object is a list; encoding one panicked because a list has no map
iterator.
---
 marshal.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index d2610e5..d5bcc4a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -23,8 +23,6 @@ func Encode(n ipld.Node, w io.Writer) error {
 	switch n.Kind() {
 	case ipld.Kind_Bytes:
 		return encodeBlob(n, w)
-	case ipld.Kind_List:
-		return encodeTree(n, w)
 	case ipld.Kind_Map:
 		k, _, err := n.MapIterator().Next()
 		if err != nil {
-- 
2.43.0


From e0ee6726e89adec0c4f9ae5187f66e26952f7799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:48 +0000
Subject: [PATCH 07/20] fix: recognise a generic tag node whatever its field
 order

Whether a plain map is a tag was guessed from its first key, which fails for
nodes coming from codecs that sort keys: dag-json puts "message" first.
---
 marshal.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/marshal.go b/marshal.go
index d5bcc4a..63141ca 100644
--- a/marshal.go
+++ b/marshal.go
@@ -24,25 +24,12 @@ func Encode(n ipld.Node, w io.Writer) error {
 	case ipld.Kind_Bytes:
 		return encodeBlob(n, w)
 	case ipld.Kind_Map:
-		k, _, err := n.MapIterator().Next()
-		if err != nil {
-			return err
-		}
-		repKey, err := k.AsString()
-		if err != nil {
-			return err
-		}
-		switch repKey {
-		case
-			"object",
-			"type",
-			"tag",
-			"tagger",
-			"text":
+		// Tags have an object and commits do not; which field comes first
+		// depends on where the node came from.
+		if _, err := n.LookupByString("object"); err == nil {
 			return encodeTag(n, w)
-		default:
-			return encodeCommit(n, w)
 		}
+		return encodeCommit(n, w)
 	default:
 		return fmt.Errorf("unrecognized object type: %T", n.Prototype())
 	}
-- 
2.43.0


From 8dc3212bd23408917c545125431ba21fae4a4318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 08/20] fix: reject links that are not git hashes when encoding

A link whose hash is not a 20-byte sha1 was cut to its last 20 bytes, or made
the encoder panic when shorter; a missing or non-CID link was encoded as an
empty hash or panicked.
---
 commit.go | 20 ++++++++++++++++----
 tag.go    |  7 ++++++-
 tree.go   |  6 +++++-
 util.go   | 45 +++++++++++++++++----------------------------
 4 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/commit.go b/commit.go
index f4ff873..2c772dc 100644
--- a/commit.go
+++ b/commit.go
@@ -171,9 +171,17 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	buf := new(bytes.Buffer)
 
-	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(c.tree.sha()))
+	treeSha, err := c.tree.sha()
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(treeSha))
 	for _, p := range c.parents.x {
-		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
+		psha, err := p.sha()
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(psha))
 	}
 	if c.author.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
@@ -185,7 +193,11 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
 	for _, mtag := range c.mergetag.x {
-		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
+		objSha, err := mtag.object.sha()
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(objSha))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
 		// a mergetag without a tagger line decodes to an empty tagger
@@ -206,7 +218,7 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	// fmt.Printf("encode commit len: %d \n", buf.Len())
 	//	fmt.Printf("out: %s\n", string(buf.Bytes()))
-	_, err := fmt.Fprintf(w, "commit %d\x00", buf.Len())
+	_, err = fmt.Fprintf(w, "commit %d\x00", buf.Len())
 	if err != nil {
 		return err
 	}
diff --git a/tag.go b/tag.go
index 1f40213..588d226 100644
--- a/tag.go
+++ b/tag.go
@@ -134,6 +134,11 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		return err
 	}
 
+	objSha, err := sha(objLnk)
+	if err != nil {
+		return err
+	}
+
 	tt, err := n.LookupByString("type")
 	if err != nil {
 		return err
@@ -164,7 +169,7 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	tagger, taggerErr := n.LookupByString("tagger")
 
 	buf := new(bytes.Buffer)
-	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(sha(objLnk)))
+	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(objSha))
 	fmt.Fprintf(buf, "type %s\n", ttStr)
 	fmt.Fprintf(buf, "tag %s\n", tagStr)
 	if taggerErr == nil && !tagger.IsNull() {
diff --git a/tree.go b/tree.go
index c278d20..67b58cf 100644
--- a/tree.go
+++ b/tree.go
@@ -134,7 +134,11 @@ func encodeTreeEntry(name string, n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.Write(cidToSha(hal.(cidlink.Link).Cid))
+	hash, err := sha(hal)
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(hash)
 	if err != nil {
 		return err
 	}
diff --git a/util.go b/util.go
index e41d58a..0a49045 100644
--- a/util.go
+++ b/util.go
@@ -10,8 +10,7 @@ import (
 )
 
 // gitSHALen is the length of a git object hash. A reference of any other length
-// cannot name a git object, and cidToSha assumes this width when it turns a CID
-// back into one.
+// cannot name a git object.
 const gitSHALen = 20
 
 func shaToCid(sha []byte) (cid.Cid, error) {
@@ -25,39 +24,29 @@ func shaToCid(sha []byte) (cid.Cid, error) {
 	return cid.NewCidV1(cid.GitRaw, h), nil
 }
 
-func cidToSha(c cid.Cid) []byte {
-	h := c.Hash()
-	return h[len(h)-20:]
+// cidToSha returns the git hash a CID names, or an error if it names something
+// that is not identified by a git hash.
+func cidToSha(c cid.Cid) ([]byte, error) {
+	h, err := mh.Decode(c.Hash())
+	if err != nil {
+		return nil, fmt.Errorf("link cannot be encoded as a git sha: %w", err)
+	}
+	if h.Code != mh.SHA1 || len(h.Digest) != gitSHALen {
+		return nil, fmt.Errorf("link %s cannot be encoded as a git sha", c)
+	}
+	return h.Digest, nil
 }
 
-func sha(l ipld.Link) []byte {
+func sha(l ipld.Link) ([]byte, error) {
 	cl, ok := l.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("link of type %T cannot be encoded as a git sha", l)
 	}
 	return cidToSha(cl.Cid)
 }
 
-func (l Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
-}
+func (l Link) sha() ([]byte, error) { return sha(l.x) }
 
-func (l Tree_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
-}
+func (l Tree_Link) sha() ([]byte, error) { return sha(l.x) }
 
-func (l Commit_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
-}
+func (l Commit_Link) sha() ([]byte, error) { return sha(l.x) }
-- 
2.43.0


From c5ebc9367ff26f4adab5121ccce605659f6a136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 09/20] fix: reject commits without a tree and tags without an
 object

They decoded to a node holding a nil link, which readers of a non-optional
field do not expect.
---
 commit.go | 4 ++++
 tag.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/commit.go b/commit.go
index 2c772dc..0236760 100644
--- a/commit.go
+++ b/commit.go
@@ -39,6 +39,10 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if c.tree.x == nil {
+		return fmt.Errorf("invalid commit: no tree")
+	}
+
 	return na.AssignNode(&c)
 }
 
diff --git a/tag.go b/tag.go
index 588d226..0885b5d 100644
--- a/tag.go
+++ b/tag.go
@@ -69,6 +69,10 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if out.object.x == nil {
+		return fmt.Errorf("invalid tag: no object")
+	}
+
 	return na.AssignNode(&out)
 }
 
-- 
2.43.0


From cdf9a0cc7c9edab3feaa966d2601d14adbeaa3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:38 +0000
Subject: [PATCH 10/20] fix: end a mergetag at the first line that does not
 continue it

A mergetag without a message swallowed all following headers and the commit
message.
---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 0885b5d..bec7569 100644
--- a/tag.go
+++ b/tag.go
@@ -123,6 +123,9 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 
 				msg.WriteString(string(line) + "\n")
 			}
+		case !bytes.HasPrefix(line, []byte(" ")):
+			// not a continuation line: the mergetag ended without a message
+			return &out, line, nil
 		}
 	}
 	return &out, nil, nil
-- 
2.43.0


From d4ec7954c8e71f38fba672220cf66b6d0711f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:39 +0000
Subject: [PATCH 11/20] fix: accept commits signed with something other than
 PGP

Commits with SSH or X.509 signatures were rejected or got their armor
rewritten, because any gpgsig header was taken for a PGP signature. Their
lines are now kept among the other headers, from where they re-encode as they
were.
---
 commit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit.go b/commit.go
index 0236760..7f4c5d1 100644
--- a/commit.go
+++ b/commit.go
@@ -107,7 +107,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 				return err
 			}
 		}
-	case bytes.HasPrefix(line, []byte("gpgsig ")):
+	case bytes.Equal(line, []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
 			return err
-- 
2.43.0


From 4cadc7cf27314ced86b7004f1a0cf7359f8e47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:30 +0000
Subject: [PATCH 12/20] fix: decode any number of mergetags in constant stack

Each mergetag header recursed into the decoding of the rest of the commit, so
a large enough commit exhausted the stack, which ends the process.
---
 commit.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/commit.go b/commit.go
index 7f4c5d1..7d9cf91 100644
--- a/commit.go
+++ b/commit.go
@@ -33,9 +33,11 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 			return err
 		}
 
-		err = decodeCommitLine(&c, line, rd)
-		if err != nil {
-			return err
+		for line != nil {
+			line, err = decodeCommitLine(&c, line, rd)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
@@ -46,43 +48,45 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	return na.AssignNode(&c)
 }
 
-func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
+// decodeCommitLine handles one line, and whatever else belongs to it. It returns
+// the following line if finding the end of a header meant reading it, or nil.
+func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) ([]byte, error) {
 	switch {
 	case bytes.HasPrefix(line, []byte("tree ")):
 		sha, err := hex.DecodeString(string(line[5:]))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		treeCid, err := shaToCid(sha)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.tree = _Tree_Link{cidlink.Link{Cid: treeCid}}
 	case bytes.HasPrefix(line, []byte("parent ")):
 		psha, err := hex.DecodeString(string(line[7:]))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		parentCid, err := shaToCid(psha)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})
 	case bytes.HasPrefix(line, []byte("author ")):
 		a, err := parsePersonInfo(line)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.author = _PersonInfo__Maybe{m: schema.Maybe_Value, v: a}
 	case bytes.HasPrefix(line, []byte("committer ")):
 		com, err := parsePersonInfo(line)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.committer = _PersonInfo__Maybe{m: schema.Maybe_Value, v: com}
@@ -91,39 +95,34 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 	case bytes.HasPrefix(line, []byte("mergetag object ")):
 		sha, err := hex.DecodeString(string(line)[prefixMergetag:])
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		mt, rest, err := readMergeTag(sha, rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
-		if rest != nil {
-			err = decodeCommitLine(c, rest, rd)
-			if err != nil {
-				return err
-			}
-		}
+		return rest, nil
 	case bytes.Equal(line, []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		c.signature = _GpgSig__Maybe{m: schema.Maybe_Value, v: sig}
 	case len(line) == 0:
 		rest, err := io.ReadAll(rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.message = _String{string(rest)}
 	default:
 		c.other.x = append(c.other.x, _String{string(line)})
 	}
-	return nil
+	return nil, nil
 }
 
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
-- 
2.43.0


From 1a4c1223c3291d78c34fd5e09fecf1b44d6677b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:31 +0000
Subject: [PATCH 13/20] fix: verify the zlib checksum of compressed blobs

Blobs are read up to their declared size, which stops short of the end of the
compressed stream, so a corrupted or cut-off one was accepted.
---
 helper.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/helper.go b/helper.go
index 8a5060b..2b7582d 100644
--- a/helper.go
+++ b/helper.go
@@ -34,7 +34,16 @@ func ParseCompressedObject(r io.Reader) (ipld.Node, error) {
 	}
 	defer rc.Close()
 
-	return ParseObject(rc)
+	n, err := ParseObject(rc)
+	if err != nil {
+		return nil, err
+	}
+	// A blob is read up to its declared size only: go on to the end of the
+	// stream, where its checksum is verified.
+	if _, err := io.Copy(io.Discard, rc); err != nil {
+		return nil, err
+	}
+	return n, nil
 }
 
 // ParseObjectFromBuffer is like ParseObject, but with a fully in-memory stream
-- 
2.43.0


From 43a3f793247d000e20e74367002b062bd62d853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 14/20] fix: reject tags whose size header is not a number

As already done for every other object type.
---
 tag.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tag.go b/tag.go
index bec7569..4dc4993 100644
--- a/tag.go
+++ b/tag.go
@@ -18,8 +18,7 @@ const tagTypePrefixLen = 5   // "prefix 'type '"
 
 // DecodeTag fills a NodeAssembler (from `Type.Tag__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	_, err := rd.ReadString(0)
-	if err != nil {
+	if _, err := readNullTerminatedNumber(rd); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 4285a407b8b3c130fc24702b1454f30b3383caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 15/20] fix: assign foreign nodes to trees and optional person
 infos

The generated assemblers skip BeginMap when AssignNode is given a node of
another implementation, and so write into a nil map (Tree) or struct (an
optional PersonInfo). Encoding a commit's representation node panicked when it
had an author, and so did decoding a commit or tag into a Tree builder.
---
 ipldsch_satisfaction.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 47301f4..65ef080 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -3301,6 +3301,9 @@ func (na *_PersonInfo__Assembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.PersonInfo", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if _, err := na.BeginMap(v.Length()); err != nil {
+		return err
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
@@ -3830,6 +3833,9 @@ func (na *_PersonInfo__ReprAssembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.PersonInfo.Repr", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if _, err := na.BeginMap(v.Length()); err != nil {
+		return err
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
@@ -6981,6 +6987,9 @@ func (na *_Tree__Assembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.Tree", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if _, err := na.BeginMap(v.Length()); err != nil {
+		return err
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
@@ -7315,6 +7324,9 @@ func (na *_Tree__ReprAssembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.Tree.Repr", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if _, err := na.BeginMap(v.Length()); err != nil {
+		return err
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
-- 
2.43.0


From 3736f49ff38a3fdc6bdee7c0c2bcdf8a3ecc30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:07 +0000
Subject: [PATCH 16/20] fix: looking up a tree entry by a string node of
 another type no longer panics

---
 ipldsch_satisfaction.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 65ef080..5fed713 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -6808,8 +6808,11 @@ func (n Tree) LookupByString(k string) (ipld.Node, error) {
 func (n Tree) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	k2, ok := k.(String)
 	if !ok {
-		panic("todo invalid key type error")
-		// 'ipld.ErrInvalidKey{TypeName:"ipldgit.Tree", Key:&_String{k}}' doesn't quite cut it: need room to explain the type, and it's not guaranteed k can be turned into a string at all
+		ks, err := k.AsString()
+		if err != nil {
+			return nil, err
+		}
+		return n.LookupByString(ks)
 	}
 	v, exists := n.m[*k2]
 	if !exists {
-- 
2.43.0


From 0c4b18e49a3e67a3c2e6f8d37f070a897531905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:09 +0000
Subject: [PATCH 17/20] fix: a negative list index is not found instead of
 panicking

---
 ipldsch_satisfaction.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 5fed713..60ccdb4 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -2015,14 +2015,14 @@ type _Commit_Link__ReprPrototype = _Commit_Link__Prototype
 type _Commit_Link__ReprAssembler = _Commit_Link__Assembler
 
 func (n *_Commit_Link_List) Lookup(idx int64) Commit_Link {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_Commit_Link_List) LookupMaybe(idx int64) MaybeCommit_Link {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -2107,7 +2107,7 @@ func (n Commit_Link_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n Commit_Link_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
@@ -4338,14 +4338,14 @@ type _String__ReprPrototype = _String__Prototype
 type _String__ReprAssembler = _String__Assembler
 
 func (n *_String_List) Lookup(idx int64) String {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_String_List) LookupMaybe(idx int64) MaybeString {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -4430,7 +4430,7 @@ func (n String_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n String_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
@@ -6121,14 +6121,14 @@ func (_Tag__ReprKeyAssembler) Prototype() ipld.NodePrototype {
 }
 
 func (n *_Tag_List) Lookup(idx int64) Tag {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_Tag_List) LookupMaybe(idx int64) MaybeTag {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -6213,7 +6213,7 @@ func (n Tag_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n Tag_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
-- 
2.43.0


From d72b397c704cf2b90fe02a417360acf2c47780ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:01 +0000
Subject: [PATCH 18/20] fix: accept any armor header at the start of a PGP
 signature

Signatures starting with Charset:, Hash: or other headers made the whole
commit undecodable.
---
 commit.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/commit.go b/commit.go
index 7d9cf91..c198eb6 100644
--- a/commit.go
+++ b/commit.go
@@ -137,28 +137,20 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	// string concatenation would copy the whole thing on every line.
 	var sig strings.Builder
 
-	if string(line) != " " {
-		if strings.HasPrefix(string(line), " Version: ") || strings.HasPrefix(string(line), " Comment: ") {
-			sig.WriteString(string(line) + "\n")
-		} else {
-			return out, fmt.Errorf("expected first line of sig to be a single space or version")
-		}
-	} else {
-		sig.WriteString(" \n")
+	// The armor may start with a blank line or with any header ("Version: ",
+	// "Comment: ", "Charset: ", ...).
+	if !bytes.HasPrefix(line, []byte(" ")) {
+		return out, fmt.Errorf("expected first line of sig to continue the header")
 	}
 
-	for {
-		line, err := readLine(rd)
+	for !bytes.Equal(line, []byte(" -----END PGP SIGNATURE-----")) {
+		sig.WriteString(string(line) + "\n")
+
+		line, err = readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
 		}
-
-		if bytes.Equal(line, []byte(" -----END PGP SIGNATURE-----")) {
-			break
-		}
-
-		sig.WriteString(string(line) + "\n")
 	}
 
 	out.x = sig.String()
-- 
2.43.0


From 55d81effc618f04bb707134f016c1fd828202ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:04 +0000
Subject: [PATCH 19/20] fix: refuse a PGP signature that is not closed within
 its header

---
 commit.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/commit.go b/commit.go
index c198eb6..490a3d4 100644
--- a/commit.go
+++ b/commit.go
@@ -138,12 +138,12 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	var sig strings.Builder
 
 	// The armor may start with a blank line or with any header ("Version: ",
-	// "Comment: ", "Charset: ", ...).
-	if !bytes.HasPrefix(line, []byte(" ")) {
-		return out, fmt.Errorf("expected first line of sig to continue the header")
-	}
-
+	// "Comment: ", "Charset: ", ...). All of it continues the gpgsig header: any
+	// other line is not part of the signature.
 	for !bytes.Equal(line, []byte(" -----END PGP SIGNATURE-----")) {
+		if !bytes.HasPrefix(line, []byte(" ")) {
+			return out, fmt.Errorf("expected line of sig to continue the header: %q", line)
+		}
 		sig.WriteString(string(line) + "\n")
 
 		line, err = readLine(rd)
-- 
2.43.0


From 6699a5ac176e16030bdda63ae126e3a6de651d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:27 +0000
Subject: [PATCH 20/20] fix: report an error from looking up a tag's tagger
 instead of dropping the tagger

---
 tag.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tag.go b/tag.go
index 4dc4993..1bb5cc9 100644
--- a/tag.go
+++ b/tag.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/ipld/go-ipld-prime"
 	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
+	"github.com/ipld/go-ipld-prime/schema"
 )
 
 const tagObjectPrefixLen = 7 // "prefix 'object '"
@@ -173,6 +174,12 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	}
 
 	tagger, taggerErr := n.LookupByString("tagger")
+	switch taggerErr.(type) {
+	case nil, ipld.ErrNotExists, schema.ErrNoSuchField:
+		// a tag need not have a tagger
+	default:
+		return taggerErr
+	}
 
 	buf := new(bytes.Buffer)
 	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(objSha))
-- 
2.43.0

