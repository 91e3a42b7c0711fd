#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json, MANIFEST.json and known_findings.json
from one description, so that they cannot drift apart."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, hs, bounds, outside, assume=(), note=''):
    assert len(title) <= 80, title
    if any(h['H'][:3] in ('Lit', 'Num') for h in hs):
        bounds += '; every text that stands in the code, with up to an arbitrary byte on either side, and every number of it, give or take one, as a size (3 to 70000, counts to 2000)'
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, hs=hs, bounds=bounds, outside=outside, assume=list(assume), note=note))

def H(h, what, params=None, quick=None, thorough=None, tier=None, steps=None):
    d = dict(H=h, What=what)
    if params: d['Params'] = params
    if quick: d['Quick'] = quick
    if thorough: d['Thorough'] = thorough
    if tier: d['Tier'] = tier
    if steps: d['Steps'] = steps
    return d

GEN = ['ipldsch_satisfaction.go', 'ipldsch_types.go', 'ipldsch_minima.go']
BIG = '; one part of 40000, 140000 and 1100000 (thorough 4300000) bytes'
EDGE = 'lengths of the long parts drawn from {0,1,2,100,511..513,4000,4085..4098,8190,8192,9000,66000}'

prop('C01', 'Blobs survive decoding and encoding byte for byte',
 'For every content and length, decoding a git blob object and encoding the node gives exactly the bytes of the object, and the node holds exactly those bytes.',
 ['inputs'], 'every blob content; lengths from empty to beyond any internal buffer',
 'The tests decode the few blobs of one fixed repository; no blob crosses a buffer size and none holds arbitrary bytes.',
 ['blob.go', 'marshal.go', 'unmarshal.go', 'helper.go'],
 [('body read to its declared size', 'blob.go:DecodeBlob'), ('bytes written out', 'blob.go:encodeBlob'), ('dispatch', 'marshal.go:Encode')],
 [H('BlobRT', 'decode, encode, compare; arbitrary bytes at both ends of long blobs', thorough=dict(blob=40)), H('LongBlob', 'very long blobs', thorough=dict(long=4), steps=400_000_000),
  H('LitBlob', 'texts of the code'), H('NumBlob', 'sizes of the code', steps=400000000)],
 'contents of up to 12 (thorough 40) wholly arbitrary bytes; ' + EDGE + ' and decimal-width boundaries up to 3000000 (thorough 4300000), with up to 4 arbitrary bytes at the ends and concrete ones between',
 'longer blobs; arbitrary bytes in the middle of long ones')

prop('C02', 'Trees survive unchanged: order, modes, names and hashes of all entries',
 'For every well-formed tree, decoding gives a map with exactly its entries, in their order, under their exact names, each with its exact mode text and the link of its hash; every entry can be looked up by name, and encoding the node gives exactly the bytes of the object.',
 ['inputs'], 'every tree: number and order of entries, arbitrary NUL-free names, modes and hashes',
 'The tests decode the trees of one fixed repository with plain names; names that sort oddly, unusual modes, long names and arbitrary hash bytes are not sampled.',
 ['tree.go', 'util.go'] + GEN,
 [('entry reader', 'tree.go:DecodeTreeEntry'), ('entry writer', 'tree.go:encodeTreeEntry'), ('order of the map', 'ipldsch_satisfaction.go:_Tree')],
 [H('TreeRT', 'decode, encode, compare', thorough=dict(entries=3, tname=3, many=200)),
  H('TreeFields', 'every entry by iteration and lookup', thorough=dict(entries=3, tname=3, many=100)), H('LongTree', 'trees of thousands of entries', thorough=dict(long=4), steps=400_000_000),
  H('LitTree', 'texts of the code'), H('NumTree', 'sizes of the code', thorough=dict(num=1000000, count=20000), steps=400000000)],
 'up to 2 (thorough 3) entries with arbitrary names of 1-2 (3) bytes and each common mode; one entry with arbitrary mode text of 0-6 bytes and 20 arbitrary hash bytes; two entries with names of 8 arbitrary bytes; directory/file prefix order; names with ' + EDGE + '; a tree of 200 (thorough 1000) entries; trees of 1000, 3500 and 8000 entries with concrete names but the last',
 'longer arbitrary names; trees with a repeated name are C11')

prop('C03', 'Commits survive decoding and encoding byte for byte',
 'Every commit object with its headers in the order tree, parents, author, committer, encoding, mergetags, PGP signature, other headers re-encodes to exactly the same bytes, whatever text its parts hold and however long they are, so that its hash stays the same.',
 ['inputs'], 'every such commit: which headers are there and how often, arbitrary text in each part, lengths across every internal buffer boundary',
 'The tests re-encode one small repository; a lost carriage return, a line longer than the buffer, a repeated space or an unusual header are not in it.',
 ['commit.go', 'tag.go', 'personinfo.go', 'helper.go', 'util.go'],
 [('line reader', 'helper.go:readLine'), ('header dispatch', 'commit.go:decodeCommitLine'), ('signature', 'commit.go:decodeGpgSig'), ('mergetag', 'tag.go:readMergeTag'), ('encoder', 'commit.go:encodeCommit')],
 [H('CommitRT', 'decode, encode, compare', thorough=dict(msg=6, enc=4, name=4, email=4, many=100)), H('LongCommit', 'very long parts', thorough=dict(long=4), steps=400_000_000),
  H('LitCommit', 'texts of the code'), H('NumCommit', 'sizes of the code', thorough=dict(num=1000000, count=10000), steps=400000000)],
 'shapes with up to 3 parents, 2 mergetags, 2 other headers and each optional header; one part at a time with up to 4-6, or 8-24, wholly arbitrary bytes, all 40 hash digits, ' + EDGE + '; one commit of 40 (100) parents' + BIG,
 'arbitrary text longer than that; the recorded findings (headers in another order, no blank line, mergetag without message or with unknown lines)')

prop('C04', 'Tags survive decoding and encoding byte for byte',
 'Every annotated tag with object, type, tag name, an optional tagger and either no message or a blank line and a non-empty message re-encodes to exactly the same bytes, whatever text its parts hold and however long they are.',
 ['inputs'], 'every such tag: arbitrary text in each part, with or without tagger and message',
 'The tests re-encode the few tags of one repository; taggerless tags, carriage returns and long lines are not among them.',
 ['tag.go', 'personinfo.go', 'helper.go', 'util.go'],
 [('decoder', 'tag.go:DecodeTag'), ('encoder', 'tag.go:encodeTag')],
 [H('TagRT', 'decode, encode, compare', thorough=dict(msg=7, tag=6, typ=6, name=4, email=4)),
  H('TagFields', 'the node holds every part', thorough=dict(msg=6, tag=5, typ=5)), H('LongTag', 'very long parts', thorough=dict(long=4), steps=400_000_000),
  H('LitTag', 'texts of the code'), H('NumTag', 'sizes of the code', thorough=dict(num=1000000), steps=400000000)],
 'up to 4 (thorough 6-7) or 8-24 arbitrary bytes in one part at a time, all four target types, all 40 hash digits, ' + EDGE + BIG,
 'tags with unknown header lines or with a blank line and no message after it (recorded findings)')

prop('C05', 'Author, committer and tagger keep name, email, date and time zone exactly',
 'Wherever a person stands in an object (author, committer, tagger, tagger of a mergetag), the node gives exactly its name, email, date and time zone, with inner spaces, empty parts and any bytes preserved, and encoding writes the same line again.',
 ['inputs'], 'every name and email without brackets and newlines, every date and zone text, present or not, in all four places',
 'Only a handful of well-behaved persons are tested; what repeated spaces, empty names, one-letter parts or arbitrary bytes do is a question over all texts.',
 ['personinfo.go', 'commit.go', 'tag.go'],
 [('parser', 'personinfo.go:parsePersonInfo'), ('writer', 'personinfo.go:GitString')],
 [H('PersonRT', 'all parts read back and re-encoded, in each of the four places', thorough=dict(name=5, email=5)),
  H('CommitFields', 'persons within a commit', params=dict(k=2), thorough=dict(name=4, email=4)),
  H('TagFields', 'the tagger of a tag', params=dict(k=2), thorough=dict(name=4, email=4)),
  H('StructFields', 'a person built from its parts, by its typed accessors and as git writes it', params=dict(k=0)),
  H('LitPerson', 'texts of the code'), H('NumPerson', 'sizes of the code', steps=400000000)],
 'names and emails of up to 3 (5) arbitrary bytes except <, > and newline, mixes of arbitrary and fixed text, 8 arbitrary bytes in each at once, date of 1-3 or 10 and zone of 1-7 arbitrary bytes; ' + EDGE,
 'brackets inside names; text after the time zone; an empty date with a zone; a person line without the space git writes between an empty name and the email (recorded finding)')

prop('C06', 'A decoded commit holds every header and the message, each in its field',
 'Every header of a commit appears in the node exactly once, in order and with its exact value: tree, parents, author, committer, encoding, mergetags with all their parts, the PGP signature, and every other line (signatures of other kinds included) among the other headers; the message is all that follows the blank line. Absent headers read as absent, and a multi-line header ends with its continuation lines, never taking in what follows it.',
 ['inputs'], 'every combination of headers with arbitrary values',
 'Tests check a few fields of single commits; whether one header can swallow, shadow or leak into another depends on their combination and values.',
 ['commit.go', 'tag.go', 'personinfo.go', 'ipldsch_satisfaction.go'],
 [('header dispatch', 'commit.go:decodeCommitLine'), ('signature end', 'commit.go:decodeGpgSig'), ('mergetag end', 'tag.go:readMergeTag')],
 [H('CommitFields', 'all fields of all generated commits', quick=dict(others=1), thorough=dict(others=2, msg=5)),
  H('MtagEnd', 'a mergetag with or without each of its lines, followed by each kind of header'),
  H('LitCommit', 'texts of the code'), H('NumCommit', 'sizes of the code', steps=400000000)],
 'as C03; mergetags with every subset of their lines before every kind of header',
 'as C03')

prop('C07', 'No input makes decoding panic, hang or return neither node nor error',
 'Decoding any byte string returns, with either a node or an error and not both or neither; a node it returns can be read in every field, converted to its representation and encoded without a panic.',
 ['inputs'], 'every byte string: arbitrary ones, and every kind of damage to valid objects',
 'The tests try four malformed inputs. Absence of a crash is a statement about all of them.',
 ['unmarshal.go', 'commit.go', 'tag.go', 'tree.go', 'blob.go', 'personinfo.go', 'helper.go', 'util.go'] + GEN,
 [('type dispatch', 'unmarshal.go:ParseObject'), ('header', 'helper.go:readNullTerminatedNumber'), ('persons', 'personinfo.go:parsePersonInfo'), ('hash check', 'util.go:shaToCid')],
 [H('AnyBytes', 'completely arbitrary bytes', thorough=dict(n=14)),
  H('AnyBody', 'a header, then arbitrary bytes', thorough=dict(m=9)),
  H('AnySize', 'arbitrary size headers', thorough=dict(n=4)),
  H('AnyPerson', 'arbitrary bytes in the place of a person', thorough=dict(p=8)),
  H('Havoc', 'a window of arbitrary bytes anywhere in a valid object', thorough=dict(w=3)),
  H('Trunc', 'a valid object cut anywhere'),
  H('Lines', 'any sequence of header lines', thorough=dict(lines=4)),
  H('LineOps', 'a line dropped, doubled or swapped'),
  H('LitLines', 'texts of the code', quick=dict(litforms=1), thorough=dict(litforms=4, both=1)),
  H('DeepMtags', 'very many mergetags', params=dict(n=3000), thorough=dict(n=10000))],
 'arbitrary strings of up to 8 (thorough 14) bytes, bodies of up to 7 (9), persons of up to 6 (8), windows of 2 (3) bytes at every position of a full object of each type, every truncation, every sequence of up to 3 (4) lines out of 19 kinds; 30 million instructions and 1500 frames per path',
 'damage in two distant places at once; 300000 mergetags are run natively only')

prop('C08', 'How a reader delivers the bytes does not matter, and its errors are reported',
 'The result of decoding depends on the bytes alone, not on how the reader splits them, on empty reads, on whether the end comes with the last bytes, or on buffer boundaries. A read error met before the object is complete is returned to the caller, and no node is.',
 ['inputs', 'fault_sequences'], 'every object of the model, every split, every position of a fault, through every stream entry point',
 'Tests read from complete in-memory buffers; short reads and I/O errors never happen there.',
 ['unmarshal.go', 'helper.go', 'commit.go', 'tag.go', 'tree.go', 'blob.go'],
 [('line reader', 'helper.go:readLine'), ('body copy', 'blob.go:DecodeBlob'), ('full reads', 'tree.go:DecodeTreeEntry')],
 [H('Chunks', 'small objects, whole and cut, in every split'),
  H('ChunksLong', 'objects whose parts cross the buffer', quick=dict(pads=6, step=19), thorough=dict(pads=40, step=4)),
  H('ReadFault', 'a fault at every byte', quick=dict(faults=3)),
  H('ReadFaultLong', 'a fault around the buffer boundary and the end of long objects', quick=dict(pads=3, step=37, back=6, faults=3), thorough=dict(pads=20, step=7, back=12))],
 'eight objects, every single split point, piece lengths 1-7, empty reads, early EOF, every fault position with 3 (5) kinds of error that stay, pass, or are followed by the end; seven long objects around 4096 bytes with 6 (40) paddings',
 'more than two irregular pieces; readers that break the io.Reader contract')

prop('C09', 'Encoding reports every write error and writes nothing for a refused node',
 'If the writer fails at any byte, encoding returns its error and has written only a prefix of the object. A node that is no git object, or that fails while it is read, gives an error and not a single byte, and encoding a node any number of times to any writer gives the same bytes.',
 ['inputs', 'fault_sequences'], 'every node of the model, every position of the write fault',
 'Tests encode to buffers that never fail.',
 ['marshal.go', 'commit.go', 'tag.go', 'tree.go', 'blob.go'],
 [('dispatch', 'marshal.go:Encode'), ('header and body writes', 'commit.go:encodeCommit tag.go:encodeTag tree.go:encodeTree blob.go:encodeBlob')],
 [H('WriteFault', 'a fault at every byte'),
  H('Rewrite', 'encoding twice, in pieces', quick=dict(lite=1), thorough=dict(lite=0)),
  H('EncodeReject', 'nodes of every wrong kind or shape'),
  H('BadLink', 'nodes with a link that is no git hash in any place'), H('LazyEncode', 'nodes that fail while they are read')],
 'eight objects and every fault position; all objects of C01-C04 for repetition; 14 families of wrong nodes; four untyped objects whose reads fail from any one of the first 140 on, for good or once',
 'writers that break the io.Writer contract')

prop('C10', 'All ways of decoding an object agree',
 'Decoding through the buffer, stream, block, per-type, registered-codec and zlib entry points, into typed, representation and untyped builders, gives the same node or refuses the same input. A zlib-wrapped object decodes exactly if the wrapping is intact to its checksum and the object in it is well-formed, and no object is forced into a builder for another type.',
 ['inputs', 'configurations'], 'every object of the model and damaged ones, through every pair of entry points',
 'Tests use one entry point per object; that two agree on all inputs, refusals included, is a relation no single run shows.',
 ['unmarshal.go', 'helper.go', 'init.go', 'tree.go', 'commit.go', 'tag.go', 'blob.go'],
 [('two dispatchers', 'unmarshal.go:Decode unmarshal.go:ParseObject'), ('zlib', 'helper.go:ParseCompressedObject'), ('block', 'helper.go:DecodeBlock')],
 [H('Agree', 'well-formed objects', quick=dict(lite=1), thorough=dict(lite=0)),
  H('AgreeBad', 'objects that may be malformed', quick=dict(litforms=1), thorough=dict(ins=1000)),
  H('AgreeEntry', 'a tree entry by entry'),
  H('Compressed', 'zlib-wrapped objects'),
  H('CompressedBad', 'damaged wrapping, malformed content, read faults under it'),
  H('Deflated', 'compressed blocks', quick=dict(step=5), thorough=dict(step=1, levels=5)),
  H('LongAgree', 'very long objects', thorough=dict(long=4), steps=400_000_000),
  H('WrongTarget', 'builders of other types'),
  H('NumAgree', 'sizes of the code', thorough=dict(num=200000), steps=400000000)],
 'all objects of C01-C04 (quick: fewer lengths), eight entry points; any one byte of a full object replaced, one inserted or dropped among the first 16 (thorough: anywhere), every truncation; zlib streams of 1-3 stored blocks with every single-byte checksum and header damage and every truncation; fixed Huffman blocks with one arbitrary byte of content, or every fifth (thorough: any one) byte of the stream replaced; concrete objects compressed at three (five) levels' + BIG + ' by every entry point',
 'arbitrary bytes in blocks of dynamic Huffman codes; more than one arbitrary byte in compressed ones')

prop('C11', 'Malformed objects are refused with an error',
 'An unknown object type, a size that is not a decimal number, a blob shorter than it declares, a tree that ends inside an entry or repeats a name, a hash field that is not exactly 40 hex digits, a commit without a tree, a tag without an object, a person without a bracketed email, a commit that ends inside its signature or mergetag message, and a signature that is not closed within its header are each refused with an error and no node.',
 ['inputs'], 'every object of each of these malformed families',
 'The tests try four malformed headers.',
 ['unmarshal.go', 'helper.go', 'blob.go', 'tree.go', 'commit.go', 'tag.go', 'util.go', 'personinfo.go'],
 [('type', 'unmarshal.go:ParseObject'), ('size', 'helper.go:readNullTerminatedNumber'), ('short body', 'blob.go:DecodeBlob'), ('entry', 'tree.go:DecodeTreeEntry'), ('hash length', 'util.go:shaToCid'), ('required headers', 'commit.go:DecodeCommit tag.go:DecodeTag')],
 [H('RejType', 'unknown types'), H('RejSize', 'sizes'), H('RejBlob', 'short blobs', thorough=dict(n=10)), H('RejTree', 'cut trees, repeated names'),
  H('RejHash', 'hash fields'), H('RejMissing', 'required headers'), H('RejPerson', 'persons', thorough=dict(p=7)), H('RejCut', 'unfinished multi-line headers')],
 'types of up to 7 arbitrary bytes and every one-byte change of the real ones; sizes with an arbitrary non-digit anywhere; blobs up to 33000 bytes short of declared sizes up to 2^62; a three-entry tree cut at every byte and one across the buffer; hash fields of 0-64 digits and with any non-hex byte at any place, in all four positions; persons of up to 5 (7) bracket-free bytes',
 'the declared size of trees, commits and tags, which the library does not compare with the body (by design of its streaming decoders); uppercase hex, leading + or zeros in sizes, which it accepts')

prop('C12', 'Blocks decode exactly if their CID says git-raw and SHA-1; codec registered',
 'A block is decoded exactly if its CID states the git-raw codec and a 20-byte SHA-1 multihash, and then like the plain object; every other CID is refused. Importing the package registers this encoder and decoder for git-raw in the default multicodec registry, where link systems find them.',
 ['inputs', 'configurations'], 'every codec, hash function and digest length a CID can state',
 'Tests only use CIDs of the right kind.',
 ['helper.go', 'init.go'],
 [('CID gate', 'helper.go:DecodeBlock'), ('registration', 'init.go:init')],
 [H('Gate', 'all CIDs'), H('Registry', 'the registered functions')],
 'every codec and every hash code up to 63 bits, pairs of them up to 28 bits, eleven digest lengths, CIDv0; eight objects',
 'digest lengths other than those eleven')

prop('C13', 'Git hashes and links correspond one to one; other links are refused',
 'Every 20-byte hash in an object becomes the CIDv1 link with codec git-raw and SHA-1 multihash of those bytes, wherever it stands, and such a link encodes to exactly that hash. A link that is not made of a SHA-1 of 20 bytes makes encoding fail, with nothing written.',
 ['inputs'], 'every hash value in every position, every other kind of link in every position and form of node',
 'Tests compare a few hashes; that no bit is lost or mixed up is a statement about 2^160 values and five positions.',
 ['util.go', 'commit.go', 'tag.go', 'tree.go'],
 [('hash to link', 'util.go:shaToCid'), ('link to hash', 'util.go:cidToSha util.go:sha')],
 [H('HashLink', 'hash to link and back'), H('LinkHash', 'link to hash and back, for built nodes'), H('BadLink', 'links that name no git hash')],
 'all 2^160 hashes in each of five positions, four forms of node; eight families of foreign links with arbitrary digests and every hash function up to 63 bits',
 'digest lengths other than seven')

prop('C14', 'The encoding depends on the content of a node only, not on how it was made',
 'Typed nodes, their representations, copies, nodes built field by field in any order, nodes assigned from untyped ones, and untyped commits, tags and blobs all encode to the same bytes if they hold the same content. Encoding leaves the node as it was.',
 ['inputs', 'histories'], 'every content of the model, every form of node, orders of assembly',
 'Tests encode only nodes they have just decoded.',
 ['marshal.go', 'commit.go', 'tag.go', 'tree.go'] + GEN,
 [('dispatch by prototype and shape', 'marshal.go:Encode'), ('normalising copy', 'commit.go:encodeCommit'), ('generic field lookups', 'tag.go:encodeTag tree.go:encodeTree')],
 [H('FormsCommit', 'commits'), H('FormsTag', 'tags'), H('FormsTree', 'trees'), H('FormsBlob', 'blobs'),
  H('Pure', 'nodes with any text', quick=dict(litforms=1), thorough=dict(litforms=4)), H('FormsDecoded', 'decoded objects by representation and copies', quick=dict(lite=1), thorough=dict(lite=0))],
 'nine forms, field orders by rotation, reversal and single moves, every subset of optional fields; all objects of C01-C04 for copies; nodes with up to 2 wholly arbitrary bytes in any one text field',
 'other field orders; untyped trees, which the encoder refuses as they cannot be told from commits')

prop('C15', 'Decoded nodes are independent of each other, of buffers and of history',
 'A node never changes after it was decoded, whatever happens to the input buffer, whatever is decoded, refused or encoded afterwards, through the same builder or another, and even from within a reader or writer that itself uses the library. What was done before has no influence on what an object decodes to.',
 ['inputs', 'histories'], 'sequences of decodings, failures and encodings, nested ones included',
 'Each test decodes in a fresh process state and looks at the node at once; shared or reused buffers show only over a history.',
 ['unmarshal.go', 'helper.go', 'commit.go', 'tag.go', 'blob.go', 'tree.go'] + GEN,
 [('lines are copies', 'helper.go:readLine'), ('own buffers', 'commit.go:encodeCommit blob.go:DecodeBlob'), ('builder reset', 'ipldsch_satisfaction.go:Reset')],
 [H('IsoBuffer', 'the input is overwritten'), H('IsoHistory', 'other operations before and after', thorough=dict(before=3, after=2)),
  H('IsoFollow', 'two objects of a type in turn'), H('IsoReentrant', 'nested use'), H('IsoOutput', 'two encodings'),
  H('IsoTwins', 'three objects that are alike', thorough=dict(twin=5)), H('IsoLong', 'hundreds of other objects before and after', thorough=dict(n=1500), steps=400000000), H('IsoBuilder', 'a reset builder decodes again'), H('BuilderReuse', 'a reset builder assembles again')],
 'histories of one (thorough two) operations out of 15 before and one after; one fixed history of 150 (thorough 1875) varied objects around an object with arbitrary bytes; three objects of a type in turn with the same one of 20 parts arbitrary in each; nesting in up to three reads or writes',
 'longer histories; modifying the result of AsBytes, which shares the node\'s memory as in all of go-ipld-prime')

prop('C16', 'Commit, tag, entry and person nodes hold exactly the fields they are given',
 'Assembled in any order, by entry or by key, from values or nodes, typed or as representation, a struct node holds exactly the given values under every way of reading it, lists its fields in schema order, and says of optional fields whether they are there. Repeated, missing required and unknown fields, and values of the wrong kind, are refused with an error, and no builder of any type gives a node before one is complete, or from a source that fails while it is read.',
 ['inputs', 'histories'], 'all four struct types, assembly orders, subsets of fields, field names and kinds of values',
 'The tests never assemble a node by hand; the generated code behind it is exercised only along the decoder\'s own path.',
 GEN, [('struct builders', 'ipldsch_satisfaction.go:_Commit__Assembler and its siblings'), ('representations', 'ipldsch_satisfaction.go:_Commit__ReprAssembler and its siblings')],
 [H('StructBuild', 'any order, both styles', thorough=dict(perm=5, hints=4)), H('StructOptional', 'subsets of the optional fields'), H('StructBad', 'repeated and missing fields'),
  H('StructUnknown', 'any other name'), H('StructKinds', 'values of other kinds'), H('StructFields', 'typed accessors'), H('StructCopy', 'copies'), H('Unfinished', 'builders asked too early'), H('LazyAssign', 'sources that fail while they are read'),
  H('LitStruct', 'texts of the code', quick=dict(litforms=2), thorough=dict(litforms=4))],
 'all orders of structs of up to 4 (5) fields, rotations, reversal and single moves of the rest; every duplicate and omission; arbitrary names of up to 10 bytes; seven kinds of value for each field',
 'other misuse of assemblers that go-ipld-prime documents as a panic')

prop('C17', 'Lists and trees hold exactly the elements they are given, in order',
 'A list node holds exactly the assigned elements in order, by index, iteration, number node and path segment, and nothing past its ends; a tree node holds exactly the assigned entries in order, by name and iteration, typed or not. A repeated entry name and values of another kind are refused.',
 ['inputs', 'histories'], 'lengths, size hints, contents, ways of assembling and reading',
 'The tests read lists and trees along one path only.',
 GEN, [('list builders', 'ipldsch_satisfaction.go:_String_List__Assembler and its siblings'), ('map builder', 'ipldsch_satisfaction.go:_Tree__Assembler')],
 [H('ListBuild', 'lists', thorough=dict(len=9)), H('ListIndex', 'any number and any text as an index', thorough=dict(seg=6)), H('ListCopy', 'copies of lists'), H('ListBad', 'elements of other kinds'),
  H('TreeBuild', 'trees', thorough=dict(entries=4)), H('TreeTyped', 'typed tree methods'), H('TreeBad', 'repeated names and other kinds'),
  H('NumList', 'lengths of the code', thorough=dict(count=2000)), H('NumMap', 'sizes of the code', thorough=dict(num=200000, count=2000))],
 'lists of 0-4 (8) and 17 elements of three types, six size hints; lists of 0-12 elements at any 64-bit index and any path segment of up to 3 (5) bytes; trees of 0-3 (4) entries with arbitrary short names',
 'repeated names given by AssembleKey other than that of the recorded finding')

prop('C18', 'Scalars keep their values, and no node or builder answers for another kind',
 'Strings, signatures, blobs and links hold exactly what they are given, through builders, constructors and copies between sister types. A builder refuses data of any other kind with an error, and a node answers accessors of any other kind with an error, for every type of the schema and its representation.',
 ['inputs'], 'all fourteen types and their representations, every kind of data, arbitrary values',
 'The tests never ask a node or builder for the wrong kind.',
 GEN, [('kind mixins and scalar assemblers', 'ipldsch_satisfaction.go'), ('constructors', 'ipldsch_satisfaction.go:FromString FromBytes FromLink')],
 [H('ScalarBuild', 'scalars'), H('WrongAssign', 'data of other kinds'), H('WrongAccess', 'accessors of other kinds'), H('BuilderReuse', 'a builder used again'),
  H('LitScalar', 'texts of the code')],
 'strings and bytes of up to 3 arbitrary bytes, all hashes; nine kinds of data',
 '')

prop('C19', 'Any node that can be built encodes to a well-framed object that decodes back',
 'A node assembled from valid git content encodes to exactly the git object with that content, and decoding the object gives the node back. Whatever text the fields hold, the output is framed correctly: type, one space, the exact decimal length of the rest, NUL, the rest.',
 ['inputs'], 'every content of the model; arbitrary bytes in every text field',
 'The tests encode only what they have decoded, so an encoder that agrees with a wrong decoder passes.',
 ['commit.go', 'tag.go', 'tree.go', 'personinfo.go'] + GEN,
 [('encoders', 'commit.go:encodeCommit tag.go:encodeTag tree.go:encodeTree'), ('persons', 'personinfo.go:GitString')],
 [H('Build', 'assemble, encode, compare with the object, decode', quick=dict(lite=1), thorough=dict(lite=0)), H('BuildWeird', 'framing of any content')],
 'all commits, tags and trees of C02-C04 (quick: fewer lengths); up to 2 wholly arbitrary bytes in each text field for framing',
 'longer arbitrary text')

prop('C20', 'Decoding takes memory in proportion to the input, never to what it declares',
 'However large a size an object declares, decoding allocates no more than a fixed amount plus a fixed multiple of the bytes supplied, through every entry point. Decoding and encoding objects with very many or very long parts takes memory linear in their size.',
 ['inputs'], 'every declared size; objects with thousands of lines, headers, entries or words in each of their parts',
 'Tests do not measure memory, and their objects are small.',
 ['blob.go', 'commit.go', 'tag.go', 'personinfo.go', 'tree.go'],
 [('growing buffer', 'blob.go:DecodeBlob'), ('string builders', 'commit.go:decodeGpgSig tag.go:readMergeTag personinfo.go:parsePersonInfo')],
 [H('CostDeclared', 'declared sizes'), H('CostGrowth', 'large objects', thorough=dict(pieces=10000)), H('CostZip', 'compressed objects')],
 'declared sizes up to 2^63 with arbitrary digits; 2000 (thorough 10000) pieces in each of twelve parts; limit 1 MiB + 64 bytes per input byte, allocations counted by the engine and by the Go runtime on replay',
 'expansion of highly compressed zlib streams, which is in proportion to what the stream really holds')

prop('C21', 'Paths and link systems lead through commits, tags and trees to the right content',
 'Following a path from a tag or commit through links, fields, list indexes and entry names arrives at exactly the value of the object there, and a path that leads nowhere is an error. The links of a node are those of its object, in order, and a walk of everything arrives at every value of every object. Storing a node through a link system\'s codec writes exactly the object, and loading it gives the node back, typed, as representation or untyped.',
 ['inputs', 'programs'], 'paths through a small repository with arbitrary content; every small object through a link system',
 'The tests traverse nothing.',
 ['init.go', 'unmarshal.go', 'marshal.go'] + GEN,
 [('registration', 'init.go:init'), ('link targets', 'ipldsch_satisfaction.go:LinkTargetNodePrototype'), ('lookups by segment', 'ipldsch_satisfaction.go:LookupBySegment')],
 [H('Walk', 'paths that lead somewhere'), H('WalkBad', 'paths that do not'), H('LinkSys', 'storing and loading'),
  H('WalkName', 'any entry name as part of a path', quick=dict(litforms=1)), H('Links', 'the links of a node'), H('ListIndex', 'any number and any text as an index', thorough=dict(seg=6)), H('WalkAll', 'a walk of everything')],
 'a repository of seven objects, 20 paths from typed and representation nodes with arbitrary bytes in the contents; 14 bad paths and arbitrary names of up to 4 bytes; entries with 15 odd names and arbitrary ones of 1-2 bytes; list elements by any index; the links of every commit shape; a selector walk over all of it; eight objects',
 'hash verification by the link system (storage is marked trusted, as SHA-1 of symbolic data is out of reach)')

prop('C22', 'Concurrent use is safe: decoding, encoding and reading share nothing',
 'Decodings and encodings of any objects, readings, copies and encodings of one shared node, assemblies from the same prototypes and walks over links may go on in several goroutines at once: none writes memory that another can reach without synchronisation, the bytes given and the nodes read are not modified, and each gives what it gives alone.',
 ['inputs', 'schedules'], 'every interleaving of two operations on every generated object, node and value',
 'The tests decode and encode in one goroutine.',
 ['unmarshal.go', 'marshal.go', 'commit.go', 'tag.go', 'tree.go', 'personinfo.go', 'blob.go', 'helper.go', 'util.go', 'init.go'] + GEN,
 [('decoding', 'unmarshal.go:ParseObject'), ('encoding', 'marshal.go:Encode'), ('shared prototypes', 'ipldsch_minima.go'), ('shared nodes', 'ipldsch_satisfaction.go')],
 [H('ConcDecode', 'the same object decoded twice at once, every way in', quick=dict(words=2, msglong=4, lite=1), thorough=dict(words=8, msglong=24, lite=0)),
  H('ConcBytes', 'arbitrary bytes decoded twice at once', thorough=dict(n=6)),
  H('ConcEncode', 'one node encoded twice at once', quick=dict(words=2, msglong=4, lite=1), thorough=dict(words=8, msglong=24, lite=0)),
  H('ConcRead', 'one node of each type read and copied twice at once'),
  H('ConcBuild', 'one value assembled and encoded twice at once'),
  H('ConcWalk', 'links of one repository followed twice at once'),
  H('ConcMixed', 'one object decoded while another is read and encoded')],
 'two operations at once; every object of C02-C04 within small bounds, up to 4 (thorough 6) arbitrary bytes after each header, a node of each type. A memory cell both can reach, from the package variables of the library or from what is shared, may be written only under a lock or atomically and then not be read without; where none is written at all, as on this tree, that covers every interleaving',
 'accesses that are ordered by channels or sync.Once are candidates, too, and left to the race detector, which every candidate has to convince; contents of a sync.Pool; lost updates between two critical sections')

prop('C23', 'Edits by path change exactly the named part, and copies of copies stay the same',
 'Replacing, adding or removing a field, list element or tree entry by path gives a node that encodes to the object with exactly that part changed and everything else, its order included, the same; the node it started from still is and encodes as before, and an edit that does not fit the schema is an error. A node that is encoded, decoded and copied over and over, in any way, stays the same.',
 ['inputs', 'programs'], 'edits at every part of a commit, tag and tree with arbitrary new values; sequences of copies',
 'The tests never build a node other than by decoding.',
 ['marshal.go', 'commit.go', 'tag.go', 'tree.go'] + GEN,
 [('assemblers take nodes', 'ipldsch_satisfaction.go:AssignNode'), ('iteration of representations', 'ipldsch_satisfaction.go:MapIterator'), ('encoding of copies', 'commit.go:encodeCommit')],
 [H('EditCommit', 'edits of a commit'), H('EditTag', 'edits of a tag'), H('EditTree', 'edits of a tree'), H('EditBad', 'edits that do not fit'),
  H('Chain', 'sequences of copies', thorough=dict(chain=4)),
  H('CopyAny', 'any object copied', quick=dict(lite=1, bigblobs=1, words=3, msglong=4, name=1, email=1, tname=1, entries=1, msg=2, enc=1, tag=2, typ=2, blob=4, many=10, most=1500), thorough=dict(bigblobs=8, most=20000), steps=400000000)],
 'traversal.FocusedTransform at 17 places of a commit, 6 of a tag, 15 of a tree, with arbitrary bytes in the object and the new value; 32 places times 6 unfit values; two (thorough four) copies in a row in four ways, of eight objects',
 'edits through links; removing list elements, which go-ipld-prime\'s transform does not offer')

K = []
def known(prop, harness, what): K.append(dict(Property=prop, Status='known', Harness=harness, Params={}, Inputs=[], What=what))
def fixed(prop, commit, what): K.append(dict(Property=prop, Status='fixed', Commit=commit, What='fixed: property=%s %s %s' % (prop, commit, what)))
known('C04', 'KFTagEmptyMessage', 'a tag that ends in a blank line with no message after it re-encodes without the blank line')
known('C04', 'KFTagExtraHeader', 'a tag header line other than object, type, tag and tagger is dropped (the schema has no place for it)')
known('C03', 'KFCommitSigLast', 'a commit with another header before its gpgsig re-encodes with the two swapped (the schema does not record the order)')
known('C03', 'KFCommitNoBlank', 'a commit that ends after its headers, without the blank line, re-encodes with one')
known('C03', 'KFMtagNoMessage', 'a mergetag without the blank continuation line before its message re-encodes with one')
known('C03', 'KFMtagExtraHeader', 'an unknown header line inside a mergetag is dropped')
known('C05', 'KFPersonOneSpace', 'a person line with an empty name and only one space before the email re-encodes with two')
known('C05', 'KFPersonTail', 'text after the time zone of a person line is dropped')
known('C03', 'KFCommitTwice', 'of a header that should stand once but is repeated (author, committer, encoding, gpgsig) only the last is kept')
known('C17', 'KFTreeRepeatedKey', 'a tree takes a name it already holds when it is given by AssembleKey instead of AssembleEntry (the generated code checks only there)')
fixed('C03', 'a432460', 'lines lost a trailing carriage return and were cut at 4096 bytes')
fixed('C05', '4660de3', 'leading spaces of names were lost')
fixed('C04', '9e61011', 'a tag or mergetag without a tagger re-encoded with an invented one')
fixed('C11', '173eee1', 'a tree that ends inside an entry decoded as if it ended before it')
fixed('C09', '10b08fb', 'encoding a commit without author or committer panicked')
fixed('C09', '2f3d973', 'encoding a list panicked')
fixed('C14', 'e0ee672', 'an untyped tag whose first field is not object was encoded as a commit and refused')
fixed('C13', '8dc3212', 'a link that is no git hash panicked or was cut to a wrong hash on encoding')
fixed('C11', 'c5ebc93', 'a commit without a tree and a tag without an object decoded to a node that panics on encoding')
fixed('C06', 'cdf9a0c', 'a mergetag without a message swallowed the headers that follow it')
fixed('C06', 'd4ec795', 'a gpgsig header of another kind swallowed the rest of the commit or made it undecodable')
fixed('C07', '4cadc7c', 'many mergetags in a row exhausted the stack')
fixed('C10', '1a4c122', 'a zlib-wrapped blob with a bad checksum or cut stream decoded without an error')
fixed('C11', '43a3f79', 'a tag whose size is not a number was accepted')
fixed('C16', '4285a40', 'assigning a foreign map node to a tree or person dereferenced nil')
fixed('C17', '3736f49', 'looking up a tree entry by a string node of another type panicked')
fixed('C09', '6699a5a', 'an error from looking up the tagger of a tag was taken for a missing tagger, which was dropped')
fixed('C17', '0c4b18e', 'looking up a negative list index panicked')
fixed('C11', '55d81ef', 'a PGP signature that is not closed within its header swallowed what follows it, the message included')
fixed('C03', 'd72b397', 'a PGP signature that starts with an armor header other than Version or Comment made the commit undecodable')

exec(open(os.path.join(V, 'tools', 'meta_extra.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'meta_extra.py')) else None
NA = globals().get('NA', [])

TECH = 'symbolic execution of the Go SSA of the code under test, assertions decided by SMT (z3), counterexamples replayed on the compiled code'
NOTE = ('Holds for every value of the symbolic inputs within the bounds of the evidence file (exhaustive there when the evidence says so). '
        'Trusts: the symbolic interpreter (cross-validated on every run by replaying solver-chosen inputs of explored paths on the compiled code), z3 (cvc5 cross-checks in the thorough tier), and the few modelled runtime functions listed under assumptions.')

def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
    json.dump({p['id']: dict(Harnesses=p['hs'], Bounds=p['bounds'], Outside=p['outside'], Assume=p['assume']) for p in P},
              open(os.path.join(V, 'checks.json'), 'w'), indent=1)
    na = {x['property'] for x in NA}
    json.dump(dict(version=1, setup_cmd='bash ./setup.sh',
        checks=[dict(property=p['id'], quick_cmd='bash ./check.sh %s quick' % p['id'], thorough_cmd='bash ./check.sh %s thorough' % p['id'],
                     technique=TECH, level='model_checking', level_note=NOTE + (' ' + p['note'] if p['note'] else '')) for p in P if p['id'] not in na],
        not_applicable=NA,
        notes='One engine (engine/, Go) and one set of harnesses (harness/h) over the exported API; checks.json says which harness with which bounds decides which property. All files here but the code are written by tools/mkmeta.py. No hooks in /repo.'),
        open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    json.dump(K, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)

main()

def design():
    f = os.path.join(V, 'tools', 'DESIGN.in.md')
    s = open(f).read()
    props = ''
    for p in P:
        props += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
        props += '* Decided by: ' + '; '.join('`%s` (%s%s)' % (h['H'], h['What'], ', thorough tier' if h.get('Tier') else '') for h in p['hs']) + '.\n'
        props += '* Bounds: %s.\n' % p['bounds']
        if p['outside']: props += '* Outside: %s.\n' % p['outside']
        props += '* Out of reach of tests: %s\n\n' % p['why']
    s = s.replace('%PROPS%', props.strip())
    s = s.replace('%FIXED%', '\n'.join('* %s %s: %s' % (k['Property'], k['Commit'], k['What'].split(' ', 3)[3]) for k in K if k['Status'] == 'fixed'))
    s = s.replace('%KNOWN%', '\n'.join('* %s %s: %s' % (k['Property'], k['Harness'], k['What']) for k in K if k['Status'] == 'known'))
    sd = os.path.join(V, 'tools', 'SEEDED.md')
    s = s.replace('%SEEDED%', open(sd).read() if os.path.exists(sd) else '')
    open(os.path.join(V, 'DESIGN.md'), 'w').write(s)

design()
