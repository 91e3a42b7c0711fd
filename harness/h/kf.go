package h

import (
	git "github.com/ipfs/go-ipld-git"

	"verif/harness/nd"
)

// The recorded findings: objects git accepts that do not survive decoding and
// encoding. Each is one concrete object, outside what the other harnesses
// generate, so that nothing else hides behind it.

func init() {
	for k, s := range map[string]string{
		"KFTagEmptyMessage": "tag " + tagHead + "\n",
		"KFTagExtraHeader":  "tag " + tagHead + "x-extra 1\n\nmsg\n",
		"KFCommitSigLast":   "commit " + commitHead + "HG:extra x\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n iQ\n -----END PGP SIGNATURE-----\n\nmsg\n",
		"KFCommitNoBlank":   "commit " + commitHead,
		"KFMtagNoMessage":   "commit " + commitHead + "mergetag object 0123456789abcdef0123456789abcdef01234567\n type commit\n tag v1\n\nmsg\n",
		"KFMtagExtraHeader": "commit " + commitHead + "mergetag object 0123456789abcdef0123456789abcdef01234567\n type commit\n tag v1\n tagger A <a> 1 +0000\n x-extra 1\n \n m\n\nmsg\n",
		"KFPersonTail":      "commit tree 0123456789abcdef0123456789abcdef01234567\nauthor A <a> 1 +0000 tail\n\nmsg\n",
		"KFCommitTwice":     "commit " + commitHead + "encoding a\nencoding b\n\nmsg\n",
		"KFPersonOneSpace":  "commit tree 0123456789abcdef0123456789abcdef01234567\nauthor <a> 1 +0000\n\nmsg\n",
	} {
		t, b, _ := cutAt(s)
		All[k] = func() { roundTrip(object(t, bs(b))) }
	}
	All["KFTreeRepeatedKey"] = kfTreeRepeatedKey
}

// kfTreeRepeatedKey gives a tree the same name twice by way of AssembleKey.
func kfTreeRepeatedKey() {
	ma, err := git.Type.Tree.NewBuilder().BeginMap(-1)
	nd.Assert(err == nil, "a tree begins")
	e := vmap(kv("mode", vs(bs("100644"))), kv("hash", vl(rawSha(1, 0))))
	for i := 0; i < 2; i++ {
		if ma.AssembleKey().AssignString("a") != nil {
			return
		}
		if put(ma.AssembleValue(), e) != nil {
			return
		}
	}
	nd.Assert(ma.Finish() != nil, "a name already there is refused")
}

const tagHead = "object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag v1\ntagger A <a> 1 +0000\n"
const commitHead = "tree 0123456789abcdef0123456789abcdef01234567\nauthor A <a> 1 +0000\ncommitter A <a> 1 +0000\n"

func cutAt(s string) (string, string, bool) {
	for i := range s {
		if s[i] == ' ' {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}
