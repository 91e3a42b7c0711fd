"""Development aid: makes /verif/seeded/<id>/ from a description and verifies it in a scratch copy."""
import os, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 if the library behaves, nonzero if not; run with cwd at the repository
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' .
'''
HEAD = '''package ipldgit_test

import (
%s)

// obj frames a body as a git object.
func obj(typ, body string) []byte { return []byte(fmt.Sprintf("%%s %%d\\x00%%s", typ, len(body), body)) }

func enc(t *testing.T, n ipld.Node) []byte {
	t.Helper()
	var b bytes.Buffer
	if err := git.Encode(n, &b); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}

func parse(t *testing.T, o []byte) ipld.Node {
	t.Helper()
	n, err := git.ParseObjectFromBuffer(o)
	if err != nil {
		t.Fatal(err)
	}
	return n
}

// rt decodes and encodes an object and wants the same bytes.
func rt(t *testing.T, o []byte) ipld.Node {
	t.Helper()
	n := parse(t, o)
	if b := enc(t, n); !bytes.Equal(b, o) {
		t.Fatalf("does not survive:\\n%%.300q\\n%%.300q", o, b)
	}
	return n
}

const sha1 = "0123456789abcdef0123456789abcdef01234567"
const sha2 = "fedcba9876543210fedcba9876543210fedcba98"
const people = "author A U Thor <a@example.com> 1112911993 -0700\\ncommitter C O Mitter <c@example.com> 1112912053 +0130\\n"
const tagTop = "object " + sha1 + "\\ntype commit\\ntag v1\\n"
const tagger = "tagger T A Gger <t@example.com> 1112912113 +0200\\n"

var _ = strings.Repeat
var _ io.Reader
var _ datamodel.Node

%s
'''
IMPORTS = ['bytes', 'fmt', 'io', 'strings', 'testing']
THIRD = ['git "github.com/ipfs/go-ipld-git"', '"github.com/ipld/go-ipld-prime"', '"github.com/ipld/go-ipld-prime/datamodel"']
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')

def sh(c, cwd, to=300):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, errors='replace', timeout=to)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'

def seed(id, prop, edits, needs, breaks, body, imports=(), third=(), race=False):
    """edits: list of (file, old, new)."""
    d = os.path.join(V, 'seeded', id)
    t = tempfile.mkdtemp()
    try:
        r = t + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for f, old, new in edits:
            p = r + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT FAILS', f, s.count(old)); return False
            open(p, 'w').write(s.replace(old, new))
        sh('gofmt -w ' + ' '.join(set(e[0] for e in edits)), r)
        rc, o = sh('go build ./... && go vet . 2>&1 | head -5; go build ./...', r)
        if rc: print(id, 'BUILD', o[-600:]); return False
        rc, o = sh('go test -count=1 ./...', r)
        if rc: print(id, 'TESTS FAIL', o[-600:]); return False
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        imp = ''.join('\t"%s"\n' % i for i in sorted(set(IMPORTS) | set(imports))) + '\n' + ''.join('\t%s\n' % i for i in THIRD + list(third))
        open(d + '/demo_test.go', 'w').write(HEAD % (imp, body))
        sh('gofmt -w demo_test.go', d)
        open(d + '/demo.sh', 'w').write(DEMO_SH.replace('go test ', 'CGO_ENABLED=1 go test -race ') if race else DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        rc, o = sh('bash %s/demo.sh' % d, r)
        if rc == 0: print(id, 'DEMO PASSES WITH PATCH'); shutil.rmtree(d); return False
        fail = o
        sh('git checkout -- .', r)
        rc, o = sh('bash %s/demo.sh' % d, r)
        if rc: print(id, 'DEMO FAILS CLEAN', o[-800:]); return False
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        rc, o = sh('git apply --check %s/patch.diff' % d, r)
        if 'build failed' in fail or 'undefined' in fail: print(id, 'DEMO BUILD?', fail[-500:]); return False
        print(id, 'ok' if rc == 0 else 'NOAPPLY', fail.strip().splitlines()[1][:150] if rc == 0 and len(fail.strip().splitlines()) > 1 else '')
        return True
    finally:
        shutil.rmtree(t)
