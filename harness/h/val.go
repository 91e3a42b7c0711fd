package h

import (
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"

	"verif/harness/nd"
)

// A model of node contents, to build nodes from and to compare nodes with.

type vkind int

const (
	vStr vkind = iota
	vBytes
	vLink
	vList
	vMap
	vInt
	vNull
)

type val struct {
	k    vkind
	b    []byte // text, bytes, or the 20 bytes of a hash
	list []val
	m    []fieldVal
}

type fieldVal struct {
	name string
	v    val
}

func kv(name string, v val) fieldVal { return fieldVal{name, v} }
func vs(b []byte) val                { return val{k: vStr, b: b} }
func vl(sha []byte) val              { return val{k: vLink, b: sha} }
func vlist(x ...val) val             { return val{k: vList, list: x} }
func vmap(x ...fieldVal) val         { return val{k: vMap, m: x} }

// put assembles v the long way.
func put(na datamodel.NodeAssembler, v val) error {
	switch v.k {
	case vStr:
		return na.AssignString(string(v.b))
	case vBytes:
		return na.AssignBytes(v.b)
	case vLink:
		return na.AssignLink(mkLink(v.b))
	case vInt:
		return na.AssignInt(7)
	case vNull:
		return na.AssignNull()
	case vList:
		la, err := na.BeginList(int64(len(v.list)))
		if err != nil {
			return err
		}
		for _, x := range v.list {
			if err := put(la.AssembleValue(), x); err != nil {
				return err
			}
		}
		return la.Finish()
	}
	ma, err := na.BeginMap(int64(len(v.m)))
	if err != nil {
		return err
	}
	for _, f := range v.m {
		va, err := ma.AssembleEntry(f.name)
		if err != nil {
			return err
		}
		if err := put(va, f.v); err != nil {
			return err
		}
	}
	return ma.Finish()
}

// generic builds v with go-ipld-prime's own untyped nodes.
func generic(v val) ipld.Node {
	nb := basicnode.Prototype.Any.NewBuilder()
	if err := put(nb, v); err != nil {
		panic("harness: " + err.Error())
	}
	return nb.Build()
}

func mkMap(f ...fieldVal) ipld.Node { return generic(vmap(f...)) }
func mkList(v ...val) ipld.Node     { return generic(vlist(v...)) }

// typed builds v with the given prototype.
func typed(p ipld.NodePrototype, v val) ipld.Node {
	nb := p.NewBuilder()
	err := put(nb, v)
	nd.Assert(err == nil, "assembling conforming data succeeds")
	return nb.Build()
}

// wantVal: n holds v, read through its kind's accessors.
func wantVal(n ipld.Node, v val, what string) {
	nd.Assert(n != nil && !n.IsNull() && !n.IsAbsent(), what+" is there")
	switch v.k {
	case vStr:
		nd.Assert(n.Kind() == datamodel.Kind_String, what+" has string kind")
		s, err := n.AsString()
		nd.Assert(err == nil && nd.EqStr(s, string(v.b)), what+" holds the assigned text")
	case vBytes:
		nd.Assert(n.Kind() == datamodel.Kind_Bytes, what+" has bytes kind")
		b, err := n.AsBytes()
		nd.Assert(err == nil && nd.Eq(b, v.b), what+" holds the assigned bytes")
	case vLink:
		nd.Assert(n.Kind() == datamodel.Kind_Link, what+" has link kind")
		nd.Assert(nd.Eq(linkBytes(n, what), cidOf(v.b)), what+" holds the assigned link")
	case vList:
		nd.Assert(n.Kind() == datamodel.Kind_List, what+" has list kind")
		nd.Assert(n.Length() == int64(len(v.list)), what+" has the assigned length")
		it := n.ListIterator()
		nd.Assert(it != nil, what+" can be iterated")
		for i, x := range v.list {
			e, err := n.LookupByIndex(int64(i))
			nd.Assert(err == nil, what+" can be indexed")
			wantVal(e, x, what+" element")
			nd.Assert(!it.Done(), what+" iteration reaches every element")
			j, e, err := it.Next()
			nd.Assert(err == nil && j == int64(i), what+" iteration is in order")
			wantVal(e, x, what+" element")
		}
		nd.Assert(it.Done(), what+" iteration ends")
		_, _, err := it.Next()
		nd.Assert(err != nil, what+" iteration does not go past its end")
		_, err = n.LookupByIndex(int64(len(v.list)))
		nd.Assert(err != nil, what+" has nothing past its end")
	case vMap:
		nd.Assert(n.Kind() == datamodel.Kind_Map, what+" has map kind")
		for _, f := range v.m {
			e, err := n.LookupByString(f.name)
			nd.Assert(err == nil, what+"."+f.name+" can be looked up")
			wantVal(e, f.v, what+"."+f.name)
		}
	}
}

func personVal(seed string) val {
	return vmap(kv("date", vs(bs("1112911993"))), kv("timezone", vs(bs("-0700"))), kv("email", vs(cat(bs(seed+"@"), text(1, "<>\n ")))), kv("name", vs(cat(bs(seed+" "), text(1, "<>\n ")))))
}

// commitFields is a full commit in schema order.
func commitFields() []fieldVal {
	return []fieldVal{
		kv("tree", vl(rawSha(1, 2))),
		kv("parents", vlist(vl(rawSha(2, 2)), vl(rawSha(3, 0)))),
		kv("message", vs(cat(bs("msg "), text(1, ""), bs("\n")))),
		kv("author", personVal("au")),
		kv("committer", personVal("co")),
		kv("encoding", vs(cat(bs("E"), text(1, "\n")))),
		kv("signature", vs(cat(bs(" \n iQ"), text(1, "\n"), bs("\n")))),
		kv("mergetag", vlist(vmap(tagFieldsMsg(cat(bs(" M"), text(1, "\n"), bs("\n")))...))),
		kv("other", vlist(vs(cat(bs("x-h "), text(1, "\n"))), vs(bs("y z")))),
	}
}

func tagFieldsMsg(msg []byte) []fieldVal {
	return []fieldVal{
		kv("object", vl(rawSha(4, 2))),
		kv("type", vs(bs("commit"))),
		kv("tag", vs(cat(bs("v"), text(1, "\n")))),
		kv("tagger", personVal("ta")),
		kv("message", vs(msg)),
	}
}

func tagFields() []fieldVal { return tagFieldsMsg(cat(bs("rel"), text(1, ""), bs("\n"))) }

func entryFields(seed int) []fieldVal {
	return []fieldVal{kv("mode", vs(cat(bs("10064"), text(1, " ")))), kv("hash", vl(rawSha(seed, 2)))}
}
