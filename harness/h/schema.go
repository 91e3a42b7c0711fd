package h

import (
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"

	"verif/harness/nd"
)

func init() {
	All["StructBuild"] = StructBuild
	All["StructOptional"] = StructOptional
	All["StructBad"] = StructBad
	All["StructUnknown"] = StructUnknown
	All["StructKinds"] = StructKinds
	All["StructFields"] = StructFields
	All["StructCopy"] = StructCopy
	All["ListBuild"] = ListBuild
	All["ListIndex"] = ListIndex
	All["ListCopy"] = ListCopy
	All["ListBad"] = ListBad
	All["TreeBuild"] = TreeBuild
	All["TreeTyped"] = TreeTyped
	All["TreeBad"] = TreeBad
	All["ScalarBuild"] = ScalarBuild
	All["WrongAssign"] = WrongAssign
	All["WrongAccess"] = WrongAccess
	All["BuilderReuse"] = BuilderReuse
	All["Unfinished"] = Unfinished
}

type structType struct {
	name   string
	tp, rp ipld.NodePrototype
	fields []fieldVal
	opt    []bool
}

const nStruct = 4

func structOf(k int) structType {
	switch k {
	case 0:
		return structType{"PersonInfo", git.Type.PersonInfo, git.Type.PersonInfo__Repr, personVal("p").m, make([]bool, 4)}
	case 1:
		return structType{"TreeEntry", git.Type.TreeEntry, git.Type.TreeEntry__Repr, entryFields(1), make([]bool, 2)}
	case 2:
		return structType{"Tag", git.Type.Tag, git.Type.Tag__Repr, tagFields(), make([]bool, 5)}
	}
	return structType{"Commit", git.Type.Commit, git.Type.Commit__Repr, commitFields(),
		[]bool{false, false, false, true, true, true, true, false, false}}
}

// orders: all of them for small structs, rotations, reversal and single moves
// for larger ones.
func permOf(n int) []int {
	r := make([]int, 0, n)
	if n <= nd.Param("perm", 4) {
		left := make([]int, n)
		for i := range left {
			left[i] = i
		}
		for len(left) > 0 {
			i := nd.Choose(len(left))
			r = append(r, left[i])
			left = append(append([]int{}, left[:i]...), left[i+1:]...)
		}
		return r
	}
	o := pickOrder(n)
	for i := 0; i < n; i++ {
		switch o.kind {
		case 1:
			r = append(r, (i+o.i)%n)
		case 2:
			r = append(r, n-1-i)
		default:
			r = append(r, i)
		}
	}
	if o.kind == 3 {
		x := r[o.i]
		r = append(append([]int{}, r[:o.i]...), r[o.i+1:]...)
		r = append(append(append([]int{}, r[:o.j]...), x), r[o.j:]...)
	}
	return r
}

// readStruct: a struct node holds exactly the fields given (nil kind means
// absent), by every way of reading it.
func readStruct(n ipld.Node, st structType, has []bool, repr bool) {
	nd.Assert(n.Kind() == datamodel.Kind_Map, "a struct reads as a map")
	nd.Assert(!n.IsAbsent() && !n.IsNull(), "a struct is a value")
	cnt := 0
	for i := range st.fields {
		if has[i] || !repr {
			cnt++
		}
	}
	nd.Assert(n.Length() == int64(cnt), "the length counts the fields")
	for i, f := range st.fields {
		get := []func() (ipld.Node, error){
			func() (ipld.Node, error) { return n.LookupByString(f.name) },
			func() (ipld.Node, error) { return n.LookupByNode(basicnode.NewString(f.name)) },
			func() (ipld.Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfString(f.name)) },
		}
		for _, g := range get {
			v, err := g()
			if has[i] {
				nd.Assert(err == nil, f.name+" can be looked up")
				wantVal(v, f.v, st.name+"."+f.name)
			} else if repr {
				nd.Assert(err != nil || v.IsAbsent(), f.name+" is absent from the representation")
			} else {
				nd.Assert(err == nil && v.IsAbsent(), f.name+" is absent")
			}
		}
	}
	it := n.MapIterator()
	nd.Assert(it != nil, "a struct can be iterated")
	for i, f := range st.fields {
		if !has[i] && repr {
			continue
		}
		nd.Assert(!it.Done(), "iteration reaches every field")
		k, v, err := it.Next()
		nd.Assert(err == nil, "iteration succeeds")
		ks, err := k.AsString()
		nd.Assert(err == nil && ks == f.name, "iteration is in the order of the schema")
		if has[i] {
			wantVal(v, f.v, st.name+"."+f.name)
		} else {
			nd.Assert(v.IsAbsent(), f.name+" is absent")
		}
	}
	nd.Assert(it.Done(), "iteration ends after the last field")
	_, _, err := it.Next()
	nd.Assert(err != nil, "iteration does not go past its end")
	nd.Assert(n.ListIterator() == nil, "a struct is no list")
}

func allOf(n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = true
	}
	return r
}

// both checks a built typed node and its representation.
func both(n ipld.Node, st structType, has []bool) {
	nd.Assert(n.Prototype() == st.tp, "a built node has its type's prototype")
	readStruct(n, st, has, false)
	r := reprOf(n)
	nd.Assert(r.Prototype() == st.rp, "a representation has its prototype")
	readStruct(r, st, has, true)
	nd.Observe("d", digest(n))
}

func StructBuild() {
	st := structOf(pick(nStruct))
	p := permOf(len(st.fields))
	proto := st.tp
	if nd.Choose(2) == 1 {
		proto = st.rp
	}
	nb := proto.NewBuilder()
	ma, err := nb.BeginMap(int64([]int{-1, 0, len(p), 100}[nd.Choose(nd.Param("hints", 2))]))
	nd.Assert(err == nil, "a struct begins as a map")
	style := nd.Choose(3)
	for _, i := range p {
		f := st.fields[i]
		var va datamodel.NodeAssembler
		if style == 2 {
			nd.Assert(ma.AssembleKey().AssignNode(made(ma.KeyPrototype(), vs([]byte(f.name)))) == nil, "a field name of the key's prototype is taken")
			va = ma.AssembleValue()
			nd.Assert(va.AssignNode(made(va.Prototype(), f.v)) == nil, "a field takes what its prototype makes")
			continue
		}
		if style == 1 {
			nd.Assert(ma.AssembleKey().AssignString(f.name) == nil, "a field name is taken as a key")
			va = ma.AssembleValue()
		} else {
			va, err = ma.AssembleEntry(f.name)
			nd.Assert(err == nil, "a field name is taken as an entry")
		}
		nd.Assert(put(va, f.v) == nil, "a field takes its value")
	}
	nd.Assert(ma.Finish() == nil, "a complete struct finishes")
	both(nb.Build(), st, allOf(len(p)))
}

// StructOptional: which fields were given is what the node says.
func StructOptional() {
	st := structOf(3)
	has := allOf(len(st.fields))
	var fs []fieldVal
	for i := range st.fields {
		if st.opt[i] && nd.Choose(2) == 1 {
			has[i] = false
			continue
		}
		fs = append(fs, st.fields[i])
	}
	v := pickOrderLite().apply(vmap(fs...))
	proto := st.tp
	if nd.Choose(2) == 1 {
		proto = st.rp
	}
	var n ipld.Node
	switch nd.Choose(4) {
	case 0:
		n = typed(proto, v)
	case 1:
		nb := proto.NewBuilder()
		nd.Assert(putKV(nb, v) == nil, "conforming data assembles")
		n = nb.Build()
	case 2:
		nb := proto.NewBuilder()
		nd.Assert(nb.AssignNode(generic(v)) == nil, "conforming data assigns")
		n = nb.Build()
	case 3: // by way of another node of the type
		nb := proto.NewBuilder()
		var src ipld.Node = typed(git.Type.Commit, v)
		if nd.Choose(2) == 1 {
			src = reprOf(src)
		}
		nd.Assert(nb.AssignNode(src) == nil, "a node of the type assigns")
		n = nb.Build()
	}
	both(n, st, has)
}

func pickOrderLite() order {
	switch nd.Choose(3) {
	case 1:
		return order{kind: 2}
	case 2:
		return order{1, 4, 0}
	}
	return order{}
}

// StructBad: repeated and missing fields are refused.
func StructBad() {
	st := structOf(pick(nStruct))
	proto := st.tp
	if nd.Choose(2) == 1 {
		proto = st.rp
	}
	nb := proto.NewBuilder()
	ma, err := nb.BeginMap(-1)
	nd.Assert(err == nil, "a struct begins as a map")
	n := len(st.fields)
	byKey := nd.Choose(2) == 1
	drop := nd.Choose(n + 1) // n: none
	upto := n
	dup := -1
	if drop == n {
		upto = 1 + nd.Choose(n)
		dup = nd.Choose(upto)
	}
	for i := 0; i < upto; i++ {
		if i == drop {
			continue
		}
		f := st.fields[i]
		var va datamodel.NodeAssembler
		if byKey {
			nd.Assert(ma.AssembleKey().AssignString(f.name) == nil, "a field name is taken as a key")
			va = ma.AssembleValue()
		} else {
			va, err = ma.AssembleEntry(f.name)
			nd.Assert(err == nil, "a field name is taken as an entry")
		}
		nd.Assert(put(va, f.v) == nil, "a field takes its value")
	}
	if dup >= 0 {
		if byKey {
			err = ma.AssembleKey().AssignString(st.fields[dup].name)
		} else {
			_, err = ma.AssembleEntry(st.fields[dup].name)
		}
		nd.Assert(err != nil, "a field cannot be given twice")
		return
	}
	err = ma.Finish()
	if st.opt[drop] {
		nd.Assert(err == nil, "an optional field may be left out")
		return
	}
	nd.Assert(err != nil, "a required field cannot be left out")
}

// StructUnknown: no name but a field's is taken or found.
func StructUnknown() {
	st := structOf(pick(nStruct))
	key := string(nd.Bytes(nd.Choose(11)))
	for _, f := range st.fields {
		nd.Assume(nd.Not(nd.EqStr(key, f.name)))
	}
	n := typed(st.tp, vmap(st.fields...))
	if nd.Choose(2) == 1 {
		n = reprOf(n)
	}
	v, err := n.LookupByString(key)
	nd.Assert(err != nil && v == nil, "an unknown field is not found")
	v, err = n.LookupBySegment(datamodel.PathSegmentOfString(key))
	nd.Assert(err != nil && v == nil, "an unknown field is not found")
	proto := st.tp
	if nd.Choose(2) == 1 {
		proto = st.rp
	}
	nb := proto.NewBuilder()
	ma, err := nb.BeginMap(-1)
	nd.Assert(err == nil, "a struct begins as a map")
	if nd.Choose(2) == 1 {
		err = ma.AssembleKey().AssignString(key)
	} else {
		_, err = ma.AssembleEntry(key)
	}
	nd.Assert(err != nil, "an unknown field is refused")
}

// StructKinds: a field takes values of its kind only.
func StructKinds() {
	st := structOf(pick(nStruct))
	i := nd.Choose(len(st.fields))
	w := []val{vs(bs("x")), {k: vBytes, b: bs("x")}, vl(rawSha(1, 0)), vlist(), vmap(), {k: vInt}, {k: vNull}}[nd.Choose(7)]
	if w.k == st.fields[i].v.k {
		if w.k != vMap {
			return
		}
	}
	proto := st.tp
	if nd.Choose(2) == 1 {
		proto = st.rp
	}
	v := vmap(st.fields...)
	v.m[i].v = w
	nb := proto.NewBuilder()
	var err error
	switch nd.Choose(3) {
	case 0:
		err = put(nb, v)
	case 1:
		err = putKV(nb, v)
	case 2:
		err = nb.AssignNode(generic(v))
	}
	nd.Assert(err != nil, "a field refuses a value of another kind")
}

// StructFields: the typed accessors give what the generic ones do.
func StructFields() {
	st := structOf(pick(nStruct))
	has := allOf(len(st.fields))
	var fs []fieldVal
	for i := range st.fields {
		if st.opt[i] && nd.Choose(2) == 1 {
			has[i] = false
			continue
		}
		fs = append(fs, st.fields[i])
	}
	n := typed(st.tp, vmap(fs...))
	at := func(i int, f ipld.Node) { wantVal(f, st.fields[i].v, st.fields[i].name) }
	may := func(i int, isNull, isAbsent, exists bool, f ipld.Node) {
		nd.Assert(!isNull && isAbsent == !has[i] && exists == has[i], "an optional field says whether it is there")
		if has[i] {
			at(i, f)
		} else {
			nd.Assert(f.IsAbsent(), "an absent field reads as absent")
		}
	}
	switch x := n.(type) {
	case git.PersonInfo:
		at(0, x.FieldDate())
		at(1, x.FieldTimezone())
		at(2, x.FieldEmail())
		at(3, x.FieldName())
		// the line git would write
		g := cat(st.fields[3].v.b, bs(" <"), st.fields[2].v.b, bs("> "), st.fields[0].v.b, bs(" "), st.fields[1].v.b)
		nd.Assert(nd.EqStr(x.GitString(), string(g)), "GitString is the git form")
		nd.Assert(nd.EqStr(x.FieldName().String(), string(st.fields[3].v.b)), "a string's String is its text")
	case git.TreeEntry:
		at(0, x.FieldMode())
		at(1, x.FieldHash())
	case git.Tag:
		at(0, x.FieldObject())
		at(1, x.FieldType())
		at(2, x.FieldTag())
		at(3, x.FieldTagger())
		at(4, x.FieldMessage())
	case git.Commit:
		at(0, x.FieldTree())
		at(1, x.FieldParents())
		at(2, x.FieldMessage())
		a := x.FieldAuthor()
		may(3, a.IsNull(), a.IsAbsent(), a.Exists(), a.AsNode())
		if has[3] {
			at(3, a.Must())
		}
		a = x.FieldCommitter()
		may(4, a.IsNull(), a.IsAbsent(), a.Exists(), a.AsNode())
		if has[4] {
			at(4, a.Must())
		}
		e := x.FieldEncoding()
		may(5, e.IsNull(), e.IsAbsent(), e.Exists(), e.AsNode())
		if has[5] {
			at(5, e.Must())
		}
		g := x.FieldSignature()
		may(6, g.IsNull(), g.IsAbsent(), g.Exists(), g.AsNode())
		if has[6] {
			at(6, g.Must())
		}
		at(7, x.FieldMergetag())
		at(8, x.FieldOther())
	default:
		nd.Assert(false, "a built node has its Go type")
	}
}

// StructCopy: assigning a node, of whatever make, copies its content.
func StructCopy() {
	st := structOf(pick(nStruct))
	v := pickOrderLite().apply(vmap(st.fields...))
	var src ipld.Node
	switch nd.Choose(4) {
	case 0:
		src = typed(st.tp, v)
	case 1:
		src = reprOf(typed(st.tp, v))
	case 2:
		src = typed(st.rp, v)
	case 3:
		src = generic(v)
	}
	proto := st.tp
	if nd.Choose(2) == 1 {
		proto = st.rp
	}
	nb := proto.NewBuilder()
	if nd.Choose(2) == 1 {
		nd.Assert(datamodel.Copy(src, nb) == nil, "a conforming node can be copied")
	} else {
		nd.Assert(nb.AssignNode(src) == nil, "a conforming node can be assigned")
	}
	both(nb.Build(), st, allOf(len(st.fields)))
}

// ---- lists ----

type listType struct {
	name   string
	tp, rp ipld.NodePrototype
	elem   func(i int) val
}

const nList = 3

func listOf(k int) listType {
	switch k {
	case 0:
		return listType{"String_List", git.Type.String_List, git.Type.String_List__Repr, func(i int) val { return vs(cat(bs("s"), nd.Bytes(i%3))) }}
	case 1:
		return listType{"Commit_Link_List", git.Type.Commit_Link_List, git.Type.Commit_Link_List__Repr, func(i int) val { return vl(rawSha(i, 2)) }}
	}
	return listType{"Tag_List", git.Type.Tag_List, git.Type.Tag_List__Repr, func(i int) val { return vmap(tagFields()...) }}
}

func readList(n ipld.Node, v val, what string) {
	nd.Assert(!n.IsNull() && !n.IsAbsent(), "a list is a value")
	wantVal(n, v, what)
	for i, x := range v.list {
		e, err := n.LookupByNode(basicnode.NewInt(int64(i)))
		nd.Assert(err == nil, "an element can be looked up by a number node")
		wantVal(e, x, what)
		e, err = n.LookupBySegment(datamodel.PathSegmentOfInt(int64(i)))
		nd.Assert(err == nil, "an element can be looked up by path segment")
		wantVal(e, x, what)
		e, err = n.LookupBySegment(datamodel.PathSegmentOfString(itoa(i)))
		nd.Assert(err == nil, "an element can be looked up by a path segment in digits")
		wantVal(e, x, what)
	}
	for _, i := range []int{len(v.list), len(v.list) + 1, 1 << 20, -1} {
		e, err := n.LookupByIndex(int64(i))
		nd.Assert(err != nil && e == nil, "there is nothing past the end")
		e, err = n.LookupByNode(basicnode.NewInt(int64(i)))
		nd.Assert(err != nil && e == nil, "there is nothing past the end")
		e, err = n.LookupBySegment(datamodel.PathSegmentOfInt(int64(i)))
		nd.Assert(err != nil && e == nil, "there is nothing past the end")
	}
	_, err := n.LookupBySegment(datamodel.PathSegmentOfString("x"))
	nd.Assert(err != nil, "a list has no named elements")
	_, err = n.LookupByString("0")
	nd.Assert(err != nil, "a list is no map")
	nd.Assert(n.MapIterator() == nil, "a list is no map")
}

// made is v as the prototype makes it.
func made(p ipld.NodePrototype, v val) ipld.Node {
	nb := p.NewBuilder()
	nd.Assert(put(nb, v) == nil, "the prototype of a value makes such values")
	return nb.Build()
}

func ListBuild() {
	lt := listOf(pick(nList))
	n := nd.Choose(nd.Param("len", 5))
	if nd.Choose(6) == 0 {
		n = 17
	}
	v := vlist()
	for i := 0; i < n; i++ {
		v.list = append(v.list, lt.elem(i))
	}
	proto := lt.tp
	if nd.Choose(2) == 1 {
		proto = lt.rp
	}
	nb := proto.NewBuilder()
	hint := []int{-1, 0, 1, n, n + 1, 100}[nd.Choose(6)]
	la, err := nb.BeginList(int64(hint))
	nd.Assert(err == nil, "a list begins")
	for i, x := range v.list {
		if i < 2 {
			m := nd.Choose(3)
			if m == 1 {
				nd.Assert(la.AssembleValue().AssignNode(generic(x)) == nil, "an element takes a node")
				continue
			}
			if m == 2 {
				nd.Assert(la.AssembleValue().AssignNode(made(la.ValuePrototype(int64(i)), x)) == nil, "an element takes what its prototype makes")
				continue
			}
		}
		nd.Assert(put(la.AssembleValue(), x) == nil, "an element takes its value")
	}
	nd.Assert(la.Finish() == nil, "a list finishes")
	b := nb.Build()
	nd.Assert(b.Prototype() == lt.tp, "a built list has its prototype")
	readList(b, v, lt.name)
	readList(reprOf(b), v, lt.name)
	nd.Assert(reprOf(b).Prototype() == lt.rp, "a representation has its prototype")
	typedList(b, v)
	nd.Observe("d", digest(b))
}

// ListIndex: any number at all finds the element there or nothing, and so does
// any text as a path segment, which is a decimal number or nothing.
func ListIndex() {
	lt := listOf(nd.Choose(nList))
	n := []int{0, 1, 3, 12}[nd.Choose(4)]
	v := vlist()
	for i := 0; i < n; i++ {
		switch lt.name {
		case "String_List":
			v.list = append(v.list, vs(bs("s"+itoa(i))))
		case "Commit_Link_List":
			v.list = append(v.list, vl(rawSha(i, 0)))
		default:
			f := tagFields()
			f[2].v = vs(bs("v" + itoa(i)))
			v.list = append(v.list, vmap(f...))
		}
	}
	l := typed(lt.tp, v)
	b := ipld.Node(l)
	if nd.Choose(2) == 1 {
		b = reprOf(b)
	}
	at := -1
	var e ipld.Node
	var err error
	how := nd.Choose(5)
	if how < 4 {
		var i int64
		if how != 2 {
			i = int64(nd.U64())
		} else if i = int64(nd.Byte()); nd.Choose(2) == 1 { // such an index may be written in digits and read again
			i = []int64{-1, 1 << 31, 1 << 32, 1<<63 - 1, -1 << 63}[nd.Choose(5)]
		}
		for j := 0; j < n; j++ {
			if i == int64(j) {
				at = j
			}
		}
		switch how {
		case 0:
			e, err = b.LookupByIndex(i)
		case 1:
			e, err = b.LookupByNode(basicnode.NewInt(i))
		case 2:
			e, err = b.LookupBySegment(datamodel.PathSegmentOfInt(i))
		case 3:
			e = nil
			switch l := l.(type) {
			case git.String_List:
				if x := l.Lookup(i); x != nil {
					e = x
				}
				nd.Assert(l.LookupMaybe(i) == nil == (at < 0), "a typed look-up finds the element or nothing")
			case git.Commit_Link_List:
				if x := l.Lookup(i); x != nil {
					e = x
				}
				nd.Assert(l.LookupMaybe(i) == nil == (at < 0), "a typed look-up finds the element or nothing")
			case git.Tag_List:
				if x := l.Lookup(i); x != nil {
					e = x
				}
				nd.Assert(l.LookupMaybe(i) == nil == (at < 0), "a typed look-up finds the element or nothing")
			}
			nd.Assert((e == nil) == (at < 0), "a typed look-up finds the element or nothing")
			if at >= 0 {
				wantVal(e, v.list[at], "element")
			}
			return
		}
	} else {
		s := nd.Bytes(nd.Choose(nd.Param("seg", 4)))
		if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
			return // whether a sign may stand before a number is go-ipld-prime's to say
		}
		num, digits := 0, len(s) > 0
		for _, c := range s {
			if c < '0' || c > '9' {
				digits = false
				break
			}
			num = num*10 + int(c-'0')
		}
		if digits {
			for j := 0; j < n; j++ {
				if num == j {
					at = j
				}
			}
		}
		e, err = b.LookupBySegment(datamodel.PathSegmentOfString(string(s)))
	}
	if at < 0 {
		nd.Cover("nothing")
		nd.Assert(err != nil && e == nil, "there is nothing at any other index")
		return
	}
	nd.Cover("element")
	nd.Assert(err == nil && e != nil, "an element is found by its index")
	wantVal(e, v.list[at], "element")
}

// typedList reads by the typed methods.
func typedList(b ipld.Node, v val) {
	n := int64(len(v.list))
	chk := func(i int64, x ipld.Node) { wantVal(x, v.list[i], "element") }
	switch l := b.(type) {
	case git.String_List:
		it := l.Iterator()
		for i := int64(0); i < n; i++ {
			chk(i, l.Lookup(i))
			chk(i, l.LookupMaybe(i).Must())
			nd.Assert(!it.Done(), "typed iteration reaches every element")
			j, x := it.Next()
			nd.Assert(i == j, "typed iteration is in order")
			chk(i, x)
		}
		nd.Assert(it.Done(), "typed iteration ends")
		_, x := it.Next()
		nd.Assert(x == nil && l.Lookup(n) == nil && l.LookupMaybe(n) == nil, "there is nothing past the end")
	case git.Commit_Link_List:
		it := l.Iterator()
		for i := int64(0); i < n; i++ {
			chk(i, l.Lookup(i))
			chk(i, l.LookupMaybe(i).Must())
			nd.Assert(!it.Done(), "typed iteration reaches every element")
			j, x := it.Next()
			nd.Assert(i == j, "typed iteration is in order")
			chk(i, x)
		}
		nd.Assert(it.Done(), "typed iteration ends")
		_, x := it.Next()
		nd.Assert(x == nil && l.Lookup(n) == nil && l.LookupMaybe(n) == nil, "there is nothing past the end")
	case git.Tag_List:
		it := l.Iterator()
		for i := int64(0); i < n; i++ {
			chk(i, l.Lookup(i))
			chk(i, l.LookupMaybe(i).Must())
			nd.Assert(!it.Done(), "typed iteration reaches every element")
			j, x := it.Next()
			nd.Assert(i == j, "typed iteration is in order")
			chk(i, x)
		}
		nd.Assert(it.Done(), "typed iteration ends")
		_, x := it.Next()
		nd.Assert(x == nil && l.Lookup(n) == nil && l.LookupMaybe(n) == nil, "there is nothing past the end")
	default:
		nd.Assert(false, "a built list has its Go type")
	}
}

func ListCopy() {
	lt := listOf(pick(nList))
	v := vlist()
	for i := nd.Choose(4); i > 0; i-- {
		v.list = append(v.list, lt.elem(i))
	}
	var src ipld.Node
	switch nd.Choose(4) {
	case 0:
		src = typed(lt.tp, v)
	case 1:
		src = reprOf(typed(lt.tp, v))
	case 2:
		src = typed(lt.rp, v)
	case 3:
		src = generic(v)
	}
	proto := lt.tp
	if nd.Choose(2) == 1 {
		proto = lt.rp
	}
	nb := proto.NewBuilder()
	nd.Assert(nb.AssignNode(src) == nil, "a conforming list can be assigned")
	readList(nb.Build(), v, lt.name)
}

// ListBad: elements of another kind are refused.
func ListBad() {
	lt := listOf(pick(nList))
	x := lt.elem(0)
	w := []val{vs(bs("x")), {k: vBytes, b: bs("x")}, vl(rawSha(1, 0)), vlist(), vmap(), {k: vInt}, {k: vNull}}[nd.Choose(7)]
	if w.k == x.k && w.k != vMap {
		return
	}
	v := vlist(x, w)
	proto := lt.tp
	if nd.Choose(2) == 1 {
		proto = lt.rp
	}
	nb := proto.NewBuilder()
	var err error
	if nd.Choose(2) == 1 {
		err = put(nb, v)
	} else {
		err = nb.AssignNode(generic(v))
	}
	nd.Assert(err != nil, "a list refuses an element of another kind")
}

// ---- the tree map ----

func readTree(n ipld.Node, t tree) {
	nd.Assert(n.Kind() == datamodel.Kind_Map && !n.IsAbsent() && !n.IsNull(), "a tree is a map")
	t.want(n)
	for _, e := range t {
		v, err := n.LookupByNode(basicnode.NewString(string(e.name)))
		nd.Assert(err == nil, "an entry can be looked up by a string node")
		wantStr(v, "mode", e.mode)
		wantLink(v, "hash", e.sha)
		v, err = n.LookupBySegment(datamodel.PathSegmentOfString(string(e.name)))
		nd.Assert(err == nil, "an entry can be looked up by path segment")
		wantStr(v, "mode", e.mode)
		wantLink(v, "hash", e.sha)
	}
	nd.Assert(n.ListIterator() == nil, "a tree is no list")
}

func smallTree() tree {
	var t tree
	n := nd.Choose(nd.Param("entries", 3) + 1)
	for i := 0; i < n; i++ {
		t = append(t, entry{bs("100644"), text(nd.Choose(2)+1, ""), rawSha(i, 2)})
	}
	for i := range t {
		for j := 0; j < i; j++ {
			if len(t[i].name) == len(t[j].name) {
				nd.Assume(nd.Not(nd.Eq(t[i].name, t[j].name)))
			}
		}
	}
	return t
}

func TreeBuild() {
	t := smallTree()
	if nd.Choose(8) == 0 {
		t = genTree(4)
	}
	v := treeVal(t)
	proto := ipld.NodePrototype(git.Type.Tree)
	if nd.Choose(2) == 1 {
		proto = git.Type.Tree__Repr
	}
	nb := proto.NewBuilder()
	switch nd.Choose(6) {
	case 5:
		ma, err := nb.BeginMap(int64(len(t)))
		nd.Assert(err == nil, "a tree begins")
		for _, f := range v.m {
			k := made(ma.KeyPrototype(), vs([]byte(f.name)))
			x := made(ma.ValuePrototype(f.name), f.v)
			nd.Assert(ma.AssembleKey().AssignNode(k) == nil, "a tree takes a key its prototype makes")
			nd.Assert(ma.AssembleValue().AssignNode(x) == nil, "a tree takes an entry its prototype makes")
		}
		nd.Assert(ma.Finish() == nil, "a tree finishes")
	case 0:
		nd.Assert(put(nb, v) == nil, "a tree assembles")
	case 1:
		nd.Assert(putKV(nb, v) == nil, "a tree assembles by key and value")
	case 2:
		nd.Assert(nb.AssignNode(generic(v)) == nil, "a foreign map can be assigned")
	case 3:
		nd.Assert(nb.AssignNode(typed(git.Type.Tree, v)) == nil, "a tree can be assigned")
	case 4:
		nd.Assert(nb.AssignNode(reprOf(typed(git.Type.Tree, v))) == nil, "a tree's representation can be assigned")
	}
	n := nb.Build()
	nd.Assert(n.Prototype() == git.Type.Tree, "a built tree has its prototype")
	readTree(n, t)
	readTree(reprOf(n), t)
	// no other name is found
	k := text(nd.Choose(3), "")
	for _, e := range t {
		if len(k) == len(e.name) {
			nd.Assume(nd.Not(nd.Eq(k, e.name)))
		}
	}
	x, err := n.LookupByString(string(k))
	nd.Assert(err != nil && x == nil, "no name but the entries' is found")
	x, err = reprOf(n).LookupByString(string(k))
	nd.Assert(err != nil && x == nil, "no name but the entries' is found")
}

// TreeTyped: the typed map methods.
func TreeTyped() {
	t := smallTree()
	n := typed(git.Type.Tree, treeVal(t)).(git.Tree)
	key := func(b []byte) git.String {
		s, err := git.Type.String.FromString(string(b))
		nd.Assert(err == nil, "a string is made")
		return s
	}
	it := n.Iterator()
	for _, e := range t {
		v := n.Lookup(key(e.name))
		nd.Assert(v != nil, "an entry is found by key")
		wantStr(v, "mode", e.mode)
		wantLink(v, "hash", e.sha)
		v = n.LookupMaybe(key(e.name)).Must()
		wantLink(v, "hash", e.sha)
		x, err := n.LookupByNode(key(e.name))
		nd.Assert(err == nil, "an entry is found by key node")
		wantLink(x, "hash", e.sha)
		nd.Assert(!it.Done(), "typed iteration reaches every entry")
		k, v := it.Next()
		nd.Assert(nd.EqStr(k.String(), string(e.name)), "typed iteration is in order")
		wantStr(v, "mode", e.mode)
		wantLink(v, "hash", e.sha)
	}
	nd.Assert(it.Done(), "typed iteration ends")
	k, v := it.Next()
	nd.Assert(k == nil && v == nil, "typed iteration does not go past its end")
	q := text(nd.Choose(3), "")
	for _, e := range t {
		if len(q) == len(e.name) {
			nd.Assume(nd.Not(nd.Eq(q, e.name)))
		}
	}
	nd.Assert(n.Lookup(key(q)) == nil, "no other entry is found")
	m := n.LookupMaybe(key(q))
	nd.Assert(m == nil || m.IsAbsent(), "no other entry is found")
}

// TreeBad: a repeated name is refused, and values of another kind.
func TreeBad() {
	t := smallTree()
	if len(t) == 0 {
		return
	}
	proto := ipld.NodePrototype(git.Type.Tree)
	if nd.Choose(2) == 1 {
		proto = git.Type.Tree__Repr
	}
	nb := proto.NewBuilder()
	if nd.Choose(2) == 0 {
		v := treeVal(t)
		i := nd.Choose(len(t))
		v.m[i].v = []val{vs(bs("x")), {k: vBytes, b: bs("x")}, vl(rawSha(1, 0)), vlist(), vmap(), {k: vInt}, {k: vNull}}[nd.Choose(7)]
		switch nd.Choose(3) {
		case 0:
			nd.Assert(put(nb, v) != nil, "a tree refuses values that are no entries")
		case 1:
			nd.Assert(putKV(nb, v) != nil, "a tree refuses values that are no entries")
		case 2:
			nd.Assert(nb.AssignNode(generic(v)) != nil, "a tree refuses values that are no entries")
		}
		return
	}
	ma, err := nb.BeginMap(int64(nd.Choose(2) * 5))
	nd.Assert(err == nil, "a tree begins")
	for _, e := range t {
		va, err := ma.AssembleEntry(string(e.name))
		nd.Assert(err == nil, "a new name is taken")
		nd.Assert(put(va, vmap(kv("mode", vs(e.mode)), kv("hash", vl(e.sha)))) == nil, "an entry is taken")
	}
	_, err = ma.AssembleEntry(string(t[nd.Choose(len(t))].name))
	nd.Assert(err != nil, "a name already there is refused")
}

// ---- scalars and kinds ----

var scalarProtos = []struct {
	tp, rp ipld.NodePrototype
	k      vkind
}{
	{git.Type.String, git.Type.String__Repr, vStr},
	{git.Type.GpgSig, git.Type.GpgSig__Repr, vStr},
	{git.Type.Blob, git.Type.Blob__Repr, vBytes},
	{git.Type.Link, git.Type.Link__Repr, vLink},
	{git.Type.Commit_Link, git.Type.Commit_Link__Repr, vLink},
	{git.Type.Tree_Link, git.Type.Tree_Link__Repr, vLink},
}

func scalar(k vkind) val {
	switch k {
	case vStr:
		return vs(nd.Bytes(nd.Choose(4)))
	case vBytes:
		return val{k: vBytes, b: nd.Bytes(nd.Choose(4))}
	}
	return vl(rawSha(1, 20))
}

func ScalarBuild() {
	i := pick(len(scalarProtos))
	sp := scalarProtos[i]
	v := scalar(sp.k)
	proto := sp.tp
	if nd.Choose(2) == 1 {
		proto = sp.rp
	}
	nb := proto.NewBuilder()
	var src ipld.Node
	switch nd.Choose(5) {
	case 0:
		nd.Assert(put(nb, v) == nil, "a scalar takes its value")
	case 1:
		src = generic(v)
	case 2:
		src = typed(sp.tp, v)
	case 3:
		src = reprOf(typed(sp.tp, v))
	case 4: // of a sister type
		j := nd.Choose(len(scalarProtos))
		if scalarProtos[j].k != sp.k {
			return
		}
		src = typed(scalarProtos[j].tp, v)
	}
	if src != nil {
		nd.Assert(nb.AssignNode(src) == nil, "a scalar takes a node of its kind")
	}
	n := nb.Build()
	nd.Assert(n.Prototype() == sp.tp, "a built scalar has its prototype")
	wantVal(n, v, "scalar")
	wantVal(reprOf(n), v, "scalar's representation")
	nd.Assert(n.Length() == -1, "a scalar has no length")
	nd.Observe("d", digest(n))
	switch i {
	case 0:
		x, err := git.Type.String.FromString(string(v.b))
		nd.Assert(err == nil && nd.EqStr(x.String(), string(v.b)), "FromString keeps the text")
		wantVal(x, v, "String")
	case 1:
		x, err := git.Type.GpgSig.FromString(string(v.b))
		nd.Assert(err == nil && nd.EqStr(x.String(), string(v.b)), "FromString keeps the text")
		wantVal(x, v, "GpgSig")
	case 2:
		x, err := git.Type.Blob.FromBytes(v.b)
		nd.Assert(err == nil && nd.Eq(x.Bytes(), v.b), "FromBytes keeps the bytes")
		wantVal(x, v, "Blob")
	case 3:
		x, err := git.Type.Link.FromLink(mkLink(v.b))
		nd.Assert(err == nil && nd.EqStr(x.Link().Binary(), string(cidOf(v.b))), "FromLink keeps the link")
		wantVal(x, v, "Link")
	case 4:
		x, err := git.Type.Commit_Link.FromLink(mkLink(v.b))
		nd.Assert(err == nil && nd.EqStr(x.Link().Binary(), string(cidOf(v.b))), "FromLink keeps the link")
		wantVal(x, v, "Commit_Link")
		t, ok := n.(schema.TypedLinkNode)
		nd.Assert(ok && t.LinkTargetNodePrototype() == git.Type.Commit__Repr, "a commit link points to a commit")
	case 5:
		x, err := git.Type.Tree_Link.FromLink(mkLink(v.b))
		nd.Assert(err == nil && nd.EqStr(x.Link().Binary(), string(cidOf(v.b))), "FromLink keeps the link")
		wantVal(x, v, "Tree_Link")
		t, ok := n.(schema.TypedLinkNode)
		nd.Assert(ok && t.LinkTargetNodePrototype() == git.Type.Tree__Repr, "a tree link points to a tree")
	}
}

// anyNode is a node of every type of the schema.
const nType = 14

func anyNode(k int) (n ipld.Node, tp, rp ipld.NodePrototype, kind datamodel.Kind) {
	switch {
	case k < 4:
		st := structOf(k)
		return typed(st.tp, vmap(st.fields...)), st.tp, st.rp, datamodel.Kind_Map
	case k < 7:
		lt := listOf(k - 4)
		return typed(lt.tp, vlist(lt.elem(1))), lt.tp, lt.rp, datamodel.Kind_List
	case k < 13:
		sp := scalarProtos[k-7]
		v := val{k: sp.k, b: bs("abc")}
		kind = datamodel.Kind_String
		if sp.k == vLink {
			v.b = rawSha(1, 0)
			kind = datamodel.Kind_Link
		} else if sp.k == vBytes {
			kind = datamodel.Kind_Bytes
		}
		return typed(sp.tp, v), sp.tp, sp.rp, kind
	}
	return typed(git.Type.Tree, vmap(kv("a", vmap(entryFields(1)...)))), git.Type.Tree, git.Type.Tree__Repr, datamodel.Kind_Map
}

// WrongAssign: a builder takes data of its type's kind only.
func WrongAssign() {
	_, tp, rp, kind := anyNode(pick(nType))
	p := tp
	if nd.Choose(2) == 1 {
		p = rp
	}
	nb := p.NewBuilder()
	var err error
	var k datamodel.Kind
	asNode := nd.Choose(2) == 1
	switch nd.Choose(9) {
	case 0:
		k = datamodel.Kind_Null
		if asNode {
			err = nb.AssignNode(datamodel.Null)
		} else {
			err = nb.AssignNull()
		}
	case 1:
		k = datamodel.Kind_Bool
		if asNode {
			err = nb.AssignNode(basicnode.NewBool(true))
		} else {
			err = nb.AssignBool(true)
		}
	case 2:
		k = datamodel.Kind_Int
		if asNode {
			err = nb.AssignNode(basicnode.NewInt(3))
		} else {
			err = nb.AssignInt(3)
		}
	case 3:
		k = datamodel.Kind_Float
		if asNode {
			err = nb.AssignNode(basicnode.NewFloat(1.5))
		} else {
			err = nb.AssignFloat(1.5)
		}
	case 4:
		k = datamodel.Kind_String
		if k == kind {
			return
		}
		if asNode {
			err = nb.AssignNode(basicnode.NewString(string(nd.Bytes(1))))
		} else {
			err = nb.AssignString(string(nd.Bytes(1)))
		}
	case 5:
		k = datamodel.Kind_Bytes
		if k == kind {
			return
		}
		if asNode {
			err = nb.AssignNode(basicnode.NewBytes(nd.Bytes(1)))
		} else {
			err = nb.AssignBytes(nd.Bytes(1))
		}
	case 6:
		k = datamodel.Kind_Link
		if k == kind {
			return
		}
		if asNode {
			err = nb.AssignNode(basicnode.NewLink(mkLink(rawSha(1, 2))))
		} else {
			err = nb.AssignLink(mkLink(rawSha(1, 2)))
		}
	case 7:
		k = datamodel.Kind_List
		if k == kind {
			return
		}
		if asNode {
			err = nb.AssignNode(mkList(vs(bs("a"))))
		} else {
			_, err = nb.BeginList(1)
		}
	case 8:
		k = datamodel.Kind_Map
		if k == kind {
			return
		}
		if asNode {
			err = nb.AssignNode(mkMap(kv("a", vs(bs("a")))))
		} else {
			_, err = nb.BeginMap(1)
		}
	}
	nd.Assert(err != nil, "a builder refuses data of another kind")
}

// WrongAccess: a node answers for its own kind only.
func WrongAccess() {
	n, _, _, kind := anyNode(pick(nType))
	if nd.Choose(2) == 1 {
		n = reprOf(n)
	}
	nd.Assert(n.Kind() == kind, "a node has its kind")
	nd.Assert(!n.IsAbsent() && !n.IsNull(), "a node is a value")
	_, err := n.AsBool()
	nd.Assert(err != nil, "no node is a bool")
	_, err = n.AsInt()
	nd.Assert(err != nil, "no node is an int")
	_, err = n.AsFloat()
	nd.Assert(err != nil, "no node is a float")
	_, err = n.AsString()
	nd.Assert((err == nil) == (kind == datamodel.Kind_String), "only strings are strings")
	_, err = n.AsBytes()
	nd.Assert((err == nil) == (kind == datamodel.Kind_Bytes), "only bytes are bytes")
	_, err = n.AsLink()
	nd.Assert((err == nil) == (kind == datamodel.Kind_Link), "only links are links")
	if kind != datamodel.Kind_Map {
		nd.Assert(n.MapIterator() == nil, "only maps iterate as maps")
		_, err = n.LookupByString(string(nd.Bytes(1)))
		nd.Assert(err != nil, "only maps have keys")
	}
	if kind != datamodel.Kind_List {
		nd.Assert(n.ListIterator() == nil, "only lists iterate as lists")
		_, err = n.LookupByIndex(int64(nd.Choose(2)))
		nd.Assert(err != nil, "only lists have indexes")
	}
	if kind != datamodel.Kind_List && kind != datamodel.Kind_Map {
		nd.Assert(n.Length() == -1, "a scalar has no length")
		_, err = n.LookupBySegment(datamodel.PathSegmentOfString("a"))
		nd.Assert(err != nil, "a scalar has nothing within")
		_, err = n.LookupByNode(basicnode.NewString("a"))
		nd.Assert(err != nil, "a scalar has nothing within")
	}
	tn, ok := n.(schema.TypedNode)
	if ok {
		nd.Assert(tn.Representation().Kind() == kind, "the representation is of the same kind")
	}
}

// BuilderReuse: a builder that was reset starts afresh and leaves the node it
// built before alone.
func BuilderReuse() {
	k := pick(nType)
	a, tp, rp, _ := anyNode(k)
	b, _, _, _ := anyNode(k)
	p := tp
	if nd.Choose(2) == 1 {
		p = rp
	}
	da, db := digest(a), digest(b)
	nb := p.NewBuilder()
	cp := func(n ipld.Node) error {
		if nd.Choose(2) == 1 {
			return nb.AssignNode(n)
		}
		return datamodel.Copy(n, nb)
	}
	nd.Assert(cp(a) == nil, "a node is copied")
	x := nb.Build()
	nb.Reset()
	nd.Assert(cp(b) == nil, "a reset builder takes another")
	y := nb.Build()
	nd.Assert(nd.Eq(digest(x), da), "the first node keeps its content")
	nd.Assert(nd.Eq(digest(y), db), "the second has its own")
	nd.Assert(nd.Eq(digest(a), da) && nd.Eq(digest(b), db), "copying leaves the sources alone")
}

// noNode: a builder has nothing to give.
func noNode(nb ipld.NodeBuilder) (none bool) {
	defer func() {
		if recover() != nil {
			none = true
		}
	}()
	return nb.Build() == nil
}

// Unfinished: a builder gives no node before one is complete, whatever was
// assembled, and whatever was refused.
func Unfinished() {
	k := pick(nType)
	full, tp, rp, kind := anyNode(k)
	nb := tp.NewBuilder()
	if nd.Choose(2) == 1 {
		nb = rp.NewBuilder()
	}
	if nd.Choose(2) == 1 { // not for the first time
		nd.Assert(nb.AssignNode(full) == nil, "a node is copied")
		nb.Build()
		nb.Reset()
	}
	refuse := nd.Choose(2) == 1
	if refuse {
		nd.Assert(nb.AssignBool(true) != nil, "no type takes booleans")
	}
	const msg = "an unfinished builder gives no node"
	switch kind {
	case datamodel.Kind_Map:
		var fs []fieldVal
		var must int // that many are required
		if k < 4 {
			st := structOf(k)
			for i, f := range st.fields {
				if !st.opt[i] {
					must++
					fs = append(fs, f)
				}
			}
		} else {
			fs = []fieldVal{kv("a", vmap(entryFields(1)...)), kv("b", vmap(entryFields(2)...))}
		}
		upto := nd.Choose(len(fs) + 2)
		if upto == 0 {
			break
		}
		ma, err := nb.BeginMap(-1)
		nd.Assert(err == nil, "a map begins")
		for _, f := range fs[:upto-1] {
			va, err := ma.AssembleEntry(f.name)
			nd.Assert(err == nil && put(va, f.v) == nil, "a field takes its value")
		}
		if upto-1 < must && nd.Choose(2) == 1 {
			nd.Assert(ma.Finish() != nil, "a required field cannot be left out")
		}
	case datamodel.Kind_List:
		upto := nd.Choose(4)
		if upto == 0 {
			break
		}
		lt := listOf(k - 4)
		la, err := nb.BeginList(-1)
		nd.Assert(err == nil, "a list begins")
		for i := 1; i < upto; i++ {
			nd.Assert(put(la.AssembleValue(), lt.elem(i)) == nil, "an element is taken")
		}
	}
	nd.Assert(noNode(nb), msg)
}
