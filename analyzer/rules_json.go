package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// jsonField is a field of the TUF specification: its name, the Go field that
// holds it, and when the field may be left out.
type jsonField struct {
	name, field string
	optional    string // "": always written, else "nil", "zero" or "empty"
}

// specTable is the file format of the TUF specification (section 4), with
// succinct roles as in TAP 15.
var specTable = map[string][]jsonField{
	"Metadata":      {{"signed", "Signed", ""}, {"signatures", "Signatures", ""}},
	"Signature":     {{"keyid", "KeyID", ""}, {"sig", "Signature", ""}},
	"RootType":      {{"_type", "Type", ""}, {"spec_version", "SpecVersion", ""}, {"consistent_snapshot", "ConsistentSnapshot", ""}, {"version", "Version", ""}, {"expires", "Expires", ""}, {"keys", "Keys", ""}, {"roles", "Roles", ""}},
	"SnapshotType":  {{"_type", "Type", ""}, {"spec_version", "SpecVersion", ""}, {"version", "Version", ""}, {"expires", "Expires", ""}, {"meta", "Meta", ""}},
	"TimestampType": {{"_type", "Type", ""}, {"spec_version", "SpecVersion", ""}, {"version", "Version", ""}, {"expires", "Expires", ""}, {"meta", "Meta", ""}},
	"TargetsType":   {{"_type", "Type", ""}, {"spec_version", "SpecVersion", ""}, {"version", "Version", ""}, {"expires", "Expires", ""}, {"targets", "Targets", ""}, {"delegations", "Delegations", "nil"}},
	"MetaFiles":     {{"length", "Length", "zero"}, {"hashes", "Hashes", "empty"}, {"version", "Version", ""}},
	"TargetFiles":   {{"length", "Length", ""}, {"hashes", "Hashes", ""}, {"custom", "Custom", "nil"}},
	"Key":           {{"keytype", "Type", ""}, {"scheme", "Scheme", ""}, {"keyval", "Value", ""}},
	"KeyVal":        {{"public", "PublicKey", ""}},
	"Role":          {{"keyids", "KeyIDs", ""}, {"threshold", "Threshold", ""}},
	"Delegations":   {{"keys", "Keys", ""}, {"roles", "Roles", "nil"}, {"succinct_roles", "SuccinctRoles", "nil"}},
	"DelegatedRole": {{"name", "Name", ""}, {"keyids", "KeyIDs", ""}, {"threshold", "Threshold", ""}, {"terminating", "Terminating", ""}, {"paths", "Paths", "nil"}, {"path_hash_prefixes", "PathHashPrefixes", "nil"}},
	"SuccinctRoles": {{"keyids", "KeyIDs", ""}, {"threshold", "Threshold", ""}, {"bit_length", "BitLength", ""}, {"name_prefix", "NamePrefix", ""}},
}

// exclusive are the optional fields of which only one may be set.
var exclusive = map[string][2]string{
	"Delegations":   {"Roles", "SuccinctRoles"},
	"DelegatedRole": {"Paths", "PathHashPrefixes"},
}

func ruleC07(c *Ctx) {
	c.rule("write", "every field that is set is written under its specified name with its value, and nothing else is written but the unrecognised fields")
	c.rule("kept", "all unrecognised fields are written too, before and so without replacing the recognised ones")
	c.rule("read", "every specified name is read into its field")
	c.rule("unrecognised", "every other name, and only those, is kept as unrecognised")
	c.rule("refused", "serialising fails only for an object that sets two fields that exclude each other")
	c.rule("path", "every target file knows the path it is listed under")
	c.rule("bytes", "a digest or signature is written as its lowercase hexadecimal digits")
	c.rule("whole", "ToBytes serialises the whole object")
	for _, name := range sortedKeys(specTable) {
		targs := []string{""}
		if name == "Metadata" {
			targs = sortedKeys(metaRole)
		}
		for _, targ := range targs {
			var t types.Type
			label := name
			if targ == "" {
				t = c.P.namedType("metadata", name)
			} else {
				t = c.P.namedType("metadata", name, targ)
				label = name + "[" + targ + "]"
			}
			c.jsonWriter(t.(*types.Named), name, label)
			c.jsonReader(t.(*types.Named), name, label)
		}
	}
	c.hexWriter()
	for _, targ := range sortedKeys(metaRole) {
		c.wholeObject(targ)
	}
	c.need("write", 60)
	c.need("kept", 15)
	c.need("read", 50)
	c.need("unrecognised", 15)
	c.need("path", 1)
	c.need("bytes", 1)
	c.need("whole", 4)
}

func isMarshal(t *Term, i string) bool { return t.op == "app" && t.name == "json.Marshal:"+i }

func (c *Ctx) jsonWriter(nt *types.Named, name, label string) {
	m := c.P.methodIf(nt, "MarshalJSON")
	if !c.check("write", m != nil, nt.Obj().Pos(), nil, "%s has no serialiser of its own", label) {
		return
	}
	_, ptr := m.Signature.Recv().Type().(*types.Pointer)
	if !c.check("write", !ptr, m.Pos(), nil, "%s is not serialised by its own serialiser when it is part of another object", label) {
		return
	}
	an := c.analyse(c.eng(), m, nil)
	for _, r := range an.results() {
		if r.kind != "ret" {
			continue
		}
		pos := posOf(an, r.Outcome)
		st, recv := r.st, an.arg(0)
		if !isMarshal(r.rets[0], "0") || len(r.rets[0].args) < 2 {
			// a failure: of the library, or of an object with both fields
			lib := isMarshal(r.rets[1], "1")
			both := false
			if ex, ok := exclusive[name]; ok {
				both = st.holds(nonNil(get(st, recv, ex[0]))) && st.holds(nonNil(get(st, recv, ex[1])))
			}
			c.check("refused", (lib || both) && !r.ok, pos, st, "%s may refuse to serialise an object that is fine, or return something else than the serialised object", label)
			continue
		}
		mv := r.rets[0].args[1]
		written := map[string]*Term{}
		good := true
		for mv.op == "mupd" && mv.args[1].op == "const" {
			k, _ := mv.args[1].strVal()
			if written[k] == nil {
				written[k] = mv.args[2]
			}
			mv = mv.args[0]
		}
		for _, f := range specTable[name] {
			v, ok := written[f.name]
			delete(written, f.name)
			want := get(st, recv, f.field)
			ft := fieldType(nt, f.field)
			if ok {
				c.check("write", v.op == "iface" && v.args[0] == want && types.Identical(v.typ, ft), pos, st, "%s writes something else than field %s under %q", label, f.field, f.name)
				continue
			}
			unset := false
			switch f.optional {
			case "nil":
				unset = st.holds(isNilT(want))
			case "zero":
				unset = st.holds(eqT(want, mkInt(0)))
			case "empty":
				unset = st.holds(isNilT(want)) || st.holds(eqT(mkLen(st.mapVal(want)), mkInt(0)))
			}
			c.check("write", unset, pos, st, "%s may leave out field %s (%q) though it is set", label, f.field, f.name)
		}
		for _, k := range sortedKeys(written) {
			good = false
			c.check("write", false, pos, st, "%s writes %q, which is not a field of the specification", label, k)
		}
		if good {
			why := c.copyOf(an, st, mv, get(st, recv, "UnrecognizedFields"))
			c.check("kept", why == "", pos, st, "%s may lose unrecognised fields: %s", label, why)
		}
	}
}

func fieldType(nt *types.Named, name string) types.Type {
	s := nt.Underlying().(*types.Struct)
	if i := fieldIndex(s, name); i >= 0 {
		return s.Field(i).Type()
	}
	fail("anchor", "type %s has no field %s", nt, name)
	return nil
}

// copyOf returns "" if the map contents mv are exactly those of the map u.
func (c *Ctx) copyOf(an *An, st *State, mv, u *Term) string {
	uv := st.mapVal(u)
	if mv.op == "mempty" {
		if st.holds(eqT(mkLen(uv), mkInt(0))) || st.holds(isNilT(u)) {
			return ""
		}
		return "they are not copied"
	}
	if mv == uv || mv.op == "mcopy" && mv.args[0].op == "mempty" && mv.args[1] == uv {
		return ""
	}
	acc, ok := an.e.accs[mv]
	if !ok || acc.v.symC != mv {
		return "the object is filled from something else: " + mv.String()
	}
	if acc.v.init == nil || acc.v.init.op != "mempty" {
		return "fields that were set before may be replaced"
	}
	if !st.fails(mk("nextok", "", types.Typ[types.Bool], uv, acc.sum.itC)) {
		return "not all of them are visited"
	}
	for _, b := range acc.sum.backs {
		k := mk("key", "", types.Typ[types.String], uv, acc.sum.itP)
		nv := b.vals[acc.v.id]
		v, _ := b.st.lookup(uv, k, mapElemType(u))
		if nv.op != "mupd" || nv.args[0] != acc.v.symP || nv.args[1] != k || nv.args[2] != v {
			return "an entry may not be copied"
		}
	}
	return ""
}

func (c *Ctx) jsonReader(nt *types.Named, name, label string) {
	m := c.P.methodIf(nt, "UnmarshalJSON")
	if !c.check("read", m != nil, nt.Obj().Pos(), nil, "%s has no parser of its own", label) {
		return
	}
	an := c.analyse(c.eng(), m, func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) })
	l := &loader{an: an}
	for _, r := range an.results() {
		if !r.ok {
			continue
		}
		pos := posOf(an, r.Outcome)
		st, recv := r.st, an.arg(0)
		var want []string
		for _, f := range specTable[name] {
			want = append(want, f.name)
			why := readInto(l, st, get(st, recv, f.field), fieldType(nt, f.field), []string{f.name})
			c.check("read", why == "", pos, st, "%s does not read %q into field %s: %s", label, f.name, f.field, why)
		}
		mv := st.mapVal(get(st, recv, "UnrecognizedFields"))
		got := map[string]bool{}
		for mv.op == "mdel" {
			if k, ok := mv.args[1].strVal(); ok {
				got[k] = true
			} else {
				got["?"] = true
			}
			mv = mv.args[0]
		}
		p := l.docPath(st, mv)
		if !c.check("unrecognised", p != nil && len(p) == 0, pos, st, "%s keeps something else than the document's other fields as unrecognised", label) {
			continue
		}
		sort.Strings(want)
		have := sortedKeys(got)
		c.check("unrecognised", strings.Join(have, ",") == strings.Join(want, ","), pos, st, "%s recognises %v but removes %v from the unrecognised fields", label, want, have)
		if name == "TargetsType" {
			ts := get(st, recv, "Targets")
			tv := st.mapVal(ts)
			et := mapElemType(ts)
			ok, why := an.forallMap(st, tv, func(bs *State, k *Term) string {
				v, _ := bs.lookup(tv, k, et)
				if s := get(bs, v, "Path"); s.op == "key" && isKeyOf(s, tv) && s.args[1] == k.args[1] {
					return ""
				}
				return "a target's path may differ from its name"
			})
			c.check("path", ok || st.holds(isNilT(ts)), pos, st, "parsing targets: %s", why)
		}
	}
}

// readInto returns "" if a value is what the document says at a path.
func readInto(l *loader, st *State, v *Term, t types.Type, path []string) string {
	if s, ok := explodes(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			n := jsonName(s, i)
			if n == "-" {
				continue
			}
			if why := readInto(l, st, field1(st, v, s.Field(i).Name()), s.Field(i).Type(), append(append([]string{}, path...), n)); why != "" {
				return why
			}
		}
		return ""
	}
	p := l.docPath(st, v)
	if p == nil || strings.Join(p, "\x00") != strings.Join(path, "\x00") {
		return "it holds " + cut(v.String(), 60)
	}
	return ""
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// hexWriter checks that a HexBytes is written as a string of its hex digits.
func (c *Ctx) hexWriter() {
	nt := c.P.namedType("metadata", "HexBytes").(*types.Named)
	m := c.P.methodIf(nt, "MarshalJSON")
	if !c.check("bytes", m != nil, nt.Obj().Pos(), nil, "HexBytes has no serialiser of its own") {
		return
	}
	an := c.analyse(c.eng(), m, nil)
	for _, r := range an.results() {
		if r.kind != "ret" || r.rets[0].isNil() {
			continue
		}
		why := quotedHex(r.st, r.rets[0], an.arg(0))
		c.check("bytes", why == "", posOf(an, r.Outcome), r.st, "writing a hexadecimal string: %s", why)
	}
}

func quotedHex(st *State, v, b *Term) string {
	isHex := func(t *Term) bool {
		return t.op == "app" && t.name == "hex.EncodeToString" && t.args[0] == b
	}
	x := v
	if isMarshal(x, "0") && len(x.args) > 0 && isHex(unwrap(x.args[0])) {
		return ""
	}
	if x.op == "conv" {
		x = x.args[0]
	}
	if x.op == "cat" && len(x.args) == 3 && x.args[0] == mkStr(`"`) && isHex(x.args[1]) && x.args[2] == mkStr(`"`) {
		return ""
	}
	if x.op == "app" && x.name == "strconv.Quote" && isHex(x.args[0]) {
		return ""
	}
	n := mkLen(v)
	if !st.holds(eqT(n, plus(mkAdd(mkLen(b), mkLen(b), 1), 2))) {
		return "the length is not that of the digits and two quotes"
	}
	et := elemType(v.typ)
	for _, i := range []*Term{mkInt(0), plus(n, -1)} {
		if q := st.load(mkIaddr(v, i, et), et); !st.holds(eqT(q, mkConst(constInt('"'), et))) {
			return "the quotes may be missing"
		}
	}
	for _, ev := range callsOf(st, "encoding/hex.Encode") {
		d := ev.args[0]
		if ev.args[1] == b && d.op == "slice" && d.args[0] == v && st.holds(eqT(d.args[1], mkInt(1))) {
			return ""
		}
	}
	return "the digits are not those of the value"
}

// wholeObject checks that ToBytes returns the serialised object.
func (c *Ctx) wholeObject(targ string) {
	mt := c.P.namedType("metadata", "Metadata", targ)
	an := c.analyse(c.eng(), c.P.method(mt, "ToBytes"), func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) })
	for _, r := range an.results() {
		if r.kind != "ret" || r.rets[0].isNil() && !r.ok {
			continue
		}
		v := r.rets[0]
		ok := isMarshal(v, "0") && len(v.args) > 0
		if ok {
			x := v.args[0]
			ok = x.op == "iface" && (x.args[0] == an.arg(0) || x.args[0] == r.st.load(an.arg(0), mt)) && (types.Identical(x.typ, mt) || types.Identical(x.typ, types.NewPointer(mt)))
		}
		c.check("whole", ok, posOf(an, r.Outcome), r.st, "ToBytes of %s returns something else than the serialised object: %s", metaRole[targ], cut(v.String(), 80))
	}
}

func init() {
	registry["C07"] = rule{ruleC07, "Abstract interpretation of every serialiser and parser against the field table of the TUF specification: the contents of the object handed to encoding/json on every path, the field every name is decoded into, and the set of names removed from the unrecognised ones."}
}

func constInt(n int64) constant.Value { return constant.MakeInt64(n) }
