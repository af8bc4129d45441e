package main

import (
	"go/types"
	"reflect"
	"strings"
)

const kUnmarshal = "encoding/json.Unmarshal"

var metaRole = map[string]string{"RootType": "root", "SnapshotType": "snapshot", "TimestampType": "timestamp", "TargetsType": "targets"}

// loader is an analysed FromBytes or FromFile of one kind of metadata.
type loader struct {
	an   *An
	targ string
	file bool
}

// isDoc decides that a byte string is the document being loaded.
func (l *loader) isDoc(st *State, d *Term) bool {
	if !l.file {
		return d == l.an.arg(1)
	}
	return localOf(st, d) == l.an.arg(1)
}

// decodedInto lists the json.Unmarshal calls that decoded the document.
func (l *loader) decodedInto(st *State) []*Event {
	var out []*Event
	for _, ev := range callsOf(st, kUnmarshal) {
		if l.isDoc(st, ev.args[0]) && okAt(st, ev) == 1 {
			out = append(out, ev)
		}
	}
	return out
}

// docPath finds which member of the document, successfully decoded before, a
// term is: the names from the outside in, or nil.
func (l *loader) docPath(st *State, t *Term) []string {
	switch t.op {
	case "as":
		return l.docPath(st, t.args[0])
	case "lookup":
		if k, ok := t.args[1].strVal(); ok {
			if p := l.docPath(st, t.args[0]); p != nil {
				return append(append([]string{}, p...), k)
			}
		}
	case "mopq":
		return l.docPath(st, t.args[0])
	case "docmap":
		if len(t.args) == 1 && l.isDoc(st, t.args[0]) {
			return []string{}
		}
	case "load", "sym":
		if len(t.args) > 0 {
			return l.addrPath(st, t.args[0])
		}
	}
	return nil
}

func (l *loader) addrPath(st *State, a *Term) []string {
	for _, ev := range l.decodedInto(st) {
		if a == ev.args[1] {
			return []string{}
		}
	}
	if a.op == "faddr" {
		p := l.addrPath(st, a.args[0])
		s, ok := under(derefType(a.args[0].typ)).(*types.Struct)
		if p == nil || !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == a.fieldName() {
				return append(append([]string{}, p...), jsonName(s, i))
			}
		}
	}
	return nil
}

// jsonName is the name encoding/json uses for a field, "-" if none.
func jsonName(s *types.Struct, i int) string {
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if tag == "-" || !s.Field(i).Exported() {
		return "-"
	}
	if n := strings.Split(tag, ",")[0]; n != "" {
		return n
	}
	return s.Field(i).Name()
}

func ruleC05(c *Ctx) {
	c.rule("type", "loading succeeds only if the document's signed part declares the type it is loaded as")
	c.rule("unique", "loading succeeds only if no two signatures have the same key identifier")
	c.rule("result", "what is loaded is what was decoded from the document, into the object given, which is also returned")
	c.rule("unchanged", "a failed load writes nothing to the object")
	c.rule("refused", "loading fails only because the document cannot be read or decoded, declares another type or repeats a key identifier")
	for _, targ := range sortedKeys(metaRole) {
		for _, name := range []string{"FromBytes", "FromFile"} {
			e := c.eng()
			an := c.analyse(e, c.P.method(c.P.namedType("metadata", "Metadata", targ), name), func(st *State, args []*Term) {
				st.assume(nonNil(args[0]), true)
			})
			l := &loader{an, targ, name == "FromFile"}
			recv := an.arg(0)
			for _, r := range an.results() {
				p := posOf(an, r.Outcome)
				if r.kind != "ret" {
					continue
				}
				if !r.ok {
					good := someLibraryFailed(r.st) || l.otherType(r.st, metaRole[targ]) || repeatedID(r.st)
					c.check("refused", good, p, r.st, "%s[%s] may fail for a document that is fine", name, targ)
					touched := ""
					walk(r.st, r.st.events(), func(st *State, ev *Event, _ []*LoopSum) {
						if ev.kind == "store" && ev.args[0].contains(recv) {
							touched = c.P.pos(ev.pos)
						}
						if ev.kind == "call" && !readOnlyCall(ev.name) {
							for _, x := range ev.args {
								if strip(x) == recv || x.op == "faddr" && x.contains(recv) {
									touched = c.P.pos(ev.pos)
								}
							}
						}
					})
					c.check("unchanged", touched == "", p, r.st, "%s[%s] may fail after writing to the object (%s)", name, targ, touched)
					continue
				}
				c.check("result", r.rets[0] == recv, p, r.st, "%s[%s] returns %s instead of the object loaded into", name, targ, r.rets[0])
				typed := false
				for t, v := range r.st.bools {
					if !v || t.op != "eq" {
						continue
					}
					for i := 0; i < 2; i++ {
						if t.args[1-i] == mkStr(metaRole[targ]) && strings.Join(l.docPath(r.st, t.args[i]), ".") == "signed._type" {
							typed = true
						}
					}
				}
				for t, v := range r.st.consts {
					if v == mkStr(metaRole[targ]) && strings.Join(l.docPath(r.st, t), ".") == "signed._type" {
						typed = true
					}
				}
				c.check("type", typed, p, r.st, "%s[%s] may succeed for a document that does not declare the type %s", name, targ, metaRole[targ])
				from := (*Term)(nil)
				for _, ev := range l.decodedInto(r.st) {
					if asDecoded(r.st, recv, ev.args[1], c.P.namedType("metadata", "Metadata", targ)) {
						from = ev.args[1]
					}
				}
				if !c.check("result", from != nil, p, r.st, "%s[%s] leaves something else in the object than what the document says", name, targ) {
					continue
				}
				why := c.uniqueIDs(an, r.st, get(r.st, recv, "Signatures"))
				c.check("unique", why == "", p, r.st, "%s[%s] may succeed with two signatures of one key: %s", name, targ, why)
			}
		}
	}
	c.need("type", 8)
	c.need("unique", 8)
	c.need("unchanged", 16)
	c.need("refused", 24)
}

// otherType decides that the document does not declare the type of the role.
func (l *loader) otherType(st *State, role string) bool {
	for t, v := range st.bools {
		if v && t.op != "eq" || t.op != "eq" && t.op != "typeis" && t.op != "lookupok" {
			continue
		}
		switch t.op {
		case "typeis":
			p := strings.Join(l.docPath(st, t.args[0]), ".")
			if p == "signed" && strings.HasPrefix(t.name, "map[string]") || p == "signed._type" && t.name == "string" {
				return true
			}
		case "lookupok":
			k, _ := t.args[1].strVal()
			p := l.docPath(st, t.args[0])
			if p != nil && len(p) == 0 && k == "signed" || strings.Join(p, ".") == "signed" && k == "_type" {
				return true
			}
		case "eq":
			for i := 0; i < 2; i++ {
				p := strings.Join(l.docPath(st, t.args[i]), ".")
				o := t.args[1-i]
				_, text := o.strVal()
				if p == "signed._type" && (!v && o == mkStr(role) || v && text && o != mkStr(role)) {
					return true
				}
				if v && o.isNil() && (p == "signed" || p == "signed._type") {
					return true
				}
			}
		}
	}
	return false
}

// repeatedID decides that a key identifier of a signature was met before.
func repeatedID(st *State) bool {
	isID := func(t *Term) bool {
		return t.op == "load" && t.args[0].op == "faddr" && t.args[0].fieldName() == "KeyID" || t.op == "field" && t.name == "KeyID"
	}
	for t, v := range st.bools {
		switch {
		case !v:
		case t.op == "contains" || t.op == "lookupok":
			if isID(t.args[1]) {
				return true
			}
		case t.op == "eq":
			if isID(t.args[0]) && isID(t.args[1]) {
				return true
			}
		case t.op == "lookup" && isID(t.args[1]):
			return true
		}
	}
	return false
}

// asDecoded decides that an object holds exactly what a json.Unmarshal decoded
// into another one of its type.
func asDecoded(st *State, a, b *Term, typ types.Type) bool {
	s, ok := under(typ).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fa, fb := mkFaddr(a, typ, i), mkFaddr(b, typ, i)
		if _, ok := explodes(ft); ok {
			if !asDecoded(st, fa, fb, ft) {
				return false
			}
			continue
		}
		x := st.load(fa, ft)
		if x.op != "load" || x.args[0] != fb || !strings.HasPrefix(x.name, "json") {
			return false
		}
	}
	return true
}

// uniqueIDs decides that no two elements of a list of signatures have the same key identifier.
func (c *Ctx) uniqueIDs(an *An, st *State, sigs *Term) string {
	why := "the signatures are not all compared"
	sigT := sigs.typ.Underlying().(*types.Slice).Elem()
	idOf := func(s *State, i *Term) *Term { return field1(s, mkIaddr(sigs, i, sigT), "KeyID") }
	if st.holds(mkLt(mkLen(sigs), mkInt(2))) {
		return ""
	}
	// at a loop over all: every identifier is new to a collection of those before
	for _, ev := range st.events() {
		if ev.kind != "loopexit" || ev.loop == nil || !exhausted(st, ev.loop, sigs) {
			continue
		}
		sum := ev.loop
		for _, v := range sum.vars {
			if v.init == nil || !emptyColl(v.init) {
				continue
			}
			good := true
			count := false
			for _, b := range sum.backs {
				id := idOf(b.st, visited(b.st, sigs, sum.itP))
				nv := b.vals[v.id]
				switch {
				case nv.op == "mupd" && nv.args[0] == v.symP && nv.args[1] == id:
					fresh := b.st.fails(lookupOK(v.symP, id)) ||
						nv.args[2].isTrue() && b.st.fails(mk("lookup", "", types.Typ[types.Bool], v.symP, id)) ||
						positiveInt(nv.args[2], v.symP, id) && b.st.holds(eqT(mk("lookup", "", types.Typ[types.Int], v.symP, id), mkInt(0)))
					count = count || !fresh
				case isAppendOf(nv, v.symP, id):
					good = good && b.st.fails(mk("contains", "", types.Typ[types.Bool], v.symP, id))
				default:
					good = false
				}
			}
			if good && count {
				good = st.holds(eqT(mkLen(v.symC), mkLen(sigs)))
			}
			if good {
				return ""
			}
		}
		// every pair is compared by an inner loop
		if c.pairwise(sum, sigs, sigT) {
			return ""
		}
	}
	return why
}

func emptyColl(t *Term) bool {
	return t.op == "mempty" || t.isNil() || isSliceT(t) && mkLen(t) == mkInt(0)
}

func isSliceT(t *Term) bool {
	if t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Slice)
	return ok
}

func positiveInt(v, m, k *Term) bool {
	if n, ok := v.intVal(); ok {
		return n > 0
	}
	d, ok := mkAdd(v, mk("lookup", "", types.Typ[types.Int], m, k), -1).intVal()
	return ok && d > 0
}

// pairwise decides that each iteration over a list compares its element with all earlier or all later ones.
func (c *Ctx) pairwise(sum *LoopSum, sigs *Term, sigT types.Type) bool {
	allLater, allEarlier := true, true
	for _, b := range sum.backs {
		later := b.st.holds(not(ltT(mkAdd(sum.itP, mkInt(1), 1), mkLen(sigs))))
		earlier := b.st.holds(not(ltT(mkInt(0), sum.itP)))
		for _, ev := range b.evs {
			if ev.kind != "loopexit" || ev.loop == nil {
				continue
			}
			in := ev.loop
			id := field1(b.st, mkIaddr(sigs, sum.itP, sigT), "KeyID")
			var start *Term
			all := true
			for _, ib := range in.backs {
				found := false
				for t, v := range ib.st.bools {
					if v || t.op != "eq" || len(t.args) != 2 {
						continue
					}
					for i := 0; i < 2; i++ {
						x := t.args[1-i]
						if t.args[i] != id || x.op != "load" || x.args[0].op != "faddr" || x.args[0].args[0].op != "iaddr" || x.args[0].args[0].args[0] != sigs {
							continue
						}
						at := mkAdd(x.args[0].args[0].args[1], in.itP, -1)
						if x == field1(ib.st, x.args[0].args[0], "KeyID") && !at.mentions(in.tagP) && (start == nil || start == at) {
							start, found = at, true
						}
					}
				}
				all = all && found
			}
			if start == nil {
				continue
			}
			upto := func(n *Term) bool { return b.st.holds(not(ltT(mkAdd(start, in.itC, 1), n))) }
			later = later || all && b.st.holds(not(ltT(mkAdd(sum.itP, mkInt(1), 1), start))) && upto(mkLen(sigs))
			earlier = earlier || all && b.st.holds(not(ltT(mkInt(0), start))) && upto(sum.itP)
		}
		allLater, allEarlier = allLater && later, allEarlier && earlier
	}
	return allLater || allEarlier
}

// isAppendOf decides that v is the list l with x appended.
func isAppendOf(v, l, x *Term) bool {
	return v.op == "append" && v.args[0] == l && v.args[1].op == "slicelit" && len(v.args[1].args) == 1 && v.args[1].args[0] == x
}

func init() {
	registry["C05"] = rule{ruleC05, "Path-sensitive abstract interpretation of FromBytes and FromFile, for each of the four kinds of metadata, with helpers inlined: what accepting paths entail about the declared type and the signatures' key identifiers; writes to the receiver on refusing paths."}
}
