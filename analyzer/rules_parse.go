package main

import (
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var topLevelNames = []string{"root", "timestamp", "snapshot", "targets"}

// forallSlice decides whether, on the way to st, a loop visited every element
// of a slice and every completed iteration established pred.
func (a *An) forallSlice(st *State, s *Term, pred func(bs *State, i *Term) string) (bool, string) {
	if st.holds(eqT(mkLen(s), mkInt(0))) {
		return true, ""
	}
	why := "no loop over all elements was completed"
	for _, ev := range st.events() {
		if ev.kind != "loopexit" || ev.loop == nil || !exhausted(st, ev.loop, s) {
			continue
		}
		// from the first to the last element, or the other way round
		for _, i := range []*Term{ev.loop.itP, mkAdd(plus(mkLen(s), -1), ev.loop.itP, -1)} {
			bad := ""
			for _, b := range ev.loop.backs {
				facts, ok := sameFlags(ev.loop, b, st)
				if !ok {
					continue
				}
				bs := mergeFacts(b.st, st)
				if bs == nil {
					continue
				}
				if bs = given(bs, facts...); bs == nil {
					continue
				}
				if bad = pred(bs, i); bad != "" {
					break
				}
			}
			if bad == "" {
				return true, ""
			}
			why = bad
		}
	}
	return false, why
}

// sameFlags decides that an iteration may have been part of a loop that left
// its flags as st knows them: not if it sets a flag that nothing resets. The
// conditions are what else is then known about it.
func sameFlags(sum *LoopSum, b *Back, st *State) ([]*Term, bool) {
	var facts []*Term
	for _, v := range sum.vars {
		if v.init == nil || !v.init.isTrue() && !v.init.isFalse() {
			continue
		}
		if !(v.init.isFalse() && st.fails(v.symC) || v.init.isTrue() && st.holds(v.symC)) {
			continue // it was set, or is not known
		}
		still := v.symP // the flag is as it was at first
		if v.init.isFalse() {
			still = mkNot(still)
		}
		once := true
		for _, o := range sum.backs {
			ov := o.vals[v.id]
			if ov == nil || ov == v.init && !o.st.holds(still) {
				once = false
			} else if !ov.isTrue() && !ov.isFalse() && ov != v.symP && !o.st.holds(still) {
				once = false
			}
		}
		if !once {
			continue
		}
		nv := b.vals[v.id]
		if (nv.isTrue() || nv.isFalse()) && nv != v.init || b.st.fails(still) {
			return nil, false
		}
		facts = append(facts, still)
		if !nv.isTrue() && !nv.isFalse() {
			if v.init.isFalse() {
				nv = mkNot(nv)
			}
			facts = append(facts, nv)
		}
	}
	return facts, true
}

// parserTypes lists the types of the metadata package that documents are
// decoded into, with those that decode themselves.
func (c *Ctx) parserTypes() []*types.Named {
	seen := map[*types.Named]bool{}
	var out []*types.Named
	pkg := c.P.pkg("metadata").Pkg
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch t := t.(type) {
		case *types.Pointer:
			visit(t.Elem())
		case *types.Slice:
			visit(t.Elem())
		case *types.Array:
			visit(t.Elem())
		case *types.Map:
			visit(t.Elem())
		case *types.Alias:
			visit(types.Unalias(t))
		case *types.Named:
			if seen[t] || t.Obj().Pkg() != pkg {
				return
			}
			seen[t] = true
			out = append(out, t)
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if jsonName(s, i) != "-" {
						visit(s.Field(i).Type())
					}
				}
			} else {
				visit(t.Underlying())
			}
		}
	}
	for _, targ := range sortedKeys(metaRole) {
		visit(c.P.namedType("metadata", targ))
	}
	visit(c.P.namedType("metadata", "Signature"))
	return out
}

func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// parsedOK checks that whatever a parser accepts is structurally safe.
func (c *Ctx) parsedOK(rule string, names bool) {
	for _, nt := range c.parserTypes() {
		s, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		type cond struct {
			field string
			ok    func(an *An, st *State, recv *Term) string
		}
		var conds []cond
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if jsonName(s, i) == "-" {
				continue
			}
			name := f.Name()
			switch t := f.Type().Underlying().(type) {
			case *types.Basic:
				if name == "Threshold" && names {
					conds = append(conds, cond{name, func(an *An, st *State, recv *Term) string {
						if !st.holds(not(ltT(get(st, recv, name), mkInt(1)))) {
							return "a threshold below 1"
						}
						return ""
					}})
				}
				if name == "BitLength" {
					conds = append(conds, cond{name, func(an *An, st *State, recv *Term) string {
						v := get(st, recv, name)
						if !st.holds(not(ltT(v, mkInt(1)))) {
							return "a bit length below 1"
						}
						if !st.holds(not(ltT(mkInt(32), v))) {
							return "a bit length above 32"
						}
						return ""
					}})
				}
			case *types.Map:
				if _, ok := t.Elem().Underlying().(*types.Pointer); ok {
					conds = append(conds, cond{name, func(an *An, st *State, recv *Term) string {
						m := get(st, recv, name)
						if st.holds(isNilT(m)) {
							return ""
						}
						mv := st.mapVal(m)
						ok, why := an.forallMap(st, mv, func(bs *State, k *Term) string {
							v, _ := bs.lookup(mv, k, t.Elem())
							if bs.holds(nonNil(v)) {
								return ""
							}
							return "an entry may be null"
						})
						if !ok {
							return "a null entry in " + name + " (" + why + ")"
						}
						return ""
					}})
				}
			case *types.Slice:
				et, ok := t.Elem().(*types.Named)
				if !ok || !names {
					break
				}
				es, ok := et.Underlying().(*types.Struct)
				if !ok || fieldIndex(es, "Threshold") < 0 || fieldIndex(es, "Name") < 0 {
					break
				}
				conds = append(conds, cond{name, func(an *An, st *State, recv *Term) string {
					l := get(st, recv, name)
					ok, why := an.forallSlice(st, l, func(bs *State, i *Term) string {
						n := field1(bs, mkIaddr(l, i, et), "Name")
						return reservedName(bs, n)
					})
					if !ok {
						return "a delegated role with a name that is not allowed (" + why + ")"
					}
					return ""
				}})
			}
		}
		if len(conds) == 0 {
			continue
		}
		m := c.P.methodIf(nt, "UnmarshalJSON")
		if !c.check(rule, m != nil, nt.Obj().Pos(), nil, "%s is decoded without checks", nt.Obj().Name()) {
			continue
		}
		an := c.analyse2(c.eng(), m, func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) }, nil)
		for _, r := range an.results() {
			if !r.ok {
				continue
			}
			for _, cd := range conds {
				why := cd.ok(an, r.st, an.arg(0))
				c.check(rule, why == "", posOf(an, r.Outcome), r.st, "parsing %s may accept %s", nt.Obj().Name(), why)
			}
		}
	}
}

// reservedName returns "" if the name of a delegated role cannot be empty or
// that of a top-level role.
func reservedName(st *State, n *Term) string {
	if !st.fails(eqT(n, mkStr(""))) && !st.holds(ltT(mkInt(0), mkLen(n))) {
		return "the name may be empty"
	}
	for t, v := range st.bools {
		if !v && t.op == "contains" && t.args[1] == n && listsTopLevel(st, t.args[0]) {
			return ""
		}
		if !v && t.op == "lookupok" && t.args[1] == n {
			all := true
			for _, role := range topLevelNames {
				if in, ok := mapHasConst(t.args[0], role); !ok || !in {
					all = false
				}
			}
			if all {
				return ""
			}
		}
	}
	for _, role := range topLevelNames {
		if !st.fails(eqT(n, mkStr(role))) {
			return "the name may be " + role
		}
	}
	return ""
}

// mapHasConst looks a constant key up in a map whose contents are known.
func mapHasConst(m *Term, k string) (in, known bool) {
	for m.op == "mupd" {
		if m.args[1] == mkStr(k) {
			return true, true
		}
		m = m.args[0]
	}
	return false, m.op == "mempty"
}

// listsTopLevel decides that a slice has the names of all top-level roles.
func listsTopLevel(st *State, l *Term) bool {
	n := 0
	for _, role := range topLevelNames {
		for i := 0; i < 8; i++ {
			if e := st.load(mkIaddr(l, mkInt(int64(i)), types.Typ[types.String]), types.Typ[types.String]); e == mkStr(role) {
				n++
				break
			}
		}
	}
	return n == len(topLevelNames)
}

func ruleC08(c *Ctx) {
	c.rule("safe", "whatever a parser accepts has thresholds of at least 1, bit lengths from 1 to 32, no null entries, and no delegations to reserved names")
	c.rule("decoded", "the signed part of a document is decoded by the checked parser of its type")
	c.rule("hex", "digests and signatures that are not hexadecimal strings are rejected")
	c.rule("refused", "parsing refuses a document only because it cannot be decoded or for one of these defects")
	c.parsedOK("safe", true)
	for _, nt := range c.parserTypes() {
		if m := c.P.methodIf(nt, "UnmarshalJSON"); m != nil {
			c.refusedOnly(nt, m)
		}
	}
	for _, targ := range sortedKeys(metaRole) {
		nt := c.P.namedType("metadata", targ)
		m := c.P.method(c.P.namedType("metadata", "Metadata", targ), "UnmarshalJSON")
		an := c.analyse2(c.eng(), m, func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) }, nil)
		for _, r := range an.results() {
			if !r.ok {
				continue
			}
			v := get(r.st, an.arg(0), "Signed.Version")
			good := v.op == "load" && strings.HasPrefix(v.name, "json") && v.args[0].op == "faddr" && decodesItself(v.args[0], nt)
			c.check("decoded", good, posOf(an, r.Outcome), r.st, "the signed part of %s metadata may not come from its own parser", metaRole[targ])
		}
	}
	// every digest and signature is a HexBytes
	hex := c.P.namedType("metadata", "HexBytes").(*types.Named)
	for _, f := range [][2]string{{"Signature", "Signature"}, {"MetaFiles", "Hashes"}, {"TargetFiles", "Hashes"}} {
		nt := c.P.namedType("metadata", f[0]).(*types.Named)
		s := nt.Underlying().(*types.Struct)
		i := fieldIndex(s, f[1])
		ok := i >= 0
		if ok {
			t := s.Field(i).Type()
			if m, isMap := t.Underlying().(*types.Map); isMap {
				t = m.Elem()
			}
			ok = types.Identical(t, hex)
		}
		c.check("hex", ok, nt.Obj().Pos(), nil, "%s.%s is not decoded as hexadecimal bytes", f[0], f[1])
	}
	if m := c.P.methodIf(hex, "UnmarshalJSON"); c.check("hex", m != nil, hex.Obj().Pos(), nil, "HexBytes has no parser") {
		c.hexParser(m)
	}
	c.need("safe", 10)
	c.need("refused", 20)
	c.need("decoded", 4)
	c.need("hex", 4)
}

// refusedOnly checks that a parser fails only for a reason it may have.
func (c *Ctx) refusedOnly(nt *types.Named, m *ssa.Function) {
	an := c.analyse2(c.eng(), m, func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) }, nil)
	for _, r := range an.results() {
		if r.ok || r.kind != "ret" {
			continue
		}
		why := "the document may be fine"
		if someLibraryFailed(r.st) || structuralDefect(r.st) || nt.Obj().Name() == "HexBytes" && notQuoted(r.st, an.arg(1)) {
			why = ""
		}
		c.check("refused", why == "", posOf(an, r.Outcome), r.st, "parsing %s may fail although %s", nt.Obj().Name(), why)
	}
}

// someLibraryFailed decides that a function of a library returned an error.
func someLibraryFailed(st *State) bool {
	for t, v := range st.bools {
		if v || t.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x := t.args[i]
			if t.args[1-i].isNil() && x.typ != nil && isInterface(x.typ) && (x.op == "app" || x.op == "res") {
				return true
			}
		}
	}
	return false
}

// structuralDefect decides that a part of the document is one that must be refused.
func structuralDefect(st *State) bool {
	field := func(t *Term) string {
		if t.op == "len" {
			t = t.args[0]
		}
		if t.op == "load" && t.args[0].op == "faddr" {
			return t.args[0].fieldName()
		}
		if t.op == "field" {
			return t.name
		}
		return ""
	}
	for t, v := range st.ivs {
		switch f := field(t); {
		case f == "Threshold" && v.hi < 1, f == "BitLength" && (v.hi < 1 || v.lo > 32), f == "Name" && t.op == "len" && v.hi < 1:
			return true
		}
	}
	name := func(n *Term, of func(role string) bool) bool {
		if field(n) != "Name" || n.op == "len" {
			return false
		}
		for _, role := range append([]string{""}, topLevelNames...) {
			if of(role) {
				return true
			}
		}
		return false
	}
	for t, v := range st.consts {
		if name(t, func(role string) bool { return v == mkStr(role) }) {
			return true
		}
	}
	for t, v := range st.bools {
		switch {
		case !v:
		case t.op == "eq":
			for i := 0; i < 2; i++ {
				x, y := t.args[i], t.args[1-i]
				if y.isNil() && x.op != "load" && x.op != "param" && x.typ != nil && derefType(x.typ) != x.typ {
					return true
				}
				if name(x, func(role string) bool { return y == mkStr(role) }) {
					return true
				}
			}
		case t.op == "contains":
			if name(t.args[1], func(string) bool { return true }) && st.holds(eqT(mkLen(t.args[0]), mkInt(int64(len(topLevelNames))))) && listsTopLevel(st, t.args[0]) {
				return true
			}
		case t.op == "lookupok":
			if name(t.args[1], func(string) bool { return true }) && onlyTopLevel(t.args[0]) {
				return true
			}
		}
	}
	return false
}

// onlyTopLevel decides that all keys of a map are names of top-level roles, or "".
func onlyTopLevel(m *Term) bool {
	for ; m.op == "mupd"; m = m.args[0] {
		if k, ok := m.args[1].strVal(); !ok || k != "" && !slices.Contains(topLevelNames, k) {
			return false
		}
	}
	return m.op == "mempty"
}

// notQuoted decides that data is not a JSON string of an even number of bytes.
func notQuoted(st *State, data *Term) bool {
	if st.holds(ltT(mkLen(data), mkInt(2))) {
		return true
	}
	isNot := func(v ival, k int64) bool { return v.lo > k || v.hi < k || slices.Contains(v.ne, k) }
	b := elemType(data.typ)
	first, last := mkIaddr(data, mkInt(0), b), mkIaddr(data, plus(mkLen(data), -1), b)
	for t, v := range st.ivs {
		if t.op == "load" && (t.args[0] == first || t.args[0] == last) && isNot(v, '"') {
			return true
		}
		if t.op == "bin" && t.args[0].contains(mkLen(data)) {
			if m, ok := t.args[1].intVal(); ok && (t.name == "%" && m == 2 || t.name == "&" && m == 1) && isNot(v, 0) {
				return true
			}
		}
	}
	return false
}

// decodesItself decides that the address lies in an object of the type itself.
func decodesItself(a *Term, nt types.Type) bool {
	p := a.args[0]
	if p.typ == nil {
		return false
	}
	t := p.typ
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return types.Identical(t, nt)
}

// hexParser checks that decoding a HexBytes yields the bytes between the quotes.
func (c *Ctx) hexParser(m *ssa.Function) {
	an := c.analyse2(c.eng(), m, func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) }, nil)
	for _, r := range an.results() {
		if !r.ok {
			continue
		}
		got := r.st.load(an.arg(0), c.P.namedType("metadata", "HexBytes"))
		why := hexOf(r.st, got, an.arg(1))
		c.check("hex", why == "", posOf(an, r.Outcome), r.st, "decoding a hexadecimal string: %s", why)
	}
}

// hexOf returns "" if v is what the JSON string data says in hexadecimal.
func hexOf(st *State, v, data *Term) string {
	var src, err *Term
	errT := types.Universe.Lookup("error").Type()
	if d := st.cells[mk("view", "", nil, v)]; d != nil && d.op == "app" && d.name == "hex.decoded" {
		src = d.args[0]
		err = mk("app", "hex.Decode:1", errT, src)
	} else if v.op == "app" && v.name == "encoding/hex.DecodeString:0" {
		src = v.args[0]
		if src.op == "conv" {
			src = src.args[0]
		}
		err = mk("app", "encoding/hex.DecodeString:1", errT, v.args[0])
	} else {
		return "the value does not come from decoding hexadecimal: " + v.String()
	}
	if !st.holds(isNilT(err)) {
		return "the value may not be hexadecimal"
	}
	if src.op == "load" && strings.HasPrefix(src.name, "json") {
		return "" // a decoded JSON string
	}
	if src.op != "slice" || src.args[0] != data || !st.holds(eqT(src.args[1], mkInt(1))) || !st.holds(eqT(src.args[2], plus(mkLen(data), -1))) {
		return "not all between the quotes is decoded"
	}
	b := elemType(data.typ)
	for _, i := range []*Term{mkInt(0), plus(mkLen(data), -1)} {
		at, quoted := mkIaddr(data, i, b), false
		for t, v := range st.ivs {
			if t.op == "load" && t.args[0] == at && v.lo == '"' && v.hi == '"' {
				quoted = true
			}
		}
		if !quoted {
			return "the value may not be a string"
		}
	}
	return ""
}

func init() {
	registry["C08"] = rule{ruleC08, "Path-sensitive abstract interpretation of every parser; each path that accepts must establish the structural conditions on what it stores, null and name checks through completed loops over all entries."}
}
