package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// mapEntries lists the entries of a map all of whose keys are known constants.
func mapEntries(st *State, m *Term) (map[string]*Term, bool) {
	out := map[string]*Term{}
	gone := map[string]bool{}
	for v := st.mapVal(m); ; v = v.args[0] {
		switch v.op {
		case "mempty":
			return out, true
		case "mupd", "mdel":
			k, ok := v.args[1].strVal()
			if !ok {
				return nil, false
			}
			if _, have := out[k]; !have && !gone[k] {
				if v.op == "mdel" {
					gone[k] = true
				} else {
					out[k] = v.args[2]
				}
			}
		default:
			return nil, false
		}
	}
}

// newEmpty decides that a list or map is there, empty, and made by the call.
func newEmpty(st *State, t *Term) bool {
	if isSliceT(t) {
		return !t.isNil() && isFreshOp(t.root()) && st.holds(eqT(mkLen(t), mkInt(0)))
	}
	if !isFreshOp(t) {
		return false
	}
	es, ok := mapEntries(st, t)
	return ok && len(es) == 0
}

func ruleC18(c *Ctx) {
	c.rule("header", "new metadata has its role's type, the supported specification version, version 1, and the expiry given, or else the current time")
	c.rule("content", "new metadata lists what its role cannot do without, and nothing else: root its four roles without keys and with threshold 1, the snapshot version 1 of the targets, the timestamp version 1 of the snapshot; no signatures, keys, targets or delegations")
	c.rule("own", "all objects, lists and maps of new metadata are its own")
	c.rule("files", "a new file description has no length and no digests; that of metadata has the version given, or 1 if it is smaller")
	spec := ""
	if k, ok := c.P.pkg("metadata").Pkg.Scope().Lookup("SPECIFICATION_VERSION").(*types.Const); ok {
		spec = constant.StringVal(k.Val())
	}
	c.check("header", strings.HasPrefix(spec, "1."), c.P.fn("metadata", "Root").Pos(), nil, "the supported specification version is %q", spec)
	for _, role := range []string{"root", "snapshot", "timestamp", "targets"} {
		fn := c.P.fn("metadata", strings.ToUpper(role[:1])+role[1:])
		an := c.analyse(c.eng(), fn, nil)
		exp := an.arg(0)
		for _, o := range an.outs {
			if o.kind != "ret" {
				continue
			}
			p, st, m := posOf(an, o), o.st, o.rets[0]
			if !c.check("own", isFreshOp(m.root()), p, st, "%s returns metadata that is not new: %s", fn.Name(), cut(m.String(), 60)) {
				continue
			}
			is := func(rule, f string, want *Term) {
				got := get(st, m, "Signed."+f)
				c.check(rule, st.holds(eqT(got, want)), p, st, "%s makes metadata whose %s is %s", fn.Name(), f, cut(got.String(), 60))
			}
			is("header", "Type", mkStr(role))
			is("header", "SpecVersion", mkStr(spec))
			is("header", "Version", mkInt(1))
			x := get(st, m, "Signed.Expires")
			if s := given(st, eqT(mkLen(exp), mkInt(0))); s != nil {
				c.check("header", x.any(func(t *Term) bool { return t.op == "res" && strings.HasPrefix(t.name, "time.Now") }), p, s, "%s without an expiry makes metadata that expires %s", fn.Name(), cut(x.String(), 60))
			}
			if s := given(st, not(eqT(mkLen(exp), mkInt(0)))); s != nil {
				c.check("header", x == an.e.elem(an.entry, exp, 0), p, s, "%s makes metadata that expires %s instead of at the time given", fn.Name(), cut(x.String(), 60))
			}
			empty := func(f string) {
				t := get(st, m, f)
				c.check("content", newEmpty(st, t), p, st, "%s makes metadata whose %s is not a new and empty collection: %s", fn.Name(), f, cut(t.String(), 60))
			}
			empty("Signatures")
			entries := func(f string, each func(name string, x *Term), want ...string) {
				t := get(st, m, f)
				if !c.check("own", isFreshOp(t), p, st, "%s makes metadata whose %s is not its own: %s", fn.Name(), f, cut(t.String(), 60)) {
					return
				}
				es, ok := mapEntries(st, t)
				c.check("content", ok && len(es) == len(want), p, st, "%s makes metadata with other entries of %s than %v: %s", fn.Name(), f, want, cut(st.mapVal(t).String(), 60))
				used := map[*Term]bool{}
				for _, w := range want {
					x := es[w]
					if c.check("content", x != nil, p, st, "%s makes metadata whose %s lacks %s", fn.Name(), f, w) {
						c.check("own", isFreshOp(x.root()) && !used[x], p, st, "%s makes metadata whose entry %s of %s is not its own: %s", fn.Name(), w, f, cut(x.String(), 60))
						used[x] = true
						each(w, x)
					}
				}
			}
			version1 := func(w string, x *Term) {
				v := get(st, x, "Version")
				c.check("content", st.holds(eqT(v, mkInt(1))), p, st, "%s lists version %s of %s", fn.Name(), v, w)
				c.check("content", st.holds(eqT(get(st, x, "Length"), mkInt(0))) && (st.holds(isNilT(get(st, x, "Hashes"))) || newEmpty(st, get(st, x, "Hashes"))), p, st, "%s lists a length or digests of %s", fn.Name(), w)
			}
			switch role {
			case "root":
				empty("Signed.Keys")
				is("content", "ConsistentSnapshot", mkBool(true))
				ids := map[*Term]bool{}
				entries("Signed.Roles", func(w string, x *Term) {
					k := get(st, x, "KeyIDs")
					c.check("content", newEmpty(st, k), p, st, "%s makes a role %s whose key list is not a new and empty one: %s", fn.Name(), w, cut(k.String(), 60))
					_ = ids
					t := get(st, x, "Threshold")
					c.check("content", st.holds(eqT(t, mkInt(1))), p, st, "%s makes a role %s with threshold %s", fn.Name(), w, t)
				}, "root", "snapshot", "targets", "timestamp")
			case "snapshot":
				entries("Signed.Meta", version1, "targets.json")
			case "timestamp":
				entries("Signed.Meta", version1, "snapshot.json")
			case "targets":
				empty("Signed.Targets")
				d := get(st, m, "Signed.Delegations")
				c.check("content", st.holds(isNilT(d)), p, st, "%s makes metadata with delegations: %s", fn.Name(), cut(d.String(), 60))
			}
			for _, f := range []string{"UnrecognizedFields", "Signed.UnrecognizedFields"} {
				u := get(st, m, f)
				c.check("content", st.holds(isNilT(u)) || newEmpty(st, u), p, st, "%s makes metadata with additional fields", fn.Name())
			}
		}
	}
	for _, name := range []string{"TargetFile", "MetaFile"} {
		an := c.analyse(c.eng(), c.P.fn("metadata", name), nil)
		for _, o := range an.outs {
			if o.kind != "ret" {
				continue
			}
			p, st, m := posOf(an, o), o.st, o.rets[0]
			c.check("own", isFreshOp(m.root()), p, st, "%s returns a description that is not new: %s", name, cut(m.String(), 60))
			h := get(st, m, "Hashes")
			c.check("files", newEmpty(st, h), p, st, "%s describes digests, or shares its map of digests: %s", name, cut(h.String(), 60))
			c.check("files", st.holds(eqT(get(st, m, "Length"), mkInt(0))), p, st, "%s describes a length", name)
			if name == "TargetFile" {
				c.check("files", st.holds(eqT(get(st, m, "Path"), mkStr(""))), p, st, "%s describes a path", name)
				cu := get(st, m, "Custom")
				c.check("files", st.holds(isNilT(cu)), p, st, "%s has custom data", name)
				continue
			}
			v := get(st, m, "Version")
			if s := given(st, ltT(an.arg(0), mkInt(1))); s != nil {
				c.check("files", s.holds(eqT(v, mkInt(1))), p, s, "%s describes version %s when it is given a smaller one than 1", name, v)
			}
			if s := given(st, not(ltT(an.arg(0), mkInt(1)))); s != nil {
				c.check("files", s.holds(eqT(v, an.arg(0))), p, s, "%s describes version %s instead of the one given", name, v)
			}
		}
	}
	c.need("header", 20)
	c.need("content", 20)
	c.need("own", 10)
	c.need("files", 8)
}

func ruleC19(c *Ctx) {
	c.rule("stored", "after a piece of metadata is set, the getter of its role returns it")
	c.rule("others", "setting a piece of metadata changes what is returned for no other role")
	c.rule("empty", "a new repository has no metadata, and is not shared")
	const pkg = "metadata/repository"
	fn := c.P.fn(pkg, "New")
	rt := fn.Signature.Results().At(0).Type()
	e := c.eng()
	an := c.analyse(e, fn, nil)
	getters := []string{"Root", "Snapshot", "Timestamp", "Targets"}
	run := func(st *State, r *Term, name string, role *Term, tag string) []Outcome {
		args := []*Term{r}
		if name == "Targets" {
			args = append(args, role)
		}
		return e.run(c.P.method(rt, name), st.clone(), args, nil, tag+name, nil, nil)
	}
	role, other := mk("param", "role", types.Typ[types.String]), mk("param", "other", types.Typ[types.String])
	for _, o := range an.outs {
		if o.kind != "ret" {
			continue
		}
		r := o.rets[0]
		if !c.check("empty", isFreshOp(r.root()), fn.Pos(), o.st, "New returns a repository that is not new") {
			continue
		}
		for _, g := range getters {
			for _, q := range run(o.st, r, g, role, "new") {
				c.check("empty", q.kind == "ret" && q.st.holds(isNilT(q.rets[0])), fn.Pos(), q.st, "%s of a new repository returns something", g)
			}
		}
	}
	e = c.eng()
	for _, s := range getters {
		sf := c.P.method(rt, "Set"+s)
		var before map[string][]Outcome
		var entry *State
		an := c.analyse2(e, sf, func(st *State, args []*Term) {
			st.assume(nonNil(args[0]), true)
			// every repository was made by New: its maps are there
			if pt, ok := under(args[0].typ).(*types.Pointer); ok {
				if s, ok := under(pt.Elem()).(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if _, ok := under(s.Field(i).Type()).(*types.Map); ok {
							st.assume(nonNil(st.load(mkFaddr(args[0], pt.Elem(), i), s.Field(i).Type())), true)
						}
					}
				}
			}
			if s == "Targets" {
				role = args[1]
				st.assume(eqT(role, other), false)
			}
			entry = st
			before = map[string][]Outcome{}
			for _, g := range getters {
				before[g] = run(st, args[0], g, other, "before")
			}
		}, nil)
		_ = entry
		val := an.arg(len(an.args) - 1)
		for _, o := range an.outs {
			if o.kind != "ret" {
				continue
			}
			for _, g := range getters {
				if g == s {
					for _, q := range run(o.st, an.arg(0), g, role, "after") {
						c.check("stored", q.kind == "ret" && q.rets[0] == val, sf.Pos(), q.st, "%s after Set%s returns something else than what was set", g, s)
					}
					if g != "Targets" {
						continue
					}
				}
				was := before[g]
				for _, q := range run(o.st, an.arg(0), g, other, "other") {
					c.check("others", q.kind == "ret" && len(was) == 1 && was[0].kind == "ret" && q.rets[0] == was[0].rets[0], sf.Pos(), q.st, "Set%s changes what %s returns for another role", s, g)
				}
			}
		}
	}
	c.need("stored", 4)
	c.need("others", 12)
	c.need("empty", 4)
}

func ruleC27(c *Ctx) {
	c.rule("bytes", "ToBytes returns the JSON encoding of the complete document, or an error if there is none")
	c.rule("file", "ToFile succeeds only if the file of the given name holds exactly those bytes, and fails only if they could not be made or written")
	c.rule("only", "ToFile writes to no other file, and to none before the document is encoded")
	for _, targ := range sortedKeys(metaRole) {
		t := c.P.namedType("metadata", "Metadata", targ)
		whole := func(an *An, st *State, b *Term) bool {
			if b == nil || b.op != "app" || b.name != "json.Marshal:0" {
				return false
			}
			if !st.holds(isNilT(mk("app", "json.Marshal:1", errType, b.args...))) {
				return false // no bytes at all, perhaps
			}
			x := unwrap(b.args[0])
			m := an.arg(0)
			return x == m || x == an.entry.load(m, t) || x == st.load(m, t)
		}
		encFailed := func(st *State, err *Term) bool {
			return err.any(func(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.name, "json.Marshal:1") })
		}
		for _, name := range []string{"ToBytes", "ToFile"} {
			an := c.analyse2(c.eng(), c.P.method(t, name), func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) }, nil)
			for _, r := range an.results() {
				if r.kind != "ret" {
					continue
				}
				p, st := posOf(an, r.Outcome), r.st
				if name == "ToBytes" {
					if r.ok {
						c.check("bytes", whole(an, st, r.rets[0]), p, st, "ToBytes of %s returns something else than the encoded document: %s", targ, cut(r.rets[0].String(), 60))
					} else {
						c.check("bytes", encFailed(st, r.err), p, st, "ToBytes of %s fails although the document could be encoded", targ)
					}
					continue
				}
				file := an.arg(1)
				failed := encFailed(st, r.err)
				for _, ev := range st.events() {
					if !isFSChange(ev) {
						continue
					}
					failed = failed || okAt(st, ev) != 1
					switch ev.name {
					case "os.WriteFile", "os.Create", "os.OpenFile", "os.Truncate":
						c.check("only", st.holds(eqT(ev.args[0], file)) || tempFile(st, ev.args[0]) != nil, ev.pos, st, "ToFile writes another file than the one named: %s", cut(ev.args[0].String(), 60))
					case "os.Rename":
						c.check("only", st.holds(eqT(ev.args[1], file)) && tempFile(st, ev.args[0]) != nil, ev.pos, st, "ToFile renames %s to %s", cut(ev.args[0].String(), 60), cut(ev.args[1].String(), 60))
					case "os.Remove":
						c.check("only", tempFile(st, ev.args[0]) != nil, ev.pos, st, "ToFile removes %s", cut(ev.args[0].String(), 60))
					case "os.CreateTemp", "os.File.Write", "os.File.Close", "os.File.Sync":
					default:
						c.check("only", false, ev.pos, st, "ToFile calls %s", ev.name)
					}
					if encFailed(st, r.err) {
						c.check("only", false, ev.pos, st, "ToFile touches files although the document cannot be encoded")
					}
				}
				for _, ev := range callsOf(st, "os.File.Close") {
					failed = failed || okAt(st, ev) != 1
				}
				if r.ok {
					c.check("file", whole(an, st, writtenTo(st, file)), p, st, "ToFile of %s may succeed although the file does not hold the encoded document", targ)
				} else {
					c.check("file", failed, p, st, "ToFile of %s fails although the document was encoded and written", targ)
				}
			}
		}
	}
	c.need("bytes", 8)
	c.need("file", 8)
	c.need("only", 8)
}

func init() {
	registry["C18"] = rule{ruleC18, "Every path of the constructors: the value of every field of the object returned, and that each object it consists of was made by the call."}
	registry["C19"] = rule{ruleC19, "Every path of each setter followed by every path of each getter."}
	registry["C27"] = rule{ruleC27, "Every path of ToBytes and ToFile: what the bytes were made from, and every change to the file system."}
}
