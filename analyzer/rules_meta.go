package main

import (
	"go/types"
	"strings"
)

const errLenHash = "metadata.ErrLengthOrHashMismatch"

// boolOut is an outcome of a function with a boolean result, with that result decided.
type boolOut struct {
	Outcome
	val bool
}

// bools splits the outcomes of a function by its (first) boolean result.
func (a *An) bools() []boolOut {
	var out []boolOut
	for _, o := range a.outs {
		if o.kind != "ret" {
			continue
		}
		for _, pol := range []bool{true, false} {
			c := o.rets[0]
			if !pol {
				c = not(c)
			}
			if s := given(o.st, c); s != nil {
				o2 := o
				o2.st = s
				out = append(out, boolOut{o2, pol})
			}
		}
	}
	return out
}

func digestOf(alg string, data *Term) *Term {
	return mk("app", "digest:"+alg, types.NewSlice(types.Typ[types.Uint8]), data)
}

// bytesEqual decides that the facts make two byte strings equal (1) or different (-1).
func bytesEqual(e *Eng, st *State, a, b *Term) int {
	for _, t := range []*Term{e.bytesEq(a, b), eqT(a, b), eqT(mk("app", "hex.EncodeToString", types.Typ[types.String], a), mk("app", "hex.EncodeToString", types.Typ[types.String], b)), e.bytesEq(mkConvert(a, types.Typ[types.String]), b)} {
		if d := st.decide(t); d != 0 {
			return d
		}
	}
	return 0
}

// isDigest finds a digest of data by alg in the state, whatever its Go type.
func digestEq(e *Eng, st *State, v *Term, alg string, data *Term) int {
	for t, pol := range st.bools {
		if t.op != "beq" && t.op != "eq" || len(t.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := stripHex(t.args[i]), stripHex(t.args[1-i])
			if x == v && isDigest(y, alg, data) {
				if pol {
					return 1
				}
				return -1
			}
		}
	}
	return bytesEqual(e, st, v, digestOf(alg, data))
}

func stripHex(t *Term) *Term {
	for (t.op == "app" && (t.name == "hex.EncodeToString") || t.op == "conv" || t.op == "slice" && len(t.args) == 3 && t.args[1] == mkInt(0) && t.args[2].op == "none") && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

func isDigest(t *Term, alg string, data *Term) bool {
	t = stripHex(t)
	return t.op == "app" && t.name == "digest:"+alg && t.args[0] == data
}

var digestAlgs = []string{"sha256", "sha512"}

// matchesDigest decides that the value listed under k is the digest of data
// by the algorithm k names: 1 yes, -1 no or no such algorithm.
func matchesDigest(e *Eng, st *State, hashes, k, data *Term) int {
	v := mk("lookup", "", mapElemType(hashes), hashes, k)
	known := false
	for _, alg := range digestAlgs {
		if st.fails(eqT(k, mkStr(alg))) {
			continue
		}
		known = true
		if st.holds(eqT(k, mkStr(alg))) {
			return digestEq(e, st, v, alg, data)
		}
	}
	if !known {
		return -1
	}
	return 0
}

func mapElemType(m *Term) types.Type {
	if m.typ == nil {
		return nil
	}
	if mt, ok := under(m.typ).(*types.Map); ok {
		return mt.Elem()
	}
	return nil
}

func ruleC04(c *Ctx) {
	c.rule("accept", "success means that every listed digest is a supported algorithm's digest of the bytes and the byte count is the described length (for metadata files: unless it is zero)")
	c.rule("refuse", "failure means that a listed digest is of an unsupported algorithm or different from that of the bytes, or that the length differs, and is a length or hash mismatch")
	c.rule("unchanged", "checking changes neither the description nor the bytes")
	for _, tn := range []string{"TargetFiles", "MetaFiles"} {
		e := c.eng()
		an := c.analyse(e, c.P.method(c.P.namedType("metadata", tn), "VerifyLengthHashes"), func(st *State, args []*Term) {
			st.assume(nonNil(args[0]), true)
		})
		f, data := an.arg(0), an.arg(1)
		for _, x := range an.evs {
			c.check("unchanged", !x.ev.args[0].contains(f) && !x.ev.args[0].contains(data), x.ev.pos, nil, "%s.VerifyLengthHashes changes what it checks", tn)
		}
		c.check("unchanged", true, an.fn.Pos(), nil, "")
		for _, r := range an.results() {
			if r.kind != "ret" {
				continue
			}
			p := posOf(an, r.Outcome)
			hm := get(r.st, f, "Hashes")
			hashes := r.st.mapVal(hm)
			length := get(r.st, f, "Length")
			if r.ok {
				if s := given(r.st, ltT(mkInt(0), mkLen(hashes))); s != nil {
					ok, why := an.forallMap(s, hashes, func(bs *State, k *Term) string {
						if matchesDigest(e, bs, hashes, k, data) != 1 {
							return "a listed digest may be of an unsupported algorithm or differ from that of the bytes"
						}
						return ""
					})
					c.check("accept", ok, p, s, "%s.VerifyLengthHashes accepts bytes although %s", tn, why)
				}
				s := r.st
				if tn == "MetaFiles" {
					s = given(r.st, not(eqT(length, mkInt(0))))
				}
				if s != nil {
					c.check("accept", s.holds(eqT(mkLen(data), length)), p, s, "%s.VerifyLengthHashes accepts bytes whose count may differ from the described length", tn)
				}
				continue
			}
			c.check("refuse", errName(r.st, r.err) == errLenHash, p, r.st, "%s.VerifyLengthHashes reports %s instead of a length or hash mismatch", tn, r.err)
			why := r.st.fails(eqT(mkLen(data), length)) && (tn == "TargetFiles" || r.st.fails(eqT(length, mkInt(0))))
			for _, k := range keysIn(r.st, hashes) {
				why = why || matchesDigest(e, r.st, hashes, k, data) == -1
			}
			c.check("refuse", why, p, r.st, "%s.VerifyLengthHashes refuses bytes although length and digests may match", tn)
		}
	}
	c.need("accept", 4)
	c.need("refuse", 4)
}

// keysIn lists the keys of a map that the state knows to be in it: those a
// loop is at and those looked up.
func keysIn(st *State, m *Term) []*Term {
	var out []*Term
	for t, v := range st.bools {
		if !v {
			continue
		}
		if t.op == "nextok" && t.args[0] == m {
			out = append(out, mk("key", "", nil, m, t.args[1]))
		}
		if t.op == "lookupok" && t.args[0] == m {
			out = append(out, t.args[1])
		}
	}
	sortTerms(out)
	return out
}

func ruleC15(c *Ctx) {
	c.rule("member", "every error of a family tests as a member of it, whatever its message")
	c.rule("no-member", "no error tests as a member of a family it does not belong to")
	c.rule("text", "the text of an error states what it was given: its message, or the address and status")
	families := map[string][]string{
		"ErrRepository":       {"ErrRepository", "ErrUnsignedMetadata", "ErrBadVersionNumber", "ErrEqualVersionNumber", "ErrExpiredMetadata", "ErrLengthOrHashMismatch"},
		"ErrBadVersionNumber": {"ErrBadVersionNumber", "ErrEqualVersionNumber"},
		"ErrDownload":         {"ErrDownloadHTTP", "ErrDownloadLengthMismatch"},
	}
	for _, f := range []string{"ErrRepository", "ErrDownload"} {
		for _, n := range families[f] {
			if families[n] == nil {
				families[n] = []string{n}
			}
		}
	}
	pkg := c.P.pkg("metadata")
	errIface := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	var errs []*types.Named
	for _, n := range pkg.Pkg.Scope().Names() {
		tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || !tn.Exported() || nt.TypeParams().Len() > 0 {
			continue
		}
		if _, st := nt.Underlying().(*types.Struct); st && types.Implements(nt, errIface) {
			errs = append(errs, nt)
		}
	}
	has := func(l []string, x string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	for _, t := range errs {
		for _, f := range errs {
			tn, fn := t.Obj().Name(), f.Obj().Name()
			res := c.isMember(t, f, 0)
			if has(families[fn], tn) {
				c.check("member", res == 1, t.Obj().Pos(), nil, "%s may not test as %s", tn, fn)
			} else if tn != fn {
				c.check("no-member", res == -1, t.Obj().Pos(), nil, "%s may test as %s", tn, fn)
			}
		}
	}
	for _, t := range errs {
		fn := c.P.method(t, "Error")
		an := c.analyse(c.eng(), fn, nil)
		str := t.Underlying().(*types.Struct)
		for _, o := range an.outs {
			if !c.check("text", o.kind == "ret" && len(o.rets) == 1, posOf(an, o), o.st, "the text of %s may end in a %s", t.Obj().Name(), o.kind) {
				continue
			}
			for i := 0; i < str.NumFields(); i++ {
				v := structFieldNamed(an.arg(0), str.Field(i).Name())
				told := v != nil && states(o.rets[0], v) || v != nil && v.typ != nil && types.Identical(under(v.typ), types.Typ[types.String]) && o.st.holds(eqT(v, mkStr("")))
				c.check("text", told, posOf(an, o), o.st, "the text of %s may not state its %s", t.Obj().Name(), str.Field(i).Name())
			}
		}
	}
	c.need("text", 10)
	c.need("member", 10)
	c.need("no-member", 60)
}

// states says that a text contains the value, in full.
func states(text, v *Term) bool {
	if text == v {
		return true
	}
	switch text.op {
	case "cat", "itoa", "conv":
	case "fmt":
		if strings.Contains(text.name, ".") {
			return false // a precision cuts it
		}
	case "app":
		if !strings.HasPrefix(text.name, "fmt.") && !strings.HasPrefix(text.name, "strconv.") {
			return false
		}
	default:
		if s := strip(text); s != text {
			return states(s, v)
		}
		return false
	}
	for _, a := range text.args {
		if states(a, v) {
			return true
		}
	}
	return false
}

// isMember decides errors.Is(t value, zero f value): 1 always, -1 never, 0 unknown.
func (c *Ctx) isMember(t, f *types.Named, depth int) int {
	res := -1
	if types.Identical(t, f) {
		res = 0 // equal only to itself
	}
	look := func(name string) *types.Func {
		o, _, _ := types.LookupFieldOrMethod(t, true, t.Obj().Pkg(), name)
		m, _ := o.(*types.Func)
		return m
	}
	if look("Is") != nil {
		e := c.eng()
		an := c.analyse(e, c.P.method(t, "Is"), func(st *State, args []*Term) {
			args[1] = mk("iface", typStr(f), f, mkZero(f))
		})
		n := map[bool]int{}
		for _, b := range an.bools() {
			n[b.val]++
		}
		switch {
		case n[false] == 0 && n[true] > 0:
			return 1
		case n[true] > 0:
			res = 0
		}
	}
	if look("Unwrap") != nil {
		if depth > 3 {
			return 0
		}
		e := c.eng()
		an := c.analyse(e, c.P.method(t, "Unwrap"), nil)
		for _, o := range an.outs {
			if o.kind != "ret" {
				continue
			}
			r := o.rets[0]
			if r.isNil() {
				if res == 1 {
					res = 0
				}
				continue
			}
			u := derefType(r.typ)
			nt, ok := types.Unalias(u).(*types.Named)
			if r.op != "iface" || !ok {
				return 0
			}
			if m := c.isMember(nt, f, depth+1); m != res {
				if m == 1 && len(an.outs) == 1 {
					return 1
				}
				res = 0
			}
		}
	}
	return res
}

func ruleC16(c *Ctx) {
	c.rule("description", "a generated description has the byte count, the path and, for each requested algorithm (sha256 by default), the digest of the bytes under its name")
	c.rule("unsupported", "generating fails exactly for an unsupported algorithm or an unreadable file")
	c.rule("hashes-equal", "digest sets are equal exactly if an algorithm is common to both and every common one has the same value")
	c.rule("targets-equal", "target descriptions are equal exactly if lengths and digest sets are")
	e := c.eng()
	an := c.analyse(e, c.P.method(c.P.namedType("metadata", "TargetFiles"), "FromBytes"), nil)
	path, data, want := an.arg(1), an.arg(2), an.arg(3)
	for _, r := range an.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(an, r.Outcome)
		if !r.ok {
			c.check("unsupported", isNilTerm(r.st, r.rets[0]), p, r.st, "FromBytes returns a description together with an error")
			bad := false
			for t := range r.st.consts {
				bad = bad || unsupported(r.st, t, want)
			}
			for t := range r.st.bools {
				if t.op == "eq" {
					bad = bad || unsupported(r.st, t.args[0], want) || unsupported(r.st, t.args[1], want)
				}
			}
			c.check("unsupported", bad, p, r.st, "FromBytes fails although all requested algorithms may be supported")
			continue
		}
		x := r.rets[0]
		if !c.check("description", r.st.holds(nonNil(x)), p, r.st, "FromBytes succeeds without a description") {
			continue
		}
		c.check("description", r.st.holds(eqT(get(r.st, x, "Length"), mkLen(data))), p, r.st, "FromBytes records the length %s", get(r.st, x, "Length"))
		c.check("description", r.st.holds(eqT(get(r.st, x, "Path"), path)), p, r.st, "FromBytes records the path %s", get(r.st, x, "Path"))
		h := r.st.mapVal(get(r.st, x, "Hashes"))
		why := c.digestMap(e, r.st, h, data, want)
		c.check("description", why == "", p, r.st, "FromBytes records the digests %s: %s", h, why)
	}
	// from a file: the same for the bytes read from it
	const kFrom = "metadata.TargetFiles.FromBytes"
	e = c.eng(kFrom)
	fe := c.analyse(e, c.P.method(c.P.namedType("metadata", "TargetFiles"), "FromFile"), nil)
	for _, r := range fe.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(fe, r.Outcome)
		calls := callsOf(r.st, kFrom)
		if r.ok {
			good := false
			for _, ev := range calls {
				n := localOf(r.st, ev.args[2])
				good = good || isRes(ev, 0, r.rets[0]) && okAt(r.st, ev) == 1 && n == fe.arg(1) && ev.args[1] == fe.arg(1) && ev.args[3] == fe.arg(2)
			}
			for _, ev := range callsOf(r.st, "os.Open", "os.ReadFile", "io.ReadAll") {
				good = good && okAt(r.st, ev) == 1
			}
			c.check("description", good, p, r.st, "FromFile returns a description that is not that of the file's bytes")
			continue
		}
		failed := false
		for _, ev := range callsOf(r.st, kFrom, "os.Open", "os.ReadFile", "io.ReadAll", "os.Stat") {
			failed = failed || okAt(r.st, ev) == -1
		}
		c.check("unsupported", failed, p, r.st, "FromFile fails although nothing went wrong")
	}
	// digest sets
	e = c.eng()
	he := c.analyse(e, c.P.method(c.P.namedType("metadata", "Hashes"), "Equal"), nil)
	a, b := he.arg(0), he.arg(1)
	for _, o := range he.bools() {
		p := posOf(he, o.Outcome)
		ma, mb := o.st.mapVal(a), o.st.mapVal(b)
		same := func(st *State, k *Term) int { // 1 both and equal, -1 both and different, 0 unknown, 2 not in both
			ina, inb := lookupOK(ma, k), lookupOK(mb, k)
			if st.fails(ina) || st.fails(inb) {
				return 2
			}
			if !st.holds(ina) || !st.holds(inb) {
				if !(isKeyOf(k, ma) && st.holds(inb) || isKeyOf(k, mb) && st.holds(ina)) {
					return 0
				}
			}
			return bytesEqual(e, st, mk("lookup", "", mapElemType(a), ma, k), mk("lookup", "", mapElemType(b), mb, k))
		}
		common := func() int { // some known common key: 1 equal, -1 different
			r := 0
			for _, m := range []*Term{ma, mb} {
				for _, k := range keysIn(o.st, m) {
					switch same(o.st, k) {
					case -1:
						return -1
					case 1:
						r = 1
					}
				}
			}
			return r
		}()
		all := func(want func(r int) bool) bool {
			for _, m := range []*Term{ma, mb} {
				if ok, _ := he.forallMap(o.st, m, func(bs *State, k *Term) string {
					if want(same(bs, k)) {
						return ""
					}
					return "no"
				}); ok {
					return true
				}
			}
			return false
		}
		if o.val {
			c.check("hashes-equal", common == 1 && all(func(r int) bool { return r == 1 || r == 2 }), p, o.st, "Hashes.Equal may hold without a common algorithm or with different values for one")
		} else {
			c.check("hashes-equal", common == -1 || all(func(r int) bool { return r == 2 }), p, o.st, "Hashes.Equal may fail although a common algorithm has the same value and none differs")
		}
	}
	// target descriptions
	const kHEq = "metadata.Hashes.Equal"
	e = c.eng()
	e.contract[kHEq] = pureContract(kHEq)
	te := c.analyse(e, c.P.method(c.P.namedType("metadata", "TargetFiles"), "Equal"), func(st *State, args []*Term) {
		st.assume(nonNil(args[0]), true)
	})
	for _, o := range te.bools() {
		p := posOf(te, o.Outcome)
		x, y := te.arg(0), te.arg(1)
		len1, len2 := get(o.st, x, "Length"), field1(o.st, y, "Length")
		h1, h2 := get(o.st, x, "Hashes"), field1(o.st, y, "Hashes")
		heq := 0
		for t, v := range o.st.bools {
			if t.op == "app" && t.name == kHEq && (t.args[0] == h1 && t.args[1] == h2 || t.args[0] == h2 && t.args[1] == h1) {
				heq = -1
				if v {
					heq = 1
				}
			}
		}
		l := o.st.decide(eqT(len1, len2))
		if o.val {
			c.check("targets-equal", l == 1 && heq == 1, p, o.st, "TargetFiles.Equal may hold for different lengths or digests")
		} else {
			c.check("targets-equal", l == -1 || heq == -1, p, o.st, "TargetFiles.Equal may fail for equal lengths and digests")
		}
	}
	c.need("description", 6)
	c.need("unsupported", 3)
	c.need("hashes-equal", 3)
	c.need("targets-equal", 3)
}

func lookupOK(m, k *Term) *Term { return mk("lookupok", "", types.Typ[types.Bool], m, k) }

func isKeyOf(k, m *Term) bool { return k.op == "key" && k.args[0] == m }

func isNilTerm(st *State, t *Term) bool { return t.isNil() || st.holds(isNilT(t)) }

// unsupported decides that t is a requested algorithm that is not supported.
func unsupported(st *State, t, want *Term) bool {
	if t.op != "load" && t.op != "elem" || !t.contains(want) || !isString(typOf(t)) {
		return false
	}
	for _, a := range digestAlgs {
		if !st.fails(eqT(t, mkStr(a))) {
			return false
		}
	}
	return true
}

// digestMap decides that m maps each requested algorithm, and nothing else, to
// the digest of data.
func (c *Ctx) digestMap(e *Eng, st *State, m, data, want *Term) string {
	if s := given(st, eqT(mkLen(want), mkInt(0))); s != nil {
		if m.op != "mupd" || m.args[0].op != "mempty" || m.args[1] != mkStr("sha256") || !isDigest(m.args[2], "sha256", data) {
			if given(st, not(eqT(mkLen(want), mkInt(0)))) == nil {
				return "the default is not the sha256 digest"
			}
			if a := e.accs[m]; a == nil || st.holds(eqT(mkLen(want), mkInt(0))) {
				return "the default is not the sha256 digest"
			}
		} else {
			return ""
		}
	}
	if given(st, not(eqT(mkLen(want), mkInt(0)))) == nil {
		return ""
	}
	a := e.accs[m]
	if a == nil || a.v.init == nil || a.v.init.op != "mempty" {
		return "not built from the requested algorithms"
	}
	for _, b := range a.sum.allBacks {
		v := b.vals[a.v.id]
		if v.op != "mupd" || v.args[0] != a.v.symP {
			return "a requested algorithm may be left out"
		}
		k, d := v.args[1], v.args[2]
		req := b.st.load(mkIaddr(want, a.sum.itP, types.Typ[types.String]), types.Typ[types.String])
		if !b.st.holds(eqT(k, req)) {
			return "a digest is recorded under " + k.String()
		}
		good := false
		for _, al := range digestAlgs {
			good = good || b.st.holds(eqT(k, mkStr(al))) && isDigest(d, al, data)
		}
		if !good {
			return "under " + k.String() + " it is " + d.String()
		}
	}
	if !st.holds(not(ltT(a.sum.itC, mkLen(want)))) {
		return "some requested algorithm may not have been reached"
	}
	return ""
}

func init() {
	pre := "Path-sensitive abstract interpretation of the exported operation with its helpers inlined. "
	registry["C04"] = rule{ruleC04, pre + "Facts about digests and length on accepting and refusing paths."}
	registry["C15"] = rule{ruleC15, pre + "Is/Unwrap methods of every exported error type, for every pair of types."}
	registry["C16"] = rule{ruleC16, pre + "Contents of the generated description; truth of the comparisons on all paths."}
}
