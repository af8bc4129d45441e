package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
)

// subterms calls f for the terms that the facts of st are about.
func subterms(st *State, f func(t *Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	var ts []*Term
	for t := range st.bools {
		ts = append(ts, t)
	}
	for t := range st.ivs {
		ts = append(ts, t)
	}
	sortTerms(ts)
	for _, t := range ts {
		rec(t)
	}
}

const slash = "/"

// partsOf is the list of the parts of a path.
func partsOf(x *Term) *Term {
	return mk("app", "strings.Split", types.NewSlice(types.Typ[types.String]), x, mkStr(slash))
}

// partMatch decides whether part i of the target matches part i of the pattern.
func partMatch(st *State, pattern, target, i *Term) int {
	str := types.Typ[types.String]
	pp, tp := partsOf(pattern), partsOf(target)
	p, t := st.load(mkIaddr(pp, i, str), str), st.load(mkIaddr(tp, i, str), str)
	for _, m := range []string{"path/filepath.Match", "path.Match"} {
		if d := st.decide(mk("app", m+":0", types.Typ[types.Bool], p, t)); d != 0 {
			return d
		}
		if st.fails(isNilT(mk("app", m+":1", errType, p, t))) {
			return -1
		}
	}
	return 0
}

func sameParts(pattern, target *Term) *Term {
	return eqT(mkLen(partsOf(pattern)), mkLen(partsOf(target)))
}

// pathMatches decides that a target path matches a pattern.
func (a *An) pathMatches(st *State, pattern, target *Term) bool {
	if !st.holds(sameParts(pattern, target)) {
		return false
	}
	for _, s := range []*Term{partsOf(target), partsOf(pattern)} {
		if ok, _ := a.forallSlice(st, s, func(bs *State, i *Term) string {
			if partMatch(bs, pattern, target, i) == 1 {
				return ""
			}
			return "a part may not match"
		}); ok {
			return true
		}
	}
	return false
}

// pathDiffers decides that a target path does not match a pattern.
func (a *An) pathDiffers(st *State, pattern, target *Term) bool {
	if st.fails(sameParts(pattern, target)) {
		return true
	}
	some := func(bs *State) bool {
		found := false
		subterms(bs, func(t *Term) {
			if !found && t.op == "load" && t.args[0].op == "iaddr" && (t.args[0].args[0] == partsOf(target) || t.args[0].args[0] == partsOf(pattern)) {
				found = partMatch(bs, pattern, target, t.args[0].args[1]) == -1
			}
		})
		return found
	}
	return some(st) || a.someIteration(st, func(bs *State) bool {
		if m := mergeFacts(bs, st); m != nil {
			bs = m
		}
		return some(bs)
	})
}

// elemsOf lists the elements of a list that st knows something about.
func elemsOf(st *State, s *Term) []*Term {
	var out []*Term
	subterms(st, func(t *Term) {
		if isElemOf(t, s) {
			out = append(out, t)
		}
	})
	return out
}

// someElem decides that pred holds for some element of the list.
func (a *An) someElem(st *State, s *Term, pred func(st *State, x *Term) bool) bool {
	any := func(bs *State) bool {
		for _, x := range elemsOf(bs, s) {
			if pred(bs, x) {
				return true
			}
		}
		return false
	}
	return any(st) || a.someIteration(st, any)
}

// prefixed decides whether a string starts with another.
func prefixed(st *State, s, pre *Term) int {
	return st.decide(mk("app", "strings.HasPrefix", types.Typ[types.Bool], s, pre))
}

func ruleC13(c *Ctx) {
	c.rule("patterns", "with path patterns a role answers exactly for the paths that match one of them part by part")
	c.rule("prefixes", "without path patterns a role answers exactly for the paths whose digest starts with one of its prefixes")
	c.rule("digest", "the digest that the prefixes are compared with is written in lowercase hex")
	c.rule("neither", "a role with neither answers for nothing")
	c.rule("answer", "the question is always answered, and nothing is changed")
	c.rule("listed", "the roles listed for a path are those that answer for it, each with its own name and terminating flag, in order")
	e := c.eng()
	an := c.analyse(e, c.P.method(c.P.namedType("metadata", "DelegatedRole"), "IsDelegatedPath"), func(st *State, args []*Term) {
		st.assume(nonNil(args[0]), true)
	})
	role, target := an.arg(0), an.arg(1)
	paths, prefixes := get(an.entry, role, "Paths"), get(an.entry, role, "PathHashPrefixes")
	none := func(l *Term) *Term { return eqT(mkLen(l), mkInt(0)) }
	isDigestText := func(t *Term) bool {
		return isApp(t, "hex.EncodeToString") && isDigestOf(t.args[0], target)
	}
	isBase64 := func(t *Term) bool {
		return t.op == "app" && strings.HasSuffix(t.name, "base64.Encoding.EncodeToString") && len(t.args) == 2 && strings.Contains(t.args[0].String(), "base64.URLEncoding") && isDigestOf(t.args[1], target)
	}
	startsWith := func(st *State, x *Term) (int, *Term) {
		// the string that is compared with the prefix
		for _, t := range boolTerms(st) {
			if isApp(t, "strings.HasPrefix") && t.args[1] == x && (isDigestText(t.args[0]) || isBase64(t.args[0])) {
				return st.decide(t), t.args[0]
			}
		}
		return 0, nil
	}
	for _, o := range an.outs {
		if o.kind != "ret" {
			continue
		}
		pos := posOf(an, o)
		c.check("answer", len(changes(o.st)) == 0, pos, o.st, "asking whether a role answers for a path changes something")
		if !c.check("answer", o.st.holds(isNilT(o.rets[1])), pos, o.st, "whether a role answers for a path may be left open with an error") {
			continue
		}
		for _, yes := range []bool{true, false} {
			for _, pats := range []bool{true, false} {
				cond := o.rets[0]
				if !yes {
					cond = not(cond)
				}
				pc := none(paths)
				if pats {
					pc = not(pc)
				}
				st := given(o.st, cond, pc)
				if st == nil {
					continue
				}
				switch {
				case pats && yes:
					c.check("patterns", an.someElem(st, paths, func(st *State, x *Term) bool { return an.pathMatches(st, x, target) }), pos, st,
						"a role with path patterns may answer for a path that matches none of them")
				case pats:
					ok, why := an.forallSlice(st, paths, func(bs *State, i *Term) string {
						if an.pathDiffers(bs, bs.load(mkIaddr(paths, i, elemType(paths.typ)), elemType(paths.typ)), target) {
							return ""
						}
						return "a pattern may match"
					})
					c.check("patterns", ok, pos, st, "a role may not answer for a path although a pattern of it matches: %s", why)
				case yes:
					if st.holds(none(prefixes)) {
						c.check("neither", false, pos, st, "a role without patterns and prefixes may answer for a path")
						continue
					}
					var with *Term
					c.check("prefixes", an.someElem(st, prefixes, func(st *State, x *Term) bool {
						d, t := startsWith(st, x)
						with = t
						return d == 1
					}), pos, st, "a role without path patterns may answer for a path whose digest starts with none of its prefixes")
					if with != nil {
						c.check("digest", isDigestText(with), pos, st, "the digest of a path is compared in another form with the prefixes: %s", cut(with.String(), 60))
					}
				default:
					if st.holds(none(prefixes)) {
						c.check("neither", true, pos, st, "")
						continue
					}
					var with *Term
					ok, why := an.forallSlice(st, prefixes, func(bs *State, i *Term) string {
						d, t := startsWith(bs, bs.load(mkIaddr(prefixes, i, elemType(prefixes.typ)), elemType(prefixes.typ)))
						with = t
						if d == -1 {
							return ""
						}
						return "the digest may start with a prefix"
					})
					c.check("prefixes", ok, pos, st, "a role may not answer for a path although its digest starts with one of the prefixes: %s", why)
					if with != nil {
						c.check("digest", isDigestText(with), pos, st, "the digest of a path is compared in another form with the prefixes: %s", cut(with.String(), 60))
					}
				}
			}
		}
	}
	c.need("patterns", 2)
	c.need("prefixes", 2)
	c.need("answer", 2)
	c.matches("listed")
	c.need("listed", 2)
}

func boolTerms(st *State) []*Term {
	var ts []*Term
	for t := range st.bools {
		ts = append(ts, t)
	}
	sortTerms(ts)
	return ts
}

// isDigestOf decides that t is the SHA-256 digest of a string.
func isDigestOf(t, s *Term) bool {
	for t.op == "slice" && len(t.args) == 3 && (t.args[1].op == "none" || t.args[1] == mkInt(0)) && t.args[2].op == "none" {
		t = t.args[0]
	}
	return isApp(t, "digest:sha256") && bytesOf(t.args[0]) == s
}

// ---- succinct delegations ----

// fold computes a term that depends on nothing but the terms of env.
func fold(t *Term, env map[*Term]constant.Value) constant.Value {
	if v := env[t]; v != nil {
		return v
	}
	arg := func(i int) constant.Value {
		if i >= len(t.args) {
			return nil
		}
		return fold(t.args[i], env)
	}
	switch {
	case t.op == "const":
		if t.cv == nil {
			return nil
		}
		return t.cv
	case t.op == "lin":
		s := constant.MakeInt64(t.k)
		for i := range t.args {
			v := arg(i)
			if v == nil {
				return nil
			}
			s = constant.BinaryOp(s, token.ADD, constant.BinaryOp(v, token.MUL, constant.MakeInt64(t.co[i])))
		}
		return s
	case t.op == "conv" && t.typ != nil:
		v := arg(0)
		if v == nil {
			return nil
		}
		if isFloat(t.typ) {
			return constant.ToFloat(v)
		}
		if b, ok := under(t.typ).(*types.Basic); ok && isInt(t.typ) {
			i := constant.ToInt(v)
			if i.Kind() != constant.Int {
				f, _ := constant.Float64Val(v)
				i = constant.MakeInt64(int64(f))
			}
			return wrapInt(i, b)
		}
	case t.op == "app" && t.name == "math.Pow":
		x, y := arg(0), arg(1)
		if x == nil || y == nil {
			return nil
		}
		a, _ := constant.Float64Val(constant.ToFloat(x))
		b, _ := constant.Float64Val(constant.ToFloat(y))
		return constant.MakeFloat64(math.Pow(a, b))
	case t.op == "app" && (t.name == "math.Ceil" || t.name == "math.Floor"):
		x := arg(0)
		if x == nil {
			return nil
		}
		a, _ := constant.Float64Val(constant.ToFloat(x))
		if t.name == "math.Ceil" {
			return constant.MakeFloat64(math.Ceil(a))
		}
		return constant.MakeFloat64(math.Floor(a))
	case t.op == "len" && t.args[0].op == "fmt" && t.args[0].name == "%x" && len(t.args[0].args) == 1:
		v := fold(t.args[0].args[0], env)
		if v == nil {
			return nil
		}
		i, ok := constant.Int64Val(constant.ToInt(v))
		if !ok {
			return nil
		}
		return constant.MakeInt64(int64(len(strconv.FormatInt(i, 16))))
	case t.op == "bin":
		x, y := arg(0), arg(1)
		if x == nil || y == nil {
			return nil
		}
		if t.typ != nil && isFloat(t.typ) {
			x, y = constant.ToFloat(x), constant.ToFloat(y)
		}
		var r constant.Value
		switch t.name {
		case "+", "-", "*", "&", "|", "^", "&^":
			tok := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT}[t.name]
			r = constant.BinaryOp(x, tok, y)
		case "/":
			if constant.Sign(y) == 0 {
				return nil
			}
			if isInt(t.typ) {
				r = constant.BinaryOp(x, token.QUO_ASSIGN, y)
			} else {
				r = constant.BinaryOp(x, token.QUO, y)
			}
		case "%":
			if constant.Sign(y) == 0 {
				return nil
			}
			r = constant.BinaryOp(x, token.REM, y)
		case "<<", ">>":
			n, ok := constant.Uint64Val(constant.ToInt(y))
			if !ok || n > 128 {
				return nil
			}
			tok := token.SHL
			if t.name == ">>" {
				tok = token.SHR
			}
			r = constant.Shift(constant.ToInt(x), tok, uint(n))
		default:
			return nil
		}
		if b, ok := under(t.typ).(*types.Basic); ok && isInt(t.typ) {
			return wrapInt(r, b)
		}
		return r
	}
	return nil
}

// wrapInt is a number as kept by an integer type.
func wrapInt(v constant.Value, b *types.Basic) constant.Value {
	size, unsigned := intSize(b)
	if size == 0 {
		size = 64
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(size))
	r := constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if !unsigned && constant.Compare(r, token.GEQ, constant.Shift(constant.MakeInt64(1), token.SHL, uint(size-1))) {
		r = constant.BinaryOp(r, token.SUB, mod)
	}
	return r
}

// succinct knows the quantities of a succinct delegation.
type succinct struct {
	bits, prefix *Term
}

// equals decides that a term that depends on the bit length only is f of it,
// plus a constant, for each bit length that is possible in st.
func (s *succinct) equals(st *State, t *Term, f func(b int64) int64) (k int64, ok bool) {
	if t.op == "const" || t.typ != nil && !isInt(t.typ) {
		return 0, false
	}
	first := true
	for b := int64(1); b <= 32; b++ {
		if st != nil && given(st, eqT(s.bits, mkInt(b))) == nil {
			continue
		}
		v := fold(t, map[*Term]constant.Value{s.bits: constant.MakeInt64(b)})
		if v == nil {
			return 0, false
		}
		i, exact := constant.Int64Val(constant.ToInt(v))
		if !exact {
			return 0, false
		}
		d := i - f(b)
		if !first && d != k {
			return 0, false
		}
		k, first = d, false
	}
	return k, !first
}

// possible tells that st is about a bit length from 1 to 32.
func (s *succinct) possible(st *State) bool {
	return given(st, not(ltT(s.bits, mkInt(1))), ltT(s.bits, mkInt(33))) != nil
}

func bins(b int64) int64  { return 1 << b }
func width(b int64) int64 { return (b + 3) / 4 }

// padded returns the number that t writes in lowercase hex, zero-padded to the
// width of the largest bin.
func (s *succinct) padded(st *State, t *Term) *Term {
	isWidth := func(w *Term) bool {
		k, ok := s.equals(st, w, width)
		return ok && k == 0
	}
	switch {
	case t.op == "fmt" && t.name == "%0*x" && len(t.args) == 2:
		if isWidth(t.args[0]) {
			return t.args[1]
		}
	case t.op == "cat" && len(t.args) == 2 && isApp(t.args[0], "strings.Repeat") && t.args[1].op == "fmt" && t.args[1].name == "%x":
		if z, ok := t.args[0].args[0].strVal(); ok && z == "0" && isWidth(mkAdd(t.args[0].args[1], mkLen(t.args[1]), 1)) {
			return t.args[1].args[0]
		}
	}
	return nil
}

// binOf returns the number of the bin that t names.
func (s *succinct) binOf(st *State, t *Term) *Term {
	if t.op != "cat" || len(t.args) < 3 || t.args[0] != s.prefix {
		return nil
	}
	if h, ok := t.args[1].strVal(); !ok || h != "-" {
		return nil
	}
	return s.padded(st, mkCat(t.args[2:]...))
}

func ruleC14(c *Ctx) {
	c.rule("assigned", "a path is assigned to the one bin with the number of the leftmost bits of its digest, and that is terminating")
	c.rule("enumerated", "the names of all bins are listed in the order of their numbers")
	c.rule("recognised", "a name is recognised only if it is the name of a bin")
	c.rule("refused", "a name is refused only if it is not the name of a bin")
	c.rule("pure", "answering changes nothing")
	start := func(name string) (*An, *succinct) {
		an := c.analyse(c.eng(), c.P.method(c.P.namedType("metadata", "SuccinctRoles"), name), func(st *State, args []*Term) {
			st.assume(nonNil(args[0]), true)
			b := get(st, args[0], "BitLength")
			st.assume(ltT(mkInt(0), b), true)
			st.assume(ltT(b, mkInt(33)), true)
		})
		role := an.arg(0)
		s := &succinct{get(an.entry, role, "BitLength"), get(an.entry, role, "NamePrefix")}
		for _, o := range an.outs {
			if o.kind == "ret" {
				c.check("pure", len(changes(o.st)) == 0, posOf(an, o), o.st, "%s changes something", name)
			}
		}
		return an, s
	}

	an, s := start("GetRolesForTarget")
	for _, o := range an.outs {
		if o.kind != "ret" || !s.possible(o.st) {
			continue
		}
		pos, st := posOf(an, o), o.st
		t := o.rets[0]
		if t.op == "append" && emptyColl(t.args[0]) {
			t = t.args[1]
		}
		if !c.check("assigned", t.op == "slicelit" && len(t.args) == 1, pos, st, "a path may be assigned to another number of bins than one: %s", cut(t.String(), 60)) {
			continue
		}
		c.check("assigned", st.holds(structFieldNamed(t.args[0], "Terminating")), pos, st, "the bin of a path may not be terminating")
		name := structFieldNamed(t.args[0], "Name")
		n := s.binOf(st, name)
		if !c.check("assigned", n != nil, pos, st, "a path may be assigned to something that is not a bin: %s", cut(name.String(), 90)) {
			continue
		}
		why := s.leftmost(st, n, an.arg(1))
		c.check("assigned", why == "", pos, st, "a path may be assigned to the wrong bin: %s", why)
	}
	c.need("assigned", 2)

	an, s = start("GetRoles")
	for _, o := range an.outs {
		if o.kind != "ret" || !s.possible(o.st) {
			continue
		}
		why := s.allBins(an, o.st, o.rets[0])
		c.check("enumerated", why == "", posOf(an, o), o.st, "the listed names may not be those of all bins: %s", why)
	}
	c.need("enumerated", 1)

	an, s = start("IsDelegatedRole")
	name := an.arg(1)
	dash := mkCat(s.prefix, mkStr("-"))
	for _, o := range an.outs {
		if o.kind != "ret" {
			continue
		}
		pos := posOf(an, o)
		if st := given(o.st, o.rets[0]); st != nil && s.possible(st) {
			why := s.isBin(st, name, dash)
			c.check("recognised", why == "", pos, st, "a name may be recognised although it is not the name of a bin: %s", why)
		}
		if st := given(o.st, not(o.rets[0])); st != nil && s.possible(st) {
			c.check("refused", s.isNoBin(st, name, dash), pos, st, "a name may be refused although it is the name of a bin")
		}
	}
	c.need("recognised", 1)
	c.need("refused", 2)
}

// leftmost returns "" if n is the number made of the leftmost bits of the
// digest of a path.
func (s *succinct) leftmost(st *State, n, path *Term) string {
	for n.op == "conv" && n.typ != nil && isInt(n.typ) {
		n = n.args[0]
	}
	if n.op != "bin" || n.name != ">>" {
		return "it is not shifted to the right: " + cut(n.String(), 60)
	}
	x, sh := n.args[0], n.args[1]
	size := int64(0)
	for x.op == "conv" && x.typ != nil && isInt(x.typ) {
		x = x.args[0]
	}
	switch {
	case x.op == "app" && strings.HasSuffix(x.name, "binary.bigEndian.Uint32"):
		size = 32
	case x.op == "app" && strings.HasSuffix(x.name, "binary.bigEndian.Uint64"):
		size = 64
	default:
		return "it is not made of the leading bytes, the first the most significant: " + cut(x.String(), 60)
	}
	d := x.args[len(x.args)-1]
	if d.op == "slice" && (d.args[1].op == "none" || d.args[1] == mkInt(0)) {
		if hi, ok := d.args[2].intVal(); ok && hi >= size/8 || d.args[2].op == "none" {
			d = d.args[0]
		}
	}
	if !isDigestOf(d, path) {
		return "the leading bytes are not those of the SHA-256 digest of the path: " + cut(d.String(), 60)
	}
	if k, ok := s.equals(st, sh, func(b int64) int64 { return size - b }); !ok || k != 0 {
		return "another number of bits is kept: " + cut(sh.String(), 60)
	}
	return ""
}

// allBins returns "" if t lists the names of all bins in order.
func (s *succinct) allBins(an *An, st *State, t *Term) string {
	if t.op == "makeslice" {
		return s.filledBins(an, st, t)
	}
	acc, ok := an.e.accs[t]
	if !ok || acc.v.symC != t {
		return "the list is not made by a loop: " + cut(t.String(), 60)
	}
	if acc.v.init == nil || !emptyColl(acc.v.init) {
		return "the list does not start empty"
	}
	for _, b := range acc.sum.backs {
		nv := b.vals[acc.v.id]
		if nv.op != "append" || nv.args[0] != acc.v.symP || nv.args[1].op != "slicelit" || len(nv.args[1].args) != 1 {
			return "a round does not add one name at the end"
		}
		n := s.binOf(b.st, nv.args[1].args[0])
		if n == nil {
			return "what is listed is not the name of a bin: " + cut(nv.args[1].args[0].String(), 60)
		}
		for n.op == "conv" && isInt(n.typ) && n.args[0].typ != nil {
			n = n.args[0]
		}
		if n != acc.sum.itP {
			return "the names do not begin with that of bin 0 and go on one by one: " + cut(n.String(), 60)
		}
		if !s.below(b.st, acc.sum.itP) {
			return "there may be names of more bins than there are"
		}
	}
	if !s.notBelow(st, acc.sum.itC) {
		return "the last names may be missing"
	}
	return ""
}

// filledBins returns "" if each element of the new list t was set to the name
// of the bin with its index.
func (s *succinct) filledBins(an *An, st *State, t *Term) string {
	if k, ok := s.equals(st, mkLen(t), bins); !ok || k != 0 {
		return "there are not as many names as bins"
	}
	named := func(x, i *Term) bool {
		if x == nil {
			return false
		}
		n := s.binOf(st, x)
		for n != nil && n.op == "conv" && isInt(n.typ) && n.args[0].typ != nil {
			n = n.args[0]
		}
		return n != nil && n == i
	}
	et := elemType(t.typ)
	for k, v := range st.cells {
		if k.op == "iaddr" && k.args[0] == t && !named(v, k.args[1]) {
			return "an element may be something else than the name of the bin with its index"
		}
	}
	ok, why := an.forallSlice(st, t, func(bs *State, i *Term) string {
		if !named(bs.load(mkIaddr(t, i, et), et), i) {
			return "an element may not be set to the name of the bin with its index"
		}
		return ""
	})
	if ok {
		return ""
	}
	return why
}

// below decides that n is less than the number of bins.
func (s *succinct) below(st *State, n *Term) bool {
	found := false
	subterms(st, func(t *Term) {
		if !found {
			if k, ok := s.equals(st, t, bins); ok {
				found = st.holds(ltT(n, plus(t, -k)))
			}
		}
	})
	return found
}

func (s *succinct) notBelow(st *State, n *Term) bool {
	found := false
	subterms(st, func(t *Term) {
		if !found {
			if k, ok := s.equals(st, t, bins); ok {
				found = st.fails(ltT(n, plus(t, -k)))
			}
		}
	})
	return found
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// isBin returns "" if a name is that of a bin.
func (s *succinct) isBin(st *State, name, dash *Term) string {
	why := "it is not compared with the name of a bin"
	for _, t := range boolTerms(st) {
		if t.op != "eq" || !st.bools[t] {
			continue
		}
		for k := 0; k < 2; k++ {
			x, y := t.args[k], t.args[1-k]
			var n *Term
			switch {
			case x == name:
				n = s.binOf(st, y)
			case s.isSuffix(x, name) && prefixed(st, name, dash) == 1:
				n = s.padded(st, y)
			}
			if n == nil {
				continue
			}
			if !(n.typ != nil && isUnsigned(n.typ)) && st.decide(ltT(n, mkInt(0))) != -1 {
				why = "the number may be negative"
				continue
			}
			if !s.below(st, n) {
				why = "the number may be too large"
				continue
			}
			return ""
		}
	}
	return why
}

// isSuffix decides that x is what follows the prefix and the hyphen.
func (s *succinct) isSuffix(x, name *Term) bool {
	return x.op == "substr" && x.args[0] == name && x.args[1] == plus(mkLen(s.prefix), 1) && x.args[2].op == "none"
}

// isNoBin decides that a name is not that of a bin.
func (s *succinct) isNoBin(st *State, name, dash *Term) bool {
	if prefixed(st, name, dash) == -1 {
		return true
	}
	found := false
	check := func(b bool) { found = found || b }
	// parsed tells that t is the number the suffix stands for, if it is one
	parsed := func(t *Term, part string) bool {
		if t.op != "app" || len(t.args) < 3 || !s.isSuffix(t.args[0], name) {
			return false
		}
		base, _ := t.args[1].intVal()
		size, ok := t.args[2].intVal()
		switch t.name {
		case "strconv.ParseInt" + part:
			return base == 16 && ok && (size == 0 || size > 32)
		case "strconv.ParseUint" + part:
			return base == 16 && ok && (size == 0 || size >= 32)
		}
		return false
	}
	for _, t := range boolTerms(st) {
		v := st.bools[t]
		if t.op != "eq" || v {
			continue
		}
		for k := 0; k < 2; k++ {
			x, y := t.args[k], t.args[1-k]
			check(y.isNil() && parsed(x, ":1"))
			if s.isSuffix(x, name) {
				n := s.padded(st, y)
				check(n != nil && parsed(n, ":0"))
			}
			if x == name {
				n := s.binOf(st, y)
				check(n != nil && parsed(n, ":0"))
			}
		}
	}
	var widths, nums []*Term
	var suffix *Term
	subterms(st, func(t *Term) {
		if _, ok := s.equals(st, t, width); ok {
			widths = append(widths, t)
		}
		if parsed(t, ":0") {
			nums = append(nums, t)
		}
		if s.isSuffix(t, name) {
			suffix = t
		}
	})
	for _, w := range widths {
		k, _ := s.equals(st, w, width)
		if suffix != nil {
			check(st.fails(eqT(mkLen(suffix), plus(w, -k))))
		}
		check(st.fails(eqT(mkLen(name), plus(mkAdd(mkLen(s.prefix), w, 1), 1-k))))
	}
	for _, n := range nums {
		check(s.notBelow(st, n) || st.holds(ltT(n, mkInt(0))))
	}
	return found
}

func init() {
	registry["C13"] = rule{ruleC13, "Path-sensitive abstract interpretation of IsDelegatedPath and GetRolesForTarget with loop summaries: positive answers entail a pattern all of whose parts match (or a prefix), negative answers entail that every pattern (or prefix) was refuted."}
	registry["C14"] = rule{ruleC14, "Path-sensitive abstract interpretation of the three operations on succinct delegations; the terms for width, number of bins and shift are folded for each of the 32 bit lengths."}
}
