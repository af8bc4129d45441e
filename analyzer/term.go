package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is the value number of a value, an address, the contents of a map or
// an atomic condition. Terms are interned: equal terms are the same pointer.
type Term struct {
	op   string
	name string
	args []*Term
	typ  types.Type // type of the value, when known
	co   []int64    // coefficients of a linear sum
	k    int64      // constant of a linear sum
	cv   constant.Value
	fn   *ssa.Function // closure or function value
	id   int
	tags string // cached: names of this term and below, for quick tests
}

var internTab = map[string]*Term{}
var termCount int

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	for _, a := range t.args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.co != nil {
		for _, c := range t.co {
			b.WriteByte(';')
			b.WriteString(strconv.FormatInt(c, 10))
		}
		b.WriteByte('#')
		b.WriteString(strconv.FormatInt(t.k, 10))
	}
	key := b.String()
	if r, ok := internTab[key]; ok {
		if r.typ == nil {
			r.typ = t.typ
		}
		return r
	}
	termCount++
	t.id = termCount
	r := &t
	internTab[key] = r
	return r
}

func mk(op, name string, typ types.Type, args ...*Term) *Term {
	return intern(Term{op: op, name: name, typ: typ, args: args})
}

func typStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath+"/"), "metadata/")
	})
}

// ---- constants ----

func mkConst(v constant.Value, typ types.Type) *Term {
	if v.Kind() == constant.Int {
		if i, ok := constant.Int64Val(v); ok {
			if typ == nil || !isFloat(typ) {
				return intern(Term{op: "const", name: "i" + strconv.FormatInt(i, 10), typ: typ, cv: constant.MakeInt64(i)})
			}
		}
	}
	return intern(Term{op: "const", name: v.Kind().String() + v.ExactString(), typ: typ, cv: v})
}

func mkInt(i int64) *Term      { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkStr(s string) *Term     { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term      { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkNil(t types.Type) *Term { return mk("nil", "", t) }

func (t *Term) isNil() bool { return t.op == "nil" }
func (t *Term) isTrue() bool {
	return t.op == "const" && t.cv.Kind() == constant.Bool && constant.BoolVal(t.cv)
}
func (t *Term) isFalse() bool {
	return t.op == "const" && t.cv.Kind() == constant.Bool && !constant.BoolVal(t.cv)
}
func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

// explodes reports whether values of struct type t are kept field by field.
func explodes(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		if p == nil || !(p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/")) {
			return nil, false
		}
	}
	return s, true
}

func mkZero(t types.Type) *Term {
	if s, ok := explodes(t); ok {
		var args []*Term
		for i := 0; i < s.NumFields(); i++ {
			args = append(args, mkZero(s.Field(i).Type()))
		}
		return mkStruct(t, args)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		}
		return mkNil(t)
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return mkNil(t)
	}
	return mk("zero", typStr(t), t)
}

func mkStruct(t types.Type, args []*Term) *Term {
	return intern(Term{op: "struct", name: typStr(t), typ: t, args: args})
}

func structField(t *Term, i int) *Term {
	if t.op == "struct" && i < len(t.args) {
		return t.args[i]
	}
	var name string
	var ft types.Type
	if t.typ != nil {
		if s, ok := t.typ.Underlying().(*types.Struct); ok && i < s.NumFields() {
			name, ft = s.Field(i).Name(), s.Field(i).Type()
		}
	}
	if t.op == "zero" && ft != nil {
		return mkZero(ft)
	}
	if name == "" {
		name = fmt.Sprintf("#%d", i)
	}
	return mk("field", name, ft, t)
}

// ---- addresses ----

// fieldClass names the field i of the struct type t (t is the struct type, not the pointer).
func fieldClass(t types.Type, i int) (string, string, types.Type) {
	s := t.Underlying().(*types.Struct)
	f := s.Field(i)
	return typStr(t) + "." + f.Name(), f.Name(), f.Type()
}

func mkFaddr(base *Term, st types.Type, i int) *Term {
	class, _, ft := fieldClass(st, i)
	return mk("faddr", class, types.NewPointer(ft), base)
}

func mkIaddr(base, idx *Term, elem types.Type) *Term {
	// normalise addresses into sub-slices
	for base.op == "slice" {
		lo := base.args[1]
		idx = mkAdd(idx, lo, 1)
		base = base.args[0]
	}
	return mk("iaddr", typStr(elem), types.NewPointer(elem), base, idx)
}

func (t *Term) fieldName() string {
	if t.op == "faddr" {
		return t.name[strings.LastIndexByte(t.name, '.')+1:]
	}
	return t.name
}

// root strips field and index selections from an address.
func (t *Term) root() *Term {
	for t.op == "faddr" || t.op == "iaddr" || t.op == "slice" || t.op == "mcell" {
		t = t.args[0]
	}
	return t
}

// ---- arithmetic ----

type linear struct {
	ts []*Term
	co []int64
	k  int64
}

func linOf(t *Term) linear {
	if i, ok := t.intVal(); ok {
		return linear{k: i}
	}
	if t.op == "lin" {
		return linear{ts: t.args, co: t.co, k: t.k}
	}
	return linear{ts: []*Term{t}, co: []int64{1}}
}

func linCombine(a linear, ca int64, b linear, cb int64) linear {
	m := map[*Term]int64{}
	for i, t := range a.ts {
		m[t] += ca * a.co[i]
	}
	for i, t := range b.ts {
		m[t] += cb * b.co[i]
	}
	var r linear
	r.k = ca*a.k + cb*b.k
	for t, c := range m {
		if c != 0 {
			r.ts = append(r.ts, t)
		}
	}
	sort.Slice(r.ts, func(i, j int) bool { return r.ts[i].id < r.ts[j].id })
	for _, t := range r.ts {
		r.co = append(r.co, m[t])
	}
	return r
}

func (l linear) term(typ types.Type) *Term {
	if len(l.ts) == 0 {
		return mkConst(constant.MakeInt64(l.k), typ)
	}
	if len(l.ts) == 1 && l.co[0] == 1 && l.k == 0 {
		return l.ts[0]
	}
	return intern(Term{op: "lin", args: l.ts, co: l.co, k: l.k, typ: typ})
}

// mkAdd is a + sign*b.
func mkAdd(a, b *Term, sign int64) *Term {
	return linCombine(linOf(a), 1, linOf(b), sign).term(a.typ)
}

// ---- conditions ----

func mkNot(t *Term) *Term {
	if t.isTrue() {
		return mkBool(false)
	}
	if t.isFalse() {
		return mkBool(true)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

func boolAtom(t *Term) (*Term, bool) {
	if t.op == "not" {
		return t.args[0], false
	}
	return t, true
}

// sumAtom canonicalises L (op) 0 to an atom over a sum with positive leading coefficient.
func mkEqLin(l linear) *Term {
	if len(l.ts) == 0 {
		return mkBool(l.k == 0)
	}
	if l.co[0] < 0 {
		l = linCombine(l, -1, linear{}, 0)
	}
	k := -l.k
	l.k = 0
	return intern(Term{op: "eqc", name: strconv.FormatInt(k, 10), args: []*Term{l.term(nil)}, typ: types.Typ[types.Bool]})
}

// mkNegLin is the condition L < 0.
func mkNegLin(l linear) *Term {
	if len(l.ts) == 0 {
		return mkBool(l.k < 0)
	}
	if l.co[0] < 0 {
		// L < 0  <=>  not (-L-1 < 0)
		m := linCombine(l, -1, linear{}, 0)
		m.k -= 1
		return mkNot(mkNegLin(m))
	}
	k := -l.k
	l.k = 0
	s := l.term(nil)
	if len(s.args) == 0 || s.op != "lin" {
		if nonNegative(s) && k <= 0 {
			return mkBool(false)
		}
	}
	return intern(Term{op: "ltc", name: strconv.FormatInt(k, 10), args: []*Term{s}, typ: types.Typ[types.Bool]})
}

func nonNegative(t *Term) bool {
	if t.op == "len" || t.op == "it" {
		return true
	}
	if b, ok := under(t.typ).(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	return false
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (t *Term) isNonNilValue() bool {
	switch t.op {
	case "alloc", "iface", "closure", "func", "makemap", "slicelit", "global", "faddr", "iaddr", "errnew", "hasher":
		return true
	case "makeslice":
		return true
	case "append":
		return t.args[1].op == "slicelit" && len(t.args[1].args) > 0
	case "conv":
		return t.args[0].isNonNilValue()
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.op == "const" && b.op == "const" {
		if a.cv.Kind() == b.cv.Kind() || (isNum(a.cv) && isNum(b.cv)) {
			return mkBool(constant.Compare(a.cv, token.EQL, b.cv))
		}
	}
	if b.op == "const" && b.cv.Kind() == constant.Bool {
		if b.isTrue() {
			return a
		}
		return mkNot(a)
	}
	if a.op == "const" && a.cv.Kind() == constant.Bool {
		return mkEq(b, a)
	}
	if isInt(a.typ) && isInt(b.typ) || a.op == "lin" || b.op == "lin" || isNumConst(a) && isInt(b.typ) || isNumConst(b) && isInt(a.typ) {
		return mkEqLin(linCombine(linOf(a), 1, linOf(b), -1))
	}
	if s, ok := b.strVal(); ok && s == "" {
		return mkEqLin(linOf(mkLen(a)))
	}
	if s, ok := a.strVal(); ok && s == "" {
		return mkEqLin(linOf(mkLen(b)))
	}
	if _, ok := a.strVal(); ok && b.op == "cat" && catExcludes(b, a) {
		return mkBool(false)
	}
	if _, ok := b.strVal(); ok && a.op == "cat" && catExcludes(a, b) {
		return mkBool(false)
	}
	if b.isNil() && a.isNonNilValue() || a.isNil() && b.isNonNilValue() {
		return mkBool(false)
	}
	if a.isNil() && b.isNil() {
		return mkBool(true)
	}
	if a.op == "iface" && b.op == "iface" {
		if a.name != b.name {
			return mkBool(false)
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		var rest []*Term
		for i := range a.args {
			c := mkEq(a.args[i], b.args[i])
			if c.isFalse() {
				return c
			}
			if !c.isTrue() {
				rest = append(rest, c)
			}
		}
		if len(rest) == 0 {
			return mkBool(true)
		}
		if len(rest) == 1 {
			return rest[0]
		}
	}
	if a.op == "alloc" && b.op == "alloc" {
		return mkBool(false)
	}
	if b.isNil() { // nil goes second
		return mk("eq", "", types.Typ[types.Bool], a, b)
	}
	if a.isNil() {
		return mk("eq", "", types.Typ[types.Bool], b, a)
	}
	if a.op == "const" && b.op != "const" {
		a, b = b, a
	} else if b.op != "const" && a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func catExcludes(c, s *Term) bool {
	str, _ := s.strVal()
	if p, ok := c.args[0].strVal(); ok && !strings.HasPrefix(str, p) {
		return true
	}
	if p, ok := c.args[len(c.args)-1].strVal(); ok && !strings.HasSuffix(str, p) {
		return true
	}
	return false
}

func isNum(v constant.Value) bool { return v.Kind() == constant.Int || v.Kind() == constant.Float }
func isNumConst(t *Term) bool     { return t.op == "const" && t.cv.Kind() == constant.Int }

func mkLt(a, b *Term) *Term {
	if a.op == "const" && b.op == "const" {
		return mkBool(constant.Compare(a.cv, token.LSS, b.cv))
	}
	if (isInt(a.typ) || isNumConst(a) || a.op == "lin") && (isInt(b.typ) || isNumConst(b) || b.op == "lin") {
		return mkNegLin(linCombine(linOf(a), 1, linOf(b), -1))
	}
	if a == b {
		return mkBool(false)
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

// ---- strings, lengths, conversions ----

func mkCat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == "cat" {
			for _, q := range p.args {
				out = appendCat(out, q)
			}
		} else {
			out = appendCat(out, p)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", types.Typ[types.String], out...)
}

func appendCat(out []*Term, q *Term) []*Term {
	s, ok := q.strVal()
	if ok && s == "" {
		return out
	}
	if ok && len(out) > 0 {
		if p, ok2 := out[len(out)-1].strVal(); ok2 {
			out[len(out)-1] = mkStr(p + s)
			return out
		}
		// what comes before the last separator, and the separator
		if l := out[len(out)-1]; l.op == "substr" && l.args[2].op == "app" && (l.args[2].name == "strings.LastIndex" || l.args[2].name == "strings.Index") && l.args[2].args[0] == l.args[0] {
			if sep, ok := l.args[2].args[1].strVal(); ok && sep != "" && strings.HasPrefix(s, sep) {
				out[len(out)-1] = mkSubstr(l.args[0], l.args[1], mkAdd(l.args[2], mkInt(int64(len(sep))), 1))
				return appendCat(out, mkStr(s[len(sep):]))
			}
		}
		// TrimSuffix is only built for strings that end in the suffix
		if l := out[len(out)-1]; l.op == "app" && l.name == "strings.TrimSuffix" {
			if suf, ok := l.args[1].strVal(); ok && suf != "" && strings.HasPrefix(s, suf) {
				out[len(out)-1] = l.args[0]
				return appendCat(out, mkStr(s[len(suf):]))
			}
		}
	}
	return append(out, q)
}

// mkSubstr is a part of a string; hi may be "none".
func mkSubstr(b, lo, hi *Term) *Term {
	if z, ok := lo.intVal(); ok && z == 0 && hi.op == "none" {
		return b
	}
	if s, ok := b.strVal(); ok {
		l, ok1 := lo.intVal()
		k, ok2 := int64(len(s)), hi.op == "none"
		if !ok2 {
			k, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && l <= k && int(k) <= len(s) {
			return mkStr(s[l:k])
		}
	}
	return mk("substr", "", types.Typ[types.String], b, lo, hi)
}

func mkLen(t *Term) *Term {
	switch t.op {
	case "const":
		if s, ok := t.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case "nil", "mempty":
		return mkInt(0)
	case "slicelit":
		return mkInt(int64(len(t.args)))
	case "makeslice":
		return t.args[0]
	case "slice":
		if t.args[2].op != "none" {
			return mkAdd(t.args[2], t.args[1], -1)
		}
		return mkAdd(mkLen(t.args[0]), t.args[1], -1)
	case "append":
		return mkAdd(mkLen(t.args[0]), mkLen(t.args[1]), 1)
	case "reversed", "perm", "mapkeys":
		return mkLen(t.args[0])
	case "cat":
		sum := mkInt(0)
		for _, a := range t.args {
			sum = mkAdd(sum, mkLen(a), 1)
		}
		sum = linOf(sum).term(types.Typ[types.Int])
		return sum
	case "conv":
		if t.name == "bytes" || t.name == "string" {
			return mkLen(t.args[0])
		}
	case "zero", "array", "arrayof":
		if a, ok := under(t.typ).(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	if a, ok := under(t.typ).(*types.Array); ok {
		return mkInt(a.Len())
	}
	if p, ok := under(t.typ).(*types.Pointer); ok {
		if a, ok := under(p.Elem()).(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	return mk("len", "", types.Typ[types.Int], t)
}

func mkConvert(t *Term, to types.Type) *Term {
	from := t.typ
	switch {
	case isInt(to) && (isInt(from) || from == nil || isNumConst(t)):
		if v, ok := t.intVal(); ok {
			return mkConst(constant.MakeInt64(v), to)
		}
		// widening (or same size, same signedness) conversions keep the value
		fb, ok1 := under(from).(*types.Basic)
		tb, ok2 := under(to).(*types.Basic)
		if ok1 && ok2 {
			fs, fu := intSize(fb)
			ts, tu := intSize(tb)
			if (fu == tu && ts >= fs) || (fu && !tu && ts > fs) {
				return t
			}
		}
		return mk("conv", tb.Name(), to, t)
	case isString(to) && isBytes(from):
		if t.op == "conv" && t.name == "bytes" {
			return t.args[0]
		}
		return mk("conv", "string", to, t)
	case isBytes(to) && isString(from):
		if t.op == "conv" && t.name == "string" {
			return t.args[0]
		}
		return mk("conv", "bytes", to, t)
	case isString(to) && isString(from):
		return t
	}
	if t.op == "const" && isFloat(to) {
		return mkConst(constant.ToFloat(t.cv), to)
	}
	return mk("conv", typStr(to), to, t)
}

func intSize(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	}
	return 64, true
}

// ---- inspection ----

func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a.contains(x) {
			return true
		}
	}
	return false
}

func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(f) {
			return true
		}
	}
	return false
}

// mentions reports whether an iteration tag occurs in t.
func (t *Term) mentions(tag string) bool {
	return t.any(func(x *Term) bool { return strings.Contains(x.name, tag) })
}

// rename replaces an iteration tag in t.
func rename(t *Term, from, to string, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	n := *t
	n.name = strings.ReplaceAll(t.name, from, to)
	if len(t.args) > 0 {
		n.args = make([]*Term, len(t.args))
		for i, a := range t.args {
			n.args[i] = rename(a, from, to, memo)
		}
	}
	var r *Term
	if t.op == "lin" || t.op == "eqc" || t.op == "ltc" || t.op == "eq" {
		// argument order may change: rebuild
		switch t.op {
		case "lin":
			l := linear{k: t.k}
			for i, a := range n.args {
				l = linCombine(l, 1, linOf(a), t.co[i])
			}
			r = l.term(t.typ)
		case "eqc":
			k, _ := strconv.ParseInt(t.name, 10, 64)
			l := linOf(n.args[0])
			l.k -= k
			r = mkEqLin(l)
		case "ltc":
			k, _ := strconv.ParseInt(t.name, 10, 64)
			l := linOf(n.args[0])
			l.k -= k
			r = mkNegLin(l)
		default:
			r = mkEq(n.args[0], n.args[1])
		}
	} else {
		n.tags = ""
		r = intern(n)
	}
	memo[t] = r
	return r
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case "const":
		return t.cv.ExactString()
	case "nil":
		return "nil"
	case "param", "free":
		return t.name[:strings.IndexByte(t.name+"~", '~')]
	case "global":
		return "&" + t.name
	case "faddr":
		return "&" + t.args[0].str(d+1) + "." + t.fieldName()
	case "iaddr":
		return "&" + t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "load":
		s := strings.TrimPrefix(t.args[0].str(d+1), "&")
		if t.args[0].op != "faddr" && t.args[0].op != "iaddr" && t.args[0].op != "global" {
			s = "*" + s
		}
		if t.name != "0" {
			s += "'" + shortTag(t.name)
		}
		return s
	case "field":
		return t.args[0].str(d+1) + "." + t.name
	case "alloc":
		return "new#" + shortTag(t.name)
	case "lin":
		var p []string
		for i, a := range t.args {
			if t.co[i] == 1 {
				p = append(p, a.str(d+1))
			} else {
				p = append(p, fmt.Sprintf("%d*%s", t.co[i], a.str(d+1)))
			}
		}
		if t.k != 0 {
			p = append(p, strconv.FormatInt(t.k, 10))
		}
		return "(" + strings.Join(p, "+") + ")"
	case "eqc":
		return t.args[0].str(d+1) + "==" + t.name
	case "ltc":
		return t.args[0].str(d+1) + "<" + t.name
	case "eq":
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case "lt":
		return t.args[0].str(d+1) + "<" + t.args[1].str(d+1)
	case "not":
		return "!" + t.args[0].str(d+1)
	case "cat":
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, "+")
	case "iface":
		return t.name + "(" + as() + ")"
	case "it":
		return "i" + shortTag(t.name)
	case "res":
		return t.name[:strings.IndexByte(t.name+"@", '@')] + "#" + strconv.Itoa(t.id) + suffixAfterColon(t.name)
	}
	n := t.name
	if n != "" {
		n = ":" + shortTag(n)
	}
	return t.op + n + "(" + as() + ")"
}

func suffixAfterColon(s string) string {
	if i := strings.LastIndexByte(s, ':'); i >= 0 && i > len(s)-4 {
		return s[i:]
	}
	return ""
}

func shortTag(s string) string {
	if len(s) > 40 {
		return "…" + s[len(s)-38:]
	}
	return s
}
