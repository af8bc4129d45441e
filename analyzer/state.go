package main

import (
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// ival is what is known about an integer sum.
type ival struct {
	lo, hi int64
	ne     []int64
}

var topIval = ival{lo: math.MinInt64, hi: math.MaxInt64}

// Event is an effect on the world outside the analysed function: an opaque
// call, a store to shared memory, or a finished loop summary.
type Event struct {
	kind string // call, store, mapset, mapdel, loop
	name string
	args []*Term
	res  []*Term
	pos  token.Pos
	loop *LoopSum
	prev *Event
	n    int
}

// Branch is one decided condition on the way, for reports.
type Branch struct {
	cond *Term
	pol  bool
	pos  token.Pos
	prev *Branch
}

// State is what is known at one program point on one class of paths.
type State struct {
	e       *Eng
	cells   map[*Term]*Term
	epochs  map[string]string
	allocEp map[*Term]string
	bools   map[*Term]bool
	ivs     map[*Term]ival
	consts  map[*Term]*Term
	escaped map[*Term]bool
	ev      *Event
	br      *Branch
	spec    bool // speculative pass over a loop body: report nothing
}

func newState(e *Eng) *State {
	return &State{e: e, cells: map[*Term]*Term{}, epochs: map[string]string{}, allocEp: map[*Term]string{},
		bools: map[*Term]bool{}, ivs: map[*Term]ival{}, consts: map[*Term]*Term{}, escaped: map[*Term]bool{}}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	n := *s
	n.cells = cloneMap(s.cells)
	n.epochs = cloneMap(s.epochs)
	n.allocEp = cloneMap(s.allocEp)
	n.bools = cloneMap(s.bools)
	n.ivs = cloneMap(s.ivs)
	n.consts = cloneMap(s.consts)
	n.escaped = cloneMap(s.escaped)
	return &n
}

// ---- facts ----

func (s *State) ival(t *Term) ival {
	v, ok := s.ivs[t]
	if !ok {
		v = topIval
	}
	if v.lo < 0 && nonNegative(t) {
		v.lo = 0
	}
	if t.op == "len" && v.lo < 1 && t.args[0].op == "itoa" {
		v.lo = 1 // a number has at least one digit
	}
	return v
}

// rangeOf bounds a sum by the bounds of its parts when nothing better is known.
func (s *State) rangeOf(t *Term) ival {
	v := s.ival(t)
	if t.op == "lin" {
		lo, hi := t.k, t.k
		okLo, okHi := true, true
		for i, a := range t.args {
			iv := s.ival(a)
			c := t.co[i]
			l, h := iv.lo, iv.hi
			if c < 0 {
				l, h = h, l
			}
			if l == math.MinInt64 || l == math.MaxInt64 {
				okLo = false
			} else {
				lo += c * l
			}
			if h == math.MinInt64 || h == math.MaxInt64 {
				okHi = false
			} else {
				hi += c * h
			}
		}
		if okLo && lo > v.lo {
			v.lo = lo
		}
		if okHi && hi < v.hi {
			v.hi = hi
		}
		if !okLo && s.e != nil {
			s.viaDifference(t, -1, func(b int64) {
				if -b > v.lo {
					v.lo = -b
				}
			})
		}
	}
	if t.op == "lin" || t.typ != nil && isInt(t.typ) {
		if v.hi == math.MaxInt64 && s.e != nil {
			s.viaDifference(t, 1, func(b int64) {
				if b < v.hi {
					v.hi = b
				}
			})
		}
	}
	return v
}

// viaDifference finds upper bounds of sign*t by one step of transitivity:
// t = (t-r) + r for a sum r that has a known bound.
func (s *State) viaDifference(t *Term, sign int64, found func(b int64)) {
	for r, iv := range s.ivs {
		if r.op != "lin" || (iv.lo == math.MinInt64 && iv.hi == math.MaxInt64) || r == t {
			continue
		}
		for _, sg := range []int64{1, -1} {
			// sg*r <= b
			b := iv.hi
			if sg < 0 {
				if iv.lo == math.MinInt64 {
					continue
				}
				b = -iv.lo
			} else if iv.hi == math.MaxInt64 {
				continue
			}
			rest := linCombine(linCombine(linOf(mkInt(0)), 1, linOf(t), sign), 1, linOf(r), -sg)
			u := rest.k
			good := true
			for i, a := range rest.ts {
				av := s.ival(a)
				bound := av.hi
				if rest.co[i] < 0 {
					bound = av.lo
				}
				if bound == math.MinInt64 || bound == math.MaxInt64 {
					good = false
					break
				}
				u += rest.co[i] * bound
			}
			if !good && len(rest.ts) > 1 {
				u, good = s.sumBound(rest)
			}
			if good {
				found(u + b)
			}
		}
	}
}

// sumBound is the known upper bound of a sum as a whole.
func (s *State) sumBound(l linear) (int64, bool) {
	k := l.k
	l.k = 0
	neg := l.co[0] < 0
	if neg {
		l = linCombine(l, -1, linear{}, 0)
	}
	v, ok := s.ivs[l.term(nil)]
	switch {
	case !ok:
	case !neg && v.hi != math.MaxInt64:
		return v.hi + k, true
	case neg && v.lo != math.MinInt64:
		return -v.lo + k, true
	}
	return 0, false
}

// decide returns 1 (true), -1 (false) or 0 (unknown).
func (s *State) decide(t *Term) int {
	if t.op == "not" {
		return -s.decide(t.args[0])
	}
	if t.isTrue() {
		return 1
	}
	if t.isFalse() {
		return -1
	}
	if b, ok := s.bools[t]; ok {
		if b {
			return 1
		}
		return -1
	}
	switch t.op {
	case "eqc":
		k, _ := strconv.ParseInt(t.name, 10, 64)
		v := s.rangeOf(t.args[0])
		if k < v.lo || k > v.hi {
			return -1
		}
		for _, n := range v.ne {
			if n == k {
				return -1
			}
		}
		if v.lo == v.hi && v.lo == k {
			return 1
		}
		if x := t.args[0]; k == 0 && x.op == "len" {
			if s.decide(mk("eq", "", types.Typ[types.Bool], x.args[0], mkNil(nil))) == 1 && !isInterface(x.args[0].typ) {
				return 1
			}
		}
	case "ltc":
		k, _ := strconv.ParseInt(t.name, 10, 64)
		v := s.rangeOf(t.args[0])
		if v.hi < k {
			return 1
		}
		if v.lo >= k {
			return -1
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		if b.isNil() {
			if a.isNonNilValue() {
				return -1
			}
			// a nil check follows from what is known about lengths and map membership
			if isLenType(a.typ) {
				if v := s.ival(mk("len", "", types.Typ[types.Int], a)); v.lo > 0 {
					return -1
				}
			}
			if a.op == "lookup" {
				if r, ok := s.bools[mk("lookupok", "", types.Typ[types.Bool], a.args...)]; ok && !r {
					return 1
				}
			}
		}
		if b.op == "const" {
			if c, ok := s.consts[a]; ok {
				if c == b {
					return 1
				}
				return s.decide(mkEq(c, b))
			}
			if a.op == "lookup" && b.cv.ExactString() != mkZeroOrNil(a.typ) {
				if r, ok := s.bools[mk("lookupok", "", types.Typ[types.Bool], a.args...)]; ok && !r {
					return -1
				}
			}
		}
		for i := 0; i < 2; i++ {
			// an element of a list that does not contain the other value
			if x := t.args[i]; x.op == "load" && x.args[0].op == "iaddr" {
				if d, ok := s.bools[mk("contains", "", types.Typ[types.Bool], x.args[0].args[0], t.args[1-i])]; ok && !d {
					return -1
				}
			}
		}
		if a.op == "iface" || a.op == "struct" {
			// equality of composites: decide by parts
			if b.op == a.op && len(a.args) == len(b.args) {
				all := 1
				for i := range a.args {
					d := s.decide(mkEq(a.args[i], b.args[i]))
					if d == -1 {
						return -1
					}
					if d == 0 {
						all = 0
					}
				}
				return all
			}
		}
		// substitute known constants
		if ca, ok := s.consts[a]; ok && b.op != "const" {
			if cb, ok := s.consts[b]; ok {
				return s.decide(mkEq(ca, cb))
			}
		}
	case "lookupok":
		if d, ok := s.bools[mk("eq", "", types.Typ[types.Bool], mk("lookup", "", nil, t.args...), mkNil(nil))]; ok && !d {
			return 1
		}
		for _, lt := range []string{"lookup"} {
			x := mk(lt, "", nil, t.args...)
			if d, ok := s.bools[x]; ok && d {
				return 1
			}
		}
	case "lookup":
		if isBool(t.typ) {
			if r, ok := s.bools[mk("lookupok", "", types.Typ[types.Bool], t.args...)]; ok && !r {
				return -1
			}
		}
	case "nextok":
		// an iteration over something known to be empty never happens
		if v := s.ival(mk("len", "", types.Typ[types.Int], t.args[0])); v.hi == 0 {
			return -1
		}
		// the keys were listed before
		return s.decide(mkLt(t.args[1], mkLen(t.args[0])))
	}
	return 0
}

func mkZeroOrNil(t types.Type) string {
	if t == nil {
		return "?"
	}
	z := mkZero(t)
	if z.op == "const" {
		return z.cv.ExactString()
	}
	return "?"
}

func isInterface(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}

func isLenType(t types.Type) bool {
	switch under(t).(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// assume adds a fact; it returns false if the state cannot be.
func (s *State) assume(c *Term, pol bool) bool {
	a, p := boolAtom(c)
	if !p {
		pol = !pol
	}
	if d := s.decide(a); d != 0 {
		return (d == 1) == pol
	}
	switch a.op {
	case "eqc":
		k, _ := strconv.ParseInt(a.name, 10, 64)
		v := s.ival(a.args[0])
		if pol {
			v.lo, v.hi = k, k
		} else {
			v.ne = append(append([]int64{}, v.ne...), k)
			for ch := true; ch; {
				ch = false
				for _, n := range v.ne {
					if v.lo == n {
						v.lo++
						ch = true
					}
					if v.hi == n {
						v.hi--
						ch = true
					}
				}
			}
		}
		if v.lo > v.hi {
			return false
		}
		s.ivs[a.args[0]] = v
		return true
	case "ltc":
		k, _ := strconv.ParseInt(a.name, 10, 64)
		v := s.ival(a.args[0])
		if pol {
			if k-1 < v.hi {
				v.hi = k - 1
			}
		} else if k > v.lo {
			v.lo = k
		}
		for ch := true; ch; {
			ch = false
			for _, n := range v.ne {
				if v.lo == n {
					v.lo++
					ch = true
				}
				if v.hi == n {
					v.hi--
					ch = true
				}
			}
		}
		if v.lo > v.hi {
			return false
		}
		s.ivs[a.args[0]] = v
		return true
	case "eq":
		if pol {
			x, y := a.args[0], a.args[1]
			if y.op == "const" {
				s.consts[x] = y
			}
			if y.isNil() && isLenType(x.typ) {
				s.assume(mkEqLin(linOf(mkLen(x))), true)
			}
			if x.op == "struct" && y.op == "struct" && len(x.args) == len(y.args) {
				for i := range x.args {
					if !s.assume(mkEq(x.args[i], y.args[i]), true) {
						return false
					}
				}
			}
			if x.op == "iface" && y.op == "iface" && !s.assume(mkEq(x.args[0], y.args[0]), true) {
				return false
			}
		}
	}
	if a.op == "app" && pol && (a.name == "strings.HasPrefix" || a.name == "strings.HasSuffix") {
		// what begins or ends with p is at least as long as p
		if !s.assume(not(ltT(mkLen(a.args[0]), mkLen(a.args[1]))), true) {
			return false
		}
	}
	s.bools[a] = pol
	return true
}

// holds reports whether the facts entail the condition.
func (s *State) holds(c *Term) bool { return s.decide(c) == 1 }
func (s *State) fails(c *Term) bool { return s.decide(c) == -1 }

// addFacts merges the facts of o into s.
func (s *State) addFacts(o *State, from, to string) bool {
	memo := map[*Term]*Term{}
	rn := func(t *Term) *Term {
		if from == to {
			return t
		}
		return rename(t, from, to, memo)
	}
	for a, p := range o.bools {
		if _, ok := s.bools[a]; ok && from == to {
			continue
		}
		if !s.assume(rn(a), p) {
			return false
		}
	}
	for a, v := range o.ivs {
		x := rn(a)
		if x.op == "const" || x.op == "lin" && x.k != 0 {
			continue
		}
		w := s.ival(x)
		if v.lo > w.lo {
			w.lo = v.lo
		}
		if v.hi < w.hi {
			w.hi = v.hi
		}
		w.ne = append(append([]int64{}, w.ne...), v.ne...)
		if w.lo > w.hi {
			return false
		}
		s.ivs[x] = w
	}
	return true
}

// factList renders the facts, for reports.
func (s *State) factList() []string {
	var out []string
	for a, p := range s.bools {
		x := a.String()
		if !p {
			x = "!(" + x + ")"
		}
		out = append(out, x)
	}
	for a, v := range s.ivs {
		x := a.String()
		if v.lo == v.hi {
			out = append(out, x+"=="+strconv.FormatInt(v.lo, 10))
			continue
		}
		if v.lo != math.MinInt64 {
			out = append(out, x+">="+strconv.FormatInt(v.lo, 10))
		}
		if v.hi != math.MaxInt64 {
			out = append(out, x+"<="+strconv.FormatInt(v.hi, 10))
		}
		for _, n := range v.ne {
			out = append(out, x+"!="+strconv.FormatInt(n, 10))
		}
	}
	sort.Strings(out)
	return out
}

// ---- memory ----

func isFreshOp(t *Term) bool {
	switch t.op {
	case "alloc", "makemap", "makeslice", "slicelit", "hasher":
		return true
	}
	return false
}

func (s *State) private(root *Term) bool { return isFreshOp(root) && !s.escaped[root] }

func classOf(addr *Term) string {
	switch addr.op {
	case "faddr":
		return addr.name
	case "iaddr":
		return "elem:" + addr.name
	case "global":
		return "g:" + addr.name
	case "mcell":
		return "map:" + addr.name
	}
	if p, ok := under(addr.typ).(*types.Pointer); ok {
		return "ptr:" + typStr(p.Elem())
	}
	return "ptr:?"
}

// litValue resolves an address inside a captured literal.
func litValue(addr *Term) *Term {
	switch addr.op {
	case "iaddr":
		if i, ok := addr.args[1].intVal(); ok {
			b := addr.args[0]
			if b.op == "slicelit" && i >= 0 && int(i) < len(b.args) {
				return b.args[i]
			}
			if b.op == "append" {
				if n, ok := mkLen(b.args[0]).intVal(); ok {
					if i < n {
						return litValue(mkIaddr(b.args[0], mkInt(i), elemType(b.typ)))
					}
					return litValue(mkIaddr(b.args[1], mkInt(i-n), elemType(b.typ)))
				}
			}
		}
	case "faddr":
		b := litValue(addr.args[0])
		if b != nil && b.op == "struct" && b.typ != nil {
			st, ok := under(b.typ).(*types.Struct)
			if ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == addr.fieldName() {
						return structField(b, i)
					}
				}
			}
		}
	}
	return nil
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

func (s *State) load(addr *Term, typ types.Type) *Term {
	if st, ok := explodes(typ); ok {
		if v, ok := s.cells[addr]; ok {
			return v
		}
		var args []*Term
		for i := 0; i < st.NumFields(); i++ {
			args = append(args, s.load(mkFaddr(addr, typ, i), st.Field(i).Type()))
		}
		return mkStruct(typ, args)
	}
	// another struct some fields of which were stored on their own
	if stt, ok := typ.Underlying().(*types.Struct); ok && stt.NumFields() <= 64 && addr.root().op == "alloc" {
		for c := range s.cells {
			if c.op == "faddr" && within(c, addr) {
				args := make([]*Term, stt.NumFields())
				for i := range args {
					args[i] = s.load(mkFaddr(addr, typ, i), stt.Field(i).Type())
				}
				return mkStruct(typ, args)
			}
		}
	}
	if v, ok := s.cells[addr]; ok {
		return v
	}
	if addr.op == "iaddr" && addr.args[0].op == "mapkeys" {
		return mk("key", "", typ, addr.args[0].args[0], addr.args[1])
	}
	root := addr.root()
	if ep, ok := s.allocEp[root]; ok {
		return mk("load", ep+"+"+s.epoch(classOf(addr)), typ, addr)
	}
	if v := litValue(addr); v != nil {
		return v
	}
	// an array some elements of which were stored on their own
	if at, ok := typ.Underlying().(*types.Array); ok && at.Len() <= 64 && under(addr.typ) != nil {
		if _, ok := under(addr.typ).(*types.Pointer); ok {
			for c := range s.cells {
				if (c.op == "faddr" || c.op == "iaddr") && within(c, addr) {
					var el []*Term
					for i := int64(0); i < at.Len(); i++ {
						el = append(el, s.load(mkIaddr(addr, mkInt(i), at.Elem()), at.Elem()))
					}
					return mk("arraylit", "", typ, el...)
				}
			}
		}
	}
	// a cell of an enclosing aggregate stored as one value
	if addr.op == "faddr" || addr.op == "iaddr" {
		if v, ok := s.cells[addr.args[0]]; ok {
			if addr.op == "iaddr" {
				return mk("index", "", typ, v, addr.args[1])
			}
			if f := structFieldNamed(v, addr.fieldName()); f != nil && (v.op == "struct" || v.op == "zero") {
				return f
			}
			return mk("field", addr.fieldName(), typ, v)
		}
	}
	if root.op == "alloc" && !s.escaped[root] && s.epochs[classOf(addr)] == "" {
		return mkZero(typ)
	}
	if root.op == "alloc" && !s.escaped[root] {
		return mkZero(typ)
	}
	if root.op == "makeslice" && !s.escaped[root] && addr.op == "iaddr" {
		return mkZero(typ)
	}
	if root.op == "global" {
		if v := s.e.globalValue(addr, typ); v != nil {
			return v
		}
	}
	return mk("load", s.epoch(classOf(addr)), typ, addr)
}

func (s *State) epoch(class string) string {
	if e, ok := s.epochs[class]; ok {
		return e
	}
	return "0"
}

func symbolicIndex(addr *Term) bool {
	for t := addr; t.op == "faddr" || t.op == "iaddr"; t = t.args[0] {
		if t.op == "iaddr" {
			if _, ok := t.args[1].intVal(); !ok {
				return true
			}
		}
	}
	return false
}

func mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		// **T and field addresses of the same type may meet; classes differ otherwise
		return false
	}
	switch a.op {
	case "faddr":
		if a.name != b.name {
			return false
		}
		return mayAlias2(a.args[0], b.args[0])
	case "iaddr":
		if a.name != b.name {
			return false
		}
		if a.args[0] == b.args[0] {
			i, ok1 := a.args[1].intVal()
			j, ok2 := b.args[1].intVal()
			return !(ok1 && ok2 && i != j)
		}
		return mayAlias2(a.args[0], b.args[0])
	case "global":
		return false
	case "mcell":
		return a.name == b.name && mayAlias2(a.args[0], b.args[0])
	}
	return classOf(a) == classOf(b)
}

// mayAlias2 reports whether two base values may denote the same object.
func mayAlias2(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := a.root(), b.root()
	if isFreshOp(ra) && isFreshOp(rb) && ra != rb {
		return false
	}
	if a.op == "faddr" && b.op == "faddr" && a.name != b.name {
		return false
	}
	if a.op == "faddr" && b.op == "faddr" {
		return mayAlias2(a.args[0], b.args[0])
	}
	if a.op == "global" && b.op == "global" {
		return false
	}
	return true
}

// apart decides that two elements of one array are different ones.
func (s *State) apart(a, b *Term) bool {
	return a.op == "iaddr" && b.op == "iaddr" && a.args[0] == b.args[0] && s.fails(mkEq(a.args[1], b.args[1]))
}

func (s *State) store(addr, val *Term, typ types.Type, stamp string) {
	if st, ok := explodes(typ); ok {
		for i := 0; i < st.NumFields(); i++ {
			s.store(mkFaddr(addr, typ, i), structField(val, i), st.Field(i).Type(), stamp)
		}
		return
	}
	if val.op == "arraylit" {
		if at, ok := under(typ).(*types.Array); ok && int(at.Len()) == len(val.args) {
			s.dropParts(addr)
			delete(s.cells, addr)
			for i, v := range val.args {
				s.store(mkIaddr(addr, mkInt(int64(i)), at.Elem()), v, at.Elem(), stamp)
			}
			return
		}
	}
	root := addr.root()
	if s.private(root) {
		if symbolicIndex(addr) {
			for c := range s.cells {
				if c != addr && c.op != "mcell" && c.root() == root && mayAlias(c, addr) && !s.apart(c, addr) {
					delete(s.cells, c)
				}
			}
			s.allocEp[root] = stamp
		}
		s.dropParts(addr)
		s.cells[addr] = val
		return
	}
	class := classOf(addr)
	s.epochs[class] = stamp
	for c := range s.cells {
		if c != addr && classOf(c) == class && !s.private(c.root()) && mayAlias(c, addr) {
			delete(s.cells, c)
		}
	}
	s.dropParts(addr)
	s.cells[addr] = val
	s.escape(val)
}

// within reports whether an address lies in the object at another.
func within(c, addr *Term) bool {
	for c.op == "faddr" || c.op == "iaddr" {
		if c = c.args[0]; c == addr {
			return true
		}
	}
	return false
}

// dropParts forgets cells inside the object at addr (it is overwritten as a whole).
func (s *State) dropParts(addr *Term) {
	if _, ok := under(addr.typ).(*types.Pointer); ok {
		for c := range s.cells {
			if c != addr && (c.op == "faddr" || c.op == "iaddr") && within(c, addr) && s.private(c.root()) {
				delete(s.cells, c)
			}
		}
	}
}

// escape marks the objects reachable from a value as shared.
func (s *State) escape(v *Term) {
	if v == nil {
		return
	}
	switch v.op {
	case "alloc", "makemap", "makeslice", "slicelit", "hasher":
		if s.escaped[v] {
			return
		}
		s.escaped[v] = true
		// materialise the zero fields so that later loads keep them
		if v.op == "alloc" {
			if p, ok := under(v.typ).(*types.Pointer); ok {
				s.materialise(v, p.Elem())
			}
		}
		if v.op == "makemap" {
			_, known := s.cells[mcell(v)]
			if _, stale := s.allocEp[v]; !known && !stale {
				s.cells[mcell(v)] = mk("mempty", "", v.typ, v)
			}
		}
		for c, x := range s.cells {
			if c.root() == v || (c.op == "mcell" && c.args[0] == v) {
				s.escape(x)
			}
		}
	case "faddr", "iaddr", "slice":
		s.escape(v.root())
	case "struct", "tuple", "iface", "append", "mupd", "mdel", "closure", "reversed", "cat", "conv":
		for _, a := range v.args {
			s.escape(a)
		}
	}
	if v.op == "slicelit" || v.op == "closure" {
		for _, a := range v.args {
			s.escape(a)
		}
	}
}

func (s *State) materialise(addr *Term, typ types.Type) {
	if _, havoced := s.allocEp[addr.root()]; havoced {
		return
	}
	if st, ok := explodes(typ); ok {
		if _, ok := s.cells[addr]; ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			s.materialise(mkFaddr(addr, typ, i), st.Field(i).Type())
		}
		return
	}
	if _, ok := s.cells[addr]; ok {
		return
	}
	if _, ok := typ.Underlying().(*types.Array); ok {
		return
	}
	if _, ok := typ.Underlying().(*types.Struct); ok {
		return
	}
	s.cells[addr] = mkZero(typ)
}

// havocObject forgets everything about the object at address/pointer p.
func (s *State) havocObject(p *Term, stamp string) {
	root := p.root()
	for c := range s.cells {
		if c.root() == root && (c == p || underAddr(c, p)) {
			delete(s.cells, c)
		}
	}
	if isFreshOp(root) {
		s.allocEp[root] = stamp
		return
	}
	// opaque object: all fields of its type
	if pt, ok := under(p.typ).(*types.Pointer); ok {
		s.havocType(pt.Elem(), stamp)
	}
}

func (s *State) havocType(t types.Type, stamp string) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			cl, _, ft := fieldClass(t, i)
			s.havocClass(cl, stamp)
			if _, ok := ft.Underlying().(*types.Struct); ok {
				s.havocType(ft, stamp)
			}
		}
		return
	}
	s.havocClass("ptr:"+typStr(t), stamp)
}

func (s *State) havocClass(class, stamp string) {
	s.epochs[class] = stamp
	for c := range s.cells {
		if classOf(c) == class && !s.private(c.root()) {
			delete(s.cells, c)
		}
	}
}

func (s *State) havocAll(stamp string) {
	classes := map[string]bool{}
	for c := range s.cells {
		if !s.private(c.root()) {
			classes[classOf(c)] = true
			delete(s.cells, c)
		}
	}
	for c := range s.epochs {
		classes[c] = true
	}
	for c := range s.e.classes {
		classes[c] = true
	}
	for c := range classes {
		s.epochs[c] = stamp
	}
}

func underAddr(c, p *Term) bool {
	for t := c; ; t = t.args[0] {
		if t == p {
			return true
		}
		if t.op != "faddr" && t.op != "iaddr" && t.op != "mcell" {
			return false
		}
	}
}

// ---- maps ----

func mcell(m *Term) *Term {
	name := "?"
	if m.typ != nil {
		name = typStr(m.typ.Underlying())
	}
	return mk("mcell", name, nil, m)
}

// mapVal is the current contents of map m.
func (s *State) mapVal(m *Term) *Term {
	if m.isNil() {
		return mk("mempty", "", m.typ)
	}
	if v, ok := s.e.gmaps[m]; ok {
		return v
	}
	c := mcell(m)
	if v, ok := s.cells[c]; ok {
		return v
	}
	if m.op == "makemap" && !s.escaped[m] {
		if ep, ok := s.allocEp[m]; ok {
			return mk("mopq", ep, m.typ, m)
		}
		return mk("mempty", "", m.typ, m)
	}
	return mk("mopq", s.epoch(classOf(c)), m.typ, m)
}

func (s *State) setMap(m, mv *Term, stamp string) {
	c := mcell(m)
	if s.private(m) {
		s.cells[c] = mv
		return
	}
	class := classOf(c)
	s.epochs[class] = stamp
	for x := range s.cells {
		if x != c && x.op == "mcell" && classOf(x) == class && !s.private(x.root()) {
			delete(s.cells, x)
		}
	}
	s.cells[c] = mv
	if mv.op == "mupd" {
		s.escape(mv.args[2])
		s.escape(mv.args[1])
	}
}

// lookup returns the value and membership condition of key k.
func (s *State) lookup(mv, k *Term, vt types.Type) (*Term, *Term) {
	for {
		switch mv.op {
		case "mempty":
			return mkZero(vt), mkBool(false)
		case "mupd", "mdel":
			switch s.decide(mkEq(k, mv.args[1])) {
			case 1:
				if mv.op == "mdel" {
					return mkZero(vt), mkBool(false)
				}
				return mv.args[2], mkBool(true)
			case -1:
				mv = mv.args[0]
				continue
			}
			return mk("lookup", "", vt, mv, k), mk("lookupok", "", types.Typ[types.Bool], mv, k)
		default:
			// an iterated key is a member
			if k.op == "key" && k.args[0] == mv {
				return mk("lookup", "", vt, mv, k), mkBool(true)
			}
			return mk("lookup", "", vt, mv, k), mk("lookupok", "", types.Typ[types.Bool], mv, k)
		}
	}
}

// ---- events ----

func (s *State) event(kind, name string, pos token.Pos, args, res []*Term) *Event {
	n := 0
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &Event{kind: kind, name: name, args: args, res: res, pos: pos, prev: s.ev, n: n}
	if s.e.effects != nil && !s.spec {
		s.e.effects(s, s.ev)
	}
	return s.ev
}

// events lists the events in order.
func (s *State) events() []*Event {
	var out []*Event
	for e := s.ev; e != nil; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// eventsSince lists the events after mark.
func (s *State) eventsSince(mark *Event) []*Event {
	var out []*Event
	for e := s.ev; e != nil && e != mark; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// trace renders the branch decisions that lead here.
func (s *State) trace(P *Program, max int) string {
	var bs []string
	for b := s.br; b != nil && len(bs) < max; b = b.prev {
		c := b.cond.String()
		if len(c) > 110 {
			c = c[:110] + "…"
		}
		if !b.pol {
			c = "not(" + c + ")"
		}
		bs = append(bs, P.pos(b.pos)+" "+c)
	}
	for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
		bs[i], bs[j] = bs[j], bs[i]
	}
	return strings.Join(bs, "; ")
}
