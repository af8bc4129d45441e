package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- lists ----

// piece is a part of a list: one element, the elements the iterations of a
// loop add, or a list nothing is known about.
type piece struct {
	elem *Term
	acc  *Acc
	add  map[*Back]*Term // element each iteration adds, nil for none
	cur  *Term           // counter of the iteration in which the list was left
	rev  bool
	opq  *Term
}

// listOf takes a list term apart.
func (e *Eng) listOf(t *Term) []piece {
	switch {
	case t.isNil(), t.op == "makeslice" && mkLen(t) == mkInt(0):
		return nil
	case t.op == "slicelit":
		var out []piece
		for _, x := range t.args {
			out = append(out, piece{elem: x})
		}
		return out
	case t.op == "append":
		return append(append([]piece{}, e.listOf(t.args[0])...), e.listOf(t.args[1])...)
	case t.op == "reversed":
		return revList(e.listOf(t.args[0]))
	case t.op == "slice" && len(t.args) > 2 && t.args[2] != nil && t.args[1] == t.args[2]:
		return nil
	case t.op == "conv" && len(t.args) == 1:
		return e.listOf(t.args[0])
	}
	a := e.accs[t]
	if a == nil {
		return []piece{{opq: t}}
	}
	p := piece{acc: a, add: map[*Back]*Term{}, cur: a.sum.itC}
	front := false
	for i, b := range a.sum.allBacks {
		v := b.vals[a.v.id]
		switch {
		case v == a.v.symP:
			p.add[b] = nil
			continue
		case v.op == "append" && v.args[0] == a.v.symP && v.args[1].op == "slicelit" && len(v.args[1].args) == 1 && !(i > 0 && front):
			p.add[b] = v.args[1].args[0]
			continue
		case v.op == "append" && v.args[1] == a.v.symP:
			l := e.listOf(v.args[0])
			if len(l) == 1 && l[0].elem != nil {
				p.add[b] = l[0].elem
				front, p.rev = true, true
				continue
			}
		}
		return []piece{{opq: t}}
	}
	init := e.listOf(a.v.init)
	// iterations that copy a whole list
	if src, rev := copied(p); src != nil {
		l := e.listOf(src)
		if rev != p.rev {
			l = revList(l)
		}
		l = append([]piece{{opq: mk("upto", "", nil, p.cur, mkLen(src))}}, l...)
		if front {
			return append(l, init...)
		}
		return append(init, l...)
	}
	if front {
		return append([]piece{p}, init...)
	}
	return append(init, p)
}

// copied recognises iterations that add element i, or element len-1-i, of one list.
func copied(p piece) (*Term, bool) {
	var src *Term
	rev := false
	for _, x := range p.add {
		if x == nil {
			return nil, false
		}
		a := addrOfLoad(x)
		if a == nil || a.op != "iaddr" {
			return nil, false
		}
		s, i := a.args[0], a.args[1]
		if src != nil && src != s {
			return nil, false
		}
		if s.typ == nil || !types.Identical(elemType(s.typ), x.typ) {
			return nil, false
		}
		src = s
		it := p.acc.sum.itP
		switch i {
		case it:
			rev = false
		case mkAdd(mkAdd(mkLen(s), it, -1), mkInt(1), -1):
			rev = true
		default:
			return nil, false
		}
	}
	return src, rev
}

// addrOfLoad is the address a whole value was loaded from.
func addrOfLoad(v *Term) *Term {
	if v.op == "load" {
		return v.args[0]
	}
	if v.op == "struct" && len(v.args) > 0 && v.args[0].op == "load" && v.args[0].args[0].op == "faddr" {
		if a := v.args[0].args[0].args[0]; isLoadOf(v, a) {
			return a
		}
	}
	return nil
}

func revList(l []piece) []piece {
	var out []piece
	for i := len(l) - 1; i >= 0; i-- {
		p := l[i]
		p.rev = !p.rev
		out = append(out, p)
	}
	return out
}

// finish drops the notes that a copying loop went through its whole list,
// which must be so in st.
func finish(st *State, l []piece) ([]piece, bool) {
	var out []piece
	ok := true
	for _, p := range l {
		if p.opq != nil && p.opq.op == "upto" {
			ok = ok && st.holds(not(ltT(p.opq.args[0], p.opq.args[1])))
			continue
		}
		out = append(out, p)
	}
	return out, ok
}

// ---- the walk ----

// walkLoop is the loop over the roles still to visit.
type walkLoop struct {
	sum     *LoopSum
	stack   *loopVar
	fRole   int // which field of an entry is the role, which its delegator
	fParent int
}

// walkLoopOf recognises the loop by its list of pending roles, which starts
// with the top-level targets delegated by root.
func (e *Eng) walkLoopOf(sum *LoopSum) *walkLoop {
	for _, v := range sum.vars {
		if v.init == nil {
			continue
		}
		l := e.listOf(v.init)
		if len(l) != 1 || l[0].elem == nil || l[0].elem.op != "struct" {
			continue
		}
		w := &walkLoop{sum, v, -1, -1}
		for i, x := range l[0].elem.args {
			if x == strTargets {
				w.fRole = i
			}
			if x == strRoot {
				w.fParent = i
			}
		}
		if w.fRole >= 0 && w.fParent >= 0 {
			return w
		}
	}
	return nil
}

// entry decides that t is a field of the next pending role.
func (w *walkLoop) entry(t, sym *Term, field int) bool {
	if t.op != "load" {
		return false
	}
	a := t.args[0]
	if a.op != "faddr" || a.args[0].op != "iaddr" || a.args[0].args[0] != sym {
		return false
	}
	if a != mkFaddr(a.args[0], elemType(sym.typ), field) {
		return false
	}
	i := a.args[0].args[1]
	return i == mkInt(0) || i == mkAdd(mkLen(sym), mkInt(1), -1)
}

// rest decides that list pieces are the pending roles without the next one,
// and says whether the next one was the last of the list.
func (w *walkLoop) rest(l []piece, sym *Term) (top bool, ok bool) {
	if len(l) != 1 || l[0].opq == nil || l[0].rev {
		return false, false
	}
	t := l[0].opq
	if t.op != "slice" || t.args[0] != sym {
		return false, false
	}
	lo, hi := t.args[1], t.args[2]
	n := mkLen(sym)
	last := mkAdd(n, mkInt(1), -1)
	switch {
	case lo == mkInt(0) && hi == last:
		return true, true
	case lo == mkInt(1) && (hi == n || hi == nil || hi.op == "none"):
		return false, true
	}
	return false, false
}

// visitedRole finds the role an iteration is about: the field of the next
// pending role that is looked up or loaded.
func (w *walkLoop) visitedRole(st *State, sym *Term) *Term {
	var found *Term
	look := func(t *Term) {
		if found == nil && t != nil {
			t.any(func(x *Term) bool {
				if w.entry(x, sym, w.fRole) {
					found = x
					return true
				}
				return false
			})
		}
	}
	for t := range st.bools {
		look(t)
	}
	for e := st.ev; e != nil && found == nil; e = e.prev {
		for _, a := range e.args {
			look(a)
		}
	}
	return found
}

// inspected finds the trusted metadata of the role that the state knows the
// path to be looked up in, and whether it lists it (1), does not (-1) or may.
func (up *Up) inspected(st *State, role, path *Term) (*Term, int) {
	for t, v := range st.bools {
		l := t
		if t.op == "eq" {
			for _, x := range t.args {
				if x.op == "lookup" {
					l = x
				}
			}
		}
		if l.op != "lookupok" && l.op != "lookup" || l.args[1] != path {
			continue
		}
		m := l.args[0]
		if m.op != "mopq" || len(m.args) != 1 || m.args[0].op != "load" || m.args[0].args[0].op != "faddr" || m.args[0].args[0].fieldName() != "Targets" {
			continue
		}
		obj := ownerOf(m.args[0].args[0])
		if r := up.trustedRole(st, obj); r == nil || !(r == role || st.holds(eqT(r, role))) {
			continue
		}
		pol := v == (l == t)
		if pol {
			return obj, 1
		}
		return obj, -1
	}
	return nil, 0
}

// visitedSet finds the loop's set of visited roles: the map to which role is added.
func visitedSet(w *walkLoop) *loopVar {
	for _, v := range w.sum.vars {
		if _, ok := under(typOf(v.symP)).(*types.Map); !ok {
			continue
		}
		if v.init == nil || v.init.any(func(x *Term) bool { return x.op == "mopq" || x.op == "mupd" || x.op == "acc" }) {
			continue
		}
		for _, b := range w.sum.allBacks {
			x := b.vals[v.id]
			if x != nil && x.op == "mupd" && x.args[0] == v.symP && w.entry(x.args[1], w.stack.symP, w.fRole) {
				return v
			}
		}
	}
	return nil
}

func typOf(t *Term) types.Type {
	if t == nil || t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

// isVisited decides membership of the visited set: 1 yes, -1 no.
func isVisited(st *State, set, role *Term) int {
	ok := mk("lookupok", "", types.Typ[types.Bool], set, role)
	if d := st.decide(ok); d != 0 {
		return d
	}
	for t, v := range st.bools {
		if t.op == "lookup" && t.args[0] == set && t.args[1] == role {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

func ruleC39(c *Ctx) {
	c.rule("walk-order", "an iteration of the walk takes the next pending role and replaces it by the roles its delegations list for the path, in listed order, each with that role as delegator")
	c.rule("walk-terminating", "the roles after a terminating one and all roles still pending are dropped")
	c.rule("walk-first", "the walk goes past a role only if its trusted metadata does not list the path, and returns what the first one that lists it lists")
	c.rule("walk-once", "a role is visited only if it has not been before; visited roles are recorded")
	c.rule("walk-bound", "a role is visited only while no more than the configured number have been")
	c.rule("walk-end", "the search fails only if a role cannot be loaded, none is pending, or the limit is reached")
	c.rule("walk-matches", "GetRolesForTarget lists exactly the delegations whose IsDelegatedPath holds, in listed order, with their terminating flag")
	up := c.updaterWith("GetTargetInfo", nil, nil, func(e *Eng, up *Up) {
		e.merge = up.digest
		old := e.opaque
		e.opaque = func(k string, f *ssa.Function) bool { return k == kRolesFor || old(k, f) }
	})
	e := up.e
	path := up.arg(1)
	maxDel := up.conf(up.entry, "MaxDelegations")
	seen := map[*LoopSum]bool{}
	done := map[*Back]bool{}
	for _, r := range up.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(up.An, r.Outcome)
		evs := r.st.events()
		var w *walkLoop
		at := -1
		for i, ev := range evs {
			if ev.kind == "loop" {
				if x := e.walkLoopOf(ev.loop); x != nil {
					w, at = x, i
				}
			}
		}
		if w == nil {
			// before the walk only a failed refresh ends the call
			failed := false
			for _, ev := range callsOf(r.st, kRefresh) {
				failed = failed || okAt(r.st, ev) == -1
			}
			c.check("walk-end", !r.ok && failed, p, r.st, "GetTargetInfo ends without the search for the target having been recognised")
			continue
		}
		vs := visitedSet(w)
		if !c.check("walk-once", vs != nil, w.sum.pos, nil, "the walk keeps no set of visited roles that its iterations add to") {
			continue
		}
		if !seen[w.sum] {
			seen[w.sum] = true
			in := vs.init
			c.check("walk-once", in == nil || in.op == "mempty" || in.op == "mlit" && len(in.args) == 0 || !in.any(func(x *Term) bool { return x.op == "mupd" || x.op == "mopq" }), w.sum.pos, nil, "the set of visited roles is not empty at first: %s", in)
		}
		for _, b := range w.sum.allBacks {
			if !done[b] {
				done[b] = true
				c.walkStep(up, w, vs, b, path, maxDel)
			}
		}
		// the iteration the call ends in
		cur := w.stack.symC
		role := w.visitedRole(r.st, cur)
		bound := boundHolds(r.st, w, vs, maxDel, true)
		if r.ok {
			obj, is := (*Term)(nil), 0
			if role != nil {
				obj, is = up.inspected(r.st, role, path)
			}
			v := r.rets[0]
			good := obj != nil && is == 1 && v.op == "lookup" && v.args[1] == path && v.args[0].op == "mopq" && v.args[0].args[0].op == "load" && ownerOf(v.args[0].args[0].args[0]) == obj
			c.check("walk-first", good, p, r.st, "GetTargetInfo returns %s, which is not what the next pending role is known to list for the path", v)
			c.check("walk-bound", bound, p, r.st, "GetTargetInfo visits a role although the limit may be exceeded")
			continue
		}
		failed := false
		for _, ev := range evs[at:] {
			if isWork(ev) && okAt(r.st, ev) == -1 {
				failed = true
			}
		}
		if !failed {
			end := r.st.holds(eqT(mkLen(cur), mkInt(0))) || boundExceeded(r.st, w, vs, maxDel)
			if !end && role != nil {
				// a role that cannot be loaded without any attempt: not listed in the snapshot
				_, is := up.inspected(r.st, role, path)
				end = is == 0 && isVisited(r.st, vs.symC, role) == -1 && up.unloadable(r.st, role)
			}
			c.check("walk-end", end, p, r.st, "GetTargetInfo gives up although roles may be pending and the limit may not be reached")
		}
	}
	c.matches("walk-matches")
	for _, n := range []struct {
		rule string
		n    int
	}{{"walk-order", 2}, {"walk-terminating", 1}, {"walk-first", 2}, {"walk-once", 2}, {"walk-bound", 2}, {"walk-end", 2}, {"walk-matches", 3}} {
		c.need(n.rule, n.n)
	}
}

// unloadable reports whether the state knows a reason for which the role can
// not be loaded: offline mode, a missing snapshot or no entry in it.
func (up *Up) unloadable(st *State, role *Term) bool {
	if st.holds(up.conf(st, "UnsafeLocalMode")) || st.holds(isNilT(get(st, up.t, "Snapshot"))) {
		return true
	}
	if given(st, nonNil(get(st, up.t, "Snapshot"))) == nil {
		return true
	}
	m := get(st, get(st, up.t, "Snapshot"), "Signed.Meta")
	info, ok := mapGet(st, m, mkCat(role, mkStr(".json")))
	return st.fails(ok) || st.holds(isNilT(info))
}

func boundHolds(st *State, w *walkLoop, vs *loopVar, max *Term, current bool) bool {
	for _, v := range counters(w, vs) {
		s := v.symP
		if current {
			s = v.symC
		}
		if v == vs {
			s = mkLen(s)
		}
		if st.holds(not(ltT(max, s))) {
			return true
		}
	}
	return false
}

func boundExceeded(st *State, w *walkLoop, vs *loopVar, max *Term) bool {
	for _, v := range counters(w, vs) {
		s := v.symC
		if v == vs {
			s = mkLen(s)
		}
		if st.holds(ltT(max, s)) {
			return true
		}
	}
	return false
}

// counters lists the loop's variables that count the visited roles.
func counters(w *walkLoop, vs *loopVar) []*loopVar {
	out := []*loopVar{vs}
	for _, v := range w.sum.vars {
		if v == vs || !isInt(typOf(v.symP)) {
			continue
		}
		if n, ok := v.init.intVal(); !ok || n != 0 {
			continue
		}
		good := true
		for _, b := range w.sum.allBacks {
			want := v.symP
			if b.vals[vs.id] != vs.symP {
				want = mkAdd(v.symP, mkInt(1), 1)
			}
			good = good && b.vals[v.id] == want
		}
		if good {
			out = append(out, v)
		}
	}
	return out
}

// walkStep decides one way an iteration of the walk can go on.
func (c *Ctx) walkStep(up *Up, w *walkLoop, vs *loopVar, b *Back, path, max *Term) {
	e, st, pos := up.e, b.st, w.sum.pos
	sym := w.stack.symP
	role := w.visitedRole(st, sym)
	if !c.check("walk-order", role != nil, pos, st, "an iteration of the walk does not look at the next pending role") {
		return
	}
	next, fin := finish(st, e.listOf(b.vals[w.stack.id]))
	visited := isVisited(st, vs.symP, role)
	if b.vals[vs.id] == vs.symP {
		// the role is passed over: it has been visited
		c.check("walk-once", visited == 1, pos, st, "an iteration passes over a role that may not have been visited")
		_, ok := w.rest(next, sym)
		c.check("walk-order", ok && fin, pos, st, "an iteration that passes over a role leaves the pending roles as %s", b.vals[w.stack.id])
		return
	}
	x := b.vals[vs.id]
	c.check("walk-once", visited == -1, pos, st, "an iteration visits a role that may have been visited before")
	c.check("walk-once", x.op == "mupd" && x.args[0] == vs.symP && (x.args[1] == role || w.entry(x.args[1], sym, w.fRole)) && (len(x.args) < 3 || !x.args[2].isFalse()), pos, st, "an iteration does not record the role as visited: %s", x)
	c.check("walk-bound", boundHolds(st, w, vs, max, false), pos, st, "an iteration visits a role although the limit may be exceeded")
	obj, is := up.inspected(st, role, path)
	if !c.check("walk-first", obj != nil && is == -1, pos, st, "the walk goes on past a role whose metadata is not known to list no such path") {
		return
	}
	for _, ev := range b.evs {
		if (ev.name == kUpDeleg) && okAt(st, ev) == 1 {
			c.check("walk-order", w.entry(ev.args[2], sym, w.fRole) && w.entry(ev.args[3], sym, w.fParent), ev.pos, st, "the walk loads %s as delegated by %s, which is not the next pending role", ev.args[2], ev.args[3])
		}
		if ev.kind == "store" && ev.args[0].op == "iaddr" && types.Identical(elemType(ev.args[0].args[0].typ), elemType(sym.typ)) {
			c.check("walk-order", ev.args[0].args[0].op == "slicelit", ev.pos, st, "the walk overwrites a pending role")
		}
		if ev.kind == "loop" && reversalOf(ev.loop) == nil {
			walk(st, ev.loop.allEvents(), func(s *State, x *Event, _ []*LoopSum) {
				if x.kind == "store" && x.args[0].op == "iaddr" && x.args[0].args[0].typ != nil && types.Identical(elemType(x.args[0].args[0].typ), elemType(sym.typ)) {
					c.check("walk-order", x.args[0].args[0].op == "slicelit", x.pos, s, "the walk overwrites a pending role")
				}
			})
		}
	}
	dels := get(st, obj, "Signed.Delegations")
	var roles *Term
	for _, ev := range b.evs {
		if ev.kind == "call" && ev.name == kRolesFor && ev.args[0] == dels && ev.args[1] == path {
			roles = ev.res[0]
		}
	}
	if roles == nil {
		_, ok := w.rest(next, sym)
		c.check("walk-order", st.holds(isNilT(dels)) && ok && fin, pos, st, "an iteration does not consult the delegations of the role")
		return
	}
	// split the new list in the pending roles and the children
	term := false
	top := true
	var kids []piece
	if len(next) > 0 {
		if t, ok := w.rest(next[:1], sym); ok && t {
			kids = revList(next[1:])
		} else if t, ok := w.rest(next[len(next)-1:], sym); ok && !t {
			kids, top = next[:len(next)-1], false
		} else {
			term = true
		}
	} else {
		term = true
	}
	if term {
		// which end is the next one: the one the role was taken from
		kids = next
		if i := role.args[0].args[0].args[1]; i != mkInt(0) {
			kids = revList(next)
		} else {
			top = false
		}
	}
	_ = top
	if !c.check("walk-order", fin, pos, st, "an iteration may leave out some of the delegated roles") {
		return
	}
	it := (*Term)(nil)
	last := false
	for i, k := range kids {
		switch {
		case k.acc != nil && !k.rev && it == nil:
			it = k.cur
			for bk, el := range k.add {
				ok := el != nil && c.child(w, el, roles, k.acc.sum.itP, role)
				c.check("walk-order", ok, pos, bk.st, "an iteration adds %s to the pending roles where the next delegated role is expected", el)
				tf := elemField(bk.st, roles, k.acc.sum.itP, "Terminating")
				c.check("walk-terminating", bk.st.fails(tf), pos, bk.st, "the walk goes on to later delegations of a role after one that may be terminating")
			}
		case k.elem != nil && i == len(kids)-1:
			idx := mkInt(0)
			if it != nil {
				idx = it
			} else if a := childIndex(k.elem, roles); a != nil {
				// no earlier iteration: the first one, unless the loop says otherwise
				idx = a
				c.check("walk-order", st.holds(eqT(a, mkInt(0))), pos, st, "the walk starts with a delegated role that may not be the first one")
			}
			ok := c.child(w, k.elem, roles, idx, role)
			c.check("walk-order", ok, pos, st, "an iteration adds %s to the pending roles where the next delegated role is expected", k.elem)
			last = true
			it = idx
		default:
			c.check("walk-order", false, pos, st, "an iteration leaves the pending roles as %s", b.vals[w.stack.id])
			return
		}
	}
	if it == nil {
		it = mkInt(0)
	}
	if last {
		tf := elemField(st, roles, it, "Terminating")
		switch {
		case term:
			c.check("walk-terminating", st.holds(tf), pos, st, "the walk drops the pending roles although the delegation may not be terminating")
		default:
			c.check("walk-terminating", st.fails(tf), pos, st, "the walk keeps pending roles after a delegation that may be terminating")
			c.check("walk-order", st.holds(not(ltT(plus(it, 1), mkLen(roles)))), pos, st, "an iteration may leave out some of the delegated roles")
		}
		return
	}
	c.check("walk-terminating", !term, pos, st, "the walk drops the pending roles without a terminating delegation")
	c.check("walk-order", st.holds(not(ltT(it, mkLen(roles)))), pos, st, "an iteration may leave out some of the delegated roles")
}

// get1 is a field of an element of a slice.
func elemField(st *State, s, i *Term, name string) *Term {
	et := elemType(s.typ)
	a := mkIaddr(s, i, et)
	if p, ok := under(et).(*types.Pointer); ok {
		return get(st, st.load(a, p), name)
	}
	f := faddrOf(a, name)
	return st.load(f, under(f.typ).(*types.Pointer).Elem())
}

// child decides that el is a pending role made from element i of roles.
func (c *Ctx) child(w *walkLoop, el, roles, i, role *Term) bool {
	if el.op != "struct" || len(el.args) <= w.fRole || len(el.args) <= w.fParent {
		return false
	}
	n := el.args[w.fRole]
	if n.op != "load" || n.args[0].op != "faddr" || n.args[0].fieldName() != "Name" {
		return false
	}
	a := n.args[0].args[0]
	if a.op != "iaddr" || a.args[0] != roles || a.args[1] != i {
		return false
	}
	p := el.args[w.fParent]
	return p == role || w.entry(p, w.stack.symP, w.fRole)
}

func childIndex(el, roles *Term) *Term {
	var out *Term
	el.any(func(x *Term) bool {
		if x.op == "iaddr" && x.args[0] == roles {
			out = x.args[1]
			return true
		}
		return false
	})
	return out
}

func (l *LoopSum) allEvents() []*Event {
	var out []*Event
	for _, b := range l.allBacks {
		out = append(out, b.evs...)
	}
	return out
}

// matches decides Delegations.GetRolesForTarget.
func (c *Ctx) matches(rule string) {
	const kIsPath = "metadata.DelegatedRole.IsDelegatedPath"
	const kBins = "metadata.SuccinctRoles.GetRolesForTarget"
	e := c.eng(kBins)
	e.contract[kIsPath] = readOnly(kIsPath)
	an := c.analyse(e, c.P.method(c.P.namedType("metadata", "Delegations"), "GetRolesForTarget"), func(st *State, args []*Term) {
		st.assume(nonNil(args[0]), true)
	})
	d, path := an.arg(0), an.arg(1)
	rt := c.P.namedType("metadata", "RoleResult")
	for _, o := range an.outs {
		if o.kind != "ret" {
			continue
		}
		p := posOf(an, o)
		roles := get(o.st, d, "Roles")
		bins := get(o.st, d, "SuccinctRoles")
		res := e.viewOf(o.st, o.rets[0])
		fromBins := false
		for _, ev := range callsOf(o.st, kBins) {
			fromBins = fromBins || isRes(ev, 0, res) && ev.args[0] == bins && ev.args[1] == path
		}
		if fromBins {
			c.check(rule, !possible(o.st, ltT(mkInt(0), mkLen(roles))), p, o.st, "GetRolesForTarget answers with succinct roles although standard ones may be listed")
			continue
		}
		if s := given(o.st, eqT(mkLen(roles), mkInt(0)), isNilT(roles), nonNil(bins)); s != nil {
			c.check(rule, false, p, s, "GetRolesForTarget does not consult the succinct roles")
		}
		l, fin := finish(o.st, e.listOf(res))
		ok := fin
		var it *Term
		for _, k := range l {
			if k.acc == nil || k.rev || it != nil {
				ok = false
				continue
			}
			it = k.cur
			for bk, el := range k.add {
				r := bk.st.load(mkIaddr(roles, k.acc.sum.itP, elemType(roles.typ)), elemType(roles.typ))
				hit := 0
				for _, ev := range bk.evs {
					if ev.kind == "call" && ev.name == kIsPath && ev.args[1] == path && (ev.args[0] == r || isElem(ev.args[0], roles, k.acc.sum.itP) || isCopy(bk.st, ev.args[0], roles, k.acc.sum.itP)) {
						switch {
						case bk.st.holds(ev.res[0]) && okAt(bk.st, ev) == 1:
							hit = 1
						case bk.st.fails(ev.res[0]) || okAt(bk.st, ev) == -1:
							hit = -1
						}
					}
				}
				if el == nil {
					c.check(rule, hit == -1, p, bk.st, "GetRolesForTarget leaves out a delegation that may match")
					continue
				}
				c.check(rule, hit == 1, p, bk.st, "GetRolesForTarget lists a delegation that may not match")
				good := el.op == "struct" && el.typ != nil && types.Identical(el.typ, rt)
				if good {
					s := under(rt).(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						want := elemField(bk.st, roles, k.acc.sum.itP, s.Field(i).Name())
						good = good && el.args[i] == want
					}
				}
				c.check(rule, good, p, bk.st, "GetRolesForTarget lists %s for a delegation", el)
			}
		}
		if it == nil {
			c.check(rule, ok && !possible(o.st, ltT(mkInt(0), mkLen(roles))), p, o.st, "GetRolesForTarget may leave out delegations: it returns %s", res)
			continue
		}
		c.check(rule, ok && o.st.holds(not(ltT(it, mkLen(roles)))), p, o.st, "GetRolesForTarget may leave out delegations: it returns %s", res)
	}
}

func isElem(a, s, i *Term) bool {
	a = strip(a)
	if a.op == "iaddr" {
		return a.args[0] == s && a.args[1] == i
	}
	return a.op == "load" && a.args[0].op == "iaddr" && a.args[0].args[0] == s && a.args[0].args[1] == i
}

// isCopy decides that a points to a copy of element i of s.
func isCopy(st *State, a, s, i *Term) bool {
	if !isFreshOp(a.root()) || a.typ == nil {
		return false
	}
	et := elemType(s.typ)
	sub, ok := under(et).(*types.Struct)
	if !ok || !types.Identical(derefType(a.typ), et) {
		return false
	}
	for j := 0; j < sub.NumFields(); j++ {
		n := sub.Field(j).Name()
		if get(st, a, n) != elemField(st, s, i, n) {
			return false
		}
	}
	return true
}

// readOnly models a method that changes nothing, with unknown results.
func readOnly(key string) func(cl *Call) []callOut {
	return func(cl *Call) []callOut {
		rs := cl.sig.Results()
		var res []*Term
		for i := 0; i < rs.Len(); i++ {
			res = append(res, mk("res", key+"@"+cl.stamp+":"+string(rune('0'+i)), rs.At(i).Type()))
		}
		cl.st.event("call", key, cl.instr.Pos(), cl.args, res)
		return []callOut{{st: cl.st, res: res}}
	}
}
