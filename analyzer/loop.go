package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type edge struct {
	st       *State
	fr       *Frame
	from, to *ssa.BasicBlock
}

type loopCtx struct {
	loop  *Loop
	tag   string
	it    *Term
	backs []*edge
	exits []*edge
}

// Back is one way an iteration of a loop ends by going on to the next one.
type Back struct {
	st   *State
	vals map[string]*Term // by variable id
	evs  []*Event         // events of the iteration
}

// LoopSum summarises the iterations of a loop that completed before the point
// a state is at: each of them took one of the backs (with iteration symbols
// tagged tagP); the symbols of the last, unfinished iteration are tagged tagC.
type LoopSum struct {
	fn         *ssa.Function
	pos        token.Pos
	tagP, tagC string
	itP, itC   *Term
	backs      []*Back
	vars       []*loopVar
	entry      *State
	allBacks   []*Back
}

// loopVar is a variable the loop changes.
type loopVar struct {
	id      string
	phi     *ssa.Phi
	cell    *Term
	init    *Term
	symP    *Term
	symC    *Term
	selfref bool
}

// Acc describes the value of a variable after some iterations.
type Acc struct {
	sum *LoopSum
	v   *loopVar
}

func (e *Eng) loops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := e.loopsOf[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				// blocks that reach b without passing s
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loopsOf[fn] = res
	return res
}

// trimOf recognises a slice that has lost a fixed number of elements at one end.
func trimOf(v, cur *Term) (string, int64) {
	if !isSliceT(cur) {
		return "", 0
	}
	base, lo, hi := sliceParts(v)
	b2, lo2, hi2 := sliceParts(cur)
	if base != b2 {
		return "", 0
	}
	front, ok1 := mkAdd(lo, lo2, -1).intVal()
	back, ok2 := mkAdd(hi2, hi, -1).intVal()
	switch {
	case !ok1 || !ok2 || front < 0 || back < 0:
	case front > 0 && back == 0:
		return "trimleft", front
	case front == 0 && back > 0:
		return "trimright", back
	}
	return "", 0
}

// sliceParts gives the slice a value is part of, and the bounds of the part.
func sliceParts(v *Term) (base, lo, hi *Term) {
	lo, hi = mkInt(0), mkLen(v)
	for v.op == "slice" {
		lo = mkAdd(lo, v.args[1], 1)
		hi = mkAdd(hi, v.args[1], 1)
		v = v.args[0]
	}
	return v, lo, hi
}

func mkSliceOf(base, lo, hi *Term, t types.Type) *Term {
	if isConstInt(lo, 0) && hi == nil {
		return base
	}
	if hi == nil {
		hi = mk("none", "", nil)
	}
	return mk("slice", "", t, base, lo, hi)
}

func headPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if p := in.Pos(); p.IsValid() {
			return p
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if p := in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

func (e *Eng) runLoop(st *State, fr *Frame, l *Loop, tag string, phis map[*ssa.Phi]*Term) (*loopCtx, []Outcome) {
	it := mk("it", fr.tag()+tag, types.Typ[types.Int])
	lc := &loopCtx{loop: l, tag: tag, it: it}
	f := fr.clone()
	f.loops = append(append([]*loopCtx{}, fr.loops...), lc)
	for p, v := range phis {
		f.env[p] = v
	}
	outs := e.exec(st, f, l.header, 0)
	return lc, outs
}

// headerDecides reports whether the loop condition is decided on entry with the given phi values.
func (e *Eng) headerDecides(st *State, fr *Frame, l *Loop, phis map[*ssa.Phi]*Term) bool {
	last := l.header.Instrs[len(l.header.Instrs)-1]
	br, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	if l.blocks[l.header.Succs[0]] && l.blocks[l.header.Succs[1]] {
		return false
	}
	f := fr.clone()
	for p, v := range phis {
		f.env[p] = v
	}
	s := st.clone()
	s.spec = true
	for _, in := range l.header.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Extract, *ssa.Convert, *ssa.ChangeType:
			f.env[x.(ssa.Value)] = e.evalInstr(s, f, in)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
			f.env[x] = e.evalInstr(s, f, in)
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			f.env[x] = e.lenOf(s, e.val(f, x.Call.Args[0]))
		default:
			return false
		}
	}
	return s.decide(e.val(f, br.Cond)) != 0
}

func (e *Eng) unroll(st *State, fr *Frame, l *Loop, init map[*ssa.Phi]*Term) ([]Outcome, bool) {
	type entry struct {
		st   *State
		fr   *Frame
		phis map[*ssa.Phi]*Term
	}
	cur := []entry{{st, fr, init}}
	var outs []Outcome
	var exits []*edge
	for n := 0; n < 40; n++ {
		var next []entry
		for _, c := range cur {
			if !e.headerDecides(c.st, c.fr, l, c.phis) {
				return nil, false
			}
			lc, o := e.runLoop(c.st.clone(), c.fr, l, fmt.Sprintf("@L%su%d", e.site(l.header.Instrs[0]), n), c.phis)
			outs = append(outs, o...)
			exits = append(exits, lc.exits...)
			for _, b := range lc.backs {
				f := b.fr.clone()
				f.loops = f.loops[:len(f.loops)-1]
				next = append(next, entry{b.st, f, e.phiVals(b.fr, b.from, l.header)})
			}
		}
		if len(next) == 0 {
			return append(outs, e.leave(exits, nil)...), true
		}
		// a short loop over a list written out in the source is like straight-line code
		if len(next) > 64 && (n > 8 || len(next) > 1500) {
			return nil, false
		}
		cur = next
	}
	return nil, false
}

func (e *Eng) leave(exits []*edge, sums []*LoopSum) []Outcome {
	var outs []Outcome
	for _, x := range exits {
		f := x.fr.clone()
		f.loops = append([]*loopCtx{}, f.loops[:len(f.loops)-1]...)
		outs = append(outs, e.jump(x.st, f, x.from, x.to)...)
	}
	return outs
}

func (e *Eng) execLoop(st *State, fr *Frame, l *Loop, from *ssa.BasicBlock) []Outcome {
	init := e.phiVals(fr, from, l.header)
	if outs, ok := e.unroll(st, fr, l, init); ok {
		return outs
	}
	e.accSeq++
	base := fmt.Sprintf("@L%sn%d", e.site(l.header.Instrs[0]), e.accSeq)
	tP, tC := base+"p", base+"c"
	tagP, tagC := fr.tag()+tP, fr.tag()+tC
	itP := mk("it", tagP, types.Typ[types.Int])
	itC := mk("it", tagC, types.Typ[types.Int])

	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	phiID := func(p *ssa.Phi) string { return "phi" + e.site(p) }
	sym := func(tag, id string, t types.Type) *Term { return mk("acc", tag+":"+id, t) }
	mode := map[*ssa.Phi]string{}
	step := map[*ssa.Phi]int64{}
	locked := map[*ssa.Phi]bool{}
	for _, p := range phis {
		mode[p] = "havoc"
	}
	cellSet := map[*Term]types.Type{}
	epochSet := map[string]bool{}
	allocSet := map[*Term]bool{}
	escSet := map[*Term]bool{}

	headVal := func(p *ssa.Phi, tag string, it *Term) *Term {
		switch mode[p] {
		case "stable":
			return init[p]
		case "ind":
			return linCombine(linOf(init[p]), 1, linOf(it), step[p]).term(p.Type())
		case "trimleft": // one element less from the front each time
			return mkSliceOf(init[p], linCombine(linOf(it), step[p], linear{}, 0).term(types.Typ[types.Int]), nil, p.Type())
		case "trimright":
			return mkSliceOf(init[p], mkInt(0), linCombine(linOf(mkLen(init[p])), 1, linOf(it), -step[p]).term(types.Typ[types.Int]), p.Type())
		}
		return e.explodeOpaqueAcc(sym(tag, phiID(p), p.Type()), p.Type())
	}
	prepare := func(s *State, tag string) {
		for cl := range epochSet {
			s.havocClass(cl, tag)
		}
		for a := range allocSet {
			for c := range s.cells {
				if c.root() == a {
					delete(s.cells, c)
				}
			}
			s.allocEp[a] = tag
		}
		for a := range escSet {
			s.escape(a)
		}
		for c, t := range cellSet {
			if allocSet[c.root()] {
				continue
			}
			s.cells[c] = sym(tag, fmt.Sprintf("cell%d", c.id), t)
		}
	}

	var lcP *loopCtx
	var hdr *State
	for pass := 0; ; pass++ {
		if pass > 12 {
			fail("engine", "%s: no fixed point for the loop", e.P.pos(headPos(l.header)))
		}
		s := st.clone()
		s.spec = true
		prepare(s, tagP)
		// facts of the iteration are collected apart from those of the entry
		vals := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			vals[p] = headVal(p, tagP, itP)
		}
		hdr = s.clone()
		lc, _ := e.runLoop(s, fr, l, tP, vals)
		lcP = lc
		changed := false
		addCell := func(c *Term, t types.Type) {
			if _, ok := cellSet[c]; !ok {
				cellSet[c] = t
				changed = true
			}
		}
		for _, b := range lc.backs {
			for c, v := range b.st.cells {
				if hdr.cells[c] == v {
					continue
				}
				root := c.root()
				if root.mentions(tagP) && isFreshOp(root) {
					continue
				}
				if c.mentions(tagP) {
					if b.st.private(root) && isFreshOp(root) && !allocSet[root] {
						allocSet[root] = true
						changed = true
					}
					if !b.st.private(root) && !epochSet[classOf(c)] {
						epochSet[classOf(c)] = true
						changed = true
					}
					continue
				}
				addCell(c, cellType(c, v))
			}
			for c, v := range hdr.cells {
				if _, ok := b.st.cells[c]; !ok && !allocSet[c.root()] && !epochSet[classOf(c)] {
					addCell(c, cellType(c, v))
				}
			}
			for cl, v := range b.st.epochs {
				if hdr.epochs[cl] != v && !epochSet[cl] {
					epochSet[cl] = true
					changed = true
				}
			}
			for a, v := range b.st.allocEp {
				if hdr.allocEp[a] != v && !allocSet[a] && !a.mentions(tagP) {
					allocSet[a] = true
					changed = true
				}
			}
			for a := range b.st.escaped {
				if !hdr.escaped[a] && !escSet[a] && !a.mentions(tagP) {
					escSet[a] = true
					changed = true
				}
			}
		}
		for _, p := range phis {
			cur := vals[p]
			m, stp := "stable", int64(0)
			for _, b := range lc.backs {
				v := e.phiVals(b.fr, b.from, l.header)[p]
				if v == cur || (mode[p] == "havoc" && v == init[p] && m == "stable" && false) {
					if m != "stable" {
						m = "havoc"
					}
					continue
				}
				d := (*Term)(nil)
				if isInt(p.Type()) {
					d = mkAdd(v, cur, -1)
				}
				if d != nil {
					if k, ok := d.intVal(); ok && k != 0 {
						if m == "stable" && b == lc.backs[0] {
							m, stp = "ind", k
							continue
						}
						if m == "ind" && stp == k {
							continue
						}
					}
				}
				if t, k := trimOf(v, cur); t != "" && !locked[p] {
					if m == "stable" && b == lc.backs[0] || m == t && stp == k {
						m, stp = t, k
						continue
					}
				}
				m = "havoc"
			}
			if len(lc.backs) == 0 {
				m = "stable"
			}
			if locked[p] {
				m = "havoc"
			}
			if mode[p] == m && stp == step[p] && (m == "ind" || strings.HasPrefix(m, "trim")) {
				continue
			}
			if mode[p] == "stable" && m == "stable" {
				continue
			}
			if mode[p] != "havoc" && m != mode[p] {
				// the assumption did not hold
				locked[p] = true
				m = "havoc"
			}
			if m != mode[p] || stp != step[p] {
				mode[p], step[p] = m, stp
				changed = true
			}
		}
		if !changed {
			break
		}
	}

	// the variables the loop changes
	var vars []*loopVar
	for _, p := range phis {
		if mode[p] == "havoc" {
			id := phiID(p)
			vars = append(vars, &loopVar{id: id, phi: p, init: init[p], symP: headVal(p, tagP, itP), symC: headVal(p, tagC, itC)})
		}
	}
	var cs []*Term
	for c := range cellSet {
		if !allocSet[c.root()] {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		id := fmt.Sprintf("cell%d", c.id)
		in := st.cells[c]
		if in == nil {
			if c.op == "mcell" {
				in = st.mapVal(c.args[0])
			} else if cellSet[c] != nil {
				in = st.load(c, cellSet[c])
			}
		}
		vars = append(vars, &loopVar{id: id, cell: c, init: in, symP: sym(tagP, id, cellSet[c]), symC: sym(tagC, id, cellSet[c])})
	}
	sum := &LoopSum{fn: fr.fn, pos: headPos(l.header), tagP: tagP, tagC: tagC, itP: itP, itC: itC, vars: vars, entry: st}
	for _, b := range lcP.backs {
		bk := &Back{st: b.st, vals: map[string]*Term{}, evs: b.st.eventsSince(hdr.ev)}
		pv := e.phiVals(b.fr, b.from, l.header)
		for _, v := range vars {
			if v.phi != nil {
				bk.vals[v.id] = pv[v.phi]
			} else if x, ok := b.st.cells[v.cell]; ok {
				bk.vals[v.id] = x
			} else {
				bk.vals[v.id] = mk("unknown", tagP, nil)
			}
		}
		sum.allBacks = append(sum.allBacks, bk)
	}
	sum.backs = sum.allBacks
	// forget the entry facts in the backs' own record? they are implied; keep.
	for _, v := range vars {
		for _, b := range sum.allBacks {
			x := b.vals[v.id]
			if x == v.symP {
				continue
			}
			isSym := func(t *Term) bool {
				for _, u := range vars {
					if t == u.symP {
						return true
					}
				}
				return false
			}
			if x.op == "unknown" || x.any(func(t *Term) bool {
				// itself, or what a loop inside made of it
				for i := 0; t != nil && i < 10; i++ {
					if isSym(t) {
						return true
					}
					a := e.accs[t]
					if a == nil || a.v.init == nil || !isCollT(t.typ) {
						return false
					}
					t = a.v.init
				}
				return false
			}) {
				v.selfref = true
			}
		}
		e.accs[v.symC] = &Acc{sum: sum, v: v}
		e.accs[v.symP] = &Acc{sum: sum, v: v}
	}

	if e.onLoop != nil && !st.spec {
		e.onLoop(e, sum)
	}

	// header states of the final pass: each variable that is assigned (not
	// accumulated) still has its initial value or the one some earlier
	// iteration gave it
	opts := flagOptions(sum, e.headerOptions(sum))
	var outs []Outcome
	var exits []*edge
	for _, o := range opts {
		s := st.clone()
		prepare(s, tagC)
		ok := true
		vals := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			vals[p] = headVal(p, tagC, itC)
		}
		for _, v := range vars {
			x := o.vals[v.id]
			if x == nil {
				x = v.symC
			}
			if v.phi != nil {
				vals[v.phi] = x
			} else {
				s.cells[v.cell] = x
			}
		}
		for i, b := range o.from {
			to := tagP
			if i > 0 {
				to = fmt.Sprintf("%s%d", tagP, i+1)
			}
			if !s.addFacts(b.st, tagP, to) {
				ok = false
				break
			}
		}
		if len(o.allowed) == 0 && len(o.from) == 0 && len(sum.allBacks) > 0 {
			ok = s.assume(mkEq(itC, mkInt(0)), true) // no iteration was completed
		}
		for _, f := range o.facts {
			ok = ok && s.assume(f, true)
		}
		if !ok {
			continue
		}
		osum := *sum
		osum.backs = o.allowed
		ev := s.event("loop", "", sum.pos, nil, nil)
		ev.loop = &osum
		lc, oo := e.runLoop(s, fr, l, tC, vals)
		outs = append(outs, oo...)
		for _, x := range lc.exits {
			ev := x.st.event("loopexit", "", sum.pos, nil, nil)
			ev.loop = &osum
			if r := reversalOf(sum); r != nil && x.st.holds(mkLt(mkAdd(mkLen(r), mkAdd(itC, itC, 1), -1), mkInt(2))) {
				e.reverse(x.st, r, sum.pos)
				ev.res = []*Term{r}
			}
			e.copiedLiteral(sum, x.st, itP, itC)
		}
		exits = append(exits, lc.exits...)
	}
	return append(outs, e.leave(exits, nil)...)
}

// copiedLiteral recognises a loop that copies a map written out in the source
// into another: it leaves the other with these entries.
func (e *Eng) copiedLiteral(sum *LoopSum, st *State, itP, itC *Term) {
	if len(sum.allBacks) != 1 {
		return
	}
	for _, v := range sum.vars {
		x := sum.allBacks[0].vals[v.id]
		if v.cell == nil || v.cell.op != "mcell" || st.cells[v.cell] != v.symC || x.op != "mupd" || len(x.args) != 3 || x.args[0] != v.symP {
			continue
		}
		k := x.args[1]
		if k.op != "key" || k.args[1] != itP || !st.fails(mk("nextok", "", types.Typ[types.Bool], k.args[0], itC)) {
			continue
		}
		m := k.args[0]
		if val := x.args[2]; val.op != "lookup" || val.args[0] != m || val.args[1] != k {
			continue
		}
		var keys, vals []*Term
		t := m
		for t.op == "mupd" && len(t.args) == 3 && t.args[1].op == "const" {
			keys, vals = append(keys, t.args[1]), append(vals, t.args[2])
			t = t.args[0]
		}
		if t.op != "mempty" {
			continue
		}
		nv := v.init
		for i := len(keys) - 1; i >= 0; i-- {
			nv = mk("mupd", "", x.typ, nv, keys[i], vals[i])
		}
		st.cells[v.cell] = nv
	}
}

// explodeOpaqueAcc keeps struct-typed loop variables field by field.
func (e *Eng) explodeOpaqueAcc(t *Term, typ types.Type) *Term { return t }

func cellType(c, v *Term) types.Type {
	if c.op == "mcell" {
		return c.args[0].typ
	}
	if p, ok := under(c.typ).(*types.Pointer); ok {
		return p.Elem()
	}
	return v.typ
}

type headerOption struct {
	vals    map[string]*Term
	from    []*Back
	allowed []*Back
	facts   []*Term
}

// monotone reports whether v is a counter: every iteration leaves it as it is
// or changes it by a constant, always in the same direction (the sign).
func monotone(sum *LoopSum, v *loopVar) int {
	if !v.selfref || v.phi == nil || !isInt(v.phi.Type()) || v.init == nil {
		return 0
	}
	sign := 0
	for _, b := range sum.allBacks {
		k, ok := mkAdd(b.vals[v.id], v.symP, -1).intVal()
		if !ok {
			return 0
		}
		switch {
		case k > 0 && sign >= 0:
			sign = 1
		case k < 0 && sign <= 0:
			sign = -1
		case k != 0:
			return 0
		}
	}
	return sign
}

// flagOptions tells the cases of the options in which a flag, which is false or
// true at first and has a computed value now, is set or is not.
func flagOptions(sum *LoopSum, opts []headerOption) []headerOption {
	for _, v := range sum.vars {
		if v.init == nil || !v.init.isTrue() && !v.init.isFalse() {
			continue
		}
		var next []headerOption
		for _, o := range opts {
			x := o.vals[v.id]
			switch {
			case x == nil:
				next = append(next, o)
			case x.isTrue():
				o.facts = append(append([]*Term{}, o.facts...), v.symC)
				next = append(next, o)
			case x.isFalse():
				o.facts = append(append([]*Term{}, o.facts...), mkNot(v.symC))
				next = append(next, o)
			default:
				y, n := o, o
				y.facts = append(append([]*Term{}, o.facts...), x, v.symC)
				n.facts = append(append([]*Term{}, o.facts...), mkNot(x), mkNot(v.symC))
				next = append(next, y, n)
			}
		}
		opts = next
	}
	return opts
}

func (e *Eng) headerOptions(sum *LoopSum) []headerOption {
	plain := []headerOption{{vals: map[string]*Term{}, allowed: sum.allBacks}}
	// components of split variables
	var split []*loopVar
	for _, v := range sum.vars {
		if !v.selfref || monotone(sum, v) != 0 {
			split = append(split, v)
		}
	}
	if len(split) == 0 {
		return plain
	}
	changes := func(b *Back, v *loopVar) bool {
		nv := b.vals[v.id]
		if nv.isTrue() && b.st.holds(v.symP) || nv.isFalse() && b.st.fails(v.symP) {
			return false // a flag that is set again
		}
		return nv != v.symP
	}
	// variables changed by the same backs change together
	comp := map[string]int{}
	pats := map[string]int{}
	for _, v := range split {
		p := ""
		for _, b := range sum.allBacks {
			if changes(b, v) {
				p += "1"
			} else {
				p += "0"
			}
		}
		if _, ok := pats[p]; !ok {
			pats[p] = len(pats)
		}
		comp[v.id] = pats[p]
	}
	groups := map[int][]*loopVar{}
	var order []int
	for _, v := range split {
		c := comp[v.id]
		if groups[c] == nil {
			order = append(order, c)
		}
		groups[c] = append(groups[c], v)
	}
	res := []headerOption{{vals: map[string]*Term{}, allowed: sum.allBacks}}
	for _, c := range order {
		vs := groups[c]
		var next []headerOption
		for _, r := range res {
			// unchanged so far
			n := headerOption{vals: cloneMap(r.vals), from: r.from, facts: r.facts}
			for _, v := range vs {
				n.vals[v.id] = v.init
			}
			for _, b := range r.allowed {
				if !changes(b, vs[0]) {
					n.allowed = append(n.allowed, b)
				}
			}
			clash := false
			for _, b := range r.from {
				clash = clash || changes(b, vs[0])
			}
			if !clash {
				next = append(next, n)
			}
			for _, b := range r.allowed {
				if !changes(b, vs[0]) {
					continue
				}
				n := headerOption{vals: cloneMap(r.vals), from: append(append([]*Back{}, r.from...), b), allowed: r.allowed, facts: append([]*Term{}, r.facts...)}
				to := sum.tagP
				if len(n.from) > 1 {
					to = fmt.Sprintf("%s%d", sum.tagP, len(n.from))
				}
				memo := map[*Term]*Term{}
				for _, v := range vs {
					if v.selfref {
						if monotone(sum, v) > 0 {
							n.facts = append(n.facts, ltT(v.init, v.symC))
						} else {
							n.facts = append(n.facts, ltT(v.symC, v.init))
						}
						continue
					}
					if changes(b, v) {
						x := b.vals[v.id]
						if to != sum.tagP {
							x = rename(x, sum.tagP, to, memo)
						}
						n.vals[v.id] = x
					}
				}
				next = append(next, n)
			}
		}
		res = next
		if len(res) > 24 {
			return plain
		}
	}
	return res
}

// contributions lists what the iterations add to an accumulated slice, map or
// counter: for each back the value it leaves in terms of the old one.
type contribution struct {
	back *Back
	val  *Term
	acc  *Acc
}

func (e *Eng) contributions(t *Term) []contribution {
	a := e.accs[t]
	if a == nil {
		return nil
	}
	var out []contribution
	for _, b := range a.sum.allBacks {
		out = append(out, contribution{b, b.vals[a.v.id], a})
	}
	return out
}

// reversalOf recognises a loop whose iterations do nothing but swap element i
// of a slice with element len-1-i, counting i up from 0: the slice, or nil.
func reversalOf(sum *LoopSum) *Term {
	if len(sum.vars) != 0 || len(sum.allBacks) == 0 {
		return nil
	}
	var s *Term
	for _, b := range sum.allBacks {
		var w []*Event
		for _, ev := range b.evs {
			if ev.kind != "store" {
				return nil
			}
			w = append(w, ev)
		}
		if len(w) != 2 || w[0].args[0].op != "iaddr" || w[1].args[0].op != "iaddr" {
			return nil
		}
		x, y := w[0].args[0], w[1].args[0]
		if x.args[0] != y.args[0] || s != nil && s != x.args[0] {
			return nil
		}
		s = x.args[0]
		last := mkAdd(mkAdd(mkLen(s), sum.itP, -1), mkInt(1), -1)
		if x.args[1] != sum.itP {
			x, y = y, x
			w[0], w[1] = w[1], w[0]
		}
		if x.args[1] != sum.itP || y.args[1] != last || !isLoadOf(w[0].args[1], y) || !isLoadOf(w[1].args[1], x) {
			return nil
		}
	}
	return s
}

// isLoadOf reports whether v is what was stored at address a, whole or field by field.
func isLoadOf(v, a *Term) bool {
	if v.op == "load" {
		return v.args[0] == a
	}
	if v.op != "struct" || len(v.args) == 0 {
		return false
	}
	for i, f := range v.args {
		if f.op != "load" || f.args[0] != mkFaddr(a, v.typ, i) {
			return false
		}
	}
	return true
}

// isCollT reports whether values of the type are collections a loop can build.
func isCollT(t types.Type) bool {
	if t == nil {
		return false
	}
	switch under(t).(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}
