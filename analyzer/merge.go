package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Merging of the outcomes of a call. A rule that does not depend on how a
// helper reached one of its results can name what matters about it (the
// digest); outcomes with the same digest become one, which keeps the facts
// they share and the effects of the first one, with what is known about values
// that only those effects know. Whatever the rule asks about the past must be
// part of the digest; effects are checked when they happen, before any merging.

// mergeOutcomes joins the outcomes of a call that have the same digest.
func (e *Eng) mergeOutcomes(c *Call, outs []callOut, since *Event, before map[*Term]bool) []callOut {
	if e.merge == nil || exactOnly || len(outs) < 2 {
		return outs
	}
	groups := map[string][]callOut{}
	var order []string
	for i, o := range outs {
		k := ""
		if o.kind == "" {
			k = e.merge(o.st, since, o.res)
		}
		if k == "" {
			k = fmt.Sprintf("\x00%d", i)
		}
		for j, r := range o.res {
			if r.isNil() || r.op == "iface" || r.typ != nil && isInterface(r.typ) {
				k += fmt.Sprintf("|%d:%d", j, o.st.decide(mkEq(r, mkNil(nil))))
			} else {
				k += fmt.Sprintf("|%d=%d", j, r.id)
			}
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []callOut
	for n, k := range order {
		g := groups[k]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		res = append(res, e.join(g, fmt.Sprintf("%sj%d", c.stamp, n), c, since, before))
	}
	return res
}

func (e *Eng) join(g []callOut, stamp string, c *Call, since *Event, before map[*Term]bool) callOut {
	m := callOut{st: g[0].st.clone(), res: append([]*Term{}, g[0].res...)}
	var sts []*State
	for _, o := range g {
		sts = append(sts, o.st)
	}
	s := m.st
	dead := deadSymbols(g, since, before)
	// facts all of them have
	for t, v := range g[0].st.bools {
		if dead(t) {
			continue
		}
		for _, o := range sts[1:] {
			d := o.decide(t)
			if d == 0 || (d == 1) != v {
				delete(s.bools, t)
				break
			}
		}
	}
	for t, v := range g[0].st.consts {
		if dead(t) {
			continue
		}
		for _, o := range sts[1:] {
			if o.consts[t] != v {
				delete(s.consts, t)
				break
			}
		}
	}
	for t := range g[0].st.ivs {
		if dead(t) {
			continue
		}
		u := g[0].st.ival(t)
		for _, o := range sts[1:] {
			w := o.ival(t)
			if w.lo < u.lo {
				u.lo = w.lo
			}
			if w.hi > u.hi {
				u.hi = w.hi
			}
			var ne []int64
			for _, x := range u.ne {
				for _, y := range w.ne {
					if x == y {
						ne = append(ne, x)
						break
					}
				}
				if x < w.lo || x > w.hi {
					ne = append(ne, x)
				}
			}
			u.ne = ne
		}
		s.ivs[t] = u
	}
	// memory
	for _, o := range sts[1:] {
		for a := range o.escaped {
			s.escaped[a] = true
		}
	}
	for _, o := range sts[1:] {
		for cl, ep := range o.epochs {
			if s.epochs[cl] != ep {
				s.epochs[cl] = stamp
			}
		}
		for cl, ep := range s.epochs {
			if o.epochs[cl] != ep {
				s.epochs[cl] = stamp
			}
		}
		for a, ep := range o.allocEp {
			if s.allocEp[a] != ep {
				s.allocEp[a] = stamp
			}
		}
		for a, ep := range s.allocEp {
			if o.allocEp[a] != ep {
				s.allocEp[a] = stamp
			}
		}
	}
	cells := map[*Term]bool{}
	for _, o := range sts {
		for a := range o.cells {
			cells[a] = true
		}
	}
	var cs []*Term
	for a := range cells {
		cs = append(cs, a)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, a := range cs {
		var vals []*Term
		same := true
		for _, o := range sts {
			v := o.cells[a]
			if v == nil {
				v = o.defaultCell(a, cells, sts)
			}
			vals = append(vals, v)
			same = same && v != nil && v == vals[0]
		}
		if same {
			s.cells[a] = vals[0]
			continue
		}
		var t *Term
		for _, v := range vals {
			if v != nil {
				t = v
			}
		}
		nv := mk("res", fmt.Sprintf("join@%s:%d", stamp, a.id), cellType(a, t))
		if a.op == "mcell" {
			nv = mk("mopq", stamp, a.args[0].typ, a.args[0])
		}
		s.cells[a] = nv
		e.joinFacts(s, nv, vals, sts)
	}
	for i := range m.res {
		same := true
		var vals []*Term
		for _, o := range g {
			vals = append(vals, o.res[i])
			same = same && o.res[i] == m.res[i]
		}
		if same {
			continue
		}
		typ := c.sig.Results().At(i).Type()
		nv := mk("res", fmt.Sprintf("join@%s:r%d", stamp, i), typ)
		m.res[i] = nv
		e.joinFacts(s, nv, vals, sts)
	}
	s.br = &Branch{cond: mk("joined", fmt.Sprint(len(g)), types.Typ[types.Bool]), pol: true, pos: c.instr.Pos(), prev: s.br}
	return m
}

// joinFacts keeps what all the values have in common: whether they are nil.
func (e *Eng) joinFacts(s *State, nv *Term, vals []*Term, sts []*State) {
	switch under(nv.typ).(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature, *types.Chan:
	default:
		return
	}
	d := 2
	for i, v := range vals {
		if v == nil {
			return
		}
		x := sts[i].decide(mkEq(v, mkNil(nil)))
		if d == 2 {
			d = x
		} else if d != x {
			d = 0
		}
	}
	if d == 1 || d == -1 {
		s.assume(mkEq(nv, mkNil(nil)), d == 1)
	}
}

// defaultCell is what a cell that is not recorded in s holds.
func (s *State) defaultCell(a *Term, _ map[*Term]bool, sts []*State) *Term {
	if a.op == "mcell" {
		return s.mapVal(a.args[0])
	}
	for _, o := range sts {
		if v := o.cells[a]; v != nil {
			t := cellType(a, v)
			if t == nil {
				return nil
			}
			if a.op == "faddr" || a.op == "iaddr" || a.op == "alloc" || a.op == "global" {
				return s.load(a, t)
			}
			return nil
		}
	}
	return nil
}

// deadSymbols tells the terms built only from results of effects of the first
// outcome that nothing outside these effects refers to any more.
func deadSymbols(g []callOut, since *Event, before map[*Term]bool) func(t *Term) bool {
	born := map[*Term]bool{}
	for ev := g[0].st.ev; ev != nil && ev != since; ev = ev.prev {
		for _, r := range ev.res {
			if r.op == "res" {
				born[r] = true
			}
		}
	}
	kill := func(t *Term) {
		t.any(func(x *Term) bool {
			delete(born, x)
			return false
		})
	}
	for _, o := range g {
		for _, r := range o.res {
			kill(r)
		}
		for a, v := range o.st.cells {
			root := a.root()
			if isFreshOp(root) && !o.st.escaped[root] && !before[root] {
				continue
			}
			kill(v)
			kill(a)
		}
	}
	var only func(t *Term) bool
	only = func(t *Term) bool {
		if born[t] {
			return true
		}
		if t.op == "const" || t.op == "nil" {
			return true
		}
		if len(t.args) == 0 {
			return false
		}
		for _, x := range t.args {
			if !only(x) {
				return false
			}
		}
		return true
	}
	return func(t *Term) bool {
		return only(t) && t.any(func(x *Term) bool { return born[x] })
	}
}
