package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one run of the rules of one property.
type Ctx struct {
	P        *Program
	id       string
	tier     string
	ruleOrd  []string
	rules    map[string]*ruleStat
	viols    []violation
	known    []string
	funcs    map[string]bool
	paths    int
	calls    int
	steps    int
	sites    map[string]bool
	engines  []*Eng
	findings []knownFinding
	onLoop   func(e *Eng, sum *LoopSum)
	merged   bool // some engine merged outcomes
	bundles  map[string]*An
}

type ruleStat struct {
	n    int // obligations
	bad  int
	what string
}

type violation struct {
	rule, pos, msg, trace string
}

type knownFinding struct {
	prop, key, text string
}

func newCtx(P *Program, id, tier string) *Ctx {
	return &Ctx{P: P, id: id, tier: tier, rules: map[string]*ruleStat{}, funcs: map[string]bool{}, sites: map[string]bool{}, bundles: map[string]*An{}}
}

// rule declares a rule of the property.
func (c *Ctx) rule(name, what string) {
	if c.rules[name] == nil {
		c.rules[name] = &ruleStat{what: what}
		c.ruleOrd = append(c.ruleOrd, name)
	}
}

// check records one obligation; st, when given, supplies the path.
func (c *Ctx) check(rule string, cond bool, pos token.Pos, st *State, format string, args ...any) bool {
	r := c.rules[rule]
	if r == nil {
		r = &ruleStat{}
		c.rules[rule] = r
		c.ruleOrd = append(c.ruleOrd, rule)
	}
	r.n++
	if pos.IsValid() {
		c.sites[c.P.pos(pos)] = true
	}
	if cond {
		return true
	}
	r.bad++
	tr := ""
	if st != nil {
		tr = st.trace(c.P, 60)
	}
	c.viols = append(c.viols, violation{rule, c.P.pos(pos), fmt.Sprintf(format, args...), tr})
	return false
}

// need records that a rule had obligations to decide: n is how many it has on
// the code as it is; a third is enough, as other code has other paths.
func (c *Ctx) need(rule string, n int) {
	n = (n + 2) / 3
	r := c.rules[rule]
	got := 0
	if r != nil {
		got = r.n
	}
	if got < n {
		c.viols = append(c.viols, violation{rule, "-", fmt.Sprintf("expected at least %d constructs to check, found %d: the code this rule is anchored to is gone or never reached", n, got), ""})
	}
}

func (c *Ctx) eng(opaque ...string) *Eng {
	e := newEng(c.P)
	if c.tier == "thorough" {
		e.limit *= 4
	}
	op := map[string]bool{}
	for _, k := range opaque {
		op[k] = true
	}
	e.opaque = func(key string, _ *ssa.Function) bool { return op[key] }
	e.onLoop = c.onLoop
	c.engines = append(c.engines, e)
	return e
}

func (c *Ctx) finish() {
	for _, e := range c.engines {
		c.paths += e.nPaths
		c.calls += e.nCalls
		c.steps += e.steps
		for f := range e.funcs {
			c.funcs[f] = true
		}
	}
	c.engines = nil
}

// An is an analysed entry point: all its outcomes from a symbolic call.
type An struct {
	c     *Ctx
	e     *Eng
	fn    *ssa.Function
	args  []*Term
	entry *State
	outs  []Outcome
	evs   []evRec // every event with the state at that moment
	fb    map[*Event]*State
}

type evRec struct {
	st *State
	ev *Event
}

// analyse runs fn under engine e.
func (c *Ctx) analyse(e *Eng, fn *ssa.Function, setup func(st *State, args []*Term)) *An {
	return c.analyse2(e, fn, setup, nil)
}

func (c *Ctx) analyse2(e *Eng, fn *ssa.Function, setup func(st *State, args []*Term), hook func(st *State, ev *Event)) *An {
	an := &An{c: c, e: e, fn: fn, fb: map[*Event]*State{}}
	prev := e.effects
	e.effects = func(st *State, ev *Event) {
		if hook != nil {
			hook(st, ev)
		}
		if ev.kind == "store" || ev.kind == "mapset" || ev.kind == "mapdel" {
			an.evs = append(an.evs, evRec{nil, ev})
		}
	}
	an.outs = e.analyse(fn, func(st *State, args []*Term) {
		an.args = args
		if setup != nil {
			setup(st, args)
		}
		an.entry = st.clone()
	})
	e.effects = prev
	return an
}

// arg returns the parameter with index i (0 is the receiver).
func (a *An) arg(i int) *Term { return a.args[i] }

// get loads the field path below the object p points to.
func get(st *State, p *Term, path string) *Term {
	cur := p
	for _, n := range strings.Split(path, ".") {
		cur = field1(st, cur, n)
	}
	return cur
}

func field1(st *State, cur *Term, n string) *Term {
	t := cur.typ
	if t == nil {
		fail("rules", "no type for %s", cur)
	}
	if pt, ok := under(t).(*types.Pointer); ok {
		s, ok := under(pt.Elem()).(*types.Struct)
		if !ok {
			fail("rules", "%s is no struct pointer (%s)", cur, t)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return st.load(mkFaddr(cur, pt.Elem(), i), s.Field(i).Type())
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if es, ok := under(s.Field(i).Type()).(*types.Struct); ok {
					for j := 0; j < es.NumFields(); j++ {
						if es.Field(j).Name() == n {
							a := mkFaddr(cur, pt.Elem(), i)
							return st.load(mkFaddr(a, s.Field(i).Type(), j), es.Field(j).Type())
						}
					}
				}
			}
		}
		fail("anchor", "type %s has no field %s", pt.Elem(), n)
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		fail("rules", "%s is no struct (%s)", cur, t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			f := structField(cur, i)
			return f
		}
	}
	fail("anchor", "type %s has no field %s", t, n)
	return nil
}

// faddr returns the address of a field of the object p points to.
func faddrOf(p *Term, n string) *Term {
	pt := under(p.typ).(*types.Pointer)
	s := under(pt.Elem()).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return mkFaddr(p, pt.Elem(), i)
		}
	}
	fail("anchor", "type %s has no field %s", pt.Elem(), n)
	return nil
}

func mapGet(st *State, m, k *Term) (*Term, *Term) {
	mt := under(m.typ).(*types.Map)
	return st.lookup(st.mapVal(m), k, mt.Elem())
}

// mapElem is the value for a key with its fields.
func (e *Eng) mapElem(st *State, m, k *Term) (*Term, *Term) {
	mt := under(m.typ).(*types.Map)
	v, ok := st.lookup(st.mapVal(m), k, mt.Elem())
	return e.explodeOpaque(v, mt.Elem()), ok
}

// ---- classification of errors ----

// errKind classifies the error result of an outcome: "nil" (success),
// "fail" (certainly an error) or "maybe".
func errKind(st *State, err *Term) string {
	switch st.decide(mkEq(err, mkNil(nil))) {
	case 1:
		return "nil"
	case -1:
		return "fail"
	}
	return "maybe"
}

// errType is the named error type of a certain error value, or "".
func errName(st *State, err *Term) string {
	if err.op == "iface" {
		t := err.typ
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return typStr(t)
	}
	return ""
}

// split returns the outcomes with their error result decided: for an
// undecided error (a tail call) both cases.
type ares struct {
	Outcome
	err *Term
	ok  bool // success
}

func (a *An) results() []ares {
	var out []ares
	for _, o := range a.outs {
		if o.kind != "ret" || len(o.rets) == 0 {
			out = append(out, ares{Outcome: o})
			continue
		}
		err := o.rets[len(o.rets)-1]
		switch errKind(o.st, err) {
		case "nil":
			out = append(out, ares{Outcome: o, err: err, ok: true})
		case "fail":
			out = append(out, ares{Outcome: o, err: err})
		default:
			for _, pol := range []bool{true, false} {
				s := o.st.clone()
				if s.assume(mkEq(err, mkNil(nil)), pol) {
					o2 := o
					o2.st = s
					out = append(out, ares{Outcome: o2, err: err, ok: pol})
				}
			}
		}
	}
	return out
}

// possible reports whether the conditions can all hold (have the given truth) in st, as far as is known.
func possible(st *State, conds ...*Term) bool {
	s := st.clone()
	for _, c := range conds {
		if !s.assume(c, true) {
			return false
		}
	}
	// assumptions may decide earlier ones
	for _, c := range conds {
		if s.fails(c) {
			return false
		}
	}
	return true
}

// given returns st with the conditions assumed, or nil if they cannot hold.
func given(st *State, conds ...*Term) *State {
	s := st.clone()
	for _, c := range conds {
		if !s.assume(c, true) {
			return nil
		}
	}
	for _, c := range conds {
		if s.fails(c) {
			return nil
		}
	}
	return s
}

func not(c *Term) *Term           { return mkNot(c) }
func eqT(a, b *Term) *Term        { return mkEq(a, b) }
func ltT(a, b *Term) *Term        { return mkLt(a, b) }
func nonNil(t *Term) *Term        { return notNil(t) }
func isNilT(t *Term) *Term        { return mkEq(t, mkNil(nil)) }
func plus(t *Term, n int64) *Term { return mkAdd(t, mkInt(n), 1) }

// calls lists the call events with one of the given names on the way to an
// outcome, those of unfinished iterations included, those of completed
// iterations (inside loop summaries) not.
func callsOf(st *State, names ...string) []*Event {
	var out []*Event
	for _, ev := range st.events() {
		if ev.kind == "call" {
			for _, n := range names {
				if ev.name == n {
					out = append(out, ev)
				}
			}
		}
	}
	return out
}

// walk visits every event on the way to a state, and those of the completed
// iterations of its loops, each with the state whose facts describe it.
func walk(st *State, evs []*Event, f func(st *State, ev *Event, in []*LoopSum), in ...*LoopSum) {
	for _, ev := range evs {
		if ev.kind == "loop" && ev.loop != nil {
			for _, b := range ev.loop.backs {
				walk(b.st, b.evs, f, append(append([]*LoopSum{}, in...), ev.loop)...)
			}
			continue
		}
		f(st, ev, in)
	}
}

// strip removes interface boxing and pure conversions.
func strip(t *Term) *Term {
	for t.op == "iface" && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// ---- contracts ----

const (
	kFromBytes = "metadata.Metadata.FromBytes"
	kVerify    = "metadata.Metadata.VerifyDelegate"
	kVLHMeta   = "metadata.MetaFiles.VerifyLengthHashes"
	kVLHTarget = "metadata.TargetFiles.VerifyLengthHashes"
)

// fromBytesContract models Metadata.FromBytes as C05 establishes it: success
// fills the receiver with unknown content and returns it, failure returns nil
// and an error and leaves the receiver alone.
func fromBytesContract(c *Call) []callOut {
	recv, data := c.args[0], c.args[1]
	sig := c.sig.Results()
	ok := c.st.clone()
	ok.havocObject(recv, "parsed"+c.stamp)
	ok.event("call", kFromBytes, c.instr.Pos(), []*Term{recv, data}, []*Term{recv, mkNil(sig.At(1).Type())})
	bad := c.st
	err := mk("res", c.key+"@"+c.stamp+":err", sig.At(1).Type())
	bad.assume(mkEq(err, mkNil(nil)), false)
	bad.event("call", kFromBytes, c.instr.Pos(), []*Term{recv, data}, []*Term{mkNil(sig.At(0).Type()), err})
	return []callOut{{st: ok, res: []*Term{recv, mkNil(sig.At(1).Type())}}, {st: bad, res: []*Term{mkNil(sig.At(0).Type()), err}}}
}

// ---- reports ----

func (c *Ctx) writeReport(path string) {
	var b strings.Builder
	for _, v := range c.viols {
		fmt.Fprintf(&b, "rule %s at %s\n  %s\n", v.rule, v.pos, v.msg)
		if r := c.rules[v.rule]; r != nil && r.what != "" {
			fmt.Fprintf(&b, "  (rule: %s)\n", r.what)
		}
		if v.trace != "" {
			fmt.Fprintf(&b, "  path: %s\n", v.trace)
		}
	}
	os.WriteFile(path, []byte(b.String()), 0o644)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
