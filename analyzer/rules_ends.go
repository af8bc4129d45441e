package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bounded decides that the number of completed iterations is below something
// the loop does not change.
func boundedIteration(sum *LoopSum, b *Back) bool {
	for t, v := range b.st.bools {
		if v && t.op == "nextok" && t.args[1] == sum.itP && !t.args[0].mentions(sum.tagP) {
			return true // over the entries of a map, or the runes of a string
		}
	}
	return limitedIn(b.st, sum.itP, 1, sum.tagP)
}

// limitedIn decides that the state knows an upper (sign 1) or lower (sign -1)
// bound of x that does not depend on the iteration.
func limitedIn(st *State, x *Term, sign int64, tag string) bool {
	lx := linOf(x)
	if len(lx.ts) == 0 {
		return true
	}
	for t, iv := range st.ivs {
		l := linOf(t)
		var co int64
		rest := false
		for i, a := range l.ts {
			switch {
			case a == x:
				co = l.co[i]
			case a.mentions(tag):
				rest = true
			}
		}
		if co == 0 || rest {
			continue
		}
		if co*sign > 0 && iv.hi < math.MaxInt64 || co*sign < 0 && iv.lo > math.MinInt64 {
			return true
		}
	}
	iv := st.ival(x)
	return sign > 0 && iv.hi < math.MaxInt64 || sign < 0 && iv.lo > math.MinInt64
}

// progress says what a way through the loop does to a measure of v: 1 it gets
// nearer to its bound, 0 it stays where it is, -1 unknown.
func progress(e *Eng, sum *LoopSum, v *loopVar, b *Back, dir int64) int {
	x, p := b.vals[v.id], v.symP
	if x == p {
		return 0
	}
	if x == nil || x.typ == nil {
		return -1
	}
	switch {
	case isInt(x.typ):
		d, ok := mkAdd(x, p, -1).intVal()
		switch {
		case ok && d == 0:
			return 0
		case ok && d*dir > 0 && limitedIn(b.st, p, dir, sum.tagP):
			return 1
		}
	case x.op == "mupd" && x.args[0] == p:
		if dir < 0 {
			return -1
		}
		k := x.args[1]
		if b.st.holds(lookupOK(p, k)) {
			return 0
		}
		fresh := b.st.fails(lookupOK(p, k)) || isBool(mapElemType(p)) && b.st.fails(mk("lookup", "", types.Typ[types.Bool], p, k))
		if fresh && limitedIn(b.st, mkLen(p), 1, sum.tagP) {
			return 1
		}
	case isSliceT(x) || isString(x.typ):
		n, m := mkLen(x), mkLen(p)
		switch {
		case dir < 0 && b.st.holds(ltT(n, m)):
			return 1
		case dir > 0 && b.st.holds(ltT(m, n)) && limitedIn(b.st, m, 1, sum.tagP):
			return 1
		case b.st.holds(eqT(n, m)):
			return 0
		}
	}
	return -1
}

// ends returns "" if the loop ends after finitely many iterations: their number
// is bounded by something the loop leaves alone, or some of its variables, taken
// in order of importance, only ever move towards their bounds.
func ends(e *Eng, sum *LoopSum) string {
	todo := map[*Back]bool{}
	all := true
	for _, b := range sum.allBacks {
		todo[b] = true
		all = all && boundedIteration(sum, b)
	}
	if all {
		return ""
	}
	type measure struct {
		v   *loopVar
		dir int64
	}
	var ms []measure
	for _, v := range sum.vars {
		ms = append(ms, measure{v, 1}, measure{v, -1})
	}
	for len(todo) > 0 {
		found := false
		for _, m := range ms {
			var done []*Back
			ok := true
			for b := range todo {
				switch progress(e, sum, m.v, b, m.dir) {
				case 1:
					done = append(done, b)
				case -1:
					ok = false
				}
			}
			if ok && len(done) > 0 {
				for _, b := range done {
					delete(todo, b)
				}
				found = true
				break
			}
		}
		if !found {
			var vs []string
			for _, v := range sum.vars {
				vs = append(vs, cut(v.symP.String(), 40))
			}
			return fmt.Sprintf("no bound found for %d of %d ways through the loop", len(todo), len(sum.allBacks))
		}
	}
	return ""
}

func ruleC45(c *Ctx) {
	c.rule("loop", "every loop takes each element of a collection it leaves alone once, counts towards a bound it leaves alone, or works off a list that grows only while a bounded set grows")
	c.rule("recursion", "no operation of the library calls itself")
	c.rule("timeout", "every request of the client is given a positive, constant time limit")
	c.rule("limited", "the default fetcher applies the time limit to the complete exchange")
	c.onLoop = func(e *Eng, sum *LoopSum) {
		why := ends(e, sum)
		c.check("loop", why == "", sum.pos, sum.entry, "the loop in %s may not end: %s", sum.fn.Name(), why)
	}
	hook := func(st *State, ev *Event) {
		if ev.kind != "call" {
			return
		}
		c.check("recursion", !strings.HasPrefix(ev.name, "recursive:"), ev.pos, st, "%s calls itself", strings.TrimPrefix(ev.name, "recursive:"))
		if ev.name == kDownload {
			n, ok := ev.args[3].intVal()
			c.check("timeout", ok && n > 0 || st.holds(ltT(mkInt(0), ev.args[3])), ev.pos, st, "a request may be made without a time limit: %s", cut(ev.args[3].String(), 60))
		}
	}
	run := func(pkg string, sets ...string) {
		c.operations(pkg, func(_ *Op, st *State, ev *Event) { hook(st, ev) }, sets...)
	}
	run("metadata")
	run(pkgTS, kVerify, kVLHMeta, kVLHTarget)
	run("metadata/config")
	f := newFetch(c)
	for _, r := range f.an.results() {
		for _, ev := range f.requests(r.st) {
			c.check("limited", f.timed[ev], ev.pos, r.st, "the default fetcher makes a request without the given time limit")
		}
	}
	for _, n := range c.exportedMethods(pkgUp, "Updater") {
		c.updaterWith(n, nil, func(up *Up, st *State, ev *Event) { hook(st, ev) }, func(e *Eng, up *Up) {
			e.merge = up.digest
			old := e.opaque
			e.opaque = func(k string, f *ssa.Function) bool { return k == kRolesFor || old(k, f) }
		})
	}
	c.updater("New", nil, func(up *Up, st *State, ev *Event) { hook(st, ev) })
	for _, n := range append(c.exportedMethods(pkgMulti, "MultiRepoClient"), "New", "NewConfig", "EnsurePathsExist") {
		c.multi(n, func(m *Multi, st *State, ev *Event) { hook(st, ev) })
	}
	c.need("loop", 20)
	c.need("recursion", 20)
	c.need("timeout", 3)
	c.need("limited", 1)
}

// Op is one exported operation of the library under analysis.
type Op struct {
	pkg, recv, targ, name string
	args                  []*Term // the receiver, if any, first
	method                bool
	an                    *An
	cfg                   *Term
}

// an0 is any engine of the run: what it is asked for does not depend on more
// than the loops met so far.
func (op *Op) an0(c *Ctx) *Eng { return c.engines[len(c.engines)-1] }

func (op *Op) String() string {
	if op.recv == "" {
		return op.name
	}
	return op.recv + "." + op.name
}

// operations analyses every exported function and method of a package.
func (c *Ctx) operations(pkg string, hook func(op *Op, st *State, ev *Event), opaque ...string) []*Op {
	p := c.P.pkg(pkg)
	scope := p.Pkg.Scope()
	var ops []*Op
	run := func(op *Op, fn *ssa.Function) {
		e := c.eng(opaque...)
		if pkg == "metadata" && op.name != "ToPublicKey" {
			e.contract[kToPub] = pureContract("ToPublicKey")
		}
		if pkg == pkgTS {
			e.contract[kFromBytes] = fromBytesContract
		}
		op.an = c.analyse2(e, fn, func(st *State, args []*Term) {
			op.args = args
			if op.method {
				if _, ok := under(args[0].typ).(*types.Pointer); ok {
					st.assume(nonNil(args[0]), true)
				}
			}
		}, func(st *State, ev *Event) { hook(op, st, ev) })
		ops = append(ops, op)
	}
	for _, n := range scope.Names() {
		switch o := scope.Lookup(n).(type) {
		case *types.Func:
			if fn := p.Func(n); o.Exported() && fn != nil && fn.TypeParams().Len() == 0 && len(fn.Blocks) > 0 {
				run(&Op{pkg: pkg, name: n}, fn)
			}
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok || !o.Exported() && !c.handedOut(scope, nt) {
				continue
			}
			var insts []*types.Named
			targs := []string{""}
			if nt.TypeParams().Len() > 0 {
				if n != "Metadata" {
					continue
				}
				targs = sortedKeys(metaRole)
				for _, targ := range targs {
					insts = append(insts, c.P.namedType(pkg, n, targ).(*types.Named))
				}
			} else {
				insts = append(insts, nt)
			}
			for ti, t := range insts {
				for i := 0; i < nt.NumMethods(); i++ {
					m := nt.Method(i).Name()
					if !nt.Method(i).Exported() {
						continue
					}
					if fn := c.P.methodIf(t, m); fn != nil && len(fn.Blocks) > 0 {
						run(&Op{pkg: pkg, recv: n, targ: targs[ti], name: m, method: true}, fn)
					}
				}
			}
		}
	}
	return ops
}

// handedOut says that an exported function of the package returns the type.
func (c *Ctx) handedOut(scope *types.Scope, t *types.Named) bool {
	for _, n := range scope.Names() {
		if f, ok := scope.Lookup(n).(*types.Func); ok && f.Exported() {
			r := f.Type().(*types.Signature).Results()
			for i := 0; i < r.Len(); i++ {
				if x := r.At(i).Type(); x == types.Type(t) || types.Identical(x, types.NewPointer(t)) {
					return true
				}
			}
		}
	}
	return false
}

// exportedMethods lists the exported methods of a type.
func (c *Ctx) exportedMethods(pkg, name string) []string {
	nt := c.P.namedType(pkg, name).(*types.Named)
	var out []string
	for i := 0; i < nt.NumMethods(); i++ {
		if m := nt.Method(i); m.Exported() {
			out = append(out, m.Name())
		}
	}
	sort.Strings(out)
	return out
}
