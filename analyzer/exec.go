package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Eng runs the path-sensitive forward dataflow analysis over the SSA form.
type Eng struct {
	P        *Program
	id       int                                    // distinguishes the symbols of different analyses
	opaque   func(key string, f *ssa.Function) bool // calls kept as contract events
	contract map[string]func(c *Call) []callOut     // models of contract calls
	steps    int
	limit    int
	onLoop   func(e *Eng, sum *LoopSum) // told about every loop
	maxDepth int
	accs     map[*Term]*Acc
	accSeq   int
	sites    map[ssa.Instruction]int
	loopsOf  map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	classes  map[string]bool
	funcs    map[string]bool // functions analysed
	nPaths   int
	nCalls   int
	obl      func(st *State, fr *Frame, in ssa.Instruction, kind string, safe *Term)
	globals  map[*Term]*Term
	gmaps    map[*Term]*Term
	ginit    bool
	effects  func(st *State, ev *Event)
	merge    func(st *State, since *Event, res []*Term) string // digest for merging the outcomes of calls
}

var engSeq int

func newEng(P *Program) *Eng {
	engSeq++
	return &Eng{P: P, id: engSeq, limit: 30_000_000, maxDepth: 40, accs: map[*Term]*Acc{}, sites: map[ssa.Instruction]int{},
		loopsOf: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, classes: map[string]bool{}, funcs: map[string]bool{},
		contract: map[string]func(c *Call) []callOut{}}
}

// Frame is one activation of a function.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	ctx    string
	loops  []*loopCtx
	defers []*deferred
	stack  []*ssa.Function
	calls  []token.Pos
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
	tag   string
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = cloneMap(f.env)
	n.defers = append([]*deferred{}, f.defers...)
	return &n
}

func (f *Frame) tag() string {
	t := f.ctx
	for _, l := range f.loops {
		t += l.tag
	}
	return t
}

// Outcome is one way an analysed function ends.
type Outcome struct {
	st   *State
	kind string // ret, panic, exit
	rets []*Term
	pos  token.Pos
}

type callOut struct {
	st   *State
	res  []*Term
	kind string // "" continues
	pos  token.Pos
}

// Call is a call being modelled.
type Call struct {
	e     *Eng
	st    *State
	fr    *Frame
	instr ssa.Instruction
	key   string
	fn    *ssa.Function
	args  []*Term
	sig   *types.Signature
	stamp string
}

func (e *Eng) site(in ssa.Instruction) string {
	n, ok := e.sites[in]
	if !ok {
		n = len(e.sites) + 1
		e.sites[in] = n
	}
	return fmt.Sprintf("%d", e.id*100000+n)
}

func (e *Eng) leaf(name string) string { return fmt.Sprintf("%s~%d", name, e.id) }

func (e *Eng) stamp(fr *Frame, in ssa.Instruction) string {
	return fr.tag() + "/" + e.site(in)
}

// fnKey names a function: package path relative to the module (or full path),
// receiver type and name; instantiations have the name of their origin.
func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	pkg := ""
	if p := funcPkg(f); p != nil {
		pkg = strings.TrimPrefix(p.Path(), modPath+"/")
	}
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + "$" + f.Name()
	}
	return pkg + "." + f.Name()
}

// run analyses fn on the given arguments from state st.
func (e *Eng) run(fn *ssa.Function, st *State, args []*Term, bindings []*Term, ctx string, stack []*ssa.Function, calls []token.Pos) []Outcome {
	if len(fn.Blocks) == 0 {
		fail("engine", "no body for %s", fn)
	}
	e.funcs[fnKey(fn)] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, ctx: ctx, stack: append(append([]*ssa.Function{}, stack...), fn), calls: calls}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(bindings) {
			fr.env[f] = bindings[i]
		} else {
			fr.env[f] = mk("free", e.leaf(ctx+f.Name()), f.Type())
		}
	}
	return e.exec(st, fr, fn.Blocks[0], 0)
}

// analyse runs a function on symbolic parameters.
func (e *Eng) analyse(fn *ssa.Function, setup func(st *State, args []*Term)) []Outcome {
	st := newState(e)
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		if _, ok := explodes(p.Type()); ok {
			// a struct parameter: explode it into its fields
			args = append(args, e.symStruct(n, p.Type()))
			continue
		}
		args = append(args, mk("param", e.leaf(n), p.Type()))
	}
	if setup != nil {
		setup(st, args)
	}
	var binds []*Term
	for _, f := range fn.FreeVars {
		binds = append(binds, mk("free", e.leaf(f.Name()), f.Type()))
	}
	outs := e.run(fn, st, args, binds, "", nil, nil)
	e.nPaths += len(outs)
	return outs
}

func (e *Eng) symStruct(name string, t types.Type) *Term {
	s, ok := explodes(t)
	if !ok {
		return mk("param", e.leaf(name), t)
	}
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		args = append(args, e.symStruct(name+"."+s.Field(i).Name(), s.Field(i).Type()))
	}
	return mkStruct(t, args)
}

func (e *Eng) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().(*types.TypeParam); ok {
				return mkNil(x.Type())
			}
			return mkZero(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return mk("global", strings.TrimPrefix(x.String(), modPath+"/"), x.Type())
	case *ssa.Function:
		return intern(Term{op: "func", name: x.String(), typ: x.Type(), fn: x})
	case *ssa.Builtin:
		return mk("builtin", x.Name(), x.Type())
	}
	t, ok := fr.env[v]
	if !ok {
		fail("engine", "%s: value %s (%s) used before it is defined", fr.fn, v.Name(), v)
	}
	return t
}

func (e *Eng) check(st *State, fr *Frame, in ssa.Instruction, kind string, safe *Term) {
	if e.obl != nil && !st.spec {
		e.obl(st, fr, in, kind, safe)
	}
	if kind == "nil dereference" && st.decide(safe) == 0 {
		st.assume(safe, true) // or the path ends here
	}
}

func notNil(t *Term) *Term { return mkNot(mkEq(t, mkNil(nil))) }

// exec runs the instructions of blk from i on and everything after.
func (e *Eng) exec(st *State, fr *Frame, blk *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(blk.Instrs); i++ {
		e.steps++
		if e.steps > e.limit {
			fail("budget", "analysis of %s exceeds %d steps", fr.stack[0], e.limit)
		}
		if e.steps&0xfff == 0 && exactOnly && time.Now().After(exactUntil) {
			fail("budget", "the exact analysis of %s takes too long", fr.stack[0])
		}
		if e.steps&0x3fff == 0 && liveHeap() > 9<<30 {
			fail("budget", "the analysis of %s takes too much memory", fr.stack[0])
		}
		in := blk.Instrs[i]
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// assigned on entry to the block
		case *ssa.Jump:
			return e.jump(st, fr, blk, blk.Succs[0])
		case *ssa.If:
			c := e.val(fr, x.Cond)
			switch st.decide(c) {
			case 1:
				return e.jump(st, fr, blk, blk.Succs[0])
			case -1:
				return e.jump(st, fr, blk, blk.Succs[1])
			}
			var outs []Outcome
			s1, f1 := st.clone(), fr.clone()
			if s1.assume(c, true) {
				s1.br = &Branch{cond: c, pol: true, pos: condPos(x), prev: s1.br}
				outs = append(outs, e.jump(s1, f1, blk, blk.Succs[0])...)
			}
			if st.assume(c, false) {
				st.br = &Branch{cond: c, pol: false, pos: condPos(x), prev: st.br}
				outs = append(outs, e.jump(st, fr, blk, blk.Succs[1])...)
			}
			return outs
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(fr, r))
			}
			return []Outcome{{st: st, kind: "ret", rets: rs, pos: x.Pos()}}
		case *ssa.Panic:
			e.check(st, fr, in, "explicit panic", mkBool(false))
			return []Outcome{{st: st, kind: "panic", rets: []*Term{e.val(fr, x.X)}, pos: x.Pos()}}
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				outs := e.callTerm(st, fr, d.instr, &d.instr.Call, d.fn, d.args, d.tag)
				var res []Outcome
				for k, o := range outs {
					f := fr
					if k < len(outs)-1 {
						f = fr.clone()
					}
					if o.kind != "" {
						res = append(res, Outcome{st: o.st, kind: o.kind, rets: o.res, pos: o.pos})
						continue
					}
					res = append(res, e.exec(o.st, f, blk, i)...)
				}
				return res
			}
		case *ssa.Defer:
			f, args := e.callee(st, fr, &x.Call)
			fr.defers = append(fr.defers, &deferred{instr: x, fn: f, args: args, tag: e.stamp(fr, in)})
		case *ssa.Go:
			fail("engine", "%s: a go statement is outside what is analysed", e.P.pos(x.Pos()))
		case *ssa.Select, *ssa.Send, *ssa.MakeChan:
			fail("engine", "%s: channel operations are outside what is analysed", e.P.pos(in.Pos()))
		case *ssa.Call:
			f, args := e.callee(st, fr, &x.Call)
			outs := e.callTerm(st, fr, x, &x.Call, f, args, e.stamp(fr, in))
			if len(outs) == 1 && outs[0].kind == "" {
				st = outs[0].st
				e.bind(fr, x, outs[0].res)
				continue
			}
			var res []Outcome
			for k, o := range outs {
				if o.kind != "" {
					res = append(res, Outcome{st: o.st, kind: o.kind, rets: o.res, pos: o.pos})
					continue
				}
				f := fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				e.bind(f, x, o.res)
				res = append(res, e.exec(o.st, f, blk, i+1)...)
			}
			return res
		case *ssa.Store:
			a := e.val(fr, x.Addr)
			e.check(st, fr, in, "nil dereference", notNil(a.root2()))
			v := e.val(fr, x.Val)
			e.store(st, fr, in, a, v, x.Val.Type())
		case *ssa.MapUpdate:
			m, k, v := e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value)
			e.check(st, fr, in, "assignment to entry in nil map", notNil(m))
			stamp := e.stamp(fr, in)
			mv := st.mapVal(m)
			for mv.op == "mupd" && mv.args[1] == k {
				mv = mv.args[0]
			}
			st.setMap(m, mk("mupd", "", m.typ, mv, k, v), stamp)
			if !st.private(m) {
				st.event("mapset", "", in.Pos(), []*Term{m, k, v}, nil)
			}
		case *ssa.Lookup:
			outs := e.lookupForks(st, fr, x)
			if len(outs) < 2 {
				fr.env[x] = e.evalInstr(st, fr, in)
				continue
			}
			var res []Outcome
			for k, o := range outs {
				f := fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				f.env[x] = o.res[0]
				res = append(res, e.exec(o.st, f, blk, i+1)...)
			}
			return res
		case *ssa.TypeAssert:
			outs := e.typeAssert(st, fr, x)
			if len(outs) == 1 {
				st = outs[0].st
				fr.env[x] = outs[0].res[0]
				continue
			}
			var res []Outcome
			for k, o := range outs {
				f := fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				f.env[x] = o.res[0]
				res = append(res, e.exec(o.st, f, blk, i+1)...)
			}
			return res
		case ssa.Value:
			fr.env[x] = e.evalInstr(st, fr, in)
		default:
			fail("engine", "%s: unsupported instruction %T", e.P.pos(in.Pos()), in)
		}
	}
	return nil
}

// root2 is the pointer whose validity an address depends on.
func (t *Term) root2() *Term {
	for (t.op == "faddr" || t.op == "iaddr") && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	for i := len(x.Block().Instrs) - 1; i >= 0; i-- {
		if p := x.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func (e *Eng) bind(fr *Frame, x *ssa.Call, res []*Term) {
	if x.Call.Signature().Results().Len() == 1 {
		fr.env[x] = res[0]
	} else {
		fr.env[x] = mk("tuple", "", nil, res...)
	}
}

func (e *Eng) store(st *State, fr *Frame, in ssa.Instruction, a, v *Term, typ types.Type) {
	stamp := e.stamp(fr, in)
	if !st.private(a.root()) {
		st.event("store", "", in.Pos(), []*Term{a, v}, nil)
	}
	e.noteClass(a)
	st.store(a, v, typ, stamp)
}

func (e *Eng) noteClass(a *Term) { e.classes[classOf(a)] = true }

// jump moves along a control flow edge.
func (e *Eng) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) []Outcome {
	if n := len(fr.loops); n > 0 {
		lc := fr.loops[n-1]
		if to == lc.loop.header {
			lc.backs = append(lc.backs, &edge{st: st, fr: fr, from: from, to: to})
			return nil
		}
		if !lc.loop.blocks[to] {
			lc.exits = append(lc.exits, &edge{st: st, fr: fr, from: from, to: to})
			return nil
		}
	}
	if l := e.loops(fr.fn)[to]; l != nil {
		return e.execLoop(st, fr, l, from)
	}
	e.setPhis(fr, from, to)
	return e.exec(st, fr, to, 0)
}

func (e *Eng) phiVals(fr *Frame, from, to *ssa.BasicBlock) map[*ssa.Phi]*Term {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = e.val(fr, ph.Edges[idx])
	}
	return vals
}

func (e *Eng) setPhis(fr *Frame, from, to *ssa.BasicBlock) {
	for ph, v := range e.phiVals(fr, from, to) {
		fr.env[ph] = v
	}
}

func (e *Eng) callee(st *State, fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	f := e.val(fr, c.Value)
	if c.IsInvoke() {
		args = append(args, f)
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	return f, args
}

// evalInstr computes the value of a side-effect free instruction.
func (e *Eng) evalInstr(st *State, fr *Frame, in ssa.Instruction) *Term {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := mk("alloc", e.stamp(fr, in), x.Type())
		// a new object each time
		if !x.Heap {
			st.resetAlloc(t)
		}
		return t
	case *ssa.UnOp:
		v := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			e.check(st, fr, in, "nil dereference", notNil(v.root2()))
			e.noteClass(v)
			return st.load(v, x.Type())
		case token.NOT:
			return mkNot(v)
		case token.SUB:
			if isInt(x.Type()) {
				return mkAdd(mkInt(0), v, -1)
			}
			if v.op == "const" {
				return mkConst(constant.UnaryOp(token.SUB, v.cv, 0), x.Type())
			}
			return mk("neg", "", x.Type(), v)
		case token.ARROW:
			fail("engine", "%s: channel receive is outside what is analysed", e.P.pos(x.Pos()))
		}
		return mk("unop", x.Op.String(), x.Type(), v)
	case *ssa.BinOp:
		return e.binop(st, fr, x)
	case *ssa.ChangeType:
		v := e.val(fr, x.X)
		if v.op == "struct" {
			return mkStruct(x.Type(), v.args)
		}
		return v
	case *ssa.ChangeInterface:
		return e.val(fr, x.X)
	case *ssa.Convert:
		return mkConvert(e.val(fr, x.X), x.Type())
	case *ssa.MultiConvert:
		return mkConvert(e.val(fr, x.X), x.Type())
	case *ssa.MakeInterface:
		return mk("iface", typStr(x.X.Type()), x.X.Type(), e.val(fr, x.X))
	case *ssa.MakeMap:
		m := mk("makemap", e.stamp(fr, in), x.Type())
		delete(st.cells, mcell(m))
		delete(st.allocEp, m)
		delete(st.escaped, m)
		return m
	case *ssa.MakeSlice:
		return mk("makeslice", e.stamp(fr, in), x.Type(), e.val(fr, x.Len))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, e.val(fr, v))
		}
		fn := x.Fn.(*ssa.Function)
		return intern(Term{op: "closure", name: fn.String(), typ: x.Type(), args: b, fn: fn})
	case *ssa.Extract:
		t := e.val(fr, x.Tuple)
		if t.op == "tuple" {
			return t.args[x.Index]
		}
		fail("engine", "%s: extract from %s", e.P.pos(x.Pos()), t)
	case *ssa.Field:
		return structField(e.val(fr, x.X), x.Field)
	case *ssa.FieldAddr:
		b := e.val(fr, x.X)
		e.check(st, fr, in, "nil dereference", notNil(b.root2()))
		pt := x.X.Type().Underlying().(*types.Pointer)
		return mkFaddr(b, pt.Elem(), x.Field)
	case *ssa.Index:
		b, i := e.val(fr, x.X), e.val(fr, x.Index)
		e.check(st, fr, in, "index out of range", inRange(i, mkLen(b)))
		if s, ok := b.strVal(); ok {
			if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(s) {
				return mkConst(constant.MakeInt64(int64(s[k])), x.Type())
			}
		}
		if at, ok := x.X.Type().Underlying().(*types.Array); ok && len(b.args) == 1 && b.args[0].op == "global" {
			// a package-level array nothing assigns to
			if v := e.globalArray(b.args[0], at); v != nil {
				if k, ok := i.intVal(); ok && k >= 0 && k < at.Len() {
					return v[k]
				}
			}
		}
		if k, ok := i.intVal(); ok && b.op == "arraylit" && k >= 0 && int(k) < len(b.args) {
			return b.args[k]
		}
		return mk("index", "", x.Type(), b, i)
	case *ssa.IndexAddr:
		b, i := e.val(fr, x.X), e.val(fr, x.Index)
		e.check(st, fr, in, "index out of range", inRange(i, e.lenOf(st, b)))
		return e.elemAddr(st, b, i, elemType(x.X.Type()))
	case *ssa.Lookup:
		b, k := e.val(fr, x.X), e.val(fr, x.Index)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok { // string indexing
			e.check(st, fr, in, "index out of range", inRange(k, mkLen(b)))
			return mk("index", "", x.Type(), b, k)
		}
		v, present := st.lookup(st.mapVal(b), k, mt.Elem())
		if _, ok := explodes(mt.Elem()); ok && v.op != "struct" {
			v = e.explodeOpaque(v, mt.Elem())
		}
		if x.CommaOk {
			return mk("tuple", "", nil, v, present)
		}
		return v
	case *ssa.Range:
		b := e.val(fr, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return mk("rangemap", e.stamp(fr, in), nil, st.mapVal(b), b)
		}
		return mk("rangestr", e.stamp(fr, in), nil, b)
	case *ssa.Next:
		return e.next(st, fr, x)
	case *ssa.Slice:
		return e.slice(st, fr, x)
	case *ssa.SliceToArrayPointer:
		return mk("arrptr", "", x.Type(), e.val(fr, x.X))
	}
	fail("engine", "%s: unsupported instruction %T", e.P.pos(in.Pos()), in)
	return nil
}

// explodeOpaque turns an opaque struct value into a composite of its fields.
func (e *Eng) explodeOpaque(v *Term, t types.Type) *Term {
	s, ok := explodes(t)
	if !ok || v.op == "struct" {
		return v
	}
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := mk("field", s.Field(i).Name(), s.Field(i).Type(), v)
		args = append(args, e.explodeOpaque(f, s.Field(i).Type()))
	}
	return mkStruct(t, args)
}

func (s *State) resetAlloc(t *Term) {
	for c := range s.cells {
		if c.root() == t {
			delete(s.cells, c)
		}
	}
	delete(s.allocEp, t)
	delete(s.escaped, t)
}

// inRange is 0 <= i < n.
func inRange(i, n *Term) *Term {
	return mk("inrange", "", types.Typ[types.Bool], i, n)
}

func (e *Eng) binop(st *State, fr *Frame, x *ssa.BinOp) *Term {
	a, b := e.val(fr, x.X), e.val(fr, x.Y)
	switch x.Op {
	case token.EQL:
		return e.eq(st, a, b)
	case token.NEQ:
		return mkNot(e.eq(st, a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	case token.ADD:
		if isString(x.Type()) {
			return mkCat(a, b)
		}
		if isInt(x.Type()) {
			return mkAdd(a, b, 1)
		}
	case token.SUB:
		if isInt(x.Type()) {
			return mkAdd(a, b, -1)
		}
	case token.MUL:
		if isInt(x.Type()) {
			if k, ok := b.intVal(); ok {
				return linCombine(linOf(a), k, linear{}, 0).term(x.Type())
			}
			if k, ok := a.intVal(); ok {
				return linCombine(linOf(b), k, linear{}, 0).term(x.Type())
			}
		}
	case token.QUO, token.REM:
		if isInt(x.Type()) {
			e.check(st, fr, x, "division by zero", mkNot(mkEq(b, mkInt(0))))
		}
	case token.SHL, token.SHR:
		if bt, ok := x.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
			e.check(st, fr, x, "negative shift", mkNot(mkLt(b, mkInt(0))))
		}
	}
	if a.op == "const" && b.op == "const" {
		if isInt(x.Type()) || isFloat(x.Type()) {
			switch x.Op {
			case token.SHL, token.SHR:
				if s, ok := b.intVal(); ok && s >= 0 && s < 64 {
					return mkConst(constant.Shift(constant.ToInt(a.cv), x.Op, uint(s)), x.Type())
				}
			case token.ADD, token.SUB, token.MUL:
				return mkConst(constant.BinaryOp(a.cv, x.Op, b.cv), x.Type())
			case token.QUO:
				if z, ok := b.intVal(); !ok || z != 0 {
					op := x.Op
					if isInt(x.Type()) {
						op = token.QUO_ASSIGN
					}
					if constant.Sign(b.cv) != 0 {
						return mkConst(constant.BinaryOp(a.cv, op, b.cv), x.Type())
					}
				}
			}
		}
	}
	return quotient(st, x.Op.String(), x.Type(), a, b)
}

// quotient is the operation with what is known of division by a constant.
func quotient(st *State, op string, typ types.Type, a, b *Term) *Term {
	r := mk("bin", op, typ, a, b)
	k, ok := b.intVal()
	if !ok || k <= 0 || !isInt(typ) || !st.holds(mkNot(mkLt(a, mkInt(0)))) {
		return r
	}
	switch op {
	case "/": // 0 <= a - k*(a/k) < k
		st.assume(mkNot(mkLt(r, mkInt(0))), true)
		rem := linCombine(linOf(a), 1, linOf(r), -k).term(typ)
		st.assume(mkNot(mkLt(rem, mkInt(0))), true)
		st.assume(mkLt(rem, mkInt(k)), true)
	case "%":
		st.assume(mkNot(mkLt(r, mkInt(0))), true)
		st.assume(mkLt(r, mkInt(k)), true)
	}
	return r
}

// eq compares values, seeing through encodings that are one to one.
func (e *Eng) eq(st *State, a, b *Term) *Term {
	if a.op == "app" && b.op == "app" && a.name == b.name && a.name == "hex.EncodeToString" {
		return e.bytesEq(a.args[0], b.args[0])
	}
	if a.op == "conv" && b.op == "conv" && a.name == "string" && b.name == "string" {
		return e.bytesEq(a.args[0], b.args[0])
	}
	// bytes.Compare(a, b) == 0
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].op == "app" && (p[0].name == "bytes.Compare") {
			if v, ok := p[1].intVal(); ok && v == 0 {
				return e.bytesEq(p[0].args[0], p[0].args[1])
			}
		}
		if p[0].op == "app" && p[0].name == "crypto/subtle.ConstantTimeCompare" {
			if v, ok := p[1].intVal(); ok && v == 1 {
				return e.bytesEq(p[0].args[0], p[0].args[1])
			}
			if v, ok := p[1].intVal(); ok && v == 0 {
				return mkNot(e.bytesEq(p[0].args[0], p[0].args[1]))
			}
		}
	}
	return mkEq(a, b)
}

func (e *Eng) bytesEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("beq", "", types.Typ[types.Bool], a, b)
}

func (e *Eng) slice(st *State, fr *Frame, x *ssa.Slice) *Term {
	b := e.val(fr, x.X)
	lo, hi := mkInt(0), (*Term)(nil)
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if x.Low != nil || x.High != nil {
		n := mkLen(b)
		h := hi
		if h == nil {
			h = n
		}
		e.check(st, fr, x, "slice bounds out of range", mk("slicebounds", "", types.Typ[types.Bool], lo, h, n))
	}
	if isString(x.X.Type()) {
		if z, ok := lo.intVal(); ok && z == 0 && hi == nil {
			return b
		}
		h := mk("none", "", nil)
		if hi != nil {
			h = hi
		}
		return mkSubstr(b, lo, h)
	}
	// slicing a pointer to an array
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		if v, ok := st.cells[b]; ok { // array stored as one value (e.g. a digest)
			if z, ok := lo.intVal(); ok && z == 0 && (hi == nil || isConstInt(hi, at.Len())) {
				return v
			}
			h := mk("none", "", nil)
			if hi != nil {
				h = hi
			}
			return mk("slice", "", x.Type(), v, lo, h)
		}
		_, havoced := st.allocEp[b.root()]
		if b.op == "alloc" && !havoced && at.Len() <= 64 {
			var elems []*Term
			n := at.Len()
			l, ok1 := lo.intVal()
			h, ok2 := n, true
			if hi != nil {
				h, ok2 = hi.intVal()
			}
			if ok1 && ok2 && l >= 0 && h <= n {
				for k := l; k < h; k++ {
					elems = append(elems, st.load(mkIaddr(b, mkInt(k), at.Elem()), at.Elem()))
				}
				lit := mk("slicelit", e.stamp(fr, x), x.Type(), elems...)
				return lit
			}
		}
		if b.op == "global" {
			if v := e.globalArray(b, at); v != nil {
				if z, ok := lo.intVal(); ok && z == 0 && hi == nil {
					return mk("slicelit", b.name, x.Type(), v...)
				}
			}
		}
	}
	if z, ok := lo.intVal(); ok && z == 0 && hi == nil {
		return b
	}
	h := mk("none", "", nil)
	if hi != nil {
		h = hi
	}
	// keep literals literal
	if b.op == "slicelit" {
		l, ok1 := lo.intVal()
		k, ok2 := int64(len(b.args)), true
		if hi != nil {
			k, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && l <= k && k <= int64(len(b.args)) {
			return mk("slicelit", b.name+fmt.Sprintf("[%d:%d]", l, k), x.Type(), b.args[l:k]...)
		}
	}
	return mk("slice", "", x.Type(), b, lo, h)
}

func isConstInt(t *Term, v int64) bool {
	i, ok := t.intVal()
	return ok && i == v
}

// next models one step of a range over a map or string.
func (e *Eng) next(st *State, fr *Frame, x *ssa.Next) *Term {
	r := e.val(fr, x.Iter)
	// the iteration number of the innermost loop
	var it *Term
	if n := len(fr.loops); n > 0 {
		it = fr.loops[n-1].it
	} else {
		it = mk("it", e.stamp(fr, x), types.Typ[types.Int])
	}
	if r.op == "rangestr" {
		ok := mk("nextok", "", types.Typ[types.Bool], r.args[0], it)
		return mk("tuple", "", nil, ok, mk("runepos", "", types.Typ[types.Int], r.args[0], it), mk("rune", "", types.Typ[types.Rune], r.args[0], it))
	}
	mv := r.args[0]
	mt := r.args[1].typ.Underlying().(*types.Map)
	ok := mk("nextok", "", types.Typ[types.Bool], mv, it)
	k := mk("key", "", mt.Key(), mv, it)
	// the current value of the entry: the map may have been changed during the iteration
	v, _ := st.lookup(st.mapVal(r.args[1]), k, mt.Elem())
	v = e.explodeOpaque(v, mt.Elem())
	if mv.op == "mempty" {
		ok = mkBool(false)
	}
	return mk("tuple", "", nil, ok, k, v)
}

// lookupForks looks a key up in a map all of whose keys are known constants:
// it is one of them, or not in the map.
func (e *Eng) lookupForks(st *State, fr *Frame, x *ssa.Lookup) []callOut {
	mt, ok := under(x.X.Type()).(*types.Map)
	if !ok {
		return nil
	}
	k := e.val(fr, x.Index)
	var entries []*Term
	mv := st.mapVal(e.val(fr, x.X))
	for mv.op == "mupd" && len(entries) <= 16 {
		if mv.args[1].op != "const" {
			return nil
		}
		entries = append(entries, mv)
		mv = mv.args[0]
	}
	if k.op == "const" || mv.op != "mempty" || len(entries) == 0 || len(entries) > 16 {
		return nil
	}
	var outs []callOut
	out := func(s *State, v *Term, ok bool) {
		if x.CommaOk {
			v = mk("tuple", "", nil, v, mkBool(ok))
		}
		outs = append(outs, callOut{st: s, res: []*Term{v}})
	}
	for _, u := range entries {
		c := mkEq(k, u.args[1])
		if st.decide(c) == -1 {
			continue
		}
		s := st.clone()
		if s.assume(c, true) {
			s.br = &Branch{cond: c, pol: true, pos: x.Pos(), prev: s.br}
			out(s, u.args[2], true)
		}
		if !st.assume(c, false) {
			return outs
		}
		st.br = &Branch{cond: c, pol: false, pos: x.Pos(), prev: st.br}
	}
	out(st, mkZero(mt.Elem()), false)
	return outs
}

func (e *Eng) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) []callOut {
	v := e.val(fr, x.X)
	wrap := func(s *State, val *Term, ok bool) callOut {
		if x.CommaOk {
			if !ok {
				val = mkZero(x.AssertedType)
			}
			return callOut{st: s, res: []*Term{mk("tuple", "", nil, val, mkBool(ok))}}
		}
		return callOut{st: s, res: []*Term{val}}
	}
	toIface := types.IsInterface(x.AssertedType)
	if v.isNil() {
		if !x.CommaOk {
			e.check(st, fr, x, "failed type assertion", mkBool(false))
			return nil
		}
		return []callOut{wrap(st, nil, false)}
	}
	if v.op == "iface" {
		if toIface {
			ok := types.AssertableTo(x.AssertedType.Underlying().(*types.Interface), v.typ) && types.Implements(v.typ, x.AssertedType.Underlying().(*types.Interface))
			if ok {
				return []callOut{wrap(st, v, true)}
			}
			e.check(st, fr, x, "failed type assertion", mkBool(x.CommaOk))
			if !x.CommaOk {
				return nil
			}
			return []callOut{wrap(st, nil, false)}
		}
		if types.Identical(v.typ, x.AssertedType) {
			return []callOut{wrap(st, v.args[0], true)}
		}
		e.check(st, fr, x, "failed type assertion", mkBool(x.CommaOk))
		if !x.CommaOk {
			return nil
		}
		return []callOut{wrap(st, nil, false)}
	}
	// opaque dynamic type
	is := mk("typeis", typStr(x.AssertedType), types.Typ[types.Bool], v)
	val := mk("as", typStr(x.AssertedType), x.AssertedType, v)
	if toIface {
		val = v
	} else {
		val = e.explodeOpaque(val, x.AssertedType)
	}
	if !x.CommaOk {
		e.check(st, fr, x, "failed type assertion", is)
		if !st.assume(is, true) {
			return nil
		}
		return []callOut{wrap(st, val, true)}
	}
	switch st.decide(is) {
	case 1:
		return []callOut{wrap(st, val, true)}
	case -1:
		return []callOut{wrap(st, nil, false)}
	}
	var outs []callOut
	s2 := st.clone()
	if !typeExcluded(s2, v, x.AssertedType, toIface) && s2.assume(is, true) {
		if !s2.fails(mkNot(mkEq(v, mkNil(nil)))) {
			s2.assume(mkEq(v, mkNil(nil)), false)
			outs = append(outs, wrap(s2, val, true))
		}
	}
	if st.assume(is, false) {
		outs = append(outs, wrap(st, nil, false))
	}
	return outs
}

// typeExcluded reports whether v is already known to have another concrete type.
func typeExcluded(s *State, v *Term, t types.Type, toIface bool) bool {
	if toIface {
		return false
	}
	for a, p := range s.bools {
		if p && a.op == "typeis" && a.args[0] == v && a.name != typStr(t) {
			if x := mk("as", a.name, nil, v); x.typ != nil && !types.IsInterface(x.typ) {
				return true
			}
		}
	}
	return false
}

// callTerm performs a call and returns its outcomes.
func (e *Eng) callTerm(st *State, fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, f *Term, args []*Term, stamp string) []callOut {
	e.nCalls++
	c := &Call{e: e, st: st, fr: fr, instr: in, args: args, sig: cc.Signature(), stamp: stamp}
	if cc.IsInvoke() {
		e.check(st, fr, in, "method call on nil interface", notNil(f))
		recv := f
		if recv.op == "iface" {
			// known dynamic type
			if fn := e.P.prog.LookupMethod(recv.typ, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				c.args = append([]*Term{recv.args[0]}, args[1:]...)
				c.fn = fn
				c.sig = fn.Signature
				return e.callFn(c)
			}
		}
		it := cc.Value.Type()
		c.key = "iface:" + typStr(it) + "." + cc.Method.Name()
		return e.modelCall(c)
	}
	switch f.op {
	case "builtin":
		return e.builtin(c, cc, f.name)
	case "func":
		c.fn = f.fn
		return e.callFn(c)
	case "closure":
		c.fn = f.fn
		return e.inline(c, f.args)
	}
	e.check(st, fr, in, "call of nil function", notNil(f))
	c.key = "dyn"
	c.args = append([]*Term{f}, args...)
	return e.modelCall(c)
}

func (e *Eng) callFn(c *Call) []callOut {
	c.key = fnKey(c.fn)
	if m, ok := e.contract[c.key]; ok {
		return m(c)
	}
	inMod := e.P.inModule(funcPkg(c.fn))
	if inMod && len(c.fn.Blocks) > 0 {
		if e.opaque != nil && e.opaque(c.key, c.fn) {
			return e.opaqueCall(c)
		}
		return e.inline(c, nil)
	}
	if len(c.fn.Blocks) > 0 {
		if c.fn.Origin() != nil {
			if inlinedFuncs[c.key] {
				return e.inline(c, nil)
			}
		} else if c.fn.Synthetic != "" {
			return e.inline(c, nil)
		}
	}
	return e.modelCall(c)
}

func (e *Eng) inline(c *Call, binds []*Term) []callOut {
	n := 0
	for _, g := range c.fr.stack {
		if g == c.fn {
			n++
		}
	}
	if n > 0 {
		// recursion: nothing is known about its result; memory may have changed
		c.key = "recursive:" + fnKey(c.fn)
		c.st.havocAll(c.stamp)
		return e.opaqueCall(c)
	}
	if len(c.fr.stack) > e.maxDepth {
		fail("budget", "call depth of %s exceeds %d", c.fr.stack[0], e.maxDepth)
	}
	since := c.st.ev
	var before map[*Term]bool
	if e.merge != nil && !exactOnly {
		before = map[*Term]bool{}
		for a := range c.st.cells {
			before[a.root()] = true
		}
	}
	outs := e.run(c.fn, c.st, c.args, binds, c.stamp, c.fr.stack, append(append([]token.Pos{}, c.fr.calls...), c.instr.Pos()))
	var res []callOut
	for _, o := range outs {
		switch o.kind {
		case "ret":
			res = append(res, callOut{st: o.st, res: o.rets})
		default:
			res = append(res, callOut{st: o.st, res: o.rets, kind: o.kind, pos: o.pos})
		}
	}
	return e.mergeOutcomes(c, res, since, before)
}

// results makes opaque result values for a call.
func (c *Call) results() []*Term {
	var rs []*Term
	r := c.sig.Results()
	for i := 0; i < r.Len(); i++ {
		t := mk("res", c.key+"@"+c.stamp+fmt.Sprintf(":%d", i), r.At(i).Type())
		rs = append(rs, c.e.explodeOpaque(t, r.At(i).Type()))
	}
	return rs
}

// pureResults makes results that depend only on the arguments.
func (c *Call) pureResults(name string, args ...*Term) []*Term {
	var rs []*Term
	r := c.sig.Results()
	if r.Len() == 1 {
		return []*Term{c.e.explodeOpaque(mk("app", name, r.At(0).Type(), args...), r.At(0).Type())}
	}
	for i := 0; i < r.Len(); i++ {
		rs = append(rs, mk("app", fmt.Sprintf("%s:%d", name, i), r.At(i).Type(), args...))
	}
	return rs
}

func (c *Call) one(rs ...*Term) []callOut { return []callOut{{st: c.st, res: rs}} }

// opaqueCall records a call as an event with unknown results.
func (e *Eng) opaqueCall(c *Call) []callOut {
	rs := c.results()
	for _, a := range c.args {
		c.st.escape(a)
	}
	c.st.event("call", c.key, c.instr.Pos(), c.args, rs)
	return c.one(rs...)
}

// ---- package-level variables ----

// globalValue is the value of a package-level variable that only its
// initialiser assigns.
func (e *Eng) globalValue(addr *Term, typ types.Type) *Term {
	e.initGlobals()
	return e.globals[addr]
}

func (e *Eng) globalArray(g *Term, at *types.Array) []*Term {
	e.initGlobals()
	var out []*Term
	for i := int64(0); i < at.Len(); i++ {
		v := e.globals[mkIaddr(g, mkInt(i), at.Elem())]
		if v == nil {
			return nil
		}
		out = append(out, v)
	}
	return out
}

func (e *Eng) initGlobals() {
	if e.ginit {
		return
	}
	e.ginit = true
	e.globals = map[*Term]*Term{}
	e.gmaps = map[*Term]*Term{}
	// globals that are assigned, or whose elements are assigned, outside init
	assigned := map[*ssa.Global]bool{}
	var base func(v ssa.Value) *ssa.Global
	base = func(v ssa.Value) *ssa.Global {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return base(x.X)
		case *ssa.IndexAddr:
			return base(x.X)
		}
		return nil
	}
	for _, f := range e.P.moduleFuncs() {
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && !isInit {
					if g := base(s.Addr); g != nil {
						assigned[g] = true
					}
				}
				// the address escapes
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && !isInit {
						switch y := in.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Store:
						default:
							_ = y
							assigned[g] = true
						}
					}
				}
			}
		}
	}
	var paths []string
	for p := range e.P.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		for _, f := range []*ssa.Function{e.P.pkgs[p].Func("init")} {
			if f == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g := base(s.Addr)
					if g == nil || assigned[g] {
						continue
					}
					if _, whole := s.Addr.(*ssa.Global); whole && e.onlyRead(g) {
						e.globalContainer(g, s.Val)
					}
					a := e.constAddr(s.Addr)
					c, isConst := s.Val.(*ssa.Const)
					if a != nil && isConst {
						e.globals[a] = e.val(nil, c)
					}
					// a composite built in a temporary
					if ld, ok := s.Val.(*ssa.UnOp); a != nil && ok && ld.Op == token.MUL {
						if tmp, ok := ld.X.(*ssa.Alloc); ok {
							e.globalFrom(a, tmp)
						}
					}
				}
			}
		}
	}
}

// onlyRead decides that the map or slice in a package-level variable is only
// looked up, listed and measured, so that it always holds what it was
// initialised with.
func (e *Eng) onlyRead(g *ssa.Global) bool {
	t := under(derefType(g.Type()))
	_, isMap := t.(*types.Map)
	_, isSlice := t.(*types.Slice)
	if !isMap && !isSlice {
		return false
	}
	uses := func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
			case *ssa.IndexAddr:
				if r.Referrers() == nil {
					return false
				}
				for _, x := range *r.Referrers() {
					if _, dbg := x.(*ssa.DebugRef); dbg {
						continue
					}
					if ld, ok := x.(*ssa.UnOp); !ok || ld.Op != token.MUL {
						return false
					}
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				f := r.Call.StaticCallee()
				if f == nil || !strings.Contains(fnKey(f), "slices.Contains") && !strings.Contains(fnKey(f), "slices.Index") && fnKey(f) != "strings.Join" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, f := range e.P.moduleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
						if !uses(x) {
							return false
						}
					case *ssa.Store:
						if f.Synthetic != "package initializer" {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// globalContainer gives a package-level map or slice the constants and
// functions it is initialised with.
func (e *Eng) globalContainer(g *ssa.Global, v ssa.Value) {
	elem := func(x ssa.Value) *Term {
		for {
			switch y := x.(type) {
			case *ssa.ChangeType:
				x = y.X
				continue
			case *ssa.Const, *ssa.Function:
				return e.val(nil, y)
			case *ssa.MakeClosure:
				if len(y.Bindings) == 0 {
					return e.val(nil, y.Fn)
				}
			}
			return nil
		}
	}
	switch v := v.(type) {
	case *ssa.MakeMap:
		m := mk("makemap", "global:"+g.String(), v.Type())
		mv := mk("mempty", "", v.Type(), m)
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.Store:
			case *ssa.MapUpdate:
				k, x := elem(r.Key), elem(r.Value)
				if k == nil || x == nil {
					return
				}
				mv = mk("mupd", "", v.Type(), mv, k, x)
			default:
				return
			}
		}
		e.gmaps[m] = mv
		e.globals[e.val(nil, g)] = m
	case *ssa.Slice:
		tmp, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil || v.Max != nil {
			return
		}
		at, ok := under(derefType(tmp.Type())).(*types.Array)
		if !ok {
			return
		}
		vals := make([]*Term, at.Len())
		for i := range vals {
			vals[i] = mkZero(at.Elem())
		}
		for _, r := range *tmp.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.Slice:
			case *ssa.IndexAddr:
				i, ok := r.Index.(*ssa.Const)
				if !ok || r.Referrers() == nil || len(*r.Referrers()) != 1 {
					return
				}
				st, ok := (*r.Referrers())[0].(*ssa.Store)
				if !ok || elem(st.Val) == nil {
					return
				}
				vals[i.Int64()] = elem(st.Val)
			default:
				return
			}
		}
		e.globals[e.val(nil, g)] = mk("slicelit", "global:"+g.String(), v.Type(), vals...)
	}
}

// globalFrom gives a global array the constants stored in the temporary it is
// copied from.
func (e *Eng) globalFrom(g *Term, tmp *ssa.Alloc) {
	at, ok := under(derefType(tmp.Type())).(*types.Array)
	if !ok || tmp.Referrers() == nil {
		return
	}
	vals := map[*Term]*Term{}
	for _, r := range *tmp.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.IndexAddr:
			i, ok := r.Index.(*ssa.Const)
			if !ok || r.Referrers() == nil || len(*r.Referrers()) != 1 {
				return
			}
			st, ok := (*r.Referrers())[0].(*ssa.Store)
			if !ok {
				return
			}
			v, ok := st.Val.(*ssa.Const)
			if !ok {
				return
			}
			vals[mkIaddr(g, e.val(nil, i), at.Elem())] = e.val(nil, v)
		default:
			return
		}
	}
	for a, v := range vals {
		e.globals[a] = v
	}
}

func (e *Eng) constAddr(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Global:
		return e.val(nil, x)
	case *ssa.FieldAddr:
		if b := e.constAddr(x.X); b != nil {
			return mkFaddr(b, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
		}
	case *ssa.IndexAddr:
		c, ok := x.Index.(*ssa.Const)
		if b := e.constAddr(x.X); b != nil && ok {
			return mkIaddr(b, e.val(nil, c), elemType(x.X.Type()))
		}
	}
	return nil
}
