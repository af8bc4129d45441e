package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libraryOps analyses every exported operation of the library.
func (c *Ctx) libraryOps(hook func(op *Op, st *State, ev *Event)) []*Op {
	var ops []*Op
	ops = append(ops, c.operations("metadata", hook)...)
	ops = append(ops, c.operations(pkgTS, hook, kVerify, kVLHMeta, kVLHTarget)...)
	ops = append(ops, c.operations("metadata/config", hook)...)
	ops = append(ops, c.operations("metadata/repository", hook)...)
	ops = append(ops, c.operations(pkgFetch, hook)...)
	for _, n := range append(c.exportedMethods(pkgUp, "Updater"), "New") {
		op := &Op{pkg: pkgUp, recv: "Updater", name: n, method: true}
		if n == "New" {
			op.recv, op.method = "", false
		}
		up := c.updaterWith(n, nil, func(up *Up, st *State, ev *Event) { op.args, op.cfg = up.args, up.cfg; hook(op, st, ev) }, func(e *Eng, up *Up) {
			e.merge = up.digest
			old := e.opaque
			e.opaque = func(k string, f *ssa.Function) bool { return k == kRolesFor || old(k, f) }
		})
		op.an, op.args = up.An, up.args
		ops = append(ops, op)
	}
	for _, n := range append(c.exportedMethods(pkgMulti, "MultiRepoClient"), "New", "NewConfig", "EnsurePathsExist") {
		op := &Op{pkg: pkgMulti, recv: "MultiRepoClient", name: n, method: true}
		switch n {
		case "New", "NewConfig":
			op.recv, op.method = "", false
		case "EnsurePathsExist":
			op.recv = "MultiRepoConfig"
		}
		m := c.multi(n, func(m *Multi, st *State, ev *Event) { op.args, op.cfg = m.args, m.cfg; hook(op, st, ev) })
		op.an, op.args = m.An, m.args
		ops = append(ops, op)
	}
	return ops
}

// written lists the memory an event writes to.
func written(ev *Event) []*Term {
	switch ev.kind {
	case "store", "mapset", "mapdel", "overwrite":
		return ev.args[:1]
	case "call":
		switch {
		case ev.name == "builtin.copy" || ev.name == "encoding/hex.Decode" || ev.name == "encoding/hex.Encode":
			return ev.args[:1]
		case ev.name == "encoding/json.Unmarshal":
			return ev.args[1:]
		case writesElements(ev.name) && ev.pos.IsValid():
			var out []*Term
			for _, x := range ev.args {
				if y := unwrap(x); y.typ != nil && (isSliceT(y) || ev.name == "sort.Sort" || ev.name == "sort.Stable") {
					out = append(out, y)
				}
			}
			return out
		}
	}
	return nil
}

// chain lists the objects the memory t lies in was reached through.
func (e *Eng) chain(t *Term) []*Term {
	out := []*Term{t}
	for i := 0; i < 100; i++ {
		switch t.op {
		case "faddr", "iaddr", "slice", "mcell", "load", "lookup", "field", "iface", "append", "view", "reversed", "mupd", "mdel", "mopq", "mcopy", "mempty", "commaok", "trimmed":
			if len(t.args) == 0 {
				return out
			}
			t = t.args[0]
		default:
			a := e.accs[t]
			if a == nil || a.v.init == nil {
				return out
			}
			t = a.v.init
		}
		out = append(out, t)
	}
	return out
}

// mayWrite says what an operation is there to change: its receiver.
var mayWrite = map[string]bool{
	"FromFile": true, "FromBytes": true, "Sign": true, "ClearSignatures": true, "UnmarshalJSON": true, "AddKey": true, "RevokeKey": true,
	"UpdateRoot": true, "UpdateTimestamp": true, "UpdateSnapshot": true, "UpdateTargets": true, "UpdateDelegatedTargets": true,
	"SetRoot": true, "SetSnapshot": true, "SetTimestamp": true, "SetTargets": true,
}

func ruleC47(c *Ctx) {
	c.rule("unchanged", "an operation that only reads writes to no object, list, map or bytes it is given or that can be reached from them")
	c.rule("arguments", "an operation that changes its receiver writes to nothing else it is given")
	c.rule("config", "no operation of a client changes its configuration")
	seen := map[string]bool{}
	kt := c.P.namedType("metadata", "Key")
	c.libraryOps(func(op *Op, st *State, ev *Event) {
		id := op.pkg + "." + op.String() + op.targ
		if !seen[id] {
			seen[id] = true
		}
		for _, w := range written(ev) {
			e := op.an0(c)
			ch := e.chain(w)
			o := ch[len(ch)-1]
			if isFreshOp(o) || o.op == "nil" || o.op == "res" || o.op == "global" || strings.HasPrefix(o.op, "doc") {
				continue
			}
			if f := ch[0]; ev.kind == "store" && f.op == "faddr" && types.Identical(f.args[0].typ, types.NewPointer(kt)) && !token.IsExported(f.fieldName()) {
				continue // a key remembers its own identifier, see C09
			}
			in := func(x *Term) bool {
				for _, y := range ch {
					if y == x {
						return true
					}
				}
				return false
			}
			if op.cfg != nil && in(op.cfg) {
				c.check("config", false, ev.pos, st, "%s changes the configuration it was given (%s)", op, cut(w.String(), 60))
				continue
			}
			writer := op.method && mayWrite[op.name] || op.pkg == pkgUp && (op.name == "Refresh" || op.name == "GetTargetInfo")
			if writer {
				c.check("arguments", in(op.args[0]), ev.pos, st, "%s changes something else than what it is called on (%s)", op, cut(w.String(), 60))
				continue
			}
			c.check("unchanged", false, ev.pos, st, "%s changes what it was given (%s)", op, cut(w.String(), 60))
		}
	})
	for _, id := range sortedKeys(seen) {
		_ = id
		c.check("unchanged", true, token.NoPos, nil, "")
	}
	c.need("unchanged", 40)
}

func ruleC46(c *Ctx) {
	c.rule("targets", "GetTopLevelTargets returns the targets of the trusted top-level targets metadata, or none before it is loaded")
	c.rule("set", "GetTrustedMetadataSet returns every part of the trusted set as it is")
	up := c.updater("GetTopLevelTargets", nil, nil)
	for _, o := range up.outs {
		if o.kind != "ret" {
			continue
		}
		p := posOf(up.An, o)
		all := get(up.entry, up.t, "Targets")
		md, ok := up.e.mapElem(o.st, all, mkStr("targets"))
		r := o.rets[0]
		if o.st.holds(ok) {
			o.st.assume(nonNil(md), true)
			c.check("targets", r == get(o.st, md, "Signed.Targets"), p, o.st, "GetTopLevelTargets returns something else than the trusted targets: %s", cut(r.String(), 60))
		} else {
			c.check("targets", (o.st.fails(ok) || o.st.holds(isNilT(md))) && (r.isNil() || emptyMap(o.st, r)), p, o.st, "GetTopLevelTargets may return %s though no targets are trusted", cut(r.String(), 60))
		}
	}
	up = c.updater("GetTrustedMetadataSet", nil, nil)
	for _, o := range up.outs {
		if o.kind != "ret" {
			continue
		}
		for _, f := range []string{"Root", "Timestamp", "Snapshot", "Targets", "RefTime"} {
			want, got := get(up.entry, up.t, f), structFieldNamed(o.rets[0], f)
			c.check("set", got == want, posOf(up.An, o), o.st, "GetTrustedMetadataSet returns another %s than the trusted one: %s", f, cut(got.String(), 60))
		}
	}
	c.need("targets", 2)
	c.need("set", 5)
}

func emptyMap(st *State, m *Term) bool {
	if m.typ == nil {
		return false
	}
	if _, ok := under(m.typ).(*types.Map); !ok {
		return false
	}
	return emptyColl(st.mapVal(m)) || st.mapVal(m).op == "mempty" || st.holds(eqT(mkLen(m), mkInt(0)))
}

// forbiddenCall says what a library has no business to do to its process.
func forbiddenCall(key string) string {
	for p, why := range map[string]string{
		"os.Exit": "ends the process", "runtime.Goexit": "ends the caller's goroutine", "os/signal.": "changes the signal handling of the process",
		"log.": "writes to the standard logger", "fmt.Print": "writes to the standard output", "builtin.print": "writes to the standard error output",
		"os.Setenv": "changes the environment", "os.Unsetenv": "changes the environment", "os.Clearenv": "changes the environment", "os.Chdir": "changes the working directory",
		"os.Getenv": "depends on the environment", "os.LookupEnv": "depends on the environment", "os.Environ": "depends on the environment", "os.ExpandEnv": "depends on the environment",
		"os.Getwd": "depends on the working directory", "os/exec.": "starts a process", "os.StartProcess": "starts a process", "syscall.": "calls the system directly",
		"flag.": "depends on the command line", "runtime/debug.Set": "changes the runtime", "runtime.GOMAXPROCS": "changes the runtime", "net.Listen": "listens on the network",
		"net/http.Listen": "listens on the network", "net/http.Handle": "changes the default server", "time.AfterFunc": "leaves work behind", "time.NewTicker": "leaves work behind",
		"time.Tick": "leaves work behind", "math/rand.Seed": "changes the shared random source", "plugin.": "loads code",
	} {
		if strings.HasPrefix(key, p) {
			return why
		}
	}
	return ""
}

const pkgFetch = "metadata/fetcher"

var libraryPkgs = []string{"metadata", pkgTS, "metadata/config", pkgFetch, pkgUp, pkgMulti, "metadata/repository"}

// globalBase is the package-level variable an address or value was reached
// from inside one function.
func globalBase(v ssa.Value, depth int) *ssa.Global {
	if depth > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalBase(x.X, depth+1)
	case *ssa.IndexAddr:
		return globalBase(x.X, depth+1)
	case *ssa.UnOp:
		return globalBase(x.X, depth+1)
	case *ssa.Slice:
		return globalBase(x.X, depth+1)
	case *ssa.Lookup:
		return globalBase(x.X, depth+1)
	case *ssa.TypeAssert:
		return globalBase(x.X, depth+1)
	case *ssa.ChangeType:
		return globalBase(x.X, depth+1)
	case *ssa.MakeInterface:
		return globalBase(x.X, depth+1)
	case *ssa.Extract:
		return globalBase(x.Tuple, depth+1)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if y != v {
				if g := globalBase(y, depth+1); g != nil {
					return g
				}
			}
		}
	}
	return nil
}

func ruleC48(c *Ctx) {
	c.rule("globals", "no function of the library assigns, or changes what is reached from, a variable that is not part of an object it was given, except that SetLogger sets the logger")
	c.rule("process", "no function of the library ends, configures or starts processes, depends on the environment, prints, or leaves anything running")
	c.rule("logger", "GetLogger returns the logger that was last set")
	c.libraryOps(func(op *Op, st *State, ev *Event) {
		for _, w := range written(ev) {
			o := op.an0(c).owner(w)
			c.check("globals", o.op != "global" || op.name == "SetLogger" && op.pkg == "metadata", ev.pos, st, "%s changes a variable shared by the whole process: %s", op, cut(w.String(), 60))
		}
	})
	for _, fn := range c.P.libraryFuncs() {
		init := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Parent() != nil && strings.HasPrefix(fn.Parent().Name(), "init")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					c.check("process", false, in.Pos(), nil, "%s leaves a goroutine running", fn)
				case *ssa.Store:
					if g := globalBase(x.Addr, 0); g != nil && !init {
						c.check("globals", typStr(g.Type()) == "*metadata.Logger" && c.onlyFrom(fn, "SetLogger"), in.Pos(), nil, "%s changes the variable %s, which is shared by the whole process", fn, g.Name())
					}
				case *ssa.MapUpdate:
					if g := globalBase(x.Map, 0); g != nil && !init {
						c.check("globals", false, in.Pos(), nil, "%s changes the map %s, which is shared by the whole process", fn, g.Name())
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				key := ""
				if f := cc.StaticCallee(); f != nil {
					if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Origin() != nil && f.Origin().Pkg != nil && strings.HasPrefix(f.Origin().Pkg.Pkg.Path(), modPath) {
						continue
					}
					key = fnKey(f)
				} else if b, ok := cc.Value.(*ssa.Builtin); ok {
					key = "builtin." + b.Name()
				}
				why := forbiddenCall(key)
				c.check("process", why == "", in.Pos(), nil, "%s calls %s, which %s", fn, key, why)
				if key == "" || cc.IsInvoke() {
					continue
				}
				for i, a := range cc.Args {
					g := globalBase(a, 0)
					if g == nil {
						continue
					}
					if std := g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath); std && (g.Name() == "Stdout" || g.Name() == "Stderr" || g.Name() == "Stdin") {
						c.check("process", false, in.Pos(), nil, "%s uses %s", fn, g)
					}
					switch {
					case key == "builtin.delete" || key == "builtin.clear" || key == "builtin.copy" && i == 0:
						c.check("globals", init, in.Pos(), nil, "%s changes %s, which is shared by the whole process", fn, g.Name())
					case strings.HasPrefix(key, "sync.") || strings.HasPrefix(key, "sync/atomic.") || writesElements(key) || strings.HasPrefix(key, "container/"):
						c.check("globals", init, in.Pos(), nil, "%s may change %s, which is shared by the whole process, with %s", fn, g.Name(), key)
					}
				}
			}
		}
	}
	e := c.eng()
	an := c.analyse(e, c.P.fn("metadata", "SetLogger"), nil)
	get := c.P.fn("metadata", "GetLogger")
	for _, o := range an.outs {
		if o.kind != "ret" {
			continue
		}
		for _, q := range e.run(get, o.st.clone(), nil, nil, "after", nil, nil) {
			c.check("logger", q.kind == "ret" && len(q.rets) == 1 && q.rets[0] == an.arg(0), get.Pos(), q.st, "GetLogger returns something else than the logger that was set")
		}
	}
	c.need("globals", 1)
	c.need("process", 100)
	c.need("logger", 1)
}

func init() {
	registry["C46"] = rule{ruleC46, "Every path of the two accessors of a client: where what they return was loaded from."}
	registry["C47"] = rule{ruleC47, "Effect analysis: every write on every path of every exported operation, traced back to the object its memory was reached from."}
	registry["C48"] = rule{ruleC48, "Effect analysis over every function of the library: writes to package-level variables, calls that reach outside the operation's arguments, goroutines."}
}

// libraryFuncs lists the functions of the library, without its examples.
func (P *Program) libraryFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.moduleFuncs() {
		p := f.Pkg
		if p == nil && f.Origin() != nil {
			p = f.Origin().Pkg
		}
		for g := f; p == nil && g.Parent() != nil; g = g.Parent() {
			p = g.Parent().Pkg
			if p == nil && g.Parent().Origin() != nil {
				p = g.Parent().Origin().Pkg
			}
		}
		if p == nil {
			continue
		}
		for _, l := range libraryPkgs {
			if p.Pkg.Path() == modPath+"/"+l {
				out = append(out, f)
			}
		}
	}
	return out
}

// onlyFrom says that a function is the exported one of that name, or called
// by nothing else.
func (c *Ctx) onlyFrom(f *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var ok func(f *ssa.Function) bool
	ok = func(f *ssa.Function) bool {
		if seen[f] || f.Name() == name && f.Signature.Recv() == nil {
			return true
		}
		seen[f] = true
		cs := c.P.callersOf(f)
		if token.IsExported(f.Name()) || len(cs) == 0 {
			return false
		}
		for _, g := range cs {
			if !ok(g) {
				return false
			}
		}
		return true
	}
	return ok(f)
}
