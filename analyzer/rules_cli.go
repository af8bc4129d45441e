package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkgCLI = "examples/cli/tuf-client/cmd"

// destroys lists the outside functions that remove or replace what is on disk.
var destroys = map[string]bool{"os.Remove": true, "os.RemoveAll": true, "os.Rename": true, "os.Truncate": true, "os.Create": true, "os.WriteFile": true, "os.OpenFile": true, "io/ioutil.WriteFile": true}

// cliCalls finds the calls of the given outside functions in the commands.
func (c *Ctx) cliCalls(names func(string) bool, f func(in *ssa.Function, pos token.Pos, name string)) {
	for _, g := range c.P.moduleFuncs() {
		p := funcPkg(g)
		if p == nil || !strings.HasSuffix(p.Path(), "/"+pkgCLI) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if to := cl.Common().StaticCallee(); to != nil && names(fnKey(to)) {
						f(g, in.Pos(), fnKey(to))
					}
				}
			}
		}
	}
}

// inCwd decides that p is the named entry of the working directory.
func inCwd(st *State, p *Term, names ...string) bool {
	for _, ev := range callsOf(st, "os.Getwd") {
		if st.decide(isNilT(ev.res[1])) == 1 && p == mk("app", "join", types.Typ[types.String], append([]*Term{ev.res[0]}, strs(names)...)...) {
			return true
		}
	}
	return false
}

func strs(ss []string) []*Term {
	var ts []*Term
	for _, s := range ss {
		ts = append(ts, mkStr(s))
	}
	return ts
}

// inCwdFolders returns the folder of the working directory that p is.
func inCwdFolders(st *State, p *Term) string {
	for _, f := range []string{"tuf_metadata", "tuf_download"} {
		if inCwd(st, p, f) {
			return f
		}
	}
	return ""
}

// saysYes decides that what was read is known to be a yes.
func saysYes(st *State, read *Term) bool {
	for t, v := range st.bools {
		if !v {
			continue
		}
		if t.op == "eq" || t.op == "app" && t.name == "strings.EqualFold" {
			for i := 0; i < 2; i++ {
				if s, ok := t.args[i].strVal(); ok && mentions(t.args[1-i], read) {
					if s = strings.ToLower(s); s == "y" || s == "yes" {
						return true
					}
				}
			}
		}
	}
	return false
}

// consent decides that the answer given by an event is a yes.
func consent(st *State, ev *Event) (answer, yes bool) {
	switch {
	case strings.HasPrefix(ev.name, "recursive:") && len(ev.res) == 1 && isBool(ev.res[0].typ):
		return true, st.holds(ev.res[0])
	case strings.HasPrefix(ev.name, "fmt.Scan"), strings.HasPrefix(ev.name, "fmt.Fscan"):
		if st.decide(isNilT(ev.res[1])) != 1 {
			return true, false
		}
		for _, x := range ev.args {
			if n, ok := mkLen(x).intVal(); ok {
				for i := int64(0); i < n; i++ {
					p := unwrap(st.load(mkIaddr(x, mkInt(i), elemType(x.typ)), elemType(x.typ)))
					if pt, ok := under(p.typ).(*types.Pointer); ok && saysYes(st, st.load(p, pt.Elem())) {
						return true, true
					}
				}
			}
		}
		return true, false
	}
	return false, false
}

func ruleC81(c *Ctx) {
	c.rule("folders", "nothing is deleted but tuf_metadata and tuf_download in the working directory")
	c.rule("consent", "a folder is deleted only if deletion is forced or the question for that very folder was answered with yes")
	c.rule("asked", "the function that asks reports a yes only for an answer that is one")
	c.rule("only", "only the reset command deletes anything")
	seen := map[token.Pos]bool{}
	e := c.eng()
	c.analyse2(e, c.P.fn(pkgCLI, "ResetCmd"), nil, func(st *State, ev *Event) {
		if ev.kind != "call" || !destroys[ev.name] {
			return
		}
		seen[ev.pos] = true
		dir := inCwdFolders(st, ev.args[0])
		if !c.check("folders", dir != "" && (ev.name == "os.RemoveAll" || ev.name == "os.Remove"), ev.pos, st, "resetting may delete or change %s", cut(ev.args[0].String(), 80)) {
			return
		}
		forced := false
		for t, v := range st.bools {
			forced = forced || v && isBool(t.typ) && t.op != "eq" && t.op != "app" && strings.Contains(t.String(), "cmd.ForceDelete")
		}
		yes := false
		var q *Term
		for _, x := range st.events() {
			if x.kind != "call" {
				continue
			}
			if strings.HasPrefix(x.name, "print:") {
				for _, a := range x.args {
					if inCwdFolders(st, unwrap(a)) != "" {
						q, yes = unwrap(a), false
					}
				}
			}
			if is, y := consent(st, x); is {
				yes = y && q != nil && inCwdFolders(st, q) == dir
			}
		}
		c.check("consent", forced || yes, ev.pos, st, "%s may be deleted without consent", dir)
	})
	c.cliCalls(func(n string) bool {
		return n == "os.Remove" || n == "os.RemoveAll" || n == "os.Rename" || n == "os.Truncate"
	}, func(g *ssa.Function, pos token.Pos, name string) {
		c.check("only", seen[pos], pos, nil, "%s calls %s outside the reset command", g, name)
	})
	// a function that asks again by calling itself
	for _, g := range c.P.moduleFuncs() {
		p := funcPkg(g)
		if p == nil || !strings.HasSuffix(p.Path(), "/"+pkgCLI) || g.Parent() != nil || g.Synthetic != "" {
			continue
		}
		rs := g.Signature.Results()
		if rs.Len() != 1 || !isBool(rs.At(0).Type()) {
			continue
		}
		e := c.eng()
		an := c.analyse(e, g, nil)
		for _, r := range an.bools() {
			if r.st.decide(r.rets[0]) == -1 {
				continue
			}
			last := false
			for _, x := range r.st.events() {
				if x.kind == "call" {
					if is, y := consent(r.st, x); is {
						// what the repeated question returned is returned itself
						last = y || strings.HasPrefix(x.name, "recursive:") && x.res[0] == r.rets[0]
					}
				}
			}
			c.check("asked", last, posOf(an, r.Outcome), r.st, "%s may report a yes that was not given", g)
		}
	}
	c.need("folders", 2)
	c.need("consent", 2)
}

func ruleC80(c *Ctx) {
	c.rule("root", "the updater is built on the bytes read from root.json in the metadata folder of the working directory")
	c.rule("success", "success means that the refresh, the lookup of the named target, and finding or downloading that very target succeeded, on one updater")
	c.rule("passed on", "the command returns the error, and the program exits with a failure")
	e := c.eng()
	c.clientContracts(e)
	fn := c.P.fn(pkgCLI, "GetCmd")
	hook := func(st *State, ev *Event) {
		if ev.kind != "call" || ev.name != kUpNew {
			return
		}
		root := get(st, ev.args[0], "LocalTrustedRoot")
		ok := false
		for _, x := range callsOf(st, "os.ReadFile", "io.ReadAll") {
			if x.res[0] == root && st.decide(isNilT(x.res[1])) == 1 {
				ok = ok || x.name == "os.ReadFile" && inCwd(st, x.args[0], "tuf_metadata", "root.json")
				for _, o := range callsOf(st, "os.Open") {
					ok = ok || x.name == "io.ReadAll" && unwrap(x.args[0]) == o.res[0] && inCwd(st, o.args[0], "tuf_metadata", "root.json")
				}
			}
		}
		c.check("root", ok, ev.pos, st, "the updater may be built on another root: %s", cut(root.String(), 80))
		c.check("root", inCwd(st, get(st, ev.args[0], "LocalMetadataDir"), "tuf_metadata"), ev.pos, st, "the updater may use another metadata folder")
	}
	an := c.analyse2(e, fn, nil, hook)
	for _, o := range an.outs {
		if o.kind != "ret" {
			continue
		}
		st, pos := o.st, posOf(an, o)
		if st.decide(isNilT(o.rets[0])) == -1 {
			continue
		}
		var up, info *Term
		refreshed, have := false, false
		for _, ev := range st.events() {
			if ev.kind != "call" || okAt(st, ev) != 1 {
				continue
			}
			switch {
			case ev.name == kUpNew:
				up, refreshed, info, have = ev.res[0], false, nil, false
			case up == nil || len(ev.args) == 0 || ev.args[0] != up:
			case ev.name == kRefresh:
				refreshed = true
			case ev.name == kUpGTI && refreshed && ev.args[1] == an.arg(0):
				info = ev.res[0]
			case ev.name == kUpFCT && info != nil && ev.args[1] == info:
				have = have || st.fails(eqT(ev.res[0], mkStr("")))
			case ev.name == kUpDT && info != nil && ev.args[1] == info:
				have = true
			}
		}
		c.check("success", have, pos, st, "GetCmd may succeed without a verified target")
	}
	// who calls the command returns what it returned
	key := fnKey(fn)
	callers := map[*ssa.Function]bool{}
	c.cliCalls(func(n string) bool { return n == key }, func(g *ssa.Function, pos token.Pos, _ string) { callers[g] = true })
	for g := range callers {
		e := c.eng()
		e.contract[key] = e.opaqueCall
		an := c.analyse(e, g, nil)
		for _, o := range an.outs {
			if o.kind != "ret" {
				continue
			}
			for _, ev := range callsOf(o.st, key) {
				n := len(o.rets)
				c.check("passed on", n > 0 && (o.rets[n-1] == ev.res[0] || okAt(o.st, ev) == 1 || o.st.decide(isNilT(o.rets[n-1])) == -1), posOf(an, o), o.st, "%s may not return the error of the get command", g)
			}
		}
	}
	e = c.eng()
	an = c.analyse(e, c.P.fn(pkgCLI, "Execute"), nil)
	for _, o := range an.outs {
		if o.kind != "ret" {
			continue
		}
		walk(o.st, o.st.events(), func(st *State, ev *Event, _ []*LoopSum) {
			if ev.kind == "call" && strings.Contains(ev.name, "cobra.Command.Execute") {
				c.check("passed on", okAt(st, ev) == 1, ev.pos, st, "the program may exit normally although the command failed")
			}
		})
	}
	c.need("root", 2)
	c.need("success", 2)
	c.need("passed on", 2)
}

func ruleC82(c *Ctx) {
	c.rule("verified-file", "a root given as a file is saved only after those bytes were verified")
	c.rule("verified-download", "a downloaded root is saved only after those bytes were verified")
	c.rule("status", "a downloaded root is saved only if the repository answered with status 200")
	c.rule("name-of-file", "a root given as a file is saved as root.json in the metadata folder")
	c.rule("name-of-download", "a downloaded root is saved as root.json in the metadata folder")
	c.rule("file-under-its-own-path", "a root given as a file is not saved under the path it was given with")
	c.rule("success", "success means that a root was verified and one was saved")
	e := c.eng()
	c.clientContracts(e, kTSNew)
	an := c.analyse2(e, c.P.fn(pkgCLI, "InitializeCmd"), nil, func(st *State, ev *Event) {
		if ev.kind != "call" || ev.name != "os.WriteFile" && ev.name != "io/ioutil.WriteFile" {
			return
		}
		data := ev.args[1]
		var resp *Term
		for _, x := range st.events() {
			if x.kind == "call" && x.name == "io.ReadAll" && x.res[0] == data {
				for _, y := range st.events() {
					if y.kind == "call" && strings.Contains(y.name, "net/http.") && len(y.res) == 2 && x.args[0] == get(st, y.res[0], "Body") {
						resp = y.res[0]
					}
				}
			}
		}
		what := "file"
		if resp != nil {
			what = "download"
		}
		ok := false
		for _, x := range callsOf(st, kTSNew) {
			ok = ok || okAt(st, x) == 1 && x.args[0] == data
		}
		c.check("verified-"+what, ok, ev.pos, st, "a root (%s) may be saved without having been verified", what)
		kind := "name-of-" + what
		if what == "file" && ev.args[0].op == "app" && ev.args[0].name == "join" && inCwd(st, mk("app", "join", types.Typ[types.String], ev.args[0].args[:len(ev.args[0].args)-1]...), "tuf_metadata") && strings.HasSuffix(ev.args[0].args[len(ev.args[0].args)-1].String(), "cmd.rootPath") {
			kind = "file-under-its-own-path"
		}
		c.check(kind, inCwd(st, ev.args[0], "tuf_metadata", "root.json"), ev.pos, st, "a root (%s) may be saved as %s", what, cut(ev.args[0].String(), 80))
		if resp != nil {
			c.check("status", st.holds(eqT(get(st, resp, "StatusCode"), mkInt(200))), ev.pos, st, "a root may be saved that came with another status")
		}
	})
	for _, o := range an.outs {
		if o.kind != "ret" || o.st.decide(isNilT(o.rets[0])) == -1 {
			continue
		}
		st := o.st
		verified, saved := false, false
		for _, ev := range st.events() {
			if ev.kind == "call" && okAt(st, ev) == 1 {
				verified = verified || ev.name == kTSNew
				saved = saved || ev.name == "os.WriteFile"
			}
		}
		c.check("success", verified && saved, posOf(an, o), st, "InitializeCmd may succeed without having verified and saved a root")
	}
	c.need("verified-file", 1)
	c.need("verified-download", 1)
	c.need("success", 2)
}

func init() {
	registry["C80"] = rule{ruleC80, "Path-sensitive abstract interpretation of the get command with the updater's methods as contracts: what every successful path called, on which values; and of the callers that pass the error on."}
	registry["C81"] = rule{ruleC81, "Path-sensitive abstract interpretation of the reset command: the argument of every deleting call and the last question and answer before it; a scan for deleting calls elsewhere in the commands."}
	registry["C82"] = rule{ruleC82, "Path-sensitive abstract interpretation of the init command: the bytes, destination and preceding verification of every write."}
}
