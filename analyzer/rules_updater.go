package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgUp       = "metadata/updater"
	kDownload   = "iface:fetcher.Fetcher.DownloadFile"
	kTSNew      = "metadata/trustedmetadata.New"
	kUpRoot     = tsType + ".UpdateRoot"
	kUpTime     = tsType + ".UpdateTimestamp"
	kUpSnap     = tsType + ".UpdateSnapshot"
	kUpTargets  = tsType + ".UpdateTargets"
	kUpDeleg    = tsType + ".UpdateDelegatedTargets"
	kRefresh    = "metadata/updater.Updater.Refresh"
	kRolesFor   = "metadata.Delegations.GetRolesForTarget"
	errHTTP     = "metadata.ErrDownloadHTTP"
	errEqualVer = "metadata.ErrEqualVersionNumber"
)

// Up is an analysed entry point of the updater.
type Up struct {
	*An
	u, t, cfg *Term // the updater, its trusted set and its configuration
	seen      []*State
}

// fieldOfType loads the field of the struct p points to whose type is ptr to
// the named type.
func fieldOfType(st *State, p *Term, want types.Type) *Term {
	s := under(under(p.typ).(*types.Pointer).Elem()).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), want) {
			return get(st, p, s.Field(i).Name())
		}
	}
	fail("anchor", "%s has no field of type %s", typStr(p.typ), typStr(want))
	return nil
}

func (c *Ctx) trustedPtr() types.Type {
	return types.NewPointer(c.P.namedType(pkgTS, "TrustedMetadata"))
}

func (c *Ctx) configPtr() types.Type {
	return types.NewPointer(c.P.namedType("metadata/config", "UpdaterConfig"))
}

// trustedContracts models the trusted set's methods as C20 to C26 establish
// them: success replaces the field concerned and requires the documented
// order; failure leaves the set alone, but a timestamp or snapshot may be
// kept for rollback checks even when its expiry or version makes the update
// fail.
func (c *Ctx) trustedContracts(e *Eng) {
	set := func(cl *Call, f string, res *Term) {
		s := cl.st
		s.store(faddrOf(cl.args[0], f), res, res.typ, cl.stamp)
	}
	mkRes := func(cl *Call, st *State, ok bool) []*Term {
		sig := cl.sig.Results()
		if ok {
			r := mk("res", cl.key+"@"+cl.stamp+":0", sig.At(0).Type())
			st.assume(nonNil(r), true)
			return []*Term{r, mkNil(sig.At(1).Type())}
		}
		err := mk("res", cl.key+"@"+cl.stamp+":err", sig.At(1).Type())
		st.assume(isNilT(err), false)
		return []*Term{mkNil(sig.At(0).Type()), err}
	}
	contract := func(f func(cl *Call) []callOut) func(cl *Call) []callOut {
		return f
	}
	pair := func(cl *Call, onOK func(st *State, res *Term) bool, onErr func(st *State)) []callOut {
		var outs []callOut
		okst := cl.st.clone()
		res := mkRes(cl, okst, true)
		if onOK(okst, res[0]) {
			okst.event("call", cl.key, cl.instr.Pos(), cl.args, res)
			outs = append(outs, callOut{st: okst, res: res})
		}
		bad := cl.st
		res = mkRes(cl, bad, false)
		if onErr != nil {
			onErr(bad)
		}
		bad.event("call", cl.key, cl.instr.Pos(), cl.args, res)
		return append(outs, callOut{st: bad, res: res})
	}
	e.contract[kUpRoot] = contract(func(cl *Call) []callOut {
		t := cl.args[0]
		return pair(cl, func(st *State, res *Term) bool {
			old := get(st, t, "Root")
			if !st.assume(isNilT(get(st, t, "Timestamp")), true) {
				return false
			}
			cl2 := *cl
			cl2.st = st
			set(&cl2, "Root", res)
			return st.assume(eqT(get(st, res, "Signed.Version"), plus(get(st, old, "Signed.Version"), 1)), true)
		}, nil)
	})
	e.contract[kUpTime] = contract(func(cl *Call) []callOut {
		t := cl.args[0]
		return pair(cl, func(st *State, res *Term) bool {
			if !st.assume(isNilT(get(st, t, "Snapshot")), true) {
				return false
			}
			cl2 := *cl
			cl2.st = st
			set(&cl2, "Timestamp", res)
			return true
		}, func(st *State) {
			cl2 := *cl
			cl2.st = st
			set(&cl2, "Timestamp", mk("res", cl.key+"@"+cl.stamp+":kept", get(st, t, "Timestamp").typ))
		})
	})
	e.contract[kUpSnap] = contract(func(cl *Call) []callOut {
		t := cl.args[0]
		return pair(cl, func(st *State, res *Term) bool {
			if !st.assume(nonNil(get(st, t, "Timestamp")), true) {
				return false
			}
			_, ok := mapGet(st, get(st, t, "Targets"), strTargets)
			if !st.assume(ok, false) {
				return false
			}
			cl2 := *cl
			cl2.st = st
			set(&cl2, "Snapshot", res)
			return true
		}, func(st *State) {
			cl2 := *cl
			cl2.st = st
			set(&cl2, "Snapshot", mk("res", cl.key+"@"+cl.stamp+":kept", get(st, t, "Snapshot").typ))
		})
	})
	targets := func(cl *Call, role *Term) []callOut {
		t := cl.args[0]
		return pair(cl, func(st *State, res *Term) bool {
			if !st.assume(nonNil(get(st, t, "Snapshot")), true) {
				return false
			}
			m := get(st, t, "Targets")
			st.setMap(m, mk("mupd", "", m.typ, st.mapVal(m), role, res), cl.stamp)
			return true
		}, nil)
	}
	e.contract[kUpTargets] = contract(func(cl *Call) []callOut { return targets(cl, strTargets) })
	e.contract[kUpDeleg] = contract(func(cl *Call) []callOut { return targets(cl, cl.args[2]) })
	e.contract[kRefresh] = contract(func(cl *Call) []callOut {
		// a refresh may replace everything in the set; success trusts top-level targets
		t := fieldOfType(cl.st, cl.args[0], c.trustedPtr())
		havoc := func(st *State, tag string) {
			for _, f := range []string{"Root", "Timestamp", "Snapshot"} {
				v := mk("res", cl.key+"@"+cl.stamp+":"+tag+f, get(st, t, f).typ)
				st.store(faddrOf(t, f), v, v.typ, cl.stamp)
				if f == "Root" {
					st.assume(nonNil(v), true)
				}
			}
			m := get(st, t, "Targets")
			st.setMap(m, mk("mopq", cl.stamp+tag, m.typ, m), cl.stamp)
		}
		ok := cl.st.clone()
		havoc(ok, "ok")
		v, in := mapGet(ok, get(ok, t, "Targets"), strTargets)
		ok.assume(nonNil(get(ok, t, "Timestamp")), true)
		ok.assume(nonNil(get(ok, t, "Snapshot")), true)
		ok.assume(in, true)
		ok.assume(nonNil(v), true)
		nilE := mkNil(cl.sig.Results().At(0).Type())
		ok.event("call", cl.key, cl.instr.Pos(), cl.args, []*Term{nilE})
		bad := cl.st
		havoc(bad, "bad")
		err := mk("res", cl.key+"@"+cl.stamp+":err", cl.sig.Results().At(0).Type())
		bad.assume(isNilT(err), false)
		bad.event("call", cl.key, cl.instr.Pos(), cl.args, []*Term{err})
		return []callOut{{st: ok, res: []*Term{nilE}}, {st: bad, res: []*Term{err}}}
	})
}

// updater analyses an entry point of the updater. The hook sees every effect
// at the moment it happens; fix can restrict the configurations considered.
func (c *Ctx) updater(name string, fix func(up *Up, st *State), hook func(up *Up, st *State, ev *Event)) *Up {
	return c.updaterWith(name, fix, hook, func(e *Eng, up *Up) { e.merge = up.digest })
}

// updaterWith is updater with a choice of contracts and merging.
func (c *Ctx) updaterWith(name string, fix func(up *Up, st *State), hook func(up *Up, st *State, ev *Event), conf func(e *Eng, up *Up)) *Up {
	up := &Up{}
	var fn *ssa.Function
	if name == "New" {
		fn = c.P.fn(pkgUp, "New")
	} else {
		fn = c.P.method(c.P.namedType(pkgUp, "Updater"), name)
	}
	e := c.eng(kTSNew, kVLHTarget)
	c.trustedContracts(e)
	if name == "Refresh" {
		delete(e.contract, kRefresh)
	}
	var a *An
	up.An = &An{c: c, e: e, fn: fn}
	if conf != nil {
		conf(e, up)
	}
	a = c.analyse2(e, fn, func(st *State, args []*Term) {
		st.assume(nonNil(args[0]), true)
		if name == "New" {
			up.cfg = args[0]
		} else {
			up.u = args[0]
			up.t = fieldOfType(st, up.u, c.trustedPtr())
			up.cfg = fieldOfType(st, up.u, c.configPtr())
			st.assume(nonNil(up.t), true)
			st.assume(nonNil(up.cfg), true)
			st.assume(nonNil(get(st, up.t, "Root")), true)
		}
		up.An.args = args
		if fix != nil {
			fix(up, st)
		}
		up.An.entry = st.clone()
	}, func(st *State, ev *Event) {
		if hook != nil {
			hook(up, st, ev)
		}
	})
	up.An = a
	return up
}

func (up *Up) conf(st *State, name string) *Term { return get(st, up.cfg, name) }

// ---- what effects mean ----

func isRes(ev *Event, i int, t *Term) bool { return len(ev.res) > i && ev.res[i] == t }

// remoteOf finds the download that produced data.
func remoteOf(st *State, data *Term) *Event {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == "call" && e.name == kDownload && isRes(e, 0, data) {
			return e
		}
	}
	return nil
}

// localOf finds the file that data was read from: its name, or nil.
func localOf(st *State, data *Term) *Term {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind != "call" || !isRes(e, 0, data) || okAt(st, e) != 1 {
			continue
		}
		switch e.name {
		case "os.ReadFile":
			return e.args[0]
		case "io.ReadAll":
			r := strip(e.args[0])
			for f := e.prev; f != nil; f = f.prev {
				if f.kind == "call" && (f.name == "os.Open" || f.name == "os.OpenFile") && isRes(f, 0, r) {
					return f.args[0]
				}
			}
		}
	}
	return nil
}

func isLocalData(st *State, data *Term) bool { return localOf(st, data) != nil }

// fsChange lists the functions that change the file system, with the index of
// the argument that names the file.
var fsChange = map[string]int{
	"os.Create": 0, "os.CreateTemp": 0, "os.MkdirTemp": 0, "os.WriteFile": 0, "os.Rename": 1, "os.Remove": 0, "os.RemoveAll": 0,
	"os.Mkdir": 0, "os.MkdirAll": 0, "os.Truncate": 0, "os.Symlink": 1, "os.Link": 1, "os.Chmod": 0, "os.OpenFile": 0, "os.Chtimes": 0,
	"os.Chown": 0, "os.CopyFS": 0, "io/ioutil.WriteFile": 0, "io/ioutil.TempFile": 0, "io/ioutil.TempDir": 0,
	"os.File.Write": 0, "os.File.WriteString": 0, "os.File.WriteAt": 0, "os.File.Truncate": 0, "os.File.ReadFrom": 0, "os.File.Chmod": 0,
	"os.NewFile": 0,
}

func isFSChange(ev *Event) bool {
	if ev.kind != "call" {
		return false
	}
	_, ok := fsChange[ev.name]
	if !ok && (ev.name == "io.WriteString" || ev.name == "io.Copy") {
		return strings.HasSuffix(typStr(strip(ev.args[0]).typ), "os.File")
	}
	return ok
}

func errOf(ev *Event) *Term {
	if len(ev.res) == 0 {
		return nil
	}
	l := ev.res[len(ev.res)-1]
	if l.typ == nil || !isInterface(l.typ) && !l.isNil() {
		return nil
	}
	return l
}

// okAt says what is known about the error of an event: 1 none, -1 some, 0 unknown.
func okAt(st *State, ev *Event) int {
	e := errOf(ev)
	if e == nil {
		return 1
	}
	return st.decide(isNilT(e))
}

// okRes says what is known about a value that may be an error: 1 none, -1 some.
func okRes(st *State, r *Term) int {
	if r.isNil() {
		return 1
	}
	if r.op == "iface" || r.typ != nil && isInterface(r.typ) {
		return st.decide(isNilT(r))
	}
	return 0
}

func isUpdate(ev *Event) bool {
	return ev.kind == "call" && (ev.name == kUpRoot || ev.name == kUpTime || ev.name == kUpSnap || ev.name == kUpTargets || ev.name == kUpDeleg)
}

// updateRole is the role a call of the trusted set updates.
func updateRole(ev *Event) *Term {
	switch ev.name {
	case kUpRoot:
		return strRoot
	case kUpTime:
		return strTimestamp
	case kUpSnap:
		return strSnapshot
	case kUpTargets:
		return strTargets
	}
	return ev.args[2]
}

func escRole(role *Term) *Term {
	return escFold(role)
}

// cacheFile is the file name the cache uses for a role.
func (up *Up) cacheFile(st *State, role *Term) *Term {
	return mk("app", "join", types.Typ[types.String], up.conf(st, "LocalMetadataDir"), mkCat(escRole(role), mkStr(".json")))
}

// fileRole is the role whose cache file name is, or nil.
func (up *Up) fileRole(st *State, name *Term) *Term {
	for _, r := range rolesIn(name) {
		if st.holds(eqT(up.cacheFile(st, r), name)) {
			return r
		}
	}
	return nil
}

// rolesIn lists the roles a file name or address may be about.
func rolesIn(t *Term) []*Term {
	out := []*Term{strRoot, strTimestamp, strSnapshot, strTargets}
	t.any(func(x *Term) bool {
		if x.op == "app" && x.name == "net/url.QueryEscape" {
			out = append(out, x.args[0])
		}
		return false
	})
	return out
}

// metaURL is the address of a role's metadata; version nil for none.
func (up *Up) metaURL(st *State, role, version *Term) *Term {
	base := up.conf(st, "RemoteMetadataURL")
	parts := []*Term{base}
	if !st.holds(mk("app", "strings.HasSuffix", types.Typ[types.Bool], base, mkStr("/"))) {
		parts = append(parts, mkStr("/"))
	}
	if version != nil {
		parts = append(parts, itoa(version), mkStr("."))
	}
	parts = append(parts, escRole(role), mkStr(".json"))
	return mkCat(parts...)
}

// request says what a download asks for.
type request struct {
	role    *Term
	version *Term // nil if the address has none
	ok      bool  // the address is exactly the right one
}

// requestOf recognises the address of a metadata request.
func (up *Up) requestOf(st *State, ev *Event) (request, bool) {
	u := ev.args[1]
	for _, r := range rolesIn(u) {
		if u == up.metaURL(st, r, nil) {
			return request{r, nil, true}, true
		}
		found := request{}
		u.any(func(x *Term) bool {
			if x.op == "itoa" && u == up.metaURL(st, r, x.args[0]) {
				found = request{r, x.args[0], true}
				return true
			}
			return false
		})
		if found.ok {
			return found, true
		}
	}
	return request{}, false
}

// listed is what the trusted timestamp (for snapshot) or snapshot (for any
// targets role) lists for a role.
func (up *Up) listed(st *State, role *Term) *Term {
	var m *Term
	if role == strSnapshot {
		m = get(st, get(st, up.t, "Timestamp"), "Signed.Meta")
	} else {
		m = get(st, get(st, up.t, "Snapshot"), "Signed.Meta")
	}
	v, _ := up.e.mapElem(st, m, mkCat(role, mkStr(".json")))
	return v
}

func evPos(ev *Event) token.Pos { return ev.pos }

func escFold(role *Term) *Term {
	if s, ok := role.strVal(); ok {
		return mkStr(queryEscape(s))
	}
	return mk("app", "net/url.QueryEscape", types.Typ[types.String], role)
}

// asHTTP is the condition that an error is an HTTP status error, and its status.
func asHTTP(c *Ctx, err *Term) (*Term, *Term) {
	t := c.P.namedType("metadata", "ErrDownloadHTTP")
	is := mk("app", "errors.As:"+typStr(t), types.Typ[types.Bool], err)
	v := mk("aserr", typStr(t), t, err)
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "StatusCode" {
			return is, structField(v, i)
		}
	}
	fail("anchor", "ErrDownloadHTTP has no StatusCode")
	return nil, nil
}

// noNewer reports whether the error of a root download is known to mean that
// there is no newer root.
func (up *Up) noNewer(st *State, err *Term) bool {
	is, code := asHTTP(up.c, err)
	if !st.holds(is) {
		return false
	}
	return given(st, not(eqT(code, mkInt(404))), not(eqT(code, mkInt(403)))) == nil
}

// mayBeNoNewer returns a state in which it does, or nil.
func (up *Up) mayBeNoNewer(st *State, err *Term) *State {
	is, code := asHTTP(up.c, err)
	for _, n := range []int64{404, 403} {
		if s := given(st, is, eqT(code, mkInt(n))); s != nil {
			return s
		}
	}
	return nil
}

// excusable says whether a failed effect may be followed by more work.
func (up *Up) excusable(st *State, ev *Event) bool {
	switch {
	case ev.name == kDownload:
		r, ok := up.requestOf(st, ev)
		return ok && r.role == strRoot && up.noNewer(st, errOf(ev))
	case isUpdate(ev):
		if isLocalData(st, ev.args[1]) {
			return true
		}
		return ev.name == kUpTime && st.holds(isEqualVersion(up.c, errOf(ev)))
	case ev.name == "os.Open" || ev.name == "os.OpenFile" || ev.name == "os.ReadFile" || ev.name == "io.ReadAll" || ev.name == "os.Stat":
		return true
	case ev.name == "os.Remove" || ev.name == "os.File.Close":
		return true
	}
	return false
}

func isEqualVersion(c *Ctx, err *Term) *Term {
	t := c.P.namedType("metadata", "ErrEqualVersionNumber")
	z := mkZero(t)
	if v, ok := err.strVal(); ok {
		_ = v
	}
	return mk("app", "errors.Is", types.Typ[types.Bool], err, mk("iface", typStr(t), t, z))
}

// isWork tells the effects a refresh consists of.
func isWork(ev *Event) bool {
	return ev.kind == "call" && (ev.name == kDownload || isUpdate(ev) || isFSChange(ev) || isWriteEnd(ev))
}

// isWriteEnd: the event ends the writing of a file opened to be written.
func isWriteEnd(ev *Event) bool {
	if ev.name != "os.File.Close" && ev.name != "os.File.Sync" {
		return false
	}
	f := strip(ev.args[0])
	return f.op == "res" && (strings.HasPrefix(f.name, "os.CreateTemp@") || strings.HasPrefix(f.name, "os.Create@") || strings.HasPrefix(f.name, "os.OpenFile@"))
}

func online(up *Up, st *State)  { st.assume(up.conf(st, "UnsafeLocalMode"), false) }
func offline(up *Up, st *State) { st.assume(up.conf(st, "UnsafeLocalMode"), true) }

// stage is the position of an effect in the refresh workflow: 1 root, 2
// timestamp, 3 snapshot, 4 targets, 0 none.
func stageOf(ev *Event) int {
	switch ev.name {
	case kUpRoot:
		return 1
	case kUpTime:
		return 2
	case kUpSnap:
		return 3
	case kUpTargets, kUpDeleg:
		return 4
	}
	return 0
}

func roleStage(r *Term) int {
	switch r {
	case strRoot:
		return 1
	case strTimestamp:
		return 2
	case strSnapshot:
		return 3
	}
	return 4
}

func ruleC30(c *Ctx) {
	c.rule("refresh-order", "every download and every update of the trusted set during an online refresh comes in the order root, timestamp, snapshot, targets")
	c.rule("refresh-complete", "a successful online refresh has updated the timestamp from a download (or found its version unchanged), then the snapshot, then the top-level targets delegated by root; copies other than cached ones are not marked as already checked")
	c.rule("refresh-first-error", "after a failed step that is not excused, the refresh performs no further download, update or file change and fails with that step's error")
	up := c.updater("Refresh", online, func(up *Up, st *State, ev *Event) {
		if !isWork(ev) {
			return
		}
		// nothing after a failure that is not excused
		for e := ev.prev; e != nil; e = e.prev {
			if e.kind == "call" && errOf(e) != nil && (isWork(e)) && st.fails(isNilT(errOf(e))) && !up.excusable(st, e) {
				cleanup := ev.name == "os.Remove" || ev.name == "os.File.Close"
				c.check("refresh-first-error", cleanup, ev.pos, st, "Refresh goes on with %s after %s failed", short(ev.name), short(e.name))
				break
			}
		}
		s := stageOf(ev)
		if ev.name == kDownload {
			r, ok := up.requestOf(st, ev)
			if !ok {
				return
			}
			s = roleStage(r.role)
		}
		if s == 0 {
			return
		}
		max := 0
		for e := ev.prev; e != nil; e = e.prev {
			x := stageOf(e)
			if e.kind != "call" {
				continue
			}
			if e.name == kDownload {
				if r, ok := up.requestOf(st, e); ok {
					x = roleStage(r.role)
				}
			}
			if x > max {
				max = x
			}
		}
		c.check("refresh-order", max <= s, ev.pos, st, "%s happens after a later step of the workflow", short(ev.name))
		if ev.name == kUpSnap {
			c.check("refresh-complete", st.holds(not(ev.args[2])) || isLocalData(st, ev.args[1]), ev.pos, st, "a snapshot that does not come from the cache is marked as already checked")
		}
	})
	for _, r := range up.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(up.An, r.Outcome)
		if !r.ok {
			// the error is that of the failing step
			for _, ev := range r.st.events() {
				if isWork(ev) && errOf(ev) != nil && r.st.fails(isNilT(errOf(ev))) && !up.excusable(r.st, ev) {
					c.check("refresh-first-error", r.err.contains(errOf(ev)), p, r.st, "Refresh does not return the error of the failed %s", short(ev.name))
					break
				}
			}
			continue
		}
		for _, ev := range r.st.events() {
			if isWork(ev) && errOf(ev) != nil && !up.excusable(r.st, ev) {
				c.check("refresh-first-error", r.st.holds(isNilT(errOf(ev))), p, r.st, "Refresh may succeed although %s failed", short(ev.name))
			}
		}
		ts, sn, tg := false, false, false
		for _, ev := range r.st.events() {
			if !isUpdate(ev) {
				continue
			}
			ok := r.st.holds(isNilT(errOf(ev)))
			switch ev.name {
			case kUpTime:
				if d := remoteOf(r.st, ev.args[1]); d != nil && (ok || r.st.holds(isEqualVersion(c, errOf(ev)))) {
					ts = true
				}
			case kUpSnap:
				sn = sn || ok && ts
			case kUpTargets:
				tg = tg || ok && sn
			case kUpDeleg:
				tg = tg || ok && sn && ev.args[2] == strTargets && ev.args[3] == strRoot
			}
		}
		c.check("refresh-complete", ts, p, r.st, "Refresh succeeds without an accepted (or unchanged) timestamp from the repository")
		c.check("refresh-complete", sn, p, r.st, "Refresh succeeds without updating the snapshot after the timestamp")
		c.check("refresh-complete", tg, p, r.st, "Refresh succeeds without updating the top-level targets after the snapshot")
	}
	c.need("refresh-order", 8)
	c.need("refresh-complete", 4)
	c.need("refresh-first-error", 8)
}

func short(name string) string {
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	return strings.TrimPrefix(name, "iface:")
}

var _ = ssa.Function{}

// digest is what the rules ask about the work of a helper that has returned:
// the downloads, updates and file changes in order and how each of them ended.
// A helper that met a failure that stops the refresh is kept as it is.
func (up *Up) digest(st *State, since *Event, res []*Term) string {
	d := "."
	if n := len(res); n > 0 && okRes(st, res[n-1]) == -1 {
		// a failure other than that of a file that could not be read is kept apart
		read := false
		for ev := st.ev; ev != nil && ev != since; ev = ev.prev {
			if (ev.name == "os.Open" || ev.name == "os.ReadFile" || ev.name == "io.ReadAll") && res[n-1] == errOf(ev) {
				read = true
			}
		}
		if !read {
			return ""
		}
	}
	for ev := st.ev; ev != nil && ev != since; ev = ev.prev {
		if ev.kind == "loop" || ev.kind == "loopexit" {
			d += ev.kind + up.c.P.pos(ev.pos) + ";"
			continue
		}
		if !isWork(ev) {
			continue
		}
		k := okAt(st, ev)
		x := ""
		if k != 1 {
			if !up.excusable(st, ev) {
				return ""
			}
			x = "x"
		}
		d += short(ev.name) + fmt.Sprint(k) + x
		switch {
		case ev.name == kDownload:
			d += fmt.Sprint(ev.args[1].id)
		case isUpdate(ev):
			d += fmt.Sprint(updateRole(ev).id, ",", ev.args[1].id, isLocalData(st, ev.args[1]))
		case ev.name == "os.Rename" || ev.name == "os.WriteFile":
			d += fmt.Sprint(ev.args[0].id, ",", ev.args[1].id)
		}
		d += ";"
	}
	return d
}

// ---- C31 ----

func ruleC31(c *Ctx) {
	c.rule("root-version", "every root request asks for one version above the currently trusted one: either the trusted root's version plus one, or the initial version plus one plus the number of completed iterations, each of which accepted a root")
	c.rule("root-bound", "a root is requested only while fewer than the configured number have been requested")
	c.rule("root-step", "an iteration goes on to the next version only after its download succeeded, the trusted set accepted exactly those bytes and they were persisted (or caching is off)")
	c.rule("root-stop", "the refresh goes on past the root only when the configured number of roots was requested or the last request failed with status 404 or 403")
	c.rule("root-404", "a root request that may have failed with status 404 or 403 does not make the refresh fail")
	var up *Up
	left := func(st *State, pos token.Pos) {
		max := up.conf(st, "MaxRootRotations")
		var last *Event
		n := mkInt(0)
		for e := st.ev; e != nil; e = e.prev {
			if e.kind == "call" && e.name == kDownload && last == nil {
				if r, ok := up.requestOf(st, e); ok && r.role == strRoot {
					last = e
				}
			}
			if e.kind == "loop" && e.loop != nil && up.rootLoop(e.loop) {
				n = e.loop.itC
				break
			}
		}
		if last != nil && up.noNewer(st, errOf(last)) {
			c.check("root-stop", true, pos, st, "")
			return
		}
		if last != nil && okAt(st, last) == 1 {
			n = plus(n, 1)
		}
		c.check("root-stop", st.holds(not(ltT(n, max))), pos, st, "the refresh leaves the root stage although a newer root may exist")
	}
	seenLeft := 0
	hook := func(u *Up, st *State, ev *Event) {
		up = u
		if !isWork(ev) {
			return
		}
		if ev.name != kDownload {
			return
		}
		r, ok := up.requestOf(st, ev)
		if !ok {
			return
		}
		if r.role != strRoot {
			seenLeft++
			up.seen = append(up.seen, st.clone())
			left(st, ev.pos)
			return
		}
		entry := get(up.An.entry, get(up.An.entry, up.t, "Root"), "Signed.Version")
		max := up.conf(st, "MaxRootRotations")
		if !c.check("root-version", r.version != nil, ev.pos, st, "root is requested without a version") {
			return
		}
		var its []*Term
		for e := ev.prev; e != nil; e = e.prev {
			if e.kind == "loop" && e.loop != nil {
				its = append(its, e.loop.itC)
			}
			if e.kind == "call" && e.name == kDownload {
				if q, ok := up.requestOf(st, e); ok && q.role == strRoot && len(its) == 0 {
					c.check("root-step", up.rootStep(st, e), ev.pos, st, "another root is requested before the last one was downloaded, accepted and persisted")
				}
			}
		}
		d := mkAdd(plus(r.version, -1), entry, -1)
		okv := st.holds(eqT(r.version, plus(get(st, get(st, up.t, "Root"), "Signed.Version"), 1)))
		if v, isC := d.intVal(); isC && v == 0 {
			okv = okv || len(its) == 0
		}
		for _, it := range its {
			okv = okv || d == it || st.holds(eqT(d, it))
		}
		c.check("root-version", okv, ev.pos, st, "root is requested with version %s, which is not known to be one above the trusted one", r.version)
		okb := st.holds(ltT(d, max))
		for _, it := range its {
			okb = okb || st.holds(ltT(it, max))
		}
		c.check("root-bound", okb, ev.pos, st, "a root may be requested although the configured number of them has been requested")
	}
	prune := func(e *Eng, up *Up) {
		for _, k := range []string{kUpTime, kUpSnap, kUpTargets, kUpDeleg} {
			e.contract[k] = func(cl *Call) []callOut { return nil }
		}
		e.contract[kDownload] = func(cl *Call) []callOut {
			rs := cl.results()
			ev := cl.st.event("call", cl.key, cl.instr.Pos(), cl.args, rs)
			if r, ok := up.requestOf(cl.st, ev); ok && r.role != strRoot {
				return nil
			}
			return cl.one(rs...)
		}
	}
	u := c.updaterWith("Refresh", online, hook, prune)
	seen := map[*Back]bool{}
	checkBacks := func(st *State) {
		for e := st.ev; e != nil; e = e.prev {
			if e.loop == nil || !u.rootLoop(e.loop) {
				continue
			}
			for _, b := range e.loop.backs {
				if seen[b] {
					continue
				}
				seen[b] = true
				n := 0
				for _, x := range b.evs {
					if x.kind == "call" && x.name == kDownload {
						if r, ok := u.requestOf(b.st, x); ok && r.role == strRoot {
							n++
							c.check("root-step", u.rootStep(b.st, x), x.pos, b.st, "the next root version is requested although this one was not downloaded, accepted and persisted")
						}
					}
				}
				c.check("root-step", n == 1, e.pos, b.st, "an iteration of the root loop makes %d root requests", n)
			}
		}
	}
	for _, r := range u.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(u.An, r.Outcome)
		checkBacks(r.st)
		if r.ok {
			left(r.st, p)
			continue
		}
		var last *Event
		for e := r.st.ev; e != nil; e = e.prev {
			if isWork(e) {
				last = e
				break
			}
		}
		if last != nil && last.name == kDownload {
			if q, ok := u.requestOf(r.st, last); ok && q.role == strRoot {
				s := u.mayBeNoNewer(r.st, errOf(last))
				c.check("root-404", s == nil, p, s, "Refresh fails although the root request may have failed with status 404 or 403")
			}
		}
	}
	for _, b := range u.seen {
		checkBacks(b)
	}
	c.check("root-stop", seenLeft > 0, token.NoPos, nil, "no request after the root stage was found")
	c.need("root-version", 2)
	c.need("root-bound", 1)
	c.need("root-step", 2)
	c.need("root-stop", 3)
	c.need("root-404", 1)
}

// rootLoop reports whether an iteration of the loop requests a root.
func (up *Up) rootLoop(l *LoopSum) bool {
	for _, b := range l.allBacks {
		for _, x := range b.evs {
			if x.kind == "call" && x.name == kDownload {
				if r, ok := up.requestOf(b.st, x); ok && r.role == strRoot {
					return true
				}
			}
		}
	}
	return false
}

// rootStep decides that the root a request got was accepted and persisted.
func (up *Up) rootStep(st *State, req *Event) bool {
	if okAt(st, req) != 1 {
		return false
	}
	acc := false
	for e := st.ev; e != nil && e != req; e = e.prev {
		if e.kind == "call" && e.name == kUpRoot && e.args[1] == req.res[0] && okAt(st, e) == 1 {
			acc = true
		}
	}
	return acc && (st.holds(up.conf(st, "DisableLocalCache")) || up.cached(st, strRoot, req.res[0]))
}

// ---- the metadata cache ----

// tempFile finds the creation of the temporary file with the given name or handle.
func tempFile(st *State, x *Term) *Event {
	x = strip(x)
	if x.op == "app" && x.name == "os.File.Name" {
		x = x.args[0]
	}
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == "call" && (e.name == "os.CreateTemp" || e.name == "io/ioutil.TempFile") && isRes(e, 0, x) {
			return e
		}
	}
	return nil
}

// contentOf is what has been written, completely and successfully, to a
// temporary file, or nil.
func contentOf(st *State, tmp *Event) *Term {
	var data *Term
	f := tmp.res[0]
	name := mk("app", "os.File.Name", types.Typ[types.String], f)
	for e := st.ev; e != nil && e != tmp; e = e.prev {
		if e.kind != "call" {
			continue
		}
		switch e.name {
		case "os.WriteFile", "io/ioutil.WriteFile":
			if e.args[0] == name {
				if data != nil || okAt(st, e) != 1 {
					return nil
				}
				data = e.args[1]
			}
		case "os.File.Write", "os.File.WriteString", "io.WriteString", "os.File.ReadFrom", "os.File.WriteAt", "os.File.Truncate", "os.Truncate":
			if strip(e.args[0]) == f || e.args[0] == name {
				if data != nil || okAt(st, e) != 1 || strings.HasPrefix(e.name, "os.File.ReadFrom") || strings.HasSuffix(e.name, "At") || strings.HasSuffix(e.name, "Truncate") {
					return nil
				}
				data = e.args[1]
			}
		}
	}
	if data != nil && data.op == "convert" {
		data = data.args[0]
	}
	return data
}

// cached decides that the cache file of the role has been replaced by data.
func (up *Up) cached(st *State, role, data *Term) bool {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == "call" && e.name == "os.Rename" && okAt(st, e) == 1 && st.holds(eqT(e.args[1], up.cacheFile(st, role))) {
			if t := tempFile(st, e.args[0]); t != nil && contentAt(st, t, e) == data {
				return true
			}
		}
	}
	return false
}

// contentAt is the content of the temporary file when at happened.
func contentAt(st *State, tmp, at *Event) *Term {
	s := st.clone()
	s.ev = at
	return contentOf(s, tmp)
}

func init() {
	up := "Path-sensitive abstract interpretation of the updater's entry points with every helper inlined and the trusted set's updates as the contracts C20-C26 establish. Every path and every effect on it (download, update, file operation) is checked. "
	registry["C30"] = rule{ruleC30, up + "Order, completeness and first-error behaviour of Refresh."}
	registry["C31"] = rule{ruleC31, up + "The root loop: version of each request, bound, what an iteration must have done, why it may stop."}
	registry["C32"] = rule{ruleC32, up + "Origin of the bytes of every cache file replacement."}
	registry["C33"] = rule{ruleC33, up + "Typestate of the temporary files and the files they replace."}
	registry["C34"] = rule{ruleC34, up + "Flow of bytes read from the cache, and the reasons of failing paths."}
	registry["C35"] = rule{ruleC35, up + "Limit argument of every download."}
	registry["C36"] = rule{ruleC36, up + "Address of every download."}
	registry["C37"] = rule{ruleC37, up + "DownloadTarget: origin, verification and destination of the returned and written bytes."}
	registry["C38"] = rule{ruleC38, up + "FindCachedTarget: origin and verification of the returned bytes."}
	registry["C39"] = rule{ruleC39, up + "The loop of GetTargetInfo over pending roles as a transition system; Delegations.GetRolesForTarget."}
	registry["C40"] = rule{ruleC40, up + "Every file system change, in the updater, its configuration and the multi-repository client, and the conditions it is reached under."}
	registry["C41"] = rule{ruleC41, up + "All paths of Refresh and GetTargetInfo given UnsafeLocalMode."}
	registry["C42"] = rule{ruleC42, up + "Name of every file touched."}
	registry["C43"] = rule{ruleC43, up + "Paths of New; assignments to the fields of a client."}
	registry["C44"] = rule{ruleC44, up + "GetTargetInfo: refresh before work, provenance of the returned description."}
	registry["C45"] = rule{ruleC45, "Every loop reached from an exported function is summarised once; each way back to its head must move a measure towards a bound that the loop leaves alone. Calls that repeat a caller are events; so are the requests made, whose time limit argument is checked."}
}
