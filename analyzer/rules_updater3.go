package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// writtenTo is what has been written to the file of that name by a successful
// call, or nil. Only the whole-file write is recognised.
func writtenTo(st *State, name *Term) *Term {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind != "call" {
			continue
		}
		switch e.name {
		case "os.WriteFile", "io/ioutil.WriteFile":
			if st.holds(eqT(e.args[0], name)) && okAt(st, e) == 1 {
				return e.args[1]
			}
		case "os.Rename":
			if st.holds(eqT(e.args[1], name)) && okAt(st, e) == 1 {
				if t := tempFile(st, e.args[0]); t != nil {
					return contentAt(st, t, e)
				}
				return nil
			}
		case "os.File.Write":
			for f := e.prev; f != nil; f = f.prev {
				if f.kind == "call" && f.name == "os.Create" && isRes(f, 0, e.args[0]) && st.holds(eqT(f.args[0], name)) && okAt(st, e) == 1 {
					return e.args[1]
				}
			}
		case "os.Remove", "os.RemoveAll":
			if st.holds(eqT(e.args[0], name)) {
				return nil
			}
		}
	}
	return nil
}

// targetFile is the default file of a target.
func (up *Up) targetFile(st *State, tf *Term) *Term {
	return mk("app", "join", types.Typ[types.String], up.conf(st, "LocalTargetsDir"), escFold(get(up.An.entry, tf, "Path")))
}

// rightTargetPath decides that name is the caller's path or, without one, the default file.
func (up *Up) rightTargetPath(st *State, name, given_ *Term) bool {
	if s := given(st, eqT(mkLen(given_), mkInt(0))); s != nil && !s.holds(eqT(name, up.targetFile(s, up.An.arg(1)))) {
		return false
	}
	if s := given(st, not(eqT(mkLen(given_), mkInt(0)))); s != nil && !s.holds(eqT(name, given_)) {
		return false
	}
	return true
}

func isEmptyBytes(st *State, t *Term) bool {
	return t.isNil() || st.holds(isNilT(t)) || st.holds(eqT(mkLen(t), mkInt(0)))
}

func targetUntouched(c *Ctx, rule string, up *Up, name string) {
	for _, x := range up.An.evs {
		if x.ev.kind != "call" && (x.ev.args[0].contains(up.An.arg(1))) {
			c.check(rule, false, x.ev.pos, nil, "%s changes the target description it is given", name)
		}
	}
}

func ruleC37(c *Ctx) {
	c.rule("target-verified", "DownloadTarget returns bytes only if they are the downloaded ones and VerifyLengthHashes of the given description accepted them")
	c.rule("target-written", "DownloadTarget writes only such bytes, only to the caller's path or the default file of the target; on success with caching on they are at the returned path")
	c.rule("target-failure", "a failing DownloadTarget returns no bytes and has written nothing successfully")
	var up *Up
	up = c.updaterWith("DownloadTarget", nil, func(up *Up, st *State, ev *Event) {
		if !isFSChange(ev) {
			return
		}
		switch ev.name {
		case "os.WriteFile", "os.File.Write", "os.File.WriteString", "io.WriteString", "io.Copy", "os.File.ReadFrom":
			d := ev.args[1]
			c.check("target-written", remoteOf(st, d) != nil && checkedBytes(st, kVLHTarget, up.An.arg(1), d), ev.pos, st, "DownloadTarget writes bytes to disk that have not been verified")
		case "os.Rename":
			c.check("target-written", up.rightTargetPath(st, ev.args[1], up.An.arg(2)), ev.pos, st, "DownloadTarget renames a file onto %s", ev.args[1])
		case "os.Create", "os.OpenFile", "os.Truncate":
			ok := false
			for _, e := range callsOf(st, kVLHTarget) {
				ok = ok || e.args[0] == up.An.arg(1) && okAt(st, e) == 1
			}
			c.check("target-written", ok, ev.pos, st, "DownloadTarget opens a file for writing before the target is verified")
		}
		if ev.name == "os.WriteFile" || ev.name == "os.Create" || ev.name == "os.OpenFile" {
			c.check("target-written", up.rightTargetPath(st, ev.args[0], up.An.arg(2)) || tempFile(st, ev.args[0]) != nil, ev.pos, st, "DownloadTarget writes %s, which is neither the caller's path nor the default file of the target", ev.args[0])
		}
	}, nil)
	targetUntouched(c, "target-verified", up, "DownloadTarget")
	for _, r := range up.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(up.An, r.Outcome)
		path, data := r.rets[0], r.rets[1]
		if !r.ok {
			c.check("target-failure", isEmptyBytes(r.st, data), p, r.st, "DownloadTarget returns bytes together with an error")
			for _, ev := range r.st.events() {
				if ev.kind == "call" && (ev.name == "os.WriteFile" || ev.name == "os.Rename" || ev.name == "os.Create" || strings.HasPrefix(ev.name, "os.File.Write")) {
					c.check("target-failure", okAt(r.st, ev) == -1 || tempFile(r.st, ev.args[0]) != nil && ev.name != "os.Rename", p, r.st, "DownloadTarget fails after having written the target file")
				}
			}
			continue
		}
		d := remoteOf(r.st, data)
		c.check("target-verified", d != nil && okAt(r.st, d) == 1, p, r.st, "DownloadTarget returns bytes that are not the downloaded ones: %s", data)
		c.check("target-verified", checkedBytes(r.st, kVLHTarget, up.arg(1), data), p, r.st, "DownloadTarget returns bytes that were not checked against the target description")
		if s := given(r.st, not(up.conf(r.st, "DisableLocalCache"))); s != nil {
			c.check("target-written", writtenTo(s, path) == data, p, s, "DownloadTarget succeeds although the returned bytes may not be at the returned path")
			c.check("target-written", up.rightTargetPath(s, path, up.arg(2)), p, s, "DownloadTarget returns the path %s", path)
		}
	}
	c.need("target-verified", 4)
	c.need("target-written", 4)
	c.need("target-failure", 4)
}

func ruleC38(c *Ctx) {
	c.rule("cached-verified", "FindCachedTarget returns bytes only if caching is on, they were read from the returned path (the caller's or the default one) and VerifyLengthHashes of the given description accepted them")
	c.rule("cached-absent", "a file that cannot be read or does not match is reported as no cached target, without error; with caching off nothing is returned")
	c.rule("cached-found", "a file that can be read and matches is reported")
	up := c.updaterWith("FindCachedTarget", nil, nil, nil)
	targetUntouched(c, "cached-verified", up, "FindCachedTarget")
	for _, r := range up.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(up.An, r.Outcome)
		path, data := r.rets[0], r.rets[1]
		none := isEmptyBytes(r.st, data) && r.st.holds(eqT(mkLen(path), mkInt(0)))
		if !r.ok {
			c.check("cached-absent", none, p, r.st, "FindCachedTarget returns a path or bytes together with an error")
			// the only errors are those of the caller's arguments
			touched := len(callsOf(r.st, "os.Open", "os.ReadFile", "io.ReadAll", kVLHTarget)) > 0
			c.check("cached-absent", !touched, p, r.st, "FindCachedTarget reports a missing, unreadable or different file as an error")
			c.check("cached-absent", !possible(r.st, up.conf(r.st, "DisableLocalCache")), p, r.st, "FindCachedTarget may fail although caching is disabled")
			continue
		}
		if none {
			found := false
			for _, ev := range callsOf(r.st, kVLHTarget) {
				found = found || ev.args[0] == up.arg(1) && okAt(r.st, ev) == 1
			}
			c.check("cached-found", !found, p, r.st, "FindCachedTarget does not report a file that matches")
			// there must have been an attempt unless caching is off
			if s := given(r.st, not(up.conf(r.st, "DisableLocalCache"))); s != nil {
				failed := false
				for _, ev := range callsOf(s, "os.Open", "os.ReadFile", "io.ReadAll", "os.Stat", kVLHTarget) {
					failed = failed || okAt(s, ev) == -1
				}
				c.check("cached-found", failed, p, s, "FindCachedTarget reports no cached target without having found the file missing, unreadable or different")
			}
			continue
		}
		name := localOf(r.st, data)
		if !c.check("cached-verified", name != nil, p, r.st, "FindCachedTarget returns bytes that were not read from a file: %s", data) {
			continue
		}
		c.check("cached-verified", r.st.holds(eqT(name, path)), p, r.st, "FindCachedTarget returns the path %s with bytes read from %s", path, name)
		c.check("cached-verified", up.rightTargetPath(r.st, name, up.arg(2)), p, r.st, "FindCachedTarget reads the target from %s", name)
		c.check("cached-verified", checkedBytes(r.st, kVLHTarget, up.arg(1), data), p, r.st, "FindCachedTarget returns bytes that were not checked against the target description")
		c.check("cached-verified", r.st.fails(up.conf(r.st, "DisableLocalCache")), p, r.st, "FindCachedTarget returns a target although caching may be disabled")
		for _, ev := range callsOf(r.st, "os.Open", "os.ReadFile", "io.ReadAll") {
			c.check("cached-verified", okAt(r.st, ev) == 1, p, r.st, "FindCachedTarget returns bytes although reading the file may have failed")
		}
	}
	c.need("cached-verified", 5)
	c.need("cached-absent", 3)
	c.need("cached-found", 2)
}

// fsSites lists the calls in the module's client packages that change files.
func (c *Ctx) fsSites() map[token.Pos]string {
	out := map[token.Pos]string{}
	for _, f := range c.P.moduleFuncs() {
		p := funcPkg(f)
		if p == nil || f.Blocks == nil {
			continue
		}
		rel := strings.TrimPrefix(p.Path(), modPath+"/")
		switch {
		case strings.HasPrefix(rel, "metadata/"):
		default:
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if _, is := fsChange[fnKey(g)]; is {
					out[in.Pos()] = fnKey(g)
				}
			}
		}
	}
	return out
}

func ruleC40(c *Ctx) {
	c.rule("no-disk", "every call that creates, writes, renames or removes a file or directory is only reached with caching enabled")
	c.rule("no-disk-complete", "every such call in the client packages is on a path of an analysed entry point")
	c.rule("no-disk-child", "the repository clients of a multi-repository client have caching disabled if it has")
	seen := map[token.Pos]bool{}
	visit := func(st *State, ev *Event, off *Term, name string) {
		if !isFSChange(ev) {
			return
		}
		seen[ev.pos] = true
		s := given(st, off)
		c.check("no-disk", s == nil, ev.pos, s, "%s reaches %s although caching may be disabled", name, ev.name)
	}
	for _, name := range []string{"New", "Refresh", "GetTargetInfo", "DownloadTarget", "FindCachedTarget"} {
		name := name
		c.updater(name, nil, func(up *Up, st *State, ev *Event) { visit(st, ev, up.conf(st, "DisableLocalCache"), name) })
	}
	e := c.eng()
	var cfg *Term
	c.analyse2(e, c.P.method(c.P.namedType("metadata/config", "UpdaterConfig"), "EnsurePathsExist"), func(st *State, args []*Term) {
		cfg = args[0]
		st.assume(nonNil(cfg), true)
	}, func(st *State, ev *Event) { visit(st, ev, get(st, cfg, "DisableLocalCache"), "EnsurePathsExist") })
	c.multirepoDisk(visit)
	for p, k := range c.fsSites() {
		c.check("no-disk-complete", seen[p], p, nil, "%s is called on no analysed path", k)
	}
	c.need("no-disk", 10)
	c.need("no-disk-complete", 5)
	c.need("no-disk-child", 1)
}

func ruleC41(c *Ctx) {
	c.rule("offline-no-network", "in offline mode no path of Refresh or GetTargetInfo downloads anything")
	c.rule("offline-verified", "a successful offline refresh has updated timestamp, snapshot (not as already checked) and top-level targets in that order with bytes read from their cache files")
	c.rule("offline-fails", "offline, a failed read or a refused update makes the refresh or lookup fail")
	n := 0
	for _, name := range []string{"Refresh", "GetTargetInfo"} {
		name := name
		up := c.updater(name, offline, func(up *Up, st *State, ev *Event) {
			n++
			if ev.kind != "call" {
				return
			}
			c.check("offline-no-network", ev.name != kDownload && !strings.HasPrefix(ev.name, "net/") && !strings.HasPrefix(ev.name, "iface:net/"), ev.pos, st, "%s calls %s in offline mode", name, short(ev.name))
			if isUpdate(ev) {
				l := localOf(st, ev.args[1])
				c.check("offline-verified", l != nil && st.holds(eqT(l, up.cacheFile(st, updateRole(ev)))), ev.pos, st, "%s updates %s in offline mode with bytes that are not read from its cache file", name, updateRole(ev))
				if ev.name == kUpSnap {
					c.check("offline-verified", st.holds(not(ev.args[2])), ev.pos, st, "%s marks the cached snapshot as already checked in offline mode", name)
				}
			}
		})
		seen := map[*Back]bool{}
		for _, r := range up.results() {
			if r.kind != "ret" || !r.ok {
				continue
			}
			p := posOf(up.An, r.Outcome)
			fails := func(st *State, evs []*Event) {
				for _, ev := range evs {
					if isUpdate(ev) || ev.kind == "call" && (ev.name == "os.Open" || ev.name == "os.ReadFile" || ev.name == "io.ReadAll") {
						c.check("offline-fails", okAt(st, ev) == 1, ev.pos, st, "%s goes on in offline mode although %s may have failed", name, short(ev.name))
					}
				}
			}
			fails(r.st, r.st.events())
			walkBacks(r.st.events(), seen, func(b *Back, _ *LoopSum) { fails(b.st, b.evs) })
			if name == "Refresh" {
				stage := 1
				for _, ev := range r.st.events() {
					if !isUpdate(ev) || okAt(r.st, ev) != 1 {
						continue
					}
					s := stageOf(ev)
					if s == 4 && !(updateRole(ev) == strTargets && (ev.name == kUpTargets || ev.args[3] == strRoot)) {
						continue
					}
					c.check("offline-verified", s == stage+1 || s == 1, ev.pos, r.st, "the offline refresh updates %s out of order", updateRole(ev))
					stage = s
				}
				c.check("offline-verified", stage == 4, p, r.st, "the offline refresh succeeds without having verified timestamp, snapshot and targets")
			}
		}
	}
	c.need("offline-no-network", 4)
	c.need("offline-verified", 6)
	c.need("offline-fails", 4)
}

func ruleC42(c *Ctx) {
	c.rule("metadata-file", "every metadata file read or written is the escaped role name with .json directly in the metadata directory, or a temporary file there; bytes read for a role come from the file written for it")
	c.rule("target-file", "without a caller's path every target file read or written is the escaped target path, which must not be empty or a dot name, directly in the targets directory")
	for _, name := range metaEntries {
		name := name
		c.updater(name, nil, func(up *Up, st *State, ev *Event) {
			if ev.kind != "call" {
				return
			}
			file := func(x *Term) {
				c.check("metadata-file", up.fileRole(st, x) != nil || tempFile(st, x) != nil, ev.pos, st, "%s uses the file %s, which is neither a role's cache file nor a temporary file in the metadata directory", name, x)
			}
			switch ev.name {
			case "os.Open", "os.ReadFile", "os.WriteFile", "os.Create", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Stat", "os.Chmod", "os.Truncate":
				file(ev.args[0])
			case "os.Rename", "os.Link", "os.Symlink":
				file(ev.args[0])
				file(ev.args[1])
			case "os.CreateTemp":
				c.check("metadata-file", ev.args[0] == up.conf(st, "LocalMetadataDir") && plainPattern(ev.args[1]), ev.pos, st, "%s creates a temporary file %s in %s", name, ev.args[1], ev.args[0])
			case "os.MkdirAll", "os.Mkdir":
				c.check("metadata-file", ev.args[0] == up.conf(st, "LocalMetadataDir") || ev.args[0] == up.conf(st, "LocalTargetsDir"), ev.pos, st, "%s creates the directory %s", name, ev.args[0])
			}
			if isUpdate(ev) {
				if l := localOf(st, ev.args[1]); l != nil {
					c.check("metadata-file", st.holds(eqT(l, up.cacheFile(st, updateRole(ev)))), ev.pos, st, "%s reads %s for role %s", name, l, updateRole(ev))
				}
			}
		})
	}
	for _, name := range []string{"DownloadTarget", "FindCachedTarget"} {
		name := name
		c.updater(name, nil, func(up *Up, st *State, ev *Event) {
			if ev.kind != "call" {
				return
			}
			file := func(x *Term) {
				if tempFile(st, x) != nil {
					return
				}
				c.check("target-file", up.rightTargetPath(st, x, up.An.arg(2)), ev.pos, st, "%s uses the file %s", name, x)
				if s := given(st, eqT(mkLen(up.An.arg(2)), mkInt(0))); s != nil {
					esc := escFold(get(up.An.entry, up.An.arg(1), "Path"))
					for _, bad := range []string{"", ".", ".."} {
						t := given(s, eqT(esc, mkStr(bad)))
						c.check("target-file", t == nil || t.fails(eqT(esc, mkStr(bad))), ev.pos, s, "%s may use the directory entry %q as target file", name, bad)
					}
				}
			}
			switch ev.name {
			case "os.Open", "os.ReadFile", "os.WriteFile", "os.Create", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Truncate":
				file(ev.args[0])
			case "os.Rename", "os.Link", "os.Symlink":
				file(ev.args[1])
			}
		})
	}
	c.need("metadata-file", 12)
	c.need("target-file", 4)
}

// plainPattern decides that a temporary file pattern names no other directory.
func plainPattern(t *Term) bool {
	s, ok := t.strVal()
	return ok && !strings.ContainsAny(s, "/\\")
}

func ruleC43(c *Ctx) {
	c.rule("client-verified", "New succeeds only with a non-empty trusted root and metadata address, the trusted set made from that root, and that configuration")
	c.rule("client-refused", "New returns no client together with an error, and fails if verifying the root, creating a directory or writing the initial root failed")
	c.rule("client-root", "no other function of the updater replaces the trusted set or the configuration of a client")
	up := c.updater("New", nil, nil)
	for _, r := range up.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(up.An, r.Outcome)
		if !r.ok {
			c.check("client-refused", r.rets[0].isNil() || r.st.holds(isNilT(r.rets[0])), p, r.st, "New returns a client together with an error")
			// there is a reason: nothing else may make New fail
			ok := possible(up.entry, eqT(mkLen(up.conf(up.entry, "LocalTrustedRoot")), mkInt(0))) && (r.st.holds(eqT(mkLen(up.conf(r.st, "LocalTrustedRoot")), mkInt(0))) || r.st.holds(eqT(mkLen(up.conf(r.st, "RemoteMetadataURL")), mkInt(0))))
			for _, ev := range r.st.events() {
				ok = ok || ev.kind == "call" && errOf(ev) != nil && okAt(r.st, ev) == -1
			}
			c.check("client-refused", ok, p, r.st, "New fails although nothing went wrong")
			continue
		}
		root := up.conf(r.st, "LocalTrustedRoot")
		c.check("client-verified", r.st.fails(eqT(mkLen(root), mkInt(0))), p, r.st, "New succeeds although the trusted root may be empty")
		c.check("client-verified", r.st.fails(eqT(mkLen(up.conf(r.st, "RemoteMetadataURL")), mkInt(0))), p, r.st, "New succeeds although the metadata address may be empty")
		if !c.check("client-verified", r.st.holds(nonNil(r.rets[0])), p, r.st, "New succeeds without a client") {
			continue
		}
		t := fieldOfType(r.st, r.rets[0], c.trustedPtr())
		made := false
		for _, ev := range callsOf(r.st, kTSNew) {
			made = made || ev.res[0] == t && ev.args[0] == root && okAt(r.st, ev) == 1
		}
		c.check("client-verified", made, p, r.st, "New returns a client whose trusted set was not made from the configured root")
		c.check("client-verified", fieldOfType(r.st, r.rets[0], c.configPtr()) == up.cfg, p, r.st, "New returns a client with another configuration")
		for _, ev := range r.st.events() {
			if ev.kind == "call" && errOf(ev) != nil && (isFSChange(ev) && ev.name != "os.Remove" || ev.name == kTSNew) {
				c.check("client-refused", okAt(r.st, ev) == 1, p, r.st, "New succeeds although %s may have failed", short(ev.name))
			}
		}
	}
	// the trusted set and configuration of a client are assigned by New only
	ut := c.P.namedType(pkgUp, "Updater").Underlying().(*types.Struct)
	own := map[string]bool{}
	for i := 0; i < ut.NumFields(); i++ {
		if t := ut.Field(i).Type(); types.Identical(t, c.trustedPtr()) || types.Identical(t, c.configPtr()) {
			own[ut.Field(i).Name()] = true
		}
	}
	for _, f := range c.P.moduleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !own[fieldNameOf(fa)] || !types.Identical(types.Unalias(derefType(fa.X.Type())), c.P.namedType(pkgUp, "Updater")) {
					continue
				}
				if writesSlot(fa) {
					c.check("client-root", up.e.funcs[fnKey(f)], in.Pos(), nil, "%s assigns the field %s of a client", fnKey(f), fieldNameOf(fa))
				}
			}
		}
	}
	for _, name := range []string{"Refresh", "GetTargetInfo", "DownloadTarget", "FindCachedTarget"} {
		name := name
		c.updater(name, nil, func(up *Up, st *State, ev *Event) {
			if ev.kind == "store" && ev.args[0].op == "faddr" && ev.args[0].args[0] == up.u {
				c.check("client-root", !own[ev.args[0].fieldName()], ev.pos, st, "%s replaces the %s of a client", name, ev.args[0].fieldName())
			}
			if isWork(ev) {
				c.check("client-root", fieldOfType(st, up.u, c.trustedPtr()) == up.t && fieldOfType(st, up.u, c.configPtr()) == up.cfg, ev.pos, st, "%s works with another trusted set or configuration", name)
			}
		})
	}
	c.need("client-verified", 5)
	c.need("client-refused", 5)
	c.need("client-root", 2)
}

func ruleC44(c *Ctx) {
	c.rule("lookup-refreshes", "GetTargetInfo refreshes before anything else whenever no top-level targets are trusted, and fails with the refresh's error if it fails")
	c.rule("lookup-trusted", "the description returned is the one that targets metadata accepted by the trusted set lists for the path")
	up := c.updater("GetTargetInfo", nil, func(up *Up, st *State, ev *Event) {
		if ev.kind != "call" {
			return
		}
		work := isWork(ev) || ev.name == "os.Open" || ev.name == "os.ReadFile" || strings.HasPrefix(ev.name, kRolesFor)
		if ev.name == kRefresh || !work {
			return
		}
		c.check("lookup-refreshes", !up.refreshMissing(st), ev.pos, st, "GetTargetInfo reaches %s although no top-level targets may be trusted and no refresh has succeeded", short(ev.name))
	})
	for _, r := range up.results() {
		if r.kind != "ret" {
			continue
		}
		p := posOf(up.An, r.Outcome)
		for _, ev := range callsOf(r.st, kRefresh) {
			if okAt(r.st, ev) != 1 {
				c.check("lookup-refreshes", !r.ok && r.err.contains(ev.res[0]), p, r.st, "GetTargetInfo does not return the error of a failed refresh")
			}
		}
		if !r.ok {
			c.check("lookup-trusted", r.rets[0].isNil() || r.st.holds(isNilT(r.rets[0])), p, r.st, "GetTargetInfo returns a description together with an error")
			continue
		}
		c.check("lookup-refreshes", !up.refreshMissing(r.st), p, r.st, "GetTargetInfo succeeds although no top-level targets may be trusted and no refresh has succeeded")
		c.check("lookup-trusted", up.listedTarget(r.st, r.rets[0], up.arg(1)) != nil, p, r.st, "GetTargetInfo returns a description that no accepted targets metadata is known to list for the path: %s", r.rets[0])
	}
	c.need("lookup-refreshes", 4)
	c.need("lookup-trusted", 3)
}

// refreshMissing reports whether no top-level targets may have been trusted at
// first and no refresh has succeeded since.
func (up *Up) refreshMissing(st *State) bool {
	for _, ev := range callsOf(st, kRefresh) {
		if okAt(st, ev) == 1 && ev.args[0] == up.u {
			return false
		}
	}
	v, ok := mapGet(up.An.entry, get(up.An.entry, up.t, "Targets"), strTargets)
	return given(st, isNilT(v), not(ok)) != nil
}

// listedTarget finds the role metadata that lists v for the path: the result
// of an accepted update or an entry of the trusted set.
func (up *Up) listedTarget(st *State, v, path *Term) *Term {
	if v.op != "lookup" || v.args[1] != path {
		return nil
	}
	m := v.args[0]
	if m.op != "mopq" || len(m.args) != 1 {
		return nil
	}
	if !st.holds(mk("lookupok", "", types.Typ[types.Bool], m, path)) && !st.holds(nonNil(v)) {
		return nil
	}
	a := m.args[0]
	if a.op != "load" || a.args[0].op != "faddr" || a.args[0].fieldName() != "Targets" {
		return nil
	}
	return up.trustedRole(st, ownerOf(a.args[0]))
}

// ownerOf is the pointer whose pointee contains the addressed cell.
func ownerOf(a *Term) *Term {
	for a.op == "faddr" || a.op == "iaddr" {
		a = a.args[0]
	}
	return a
}

// trustedRole returns the role for which obj is trusted targets metadata, or nil.
func (up *Up) trustedRole(st *State, obj *Term) *Term {
	for e := st.ev; e != nil; e = e.prev {
		if (e.name == kUpDeleg || e.name == kUpTargets) && isRes(e, 0, obj) && okAt(st, e) == 1 {
			return updateRole(e)
		}
	}
	if obj.op == "lookup" {
		m := obj.args[0]
		for m.op == "mupd" {
			m = m.args[0]
		}
		if m.typ != nil && (m.op == "mopq" || m.op == "acc") && types.Identical(m.typ, get(up.An.entry, up.t, "Targets").typ) && (st.holds(mk("lookupok", "", types.Typ[types.Bool], obj.args[0], obj.args[1])) || st.holds(nonNil(obj))) {
			return obj.args[1]
		}
	}
	return nil
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// writesSlot reports whether the field itself (not what it points to) is
// assigned or its address escapes.
func writesSlot(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr == ssa.Value(fa) {
				return true
			}
		default:
			return true
		}
	}
	return false
}
