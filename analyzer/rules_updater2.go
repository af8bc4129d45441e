package main

import (
	"go/types"
	"strings"
)

// accepted reports whether the trusted set has accepted exactly these bytes
// for the role (or they are the verified initial root).
func (up *Up) accepted(st *State, role, data *Term) bool {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind != "call" || okAt(st, e) != 1 {
			continue
		}
		if isUpdate(e) && e.args[1] == data && st.holds(eqT(updateRole(e), role)) {
			return true
		}
		if e.name == kTSNew && e.args[0] == data && role == strRoot && data == up.conf(st, "LocalTrustedRoot") {
			return true
		}
	}
	return false
}

// isCacheRename recognises the replacement of a cached metadata file.
func (up *Up) isCacheRename(st *State, ev *Event) (*Event, *Term) {
	if ev.kind != "call" || ev.name != "os.Rename" {
		return nil, nil
	}
	return tempFile(st, ev.args[0]), up.fileRole(st, ev.args[1])
}

var metaEntries = []string{"New", "Refresh", "GetTargetInfo"}

func ruleC32(c *Ctx) {
	c.rule("cache-verified", "a file in the metadata cache is replaced only by bytes that the trusted set has accepted before for the role the file is named after, or by the verified initial root")
	c.rule("cache-written", "after the trusted set accepted downloaded bytes, and after a client was created on its initial root, they are in the role's cache file unless caching is off or the call fails")
	for _, name := range metaEntries {
		up := c.updater(name, nil, func(up *Up, st *State, ev *Event) {
			tmp, role := up.isCacheRename(st, ev)
			if tmp == nil && role == nil {
				return
			}
			if !c.check("cache-verified", role != nil, ev.pos, st, "%s writes the cache file %s, which is not that of a role", name, ev.args[1]) {
				return
			}
			var data *Term
			if tmp != nil {
				data = contentOf(st, tmp)
			}
			c.check("cache-verified", data != nil && up.accepted(st, role, data), ev.pos, st, "%s writes bytes to the cache file of %s that the trusted set is not known to have accepted for that role", name, role)
		})
		inHist := func(st *State, evs []*Event) {
			for _, ev := range evs {
				if !isUpdate(ev) || okAt(st, ev) != 1 || remoteOf(st, ev.args[1]) == nil {
					continue
				}
				c.check("cache-written", st.holds(up.conf(st, "DisableLocalCache")) || up.cached(st, updateRole(ev), ev.args[1]), ev.pos, st, "%s accepts downloaded metadata for %s without caching it", name, updateRole(ev))
			}
		}
		seen := map[*Back]bool{}
		for _, r := range up.results() {
			if r.kind != "ret" || !r.ok {
				continue
			}
			inHist(r.st, r.st.events())
			walkBacks(r.st.events(), seen, func(b *Back, l *LoopSum) { inHist(b.st, b.evs) })
			if name == "New" {
				c.check("cache-written", r.st.holds(up.conf(r.st, "DisableLocalCache")) || up.cached(r.st, strRoot, up.conf(r.st, "LocalTrustedRoot")), posOf(up.An, r.Outcome), r.st, "New succeeds without caching the initial root")
			}
		}
	}
	c.need("cache-verified", 5)
	c.need("cache-written", 5)
}

// walkBacks visits every summarised iteration once.
func walkBacks(evs []*Event, seen map[*Back]bool, f func(b *Back, l *LoopSum)) {
	for _, ev := range evs {
		if ev.kind != "loop" || ev.loop == nil {
			continue
		}
		for _, b := range ev.loop.backs {
			if seen[b] {
				continue
			}
			seen[b] = true
			f(b, ev.loop)
			walkBacks(b.evs, seen, f)
		}
	}
}

func ruleC33(c *Ctx) {
	c.rule("cache-atomic", "the metadata directory is only changed by creating a temporary file in it, writing that file once, and renaming it, completely and successfully written, onto the cache file of a role, or removing it")
	c.rule("temp-closed", "every temporary file created is closed on every path")
	c.rule("temp-removed", "every temporary file that was not renamed successfully is removed on every path")
	c.rule("write-reported", "a failed creation, write or rename of a cache file is reported")
	for _, name := range metaEntries {
		up := c.updater(name, nil, func(up *Up, st *State, ev *Event) {
			if !isFSChange(ev) {
				return
			}
			dir := up.conf(st, "LocalMetadataDir")
			switch ev.name {
			case "os.MkdirAll", "os.Mkdir":
				c.check("cache-atomic", ev.args[0] == dir || ev.args[0] == up.conf(st, "LocalTargetsDir"), ev.pos, st, "%s creates the directory %s", name, ev.args[0])
			case "os.CreateTemp", "io/ioutil.TempFile":
				c.check("cache-atomic", ev.args[0] == dir, ev.pos, st, "%s creates its temporary file in %s, not in the metadata directory", name, ev.args[0])
			case "os.Rename":
				tmp, role := up.isCacheRename(st, ev)
				c.check("cache-atomic", role != nil, ev.pos, st, "%s renames a file onto %s, which is no cache file", name, ev.args[1])
				c.check("cache-atomic", tmp != nil && contentOf(st, tmp) != nil, ev.pos, st, "%s renames a file that is not a completely written temporary file onto a cache file", name)
			default:
				c.check("cache-atomic", tempFile(st, ev.args[0]) != nil, ev.pos, st, "%s changes the file %s in place with %s", name, ev.args[0], ev.name)
			}
		})
		clean := func(st *State, evs []*Event, ended bool, r *ares) {
			for i, ev := range evs {
				if ev.kind != "call" {
					continue
				}
				if isFSChange(ev) && r != nil && r.ok {
					switch ev.name {
					case "os.CreateTemp", "os.WriteFile", "os.Rename", "os.File.Write", "os.File.WriteString", "io.WriteString", "os.MkdirAll":
						c.check("write-reported", okAt(st, ev) == 1, ev.pos, st, "%s succeeds although %s may have failed", name, ev.name)
					}
				} else if isFSChange(ev) && r == nil && ev.name != "os.Remove" {
					c.check("write-reported", okAt(st, ev) == 1, ev.pos, st, "%s goes on although %s may have failed", name, ev.name)
				}
				if ev.name != "os.CreateTemp" || okAt(st, ev) == -1 {
					continue
				}
				f := ev.res[0]
				nm := mk("app", "os.File.Name", types.Typ[types.String], f)
				closed, gone := false, false
				for _, x := range evs[i+1:] {
					if x.kind != "call" || len(x.args) == 0 {
						continue
					}
					if x.name == "os.File.Close" && strip(x.args[0]) == f {
						closed = true
					}
					if x.name == "os.Rename" && x.args[0] == nm && okAt(st, x) == 1 {
						gone = true
					}
					if x.name == "os.Remove" && x.args[0] == nm {
						gone = true
					}
				}
				c.check("temp-closed", closed, ev.pos, st, "%s leaves the temporary file open", name)
				c.check("temp-removed", gone, ev.pos, st, "%s leaves the temporary file behind", name)
			}
		}
		seen := map[*Back]bool{}
		for _, r := range up.results() {
			r := r
			if r.kind != "ret" {
				continue
			}
			clean(r.st, r.st.events(), true, &r)
			walkBacks(r.st.events(), seen, func(b *Back, l *LoopSum) { clean(b.st, b.evs, false, nil) })
		}
	}
	c.need("cache-atomic", 10)
	c.need("temp-closed", 5)
	c.need("temp-removed", 5)
	c.need("write-reported", 5)
}

func ruleC34(c *Ctx) {
	c.rule("local-verified", "bytes read from the metadata cache are only handed to the trusted set, for the role of the file they come from; everything handed to it comes from a download or the cache")
	c.rule("local-never-blocks", "an online update that fails after a cached file could not be read or was refused fails for another reason: a failed download, refused downloaded bytes, a failed write, or because the trusted metadata gives no snapshot or no entry for the role")
	c.rule("timestamp-remote", "a successful online refresh has requested the timestamp from the repository")
	for _, name := range []string{"Refresh", "GetTargetInfo"} {
		up := c.updater(name, online, func(up *Up, st *State, ev *Event) {
			if ev.kind != "call" {
				return
			}
			if isUpdate(ev) {
				l := localOf(st, ev.args[1])
				c.check("local-verified", l != nil || remoteOf(st, ev.args[1]) != nil, ev.pos, st, "%s gives the trusted set bytes that are neither downloaded nor read from the cache: %s", name, ev.args[1])
				if l != nil {
					c.check("local-verified", st.holds(eqT(l, up.cacheFile(st, updateRole(ev)))), ev.pos, st, "%s updates %s with bytes read from %s", name, updateRole(ev), l)
				}
				return
			}
			for i, a := range ev.args {
				a = strip(a)
				if a.op == "res" && isLocalData(st, a) && !strings.HasPrefix(ev.name, "print:") {
					c.check("local-verified", false, ev.pos, st, "%s passes bytes read from the cache to %s (argument %d)", name, short(ev.name), i)
				}
			}
		})
		for _, r := range up.results() {
			if r.kind != "ret" {
				continue
			}
			p := posOf(up.An, r.Outcome)
			if r.ok {
				if name == "Refresh" {
					ok := false
					for _, ev := range callsOf(r.st, kDownload) {
						q, is := up.requestOf(r.st, ev)
						ok = ok || is && q.role == strTimestamp && okAt(r.st, ev) == 1
					}
					c.check("timestamp-remote", ok, p, r.st, "Refresh succeeds without requesting the timestamp from the repository")
				}
				continue
			}
			// the last thing that failed or was attempted
			var last *Event
			var role *Term
			for e := r.st.ev; e != nil; e = e.prev {
				if e.kind != "call" {
					continue
				}
				l := e.name == "os.Open" || e.name == "os.ReadFile" || e.name == "io.ReadAll" || isUpdate(e) && isLocalData(r.st, e.args[1])
				if isUpdate(e) && role == nil {
					role = updateRole(e)
				}
				if (e.name == "os.Open" || e.name == "os.ReadFile") && role == nil {
					role = up.fileRole(r.st, e.args[0])
				}
				if last == nil && (l && okAt(r.st, e) != 1 || isWork(e) && !l && okAt(r.st, e) != 1 && (!up.excusable(r.st, e) || isWriteEnd(e) && okAt(r.st, e) == -1)) {
					last = e
				}
			}
			if name == "GetTargetInfo" {
				// a search may end without the target: C39 decides when
				if last == nil {
					continue
				}
				done := false
				for e := r.st.ev; e != last; e = e.prev {
					done = done || isUpdate(e) && okAt(r.st, e) == 1 || e.name == kRefresh || e.kind == "loop"
				}
				if done {
					continue
				}
			}
			if last != nil && isWork(last) && !(isUpdate(last) && isLocalData(r.st, last.args[1])) {
				continue
			}
			ts, sn := get(r.st, up.t, "Timestamp"), get(r.st, up.t, "Snapshot")
			ok := false
			switch {
			case role == strSnapshot:
				ok = r.st.holds(isNilT(ts))
			case role != nil && role != strTimestamp:
				ok = r.st.holds(isNilT(sn))
			}
			if !ok && role != nil && role != strTimestamp && role != strSnapshot {
				info, in := up.e.mapElem(r.st, get(r.st, sn, "Signed.Meta"), mkCat(role, mkStr(".json")))
				ok = r.st.fails(in) || r.st.holds(isNilT(info))
			}
			c.check("local-never-blocks", ok, p, r.st, "%s fails because a cached file could not be used", name)
		}
	}
	c.need("local-verified", 8)
	c.need("timestamp-remote", 1)
}

// lengthOK decides that a metadata request is made with the right limit for the role.
func (up *Up) lengthOK(st *State, role, limit *Term) bool {
	conf := func(n string) bool { return st.holds(eqT(limit, up.conf(st, n))) }
	switch role {
	case strRoot:
		return conf("RootMaxLength")
	case strTimestamp:
		return conf("TimestampMaxLength")
	}
	max := "TargetsMaxLength"
	if role == strSnapshot {
		max = "SnapshotMaxLength"
	}
	l := get(st, up.listed(st, role), "Length")
	if s := given(st, eqT(l, mkInt(0))); s != nil && !s.holds(eqT(limit, up.conf(s, max))) {
		return false
	}
	if s := given(st, not(eqT(l, mkInt(0)))); s != nil && !s.holds(eqT(limit, l)) {
		return false
	}
	return true
}

func ruleC35(c *Ctx) {
	c.rule("metadata-limit", "root and timestamp are requested with their configured limit, snapshot and targets with the length that the trusted timestamp or snapshot lists for that file or, if that is zero, the configured limit")
	c.rule("target-limit", "a target is requested with the length of its description")
	for _, name := range []string{"Refresh", "GetTargetInfo"} {
		c.updater(name, nil, func(up *Up, st *State, ev *Event) {
			if ev.kind != "call" || ev.name != kDownload {
				return
			}
			if r, ok := up.requestOf(st, ev); ok {
				c.check("metadata-limit", up.lengthOK(st, r.role, ev.args[2]), ev.pos, st, "%s requests %s with the limit %s", name, r.role, ev.args[2])
				return
			}
			ok := false
			for _, role := range rolesIn(ev.args[1]) {
				ok = ok || up.lengthOK(st, role, ev.args[2])
			}
			c.check("metadata-limit", ok, ev.pos, st, "%s requests %s with the limit %s", name, ev.args[1], ev.args[2])
		})
	}
	c.updater("DownloadTarget", nil, func(up *Up, st *State, ev *Event) {
		if ev.kind == "call" && ev.name == kDownload {
			l := get(up.An.entry, up.An.arg(1), "Length")
			c.check("target-limit", st.holds(eqT(ev.args[2], l)), ev.pos, st, "the target is requested with the limit %s, not the length of its description", ev.args[2])
		}
	})
	c.need("metadata-limit", 8)
	c.need("target-limit", 1)
}

func ruleC36(c *Ctx) {
	c.rule("metadata-address", "metadata is requested at <metadata base>/<role>.json, root always and snapshot and targets exactly under consistent snapshots with <version>. in front of the role, the version being the one the trusted timestamp or snapshot lists, the timestamp never")
	c.rule("metadata-role", "bytes handed to the trusted set for a role were requested at that role's address")
	c.rule("target-address", "a target is requested at <target base>/<path>, with <digest>. in front of the last path component exactly when consistent snapshots and hash prefixes are enabled")
	for _, name := range []string{"Refresh", "GetTargetInfo"} {
		c.updater(name, nil, func(up *Up, st *State, ev *Event) {
			if isUpdate(ev) {
				if d := remoteOf(st, ev.args[1]); d != nil {
					q, ok := up.requestOf(st, d)
					c.check("metadata-role", ok && st.holds(eqT(q.role, updateRole(ev))), ev.pos, st, "%s updates %s with bytes requested at %s", name, updateRole(ev), d.args[1])
				}
			}
			if ev.kind != "call" || ev.name != kDownload {
				return
			}
			r, ok := up.requestOf(st, ev)
			if !c.check("metadata-address", ok, ev.pos, st, "%s requests metadata at %s", name, ev.args[1]) {
				return
			}
			switch r.role {
			case strRoot:
				c.check("metadata-address", r.version != nil, ev.pos, st, "%s requests root without a version", name)
			case strTimestamp:
				c.check("metadata-address", r.version == nil, ev.pos, st, "%s requests the timestamp with a version", name)
			default:
				cs := get(st, get(st, up.t, "Root"), "Signed.ConsistentSnapshot")
				if s := given(st, cs); s != nil {
					c.check("metadata-address", r.version != nil && s.holds(eqT(r.version, get(s, up.listed(s, r.role), "Version"))), ev.pos, s, "%s requests %s under consistent snapshots without the version listed for it", name, r.role)
				}
				if s := given(st, not(cs)); s != nil {
					c.check("metadata-address", r.version == nil, ev.pos, s, "%s requests %s with a version although consistent snapshots may be off", name, r.role)
				}
			}
		})
	}
	c.updater("DownloadTarget", nil, func(up *Up, st *State, ev *Event) {
		if ev.kind != "call" || ev.name != kDownload {
			return
		}
		base := up.An.arg(3)
		if s := given(st, eqT(mkLen(base), mkInt(0))); s != nil {
			c.check("target-address", up.targetURL(s, ev.args[1], up.conf(s, "RemoteTargetsURL")), ev.pos, s, "without an address argument the target is requested at %s", ev.args[1])
		}
		if s := given(st, not(eqT(mkLen(base), mkInt(0)))); s != nil {
			c.check("target-address", up.targetURL(s, ev.args[1], base), ev.pos, s, "with an address argument the target is requested at %s", ev.args[1])
		}
	})
	c.need("metadata-address", 8)
	c.need("metadata-role", 4)
	c.need("target-address", 2)
}

// targetURL decides that u is the right address of the target below base.
func (up *Up) targetURL(st *State, u, base *Term) bool {
	parts := []*Term{base}
	if !st.holds(mk("app", "strings.HasSuffix", types.Typ[types.Bool], base, mkStr("/"))) {
		parts = append(parts, mkStr("/"))
	}
	tf := up.An.arg(1)
	path := get(up.An.entry, tf, "Path")
	cs := get(up.An.entry, get(up.An.entry, up.t, "Root"), "Signed.ConsistentSnapshot")
	prefix := up.conf(up.An.entry, "PrefixTargetsWithHash")
	if s := given(st, cs, prefix); s != nil {
		hashes := get(up.An.entry, tf, "Hashes")
		digest := func(x *Term) bool { // the hex form of one of the digests
			for x.op == "app" && strings.HasPrefix(x.name, "hex.EncodeToString") {
				x = x.args[0]
			}
			for x.op == "convert" {
				x = x.args[0]
			}
			return x.op == "lookup" && x.args[0] == up.An.entry.mapVal(hashes)
		}
		rest, ok := cutCat(u, mkCat(parts...))
		if !ok {
			return false
		}
		if !prefixedPath(s, rest, path, up.An.entry.mapVal(hashes), digest) {
			return false
		}
	}
	for _, s := range []*State{given(st, not(cs)), given(st, not(prefix))} {
		if s != nil && u != mkCat(append(append([]*Term{}, parts...), path)...) {
			return false
		}
	}
	return true
}

// cutCat removes a prefix of a concatenation.
func cutCat(t, p *Term) (*Term, bool) {
	ps := []*Term{p}
	if p.op == "cat" {
		ps = p.args
	}
	ts := []*Term{t}
	if t.op == "cat" {
		ts = t.args
	}
	if len(ts) < len(ps) {
		return nil, false
	}
	for i := range ps {
		if ts[i] == ps[i] {
			continue
		}
		// constants next to each other are one
		a, ok1 := ts[i].strVal()
		b, ok2 := ps[i].strVal()
		if i < len(ps)-1 || !ok1 || !ok2 || !strings.HasPrefix(a, b) {
			return nil, false
		}
		return mkCat(append([]*Term{mkStr(a[len(b):])}, ts[len(ps):]...)...), true
	}
	return mkCat(ts[len(ps):]...), true
}

// prefixedPath decides that rest is the path with a digest and a dot in front
// of its last component.
func prefixedPath(st *State, rest, path, hashes *Term, digest func(x *Term) bool) bool {
	ps := []*Term{rest}
	if rest.op == "cat" {
		ps = rest.args
	}
	app := func(n string, args ...*Term) func(x *Term) bool {
		return func(x *Term) bool {
			if x.op != "app" || x.name != n || len(x.args) != len(args) {
				return false
			}
			for i := range args {
				if x.args[i] != args[i] {
					return false
				}
			}
			return true
		}
	}
	isLast := func(x *Term) bool { // the position of the last slash
		return app("strings.LastIndex", path, mkStr("/"))(x) || x.op == "app" && x.name == "strings.LastIndexByte" && x.args[0] == path && isConstInt(x.args[1], 47)
	}
	slashAt := func(x *Term, off int64) *Term { // x is the last slash's position plus off: the position, or nil
		y := plus(x, -off)
		if isLast(y) {
			return y
		}
		return nil
	}
	var dir []*Term
	i := 0
	for i < len(ps) && !digest(ps[i]) {
		if s, ok := ps[i].strVal(); ok && strings.HasPrefix(s, ".") {
			break
		}
		dir = append(dir, ps[i])
		i++
	}
	if i < len(ps) && digest(ps[i]) {
		i++
	} else {
		// no digest: only if there is none
		none := false
		for t, v := range st.bools {
			none = none || !v && t.op == "nextok" && t.args[0] == hashes
		}
		if !none {
			return false
		}
	}
	if i+2 != len(ps) || ps[i] != mkStr(".") {
		return false
	}
	base := ps[i+1]
	d := mkCat(dir...)
	switch {
	case len(dir) == 0:
		if base != path {
			return false
		}
		for t, v := range st.bools {
			if !v && app("strings.Contains", path, mkStr("/"))(t) {
				return true
			}
		}
		l := mk("app", "strings.LastIndex", types.Typ[types.Int], path, mkStr("/"))
		return st.holds(ltT(l, mkInt(0)))
	case (app("path.Split:0", path)(d) && app("path.Split:1", path)(base)):
		return true
	case base.op == "substr" && base.args[0] == path && slashAt(base.args[1], 1) != nil && base.args[2].op == "none":
		l := slashAt(base.args[1], 1)
		isDir := func(x *Term, off int64) bool {
			return x.op == "substr" && x.args[0] == path && isConstInt(x.args[1], 0) && x.args[2] == plus(l, off)
		}
		return isDir(d, 1) || len(dir) == 2 && isDir(dir[0], 0) && dir[1] == mkStr("/") && st.holds(not(ltT(l, mkInt(0))))
	}
	return false
}
