package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// plainName says what is known about a name being that of a folder directly
// inside another: 1 yes, -1 no.
func plainName(st *State, n *Term) int {
	for _, s := range []string{"", ".", "..", "/", "\\"} {
		if st.holds(eqT(n, mkStr(s))) {
			return -1
		}
	}
	base := mk("app", "path/filepath.Base", types.Typ[types.String], n)
	if st.fails(eqT(base, n)) {
		return -1
	}
	sep := 1 // no separators, as far as is known
	for _, c := range []string{"/", "\\"} {
		known := 0
		for t, v := range st.bools {
			if t.op != "app" || len(t.args) != 2 || t.args[0] != n || t.args[1].op != "const" || t.args[1].cv.Kind() != constant.String {
				continue
			}
			chars := constant.StringVal(t.args[1].cv)
			switch t.name {
			case "strings.ContainsAny":
				if v && strings.Trim(chars, "/\\") == "" {
					return -1
				}
				if !v && strings.Contains(chars, c) {
					known = 1
				}
			case "strings.Contains":
				if chars == c {
					if v {
						return -1
					}
					known = 1
				}
			}
		}
		for _, f := range []string{"strings.IndexAny", "strings.Index"} {
			for _, chars := range []string{"/\\", "\\/", c} {
				neg := ltT(mk("app", f, types.Typ[types.Int], n, mkStr(chars)), mkInt(0))
				if f == "strings.Index" && chars != c {
					continue
				}
				if st.fails(neg) {
					return -1
				}
				if st.holds(neg) {
					known = 1
				}
			}
		}
		if known == 0 {
			sep = 0
		}
	}
	if st.holds(eqT(base, n)) && st.fails(eqT(n, mkStr("/"))) {
		sep = 1
	}
	for _, s := range []string{"", ".", ".."} {
		if !st.fails(eqT(n, mkStr(s))) && !(s == "" && st.holds(eqT(base, n))) {
			return 0
		}
	}
	return sep
}

// libraryFailed decides that a call outside the module, or to a modelled
// operation, failed on the way.
func libraryFailed(st *State, err *Term) bool {
	for t, v := range st.bools {
		if v || t.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x := t.args[i]
			if t.args[1-i].isNil() && x.typ != nil && isInterface(x.typ) && (x.op == "app" || x.op == "res") && mentions(err, x) {
				return true
			}
		}
	}
	return false
}

func ruleC62(c *Ctx) {
	c.rule("own", "a repository client is built from the root under the repository's name, the first address of the repository and a folder with its name in the metadata folder, in a configuration of its own")
	c.rule("name", "no client is built for a repository whose name is not a plain folder name, or without an address or a root")
	c.rule("each", "success means that every repository of the map file has the client built for it, under its name, and no client is kept otherwise")
	c.rule("refused", "setting up fails only for a bad name, a missing address or root, or because a step failed")
	c.rule("config", "a configuration is accepted only with a root for every repository, and keeps the decoded map file and those roots")
	var repos, roots *Term
	// isClient returns "" if the event creates the client of repository n
	isClient := func(m *Multi, st *State, ev *Event, n *Term) string {
		cfg := ev.args[0]
		f := func(s string) *Term { return get(st, cfg, s) }
		urls, _ := st.lookup(repos, n, mapElemType(repos))
		root, _ := st.lookup(roots, n, mapElemType(roots))
		switch {
		case f("LocalTrustedRoot") != root:
			return "it trusts another root than the one under the repository's name"
		case f("RemoteMetadataURL") != st.load(mkIaddr(urls, mkInt(0), types.Typ[types.String]), types.Typ[types.String]):
			return "its address is not the first of the repository"
		case f("LocalMetadataDir") != mk("app", "join", types.Typ[types.String], get(st, m.cfg, "LocalMetadataDir"), n):
			return "its metadata folder is not the one with its name"
		case !m.targetsFolder(st, f("LocalTargetsDir"), f("LocalMetadataDir")):
			return "its targets folder is neither the one configured nor, if there is none, one in its metadata folder"
		case !isFreshOp(cfg.root()):
			return "its configuration is not its own"
		}
		return ""
	}
	m := c.multi("New", func(m *Multi, st *State, ev *Event) {
		repos = st.mapVal(get(st, m.cfg, "RepoMap.Repositories"))
		roots = st.mapVal(get(st, m.cfg, "TrustedRoots"))
		if ev.kind != "call" || ev.name != kUpNew {
			return
		}
		why := "it is not built for a repository of the map file"
		var name *Term
		for _, n := range keysIn(st, repos) {
			if why = isClient(m, st, ev, n); why == "" {
				name = n
				break
			}
		}
		c.check("own", name != nil, ev.pos, st, "New may build a client of which the following holds: %s", why)
		if name == nil {
			return
		}
		urls, _ := st.lookup(repos, name, mapElemType(repos))
		c.check("name", plainName(st, name) == 1, ev.pos, st, "New may build a client for a repository whose name is not a plain folder name")
		c.check("name", st.holds(ltT(mkInt(0), mkLen(urls))), ev.pos, st, "New may build a client for a repository without an address")
		c.check("name", st.holds(lookupOK(roots, name)), ev.pos, st, "New may build a client for a repository without a root")
	})
	// the configuration is one iteration's own
	ownConfig := func(sum *LoopSum, ev *Event) bool {
		return strings.Contains(ev.args[0].root().name, sum.tagP)
	}
	for _, r := range m.results() {
		pos := posOf(m.An, r.Outcome)
		if repos == nil {
			continue
		}
		if !r.ok {
			why := libraryFailed(r.st, r.err)
			for _, n := range keysIn(r.st, repos) {
				urls, _ := r.st.lookup(repos, n, mapElemType(repos))
				why = why || plainName(r.st, n) == -1 || !possible(r.st, ltT(mkInt(0), mkLen(urls))) || r.st.fails(lookupOK(roots, n))
			}
			for _, ev := range r.st.events() {
				why = why || ev.kind == "call" && okAt(r.st, ev) == -1
			}
			c.check("refused", why, pos, r.st, "New may fail although every repository is described well")
			continue
		}
		c.check("config", get(r.st, r.rets[0], "Config") == m.cfg, pos, r.st, "the client may keep another configuration than the one given")
		table := r.st.mapVal(get(r.st, r.rets[0], "TUFClients"))
		if r.st.holds(eqT(mkLen(repos), mkInt(0))) && emptyColl(table) {
			continue
		}
		acc := m.e.accs[table]
		if !c.check("each", acc != nil && acc.v.symC == table && acc.v.init != nil && emptyColl(acc.v.init), pos, r.st, "New may keep clients it did not build: %s", cut(table.String(), 60)) {
			continue
		}
		ok, why := m.forallMap(r.st, repos, func(bs *State, n *Term) string {
			for _, b := range acc.sum.allBacks {
				nv := b.vals[acc.v.id]
				if nv == nil || nv.op != "mupd" || nv.args[0] != acc.v.symP || nv.args[1] != n {
					return "its client may not be kept under its name"
				}
				built := false
				for _, ev := range b.evs {
					if ev.kind == "call" && ev.name == kUpNew && okAt(b.st, ev) == 1 && ev.res[0] == nv.args[2] {
						built = isClient(m, b.st, ev, n) == "" && ownConfig(acc.sum, ev)
					}
				}
				if !built {
					return "what is kept under its name may not be the client built for it"
				}
			}
			return ""
		})
		c.check("each", ok && loopOnPath(r.st, acc.sum) != nil, pos, r.st, "New may succeed although for a repository the following holds: %s", why)
	}
	c.need("own", 2)
	c.need("name", 6)
	c.need("each", 2)
	c.need("refused", 3)
	c.childCache()

	nc := c.multi("NewConfig", nil)
	for _, r := range nc.results() {
		if !r.ok {
			c.check("refused", nc.badConfig(r.st), posOf(nc.An, r.Outcome), r.st, "NewConfig may fail although the map file is well-formed and every repository has a root")
			continue
		}
		pos := posOf(nc.An, r.Outcome)
		st := r.st
		cfg := r.rets[0]
		c.check("config", get(st, cfg, "TrustedRoots") == nc.arg(1), pos, st, "NewConfig may keep other roots than those given")
		rm := get(st, cfg, "RepoMap")
		decoded := false
		for _, ev := range callsOf(st, "encoding/json.Unmarshal") {
			decoded = decoded || okAt(st, ev) == 1 && ev.args[0] == nc.arg(0) && (rm.contains(ev.args[1]) || decodedFromEvent(st, rm, ev))
		}
		c.check("config", decoded, pos, st, "NewConfig may keep another map file than the one decoded from the bytes given")
		if !c.check("config", !st.holds(isNilT(rm)) && st.holds(nonNil(rm)), pos, st, "NewConfig may accept a null map file") {
			continue
		}
		maps := get(st, rm, "Mapping")
		if mt, ok := maps.typ.Underlying().(*types.Slice); ok && derefType(mt.Elem()) != mt.Elem() {
			whole := false
			for t, v := range st.bools {
				whole = whole || !v && t.op == "contains" && t.args[0] == maps && t.args[1].isNil()
			}
			if !whole {
				whole, _ = nc.forallSlice(st, maps, func(bs *State, i *Term) string {
					if bs.holds(nonNil(bs.load(mkIaddr(maps, i, mt.Elem()), mt.Elem()))) {
						return ""
					}
					return "a mapping may be null"
				})
			}
			c.check("config", whole, pos, st, "NewConfig may accept a map file with a null mapping")
		}
		rp := st.mapVal(get(st, rm, "Repositories"))
		rts := st.mapVal(nc.arg(1))
		ok, why := nc.forallMap(st, rp, func(bs *State, n *Term) string {
			if bs.holds(lookupOK(rts, n)) {
				return ""
			}
			return "a repository may have no root"
		})
		c.check("config", ok, pos, st, "NewConfig may accept a map file although %s", why)
	}
	c.need("config", 5)
}

// targetsFolder decides that dir is the targets folder a repository client may use.
func (m *Multi) targetsFolder(st *State, dir, meta *Term) bool {
	given1 := m.conf(st, "LocalTargetsDir")
	parts := []*Term{meta}
	if meta.op == "app" && meta.name == "join" {
		parts = meta.args
	}
	own := mk("app", "join", types.Typ[types.String], append(append([]*Term{}, parts...), mkStr("targets"))...)
	unset := eqT(mkLen(given1), mkInt(0))
	for _, cnd := range []*Term{unset, not(unset)} {
		s := given(st, cnd)
		if s == nil {
			continue
		}
		if cnd != unset && dir != given1 || cnd == unset && dir != own {
			return false
		}
	}
	return true
}

// badConfig decides that there is a reason to refuse the map file or the roots.
func (m *Multi) badConfig(st *State) bool {
	if someLibraryFailed(st) {
		return true
	}
	for _, a := range []*Term{m.arg(0), m.arg(1), st.mapVal(m.arg(1))} {
		if st.holds(isNilT(a)) || st.holds(eqT(mkLen(a), mkInt(0))) || st.holds(ltT(mkLen(a), mkInt(1))) {
			return true
		}
	}
	rts := st.mapVal(m.arg(1))
	for t, v := range st.bools {
		switch {
		case v && t.op == "eq":
			for i := 0; i < 2; i++ {
				if x := t.args[i]; t.args[1-i].isNil() && x.typ != nil && (x.op == "load" || x.op == "sym") && derefType(x.typ) != x.typ {
					return true
				}
			}
		case v && t.op == "contains":
			if t.args[1].isNil() {
				return true
			}
		case !v && t.op == "lookupok":
			if t.args[0] == rts {
				return true
			}
		}
	}
	return false
}

// decodedFromEvent decides that the value was read from what the event decoded into.
func decodedFromEvent(st *State, v *Term, ev *Event) bool {
	return false
}

// childCache checks that the cache policy is passed on.
func (c *Ctx) childCache() {
	c.rule("policy", "a repository client caches exactly if the configuration says so")
	c.multi("New", func(m *Multi, st *State, ev *Event) {
		if ev.kind != "call" || ev.name != kUpNew {
			return
		}
		off := m.conf(st, "DisableLocalCache")
		child := get(st, ev.args[0], "DisableLocalCache")
		same := child == off
		if !same {
			same = true
			for _, cnd := range []*Term{off, not(off)} {
				s := given(st, cnd)
				same = same && (s == nil || cnd == off && s.holds(child) || cnd != off && s.fails(child))
			}
		}
		c.check("policy", same, ev.pos, st, "New may build a client with another cache policy than the one given")
	})
	c.need("policy", 2)
}

// askedOf decides that the event asks the client of repository n.
func askedOf(clients, n *Term, ev *Event) bool {
	x := ev.args[0]
	return x.op == "lookup" && x.args[0] == clients && x.args[1] == n
}

func ruleC63(c *Ctx) {
	c.rule("source", "what is returned is what the cache lookup, having found something, or the download of a given repository's client returned, asked for the same target and file")
	c.rule("order", "repositories are tried in the given order, the next one only after one failed")
	c.rule("failure", "an error means that a cache lookup failed or that every repository failed")
	m := c.multi("DownloadTarget", nil)
	repos := m.arg(1)
	var clients *Term
	asks := func(st *State, ev *Event, i *Term) bool {
		if ev.kind != "call" || ev.name != kUpDT && ev.name != kUpFCT {
			return false
		}
		n := st.load(mkIaddr(repos, i, types.Typ[types.String]), types.Typ[types.String])
		if !askedOf(clients, n, ev) {
			return false
		}
		for k := 1; k < len(ev.args); k++ {
			if ev.args[k] != m.arg(k+1) {
				return false
			}
		}
		return true
	}
	failed := func(b *Back, i *Term) bool {
		for _, ev := range b.evs {
			if asks(b.st, ev, i) && okAt(b.st, ev) == -1 {
				return true
			}
		}
		n := b.st.load(mkIaddr(repos, i, types.Typ[types.String]), types.Typ[types.String])
		x := mk("lookup", "", mapElemType(clients), clients, n)
		return b.st.fails(lookupOK(clients, n)) || b.st.holds(isNilT(x))
	}
	for _, r := range m.results() {
		st := r.st
		pos := posOf(m.An, r.Outcome)
		clients = st.mapVal(get(st, m.client, "TUFClients"))
		if st.holds(eqT(mkLen(repos), mkInt(0))) {
			c.check("failure", !r.ok, pos, st, "DownloadTarget may succeed without a repository")
			continue
		}
		// the loop over the repositories
		var loop *LoopSum
		why := "no loop over the repositories was found"
		for _, ev := range st.events() {
			if ev.kind != "loop" || ev.loop == nil {
				continue
			}
			bad := ""
			for _, b := range ev.loop.backs {
				if !failed(b, ev.loop.itP) {
					bad = "a repository may be passed over although it did not fail"
				}
			}
			uses := exhausted(st, ev.loop, repos)
			for _, x := range st.events() {
				uses = uses || asks(st, x, ev.loop.itC)
			}
			if !uses {
				continue
			}
			loop, why = ev.loop, bad
		}
		if !c.check("order", loop != nil && why == "", pos, st, "DownloadTarget: %s", why) {
			continue
		}
		if r.ok {
			good := false
			for _, ev := range st.events() {
				if !asks(st, ev, loop.itC) || okAt(st, ev) != 1 || r.rets[0] != ev.res[0] || r.rets[1] != ev.res[1] {
					continue
				}
				good = good || ev.name == kUpDT || st.fails(eqT(ev.res[0], mkStr("")))
			}
			c.check("source", good, pos, st, "DownloadTarget may return something else than what a repository's client returned for the target: %s", resultText(r))
			continue
		}
		good := exhausted(st, loop, repos)
		for _, ev := range st.events() {
			good = good || ev.name == kUpFCT && asks(st, ev, loop.itC) && okAt(st, ev) == -1
		}
		c.check("failure", good, pos, st, "DownloadTarget may fail although a repository was not tried")
	}
	c.need("source", 1)
	c.need("order", 3)
	c.need("failure", 1)
}

func ruleC64(c *Ctx) {
	c.rule("obtained", "every description that is listed was obtained for its name through the mapping search")
	c.rule("conflict", "a name is listed once: another description for it makes the listing fail")
	c.rule("all", "the listing succeeds only if every name every repository lists was established")
	c.rule("failure", "the listing fails only if a search failed or two descriptions of a name differ")
	c.rule("refresh", "refreshing succeeds only if every repository was refreshed, and fails only if one failed")
	m := c.multi("GetTopLevelTargets", nil)
	// established returns the search for the name that succeeded
	search := func(st *State, k *Term, d int) *Event {
		for _, ev := range callsOf(st, kMultiGTI) {
			if ev.args[0] == m.client && ev.args[1] == k && okAt(st, ev) == d {
				return ev
			}
		}
		return nil
	}
	same := func(st *State, a, b *Term) int {
		for _, ev := range callsOf(st, kTFEqual) {
			q := &consensus{Multi: m}
			x, y := q.described(st, ev.args[0]), q.described(st, ev.args[1])
			if x == a && y == b || x == b && y == a {
				if d := st.decide(ev.res[0]); d != 0 {
					return d
				}
			}
		}
		return 0
	}
	// entry judges what an iteration does to the list
	entry := func(st *State, prev, nv, k *Term) string {
		old := mk("lookup", "", mapElemType(nv), prev, k)
		switch {
		case nv == prev:
			if !st.holds(lookupOK(prev, k)) {
				return "all: a name may be left out"
			}
			if ev := search(st, k, 1); ev != nil && same(st, old, ev.res[0]) != 1 {
				return "conflict: a description that differs may be ignored"
			}
			return ""
		case nv.op == "mupd" && nv.args[0] == prev:
			if nv.args[1] != k {
				return "obtained: an entry is made under another name"
			}
			ev := search(st, k, 1)
			if ev == nil || ev.res[0] != nv.args[2] {
				return "obtained: an entry may not come from the mapping search for its name"
			}
			if !st.fails(lookupOK(prev, k)) && same(st, old, ev.res[0]) != 1 {
				return "conflict: an entry may be replaced by another description"
			}
			return ""
		}
		return "obtained: the list may be changed otherwise"
	}
	for _, r := range m.results() {
		st := r.st
		pos := posOf(m.An, r.Outcome)
		if !r.ok {
			good := false
			for _, ev := range callsOf(st, kMultiGTI) {
				good = good || okAt(st, ev) == -1
			}
			for _, ev := range callsOf(st, kTFEqual) {
				good = good || st.fails(ev.res[0])
			}
			c.check("failure", good, pos, st, "GetTopLevelTargets may fail although every search succeeded")
			continue
		}
		clients := st.mapVal(get(st, m.client, "TUFClients"))
		list := st.mapVal(r.rets[0])
		if emptyColl(list) {
			c.check("all", st.holds(eqT(mkLen(clients), mkInt(0))), pos, st, "GetTopLevelTargets may list nothing although there are repositories")
			continue
		}
		acc := m.e.accs[list]
		if !c.check("obtained", acc != nil && acc.v.symC == list && acc.v.init != nil && emptyColl(acc.v.init), pos, st, "GetTopLevelTargets may return a list of unknown origin: %s", cut(list.String(), 60)) {
			continue
		}
		bad := map[string]string{}
		note := func(w string) {
			if w != "" {
				rule, text, _ := strings.Cut(w, ": ")
				bad[rule] = text
			}
		}
		ok, why := m.forallMap(st, clients, func(bs *State, n *Term) string {
			// the names of this repository
			for _, b := range acc.sum.allBacks {
				top := (*Event)(nil)
				for _, ev := range b.evs {
					if ev.kind == "call" && ev.name == kUpTop && askedOf(clients, n, ev) {
						top = ev
					}
				}
				if top == nil {
					return "its targets are not asked for"
				}
				names := b.st.mapVal(top.res[0])
				nv := b.vals[acc.v.id]
				if nv == acc.v.symP && b.st.holds(eqT(mkLen(names), mkInt(0))) {
					continue
				}
				in := m.e.accs[nv]
				if in == nil || in.v.symC != nv || in.v.init != acc.v.symP {
					return "not all its targets are listed"
				}
				if ok, why := m.forallMap(b.st, names, func(bs *State, k *Term) string {
					for _, ib := range in.sum.allBacks {
						note(entry(ib.st, in.v.symP, ib.vals[in.v.id], k))
					}
					return ""
				}); !ok {
					return why
				}
			}
			return ""
		})
		c.check("all", ok && loopOnPath(st, acc.sum) != nil, pos, st, "GetTopLevelTargets may succeed although for a repository the following holds: %s", why)
		for _, rule := range []string{"obtained", "conflict", "all"} {
			c.check(rule, bad[rule] == "", pos, st, "GetTopLevelTargets: %s", bad[rule])
		}
	}
	c.need("obtained", 2)
	c.need("conflict", 1)
	c.need("all", 2)
	c.need("failure", 1)

	rf := c.multi("Refresh", nil)
	for _, r := range rf.results() {
		st := r.st
		pos := posOf(rf.An, r.Outcome)
		clients := st.mapVal(get(st, rf.client, "TUFClients"))
		if !r.ok {
			good := false
			for _, ev := range callsOf(st, kRefresh) {
				good = good || okAt(st, ev) == -1
			}
			walk(st, st.events(), func(bs *State, ev *Event, _ []*LoopSum) {
				if ev.kind == "call" && ev.name == kRefresh && okAt(bs, ev) == -1 && mentions(r.err, errOf(ev)) {
					good = true
				}
			})
			c.check("refresh", good, pos, st, "Refresh may fail although every repository was refreshed")
			continue
		}
		if st.holds(eqT(mkLen(clients), mkInt(0))) {
			continue
		}
		ok, why := rf.forallMap(st, clients, func(bs *State, n *Term) string {
			for _, ev := range bs.events() {
				if ev.kind == "call" && ev.name == kRefresh && askedOf(clients, n, ev) && okAt(bs, ev) == 1 {
					return ""
				}
			}
			return "a repository may not be refreshed"
		})
		c.check("refresh", ok, pos, st, "Refresh may succeed although %s", why)
	}
	c.need("refresh", 2)
}

func init() {
	registry["C62"] = rule{ruleC62, "Path-sensitive abstract interpretation of multirepo.New and NewConfig with summarised loops: what every client is built from, under which name it is kept, and the facts entailed where it is built."}
	registry["C63"] = rule{ruleC63, "Path-sensitive abstract interpretation of MultiRepoClient.DownloadTarget: where the returned values come from on every path, and what each completed iteration of the loop over the repositories entails."}
	registry["C64"] = rule{ruleC64, "Path-sensitive abstract interpretation of MultiRepoClient.GetTopLevelTargets and Refresh: an inductive reading of how nested loops build the list of targets, and which calls every completed iteration made."}
}
