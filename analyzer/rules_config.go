package main

import "go/types"

const pkgConfig = "metadata/config"

func ruleC70(c *Ctx) {
	c.rule("limits", "the limits for root rotations, delegations and the four metadata lengths are positive constants of a sensible size")
	c.rule("defaults", "there is a download implementation, targets are hash-prefixed, caching is on and offline mode off")
	c.rule("given", "root and address are those given, and targets come from the targets folder below the address")
	c.rule("address", "an address that cannot be used is an error, and nothing else is")
	c.rule("directories", "the configured directories are created unless caching is disabled; an error is reported exactly if that failed")
	e := c.eng()
	an := c.analyse(e, c.P.fn(pkgConfig, "New"), nil)
	for _, r := range an.results() {
		st, pos := r.st, posOf(an, r.Outcome)
		joined := func(i string, t types.Type) *Term {
			return mk("app", "url.JoinPath:"+i, t, an.arg(0), mkStr("targets"))
		}
		failed := not(isNilT(joined("1", types.Universe.Lookup("error").Type())))
		if !r.ok {
			bad := st.holds(failed) || libraryFailed(st, r.err)
			c.check("address", bad, pos, st, "New may refuse an address it could use")
			continue
		}
		c.check("address", st.fails(failed) || targetsBelow(st, get(st, r.rets[0], "RemoteTargetsURL"), an.arg(0)), pos, st, "New may accept an address it cannot use")
		f := func(n string) *Term { return get(st, r.rets[0], n) }
		for n, max := range map[string]int64{"MaxRootRotations": 1 << 20, "MaxDelegations": 1 << 20, "RootMaxLength": 1 << 32, "TimestampMaxLength": 1 << 32, "SnapshotMaxLength": 1 << 32, "TargetsMaxLength": 1 << 32} {
			v := f(n)
			c.check("limits", st.holds(ltT(mkInt(0), v)) && st.holds(ltT(v, mkInt(max))), pos, st, "the default %s is not a positive limit: %s", n, cut(v.String(), 60))
		}
		c.check("defaults", st.holds(nonNil(f("Fetcher"))), pos, st, "there is no default fetcher")
		c.check("defaults", st.holds(f("PrefixTargetsWithHash")), pos, st, "targets are not hash-prefixed by default")
		c.check("defaults", st.fails(f("DisableLocalCache")), pos, st, "caching is off by default")
		c.check("defaults", st.fails(f("UnsafeLocalMode")), pos, st, "offline mode is on by default")
		c.check("given", f("LocalTrustedRoot") == an.arg(1) || copyOf(st, f("LocalTrustedRoot"), an.arg(1)), pos, st, "the trusted root is not the one given")
		c.check("given", f("RemoteMetadataURL") == an.arg(0), pos, st, "the address is not the one given")
		c.check("given", targetsBelow(st, f("RemoteTargetsURL"), an.arg(0)), pos, st, "targets are not taken from the targets folder below the address: %s", cut(f("RemoteTargetsURL").String(), 80))
	}
	c.need("limits", 6)
	c.need("defaults", 4)
	c.need("given", 3)
	c.need("address", 2)

	e = c.eng()
	var cfg *Term
	an = c.analyse(e, c.P.method(c.P.namedType(pkgConfig, "UpdaterConfig"), "EnsurePathsExist"), func(st *State, args []*Term) {
		cfg = args[0]
		st.assume(nonNil(cfg), true)
	})
	for _, r := range an.results() {
		st, pos := r.st, posOf(an, r.Outcome)
		off := get(st, cfg, "DisableLocalCache")
		made := func(dir *Term, d int) bool {
			hit := false
			walk(st, st.events(), func(bs *State, ev *Event, in []*LoopSum) {
				if ev.kind != "call" || (ev.name != "os.MkdirAll") || okAt(bs, ev) != d {
					return
				}
				hit = hit || ev.args[0] == dir || dir == nil
			})
			return hit
		}
		any := false
		walk(st, st.events(), func(_ *State, ev *Event, _ []*LoopSum) { any = any || ev.kind == "call" })
		c.check("directories", given(st, off) == nil || !any, pos, st, "EnsurePathsExist may touch the disk although caching is disabled")
		if !r.ok {
			c.check("directories", made(nil, -1), pos, st, "EnsurePathsExist may fail although the directories could be made")
			continue
		}
		if st.holds(off) {
			continue
		}
		for _, n := range []string{"LocalMetadataDir", "LocalTargetsDir"} {
			dir := get(st, cfg, n)
			c.check("directories", made(dir, 1), pos, st, "EnsurePathsExist may succeed without having made %s", n)
		}
	}
	c.need("directories", 3)
}

// targetsBelow decides that u is the folder targets below the address.
func targetsBelow(st *State, u, addr *Term) bool {
	return u == mk("app", "url.JoinPath:0", types.Typ[types.String], addr, mkStr("targets"))
}

// copyOf decides that t is a copy of the byte string s.
func copyOf(st *State, t, s *Term) bool {
	return t.op == "append" && emptyColl(t.args[0]) && t.args[1] == s || t.op == "app" && (t.name == "bytes.Clone" || t.name == "slices.Clone") && t.args[0] == s
}

func init() {
	registry["C70"] = rule{ruleC70, "Path-sensitive abstract interpretation of config.New and EnsurePathsExist: the values of every field of the result, and the calls of every path."}
}
