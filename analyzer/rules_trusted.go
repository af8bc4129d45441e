package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgTS  = "metadata/trustedmetadata"
	tsType = "metadata/trustedmetadata.TrustedMetadata"
)

// trusted analyses a method of the trusted set (or its constructor) with the
// loading, verification and length/digest checks as contracts.
func (c *Ctx) trusted(name string) *An {
	if a := c.bundles["ts."+name]; a != nil {
		return a
	}
	var fn *ssa.Function
	if name == "New" {
		fn = c.P.fn(pkgTS, "New")
	} else {
		fn = c.P.method(c.P.namedType(pkgTS, "TrustedMetadata"), name)
	}
	e := c.eng(kVerify, kVLHMeta, kVLHTarget)
	e.contract[kFromBytes] = fromBytesContract
	fb := map[*Event]*State{}
	a := c.analyse2(e, fn, func(st *State, args []*Term) {
		if name != "New" {
			st.assume(nonNil(args[0]), true)
			st.assume(nonNil(get(st, args[0], "Root")), true)
		}
	}, func(st *State, ev *Event) {
		if ev.kind == "call" && ev.name == kFromBytes {
			fb[ev] = st.clone()
		}
	})
	a.fb = fb
	c.bundles["ts."+name] = a
	return a
}

var tsUpdates = []string{"UpdateRoot", "UpdateTimestamp", "UpdateSnapshot", "UpdateTargets", "UpdateDelegatedTargets"}
var tsField = map[string]string{"UpdateRoot": "Root", "UpdateTimestamp": "Timestamp", "UpdateSnapshot": "Snapshot", "UpdateTargets": "Targets", "UpdateDelegatedTargets": "Targets"}

// stored returns what the update has put in the set: the new object, or nil.
func (a *An) stored(o Outcome, name string) *Term {
	f := tsField[name]
	was := get(a.entry, a.arg(0), f)
	now := get(o.st, a.arg(0), f)
	if f == "Targets" {
		m0, m1 := a.entry.mapVal(was), o.st.mapVal(now)
		if was == now && m0 == m1 {
			return nil
		}
		if m1.op == "mupd" && was == now {
			return m1.args[2]
		}
		return m1
	}
	if was == now {
		return nil
	}
	return now
}

// isParsed reports whether v is an object successfully loaded from data.
func (a *An) isParsed(st *State, v, data *Term) *Event {
	for _, ev := range callsOf(st, kFromBytes) {
		if ev.res[0] == v && ev.args[1] == data {
			return ev
		}
	}
	return nil
}

// verified reports whether delegator.VerifyDelegate(role, v) succeeded on the way to st.
func verified(st *State, delegator, role, v *Term) bool {
	for _, ev := range callsOf(st, kVerify) {
		if ev.args[0] == delegator && st.holds(eqT(ev.args[1], role)) && strip(ev.args[2]) == v && st.holds(isNilT(ev.res[0])) {
			return true
		}
	}
	return false
}

func checkedBytes(st *State, key string, desc, data *Term) bool {
	for _, ev := range callsOf(st, key) {
		if ev.args[0] == desc && ev.args[1] == data && st.holds(isNilT(ev.res[0])) {
			return true
		}
	}
	return false
}

// content lists what an object holds: its fields and the contents of its maps.
func content(st *State, p *Term) []*Term {
	pt, ok := under(p.typ).(*types.Pointer)
	if !ok {
		return []*Term{p}
	}
	v := st.load(p, pt.Elem())
	out := []*Term{v}
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if t.typ == nil || d > 4 {
			return
		}
		if t.op == "struct" {
			for _, x := range t.args {
				visit(x, d+1)
			}
			return
		}
		if _, ok := t.typ.Underlying().(*types.Map); ok {
			out = append(out, st.mapVal(t))
		}
	}
	visit(v, 0)
	return out
}

func sameContent(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a *An) unmodified(o Outcome, ev *Event, v *Term) bool {
	s := a.fb[ev]
	return s != nil && sameContent(content(s, v), content(o.st, v))
}

func afterT(ref, exp *Term) *Term { return mk("app", "time.After", types.Typ[types.Bool], ref, exp) }

// expired is the condition that metadata x is expired at the set's reference time.
func (a *An) expired(st *State, x *Term) *Term {
	return afterT(get(st, a.arg(0), "RefTime"), get(st, x, "Signed.Expires"))
}

var strRoot, strTimestamp, strSnapshot, strTargets = mkStr("root"), mkStr("timestamp"), mkStr("snapshot"), mkStr("targets")

func posOf(a *An, o Outcome) token.Pos {
	if o.pos.IsValid() {
		return o.pos
	}
	return a.fn.Pos()
}

func ruleC20(c *Ctx) {
	c.rule("root-accepted", "a path of UpdateRoot that replaces the trusted root has VerifyDelegate(\"root\") == nil under the old root and under the new root for the object loaded from the given bytes, and new version == old version + 1")
	a := c.trusted("UpdateRoot")
	for _, o := range a.outs {
		if o.kind != "ret" {
			continue
		}
		v := a.stored(o, "UpdateRoot")
		if v == nil {
			continue
		}
		old := get(a.entry, a.arg(0), "Root")
		p := posOf(a, o)
		if !c.check("root-accepted", v.typ != nil && a.isParsed(o.st, v, a.arg(1)) != nil, p, o.st, "UpdateRoot stores a root that is not the one loaded from the given bytes: %s", v) {
			continue
		}
		c.check("root-accepted", verified(o.st, old, strRoot, v), p, o.st, "UpdateRoot stores a new root on a path where the trusted root has not verified it")
		c.check("root-accepted", verified(o.st, v, strRoot, v), p, o.st, "UpdateRoot stores a new root on a path where it has not verified itself")
		c.check("root-accepted", o.st.holds(eqT(get(o.st, v, "Signed.Version"), plus(get(a.entry, old, "Signed.Version"), 1))), p, o.st, "UpdateRoot stores a new root whose version is not known to be exactly one more than the trusted one")
	}
	c.need("root-accepted", 4)

	c.rule("initial-root", "New succeeds only with the root loaded from the given bytes and verified by itself")
	a = c.trusted("New")
	for _, r := range a.results() {
		if !r.ok {
			continue
		}
		set := r.rets[0]
		v := get(r.st, set, "Root")
		p := posOf(a, r.Outcome)
		if !c.check("initial-root", a.isParsed(r.st, v, a.arg(0)) != nil, p, r.st, "New trusts a root that is not the one loaded from the given bytes: %s", v) {
			continue
		}
		c.check("initial-root", verified(r.st, v, strRoot, v), p, r.st, "New trusts a root on a path where it has not verified itself")
		c.check("initial-root", a.unmodified(r.Outcome, a.isParsed(r.st, v, a.arg(0)), v), p, r.st, "New changes the root after loading it")
	}
	c.need("initial-root", 3)

	c.rule("root-no-expiry", "no path of UpdateRoot depends on an expiry time")
	c.rule("refused", "an update is refused only out of order, for an expired, unlisted or wrong version of the metadata, or because a check of its bytes, its form or its signatures failed")
	c.trusted("UpdateRoot").refusedOnly(c, "UpdateRoot")
	c.need("refused", 3)
	a = c.trusted("UpdateRoot")
	for _, r := range a.results() {
		dep := false
		for b := r.st.br; b != nil; b = b.prev {
			dep = dep || b.cond.any(func(t *Term) bool { return strings.HasPrefix(t.name, "time.") && t.op == "app" })
		}
		c.check("root-no-expiry", !dep || r.ok, posOf(a, r.Outcome), r.st, "UpdateRoot refuses a root on a path that compares times")
	}
	c.need("root-no-expiry", 2)
}

func ruleC21(c *Ctx) {
	c.rule("timestamp-accepted", "a path of UpdateTimestamp that replaces the trusted timestamp has it loaded from the given bytes, verified by the trusted root as timestamp and describing snapshot.json; if a timestamp was trusted its version is lower and it does not describe a newer snapshot")
	c.rule("timestamp-rollback-class", "a verified candidate of equal version is refused with ErrEqualVersionNumber, a lower one or one describing an older snapshot with ErrBadVersionNumber")
	c.rule("refused", "an update is refused only out of order, for an expired, unlisted or wrong version of the metadata, or because a check of its bytes, its form or its signatures failed")
	c.trusted("UpdateTimestamp").refusedOnly(c, "UpdateTimestamp")
	c.need("refused", 3)
	a := c.trusted("UpdateTimestamp")
	snap := mkStr("snapshot.json")
	old := get(a.entry, a.arg(0), "Timestamp")
	root := get(a.entry, a.arg(0), "Root")
	for _, r := range a.results() {
		o := r.Outcome
		p := posOf(a, o)
		v := a.stored(o, "UpdateTimestamp")
		if v != nil {
			if c.check("timestamp-accepted", a.isParsed(o.st, v, a.arg(1)) != nil, p, o.st, "UpdateTimestamp stores a timestamp that is not the one loaded from the given bytes: %s", v) {
				c.check("timestamp-accepted", verified(o.st, root, strTimestamp, v), p, o.st, "UpdateTimestamp stores a timestamp the trusted root has not verified")
				nm, ok := a.e.mapElem(o.st, get(o.st, v, "Signed.Meta"), snap)
				c.check("timestamp-accepted", o.st.holds(ok), p, o.st, "UpdateTimestamp stores a timestamp without snapshot.json")
				if s := given(o.st, nonNil(old)); s != nil {
					om, _ := a.e.mapElem(a.entry, get(a.entry, old, "Signed.Meta"), snap)
					c.check("timestamp-accepted", s.holds(ltT(get(a.entry, old, "Signed.Version"), get(s, v, "Signed.Version"))), p, s, "UpdateTimestamp replaces a trusted timestamp by one whose version is not known to be higher")
					c.check("timestamp-accepted", s.holds(not(ltT(get(s, nm, "Version"), get(s, om, "Version")))), p, s, "UpdateTimestamp replaces a trusted timestamp by one that may describe an older snapshot version")
				}
			}
		}
		if r.ok {
			c.check("timestamp-accepted", v != nil, p, o.st, "UpdateTimestamp succeeds without storing the timestamp")
			continue
		}
		// classification of refused candidates
		for _, ev := range callsOf(o.st, kFromBytes) {
			w := ev.res[0]
			if w.isNil() || !verified(o.st, root, strTimestamp, w) {
				continue
			}
			nm, ok := a.e.mapElem(o.st, get(o.st, w, "Signed.Meta"), snap)
			om, _ := a.e.mapElem(a.entry, get(a.entry, old, "Signed.Meta"), snap)
			nv, ov := get(o.st, w, "Signed.Version"), get(a.entry, old, "Signed.Version")
			ns, os := get(o.st, nm, "Version"), get(o.st, om, "Version")
			if s := given(o.st, nonNil(old), ok, eqT(nv, ov)); s != nil {
				t := errName(s, r.err)
				c.check("timestamp-rollback-class", t == "metadata.ErrEqualVersionNumber" || t == "metadata.ErrBadVersionNumber" && possible(s, ltT(ns, os)), p, s, "a timestamp of the same version is refused with %s instead of ErrEqualVersionNumber", orErr(t))
			}
			if s := given(o.st, nonNil(old), ok, ltT(nv, ov)); s != nil {
				c.check("timestamp-rollback-class", errName(s, r.err) == "metadata.ErrBadVersionNumber", p, s, "a timestamp of a lower version is refused with %s instead of ErrBadVersionNumber", orErr(errName(s, r.err)))
			}
			if s := given(o.st, nonNil(old), ok, ltT(ov, nv), ltT(ns, os)); s != nil {
				c.check("timestamp-rollback-class", errName(s, r.err) == "metadata.ErrBadVersionNumber", p, s, "a timestamp describing an older snapshot is refused with %s instead of ErrBadVersionNumber", orErr(errName(s, r.err)))
			}
		}
	}
	c.need("timestamp-accepted", 5)
	c.need("timestamp-rollback-class", 3)
}

func orErr(s string) string {
	if s == "" {
		return "another error"
	}
	return s
}

func ruleC22(c *Ctx) {
	c.rule("snapshot-accepted", "a path of UpdateSnapshot that stores a snapshot has it loaded from the given bytes and verified by the trusted root; unless isTrusted, VerifyLengthHashes of the timestamp's snapshot.json entry passed on those bytes")
	c.rule("snapshot-rollback", "if a snapshot was trusted, the loop over all its entries ran to the end and each iteration established that the new snapshot lists the entry with a version at least as high")
	c.rule("snapshot-version", "UpdateSnapshot succeeds only if the new snapshot's version equals the one in the trusted timestamp")
	c.rule("refused", "an update is refused only out of order, for an expired, unlisted or wrong version of the metadata, or because a check of its bytes, its form or its signatures failed")
	c.trusted("UpdateSnapshot").refusedOnly(c, "UpdateSnapshot")
	c.need("refused", 3)
	a := c.trusted("UpdateSnapshot")
	root := get(a.entry, a.arg(0), "Root")
	old := get(a.entry, a.arg(0), "Snapshot")
	ts := get(a.entry, a.arg(0), "Timestamp")
	for _, r := range a.results() {
		o := r.Outcome
		p := posOf(a, o)
		v := a.stored(o, "UpdateSnapshot")
		if r.ok {
			c.check("snapshot-accepted", v != nil, p, o.st, "UpdateSnapshot succeeds without storing the snapshot")
		}
		if v == nil {
			continue
		}
		if !c.check("snapshot-accepted", a.isParsed(o.st, v, a.arg(1)) != nil, p, o.st, "UpdateSnapshot stores a snapshot that is not the one loaded from the given bytes: %s", v) {
			continue
		}
		c.check("snapshot-accepted", verified(o.st, root, strSnapshot, v), p, o.st, "UpdateSnapshot stores a snapshot the trusted root has not verified")
		desc, _ := a.e.mapElem(a.entry, get(a.entry, ts, "Signed.Meta"), mkStr("snapshot.json"))
		if s := given(o.st, not(a.arg(2))); s != nil {
			c.check("snapshot-accepted", checkedBytes(s, kVLHMeta, desc, a.arg(1)), p, s, "UpdateSnapshot stores an untrusted snapshot whose bytes were not checked against the length and digests in the timestamp")
		}
		if s := given(o.st, nonNil(old)); s != nil {
			om := get(a.entry, old, "Signed.Meta")
			nm := get(o.st, v, "Signed.Meta")
			ok, why := a.forallMap(s, a.entry.mapVal(om), func(bs *State, k *Term) string {
				nv, lok := a.e.mapElem(bs, nm, k)
				ov, _ := a.e.mapElem(a.entry, om, k)
				if !bs.holds(lok) {
					return "an entry of the old snapshot may be missing from the new one"
				}
				if !bs.holds(not(ltT(get(bs, nv, "Version"), get(bs, ov, "Version")))) {
					return "an entry may have a lower version in the new snapshot"
				}
				return ""
			})
			c.check("snapshot-rollback", ok, p, s, "UpdateSnapshot replaces a trusted snapshot: %s", why)
		}
		if r.ok {
			c.check("snapshot-version", o.st.holds(eqT(get(o.st, v, "Signed.Version"), get(a.entry, desc, "Version"))), p, o.st, "UpdateSnapshot succeeds although the new snapshot's version is not known to be the one the timestamp lists")
		}
	}
	c.need("snapshot-accepted", 5)
	c.need("snapshot-rollback", 1)
	c.need("snapshot-version", 1)
}

// forallMap decides whether, on the way to st, a loop visited every key of
// the map contents mv and every completed iteration established pred. pred
// returns "" or what is missing.
func (a *An) forallMap(st *State, mv *Term, pred func(bs *State, k *Term) string) (bool, string) {
	why := "no loop over all entries was completed"
	for _, ev := range st.events() {
		if ev.kind != "loopexit" || ev.loop == nil {
			continue
		}
		sum := ev.loop
		if !st.fails(mk("nextok", "", types.Typ[types.Bool], mv, sum.itC)) {
			continue
		}
		bad := ""
		n := 0
		for _, b := range sum.backs {
			k := mk("key", "", nil, mv, sum.itP)
			if !b.st.holds(mk("nextok", "", types.Typ[types.Bool], mv, sum.itP)) {
				bad = "the loop does not visit one entry per iteration"
				break
			}
			facts, ok := sameFlags(sum, b, st)
			if !ok {
				continue
			}
			bs := mergeFacts(b.st, st)
			if bs == nil {
				continue
			}
			if bs = given(bs, facts...); bs == nil {
				continue
			}
			n++
			if w := pred(bs, k); w != "" {
				bad = w
				break
			}
		}
		if bad == "" {
			return true, ""
		}
		why = bad
	}
	return false, why
}

// mergeFacts adds the facts of st to those of an iteration; nil if they contradict each other.
func mergeFacts(bs, st *State) *State {
	s := bs.clone()
	for t, v := range st.bools {
		if !s.assume(t, v) {
			return nil
		}
	}
	return s
}

func ruleC23(c *Ctx) {
	c.rule("targets-accepted", "a path of UpdateTargets/UpdateDelegatedTargets that stores targets metadata has: the snapshot lists role.json, VerifyLengthHashes of that entry passed on the given bytes, they were loaded into the stored object, its version equals the entry's, it is not expired at the reference time, and the named delegator verified it for the role")
	c.rule("targets-key", "the only change to the set of trusted targets is the entry of the role itself")
	c.rule("refused", "an update is refused only out of order, for an expired, unlisted or wrong version of the metadata, or because a check of its bytes, its form or its signatures failed")
	c.trusted("UpdateTargets").refusedOnly(c, "UpdateTargets")
	c.trusted("UpdateDelegatedTargets").refusedOnly(c, "UpdateDelegatedTargets")
	c.need("refused", 3)
	for _, name := range []string{"UpdateTargets", "UpdateDelegatedTargets"} {
		a := c.trusted(name)
		role, deleg := strTargets, strRoot
		if name == "UpdateDelegatedTargets" {
			role, deleg = a.arg(2), a.arg(3)
		}
		set := a.arg(0)
		root := get(a.entry, set, "Root")
		snap := get(a.entry, set, "Snapshot")
		tm := get(a.entry, set, "Targets")
		for _, r := range a.results() {
			o := r.Outcome
			p := posOf(a, o)
			v := a.stored(o, name)
			if r.ok {
				c.check("targets-accepted", v != nil, p, o.st, "%s succeeds without storing the metadata", name)
			}
			if v == nil {
				continue
			}
			now := get(o.st, set, "Targets")
			mv := o.st.mapVal(now)
			if !c.check("targets-key", now == tm && mv.op == "mupd" && mv.args[0] == a.entry.mapVal(tm) && o.st.holds(eqT(mv.args[1], role)), p, o.st, "%s changes the trusted targets other than by storing the entry of the role: %s", name, mv) {
				continue
			}
			if !c.check("targets-accepted", a.isParsed(o.st, v, a.arg(1)) != nil, p, o.st, "%s stores an object that is not the one loaded from the given bytes: %s", name, v) {
				continue
			}
			desc, ok := a.e.mapElem(a.entry, get(a.entry, snap, "Signed.Meta"), mkCat(role, mkStr(".json")))
			c.check("targets-accepted", o.st.holds(ok), p, o.st, "%s stores metadata for a role the snapshot does not list", name)
			c.check("targets-accepted", checkedBytes(o.st, kVLHMeta, desc, a.arg(1)), p, o.st, "%s stores metadata whose bytes were not checked against the snapshot's length and digests for the role", name)
			c.check("targets-accepted", o.st.holds(eqT(get(o.st, v, "Signed.Version"), get(a.entry, desc, "Version"))), p, o.st, "%s stores metadata whose version is not known to be the one the snapshot lists", name)
			c.check("targets-accepted", o.st.fails(a.expired(o.st, v)), p, o.st, "%s stores metadata that may be expired at the reference time", name)
			if s := given(o.st, eqT(deleg, strRoot)); s != nil {
				c.check("targets-accepted", verified(s, root, role, v), p, s, "%s stores metadata that root as its delegator has not verified for the role", name)
			}
			if s := given(o.st, not(eqT(deleg, strRoot))); s != nil {
				d, dok := mapGet(a.entry, tm, deleg)
				c.check("targets-accepted", s.holds(dok) || s.holds(nonNil(d)), p, s, "%s stores metadata although its delegator is not known to be trusted", name)
				c.check("targets-accepted", verified(s, d, role, v), p, s, "%s stores metadata that its delegator has not verified for the role", name)
			}
		}
	}
	c.need("targets-accepted", 14)
	c.need("targets-key", 2)
}

// gates are the workflow-order conditions under which an update must be refused.
func (a *An) gates(name string) map[string][]*Term {
	set := a.arg(0)
	st := a.entry
	f := func(n string) *Term { return get(st, set, n) }
	switch name {
	case "UpdateRoot":
		return map[string][]*Term{"a timestamp is trusted": {nonNil(f("Timestamp"))}}
	case "UpdateTimestamp":
		return map[string][]*Term{"a snapshot is trusted": {nonNil(f("Snapshot"))}}
	case "UpdateSnapshot":
		v, ok := mapGet(st, f("Targets"), strTargets)
		return map[string][]*Term{"no timestamp is trusted": {isNilT(f("Timestamp"))}, "top-level targets are trusted": {nonNil(f("Timestamp")), ok, nonNil(v)}}
	case "UpdateTargets":
		return map[string][]*Term{"no snapshot is trusted": {isNilT(f("Snapshot"))}}
	default:
		v, ok := mapGet(st, f("Targets"), a.arg(3))
		return map[string][]*Term{"no snapshot is trusted": {isNilT(f("Snapshot"))}, "the delegator is not trusted": {nonNil(f("Snapshot")), not(eqT(a.arg(3), strRoot)), not(ok), isNilT(v)}}
	}
}

func (a *An) changed(o Outcome) string {
	set := a.arg(0)
	for _, f := range []string{"Root", "Timestamp", "Snapshot", "Targets", "RefTime"} {
		x, y := get(a.entry, set, f), get(o.st, set, f)
		if x != y {
			return f
		}
		if f == "Targets" && a.entry.mapVal(x) != o.st.mapVal(y) {
			return f
		}
	}
	return ""
}

func ruleC24(c *Ctx) {
	c.rule("workflow-order", "on every path of an update that is possible while its workflow precondition is violated, the result is an ErrRuntime (or, for a path that has already failed an expiry or version check of the preceding metadata, that error) and the set is unchanged")
	for _, name := range tsUpdates {
		a := c.trusted(name)
		gates := a.gates(name)
		for _, g := range sortedKeys(gates) {
			conds := gates[g]
			runtime := 0
			for _, r := range a.results() {
				if r.kind != "ret" {
					continue
				}
				s := given(r.st, conds...)
				if s == nil {
					continue
				}
				p := posOf(a, r.Outcome)
				c.check("workflow-order", !r.ok, p, s, "%s succeeds although %s", name, g)
				c.check("workflow-order", a.changed(r.Outcome) == "", p, s, "%s changes %s although %s", name, a.changed(r.Outcome), g)
				t := errName(s, r.err)
				if t == "metadata.ErrRuntime" {
					runtime++
				} else if !r.ok {
					c.check("workflow-order", g == "the delegator is not trusted" && (t == "metadata.ErrExpiredMetadata" || t == "metadata.ErrBadVersionNumber"), p, s, "%s fails with %s instead of ErrRuntime although %s", name, orErr(t), g)
				}
			}
			c.check("workflow-order", runtime > 0, a.fn.Pos(), nil, "%s never returns ErrRuntime when %s", name, g)
		}
	}
	c.need("workflow-order", 21)
}

func ruleC25(c *Ctx) {
	c.rule("expired-blocks", "an update succeeds only on paths that have found the preceding metadata not expired at the trusted set's reference time; targets are stored only when not expired; a stored timestamp or snapshot that is expired makes the call return ErrExpiredMetadata")
	c.rule("expired-exact", "a path returns ErrExpiredMetadata only when some metadata is known to be expired by reference time after expiry")
	c.rule("is-expired", "IsExpired is exactly reference time after expiry time, for all four types")
	c.rule("reference-time", "New sets the reference time from the current time in UTC, taken once, and no other function of the module assigns it")
	prev := map[string]string{"UpdateTimestamp": "Root", "UpdateSnapshot": "Timestamp", "UpdateTargets": "Snapshot", "UpdateDelegatedTargets": "Snapshot"}
	for _, name := range tsUpdates {
		a := c.trusted(name)
		for _, r := range a.results() {
			if r.kind != "ret" {
				continue
			}
			p := posOf(a, r.Outcome)
			if f := prev[name]; f != "" && r.ok {
				x := get(a.entry, a.arg(0), f)
				c.check("expired-blocks", r.st.fails(a.expired(a.entry, x)), p, r.st, "%s succeeds on a path where the trusted %s is not known to be unexpired", name, strings.ToLower(f))
			}
			if v := a.stored(r.Outcome, name); v != nil && v.typ != nil && name != "UpdateRoot" {
				if _, isPtr := under(v.typ).(*types.Pointer); isPtr {
					if tsField[name] == "Targets" {
						c.check("expired-blocks", r.st.fails(a.expired(r.st, v)), p, r.st, "%s stores targets metadata that may be expired", name)
					} else if s := given(r.st, a.expired(r.st, v)); s != nil {
						c.check("expired-blocks", errName(s, r.err) == "metadata.ErrExpiredMetadata", p, s, "%s stores expired metadata and does not report ErrExpiredMetadata", name)
					}
					// the preceding metadata must have been unexpired for anything to be stored
					if f := prev[name]; f != "" {
						x := get(a.entry, a.arg(0), f)
						c.check("expired-blocks", r.st.fails(a.expired(a.entry, x)), p, r.st, "%s stores metadata although the trusted %s may be expired", name, strings.ToLower(f))
					}
				}
			}
			if !r.ok && errName(r.st, r.err) == "metadata.ErrExpiredMetadata" {
				known := false
				ref := get(a.entry, a.arg(0), "RefTime")
				for t, v := range r.st.bools {
					if v && t.op == "app" && t.name == "time.After" && t.args[0] == ref && isExpires(t.args[1]) {
						known = true
					}
				}
				c.check("expired-exact", known, p, r.st, "%s reports expired metadata on a path where nothing is known to be expired", name)
			}
		}
	}
	c.need("expired-blocks", 8)
	c.need("expired-exact", 5)
	for _, tn := range []string{"RootType", "TimestampType", "SnapshotType", "TargetsType"} {
		e := c.eng()
		a := c.analyse(e, c.P.method(c.P.namedType("metadata", tn), "IsExpired"), func(st *State, args []*Term) {
			if _, ok := under(args[0].typ).(*types.Pointer); ok {
				st.assume(nonNil(args[0]), true)
			}
		})
		for _, o := range a.outs {
			if o.kind != "ret" {
				continue
			}
			want := afterT(a.arg(1), get(o.st, a.arg(0), "Expires"))
			got := o.rets[0]
			ok := got == want
			if got.isTrue() {
				ok = o.st.holds(want)
			} else if got.isFalse() {
				ok = o.st.fails(want)
			}
			c.check("is-expired", ok, posOf(a, o), o.st, "%s.IsExpired returns %s instead of %s", tn, got, want)
		}
	}
	c.need("is-expired", 4)
	a := c.trusted("New")
	for _, r := range a.results() {
		if !r.ok {
			continue
		}
		ref := get(r.st, r.rets[0], "RefTime")
		nows := callsOf(r.st, "time.Now")
		good := false
		for _, ev := range nows {
			if ref == utcOf(ev.res[0]) {
				good = true
			}
		}
		c.check("reference-time", good, posOf(a, r.Outcome), r.st, "New sets the reference time to %s, not to the current time in UTC", ref)
	}
	for _, name := range tsUpdates {
		a := c.trusted(name)
		for _, o := range a.outs {
			if o.kind == "ret" {
				c.check("reference-time", get(a.entry, a.arg(0), "RefTime") == get(o.st, a.arg(0), "RefTime"), posOf(a, o), o.st, "%s changes the reference time", name)
			}
		}
	}
	c.fieldWriters("reference-time", "RefTime")
	c.need("reference-time", 6)
}

func isExpires(t *Term) bool {
	return t.op == "load" && strings.HasSuffix(t.args[0].name, ".Expires") || t.op == "field" && t.name == "Expires"
}

func utcOf(t *Term) *Term { return mk("app", "time.Time.UTC", t.typ, t) }

// fieldWriters scans the whole module: fields of the trusted set are only
// written by functions of its own package.
func (c *Ctx) fieldWriters(rule string, only string) {
	n := 0
	for _, f := range c.P.moduleFuncs() {
		key := fnKey(f)
		if strings.HasPrefix(key, "testutils") {
			continue
		}
		own := f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/"+pkgTS) || strings.HasPrefix(key, pkgTS+".")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isTrustedMD(fa.X.Type()) {
					continue
				}
				fname := fieldNameOf(fa)
				if only != "" && fname != only {
					continue
				}
				n++
				if own {
					// decided by the path analysis of the exported methods; the
					// function must be reached only from them
					continue
				}
				c.check(rule, onlyRead(fa, map[ssa.Value]bool{}), in.Pos(), nil, "%s may write %s of the trusted set outside its update methods", f, fname)
			}
		}
	}
	c.rules[rule].n += n
}

func isTrustedMD(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "TrustedMetadata" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/"+pkgTS)
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return t.Underlying().(*types.Struct).Field(fa.Field).Name()
}

// onlyRead reports whether an address, and what is loaded from it, is only
// used for reading in this function.
func onlyRead(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return false
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Lookup, *ssa.Extract, *ssa.Phi, *ssa.Range, *ssa.Next, *ssa.ChangeType, *ssa.Index, *ssa.Field:
			if !onlyRead(r.(ssa.Value), seen) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy") && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
				return false
			}
		}
	}
	return true
}

func ruleC26(c *Ctx) {
	c.rule("refused-unchanged", "on every failing path the set is unchanged, except that UpdateTimestamp returning ErrExpiredMetadata for the new timestamp, and UpdateSnapshot returning ErrExpiredMetadata for the new snapshot or ErrBadVersionNumber for its version, keep it")
	c.rule("own-role-only", "an update changes no other role, assigns no other shared memory, stores the object it returns and does not change it after loading it")
	c.rule("no-other-writer", "no function outside the trusted set writes its fields")
	for _, name := range tsUpdates {
		a := c.trusted(name)
		set := a.arg(0)
		for _, r := range a.results() {
			if r.kind != "ret" {
				continue
			}
			o := r.Outcome
			p := posOf(a, o)
			for _, f := range []string{"Root", "Timestamp", "Snapshot", "Targets", "RefTime"} {
				x, y := get(a.entry, set, f), get(o.st, set, f)
				if f == tsField[name] {
					if f == "Targets" {
						c.check("own-role-only", x == y, p, o.st, "%s replaces the whole set of trusted targets", name)
					}
					continue
				}
				same := x == y
				if f == "Targets" {
					same = same && a.entry.mapVal(x) == o.st.mapVal(y)
				}
				c.check("own-role-only", same, p, o.st, "%s changes %s of the trusted set", name, f)
			}
			v := a.stored(o, name)
			if r.ok {
				c.check("own-role-only", v != nil && o.rets[0] == v, p, o.st, "%s returns %s but the set holds %s", name, o.rets[0], v)
			} else if v != nil {
				t := errName(o.st, r.err)
				exc := false
				if _, isPtr := under(v.typ).(*types.Pointer); isPtr {
					switch name {
					case "UpdateTimestamp":
						exc = t == "metadata.ErrExpiredMetadata" && o.st.holds(a.expired(o.st, v))
					case "UpdateSnapshot":
						desc, _ := a.e.mapElem(a.entry, get(a.entry, get(a.entry, set, "Timestamp"), "Signed.Meta"), mkStr("snapshot.json"))
						exc = t == "metadata.ErrExpiredMetadata" && o.st.holds(a.expired(o.st, v)) ||
							t == "metadata.ErrBadVersionNumber" && o.st.fails(eqT(get(o.st, v, "Signed.Version"), get(a.entry, desc, "Version")))
					}
				}
				c.check("refused-unchanged", exc, p, o.st, "%s fails with %s but has already replaced the trusted %s", name, orErr(t), strings.ToLower(tsField[name]))
			} else {
				c.check("refused-unchanged", true, p, nil, "")
			}
			if v != nil {
				if ev := a.isParsed(o.st, v, a.arg(1)); ev != nil {
					c.check("own-role-only", a.unmodified(o, ev, v), p, o.st, "%s changes the metadata after loading it", name)
				}
			}
		}
		for _, er := range a.evs {
			ok := false
			switch er.ev.kind {
			case "store":
				ad := er.ev.args[0]
				ok = ad.op == "faddr" && ad.args[0] == set && ad.fieldName() == tsField[name] && tsField[name] != "Targets"
			case "mapset":
				ok = tsField[name] == "Targets" && er.ev.args[0] == get(a.entry, set, "Targets")
			}
			c.check("own-role-only", ok, er.ev.pos, nil, "%s writes other shared memory: %s %s", name, er.ev.kind, er.ev.args[0])
		}
	}
	c.need("refused-unchanged", 20)
	c.need("own-role-only", 20)
	c.fieldWriters("no-other-writer", "")
	c.need("no-other-writer", 10)
}

// refusedOnly checks that an update fails only for a reason it may have.
func (a *An) refusedOnly(c *Ctx, name string) {
	for _, r := range a.results() {
		if r.ok || r.kind != "ret" {
			continue
		}
		c.check("refused", a.mayRefuse(r.st, name), posOf(a, r.Outcome), r.st, "%s may refuse metadata nothing is wrong with", name)
	}
}

func (a *An) mayRefuse(st *State, name string) bool {
	for _, ev := range st.events() {
		if ev.kind != "call" || okAt(st, ev) != -1 || ev.name == kVLHMeta && name == "UpdateSnapshot" && !st.fails(a.arg(2)) {
			continue
		}
		return true
	}
	set := a.arg(0)
	f := func(n string) *Term { return get(a.entry, set, n) }
	for t, v := range st.bools {
		if v && t.op == "app" && t.name == "time.After" && t.args[0] == f("RefTime") && isExpires(t.args[1]) {
			return true
		}
	}
	for _, conds := range a.gates(name) {
		all := true
		for _, cnd := range conds {
			all = all && st.holds(cnd)
		}
		if all {
			return true
		}
	}
	if name == "UpdateDelegatedTargets" && !st.holds(eqT(a.arg(3), strRoot)) {
		if v, ok := mapGet(a.entry, f("Targets"), a.arg(3)); st.fails(ok) || st.holds(isNilT(v)) {
			return true
		}
	}
	entry := func(x *Term, at *State, n *Term) (*Term, *Term) { return a.e.mapElem(at, get(at, x, "Signed.Meta"), n) }
	differ := func(x, y *Term) bool { return st.fails(eqT(x, y)) }
	role := map[string]*Term{"UpdateRoot": strRoot, "UpdateTimestamp": strTimestamp, "UpdateSnapshot": strSnapshot}[name]
	if role == nil {
		role = strTargets
	}
	for _, ev := range callsOf(st, kFromBytes) {
		if !ev.res[0].isNil() && differ(get(st, ev.res[0], "Signed.Type"), role) {
			return true
		}
	}
	switch name {
	case "UpdateTargets", "UpdateDelegatedTargets":
		// the snapshot is not the one the timestamp lists
		desc, ok := entry(f("Timestamp"), a.entry, mkStr("snapshot.json"))
		if st.fails(ok) || differ(get(a.entry, f("Snapshot"), "Signed.Version"), get(a.entry, desc, "Version")) {
			return true
		}
		if name == "UpdateDelegatedTargets" {
			role = a.arg(2)
		}
		desc, ok = entry(f("Snapshot"), a.entry, mkCat(role, mkStr(".json")))
		if st.fails(ok) {
			return true
		}
		for _, ev := range callsOf(st, kFromBytes) {
			if !ev.res[0].isNil() && differ(get(st, ev.res[0], "Signed.Version"), get(a.entry, desc, "Version")) {
				return true
			}
		}
	case "UpdateSnapshot":
		desc, ok := entry(f("Timestamp"), a.entry, mkStr("snapshot.json"))
		if st.fails(ok) {
			return true
		}
		for _, ev := range callsOf(st, kFromBytes) {
			if ev.res[0].isNil() {
				continue
			}
			if differ(get(st, ev.res[0], "Signed.Version"), get(a.entry, desc, "Version")) {
				return true
			}
			if st.holds(isNilT(f("Snapshot"))) {
				continue
			}
			om := get(a.entry, f("Snapshot"), "Signed.Meta")
			for _, k := range keysIn(st, a.entry.mapVal(om)) {
				nv, lok := entry(ev.res[0], st, k)
				ov, _ := a.e.mapElem(a.entry, om, k)
				if st.fails(lok) || st.holds(ltT(get(st, nv, "Version"), get(a.entry, ov, "Version"))) {
					return true
				}
			}
		}
	default:
		field := strings.TrimPrefix(name, "Update")
		for _, ev := range callsOf(st, kFromBytes) {
			if ev.res[0].isNil() {
				continue
			}
			nv, ov := get(st, ev.res[0], "Signed.Version"), get(a.entry, f(field), "Signed.Version")
			if name == "UpdateRoot" {
				if differ(nv, plus(ov, 1)) {
					return true
				}
				continue
			}
			nd, ok := entry(ev.res[0], st, mkStr("snapshot.json"))
			if st.fails(ok) {
				return true
			}
			if st.holds(isNilT(f(field))) {
				continue
			}
			od, _ := entry(f(field), a.entry, mkStr("snapshot.json"))
			if st.holds(not(ltT(ov, nv))) || st.holds(ltT(get(st, nd, "Version"), get(a.entry, od, "Version"))) {
				return true
			}
		}
	}
	return false
}
