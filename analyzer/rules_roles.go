package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// member decides whether x is an element of the list s: 1, -1 or 0 (unknown).
func (a *An) member(st *State, s, x *Term) int {
	if st.holds(eqT(mkLen(s), mkInt(0))) || st.holds(isNilT(s)) {
		return -1
	}
	for t, v := range st.bools {
		switch t.op {
		case "contains":
			if t.args[0] == s && (t.args[1] == x || st.holds(eqT(t.args[1], x))) {
				if v {
					return 1
				}
				return -1
			}
		case "eq":
			for i := 0; v && i < 2; i++ {
				if t.args[1-i] == x && isElemOf(t.args[i], s) {
					return 1
				}
			}
		}
	}
	idx := mk("app", "slices.Index", types.Typ[types.Int], s, x)
	if st.holds(ltT(idx, mkInt(0))) {
		return -1
	}
	if st.holds(not(ltT(idx, mkInt(0)))) {
		return 1
	}
	if ok, _ := a.forallSlice(st, s, func(bs *State, i *Term) string {
		if bs.fails(eqT(bs.load(mkIaddr(s, i, elemType(s.typ)), elemType(s.typ)), x)) {
			return ""
		}
		return "equal"
	}); ok {
		return -1
	}
	if a.someIteration(st, func(bs *State) bool {
		for t, v := range bs.bools {
			if v && t.op == "eq" {
				for i := 0; i < 2; i++ {
					if t.args[1-i] == x && isElemOf(t.args[i], s) {
						return true
					}
				}
			}
		}
		return false
	}) {
		return 1
	}
	return 0
}

// isElemOf decides that t is an element of the list s.
func isElemOf(t, s *Term) bool {
	return t.op == "load" && t.args[0].op == "iaddr" && t.args[0].args[0] == s
}

// someIteration decides that a finished loop had an iteration in which pred
// held, because it left a flag that only such an iteration sets.
func (a *An) someIteration(st *State, pred func(bs *State) bool) bool {
	for _, ev := range st.events() {
		if ev.kind != "loopexit" || ev.loop == nil {
			continue
		}
		for _, v := range ev.loop.vars {
			if v.init == nil || !v.init.isTrue() && !v.init.isFalse() {
				continue
			}
			if v.init.isFalse() && !st.holds(v.symC) || v.init.isTrue() && !st.fails(v.symC) {
				continue
			}
			all, some := true, false
			for _, b := range ev.loop.backs {
				nv := b.vals[v.id]
				if nv == v.symP || nv == v.init {
					continue
				}
				some = true
				bs := b.st
				if nv != nil && !nv.isTrue() && !nv.isFalse() {
					set := nv
					if v.init.isTrue() {
						set = mkNot(nv)
					}
					bs = given(b.st, set)
					if bs == nil {
						continue
					}
				}
				if bs.holds(v.symP) == v.init.isFalse() && bs.decide(v.symP) != 0 {
					continue // it was set before
				}
				all = all && pred(bs)
			}
			if all && some {
				return true
			}
		}
	}
	return false
}

// filtered returns "" if t holds exactly the elements of the list s, in their
// order, except those whose identifier (the element itself, or its field) is x.
func (a *An) filtered(st *State, t, s *Term, field string, x *Term) string {
	et := elemType(s.typ)
	id := func(bs *State, i *Term) *Term {
		ad := mkIaddr(s, i, et)
		if field == "" {
			return bs.load(ad, et)
		}
		return field1(bs, ad, field)
	}
	if emptyColl(t) && (st.holds(eqT(mkLen(s), mkInt(0))) || st.holds(isNilT(s))) {
		return ""
	}
	if t.op == "filter" && t.args[0] == s {
		b := t.args[2]
		if b.op == "eq" && (b.args[0] == x || b.args[1] == x) {
			y := b.args[0]
			if y == x {
				y = b.args[1]
			}
			if field == "" && y == t.args[1] || field != "" && y == structFieldNamed(t.args[1], field) {
				return ""
			}
		}
		return "the elements are removed by another condition"
	}
	acc, ok := a.e.accs[t]
	if !ok || acc.v.symC != t {
		return "it is not the list without that identifier: " + cut(t.String(), 60)
	}
	if acc.v.init == nil || !emptyColl(acc.v.init) {
		return "the list does not start empty"
	}
	if field == "" && acc.v.init.op == "slice" && !isFreshOp(acc.v.init.root()) {
		return "the list is overwritten in place, and another role may list its keys in the same memory"
	}
	if !exhausted(st, acc.sum, s) {
		return "not all elements are visited"
	}
	for _, b := range acc.sum.backs {
		nv := b.vals[acc.v.id]
		i := acc.sum.itP
		eq := eqT(id(b.st, i), x)
		if nv == acc.v.symP {
			if !b.st.holds(eq) {
				return "an element with another identifier may be dropped"
			}
			continue
		}
		if !isAppendElem(b.st, nv, acc.v.symP, mkIaddr(s, i, et), et) {
			return "an element may be changed"
		}
		if !b.st.fails(eq) {
			return "an element with the identifier may be kept"
		}
	}
	return ""
}

func structFieldNamed(t *Term, name string) *Term {
	if s, ok := under(t.typ).(*types.Struct); ok {
		if i := fieldIndex(s, name); i >= 0 {
			return structField(t, i)
		}
	}
	return nil
}

// isAppendElem decides that v is the list l with the element at ad appended.
func isAppendElem(st *State, v, l, ad *Term, et types.Type) bool {
	if v.op != "append" || v.args[0] != l || v.args[1].op != "slicelit" || len(v.args[1].args) != 1 {
		return false
	}
	x := v.args[1].args[0]
	return x == st.load(ad, et) || sameStruct(st, x, ad, et)
}

// sameStruct decides that x is the struct at ad.
func sameStruct(st *State, x, ad *Term, t types.Type) bool {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		f := mkFaddr(ad, t, i)
		y := structField(x, i)
		if y == nil || y != st.load(f, ft) && !sameStruct(st, y, f, ft) {
			return false
		}
	}
	return true
}

func ruleC10(c *Ctx) {
	c.rule("signed", "signing makes one signature with the given signer over the canonical form of the current signed part")
	c.rule("label", "the signature is labelled with the identifier of the signer's public key")
	c.rule("list", "the signature is added, replacing only earlier ones of the same key, and returned")
	c.rule("failed", "signing fails only if encoding, signing or getting the signer's key fails, and then leaves the metadata as it was")
	c.rule("only", "nothing but the list of signatures is changed")
	c.rule("clear", "clearing leaves an empty list of signatures and changes nothing else")
	for _, targ := range sortedKeys(metaRole) {
		e := c.eng()
		e.contract[kKeyID] = pureContract("KeyID")
		e.contract[kKeyFrom] = pureContract("KeyFromPublicKey")
		an := c.analyse(e, c.P.method(c.P.namedType("metadata", "Metadata", targ), "Sign"), func(st *State, args []*Term) {
			st.assume(nonNil(args[0]), true)
			st.assume(nonNil(args[1]), true)
		})
		meta, signer := an.arg(0), an.arg(1)
		mt := under(meta.typ).(*types.Pointer).Elem()
		signedAt := faddrOf(meta, "Signed")
		signedT := fieldType(types.Unalias(mt).(*types.Named), "Signed")
		before := an.entry.load(signedAt, signedT)
		old := get(an.entry, meta, "Signatures")
		sigAt := faddrOf(meta, "Signatures")
		for _, r := range an.results() {
			if r.kind != "ret" {
				continue
			}
			pos := posOf(an, r.Outcome)
			st := r.st
			signs := callsOf(st, "iface:"+sigPkg+".Signer.SignMessage")
			pubs := callsOf(st, "iface:"+sigPkg+".Signer.PublicKey", "iface:"+sigPkg+".PublicKeyProvider.PublicKey")
			for _, ev := range changes(st) {
				c.check("only", r.ok && ev.kind == "store" && ev.args[0] == sigAt, ev.pos, st, "signing %s metadata may change something else, or something although it fails", targ)
			}
			if !r.ok {
				c.check("failed", get(st, meta, "Signatures") == old, pos, st, "signing %s metadata changes the signatures although it fails", targ)
				why := false
				for t, v := range st.bools {
					if t.op != "eq" || v {
						continue
					}
					for i := 0; i < 2; i++ {
						x := t.args[i]
						if !t.args[1-i].isNil() {
							continue
						}
						why = why || isApp(x, "canonical:1") && unwrap(x.args[0]) == before || isApp(x, "KeyFromPublicKey:1")
						for _, ev := range append(append([]*Event{}, signs...), pubs...) {
							why = why || x == ev.res[len(ev.res)-1]
						}
					}
				}
				c.check("failed", why, pos, st, "signing %s metadata may fail although every step succeeds", targ)
				continue
			}
			if !c.check("signed", len(signs) == 1, pos, st, "signing %s metadata makes %d signatures", targ, len(signs)) {
				continue
			}
			ev := signs[0]
			payload := strip(ev.args[1])
			c.check("signed", ev.args[0] == signer, pos, st, "%s metadata is signed with another signer", targ)
			ok := payload.op == "reader" && isApp(payload.args[0], "canonical:0") && unwrap(payload.args[0].args[0]) == before
			c.check("signed", ok, ev.pos, st, "what is signed of %s metadata is not the canonical form of its signed part: %s", targ, cut(payload.String(), 60))
			c.check("signed", st.holds(isNilT(ev.res[len(ev.res)-1])), ev.pos, st, "signing %s metadata may succeed although the signer failed", targ)
			if ok {
				p := payload.args[0]
				c.check("signed", nilErr(st, "canonical:1", p.args), ev.pos, st, "signing %s metadata may succeed although it was not encoded", targ)
			}
			// the result
			ret := r.rets[0]
			id, sb := get(st, ret, "KeyID"), get(st, ret, "Signature")
			var key *Term
			if isApp(id, "KeyID") && isApp(id.args[0], "KeyFromPublicKey:0") {
				key = id.args[0]
			}
			if c.check("label", key != nil, pos, st, "the signature of %s metadata is labelled with something else than the identifier of a key made from a public key: %s", targ, cut(id.String(), 60)) {
				from := false
				for _, pe := range pubs {
					from = from || pe.args[0] == signer && pe.res[0] == key.args[0] && st.holds(isNilT(pe.res[1]))
				}
				c.check("label", from, pos, st, "the signature of %s metadata is labelled with the identifier of another key than the signer's", targ)
				c.check("label", nilErr(st, "KeyFromPublicKey:1", key.args), pos, st, "the signature of %s metadata may be labelled with the identifier of a key that could not be made", targ)
			}
			c.check("list", bytesOf(sb) == ev.res[0], pos, st, "signing %s metadata returns other bytes than the signature", targ)
			now := get(st, meta, "Signatures")
			if !c.check("list", now.op == "append" && now.args[1].op == "slicelit" && len(now.args[1].args) == 1, pos, st, "the signature of %s metadata is not added to the others: %s", targ, cut(now.String(), 60)) {
				continue
			}
			sig := now.args[1].args[0]
			sid, ssb := structFieldNamed(sig, "KeyID"), structFieldNamed(sig, "Signature")
			c.check("list", sid == id && ssb != nil && bytesOf(ssb) == ev.res[0], pos, st, "what is added to %s metadata is not the signature just made", targ)
			why := an.filtered(st, now.args[0], old, "KeyID", id)
			c.check("list", why == "", pos, st, "the earlier signatures of %s metadata: %s", targ, why)
		}
	}
	for _, targ := range sortedKeys(metaRole) {
		an := c.analyse(c.eng(), c.P.method(c.P.namedType("metadata", "Metadata", targ), "ClearSignatures"), func(st *State, args []*Term) {
			st.assume(nonNil(args[0]), true)
		})
		meta := an.arg(0)
		sigAt := faddrOf(meta, "Signatures")
		for _, o := range an.outs {
			if !c.check("clear", o.kind == "ret", posOf(an, o), o.st, "clearing the signatures of %s metadata may end in a %s", targ, o.kind) {
				continue
			}
			for _, ev := range changes(o.st) {
				c.check("clear", ev.kind == "store" && ev.args[0] == sigAt, ev.pos, o.st, "clearing the signatures of %s metadata may change something else", targ)
			}
			now := get(o.st, meta, "Signatures")
			c.check("clear", o.st.holds(eqT(mkLen(now), mkInt(0))), posOf(an, o), o.st, "signatures of %s metadata may be left after clearing them: %s", targ, cut(now.String(), 60))
			c.check("clear", o.st.holds(nonNil(now)), posOf(an, o), o.st, "cleared %s metadata may have no list of signatures at all, which is written as null", targ)
		}
	}
	c.need("clear", 8)
	c.need("signed", 16)
	c.need("label", 8)
	c.need("list", 8)
	c.need("failed", 8)
	c.need("only", 4)
}

// changes lists the effects on memory that existed before, in loops too.
func changes(st *State) []*Event {
	var out []*Event
	walk(st, st.events(), func(_ *State, ev *Event, _ []*LoopSum) {
		if (ev.kind == "store" || ev.kind == "mapset" || ev.kind == "mapdel") && !isFreshOp(ev.args[0].root()) {
			out = append(out, ev)
		}
	})
	return out
}

func init() {
	registry["C10"] = rule{ruleC10, "Path-sensitive abstract interpretation of Sign and ClearSignatures for each kind of metadata: the one call of the signer and its arguments, the label, what the list of signatures holds afterwards (loop summaries), and the effects of failing paths."}
}

// holder is what lists key identifiers: a role of root, a delegated role or a
// succinct delegation.
type holder struct {
	at   *Term // pointer to it
	list *Term // its key identifiers before the operation
}

// keyTable describes the object whose roles and key store are changed.
type keyTable struct {
	c     *Ctx
	an    *An
	targ  string
	owner *Term // object that has Keys and Roles; nil if there may be none
	id    *Term // the key identifier
	role  *Term // the name of the role
	key   *Term // AddKey: the key
}

func (c *Ctx) keyOp(targ, name string) *keyTable {
	e := c.eng()
	e.contract[kKeyID] = pureContract("KeyID")
	kt := &keyTable{c: c, targ: targ}
	e.obl = func(st *State, _ *Frame, in ssa.Instruction, kind string, safe *Term) {
		if kind == "assignment to entry in nil map" {
			c.check("added", st.holds(safe), in.Pos(), st, "adding a key to %s may fail because there is no key store yet", targ)
		}
	}
	kt.an = c.analyse(e, c.P.method(c.P.namedType("metadata", targ), name), func(st *State, args []*Term) {
		st.assume(nonNil(args[0]), true)
		if name == "AddKey" {
			st.assume(nonNil(args[1]), true)
		}
	})
	an := kt.an
	kt.role = an.arg(2)
	if name == "AddKey" {
		kt.key = an.arg(1)
		kt.id = mk("app", "KeyID", types.Typ[types.String], kt.key)
	} else {
		kt.id = an.arg(1)
	}
	kt.owner = an.arg(0)
	if targ == "TargetsType" {
		kt.owner = get(an.entry, an.arg(0), "Delegations")
	}
	return kt
}

// holders lists the objects that st knows to be the role of that name.
func (kt *keyTable) holders(st *State) []holder {
	en := kt.an.entry
	mkH := func(at *Term) holder { return holder{at, get(en, at, "KeyIDs")} }
	if kt.targ == "RootType" {
		v, ok := kt.an.e.mapElem(en, get(en, kt.owner, "Roles"), kt.role)
		if st.holds(ok) {
			return []holder{mkH(v)}
		}
		return nil
	}
	if !st.holds(nonNil(kt.owner)) {
		return nil
	}
	roles, succ := get(en, kt.owner, "Roles"), get(en, kt.owner, "SuccinctRoles")
	if st.holds(isNilT(roles)) {
		if st.holds(nonNil(succ)) {
			return []holder{mkH(succ)}
		}
		return nil
	}
	var out []holder
	for t, v := range st.bools {
		for i := 0; v && t.op == "eq" && i < 2; i++ {
			x := t.args[i]
			if t.args[1-i] == kt.role && x.op == "load" && x.args[0].op == "faddr" && x.args[0].fieldName() == "Name" {
				el := x.args[0].args[0]
				if el.op == "iaddr" && el.args[0] == roles {
					out = append(out, mkH(el))
				}
			}
		}
	}
	return out
}

// absent decides that there is no role of that name.
func (kt *keyTable) absent(st *State) bool {
	en := kt.an.entry
	if kt.targ == "RootType" {
		_, ok := kt.an.e.mapElem(en, get(en, kt.owner, "Roles"), kt.role)
		return st.fails(ok)
	}
	if st.holds(isNilT(kt.owner)) {
		return true
	}
	roles, succ := get(en, kt.owner, "Roles"), get(en, kt.owner, "SuccinctRoles")
	if st.holds(isNilT(roles)) {
		return st.holds(isNilT(succ))
	}
	et := elemType(roles.typ)
	ok, _ := kt.an.forallSlice(st, roles, func(bs *State, i *Term) string {
		if bs.fails(eqT(get(bs, mkIaddr(roles, i, et), "Name"), kt.role)) {
			return ""
		}
		return "named"
	})
	return ok && st.holds(nonNil(roles))
}

func (kt *keyTable) check(rule string, cond bool, r ares, format string, args ...any) bool {
	return kt.c.check(rule, cond, posOf(kt.an, r.Outcome), r.st, format, args...)
}

// addKey decides AddKey.
func (c *Ctx) addKey(targ string) {
	kt := c.keyOp(targ, "AddKey")
	an, en := kt.an, kt.an.entry
	for _, r := range an.results() {
		if r.kind != "ret" {
			continue
		}
		st := r.st
		evs := changes(st)
		if !r.ok {
			kt.check("unchanged", len(evs) == 0, r, "adding a key to %s fails but changes it", targ)
			kt.check("refused", kt.absent(st), r, "adding a key to %s may fail although the role exists", targ)
			continue
		}
		keys := get(en, kt.owner, "Keys")
		stored := false
		var lists []*Event
		for _, ev := range evs {
			switch {
			case ev.kind == "mapset" && ev.args[0] == get(st, kt.owner, "Keys"):
				if kt.check("stored", ev.args[1] == kt.id && ev.args[2] == kt.key, r, "adding a key to %s stores something else than the key under its identifier", targ) {
					stored = true
				}
			case ev.kind == "store" && ev.args[0].op == "faddr" && ev.args[0].fieldName() == "KeyIDs" && ev.args[1] == get(an.entry, ev.args[0].args[0], "KeyIDs"):
				// the list as it was
			case ev.kind == "store" && ev.args[0].op == "faddr" && ev.args[0].fieldName() == "KeyIDs":
				lists = append(lists, ev)
			case ev.kind == "store" && ev.args[0] == faddrOf(kt.owner, "Keys") && st.holds(isNilT(keys)):
				// the store did not exist: a new one
				mv := st.mapVal(get(st, kt.owner, "Keys"))
				if mv.op == "mupd" && mv.args[0].op == "mempty" && mv.args[1] == kt.id && mv.args[2] == kt.key {
					stored = true
				}
			default:
				kt.check("only", false, r, "adding a key to %s changes something else: %s", targ, cut(ev.args[0].String(), 60))
			}
		}
		kt.check("stored", stored, r, "adding a key to %s may not store the key", targ)
		// where the identifier is listed
		hs := kt.holders(st)
		good, why := false, "no role of that name is known to list it"
		for _, ev := range lists {
			ok := false
			for _, h := range hs {
				if ev.args[0] != faddrOf(h.at, "KeyIDs") {
					continue
				}
				switch m := an.member(st, h.list, kt.id); {
				case !isAppendOf(ev.args[1], h.list, kt.id):
					why = "the list is replaced by something else: " + cut(ev.args[1].String(), 60)
				case m != -1:
					why = "it may be listed already"
				default:
					ok, good = true, true
				}
			}
			kt.check("listed", ok, r, "adding a key to %s: %s", targ, why)
		}
		if len(lists) == 0 {
			for _, h := range hs {
				good = good || an.member(st, h.list, kt.id) == 1
			}
			good = good || kt.listedByLoop(st)
			kt.check("listed", good, r, "adding a key to %s: %s", targ, why)
		}
		kt.check("listed", len(lists) <= 1, r, "adding a key to %s may list it more than once", targ)
	}
}

// listedByLoop decides that a loop over the delegated roles found one of that
// name that lists the identifier.
func (kt *keyTable) listedByLoop(st *State) bool {
	if kt.targ == "RootType" {
		return false
	}
	return kt.an.someIteration(st, func(bs *State) bool {
		for _, h := range kt.holders(bs) {
			if kt.an.member(bs, h.list, kt.id) == 1 {
				return true
			}
		}
		return false
	})
}

// revokeKey decides RevokeKey.
func (c *Ctx) revokeKey(targ string) {
	kt := c.keyOp(targ, "RevokeKey")
	an := kt.an
	for _, r := range an.results() {
		if r.kind != "ret" {
			continue
		}
		st := r.st
		evs := changes(st)
		hs := kt.holders(st)
		if !r.ok {
			kt.check("unchanged", len(evs) == 0, r, "revoking a key of %s fails but changes it", targ)
			why := kt.absent(st)
			for _, h := range hs {
				why = why || an.member(st, h.list, kt.id) == -1
			}
			kt.check("refused", why, r, "revoking a key of %s may fail although the role lists it", targ)
			continue
		}
		var removed *holder
		deleted := false
		for _, ev := range evs {
			switch {
			case ev.kind == "mapdel" && ev.args[0] == get(an.entry, kt.owner, "Keys") && ev.args[1] == kt.id:
				deleted = true
			case ev.kind == "store" && ev.args[0].op == "faddr" && ev.args[0].fieldName() == "KeyIDs":
				ok := false
				why := "another list is changed than that of the role of that name"
				for _, h := range hs {
					if ev.args[0] != faddrOf(h.at, "KeyIDs") {
						continue
					}
					if why = an.filtered(st, ev.args[1], h.list, "", kt.id); why == "" {
						ok = removed == nil
						h := h
						removed = &h
						if !ok {
							why = "it is changed more than once"
						}
					}
				}
				kt.check("removed", ok, r, "revoking a key of %s: %s", targ, why)
			default:
				kt.check("only", false, r, "revoking a key of %s changes something else: %s", targ, cut(ev.args[0].String(), 60))
			}
		}
		if !kt.check("removed", removed != nil, r, "revoking a key of %s may leave it listed for the role", targ) {
			continue
		}
		kt.check("refused", an.member(st, removed.list, kt.id) == 1, r, "revoking a key of %s may succeed although the role does not list it", targ)
		if deleted {
			why := kt.unused(st, *removed)
			kt.check("dropped", why == "", r, "revoking a key of %s drops it: %s", targ, why)
		} else {
			kt.check("dropped", kt.used(st, *removed), r, "revoking a key of %s may keep it although no other role lists it", targ)
		}
	}
}

// unused returns "" if no role but h is left that lists the identifier.
func (kt *keyTable) unused(st *State, h holder) string {
	an, en := kt.an, kt.an.entry
	roles := get(en, kt.owner, "Roles")
	// after the change, no role lists it
	free := func(bs *State, at, named *Term) string {
		if named != nil && bs.holds(named) {
			return "" // the role itself
		}
		for _, s := range []*State{bs, en} {
			if l := get(s, at, "KeyIDs"); an.member(bs, l, kt.id) == -1 {
				return ""
			}
		}
		return "another role may still list it"
	}
	if kt.targ == "RootType" {
		mv := en.mapVal(roles)
		et := mapElemType(roles)
		ok, why := an.forallMap(st, mv, func(bs *State, k *Term) string {
			v, _ := bs.lookup(mv, k, et)
			var self *Term
			for t, p := range bs.bools {
				if p && t.op == "eq" && (t.args[0] == kt.role && isKeyOf(t.args[1], mv) || t.args[1] == kt.role && isKeyOf(t.args[0], mv)) {
					self = t
				}
			}
			return free(bs, v, self)
		})
		if !ok {
			return why
		}
		return ""
	}
	if st.holds(isNilT(roles)) {
		return ""
	}
	et := elemType(roles.typ)
	ok, why := an.forallSlice(st, roles, func(bs *State, i *Term) string {
		at := mkIaddr(roles, i, et)
		var self *Term
		if h.at.op == "iaddr" {
			self = eqT(i, h.at.args[1])
		}
		return free(bs, at, self)
	})
	if !ok {
		return why
	}
	return ""
}

// used decides that a role other than h still lists the identifier.
func (kt *keyTable) used(st *State, h holder) bool {
	found := func(bs *State) bool {
		for t, v := range bs.bools {
			var l *Term
			switch {
			case v && t.op == "contains" && (t.args[1] == kt.id || bs.holds(eqT(t.args[1], kt.id))):
				l = t.args[0]
			case v && t.op == "eq":
				for i := 0; i < 2; i++ {
					if x := t.args[i]; t.args[1-i] == kt.id && x.op == "load" && x.args[0].op == "iaddr" {
						l = x.args[0].args[0]
					}
				}
			}
			if l == nil || l.op != "load" || l.args[0].op != "faddr" || l.args[0].fieldName() != "KeyIDs" {
				continue
			}
			at := l.args[0].args[0]
			if !kt.isHolder(at) {
				continue
			}
			if l == get(bs, at, "KeyIDs") && l != get(kt.an.entry, at, "KeyIDs") {
				return true // as it is after the change
			}
			if l == get(kt.an.entry, at, "KeyIDs") && kt.otherThan(bs, at, h) {
				return true
			}
		}
		return false
	}
	return found(st) || kt.an.someIteration(st, found)
}

// isHolder decides that at is one of the roles of the object.
func (kt *keyTable) isHolder(at *Term) bool {
	roles := get(kt.an.entry, kt.owner, "Roles")
	if kt.targ == "RootType" {
		mv := kt.an.entry.mapVal(roles)
		return (at.op == "lookup" || at.op == "mapval") && at.args[0] == mv
	}
	return at.op == "iaddr" && at.args[0] == roles
}

// otherThan decides that at is not the role h.
func (kt *keyTable) otherThan(st *State, at *Term, h holder) bool {
	if kt.targ == "RootType" {
		return at.op == "lookup" && st.fails(eqT(at.args[1], kt.role)) || st.fails(eqT(at, h.at))
	}
	if at.op == "iaddr" && h.at.op == "iaddr" {
		return st.fails(eqT(at.args[1], h.at.args[1])) || st.fails(eqT(get(st, at, "Name"), kt.role))
	}
	return false
}

func ruleC11(c *Ctx) { c.keyRules("RootType", "a role of root") }
func ruleC12(c *Ctx) { c.keyRules("TargetsType", "a delegated role or succinct delegation") }

func (c *Ctx) keyRules(targ, what string) {
	c.rule("added", "adding a key works without a key store yet")
	c.rule("listed", "adding a key lists its identifier once for "+what)
	c.rule("stored", "adding a key stores it under its identifier")
	c.rule("removed", "revoking removes the identifier, and nothing else, from "+what)
	c.rule("dropped", "revoking drops the key from the store exactly when no other role lists it")
	c.rule("refused", "both fail exactly when there is no such role, and revoking when it does not list the key")
	c.rule("unchanged", "failing changes nothing")
	c.rule("only", "nothing but the role's list and the key store is changed")
	c.addKey(targ)
	c.revokeKey(targ)
	c.need("listed", 2)
	c.need("stored", 2)
	c.need("removed", 2)
	c.need("dropped", 2)
	c.need("refused", 3)
	c.need("unchanged", 3)
}

func init() {
	kd := "Path-sensitive abstract interpretation of AddKey and RevokeKey with loops summarised to a fixpoint and key identifiers kept as a function of the key (C09): every write to existing memory on every path, what the lists hold afterwards, and what must have been found out about the other roles. "
	registry["C11"] = rule{ruleC11, kd + "Root metadata."}
	registry["C12"] = rule{ruleC12, kd + "Targets metadata, for listed roles and succinct delegations."}
}
