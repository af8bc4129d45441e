package main

import (
	"go/types"
	"sort"
	"strings"
)

// pureContract keeps a call as a function of its arguments.
func pureContract(name string) func(c *Call) []callOut {
	return func(c *Call) []callOut { return c.one(c.pureResults(name, c.args...)...) }
}

const (
	kToPub     = "metadata.Key.ToPublicKey"
	kSuccIs    = "metadata.SuccinctRoles.IsDelegatedRole"
	sigPkg     = "github.com/sigstore/sigstore/pkg/signature"
	kVerifySig = "iface:github.com/sigstore/sigstore/pkg/signature.Verifier.VerifySignature"
)

// verifyDelegate analyses VerifyDelegate for one kind of delegator.
func (c *Ctx) verifyDelegate(targ string) *An {
	if a := c.bundles["vd."+targ]; a != nil {
		return a
	}
	e := c.eng()
	e.contract[kToPub] = pureContract("ToPublicKey")
	e.contract[kSuccIs] = pureContract("SuccinctIsDelegatedRole")
	a := c.analyse(e, c.P.method(c.P.namedType("metadata", "Metadata", targ), "VerifyDelegate"), func(st *State, args []*Term) {
		st.assume(nonNil(args[0]), true)
	})
	c.bundles["vd."+targ] = a
	return a
}

// delegation is what a delegator declares for the role on one path.
type delegation struct {
	kind      string
	keyIDs    *Term
	threshold *Term
	keys      *Term // the key table
}

// delegationOn finds the delegation that the facts of st entail; "" kind if none.
func (a *An) delegationOn(targ string, st *State) (delegation, string) {
	role := a.arg(1)
	if targ == "RootType" {
		keys := get(a.entry, a.arg(0), "Signed.Keys")
		v, ok := a.e.mapElem(a.entry, get(a.entry, a.arg(0), "Signed.Roles"), role)
		if !st.holds(ok) {
			return delegation{}, "root is not known to have an entry for the role"
		}
		return delegation{"root", get(a.entry, v, "KeyIDs"), get(a.entry, v, "Threshold"), keys}, ""
	}
	d := get(a.entry, a.arg(0), "Signed.Delegations")
	if !st.holds(nonNil(d)) {
		return delegation{}, "the delegations are not known to exist"
	}
	keys := get(a.entry, d, "Keys")
	roles := get(a.entry, d, "Roles")
	if st.holds(isNilT(roles)) {
		s := get(a.entry, d, "SuccinctRoles")
		if !st.holds(nonNil(s)) {
			return delegation{}, "the succinct delegation is not known to exist"
		}
		if !st.holds(mk("app", "SuccinctIsDelegatedRole", types.Typ[types.Bool], s, role)) {
			return delegation{}, "the role is not known to be one of the bins of the succinct delegation"
		}
		return delegation{"succinct", get(a.entry, s, "KeyIDs"), get(a.entry, s, "Threshold"), keys}, ""
	}
	// a listed role whose name equals the role
	for t, v := range st.bools {
		if !v || t.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := t.args[i], t.args[1-i]
			if y != role || x.op != "load" || x.args[0].op != "faddr" || x.args[0].fieldName() != "Name" {
				continue
			}
			el := x.args[0].args[0]
			if el.op == "iaddr" && el.args[0] == roles {
				// no earlier role of that name: the loops that searched skipped only others
				if w := a.firstMatch(st, roles, el.args[1], func(bs *State, idx *Term) bool {
					ad := mkIaddr(roles, idx, elemType(roles.typ))
					return bs.fails(eqT(get(bs, ad, "Name"), role))
				}); w != "" {
					return delegation{}, w
				}
				return delegation{"roles", get(a.entry, el, "KeyIDs"), get(a.entry, el, "Threshold"), keys}, ""
			}
		}
	}
	return delegation{}, "no delegated role of that name has been found on this path"
}

// firstMatch checks that an index found by a search loop is the first one:
// every completed iteration of the loop the index belongs to satisfied skip.
func (a *An) firstMatch(st *State, coll, idx *Term, skip func(bs *State, idx *Term) bool) string {
	if _, ok := idx.intVal(); ok {
		return ""
	}
	for _, ev := range st.events() {
		if ev.kind != "loop" || ev.loop == nil || !(idx.mentions(ev.loop.tagC) || idx.mentions(ev.loop.tagP)) {
			continue
		}
		if idx.mentions(ev.loop.tagP) {
			return "the role used is not the one the search stopped at"
		}
		for _, b := range ev.loop.backs {
			pi := rename(idx, ev.loop.tagC, ev.loop.tagP, map[*Term]*Term{})
			if !skip(b.st, pi) {
				return "an earlier delegated role of the same name may have been passed over"
			}
		}
	}
	return ""
}

// exhausted reports whether a loop over coll ended because there was no
// element left: the iteration number has reached the length.
func exhausted(st *State, sum *LoopSum, coll *Term) bool {
	return st.holds(not(ltT(sum.itC, mkLen(coll))))
}

// counted is a quantity that may count verified keys: the size of a map or a
// counter built by a loop.
type counted struct {
	val *Term // the number compared with the threshold
	acc *Term // the accumulated map or counter
}

func (a *An) counters(st *State) []counted {
	var out []counted
	var ts []*Term
	for t := range a.e.accs {
		ts = append(ts, t)
	}
	sortTerms(ts)
	for _, t := range ts {
		acc := a.e.accs[t]
		if t != acc.v.symC || t.typ == nil {
			continue
		}
		if _, ok := t.typ.Underlying().(*types.Map); ok {
			out = append(out, counted{mkLen(t), t})
		} else if isInt(t.typ) {
			out = append(out, counted{t, t})
		} else if sl, ok := t.typ.Underlying().(*types.Slice); ok && isString(sl.Elem()) {
			out = append(out, counted{mkLen(t), t})
		}
	}
	return out
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

// loopOnPath finds the summary, as restricted on this path, of the loop that
// an accumulated value belongs to.
func loopOnPath(st *State, sum *LoopSum) *LoopSum {
	for e := st.ev; e != nil; e = e.prev {
		if e.loop != nil && e.loop.tagC == sum.tagC {
			return e.loop
		}
	}
	return nil
}

// contrib is one way an iteration adds to an accumulated map or counter.
type contrib struct {
	st  *State
	key *Term // map key, nil for a counter
	val *Term
	acc *Acc
	b   *Back
}

// contribs resolves what a value adds to base: nil, false if it is not built
// from base by additions only.
func (a *An) contribs(st *State, val, base *Term, b *Back, acc *Acc) ([]contrib, bool) {
	if val == base {
		return nil, true
	}
	switch val.op {
	case "mupd":
		rest, ok := a.contribs(st, val.args[0], base, b, acc)
		return append(rest, contrib{st, val.args[1], val.args[2], acc, b}), ok
	}
	if in := a.e.accs[val]; in != nil {
		rest, ok := a.contribs(st, in.v.init, base, b, acc)
		if !ok {
			return nil, false
		}
		more, ok := a.accContribs(st, in)
		return append(rest, more...), ok
	}
	return nil, false
}

// accContribs lists what the iterations of a loop add to one of its variables.
func (a *An) accContribs(st *State, acc *Acc) ([]contrib, bool) {
	sum := loopOnPath(st, acc.sum)
	if sum == nil {
		sum = acc.sum
	}
	var out []contrib
	for _, b := range sum.backs {
		cs, ok := a.contribs(b.st, b.vals[acc.v.id], acc.v.symP, b, acc)
		if !ok {
			return nil, false
		}
		out = append(out, cs...)
	}
	return out, true
}

// distinctKeys decides that the quantity counts distinct keys each of which
// satisfies valid: "" or why not.
func (a *An) distinctKeys(st *State, cn counted, valid func(st *State, k *Term) string) string {
	acc := a.e.accs[cn.acc]
	if _, isMap := cn.acc.typ.Underlying().(*types.Map); isMap {
		if acc.v.init.op != "mempty" {
			return "the set of verified keys is not empty at first"
		}
		cs, ok := a.accContribs(st, acc)
		if !ok {
			return "the set of verified keys is changed in a way that is not understood"
		}
		for _, x := range cs {
			if w := valid(x.st, x.key); w != "" {
				return w
			}
		}
		return ""
	}
	// a counter or a list: each increment comes with a key that was not in a set before and is put there
	_, isList := cn.acc.typ.Underlying().(*types.Slice)
	if isList && !emptyColl(acc.v.init) {
		return "the list of verified keys is not empty at first"
	}
	if v, ok := acc.v.init.intVal(); !isList && (!ok || v != 0) {
		return "the number of verified keys does not start at zero"
	}
	sum := loopOnPath(st, acc.sum)
	if sum == nil {
		return "the counting loop is not on the path"
	}
	for _, b := range sum.backs {
		v := b.vals[acc.v.id]
		if v == acc.v.symP {
			continue
		}
		if isList {
			k := appended(v, acc.v.symP)
			if k == nil {
				return "the list of verified keys is changed in a way that is not understood"
			}
			if !b.st.fails(mk("contains", "", types.Typ[types.Bool], acc.v.symP, k)) {
				return "a counted key may have been counted before"
			}
			if w := valid(b.st, k); w != "" {
				return w
			}
			continue
		}
		if d, ok := mkAdd(v, acc.v.symP, -1).intVal(); !ok || d != 1 {
			return "the number of verified keys is not incremented by one per iteration"
		}
		found := "a counted key may have been counted before"
		for _, sv := range acc.sum.vars {
			if sv.init == nil || sv.symP == nil {
				continue
			}
			nv := b.vals[sv.id]
			if k := appended(nv, sv.symP); k != nil && emptyColl(sv.init) && b.st.fails(mk("contains", "", types.Typ[types.Bool], sv.symP, k)) && growing(acc.sum, sv) {
				if found = valid(b.st, k); found == "" {
					break
				}
				continue
			}
			if sv.cell == nil || sv.init.op != "mempty" || !growing(acc.sum, sv) {
				continue
			}
			if nv == nil || nv.op != "mupd" || nv.args[0] != sv.symP {
				continue
			}
			k := nv.args[1]
			fresh := b.st.fails(mk("lookupok", "", types.Typ[types.Bool], sv.symP, k)) ||
				nv.args[2].isTrue() && b.st.fails(mk("lookup", "", types.Typ[types.Bool], sv.symP, k))
			if !fresh {
				continue
			}
			// the set only grows
			if found = valid(b.st, k); found == "" {
				break
			}
		}
		if found != "" {
			return found
		}
	}
	return ""
}

// appended is the element that is added to a list, nil if it changes otherwise.
func appended(v, l *Term) *Term {
	if v != nil && v.op == "append" && v.args[0] == l && v.args[1].op == "slicelit" && len(v.args[1].args) == 1 {
		return v.args[1].args[0]
	}
	return nil
}

// growing reports whether a list only gets longer from iteration to iteration.
func growing(sum *LoopSum, v *loopVar) bool {
	for _, b := range sum.backs {
		nv := b.vals[v.id]
		if nv != nil && nv.op == "mupd" && !nv.args[2].isFalse() {
			nv = nv.args[0]
		}
		if nv != v.symP && appended(nv, v.symP) == nil {
			return false
		}
	}
	return true
}

// sigCheck is a VerifySignature call whose arguments have been resolved.
type sigCheck struct {
	ev       *Event
	pub      *Term // public key
	hash     *Term
	verifier *Term
	sig      *Term
	payload  *Term
}

func (a *An) sigChecks(st *State) []sigCheck {
	var out []sigCheck
	walk(st, st.events(), func(_ *State, ev *Event, _ []*LoopSum) {
		if ev.kind != "call" || ev.name != kVerifySig || len(ev.args) < 3 {
			return
		}
		sc := sigCheck{ev: ev, verifier: ev.args[0]}
		if v := strip(ev.args[0]); v.op == "app" && isLoader(v.name, ":0") && len(v.args) >= 1 {
			sc.pub = unwrap(v.args[0])
			for sc.pub.op == "as" {
				sc.pub = sc.pub.args[0]
			}
		}
		if r := strip(ev.args[1]); r.op == "reader" {
			sc.sig = r.args[0]
		}
		if r := strip(ev.args[2]); r.op == "reader" {
			sc.payload = r.args[0]
		}
		out = append(out, sc)
	})
	return out
}

// listed reports whether k is one of the key identifiers of the delegation.
func listed(st *State, k, keyIDs *Term) bool {
	if k.op == "load" && k.args[0].op == "iaddr" && k.args[0].args[0] == keyIDs {
		return true
	}
	for t, v := range st.bools {
		if v && t.op == "contains" && t.args[0] == keyIDs && st.holds(eqT(t.args[1], k)) {
			return true
		}
		if v && t.op == "eq" {
			for i := 0; i < 2; i++ {
				x := t.args[i]
				if t.args[1-i] == k && x.op == "load" && x.args[0].op == "iaddr" && x.args[0].args[0] == keyIDs {
					return true
				}
			}
		}
	}
	return false
}

// sigOf resolves the signature bytes: the metadata object they belong to and
// the address of the signature, or (nil, nil, true) for no signature at all.
func sigOf(sig *Term) (d, at *Term, none bool) {
	if sig == nil {
		return nil, nil, false
	}
	if sig.isNil() || sig.op == "zero" {
		return nil, nil, true
	}
	for sig.op == "convert" {
		sig = sig.args[0]
	}
	if sig.op == "load" && sig.args[0].op == "faddr" && sig.args[0].fieldName() == "Signature" {
		el := sig.args[0].args[0]
		if el.op == "iaddr" && el.args[0].op == "load" && el.args[0].args[0].op == "faddr" && el.args[0].args[0].fieldName() == "Signatures" {
			return el.args[0].args[0].args[0], el, false
		}
	}
	return nil, nil, false
}

// payloadOf is the metadata object whose signed part was encoded canonically.
func payloadOf(st *State, p *Term) *Term {
	if p == nil || p.op != "app" || p.name != "canonical:0" {
		return nil
	}
	x := strip(p.args[0])
	// the object some field of which is in the struct
	var d *Term
	x.any(func(t *Term) bool {
		if d == nil && t.op == "faddr" && t.fieldName() == "Signed" {
			d = t.args[0]
		}
		return false
	})
	if d == nil {
		return nil
	}
	pt, ok := under(d.typ).(*types.Pointer)
	if !ok {
		return nil
	}
	sg := faddrOf(d, "Signed")
	_ = pt
	if st.load(sg, under(sg.typ).(*types.Pointer).Elem()) != x {
		return nil
	}
	return d
}

// delegated reports whether d is the delegated metadata object given to the call.
func (a *An) delegated(d *Term) bool {
	return d != nil && (d == a.arg(2) || d.op == "as" && d.args[0] == a.arg(2))
}

// validKey decides that on st key identifier k counts: "" or what is missing.
func (a *An) validKey(st *State, k *Term, dl delegation) string {
	if !listed(st, k, dl.keyIDs) {
		return "a key identifier that is not known to be listed for the role is counted"
	}
	key, ok := mapGet(a.entry, dl.keys, k)
	if !st.holds(ok) && !st.holds(nonNil(key)) {
		return "a key identifier is counted that may have no key in the key table"
	}
	why := "a key identifier is counted without a successful signature verification"
	for _, sc := range a.sigChecks(st) {
		if !st.holds(isNilT(sc.ev.res[0])) {
			continue
		}
		if w := a.properCheck(st, sc, k, key); w == "" {
			return ""
		} else {
			why = w
		}
	}
	return why
}

// properCheck decides that a signature check is that of key k on the delegated metadata.
func (a *An) properCheck(st *State, sc sigCheck, k, key *Term) string {
	if sc.pub == nil || sc.pub.op != "app" || sc.pub.name != "ToPublicKey:0" || sc.pub.args[0] != key {
		return "the signature is not verified with the key that the key table holds under the counted identifier"
	}
	pd := payloadOf(st, sc.payload)
	if !a.delegated(pd) {
		return "the signature is not verified over the canonical form of the delegated metadata's signed part"
	}
	if !nilErr(st, "canonical:1", sc.payload.args) {
		return "the signature may be verified over something else than the canonical form, which may not exist"
	}
	d, at, none := sigOf(sc.sig)
	if none {
		return ""
	}
	if d == nil || d != pd {
		return "the verified bytes are not a signature of the delegated metadata: " + sc.sig.String()
	}
	if !st.holds(eqT(get(st, at, "KeyID"), k)) {
		return "the verified signature is not known to carry the counted key identifier"
	}
	return ""
}

// noSignature reports whether the loop over the signatures ran to the end
// without finding one of key k.
func (a *An) noSignature(st *State, k *Term) bool {
	for _, t := range a.asTerms(st) {
		sigs := get(st, t, "Signatures")
		if ok, _ := a.forallSlice(st, sigs, func(bs *State, i *Term) string {
			if bs.fails(eqT(get(bs, mkIaddr(sigs, i, elemType(sigs.typ)), "KeyID"), k)) {
				return ""
			}
			return "it may have been found"
		}); ok {
			return true
		}
	}
	return false
}

func walkExits(st *State, f func(ev *Event)) {
	for _, ev := range st.events() {
		if ev.kind == "loopexit" && ev.loop != nil {
			f(ev)
		}
	}
}

// asTerms lists the typed views of the delegated metadata on this path.
func (a *An) asTerms(st *State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for t, v := range st.bools {
		if v && t.op == "typeis" && t.args[0] == a.arg(2) {
			for _, tn := range []string{"RootType", "SnapshotType", "TimestampType", "TargetsType"} {
				pt := types.NewPointer(a.c.P.namedType("metadata", "Metadata", tn))
				if typStr(pt) == t.name {
					x := mk("as", t.name, pt, a.arg(2))
					if !seen[x] {
						seen[x] = true
						out = append(out, x)
					}
				}
			}
		}
	}
	sortTerms(out)
	return out
}

// completeKeys decides that every listed key with a valid signature has been
// counted: the loop visited all listed identifiers and an iteration leaves
// its key out only for a failed check of that key's signature or for want of
// one. "" or why not.
func (a *An) completeKeys(st *State, cn counted, dl delegation) string {
	acc := a.e.accs[cn.acc]
	sum := loopOnPath(st, acc.sum)
	if sum == nil {
		return "the counting loop is not on the path"
	}
	if !exhausted(st, sum, dl.keyIDs) {
		return "verification fails before all listed keys have been tried"
	}
	for _, b := range sum.backs {
		k := get1(b.st, mkIaddr(dl.keyIDs, visited(b.st, dl.keyIDs, sum.itP), elemType(dl.keyIDs.typ)))
		key, _ := mapGet(a.entry, dl.keys, k)
		v := b.vals[acc.v.id]
		if v != acc.v.symP {
			continue // counted
		}
		// counted before
		dup := false
		for _, sv := range acc.sum.vars {
			if sv.symP != nil && sv.symP.typ != nil {
				if b.st.holds(mk("contains", "", types.Typ[types.Bool], sv.symP, k)) {
					dup = true
				}
			}
			if sv.cell != nil && sv.symP.typ != nil {
				if b.st.holds(mk("lookupok", "", types.Typ[types.Bool], sv.symP, k)) || b.st.holds(mk("lookup", "", types.Typ[types.Bool], sv.symP, k)) {
					dup = true
				}
			}
		}
		if dup {
			continue
		}
		why := ""
		n := 0
		for _, sc := range a.sigChecks(b.st) {
			if !strings.Contains(sc.ev.res[0].name, sum.tagP) {
				continue
			}
			n++
			if b.st.holds(isNilT(sc.ev.res[0])) {
				why = "a key whose signature verified is not counted"
				continue
			}
			if w := a.properCheck(b.st, sc, k, key); w != "" {
				why = w
			} else if _, _, none := sigOf(sc.sig); none && !a.noSignature(b.st, k) {
				why = "a key is left out although its signature may not have been looked for everywhere"
			}
		}
		if n == 0 && !a.noSignature(b.st, k) {
			why = "a key is left out without a check of its signature"
		}
		if why != "" {
			return why
		}
	}
	return ""
}

// visited is the position of the element of a list an iteration looks at: the
// loop may go backwards, or over a sorted copy.
func visited(st *State, list, it *Term) *Term {
	var terms []*Term
	down := false
	back := mkAdd(plus(mkLen(list), -1), it, -1)
	for t := range st.bools {
		t.any(func(x *Term) bool {
			if x.op == "iaddr" && x.args[0] == list && x.args[1] == back {
				down = true
			}
			if x.op == "permidx" && x.args[0].args[0] == list && x.args[1] == it {
				terms = append(terms, x)
			}
			return false
		})
	}
	if len(terms) == 0 {
		if down {
			return back
		}
		return it
	}
	sortTerms(terms)
	return terms[0]
}

func get1(st *State, addr *Term) *Term {
	return st.load(addr, under(addr.typ).(*types.Pointer).Elem())
}

// isLoader reports whether a function of the signature package makes the
// verifier of a public key (C17 decides that it is the right one).
func isLoader(name, suffix string) bool {
	n, ok := strings.CutPrefix(name, sigPkg+".Load")
	return ok && strings.HasSuffix(n, "Verifier"+suffix)
}

func isDecodedKey(a *An, st *State, pub *Term, dl delegation) bool {
	pub = unwrap(pub)
	for pub.op == "as" {
		pub = pub.args[0]
	}
	return isApp(pub, "ToPublicKey:0") && keyOfTable(a, st, pub.args[0], dl)
}

func ruleC01(c *Ctx) {
	c.rule("threshold-of-valid-keys", "every path on which VerifyDelegate succeeds has compared the role's threshold with the size of a set (or a duplicate-free count) of key identifiers, each put there only by an iteration that established: listed for the role, key in the delegator's table, VerifySignature == nil with that key over the canonical signed part of the given metadata and the signature labelled with that identifier")
	c.rule("verify-no-effect", "verification writes no memory that outlives it")
	for _, tn := range []string{"RootType", "TargetsType"} {
		a := c.verifyDelegate(tn)
		for _, r := range a.results() {
			if !r.ok {
				continue
			}
			p := posOf(a, r.Outcome)
			dl, why := a.delegationOn(tn, r.st)
			if !c.check("threshold-of-valid-keys", dl.kind != "", p, r.st, "verification by %s succeeds but %s", tn, why) {
				continue
			}
			why = "the threshold is not compared with a number of verified keys"
			for _, cn := range a.counters(r.st) {
				if !r.st.holds(not(ltT(cn.val, dl.threshold))) {
					continue
				}
				if why = a.distinctKeys(r.st, cn, func(st *State, k *Term) string { return a.validKey(st, k, dl) }); why == "" {
					break
				}
			}
			c.check("threshold-of-valid-keys", why == "", p, r.st, "verification by %s (%s) succeeds but %s", tn, dl.kind, why)
		}
		for _, er := range a.evs {
			c.check("verify-no-effect", false, er.ev.pos, nil, "verification writes shared memory: %s %s", er.ev.kind, er.ev.args[0])
		}
		c.check("verify-no-effect", true, a.fn.Pos(), nil, "")
	}
	c.need("threshold-of-valid-keys", 6)
	c.rule("non-delegators", "timestamp and snapshot metadata never verify anything")
	for _, tn := range []string{"TimestampType", "SnapshotType"} {
		a := c.verifyDelegate(tn)
		for _, r := range a.results() {
			c.check("non-delegators", !r.ok, posOf(a, r.Outcome), r.st, "verification by %s can succeed", tn)
		}
	}
	c.need("non-delegators", 2)
}

func ruleC02(c *Ctx) {
	c.rule("stated-reason", "every path on which VerifyDelegate fails has established one of: no delegation of the role, no key identifiers, a listed key missing or not decodable, metadata of no known type or not encodable, or that the number of all listed keys with a valid signature is below the threshold")
	for _, tn := range []string{"RootType", "TargetsType"} {
		a := c.verifyDelegate(tn)
		for _, r := range a.results() {
			if r.ok || r.kind != "ret" {
				continue
			}
			why := a.refusal(tn, r.st)
			c.check("stated-reason", why == "", posOf(a, r.Outcome), r.st, "verification by %s fails: %s", tn, why)
		}
	}
	c.need("stated-reason", 12)
}

func (a *An) refusal(tn string, st *State) string {
	role := a.arg(1)
	// the role is not delegated
	if tn == "RootType" {
		_, ok := a.e.mapElem(a.entry, get(a.entry, a.arg(0), "Signed.Roles"), role)
		if st.fails(ok) {
			return ""
		}
	} else {
		d := get(a.entry, a.arg(0), "Signed.Delegations")
		if st.holds(isNilT(d)) {
			return ""
		}
		roles := get(a.entry, d, "Roles")
		succ := get(a.entry, d, "SuccinctRoles")
		if st.holds(isNilT(roles)) && (st.holds(isNilT(succ)) || st.fails(mk("app", "SuccinctIsDelegatedRole", types.Typ[types.Bool], succ, role))) {
			return ""
		}
		none, _ := a.forallSlice(st, roles, func(bs *State, i *Term) string {
			if bs.fails(eqT(get(bs, mkIaddr(roles, i, elemType(roles.typ)), "Name"), role)) {
				return ""
			}
			return "it may have been found"
		})
		if none && st.holds(nonNil(roles)) {
			return ""
		}
		if st.holds(nonNil(roles)) && st.holds(eqT(mkLen(roles), mkInt(0))) {
			return ""
		}
	}
	dl, why := a.delegationOn(tn, st)
	if dl.kind == "" {
		return why
	}
	if st.holds(eqT(mkLen(dl.keyIDs), mkInt(0))) {
		return ""
	}
	// a listed key that is missing or cannot be used
	for t, v := range st.bools {
		if t.op == "lookupok" && !v && t.args[0] == a.entry.mapVal(dl.keys) && listed(st, t.args[1], dl.keyIDs) {
			return ""
		}
		if t.op == "eq" && !v && (t.args[0].isNil() || t.args[1].isNil()) {
			x := t.args[0]
			if x.isNil() {
				x = t.args[1]
			}
			if x.op == "app" && (x.name == "ToPublicKey:1" && keyOfTable(a, st, x.args[0], dl) || isLoader(x.name, ":1") && isDecodedKey(a, st, x.args[0], dl)) {
				return ""
			}
			if x.op == "app" && x.name == "canonical:1" && len(x.args) == 1 && a.delegated(payloadOf(st, mk("app", "canonical:0", nil, x.args[0]))) {
				return ""
			}
		}
	}
	// not one of the four types
	excl := 0
	for t, v := range st.bools {
		if t.op == "typeis" && t.args[0] == a.arg(2) && !v {
			excl++
		}
	}
	if excl >= 4 || st.holds(isNilT(a.arg(2))) {
		return ""
	}
	why = "none of the stated reasons is established"
	for _, cn := range a.counters(st) {
		if !st.holds(ltT(cn.val, dl.threshold)) {
			continue
		}
		if why = a.completeKeys(st, cn, dl); why == "" {
			return ""
		}
	}
	return why
}

func keyOfTable(a *An, st *State, key *Term, dl delegation) bool {
	return key.op == "lookup" && key.args[0] == a.entry.mapVal(dl.keys) && listed(st, key.args[1], dl.keyIDs)
}

func ruleC03(c *Ctx) {
	c.rule("exact-delegation", "every path on which VerifyDelegate succeeds has found what the delegator declares for exactly that role name (root's entry; the first delegated role of the name; the succinct delegation's keys when the name is one of its bins), steps through exactly its key identifiers, looks them up in the delegator's own key table and compares with its threshold")
	for _, tn := range []string{"RootType", "TargetsType", "TimestampType", "SnapshotType"} {
		a := c.verifyDelegate(tn)
		kinds := map[string]int{}
		for _, r := range a.results() {
			p := posOf(a, r.Outcome)
			if tn == "TimestampType" || tn == "SnapshotType" {
				c.check("exact-delegation", !r.ok, p, r.st, "%s is accepted as a delegator", tn)
				continue
			}
			if !r.ok {
				continue
			}
			dl, why := a.delegationOn(tn, r.st)
			if !c.check("exact-delegation", dl.kind != "", p, r.st, "verification by %s succeeds but %s", tn, why) {
				continue
			}
			kinds[dl.kind]++
			thr := false
			for _, cn := range a.counters(r.st) {
				thr = thr || r.st.holds(not(ltT(cn.val, dl.threshold)))
			}
			c.check("exact-delegation", thr, p, r.st, "verification by %s (%s) succeeds without a comparison with the threshold declared for the role", tn, dl.kind)
			why = "no number of verified keys is compared with the threshold"
			for _, cn := range a.counters(r.st) {
				if !r.st.holds(not(ltT(cn.val, dl.threshold))) {
					continue
				}
				if why = a.distinctKeys(r.st, cn, func(st *State, k *Term) string {
					if !listed(st, k, dl.keyIDs) {
						return "counts a key identifier that is not listed for the role"
					}
					if key, ok := mapGet(a.entry, dl.keys, k); !st.holds(ok) && !st.holds(nonNil(key)) {
						return "counts a key identifier that the delegator's key table may not have"
					}
					return ""
				}); why == "" {
					break
				}
			}
			c.check("exact-delegation", why == "", p, r.st, "verification by %s (%s) %s", tn, dl.kind, why)
		}
		if tn == "RootType" {
			c.check("exact-delegation", kinds["root"] > 0, a.fn.Pos(), nil, "root never verifies a role")
		}
		if tn == "TargetsType" {
			c.check("exact-delegation", kinds["roles"] > 0, a.fn.Pos(), nil, "targets never verifies a listed role")
			c.check("exact-delegation", kinds["succinct"] > 0, a.fn.Pos(), nil, "targets never verifies a bin of a succinct delegation")
		}
	}
	c.need("exact-delegation", 8)
}

func init() {
	vd := "Path-sensitive abstract interpretation of VerifyDelegate for each kind of delegator, with the key loop and the signature search summarised to a fixpoint; key decoding and bin recognition are kept as pure functions (C09, C14). "
	registry["C01"] = rule{ruleC01, vd + "Every succeeding path must entail threshold <= number of distinct valid keys."}
	registry["C02"] = rule{ruleC02, vd + "Every failing path must entail one of the stated reasons."}
	registry["C03"] = rule{ruleC03, vd + "Every succeeding path must use the delegation declared for the role."}
}
