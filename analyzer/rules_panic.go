package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parsedMaps are the fields that hold maps from a parsed document, or of
// trusted metadata, none of whose entries is null (C08, C23).
var parsedMaps = map[string]bool{"Keys": true, "Roles": true, "Meta": true, "Targets": true}

// neverNull decides that a pointer is an entry known to be in such a map.
func neverNull(st *State, p *Term) bool {
	if p.op != "lookup" || len(p.args) != 2 {
		return false
	}
	m, k := p.args[0], p.args[1]
	if typStr(p.typ) == "*metadata.Metadata[metadata.TargetsType]" && st.holds(lookupOK(m, k)) {
		return true // trusted targets metadata, checked below
	}
	if !fromField(m) {
		return false
	}
	if (entryPath(m, "TrustedMetadata") == ".Timestamp.Signed.Meta" || ofTrustedTimestamp(m)) && k == mkStr("snapshot.json") {
		return true // invariant of the trusted set, checked below
	}
	return isKeyOf(k, m) || st.holds(lookupOK(m, k))
}

// entryPath names a part of the receiver as it was on entry, such as
// .Timestamp.Signed.Meta of a trusted set.
func entryPath(m *Term, recv string) string {
	for m.op == "mopq" && len(m.args) > 0 {
		m = m.args[0]
	}
	path := ""
	for {
		switch {
		case m.op == "load":
			m = m.args[0]
		case m.op == "faddr":
			path = "." + m.fieldName() + path
			m = m.args[0]
		case m.op == "param" && strings.HasSuffix(typStr(m.typ), recv):
			return path
		default:
			return ""
		}
	}
}

// ofTrustedTimestamp decides that m is the map of the timestamp metadata that
// an update of the trusted set returned or kept.
func ofTrustedTimestamp(m *Term) bool {
	for m.op == "mopq" || m.op == "load" || m.op == "faddr" || m.op == "field" {
		m = m.args[0]
	}
	return m.op == "res" && typStr(m.typ) == "*metadata.Metadata[metadata.TimestampType]"
}

func entryOf(m *Term) *Term {
	for m.op != "param" && len(m.args) > 0 {
		m = m.args[0]
	}
	return m
}

// setInvariant decides the facts that hold of every trusted set between
// updates; setKeeps checks that each update preserves them.
func setInvariant(st *State, p *Term) bool {
	switch entryPath(p, "TrustedMetadata") {
	case ".Targets", ".Root":
		return true
	case ".Timestamp":
		return st.holds(nonNil(get(st, entryOf(p), "Snapshot")))
	}
	return false
}

func (c *Ctx) setKeeps(an *An, ts func(r ares) *Term) {
	c.rule("trusted-set", "every update leaves the trusted set with the parts that later updates dereference")
	for _, r := range an.results() {
		if r.kind != "ret" {
			continue
		}
		t := ts(r)
		if t == nil || t.isNil() {
			continue
		}
		st := r.st
		at := posOf(an, r.Outcome)
		part := func(n string) *Term { return get(st, t, n) }
		c.check("trusted-set", st.holds(nonNil(part("Targets"))) || entryPath(part("Targets"), "TrustedMetadata") == ".Targets", at, st, "%s may leave no map of targets metadata", an.fn.Name())
		for m := st.mapVal(part("Targets")); m.op == "mupd"; m = m.args[0] {
			c.check("trusted-set", st.holds(nonNil(m.args[2])), at, st, "%s may record a role without metadata", an.fn.Name())
		}
		c.check("trusted-set", st.holds(nonNil(part("Root"))), at, st, "%s may leave no root", an.fn.Name())
		if ts := part("Timestamp"); !st.holds(isNilT(ts)) && entryPath(ts, "TrustedMetadata") == "" {
			m := st.mapVal(get(st, ts, "Signed.Meta"))
			c.check("trusted-set", st.holds(lookupOK(m, mkStr("snapshot.json"))), at, st, "%s may keep a timestamp that does not list snapshot.json", an.fn.Name())
		}
		if sn := part("Snapshot"); !st.holds(isNilT(sn)) && entryPath(sn, "TrustedMetadata") == "" {
			c.check("trusted-set", st.holds(nonNil(part("Timestamp"))), at, st, "%s may keep a snapshot without a timestamp", an.fn.Name())
		}
	}
}

// libraryResult decides that p is the result of a library call that did not
// fail.
func libraryResult(st *State, p *Term) bool {
	if p.op != "app" || !strings.HasSuffix(p.name, ":0") || !strings.Contains(p.name, "/") {
		return false
	}
	err := mk("app", strings.TrimSuffix(p.name, "0")+"1", types.Universe.Lookup("error").Type(), p.args...)
	return st.holds(isNilT(err))
}

func fromField(m *Term) bool {
	for m.op == "mopq" && len(m.args) > 0 {
		m = m.args[0]
	}
	if m.op == "load" && m.args[0].op == "faddr" {
		return parsedMaps[m.args[0].fieldName()]
	}
	if m.op == "field" {
		return parsedMaps[m.name[strings.LastIndexByte(m.name, '.')+1:]]
	}
	return false
}

// preconditions of library functions that panic when they are not met
func libraryNeeds(st *State, ev *Event) (*Term, string) {
	arg := func(i int) *Term { return ev.args[i] }
	n := func(i int) *Term { return mkLen(arg(i)) }
	switch ev.name {
	case "encoding/hex.Decode":
		return not(ltT(mkAdd(mkAdd(n(0), n(0), 1), mkInt(1), 1), n(1))), "hex.Decode into a buffer that is too short"
	case "encoding/hex.Encode":
		return not(ltT(n(0), mkAdd(n(1), n(1), 1))), "hex.Encode into a buffer that is too short"
	case "crypto/ed25519.Verify":
		return eqT(n(0), mkInt(32)), "ed25519.Verify with a key of the wrong length"
	case "strings.Repeat", "bytes.Repeat":
		return not(ltT(arg(1), mkInt(0))), "a negative repeat count"
	case "regexp.MustCompile", "html/template.Must", "text/template.Must":
		return mkBool(arg(0).op == "const"), "a pattern that may not compile"
	}
	return nil, ""
}

// isSafe decides the condition under which an instruction does not panic.
func isSafe(st *State, safe *Term) bool {
	if st.holds(safe) {
		return true
	}
	// every parsed bit length is between 1 and 32 (C08)
	if a, pol := boolAtom(safe); a.op == "ltc" && a.args[0].op == "load" && a.args[0].args[0].op == "faddr" && a.args[0].args[0].fieldName() == "BitLength" {
		if k, _ := strconv.ParseInt(a.name, 10, 64); pol && k > 32 || !pol && k <= 1 {
			return true
		}
	}
	le := func(a, b *Term) bool { return st.holds(not(ltT(b, a))) }
	switch safe.op {
	case "inrange":
		i, n := safe.args[0], safe.args[1]
		return le(mkInt(0), i) && st.holds(ltT(i, n))
	case "slicebounds":
		lo, hi, n := safe.args[0], safe.args[1], safe.args[2]
		return le(mkInt(0), lo) && le(lo, hi) && le(hi, n)
	case "not":
		if safe.args[0].op != "eq" {
			break
		}
		for i := 0; i < 2; i++ {
			if !safe.args[0].args[1-i].isNil() {
				continue
			}
			p := safe.args[0].args[i]
			if isSliceT(p) || p.op == "global" || p.op == "load" && p.args[0].op == "global" {
				// an element that is in range exists; package variables are
				// not set from documents
				return true
			}
			if strings.HasPrefix(p.op, "as") && len(p.args) > 0 && p.args[0].op == "param" {
				return true // callers do not pass nil pointers in interfaces
			}
			return neverNull(st, p) || libraryResult(st, p) || setInvariant(st, p)
		}
	}
	return false
}

// parsing says that a parser of the library is running.
func parsing(fr *Frame) bool {
	for _, f := range fr.stack {
		if f.Name() == "UnmarshalJSON" {
			return true
		}
	}
	return fr.fn.Name() == "UnmarshalJSON"
}

// guaranteedInParser says that what has to hold is not about an entry of a map.
func guaranteedInParser(safe *Term) bool {
	if safe.op != "not" || safe.args[0].op != "eq" {
		return safe.op == "inrange" || safe.op == "slicebounds"
	}
	for i := 0; i < 2; i++ {
		if safe.args[0].args[1-i].isNil() && safe.args[0].args[i].op == "lookup" {
			return false
		}
	}
	return true
}

// existing decides that an entry of a map is not null because a loop over all
// of the map found none that is.
func (c *Ctx) existing(st *State, safe *Term) bool {
	p := safe.args[0].args[0]
	if p.isNil() {
		p = safe.args[0].args[1]
	}
	a := &An{c: c}
	ok, _ := a.forallMap(st, p.args[0], func(bs *State, k *Term) string {
		et := p.typ
		if bs.holds(nonNil(mk("lookup", "", et, p.args[0], k))) {
			return ""
		}
		return "it may be null"
	})
	return ok
}

func ruleC06(c *Ctx) {
	c.rule("no-panic", "every instruction that can panic, on every path reachable from the operations on documents, is guarded")
	c.rule("parsed", "no parser accepts null entries or bit lengths outside 1 to 32, on which later operations would panic")
	c.rule("crypto", "a decoded Ed25519 key has the length the library requires")
	obligation := func(what string) func(st *State, fr *Frame, in ssa.Instruction, kind string, safe *Term) {
		return func(st *State, fr *Frame, in ssa.Instruction, kind string, safe *Term) {
			ok := isSafe(st, safe)
			if ok && parsing(fr) && !st.holds(safe) && !guaranteedInParser(safe) {
				ok = c.existing(st, safe) // what parsers ensure is not yet so within them
			}
			pos := in.Pos()
			if !pos.IsValid() {
				pos = fr.fn.Pos()
			}
			c.check("no-panic", ok, pos, st, "%s in %s: %s may not hold (%s)", kind, fr.fn.Name(), safe, what)
		}
	}
	needs := func(st *State, ev *Event, what string) {
		if ev.kind != "call" {
			return
		}
		if need, kind := libraryNeeds(st, ev); need != nil {
			c.check("no-panic", st.holds(need), ev.pos, st, "%s: %s may not hold (%s)", kind, need, what)
		}
	}
	run := func(fn *ssa.Function, what string, setup func(st *State, args []*Term), conf func(e *Eng)) *An {
		e := c.eng()
		if conf != nil {
			conf(e)
		}
		e.obl = obligation(what)
		return c.analyse2(e, fn, setup, func(st *State, ev *Event) { needs(st, ev, what) })
	}
	recv := func(st *State, args []*Term) {
		if len(args) > 0 {
			if _, ok := under(args[0].typ).(*types.Pointer); ok {
				st.assume(nonNil(args[0]), true)
			}
		}
	}
	meta := func(n string, targ ...string) types.Type { return c.P.namedType("metadata", n, targ...) }
	// no parser accepts the null entries and bit lengths that operations rely on
	c.parsedOK("parsed", false)
	// loading and serialising
	for _, targ := range sortedKeys(metaRole) {
		m := meta("Metadata", targ)
		for _, n := range []string{"FromBytes", "FromFile", "ToBytes", "UnmarshalJSON", "MarshalJSON"} {
			run(c.P.method(m, n), n+" of "+targ, recv, nil)
		}
		run(c.P.method(m, "VerifyDelegate"), "VerifyDelegate by "+targ, func(st *State, args []*Term) {
			recv(st, args)
			for _, other := range sortedKeys(metaRole) {
				pt := types.NewPointer(meta("Metadata", other))
				is := mk("typeis", typStr(pt), types.Typ[types.Bool], args[2])
				_ = is
			}
		}, func(e *Eng) {
			e.contract[kToPub] = pureContract("ToPublicKey")
		})
	}
	pkg := c.P.pkg("metadata").Pkg
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || n == "Metadata" {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			switch m := nt.Method(i).Name(); m {
			case "UnmarshalJSON", "MarshalJSON", "IsExpired", "VerifyLengthHashes", "Equal", "ToPublicKey", "IsDelegatedPath", "GetRolesForTarget", "GetRoles", "GetSuffixLen", "IsDelegatedRole":
				an := run(c.P.method(nt, m), n+"."+m, func(st *State, args []*Term) {
					recv(st, args)
				}, nil)
				if m == "ToPublicKey" {
					c.edLength(an)
				}
			}
		}
	}
	// the trusted set
	for _, n := range append([]string{"New"}, tsUpdates...) {
		var fn *ssa.Function
		if n == "New" {
			fn = c.P.fn(pkgTS, "New")
		} else {
			fn = c.P.method(c.P.namedType(pkgTS, "TrustedMetadata"), n)
		}
		an := run(fn, "trusted set "+n, func(st *State, args []*Term) {
			if n != "New" {
				st.assume(nonNil(args[0]), true)
				st.assume(nonNil(get(st, args[0], "Root")), true)
			}
		}, func(e *Eng) {
			e.opaque = func(key string, _ *ssa.Function) bool { return key == kVerify || key == kVLHMeta || key == kVLHTarget }
			e.contract[kFromBytes] = fromBytesContract
		})
		c.setKeeps(an, func(r ares) *Term {
			if n == "New" {
				return r.rets[0]
			}
			return an.args[0]
		})
	}
	// the client
	for _, n := range []string{"New", "Refresh", "GetTargetInfo", "DownloadTarget", "FindCachedTarget", "GetTopLevelTargets", "GetTrustedMetadataSet"} {
		c.updaterWith(n, func(up *Up, st *State) {
			if n != "New" {
				st.assume(nonNil(up.conf(st, "Fetcher")), true)
			}
			if n == "DownloadTarget" || n == "FindCachedTarget" {
				st.assume(nonNil(up.An.args[1]), true)
			}
		}, func(up *Up, st *State, ev *Event) { needs(st, ev, "client "+n) }, func(e *Eng, up *Up) {
			e.merge = up.digest
			e.obl = obligation("client " + n)
		})
	}
	c.need("no-panic", 60)
	c.need("parsed", 5)
	c.need("crypto", 1)
}

// edLength checks that every Ed25519 key returned has 32 bytes.
func (c *Ctx) edLength(an *An) {
	for _, r := range an.results() {
		if r.kind != "ret" || !r.ok {
			continue
		}
		k := r.rets[0]
		if k.op != "iface" || !strings.HasSuffix(typStr(k.typ), "ed25519.PublicKey") {
			continue
		}
		c.check("crypto", r.st.holds(eqT(mkLen(k.args[0]), mkInt(32))), posOf(an, r.Outcome), r.st, "ToPublicKey may return an Ed25519 key of another length than 32, on which verification panics")
	}
}

func init() {
	registry["C06"] = rule{ruleC06, "Path-sensitive abstract interpretation of every operation on documents; each instruction that can panic (dereference, index, slice, type assertion, shift, division, nil map write, explicit panic, library precondition) is an obligation decided on every path that reaches it."}
}
