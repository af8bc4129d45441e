package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	kKeyID    = "metadata.Key.ID"
	kKeyFrom  = "metadata.KeyFromPublicKey"
	kPemKey   = "github.com/sigstore/sigstore/pkg/cryptoutils.UnmarshalPEMToPublicKey"
	kToPem    = "github.com/sigstore/sigstore/pkg/cryptoutils.MarshalPublicKeyToPEM"
	kHexDec   = "encoding/hex.DecodeString"
	kMarshPub = "crypto/x509.MarshalPKIXPublicKey"
)

// algorithm is a kind of public key the TUF specification knows: its name and
// scheme, the Go type, and how the key is encoded.
type algorithm struct {
	types  []string // keytype names it is declared by, the first is used for new keys
	scheme string
	goType string
	pem    bool
	size   int64
}

var algorithms = []algorithm{
	{[]string{"rsa"}, "rsassa-pss-sha256", "*crypto/rsa.PublicKey", true, 0},
	{[]string{"ecdsa", "ecdsa-sha2-nistp256"}, "ecdsa-sha2-nistp256", "*crypto/ecdsa.PublicKey", true, 0},
	{[]string{"ed25519"}, "ed25519", "crypto/ed25519.PublicKey", false, 32},
}

func ruleC09(c *Ctx) {
	c.rule("id", "a key's identifier is the lowercase hex SHA-256 digest of the canonical encoding of the key")
	c.rule("cached", "only that digest is ever remembered as a key's identifier, and a key that is changed forgets it")
	c.rule("algorithm", "decoding a key yields a public key of exactly the algorithm that its type declares, decoded from its value")
	c.rule("decodes", "decoding fails only for a key of another type or one that the decoder of its algorithm rejects")
	c.rule("built", "a key built from a public key has the type, scheme and encoding of its algorithm")
	c.rule("builds", "building a key fails only for a public key of another algorithm or one that cannot be encoded")
	kt := c.P.namedType("metadata", "Key").(*types.Named)
	c.keyID(kt)
	c.keyDecode(kt)
	c.keyBuild()
	c.need("id", 1)
	c.need("cached", 2)
	c.need("algorithm", 3)
	c.need("decodes", 4)
	c.need("built", 3)
	c.need("builds", 2)
}

// isKeyDigest decides that v is the identifier of the key k as it is in st.
func isKeyDigest(v, k *Term) bool {
	if v.op != "app" || v.name != "hex.EncodeToString" {
		return false
	}
	d := v.args[0]
	if d.op != "app" || d.name != "digest:sha256" {
		return false
	}
	x := d.args[0]
	return x.op == "app" && x.name == "canonical:0" && unwrap(x.args[0]) == k
}

func (c *Ctx) keyID(kt *types.Named) {
	m := c.P.method(kt, "ID")
	an := c.analyse(c.eng(), m, func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) })
	k := an.arg(0)
	cache := map[string]bool{} // fields that may hold a remembered identifier
	for _, o := range an.outs {
		if o.kind != "ret" || len(o.rets) == 0 {
			continue
		}
		v := o.rets[0]
		ok := isKeyDigest(v, k) && nilErr(o.st, "canonical:1", v.args[0].args[0].args)
		if v.op == "load" && v.args[0].op == "faddr" && v.args[0].args[0] == k && o.st.holds(not(eqT(v, mkStr("")))) && !token.IsExported(v.args[0].fieldName()) {
			// remembered earlier
			cache[v.args[0].fieldName()] = true
			ok = true
		}
		c.check("id", ok, o.pos, o.st, "the identifier of a key may be something else than the digest of its canonical form: %s", cut(v.String(), 80))
	}
	// nothing else is ever remembered
	n := 0
	for _, f := range c.P.moduleFuncs() {
		touches := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isNamedPtr(fa.X.Type(), kt) {
					n++
					if !onlyRead(fa, map[ssa.Value]bool{}) {
						touches = true
					}
				}
				if st, ok := in.(*ssa.Store); ok && isNamedPtr(st.Addr.Type(), kt) {
					touches = true
				}
			}
		}
		if !touches || strings.HasPrefix(fnKey(f), "testutils") {
			continue
		}
		for _, root := range c.entriesOf(f) {
			c.keyWriter(root, kt, cache)
		}
	}
	c.rules["cached"].n += n
}

// entriesOf lists the functions to analyse for f: itself if it can be called
// from outside its package, else those that call it.
func (c *Ctx) entriesOf(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for f.Parent() != nil {
			f = f.Parent()
		}
		callers := c.P.callersOf(f)
		if token.IsExported(f.Name()) || len(callers) == 0 {
			out = append(out, f)
			return
		}
		for _, g := range callers {
			up(g)
		}
	}
	up(f)
	return out
}

// callersOf lists the module's functions that mention f.
func (P *Program) callersOf(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range P.moduleFuncs() {
		hit := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) {
						hit = true
					}
				}
			}
		}
		if hit {
			out = append(out, g)
		}
	}
	return out
}

func isNamedPtr(t types.Type, nt *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), nt)
}

// keyWriter decides that a function that writes keys leaves no wrong identifier in one.
func (c *Ctx) keyWriter(f *ssa.Function, kt *types.Named, cache map[string]bool) {
	e := c.eng()
	keyT := types.NewPointer(kt)
	an := c.analyse2(e, f, nil, func(st *State, ev *Event) {
		if ev.kind != "store" || ev.args[0].op != "faddr" || !cache[ev.args[0].fieldName()] || !types.Identical(ev.args[0].args[0].typ, keyT) {
			return
		}
		v := ev.args[1]
		c.check("cached", v == mkStr("") || isKeyDigest(v, ev.args[0].args[0]), ev.pos, st, "%s remembers something else than the digest of the key as its identifier", f)
	})
	for _, o := range an.outs {
		if o.kind != "ret" {
			continue
		}
		// what new keys remember
		for a, v := range o.st.cells {
			if a.op == "faddr" && cache[a.fieldName()] && types.Identical(a.args[0].typ, keyT) {
				old := v.op == "load" && v.args[0].op == "faddr" && cache[v.args[0].fieldName()] || v.op == "param" || v.op == "field" && cache[v.name]
				c.check("cached", v == mkStr("") || old || isKeyDigest(v, a.args[0]), o.pos, o.st, "%s may make a key that remembers something else than its digest as its identifier", f)
			}
		}
		// keys whose serialised form was changed
		walk(o.st, o.st.events(), func(st *State, ev *Event, in []*LoopSum) {
			if ev.kind != "store" || len(in) > 0 {
				return
			}
			k := ev.args[0]
			for k.op == "faddr" && !types.Identical(k.typ, keyT) {
				k = k.args[0]
			}
			if !types.Identical(k.typ, keyT) || k == ev.args[0] && k.op == "faddr" {
				return
			}
			for _, n := range sortedKeys(cache) {
				if ev.args[0].op == "faddr" && ev.args[0].args[0] == k && ev.args[0].fieldName() == n {
					return
				}
				v := get(o.st, k, n)
				if isKeyDigest(v, k) && e.digestAfter(o.st, ev) {
					continue
				}
				c.check("cached", o.st.holds(eqT(v, mkStr(""))), ev.pos, o.st, "%s changes a key that may remember its old identifier", f)
			}
		})
	}
}

// digestAfter reports whether a key's identifier was stored after the event.
func (e *Eng) digestAfter(st *State, ev *Event) bool {
	after := false
	for _, x := range st.events() {
		if x == ev {
			after = true
		} else if after && x.kind == "store" && x.args[0].op == "faddr" && isKeyDigest(x.args[1], x.args[0].args[0]) {
			return true
		}
	}
	return false
}

func (c *Ctx) keyDecode(kt *types.Named) {
	an := c.analyse(c.eng(), c.P.method(kt, "ToPublicKey"), func(st *State, args []*Term) { st.assume(nonNil(args[0]), true) })
	k := an.arg(0)
	typ := get(an.entry, k, "Type")
	val := get(an.entry, k, "Value.PublicKey")
	for _, r := range an.results() {
		if r.kind != "ret" {
			continue
		}
		pos := posOf(an, r.Outcome)
		pub := r.rets[0]
		for _, alg := range algorithms {
			for _, tn := range alg.types {
				st := given(r.st, eqT(typ, mkStr(tn)))
				if st == nil {
					continue
				}
				if r.ok {
					why := decodedAs(st, pub, alg, val)
					c.check("algorithm", why == "", pos, st, "decoding a key of type %s: %s", tn, why)
				} else {
					c.check("decodes", rejected(st, alg, val), pos, st, "a key of type %s may be rejected that its decoder accepts", tn)
				}
			}
		}
		// other types
		st := r.st
		for _, alg := range algorithms {
			for _, tn := range alg.types {
				if st != nil {
					st = given(st, not(eqT(typ, mkStr(tn))))
				}
			}
		}
		if st != nil {
			c.check("algorithm", !r.ok, pos, st, "a key of an unknown type may be decoded")
		}
	}
}

func isApp(t *Term, name string) bool { return t.op == "app" && t.name == name }

// bytesOf sees through the conversion of a string to bytes and back.
func bytesOf(t *Term) *Term {
	for t.op == "conv" || t.op == "convert" {
		t = t.args[0]
	}
	return t
}

// decodedAs returns "" if pub is a public key of an algorithm decoded from val.
func decodedAs(st *State, pub *Term, alg algorithm, val *Term) string {
	if pub.op != "iface" || typStr(pub.typ) != alg.goType {
		if pub.op == "app" || pub.op == "as" {
			// the decoder's result, known to be of the type
			if !isType(st, pub, alg.goType) {
				return "the result may be of another algorithm"
			}
		} else {
			return "the result is of type " + typStr(pub.typ)
		}
	}
	x := decodedKey(pub)
	want := kHexDec
	if alg.pem {
		want = kPemKey
	}
	if !decodedFrom(pub, alg, val) {
		return "the result is not decoded from the key's value: " + cut(x.String(), 60)
	}
	if !st.holds(isNilT(mk("app", want+":1", nil, x.args...))) && !nilErr(st, want+":1", x.args) {
		return "the value may not have been decoded"
	}
	if alg.size > 0 && !st.holds(eqT(mkLen(x), mkInt(alg.size))) {
		return "the key may not have the length of that algorithm"
	}
	return ""
}

func decodedKey(pub *Term) *Term {
	x := unwrap(pub)
	for x.op == "as" || x.op == "convert" {
		x = x.args[0]
	}
	return x
}

// decodedFrom decides that pub is what the decoder of the algorithm makes of val.
func decodedFrom(pub *Term, alg algorithm, val *Term) bool {
	x := decodedKey(pub)
	want := kHexDec
	if alg.pem {
		want = kPemKey
	}
	return isApp(x, want+":0") && bytesOf(x.args[0]) == val
}

// nilErr reports whether the error result of a pure call is known to be nil.
func nilErr(st *State, name string, args []*Term) bool { return libErr(st, name, args) == 1 }

// libErr decides the error result of a pure call: 1 nil, -1 not nil, 0 unknown.
func libErr(st *State, name string, args []*Term) int {
	for t, v := range st.bools {
		if t.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x := t.args[i]
			if !t.args[1-i].isNil() || !isApp(x, name) || len(x.args) < len(args) {
				continue
			}
			same := true
			for j := range args {
				same = same && bytesOf(x.args[j]) == bytesOf(args[j])
			}
			if same && v {
				return 1
			}
			if same {
				return -1
			}
		}
	}
	return 0
}

// isType reports whether the dynamic type of v is known to be the one named.
func isType(st *State, v *Term, name string) bool {
	if v.op == "iface" {
		return typStr(v.typ) == name
	}
	if v.op == "as" && v.name == name {
		return true
	}
	for t, p := range st.bools {
		if p && t.op == "typeis" && t.args[0] == v && t.name == name {
			return true
		}
	}
	return false
}

// notType reports whether the dynamic type of v is known not to be the one named.
func notType(st *State, v *Term, name string) bool {
	if v.op == "iface" {
		return typStr(v.typ) != name
	}
	for t, p := range st.bools {
		if t.op == "typeis" && t.args[0] == v && (!p && t.name == name || p && t.name != name) {
			return true
		}
	}
	return st.holds(isNilT(v))
}

// rejected decides that a library rejects the key: the decoder, or the check
// that it can be encoded again, or it is of another type or length.
func rejected(st *State, alg algorithm, val *Term) bool {
	dec := kHexDec
	if alg.pem {
		dec = kPemKey
	}
	for _, f := range []string{kPemKey, kHexDec} {
		if libErr(st, f+":1", []*Term{val}) == -1 {
			return f == dec
		}
	}
	for t, v := range st.bools {
		if t.op == "eq" && !v {
			for i := 0; i < 2; i++ {
				if t.args[1-i].isNil() && isApp(t.args[i], kMarshPub+":1") && decodedFrom(t.args[i].args[0], alg, val) && libErr(st, dec+":1", []*Term{val}) == 1 {
					return true
				}
			}
		}
		if t.op == "typeis" && alg.pem && isApp(t.args[0], kPemKey+":0") && bytesOf(t.args[0].args[0]) == val && notType(st, t.args[0], alg.goType) {
			return true
		}
	}
	if !alg.pem {
		raw := mk("app", kHexDec+":0", types.NewSlice(types.Typ[types.Byte]), val)
		return st.fails(eqT(mkLen(raw), mkInt(alg.size)))
	}
	return false
}

func (c *Ctx) keyBuild() {
	an := c.analyse(c.eng(), c.P.fn("metadata", "KeyFromPublicKey"), nil)
	pub := an.arg(0)
	for _, r := range an.results() {
		if r.kind != "ret" {
			continue
		}
		pos := posOf(an, r.Outcome)
		st := r.st
		if !r.ok {
			good := true
			for _, alg := range algorithms {
				if isType(st, pub, alg.goType) {
					good = alg.pem && libErr(st, kToPem+":1", nil) == -1
					break
				}
				good = good && notType(st, pub, alg.goType)
			}
			c.check("builds", good, pos, st, "building a key may fail for a public key that could be encoded")
			continue
		}
		k := r.rets[0]
		found := false
		for _, alg := range algorithms {
			if !isType(st, pub, alg.goType) {
				continue
			}
			found = true
			why := ""
			v := get(st, k, "Value.PublicKey")
			src := func(x *Term) bool {
				x = unwrap(x)
				return x == pub || x.op == "as" && x.args[0] == pub
			}
			switch {
			case get(st, k, "Type") != mkStr(alg.types[0]):
				why = "its type is not " + alg.types[0]
			case get(st, k, "Scheme") != mkStr(alg.scheme):
				why = "its scheme is not " + alg.scheme
			case alg.pem && !(isApp(bytesOf(v), kToPem+":0") && src(bytesOf(v).args[0]) && nilErr(st, kToPem+":1", nil)):
				why = "its value is not the PEM encoding of the public key"
			case !alg.pem && !(isApp(v, "hex.EncodeToString") && src(bytesOf(v.args[0]))):
				why = "its value is not the hexadecimal encoding of the public key"
			case !isFreshOp(k.root()):
				why = "it is not a new key"
			}
			c.check("built", why == "", pos, st, "a key built from a public key of type %s: %s", alg.goType, why)
		}
		c.check("built", found, pos, st, "a key may be built from something else than an RSA, ECDSA or Ed25519 public key")
	}
}

func ruleC17(c *Ctx) {
	c.rule("digest", "signatures of RSA and ECDSA keys are verified over the SHA-256 digest, those of Ed25519 keys over the message")
	c.rule("algorithm", "a signature is verified with the public key of the listed key by the verifier of that key's algorithm")
	c.rule("padding", "signatures of RSA keys are verified with the RSASSA-PSS padding that their scheme names")
	for _, targ := range []string{"RootType", "TargetsType"} {
		an := c.verifyDelegate(targ)
		for _, o := range an.outs {
			walk(o.st, o.st.events(), func(st *State, ev *Event, _ []*LoopSum) {
				if ev.kind != "call" || ev.name != kVerifySig {
					return
				}
				v := strip(ev.args[0])
				if !c.check("algorithm", v.op == "app" && strings.HasPrefix(v.name, "github.com/sigstore/sigstore/pkg/signature.Load") && strings.HasSuffix(v.name, ":0") && len(v.args) >= 1, ev.pos, st, "a signature is verified with something else than a verifier for a key: %s", cut(v.String(), 60)) {
					return
				}
				name := strings.TrimSuffix(v.name[strings.LastIndexByte(v.name, '.')+1:], ":0")
				pub := unwrap(v.args[0])
				for pub.op == "as" {
					pub = pub.args[0]
				}
				if !c.check("algorithm", isApp(pub, "ToPublicKey:0"), ev.pos, st, "a signature is verified with something else than a decoded key") {
					return
				}
				typ := get(st, pub.args[0], "Type")
				for _, alg := range algorithms {
					for _, tn := range alg.types {
						s := given(st, eqT(typ, mkStr(tn)))
						if s == nil {
							continue
						}
						own := map[string]string{"rsa": "LoadRSA", "ecdsa": "LoadECDSAVerifier", "ed25519": "LoadED25519Verifier"}[alg.types[0]]
						generic := name == "LoadVerifier" || name == "LoadVerifierWithOpts"
						c.check("algorithm", generic || strings.HasPrefix(name, own) && strings.HasSuffix(name, "Verifier"), ev.pos, s, "signatures of %s keys are verified with %s", tn, name)
						if len(v.args) >= 2 && name != "LoadED25519Verifier" && name != "LoadVerifierWithOpts" {
							want := int64(5) // crypto.SHA256
							if !alg.pem {
								want = 0
							}
							c.check("digest", s.holds(eqT(v.args[1], mkConst(constInt(want), v.args[1].typ))), ev.pos, s, "signatures of %s keys may be verified over another digest", tn)
						}
						if alg.types[0] == "rsa" {
							c.check("padding", name == "LoadRSAPSSVerifier", ev.pos, s, "signatures of RSA keys, whose scheme is %s, are verified by %s, which uses PKCS #1 v1.5 padding", alg.scheme, name)
						}
					}
				}
			})
		}
	}
	c.need("digest", 6)
	c.need("algorithm", 6)
	c.need("padding", 2)
}

func init() {
	registry["C09"] = rule{ruleC09, "Path-sensitive abstract interpretation of Key.ID, ToPublicKey and KeyFromPublicKey against the table of algorithms of the specification, and of every function of the module that writes keys."}
	registry["C17"] = rule{ruleC17, "Path-sensitive abstract interpretation of VerifyDelegate for each kind of delegator: the verifier used at every signature check, for each key type."}
}
