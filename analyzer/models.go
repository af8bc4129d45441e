package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/url"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lenOf is the length of a value, looking at current map contents.
func (e *Eng) lenOf(st *State, t *Term) *Term {
	if _, ok := under(t.typ).(*types.Map); ok {
		mv := st.mapVal(t)
		return mkLen(mv)
	}
	return mkLen(e.keysOr(st, t))
}

// keysOf is the map whose keys a list consists of, each once and in some
// order: the list was put together by a loop over the map.
func (e *Eng) keysOf(st *State, t *Term) *Term {
	if t.op == "mapkeys" {
		return t.args[0]
	}
	a := e.accs[t]
	if a == nil || t != a.v.symC || a.v.init == nil || !emptyColl(a.v.init) && !(a.v.init.op == "makeslice" && isConstInt(a.v.init.args[0], 0)) || len(a.sum.allBacks) == 0 {
		return nil
	}
	var mv *Term
	for _, b := range a.sum.allBacks {
		k := appended(b.vals[a.v.id], a.v.symP)
		if k == nil || k.op != "key" || k.args[1] != a.sum.itP || mv != nil && k.args[0] != mv {
			return nil
		}
		mv = k.args[0]
	}
	if mv == nil || !st.fails(mk("nextok", "", types.Typ[types.Bool], mv, a.sum.itC)) {
		return nil
	}
	return mv
}

// keysOr is the list of all keys of a map if that is what t is.
func (e *Eng) keysOr(st *State, t *Term) *Term {
	if mv := e.keysOf(st, t); mv != nil {
		return mk("mapkeys", "", t.typ, mv)
	}
	return t
}

// sortInPlace puts the elements of a list into another order.
func (e *Eng) sortInPlace(c *Call, s *Term) []callOut {
	st := c.st
	s = unwrap(s)
	if !isSliceT(s) || !isFreshOp(e.owner(s)) {
		return nil
	}
	if e.keysOf(st, s) != nil { // the order is not known anyway
		return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
	}
	cur := e.viewOf(st, s)
	if cur.op == "perm" {
		cur = cur.args[0]
	}
	if cur.op != "append" || !emptyColl(cur.args[0]) || cur.args[1].op == "slicelit" {
		return nil
	}
	st.cells[mk("view", "", nil, s)] = mk("perm", c.stamp, s.typ, cur.args[1])
	return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
}

// elemAddr is the address of an element of a list.
func (e *Eng) elemAddr(st *State, b, i *Term, typ types.Type) *Term {
	if v := e.viewOf(st, b); v.op == "perm" {
		j := mk("permidx", "", types.Typ[types.Int], v, i)
		st.assume(not(ltT(j, mkInt(0))), true)
		st.assume(ltT(j, mkLen(v.args[0])), true)
		return mkIaddr(v.args[0], j, typ)
	}
	b = e.keysOr(st, b)
	if b.op == "mapkeys" {
		if ok := mk("nextok", "", types.Typ[types.Bool], b.args[0], i); st.holds(ok) {
			st.bools[ok] = true
		}
	}
	return mkIaddr(b, i, typ)
}

func (e *Eng) builtin(c *Call, cc *ssa.CallCommon, name string) []callOut {
	st, a := c.st, c.args
	switch name {
	case "len":
		return c.one(e.lenOf(st, a[0]))
	case "cap":
		return c.one(mk("cap", "", types.Typ[types.Int], a[0]))
	case "append":
		rt := cc.Args[0].Type()
		base := a[0]
		if isString(a[1].typ) && a[1].op != "nil" {
			a[1] = mkConvert(a[1], types.NewSlice(types.Typ[types.Uint8]))
		}
		if o := e.cutOpen(base); o != nil && !isFreshOp(e.owner(o)) {
			// the elements behind the cut are overwritten
			st.event("overwrite", "append", c.instr.Pos(), []*Term{o}, nil)
		}
		return c.one(e.appendTerm(st, base, a[1], rt))
	case "copy":
		st.event("call", "builtin.copy", c.instr.Pos(), a, nil)
		if isFreshOp(a[0].root()) {
			st.havocObject(a[0].root(), c.stamp)
		} else {
			st.havocClass("elem:"+typStr(elemType(a[0].typ)), c.stamp)
		}
		return c.one(mk("res", "copy@"+c.stamp, types.Typ[types.Int]))
	case "delete":
		m, k := a[0], a[1]
		mv := st.mapVal(m)
		if !st.private(m) {
			st.event("mapdel", "", c.instr.Pos(), []*Term{m, k}, nil)
		}
		st.setMap(m, mk("mdel", "", m.typ, mv, k), c.stamp)
		return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
	case "clear":
		m := a[0]
		if _, ok := under(m.typ).(*types.Map); ok {
			if !st.private(m) {
				st.event("mapdel", "", c.instr.Pos(), []*Term{m, mk("all", "", nil)}, nil)
			}
			st.setMap(m, mk("mempty", "", m.typ, m), c.stamp)
		} else {
			st.havocObject(m, c.stamp)
		}
		return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
	case "min", "max":
		if len(a) == 2 && isInt(cc.Signature().Results().At(0).Type()) {
			cond := mkLt(a[1], a[0])
			if name == "max" {
				cond = mkLt(a[0], a[1])
			}
			return e.forkCond(st, cond, func(s *State, p bool) []*Term {
				if p {
					return []*Term{a[1]}
				}
				return []*Term{a[0]}
			})
		}
		return c.one(mk("app", name, cc.Signature().Results().At(0).Type(), a...))
	case "print", "println":
		return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
	case "recover":
		return c.one(mk("res", "recover@"+c.stamp, types.NewInterfaceType(nil, nil)))
	case "panic":
		e.check(st, c.fr, c.instr, "explicit panic", mkBool(false))
		return []callOut{{st: st, kind: "panic"}}
	case "ssa:wrapnilchk":
		return c.one(a[0])
	}
	fail("engine", "%s: unsupported builtin %s", e.P.pos(c.instr.Pos()), name)
	return nil
}

func (e *Eng) appendTerm(st *State, base, more *Term, rt types.Type) *Term {
	more = e.viewOf(st, more)
	base = e.viewOf(st, base)
	if n, ok := mkLen(more).intVal(); ok && n == 0 {
		return base
	}
	if base.op != "acc" && base.op != "slicelit" && base.op != "append" && !base.isNil() && st.holds(mkEq(mkLen(base), mkInt(0))) {
		base = mk("slicelit", "", rt)
	}
	if base.isNil() || (base.op == "slicelit" && len(base.args) == 0) {
		if more.op == "slicelit" {
			return mk("append", "", rt, mk("slicelit", "", rt), more)
		}
		return mk("append", "", rt, mk("slicelit", "", rt), more)
	}
	if base.op == "append" && base.args[1].op == "slicelit" && more.op == "slicelit" {
		return mk("append", "", rt, base.args[0], mk("slicelit", base.args[1].name+"+"+more.name, rt, append(append([]*Term{}, base.args[1].args...), more.args...)...))
	}
	return mk("append", "", rt, base, more)
}

// viewOf is the slice as its elements stand now: reversed in place or not.
func (e *Eng) viewOf(st *State, t *Term) *Term {
	if v, ok := st.cells[mk("view", "", nil, t)]; ok {
		return v
	}
	return t
}

// forkCond splits on a condition.
func (e *Eng) forkCond(st *State, cond *Term, f func(s *State, pol bool) []*Term) []callOut {
	switch st.decide(cond) {
	case 1:
		return []callOut{{st: st, res: f(st, true)}}
	case -1:
		return []callOut{{st: st, res: f(st, false)}}
	}
	var outs []callOut
	s2 := st.clone()
	if s2.assume(cond, true) {
		outs = append(outs, callOut{st: s2, res: f(s2, true)})
	}
	if st.assume(cond, false) {
		outs = append(outs, callOut{st: st, res: f(st, false)})
	}
	return outs
}

// pure functions: packages whose functions read their arguments and nothing else
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "math": true, "math/bits": true,
	"encoding/hex": true, "encoding/base64": true, "crypto/sha256": true, "crypto/sha512": true, "crypto/hmac": true,
	"bytes": true, "errors": true, "net/url": true, "crypto/x509": true, "crypto/subtle": true,
	"github.com/secure-systems-lab/go-securesystemslib/cjson": true,
	"github.com/sigstore/sigstore/pkg/cryptoutils":            true,
	"github.com/sigstore/sigstore/pkg/signature":              true,
	"golang.org/x/exp/slices":                                 true, "slices": true, "golang.org/x/exp/maps": true, "maps": true,
	"encoding/json": true, "fmt": true, "path/filepath": true, "time": true, "encoding/binary": true, "reflect": true, "sort": true,
	"github.com/go-logr/stdr": true, "log": true, "unicode/utf16": true, "cmp": true,
}

var impure = map[string]bool{
	"time.Now": true, "time.Since": true, "time.Sleep": true, "path/filepath.Glob": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true,
	"path/filepath.Abs": true, "path/filepath.EvalSymlinks": true,
	"fmt.Scanln": true, "fmt.Scan": true, "fmt.Scanf": true, "fmt.Fscanln": true, "fmt.Fscan": true,
}

// modelCall gives the meaning of calls that leave the module.
func (e *Eng) modelCall(c *Call) []callOut {
	st, a := c.st, c.args
	if m, ok := e.contract[c.key]; ok {
		return m(c)
	}
	if c.fn != nil && c.fn.Name() == "init" && strings.HasSuffix(c.key, ".init") {
		return []callOut{{st: st}}
	}
	switch c.key {
	case "iface:error.Error":
		return c.one(mk("app", "Error", types.Typ[types.String], a[0]))
	case "errors.New":
		return c.one(mk("errnew", c.stamp, errType, a...))
	case "fmt.Errorf":
		return c.one(e.errorf(c))
	case "fmt.Sprintf":
		return c.one(e.sprintf(st, a[0], a[1]))
	case "fmt.Sprint":
		if n, ok := mkLen(a[0]).intVal(); ok && n > 0 {
			var parts []*Term
			for i := int64(0); i < n; i++ {
				x := e.elem(st, a[0], i)
				if x.op != "iface" || !types.Identical(x.typ, types.Typ[types.String]) {
					break
				}
				parts = append(parts, x.args[0])
			}
			if int64(len(parts)) == n { // operands that are strings are not spaced
				return c.one(mkCat(parts...))
			}
			x := e.elem(st, a[0], 0)
			if n == 1 && x.op == "iface" && isString(x.typ) {
				return c.one(x.args[0])
			}
			if x.op == "iface" && isInt(x.typ) {
				return c.one(itoa(x.args[0]))
			}
		}
	case "strconv.Itoa":
		return c.one(itoa(a[0]))
	case "strconv.FormatInt":
		if b, ok := a[1].intVal(); ok && b == 10 {
			return c.one(itoa(a[0]))
		}
		if b, ok := a[1].intVal(); ok && b == 16 {
			return c.one(mk("fmt", "%x", types.Typ[types.String], a[0]))
		}
	case "strings.Join":
		if a[0].op == "slicelit" || a[0].op == "append" {
			if n, ok := mkLen(a[0]).intVal(); ok && n <= 8 {
				var ps []*Term
				for i := int64(0); i < n; i++ {
					if i > 0 {
						ps = append(ps, a[1])
					}
					ps = append(ps, e.elem(st, a[0], i))
				}
				return c.one(mkCat(ps...))
			}
		}
	case "net/url.QueryEscape", "net/url.PathEscape":
		if x, ok := a[0].strVal(); ok {
			if c.key == "net/url.QueryEscape" {
				return c.one(mkStr(url.QueryEscape(x)))
			}
			return c.one(mkStr(url.PathEscape(x)))
		}
	case "os.File.Name":
		return c.one(mk("app", "os.File.Name", types.Typ[types.String], a[0]))
	case "strings.TrimSuffix":
		// s is TrimSuffix(s, t) + t if it ends in t
		return e.forkCond(st, mk("app", "strings.HasSuffix", types.Typ[types.Bool], a[0], a[1]), func(s *State, p bool) []*Term {
			if !p {
				return []*Term{a[0]}
			}
			return []*Term{mk("app", "strings.TrimSuffix", types.Typ[types.String], a[0], a[1])}
		})
	case "strings.CutPrefix", "strings.TrimPrefix":
		// what follows the prefix, if there is one
		return e.forkCond(st, mk("app", "strings.HasPrefix", types.Typ[types.Bool], a[0], a[1]), func(s *State, p bool) []*Term {
			r := a[0]
			if p {
				r = mkSubstr(a[0], mkLen(a[1]), mk("none", "", nil))
			}
			if c.key == "strings.TrimPrefix" {
				return []*Term{r}
			}
			return []*Term{r, mkBool(p)}
		})
	case "strings.Count":
		if sep, ok := a[1].strVal(); ok && sep != "" {
			return c.one(mkAdd(mkLen(mk("app", "strings.Split", types.NewSlice(types.Typ[types.String]), a...)), mkInt(1), -1))
		}
	case "strings.SplitN":
		if n, ok := a[2].intVal(); ok && n < 0 {
			return c.one(mk("app", "strings.Split", types.NewSlice(types.Typ[types.String]), a[:2]...))
		}
	case "strings.EqualFold", "strings.ToLower", "strings.ToUpper":
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		s, ok1 := a[0].strVal()
		t, ok2 := a[1].strVal()
		if ok1 && ok2 {
			switch c.key {
			case "strings.HasPrefix":
				return c.one(mkBool(strings.HasPrefix(s, t)))
			case "strings.HasSuffix":
				return c.one(mkBool(strings.HasSuffix(s, t)))
			default:
				return c.one(mkBool(strings.Contains(s, t)))
			}
		}
		if ok2 && a[0].op == "cat" {
			if c.key == "strings.HasSuffix" {
				if l, ok := a[0].args[len(a[0].args)-1].strVal(); ok && len(l) >= len(t) {
					return c.one(mkBool(strings.HasSuffix(l, t)))
				}
			}
		}
	case "path/filepath.Join", "path.Join":
		if n, ok := mkLen(a[0]).intVal(); ok && n <= 16 {
			var ps []*Term
			for i := int64(0); i < n; i++ {
				p := e.elem(st, a[0], i)
				if p.op == "app" && p.name == "join" { // Join is associative on clean non-empty paths
					ps = append(ps, p.args...)
					continue
				}
				ps = append(ps, p)
			}
			return c.one(mk("app", "join", types.Typ[types.String], ps...))
		}
	case "net/url.JoinPath":
		if n, ok := mkLen(a[1]).intVal(); ok && n <= 8 {
			ps := []*Term{a[0]}
			for i := int64(0); i < n; i++ {
				ps = append(ps, e.elem(st, a[1], i))
			}
			return c.one(c.pureResults("url.JoinPath", ps...)...)
		}
	case "crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/sha512.Sum384":
		alg := map[string]string{"crypto/sha256.Sum256": "sha256", "crypto/sha512.Sum512": "sha512", "crypto/sha512.Sum384": "sha384"}[c.key]
		return c.one(mk("app", "digest:"+alg, c.sig.Results().At(0).Type(), a[0]))
	case "crypto/sha256.New", "crypto/sha512.New", "crypto/sha512.New384", "crypto/sha1.New", "crypto/md5.New":
		alg := strings.ToLower(strings.TrimSuffix(c.key[strings.Index(c.key, "/")+1:], ".New"))
		if strings.HasSuffix(alg, "384") {
			alg = "sha384"
		}
		h := mk("hasher", c.stamp, c.sig.Results().At(0).Type(), mkStr(alg))
		st.cells[mk("faddr", "hash.state", nil, h)] = mk("bytes", "", nil)
		return c.one(h)
	case "encoding/hex.EncodeToString":
		return c.one(mk("app", "hex.EncodeToString", types.Typ[types.String], a[0]))
	case "crypto/hmac.Equal", "bytes.Equal":
		return c.one(e.bytesEq(a[0], a[1]))
	case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader":
		x := a[0]
		if c.key == "strings.NewReader" {
			x = mkConvert(x, types.NewSlice(types.Typ[types.Uint8]))
		}
		return c.one(mk("reader", c.stamp, c.sig.Results().At(0).Type(), x))
	case "io.LimitReader":
		return c.one(mk("limited", "", c.sig.Results().At(0).Type(), unwrap(a[0]), a[1]))
	case "bytes.Buffer.Bytes", "bytes.Buffer.String", "bytes.Buffer.Len", "strings.Builder.String", "strings.Builder.Len":
		if b := bufferCell(st, a[0]); b != nil {
			v := st.load(b, byteSlice)
			switch {
			case v.op == "load":
			case strings.HasSuffix(c.key, ".Len"):
				return c.one(mkLen(v))
			case strings.HasSuffix(c.key, ".String"):
				return c.one(mkConvert(v, types.Typ[types.String]))
			default:
				return c.one(v)
			}
		}
	case "bytes.Buffer.Write", "bytes.Buffer.WriteString", "strings.Builder.Write", "strings.Builder.WriteString":
		if b := bufferCell(st, a[0]); b != nil && appendBuffer(st, b, a[1]) {
			return c.one(mkLen(a[1]), mkNil(errType))
		}
	case "bytes.Buffer.WriteByte", "strings.Builder.WriteByte", "bytes.Buffer.WriteRune", "strings.Builder.WriteRune":
		if x, ok := a[1].intVal(); ok && x > 0 && x < 128 {
			if b := bufferCell(st, a[0]); b != nil && appendBuffer(st, b, mkStr(string(rune(x)))) {
				if strings.HasSuffix(c.key, "Rune") {
					return c.one(mkInt(1), mkNil(errType))
				}
				return c.one(mkNil(errType))
			}
		}
	case "strings.Builder.Grow", "bytes.Buffer.Grow":
		if b := bufferCell(st, a[0]); b != nil {
			return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
		}
	case "io.Copy", "bytes.Buffer.ReadFrom":
		src := unwrap(a[1])
		if b := bufferCell(st, unwrap(a[0])); b != nil && isEmptyBuffer(st, b) {
			if src.op == "reader" {
				st.cells[b] = src.args[0]
				return c.one(mkLen(src.args[0]), mkNil(errType))
			}
			// reads everything there is, or fails
			r := *c
			r.key, r.args = "io.ReadAll", []*Term{a[1]}
			r.sig = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", byteSlice), types.NewVar(0, nil, "", errType)), false)
			outs := e.opaqueCall(&r)
			for i := range outs {
				outs[i].st.cells[b] = outs[i].res[0]
				outs[i].res = []*Term{mkLen(outs[i].res[0]), outs[i].res[1]}
			}
			return outs
		}
		dst := a[0]
		if src.op == "reader" {
			if unwrap(dst).op == "hasher" {
				e.hashWrite(st, unwrap(dst), src.args[0])
				return c.one(mkLen(src.args[0]), mkNil(errType))
			}
			if dst.op == "load" && strings.Contains(dst.args[0].name, "Discard") || dst.op == "iface" && strings.Contains(dst.name, "discard") {
				return c.one(mkLen(src.args[0]), mkNil(errType))
			}
		}
	case "iface:hash.Hash.Write", "iface:io.Writer.Write":
		if unwrap(a[0]).op == "hasher" {
			e.hashWrite(st, unwrap(a[0]), a[1])
			return c.one(mkLen(a[1]), mkNil(errType))
		}
	case "iface:hash.Hash.Reset":
		if unwrap(a[0]).op == "hasher" {
			st.cells[mk("faddr", "hash.state", nil, unwrap(a[0]))] = mk("bytes", "", nil)
			return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
		}
	case "iface:hash.Hash.Sum":
		if h := unwrap(a[0]); h.op == "hasher" {
			content := st.cells[mk("faddr", "hash.state", nil, h)]
			if content == nil {
				content = mk("unknown", c.stamp, nil)
			}
			alg, _ := h.args[0].strVal()
			arg := content
			if content.op == "bytes" && len(content.args) == 1 {
				arg = content.args[0]
			}
			d := mk("app", "digest:"+alg, c.sig.Results().At(0).Type(), arg)
			if n, ok := mkLen(a[1]).intVal(); !ok || n != 0 {
				return c.one(e.appendTerm(st, a[1], d, d.typ))
			}
			return c.one(d)
		}
	case "encoding/json.Unmarshal":
		return e.jsonUnmarshal(c)
	case "errors.Is":
		return c.one(e.errorsIs(st, a[0], a[1]))
	case "errors.As":
		return e.errorsAs(c)
	case "golang.org/x/exp/slices.Contains", "slices.Contains":
		return e.sliceContains(c, a[0], a[1])
	case "golang.org/x/exp/slices.Index", "slices.Index":
		v := e.viewOf(st, a[0])
		if v.op == "perm" {
			break
		}
		i := mk("app", "slices.Index", types.Typ[types.Int], v, a[1])
		st.assume(not(ltT(i, mkInt(-1))), true)
		st.assume(ltT(i, mkLen(v)), true)
		return c.one(i)
	case "golang.org/x/exp/slices.DeleteFunc", "slices.DeleteFunc":
		if t := e.filter(c, e.viewOf(st, a[0]), a[1]); t != nil {
			st.assume(not(ltT(mkLen(a[0]), mkLen(t))), true)
			return c.one(t)
		}
	case "golang.org/x/exp/slices.Equal", "slices.Equal":
		if isBytes(a[0].typ) {
			return c.one(e.bytesEq(a[0], a[1]))
		}
	case "golang.org/x/exp/slices.Clone", "slices.Clone", "bytes.Clone":
		if isBytes(a[0].typ) {
			return c.one(a[0])
		}
		return c.one(e.appendTerm(st, mk("slicelit", "", a[0].typ), a[0], a[0].typ))
	case "golang.org/x/exp/maps.Clone", "maps.Clone":
		m := mk("makemap", c.stamp, a[0].typ)
		if n := st.mapVal(a[0]); n.op == "mempty" || n.isNil() {
			st.setMap(m, mk("mempty", "", a[0].typ, m), c.stamp)
		} else {
			st.setMap(m, mk("mcopy", "", a[0].typ, mk("mempty", "", a[0].typ, m), n), c.stamp)
		}
		return c.one(m)
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "golang.org/x/exp/slices.Sort", "golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc":
		if outs := e.sortInPlace(c, a[0]); outs != nil {
			return outs
		}
	case "golang.org/x/exp/maps.Keys":
		return c.one(mk("mapkeys", "", c.sig.Results().At(0).Type(), st.mapVal(a[0])))
	case "slices.Reverse", "golang.org/x/exp/slices.Reverse":
		e.reverse(st, a[0], c.instr.Pos())
		return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
	case "golang.org/x/exp/maps.Copy", "maps.Copy":
		if n := st.mapVal(a[1]); n.op == "mempty" {
			return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
		}
		st.setMap(a[0], mk("mcopy", "", a[0].typ, st.mapVal(a[0]), st.mapVal(a[1])), c.stamp)
		if !st.private(a[0]) {
			st.event("mapset", "", c.instr.Pos(), []*Term{a[0], mk("all", "", nil), a[1]}, nil)
		}
		return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
	case "os.Exit", "log.Fatal", "log.Fatalf", "runtime.Goexit":
		st.event("call", c.key, c.instr.Pos(), a, nil)
		return []callOut{{st: st, kind: "exit", pos: c.instr.Pos()}}
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		if c.key == "fmt.Fprintf" {
			if b := bufferCell(st, unwrap(a[0])); b != nil {
				if x := e.sprintf(st, a[1], a[2]); appendBuffer(st, b, x) {
					return c.one(mkLen(x), mkNil(errType))
				}
			}
		}
		var flat []*Term
		for _, x := range a {
			if x.op == "slicelit" {
				flat = append(flat, x.args...)
			} else {
				flat = append(flat, x)
			}
		}
		rs := c.results()
		st.event("call", "print:"+c.key, c.instr.Pos(), flat, rs)
		return c.one(rs...)
	case "fmt.Scan", "fmt.Scanln", "fmt.Scanf", "fmt.Fscan", "fmt.Fscanln", "fmt.Fscanf", "fmt.Sscan", "fmt.Sscanf", "fmt.Sscanln":
		// what was read goes where the arguments point
		for _, x := range a {
			if n, ok := mkLen(x).intVal(); ok && elemType(x.typ) != nil {
				for i := int64(0); i < n; i++ {
					if p := unwrap(e.elem(st, x, i)); under(p.typ) != nil {
						if _, ok := under(p.typ).(*types.Pointer); ok {
							st.havocObject(p, c.stamp)
						}
					}
				}
			}
		}
		return e.opaqueCall(c)
	case "time.Time.After":
		return c.one(mk("app", "time.After", types.Typ[types.Bool], a[0], a[1]))
	case "time.Time.Before": // t before u: u after t
		return c.one(mk("app", "time.After", types.Typ[types.Bool], a[1], a[0]))
	case "encoding/json.Marshal":
		return c.one(e.jsonMarshal(c, a[0])...)
	case "encoding/json.MarshalIndent":
		return c.one(e.jsonMarshal(c, a[0])...)
	case "github.com/secure-systems-lab/go-securesystemslib/cjson.EncodeCanonical":
		return c.one(c.pureResults("canonical", a[0])...)
	case "encoding/hex.Decode":
		st.event("call", c.key, c.instr.Pos(), a, nil)
		st.havocObject(a[0].root(), "hexdecoded")
		st.cells[mk("view", "", nil, a[0])] = mk("app", "hex.decoded", a[0].typ, a[1])
		return c.one(mk("app", "hex.Decode:0", types.Typ[types.Int], a[1]), mk("app", "hex.Decode:1", errType, a[1]))
	case "encoding/hex.Encode":
		st.event("call", c.key, c.instr.Pos(), a, nil)
		// what lies before and behind the digits stays
		keep := map[*Term]*Term{}
		base, lo := a[0], mkInt(0)
		if base.op == "slice" {
			base, lo = a[0].args[0], a[0].args[1]
		}
		hi := mkAdd(lo, mkAdd(mkLen(a[1]), mkLen(a[1]), 1), 1)
		for addr, v := range st.cells {
			if addr.op == "iaddr" && addr.args[0] == base && (st.holds(mkLt(addr.args[1], lo)) || st.holds(mkNot(mkLt(addr.args[1], hi)))) {
				keep[addr] = v
			}
		}
		st.havocObject(a[0].root(), "hexencoded")
		for addr, v := range keep {
			st.cells[addr] = v
		}
		return c.one(mkInt(0))
	case "path.Split", "path/filepath.Split":
		i := mk("app", "strings.LastIndex", types.Typ[types.Int], a[0], mkStr("/"))
		st.assume(mkNot(mkLt(i, mkInt(-1))), true)
		st.assume(mkLt(i, mkLen(a[0])), true)
		j := mkAdd(i, mkInt(1), 1)
		return c.one(mkSubstr(a[0], mkInt(0), j), mkSubstr(a[0], j, mk("none", "", nil)))
	case "strings.Cut":
		sep, ok := a[1].strVal()
		if !ok || sep == "" {
			break
		}
		i := mk("app", "strings.Index", types.Typ[types.Int], a[0], a[1])
		st.assume(mkNot(mkLt(i, mkInt(-1))), true)
		st.assume(mkLt(i, mkLen(a[0])), true)
		return e.forkCond(st, mkLt(i, mkInt(0)), func(s *State, p bool) []*Term {
			if p {
				return []*Term{a[0], mkStr(""), mkBool(false)}
			}
			return []*Term{mkSubstr(a[0], mkInt(0), i), mkSubstr(a[0], mkAdd(i, mkInt(int64(len(sep))), 1), mk("none", "", nil)), mkBool(true)}
		})
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "bytes.IndexByte", "bytes.LastIndexByte":
		// -1, or a position in the string
		key := c.key
		if b, ok := a[1].intVal(); ok && b > 0 && b < 128 && (key == "strings.IndexByte" || key == "strings.LastIndexByte") {
			key = strings.TrimSuffix(key, "Byte")
			a = []*Term{a[0], mkStr(string(rune(b)))}
		}
		r := c.pureResults(key, a...)
		st.assume(mkNot(mkLt(r[0], mkInt(-1))), true)
		if sub, ok := a[1].strVal(); ok && sub != "" || strings.HasSuffix(c.key, "Byte") {
			st.assume(mkLt(r[0], mkLen(a[0])), true)
		}
		return c.one(r...)
	case "encoding/hex.DecodedLen":
		return c.one(quotient(st, "/", types.Typ[types.Int], a[0], mkInt(2)))
	case "encoding/hex.EncodedLen":
		return c.one(linCombine(linOf(a[0]), 2, linear{}, 0).term(types.Typ[types.Int]))
	}
	if strings.HasPrefix(c.key, "iface:") && strings.Contains(c.key, "Logger.") {
		return []callOut{{st: st, res: []*Term{mkNil(nil)}}}
	}
	if strings.HasPrefix(c.key, "iface:time.") || c.key == "iface:error.Is" || strings.HasPrefix(c.key, "iface:reflect.") {
		return c.one(c.pureResults(c.key, a...)...)
	}
	if c.fn != nil {
		pkg := ""
		if p := funcPkg(c.fn); p != nil {
			pkg = p.Path()
		}
		if purePkgs[pkg] && !impure[c.key] && !impure[pkg+"."+c.fn.Name()] && c.sig.Results().Len() > 0 {
			// folded arguments: variadic literals by value
			var args []*Term
			for _, x := range a {
				if x.op == "slicelit" {
					x = mk("slicelit", "", x.typ, x.args...)
				}
				args = append(args, x)
			}
			return c.one(c.pureResults(c.key, args...)...)
		}
	}
	// unknown outside code: it may write what its pointer arguments point to
	rs := c.results()
	if c.sig.Results().Len() == 0 {
		rs = []*Term{mkNil(nil)}
	}
	st.event("call", c.key, c.instr.Pos(), a, rs)
	for _, x := range a {
		y := unwrap(x)
		if _, ok := under(y.typ).(*types.Pointer); ok && c.fn != nil && !readOnlyCall(c.key) {
			st.havocObject(y, c.stamp)
		}
		if isSliceT(y) && writesElements(c.key) {
			if isFreshOp(y.root()) {
				st.havocObject(y.root(), c.stamp)
			} else {
				st.havocClass("elem:"+typStr(elemType(y.typ)), c.stamp)
			}
		}
		st.escape(x)
	}
	return []callOut{{st: st, res: rs}}
}

// writesElements lists outside calls that write the elements of a slice they
// are given.
func writesElements(key string) bool {
	for _, p := range []string{"sort.", "math/rand.", "crypto/rand.", "encoding/binary.Read", "encoding/binary.Encode", "slices.Sort", "slices.Delete", "slices.Compact", "slices.Insert", "slices.Replace", "slices.Reverse", "io.ReadFull", "io.ReadAtLeast"} {
		if strings.HasPrefix(key, p) || strings.HasPrefix(key, "golang.org/x/exp/"+p) {
			return true
		}
	}
	return strings.HasPrefix(key, "encoding/binary.") && strings.Contains(key, ".Put") || strings.HasSuffix(key, ".Read") || strings.HasSuffix(key, ".Decode") || strings.HasSuffix(key, ".Encode")
}

// owner is the object the memory that t is, or lies in, was reached from.
func (e *Eng) owner(t *Term) *Term {
	for i := 0; i < 100; i++ {
		switch t.op {
		case "faddr", "iaddr", "slice", "mcell", "load", "lookup", "field", "iface", "append", "view", "reversed", "mupd", "mdel", "mopq", "mcopy", "mempty", "commaok", "trimmed":
			if len(t.args) == 0 {
				return t
			}
			t = t.args[0]
			continue
		}
		if a := e.accs[t]; a != nil && a.v.init != nil {
			t = a.v.init
			continue
		}
		return t
	}
	return t
}

// cutOpen is the slice expression that leaves room behind its end, if an
// append to t may write there.
func (e *Eng) cutOpen(t *Term) *Term {
	for i := 0; i < 20; i++ {
		if t.op == "slice" {
			return t
		}
		if t.op == "append" {
			t = t.args[0]
		} else if a := e.accs[t]; a != nil && a.v.init != nil {
			t = a.v.init
		} else {
			return nil
		}
	}
	return nil
}

// readOnlyCall lists outside calls that do not change what the module can
// observe in the fields of their pointer arguments.
func readOnlyCall(key string) bool {
	for _, p := range []string{"os.", "net/http.", "io.", "github.com/spf13/"} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

var errType = types.Universe.Lookup("error").Type()

func unwrap(t *Term) *Term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

func itoa(t *Term) *Term {
	if i, ok := t.intVal(); ok {
		return mkStr(fmt.Sprint(i))
	}
	return mk("itoa", "", types.Typ[types.String], t)
}

// elem is element i of a slice value.
func (e *Eng) elem(st *State, s *Term, i int64) *Term {
	et := elemType(s.typ)
	return st.load(mkIaddr(s, mkInt(i), et), et)
}

func (e *Eng) errorf(c *Call) *Term {
	var wraps []*Term
	if n, ok := mkLen(c.args[1]).intVal(); ok {
		for i := int64(0); i < n; i++ {
			wraps = append(wraps, e.elem(c.st, c.args[1], i))
		}
	}
	args := append([]*Term{c.args[0]}, wraps...)
	name := c.stamp
	return mk("errnew", name, errType, args...)
}

// sprintf builds the concatenation a constant format describes.
func (e *Eng) sprintf(st *State, f, rest *Term) *Term {
	format, ok := f.strVal()
	n, ok2 := mkLen(rest).intVal()
	if !ok || !ok2 {
		return mk("app", "fmt.Sprintf", types.Typ[types.String], f, rest)
	}
	var args []*Term
	for i := int64(0); i < n; i++ {
		args = append(args, e.elem(st, rest, i))
	}
	var parts []*Term
	k := 0
	i := 0
	for i < len(format) {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			parts = append(parts, mkStr(format[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		stars := 0
		for j < len(format) && strings.IndexByte("+-# 0123456789.*", format[j]) >= 0 {
			if format[j] == '*' {
				stars++
			}
			j++
		}
		if j >= len(format) {
			return mk("app", "fmt.Sprintf", types.Typ[types.String], append([]*Term{f}, args...)...)
		}
		verb := format[i : j+1]
		i = j + 1
		if verb == "%%" {
			parts = append(parts, mkStr("%"))
			continue
		}
		if k+stars >= len(args) {
			return mk("app", "fmt.Sprintf", types.Typ[types.String], append([]*Term{f}, args...)...)
		}
		var star []*Term
		for s := 0; s < stars; s++ {
			star = append(star, unwrap(args[k]))
			k++
		}
		x := args[k]
		k++
		y := unwrap(x)
		switch {
		case (verb == "%s" || verb == "%v") && x.op == "iface" && types.Identical(x.typ, types.Typ[types.String]):
			parts = append(parts, y)
		case (verb == "%d" || verb == "%v") && x.op == "iface" && isInt(x.typ):
			parts = append(parts, itoa(y))
		case verb == "%x" && x.op == "iface" && (isBytes(x.typ) || y.op == "app" && strings.HasPrefix(y.name, "digest:")):
			parts = append(parts, mk("app", "hex.EncodeToString", types.Typ[types.String], y))
		default:
			parts = append(parts, mk("fmt", verb, types.Typ[types.String], append(star, y)...))
		}
	}
	return mkCat(parts...)
}

func (e *Eng) hashWrite(st *State, h, data *Term) {
	c := mk("faddr", "hash.state", nil, h)
	old := st.cells[c]
	if data.op == "conv" && data.name == "bytes" {
		// keep
	}
	if old == nil || old.op != "bytes" {
		st.cells[c] = mk("bytescat", "", nil, orUnknown(old), data)
		return
	}
	st.cells[c] = mk("bytes", "", nil, append(append([]*Term{}, old.args...), data)...)
}

func orUnknown(t *Term) *Term {
	if t == nil {
		return mk("unknown", "", nil)
	}
	return t
}

func (e *Eng) jsonMarshal(c *Call, v *Term) []*Term {
	// the current contents of a map are part of what is encoded
	x := unwrap(v)
	if _, ok := under(x.typ).(*types.Map); ok {
		return c.pureResults("json.Marshal", v, c.st.mapVal(x))
	}
	return c.pureResults("json.Marshal", v)
}

func (e *Eng) jsonUnmarshal(c *Call) []callOut {
	st := c.st
	target := unwrap(c.args[1])
	stamp := "json" + c.stamp
	err := mk("res", "encoding/json.Unmarshal@"+c.stamp+":0", errType, c.args[0])
	ev := st.event("call", "encoding/json.Unmarshal", c.instr.Pos(), []*Term{c.args[0], target}, []*Term{err})
	_ = ev
	e.noteClass(target)
	// what the target holds afterwards came from the document
	pt, _ := under(target.typ).(*types.Pointer)
	if target.op == "makemap" {
		st.setMap(target, mk("mopq", stamp, target.typ, target), stamp)
	} else if pt != nil {
		if _, isMap := pt.Elem().Underlying().(*types.Map); isMap {
			st.cells[target] = mk("docmap", stamp, pt.Elem(), c.args[0])
		} else {
			keep := map[*Term]*Term{}
			if target.op != "sym" {
				notDecoded(st, target, pt.Elem(), keep)
			}
			st.havocObject(target, stamp)
			for a, v := range keep {
				st.cells[a] = v
			}
		}
	}
	return c.one(err)
}

// notDecoded collects what a struct holds in the fields that encoding/json
// does not touch.
func notDecoded(st *State, a *Term, t types.Type, keep map[*Term]*Term) {
	s, ok := explodes(t)
	if !ok || !isFreshOp(a.root()) {
		return
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if m, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, nil, "UnmarshalJSON"); m != nil {
			return
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := mkFaddr(a, t, i)
		ft := s.Field(i).Type()
		if _, nested := explodes(ft); nested {
			if s.Field(i).Exported() {
				notDecoded(st, f, ft, keep)
			}
		} else if jsonName(s, i) == "-" {
			keep[f] = st.load(f, ft)
		}
	}
}

func (e *Eng) errorsIs(st *State, err, target *Term) *Term {
	if err.isNil() {
		return mkEq(target, mkNil(nil))
	}
	if err.op == "iface" && target.op == "iface" && err.name == target.name {
		if st.holds(mkEq(err, target)) {
			return mkBool(true)
		}
	}
	return mk("app", "errors.Is", types.Typ[types.Bool], err, target)
}

func (e *Eng) errorsAs(c *Call) []callOut {
	st := c.st
	target := unwrap(c.args[1])
	pt, ok := under(target.typ).(*types.Pointer)
	if !ok {
		return e.opaqueCall(c)
	}
	is := mk("app", "errors.As:"+typStr(pt.Elem()), types.Typ[types.Bool], c.args[0])
	err := c.args[0]
	if err.isNil() {
		return c.one(mkBool(false))
	}
	if err.op == "iface" {
		if types.Identical(err.typ, pt.Elem()) {
			st.store(target, err.args[0], pt.Elem(), c.stamp)
			return c.one(mkBool(true))
		}
	}
	return e.forkCond(st, is, func(s *State, p bool) []*Term {
		if p {
			v := e.explodeOpaque(mk("aserr", typStr(pt.Elem()), pt.Elem(), err), pt.Elem())
			s.store(target, v, pt.Elem(), c.stamp)
			s.assume(mkEq(err, mkNil(nil)), false)
		}
		return []*Term{mkBool(p)}
	})
}

// filter is the list s without the elements for which a function returns true;
// nil if that is not a simple condition.
func (e *Eng) filter(c *Call, s, f *Term) *Term {
	if f.op != "closure" && f.op != "func" || isFreshOp(s.root()) {
		return nil
	}
	el := e.explodeOpaque(mk("param", "elem@"+c.stamp, elemType(s.typ)), elemType(s.typ))
	st := c.st.clone()
	pc := &Call{e: e, st: st, fr: c.fr, instr: c.instr, fn: f.fn, args: []*Term{el}, sig: f.fn.Signature, stamp: c.stamp + "f"}
	var outs []callOut
	if f.op == "closure" {
		outs = e.inline(pc, f.args)
	} else {
		outs = e.callFn(pc)
	}
	var res *Term
	for _, o := range outs {
		if o.kind != "" || len(o.res) != 1 || o.st.ev != c.st.ev || res != nil {
			return nil
		}
		res = o.res[0]
	}
	if res == nil {
		return nil
	}
	return mk("filter", "", s.typ, s, el, res)
}

func (e *Eng) sliceContains(c *Call, s, x *Term) []callOut {
	st := c.st
	if s = e.viewOf(st, s); s.op == "perm" {
		s = s.args[0]
	}
	if n, ok := mkLen(s).intVal(); ok && n <= 8 {
		// a literal: compare with each element
		var outs []callOut
		cur := st
		for i := int64(0); i < n; i++ {
			eq := e.eq(cur, x, e.elem(cur, s, i))
			switch cur.decide(eq) {
			case 1:
				return append(outs, callOut{st: cur, res: []*Term{mkBool(true)}})
			case -1:
				continue
			}
			t := cur.clone()
			if t.assume(eq, true) {
				outs = append(outs, callOut{st: t, res: []*Term{mkBool(true)}})
			}
			if !cur.assume(eq, false) {
				return outs
			}
		}
		return append(outs, callOut{st: cur, res: []*Term{mkBool(false)}})
	}
	return c.one(mk("contains", "", types.Typ[types.Bool], s, x))
}

// reverse records that a slice was reversed in place.
func (e *Eng) reverse(st *State, s *Term, pos token.Pos) {
	v := mk("view", "", nil, s)
	cur := e.viewOf(st, s)
	if !isFreshOp(e.owner(s)) {
		st.event("overwrite", "reverse", pos, []*Term{s}, nil)
	}
	if cur.op == "reversed" {
		st.cells[v] = cur.args[0]
	} else {
		st.cells[v] = mk("reversed", "", s.typ, cur)
	}
	if isFreshOp(s.root()) {
		st.allocEp[s.root()] = "reversed"
	}
}

var _ = constant.MakeInt64

func queryEscape(s string) string { return url.QueryEscape(s) }

var byteSlice = types.NewSlice(types.Typ[types.Uint8])

// bufferCell is where the content of a bytes.Buffer of the function under
// analysis is kept.
func bufferCell(st *State, p *Term) *Term {
	pt, ok := under(p.typ).(*types.Pointer)
	if !ok || typStr(pt.Elem()) != "bytes.Buffer" && typStr(pt.Elem()) != "strings.Builder" || !isFreshOp(p.root()) || !st.private(p.root()) {
		return nil
	}
	s, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), byteSlice) {
			return mkFaddr(p, pt.Elem(), i)
		}
	}
	return nil
}

// appendBuffer adds to a buffer; false if it is not known what it holds.
func appendBuffer(st *State, b, more *Term) bool {
	if isEmptyBuffer(st, b) {
		st.cells[b] = mkConvert(more, byteSlice)
		return true
	}
	v := st.load(b, byteSlice)
	if v.op == "load" {
		return false
	}
	str := types.Typ[types.String]
	st.cells[b] = mkConvert(mkCat(mkConvert(v, str), mkConvert(more, str)), byteSlice)
	return true
}

func isEmptyBuffer(st *State, b *Term) bool {
	v := st.load(b, byteSlice)
	return v.isNil() || v.op == "mempty" || mkLen(v) == mkInt(0)
}
