package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgMulti   = "metadata/multirepo"
	kUpNew     = "metadata/updater.New"
	kUpGTI     = "metadata/updater.Updater.GetTargetInfo"
	kUpDT      = "metadata/updater.Updater.DownloadTarget"
	kUpFCT     = "metadata/updater.Updater.FindCachedTarget"
	kUpTop     = "metadata/updater.Updater.GetTopLevelTargets"
	kMultiGTI  = "metadata/multirepo.MultiRepoClient.GetTargetInfo"
	kTFEqual   = "metadata.TargetFiles.Equal"
	kConfigNew = "metadata/config.New"
)

// Multi is an analysed entry point of the multi-repository client.
type Multi struct {
	*An
	client, cfg *Term
}

func (m *Multi) conf(st *State, name string) *Term { return get(st, m.cfg, name) }

// clientContracts models the methods of a repository client for code that
// uses it, as C37, C38, C43 and C44 establish them: a value together with
// success, none together with an error, and no other effect on the caller.
func (c *Ctx) clientContracts(e *Eng, more ...string) {
	for _, k := range append([]string{kUpNew, kUpGTI, kRefresh, kUpDT, kUpFCT}, more...) {
		k := k
		e.contract[k] = func(cl *Call) []callOut {
			rs := cl.sig.Results()
			n := rs.Len()
			mkOut := func(st *State, ok bool) callOut {
				res := make([]*Term, n)
				for i := 0; i < n-1; i++ {
					t := rs.At(i).Type()
					if ok {
						res[i] = mk("res", cl.key+"@"+cl.stamp+":"+string(rune('0'+i)), t)
						if _, ptr := under(t).(*types.Pointer); ptr {
							st.assume(nonNil(res[i]), true)
						}
					} else {
						res[i] = mkZero(t)
					}
				}
				et := rs.At(n - 1).Type()
				if ok {
					res[n-1] = mkNil(et)
				} else {
					res[n-1] = mk("res", cl.key+"@"+cl.stamp+":err", et)
					st.assume(isNilT(res[n-1]), false)
				}
				st.event("call", cl.key, cl.instr.Pos(), cl.args, res)
				return callOut{st: st, res: res}
			}
			ok := cl.st.clone()
			return []callOut{mkOut(ok, true), mkOut(cl.st, false)}
		}
	}
}

// multi analyses an entry point of the multi-repository client.
func (c *Ctx) multi(name string, hook func(m *Multi, st *State, ev *Event)) *Multi {
	m := &Multi{}
	var fn *ssa.Function
	switch name {
	case "New", "NewConfig":
		fn = c.P.fn(pkgMulti, name)
	case "EnsurePathsExist":
		fn = c.P.method(c.P.namedType(pkgMulti, "MultiRepoConfig"), name)
	default:
		fn = c.P.method(c.P.namedType(pkgMulti, "MultiRepoClient"), name)
	}
	e := c.eng(kUpTop, kTFEqual)
	if name != "GetTargetInfo" {
		c.clientContracts(e, kMultiGTI) // C60, C61
	} else {
		c.clientContracts(e)
	}
	m.An = &An{c: c, e: e, fn: fn}
	m.An = c.analyse2(e, fn, func(st *State, args []*Term) {
		if name != "NewConfig" {
			st.assume(nonNil(args[0]), true)
		}
		switch name {
		case "New", "EnsurePathsExist":
			m.cfg = args[0]
		case "NewConfig":
		default:
			m.client = args[0]
			m.cfg = get(st, m.client, "Config")
			st.assume(nonNil(m.cfg), true)
		}
		if m.cfg != nil {
			st.assume(nonNil(get(st, m.cfg, "RepoMap")), true)
		}
		m.An.args = args
		m.An.entry = st.clone()
	}, func(st *State, ev *Event) {
		if hook != nil {
			hook(m, st, ev)
		}
	})
	return m
}

// multirepoDisk checks that the multi-repository client leaves the disk alone
// with caching disabled and hands that choice to its repository clients.
func (c *Ctx) multirepoDisk(visit func(st *State, ev *Event, off *Term, name string)) {
	for _, name := range []string{"New", "EnsurePathsExist", "Refresh", "GetTopLevelTargets", "GetTargetInfo", "DownloadTarget"} {
		name := name
		c.multi(name, func(m *Multi, st *State, ev *Event) {
			off := m.conf(st, "DisableLocalCache")
			visit(st, ev, off, "MultiRepoClient."+name)
			if ev.kind == "call" && ev.name == kUpNew {
				child := get(st, ev.args[0], "DisableLocalCache")
				s := given(st, off)
				c.check("no-disk-child", s == nil || s.holds(child), ev.pos, st, "%s creates a repository client whose cache may be enabled although the caller disabled it", name)
			}
		})
	}
}
