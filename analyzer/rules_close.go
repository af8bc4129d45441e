package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// opens are the calls whose first result is an open file.
var opens = map[string]bool{
	"os.Open": true, "os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "os.NewFile": true,
	"io/ioutil.TempFile": true, "os.OpenInRoot": true,
}

// closing says that an event closes the file.
func closing(ev *Event, file *Term) bool {
	if ev.kind != "call" || len(ev.args) == 0 {
		return false
	}
	switch ev.name {
	case "os.File.Close", "iface:io.Closer.Close", "iface:io.ReadCloser.Close", "iface:io.WriteCloser.Close", "iface:io.ReadWriteCloser.Close":
		return strip(ev.args[0]) == file
	}
	return false
}

// C49: typestate of every file the library opens. Each function that opens one
// is interpreted on its own; where it hands the open file to its caller, its
// callers are, with it inlined.
func ruleC49(c *Ctx) {
	c.rule("closed", "a file that was opened is closed on every way out of the function that opened it, or of the ones it is handed to")
	c.rule("twice", "no file is used after it was closed")
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	queued := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if !queued[f] {
			queued[f] = true
			work = append(work, f)
		}
	}
	c.rule("scanned", "every function of the library was searched for calls that open files")
	for _, fn := range c.P.libraryFuncs() {
		c.check("scanned", true, fn.Pos(), nil, "")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := call.Common().StaticCallee(); g != nil {
					callers[g] = append(callers[g], fn)
					if opens[fnKey(g)] {
						add(fn)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue // its instances are analysed
		}
		e := c.eng(kFromBytes, kVLHMeta, kVLHTarget, kVerify)
		c.clientContracts(e)
		delete(e.contract, fnKey(fn))
		an := c.analyse2(e, fn, func(st *State, args []*Term) {
			if fn.Signature.Recv() != nil {
				st.assume(nonNil(args[0]), true)
			}
		}, nil)
		handed := false
		// each sequence of events: a whole path, or an iteration of a loop on it
		var scan func(st *State, evs []*Event, pos token.Pos, rets []*Term)
		scan = func(st *State, evs []*Event, pos token.Pos, rets []*Term) {
			for i, ev := range evs {
				if ev.kind == "loop" && ev.loop != nil {
					for _, b := range ev.loop.backs {
						scan(b.st, b.evs, pos, nil)
					}
					continue
				}
				if ev.kind != "call" || !opens[ev.name] {
					continue
				}
				file := ev.res[0]
				s := st
				if e := errOf(ev); e != nil {
					s = given(st, isNilT(e))
				}
				if s == nil {
					continue // it failed
				}
				out := false
				for _, r := range rets {
					out = out || mentions(r, file)
				}
				closed := false
				for _, x := range evs[i+1:] {
					if closing(x, file) {
						closed = true
					} else if closed && x.kind == "call" && len(x.args) > 0 && x.name != "os.File.Name" {
						uses := false
						for _, a := range x.args {
							uses = uses || strip(a) == file
						}
						c.check("twice", !uses, x.pos, s, "%s uses a file it has closed", fn)
					}
				}
				if out && !closed {
					handed = true
					continue
				}
				c.check("closed", closed, ev.pos, s, "%s may leave the file it opens with %s open", fn, ev.name)
				c.check("twice", true, ev.pos, s, "")
			}
		}
		for _, o := range an.outs {
			if o.kind == "ret" {
				scan(o.st, o.st.events(), posOf(an, o), o.rets)
			}
		}
		if handed {
			if len(callers[fn]) == 0 && token.IsExported(fn.Name()) {
				c.check("closed", false, fn.Pos(), nil, "%s hands out an open file", fn)
			}
			for _, g := range callers[fn] {
				add(g)
			}
		}
	}
	c.need("scanned", 100)
}

func init() {
	registry["C49"] = rule{ruleC49, "Typestate of open files over every path of every function that opens one, with the callers it hands the file to."}
}
