package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
)

func debugMain() {
	P, err := loadProgram(map[bool]string{true: "/repo", false: os.Getenv("VERIF_REPO")}[os.Getenv("VERIF_REPO") == ""])
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if os.Args[1] == "dump" {
		for _, f := range P.moduleFuncs() {
			if len(os.Args) > 2 {
				if f.String() == os.Args[2] {
					f.WriteTo(os.Stdout)
				}
			} else {
				fmt.Println(f.String(), "|", fnKey(f), "|", f.Synthetic)
			}
		}
		return
	}
	if os.Args[1] == "stress" {
		op := map[string]bool{}
		for _, k := range os.Args[3:] {
			op[k] = true
		}
		stress(P, os.Args[2], op)
		return
	}
	if os.Args[1] == "paths" {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(failure); ok {
					fmt.Println("FAIL", f.rule, f.msg)
					return
				}
				panic(r)
			}
		}()
		for _, f := range P.moduleFuncs() {
			if f.String() == os.Args[2] {
				e := newEng(P)
				op := map[string]bool{}
				for _, k := range os.Args[3:] {
					op[k] = true
				}
				e.opaque = func(key string, _ *ssa.Function) bool { return op[key] }
				outs := e.analyse(f, nil)
				for i, o := range outs {
					fmt.Printf("--- %d %s at %s\n  branches: %s\n  rets: %v\n", i, o.kind, P.pos(o.pos), o.st.trace(P, 60), o.rets)
					printEvents(P, o.st.events(), "  ")
				}
				fmt.Println("steps", e.steps, "outs", len(outs))
			}
		}
	}
}

func printEvents(P *Program, evs []*Event, ind string) {
	for _, ev := range evs {
		fmt.Printf("%s* %s %s %v -> %v @%s\n", ind, ev.kind, ev.name, ev.args, ev.res, P.pos(ev.pos))
		if ev.kind == "loop" {
			for _, b := range ev.loop.backs {
				fmt.Printf("%s  back: facts %v vals %v\n", ind, b.st.factList(), b.vals)
				printEvents(P, b.evs, ind+"    ")
			}
		}
	}
}
