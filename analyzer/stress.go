package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func stress(P *Program, filter string, opq map[string]bool) {
	for _, f := range P.moduleFuncs() {
		k := fnKey(f)
		if strings.HasPrefix(k, "testutils") || strings.HasPrefix(k, "examples") || f.Blocks == nil {
			continue
		}
		if filter != "" && !strings.Contains(k, filter) {
			continue
		}
		if f.TypeParams() != nil && f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		func() {
			t0 := time.Now()
			e := newEng(P)
			e.opaque = func(key string, g *ssa.Function) bool { return opq[key] }
			defer func() {
				if os.Getenv("NOREC") != "" {
					return
				}
				if r := recover(); r != nil {
					if fl, ok := r.(failure); ok {
						fmt.Printf("FAIL %-70s %s: %s (%.1fs, %d steps)\n", k, fl.rule, fl.msg, time.Since(t0).Seconds(), e.steps)
						return
					}
					fmt.Printf("PANIC %-70s %v\n", k, r)
				}
			}()
			outs := e.analyse(f, nil)
			fmt.Printf("ok   %-70s outs %d steps %d %.2fs\n", k, len(outs), e.steps, time.Since(t0).Seconds())
		}()
	}
}
