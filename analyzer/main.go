// Command analyzer decides the properties of /verif/properties.jsonl for the
// source code in /repo, without running it.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"time"
)

type rule struct {
	run func(c *Ctx)
	// explanation of what is decided and how, for the evidence file
	expl string
}

var registry = map[string]rule{}

func main() {
	if len(os.Args) > 1 && (os.Args[1] == "dump" || os.Args[1] == "paths" || os.Args[1] == "stress") {
		debugMain()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		for _, k := range sortedKeys(registry) {
			fmt.Println(k)
		}
		return
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		// each in a process of its own, which gives its memory back
		bad := false
		for _, id := range sortedKeys(registry) {
			cmd := exec.Command(os.Args[0], id)
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			bad = cmd.Run() != nil || bad
		}
		if bad {
			os.Exit(1)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	t0 := time.Now()
	P, perr := loadProgram(repo)
	load := time.Since(t0)
	bad := false
	for _, id := range ids {
		r, ok := registry[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "no rules for property %s\n", id)
			os.Exit(2)
		}
		if !runRule(P, perr, id, tier, r, verif, load) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

// exactOnly turns merging off, exactUntil limits the time of the analysis then.
var (
	exactOnly  bool
	exactUntil time.Time
)

func decideRule(P *Program, perr error, id, tier string, r rule, verif string) *Ctx {
	c := newCtx(P, id, tier)
	c.findings = loadFindings(filepath.Join(verif, "known_findings.txt"))
	func() {
		defer func() {
			if x := recover(); x != nil {
				if f, ok := x.(failure); ok {
					c.viols = append(c.viols, violation{"undecided:" + f.rule, "-", f.msg, ""})
					return
				}
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(x)
				}
				c.viols = append(c.viols, violation{"undecided:internal", "-", fmt.Sprintf("%v", x), ""})
			}
		}()
		if perr != nil {
			fail("load", "%v", perr)
		}
		r.run(c)
	}()
	for _, e := range c.engines {
		c.merged = c.merged || e.merge != nil
	}
	c.finish()
	return c
}

// unlisted tells whether there is a violation that is not a known finding.
func (c *Ctx) unlisted() bool {
	for _, v := range c.viols {
		if c.listed(v) == nil {
			return true
		}
	}
	return false
}

func (c *Ctx) undecided() bool {
	for _, v := range c.viols {
		if strings.HasPrefix(v.rule, "undecided:") {
			return true
		}
	}
	return false
}

func (c *Ctx) listed(v violation) *knownFinding {
	for i, k := range c.findings {
		if k.prop == c.id && (k.key == v.rule+"@"+v.pos[:max(0, strings.LastIndexByte(v.pos, ':'))] || k.key == v.rule) {
			return &c.findings[i]
		}
	}
	return nil
}

func runRule(P *Program, perr error, id, tier string, r rule, verif string, load time.Duration) bool {
	t0 := time.Now()
	c := decideRule(P, perr, id, tier, r, verif)
	if c.merged && c.unlisted() {
		// merging forgets how a helper reached its result: only what the exact
		// analysis confirms, or is too expensive to decide, is reported
		exactOnly, exactUntil = true, time.Now().Add(4*time.Minute)
		d := decideRule(P, perr, id, tier, r, verif)
		exactOnly, exactUntil = false, time.Time{}
		if !d.undecided() {
			c = d
		}
	}
	wall := load + time.Since(t0)

	// known findings
	var viols []violation
	seen := map[string]bool{}
	for _, v := range c.viols {
		k := c.listed(v)
		if k != nil && !seen[k.key] {
			seen[k.key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
		}
		if k == nil {
			viols = append(viols, v)
		}
	}
	for _, k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	c.viols = viols

	// evidence
	obl, bad := 0, 0
	var rules []map[string]any
	for _, n := range c.ruleOrd {
		s := c.rules[n]
		obl += s.n
		bad += s.bad
		rules = append(rules, map[string]any{"rule": n, "what": s.what, "obligations": s.n, "violated": s.bad})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": round(wall.Seconds()),
		"coverage": map[string]any{
			"explanation":        r.expl,
			"rules":              rules,
			"obligations":        obl,
			"obligations_failed": bad,
			"functions_analysed": sortedKeys(c.funcs),
			"functions":          len(c.funcs),
			"paths":              c.paths,
			"calls_resolved":     c.calls,
			"instructions":       c.steps,
			"program_points":     len(c.sites),
			"samples":            firstN(sortedKeys(c.sites), 12),
		},
	}
	edir := filepath.Join(verif, "evidence")
	os.MkdirAll(edir, 0o755)
	if b, err := json.MarshalIndent(ev, "", " "); err == nil {
		if err := os.WriteFile(filepath.Join(edir, id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s: %d rules, %d obligations at %d program points, %d functions, %d paths, %d instructions analysed, %.1fs\n", id, len(rules), obl, len(c.sites), len(c.funcs), c.paths, c.steps, wall.Seconds())
	rep := filepath.Join(edir, id+".violation.txt")
	os.Remove(rep)
	if len(c.viols) == 0 {
		return true
	}
	c.writeReport(rep)
	shown := map[string]bool{}
	for _, v := range c.viols {
		line := fmt.Sprintf("  %s at %s: %s", v.rule, v.pos, v.msg)
		if len(line) > 700 {
			line = line[:700] + "…"
		}
		if !shown[line] && len(shown) < 12 {
			fmt.Println(line)
			if v.trace != "" && os.Getenv("VERIF_TRACE") != "" {
				fmt.Println("      path:", v.trace)
			}
		}
		shown[line] = true
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return false
}

func round(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

func firstN(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// loadFindings reads the known findings: lines
// "finding: property=<id> key=<rule[@file]> <text>". Lines starting with
// "fixed:" are a record only and suppress nothing.
func loadFindings(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		parts := strings.SplitN(rest, " ", 3)
		if len(parts) == 3 && strings.HasPrefix(parts[1], "key=") {
			out = append(out, knownFinding{parts[0], strings.TrimPrefix(parts[1], "key="), parts[2]})
		}
	}
	return out
}

func init() {
	add := func(id, expl string, run func(c *Ctx)) { registry[id] = rule{run, expl} }
	ts := "Path-sensitive abstract interpretation (value numbering, branch facts, loop summaries to a fixpoint, calls inlined) of the trusted set's constructor and update methods, with loading, verification and length/digest checks as contracts that C01-C05 decide; every path that stores or returns metadata must entail the accept conditions, every error path the stated reason. "
	add("C20", ts+"Root updates.", ruleC20)
	add("C21", ts+"Timestamp updates.", ruleC21)
	add("C22", ts+"Snapshot updates, with the rollback loop decided for every entry.", ruleC22)
	add("C23", ts+"Targets updates.", ruleC23)
	add("C24", ts+"Workflow order.", ruleC24)
	add("C25", ts+"Expiry checks, the expiry comparison itself and the only assignment of the reference time.", ruleC25)
	add("C26", ts+"Effects: which memory each update writes on each path, and a scan of the module for other writers.", ruleC26)
}

// liveHeap is how much memory the analysis holds on to.
func liveHeap() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	metrics.Read(s)
	if s[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return s[0].Value.Uint64()
}
