// Command analyzer decides the properties listed in /verif/properties.jsonl by
// static analysis of the type-checked SSA form of /repo's current working tree.
//
// usage: analyzer [-repo DIR] [-out DIR] [-known FILE] PROPERTY...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is a property decided by this program.
type Check struct {
	ID, Rule string
	Level    string
	Trusted  []string
	Run      func(*Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx collects results of a single check.
// thoroughMode makes checks enumerate bigger shapes.
var thoroughMode bool

// bound returns the size of enumerated shapes.
func bound(quick, thorough int) int {
	if thoroughMode {
		return thorough
	}
	return quick
}

type Ctx struct {
	*Prog
	check       *Check
	obligations int
	discharged  int
	violations  []violation
	samples     []string
	counts      map[string]int
	notes       []string
	seen        map[string]bool
}

type violation struct {
	Key   string `json:"key"`
	Pos   string `json:"pos"`
	Msg   string `json:"msg"`
	Known bool   `json:"known,omitempty"`
}

// Obligation counts one discharged proof obligation (a call site, a store, a path, ...).
func (c *Ctx) Obligation(format string, args ...any) {
	c.obligations++
	c.discharged++
	if len(c.samples) < 80 {
		s := fmt.Sprintf(format, args...)
		if !c.seen["sample|"+s] {
			c.seen["sample|"+s] = true
			c.samples = append(c.samples, s)
		}
	}
}

// Violation reports an obligation that is not discharged. key identifies the construct, not the line.
func (c *Ctx) Violation(pos, key, format string, args ...any) {
	id := key + "|" + pos
	if c.seen[id] {
		return
	}
	c.seen[id] = true
	c.obligations++
	c.violations = append(c.violations, violation{Key: key, Pos: pos, Msg: fmt.Sprintf(format, args...)})
}

// Require fails the check if an anchor of the rule is missing: a rule that matches nothing decides nothing.
func (c *Ctx) Require(ok bool, key, format string, args ...any) bool {
	if !ok {
		c.Violation("-", "anchor:"+key, "rule lost its anchor: "+format, args...)
	}
	return ok
}

func (c *Ctx) Count(name string, n int) { c.counts[name] += n }
func (c *Ctx) Note(format string, args ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

func main() {
	debug.SetMemoryLimit(4 << 30)
	repo := flag.String("repo", "/repo", "source tree to analyse")
	out := flag.String("out", "evidence", "evidence directory")
	known := flag.String("known", "known_findings.txt", "known findings file")
	thorough := flag.Bool("thorough", os.Getenv("VERIF_TIER") == "thorough", "use longer call strings")
	flag.Parse()
	if *thorough {
		os.Setenv("VERIF_TIER", "thorough")
		ctxDepth = 3
		thoroughMode = true
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 0 {
		fmt.Fprintln(os.Stderr, "no property given")
		os.Exit(2)
	}

	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	prog, e := load(*repo)
	if e != nil {
		fmt.Fprintln(os.Stderr, "cannot load:", e)
		os.Exit(2)
	}
	loadTime := time.Since(start)

	exit := 0
	for _, id := range ids {
		ch := checks[id]
		if ch == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		if runCheck(prog, ch, *out, *known, loadTime) {
			exit = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(exit)
}

func knownFindings(file, id string) map[string]bool {
	res := map[string]bool{}
	data, e := os.ReadFile(file)
	if e != nil {
		return res
	}
	prefix := "known: property=" + id + " key="
	for _, line := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(line, prefix) {
			key := strings.TrimPrefix(line, prefix)
			if i := strings.Index(key, " -- "); i >= 0 {
				key = key[:i]
			}
			res[strings.TrimSpace(key)] = true
		}
	}
	return res
}

func runCheck(prog *Prog, ch *Check, out, known string, loadTime time.Duration) (failed bool) {
	start := time.Now()
	c := &Ctx{Prog: prog, check: ch, counts: map[string]int{}, seen: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					debug.PrintStack()
				}
				c.Violation("-", "analysis-failure", "analysis did not complete: %v", r)
			}
		}()
		ch.Run(c)
	}()

	kn := knownFindings(known, ch.ID)
	fresh := 0
	os.MkdirAll(filepath.Join(out, "replay"), 0o777)
	replay := filepath.Join(out, "replay", ch.ID+".txt")
	var report strings.Builder
	fmt.Fprintf(&report, "property %s\nrule: %s\n\n", ch.ID, ch.Rule)
	for i := range c.violations {
		v := &c.violations[i]
		if kn[v.Key] {
			v.Known = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", ch.ID, v.Key, v.Msg, v.Pos)
			continue
		}
		fresh++
		fmt.Fprintf(&report, "%s: [%s] %s\n", v.Pos, v.Key, v.Msg)
	}
	os.WriteFile(replay, []byte(report.String()), 0o666)
	if fresh > 0 {
		fmt.Print(report.String())
		abs, _ := filepath.Abs(replay)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, abs)
	}

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	sort.Strings(c.notes)
	coverage := map[string]any{
		"obligations":   c.obligations,
		"discharged":    c.discharged,
		"checker_cmd":   "analyzer " + ch.ID,
		"trusted_base":  append([]string{"go/types and golang.org/x/tools/go/ssa (IR construction)", "this analyzer"}, ch.Trusted...),
		"rule":          ch.Rule,
		"explanation":   ch.Rule,
		"packages":      prog.libNames(),
		"functions":     len(prog.Fns),
		"instances":     c.counts,
		"samples":       c.samples,
		"notes":         c.notes,
		"findings":      c.violations,
		"load_wall_s":   loadTime.Seconds(),
		"source_digest": prog.Digest,
		"call_string":   ctxDepth,
	}
	ev := map[string]any{
		"property": ch.ID, "tier": tier, "seed": seed, "level": ch.Level,
		"coverage": coverage, "wall_s": loadTime.Seconds() + time.Since(start).Seconds(), "violations": fresh,
		"assumptions": ch.Trusted,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(out, 0o777)
	if e := os.WriteFile(filepath.Join(out, ch.ID+".json"), data, 0o666); e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(2)
	}
	if fresh == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d\n", ch.ID, c.obligations, c.discharged, len(c.violations))
	}
	return fresh > 0
}
