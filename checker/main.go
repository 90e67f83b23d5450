package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type finding struct {
	Key string // rule+construct
	Msg string
}

// Ctx collects the result of one property check.
type Ctx struct {
	Prop        string
	Tier        string
	Obligations int
	Discharged  int
	fails       map[string]*finding
	order       []string
	Samples     []string
	Funcs       map[string]bool
	Notes       []string
	Counts      map[string]int
	Paths       int
}

// ok records one decided obligation.
func (c *Ctx) ok(key string) { c.Obligations++; c.Discharged++; c.sample(key) }
func (c *Ctx) sample(s string) {
	if len(c.Samples) < 60 {
		for _, x := range c.Samples {
			if x == s {
				return
			}
		}
		c.Samples = append(c.Samples, s)
	}
}

// fail records an undischarged obligation.
func (c *Ctx) fail(key, f string, a ...any) {
	c.Obligations++
	if _, dup := c.fails[key]; dup {
		return
	}
	msg := fmt.Sprintf(f, a...)
	if len(msg) > 700 && key != "analysis-panic" {
		msg = msg[:700] + "…"
	}
	if len(key) > 200 {
		key = key[:200]
	}
	c.fails[key] = &finding{key, msg}
	c.order = append(c.order, key)
}

func (c *Ctx) check(b bool, key, f string, a ...any) bool {
	if b {
		c.ok(key)
	} else {
		c.fail(key, f, a...)
	}
	return b
}
func (c *Ctx) count(k string, n int) { c.Counts[k] += n }

type check struct {
	id    string
	title string
	rule  string
	floor int // minimal number of obligations confirmed by hand
	run   func(c *Ctx)
}

var checks []check

func register(k check) { checks = append(checks, k) }

var verifDir = "/verif"

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property>|list")
		os.Exit(2)
	}
	id := os.Args[1]
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if id == "list" {
		for _, k := range checks {
			fmt.Println(k.id, k.title)
		}
		return
	}
	if id == "all" {
		rc := 0
		for _, k := range checks {
			if runCheck(k) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	for _, k := range checks {
		if k.id == id {
			os.Exit(runCheck(k))
		}
	}
	fmt.Println("unknown property", id)
	os.Exit(2)
}

func runCheck(k check) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{Prop: k.id, Tier: tier, fails: map[string]*finding{}, Funcs: map[string]bool{}, Counts: map[string]int{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(fatal); ok {
					c.fail("anchor:"+f.msg, "the analysis cannot decide the property: %s", f.msg)
					return
				}
				c.fail("analysis-panic", "the analysis aborted: %v\n%s", r, debug.Stack())
			}
		}()
		k.run(c)
		if pureCodecs[k.id] {
			for v, at := range sharedWrites {
				c.fail("shared:"+v, "%s writes the package-level variable %s with no lock held: two goroutines that do this at once spoil each other's result", at, v)
			}
		}
	}()
	if os.Getenv("VERIF_SHARD") != "" {
		return shardDone(c)
	}
	if c.Obligations < k.floor {
		c.fail("floor", "only %d obligations were found where %d were confirmed by hand: the analysis no longer sees the code it must judge", c.Obligations, k.floor)
	}
	known := loadKnown(k.id)
	var viol []string
	for _, key := range c.order {
		if _, ok := known[key]; ok {
			continue
		}
		viol = append(viol, key)
	}
	var kf []string
	for _, key := range c.order {
		if d, ok := known[key]; ok {
			kf = append(kf, key)
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", k.id, d, key)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations, %.1fs\n", k.id, c.Obligations, c.Discharged, len(kf), len(viol), time.Since(start).Seconds())
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if len(fns) > 150 {
		fns = append(fns[:150], fmt.Sprintf("… %d more", len(c.Funcs)-150))
	}
	cov := map[string]any{
		"explanation":          k.rule,
		"rule":                 k.rule,
		"obligations":          c.Obligations,
		"discharged":           c.Discharged,
		"functions_analysed":   len(c.Funcs),
		"functions":            fns,
		"abstract_paths":       c.Paths,
		"counts":               c.Counts,
		"samples":              trimS(c.Samples),
		"known_findings":       kf,
		"undischarged_details": trimS(viol),
	}
	if len(c.Notes) > 0 {
		cov["notes"] = trimS(c.Notes)
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{"property": k.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol)}
	b, _ := json.MarshalIndent(ev, "", " ")
	evp := filepath.Join(verifDir, "evidence", k.id+".json")
	if err := os.WriteFile(evp, b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	rp := filepath.Join(verifDir, "evidence", k.id+".violation.txt")
	if len(viol) == 0 {
		os.Remove(rp)
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\nrule: %s\n\n", k.id, k.title, k.rule)
	for _, key := range viol {
		fmt.Fprintf(&sb, "[%s]\n  %s\n", key, c.fails[key].Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", k.id, rp)
	return 1
}

func trimS(in []string) []string {
	var r []string
	for i, s := range in {
		if i >= 80 {
			r = append(r, fmt.Sprintf("… %d more", len(in)-80))
			break
		}
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		r = append(r, s)
	}
	return r
}

var assumptions = []string{
	"the Go type checker and go/ssa represent the program faithfully (host build configuration linux/amd64)",
	"slice, string and map lengths are below 2^40",
	"distinct symbolic pointers do not alias; code outside the module does not mutate buffers it is not given",
}

// known findings: lines "property=<id> key=<key> :: <description>"
func loadKnown(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		if !strings.HasPrefix(l, "property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "property="+id+" key=")
		kv := strings.SplitN(rest, " :: ", 2)
		if len(kv) == 2 {
			r[kv[0]] = kv[1]
		}
	}
	return r
}
