package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check is the context a property's rules run in.
type Check struct {
	ID       string
	P        *Prog
	Tier     string
	Vio      *Violations
	Counts   map[string]int // what was analysed
	Samples  map[string][]string
	Fns      map[*ssa.Function]bool
	States   int
	Events   int
	Roots    int
	MaxState int
	failed   []string
	cache    map[string]interface{}
	listed   map[*ssa.Function]bool // functions decoding lists or maps, and whether they accept any
	nested   bool                   // the depth guard lets lists or maps through
}

func (c *Check) count(what string) { c.Counts[what]++ }

// site records a construct an obligation was discharged at; each is counted once.
func (c *Check) site(what string, e *Event) {
	c.siteAt(what, c.P.pos(e.Pos()), "")
}

func (c *Check) siteAt(what, pos, note string) {
	for _, x := range c.Samples[what] {
		if x == pos {
			return
		}
	}
	c.Samples[what] = append(c.Samples[what], pos)
}

// fail reports a construct-level violation outside a path.
func (c *Check) fail(rule string, pos string, format string, args ...interface{}) {
	c.Vio.add(&Violation{Rule: rule, Msg: fmt.Sprintf(format, args...), Root: pos}, rule+"@"+pos)
}

// undecided reports that the analysis could not decide: an unresolved anchor or an exceeded budget.
func (c *Check) undecided(format string, args ...interface{}) {
	c.failed = append(c.failed, fmt.Sprintf(format, args...))
}

// need is the vacuity guard: at least n sites of what must have been analysed.
func (c *Check) need(what string, n int) {
	if len(c.Samples[what]) < n {
		c.undecided("only %d instances of %q found, expected at least %d", len(c.Samples[what]), what, n)
	}
}

type property struct {
	id   string
	rule string // what is decided, for the evidence
	run  func(c *Check)
}

var properties []property

func register(id, rule string, run func(c *Check)) {
	properties = append(properties, property{id, rule, run})
}

func main() {
	repo := flag.String("repo", "/repo", "module to analyse")
	verif := flag.String("verif", "/verif", "directory of the framework")
	id := flag.String("property", "", "property to decide")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	mode := flag.String("mode", "", "debugging: dump")
	archs := flag.String("arch", "", "comma-separated GOARCH list")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	os.Setenv("GOFLAGS", "-mod=readonly")
	if *mode == "list" {
		for _, p := range properties {
			fmt.Println(p.id)
		}
		return
	}
	if *mode == "all" {
		// debugging: every property on one load
		p, err := load(*repo, "", "")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		rc := 0
		for _, q := range properties {
			if *id != "" && !strings.Contains(","+*id+",", ","+q.id+",") {
				continue
			}
			t := time.Now()
			c := runProperty(p, q, *tier)
			n := len(c.Vio.order) + len(c.failed)
			fmt.Printf("%s: %d violations, %d states, %d roots, %.1fs\n", q.id, n, c.States, c.Roots, time.Since(t).Seconds())
			if n > 0 {
				rc = 1
			}
			if *id != "" || os.Getenv("V") != "" {
				fmt.Print(c.text())
			} else {
				for _, k := range c.Vio.order {
					v := c.Vio.m[k]
					fmt.Printf("   %s: %s: %s\n", v.Rule, v.at(p), v.Msg)
				}
				for _, f := range c.failed {
					fmt.Println("   undecided:", f)
				}
			}
		}
		if debugRoot != "" {
			debugDump()
		}
		os.Exit(rc)
	}
	var prop *property
	for i := range properties {
		if properties[i].id == *id {
			prop = &properties[i]
		}
	}
	if prop == nil {
		fmt.Println("unknown property", *id)
		os.Exit(2)
	}
	os.Exit(decide(*prop, *repo, *verif, *tier, *archs))
}

func (v *Violation) at(p *Prog) string {
	if v.Pos.IsValid() {
		return p.pos(v.Pos)
	}
	return v.Root
}

func runProperty(p *Prog, q property, tier string) (c *Check) {
	c = &Check{ID: q.id, P: p, Tier: tier, Vio: newViolations(), Counts: map[string]int{}, Samples: map[string][]string{},
		Fns: map[*ssa.Function]bool{}, MaxState: 800000, cache: map[string]interface{}{}}
	if tier == "thorough" {
		c.MaxState = 2000000
	}
	defer func() {
		if e := recover(); e != nil {
			c.undecided("the analysis failed: %v", e)
			if os.Getenv("V") != "" {
				debug.PrintStack()
			}
		}
	}()
	q.run(c)
	return c
}

func (c *Check) text() string {
	var sb strings.Builder
	for _, k := range c.Vio.order {
		v := c.Vio.m[k]
		fmt.Fprintf(&sb, "%s: rule %s: %s\n", v.at(c.P), v.Rule, v.Msg)
		fmt.Fprintf(&sb, "  found from %s\n", v.Root)
		for _, t := range v.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	for _, f := range c.failed {
		fmt.Fprintf(&sb, "undecided: %s\n", f)
	}
	for _, k := range sortedKeys(c.Samples) {
		fmt.Fprintf(&sb, "  analysed %s: %d\n", k, len(c.Samples[k]))
		if os.Getenv("V") != "" {
			for _, x := range c.Samples[k] {
				fmt.Fprintf(&sb, "      %s\n", x)
			}
		}
	}
	for _, k := range sortedKeys(c.Counts) {
		fmt.Fprintf(&sb, "  counted %s: %d\n", k, c.Counts[k])
	}
	return sb.String()
}

// decide runs one property and writes its evidence; it returns the exit code.
func decide(q property, repo, verif, tier, archs string) int {
	start := time.Now()
	list := []string{""}
	if archs != "" {
		list = strings.Split(archs, ",")
	}
	var c *Check
	var configs []string
	var text string
	bad, states, roots, events := 0, 0, 0, 0
	findings := knownFindings(verif, q.id)
	var known []string
	for _, arch := range list {
		p, err := load(repo, "", arch)
		if err != nil {
			c = &Check{ID: q.id, P: &Prog{}, Vio: newViolations(), Samples: map[string][]string{}, Counts: map[string]int{}}
			c.undecided("the program cannot be loaded: %v", err)
		} else {
			c = runProperty(p, q, tier)
		}
		for _, k := range append([]string{}, c.Vio.order...) {
			if f := findings.match(c.Vio.m[k]); f != "" {
				known = append(known, f)
				for i, x := range c.Vio.order {
					if x == k {
						c.Vio.order = append(c.Vio.order[:i], c.Vio.order[i+1:]...)
						break
					}
				}
			}
		}
		bad += len(c.Vio.order) + len(c.failed)
		states += c.States
		roots += c.Roots
		events += c.Events
		name := arch
		if name == "" {
			name = "host"
		}
		configs = append(configs, name)
		if len(c.Vio.order)+len(c.failed) > 0 {
			text += "configuration " + name + ":\n" + c.text()
		}
	}
	obl := map[string]int{}
	samples := map[string][]string{}
	total := 0
	for _, k := range sortedKeys(c.Samples) {
		v := append([]string{}, c.Samples[k]...)
		sort.Strings(v)
		obl[k] = len(v)
		total += len(v)
		if len(v) > 12 {
			v = v[:12]
		}
		samples[k] = v
	}
	for k, n := range c.Counts {
		obl[k] = n
	}
	var fns []string
	for f := range c.Fns {
		fns = append(fns, f.String())
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": q.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":           q.rule,
			"configurations":        configs,
			"entry_points_explored": roots,
			"abstract_states":       states,
			"events_checked":        events,
			"functions_analysed":    len(fns),
			"functions":             fns,
			"sites":                 obl,
			"sites_total":           total,
			"site_samples":          samples,
			"known_findings":        known,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  bad,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", q.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	seenk := map[string]bool{}
	for _, k := range known {
		if !seenk[k] {
			seenk[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", q.id, k)
		}
	}
	if bad == 0 {
		fmt.Printf("%s: holds (%d functions, %d entry points, %d abstract states, %d sites)\n", q.id, len(fns), roots, states, total)
		return 0
	}
	fmt.Print(text)
	out := filepath.Join(verif, "out")
	os.MkdirAll(out, 0o755)
	path := filepath.Join(out, q.id+".txt")
	os.WriteFile(path, []byte(text), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", q.id, path)
	return 1
}

type findingList []finding
type finding struct{ rule, where, text string }

// knownFindings reads lines "KNOWN property=<id> rule=<rule> in=<function> <text>" of known-findings.txt.
func knownFindings(verif, id string) (l findingList) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) < 5 || f[0] != "KNOWN" || f[1] != "property="+id {
			continue
		}
		l = append(l, finding{strings.TrimPrefix(f[2], "rule="), strings.TrimPrefix(f[3], "in="), strings.Join(f[4:], " ")})
	}
	return
}

func (l findingList) match(v *Violation) string {
	for _, f := range l {
		if f.rule == v.Rule && (f.where == v.Root || len(v.Trace) > 1 && strings.HasPrefix(v.Trace[1], f.where+" ")) {
			return f.text
		}
	}
	return ""
}

var assumptions = []string{
	"standard library, gorilla/websocket and tinylib/msgp behave as documented; their bodies are modelled, not analysed",
	"no use of unsafe, cgo or assembly in the module (checked: the module has none)",
	"user-supplied Conn, Transport, Parser and handler implementations meet the contracts of their interfaces",
}

func named(t types.Type) string { return typeName(t) }
