package main

// fcrcheck -prop <id>: decides one property from the current source of /repo.
// Exit 0: it holds (listed findings are printed as KNOWN-FINDING). Exit 1: VIOLATION lines. Anything that cannot be
// decided (source that does not load, an anchor that is gone, fewer instances than expected) is a violation as well.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Where     string `json:"where"`
	Msg       string `json:"msg,omitempty"`
}

func (o Ob) key() string { return o.Rule + "|" + o.Construct }

type Run struct {
	prop     string
	obs      []Ob
	seen     map[string]int
	rules    map[string]string // rule -> description
	counts   map[string]int    // things analysed
	samples  []string
	floors   []string
	us       map[string]*Universe
	mu       sync.Mutex
	explain  string
	universe []string
}

type Rule struct {
	mods    []string
	explain string
	run     func(r *Run)
}

var registry = map[string]*Rule{}

func register(prop, explain string, mods []string, run func(r *Run)) {
	registry[prop] = &Rule{mods: mods, explain: explain, run: run}
}

func (r *Run) U(mod string) *Universe { return r.us[mod] }

// ob records one obligation; identical rule+construct pairs are merged (a failure wins).
func (r *Run) ob(rule, construct string, ok bool, where, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if ok {
		msg = ""
	}
	k := rule + "|" + construct
	if i, dup := r.seen[k]; dup {
		if !ok && r.obs[i].OK {
			r.obs[i] = Ob{rule, construct, ok, where, msg}
		}
		return
	}
	r.seen[k] = len(r.obs)
	r.obs = append(r.obs, Ob{rule, construct, ok, where, msg})
}

func (r *Run) rule(name, desc string) { r.rules[name] = desc }
func (r *Run) count(what string, n int) {
	r.mu.Lock()
	r.counts[what] += n
	r.mu.Unlock()
}

// floor: the rule must have matched at least n instances, or it is vacuous.
func (r *Run) floor(rule string, n int) {
	c := 0
	for _, o := range r.obs {
		if o.Rule == rule {
			c++
		}
	}
	r.floors = append(r.floors, fmt.Sprintf("%s: %d instances (at least %d)", rule, c, n))
	if c < n {
		r.ob("anchor", rule, false, "-", fmt.Sprintf("rule %s matched %d instances, at least %d are expected: the code it is about is gone or no longer recognised", rule, c, n))
	}
}

type finding struct{ prop, key, what string }

func loadFindings(file string) []finding {
	var out []finding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=P05 key=<rule>|<construct> :: what
		l = strings.TrimPrefix(l, "known: ")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		what := l[i+4:]
		l = l[:i]
		j := strings.Index(l, " key=")
		if j < 0 {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(l[:j], "property="), l[j+5:], what})
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property id")
	verbose := flag.Bool("v", false, "print every obligation")
	root := flag.String("root", "", "verif directory")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	debug.SetGCPercent(400)
	if *root == "" {
		exe, _ := os.Executable()
		*root = filepath.Dir(filepath.Dir(exe))
	}
	os.Exit(check(*prop, *root, *verbose))
}

func check(prop, root string, verbose bool) (code int) {
	start := time.Now()
	rl := registry[prop]
	if rl == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	r := &Run{prop: prop, seen: map[string]int{}, rules: map[string]string{}, counts: map[string]int{}, us: map[string]*Universe{}, explain: rl.explain}
	var wg sync.WaitGroup
	for _, m := range rl.mods {
		wg.Add(1)
		go func(m string) {
			defer wg.Done()
			u, err := LoadUniverse(m)
			if err != nil {
				r.ob("load", m, false, m, "module cannot be analysed: "+err.Error())
				return
			}
			r.mu.Lock()
			r.us[m] = u
			r.mu.Unlock()
			r.count("modules", 1)
			r.count("functions in scope", len(u.Funcs))
		}(m)
	}
	wg.Wait()
	loaded := len(r.obs) == 0
	if loaded {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("FCRDEBUG") != "" {
						panic(e)
					}
					st := string(debug.Stack())
					r.ob("internal", "panic", false, "-", fmt.Sprintf("the analysis could not decide: %v\n%s", e, st))
				}
			}()
			rl.run(r)
		}()
	}
	known := loadFindings(filepath.Join(root, "known_findings.txt"))
	nviol := 0
	nfail := 0
	if verbose {
		for _, o := range r.obs {
			s := "ok  "
			if !o.OK {
				s = "FAIL"
			}
			fmt.Printf("  %s %s | %s @ %s %s\n", s, o.Rule, o.Construct, o.Where, o.Msg)
		}
	}
	os.MkdirAll(filepath.Join(root, "replay"), 0o755)
	var rep strings.Builder
	replay := filepath.Join(root, "replay", prop+".txt")
	var viol []Ob
	var kn []string
	for _, o := range r.obs {
		if o.OK {
			continue
		}
		nfail++
		isKnown := false
		for _, k := range known {
			if k.prop == prop && k.key == o.key() {
				isKnown = true
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s at %s)", prop, k.what, o.key(), o.Where)
				fmt.Println(line)
				kn = append(kn, line)
				break
			}
		}
		if !isKnown {
			nviol++
			viol = append(viol, o)
		}
	}
	for _, o := range viol {
		fmt.Fprintf(&rep, "property %s violated\n  rule:      %s (%s)\n  construct: %s\n  where:     %s\n  why:       %s\n\n", prop, o.Rule, r.rules[o.Rule], o.Construct, o.Where, o.Msg)
	}
	if nviol > 0 {
		os.WriteFile(replay, []byte(rep.String()), 0o644)
		for _, o := range viol {
			fmt.Printf("  %s: rule %s: %s: %s\n", o.Where, o.Rule, o.Construct, o.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		code = 1
	} else {
		os.Remove(replay)
		fmt.Printf("property %s holds: %d obligations, %d discharged, %d known findings\n", prop, len(r.obs), len(r.obs)-nfail, len(kn))
	}
	writeEvidence(root, r, kn, viol, time.Since(start))
	return code
}

func writeEvidence(root string, r *Run, kn []string, viol []Ob, d time.Duration) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	per := map[string]int{}
	okn := 0
	samples := []Ob{}
	perSample := map[string]int{}
	for _, o := range r.obs {
		per[o.Rule]++
		if o.OK {
			okn++
		}
		if perSample[o.Rule] < 6 {
			perSample[o.Rule]++
			samples = append(samples, o)
		}
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": tier, "seed": seed, "level": "other", "wall_s": d.Seconds(),
		"coverage": map[string]interface{}{
			"explanation":            r.explain,
			"obligations":            len(r.obs),
			"discharged":             okn,
			"rules":                  r.rules,
			"obligations_per_rule":   per,
			"instance_floors":        r.floors,
			"analysed":               r.counts,
			"known_findings":         kn,
			"violations":             viol,
			"samples":                samples,
			"checker_cmd":            "./run.sh " + r.prop,
			"trusted_base":           "go/parser, go/types, golang.org/x/tools/go/ssa v0.52.0, the tables and rules in /verif/checker",
			"source_of_truth":        "/repo working tree, parsed and type-checked on this run",
			"repo_code_was_executed": false,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
}
