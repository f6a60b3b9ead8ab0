package main

// Which lock guards which state, inferred from how it is used, and every access checked against it.

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type guardInfo struct {
	cls   string
	lock  string // class of the guarding lock ("" none)
	accs  []*gAccess
	deepW bool
	shalW bool
	votes map[string]int
}

type gAccess struct {
	*access
	x    *lockRun
	rel  bool // counts: writes, and reads of something that is written after construction
	held []string
}

// lockOf: the lock class, restricted to locks of the same instance (or package), of one held entry; "" otherwise.
func sameOwner(base string, h heldLock) bool {
	i := strings.LastIndex(h.class, ".")
	if i < 0 {
		return false
	}
	field := h.class[i+1:]
	if base == "global" {
		return strings.HasPrefix(h.key, "global:")
	}
	return h.is(base + "." + field)
}

// concurrent: the functions (by name) that can run while others do: what handlers, goroutines, function values,
// methods and the library packages' exported functions lead to. What only tests, init functions or main call is not.
func concurrent(ws []*lockWorld) map[string]bool {
	out := map[string]bool{}
	refs := map[string]map[string]bool{}
	var work []string
	root := func(n string) {
		if !out[n] {
			out[n] = true
			work = append(work, n)
		}
	}
	for _, l := range ws {
		taken := l.u.addressTaken()
		for _, f := range l.u.Funcs {
			if f.Pkg == nil || l.isInit(f) || f.Pkg.Pkg.Name() == "main" && f.Name() == "main" {
				continue
			}
			n := FuncName(f)
			pkg := shortPkg(f.Pkg.Pkg.Path())
			exp := f.Object() != nil && f.Object().Exported()
			lib := strings.HasPrefix(pkg, "client/") || strings.HasPrefix(pkg, "gateway-admin/") || strings.HasPrefix(pkg, "provider-admin/")
			if exp && (lib || f.Signature.Recv() != nil) || taken[f] && !l.once[f] && f.Parent() == nil || l.started[f] > 0 {
				root(n)
			}
			if refs[n] == nil {
				refs[n] = map[string]bool{}
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var ops [16]*ssa.Value
					for _, op := range ins.Operands(ops[:0]) {
						if k, ok := (*op).(*ssa.Function); ok && !l.once[k] {
							refs[n][FuncName(k)] = true
						}
					}
					if c, ok := ins.(ssa.CallInstruction); ok {
						if k := l.u.Callee(c); k != nil {
							refs[n][FuncName(k)] = true
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for k := range refs[n] {
			root(k)
		}
	}
	return out
}

// namedGuard: the mutex named after the field (<field>Lock) in the same struct.
func namedGuard(ws []*lockWorld, cls string) string {
	i := strings.LastIndex(cls, ".")
	if i < 0 {
		return ""
	}
	for _, l := range ws {
		if l.mutexes[cls+"Lock"] {
			return cls + "Lock"
		}
		if l.mutexes[cls+"Mutex"] {
			return cls + "Mutex"
		}
	}
	return ""
}

func collectGuards(ws []*lockWorld) map[string]*guardInfo {
	gs := map[string]*guardInfo{}
	conc := concurrent(ws)
	for _, l := range ws {
		for _, x := range l.runs {
			if x.acc == nil {
				x.collect()
			}
			for _, a := range x.acc {
				if a.base == "global" && !conc[FuncName(x.entry)] {
					continue
				}
				g := gs[a.cls]
				if g == nil {
					g = &guardInfo{cls: a.cls, votes: map[string]int{}}
					gs[a.cls] = g
				}
				ga := &gAccess{access: a, x: x}
				g.accs = append(g.accs, ga)
				if a.write && a.deep {
					g.deepW = true
				}
				if a.write && !a.deep {
					g.shalW = true
				}
			}
		}
	}
	for _, g := range gs {
		for _, a := range g.accs {
			a.rel = a.write || a.deep && g.deepW || !a.deep && g.shalW
			if !a.rel {
				continue
			}
			seen := map[string]bool{}
			for _, s := range a.states {
				for _, h := range s.held {
					if sameOwner(a.base, h) && !seen[h.class] {
						seen[h.class] = true
						g.votes[h.class]++
						if a.write && h.excl {
							g.votes[h.class]++
						}
					}
				}
			}
		}
		// a guard is held exclusively by at least one of the writes
		for k := range g.votes {
			w := false
			for _, a := range g.accs {
				for _, s := range a.states {
					for _, h := range s.held {
						if a.write && h.excl && h.class == k && sameOwner(a.base, h) {
							w = true
						}
					}
				}
			}
			if !w {
				delete(g.votes, k)
			}
		}
		if g.lock = namedGuard(ws, g.cls); g.lock != "" {
			continue
		}
		best := 0
		var names []string
		for k := range g.votes {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if g.votes[k] > best {
				best = g.votes[k]
				g.lock = k
			}
		}
	}
	return gs
}

// guardFailure: why the access is not allowed under the guard ("" when it is).
func (a *gAccess) guardFailure(lock string) string {
	for _, s := range a.states {
		ok, shared := false, false
		for _, h := range s.held {
			if h.class == lock && sameOwner(a.base, h) {
				ok = true
				shared = !h.excl
			}
		}
		if !ok {
			return "without " + lock + ", which guards it elsewhere"
		}
		if a.write && shared {
			return "while holding " + lock + " only shared"
		}
	}
	return ""
}

// guardRule: every relevant access of the classes selected is under the inferred guard.
func guardRule(r *Run, rule string, gs map[string]*guardInfo, sel func(cls string) bool) {
	var names []string
	for k := range gs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		g := gs[k]
		if !sel(k) {
			continue
		}
		mutable := g.deepW || g.shalW
		if !mutable {
			continue
		}
		if g.lock == "" {
			w := ""
			for _, a := range g.accs {
				if a.write {
					w = a.x.g.where(a.n)
				}
			}
			r.ob(rule, k, false, w, "it is changed after construction and no lock is ever held when it is used")
			continue
		}
		r.ob(rule, k, true, "-", "")
		for _, a := range g.accs {
			if !a.rel {
				continue
			}
			r.count("accesses checked", 1)
			msg := a.guardFailure(g.lock)
			if msg != "" {
				verb := "reads "
				if a.write {
					verb = "changes "
				}
				msg = verb + k + " " + msg
			}
			r.ob(rule, FuncName(a.n.ctx.fn)+" "+k, msg == "", a.x.g.where(a.n), msg)
		}
	}
	handedOut(r, rule+"-copy", gs, sel)
	if os.Getenv("FCRGUARDS") != "" {
		for _, k := range names {
			g := gs[k]
			fmt.Printf("%-90s deepW=%v shalW=%v lock=%s votes=%v n=%d\n", k, g.deepW, g.shalW, g.lock, g.votes, len(g.accs))
			seen := map[string]bool{}
			for _, a := range g.accs {
				if !a.rel {
					continue
				}
				m := a.guardFailure(g.lock)
				s := fmt.Sprintf("      %s write=%v deep=%v base=%s %s", FuncName(a.n.ctx.fn), a.write, a.deep, a.base, m)
				if m != "" && !seen[s] {
					seen[s] = true
					fmt.Println(s)
				}
			}
		}
	}
}

// handedOut: what an exported function returns is not the guarded container (or element) that others change in place.
func handedOut(r *Run, rule string, gs map[string]*guardInfo, sel func(cls string) bool) {
	runs := map[*lockRun]bool{}
	mutated := map[string]map[string]bool{} // class -> types of references changed in place
	for k, g := range gs {
		for _, a := range g.accs {
			runs[a.x] = true
			if a.write && a.deep && a.obj != nil {
				if mutated[k] == nil {
					mutated[k] = map[string]bool{}
				}
				mutated[k][a.obj.Underlying().String()] = true
			}
		}
	}
	for x := range runs {
		if x.entry.Object() == nil || !x.entry.Object().Exported() {
			continue
		}
		for _, n := range x.g.nodes {
			ret, ok := n.instr.(*ssa.Return)
			if !ok || n.ctx != x.g.root || len(x.st[n.id]) == 0 {
				continue
			}
			for _, v := range ret.Results {
				if !refType(v.Type()) {
					continue
				}
				for _, lc := range x.locs(Val{n.ctx, v}) {
					g := gs[lc.cls]
					if g == nil || !sel(lc.cls) || !lc.deep || !(g.deepW) {
						continue
					}
					r.count("references returned", 1)
					bad := mutated[lc.cls][v.Type().Underlying().String()]
					msg := ""
					if bad {
						msg = "returns the object behind " + lc.cls + " itself, which others change in place; the caller reads it without the lock"
					}
					r.ob(rule, FuncName(x.entry)+" "+lc.cls, !bad, x.g.where(n), msg)
				}
			}
		}
	}
}

// the packages whose state has a property of its own; P17 is about all state
var guardScopes = map[string][]string{
	"P12": {"common/pkg/fcrpaymentmgr."},
	"P14": {"common/pkg/fcroffermgr."},
	"P15": {"common/pkg/fcrregistermgr.", "common/pkg/dhtring."},
	"P20": {"common/pkg/fcrp2pserver."},
	"P21": {"gateway/internal/reputation."},
}

func inGuardScope(prop, cls string) bool {
	if ps, ok := guardScopes[prop]; ok {
		for _, p := range ps {
			if strings.HasPrefix(cls, p) {
				return true
			}
		}
		return false
	}
	return true
}

// guardProperty: the rules that apply to all guarded state, for the state of one property.
func guardProperty(r *Run, mods []string) ([]*lockWorld, map[string]*guardInfo) {
	ws := lockWorlds(r, mods)
	gs := collectGuards(ws)
	sel := func(c string) bool { return inGuardScope(r.prop, c) }
	r.rule("guarded", "each mutable field or variable has one mutex, held whenever it is read or written and held exclusively whenever it is written")
	r.rule("guarded-copy", "an exported function does not return the guarded container itself when others change it in place")
	r.rule("atomic", "an update that rests on what was read from the same state happens in the critical section of that reading")
	guardRule(r, "guarded", gs, sel)
	atomicRule(r, "atomic", ws, gs, sel)
	return ws, gs
}

const guardTech = "On the expanded control-flow graph of every function that can run concurrently, the mutexes held (mode, place of acquisition, instance) are propagated along every feasible path. The mutex guarding each field or variable is inferred from the accesses; then every access in the project is checked for holding it (exclusively for writes), returned containers for being copies, and every update for resting (by data and control dependence) only on what was read in its own critical section."

func init() {
	register("P17", guardTech, allMods, func(r *Run) {
		guardProperty(r, allMods)
		r.floor("guarded", 30)
		r.floor("atomic", 3)
	})
}
