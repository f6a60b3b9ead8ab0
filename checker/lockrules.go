package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockWorlds analyses every module given, each with its own packages as starting points.
func lockWorlds(r *Run, mods []string) []*lockWorld {
	var out []*lockWorld
	for _, m := range mods {
		u := r.U(m)
		l := worldOf(u, func(pkg string) bool {
			return strings.HasPrefix(pkg, m+"/") && !strings.HasPrefix(pkg, "register/restapi") && !strings.Contains(pkg, "/cmd/")
		}, []string{"gateway/internal/core.Core", "provider/internal/core.Core"})
		l.analyse()
		r.count("entries analysed", len(l.entries))
		for _, x := range l.runs {
			r.count("program points", len(x.g.nodes))
			n := 0
			for _, m := range x.st {
				n += len(m)
			}
			r.count("(point, locks held) states", n)
			r.count("lock acquisitions", len(x.acq))
			if x.capped {
				r.ob("bounded", FuncName(x.entry), false, r.U(m).Pos(x.entry.Pos()), "too many combinations of locks held to enumerate")
			}
			if len(x.g.cut) > 0 {
				for _, c := range x.g.cut {
					if !recursiveName(x, c) {
						r.ob("bounded", FuncName(x.entry), false, r.U(m).Pos(x.entry.Pos()), "call depth exceeds the bound at "+c)
					}
				}
			}
		}
		out = append(out, l)
	}
	return out
}

func recursiveName(x *lockRun, name string) bool { return false }

func init() {
	register("P16", "On the expanded control-flow graph of every function other code can start, the set of mutexes held (with mode and place of acquisition, deferred releases included) is propagated along every feasible path: nothing held at any return, no release of something not held or in the wrong mode, no second acquisition by the holder, and the acquired-while-held relation between lock classes over the whole project has no cycle.", allMods, runP16)
}

var allMods = []string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin", "register"}

func runP16(r *Run) {
	r.rule("released", "at every return of the function no mutex acquired in it is held, on any path")
	r.rule("paired", "every release is of a mutex held there, in the mode it was acquired in")
	r.rule("not-reacquired", "a goroutine does not acquire a mutex it holds (also not shared twice)")
	r.rule("ordered", "the relation 'acquired while holding' between lock classes has no cycle")
	r.rule("no-channel-wait", "no channel operation while holding a mutex that the goroutine at the other end of the channel acquires")
	ws := lockWorlds(r, allMods)
	type edge struct {
		n *Node
		x *lockRun
	}
	order := map[[2]string]edge{}
	fns := map[string]bool{}
	bad := map[string]lockEvent{}
	where := map[string]string{}
	for _, l := range ws {
		for _, x := range l.runs {
			for k, n := range x.order {
				if _, ok := order[k]; !ok {
					order[k] = edge{n, x}
				}
			}
			for id := range x.st {
				n := x.g.nodes[id]
				if c, ok := n.instr.(ssa.CallInstruction); ok {
					if _, ok := lockOp(l.u.CalleeName(c)); ok {
						fns[FuncName(n.ctx.fn)] = true
						where[FuncName(n.ctx.fn)] = l.u.Pos(n.ctx.fn.Pos())
					}
				}
			}
			for _, e := range x.events {
				fn := FuncName(e.fn)
				if e.what == "leak" {
					// the function that acquired it
					for _, s := range x.states(e.n) {
						for _, h := range s.held {
							if h.class == e.cls {
								fn = FuncName(h.at.ctx.fn)
							}
						}
					}
				}
				k := e.what + "|" + fn + "|" + e.cls
				if _, ok := bad[k]; !ok {
					bad[k] = e
					where[k] = x.g.where(e.n)
				}
			}
		}
	}
	rules := map[string]string{"leak": "released", "unlock": "paired", "unlock-mode": "paired", "relock": "not-reacquired"}
	for k, e := range bad {
		p := strings.Split(k, "|")
		r.ob(rules[e.what], p[1]+" "+e.cls, false, where[k], e.msg)
	}
	for f := range fns {
		for what, rl := range rules {
			hit := false
			for k := range bad {
				if strings.HasPrefix(k, what+"|"+f+"|") {
					hit = true
				}
			}
			if !hit {
				r.ob(rl, f, true, where[f], "")
			}
		}
	}
	// lock order
	succ := map[string][]string{}
	for k := range order {
		succ[k[0]] = append(succ[k[0]], k[1])
	}
	reach := func(a, b string) bool {
		seen := map[string]bool{}
		st := []string{a}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			for _, y := range succ[x] {
				if y == b {
					return true
				}
				if !seen[y] {
					seen[y] = true
					st = append(st, y)
				}
			}
		}
		return false
	}
	for k, e := range order {
		msg := ""
		if reach(k[1], k[0]) || k[0] == k[1] {
			var back []string
			for k2, e2 := range order {
				if k2[0] != k[0] && reach(k2[1], k[0]) || k2[1] == k[0] && reach(k[1], k2[0]) {
					back = append(back, k2[0]+" -> "+k2[1]+" in "+FuncName(e2.n.ctx.fn))
				}
			}
			sort.Strings(back)
			msg = fmt.Sprintf("%s is acquired while %s is held (in %s), and elsewhere the other way round: %s", k[1], k[0], FuncName(e.n.ctx.fn), strings.Join(back, "; "))
		}
		r.ob("ordered", k[0]+" -> "+k[1], msg == "", e.x.g.where(e.n), msg)
	}
	// channels
	type side struct {
		locks map[string]bool
		entry *ssa.Function
	}
	for _, l := range ws {
		for _, x := range l.runs {
			x.collect()
		}
	}
	for _, l := range ws {
		for _, x := range l.runs {
			for _, op := range x.chans {
				held := map[string]bool{}
				for _, s := range x.states(op.n) {
					for _, h := range s.held {
						held[h.class] = true
					}
				}
				msg := ""
				for _, y := range l.runs {
					if y.entry == x.entry || l.started[y.entry] == 0 {
						continue
					}
					other := false
					for _, o2 := range y.chans {
						if o2.cls == op.cls {
							other = true
						}
					}
					if !other {
						continue
					}
					for h := range held {
						if y.acq[h] != nil {
							msg = "waits on " + op.cls + " while holding " + h + ", which " + FuncName(y.entry) + " at the other end acquires"
						}
					}
				}
				r.ob("no-channel-wait", FuncName(op.n.ctx.fn)+" "+op.cls, msg == "", x.g.where(op.n), msg)
			}
		}
	}
	r.floor("released", 20)
	r.floor("ordered", 2)
}
