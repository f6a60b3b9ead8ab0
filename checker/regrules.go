package main

// P15: a gateway enters or leaves the table of gateways and the ring together; what is looked up in the table because
// of what the ring said is looked up in the same critical section.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const regMgr = "common/pkg/fcrregistermgr."

// tableAndRing: the classes of the gateway table and of the ring in the register manager, found by their types.
func tableAndRing(u *Universe) (table, ring string) {
	for _, sp := range u.Pkgs {
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok || !strings.HasPrefix(typeFull(tm.Type()), regMgr) {
				continue
			}
			st, ok := tm.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if mt, ok := f.Type().Underlying().(*types.Map); ok && strings.HasSuffix(typeFull(mt.Elem()), "register.GatewayRegistrar") {
					table = typeFull(tm.Type()) + "." + f.Name()
				}
				if typeFull(f.Type()) == "common/pkg/dhtring.Ring" {
					ring = typeFull(tm.Type()) + "." + f.Name()
				}
			}
		}
	}
	return
}

// pairOp: what an access does to the table or ring: "insert:<key>", "remove:<key>", "reset" ("" nothing of that kind).
func pairOp(x *lockRun, a *access) string {
	g := x.g
	switch ins := a.n.instr.(type) {
	case *ssa.MapUpdate:
		return "insert:" + g.key(Val{a.n.ctx, ins.Key}).s
	case *ssa.Store:
		if !a.deep {
			return "reset"
		}
	case *ssa.Call:
		name := g.u.CalleeName(ins)
		switch {
		case name == "builtin.delete":
			return "remove:" + g.key(Val{a.n.ctx, args(ins)[1]}).s
		case name == "builtin.clear":
			return "reset"
		case strings.HasSuffix(name, "dhtring.Ring.Insert"):
			return "insert:" + g.key(Val{a.n.ctx, args(ins)[1]}).s
		case strings.HasSuffix(name, "dhtring.Ring.Remove"):
			return "remove:" + g.key(Val{a.n.ctx, args(ins)[1]}).s
		}
	}
	return ""
}

func init() {
	register("P15", guardTech+" Every function of the register manager that changes the gateway table or the ring is walked path by path with the changes that still lack their counterpart: each must get it before the locks held at the first of the two are given up.", []string{"common", "gateway", "provider", "client"}, func(r *Run) {
		ws, gs := guardProperty(r, []string{"common"})
		u := r.U("common")
		r.rule("together", "a gateway is added to (or removed from, or forgotten with all others in) the gateway table and the ring in one critical section, on every path")
		r.rule("read-together", "what is looked up in the gateway table because of what the ring returned is looked up before the ring's lock is given up")
		table, ring := tableAndRing(u)
		if table == "" || ring == "" || gs[table] == nil || gs[ring] == nil {
			r.ob("anchor", "gateway table and ring", false, "-", "the gateway table or the ring of the register manager was not found")
			return
		}
		lockT, lockR := gs[table].lock, gs[ring].lock
		for _, l := range ws {
			for _, x := range l.runs {
				touches := false
				for _, a := range x.acc {
					touches = touches || a.cls == table || a.cls == ring
				}
				if !touches {
					continue
				}
				ops := map[*Node]map[string]string{} // node -> side -> operation
				reads := map[*Node]string{}
				for _, a := range x.acc {
					if a.cls != table && a.cls != ring {
						continue
					}
					if a.write {
						if op := pairOp(x, a); op != "" {
							if ops[a.n] == nil {
								ops[a.n] = map[string]string{}
							}
							ops[a.n][a.cls] = op
							continue
						}
					}
					c, isCall := a.n.instr.(*ssa.Call)
					if _, ok := a.n.instr.(*ssa.Lookup); ok && a.cls == table && a.deep {
						reads[a.n] = table
					}
					if isCall && a.cls == ring && strings.Contains(x.g.u.CalleeName(c), "dhtring.Ring.") {
						reads[a.n] = ring
					}
				}
				if len(ops) == 0 && len(reads) == 0 {
					continue
				}
				con := FuncName(x.entry)
				torn, apart := map[string]bool{}, ""
				// sections holds the exclusive acquisitions of either guard
				sections := func(s *lstate, excl bool) map[string]bool {
					out := map[string]bool{}
					for _, h := range s.held {
						if (h.class == lockT || h.class == lockR) && (h.excl || !excl) {
							out[h.key+"@"+x.g.where(h.at)] = true
						}
					}
					return out
				}
				y := walkMarks(l, x.g, func(y *lockRun, n *Node, s *lstate) *lstate {
					// owed changes whose section has ended
					held := sections(s, true)
					owed, alive := false, false
					for _, m := range s.marks {
						if strings.HasPrefix(m, "owe:") {
							owed = true
						}
						if strings.HasPrefix(m, "sec:") && held[m[4:]] {
							alive = true
						}
					}
					if owed && !alive {
						for _, m := range s.marks {
							if strings.HasPrefix(m, "owe:") {
								torn[m[4:]] = true
							}
						}
						s = s.unmark(func(m string) bool { return strings.HasPrefix(m, "owe:") || strings.HasPrefix(m, "sec:") })
					} else if owed {
						s = s.unmark(func(m string) bool { return strings.HasPrefix(m, "sec:") && !held[m[4:]] })
					}
					// what was looked up is known while the table's lock is held
					holdT := false
					for _, h := range s.held {
						holdT = holdT || h.class == lockT
					}
					if !holdT {
						s = s.unmark(func(m string) bool { return strings.HasPrefix(m, "look:") })
					} else if lk, ok := n.instr.(*ssa.Lookup); ok && reads[n] == table {
						s = s.mark("look:" + x.g.key(Val{n.ctx, lk.Index}).s)
					}
					for _, cls := range []string{table, ring} {
						op := ops[n][cls]
						if op == "" {
							continue
						}
						other := ring
						if cls == ring {
							other = table
						}
						mine, theirs := "owe:"+cls+" "+op, "owe:"+other+" "+op
						if s.marked(mine) {
							s = s.unmark(func(m string) bool { return m == mine })
							continue
						}
						if s.marked("did:" + other + " " + op) {
							continue
						}
						if strings.HasPrefix(op, "insert:") && cls == table {
							mu, _ := n.instr.(*ssa.MapUpdate)
							if mu != nil && s.marked("look:"+x.g.key(Val{n.ctx, mu.Key}).s) && x.g.has(n, mkFact("inmap", x.g.key(Val{n.ctx, mu.Map}), x.g.key(Val{n.ctx, mu.Key}))) {
								continue // replaces what is there
							}
						}
						s = s.mark(theirs)
						for k := range held {
							s = s.mark("sec:" + k)
						}
						if len(held) == 0 {
							torn[theirs[4:]] = true
						}
					}
					// reading
					all := sections(s, false)
					switch reads[n] {
					case ring:
						s = s.unmark(func(m string) bool { return strings.HasPrefix(m, "ring:") })
						for k := range all {
							s = s.mark("ring:" + k)
						}
						s = s.mark("ring:read")
					case table:
						if s.marked("ring:read") {
							ok := false
							for _, m := range s.marks {
								if strings.HasPrefix(m, "ring:") && all[m[5:]] {
									ok = true
								}
							}
							if !ok && restsOnRing(x, n, reads, ring) {
								apart = x.g.where(n)
							}
						}
					}
					return s
				})
				if y.capped {
					r.ob("bounded", con, false, u.Pos(x.entry.Pos()), "too many states")
				}
				for _, rn := range x.g.root.rets {
					for _, s := range y.states(rn) {
						for _, m := range s.marks {
							if strings.HasPrefix(m, "owe:") {
								torn[m[4:]] = true
							}
						}
					}
				}
				if len(ops) > 0 {
					var ts []string
					for k := range torn {
						ts = append(ts, k[strings.LastIndex(k[:strings.Index(k, " ")], ".")+1:])
					}
					sort.Strings(ts)
					r.count("functions changing the table or the ring", 1)
					r.ob("together", con, len(torn) == 0, u.Pos(x.entry.Pos()), "the counterpart is missing on a path, or happens after the locks were given up: "+strings.Join(ts, "; "))
				}
				nr, nt := 0, 0
				for _, k := range reads {
					if k == ring {
						nr++
					} else {
						nt++
					}
				}
				if nr > 0 && nt > 0 {
					r.ob("read-together", con, apart == "", u.Pos(x.entry.Pos()), "looks up at "+apart+" what the ring returned before, after its lock was given up")
				}
			}
		}
		r.floor("guarded", 4)
		r.floor("together", 2)
		r.floor("read-together", 1)
	})
}

// restsOnRing: the key looked up comes from what the ring returned.
func restsOnRing(x *lockRun, n *Node, reads map[*Node]string, ring string) bool {
	s := &slicer{r: x, seen: map[Val]bool{}}
	for _, op := range n.instr.Operands(nil) {
		if op != nil && *op != nil {
			s.value(Val{n.ctx, *op})
		}
	}
	for rn, k := range reads {
		if v, ok := rn.instr.(ssa.Value); ok && k == ring && s.seen[Val{rn.ctx, v}] {
			return true
		}
	}
	return false
}
