package main

// A decision taken on shared state and the change it justifies belong to one critical section.

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// slicer collects the values a decision rests on, across inlined calls, by data and by control.
type slicer struct {
	r    *lockRun
	seen map[Val]bool
	ctl  map[*Node]bool
}

func (s *slicer) value(v Val) {
	if v.v == nil || s.seen[v] || len(s.seen) > 20000 {
		return
	}
	s.seen[v] = true
	g := s.r.g
	if o := g.resolve(v); o != v {
		s.value(o)
	}
	switch x := v.v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return
	case *ssa.Parameter, *ssa.FreeVar:
		return
	case *ssa.Alloc:
		for _, st := range allStores(x) {
			s.value(Val{v.ctx, st.Val})
		}
		return
	case *ssa.Phi:
		for i, e := range x.Edges {
			s.value(Val{v.ctx, e})
			pb := x.Block().Preds[i]
			// which edge is taken is decided by what controls its source
			s.block(v.ctx, pb)
			if ifi, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok {
				s.value(Val{v.ctx, ifi.Cond})
			}
		}
		return
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if ch := v.ctx.children[call]; ch != nil {
				s.rets(ch, x.Index)
				return
			}
		}
	case *ssa.Call:
		if ch := v.ctx.children[x]; ch != nil {
			s.rets(ch, 0)
			return
		}
	}
	if ins, ok := v.v.(ssa.Instruction); ok {
		for _, op := range ins.Operands(nil) {
			if op != nil && *op != nil {
				s.value(Val{v.ctx, *op})
			}
		}
	}
}

func (s *slicer) rets(ch *Ctx, i int) {
	for _, rn := range ch.rets {
		ret, ok := rn.instr.(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		s.value(Val{ch, ret.Results[i]})
		if len(ch.rets) > 1 {
			s.block(ch, ret.Block())
		}
	}
}

// block: the conditions that decide whether a block of this context runs.
func (s *slicer) block(c *Ctx, b *ssa.BasicBlock) {
	for _, d := range controllers(b) {
		ifi := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		s.value(Val{c, ifi.Cond})
	}
}

// node: everything that decides whether a node runs, and with what.
func (s *slicer) node(n *Node) {
	c, b := n.ctx, n.instr.Block()
	for {
		s.block(c, b)
		if c.parent == nil || c.site == nil {
			return
		}
		b = c.site.Block()
		c = c.parent
	}
}

var ctlCache = map[*ssa.BasicBlock][]*ssa.BasicBlock{}

// controllers: the blocks ending in a branch one side of which cannot reach b (without passing the branch again).
func controllers(b *ssa.BasicBlock) []*ssa.BasicBlock {
	if x, ok := ctlCache[b]; ok {
		return x
	}
	var out []*ssa.BasicBlock
	for _, d := range b.Parent().Blocks {
		if len(d.Succs) != 2 || len(d.Instrs) == 0 {
			continue
		}
		if _, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		r0, r1 := reachesAvoiding(d.Succs[0], b, d), reachesAvoiding(d.Succs[1], b, d)
		if r0 != r1 {
			out = append(out, d)
		}
	}
	ctlCache[b] = out
	return out
}

func reachesAvoiding(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	st := []*ssa.BasicBlock{from}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == to {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// heldAt: the places where the guard of this instance was acquired, over all states at an access.
func (a *gAccess) heldAt(lock string) map[*Node]bool {
	out := map[*Node]bool{}
	for _, s := range a.states {
		for _, h := range s.held {
			if h.class == lock && sameOwner(a.base, h) {
				out[h.at] = true
			}
		}
	}
	return out
}

// atomicRule: an update that rests on an earlier look at the same state happens in the critical section of that look.
func atomicRule(r *Run, rule string, ws []*lockWorld, gs map[string]*guardInfo, sel func(cls string) bool) {
	var names []string
	for k := range gs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		g := gs[k]
		if !sel(k) || g.lock == "" {
			continue
		}
		// entries that update it
		upd := map[*ssa.Function]*lockRun{}
		for _, a := range g.accs {
			if a.write && a.update && (a.deep || !g.deepW) {
				upd[a.x.entry] = a.x
			}
		}
		if len(upd) == 0 {
			continue
		}
		if len(upd) == 1 {
			single := false
			for f, x := range upd {
				if x.l.started[f] == 1 && !startedInLoop(x.l, f) && !(f.Object() != nil && f.Object().Exported()) {
					single = true
				}
			}
			if single {
				continue
			}
		}
		for _, w := range g.accs {
			if !w.write || !w.update || !w.deep && g.deepW {
				continue // a container replaced as a whole keeps nothing of what others added anyway
			}
			s := &slicer{r: w.x, seen: map[Val]bool{}}
			s.node(w.n)
			if w.n.instr != nil {
				for _, op := range w.n.instr.Operands(nil) {
					if op != nil && *op != nil {
						s.value(Val{w.n.ctx, *op})
					}
				}
			}
			here := w.heldAt(g.lock)
			if len(here) == 0 {
				continue // reported as unguarded
			}
			msg := ""
			for at := range here {
				var stale *gAccess
				again := false
				for _, rd := range g.accs {
					if rd.write || rd.x != w.x || rd.val == nil || rd.base != w.base || !s.seen[Val{rd.n.ctx, rd.val}] || !rd.rel {
						continue
					}
					if u, ok := rd.val.(*ssa.UnOp); ok && u.Op == token.MUL && !rd.deep && refType(u.Type()) {
						continue // only the reference to the container
					}
					if presenceStable(g, rd, w, s) {
						continue
					}
					if rd.heldAt(g.lock)[at] {
						again = true
					} else {
						stale = rd
					}
				}
				if stale != nil && !again {
					msg = "changes " + k + " because of what was read at " + w.x.g.u.Pos(nodePos(stale.n)) + " in an earlier critical section; another goroutine may have changed it in between"
				}
			}
			r.count("updates checked for a stale decision", 1)
			r.ob(rule, FuncName(w.n.ctx.fn)+" "+k, msg == "", w.x.g.where(w.n), msg)
		}
	}
}

// presenceStable: all that was read is that an entry exists, and entries are never removed.
func presenceStable(g *guardInfo, rd, w *gAccess, s *slicer) bool {
	lk, ok := rd.val.(*ssa.Lookup)
	if !ok || !lk.CommaOk || lk.Referrers() == nil {
		return false
	}
	for _, u := range *lk.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 0 && s.seen[Val{rd.n.ctx, e}] {
			return false
		}
	}
	for _, a := range g.accs {
		if a.write && !a.update || a.write && !a.deep {
			return false
		}
	}
	x := rd.x.g
	mk, kk := x.key(Val{rd.n.ctx, lk.X}), x.key(Val{rd.n.ctx, lk.Index})
	return x.has(w.n, mkFact("inmap", mk, kk))
}

func startedInLoop(l *lockWorld, f *ssa.Function) bool {
	for _, g := range l.u.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				gi, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				k := l.u.Callee(gi)
				if k == nil {
					if mc, ok := gi.Call.Value.(*ssa.MakeClosure); ok {
						k, _ = mc.Fn.(*ssa.Function)
					}
				}
				if k != f {
					continue
				}
				for _, s := range b.Succs {
					if reachesAvoiding(s, b, nil) {
						return true
					}
				}
			}
		}
	}
	return false
}
