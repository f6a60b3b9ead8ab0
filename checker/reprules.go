package main

// P21: reputations stay within the fixed bounds, are not reset, and belong to the client they are computed from.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repPkg = "gateway/internal/reputation"

// interval: what is known about an integer; nil: unbounded on that side.
type interval struct{ lo, hi *int64 }

func (i interval) within(lo, hi int64) bool {
	return i.lo != nil && i.hi != nil && *i.lo >= lo && *i.hi <= hi
}

func (i interval) meet(o interval) interval {
	if o.lo != nil && (i.lo == nil || *o.lo > *i.lo) {
		i.lo = o.lo
	}
	if o.hi != nil && (i.hi == nil || *o.hi < *i.hi) {
		i.hi = o.hi
	}
	return i
}

func constKey(s string) (int64, bool) {
	if !strings.HasPrefix(s, "const:") {
		return 0, false
	}
	n, err := strconv.ParseInt(s[len("const:"):], 10, 64)
	return n, err == nil
}

// factBounds: what the comparisons known say about a value.
func (g *G) factBounds(st *FSet, v Val) interval {
	var out interval
	if c, ok := v.v.(*ssa.Const); ok && c.Value != nil {
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return interval{&n, &n}
		}
	}
	k := g.key(v).s
	for i := range st.m {
		f := &g.facts[i]
		if len(f.args) != 2 {
			continue
		}
		var a interval
		d := int64(0)
		switch f.pred {
		case "<":
			d = 1
			fallthrough
		case "<=":
			if n, ok := constKey(f.args[1]); ok && f.args[0] == k {
				n -= d
				a.hi = &n
			}
			if n, ok := constKey(f.args[0]); ok && f.args[1] == k {
				n += d
				a.lo = &n
			}
		case "==":
			if n, ok := constKey(f.args[1]); ok && f.args[0] == k {
				a = interval{&n, &n}
			} else if n, ok := constKey(f.args[0]); ok && f.args[1] == k {
				a = interval{&n, &n}
			}
		}
		out = out.meet(a)
	}
	return out
}

// bounded: every way to get the value leaves it within the bounds; otherwise a description of one that need not.
func (g *G) bounded(st *FSet, v Val, have interval, lo, hi int64, seen map[Val]bool) (bad Val, ok bool) {
	if st.top {
		return Val{}, true
	}
	// follow one step at a time: a fact may be about any of the names on the way
	for k := 0; k < 100; k++ {
		have = have.meet(g.factBounds(st, v))
		n, more := g.step(v)
		if !more {
			break
		}
		v = n
	}
	if have.within(lo, hi) || seen[v] {
		return Val{}, true
	}
	switch x := v.v.(type) {
	case *ssa.Phi:
		seen[v] = true
		for i, e := range x.Edges {
			es := g.edgeState(v.ctx, x.Block().Preds[i], x.Block())
			if b, ok := g.bounded(es, Val{v.ctx, e}, have, lo, hi, seen); !ok {
				return b, false
			}
		}
		return Val{}, true
	case *ssa.Call, *ssa.Extract:
		c, idx := callOf(v)
		if c == nil {
			break
		}
		if ch := v.ctx.children[c]; ch != nil {
			for _, rn := range ch.rets {
				if ret, ok := rn.instr.(*ssa.Return); ok && g.reachable(rn) && idx < len(ret.Results) {
					if b, ok := g.bounded(rn.in, Val{ch, ret.Results[idx]}, have, lo, hi, seen); !ok {
						return b, false
					}
				}
			}
			return Val{}, true
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
			// min is below each of its arguments; above the least lower bound of them
			out := have
			for _, a := range c.Call.Args {
				ai := g.factBounds(st, g.resolve(Val{v.ctx, a}))
				if b.Name() == "min" {
					out = out.meet(interval{hi: ai.hi})
				} else {
					out = out.meet(interval{lo: ai.lo})
				}
			}
			if out.within(lo, hi) {
				return Val{}, true
			}
			for _, a := range c.Call.Args {
				if w, ok := g.bounded(st, Val{v.ctx, a}, out, lo, hi, seen); !ok {
					return w, false
				}
			}
			return Val{}, true
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		a := g.resolve(Val{v.ctx, x.X})
		if al, ok := a.v.(*ssa.Alloc); ok {
			// what was stored last in the block, or any store
			ss := allStores(al)
			for _, s := range ss {
				if n := a.ctx.nodes[s]; n != nil && n.in != nil {
					if b, ok := g.bounded(n.in, Val{a.ctx, s.Val}, have, lo, hi, seen); !ok {
						return b, false
					}
				}
			}
			if len(ss) > 0 {
				return Val{}, true
			}
		}
	}
	return v, false
}

func init() {
	register("P21", guardTech+" Every write to a table of reputations, in each operation of the reputation store with its helpers expanded, is checked by interval facts on all ways the written value can be computed, and its slice for the client it was computed from.", []string{"gateway"}, func(r *Run) {
		guardProperty(r, []string{"gateway"})
		u := r.U("gateway")
		r.rule("bounded", "every value written as a reputation lies between the minimum and the maximum, on every way it can be computed")
		r.rule("not-reset", "a fixed reputation is written only for a client that has none")
		r.rule("own-history", "the reputation written for a client is computed from the same client's reputation only")
		lo, hi := int64(-10000), int64(10000)
		p := u.Prog.ImportedPackage(repoPrefix + repPkg)
		if p == nil {
			r.ob("anchor", "reputation store", false, "-", "package "+repPkg+" not found")
			return
		}
		for name, m := range p.Members {
			c, ok := m.(*ssa.NamedConst)
			if !ok {
				continue
			}
			n, isInt := constant.Int64Val(constant.ToInt(c.Value.Value))
			ln := strings.ToLower(name)
			if !isInt || !strings.Contains(ln, "reput") {
				continue
			}
			if strings.Contains(ln, "max") {
				hi = n
			}
			if strings.Contains(ln, "min") {
				lo = n
			}
		}
		if lo >= hi {
			r.ob("anchor", "bounds", false, "-", "the minimum is not below the maximum")
		}
		seenSite := map[ssa.Instruction]bool{}
		for _, f := range u.Funcs {
			if f.Pkg != p || f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			g := NewG(u, f, &Config{Opaque: func(name string, k *ssa.Function) bool { return !strings.HasPrefix(name, repPkg) }, NodeKill: staleMapFacts})
			g.Solve()
			r.count("graph nodes", len(g.nodes))
			for _, n := range g.nodes {
				mu, ok := n.instr.(*ssa.MapUpdate)
				if !ok || n.after || !g.reachable(n) || !isRepTable(mu.Map.Type()) {
					continue
				}
				seenSite[mu] = true
				con := FuncName(f)
				v := Val{n.ctx, mu.Value}
				bad, good := g.bounded(n.in, v, interval{}, lo, hi, map[Val]bool{})
				msg := ""
				if !good {
					msg = "a reputation is written that need not lie between " + strconv.FormatInt(lo, 10) + " and " + strconv.FormatInt(hi, 10) + " (" + g.key(bad).s + ")"
				}
				r.ob("bounded", con, good, g.where(n), msg)
				fixed, foreign := true, ""
				mk, kk := g.key(Val{n.ctx, mu.Map}), g.key(Val{n.ctx, mu.Key})
				g.ways(n.in, v, func(st *FSet, w Val, leaf bool) bool {
					if leaf {
						if _, ok := w.v.(*ssa.Const); !ok {
							fixed = false
						}
					}
					return false
				})
				if fixed {
					r.ob("not-reset", con, g.has(n, mkFact("notinmap", mk, kk)), g.where(n), "writes a fixed reputation over whatever the client has")
				}
				bs := newBackSlice(g)
				bs.add(v)
				for w := range bs.seen {
					if lk, ok := w.v.(*ssa.Lookup); ok && isRepTable(lk.X.Type()) {
						if g.key(Val{w.ctx, lk.X}).s != mk.s || g.key(Val{w.ctx, lk.Index}).s != kk.s {
							foreign = u.Pos(lk.Pos())
						}
					}
				}
				own := false
				for _, q := range f.Params {
					own = own || strings.Contains(kk.s, g.key(Val{g.root, q}).s) && g.key(Val{g.root, q}).s != ""
				}
				msg = "the reputation of another client is used, at " + foreign
				if !own {
					foreign, msg = "-", "the entry written is not that of the client named by the caller"
				}
				r.ob("own-history", con, foreign == "", g.where(n), msg)
			}
		}
		// nothing else writes the tables
		for _, f := range u.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if mu, ok := ins.(*ssa.MapUpdate); ok && isRepTable(mu.Map.Type()) && f.Pkg == p && !seenSite[mu] && !strings.Contains(FuncName(f), "newInstance") {
						if callsFrom(u, f) {
							r.ob("bounded", FuncName(f), false, u.Pos(mu.Pos()), "a write to a table of reputations that no operation of the store reaches")
						}
					}
				}
			}
		}
		r.count("writes", len(seenSite))
		r.floor("bounded", 2)
		r.floor("not-reset", 1)
		r.floor("guarded", 1)
	})
}

// staleMapFacts: what was found in a map is not known any more once a lock is acquired anew.
func staleMapFacts(g *G, n *Node, f *Fact) bool {
	c, ok := n.instr.(*ssa.Call)
	if !ok {
		return false
	}
	if op, ok := lockOp(g.u.CalleeName(c)); !ok || op != "Lock" && op != "RLock" {
		return false
	}
	if f.pred == "inmap" || f.pred == "notinmap" {
		return true
	}
	for _, a := range f.args {
		if strings.Contains(a, "[") {
			return true
		}
	}
	return false
}

func isRepTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// callsFrom: something calls the function.
func callsFrom(u *Universe, f *ssa.Function) bool {
	for _, k := range u.Funcs {
		for _, b := range k.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && u.Callee(c) == f {
					return true
				}
			}
		}
	}
	return false
}
