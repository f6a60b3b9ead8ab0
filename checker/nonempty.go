package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// neverEmpty: list fields that are stored non-empty by every function that can return successfully after storing them.
func neverEmpty(r *Run, u *Universe, field string) bool {
	all, n := true, 0
	for _, f := range u.Funcs {
		if f.Pkg == nil || !isRepoFunc(f) {
			continue
		}
		var stores []*ssa.Store
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeFull(fa.X.Type())+"."+fieldName(fa.X.Type(), fa.Field) == field {
						stores = append(stores, s)
					}
				}
			}
		}
		if len(stores) == 0 {
			continue
		}
		g := NewG(u, f, &Config{Opaque: crashOpaque, ValueFacts: true})
		g.Solve()
		for _, s := range stores {
			n++
			fa := s.Addr.(*ssa.FieldAddr)
			terms := []lterm{g.lenOf(Val{g.root, s.Val}), {"builtin.len(" + g.objkey(Val{g.root, fa}).s + ")", 0}}
			ok := true
			for rn, st := range g.successExits() {
				b := newBounds(g, st)
				// a tree was made of as many things: there are none without contents
				for _, m := range g.nodes {
					c, isCall := m.instr.(*ssa.Call)
					if !isCall || m.after || len(c.Call.Args) != 1 || g.u.CalleeName(c) != "github.com/cbergoon/merkletree.NewTree" {
						continue
					}
					if g.hasIn(st, mkFact("ret1=nil", Key{s: g.token(Val{m.ctx, c})})) || errKnownNil(g, st, Val{m.ctx, c}) {
						b.learn(Val{m.ctx, c.Call.Args[0]}, map[Val]bool{})
						b.le(lterm{"", 1}, g.lenOf(Val{m.ctx, c.Call.Args[0]}), 0)
					}
				}
				one := false
				for _, t := range terms {
					one = one || b.known(lterm{"", 1}, t, 0)
				}
				if !one {
					ok = false
					_ = rn
				}
			}
			r.ob("offer-not-empty", FuncName(f), ok, u.Pos(s.Pos()), "the function can return successfully with a list that may be empty, and its users take the first element")
			all = all && ok
		}
	}
	return all && n > 0
}

func errKnownNil(g *G, st *FSet, call Val) bool {
	c := call.v.(*ssa.Call)
	for _, ex := range extracts(c) {
		if ex.Index == 1 && g.hasIn(st, mkFact("isnil", g.objkey(Val{call.ctx, ex}))) {
			return true
		}
	}
	return false
}

var _ = token.NoPos
