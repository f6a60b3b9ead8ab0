package main

// Path-sensitive marks: the lock walk with a rule's own state, following which errors and pointers are nil on a path.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// walkMarks runs over the graph with a hook that returns the state after a node (nil: the path is not followed).
func walkMarks(l *lockWorld, g *G, hook func(r *lockRun, n *Node, s *lstate) *lstate) *lockRun {
	return walkWith(l, g, hook, nil, nil)
}

func walkWith(l *lockWorld, g *G, hook func(r *lockRun, n *Node, s *lstate) *lstate, fork func(r *lockRun, n *Node, s *lstate) []*lstate, edge func(r *lockRun, e *Edge, s *lstate) *lstate) *lockRun {
	r := &lockRun{l: l, g: g, entry: g.entry, st: map[int]map[string]*lstate{}, acq: map[string]*Node{}, order: map[[2]string]*Node{}, multi: map[ssa.Value]bool{}, live: map[[2]any]bool{}, extra: map[*Node]*Ctx{}}
	r.hook = func(n *Node, s *lstate) *lstate { return hook(r, n, s) }
	if fork != nil {
		r.fork = func(n *Node, s *lstate) []*lstate { return fork(r, n, s) }
	}
	if edge != nil {
		r.edge = func(e *Edge, s *lstate) *lstate { return edge(r, e, s) }
	}
	r.run()
	return r
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// nilKey: the name under which the nilness of a value is followed: a local variable, or the value itself.
func (r *lockRun) nilKey(c *Ctx, v ssa.Value) Val {
	for k := 0; k < 20; k++ {
		if ci, ok := v.(*ssa.ChangeInterface); ok {
			v = ci.X
			continue
		}
		break
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		a := r.g.resolve(Val{c, u.X})
		if _, ok := a.v.(*ssa.Alloc); ok {
			return a
		}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return r.g.resolve(Val{c, p})
	}
	return Val{c, v}
}

// isNil: what is known about a value on this path.
func (r *lockRun) isNil(c *Ctx, v ssa.Value, s *lstate) (nilv, known bool) {
	k := r.nilKey(c, v)
	for _, x := range s.nils {
		if x.v == k {
			return x.pol, true
		}
	}
	switch x := k.v.(type) {
	case *ssa.Const:
		return x.IsNil(), x.IsNil()
	case *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr:
		return false, true
	case *ssa.Alloc:
		if k.v == v {
			return false, true
		}
	case *ssa.Call:
		if nonNilCall(r.g.u.CalleeName(x)) {
			return false, true
		}
	}
	return false, false
}

func (s *lstate) setNil(k Val, isNil, known bool) *lstate {
	for i, x := range s.nils {
		if x.v == k {
			if known && x.pol == isNil {
				return s
			}
			t := s.copy()
			t.nils = append(t.nils[:i:i], t.nils[i+1:]...)
			if known {
				t.nils = append(t.nils, condVal{k, isNil})
			}
			return t
		}
	}
	if !known {
		return s
	}
	t := s.copy()
	t.nils = append(t.nils, condVal{k, isNil})
	return t
}

// nilStep: assignments to local variables; a value computed again is not the one known before.
func (r *lockRun) nilStep(n *Node, s *lstate) *lstate {
	if st, ok := n.instr.(*ssa.Store); ok && nilable(st.Val.Type()) {
		a := r.g.resolve(Val{n.ctx, st.Addr})
		if _, ok := a.v.(*ssa.Alloc); ok {
			b, known := r.isNil(n.ctx, st.Val, s)
			s = s.setNil(a, b, known)
		}
		return s
	}
	if _, ok := n.instr.(*ssa.Phi); ok {
		return s
	}
	if ex, ok := n.instr.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok && n.ctx.children[call] != nil {
			return s
		}
	}
	if v, ok := n.instr.(ssa.Value); ok && !n.after && len(s.nils) > 0 {
		s = s.setNil(Val{n.ctx, v}, false, false)
	}
	return s
}

// crossNil: tests of values against nil, values merged by a phi, and values returned.
func (r *lockRun) crossNil(e *Edge, s *lstate) *lstate {
	c := e.from.ctx
	if e.isBr {
		cv, pol := e.cond, e.pol
		for {
			if u, ok := cv.(*ssa.UnOp); ok && u.Op == token.NOT {
				cv, pol = u.X, !pol
				continue
			}
			break
		}
		if b, ok := cv.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			x, y := b.X, b.Y
			if isNilConst(x) {
				x, y = y, x
			}
			if isNilConst(y) && nilable(x.Type()) {
				isN := (b.Op == token.EQL) == pol
				if v, known := r.isNil(c, x, s); known {
					if v != isN {
						return nil
					}
				} else {
					s = s.setNil(r.nilKey(c, x), isN, true)
				}
			}
		}
	}
	if e.from.ctx == e.to.ctx {
		blk := e.to.instr.Block()
		if e.to == e.to.ctx.first[blk] && !e.to.after {
			type upd struct {
				k        Val
				nilv, ok bool
			}
			var us []upd
			for _, ins := range blk.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if !nilable(p.Type()) {
					continue
				}
				for i, pb := range blk.Preds {
					if pb == e.fromBlk {
						v, known := r.isNil(c, p.Edges[i], s)
						us = append(us, upd{Val{c, p}, v, known})
						break
					}
				}
			}
			for _, u := range us {
				s = s.setNil(u.k, u.nilv, u.ok)
			}
			s = r.forget(s, c, blk)
		}
		return s
	}
	if ret, ok := e.from.instr.(*ssa.Return); ok && e.to.after && c.site != nil {
		t := s
		if call, ok := c.site.(*ssa.Call); ok {
			for i, v := range ret.Results {
				if !nilable(v.Type()) {
					continue
				}
				b, known := r.isNil(c, v, s)
				if len(ret.Results) == 1 {
					t = t.setNil(Val{e.to.ctx, call}, b, known)
					continue
				}
				for _, ex := range extracts(call) {
					if ex.Index == i {
						t = t.setNil(Val{e.to.ctx, ex}, b, known)
					}
				}
			}
		}
		// what was local to the callee is over
		var keep []condVal
		for _, x := range t.nils {
			if x.v.ctx != c {
				keep = append(keep, x)
			}
		}
		if len(keep) != len(t.nils) {
			if t == s {
				t = t.copy()
			}
			t.nils = keep
		}
		return t
	}
	return s
}

// forget drops what nobody can ask about again from the start of the block.
func (r *lockRun) forget(s *lstate, c *Ctx, blk *ssa.BasicBlock) *lstate {
	var keep []condVal
	for _, x := range s.nils {
		if x.v.ctx != c || r.usedFrom(x.v.v, blk) {
			keep = append(keep, x)
		}
	}
	if len(keep) == len(s.nils) {
		return s
	}
	t := s.copy()
	t.nils = keep
	return t
}

func (r *lockRun) usedFrom(v ssa.Value, b *ssa.BasicBlock) bool {
	if _, ok := v.(*ssa.Alloc); ok {
		return true
	}
	k := [2]any{v, b.Index}
	if x, ok := r.live[k]; ok {
		return x
	}
	uses := map[*ssa.BasicBlock]bool{}
	if rf := v.Referrers(); rf != nil {
		for _, u := range *rf {
			if p, ok := u.(*ssa.Phi); ok {
				for i, e := range p.Edges {
					if e == v {
						uses[p.Block().Preds[i]] = true
					}
				}
				continue
			}
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			uses[u.Block()] = true
		}
	}
	res := false
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 && !res {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		res = res || uses[x]
		st = append(st, x.Succs...)
	}
	r.live[k] = res
	return res
}
