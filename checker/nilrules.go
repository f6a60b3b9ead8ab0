package main

// Which pointers may be nil where they are used.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nilWorld: what is known about the fields of a universe.
type nilWorld struct {
	u      *Universe
	fields map[string]string // type.field -> why it may be nil ("" not)
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func newNilWorld(u *Universe) *nilWorld {
	w := &nilWorld{u: u, fields: map[string]string{}}
	set := func(t types.Type, i int, why string) {
		k := typeFull(t) + "." + fieldName(t, i)
		if w.fields[k] == "" {
			w.fields[k] = why
		}
	}
	repoStruct := func(t types.Type) *types.Struct {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix) {
			return nil
		}
		s, _ := n.Underlying().(*types.Struct)
		return s
	}
	for _, f := range u.Funcs {
		if f.Pkg == nil || !isRepoFunc(f) {
			continue
		}
		if f.Name() == "UnmarshalJSON" && f.Signature.Recv() != nil && f.Blocks != nil {
			decodedOnlyAtTimes(u, f, set)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Alloc:
					t := x.Type().Underlying().(*types.Pointer).Elem()
					st := repoStruct(t)
					if st == nil {
						continue
					}
					whole := false
					stored := map[int]bool{}
					fieldsOf(x, stored, 0)
					for _, rf := range *x.Referrers() {
						if y, ok := rf.(*ssa.Store); ok && y.Addr == ssa.Value(x) {
							whole = true // a copy of another value of the type
						}
					}
					if whole {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						if pointerLike(st.Field(i).Type()) && !stored[i] {
							set(t, i, "not set where the value is made, "+u.Pos(x.Pos()))
						}
					}
				case *ssa.Call:
					// what a message may leave out is left as it was made
					if u.CalleeName(x) == "encoding/json.Unmarshal" && len(x.Call.Args) == 2 {
						if mi, ok := x.Call.Args[1].(*ssa.MakeInterface); ok {
							if al, ok := mi.X.(*ssa.Alloc); ok {
								t := al.Type().Underlying().(*types.Pointer).Elem()
								if w.presenceChecked(f, al) {
									continue
								}
								leftOut(t, repoStruct, func(o types.Type, i int) {
									set(o, i, "may be missing from the message decoded at "+u.Pos(x.Pos()))
								}, 0)
							}
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isNilConst(x.Val) && pointerLike(x.Val.Type()) {
						p := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if repoStruct(p) != nil {
							set(p, fa.Field, "set to nil, "+u.Pos(x.Pos()))
						}
					}
				}
			}
		}
	}
	return w
}

// decodedOnlyAtTimes: the pointer fields a decoder can leave unset and still succeed.
func decodedOnlyAtTimes(u *Universe, f *ssa.Function, set func(types.Type, int, string)) {
	pt, ok := f.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	st, _ := pt.Elem().Underlying().(*types.Struct)
	if st == nil {
		return
	}
	any := false
	for i := 0; i < st.NumFields(); i++ {
		any = any || pointerLike(st.Field(i).Type())
	}
	if !any {
		return
	}
	g := NewG(u, f, &Config{Opaque: crashOpaque, NodeGen: func(g *G, n *Node) []Fact {
		s, ok := n.instr.(*ssa.Store)
		if !ok || n.after {
			return nil
		}
		a := g.resolve(Val{n.ctx, s.Addr})
		recv := Val{g.root, f.Params[0]}
		if a == recv {
			var out []Fact
			for i := 0; i < st.NumFields(); i++ {
				out = append(out, Fact{pred: "set", args: []string{st.Field(i).Name()}})
			}
			return out
		}
		if fa, ok := a.v.(*ssa.FieldAddr); ok && g.resolve(Val{a.ctx, fa.X}) == recv {
			return []Fact{{pred: "set", args: []string{fieldName(fa.X.Type(), fa.Field)}}}
		}
		return nil
	}})
	g.Solve()
	for _, es := range g.successExits() {
		for i := 0; i < st.NumFields(); i++ {
			if pointerLike(st.Field(i).Type()) && !g.hasIn(es, Fact{pred: "set", args: []string{st.Field(i).Name()}}) {
				set(pt.Elem(), i, "may be left unset by "+FuncName(f)+", "+u.Pos(f.Pos()))
			}
		}
	}
}

// presenceChecked: the function succeeds only when a pointer of every struct held by value was found to be set,
// which is so only if that part was there and its own decoder succeeded.
func (w *nilWorld) presenceChecked(f *ssa.Function, al *ssa.Alloc) bool {
	st, _ := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if st == nil {
		return true
	}
	var g *G
	for i := 0; i < st.NumFields(); i++ {
		in, _ := st.Field(i).Type().Underlying().(*types.Struct)
		if in == nil || !hasUnmarshal(st.Field(i).Type()) {
			continue
		}
		var ptrs []string
		for j := 0; j < in.NumFields(); j++ {
			if pointerLike(in.Field(j).Type()) {
				ptrs = append(ptrs, in.Field(j).Name())
			}
		}
		if len(ptrs) == 0 {
			continue
		}
		if g == nil {
			g = NewG(w.u, f, &Config{Opaque: crashOpaque, ValueFacts: true})
			g.Solve()
		}
		base := g.objkey(Val{g.root, al}).s + "." + st.Field(i).Name() + "."
		exits := g.successExits()
		for _, st := range exits {
			one := false
			for _, p := range ptrs {
				one = one || g.hasIn(st, mkFact("nonnil", Key{s: base + p}))
			}
			if !one {
				return false
			}
		}
	}
	return g != nil
}

func hasUnmarshal(t types.Type) bool {
	return types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "UnmarshalJSON") != nil
}

// leftOut: the pointer fields of the structs held by value in a struct that is decoded as a whole.
func leftOut(t types.Type, repoStruct func(types.Type) *types.Struct, set func(types.Type, int), d int) {
	st, _ := t.Underlying().(*types.Struct)
	if st == nil || d > 5 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		in := repoStruct(ft)
		if in == nil {
			continue
		}
		for j := 0; j < in.NumFields(); j++ {
			if pointerLike(in.Field(j).Type()) {
				set(ft, j)
			}
		}
		leftOut(ft, repoStruct, set, d+1)
	}
}

// fieldsOf: the fields stored in a local, or in a local it is copied to.
func fieldsOf(x *ssa.Alloc, stored map[int]bool, d int) {
	for _, rf := range *x.Referrers() {
		switch y := rf.(type) {
		case *ssa.FieldAddr:
			for _, w := range *y.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
					stored[y.Field] = true
				}
			}
		case *ssa.UnOp:
			for _, w := range *y.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Val == ssa.Value(y) && d < 3 {
					if b, ok := s.Addr.(*ssa.Alloc); ok {
						fieldsOf(b, stored, d+1)
					}
				}
			}
		}
	}
}

// mayNil: how the value can be nil ("" if it cannot, or nothing says so).
func (w *nilWorld) mayNil(g *G, st *FSet, v Val, seen map[Val]bool) string {
	if st == nil || st.top {
		return ""
	}
	for k := 0; k < 100; k++ {
		if g.hasIn(st, mkFact("nonnil", g.objkey(v))) || g.hasIn(st, mkFact("nonnil", Key{s: "val:" + g.token(v)})) {
			return ""
		}
		if ins, ok := v.v.(ssa.Instruction); ok {
			// what held when the value was loaded holds for the value
			switch x := v.v.(type) {
			case *ssa.UnOp, *ssa.Lookup:
				if ld := v.ctx.nodes[ins]; ld != nil && ld.in != nil && !ld.in.top && g.hasIn(ld.in, mkFact("nonnil", g.objkey(v))) {
					return ""
				}
			case *ssa.Extract:
				if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
					if ld := v.ctx.nodes[lk]; ld != nil && ld.in != nil && !ld.in.top && g.hasIn(ld.in, mkFact("nonnil", g.objkey(v))) {
						return ""
					}
				}
			}
		}
		n, ok := g.step(v)
		if !ok {
			break
		}
		v = n
	}
	if seen[v] {
		return ""
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if g.hasIn(st, mkFact("nonnil", g.objkey(v))) {
				return ""
			}
			es := g.edgeState(v.ctx, x.Block().Preds[i], x.Block())
			if es.top || g.contradicts(es, st) {
				continue
			}
			// what is known about the other values merged here
			dead := false
			for _, ins := range x.Block().Instrs {
				q, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if q == x {
					continue
				}
				qv := Val{v.ctx, q}
				pol := NotNil
				if g.hasIn(st, mkFact("true", Key{s: "val:" + g.token(qv)})) {
					pol = True
				} else if g.hasIn(st, mkFact("false", Key{s: "val:" + g.token(qv)})) {
					pol = False
				} else if g.hasIn(st, mkFact("isnil", g.objkey(qv))) {
					pol = IsNil
				} else if !g.hasIn(st, mkFact("nonnil", g.objkey(qv))) {
					continue
				}
				old := g.at
				g.at = place{v.ctx, x.Block().Preds[i], x.Block()}
				im := g.imp(Val{v.ctx, q.Edges[i]}, pol)
				g.at = old
				if im.top || g.contradicts(es, im) {
					dead = true
					break
				}
				es = es.union(im)
			}
			if dead {
				continue
			}
			if y := w.mayNil(g, es, Val{v.ctx, e}, seen); y != "" {
				return y
			}
		}
	case *ssa.Call, *ssa.Extract:
		if ex, ok := x.(*ssa.Extract); ok {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok && ex.Index == 0 {
				if g.hasIn(st, mkFact("inmap", g.key(Val{v.ctx, lk.X}), g.key(Val{v.ctx, lk.Index}))) {
					return ""
				}
				if ld := v.ctx.nodes[lk]; ld != nil && g.hasIn(ld.in, mkFact("inmap", g.key(Val{v.ctx, lk.X}), g.key(Val{v.ctx, lk.Index}))) {
					return ""
				}
				// v, ok := m[k]; ok seen true
				for _, ex := range extracts(lk) {
					if ex.Index == 1 && g.hasIn(st, mkFact("true", Key{s: "val:" + g.token(Val{v.ctx, ex})})) {
						return ""
					}
				}
				return "missing from the map"
			}
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ex.Index == 0 {
				if g.hasIn(st, mkFact("isa:"+shortT(ta.AssertedType), g.key(Val{v.ctx, ta.X}))) {
					return ""
				}
				return "of another type"
			}
		}
		c, idx := callOf(v)
		if c == nil {
			return ""
		}
		sig := c.Call.Signature()
		ei := errIndex(sig)
		errNil := false
		if ei >= 0 && ei != idx {
			for _, ex := range extracts(c) {
				if ex.Index == ei {
					errNil = g.hasIn(st, mkFact("isnil", g.objkey(Val{v.ctx, ex})))
				}
			}
			errNil = errNil || g.hasIn(st, mkFact("ret"+itoa(ei)+"=nil", Key{s: g.token(Val{v.ctx, c})}))
		}
		if ch := v.ctx.children[c]; ch != nil {
			for _, rn := range ch.rets {
				ret, ok := rn.instr.(*ssa.Return)
				if !ok || !g.reachable(rn) || idx >= len(ret.Results) {
					continue
				}
				rst := rn.in
				if errNil {
					old := g.at
					g.at = place{ch, ret.Block(), ret.Block()}
					im := g.imp(Val{ch, ret.Results[ei]}, IsNil)
					g.at = old
					if im.top || g.contradicts(rn.in, im) {
						continue
					}
					rst = rst.union(im)
				}
				if g.contradicts(rn.in, st) {
					continue
				}
				dead := false
				for bi, bv := range ret.Results {
					b, ok := bv.Type().Underlying().(*types.Basic)
					if !ok || b.Kind() != types.Bool {
						continue
					}
					for _, p := range []Pol{True, False} {
						if !g.hasIn(st, mkFact("ret"+itoa(bi)+map[Pol]string{True: "=true", False: "=false"}[p], Key{s: g.token(Val{v.ctx, c})})) {
							continue
						}
						old := g.at
						g.at = place{ch, ret.Block(), ret.Block()}
						im := g.imp(Val{ch, bv}, p)
						g.at = old
						if im.top || g.contradicts(rn.in, im) {
							dead = true
						} else {
							rst = rst.union(im)
						}
					}
				}
				if dead {
					continue
				}
				if y := w.mayNil(g, rst, Val{ch, ret.Results[idx]}, seen); y != "" {
					if y == "nil" {
						y = "nil from " + FuncName(ch.fn)
						if ei >= 0 && !errNil {
							y += ", whose error is not known to be nil"
						}
					}
					return y
				}
			}
			return ""
		}
		if rs := sig.Results(); rs.Len() > 1 && idx < rs.Len()-1 && rs.At(rs.Len()-1).Type() == types.Typ[types.Bool] {
			// v, ok := f(): ok seen true
			for _, ex := range extracts(c) {
				if ex.Index == rs.Len()-1 && (g.hasIn(st, mkFact("true", Key{s: "val:" + g.token(Val{v.ctx, ex})})) || g.hasIn(st, mkFact("ret"+itoa(ex.Index)+"=true", Key{s: g.token(Val{v.ctx, c})}))) {
					return ""
				}
			}
			return "not found by " + g.u.CalleeName(c)
		}
		if ei >= 0 && ei != idx && !errNil {
			return "the error of " + g.u.CalleeName(c) + " is not known to be nil"
		}
	case *ssa.Lookup:
		if g.hasIn(st, mkFact("inmap", g.key(Val{v.ctx, x.X}), g.key(Val{v.ctx, x.Index}))) {
			return ""
		}
		return "missing from the map"
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		a := g.resolve(Val{v.ctx, x.X})
		switch y := a.v.(type) {
		case *ssa.FieldAddr:
			if why := w.fields[typeFull(y.X.Type())+"."+fieldName(y.X.Type(), y.Field)]; why != "" {
				// made and filled here
				if base := g.resolve(Val{a.ctx, y.X}); base.v != nil {
					if al, ok := base.v.(*ssa.Alloc); ok {
						if vs := storedIn(g, base, al, y.Field); len(vs) > 0 {
							for _, s := range vs {
								if z := w.mayNil(g, s.n.in.union(st), s.v, seen); z != "" {
									return z
								}
							}
							return ""
						}
					}
				}
				if strings.HasSuffix(typeFull(y.X.Type()), "core.Core") {
					return "" // not initialised: another property
				}
				return "field " + fieldName(y.X.Type(), y.Field) + " " + why
			}
		case *ssa.Alloc:
			ss := allStores(y)
			for _, s := range ss {
				if n := a.ctx.nodes[s]; n != nil && n.in != nil && !n.in.top {
					if z := w.mayNil(g, n.in.union(st), Val{a.ctx, s.Val}, seen); z != "" {
						return z
					}
				}
			}
		}
	}
	return ""
}

// mayNilAt: mayNil, told apart by the way the place was reached.
func (w *nilWorld) mayNilAt(g *G, n *Node, v Val) string {
	why := w.mayNil(g, n.in, v, map[Val]bool{})
	if why == "" || n.in == nil || n.in.top {
		return why
	}
	if g.onEveryWay(n, func(st *FSet) bool { return w.mayNil(g, st, v, map[Val]bool{}) == "" }) {
		return ""
	}
	return why
}

// onEveryWay: the condition holds of what is known at the node, or of what is known there on each way that leads to it.
func (g *G) onEveryWay(n *Node, ok func(st *FSet) bool) bool {
	if n.in == nil || n.in.top || ok(n.in) {
		return true
	}
	var split func(c *Ctx, b *ssa.BasicBlock, st *FSet, d int) bool
	split = func(c *Ctx, b *ssa.BasicBlock, st *FSet, d int) bool {
		for len(b.Preds) == 0 && c.parent != nil && c.site != nil && c.site.Block() != nil {
			b, c = c.site.Block(), c.parent
		}
		if len(b.Preds) == 0 || d == 0 {
			return false
		}
		for _, p := range b.Preds {
			if b.Dominates(p) {
				return false // a loop
			}
			es := g.edgeState(c, p, b)
			if es.top || g.contradicts(es, st) {
				continue
			}
			es = es.union(st)
			if ok(es) {
				continue
			}
			if !split(c, p, es, d-1) {
				return false
			}
		}
		return true
	}
	return n.instr.Block() != nil && split(n.ctx, n.instr.Block(), n.in, 4)
}

type storedVal struct {
	n *Node
	v Val
}

func storedIn(g *G, base Val, al *ssa.Alloc, field int) []storedVal {
	var out []storedVal
	for _, rf := range *al.Referrers() {
		fa, ok := rf.(*ssa.FieldAddr)
		if !ok || fa.Field != field {
			continue
		}
		for _, w := range *fa.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
				if n := base.ctx.nodes[s]; n != nil && g.reachable(n) {
					out = append(out, storedVal{n, Val{base.ctx, s.Val}})
				}
			}
		}
	}
	return out
}

// derefs: the pointers whose being nil would panic at this node.
func derefs(g *G, n *Node) []Val {
	if n.after {
		return nil
	}
	switch x := n.instr.(type) {
	case *ssa.FieldAddr:
		return []Val{{n.ctx, x.X}}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return []Val{{n.ctx, x.X}}
		}
	case *ssa.Store:
		return []Val{{n.ctx, x.Addr}}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return []Val{{n.ctx, x.X}}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() {
			return []Val{{n.ctx, cc.Value}}
		}
		if _, ok := n.instr.(*ssa.Defer); ok {
			return nil
		}
		var out []Val
		if n.ctx.children[n.instr] != nil {
			return nil
		}
		name := g.u.CalleeName(x)
		if strings.HasPrefix(name, "builtin.") || strings.HasPrefix(name, "common/pkg/logging.") {
			return nil
		}
		if f := cc.StaticCallee(); f != nil && !isRepoFunc(f) && f.Signature.Recv() == nil {
			return nil // functions of other packages: only receivers
		}
		for i, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Pointer); !ok {
				continue
			}
			if f := cc.StaticCallee(); f != nil && !isRepoFunc(f) && i > 0 {
				continue
			}
			out = append(out, Val{n.ctx, a})
		}
		if cc.StaticCallee() == nil {
			if _, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
				out = append(out, Val{n.ctx, cc.Value})
			}
		}
		return out
	}
	return nil
}
