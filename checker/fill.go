package main

// How the bytes of an identifier are filled.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// affine: an integer as a sum of terms with coefficients ("" is the constant).
func (g *G) affine(v Val, d int) map[string]int64 {
	v = g.resolve(v)
	out := map[string]int64{}
	addTo := func(m map[string]int64, k int64) {
		for t, c := range m {
			out[t] += c * k
			if out[t] == 0 {
				delete(out, t)
			}
		}
	}
	if d < 20 {
		switch x := v.v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				if x.Int64() != 0 {
					out[""] = x.Int64()
				}
				return out
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB:
				addTo(g.affine(Val{v.ctx, x.X}, d+1), 1)
				k := int64(1)
				if x.Op == token.SUB {
					k = -1
				}
				addTo(g.affine(Val{v.ctx, x.Y}, d+1), k)
				return out
			}
		case *ssa.Convert:
			if keepsInt(x) {
				return g.affine(Val{v.ctx, x.X}, d+1)
			}
		case *ssa.Call:
			if g.u.CalleeName(x) == "builtin.len" {
				l := g.lenOf(Val{v.ctx, x.Call.Args[0]})
				if l.k != "" {
					out[l.k] = 1
				}
				if l.c != 0 {
					out[""] = l.c
				}
				return out
			}
		}
	}
	l := g.linOf(v)
	if l.k != "" {
		out[l.k] = 1
	}
	if l.c != 0 {
		out[""] += l.c
	}
	return out
}

func (g *G) affineTerm(l lterm) map[string]int64 {
	out := map[string]int64{}
	if l.k != "" {
		out[l.k] = 1
	}
	if l.c != 0 {
		out[""] = l.c
	}
	return out
}

func plus(a, b map[string]int64, k int64) map[string]int64 {
	out := map[string]int64{}
	for t, c := range a {
		out[t] = c
	}
	for t, c := range b {
		out[t] += k * c
		if out[t] == 0 {
			delete(out, t)
		}
	}
	return out
}

func isConst(m map[string]int64, n int64) bool {
	if n == 0 {
		return len(m) == 0
	}
	return len(m) == 1 && m[""] == n
}

// identFill: the analysis of one function that builds identifiers of a type.
type identFill struct {
	g    *G
	typ  string
	bufs map[Val]bool // the fresh allocations that become an identifier
	set  map[*Node]bool
	fill map[*Node]string // node -> "" (fills it rightly) or what is wrong
}

func newIdentFill(u *Universe, f *ssa.Function, typ string) *identFill {
	pkg := typ[:strings.LastIndex(typ, ".")] + "."
	opaque := func(name string, k *ssa.Function) bool { return !strings.HasPrefix(name, pkg) }
	x := &identFill{typ: typ, bufs: map[Val]bool{}, set: map[*Node]bool{}, fill: map[*Node]string{}}
	x.g = NewG(u, f, &Config{Opaque: opaque, ValueFacts: true})
	x.g.Solve()
	for _, n := range x.g.nodes {
		if st, ok := n.instr.(*ssa.Store); ok && x.isIDField(Val{n.ctx, st.Addr}) && x.g.reachable(n) {
			x.set[n] = true
			for _, o := range x.g.origins(Val{n.ctx, st.Val}) {
				if b, ok := x.base(o); ok {
					x.bufs[b] = true
				}
			}
		}
	}
	if len(x.set) == 0 {
		return nil
	}
	for _, n := range x.g.nodes {
		if x.g.reachable(n) && !n.after {
			x.look(n)
		}
	}
	return x
}

func (x *identFill) isIDField(a Val) bool {
	fa, ok := x.g.resolve(a).v.(*ssa.FieldAddr)
	return ok && typeFull(fa.X.Type()) == x.typ
}

// base: the allocation a slice is (part of).
func (x *identFill) base(v Val) (Val, bool) {
	g := x.g
	for k := 0; k < 30; k++ {
		v = g.resolve(v)
		switch y := v.v.(type) {
		case *ssa.Alloc:
			if _, ok := arrayLen(y.Type()); ok {
				return v, true
			}
			return v, false
		case *ssa.MakeSlice:
			return v, true
		case *ssa.Slice:
			v = Val{v.ctx, y.X}
		case *ssa.UnOp:
			// the field just set, or a local
			if x.isIDField(Val{v.ctx, y.X}) {
				k := g.key(Val{v.ctx, y.X}).s
				var one *Val
				for n := range x.set {
					st := n.instr.(*ssa.Store)
					if g.key(Val{n.ctx, st.Addr}).s != k {
						continue
					}
					if one != nil {
						return v, false
					}
					w := Val{n.ctx, st.Val}
					one = &w
				}
				if one == nil {
					return v, false
				}
				v = *one
				continue
			}
			return v, false
		default:
			os := g.origins(v)
			if len(os) == 1 && os[0] != v {
				v = os[0]
				continue
			}
			return v, false
		}
	}
	return v, false
}

// start: where in its allocation a slice starts, and whether it goes to the end.
func (x *identFill) start(v Val) (map[string]int64, bool) {
	g := x.g
	off := map[string]int64{}
	end := true
	for k := 0; k < 30; k++ {
		v = g.resolve(v)
		sl, ok := v.v.(*ssa.Slice)
		if !ok {
			if u, isU := v.v.(*ssa.UnOp); isU && x.isIDField(Val{v.ctx, u.X}) {
				key := g.key(Val{v.ctx, u.X}).s
				for n := range x.set {
					st := n.instr.(*ssa.Store)
					if g.key(Val{n.ctx, st.Addr}).s == key {
						v = Val{n.ctx, st.Val}
					}
				}
				if _, still := v.v.(*ssa.UnOp); still {
					return off, end
				}
				continue
			}
			os := g.origins(v)
			if len(os) == 1 && os[0] != v {
				v = os[0]
				continue
			}
			return off, end
		}
		if sl.Low != nil {
			off = plus(off, g.affine(Val{v.ctx, sl.Low}, 0), 1)
		}
		if sl.High != nil {
			n, isArr := arrayLen(sl.X.Type())
			if !isArr || !isConst(g.affine(Val{v.ctx, sl.High}, 0), n) {
				hi := g.affine(Val{v.ctx, sl.High}, 0)
				whole := g.affineTerm(g.lenOf(Val{v.ctx, sl.X}))
				if !isConst(plus(hi, whole, -1), 0) {
					end = false
				}
			}
		}
		v = Val{v.ctx, sl.X}
	}
	return off, end
}

func (x *identFill) isBuf(v Val) bool {
	b, ok := x.base(v)
	return ok && x.bufs[b]
}

// at32: the offset plus the length of the source is 32, or known to be there.
func (x *identFill) at32(n *Node, off map[string]int64, src Val) bool {
	g := x.g
	l := g.affineTerm(g.lenOf(src))
	sum := plus(off, l, 1)
	if isConst(sum, 32) {
		return true
	}
	if len(off) == 0 {
		b := newBounds(g, n.in)
		b.learn(src, map[Val]bool{})
		ll := g.lenOf(src)
		return b.known(ll, lterm{"", 32}, 0) && b.known(lterm{"", 32}, ll, 0)
	}
	return false
}

func (x *identFill) look(n *Node) {
	g := x.g
	switch y := n.instr.(type) {
	case *ssa.Call:
		name := g.u.CalleeName(y)
		as := args(y)
		if y.Call.IsInvoke() {
			as = y.Call.Args
		}
		if n.ctx.children[y] != nil {
			return
		}
		for i, a := range as {
			if !isByteSlice(a.Type()) || !x.isBuf(Val{n.ctx, a}) {
				continue
			}
			off, end := x.start(Val{n.ctx, a})
			switch {
			case name == "builtin.copy" && i == 0:
				why := ""
				if !end {
					why = "the copy does not end at the end of the 32 bytes"
				} else if !x.at32(n, off, Val{n.ctx, as[1]}) {
					why = "the source is not copied whole to the end of the 32 bytes"
				} else if !x.fits(n, Val{n.ctx, as[1]}) {
					why = "the length of the source is not known to be at most 32"
				}
				x.fill[n] = why
			case name == "builtin.copy", name == "builtin.len", name == "builtin.cap", strings.HasPrefix(name, "encoding/hex.EncodeToString"), strings.HasPrefix(name, "bytes."):
			case strings.Contains(name, "RandomBytes") || name == "crypto/rand.Read" || strings.HasSuffix(name, "andom.ReadBytes") || strings.HasSuffix(name, "rand.Reader.Read"):
				why := ""
				if !end || len(off) != 0 {
					why = "only a part is random"
				}
				x.fill[n] = why
			case name == "math/big.Int.FillBytes":
				if end && len(off) == 0 {
					x.fill[n] = ""
				} else {
					x.fill[n] = "only a part is filled"
				}
			default:
				x.fill[n] = "the bytes are handed to " + name
			}
		}
	case *ssa.Store:
		ia, ok := y.Addr.(*ssa.IndexAddr)
		if !ok {
			return
		}
		xv := Val{n.ctx, ia.X}
		if !x.isBuf(xv) {
			return
		}
		off, _ := x.start(xv)
		at := plus(off, g.affine(Val{n.ctx, ia.Index}, 0), 1)
		why := "a byte is set to something other than the source's byte at the same distance from the end"
		if ld, ok := g.resolve(Val{n.ctx, y.Val}).v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			lc := g.resolve(Val{n.ctx, y.Val}).ctx
			if sa, ok := g.resolve(Val{lc, ld.X}).v.(*ssa.IndexAddr); ok {
				sc := g.resolve(Val{lc, ld.X}).ctx
				src := Val{sc, sa.X}
				j := g.affine(Val{sc, sa.Index}, 0)
				if x.at32(n, plus(at, j, -1), src) {
					why = ""
					if !x.fits(n, src) {
						why = "the length of the source is not known to be at most 32"
					} else if !wholeLoop(g, n, Val{sc, sa.Index}, src) {
						why = "the loop does not go over the whole source"
					}
				}
			}
		}
		x.fill[n] = why
	}
}

// fits: the source is known to be at most 32 long there.
func (x *identFill) fits(n *Node, src Val) bool {
	b := newBounds(x.g, n.in)
	b.learn(src, map[Val]bool{})
	return b.known(x.g.lenOf(src), lterm{"", 32}, 0)
}

// wholeLoop: the index counts from 0 by one while below the length of the source, and nothing else ends the loop.
func wholeLoop(g *G, n *Node, idx, src Val) bool {
	v := g.resolve(idx)
	var phi *ssa.Phi
	switch y := v.v.(type) {
	case *ssa.Phi:
		phi = y
	case *ssa.BinOp: // a range loop uses the index after adding one
		phi, _ = y.X.(*ssa.Phi)
		if phi == nil || y.Op != token.ADD {
			return false
		}
	default:
		return false
	}
	first, step := false, false
	for _, e := range phi.Edges {
		switch y := e.(type) {
		case *ssa.Const:
			first = y.Value != nil && (y.Int64() == 0 && v.v == ssa.Value(phi) || y.Int64() == -1 && v.v != ssa.Value(phi))
		case *ssa.BinOp:
			k, ok := y.Y.(*ssa.Const)
			step = y.Op == token.ADD && y.X == ssa.Value(phi) && ok && k.Int64() == 1
		}
	}
	if !first || !step || len(phi.Edges) != 2 {
		return false
	}
	head := phi.Block()
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	bound := Val{v.ctx, c.Y}
	switch {
	case c.Op == token.LSS && g.resolve(Val{v.ctx, c.X}) == v:
	case c.Op == token.NEQ && g.resolve(Val{v.ctx, c.X}) == v:
	default:
		return false
	}
	if !isConst(plus(g.affine(bound, 0), g.affineTerm(g.lenOf(src)), -1), 0) {
		return false
	}
	// only the head leaves the loop
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range head.Parent().Blocks {
		if head.Dominates(b) && reaches(b, head) {
			in[b] = true
		}
	}
	for b := range in {
		if b == head {
			continue
		}
		for _, s := range b.Succs {
			if !in[s] {
				return false
			}
		}
	}
	return n.instr.Block() != nil
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range a.Succs {
		if walk(s) {
			return true
		}
	}
	return a == b
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// report: the obligations of the function.
func (x *identFill) report(r *Run) {
	g := x.g
	name := FuncName(g.entry)
	for n := range x.set {
		st := n.instr.(*ssa.Store)
		why := ""
		for _, o := range g.origins(Val{n.ctx, st.Val}) {
			b, ok := x.base(o)
			switch {
			case !ok:
				why = "the bytes may be shared with " + g.key(o).s + ", which is not a fresh array"
			default:
				l := g.lenOf(o)
				if l.k != "" || l.c != 32 {
					why = "the array is not 32 bytes long"
				}
				_ = b
			}
		}
		r.ob("constructor-length", name, why == "", g.where(n), why)
	}
	for n, why := range x.fill {
		r.ob("constructor-fill", name, why == "", g.where(n), why)
	}
	r.ob("constructor-fill", name+" fills the bytes", len(x.fill) > 0, g.u.Pos(g.entry.Pos()), "the bytes are never filled from the source")
	// on every way to a result, the bytes were set and filled
	res := g.entry.Signature.Results()
	builds := res.Len() > 0 && typeFull(res.At(0).Type()) == x.typ
	if rc := g.entry.Signature.Recv(); rc != nil && typeFull(rc.Type()) == x.typ {
		builds = true
	}
	if !builds {
		return
	}
	head := map[*Node]bool{}
	for n := range x.fill {
		head[n] = true
		// a loop counts where it starts
		if _, ok := n.instr.(*ssa.Store); ok {
			for _, b := range n.ctx.fn.Blocks {
				if b.Dominates(n.instr.Block()) && reaches(n.instr.Block(), b) && n.ctx.first[b] != nil {
					head[n.ctx.first[b]] = true
				}
			}
		}
	}
	cfg := *g.cfg
	cfg.NodeGen = func(h *G, n *Node) []Fact {
		var out []Fact
		for m := range x.set {
			if m.ctx.id == n.ctx.id && m.instr == n.instr && m.after == n.after {
				out = append(out, mkFact("idset", Key{s: "id"}))
			}
		}
		for m := range head {
			if m.ctx.id == n.ctx.id && m.instr == n.instr && m.after == n.after {
				out = append(out, mkFact("idfilled", Key{s: "id"}))
			}
		}
		return out
	}
	h := NewG(g.u, g.entry, &cfg)
	h.Solve()
	for n, st := range h.successExits() {
		ret := n.instr.(*ssa.Return)
		if len(ret.Results) > 0 && isNilConst(ret.Results[0]) && isPtrType(ret.Results[0].Type()) {
			continue
		}
		ok := h.hasIn(st, mkFact("idset", Key{s: "id"})) && h.hasIn(st, mkFact("idfilled", Key{s: "id"}))
		r.ob("constructor-fill", name+" before it returns", ok, h.where(n), "there is a way to this return on which the bytes were not set and filled")
	}
}

func isPtrType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && !isErrorType(t)
}
