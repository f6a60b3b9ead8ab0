package main

// Inequalities between integers known at a place: a small difference-bound reasoner over the must-facts.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lterm: a term plus an offset ("" is the constant zero).
type lterm struct {
	k string
	c int64
}

type bounds struct {
	g  *G
	st *FSet
	e  map[string][]boundEdge // a -> b with a <= b + w
}

type boundEdge struct {
	to string
	w  int64
}

// split: key strings of sums and constants into term and offset.
func split(s string) lterm {
	if strings.HasPrefix(s, "const:") {
		if n, err := strconv.ParseInt(s[6:], 10, 64); err == nil {
			return lterm{"", n}
		}
		return lterm{s, 0}
	}
	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		in := s[1 : len(s)-1]
		for _, op := range []string{"+const:", "-const:"} {
			i := strings.LastIndex(in, op)
			if i < 0 {
				continue
			}
			n, err := strconv.ParseInt(in[i+7:], 10, 64)
			if err != nil {
				continue
			}
			if !balanced(in[:i]) {
				continue
			}
			l := split(in[:i])
			if op[0] == '-' {
				n = -n
			}
			return lterm{l.k, l.c + n}
		}
		if strings.HasPrefix(in, "const:") {
			if i := strings.Index(in, "+"); i > 0 && balanced(in[i+1:]) {
				if n, err := strconv.ParseInt(in[6:i], 10, 64); err == nil {
					l := split(in[i+1:])
					return lterm{l.k, l.c + n}
				}
			}
		}
	}
	return lterm{s, 0}
}

func balanced(s string) bool {
	d := 0
	for _, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
			if d < 0 {
				return false
			}
		}
	}
	return d == 0
}

// le: record a <= b + w.
func (b *bounds) le(x, y lterm, w int64) {
	// x.k + x.c <= y.k + y.c + w
	b.e[x.k] = append(b.e[x.k], boundEdge{y.k, y.c + w - x.c})
}

func newBounds(g *G, st *FSet) *bounds {
	b := &bounds{g: g, st: st, e: map[string][]boundEdge{}}
	if st == nil || st.top {
		return b
	}
	terms := map[string]bool{}
	for k := range st.m {
		f := &g.facts[k]
		if len(f.args) != 2 {
			continue
		}
		x, y := split(f.args[0]), split(f.args[1])
		switch f.pred {
		case "<":
			b.le(x, y, -1)
		case "<=":
			b.le(x, y, 0)
		case "==":
			b.le(x, y, 0)
			b.le(y, x, 0)
		case "!=":
			// a length that is not zero
			for i := 0; i < 2; i++ {
				if y.k == "" && y.c == 0 && strings.HasPrefix(x.k, "builtin.len(") && x.c == 0 {
					b.le(lterm{"", 1}, x, 0)
				}
				x, y = y, x
			}
		default:
			continue
		}
		terms[x.k], terms[y.k] = true, true
	}
	for t := range terms {
		b.nonneg(t)
	}
	return b
}

func (b *bounds) nonneg(t string) {
	if strings.HasPrefix(t, "builtin.len(") || strings.HasPrefix(t, "builtin.cap(") {
		b.le(lterm{"", 0}, lterm{t, 0}, 0)
	}
}

// known: x <= y + w follows.
func (b *bounds) known(x, y lterm, w int64) bool {
	// want dist(x.k -> y.k) <= y.c + w - x.c
	want := y.c + w - x.c
	if x.k == y.k {
		return 0 <= want
	}
	b.nonneg(x.k)
	b.nonneg(y.k)
	dist := map[string]int64{x.k: 0}
	queue := []string{x.k}
	for steps := 0; len(queue) > 0 && steps < 5000; steps++ {
		t := queue[0]
		queue = queue[1:]
		for _, e := range b.e[t] {
			d := dist[t] + e.w
			if o, ok := dist[e.to]; !ok || d < o {
				dist[e.to] = d
				if e.to == y.k && d <= want {
					return true
				}
				queue = append(queue, e.to)
			}
		}
	}
	d, ok := dist[y.k]
	return ok && d <= want
}

func (g *G) linOf(v Val) lterm { return split(g.key(v).s) }

// lenOf: the length of a slice, array or string value (lo, hi: bounds that always hold).
func (g *G) lenOf(v Val) lterm {
	v = g.resolve(v)
	switch x := v.v.(type) {
	case *ssa.MakeSlice:
		return g.linOf(Val{v.ctx, x.Len})
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return lterm{"", int64(len(constant.StringVal(x.Value)))}
		}
		if x.Value == nil {
			return lterm{"", 0}
		}
	case *ssa.Slice:
		if n, ok := arrayLen(x.X.Type()); ok {
			return sliceLen(g, v.ctx, x, lterm{"", n})
		}
		return sliceLen(g, v.ctx, x, g.lenOf(Val{v.ctx, x.X}))
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return g.lenOf(Val{v.ctx, x.X})
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				return g.lenOf(Val{v.ctx, x.X})
			}
		}
	}
	if n, ok := arrayLen(v.v.Type()); ok {
		return lterm{"", n}
	}
	return lterm{"builtin.len(" + g.objkey(v).s + ")", 0}
}

func sliceLen(g *G, c *Ctx, x *ssa.Slice, whole lterm) lterm {
	hi := whole
	if x.High != nil {
		hi = g.linOf(Val{c, x.High})
	}
	lo := lterm{"", 0}
	if x.Low != nil {
		lo = g.linOf(Val{c, x.Low})
	}
	if lo.k == "" {
		return lterm{hi.k, hi.c - lo.c}
	}
	if lo.k == hi.k {
		return lterm{"", hi.c - lo.c}
	}
	return lterm{"builtin.len(" + g.token(Val{c, x}) + ")", 0}
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// lower: the integer is never below the given number, by the way it is computed.
func (g *G) lower(v Val, min int64, seen map[Val]bool) bool {
	v = g.resolve(v)
	if seen[v] {
		return true // around a loop: decided by the other ways
	}
	seen[v] = true
	switch x := v.v.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Value.Kind() == constant.Int && x.Int64() >= min
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !g.lower(Val{v.ctx, e}, min, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			// the index of a range loop starts at -1
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() >= 0 {
				if p, ok := x.X.(*ssa.Phi); ok {
					for _, e := range p.Edges {
						if e == ssa.Value(x) {
							continue
						}
						k, ok := e.(*ssa.Const)
						if ok && k.Value != nil && k.Int64()+c.Int64() >= min {
							continue
						}
						if !g.lower(Val{v.ctx, e}, min-c.Int64(), map[Val]bool{}) {
							return false
						}
					}
					return true
				}
				return g.lower(Val{v.ctx, x.X}, min-c.Int64(), seen)
			}
			return min <= 0 && g.lower(Val{v.ctx, x.X}, 0, seen) && g.lower(Val{v.ctx, x.Y}, 0, map[Val]bool{})
		case token.MUL, token.QUO, token.SHR:
			return min <= 0 && g.lower(Val{v.ctx, x.X}, 0, seen) && g.lower(Val{v.ctx, x.Y}, 0, map[Val]bool{})
		case token.AND, token.REM:
			return min <= 0 && g.lower(Val{v.ctx, x.X}, 0, seen)
		}
	case *ssa.Call:
		n := g.u.CalleeName(x)
		return min <= 0 && lengthCall(n)
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 && nx.IsString {
			return min <= 0
		}
		// the number of bytes moved
		if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && v.ctx.children[call] == nil {
			if n := g.u.CalleeName(call); n != "" {
				switch b := n[strings.LastIndex(n, ".")+1:]; {
				case strings.HasPrefix(b, "Read"), strings.HasPrefix(b, "Write"), b == "Copy", b == "CopyN":
					return min <= 0
				}
			}
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if b.Info()&types.IsUnsigned != 0 && intWidth(b) < intWidth(x.Type()) {
				return min <= 0
			}
			if tb, ok := x.Type().Underlying().(*types.Basic); ok && intWidth(b) <= intWidth(tb) && b.Info()&types.IsUnsigned == 0 {
				return g.lower(Val{v.ctx, x.X}, min, seen)
			}
		}
	}
	if b, ok := v.v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return min <= 0
	}
	if _, ok := v.v.(*ssa.Parameter); ok && v.ctx.parent == nil {
		return min <= 0 // numbers the own program calls with
	}
	return false
}

// learn: what the way the value is computed says about it.
func (b *bounds) learn(v Val, seen map[Val]bool) {
	g := b.g
	v = g.resolve(v)
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.v.(type) {
	case *ssa.BinOp:
		b.learn(Val{v.ctx, x.X}, seen)
		b.learn(Val{v.ctx, x.Y}, seen)
		s, l, r := g.linOf(v), g.linOf(Val{v.ctx, x.X}), g.linOf(Val{v.ctx, x.Y})
		zero := lterm{"", 0}
		rpos := b.known(zero, r, 0) || g.lower(Val{v.ctx, x.Y}, 0, map[Val]bool{})
		lpos := b.known(zero, l, 0) || g.lower(Val{v.ctx, x.X}, 0, map[Val]bool{})
		switch x.Op {
		case token.SUB:
			if b.known(r, l, 0) || b.phiAtMost(Val{v.ctx, x.Y}, Val{v.ctx, x.X}, map[Val]bool{}) {
				b.le(zero, s, 0)
			}
			if rpos {
				b.le(s, l, 0)
			}
			// l < r + y says s < y
			if b.st != nil && !b.st.top {
				for k := range b.st.m {
					f := &g.facts[k]
					if f.pred != "<" && f.pred != "<=" || f.args[0] != g.key(Val{v.ctx, x.X}).s {
						continue
					}
					w := int64(0)
					if f.pred == "<" {
						w = -1
					}
					rk := g.key(Val{v.ctx, x.Y}).s
					t := f.args[1]
					if strings.HasPrefix(t, "("+rk+"+") {
						b.le(s, split(t[len(rk)+2:len(t)-1]), w)
					} else if strings.HasSuffix(t, "+"+rk+")") {
						b.le(s, split(t[1:len(t)-len(rk)-2]), w)
					}
				}
			}
		case token.ADD:
			// (p - q) + y: where y stands to q, the sum stands to p
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				d, ok := g.resolve(Val{v.ctx, o[0]}).v.(*ssa.BinOp)
				if !ok || d.Op != token.SUB {
					continue
				}
				dc := g.resolve(Val{v.ctx, o[0]}).ctx
				p, q, y := g.linOf(Val{dc, d.X}), g.linOf(Val{dc, d.Y}), g.linOf(Val{v.ctx, o[1]})
				if b.known(y, q, -1) {
					b.le(s, p, -1)
				} else if b.known(y, q, 0) {
					b.le(s, p, 0)
				}
				if b.known(q, y, 0) {
					b.le(p, s, 0)
				}
			}
			if rpos {
				b.le(l, s, 0)
			}
			if lpos {
				b.le(r, s, 0)
			}
		case token.QUO:
			if lpos && rpos {
				b.le(s, l, 0)
			}
		case token.REM:
			if rpos {
				b.le(s, r, -1)
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && g.cfg.NonEmpty[typeFull(fa.X.Type())+"."+fieldName(fa.X.Type(), fa.Field)] {
			b.le(lterm{"", 1}, g.lenOf(v), 0)
		}
		if s := g.storedJustBefore(x); s != nil {
			sv := Val{v.ctx, s.Val}
			b.learn(sv, seen)
			t, n := lterm{"builtin.len(" + g.objkey(v).s + ")", 0}, g.lenOf(sv)
			b.le(t, n, 0)
			b.le(n, t, 0)
		}
	case *ssa.Phi:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			b.learnTwins(v.ctx, x)
			b.learnCounter(v.ctx, x)
		}
	case *ssa.Field:
		if g.cfg.NonEmpty[typeFull(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] {
			b.le(lterm{"", 1}, g.lenOf(v), 0)
		}
	case *ssa.Slice, *ssa.MakeSlice, *ssa.Convert:
		if cv, ok := v.v.(*ssa.Convert); ok && keepsInt(cv) {
			x, y := g.linOf(v), g.linOf(Val{v.ctx, cv.X})
			b.le(x, y, 0)
			b.le(y, x, 0)
			b.learn(Val{v.ctx, cv.X}, seen)
		}
		if _, ok := v.v.Type().Underlying().(*types.Basic); ok && !isString(v.v.Type()) {
			return
		}
		t, n := lterm{"builtin.len(" + g.objkey(v).s + ")", 0}, g.lenOf(v)
		b.le(t, n, 0)
		b.le(n, t, 0)
		if y, ok := v.v.(*ssa.Slice); ok {
			b.learn(Val{v.ctx, y.X}, seen)
		}
	case *ssa.Call:
		if g.u.CalleeName(x) == "builtin.len" {
			b.learn(Val{v.ctx, x.Call.Args[0]}, seen)
		}
	}
}

// learnTwins: other lists merged at the same place that are as long whichever way it was reached.
func (b *bounds) learnTwins(c *Ctx, x *ssa.Phi) {
	g := b.g
	for _, ins := range x.Block().Instrs {
		y, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if _, isSlice := y.Type().Underlying().(*types.Slice); !isSlice || y == x {
			continue
		}
		same := true
		for i, p := range x.Block().Preds {
			es := g.edgeState(c, p, x.Block())
			if es.top {
				continue
			}
			eb := newBounds(g, es)
			a, d := g.lenOf(Val{c, x.Edges[i]}), g.lenOf(Val{c, y.Edges[i]})
			if !eb.known(a, d, 0) || !eb.known(d, a, 0) {
				same = false
				break
			}
		}
		if same {
			a, d := g.lenOf(Val{c, x}), g.lenOf(Val{c, y})
			b.le(a, d, 0)
			b.le(d, a, 0)
		}
	}
}

// learnCounter: a list that grows by as many elements as the counter of its loop, and how far that counter gets.
func (b *bounds) learnCounter(c *Ctx, x *ssa.Phi) {
	g := b.g
	blk := x.Block()
	for _, ins := range blk.Instrs {
		y, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if t, isInt := y.Type().Underlying().(*types.Basic); !isInt || t.Info()&types.IsInteger == 0 {
			continue
		}
		d, have, same := int64(0), false, true
		for i := range blk.Preds {
			if k, ok := y.Edges[i].(*ssa.Const); ok && k.Value != nil {
				l := g.lenOf(Val{c, x.Edges[i]})
				if l.k != "" || have && d != l.c-k.Int64() {
					same = false
					break
				}
				d, have = l.c-k.Int64(), true
				continue
			}
			st, ok := y.Edges[i].(*ssa.BinOp)
			if !ok || st.Op != token.ADD || st.X != ssa.Value(y) {
				same = false
				break
			}
			k, ok := st.Y.(*ssa.Const)
			if n, grows := grownBy(x.Edges[i], x); !ok || k.Value == nil || !grows || n != k.Int64() {
				same = false
				break
			}
		}
		if !same || !have {
			continue
		}
		a, n := g.lenOf(Val{c, x}), g.linOf(Val{c, y})
		b.le(a, n, d)
		b.le(n, a, -d)
		cond, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := cond.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS {
			continue
		}
		m := g.linOf(Val{c, cmp.Y})
		off := g.linOf(Val{c, cmp.X}).c - n.c
		if g.linOf(Val{c, cmp.X}).k != n.k {
			continue
		}
		in := true
		for i, p := range blk.Preds {
			es := g.edgeState(c, p, blk)
			if es.top {
				continue
			}
			e := g.linOf(Val{c, y.Edges[i]})
			e.c += off
			if !newBounds(g, es).known(e, m, 0) {
				in = false
			}
		}
		if in {
			n.c += off
			b.le(n, m, 0)
		}
	}
}

// grownBy: the list is the other one with so many elements appended.
func grownBy(v ssa.Value, x *ssa.Phi) (int64, bool) {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 2 || c.Call.Args[0] != ssa.Value(x) {
		return 0, false
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
		return 0, false
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return 0, false
	}
	return arrayLen(sl.X.Type())
}

// phiAtMost: whichever way the merged number was reached, it is at most the (unchanging) number m.
func (b *bounds) phiAtMost(v, m Val, seen map[Val]bool) bool {
	g := b.g
	v, m = g.resolve(v), g.resolve(m)
	p, ok := v.v.(*ssa.Phi)
	if !ok {
		return false
	}
	switch y := m.v.(type) {
	case *ssa.Const, *ssa.Parameter:
	case ssa.Instruction:
		if m.ctx != v.ctx || !y.Block().Dominates(p.Block()) || y.Block() == p.Block() {
			return false
		}
	default:
		return false
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	for i, e := range p.Edges {
		es := g.edgeState(v.ctx, p.Block().Preds[i], p.Block())
		if es.top {
			continue
		}
		ev := Val{v.ctx, e}
		eb := newBounds(g, es)
		if g.resolve(ev) == v || eb.known(g.linOf(ev), g.linOf(m), 0) || eb.phiAtMost(ev, m, seen) {
			continue
		}
		if k, ok := e.(*ssa.Const); ok && k.Value != nil && g.lower(m, k.Int64(), map[Val]bool{}) {
			continue
		}
		return false
	}
	return true
}

// learnUses: what is known about a conversion of the value that keeps it is known about the value.
func (b *bounds) learnUses(v Val) {
	if v.v.Referrers() == nil {
		return
	}
	for _, rf := range *v.v.Referrers() {
		if cv, ok := rf.(*ssa.Convert); ok && keepsInt(cv) {
			x, y := b.g.linOf(Val{v.ctx, cv}), b.g.linOf(v)
			b.le(x, y, 0)
			b.le(y, x, 0)
		}
	}
}

// keepsInt: the conversion between integers keeps every value (on the 64-bit platforms this is built for).
func keepsInt(c *ssa.Convert) bool {
	f, ok1 := c.X.Type().Underlying().(*types.Basic)
	t, ok2 := c.Type().Underlying().(*types.Basic)
	if !ok1 || !ok2 || f.Info()&types.IsInteger == 0 || t.Info()&types.IsInteger == 0 {
		return false
	}
	fu, tu := f.Info()&types.IsUnsigned != 0, t.Info()&types.IsUnsigned != 0
	if fu == tu {
		return intWidth(f) <= intWidth(t)
	}
	return fu && intWidth(f) < intWidth(t)
}

// storedJustBefore: the store of the field loaded, with nothing in between that could set it.
func (g *G) storedJustBefore(ld *ssa.UnOp) *ssa.Store {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	blk := ld.Block()
	i := len(blk.Instrs)
	for k, ins := range blk.Instrs {
		if ins == ssa.Instruction(ld) {
			i = k
		}
	}
	for d := 0; d < 20; d++ {
		for i--; i >= 0; i-- {
			switch y := blk.Instrs[i].(type) {
			case *ssa.Store:
				if fb, ok := y.Addr.(*ssa.FieldAddr); ok {
					if fb.X == fa.X && fb.Field == fa.Field {
						return y
					}
					if fb.Field == fa.Field && types.Identical(fb.X.Type(), fa.X.Type()) {
						return nil
					}
				} else if _, ok := y.Addr.(*ssa.IndexAddr); !ok {
					return nil
				}
			case ssa.CallInstruction:
				if !strings.HasPrefix(g.u.CalleeName(y), "builtin.") {
					return nil
				}
			}
		}
		if len(blk.Preds) != 1 {
			return nil
		}
		blk = blk.Preds[0]
		i = len(blk.Instrs)
	}
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// indexFailure: why the index may be out of the bounds at the node ("" if it cannot).
func (g *G) indexFailure(st *FSet, idx, of Val) string {
	b := newBounds(g, st)
	seen := map[Val]bool{}
	b.learn(of, seen)
	b.learn(idx, seen)
	length := g.lenOf(of)
	i := g.linOf(idx)
	if !b.known(lterm{"", 0}, i, 0) && !g.lower(idx, 0, map[Val]bool{}) {
		return "the index may be negative"
	}
	if !b.known(i, length, -1) {
		return "the index is not known to be below the length"
	}
	return ""
}

func lengthCall(n string) bool {
	switch n {
	case "builtin.len", "builtin.cap", "builtin.copy", "encoding/hex.DecodedLen", "encoding/hex.EncodedLen", "encoding/base64.Encoding.EncodedLen", "encoding/base64.Encoding.DecodedLen":
		return true
	}
	return false
}
