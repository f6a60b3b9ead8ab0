package main

// The amount paid or compared, written out as a polynomial of the configured price and what the request asks for.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// poly: coefficient per product of atoms (atoms of a product sorted, joined by "*").
type poly map[string]int64

func (a poly) String() string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		switch {
		case k == "":
			out = append(out, fmt.Sprint(a[k]))
		case a[k] == 1:
			out = append(out, k)
		default:
			out = append(out, fmt.Sprintf("%d*%s", a[k], k))
		}
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, " + ")
}

func (a poly) plus(b poly, s int64) poly {
	out := poly{}
	for k, v := range a {
		out[k] += v
	}
	for k, v := range b {
		out[k] += s * v
	}
	for k, v := range out {
		if v == 0 {
			delete(out, k)
		}
	}
	return out
}

func (a poly) times(b poly) poly {
	out := poly{}
	for k, v := range a {
		for l, w := range b {
			var as []string
			for _, s := range append(strings.Split(k, "*"), strings.Split(l, "*")...) {
				if s != "" {
					as = append(as, s)
				}
			}
			sort.Strings(as)
			out[strings.Join(as, "*")] += v * w
		}
	}
	for k, v := range out {
		if v == 0 {
			delete(out, k)
		}
	}
	return out
}

func (a poly) equal(b poly) bool { return len(a.plus(b, -1)) == 0 }

// priceEval writes amounts out. unknown is set when some way could not be followed: what was found on the others still counts.
type priceEval struct {
	g       *G
	price   string // the configured price
	q       *Val   // the quantity asked for, a number or a list
	qk      string
	unknown bool
	wrong   string // a definite defect of an accumulation
	busy    map[Val]bool
	named   map[string]string
}

func (p *priceEval) isQ(v Val) bool {
	if p.q == nil {
		return false
	}
	v = p.g.resolve(v)
	return v == p.g.resolve(*p.q) || p.g.objkey(v).s == p.qk
}

func (p *priceEval) none() []poly { p.unknown = true; return nil }

func cross(as, bs []poly, f func(a, b poly) poly) []poly {
	var out []poly
	for _, a := range as {
		for _, b := range bs {
			if len(out) < 16 {
				out = append(out, f(a, b))
			}
		}
	}
	return out
}

// amount: a big.Int.
func (p *priceEval) amount(v Val) []poly {
	g := p.g
	v = g.resolve(v)
	if p.busy[v] || len(p.busy) > 80 {
		return p.none()
	}
	p.busy[v] = true
	defer delete(p.busy, v)
	switch x := v.v.(type) {
	case *ssa.Phi:
		return p.phi(v, x, p.amount)
	case *ssa.UnOp:
		a := g.resolve(Val{v.ctx, x.X})
		if fa, ok := a.v.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return p.setting(fieldName(fa.X.Type(), fa.Field))
		}
	case *ssa.Field:
		return p.setting(fieldName(x.X.Type(), x.Field))
	case *ssa.Alloc:
		// one operation fills it
		var ms []Val
		for _, m := range p.mutatorsOf(v) {
			ms = append(ms, m)
		}
		if len(ms) == 1 {
			return p.op(ms[0])
		}
	case *ssa.Call:
		if rs := g.results(v.ctx, x, 0); len(rs) > 0 {
			var out []poly
			for _, r := range rs {
				out = append(out, p.amount(r)...)
			}
			return out
		}
		name := g.u.CalleeName(x)
		if name == "math/big.NewInt" {
			return p.number(Val{v.ctx, args(x)[0]})
		}
		if bigMutator(name) {
			// changed again later?
			root := p.root(v)
			for _, m := range p.mutatorsOf(root) {
				mn, vn := m.ctx.nodes[m.v.(ssa.Instruction)], v.ctx.nodes[x]
				if m != v && (mn == nil || vn == nil || after(vn)[mn]) {
					return p.none()
				}
			}
			return p.op(v)
		}
	}
	return p.none()
}

func (p *priceEval) setting(f string) []poly {
	if strings.EqualFold(f, p.price) {
		return []poly{{"P": 1}}
	}
	if priceField.MatchString(f) {
		return []poly{{"setting " + f: 1}}
	}
	return p.none()
}

func (p *priceEval) root(v Val) Val {
	for i := 0; i < 50; i++ {
		v = p.g.resolve(v)
		c, ok := v.v.(*ssa.Call)
		if !ok || !bigMutator(p.g.u.CalleeName(c)) || len(args(c)) == 0 {
			return v
		}
		v = Val{v.ctx, args(c)[0]}
	}
	return v
}

func (p *priceEval) mutatorsOf(root Val) []Val {
	var out []Val
	for _, n := range p.g.nodes {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !bigMutator(p.g.u.CalleeName(c)) || len(args(c)) == 0 {
			continue
		}
		if p.root(Val{n.ctx, args(c)[0]}) == root {
			out = append(out, Val{n.ctx, c})
		}
	}
	return out
}

func (p *priceEval) op(v Val) []poly {
	c := v.v.(*ssa.Call)
	as := args(c)
	switch p.g.u.CalleeName(c) {
	case "math/big.Int.Mul":
		return cross(p.amount(Val{v.ctx, as[1]}), p.amount(Val{v.ctx, as[2]}), func(a, b poly) poly { return a.times(b) })
	case "math/big.Int.Add":
		return cross(p.amount(Val{v.ctx, as[1]}), p.amount(Val{v.ctx, as[2]}), func(a, b poly) poly { return a.plus(b, 1) })
	case "math/big.Int.Sub":
		return cross(p.amount(Val{v.ctx, as[1]}), p.amount(Val{v.ctx, as[2]}), func(a, b poly) poly { return a.plus(b, -1) })
	case "math/big.Int.Set":
		return p.amount(Val{v.ctx, as[1]})
	case "math/big.Int.SetInt64", "math/big.Int.SetUint64":
		return p.number(Val{v.ctx, as[1]})
	}
	return p.none()
}

// number: an integer.
func (p *priceEval) number(v Val) []poly {
	g := p.g
	v = g.resolve(v)
	if p.busy[v] || len(p.busy) > 80 {
		return p.none()
	}
	p.busy[v] = true
	defer delete(p.busy, v)
	if p.isQ(v) {
		return []poly{{"Q": 1}}
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			if x.Int64() == 0 {
				return p.none() // nothing is asked for on this way, or so it may be
			}
			return []poly{{"": x.Int64()}}
		}
	case *ssa.Convert:
		return p.number(Val{v.ctx, x.X})
	case *ssa.BinOp:
		a, b := p.number(Val{v.ctx, x.X}), p.number(Val{v.ctx, x.Y})
		switch x.Op {
		case token.ADD:
			return cross(a, b, func(a, b poly) poly { return a.plus(b, 1) })
		case token.SUB:
			return cross(a, b, func(a, b poly) poly { return a.plus(b, -1) })
		case token.MUL:
			return cross(a, b, func(a, b poly) poly { return a.times(b) })
		}
	case *ssa.Call:
		if rs := g.results(v.ctx, x, 0); len(rs) > 0 {
			var out []poly
			for _, r := range rs {
				out = append(out, p.number(r)...)
			}
			return out
		}
		if g.u.CalleeName(x) == "builtin.len" {
			l := g.resolve(Val{v.ctx, x.Call.Args[0]})
			if p.isQ(l) {
				return []poly{{"length of the list asked for": 1}}
			}
			// another list that comes from elsewhere
			if c, i := callOf(l); c != nil && g.results(l.ctx, c, i) == nil && !strings.Contains(g.u.CalleeName(c), ".Decode") && !strings.HasPrefix(g.u.CalleeName(c), "builtin.") {
				name := g.u.CalleeName(c)
				return []poly{{"length of the result of " + name[strings.LastIndex(name, "/")+1:]: 1}}
			}
		}
	case *ssa.Phi:
		return p.phi(v, x, p.number)
	}
	return p.none()
}

func (p *priceEval) phi(v Val, x *ssa.Phi, rec func(Val) []poly) []poly {
	g := p.g
	loop := naturalLoop(x.Block())
	if loop == nil {
		var out []poly
		for i, e := range x.Edges {
			es := g.edgeState(v.ctx, x.Block().Preds[i], x.Block())
			if es.top {
				continue
			}
			out = append(out, rec(Val{v.ctx, e})...)
		}
		return out
	}
	// an accumulation over the list asked for
	if p.q == nil || !p.overQ(v.ctx, x.Block()) {
		return p.none()
	}
	start, inc := poly{}, []poly(nil)
	for i, e := range x.Edges {
		if loop[x.Block().Preds[i]] {
			d, ok := p.delta(v, Val{v.ctx, e}, loop, v.ctx, x.Block().Preds[i], x.Block())
			if !ok {
				return p.none()
			}
			inc = append(inc, d...)
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil {
			return p.none()
		}
		start = poly{"": c.Int64()}.plus(poly{}, 1)
	}
	var out []poly
	for _, d := range inc {
		switch {
		case d == nil:
			p.wrong = "what the earlier items of the list ask for is forgotten"
		case len(d) == 1 && d["item"] == 1:
			out = append(out, start.plus(poly{"items of all lists": 1}, 1))
		case len(d) == 1 && d[""] != 0:
			out = append(out, start.plus(poly{"length of the list asked for": d[""]}, 1))
		case len(d) == 0:
			p.wrong = "an item of the list that asks for something is not counted"
		default:
			return p.none()
		}
	}
	return out
}

// overQ: the loop goes through the list asked for, all of it.
func (p *priceEval) overQ(c *Ctx, head *ssa.BasicBlock) bool {
	i, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return false
	}
	y := p.g.resolve(Val{c, b.Y})
	call, ok := y.v.(*ssa.Call)
	return ok && p.g.u.CalleeName(call) == "builtin.len" && p.isQ(Val{y.ctx, call.Call.Args[0]})
}

// delta: by how much a round changes the accumulated number (nil: it is not kept).
func (p *priceEval) delta(acc, v Val, loop map[*ssa.BasicBlock]bool, c *Ctx, from, to *ssa.BasicBlock) ([]poly, bool) {
	g := p.g
	v = g.resolve(v)
	if v == acc {
		es := g.edgeState(c, from, to)
		if es.top {
			return nil, true
		}
		// only items that ask for nothing are passed over
		bs := newBounds(g, es)
		for _, n := range g.nodes {
			call, ok := n.instr.(*ssa.Call)
			if !ok || n.after || n.ctx != c || g.u.CalleeName(call) != "builtin.len" || !p.itemOfQ(Val{c, call.Call.Args[0]}) {
				continue
			}
			if bs.known(g.lenOf(Val{c, call.Call.Args[0]}), lterm{"", 0}, 0) || bs.known(g.linOf(Val{c, call}), lterm{"", 0}, 0) {
				return nil, true
			}
		}
		return []poly{{}}, true
	}
	switch x := v.v.(type) {
	case *ssa.Phi:
		if !loop[x.Block()] || x.Block() == acc.v.(*ssa.Phi).Block() || naturalLoop(x.Block()) != nil {
			return nil, false
		}
		var out []poly
		for i, e := range x.Edges {
			d, ok := p.delta(acc, Val{v.ctx, e}, loop, v.ctx, x.Block().Preds[i], x.Block())
			if !ok {
				return nil, false
			}
			out = append(out, d...)
		}
		return out, true
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return nil, false
		}
		for i, y := range []ssa.Value{x.X, x.Y} {
			if g.resolve(Val{v.ctx, y}) != acc {
				continue
			}
			o := g.resolve(Val{v.ctx, []ssa.Value{x.Y, x.X}[i]})
			if k, ok := o.v.(*ssa.Const); ok && k.Value != nil {
				return []poly{{"": k.Int64()}}, true
			}
			if cv, ok := o.v.(*ssa.Convert); ok {
				o = g.resolve(Val{o.ctx, cv.X})
			}
			if call, ok := o.v.(*ssa.Call); ok && g.u.CalleeName(call) == "builtin.len" && p.itemOfQ(Val{o.ctx, call.Call.Args[0]}) {
				return []poly{{"item": 1}}, true
			}
		}
		return nil, false
	case *ssa.Call:
		if g.u.CalleeName(x) == "builtin.len" && p.itemOfQ(Val{v.ctx, x.Call.Args[0]}) {
			return []poly{nil}, true
		}
	case *ssa.Convert:
		return p.delta(acc, Val{v.ctx, x.X}, loop, c, from, to)
	}
	return nil, false
}

func (p *priceEval) itemOfQ(v Val) bool {
	v = p.g.resolve(v)
	switch x := v.v.(type) {
	case *ssa.UnOp:
		a := p.g.resolve(Val{v.ctx, x.X})
		if ia, ok := a.v.(*ssa.IndexAddr); ok {
			return p.isQ(Val{a.ctx, ia.X})
		}
	case *ssa.Index:
		return p.isQ(Val{v.ctx, x.X})
	}
	return false
}

// priceMismatch: what is definitely wrong with an amount ("" if nothing is, or it cannot be told).
// kind of quantity: "" none, "number", "list", "lists".
func priceMismatch(g *G, amount Val, price string, q *Val, kind string) string {
	p := &priceEval{g: g, price: price, q: q, busy: map[Val]bool{}}
	if q != nil {
		p.qk = g.objkey(g.resolve(*q)).s
	}
	want := poly{"P": 1}
	switch kind {
	case "number":
		want = poly{"P*Q": 1}
	case "list":
		want = poly{"P*length of the list asked for": 1}
	case "lists":
		want = poly{"P*items of all lists": 1}
	}
	alts := p.amount(amount)
	if p.wrong != "" {
		return p.wrong
	}
	for _, a := range alts {
		if !a.equal(want) {
			return "the price is " + a.String() + " instead of " + want.String() + " (P: " + price + ")"
		}
	}
	return ""
}

func quantityKind(q *Val) string {
	if q == nil {
		return ""
	}
	switch t := q.v.Type().String(); {
	case strings.HasPrefix(t, "[][]") || t == "[]"+"[]string":
		return "lists"
	case strings.HasPrefix(t, "[]"):
		return "list"
	}
	return "number"
}
