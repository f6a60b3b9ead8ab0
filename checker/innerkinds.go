package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// innerSrc collects where the messages held in a value come from: calls of encoders, of
// Request* exchanges, or results of decoders (a message taken out of another message).
type innerSrc struct {
	g       *G
	seen    map[Val]bool
	encs    map[string]bool // kinds encoded
	asked   map[string]bool // "gateway|211": answers to such a request
	taken   map[string]bool // "Kind#idx": result of Decode<Kind>
	unknown []string
	depth   int
}

func newInnerSrc(g *G, depth int) *innerSrc {
	return &innerSrc{g: g, seen: map[Val]bool{}, encs: map[string]bool{}, asked: map[string]bool{}, taken: map[string]bool{}, depth: depth}
}

func holdsMessage(t types.Type) bool {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
		case *types.Slice:
			t = x.Elem()
		case *types.Array:
			t = x.Elem()
		case *types.Map:
			t = x.Elem()
		case *types.Named:
			return x.Obj().Name() == "FCRMessage"
		default:
			return false
		}
	}
}

func (b *innerSrc) add(v Val) {
	g := b.g
	v = g.resolve(v)
	if b.seen[v] {
		return
	}
	b.seen[v] = true
	switch x := v.v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			b.add(Val{v.ctx, e})
		}
	case *ssa.Const:
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			b.call(v, t, x.Index)
		case *ssa.Next:
			b.add(Val{v.ctx, t.Iter})
		case *ssa.Lookup:
			b.add(Val{v.ctx, t.X})
		case *ssa.TypeAssert:
			b.add(Val{v.ctx, t.X})
		default:
			b.unknown = append(b.unknown, shortInstr(x))
		}
	case *ssa.Call:
		b.call(v, x, 0)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			b.add(Val{v.ctx, x.X})
			return
		}
		b.unknown = append(b.unknown, shortInstr(x))
	case *ssa.Alloc:
		b.stores(v.ctx, x, x.Referrers())
	case *ssa.MakeSlice:
		b.stores(v.ctx, x, x.Referrers())
	case *ssa.MakeMap:
		for _, r := range *x.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == x {
				b.add(Val{v.ctx, mu.Value})
			}
		}
	case *ssa.IndexAddr:
		b.add(Val{v.ctx, x.X})
	case *ssa.Index:
		b.add(Val{v.ctx, x.X})
	case *ssa.Lookup:
		b.add(Val{v.ctx, x.X})
	case *ssa.Slice:
		b.add(Val{v.ctx, x.X})
	case *ssa.Range:
		b.add(Val{v.ctx, x.X})
	case *ssa.ChangeType:
		b.add(Val{v.ctx, x.X})
	case *ssa.MakeInterface:
		b.add(Val{v.ctx, x.X})
	case *ssa.Parameter:
		b.param(x)
	case *ssa.FieldAddr:
		b.field(x.X.Type(), x.Field)
	case *ssa.Field:
		b.field(x.X.Type(), x.Field)
	default:
		b.unknown = append(b.unknown, shortInstr(v.v))
	}
}

// stores: what is put into a local variable, array or slice, directly or element by element.
func (b *innerSrc) stores(c *Ctx, v ssa.Value, refs *[]ssa.Instruction) {
	for _, r := range *refs {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == v {
				b.add(Val{c, y.Val})
			}
		case *ssa.IndexAddr:
			if y.X == v {
				b.stores(c, y, y.Referrers())
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Slice:
			b.stores(c, y, y.Referrers())
		}
	}
}

func (b *innerSrc) call(v Val, c *ssa.Call, idx int) {
	g := b.g
	name := g.u.CalleeName(c)
	base := name[strings.LastIndex(name, ".")+1:]
	switch {
	case name == "builtin.append":
		for _, a := range args(c) {
			b.add(Val{v.ctx, a})
		}
		return
	case strings.HasPrefix(name, "common/pkg/fcrmessages.Encode"):
		b.encs[base[6:]] = true
		return
	case strings.HasPrefix(name, "common/pkg/fcrmessages.Decode"):
		b.taken[fmt.Sprintf("%s#%d", base[6:], idx)] = true
		return
	case strings.HasPrefix(name, "common/pkg/fcrp2pserver.FCRP2PServer.Request"):
		want := "gateway"
		if strings.HasPrefix(base, "RequestProvider") {
			want = "provider"
		}
		for t := range constsOf(g.u, c.Parent(), args(c)[2], 0) {
			b.asked[want+"|"+t] = true
		}
		return
	}
	if isReceive(g.u, c, name) {
		// an answer just received is of the kind it is taken apart as here
		ds := decodesOf(g, g.objkey(v))
		for _, d := range ds {
			dn := g.u.CalleeName(d.instr.(ssa.CallInstruction))
			b.encs[dn[strings.LastIndex(dn, ".Decode")+7:]] = true
		}
		if len(ds) == 0 {
			b.unknown = append(b.unknown, name)
		}
		return
	}
	if rs := g.results(v.ctx, c, idx); len(rs) > 0 {
		for _, r := range rs {
			b.add(r)
		}
		return
	}
	var fs []*ssa.Function
	if c.Call.IsInvoke() {
		fs = g.u.Implementations(c.Call.Value.Type(), c.Call.Method.Name())
	} else if f := c.Call.StaticCallee(); f != nil {
		fs = []*ssa.Function{f}
	}
	if len(fs) == 0 || b.depth > 3 {
		b.unknown = append(b.unknown, name)
		return
	}
	for _, f := range fs {
		if len(f.Blocks) == 0 {
			b.unknown = append(b.unknown, name)
			continue
		}
		sg := newGate(g.u, f)
		s := newInnerSrc(sg, b.depth+1)
		for _, blk := range f.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				s.add(Val{sg.root, ret.Results[idx]})
			}
		}
		b.join(s)
	}
}

func (b *innerSrc) join(s *innerSrc) {
	for k := range s.encs {
		b.encs[k] = true
	}
	for k := range s.asked {
		b.asked[k] = true
	}
	for k := range s.taken {
		b.taken[k] = true
	}
	b.unknown = append(b.unknown, s.unknown...)
}

// param: a message handed to the function, looked up at the places that call it.
func (b *innerSrc) param(p *ssa.Parameter) {
	u, f := b.g.u, p.Parent()
	i := paramIndex(f, p)
	cs := u.callersOf(f)
	if b.depth > 3 || len(cs) == 0 || u.addressTaken()[f] {
		b.unknown = append(b.unknown, shortInstr(p))
		return
	}
	for _, c := range cs {
		if i >= len(args(c)) {
			b.unknown = append(b.unknown, shortInstr(p))
			continue
		}
		sg := newGate(u, c.Parent())
		s := newInnerSrc(sg, b.depth+1)
		s.add(Val{sg.root, args(c)[i]})
		b.join(s)
	}
}

// field: a message kept in a structure, looked up at the places that put one there.
func (b *innerSrc) field(st types.Type, idx int) {
	u := b.g.u
	if p, ok := st.Underlying().(*types.Pointer); ok {
		st = p.Elem()
	}
	str, ok := st.Underlying().(*types.Struct)
	if !ok || b.depth > 3 || !holdsMessage(str.Field(idx).Type()) {
		b.unknown = append(b.unknown, "field of "+st.String())
		return
	}
	n := 0
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] {
			continue
		}
		var vs []ssa.Value
		for _, blk := range f.Blocks {
			for _, ins := range blk.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if ok && fa.Field == idx && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), st) {
					vs = append(vs, s.Val)
				}
			}
		}
		if len(vs) == 0 {
			continue
		}
		n++
		sg := newGate(u, f)
		s := newInnerSrc(sg, b.depth+1)
		for _, v := range vs {
			s.add(Val{sg.root, v})
		}
		b.join(s)
	}
	if n == 0 {
		b.unknown = append(b.unknown, "field of "+st.String())
	}
}

// wireFieldOf: the wire field a parameter of an encoder (or a result of a decoder) travels in.
func (c *Codec) carrierOfParam(i int) string {
	for field, flow := range c.fields {
		if m := pRe.FindStringSubmatch(flow); m != nil && atoi(m[1]) == i {
			return field
		}
	}
	return ""
}

func (c *Codec) carrierOfResult(i int) string {
	if i >= len(c.results) {
		return ""
	}
	for flow := range c.results[i] {
		if m := fRe.FindStringSubmatch(flow); m != nil {
			return m[1]
		}
	}
	return ""
}

// innerKinds: messages carried inside other messages are taken apart as the kinds that are put there.
func innerKinds(r *Run, cs map[string]*Codec, answers map[string]map[string]bool) {
	type spot struct{ kind, field string }
	put := map[spot]map[string]bool{}
	vague := map[spot]bool{}
	from := map[spot][]spot{} // messages passed on from one container into another
	type use struct {
		at    spot
		typ   string
		con   string
		where string
	}
	var uses []use
	for _, mod := range []string{"gateway", "provider", "client"} {
		u := r.U(mod)
		for _, f := range u.Funcs {
			if f.Pkg == nil || !u.Roots[f.Pkg] || strings.Contains(f.Pkg.Pkg.Path(), "mock") {
				continue
			}
			var g *G
			gate := func() *G {
				if g == nil {
					g = newGate(u, f)
				}
				return g
			}
			for _, blk := range f.Blocks {
				for _, ins := range blk.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					name := u.CalleeName(c)
					base := name[strings.LastIndex(name, ".")+1:]
					if strings.HasPrefix(name, "common/pkg/fcrmessages.Encode") {
						cd := cs[base[6:]]
						if cd == nil || cd.enc == nil {
							continue
						}
						for i, a := range args(c) {
							if !holdsMessage(a.Type()) {
								continue
							}
							at := spot{cd.kind, cd.carrierOfParam(i)}
							if at.field == "" {
								continue
							}
							s := newInnerSrc(gate(), 0)
							s.add(Val{g.root, a})
							if put[at] == nil {
								put[at] = map[string]bool{}
							}
							for k := range s.encs {
								if e := cs[k]; e != nil {
									put[at][e.encT] = true
								}
							}
							for k := range s.asked {
								w := "BindGatewayAPI"
								if mod == "provider" {
									w = "BindProviderAPI"
								}
								as := answers[k+"|"+w]
								if as == nil {
									vague[at] = true
								}
								for t := range as {
									put[at][t] = true
								}
							}
							if len(s.unknown) > 0 {
								vague[at] = true
							}
							for k := range s.taken {
								h := strings.LastIndex(k, "#")
								w := ""
								if kc := cs[k[:h]]; kc != nil && kc.enc != nil {
									w = kc.carrierOfResult(atoi(k[h+1:]))
								}
								if w == "" {
									vague[at] = true
								} else {
									from[at] = append(from[at], spot{k[:h], w})
								}
							}
							r.count("messages put into messages", 1)
						}
					}
					if strings.HasPrefix(name, "common/pkg/fcrmessages.Decode") {
						cd := cs[base[6:]]
						if cd == nil || cd.dec == nil || len(args(c)) != 1 {
							continue
						}
						s := newInnerSrc(gate(), 0)
						s.add(Val{g.root, args(c)[0]})
						for k := range s.taken {
							h := strings.LastIndex(k, "#")
							kc := cs[k[:h]]
							if kc == nil || kc.enc == nil {
								continue
							}
							if w := kc.carrierOfResult(atoi(k[h+1:])); w != "" {
								uses = append(uses, use{spot{kc.kind, w}, cd.decT, mod + ": " + short(f) + " takes " + w + " of " + kc.kind + " apart", u.Pos(c.Pos())})
							}
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for at, srcs := range from {
			for _, src := range srcs {
				if put[src] == nil || vague[src] {
					if !vague[at] {
						vague[at], changed = true, true
					}
				}
				for t := range put[src] {
					if !put[at][t] {
						put[at][t], changed = true, true
					}
				}
			}
		}
	}
	for _, us := range uses {
		p := put[us.at]
		if len(p) == 0 {
			continue
		}
		ok := p[us.typ] && (len(p) == 1 || vague[us.at])
		if vague[us.at] && !p[us.typ] {
			ok = true // what else is put there is not known
		}
		r.ob("inner-kinds", us.con, ok, us.where, fmt.Sprintf("taken apart as a message of type %s, but those put there are of types {%s}", us.typ, setStr(p)))
	}
}
