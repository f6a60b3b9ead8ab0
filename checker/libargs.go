package main

// What the caller of a library gives reaches the part of the request which has that meaning.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libRoot: where a value enters the library: a parameter of a function nobody in the library calls, or a field.
type libRoot struct {
	param *ssa.Parameter
	field string
	of    string
	in    string
}

func (l libRoot) name() string {
	if l.param != nil {
		return l.param.Name()
	}
	return l.field
}

// invokers: the calls of the function, also through an interface its receiver implements.
func (u *Universe) invokers(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, c := range u.callersOf(f) {
		if p := c.Parent(); p.Synthetic == "" {
			out = append(out, c)
		}
	}
	if f.Signature.Recv() == nil {
		return out
	}
	rt := f.Signature.Recv().Type()
	for _, c := range u.Funcs {
		if c.Synthetic != "" {
			continue
		}
		for _, b := range c.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || !call.Common().IsInvoke() || call.Common().Method.Name() != f.Name() {
					continue
				}
				if it, ok := call.Common().Value.Type().Underlying().(*types.Interface); ok && types.Implements(rt, it) {
					out = append(out, call)
				}
			}
		}
	}
	return out
}

type libArgs struct {
	u  *Universe
	gs map[*ssa.Function]*G
}

func (l *libArgs) graph(f *ssa.Function) *G {
	g := l.gs[f]
	if g == nil {
		g = NewG(l.u, f, &Config{Opaque: func(string, *ssa.Function) bool { return true }})
		g.Solve()
		l.gs[f] = g
	}
	return g
}

func (l *libArgs) roots(f *ssa.Function, v ssa.Value, depth int, seen map[ssa.Value]bool) []libRoot {
	if seen[v] || depth > 8 {
		return nil
	}
	seen[v] = true
	g := l.graph(f)
	var out []libRoot
	for _, o := range g.origins(Val{g.root, v}) {
		switch x := o.v.(type) {
		case *ssa.Parameter:
			i := paramIndex(f, x)
			cs := l.u.invokers(f)
			if len(cs) == 0 || i < 0 {
				out = append(out, libRoot{param: x, in: short(f)})
				continue
			}
			for _, c := range cs {
				as := c.Common().Args
				k := i
				if c.Common().IsInvoke() {
					k--
				}
				if k >= 0 && k < len(as) {
					out = append(out, l.roots(c.Parent(), as[k], depth+1, seen)...)
				}
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				out = append(out, libRoot{field: fieldName(fa.X.Type(), fa.Field), of: typeFull(fa.X.Type()), in: short(f)})
			}
		case *ssa.Field:
			out = append(out, libRoot{field: fieldName(x.X.Type(), x.Field), of: typeFull(x.X.Type()), in: short(f)})
		}
	}
	return out
}

func plain(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// meant: the longest of the names that is part of the given one.
func meant(name string, wires []string) string {
	best := ""
	for _, w := range wires {
		if strings.Contains(plain(name), plain(w)) && len(w) > len(best) {
			best = w
		}
	}
	return best
}

func libraryArgs(r *Run, u *Universe, mod string) {
	cs := codecs(u, nil)
	l := &libArgs{u, map[*ssa.Function]*G{}}
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		var keyRoots []libRoot
		var signs []*ssa.Call
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				name := u.CalleeName(call)
				if name == "common/pkg/fcrmessages.FCRMessage.Sign" {
					signs = append(signs, call)
				}
				if !strings.HasPrefix(name, "common/pkg/fcrmessages.Encode") {
					continue
				}
				kind := strings.TrimPrefix(name, "common/pkg/fcrmessages.Encode")
				c := cs[kind]
				if c == nil || !strings.Contains(kind, "Request") {
					continue
				}
				at := map[string]int{}
				for field, flow := range c.fields {
					ms := pRe.FindAllStringSubmatch(flow, -1)
					if len(ms) == 0 {
						continue
					}
					i := atoi(ms[0][1])
					same := i < len(call.Call.Args)
					for _, m := range ms {
						same = same && atoi(m[1]) == i
					}
					if same {
						at[field] = i
					}
				}
				var fields []string
				for k := range at {
					fields = append(fields, k)
				}
				sort.Strings(fields)
				used := map[*ssa.Parameter]string{}
				for _, field := range fields {
					a := call.Call.Args[at[field]]
					var like []string
					for k, j := range at {
						if types.Identical(call.Call.Args[j].Type(), a.Type()) {
							like = append(like, k)
						}
					}
					rs := l.roots(f, a, 0, map[ssa.Value]bool{})
					if strings.HasSuffix(field, "private_key") && typeFull(a.Type()) == pkgCrypto+".KeyPair" {
						keyRoots = append(keyRoots, rs...)
						for _, rt := range rs {
							r.ob("request-argument", short(f)+" "+kind+" "+field, rt.param != nil || !strings.HasSuffix(rt.of, "Settings"), u.Pos(call.Pos()), "the key sent for the node is the library's own ("+rt.field+"), not the one given for the node")
						}
						continue
					}
					if len(like) < 2 {
						continue
					}
					for _, rt := range rs {
						m := meant(rt.name(), like)
						ok, why := m == "" || m == field, rt.name()+" of "+rt.in+" is sent as "+field+", not as "+m
						if rt.param != nil {
							if o, dup := used[rt.param]; dup && o != field && ok {
								ok, why = false, rt.name()+" of "+rt.in+" is sent both as "+o+" and as "+field
							}
							used[rt.param] = field
						}
						r.ob("request-argument", short(f)+" "+kind+" "+field, ok, u.Pos(call.Pos()), why)
					}
				}
			}
		}
		if !strings.HasSuffix(mod, "-admin") {
			continue
		}
		for _, s := range signs {
			for _, rt := range l.roots(f, args(s)[1], 0, map[ssa.Value]bool{}) {
				ok := true
				for _, k := range keyRoots {
					if k.param != nil && k.param == rt.param {
						ok = false
					}
				}
				r.ob("request-argument", short(f)+": signing key", ok, u.Pos(s.Pos()), "the request is signed with "+rt.name()+", the key that is being given to the node, not with the administrator's")
			}
		}
	}
	paymentNode(r, u, l, cs)
}

// paymentNode: the payment manager is made with the wallet key, address and token given for it.
func paymentNode(r *Run, u *Universe, l *libArgs, cs map[string]*Codec) {
	want := []string{"wallet_private_key", "lotus_ap", "lotus_auth_token"}
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || u.CalleeName(call) != "common/pkg/fcrpaymentmgr.NewFCRPaymentMgr" || len(call.Call.Args) != 3 {
					continue
				}
				g := l.graph(f)
				for i, w := range want {
					got := ""
					for _, o := range g.origins(Val{g.root, call.Call.Args[i]}) {
						dc, idx := callOf(o)
						if dc == nil {
							continue
						}
						dn := u.CalleeName(dc)
						k := strings.LastIndex(dn, ".Decode")
						if k < 0 || cs[dn[k+7:]] == nil {
							continue
						}
						for _, x := range wiresOf(cs[dn[k+7:]], idx) {
							got = x
						}
					}
					if got == "" {
						for _, rt := range l.roots(f, call.Call.Args[i], 0, map[ssa.Value]bool{}) {
							got = meant(rt.name(), want)
						}
					}
					r.ob("payment-node", short(f)+": "+w, got == "" || got == w, u.Pos(call.Pos()), "the payment manager is given "+got+" as its "+w)
				}
			}
		}
	}
}

// paymentDial: the payment manager asks the node it was made for, with the token it was made with.
func paymentDial(r *Run, u *Universe) {
	l := &libArgs{u, map[*ssa.Function]*G{}}
	mk := u.fn("common/pkg/fcrpaymentmgr.NewFCRPaymentMgr")
	if mk == nil || len(mk.Params) != 3 {
		return
	}
	from := map[string]int{}
	for _, b := range mk.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeFull(fa.X.Type()) == "common/pkg/fcrpaymentmgr.FCRPaymentMgr" {
				if p, ok := st.Val.(*ssa.Parameter); ok {
					from[fieldName(fa.X.Type(), fa.Field)] = paramIndex(mk, p)
				}
			}
		}
	}
	judge := func(f *ssa.Function, v ssa.Value, i int, what string) {
		for _, rt := range l.roots(f, v, 0, map[ssa.Value]bool{}) {
			if rt.field == "" {
				continue
			}
			k, known := from[rt.field]
			r.ob("payment-node", short(f)+": "+what, known && k == i, u.Pos(v.Pos()), "the "+what+" used is the "+rt.field+", which is not what the payment manager was given for it")
		}
	}
	for _, f := range pkgFuncs(u, "common/pkg/fcrpaymentmgr") {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Call:
					if strings.HasSuffix(u.CalleeName(x), "jsonrpc.NewMergeClient") || strings.HasSuffix(u.CalleeName(x), "jsonrpc.NewClient") {
						judge(f, x.Call.Args[1], 1, "address")
					}
				case *ssa.BinOp:
					if c, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "Bearer " {
						judge(f, x.Y, 2, "token")
					}
				}
			}
		}
	}
}
