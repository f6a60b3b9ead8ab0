package main

// P03: registration, dispatch and request call sites agree.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type regHandler struct {
	mod   string
	typ   string // message type constant
	addr  string // listen address key (last field name)
	fn    *ssa.Function
	where string
}

type exchange struct {
	mod      string
	fn       *ssa.Function
	sent     map[string]bool // message types of the requests sent
	decoded  map[string]bool // message types of the decoders applied to answers
	via      string          // client / admin / gateway / provider
	where    string
	kindsStr string
}

// constsOf: the integer constants a value may have, looking through parameters to every static call site.
func constsOf(u *Universe, f *ssa.Function, v ssa.Value, depth int) map[string]bool {
	out := map[string]bool{}
	if depth > 6 {
		out["?"] = true
		return out
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			out[x.Value.ExactString()] = true
			return out
		}
	case *ssa.Convert:
		return constsOf(u, f, x.X, depth)
	case *ssa.ChangeType:
		return constsOf(u, f, x.X, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			for k := range constsOf(u, f, e, depth+1) {
				out[k] = true
			}
		}
		return out
	case *ssa.Parameter:
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		n := 0
		for _, caller := range u.Funcs {
			for _, b := range caller.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() != f {
						continue
					}
					n++
					for k := range constsOf(u, caller, call.Common().Args[idx], depth+1) {
						out[k] = true
					}
				}
			}
		}
		if n > 0 {
			return out
		}
	}
	out["?"] = true
	return out
}

func typeConst(s string) string { return s }

// regs: the AddHandler and AddRequester calls of a module.
func regs(u *Universe, mod string, r *Run) (hs []regHandler, rqs map[string]*ssa.Function) {
	rqs = map[string]*ssa.Function{}
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] {
			continue
		}
		var g *G
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				name := u.CalleeName(call)
				isH, isR := strings.HasSuffix(name, "Server.AddHandler"), strings.HasSuffix(name, "Server.AddRequester")
				if !isH && !isR {
					continue
				}
				if g == nil {
					g = NewG(u, f, &Config{Opaque: primitive, MaxDepth: 1, Loose: true})
				}
				as := args(call)
				ti, fi := 2, 3
				if isR {
					ti, fi = 1, 2
				}
				ts := constsOf(u, f, as[ti], 0)
				fv := g.resolve(Val{g.root, as[fi]})
				fn, _ := fv.v.(*ssa.Function)
				if mc, ok := fv.v.(*ssa.MakeClosure); ok {
					fn, _ = mc.Fn.(*ssa.Function)
				}
				for t := range ts {
					if t == "?" || fn == nil {
						r.ob("registration", FuncName(f)+": "+name, false, u.Pos(call.Pos()), "type or function of a registration cannot be read off")
						continue
					}
					if isR {
						if old := rqs[t]; old != nil && old != fn {
							r.ob("registration", mod+": requester for type "+t, false, u.Pos(call.Pos()), "two requesters registered for one request type: "+FuncName(old)+", "+FuncName(fn))
						}
						rqs[t] = fn
						continue
					}
					ak := g.key(Val{g.root, as[1]}).s
					ak = ak[strings.LastIndex(ak, ".")+1:]
					hs = append(hs, regHandler{mod, t, ak, fn, u.Pos(call.Pos())})
					listen := listenAddrs(g, Val{g.root, as[0]})
					if listen != nil {
						r.ob("registration", mod+": "+fn.Name()+" is registered for an address listened on", listen[g.key(Val{g.root, as[1]}).s], u.Pos(call.Pos()), "the address is not among those the server was created for, so the handler is silently dropped")
					}
				}
			}
		}
	}
	return
}

// listenAddrs: keys of the addresses given to the constructor of the server on which AddHandler is chained.
func listenAddrs(g *G, v Val) map[string]bool {
	for k := 0; k < 200; k++ {
		v = g.resolve(v)
		c, _ := callOf(v)
		if c != nil {
			n := g.u.CalleeName(c)
			if strings.HasSuffix(n, "Server.AddHandler") || strings.HasSuffix(n, "Server.AddRequester") {
				v = Val{v.ctx, args(c)[0]}
				continue
			}
			if strings.Contains(n, ".NewFCR") {
				es := varargs(args(c)[0])
				if es == nil {
					return nil
				}
				out := map[string]bool{}
				for _, e := range es {
					out[g.key(Val{v.ctx, e}).s] = true
				}
				return out
			}
			return nil
		}
		u, ok := v.v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		// a field: the only store to it in this function
		key := g.key(Val{v.ctx, fa}).s
		var src ssa.Value
		for _, n := range g.nodes {
			if st, ok := n.instr.(*ssa.Store); ok && n.ctx == v.ctx && g.key(Val{n.ctx, st.Addr}).s == key {
				if src != nil {
					return nil
				}
				src = st.Val
			}
		}
		if src == nil {
			return nil
		}
		v = Val{v.ctx, src}
	}
	return nil
}

// sentKinds: codec kinds of a message value ("?..." when it does not come from an encoder).
func sentKinds(g *G, v Val) []string {
	var out []string
	for _, n := range msgOrigins(g, v) {
		n = n[strings.LastIndex(n, ".")+1:]
		if strings.HasPrefix(n, "Encode") {
			out = append(out, n[6:])
		} else {
			out = append(out, "?"+n)
		}
	}
	return out
}

// requesters: exchanges started by a module's functions.
func exchanges(u *Universe, mod string, cs map[string]*Codec) []exchange {
	var out []exchange
	add := func(f *ssa.Function, g *G) {
		g.calls(func(n *Node, c ssa.CallInstruction, name string) {
			isHTTP := strings.HasSuffix(name, ".SendMessage") && strings.HasPrefix(name, "common/pkg/request.")
			isP2P := name == "common/pkg/fcrp2pserver.FCRServerReader.Read"
			if !isHTTP && !isP2P {
				return
			}
			e := exchange{mod: mod, fn: f, sent: map[string]bool{}, decoded: map[string]bool{}, where: g.where(n)}
			v, ok := n.instr.(*ssa.Call)
			if !ok {
				return
			}
			if isHTTP {
				for _, k := range sentKinds(g, Val{n.ctx, args(c)[2]}) {
					if cd := cs[k]; cd != nil {
						e.sent[cd.encT] = true
						e.kindsStr += k
					}
				}
				uk := g.key(Val{n.ctx, args(c)[1]}).s
				switch {
				case strings.Contains(uk, "GetNetworkInfoAdmin"):
					e.via = "BindAdminAPI"
				case strings.Contains(uk, "GetNetworkInfoClient"):
					e.via = "BindRestAPI"
				case strings.Contains(uk, "GetNetworkInfo"):
					e.via = uk
				}
			} else {
				g.calls(func(w *Node, c2 ssa.CallInstruction, name2 string) {
					if name2 == "common/pkg/fcrp2pserver.FCRServerWriter.Write" {
						// the message written before this read
						if !pathBetween(w, n, func(m *Node) bool {
							cc, ok := m.instr.(ssa.CallInstruction)
							return ok && m != w && m != n && strings.HasPrefix(u.CalleeName(cc), "common/pkg/fcrp2pserver.FCRServerReader.Read")
						}) {
							return
						}
						for _, k := range sentKinds(g, Val{w.ctx, args(c2)[1]}) {
							if cd := cs[k]; cd != nil {
								e.sent[cd.encT] = true
								e.kindsStr += k
							}
						}
					}
				})
			}
			for _, ex := range extracts(v) {
				if ex.Index != 0 {
					continue
				}
				for _, d := range decodesOf(g, g.objkey(Val{n.ctx, ex})) {
					dn := u.CalleeName(d.instr.(ssa.CallInstruction))
					dn = dn[strings.LastIndex(dn, ".")+1:]
					if cd := cs[strings.TrimPrefix(dn, "Decode")]; cd != nil {
						e.decoded[cd.decT] = true
					}
				}
			}
			if len(e.sent) > 0 {
				out = append(out, e)
			}
		})
	}
	done := map[*ssa.Function]bool{}
	for _, f := range u.handlers(hRequester) {
		done[f] = true
		add(f, newGate(u, f))
	}
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || f.Parent() != nil || done[f] || !strings.Contains(f.Pkg.Pkg.Path(), "/api/") {
			continue
		}
		if mod == "gateway" || mod == "provider" {
			continue
		}
		g := newGate(u, f)
		add(f, g)
	}
	return out
}

// pathBetween: a can reach b without passing a node for which stop holds.
func pathBetween(a, b *Node, stop func(*Node) bool) bool {
	seen := map[*Node]bool{}
	st := []*Node{a}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range n.succs {
			if e.to == b {
				return true
			}
			if seen[e.to] || stop(e.to) {
				continue
			}
			seen[e.to] = true
			st = append(st, e.to)
		}
	}
	return false
}

func setStr(m map[string]bool) string {
	var ss []string
	for k := range m {
		ss = append(ss, k)
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func init() {
	mods := []string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin"}
	register("P03", "The registration calls, the dispatchers, every handler, every requester and every call that hands arguments to a requester are read from the type-checked program; request and answer kinds are joined across the modules by message type, and argument lists are compared with what the requester takes apart.",
		mods, func(r *Run) {
			r.rule("registration", "handlers and requesters are registered once per type, for an address that is listened on")
			r.rule("handler-decodes", "the handler registered for a request type decodes exactly that type")
			r.rule("requester-sends", "the requester registered for a type sends a request of that type")
			r.rule("request-is-handled", "every request kind sent is handled at the kind of address it is sent to")
			r.rule("answer-kinds", "the answer kinds a handler sends are those the requester of that request decodes")
			r.rule("inner-kinds", "a message carried inside another is taken apart as the kind that is put there")
			r.rule("requester-arguments", "a request call hands over as many arguments, of the types, as the requester takes apart")
			r.rule("requester-target", "the identifier by which the requester looks up the peer's key is the identifier of the peer contacted")
			r.rule("dialled-interface", "a request goes to the peer asked for, at the interface whose handlers are for requests of that origin")
			r.rule("listener-table", "a connection is served with the handlers registered for the address it was accepted at")
			r.rule("dispatch", "the server runs the function stored under the type of the very message it passes on (or of the request asked for)")
			cs := codecs(r.U("common"), nil)
			var hs []regHandler
			rqs := map[string]map[string]*ssa.Function{}
			for _, mod := range []string{"gateway", "provider"} {
				h, q := regs(r.U(mod), mod, r)
				hs = append(hs, h...)
				rqs[mod] = q
			}
			// handlers
			answers := map[string]map[string]bool{} // mod|type -> answer types
			byKey := map[string]regHandler{}
			for _, h := range hs {
				u := r.U(h.mod)
				k := h.mod + "|" + h.typ + "|" + h.addr
				if o, dup := byKey[k]; dup && o.fn != h.fn {
					r.ob("registration", h.mod+": handler for type "+h.typ, false, h.where, "two handlers registered for one request type at one address: "+FuncName(o.fn)+", "+FuncName(h.fn))
				}
				byKey[k] = h
				g := newGate(u, h.fn)
				req := h.fn.Params[len(h.fn.Params)-1]
				var dec []string
				okDec := true
				for _, d := range decodesOf(g, g.objkey(Val{g.root, req})) {
					dn := u.CalleeName(d.instr.(ssa.CallInstruction))
					dn = dn[strings.LastIndex(dn, ".")+1:]
					cd := cs[strings.TrimPrefix(dn, "Decode")]
					dec = append(dec, dn)
					if cd == nil || cd.decT != h.typ {
						okDec = false
					}
				}
				r.ob("handler-decodes", h.mod+": "+h.fn.Name()+" for type "+h.typ, okDec, h.where, "registered for request type "+h.typ+" but decodes "+strings.Join(dec, ","))
				ans := map[string]bool{}
				g.calls(func(n *Node, c ssa.CallInstruction, name string) {
					if !g.reachable(n) {
						return
					}
					var m ssa.Value
					if name == "common/pkg/fcrp2pserver.FCRServerWriter.Write" {
						m = args(c)[1]
					} else if strings.HasSuffix(name, "rest.ResponseWriter.WriteJson") || strings.HasSuffix(name, ".WriteJson") {
						m = args(c)[1]
					} else {
						return
					}
					for _, k := range sentKinds(g, Val{n.ctx, m}) {
						if cd := cs[k]; cd != nil && !isRefusal([]string{".Encode" + k}) {
							ans[cd.encT] = true
						}
					}
				})
				answers[k] = ans
				r.count("handlers", 1)
			}
			// requesters and exchanges
			for _, mod := range []string{"gateway", "provider", "client", "gateway-admin", "provider-admin"} {
				u := r.U(mod)
				exs := exchanges(u, mod, cs)
				for t, f := range rqs[mod] {
					sends := map[string]bool{}
					for _, e := range exs {
						if e.fn == f {
							for k := range e.sent {
								sends[k] = true
							}
						}
					}
					r.ob("requester-sends", mod+": "+f.Name()+" for type "+t, len(sends) == 1 && sends[t], u.Pos(f.Pos()), "registered for request type "+t+" but sends "+setStr(sends))
				}
				// request call sites
				callDec := map[string]map[string]bool{}
				for _, f := range u.Funcs {
					if f.Pkg == nil || !u.Roots[f.Pkg] {
						continue
					}
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							call, ok := ins.(ssa.CallInstruction)
							if !ok {
								continue
							}
							name := u.CalleeName(call)
							if !strings.HasPrefix(name, "common/pkg/fcrp2pserver.FCRP2PServer.Request") {
								continue
							}
							requestSite(u, r, mod, f, call, name, rqs[mod], hs, cs, callDec)
						}
					}
				}
				for _, e := range exs {
					for t := range e.sent {
						dec := map[string]bool{}
						for k := range e.decoded {
							dec[k] = true
						}
						for k := range callDec[t] {
							dec[k] = true
						}
						var hits []regHandler
						for _, h := range hs {
							if h.typ != t || e.via != "" && h.addr != e.via {
								continue
							}
							hits = append(hits, h)
						}
						con := mod + ": " + e.fn.Name() + " sends type " + t
						r.ob("request-is-handled", con, len(hits) > 0, e.where, "no handler is registered for this request type at "+e.via)
						for _, h := range hits {
							a := answers[h.mod+"|"+h.typ+"|"+h.addr]
							// an answer nobody decodes on the spot is passed on as it is,
							// to be decoded later as the one kind this request is for
							ok := len(dec) > 0 || len(a) == 1
							for k := range dec {
								if !a[k] {
									ok = false
								}
							}
							for k := range a {
								if len(dec) > 0 && !dec[k] {
									ok = false
								}
							}
							r.ob("answer-kinds", con+", handled by "+h.fn.Name(), ok, e.where, fmt.Sprintf("handler answers with types {%s}, requester decodes {%s}", setStr(a), setStr(dec)))
						}
						r.count("exchanges", 1)
					}
				}
			}
			innerKinds(r, cs, answers)
			dispatchRules(r.U("common"), r)
			dialRules(r.U("common"), r)
			r.floor("handler-decodes", 15)
			r.floor("requester-sends", 5)
			r.floor("answer-kinds", 20)
			r.floor("requester-arguments", 5)
			r.floor("dispatch", 6)
			r.floor("dialled-interface", 9)
		})
}

func requestSite(u *Universe, r *Run, mod string, f *ssa.Function, call ssa.CallInstruction, name string, rqs map[string]*ssa.Function, hs []regHandler, cs map[string]*Codec, callDec map[string]map[string]bool) {
	as := args(call)
	base := name[strings.LastIndex(name, ".")+1:]
	where := u.Pos(call.Pos())
	con := FuncName(f) + ": " + base
	els := varargs(as[3])
	if els == nil {
		if c, ok := as[3].(*ssa.Const); !ok || c.Value != nil {
			r.ob("requester-arguments", con, false, where, "argument list is not a literal")
			return
		}
	}
	g := NewG(u, f, &Config{Opaque: primitive, MaxDepth: 1, Loose: true})
	for t := range constsOf(u, f, as[2], 0) {
		rq := rqs[t]
		r.ob("requester-arguments", con+" type "+t+": registered", rq != nil, where, "no requester is registered for this request type")
		if rq == nil {
			continue
		}
		if callDec[t] == nil {
			callDec[t] = map[string]bool{}
		}
		// decoders applied to the result
		if cv, ok := call.(*ssa.Call); ok {
			for _, ex := range extracts(cv) {
				if ex.Index == 0 {
					k := g.objkey(Val{g.root, ex})
					for _, d := range decodesOf(g, k) {
						dn := u.CalleeName(d.instr.(ssa.CallInstruction))
						dn = dn[strings.LastIndex(dn, ".")+1:]
						if cd := cs[strings.TrimPrefix(dn, "Decode")]; cd != nil {
							callDec[t][cd.decT] = true
						}
					}
				}
			}
		}
		want := "gateway"
		if base == "RequestProvider" {
			want = "provider"
		}
		wantAddr := "BindGatewayAPI"
		if mod == "provider" {
			wantAddr = "BindProviderAPI"
		}
		handled := false
		for _, h := range hs {
			if h.typ == t && h.mod == want && h.addr == wantAddr {
				handled = true
			}
		}
		r.ob("request-is-handled", con+" type "+t, handled, where, "no "+want+" handler for this type at the address such a request goes to")
		n, typs, idIdx, idKind := requesterShape(u, rq)
		ok := n == len(els)
		msg := fmt.Sprintf("%d arguments given, %s takes %d", len(els), rq.Name(), n)
		for i := 0; ok && i < n; i++ {
			at := els[i].Type()
			if mi, isM := els[i].(*ssa.MakeInterface); isM {
				at = mi.X.Type()
			} else if !types.IsInterface(at) {
				at = els[i].Type()
			}
			if typs[i] != nil && !types.Identical(at, typs[i]) {
				ok = false
				msg = fmt.Sprintf("argument %d is a %s, %s expects a %s", i, shortT(at), rq.Name(), shortT(typs[i]))
			}
		}
		r.ob("requester-arguments", con+" type "+t, ok, where, msg)
		if ok && idIdx >= 0 && idIdx < len(els) {
			same := sameEverywhere(u, f, els[idIdx], as[1], 0)
			r.ob("requester-target", con+" type "+t, same && idKind == want, where, fmt.Sprintf("the requester verifies the answer with the key of %s args[%d], which is not the %s contacted", idKind, idIdx, want))
		}
	}
}

// requesterShape: number of arguments, asserted types, and the argument naming the peer whose key verifies the answer.
func requesterShape(u *Universe, f *ssa.Function) (int, []types.Type, int, string) {
	g := newGate(u, f)
	av := f.Params[len(f.Params)-1]
	n := -1
	var typs []types.Type
	at := map[int]types.Type{}
	idIdx, idKind := -1, ""
	argIndex := func(v Val) int { // v is args[i]
		v = g.resolve(v)
		if u, ok := v.v.(*ssa.UnOp); ok {
			if ia, ok := g.resolve(Val{v.ctx, u.X}).v.(*ssa.IndexAddr); ok {
				b := g.resolve(Val{v.ctx, ia.X})
				if c, ok := ia.Index.(*ssa.Const); ok && b.v == av {
					return int(c.Int64())
				}
			}
		}
		return -1
	}
	for _, nd := range g.nodes {
		switch x := nd.instr.(type) {
		case *ssa.BinOp:
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				c, ok := p[1].(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					continue
				}
				if k := g.key(Val{nd.ctx, p[0]}).s; k == "builtin.len("+g.objkey(Val{g.root, av}).s+")" {
					n = int(c.Int64())
				}
			}
		case *ssa.TypeAssert:
			if i := argIndex(Val{nd.ctx, x.X}); i >= 0 {
				at[i] = x.AssertedType
			}
		}
	}
	g.calls(func(nd *Node, c ssa.CallInstruction, name string) {
		b := name[strings.LastIndex(name, ".")+1:]
		if b != "GetGateway" && b != "GetProvider" {
			return
		}
		v := g.resolve(Val{nd.ctx, args(c)[1]})
		if ex, ok := v.v.(*ssa.Extract); ok {
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
				if i := argIndex(Val{v.ctx, ta.X}); i >= 0 {
					idIdx, idKind = i, strings.ToLower(b[3:])
				}
			}
		} else if ta, ok := v.v.(*ssa.TypeAssert); ok {
			if i := argIndex(Val{v.ctx, ta.X}); i >= 0 {
				idIdx, idKind = i, strings.ToLower(b[3:])
			}
		}
	})
	max := n
	for i := range at {
		if i+1 > max {
			max = i + 1
		}
	}
	if n < 0 {
		n = max
	}
	for i := 0; i < n; i++ {
		typs = append(typs, at[i])
	}
	return n, typs, idIdx, idKind
}

// dispatchRules: every function value taken from a map in the servers is looked up by the right type.
func dispatchRules(u *Universe, r *Run) {
	for _, pkg := range []string{"common/pkg/fcrp2pserver", "common/pkg/fcrrestserver"} {
		for _, f := range u.Funcs {
			if f.Pkg == nil || shortPkg(f.Pkg.Pkg.Path()) != pkg {
				continue
			}
			g := NewG(u, f, &Config{MaxDepth: 2, Loose: true, Opaque: func(n string, fn *ssa.Function) bool { return !strings.HasPrefix(n, pkg) }})
			g.calls(func(n *Node, c ssa.CallInstruction, name string) {
				cc := c.Common()
				if cc.IsInvoke() || cc.StaticCallee() != nil {
					return
				}
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					return
				}
				s := cc.Signature()
				if s.Variadic() && s.Params().Len() == 3 {
					lk := lookupOf(g, Val{n.ctx, cc.Value})
					if lk.v == nil {
						if n.ctx.parent == nil && isParam(g.resolve(Val{n.ctx, cc.Value}).v) {
							return
						}
						r.ob("dispatch", FuncName(f)+": requester", false, g.where(n), "the requester called is not one looked up by type")
						return
					}
					idx := g.resolve(Val{lk.ctx, lookupIndex(lk.v)})
					ok := isParam(idx.v) && idx.ctx == g.root
					rest := g.resolve(Val{n.ctx, cc.Args[2]})
					last := f.Params[len(f.Params)-1]
					r.ob("dispatch", FuncName(f)+": requester", ok && rest.v == last, g.where(n), "the requester is not the one for the asked type, or is not given the caller's arguments")
					return
				}
				// handler: last argument is the message
				na := s.Params().Len()
				if na < 2 || typeFull(s.Params().At(na-1).Type()) != tMsg {
					return
				}
				lk := lookupOf(g, Val{n.ctx, cc.Value})
				if lk.v == nil {
					if n.ctx.parent == nil && isParam(g.resolve(Val{n.ctx, cc.Value}).v) {
						return
					}
					r.ob("dispatch", FuncName(f)+": handler", false, g.where(n), "the handler called is not one looked up by type")
					return
				}
				ik := g.key(Val{lk.ctx, lookupIndex(lk.v)}).s
				want := "common/pkg/fcrmessages.FCRMessage.GetMessageType(" + g.objkey(Val{n.ctx, cc.Args[na-1]}).s + ")"
				r.ob("dispatch", FuncName(f)+": handler", ik == want, g.where(n), "handler looked up by "+ik+" but given another message")
			})
			if f.Name() == "AddHandler" || f.Name() == "AddRequester" {
				ti, fi := 2, 3
				if f.Name() == "AddRequester" {
					ti, fi = 1, 2
				}
				found := false
				for _, n := range g.nodes {
					mu, ok := n.instr.(*ssa.MapUpdate)
					if !ok {
						continue
					}
					if g.resolve(Val{n.ctx, mu.Key}).v != f.Params[ti] || g.resolve(Val{n.ctx, mu.Value}).v != f.Params[fi] {
						r.ob("dispatch", FuncName(f)+": table", false, g.where(n), "the table is not updated with the given type and function")
						continue
					}
					found = true
					if f.Name() == "AddHandler" {
						lk := lookupOf(g, Val{n.ctx, mu.Map})
						r.ob("dispatch", FuncName(f)+": address", lk.v != nil && g.resolve(Val{lk.ctx, lookupIndex(lk.v)}).v == f.Params[1], g.where(n), "the table updated is not that of the given address")
					}
				}
				r.ob("dispatch", FuncName(f)+": table", found, u.Pos(f.Pos()), "the function given is not entered under the type given")
			}
		}
	}
}

func isParam(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }

func lookupOf(g *G, v Val) Val {
	r := g.resolve(v)
	switch x := r.v.(type) {
	case *ssa.Lookup:
		return r
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return Val{r.ctx, lk}
		}
	}
	return Val{}
}

func lookupIndex(v ssa.Value) ssa.Value { return v.(*ssa.Lookup).Index }

// callersOf: the static call sites of f.
func (u *Universe) callersOf(f *ssa.Function) []ssa.CallInstruction {
	if u.callers == nil {
		u.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, c := range u.Funcs {
			for _, b := range c.Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok {
						if callee := call.Common().StaticCallee(); callee != nil {
							u.callers[callee] = append(u.callers[callee], call)
						}
					}
				}
			}
		}
	}
	return u.callers[f]
}

func paramIndex(f *ssa.Function, v ssa.Value) int {
	for i, p := range f.Params {
		if p == v {
			return i
		}
	}
	return -1
}

// sameEverywhere: a and b denote the same object in f, or, being parameters of f, at every static call of f.
func sameEverywhere(u *Universe, f *ssa.Function, a, b ssa.Value, depth int) bool {
	g := NewG(u, f, &Config{Opaque: primitive, MaxDepth: 1, Loose: true})
	if g.objkey(Val{g.root, a}).s == g.objkey(Val{g.root, b}).s {
		return true
	}
	ra, rb := g.resolve(Val{g.root, a}).v, g.resolve(Val{g.root, b}).v
	if depth > 6 {
		return false
	}
	ia, ib := paramIndex(f, ra), paramIndex(f, rb)
	if ia < 0 && ib < 0 {
		return false
	}
	sites := u.callersOf(f)
	for _, s := range sites {
		as := s.Common().Args
		x, y := ra, rb
		if ia >= 0 {
			x = as[ia]
		}
		if ib >= 0 {
			y = as[ib]
		}
		if ia < 0 || ib < 0 || !sameEverywhere(u, s.Parent(), x, y, depth+1) {
			return false
		}
	}
	return len(sites) > 0
}
