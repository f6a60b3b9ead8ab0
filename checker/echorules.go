package main

// P35: a node's answer is about the request it answers: identifiers are echoed, what is looked up is what was asked
// for, and what the answer says was found, refreshed or kept is what the lookup said.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wires a request and its answer may share without the answer having to repeat the request's value
var notEchoed = map[string]bool{"reputation": true, "voucher": true}

// lookups: which argument has to be (made of) which part of the request.
var lookupArgs = map[string]map[int]string{
	"FCROfferMgr.GetOffers":               {1: "piece_cid"},
	"FCROfferMgr.GetDHTOffers":            {1: "piece_cid"},
	"FCROfferMgr.GetGroupOffers":          {1: "piece_cid"},
	"FCROfferMgr.GetDHTOffersWithinRange": {1: "cid_min", 2: "cid_max"},
	"FCROfferMgr.GetOfferByDigest":        {1: "offer_digests"},
	"CIDOffer.GenerateSubCIDOffer":        {1: "piece_cid"},
	"FCRRegisterMgr.GetGatewaysNearCID":   {1: "piece_cid|cids", 2: "num_dht"},
	"Reputation.ClientExists":             {1: "client_id"},
	"Reputation.GetClientReputation":      {1: "client_id"},
	"Reputation.SetClientReputation":      {1: "client_id", 2: "reputation"},
	"cidoffer.NewCIDOffer":                {1: "cids", 2: "price", 3: "expiry", 4: "qos"},
}

var coreMaps = map[string]string{
	"AcknowledgementMap":  "piece_cid",
	"AcknowledgementMap2": "gateway_id",
	"NodeOfferMap":        "gateway_id",
}

// idTypes: what identifies something.
func isIDType(t types.Type) bool {
	s := typeFull(t)
	return s == "common/pkg/cid.ContentID" || s == "common/pkg/nodeid.NodeID"
}

type echo struct {
	r     *Run
	g     *G
	u     *Universe
	con   string
	wires map[Val]string // request extract (resolved) -> wire name
	keys  map[string]string
	has   map[string]bool // wires of the request
}

// wiresOf: wire names the i-th result of a decoder is made of.
func wiresOf(c *Codec, i int) []string {
	var out []string
	if i >= len(c.results) {
		return nil
	}
	for fl := range c.results[i] {
		if m := fRe.FindStringSubmatch(fl); m != nil {
			out = append(out, m[1])
		}
	}
	sort.Strings(out)
	return out
}

// parts: what the value is made of: parts of the request ("req:wire"), the node's own identity ("self"), results of
// calls ("call:name#i") and constants ("const").
func (e *echo) parts(v Val) (out map[string]bool, ops map[string]bool) {
	g := e.g
	out = map[string]bool{}
	b := newBackSlice(g)
	// what a store returns is not made of what it was asked for
	b.leaf = func(name string) bool {
		for _, s := range []string{"OfferMgr.", "FCRRegisterMgr.", "Reputation.", "FCRPaymentMgr.", "FCRP2PServer."} {
			if strings.Contains(name, s) {
				return true
			}
		}
		return false
	}
	b.leafV = func(v Val) bool {
		if w, ok := e.wireOf(v); ok {
			out["req:"+w] = true
			return true
		}
		switch x := v.v.(type) {
		case *ssa.Const:
			if x.Value != nil {
				out["const"] = true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := g.resolve(Val{v.ctx, x.X})
				if fa, ok := a.v.(*ssa.FieldAddr); ok {
					t := typeFull(fa.X.Type())
					f := fieldName(fa.X.Type(), fa.Field)
					if strings.HasSuffix(t, "internal/core.Core") {
						if f == "GatewayID" || f == "ProviderID" {
							out["self"] = true
						} else {
							out["core:"+f] = true
						}
						return true
					}
				}
			}
		case *ssa.Slice:
			if _, is := e.wireOf(g.resolve(Val{v.ctx, x.X})); is && (x.High != nil || x.Low != nil && !isIntConst(x.Low, 0)) {
				b.ops["a part of a list"] = true
			}
			// a list made of literal elements
			if al, ok := g.resolve(Val{v.ctx, x.X}).v.(*ssa.Alloc); ok {
				e.elements(b, v.ctx, al)
			}
		case *ssa.Alloc:
			e.elements(b, v.ctx, x)
		case *ssa.IndexAddr:
			if _, is := e.wireOf(g.resolve(Val{v.ctx, x.X})); is {
				iv := g.resolve(Val{v.ctx, x.Index})
				_, fixed := iv.v.(*ssa.Const)
				ins, ok := iv.v.(ssa.Instruction)
				if fixed || ok && iv.ctx == v.ctx && !reachesB(ins.Block(), ins.Block()) && !reachesB(x.Block(), x.Block()) {
					b.ops["a part of a list"] = true
				}
			}
		}
		if c, i := callOf(v); c != nil && v.ctx.children[c] == nil {
			if _, isB := c.Call.Value.(*ssa.Builtin); !isB {
				out["call:"+e.u.CalleeName(c)+"#"+itoa(i)] = true
			}
		}
		return false
	}
	b.add(v)
	return out, b.ops
}

func (e *echo) elements(b *backSlice, c *Ctx, al *ssa.Alloc) {
	if al.Referrers() == nil {
		return
	}
	for _, r := range *al.Referrers() {
		var addr ssa.Value
		switch x := r.(type) {
		case *ssa.IndexAddr:
			addr = x
		case *ssa.FieldAddr:
			addr = x
		default:
			continue
		}
		for _, r2 := range *addr.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == addr {
				b.add(Val{c, s.Val})
			}
		}
	}
}

func (e *echo) wireOf(v Val) (string, bool) {
	if w, ok := e.wires[v]; ok {
		return w, true
	}
	if ins, ok := v.v.(*ssa.Const); ok || ins != nil {
		return "", false
	}
	w, ok := e.keys[e.g.objkey(v).s]
	return w, ok
}

// lookups and helpers whose result has been computed from what it was given: not a way for an identifier to be another.
func reqParts(p map[string]bool) []string {
	var out []string
	for k := range p {
		if strings.HasPrefix(k, "req:") {
			out = append(out, k[4:])
		}
	}
	sort.Strings(out)
	return out
}

// isPart: on every way, the value is (made of) the given part of the request; "" is also allowed if empty is set.
func (e *echo) isPart(st *FSet, v Val, want string, empty bool) (bool, string) {
	ok, why := true, ""
	alts := map[string]bool{}
	for _, w := range strings.Split(want, "|") {
		alts[w] = true
	}
	e.g.ways(st, v, func(st *FSet, v Val, leaf bool) bool {
		if w, is := e.wireOf(e.g.resolve(v)); is {
			if !alts[w] {
				ok, why = false, "the request's "+w
			}
			return true
		}
		if !leaf {
			return false
		}
		if c, isC := v.v.(*ssa.Const); isC {
			if empty && (c.Value == nil || c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "") {
				return true
			}
			ok, why = false, "a constant"
			return true
		}
		at := v
		for {
			cv, isC := at.v.(*ssa.Convert)
			if !isC {
				break
			}
			at = e.g.resolve(Val{at.ctx, cv.X})
		}
		switch x := at.v.(type) {
		case *ssa.BinOp:
			if b, isB := x.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsNumeric != 0 {
				ok, why = false, "something computed"
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.SUB || x.Op == token.XOR {
				ok, why = false, "something computed"
				return true
			}
		}
		p, _ := e.parts(v)
		rp := reqParts(p)
		n := 0
		for _, w := range rp {
			if alts[w] {
				n++
			}
		}
		if n == 0 {
			ok, why = false, "something that is not made of it"
			if len(rp) > 0 {
				why = "the request's " + strings.Join(rp, ", ")
			} else if p["self"] {
				why = "this node's own identifier"
			}
		} else if n < len(rp) {
			ok, why = false, "made of the request's "+strings.Join(rp, ", ")
		}
		return true
	})
	return ok, why
}

func init() {
	register("P35", "Every handler of peer and REST requests of gateway and provider is expanded with its helpers and solved for must-facts. Each identifier in an answer that the request carries too, each argument of a lookup in the offer store, the reputation store, the ring and the node's tables, and each argument forwarded to another node is traced, on every way it may be computed, to the part of the request it has to be; what the answer claims (found, exists, refreshed, reputation) is traced to the lookup that said so.",
		[]string{"gateway", "provider"}, func(r *Run) {
			r.rule("echoes-request", "an identifier carried by request and answer alike (nonce, content identifier, challenge, client or gateway identifier) is the request's in every answer; a payment channel named in the answer is the request's")
			r.rule("names-itself", "a gateway or provider identifier a node puts into an answer on its own account is its own")
			r.rule("looks-up-what-was-asked", "offers, gateways, clients and acknowledgements are looked up by what the request asks for")
			r.rule("tells-what-was-found", "found and exists in an answer are what the lookup said, or whether the answered list has elements")
			r.rule("tells-what-was-done", "refreshed is answered only where the request asked for it; a reputation answered is the one the store holds")
			r.rule("forwards-what-was-asked", "the arguments handed on to the requester of another node are the parts of this request they are named after")
			r.rule("answers-all", "the lists of an answer are not cut short by leaving the loop that fills them")
			r.rule("digest-text", "the text of a digest, by which offers are asked for, is the whole digest, written and read in the same alphabet")
			digestText(r, r.U("gateway"), "digest-text")
			kinds := 0
			for _, mod := range []string{"gateway", "provider"} {
				u := r.U(mod)
				cs := codecs(u, nil)
				_, rqs := regs(u, mod, scratchRun())
				for _, f := range append(u.handlers(hPeer), u.handlers(hREST)...) {
					g := NewG(u, f, &Config{Opaque: primitive, CallFacts: primFacts, Loose: true, ValueFacts: true})
					g.Solve()
					var req Val
					for _, p := range f.Params {
						if typeFull(p.Type()) == tMsg {
							req = Val{g.root, p}
						}
					}
					if req.v == nil {
						continue
					}
					e := &echo{r: r, g: g, u: u, con: mod + ": " + short(f), wires: map[Val]string{}, keys: map[string]string{}, has: map[string]bool{}}
					kind := ""
					for _, dn := range decodesOf(g, g.objkey(req)) {
						dname := u.CalleeName(dn.instr.(ssa.CallInstruction))
						kind = dname[strings.LastIndex(dname, ".Decode")+7:]
						c := cs[kind]
						if c == nil {
							continue
						}
						for _, ex := range extracts(dn.instr.(ssa.Value)) {
							for _, w := range wiresOf(c, ex.Index) {
								v := Val{dn.ctx, ex}
								e.wires[v] = w
								e.wires[g.resolve(v)] = w
								e.keys[g.objkey(v).s] = w
								e.has[w] = true
							}
						}
					}
					if kind == "" {
						continue
					}
					kinds++
					e.handler(cs, rqs)
				}
			}
			for _, mod := range []string{"gateway", "provider"} {
				u := r.U(mod)
				cs := codecs(u, nil)
				_, rqs := regs(u, mod, scratchRun())
				rangeArgs(r, u, mod, cs, rqs)
			}
			r.count("request kinds", kinds)
			r.floor("echoes-request", 20)
			r.floor("looks-up-what-was-asked", 14)
			r.floor("tells-what-was-found", 8)
			r.floor("names-itself", 3)
		})
}

func (c *Codec) wireNames(i int) []string {
	var out []string
	for _, w := range c.wireOfParam(i) {
		out = append(out, w[0])
	}
	return out
}

func (e *echo) handler(cs map[string]*Codec, rqs map[string]*ssa.Function) {
	g, r := e.g, e.r
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if !g.reachable(n) || n.after {
			return
		}
		as := args(c)
		base := name[strings.LastIndex(name, "/")+1:]
		if strings.HasPrefix(name, "common/pkg/fcrmessages.Encode") {
			k := name[strings.LastIndex(name, ".Encode")+7:]
			if ec := cs[k]; ec != nil {
				e.answer(n, c, k, ec)
			}
			return
		}
		for suf, want := range lookupArgs {
			if !strings.HasSuffix(base, "."+suf) && base != suf {
				continue
			}
			for _, i := range []int{1, 2, 3, 4} {
				w, ok := want[i]
				if !ok {
					continue
				}
				if suf == "cidoffer.NewCIDOffer" && !e.has["cids"] {
					continue
				}
				if i >= len(as) {
					continue
				}
				known := false
				for _, a := range strings.Split(w, "|") {
					known = known || e.has[a]
				}
				if !known {
					continue
				}
				r.count("lookup arguments", 1)
				good, why := e.isPart(n.in, Val{n.ctx, as[i]}, w, false)
				r.ob("looks-up-what-was-asked", e.con+": "+suf+" "+w, good, g.where(n), "asked by "+why+", not by the request's "+w)
				if good {
					_, ops := e.parts(Val{n.ctx, as[i]})
					r.ob("answers-all", e.con+": "+suf+" "+w, !ops["a part of a list"], g.where(n), "only a part of the request's "+w+" is looked up")
				}
			}
			if suf == "cidoffer.NewCIDOffer" {
				p, _ := e.parts(Val{n.ctx, as[0]})
				r.ob("names-itself", e.con+": offer", p["self"] && len(reqParts(p)) == 0, g.where(n), "the offer made here does not name this provider")
			}
		}
		if strings.HasPrefix(base, "fcrp2pserver.FCRP2PServer.Request") {
			e.forwarded(n, c, rqs, cs)
		}
	})
	for _, n := range g.nodes {
		l, ok := n.instr.(*ssa.Lookup)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		if _, isM := l.X.Type().Underlying().(*types.Map); !isM {
			continue
		}
		k := g.key(Val{n.ctx, l.X}).s
		want := ""
		switch {
		case strings.HasSuffix(k, ".AcknowledgementMap"):
			want = coreMaps["AcknowledgementMap"]
		case strings.Contains(k, ".AcknowledgementMap["):
			want = coreMaps["AcknowledgementMap2"]
		case strings.HasSuffix(k, ".NodeOfferMap"):
			want = coreMaps["NodeOfferMap"]
		}
		if want == "" || !e.has[want] {
			continue
		}
		r.count("table lookups", 1)
		good, why := e.isPart(n.in, Val{n.ctx, l.Index}, want, false)
		r.ob("looks-up-what-was-asked", e.con+": table by "+want, good, g.where(n), "looked up by "+why+", not by the request's "+want)
		if good {
			_, ops := e.parts(Val{n.ctx, l.Index})
			r.ob("answers-all", e.con+": table by "+want, !ops["a part of a list"], g.where(n), "only a part of the request's "+want+" is looked up")
		}
	}
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func isListT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (e *echo) answer(n *Node, c ssa.CallInstruction, kind string, ec *Codec) {
	g, r := e.g, e.r
	as := args(c)
	isAnswer := strings.HasSuffix(kind, "Response") || strings.HasSuffix(kind, "ResponseV2")
	where := g.where(n)
	for i, a := range as {
		ws := ec.wireNames(i)
		v := Val{n.ctx, a}
		for _, w := range ws {
			con := e.con + ": " + kind + " " + w
			switch {
			case isListT(a.Type()):
				if isAnswer {
					_, ops := e.parts(v)
					r.ob("answers-all", con, !ops["a loop that can be left early"] && !ops["a part of a list"], where, "the loop that fills the list can be left before every element was seen")
				}
			case w == "payment_channel":
				if e.has["payment_channel_address"] {
					good, why := e.isPart(n.in, v, "payment_channel_address", true)
					r.ob("echoes-request", con, good, where, "the payment channel named is "+why+", not the one the request was paid through")
				}
			case w == "found" || w == "exists":
				if isBoolT(a.Type()) {
					e.found(n, v, con, as)
				}
			case w == "refreshed":
				e.refreshed(n, v, con)
			case w == "reputation":
				good := true
				g.ways(n.in, v, func(st *FSet, v Val, leaf bool) bool {
					if !leaf {
						_, is := e.wireOf(g.resolve(v))
						if is {
							good = false
						}
						return is
					}
					if isIntConst(v.v, 0) {
						return true
					}
					c, _ := callOf(v)
					if c == nil || !strings.Contains(e.u.CalleeName(c), "reputation.Reputation.") {
						good = false
					}
					return true
				})
				r.ob("tells-what-was-done", con, good, where, "the reputation answered is not the one the store returned")
			case e.has[w] && isAnswer && !notEchoed[w] && !isBoolT(a.Type()):
				good, why := e.isPart(n.in, v, w, false)
				r.ob("echoes-request", con, good, where, "the answer's "+w+" is "+why+", not the one of the request")
			case (w == "gateway_id" || w == "provider_id") && isIDType(a.Type()) && !e.has[w]:
				good := true
				g.ways(n.in, v, func(st *FSet, v Val, leaf bool) bool {
					if !leaf {
						return false
					}
					p, _ := e.parts(v)
					if !p["self"] || len(reqParts(p)) > 0 {
						good = false
					}
					return true
				})
				r.ob("names-itself", con, good, where, "the node does not name itself as "+w)
			}
		}
	}
}

// found: what the answer claims is what the lookup said.
func (e *echo) found(n *Node, v Val, con string, as []ssa.Value) {
	g, r := e.g, e.r
	lists := map[string]bool{}
	some := false
	for _, a := range as {
		if isListT(a.Type()) {
			o := g.resolve(Val{n.ctx, a})
			if !isNilConst(o.v) {
				some = true
				lists[g.objkey(o).s] = true
			}
		} else if !isBoolT(a.Type()) {
			if p, _ := e.parts(Val{n.ctx, a}); p["core:AcknowledgementMap"] || p["core:NodeOfferMap"] {
				some = true
			}
		}
	}
	bad := ""
	_, direct := g.resolve(v).v.(*ssa.Const)
	g.ways(n.in, v, func(st *FSet, v Val, leaf bool) bool {
		pos := true
		for {
			x, ok := v.v.(*ssa.UnOp)
			if !ok || x.Op != token.NOT {
				break
			}
			pos = !pos
			v = g.resolve(Val{v.ctx, x.X})
		}
		switch x := v.v.(type) {
		case *ssa.Const:
			b := x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) == pos
			if !b && direct && some {
				bad = "it is said that nothing was found although a list is answered"
			}
			if b && !e.anyTrue(st) {
				bad = "it is said that something was found although nothing was looked at"
			}
			return true
		case *ssa.BinOp:
			if name, ok := lenCompare(g, v.ctx, x); ok {
				l, positive := name, lenPositive(g, v.ctx, x)
				if positive == 0 || (positive > 0) != pos {
					bad = "whether the list has elements is told wrongly"
				} else if some && len(lists) > 0 && !lists[l.s] && !e.sameList(l, lists) {
					bad = "another list is asked whether it has elements"
				}
				return true
			}
			for _, o := range []ssa.Value{x.X, x.Y} {
				if c, _ := callOf(g.resolve(Val{v.ctx, o})); c != nil && strings.Contains(e.u.CalleeName(c), "reputation.Reputation.") {
					bad = "told by the reputation's value, not by whether the client is known"
				}
			}
			return true
		}
		if c, _ := callOf(v); c != nil && v.ctx.children[c] == nil {
			if !pos {
				bad = "the opposite of what the lookup said"
			}
			return true
		}
		return false
	})
	r.ob("tells-what-was-found", con, bad == "", g.where(n), bad)
}

func (e *echo) sameList(l Key, lists map[string]bool) bool {
	// a list that is the source or the result of a lookup
	return strings.Contains(l.s, "#0") || strings.Contains(l.s, "]")
}

// anyTrue: something was found true, or present, on this way.
func (e *echo) anyTrue(st *FSet) bool {
	for id := range st.m {
		f := e.g.facts[id]
		if f.pred == "true" || f.pred == "inmap" || strings.HasSuffix(f.pred, "=true") {
			return true
		}
		if f.pred == "<" || f.pred == "<=" || f.pred == "!=" {
			for _, a := range f.args {
				if strings.Contains(a, "builtin.len(") {
					return true
				}
			}
		}
	}
	return false
}

// lenCompare: a comparison of the length of a list with a constant.
func lenCompare(g *G, c *Ctx, b *ssa.BinOp) (Key, bool) {
	for _, x := range []ssa.Value{b.X, b.Y} {
		v := g.resolve(Val{c, x})
		if cl, ok := v.v.(*ssa.Call); ok {
			if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return g.objkey(Val{v.ctx, cl.Call.Args[0]}), true
			}
		}
	}
	return Key{}, false
}

// lenPositive: 1 if the comparison holds exactly for lists with elements, -1 for those without, 0 otherwise.
func lenPositive(g *G, c *Ctx, b *ssa.BinOp) int {
	x, y, op := g.resolve(Val{c, b.X}), g.resolve(Val{c, b.Y}), b.Op
	k, ok := y.v.(*ssa.Const)
	if !ok {
		k, ok = x.v.(*ssa.Const)
		if !ok {
			return 0
		}
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	n := k.Int64()
	switch {
	case op == token.GTR && n == 0, op == token.NEQ && n == 0, op == token.GEQ && n == 1:
		return 1
	case op == token.EQL && n == 0, op == token.LEQ && n == 0, op == token.LSS && n == 1:
		return -1
	}
	return 0
}

func (e *echo) refreshed(n *Node, v Val, con string) {
	g := e.g
	if !e.has["refresh"] {
		return
	}
	good := true
	asked := func(st *FSet) bool {
		for x, w := range e.wires {
			if c, i := callOf(x); w == "refresh" && c != nil && g.hasIn(st, mkFact("ret"+itoa(i)+"=true", Key{s: g.token(Val{x.ctx, c})})) {
				return true
			}
		}
		return false
	}
	g.ways(n.in, v, func(st *FSet, v Val, leaf bool) bool {
		if w, is := e.wireOf(g.resolve(v)); is {
			if w != "refresh" {
				good = false
			}
			return true
		}
		if !leaf {
			return false
		}
		if c, ok := v.v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) && !asked(st) {
				good = false
			}
			return true
		}
		return true
	})
	e.r.ob("tells-what-was-done", con, good, g.where(n), "a refresh is reported that the request did not ask for")
}

// forwarded: the arguments handed on to the requester of another node.
func (e *echo) forwarded(n *Node, c ssa.CallInstruction, rqs map[string]*ssa.Function, cs map[string]*Codec) {
	g, r := e.g, e.r
	as := args(c)
	if len(as) < 4 {
		return
	}
	lit := g.resolve(Val{n.ctx, as[3]})
	if _, ok := lit.v.(*ssa.Slice); !ok {
		return
	}
	els := varargs(lit.v)
	t := g.resolve(Val{n.ctx, as[2]})
	k, ok := t.v.(*ssa.Const)
	if !ok || k.Value == nil {
		return
	}
	rq := rqs[k.Value.ExactString()]
	if rq == nil {
		return
	}
	for i, w := range requesterWires(e.u, rq, cs) {
		if i >= len(els) || w == "" {
			continue
		}
		a := els[i]
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		v := Val{lit.ctx, a}
		con := e.con + ": to " + rq.Name() + " " + w
		p, _ := e.parts(v)
		switch {
		case w == "piece_cid" || w == "nonce" && e.has["nonce"] && len(reqParts(p)) > 0 || w == "ttl" && e.has["ttl"]:
			if !e.has[w] {
				continue
			}
			r.count("forwarded arguments", 1)
			good, why := e.isPart(n.in, v, w, false)
			r.ob("forwards-what-was-asked", con, good, g.where(n), "what is sent is "+why+", not the "+w+" of the request being served")
		}
	}
}

// requesterWires: the wire name each argument of a requester ends in.
func requesterWires(u *Universe, f *ssa.Function, cs map[string]*Codec) []string {
	g := newGate(u, f)
	av := f.Params[len(f.Params)-1]
	out := make([]string, 12)
	argIndex := func(v Val) int {
		v = g.resolve(v)
		if ex, ok := v.v.(*ssa.Extract); ok {
			v = g.resolve(Val{v.ctx, ex.Tuple})
		}
		if ta, ok := v.v.(*ssa.TypeAssert); ok {
			v = g.resolve(Val{v.ctx, ta.X})
		}
		if u, ok := v.v.(*ssa.UnOp); ok {
			if ia, ok := g.resolve(Val{v.ctx, u.X}).v.(*ssa.IndexAddr); ok {
				b := g.resolve(Val{v.ctx, ia.X})
				if c, ok := ia.Index.(*ssa.Const); ok && b.v == av {
					return int(c.Int64())
				}
			}
		}
		return -1
	}
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if !strings.HasPrefix(name, "common/pkg/fcrmessages.Encode") {
			return
		}
		ec := cs[name[strings.LastIndex(name, ".Encode")+7:]]
		if ec == nil {
			return
		}
		for i, a := range args(c) {
			if j := argIndex(Val{n.ctx, a}); j >= 0 && j < len(out) {
				if ws := ec.wireNames(i); len(ws) == 1 {
					out[j] = ws[0]
				}
			}
		}
	})
	return out
}

// rangeArgs: the ends of a range of identifiers are sent as the ends they are, wherever the request is made.
func rangeArgs(r *Run, u *Universe, mod string, cs map[string]*Codec, rqs map[string]*ssa.Function) {
	wires := map[string][]string{}
	for t, rq := range rqs {
		ws := requesterWires(u, rq, cs)
		for _, w := range ws {
			if w == "cid_min" || w == "cid_max" {
				wires[t] = ws
			}
		}
	}
	if len(wires) == 0 {
		return
	}
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] && !strings.HasPrefix(shortPkg(f.Pkg.Pkg.Path()), mod+"/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(u.CalleeName(c), "common/pkg/fcrp2pserver.FCRP2PServer.Request") || len(args(c)) < 4 {
					continue
				}
				for t := range constsOf(u, f, args(c)[2], 0) {
					for i, el := range varargs(args(c)[3]) {
						if i >= len(wires[t]) || el == nil {
							continue
						}
						w := wires[t][i]
						if w != "cid_min" && w != "cid_max" {
							continue
						}
						got := map[string]bool{}
						traceCalls(u, el, map[ssa.Value]bool{}, got)
						want := map[string]string{"cid_min": ".GetGatewayCIDRange#0", "cid_max": ".GetGatewayCIDRange#1"}[w]
						bad := ""
						for x := range got {
							if strings.Contains(x, ".GetGatewayCIDRange#") && !strings.HasSuffix(x, want) {
								bad = "the other end of the range is sent"
							}
						}
						r.count("forwarded arguments", 1)
						r.ob("forwards-what-was-asked", mod+": "+FuncName(f)+" "+w, bad == "", u.Pos(c.Pos()), bad)
					}
				}
			}
		}
	}
}

// traceCalls: results of calls a value may be, through parameters, captured variables, locals and merges.
func traceCalls(u *Universe, v ssa.Value, seen map[ssa.Value]bool, out map[string]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		traceCalls(u, x.X, seen, out)
	case *ssa.ChangeType:
		traceCalls(u, x.X, seen, out)
	case *ssa.Phi:
		for _, e := range x.Edges {
			traceCalls(u, e, seen, out)
		}
	case *ssa.UnOp:
		traceCalls(u, x.X, seen, out)
	case *ssa.Alloc:
		for _, s := range allStores(x) {
			traceCalls(u, s.Val, seen, out)
		}
	case *ssa.FreeVar:
		f := x.Parent()
		if f.Referrers() != nil {
			for _, r := range *f.Referrers() {
				if mk, ok := r.(*ssa.MakeClosure); ok {
					for i, fv := range f.FreeVars {
						if fv == x {
							traceCalls(u, mk.Bindings[i], seen, out)
						}
					}
				}
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		i := paramIndex(f, x)
		for _, c := range u.callersOf(f) {
			if as := args(c); i >= 0 && i < len(as) {
				traceCalls(u, as[i], seen, out)
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			out[u.CalleeName(c)+"#"+itoa(x.Index)] = true
		}
	case *ssa.Call:
		out[u.CalleeName(x)+"#0"] = true
	}
}
