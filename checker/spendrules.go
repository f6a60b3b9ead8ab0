package main

// P40: what is paid for a request goes to the node the request is sent to, in the configured amount, and is used once.

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nPay   = "common/pkg/fcrpaymentmgr.FCRPaymentMgr.Pay"
	nTopup = "common/pkg/fcrpaymentmgr.FCRPaymentMgr.Topup"
)

func spendOpaque(name string, f *ssa.Function) bool {
	return primitive(name, f) || strings.HasPrefix(name, "client/pkg/api/") || strings.HasPrefix(name, "common/pkg/fcrpaymentmgr.") || strings.HasPrefix(name, "common/pkg/logging.") ||
		strings.HasPrefix(name, "common/pkg/cidoffer.")
}

// paidRequest: a request that is sent together with a payment.
type paidRequest struct {
	n             *Node
	call          *ssa.Call
	name          string
	dest          Val // the gateway's record or identifier
	channel       Val
	voucher       Val
	price         string // the setting
	quantity      *Val
	badly         string // why its arguments are not understood
	channelFrom   map[string]bool
	voucherFrom   map[string]bool
	payments      []Val // of the voucher
	required      int   // index of the result that says payment is required, -1 if none
	wantsQuantity bool
}

// peerPaid: request types sent from gateway to gateway with a payment.
var peerPaid = map[string]bool{"GatewayDHTDiscoverRequestV2Type": true, "GatewayDHTDiscoverOfferRequestType": true}

func intConst(g *G, v Val) (int64, bool) {
	os := g.origins(v)
	if len(os) != 1 {
		return 0, false
	}
	c, ok := os[0].v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func paidRequests(g *G, peerTypes map[int64]string) []*paidRequest {
	var out []*paidRequest
	channelName := regexp.MustCompile(`(?i)(paych|channel)`)
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		call, ok := c.(*ssa.Call)
		if !ok || n.after || !g.reachable(n) {
			return
		}
		base := name[strings.LastIndex(name, ".")+1:]
		p := &paidRequest{n: n, call: call, name: base, required: -1}
		switch {
		case strings.HasPrefix(name, "client/pkg/api/clientapi.") && strings.HasPrefix(base, "Request"):
			sig := c.Common().Signature()
			as := args(c)
			off := len(as) - sig.Params().Len()
			if off < 0 {
				return
			}
			hasVoucher, hasQ := false, false
			p.price = "searchPrice"
			for i := 0; i < sig.Params().Len(); i++ {
				pr := sig.Params().At(i)
				v := Val{n.ctx, as[i+off]}
				_, isSlice := pr.Type().Underlying().(*types.Slice)
				b, isBasic := pr.Type().Underlying().(*types.Basic)
				switch {
				case isStringType(pr.Type()) && strings.Contains(strings.ToLower(pr.Name()), "voucher"):
					p.voucher, hasVoucher = v, true
				case isStringType(pr.Type()) && channelName.MatchString(pr.Name()):
					p.channel = v
				case strings.HasSuffix(typeFull(pr.Type()), "register.GatewayRegistrar"):
					p.dest = v
				case isSlice && strings.Contains(pr.Type().String(), "string"):
					p.price, p.quantity, hasQ = "offerPrice", &v, true
				case isBasic && b.Info()&types.IsInteger != 0 && strings.Contains(strings.ToLower(pr.Name()), "num") && !hasQ:
					p.quantity = &v
				}
			}
			if !hasVoucher || !strings.HasSuffix(base, "V2") && !strings.Contains(base, "Offer") {
				return
			}
			for i := 0; i < sig.Results().Len(); i++ {
				if b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					p.required = i
				}
			}
		case name == "common/pkg/fcrp2pserver.FCRP2PServer.RequestGatewayFromGateway":
			as := args(c)
			if len(as) < 4 {
				return
			}
			t, known := intConst(g, Val{n.ctx, as[2]})
			kind := peerTypes[t]
			if known && !peerPaid[kind] {
				return
			}
			if !known {
				p.badly = "the type of the request is not a constant"
			}
			els, ok := variadic(g, Val{n.ctx, as[3]})
			if !ok {
				p.badly = "the arguments of the request are not known"
			}
			p.dest = Val{n.ctx, as[1]}
			p.price = "searchPrice"
			var strs []Val
			for _, e := range els {
				r := e
				if mi, ok := e.v.(*ssa.MakeInterface); ok {
					r = Val{e.ctx, mi.X}
				}
				if isStringType(r.v.Type()) {
					strs = append(strs, r)
				}
				if sl, ok := r.v.Type().Underlying().(*types.Slice); ok && isStringType(sl.Elem()) {
					q := r
					p.price, p.quantity = "offerPrice", &q
				}
			}
			if kind == "GatewayDHTDiscoverOfferRequestType" && p.quantity == nil {
				p.badly = "the digests asked for are not among the arguments"
			}
			if len(strs) != 2 {
				p.badly = "the payment channel and the voucher are not among the arguments"
			} else {
				p.channel, p.voucher = strs[0], strs[1]
			}
		default:
			return
		}
		if p.badly == "" && (p.channel.v == nil || p.voucher.v == nil || p.dest.v == nil) {
			p.badly = "the receiver, the channel or the voucher is not recognised"
		}
		out = append(out, p)
	})
	return out
}

// spent: calls fn for every payment whose result idx the value may be, with the facts of that way; ways on which a helper
// failed are left out where the failure is known not to have happened.
func spent(g *G, st *FSet, v Val, fn func(st *FSet, v Val)) {
	seen := map[Val]bool{}
	out := fn
	var walk func(st *FSet, v Val)
	walk = func(st *FSet, v Val) {
		if st.top {
			return
		}
		loose := g.cfg.Loose
		g.cfg.Loose = false
		v = g.resolve(v)
		g.cfg.Loose = loose
		if seen[v] {
			return
		}
		seen[v] = true // on this way; the same value met again on another way has other facts
		defer delete(seen, v)
		switch x := v.v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				walk(g.edgeState(v.ctx, x.Block().Preds[i], x.Block()), Val{v.ctx, e})
			}
			return
		case *ssa.Call, *ssa.Extract:
			if c, idx := callOf(v); c != nil {
				if ch := v.ctx.children[c]; ch != nil {
					for _, rn := range ch.rets {
						ret, ok := rn.instr.(*ssa.Return)
						if !ok || !g.reachable(rn) || idx >= len(ret.Results) {
							continue
						}
						last := len(ret.Results) - 1
						failing := isErrorType(ret.Results[last].Type()) && noError(g, st, v.ctx, c, last)
						for _, in := range returnStates(g, rn) {
							if failing {
								old := g.at
								g.at = place{ch, ret.Block(), ret.Block()}
								im := g.imp(Val{ch, ret.Results[last]}, IsNil)
								g.at = old
								if im.top || g.contradicts(in, im) {
									continue
								}
								in = in.union(im)
							}
							walk(in, Val{ch, ret.Results[idx]})
						}
					}
					return
				}
			}
		case *ssa.UnOp:
			a := g.resolve(Val{v.ctx, x.X})
			switch y := a.v.(type) {
			case *ssa.Alloc:
				if ss := allStores(y); len(ss) > 0 {
					for _, s := range ss {
						if n := a.ctx.nodes[s]; n != nil && n.in != nil && !n.in.top {
							walk(n.in, Val{a.ctx, s.Val})
						}
					}
					return
				}
			case *ssa.FieldAddr:
				// a result object: what was stored in the field where the object was made
				before := out
				out = func(st *FSet, o Val) {
					al, ok := o.v.(*ssa.Alloc)
					if !ok {
						before(st, v)
						return
					}
					found := false
					for _, r := range *al.Referrers() {
						fa, ok := r.(*ssa.FieldAddr)
						if !ok || fa.Field != y.Field {
							continue
						}
						for _, rr := range *fa.Referrers() {
							s, ok := rr.(*ssa.Store)
							if !ok || s.Addr != fa {
								continue
							}
							n := o.ctx.nodes[s]
							if n == nil || n.in == nil || n.in.top {
								continue
							}
							found = true
							mine := out
							out = before
							walk(st.union(n.in), Val{o.ctx, s.Val})
							out = mine
						}
					}
					if !found {
						before(st, v)
					}
				}
				if n, ok := y.X.Type().Underlying().(*types.Pointer); ok {
					if t, ok := types.Unalias(n.Elem()).(*types.Named); ok && !g.u.plainField(t, y.Field) {
						before(st, v)
						out = before
						return
					}
				}
				walk(st, Val{a.ctx, y.X})
				out = before
				return
			}
		}
		out(st, v)
	}
	walk(st, v)
}

// returnStates: the facts at a return, one set for each way into its block.
func returnStates(g *G, rn *Node) []*FSet {
	blk := rn.instr.Block()
	if len(blk.Preds) < 2 {
		return []*FSet{rn.in}
	}
	for _, i := range blk.Instrs {
		switch i.(type) {
		case *ssa.Phi, *ssa.Return, *ssa.UnOp, *ssa.MakeInterface, *ssa.DebugRef, *ssa.RunDefers, *ssa.FieldAddr:
		default:
			return []*FSet{rn.in}
		}
	}
	var out []*FSet
	for _, p := range blk.Preds {
		if st := g.edgeState(rn.ctx, p, blk); !st.top {
			out = append(out, st.union(rn.in))
		}
	}
	return out
}

// noError: the facts say that the call returned no error.
func noError(g *G, st *FSet, c *Ctx, call *ssa.Call, idx int) bool {
	tok := g.token(Val{c, call})
	for k := range st.m {
		f := &g.facts[k]
		if f.pred == "ret"+itoa(idx)+"=nil" && f.args[0] == tok {
			return true
		}
	}
	for _, ex := range extracts(call) {
		if ex.Index == idx && g.hasIn(st, mkFact("isnil", g.objkey(Val{c, ex}))) {
			return true
		}
	}
	return false
}

// sameGateway: the address paid is that of the gateway the request goes to.
func sameGateway(g *G, recipient, dest Val) string {
	os := g.origins(recipient)
	if len(os) == 0 {
		return "where the recipient comes from is not known"
	}
	for _, o := range os {
		c, _ := callOf(o)
		if c == nil {
			return "the recipient is not a gateway's registered address (" + g.key(o).s + ")"
		}
		name := g.u.CalleeName(c)
		if !strings.HasSuffix(name, ".GetAddress") || len(args(c)) != 1 {
			return "the recipient is not a gateway's registered address but a result of " + name
		}
		rec := Val{o.ctx, args(c)[0]}
		if g.objkey(rec).s == g.objkey(dest).s {
			continue
		}
		ok := false
		// the record was looked up by the identifier the request goes to
		for _, ro := range g.origins(rec) {
			if rc, _ := callOf(ro); rc != nil && strings.HasSuffix(g.u.CalleeName(rc), ".GetGateway") && len(args(rc)) == 2 {
				ok = g.objkey(Val{ro.ctx, args(rc)[1]}).s == g.objkey(dest).s
			}
		}
		// the identifier the request goes to was made from the record
		for _, do := range g.origins(dest) {
			dc, _ := callOf(do)
			if dc == nil || !strings.HasPrefix(g.u.CalleeName(dc), "common/pkg/nodeid.NewNodeIDFromHexString") {
				continue
			}
			for _, io := range g.origins(Val{do.ctx, args(dc)[0]}) {
				if ic, _ := callOf(io); ic != nil && strings.HasSuffix(g.u.CalleeName(ic), ".GetNodeID") {
					ok = ok || g.objkey(Val{io.ctx, args(ic)[0]}).s == g.objkey(rec).s
				}
			}
		}
		if !ok {
			return "the address paid is not that of the gateway the request is sent to"
		}
	}
	return ""
}

var priceField = regexp.MustCompile(`(?i)(price|amount)$`)

// rightAmount: the amount depends on the setting and the quantity only, by multiplication and addition.
func rightAmount(g *G, amount Val, price string, quantity *Val) string {
	b := newBackSlice(g)
	// What an answer says is not computed from what the request was paid with.
	b.leaf = func(name string) bool {
		return !strings.HasPrefix(name, "math/big.") && !strings.HasPrefix(name, "builtin.") && !strings.HasPrefix(name, "len")
	}
	if quantity != nil {
		// How the quantity itself came about is of no concern here.
		q := g.resolve(*quantity)
		k := g.objkey(q).s
		b.leafV = func(v Val) bool {
			return v == q || v.v != nil && v.v.Type() != nil && types.Identical(v.v.Type(), q.v.Type()) && g.objkey(v).s == k
		}
	}
	b.add(amount)
	found := false
	for f := range b.fields {
		if !priceField.MatchString(f) {
			continue
		}
		if strings.EqualFold(f, price) {
			found = true
		} else {
			return "the amount is computed from the setting " + f + " instead of " + price
		}
	}
	if !found {
		return "the amount does not depend on the configured " + price
	}
	var ops []string
	for op := range b.ops {
		ops = append(ops, op)
	}
	sort.Strings(ops)
	for _, op := range ops {
		if !priceOps[op] || quantity == nil && op != "math/big.Int.Set" {
			return "the amount is computed with " + op
		}
	}
	for v := range b.seen {
		if c, ok := v.v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			if k := c.Int64(); k < -1 || k > 1 {
				return "the amount is computed with the constant " + c.Value.ExactString()
			}
		}
	}
	if quantity != nil {
		q := g.resolve(*quantity)
		has := b.seen[q]
		if !has {
			k := g.objkey(q).s
			for v := range b.seen {
				if v.v != nil && v.v.Type() != nil && g.objkey(v).s == k {
					has = true
				}
			}
		}
		if !has {
			return "the amount does not depend on the quantity that is asked for"
		}
		// what is counted: the items of the list, or of all its lists
		item := q.v.Type()
		for {
			sl, ok := item.Underlying().(*types.Slice)
			if !ok {
				break
			}
			if _, ok := sl.Elem().Underlying().(*types.Slice); !ok {
				break
			}
			item = sl.Elem()
		}
		if _, ok := item.Underlying().(*types.Slice); ok {
			counted, other := false, ""
			for v := range b.seen {
				c, ok := v.v.(*ssa.Call)
				if !ok || g.u.CalleeName(c) != "builtin.len" {
					continue
				}
				switch t := c.Call.Args[0].Type(); {
				case types.Identical(t.Underlying(), item.Underlying()):
					counted = true
				case isStringType(t):
					other = "the lengths of the items are counted instead of the items"
				}
			}
			if other != "" {
				return other
			}
			// counting one by one
			for v := range b.seen {
				if bo, ok := v.v.(*ssa.BinOp); ok && bo.Op == token.ADD {
					if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 {
						counted = counted || inLoopOver(g, Val{v.ctx, bo}, item)
					}
				}
			}
			if !counted {
				return "the number of lists is counted instead of what is in them"
			}
		}
		mul := false
		for op := range b.ops {
			mul = mul || op == "math/big.Int.Mul" || op == "math/big.Int.Add" || op == "*"
		}
		if !mul {
			return "the price is not multiplied by the quantity that is asked for"
		}
	}
	return ""
}

// inLoopOver: the value is computed in a loop over a list of the type.
func inLoopOver(g *G, v Val, list types.Type) bool {
	in, ok := v.v.(ssa.Instruction)
	if !ok {
		return false
	}
	blk := in.Block()
	for _, b := range blk.Parent().Blocks {
		if !reachesB(b, blk) || !reachesB(blk, b) {
			continue
		}
		for _, i := range b.Instrs {
			if ia, ok := i.(*ssa.IndexAddr); ok && types.Identical(ia.X.Type().Underlying(), list.Underlying()) {
				return true
			}
		}
	}
	return false
}

func spending(r *Run, u *Universe, f *ssa.Function, peerTypes map[int64]string) bool {
	g := NewG(u, f, &Config{Opaque: spendOpaque, CallFacts: primFacts, Loose: true})
	g.Solve()
	r.count("graph nodes", len(g.nodes))
	con := short(f)
	reqs := paidRequests(g, peerTypes)
	var pays, topups []*Node
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if n.after || !g.reachable(n) {
			return
		}
		switch name {
		case nPay:
			pays = append(pays, n)
		case nTopup:
			topups = append(topups, n)
		}
	})
	if len(reqs) == 0 && len(pays) == 0 && len(topups) == 0 {
		return false
	}
	node := map[Val]*Node{}
	for _, p := range pays {
		node[Val{p.ctx, p.instr.(ssa.Value)}] = p
	}
	arg := func(n *Node, i int) Val { return Val{n.ctx, args(n.instr.(ssa.CallInstruction))[i]} }
	uses := map[string]int{}
	for _, q := range reqs {
		uses[q.name]++
		what := con + ": " + q.name
		if uses[q.name] > 1 {
			what += " (" + itoa(uses[q.name]) + ")"
		}
		where := g.where(q.n)
		r.count("paid requests", 1)
		if q.badly != "" {
			r.ob("paid", what, false, where, q.badly)
			continue
		}
		// where voucher and channel come from
		from := func(v Val, idx int, paid bool) (map[Val]bool, string) {
			out, why := map[Val]bool{}, ""
			spent(g, q.n.in, v, func(st *FSet, o Val) {
				c, i := callOf(o)
				if c == nil || node[Val{o.ctx, c}] == nil || i != idx {
					what := g.key(o).s
					if c != nil {
						what = "result " + itoa(i) + " of " + u.CalleeName(c)
					}
					why = "it can be something else than what a payment returned (" + what + ")"
					return
				}
				out[Val{o.ctx, c}] = true
				if paid && !noError(g, st, o.ctx, c, 3) {
					why = "it can be what a payment returned that failed"
				}
				if paid {
					tok := g.token(Val{o.ctx, c})
					ok := false
					for k := range st.m {
						fa := &g.facts[k]
						if fa.pred == "ret2=false" && fa.args[0] == tok {
							ok = true
						}
					}
					if !ok && why == "" {
						why = "it can be what a payment returned that was not made for want of funds"
					}
				}
			})
			if len(out) == 0 && why == "" {
				why = "no payment is found"
			}
			return out, why
		}
		vs, why := from(q.voucher, 1, true)
		r.ob("paid", what+": voucher", why == "", where, "the voucher sent is not certain to be that of a payment made: "+why)
		cs, cwhy := from(q.channel, 0, false)
		if cwhy == "" {
			for p := range vs {
				if !cs[p] {
					cwhy = "it is not the channel the voucher is for"
				}
			}
			for p := range cs {
				if !vs[p] {
					cwhy = "it is not the channel the voucher is for"
				}
			}
		}
		r.ob("paid", what+": channel", cwhy == "", where, "the channel sent with the voucher: "+cwhy)
		var ps []*Node
		for p := range vs {
			ps = append(ps, node[p])
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
		payee, amount := "", ""
		for _, p := range ps {
			if w := sameGateway(g, arg(p, 1), q.dest); w != "" {
				payee = w + " (payment at " + g.where(p) + ")"
			}
			if w := rightAmount(g, arg(p, 3), q.price, q.quantity); w != "" {
				amount = w + " (payment at " + g.where(p) + ")"
			} else if w := priceMismatch(g, arg(p, 3), q.price, q.quantity, quantityKind(q.quantity)); w != "" {
				amount = w + " (payment at " + g.where(p) + ")"
			}
		}
		r.ob("payee", what, payee == "", where, payee)
		r.ob("amount", what, amount == "", where, amount)
		// a voucher is used once
		stops := map[*Node]bool{}
		for _, p := range ps {
			stops[p] = true
		}
		used := ""
		for _, q2 := range reqs {
			if avoiding(g, q.n, q2.n, stops) && sharesPayment(g, q2, vs, node) {
				used = "the voucher can have been sent before, with " + q2.name + " at " + g.where(q2.n)
				if q2 != q {
					used = "the voucher can be sent again with " + q2.name + " at " + g.where(q2.n)
				}
			}
		}
		r.ob("used-once", what, used == "", where, used)
		// asked to pay again
		if q.required >= 0 {
			tok := g.token(Val{q.n.ctx, q.call})
			pred := "ret" + itoa(q.required) + "=true"
			stop := map[*Node]bool{}
			for _, q2 := range reqs {
				if q2.name == q.name {
					stop[q2.n] = true
				}
			}
			exits := g.successExits()
			looked, bad := false, false
			for _, n := range g.nodes {
				for _, e := range n.succs {
					if !e.isBr || n.in == nil || n.in.top {
						continue
					}
					is := false
					eo := g.imp(Val{n.ctx, e.cond}, map[bool]Pol{true: True, false: False}[e.pol])
					for k := range eo.m {
						fa := &g.facts[k]
						if fa.pred == pred && len(fa.args) > 0 && fa.args[0] == tok {
							is = true
						}
					}
					if !is {
						continue
					}
					looked = true
					for ex := range exits {
						if !stop[e.to] && (e.to == ex || avoiding(g, e.to, ex, stop)) {
							bad = true
						}
					}
				}
			}
			r.ob("asked-again", what, looked && !bad, where, map[bool]string{true: "success can be reported although the gateway asked to be paid again", false: "the gateway's demand to be paid is not looked at"}[looked])
		}
	}
	for _, t := range topups {
		what := con + ": topup"
		w := rightAmount(g, arg(t, 2), "topUpAmount", nil)
		r.ob("topup", what+" amount", w == "", g.where(t), w)
		same := false
		rk := func(n *Node) string {
			var ks []string
			for _, o := range g.origins(arg(n, 1)) {
				ks = append(ks, g.key(o).s)
			}
			sort.Strings(ks)
			return strings.Join(ks, "|")
		}
		for _, p := range pays {
			if rk(p) == rk(t) && avoiding(g, t, p, nil) {
				same = true
			}
		}
		r.ob("topup", what+" recipient", same, g.where(t), "the recipient topped up is not the one paid afterwards")
	}
	return true
}

// sharesPayment: the request's voucher can be that of one of the payments.
func sharesPayment(g *G, q *paidRequest, vs map[Val]bool, node map[Val]*Node) bool {
	share := false
	if q.voucher.v == nil {
		return false
	}
	spent(g, q.n.in, q.voucher, func(st *FSet, o Val) {
		if c, i := callOf(o); c != nil && i == 1 && vs[Val{o.ctx, c}] {
			share = true
		}
	})
	return share
}

func init() {
	register("P40", "Every exported client function and every gateway handler is expanded to its control-flow graph. For each request that carries a payment: voucher and channel are traced back over all ways to the payments they can stem from, with the facts of each way; the recipient and the amount of those payments are compared with the receiver and the quantity of the request.",
		[]string{"client", "gateway"}, func(r *Run) {
			r.rule("paid", "the voucher sent is that of a payment that succeeded, with the channel of the same payment")
			r.rule("payee", "the recipient paid is the registered address of the gateway the request is sent to")
			r.rule("amount", "the amount is the configured price of that kind of request times the quantity asked for, and depends on nothing else")
			r.rule("used-once", "a voucher is sent with one request only; asking again takes another payment")
			r.rule("topup", "what is added to a channel is the configured amount, for the recipient that is then paid")
			r.rule("asked-again", "a gateway that asks for (more) money is paid and asked again, or the search fails")
			n := 0
			for _, m := range []string{"client", "gateway"} {
				u := r.U(m)
				peerTypes := map[int64]string{}
				for _, sp := range u.Pkgs {
					if shortPkg(sp.Pkg.Path()) != "common/pkg/fcrmessages" {
						continue
					}
					for name, mem := range sp.Members {
						if c, ok := mem.(*ssa.NamedConst); ok && c.Value != nil && c.Value.Value != nil && c.Value.Value.Kind() == constant.Int && strings.HasSuffix(name, "Type") {
							peerTypes[c.Value.Int64()] = name
						}
					}
				}
				var fs []*ssa.Function
				if m == "gateway" {
					fs = append(u.handlers(hPeer), u.handlers(hREST)...)
				} else {
					for _, f := range u.Funcs {
						if f.Blocks != nil && f.Parent() == nil && strings.HasPrefix(FuncFull(f), "client/pkg/fcrclient.") && f.Object() != nil && f.Object().Exported() {
							fs = append(fs, f)
						}
					}
				}
				r.count("entry functions", len(fs))
				for _, f := range fs {
					if spending(r, u, f, peerTypes) {
						n++
					}
				}
			}
			r.count("functions that pay", n)
			r.floor("paid", 10)
			r.floor("payee", 5)
			r.floor("topup", 8)
		})
}
