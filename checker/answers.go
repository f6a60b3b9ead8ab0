package main

// P06, P07: what is sent is signed with the node's own key; an answer is verified with the key of the peer it was asked
// from before it has any effect; a client library call succeeds only for the answer that echoes its request.

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nReaderRead = "common/pkg/fcrp2pserver.FCRServerReader.Read"

// isReceive: the call hands out a message received from a peer.
func isReceive(u *Universe, c ssa.CallInstruction, name string) bool {
	if name == nReaderRead {
		return true
	}
	base := name[strings.LastIndex(name, ".")+1:]
	return base == "SendMessage" && (strings.HasPrefix(name, "common/pkg/request.") || strings.Contains(name, "HttpCommunic"))
}

func isPeerWrite(name string) bool { return name == "common/pkg/fcrp2pserver.FCRServerWriter.Write" }
func isRESTWrite(name string) bool {
	return strings.HasSuffix(name, "rest.ResponseWriter.WriteJson") || strings.HasSuffix(name, "rest.ResponseWriter).WriteJson")
}

// entryPoints: functions of the module from which the wanted call is reached through expanded callees, and which are not
// themselves only reached through such callees (those are analysed as part of their callers).
func entryPoints(u *Universe, wanted func(c ssa.CallInstruction, name string) bool) []*ssa.Function {
	taken := u.addressTaken()
	memo := map[*ssa.Function]int{}
	var reaches func(f *ssa.Function, d int) bool
	reaches = func(f *ssa.Function, d int) bool {
		if f == nil || f.Blocks == nil || !isRepoFunc(f) || d > 10 {
			return false
		}
		if m := memo[f]; m != 0 {
			return m == 2
		}
		memo[f] = 1
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := u.CalleeName(c)
				if wanted(c, n) {
					memo[f] = 2
					return true
				}
				callee := u.Callee(c)
				if callee == nil {
					if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
						callee, _ = mc.Fn.(*ssa.Function)
					}
				}
				if callee != nil && !primitive(FuncFull(callee), callee) && reaches(callee, d+1) {
					memo[f] = 2
					return true
				}
			}
		}
		return false
	}
	var out []*ssa.Function
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || strings.Contains(f.Pkg.Pkg.Path(), "mock") || !reaches(f, 0) {
			continue
		}
		if !taken[f] {
			plain := 0
			for _, c := range u.callersOf(f) {
				if _, ok := c.(*ssa.Call); ok && c.Parent() != f {
					plain++
				}
			}
			if plain > 0 {
				continue
			}
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return FuncName(out[i]) < FuncName(out[j]) })
	return out
}

// ownKey: every origin of the value is a private key held by the node's core structure (or the value just put there).
func ownKey(g *G, v Val) bool {
	os := g.origins(v)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		if isNilConst(o.v) {
			continue
		}
		if coreKeyLoad(g, o) {
			continue
		}
		put := false
		for _, n := range g.nodes {
			if st, ok := n.instr.(*ssa.Store); ok && isCoreKeyAddr(g, Val{n.ctx, st.Addr}) {
				for _, s := range g.origins(Val{n.ctx, st.Val}) {
					if s == o {
						put = true
					}
				}
			}
		}
		if !put {
			return false
		}
	}
	return true
}

func coreKeyLoad(g *G, o Val) bool {
	x, ok := o.v.(*ssa.UnOp)
	return ok && isCoreKeyAddr(g, Val{o.ctx, x.X})
}

func isCoreKeyAddr(g *G, a Val) bool {
	a = g.resolve(a)
	fa, ok := a.v.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	t := typeFull(fa.X.Type())
	return (t == "gateway/internal/core.Core" || t == "provider/internal/core.Core") && typeFull(fa.Type()) == pkgCrypto+".KeyPair"
}

// receivedFrom: whose key may vouch for the answer obtained by this call.
func acceptableOwner(g *G, recv Val, own Key) bool {
	c := recv.v.(*ssa.Call)
	name := g.u.CalleeName(c)
	if name == nReaderRead {
		if g.entry.Signature.Variadic() {
			// requester: the peer named in its arguments (which one is compared with the peer contacted under P03)
			p := g.entry.Params[len(g.entry.Params)-1]
			tok := g.token(Val{g.root, p})
			i := strings.Index(own.s, ":")
			return i > 0 && (own.s[:i] == "gateway" || own.s[:i] == "provider") && strings.HasPrefix(own.s[i+1:], tok+"[")
		}
		for i, p := range g.entry.Params {
			if typeFull(p.Type()) == tMsg && i > 0 {
				return senderOwners(g, g.objkey(Val{g.root, p}))[own.s]
			}
		}
		return false
	}
	// HTTP: the registrar whose address the request went to
	for i, a := range args(c) {
		if i == 0 {
			continue
		}
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			os := g.origins(Val{recv.ctx, a})
			for _, o := range os {
				rc, _ := callOf(o)
				if rc == nil {
					return false
				}
				rn := g.u.CalleeName(rc)
				if !strings.HasPrefix(rn[strings.LastIndex(rn, ".")+1:], "GetNetworkInfo") {
					return false
				}
				if regOwner(g, Val{o.ctx, args(rc)[0]}).s != own.s {
					return false
				}
			}
			return len(os) > 0
		}
	}
	return false
}

// answerGraph: facts "clean(R)" for every receive call R: no answer obtained there is pending unverified.
func answerGraph(u *Universe, f *ssa.Function) (*G, []Val) {
	var recvs []Val
	cfg := &Config{Opaque: primitive, Loose: true}
	cleanOf := func(g *G, v Val) Fact { return mkFact("clean", Key{s: g.token(v)}) }
	busy := false
	cfg.CallFacts = func(g *G, ctx *Ctx, call ssa.CallInstruction, name string) []CondFact {
		out := primFacts(g, ctx, call, name)
		as := args(call)
		switch {
		case name == "common/pkg/fcrmessages.FCRMessage.Verify":
			own := owner(g, Val{ctx, as[1]})
			k := g.objkey(Val{ctx, as[0]})
			for _, r := range recvs {
				for _, ex := range extracts(r.v) {
					if ex.Index == 0 && g.objkey(Val{r.ctx, ex}).s == k.s && acceptableOwner(g, r, own) {
						out = append(out, CondFact{0, IsNil, cleanOf(g, r)})
					}
				}
			}
		case name == "common/pkg/fcrmessages.FCRMessage.Sign":
			if !busy {
				busy = true
				if ownKey(g, Val{ctx, as[1]}) {
					out = append(out, CondFact{0, IsNil, mkFact("signedown", g.objkey(Val{ctx, as[0]}))})
				}
				busy = false
			}
		case isReceive(g.u, call, name):
			if v, ok := call.(ssa.Value); ok {
				out = append(out, CondFact{1, NotNil, cleanOf(g, Val{ctx, v})})
				out = append(out, CondFact{0, IsNil, cleanOf(g, Val{ctx, v})})
			}
		}
		return out
	}
	cfg.NodeKill = func(g *G, n *Node, ft *Fact) bool {
		if ft.pred != "clean" || n.after {
			return false
		}
		v, ok := n.instr.(*ssa.Call)
		return ok && n.ctx.children[v] == nil && isReceive(g.u, v, g.u.CalleeName(v)) && ft.args[0] == g.token(Val{n.ctx, v})
	}
	cfg.Entry = func(g *G) []Fact {
		var out []Fact
		for _, r := range recvs {
			out = append(out, cleanOf(g, r))
		}
		return out
	}
	g := NewG(u, f, cfg)
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if v, ok := c.(*ssa.Call); ok && isReceive(u, c, name) {
			recvs = append(recvs, Val{n.ctx, v})
		}
	})
	g.Solve()
	return g, recvs
}

// mayBeNil: the error value can be nil at this node.
func (g *G) mayBeNil(n *Node, v Val) bool {
	im := g.imp(v, IsNil)
	if im.top || n.in.top {
		return false
	}
	return !g.contradicts(n.in, im)
}

// successExits: return nodes of the entry function whose error result may be nil, with the facts that hold then.
func (g *G) successExits() map[*Node]*FSet {
	out := map[*Node]*FSet{}
	for _, n := range g.root.rets {
		if !g.reachable(n) {
			continue
		}
		ret := n.instr.(*ssa.Return)
		st := n.in
		for i, rv := range ret.Results {
			if types.Identical(rv.Type(), types.Universe.Lookup("error").Type()) && i == len(ret.Results)-1 {
				g.at = place{g.root, ret.Block(), ret.Block()}
				im := g.imp(Val{g.root, rv}, IsNil)
				if im.top || g.contradicts(n.in, im) {
					st = nil
				} else {
					st = st.union(im)
				}
			}
		}
		if st != nil {
			out[n] = st
		}
	}
	return out
}

func (g *G) hasIn(s *FSet, f Fact) bool {
	if s.top {
		return true
	}
	i, ok := g.index[f.String()]
	return ok && s.m[i]
}

func hasErrorResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), types.Universe.Lookup("error").Type())
}

func isPeerHandlerSig(f *ssa.Function) bool {
	return sigIs(f.Signature, []string{tP2PReader, tP2PWriter, tMsg}, []string{"error"})
}

// listedMessage: the node copies a message into an element of a list.
func listedMessage(n *Node) (Val, bool) {
	ld, ok := n.instr.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || typeFull(ld.Type()) != tMsg || ld.Referrers() == nil {
		return Val{}, false
	}
	for _, rf := range *ld.Referrers() {
		if st, ok := rf.(*ssa.Store); ok && st.Val == ssa.Value(ld) {
			if _, ok := st.Addr.(*ssa.IndexAddr); ok {
				return Val{n.ctx, ld.X}, true
			}
		}
	}
	return Val{}, false
}

func encodedHere(names []string) bool {
	for _, s := range names {
		if strings.Contains(s, "Encode") {
			return true
		}
	}
	return false
}

func init() {
	mods := []string{"gateway", "provider", "client", "gateway-admin", "provider-admin"}
	register("P06", "Every function from which a message is sent or received is expanded together with its helpers; on that graph, must-facts say which message was signed with the node's own key and which received message is still unverified. Sends, effects and success exits are the obligations.",
		mods, func(r *Run) {
			r.rule("sent-signed", "a message handed to a peer or written as a REST answer was signed successfully with the node's own retrieval key on every path")
			r.rule("verified-before-effect", "no effect happens while an answer received from a peer is unverified (verified means: with the key registered for the peer it was requested from)")
			r.rule("verified-before-success", "no success is returned while an answer received from a peer is unverified")
			for _, mod := range mods {
				u := r.U(mod)
				if mod == "gateway" || mod == "provider" {
					fs := entryPoints(u, func(c ssa.CallInstruction, name string) bool { return isPeerWrite(name) || isRESTWrite(name) })
					for _, f := range fs {
						g, _ := answerGraph(u, f)
						r.count("graph nodes", len(g.nodes))
						for _, n := range g.nodes {
							call, ok := n.instr.(ssa.CallInstruction)
							if !g.reachable(n) || n.after || !ok {
								if pv, listed := listedMessage(n); listed && g.reachable(n) {
									if names := msgOrigins(g, pv); encodedHere(names) && !isRefusal(names) {
										r.ob("sent-signed", short(f)+": listed "+uniqJoin(names), g.has(n, mkFact("signedown", g.objkey(pv))), g.where(n), "put into a list of messages on a path on which it was not signed with the node's own key")
									}
								}
								continue
							}
							name := u.CalleeName(call)
							if !isPeerWrite(name) && !isRESTWrite(name) {
								continue
							}
							mv := Val{n.ctx, args(call)[1]}
							if rv := g.resolve(mv); typeFull(rv.v.Type()) != tMsg && !isPeerWrite(name) {
								continue
							}
							if names := msgOrigins(g, mv); !isRefusal(names) {
								r.ob("sent-signed", short(f)+": "+uniqJoin(names), g.has(n, mkFact("signedown", g.objkey(mv))), g.where(n), "sent on a path on which it was not signed with the node's own key")
							}
						}
					}
				}
				for _, f := range receiveFrames(u) {
					r.count("functions receiving an answer", 1)
					for _, o := range frameObs(u, f, 0) {
						r.ob(o.Rule, o.Construct, o.OK, o.Where, o.Msg)
					}
				}
			}
			r.floor("sent-signed", 25)
			r.floor("verified-before-effect", 4)
			r.floor("verified-before-success", 20)
		})

	register("P07", "For every function of the client library that sends a request and decodes the answer, the encoder and decoder are looked up in the codec table to find the values that both carry under the same name; every success exit must carry a fact that the value received equals the value sent.",
		[]string{"client"}, func(r *Run) {
			r.rule("echo-compared", "a success exit is reached only if the echoed value was compared with the value sent and found equal")
			r.rule("answerer-compared", "a success exit is reached only if the identifier by which the answering node names itself was compared with that of the node asked and found equal")
			u := r.U("client")
			cs := codecs(u, nil)
			for _, f := range receiveFrames(u) {
				for _, o := range echoObs(u, f, cs, 0) {
					r.ob(o.Rule, o.Construct, o.OK, o.Where, o.Msg)
				}
			}
			r.floor("echo-compared", 12)
			r.floor("answerer-compared", 1)
		})
}

var pRe = regexp.MustCompile(`\bp([0-9]+)\b`)
var fRe = regexp.MustCompile(`f:([a-zA-Z0-9_]+)`)

// echoFields: what an answer repeats of its request.
var echoFields = map[string]bool{"nonce": true, "piece_cid": true, "challenge": true, "gateway_id": true}

// baseOf strips renderings that are equal exactly if the values are.
func baseOf(s string) string {
	for {
		o := s
		s = strings.TrimLeft(s, "*")
		for _, p := range []string{"common/pkg/nodeid.NodeID.ToString(", "common/pkg/cid.ContentID.ToString(", "common/pkg/nodeid.NodeID.ToBytes(", "common/pkg/cid.ContentID.ToBytes(", "conv:string(", "conv:[]byte("} {
			if strings.HasPrefix(s, p) && strings.HasSuffix(s, ")") {
				s = s[len(p) : len(s)-1]
			}
		}
		s = strings.TrimSuffix(s, "[:]")
		if s == o {
			return s
		}
	}
}

// receiveFrames: the functions of the module that receive an answer themselves.
func receiveFrames(u *Universe) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || strings.Contains(f.Pkg.Pkg.Path(), "mock") || primitive(FuncFull(f), f) {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && isReceive(u, c, u.CalleeName(c)) {
					has = true
				}
			}
		}
		if has {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return FuncName(out[i]) < FuncName(out[j]) })
	return out
}

// climb: a function that is only a helper of its callers is judged in their context when it cannot be judged alone.
func climb(u *Universe, f *ssa.Function, depth int, alone []Ob, again func(*ssa.Function) []Ob) []Ob {
	bad := false
	for _, o := range alone {
		if !o.OK {
			bad = true
		}
	}
	if !bad || depth > 5 || u.addressTaken()[f] {
		return alone
	}
	callers := map[*ssa.Function]bool{}
	for _, c := range u.callersOf(f) {
		if _, ok := c.(*ssa.Call); !ok {
			return alone
		}
		callers[c.Parent()] = true
	}
	if len(callers) == 0 {
		return alone
	}
	var out []Ob
	for c := range callers {
		for _, o := range again(c) {
			out = append(out, o)
			if !o.OK && depth == 0 {
				return alone
			}
		}
	}
	if len(out) == 0 {
		return alone
	}
	return out
}

func frameObs(u *Universe, f *ssa.Function, depth int) []Ob {
	var out []Ob
	add := func(rule, con string, ok bool, where, msg string) { out = append(out, Ob{rule, con, ok, where, msg}) }
	g, recvs := answerGraph(u, f)
	dirty := func(st *FSet) string {
		var bad []string
		for _, rv := range recvs {
			if !g.hasIn(st, mkFact("clean", Key{s: g.token(rv)})) {
				bad = append(bad, u.Pos(rv.v.Pos()))
			}
		}
		return strings.Join(bad, ", ")
	}
	for _, n := range g.nodes {
		if !g.reachable(n) || n.after {
			continue
		}
		what, ok := peerEffect(g, n)
		if !ok {
			continue
		}
		if call, isCall := n.instr.(ssa.CallInstruction); isCall && strings.HasPrefix(u.CalleeName(call), "common/pkg/fcrp2pserver.") && !isPeerWrite(u.CalleeName(call)) {
			continue
		}
		bad := dirty(n.in)
		add("verified-before-effect", short(f)+": "+what, bad == "", g.where(n), "the answer received at "+bad+" has not been verified with the key of the peer it was requested from")
	}
	if hasErrorResult(f) && !isPeerHandlerSig(f) {
		ok, where, why, n := true, u.Pos(f.Pos()), "no success exit found", 0
		for nd, st := range g.successExits() {
			n++
			if bad := dirty(st); bad != "" {
				ok, where, why = false, g.where(nd), "success is returned although the answer received at "+bad+" was not verified with the key of the peer it was requested from"
			}
		}
		add("verified-before-success", short(f), ok && n > 0, where, why)
	}
	return climb(u, f, depth, out, func(c *ssa.Function) []Ob { return frameObs(u, c, depth+1) })
}

func echoObs(u *Universe, f *ssa.Function, cs map[string]*Codec, depth int) []Ob {
	g, recvs := answerGraph(u, f)
	r := &Run{seen: map[string]int{}}
	for _, rv := range recvs {
		checkEcho(r, g, f, rv, cs)
	}
	return climb(u, f, depth, r.obs, func(c *ssa.Function) []Ob { return echoObs(u, c, cs, depth+1) })
}

func checkEcho(r *Run, g *G, f *ssa.Function, rv Val, cs map[string]*Codec) {
	u := g.u
	call := rv.v.(*ssa.Call)
	con := short(f)
	var enc *ssa.Call
	var encCtx *Ctx
	for _, a := range args(call) {
		for _, o := range g.origins(Val{rv.ctx, a}) {
			if c, idx := callOf(o); c != nil && idx == 0 && strings.HasPrefix(u.CalleeName(c), "common/pkg/fcrmessages.Encode") {
				if enc != nil && enc != c {
					r.ob("echo-compared", con, false, u.Pos(call.Pos()), "the request sent here comes from more than one encoder")
					return
				}
				enc, encCtx = c, o.ctx
			}
		}
	}
	if enc == nil {
		r.ob("echo-compared", con, false, u.Pos(call.Pos()), "cannot tell which encoder made the request")
		return
	}
	var resp Key
	for _, ex := range extracts(call) {
		if ex.Index == 0 {
			resp = g.objkey(Val{rv.ctx, ex})
		}
	}
	en := u.CalleeName(enc)
	ec := cs[en[strings.LastIndex(en, ".Encode")+7:]]
	decs := decodesOf(g, resp)
	if ec == nil || len(decs) == 0 {
		r.ob("echo-compared", con, false, u.Pos(call.Pos()), "the answer is never decoded")
		return
	}
	for _, dn := range decs {
		dname := u.CalleeName(dn.instr.(ssa.CallInstruction))
		dc := cs[dname[strings.LastIndex(dname, ".Decode")+7:]]
		if dc == nil {
			continue
		}
		for field, flow := range ec.fields {
			if !echoFields[field] {
				continue
			}
			m := pRe.FindStringSubmatch(flow)
			if m == nil {
				continue
			}
			pi := atoi(m[1])
			ri := -1
			for i, res := range dc.results {
				for fl := range res {
					if fm := fRe.FindStringSubmatch(fl); fm != nil && fm[1] == field {
						ri = i
					}
				}
			}
			if ri < 0 || pi >= len(args(enc)) {
				continue
			}
			sent := baseOf(g.objkey(Val{encCtx, args(enc)[pi]}).s)
			var got []string
			for _, ex := range extracts(dn.instr.(ssa.Value)) {
				if ex.Index == ri {
					got = append(got, baseOf(g.objkey(Val{dn.ctx, ex}).s))
				}
			}
			okAll, n := true, 0
			where := u.Pos(dn.instr.Pos())
			for nd, st := range g.successExits() {
				if !g.passesThrough(rv, nd) {
					continue
				}
				n++
				if !eqIn(g, st, sent, got) {
					okAll = false
					where = g.where(nd)
				}
			}
			r.ob("echo-compared", con+": "+field, okAll && n > 0, where, "success is returned without "+field+" in the answer having been compared with the one sent")
		}
		// an answer that names who answers
		for i := range dc.results {
			if ws := wiresOf(dc, i); len(ws) != 1 || ws[0] != "gateway_id" && ws[0] != "provider_id" || ec.fields[ws[0]] != "" {
				continue
			}
			var got []string
			for _, ex := range extracts(dn.instr.(ssa.Value)) {
				if ex.Index == i {
					got = append(got, baseOf(g.objkey(Val{dn.ctx, ex}).s))
				}
			}
			okAll, n := true, 0
			where := u.Pos(dn.instr.Pos())
			for nd, st := range g.successExits() {
				if !g.passesThrough(rv, nd) {
					continue
				}
				n++
				if !namedIn(g, st, got) {
					okAll, where = false, g.where(nd)
				}
			}
			r.ob("answerer-compared", con, okAll && n > 0, where, "success is returned without the identifier in the answer having been compared with the one of the node asked")
		}
	}
}

// namedIn: the value equals the identifier a registrar has.
func namedIn(g *G, st *FSet, got []string) bool {
	if st.top {
		return true
	}
	for k := range st.m {
		f := &g.facts[k]
		if f.pred != "==" && f.pred != "eq" || len(f.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if !strings.Contains(f.args[1-i], "GetNodeID(") {
				continue
			}
			for _, x := range got {
				if baseOf(f.args[i]) == x {
					return true
				}
			}
		}
	}
	return false
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// passesThrough: the exit can be reached from the receive call.
func (g *G) passesThrough(rv Val, exit *Node) bool {
	start := rv.ctx.nodes[rv.v.(ssa.Instruction)]
	seen := map[*Node]bool{start: true}
	st := []*Node{start}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if n == exit {
			return true
		}
		for _, e := range n.succs {
			if !seen[e.to] {
				seen[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return false
}

func eqIn(g *G, st *FSet, sent string, got []string) bool {
	if st.top {
		return true
	}
	for k := range st.m {
		f := &g.facts[k]
		if f.pred != "==" && f.pred != "eq" || len(f.args) != 2 {
			continue
		}
		a, b := baseOf(f.args[0]), baseOf(f.args[1])
		for _, x := range got {
			if a == sent && b == x || a == x && b == sent {
				return true
			}
		}
	}
	return false
}
