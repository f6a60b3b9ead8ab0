package main

// Facts established by the project's own primitives, and the rules "X only after Y" built on them.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// primitives are not expanded: the rules speak about their outcome.
var primitives = map[string]bool{}

func init() {
	for _, n := range []string{
		"common/pkg/fcrmessages.FCRMessage.Verify", "common/pkg/fcrmessages.FCRMessage.Sign", "common/pkg/fcrmessages.CreateFCRMessage",
		"common/pkg/fcrmessages.FCRMsgFromBytes", "common/pkg/fcrmessages.FCRMessage.FCRMsgToBytes", "common/pkg/fcrmessages.FCRMessage.MarshalToSign",
		"common/pkg/fcrmessages.FCRMessage.DumpMessage", "common/pkg/fcrmessages.FCRMessage.GetMessageBody", "common/pkg/fcrmessages.FCRMessage.GetMessageType",
		"common/pkg/fcrmessages.FCRMessage.GetProtocolVersion", "common/pkg/fcrmessages.FCRMessage.GetProtocolSupported", "common/pkg/fcrmessages.FCRMessage.GetSignature",
		"common/pkg/cidoffer.CIDOffer.Verify", "common/pkg/cidoffer.SubCIDOffer.Verify", "common/pkg/cidoffer.CIDOffer.Sign",
		"common/pkg/cidoffer.SubCIDOffer.VerifyMerkleProof", "common/pkg/cidoffer.CIDOffer.GenerateSubCIDOffer",
		"common/pkg/cidoffer.CIDOffer.GetMessageDigest", "common/pkg/cidoffer.SubCIDOffer.GetMessageDigest",
		"common/pkg/cidoffer.CIDOffer.HasExpired", "common/pkg/cidoffer.SubCIDOffer.HasExpired", "common/pkg/cidoffer.CIDOffer.GetCIDs", "common/pkg/cidoffer.CIDOffer.GetProviderID",
		"common/pkg/cidoffer.SubCIDOffer.GetProviderID", "common/pkg/cidoffer.SubCIDOffer.GetSubCID", "common/pkg/cidoffer.NewCIDOffer",
		"common/pkg/cidoffer.EncodeMessageDigest", "common/pkg/cidoffer.DecodeMessageDigest",
		"common/pkg/fcrcrypto.SignMessage", "common/pkg/fcrcrypto.VerifyMessage",
		"gateway/internal/core.GetSingleInstance", "provider/internal/core.GetSingleInstance",
		"common/pkg/nodeid.NodeID.ToString", "common/pkg/cid.ContentID.ToString", "common/pkg/nodeid.NodeID.ToBytes", "common/pkg/cid.ContentID.ToBytes",
		"common/pkg/challenge.NewRandomChallenge",
	} {
		primitives[n] = true
	}
}

var primPrefixes = []string{
	"common/pkg/fcrmessages.Encode", "common/pkg/fcrmessages.Decode",
	"common/pkg/fcroffermgr.FCROfferMgr.", "common/pkg/fcroffermgr.New", "common/pkg/offermgr.FCROfferMgr.", "common/pkg/offermgr.New", "common/pkg/fcrpaymentmgr.FCRPaymentMgr.", "common/pkg/fcrpaymentmgr.New", "common/pkg/fcrregistermgr.FCRRegisterMgr.",
	"common/pkg/fcrregistermgr.New", "common/pkg/fcrp2pserver.", "common/pkg/fcrrestserver.", "common/pkg/register.", "common/pkg/request.",
	"common/pkg/fcrcrypto.", "common/pkg/dhtring.", "common/pkg/fcrlotuswrapper.", "common/pkg/nodeid.", "common/pkg/cid.", "common/pkg/fcrmerkletree.",
	"gateway/internal/reputation.", "gateway/internal/util.", "provider/internal/util.",
}

func primitive(name string, f *ssa.Function) bool {
	if primitives[name] {
		return true
	}
	for _, p := range primPrefixes {
		if strings.HasPrefix(name, p) {
			// unexported helpers and methods added to these packages later are still expanded when they are free functions
			return true
		}
	}
	return false
}

// owner: whose key this is ("gateway:<id>" / "provider:<id>" when it comes from the register by identifier).
func owner(g *G, v Val) Key {
	var out *Key
	for _, o := range g.origins(v) {
		if isNilConst(o.v) {
			continue
		}
		k := owner1(g, o)
		if out == nil {
			out = &k
		} else if out.s != k.s {
			return Key{s: "ambiguous:" + g.key(v).s, roots: []Val{v}}
		}
	}
	if out == nil {
		return Key{s: "none"}
	}
	return *out
}

func callOf(o Val) (*ssa.Call, int) {
	switch x := o.v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

func owner1(g *G, o Val) Key {
	c, idx := callOf(o)
	if c != nil && idx == 0 {
		name := g.u.CalleeName(c)
		base := name[strings.LastIndex(name, ".")+1:]
		if base == "GetSigningKey" || base == "GetRootSigningKey" {
			recv := Val{o.ctx, args(c)[0]}
			k := regOwner(g, recv)
			if base == "GetRootSigningKey" {
				k.s = "root-" + k.s
			}
			return k
		}
	}
	k := g.key(o)
	k.s = "key:" + k.s
	return k
}

func regOwner(g *G, recv Val) Key {
	var out *Key
	for _, o := range g.origins(recv) {
		if isNilConst(o.v) {
			continue
		}
		var k Key
		rc, ri := callOf(o)
		if rc != nil && ri == 0 {
			n := g.u.CalleeName(rc)
			b := n[strings.LastIndex(n, ".")+1:]
			as := args(rc)
			if (b == "GetGateway" || b == "GetProvider") && len(as) == 2 {
				k = g.objkey(Val{o.ctx, as[1]})
				k.s = strings.ToLower(b[3:]) + ":" + k.s
			}
		}
		if k.s == "" {
			k = g.objkey(o)
			k.s = "reg:" + k.s
		}
		if out == nil {
			out = &k
		} else if out.s != k.s {
			return Key{s: "ambiguous:" + g.key(recv).s, roots: []Val{recv}}
		}
	}
	if out == nil {
		return Key{s: "none"}
	}
	return *out
}

// primFacts: what a successful call of a primitive establishes.
func primFacts(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
	as := args(call)
	v := func(i int) Val { return Val{c, as[i]} }
	switch name {
	case "common/pkg/fcrmessages.FCRMessage.Verify":
		return []CondFact{{0, IsNil, mkFact("msgok", g.objkey(v(0)), owner(g, v(1)))}}
	case "common/pkg/fcrmessages.FCRMessage.Sign":
		return []CondFact{{0, IsNil, mkFact("signed", g.objkey(v(0)), g.key(v(1)))}}
	case "common/pkg/cidoffer.CIDOffer.Verify", "common/pkg/cidoffer.SubCIDOffer.Verify":
		return []CondFact{{0, IsNil, mkFact("offok", g.objkey(v(0)), owner(g, v(1)))}}
	case "common/pkg/cidoffer.SubCIDOffer.VerifyMerkleProof":
		return []CondFact{{0, IsNil, mkFact("merkleok", g.objkey(v(0)))}}
	case "common/pkg/fcroffermgr.FCROfferMgr.AddGroupOffer", "common/pkg/fcroffermgr.FCROfferMgr.AddDHTOffer", "common/pkg/offermgr.FCROfferMgr.AddGroupOffer", "common/pkg/offermgr.FCROfferMgr.AddDHTOffer":
		return []CondFact{{0, IsNil, mkFact("stored", g.objkey(v(1)))}}
	case "bytes.Equal", "strings.EqualFold", "reflect.DeepEqual", "crypto/hmac.Equal":
		return []CondFact{{0, True, mkFact("eq", g.objkey(v(0)), g.objkey(v(1)))}}
	case "common/pkg/fcrcrypto.VerifyMessage":
		return []CondFact{{0, True, mkFact("rawok", owner(g, v(0)), g.key(v(1)), g.key(v(2)))}}
	}
	return nil
}

func newGate(u *Universe, f *ssa.Function) *G {
	g := NewG(u, f, &Config{Opaque: primitive, CallFacts: primFacts, Loose: true})
	g.Solve()
	return g
}

// isLocal: the address lies in memory the entry function (or an expanded callee) allocated itself.
func (g *G) isLocal(a Val) bool {
	for k := 0; k < 50; k++ {
		a = g.resolve(a)
		switch x := a.v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.FieldAddr:
			a = Val{a.ctx, x.X}
		case *ssa.IndexAddr:
			a = Val{a.ctx, x.X}
		case *ssa.Slice:
			a = Val{a.ctx, x.X}
		case *ssa.UnOp:
			// a slice or map variable held in a local: local if everything stored there is
			al, ok := g.resolve(Val{a.ctx, x.X}).v.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, s := range allStores(al) {
				if !g.isLocal(Val{a.ctx, s.Val}) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return true
			}
			return false
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e == x {
					continue
				}
				switch e.(type) {
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Const, *ssa.Alloc, *ssa.Slice, *ssa.Call:
				default:
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

// msgOrigins: the names of the functions a message value comes from.
func msgOrigins(g *G, v Val) []string {
	var out []string
	for _, o := range g.origins(v) {
		if c, _ := callOf(o); c != nil {
			out = append(out, g.u.CalleeName(c))
		} else if isNilConst(o.v) {
			continue
		} else {
			out = append(out, "?"+g.key(o).s)
		}
	}
	return out
}

func isRefusal(names []string) bool {
	if len(names) == 0 {
		return false
	}
	for _, n := range names {
		if !strings.HasSuffix(n, ".EncodeInvalidMessageResponse") && !strings.HasSuffix(n, ".EncodeProtocolChangeRequest") && !strings.HasSuffix(n, ".EncodeProtocolChangeResponse") {
			return false
		}
	}
	return true
}

// effect: an action that a request may only trigger once it was authenticated.
func peerEffect(g *G, n *Node) (string, bool) {
	if n.after {
		return "", false
	}
	switch x := n.instr.(type) {
	case *ssa.Store:
		if !g.isLocal(Val{n.ctx, x.Addr}) {
			return "store to " + stableLoc(g, Val{n.ctx, x.Addr}), true
		}
	case *ssa.MapUpdate:
		if !g.isLocal(Val{n.ctx, x.Map}) {
			return "update of " + stableLoc(g, Val{n.ctx, x.Map}), true
		}
	case *ssa.Go:
		return "starting a goroutine", true
	case *ssa.Call, *ssa.Defer:
		call := x.(ssa.CallInstruction)
		if c, ok := x.(*ssa.Call); ok && n.ctx.children[c] != nil {
			return "", false
		}
		name := g.u.CalleeName(call)
		base := name[strings.LastIndex(name, ".")+1:]
		switch {
		case isOfferMgr(name),
			strings.HasPrefix(name, "common/pkg/fcrpaymentmgr.FCRPaymentMgr."),
			strings.HasPrefix(name, "gateway/internal/reputation."):
			return name, true
		case strings.HasPrefix(name, "common/pkg/fcrp2pserver.FCRP2PServer."):
			return name, true
		case strings.HasPrefix(name, "common/pkg/fcrregistermgr.FCRRegisterMgr."):
			if base == "GetGateway" || base == "GetProvider" {
				return "", false
			}
			return name, true
		case name == "common/pkg/fcrp2pserver.FCRServerWriter.Write":
			if isRefusal(msgOrigins(g, Val{n.ctx, args(call)[1]})) {
				return "", false
			}
			return "sending " + uniqJoin(msgOrigins(g, Val{n.ctx, args(call)[1]})), true
		case name == "builtin.delete":
			if !g.isLocal(Val{n.ctx, args(call)[0]}) {
				return "delete from " + stableLoc(g, Val{n.ctx, args(call)[0]}), true
			}
		}
	}
	return "", false
}

func isNodeIDPtr(t types.Type) bool { return typeFull(t) == "common/pkg/nodeid.NodeID" }

// decodesOf: Decode* calls applied to the given message, with their node.
func decodesOf(g *G, msg Key) []*Node {
	var out []*Node
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if strings.HasPrefix(name, "common/pkg/fcrmessages.Decode") && len(args(c)) == 1 {
			if g.objkey(Val{n.ctx, args(c)[0]}).s == msg.s {
				out = append(out, n)
			}
		}
	})
	return out
}

func extracts(c ssa.Value) []*ssa.Extract {
	var out []*ssa.Extract
	if c.Referrers() == nil {
		return nil
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			out = append(out, e)
		}
	}
	return out
}

// senderOwners: owner strings of the node that the message names as its sender.
func senderOwners(g *G, msg Key) map[string]bool {
	out := map[string]bool{}
	for _, n := range decodesOf(g, msg) {
		c := n.instr.(*ssa.Call)
		name := g.u.CalleeName(c)
		kind := "gateway"
		if strings.HasPrefix(name, "common/pkg/fcrmessages.DecodeProvider") {
			kind = "provider"
		}
		for _, e := range extracts(c) {
			if isNodeIDPtr(e.Type()) {
				out[kind+":"+g.objkey(Val{n.ctx, e}).s] = true
			}
		}
	}
	return out
}

func init() {
	register("P05", "For every function registered as handler of peer requests (found by signature among address-taken functions of gateway and provider), the inlined control-flow graph is solved for must-facts; at every node that changes state, reads the offer store, takes a payment, contacts a peer or sends data, a fact 'request verified with the key registered for the sender it names' must hold on all paths.",
		[]string{"gateway", "provider"}, func(r *Run) {
			r.rule("authenticated-effect", "every effect of a peer handler is dominated (on every feasible path) by request.Verify(k)==nil with k the registered signing key of the sender named in the request")
			r.rule("handler-authenticates", "every peer handler has a path on which the request is authenticated")
			nh := 0
			for _, mod := range []string{"gateway", "provider"} {
				u := r.U(mod)
				for _, f := range u.handlers(hPeer) {
					nh++
					g := newGate(u, f)
					r.count("graph nodes", len(g.nodes))
					req := g.objkey(Val{g.root, f.Params[2]})
					owners := senderOwners(g, req)
					for _, n := range g.nodes {
						if !g.reachable(n) {
							continue
						}
						what, ok := peerEffect(g, n)
						if !ok {
							continue
						}
						good := false
						have := ""
						for _, ft := range g.factsAt(n, "msgok") {
							have += " " + ft.String()
							if ft.args[0] == req.s && owners[ft.args[1]] {
								good = true
							}
						}
						r.ob("authenticated-effect", short(f)+": "+what, good, g.where(n), "reached without the request having been verified with the key registered for its sender (facts:"+have+")")
						r.count("effects", 1)
					}
				}
			}
			r.count("peer handlers", nh)
			r.floor("authenticated-effect", 12)
			if nh < 6 {
				r.ob("anchor", "peer handlers", false, "-", "fewer than 6 peer handlers found")
			}
		})
}

func isOfferMgr(name string) bool {
	return strings.HasPrefix(name, "common/pkg/fcroffermgr.FCROfferMgr.") || strings.HasPrefix(name, "common/pkg/offermgr.FCROfferMgr.")
}

func uniqJoin(ss []string) string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		s = s[strings.LastIndex(s, ".")+1:]
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// stableLoc: a name for a memory location that does not depend on temporaries: the innermost field or global.
func stableLoc(g *G, a Val) string {
	for k := 0; k < 50; k++ {
		a = g.resolve(a)
		switch x := a.v.(type) {
		case *ssa.FieldAddr:
			return typeFull(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
		case *ssa.Field:
			return typeFull(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
		case *ssa.IndexAddr:
			a = Val{a.ctx, x.X}
		case *ssa.UnOp:
			a = Val{a.ctx, x.X}
		case *ssa.Lookup:
			a = Val{a.ctx, x.X}
		case *ssa.Extract:
			if lk, ok := x.Tuple.(*ssa.Lookup); ok {
				a = Val{a.ctx, lk.X}
				continue
			}
			return "a " + typeFull(a.v.Type())
		case *ssa.Global:
			return shortPkg(x.Pkg.Pkg.Path()) + "." + x.Name()
		default:
			return "a " + typeFull(a.v.Type())
		}
	}
	return "a " + typeFull(a.v.Type())
}
