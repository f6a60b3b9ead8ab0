package main

// P08: offers received from the network enter a gateway's store only after their own signature was verified with the key
// of the provider they name, and are acknowledged only after all of them were stored.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elemNames: the names under which facts about this object may be recorded: its own, and "every element of S" if it is
// an element of S.
func elemNames(s string) []string {
	out := []string{s}
	if strings.HasSuffix(s, "]") {
		depth := 0
		for i := len(s) - 1; i >= 0; i-- {
			switch s[i] {
			case ']':
				depth++
			case '[':
				depth--
			}
			if depth == 0 {
				if i > 0 {
					out = append(out, s[:i]+"[*]")
				}
				break
			}
		}
	}
	return out
}

// factNames: predicate and object pairs to look for, for a fact about the object.
func (g *G) factsAbout(st *FSet, pred, obj string) []Fact {
	var out []Fact
	if st.top {
		return nil
	}
	names := elemNames(obj)
	for k := range st.m {
		f := g.facts[k]
		if len(f.args) == 0 {
			continue
		}
		if f.pred == pred && f.args[0] == names[0] {
			out = append(out, f)
		}
		if len(names) > 1 && f.pred == "all:"+pred && f.args[0] == names[1] {
			out = append(out, f)
		}
	}
	return out
}

// same: the two renderings denote equal values, directly or by an equality fact (possibly about every element).
func (g *G) same(st *FSet, a, b string) bool {
	a, b = baseOf(a), baseOf(b)
	if a == b || st.top {
		return true
	}
	for k := range st.m {
		f := &g.facts[k]
		switch f.pred {
		case "==", "eq", "all:==", "all:eq":
		default:
			continue
		}
		if len(f.args) != 2 {
			continue
		}
		x, y := baseOf(f.args[0]), baseOf(f.args[1])
		if x == a && y == b || x == b && y == a {
			return true
		}
	}
	return false
}

func isStoreOffer(name string) bool {
	return isOfferMgr(name) && (strings.HasSuffix(name, ".AddGroupOffer") || strings.HasSuffix(name, ".AddDHTOffer"))
}

// verifiedOffer: the offer's signature was checked with the key registered for the provider it names.
func (g *G) verifiedOffer(st *FSet, obj string) (bool, string) {
	why := "its signature was not verified"
	for _, f := range g.factsAbout(st, "offok", obj) {
		if !strings.HasPrefix(f.args[1], "provider:") {
			why = "its signature was verified with " + f.args[1] + ", not with a key registered for a provider"
			continue
		}
		id := f.args[1][len("provider:"):]
		for _, nm := range elemNames(obj) {
			for _, t := range []string{"CIDOffer", "SubCIDOffer"} {
				if g.same(st, id, "common/pkg/cidoffer."+t+".GetProviderID("+nm+")") {
					return true, ""
				}
			}
		}
		why = "its signature was verified with the key of a provider that was not compared with the one the offer names"
	}
	return false, why
}

var ackEncoders = map[string]bool{
	"common/pkg/fcrmessages.EncodeProviderPublishGroupOfferResponse": true,
	"common/pkg/fcrmessages.EncodeProviderPublishDHTOfferResponse":   true,
}
var offerDecoders = map[string]bool{
	"common/pkg/fcrmessages.DecodeProviderPublishGroupOfferRequest": true,
	"common/pkg/fcrmessages.DecodeProviderPublishDHTOfferRequest":   true,
}

func init() {
	register("P08", "Every gateway function from which an offer is stored, or a positive acknowledgement of published offers leaves, is expanded with its helpers and solved for must-facts: at each store of an offer its signature must have been verified with the key registered for the provider it names; at each use of an acknowledgement every offer decoded before it must have been stored.",
		[]string{"gateway"}, func(r *Run) {
			r.rule("store-verified", "an offer is stored only after offer.Verify(k)==nil with k registered for the provider which the offer names")
			r.rule("ack-after-stored", "a positive acknowledgement is sent, or put into a message, only after every offer of the request decoded before it was stored without error")
			u := r.U("gateway")
			fs := entryPoints(u, func(c ssa.CallInstruction, name string) bool { return isStoreOffer(name) || ackEncoders[name] })
			for _, f := range fs {
				g := newGate(u, f)
				r.count("graph nodes", len(g.nodes))
				type dec struct {
					n   *Node
					obj string
					n2  string
				}
				var decs []dec
				g.calls(func(n *Node, c ssa.CallInstruction, name string) {
					if !g.reachable(n) {
						return
					}
					if isStoreOffer(name) {
						k := g.objkey(Val{n.ctx, args(c)[1]})
						ok, why := g.verifiedOffer(n.in, k.s)
						r.ob("store-verified", short(f)+": "+name[strings.LastIndex(name, ".")+1:], ok, g.where(n), "the offer is stored although "+why)
					}
					if v, ok := c.(*ssa.Call); ok && offerDecoders[name] {
						for _, ex := range extracts(v) {
							t := typeFull(ex.Type())
							k := g.objkey(Val{n.ctx, ex}).s
							if t == "common/pkg/cidoffer.CIDOffer" {
								decs = append(decs, dec{n, k, ""})
							} else if strings.Contains(t, "cidoffer.CIDOffer") {
								decs = append(decs, dec{n, k + "[*]", "all:"})
							}
						}
					}
				})
				for _, n := range g.nodes {
					v, what := ackUse(g, n)
					if v == nil || !g.reachable(n) {
						continue
					}
					isAck := false
					for _, o := range g.origins(*v) {
						if c, idx := callOf(o); c != nil && idx == 0 && ackEncoders[u.CalleeName(c)] {
							isAck = true
						}
					}
					if !isAck {
						continue
					}
					ok, why, cnt := true, "", 0
					for _, d := range decs {
						if !g.passesThrough(Val{d.n.ctx, d.n.instr.(ssa.Value)}, n) {
							continue
						}
						cnt++
						if !g.has(n, Fact{pred: d.n2 + "stored", args: []string{d.obj}}) {
							ok, why = false, "not every offer decoded at "+u.Pos(d.n.instr.Pos())+" was stored without error on every path to here"
						}
					}
					if cnt == 0 {
						ok, why = false, "no decoded offers are known on the way to this acknowledgement"
					}
					r.ob("ack-after-stored", short(f)+": "+what, ok, g.where(n), why)
				}
			}
			r.floor("store-verified", 3)
			r.floor("ack-after-stored", 3)
		})
}

// ackUse: the node hands the message on (writes it to the peer or copies it into something else).
func ackUse(g *G, n *Node) (*Val, string) {
	if n.after {
		return nil, ""
	}
	switch x := n.instr.(type) {
	case *ssa.Call:
		if n.ctx.children[x] == nil && isPeerWrite(g.u.CalleeName(x)) {
			return &Val{n.ctx, args(x)[1]}, "sending"
		}
	case *ssa.UnOp:
		if typeFull(x.Type()) == tMsg && typeFull(x.X.Type()) == tMsg {
			return &Val{n.ctx, x.X}, "copying into a message"
		}
	case *ssa.Store:
		if typeFull(x.Val.Type()) == tMsg && !g.isLocal(Val{n.ctx, x.Addr}) {
			return &Val{n.ctx, x.Val}, "keeping"
		}
	case *ssa.Return:
		if n.ctx == g.root {
			for _, v := range x.Results {
				if typeFull(v.Type()) == tMsg {
					return &Val{n.ctx, v}, "returning"
				}
			}
		}
	}
	return nil, ""
}
