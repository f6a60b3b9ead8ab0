package main

// P31: a provider records a publication only with the gateway's verified proof, hands out exactly what it recorded, the
// gateway makes proofs that verify, and a client accepts only such proofs.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	dhtPubEncode   = "common/pkg/fcrmessages.EncodeProviderPublishDHTOfferRequest"
	dhtPubDecode   = "common/pkg/fcrmessages.DecodeProviderPublishDHTOfferRequest"
	dhtAckEncode   = "common/pkg/fcrmessages.EncodeProviderPublishDHTOfferResponse"
	dhtAckDecode   = "common/pkg/fcrmessages.DecodeProviderPublishDHTOfferResponse"
	groupPubEncode = "common/pkg/fcrmessages.EncodeProviderPublishGroupOfferRequest"
	groupAckDecode = "common/pkg/fcrmessages.DecodeProviderPublishGroupOfferResponse"
	listAnswer     = "common/pkg/fcrmessages.EncodeGatewayListDHTOfferResponse"
	ackAnswer      = "common/pkg/fcrmessages.EncodeClientDHTOfferAckResponse"
	ackQuestion    = "common/pkg/fcrmessages.DecodeClientDHTOfferAckRequest"
	cidString      = "common/pkg/cid.ContentID.ToString("
	nodeString     = "common/pkg/nodeid.NodeID.ToString("
	offerCIDs      = "common/pkg/cidoffer.CIDOffer.GetCIDs("
	messageBody    = "common/pkg/fcrmessages.FCRMessage.GetMessageBody("
)

// proofStruct: the struct type keeps a request together with its acknowledgement.
func proofStruct(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		t = deref(t)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || typeFull(t) == tMsg {
		return false
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if typeFull(st.Field(i).Type()) == tMsg {
			n++
		}
	}
	return n == 2
}

// proofTable: a map whose elements are proofs; proofIndex: a map of such maps.
func proofTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && proofStruct(m.Elem())
}
func proofIndex(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && proofTable(m.Elem())
}

// holdingsTable: a map kept by the core from gateways to the offers published to them.
func holdingsTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	return ok && typeFull(deref(s.Elem())) == "common/pkg/cidoffer.CIDOffer"
}

// entryPointsAt: as entryPoints, for functions that contain a wanted instruction.
func entryPointsAt(u *Universe, wanted func(ins ssa.Instruction) bool) []*ssa.Function {
	has := map[*ssa.Function]bool{}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if wanted(ins) {
					has[f] = true
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	taken := u.addressTaken()
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() != nil {
			up(f.Parent(), d)
			return
		}
		if !taken[f] && d < 10 {
			cs := u.callersOf(f)
			ok := len(cs) > 0
			for _, c := range cs {
				if c.Parent() == f {
					ok = false
				}
			}
			if ok {
				for _, c := range cs {
					up(c.Parent(), d+1)
				}
				return
			}
		}
		out[f] = true
	}
	for f := range has {
		if f.Pkg != nil && u.Roots[f.Pkg] && !strings.Contains(f.Pkg.Pkg.Path(), "mock") {
			up(f, 0)
		}
	}
	var fs []*ssa.Function
	for f := range out {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return FuncName(fs[i]) < FuncName(fs[j]) })
	return fs
}

// structParts: the values of the struct's fields, when it is built in one place.
func structParts(g *G, v Val) map[string]Val {
	v = g.resolve(v)
	var al *ssa.Alloc
	switch x := v.v.(type) {
	case *ssa.UnOp:
		a := g.resolve(Val{v.ctx, x.X})
		al, _ = a.v.(*ssa.Alloc)
		v = a
	case *ssa.Alloc:
		al = x
	}
	if al == nil {
		return nil
	}
	if s := singleStore(al); s != nil && !isZeroConst(s.Val) {
		return structParts(g, Val{v.ctx, s.Val})
	}
	out := map[string]Val{}
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			name := fieldName(x.X.Type(), x.Field)
			for _, r2 := range *x.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != x {
					continue
				}
				if _, dup := out[name]; dup {
					return nil
				}
				out[name] = Val{v.ctx, st.Val}
			}
		case *ssa.Store:
			if x.Addr == al && !isZeroConst(x.Val) {
				return nil
			}
		}
	}
	return out
}

// offerOfKey: the offer whose identifier (its CID, as text) this key is.
func offerOfKey(k string) (string, bool) {
	if !strings.HasPrefix(k, cidString+offerCIDs) {
		return "", false
	}
	s := k[len(cidString+offerCIDs):]
	i := strings.LastIndex(s, ")[")
	if i < 0 {
		return "", false
	}
	return strings.TrimLeft(s[:i], "*"), true
}

func nodeOfKey(k string) (string, bool) {
	if !strings.HasPrefix(k, nodeString) || !strings.HasSuffix(k, ")") {
		return "", false
	}
	return k[len(nodeString) : len(k)-1], true
}

// indexKey: the key under which the inner table lives, or is put, in the index of proofs.
func indexKeys(g *G, m Val) (ks []Key, why string) {
	for _, o := range g.origins(m) {
		switch x := o.v.(type) {
		case *ssa.Extract:
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 && proofIndex(lk.X.Type()) {
				ks = append(ks, g.key(Val{o.ctx, lk.Index}))
				continue
			}
		case *ssa.Lookup:
			if proofIndex(x.X.Type()) {
				ks = append(ks, g.key(Val{o.ctx, x.Index}))
				continue
			}
		case *ssa.MakeMap:
			n := 0
			for _, m := range g.nodes {
				if mu, ok := m.instr.(*ssa.MapUpdate); ok && !m.after && m.ctx == o.ctx || ok && !m.after {
					if !proofIndex(mu.Map.Type()) {
						continue
					}
					for _, p := range g.origins(Val{m.ctx, mu.Value}) {
						if p == o {
							n++
							ks = append(ks, g.key(Val{m.ctx, mu.Key}))
						}
					}
				}
			}
			if n == 0 {
				return nil, "a new table is filled which is not put into the index of proofs"
			}
			continue
		}
		if isNilConst(o.v) {
			continue
		}
		return nil, "the table filled is " + g.key(o).s
	}
	if len(ks) == 0 {
		return nil, "the table filled has no known place in the index of proofs"
	}
	return ks, ""
}

func ackGraph(u *Universe, f *ssa.Function) *G {
	cfg := &Config{Opaque: primitive, CallFacts: primFacts, Loose: true}
	cfg.NodeGen = func(g *G, n *Node) []Fact {
		mu, ok := n.instr.(*ssa.MapUpdate)
		if !ok || !proofTable(mu.Map.Type()) {
			return nil
		}
		ks, _ := indexKeys(g, Val{n.ctx, mu.Map})
		if len(ks) == 0 {
			return nil
		}
		for _, k := range ks[1:] {
			if k.s != ks[0].s {
				return nil
			}
		}
		x, ok := offerOfKey(ks[0].s)
		if !ok {
			return nil
		}
		return []Fact{mkFact("acked", Key{s: x, roots: ks[0].roots})}
	}
	g := NewG(u, f, cfg)
	g.Solve()
	return g
}

// decodedFrom: keys of the results (of the given type) of decoding the message.
func decodedFrom(g *G, decoder, msg string, want func(types.Type) bool) map[string]bool {
	out := map[string]bool{}
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		v, ok := c.(*ssa.Call)
		if !ok || name != decoder || len(args(c)) != 1 || g.objkey(Val{n.ctx, args(c)[0]}).s != msg {
			return
		}
		for _, ex := range extracts(v) {
			if want(ex.Type()) {
				out[g.objkey(Val{n.ctx, ex}).s] = true
			}
		}
	})
	return out
}

func isOfferList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeFull(deref(s.Elem())) == "common/pkg/cidoffer.CIDOffer"
}

// publishedIn: the lists of offers carried by the publication: what it decodes to and what it was encoded from.
func publishedIn(g *G, m Val) map[string]bool {
	out := decodedFrom(g, dhtPubDecode, g.objkey(m).s, isOfferList)
	var os []Val
	for _, mv := range append(msgVals(g, g.objkey(m).s), m) {
		os = append(os, g.origins(mv)...)
	}
	for _, o := range os {
		if c, idx := callOf(o); c != nil && idx == 0 {
			switch g.u.CalleeName(c) {
			case dhtPubEncode:
				for _, a := range args(c) {
					if isOfferList(a.Type()) {
						out[g.objkey(Val{o.ctx, a}).s] = true
					}
				}
			case groupPubEncode:
				for _, a := range args(c) {
					if typeFull(deref(a.Type())) == "common/pkg/cidoffer.CIDOffer" {
						out[g.objkey(Val{o.ctx, a}).s] = true
					}
				}
			}
		}
	}
	return out
}

func inLists(x string, lists map[string]bool) bool {
	if lists[x] {
		return true
	}
	for _, n := range elemNames(x)[1:] {
		if lists[strings.TrimSuffix(n, "[*]")] {
			return true
		}
	}
	return false
}

// sentTo: the message, or the list it is taken from, was written before this node.
func sentBefore(g *G, n *Node, m Val) bool {
	written := func(key string) bool {
		for _, w := range g.nodes {
			c, ok := w.instr.(*ssa.Call)
			if !ok || w.after || !g.reachable(w) || !isPeerWrite(g.u.CalleeName(c)) {
				continue
			}
			if g.objkey(Val{w.ctx, args(c)[1]}).s == key && g.passesThrough(Val{w.ctx, c}, n) {
				return true
			}
		}
		return false
	}
	k := g.objkey(m).s
	if written(k) {
		return true
	}
	for _, e := range elemNames(k)[1:] {
		list := strings.TrimSuffix(e, "[*]")
		found := false
		g.calls(func(w *Node, c ssa.CallInstruction, name string) {
			v, ok := c.(*ssa.Call)
			if !ok || name != listAnswer || !g.reachable(w) || g.objkey(Val{w.ctx, args(c)[0]}).s != list {
				return
			}
			for _, ex := range extracts(v) {
				if ex.Index == 0 && written(g.objkey(Val{w.ctx, ex}).s) {
					found = true
				}
			}
		})
		if found {
			return true
		}
	}
	return false
}

// provedBy: the facts show that gateway gw signed an acknowledgement (message a, if known) of publication m.
func provedBy(g *G, st *FSet, gw, a, m string) (ack, why string) {
	why = "no signature of that gateway over the publication sent to it was verified"
	for _, f := range st.list(g) {
		if f.pred != "rawok" || f.args[0] != "gateway:"+gw || f.args[2] != messageBody+m+")" {
			continue
		}
		// the signature must be the one in an acknowledgement
		for _, n := range g.nodes {
			c, ok := n.instr.(*ssa.Call)
			if !ok || n.after || g.u.CalleeName(c) != dhtAckDecode {
				continue
			}
			k := g.objkey(Val{n.ctx, args(c)[0]}).s
			if a != "" && k != a {
				why = "the signature verified is not the one in the acknowledgement recorded"
				continue
			}
			for _, ex := range extracts(c) {
				if isStringType(ex.Type()) && g.key(Val{n.ctx, ex}).s == f.args[1] {
					if !g.hasIn(st, Fact{pred: "msgok", args: []string{k, "gateway:" + gw}}) {
						return "", "the acknowledgement message itself was not verified with that gateway's key, so that nobody can verify it later"
					}
					return k, ""
				}
			}
		}
	}
	return "", why
}

// msgsOf: the publications of which the facts know a verified signature.
func bodiesVerified(g *G, st *FSet) map[string]string { // message -> gateway
	out := map[string]string{}
	for _, f := range st.list(g) {
		if f.pred == "rawok" && strings.HasPrefix(f.args[0], "gateway:") && strings.HasPrefix(f.args[2], messageBody) {
			out[strings.TrimSuffix(f.args[2][len(messageBody):], ")")] = f.args[0][len("gateway:"):]
		}
	}
	return out
}

// entails: the facts include everything that v being so means (and it means something).
func (g *G) entails(st *FSet, v Val, p Pol) bool {
	im := g.imp(v, p)
	if im.top || st.top || len(im.m) == 0 {
		return false
	}
	for k := range im.m {
		if !st.m[k] {
			return false
		}
	}
	return true
}

// digestSide: the value is the digest of an offer, or the digest in a gateway's answer to a group publication.
func digestSide(g *G, v Val) (offer, answer string) {
	for d := 0; d < 10; d++ {
		v = g.resolve(v)
		switch x := v.v.(type) {
		case *ssa.Slice:
			if x.Low != nil || x.High != nil {
				return "", ""
			}
			v = Val{v.ctx, x.X}
			continue
		case *ssa.UnOp:
			v = Val{v.ctx, x.X}
			continue
		case *ssa.Alloc:
			s := singleStore(x)
			if s == nil {
				return "", ""
			}
			v = Val{v.ctx, s.Val}
			continue
		}
		c, idx := callOf(v)
		if c == nil {
			return "", ""
		}
		switch n := g.u.CalleeName(c); n {
		case "common/pkg/cidoffer.DecodeMessageDigest", "common/pkg/cidoffer.EncodeMessageDigest":
			v = Val{v.ctx, args(c)[0]}
			continue
		case "common/pkg/cidoffer.CIDOffer.GetMessageDigest":
			return g.objkey(Val{v.ctx, args(c)[0]}).s, ""
		case groupAckDecode:
			if isStringType(c.Call.Signature().Results().At(idx).Type()) || idx == 1 {
				return "", g.objkey(Val{v.ctx, args(c)[0]}).s
			}
		}
		return "", ""
	}
	return "", ""
}

// digestConfirmed: the digest in an answer signed by the gateway was found equal to that of the offer.
func digestConfirmed(g *G, st *FSet, gw, offer string) string {
	why := "the digest in the gateway's answer was not found equal to that of the offer"
	for _, n := range g.nodes {
		if n.after || n.in == nil {
			continue
		}
		var a, b Val
		pol := True
		v, ok := n.instr.(ssa.Value)
		if !ok {
			continue
		}
		switch x := n.instr.(type) {
		case *ssa.Call:
			switch g.u.CalleeName(x) {
			case "bytes.Equal", "reflect.DeepEqual", "crypto/hmac.Equal":
				a, b = Val{n.ctx, args(x)[0]}, Val{n.ctx, args(x)[1]}
			default:
				continue
			}
		case *ssa.BinOp:
			if x.Op.String() == "!=" {
				pol = False
			} else if x.Op.String() != "==" {
				continue
			}
			a, b = Val{n.ctx, x.X}, Val{n.ctx, x.Y}
		default:
			continue
		}
		o1, r1 := digestSide(g, a)
		o2, r2 := digestSide(g, b)
		if o1 == "" {
			o1, r2 = o2, r1+r2
		} else {
			r2 = r1 + r2
		}
		if o1 != offer || r2 == "" || !g.entails(st, Val{n.ctx, v}, pol) {
			continue
		}
		if g.hasIn(st, Fact{pred: "msgok", args: []string{r2, "gateway:" + gw}}) {
			return ""
		}
		why = "the answer with the digest was not verified with that gateway's key"
	}
	return why
}

// appendedTo: the old list and the elements of append(old, elements...), or the list for append(old, list...).
func appendedTo(g *G, v Val) (old Val, elems []Val, list *Val, ok bool) {
	v = g.resolve(v)
	c, isc := v.v.(*ssa.Call)
	if !isc || g.u.CalleeName(c) != "builtin.append" {
		return
	}
	old = Val{v.ctx, c.Call.Args[0]}
	rest := g.resolve(Val{v.ctx, c.Call.Args[1]})
	if vs := varargs(rest.v); vs != nil {
		for _, e := range vs {
			elems = append(elems, Val{rest.ctx, e})
		}
		return old, elems, nil, true
	}
	return old, nil, &rest, true
}

func init() {
	register("P31", "Every provider function that adds to the index of proofs or to the table of offers held by gateways, every provider function that hands out proofs, every gateway function that makes acknowledgements of DHT publications, and every client function that asks for a proof is expanded with its helpers and solved for must-facts, which are then required at each addition, answer and success.",
		[]string{"provider", "gateway", "client"}, func(r *Run) {
			r.rule("proof-verified", "a proof is recorded only after the gateway's signature over the very publication recorded, taken from the very acknowledgement recorded, and that acknowledgement's own signature were verified")
			r.rule("proof-of-what-was-sent", "the publication recorded was signed by the provider and sent before the acknowledgement was verified")
			r.rule("recorded-under", "a proof is recorded under the gateway whose key verified it and under the identifier of an offer of the publication it proves")
			r.rule("every-offer", "the proof is recorded for every offer of the publication")
			r.rule("holding-proved", "an offer is recorded as held by a gateway only after that gateway's acknowledgement of it was verified")
			r.rule("holding-kept", "recording an offer keeps those recorded for the gateway before")
			r.rule("holding-retrievable", "the success of a DHT publication leaves the proof for each offer recorded as held")
			r.rule("proofs-kept", "nothing removes or replaces recorded proofs")
			r.rule("handed-out", "the answer to a client carries the publication and acknowledgement recorded for the identifier and gateway asked, and says found only then")
			r.rule("handed-out-if-there", "the answer says not found only if nothing is recorded")
			r.rule("ack-verifiable", "a gateway's acknowledgement carries its signature over the publication received and is itself signed with the gateway's key")
			r.rule("client-accepts", "a client reports a publication as proven only after verifying the provider's signature on the publication, the gateway's on the acknowledgement and over the publication, and that the publication is about the identifier asked for")
			roles := map[string]bool{}
			ackRecords(r, r.U("provider"), roles)
			ackHandedOut(r, r.U("provider"), roles)
			ackMade(r, r.U("gateway"))
			ackAccepted(r, r.U("client"))
			r.rule("digest-text", "the text of a digest is the whole digest, written and read in the same alphabet")
			digestText(r, r.U("provider"), "digest-text")
			r.floor("proof-verified", 2)
			r.floor("holding-proved", 2)
			r.floor("handed-out", 1)
			r.floor("ack-verifiable", 2)
			r.floor("client-accepts", 1)
		})
}

func ackRecords(r *Run, u *Universe, roles map[string]bool) {
	fs := entryPointsAt(u, func(ins ssa.Instruction) bool {
		mu, ok := ins.(*ssa.MapUpdate)
		return ok && (proofTable(mu.Map.Type()) || proofIndex(mu.Map.Type()) || holdingsTable(mu.Map.Type()))
	})
	for _, f := range fs {
		g := ackGraph(u, f)
		r.count("graph nodes", len(g.nodes))
		exits := g.successExits()
		for _, n := range g.nodes {
			mu, ok := n.instr.(*ssa.MapUpdate)
			if !ok || n.after || !g.reachable(n) {
				continue
			}
			switch {
			case proofIndex(mu.Map.Type()):
				// a table put there must be new, and nothing may have been there
				if g.isLocal(Val{n.ctx, mu.Map}) {
					continue
				}
				ok, why := true, ""
				for _, o := range g.origins(Val{n.ctx, mu.Value}) {
					if _, mk := o.v.(*ssa.MakeMap); !mk {
						ok, why = false, "the table put into the index is not new"
					}
				}
				k := g.key(Val{n.ctx, mu.Key}).s
				absent := false
				for _, ft := range n.in.list(g) {
					if (ft.pred == "notinmap" || ft.pred == "isnil") && strings.HasSuffix(ft.String(), k+")") || ft.pred == "isnil" && strings.Contains(ft.String(), "["+k+"]") {
						absent = true
					}
				}
				if ok && !absent {
					ok, why = false, "a table that is there already, with the proofs in it, can be replaced"
				}
				r.ob("proofs-kept", short(f)+": new table", ok, g.where(n), why)
			case proofTable(mu.Map.Type()):
				oneProof(r, g, f, n, mu, roles)
			case holdingsTable(mu.Map.Type()):
				if g.isLocal(Val{n.ctx, mu.Map}) {
					continue
				}
				oneHolding(r, g, f, n, mu, exits)
			}
		}
		// every offer of the publication, once the loop over them is done
		for _, c := range g.ctxs {
			for _, b := range c.fn.Blocks {
				li := g.loopAt(b)
				if li == nil || li.src == nil || !isOfferList(li.src.Type()) {
					continue
				}
				list := g.objkey(Val{c, li.src}).s
				in := false
				for _, n := range g.nodes {
					mu, ok := n.instr.(*ssa.MapUpdate)
					if !ok || n.after || !g.reachable(n) || !proofTable(mu.Map.Type()) {
						continue
					}
					m := n.ctx
					at := n.instr
					for m != nil && m != c {
						at, m = m.site, m.parent
					}
					if m == c && li.blocks[at.Block()] {
						in = true
					}
				}
				if !in {
					continue
				}
				d := c.first[li.done]
				if d == nil || !g.reachable(d) {
					continue
				}
				ok := g.has(d, Fact{pred: "all:acked", args: []string{list + "[*]"}}) && !li.breaks()
				r.ob("every-offer", short(f), ok, g.where(d), "after the loop the proof need not have been recorded for every offer")
			}
		}
	}
	// nothing else touches the tables
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Call:
					if u.CalleeName(x) == "builtin.delete" && (proofTable(x.Call.Args[0].Type()) || proofIndex(x.Call.Args[0].Type()) || holdingsTable(x.Call.Args[0].Type())) {
						r.ob("proofs-kept", short(f)+": delete", false, u.Pos(x.Pos()), "recorded proofs or holdings are deleted")
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !(proofIndex(deref(fa.Type())) || holdingsTable(deref(fa.Type()))) {
						continue
					}
					_, fresh := fa.X.(*ssa.Alloc)
					r.ob("proofs-kept", short(f)+": "+fieldName(fa.X.Type(), fa.Field), fresh, u.Pos(x.Pos()), "the table of recorded proofs or holdings is replaced")
				}
			}
		}
	}
}

func oneProof(r *Run, g *G, f *ssa.Function, n *Node, mu *ssa.MapUpdate, roles map[string]bool) {
	where := g.where(n)
	parts := structParts(g, Val{n.ctx, mu.Value})
	var names []string
	for k := range parts {
		names = append(names, k)
	}
	sort.Strings(names)
	gw, ok := nodeOfKey(g.key(Val{n.ctx, mu.Key}).s)
	if !ok {
		r.ob("recorded-under", short(f), false, where, "the key of the entry is not the identifier of a gateway")
		return
	}
	if len(parts) != 2 {
		r.ob("proof-verified", short(f), false, where, "what is recorded is not made of one publication and one acknowledgement")
		return
	}
	best, bestWhy := "", ""
	var msg Val
	for i := 0; i < 2; i++ {
		m, a := parts[names[i]], parts[names[1-i]]
		ack, why := provedBy(g, n.in, gw, g.objkey(a).s, g.objkey(m).s)
		if ack != "" {
			best, msg = names[i], m
			break
		}
		if bestWhy == "" || strings.HasPrefix(bestWhy, "no signature") {
			bestWhy = why
		}
	}
	r.ob("proof-verified", short(f), best != "", where, bestWhy)
	if best == "" {
		return
	}
	roles[best] = true
	// recorded under
	ks, why := indexKeys(g, Val{n.ctx, mu.Map})
	lists := publishedIn(g, msg)
	for _, k := range ks {
		x, ok := offerOfKey(k.s)
		if !ok {
			why = "the index key is not the identifier of an offer"
		} else if !inLists(x, lists) {
			why = "the index key is the identifier of an offer that is not known to be in the publication recorded"
		}
	}
	r.ob("recorded-under", short(f), why == "", where, why)
	// sent and signed
	why = ""
	if !sentBefore(g, n, msg) {
		why = "the publication recorded was not sent on the way here"
	} else if !signedFor(g, n, msg) {
		why = "the publication recorded is not known to carry the provider's signature"
	}
	r.ob("proof-of-what-was-sent", short(f), why == "", where, why)
}

// signedFor: the message, or whatever was put into the list it is taken from, was signed with the node's own key.
func signedFor(g *G, n *Node, m Val) bool {
	k := g.objkey(m).s
	if signedOwn(g, n.in, k) {
		return true
	}
	for _, e := range elemNames(k)[1:] {
		list := strings.TrimSuffix(e, "[*]")
		puts, good := 0, true
		for _, w := range g.nodes {
			c, ok := w.instr.(*ssa.Call)
			if !ok || w.after || !g.reachable(w) || g.u.CalleeName(c) != "builtin.append" {
				continue
			}
			st, isList := c.Type().Underlying().(*types.Slice)
			if !isList || typeFull(deref(st.Elem())) != tMsg {
				continue
			}
			into := g.objkey(Val{w.ctx, c}).s == list
			for _, o := range g.origins(Val{w.ctx, c.Call.Args[0]}) {
				into = into || g.objkey(o).s == list
			}
			for _, mv := range messageLists(g, list) {
				for _, o := range g.origins(mv) {
					into = into || o == Val{w.ctx, c}
				}
			}
			if !into {
				continue
			}
			_, es, _, ok := appendedTo(g, Val{w.ctx, c})
			if !ok || len(es) == 0 {
				good = false
			}
			for _, e := range es {
				puts++
				if !signedOwn(g, w.in, g.objkey(e).s) {
					good = false
				}
			}
		}
		// or stored into a list of known length
		for _, w := range g.nodes {
			st, ok := w.instr.(*ssa.Store)
			if !ok || w.after || !g.reachable(w) {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || g.objkey(Val{w.ctx, ia.X}).s != list {
				continue
			}
			puts++
			if !signedOwn(g, w.in, g.objkey(Val{w.ctx, st.Val}).s) {
				good = false
			}
		}
		if puts > 0 && good {
			return true
		}
	}
	return false
}

// messageLists: the values that are the list with this key.
func messageLists(g *G, key string) []Val {
	var out []Val
	for _, c := range g.ctxs {
		for _, b := range c.fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				if st, ok := v.Type().Underlying().(*types.Slice); ok && typeFull(deref(st.Elem())) == tMsg && g.objkey(Val{c, v}).s == key {
					out = append(out, Val{c, v})
				}
			}
		}
	}
	return out
}

func oneHolding(r *Run, g *G, f *ssa.Function, n *Node, mu *ssa.MapUpdate, exits map[*Node]*FSet) {
	where := g.where(n)
	key := g.key(Val{n.ctx, mu.Key}).s
	gw, ok := nodeOfKey(key)
	if !ok {
		r.ob("holding-proved", short(f), false, where, "the key of the entry is not the identifier of a gateway")
		return
	}
	old, elems, list, ok := appendedTo(g, Val{n.ctx, mu.Value})
	if !ok {
		r.ob("holding-kept", short(f), false, where, "what is recorded is not what was recorded before with something appended")
		return
	}
	kept, prev := true, false
	g.ways(n.in, old, func(st *FSet, o Val, leaf bool) bool {
		if isNilConst(o.v) || emptySlice(o.v) {
			absent := false
			for _, ft := range st.list(g) {
				if ft.pred == "notinmap" && ft.args[1] == key {
					absent = true
				}
				if (ft.pred == "isnil" || ft.pred == "==") && strings.Contains(ft.args[0], "["+key+"]") && (ft.pred == "isnil" || ft.args[1] == "const:0") {
					absent = true
				}
			}
			kept = kept && absent
			return true
		}
		if !leaf {
			return false
		}
		var lk *ssa.Lookup
		switch x := o.v.(type) {
		case *ssa.Lookup:
			lk = x
		case *ssa.Extract:
			lk, _ = x.Tuple.(*ssa.Lookup)
		}
		if lk != nil && g.key(Val{o.ctx, lk.X}).s == g.key(Val{n.ctx, mu.Map}).s && g.key(Val{o.ctx, lk.Index}).s == key {
			prev = true
		} else {
			kept = false
		}
		return true
	})
	r.ob("holding-kept", short(f), kept && prev, where, "the offers recorded for this gateway before can be lost")
	var xs []string
	for _, e := range elems {
		xs = append(xs, g.objkey(e).s)
	}
	if list != nil {
		xs = append(xs, g.objkey(*list).s)
	}
	for _, x := range xs {
		why := digestConfirmed(g, n.in, gw, x)
		if why != "" {
			for m, who := range bodiesVerified(g, n.in) {
				if who != gw {
					continue
				}
				ack, w := provedBy(g, n.in, gw, "", m)
				if ack == "" {
					why = w
					continue
				}
				for _, mv := range msgVals(g, m) {
					if inLists(x, publishedIn(g, mv)) {
						if sentBefore(g, n, mv) {
							why = ""
						} else {
							why = "the publication acknowledged was not the one sent"
						}
						break
					}
				}
				if why == "" {
					// the proof is there in the end
					good := true
					bad := n
					for e, st := range exits {
						if !reachesNode(n, e) {
							continue
						}
						have := g.hasIn(st, Fact{pred: "acked", args: []string{x}})
						for _, nm := range elemNames(x) {
							have = have || g.hasIn(st, Fact{pred: "all:acked", args: []string{nm}}) || g.hasIn(st, Fact{pred: "all:acked", args: []string{nm + "[*]"}})
						}
						if !have {
							good, bad = false, e
						}
					}
					r.ob("holding-retrievable", short(f), good, g.where(bad), "the publication can succeed with the offer recorded as held and no proof recorded for it")
				}
			}
		} else {
			// the offer confirmed is the one published
			pub := false
			g.calls(func(w *Node, c ssa.CallInstruction, name string) {
				v, ok := c.(*ssa.Call)
				if !ok || name != groupPubEncode || !g.reachable(w) {
					return
				}
				for _, ex := range extracts(v) {
					if ex.Index == 0 && inLists(x, publishedIn(g, Val{w.ctx, ex})) && sentBefore(g, n, Val{w.ctx, ex}) {
						pub = true
					}
				}
			})
			if !pub {
				why = "the offer recorded is not the one that was published"
			}
		}
		r.ob("holding-proved", short(f), why == "", where, why)
	}
}

func reachesNode(a, b *Node) bool {
	seen := map[*Node]bool{a: true}
	st := []*Node{a}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if n == b {
			return true
		}
		for _, e := range n.succs {
			if !seen[e.to] {
				seen[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return false
}

// proofEntry: the index and gateway keys of the recorded proof whose field this is.
func proofEntry(g *G, v Val) (index, entry Key, field string, ok bool) {
	v = g.resolve(v)
	fa, isF := v.v.(*ssa.FieldAddr)
	var base Val
	if isF {
		field, base = fieldName(fa.X.Type(), fa.Field), Val{v.ctx, fa.X}
	} else if fx, isX := v.v.(*ssa.Field); isX {
		field, base = fieldName(fx.X.Type(), fx.Field), Val{v.ctx, fx.X}
	} else if al, isA := v.v.(*ssa.Alloc); isA {
		if s := soleStore(al); s != nil {
			return proofEntry(g, Val{v.ctx, s.Val})
		}
		return
	} else if ld, isL := v.v.(*ssa.UnOp); isL {
		return proofEntry(g, Val{v.ctx, ld.X})
	} else {
		return
	}
	for d := 0; d < 10; d++ {
		base = g.resolve(base)
		switch x := base.v.(type) {
		case *ssa.Alloc:
			s := soleStore(x)
			if s == nil {
				return
			}
			base = Val{base.ctx, s.Val}
			continue
		case *ssa.UnOp:
			base = Val{base.ctx, x.X}
			continue
		}
		break
	}
	lookup := func(v Val) *ssa.Lookup {
		switch x := v.v.(type) {
		case *ssa.Lookup:
			return x
		case *ssa.Extract:
			if x.Index == 0 {
				lk, _ := x.Tuple.(*ssa.Lookup)
				return lk
			}
		}
		return nil
	}
	lk := lookup(base)
	if lk == nil || !proofTable(lk.X.Type()) {
		return
	}
	entry = g.key(Val{base.ctx, lk.Index})
	inner := g.resolve(Val{base.ctx, lk.X})
	lk2 := lookup(inner)
	if lk2 == nil || !proofIndex(lk2.X.Type()) {
		return
	}
	return g.key(Val{inner.ctx, lk2.Index}), entry, field, true
}

// soleStore: the only assignment to the local, which may also be handed around by address.
func soleStore(al *ssa.Alloc) *ssa.Store {
	if s := singleStore(al); s != nil {
		return s
	}
	var one *ssa.Store
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != al {
				continue
			}
			if one != nil {
				return nil
			}
			one = x
		case *ssa.FieldAddr:
			if fieldStored(x) {
				return nil
			}
		}
	}
	return one
}

func ackHandedOut(r *Run, u *Universe, roles map[string]bool) {
	for _, f := range entryPoints(u, func(c ssa.CallInstruction, name string) bool { return name == ackAnswer }) {
		g := newGate(u, f)
		r.count("graph nodes", len(g.nodes))
		cidAsked, gwAsked := map[string]bool{}, map[string]bool{}
		g.calls(func(n *Node, c ssa.CallInstruction, name string) {
			v, ok := c.(*ssa.Call)
			if !ok || name != ackQuestion {
				return
			}
			for _, ex := range extracts(v) {
				switch typeFull(deref(ex.Type())) {
				case "common/pkg/cid.ContentID":
					cidAsked[g.objkey(Val{n.ctx, ex}).s] = true
				case "common/pkg/nodeid.NodeID":
					gwAsked[g.objkey(Val{n.ctx, ex}).s] = true
				}
			}
		})
		asked := func(index, entry string) bool {
			gw, ok := nodeOfKey(entry)
			if !ok || !gwAsked[gw] || !strings.HasPrefix(index, cidString) {
				return false
			}
			return cidAsked[strings.TrimSuffix(index[len(cidString):], ")")]
		}
		// what an answer made at this call means
		answer := func(o Val) (found, notFound bool, why string) {
			c, idx := callOf(o)
			if c == nil || idx != 0 || u.CalleeName(c) != ackAnswer || len(args(c)) != 5 {
				return false, false, "the answer is not made by " + baseOfName(ackAnswer)
			}
			as := args(c)
			if !cidAsked[g.objkey(Val{o.ctx, as[0]}).s] || !gwAsked[g.objkey(Val{o.ctx, as[1]}).s] {
				return false, false, "the answer is not about the identifier and gateway asked for"
			}
			n := o.ctx.nodes[c]
			found, notFound = true, true
			if k, ok := g.resolve(Val{o.ctx, as[2]}).v.(*ssa.Const); ok {
				found, notFound = k.Value.ExactString() == "true", k.Value.ExactString() == "false"
			}
			if !found {
				return
			}
			for i, want := range []string{"publication", "acknowledgement"} {
				index, entry, field, ok := proofEntry(g, Val{o.ctx, as[3+i]})
				switch {
				case !ok:
					why = "the " + want + " handed out is not one that is recorded"
				case !asked(index.s, entry.s):
					why = "the " + want + " handed out is recorded for another identifier or gateway than those asked for"
				case roles[field] != (i == 0):
					why = "publication and acknowledgement are confused"
				case !present(g, n.in, index, entry):
					why = "found is answered without anything being recorded"
				}
			}
			return
		}
		sent := 0
		for _, n := range g.nodes {
			c, ok := n.instr.(*ssa.Call)
			if !ok || n.after || !g.reachable(n) || !isRESTWrite(u.CalleeName(c)) {
				continue
			}
			as := args(c)
			val := g.resolve(Val{n.ctx, as[len(as)-1]})
			if mi, ok := val.v.(*ssa.MakeInterface); ok {
				val = Val{val.ctx, mi.X}
			}
			g.ways(n.in, val, func(st *FSet, v Val, leaf bool) bool {
				if isNilConst(v.v) {
					return true
				}
				cc, _ := callOf(v)
				if cc == nil {
					if leaf {
						r.ob("handed-out", short(f), false, g.where(n), "what is sent is "+g.key(v).s)
					}
					return leaf
				}
				if v.ctx.children[cc] != nil {
					return false
				}
				sent++
				found, notFound, why := answer(v)
				r.ob("handed-out", short(f), why == "", g.where(v.ctx.nodes[cc]), why)
				if notFound && !found && why == "" {
					r.ob("handed-out-if-there", short(f), absentIn(g, st, asked), g.where(n), "the answer says not found although a proof may be recorded")
				}
				return true
			})
		}
		if sent == 0 {
			r.ob("handed-out", short(f), false, u.Pos(f.Pos()), "no answer is sent")
		}
	}
}

func baseOfName(n string) string { return n[strings.LastIndex(n, ".")+1:] }

// present: both lookups of the proof are known to have succeeded.
func present(g *G, st *FSet, index, entry Key) bool {
	a, b := false, false
	for _, f := range st.list(g) {
		if f.pred == "inmap" && f.args[1] == index.s {
			a = true
		}
		if f.pred == "inmap" && f.args[1] == entry.s {
			b = true
		}
	}
	return a && b || b
}

// absentIn: a lookup for what was asked is known to have failed.
func absentIn(g *G, st *FSet, asked func(index, entry string) bool) bool {
	for _, f := range st.list(g) {
		if f.pred != "notinmap" {
			continue
		}
		if strings.HasPrefix(f.args[1], cidString) || strings.HasPrefix(f.args[1], nodeString) {
			return true
		}
	}
	return false
}

func ackMade(r *Run, u *Universe) {
	for _, f := range entryPoints(u, func(c ssa.CallInstruction, name string) bool { return name == dhtAckEncode }) {
		g := newGate(u, f)
		r.count("graph nodes", len(g.nodes))
		for _, n := range g.nodes {
			v, what := ackUse(g, n)
			if v == nil || !g.reachable(n) {
				continue
			}
			for _, o := range g.origins(*v) {
				c, idx := callOf(o)
				if c == nil || idx != 0 || u.CalleeName(c) != dhtAckEncode {
					continue
				}
				why := ""
				k := g.objkey(*v).s
				if !signedOwn(g, n.in, k) {
					why = "the acknowledgement is not signed, so that nobody can verify it"
				}
				// the signature it carries
				for _, a := range args(c) {
					if !isStringType(a.Type()) {
						continue
					}
					for _, so := range g.origins(Val{o.ctx, a}) {
						sc, si := callOf(so)
						if sc == nil || si != 0 || u.CalleeName(sc) != pkgCrypto+".SignMessage" {
							why = "the acknowledgement carries something else than a signature made by the gateway"
							continue
						}
						as := args(sc)
						if !ownKey(g, Val{so.ctx, as[0]}) {
							why = "the acknowledgement carries a signature with another key than the gateway's"
						}
						body := g.key(Val{so.ctx, as[2]}).s
						if !strings.HasPrefix(body, messageBody) {
							why = "the signature in the acknowledgement is not over a publication"
							continue
						}
						m := strings.TrimSuffix(body[len(messageBody):], ")")
						if len(decodedFrom(g, dhtPubDecode, m, isOfferList)) == 0 {
							why = "the signature in the acknowledgement is not over the publication that was received"
						}
						if !errNilIn(g, n.in, so) {
							why = "signing can have failed"
						}
					}
				}
				r.ob("ack-verifiable", short(f)+": "+what, why == "", g.where(n), why)
			}
		}
	}
}

func ackAccepted(r *Run, u *Universe) {
	isAsk := func(name string) bool { return strings.HasSuffix(name, ".RequestDHTOfferAck") }
	for _, f := range entryPoints(u, func(c ssa.CallInstruction, name string) bool {
		return isAsk(name) && c.Parent().Pkg != nil && !strings.HasSuffix(c.Parent().Pkg.Pkg.Path(), "clientapi")
	}) {
		g := NewG(u, f, &Config{Opaque: func(name string, f *ssa.Function) bool { return primitive(name, f) || isAsk(name) }, CallFacts: primFacts, Loose: true})
		g.Solve()
		r.count("graph nodes", len(g.nodes))
		res := f.Signature.Results()
		bi := -1
		for i := 0; i < res.Len(); i++ {
			if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bi = i
			}
		}
		if bi < 0 {
			continue
		}
		type ask struct {
			n            *Node
			prov, gw, id string
			req, ack     string
		}
		var asks []ask
		g.calls(func(n *Node, c ssa.CallInstruction, name string) {
			v, ok := c.(*ssa.Call)
			if !ok || !isAsk(name) || !g.reachable(n) {
				return
			}
			a := ask{n: n}
			for _, x := range args(c) {
				switch t := typeFull(deref(x.Type())); {
				case t == "common/pkg/cid.ContentID":
					a.id = g.objkey(Val{n.ctx, x}).s
				case t == "common/pkg/nodeid.NodeID":
					a.gw = g.objkey(Val{n.ctx, x}).s
				case strings.HasSuffix(t, "ProviderRegistrar"):
					a.prov = regOwner(g, Val{n.ctx, x}).s
				}
			}
			for _, ex := range extracts(v) {
				switch ex.Index {
				case 1:
					a.req = g.objkey(Val{n.ctx, ex}).s
				case 2:
					a.ack = g.objkey(Val{n.ctx, ex}).s
				}
			}
			asks = append(asks, a)
		})
		for e, st0 := range g.successExits() {
			ret := e.instr.(*ssa.Return)
			g.ways(st0, Val{g.root, ret.Results[bi]}, func(st *FSet, v Val, leaf bool) bool {
				if !leaf {
					return false
				}
				if k, ok := v.v.(*ssa.Const); ok && k.Value.ExactString() == "false" {
					return true
				}
				im := g.imp(v, True)
				if im.top {
					return true
				}
				st = st0.union(st).union(im)
				ok, why := false, "no proof was asked for"
				for _, a := range asks {
					why = ""
					switch {
					case !strings.HasPrefix(a.prov, "provider:"):
						why = "the provider asked is not one looked up in the register"
					case !g.hasIn(st, Fact{pred: "msgok", args: []string{a.req, a.prov}}):
						why = "the publication was not verified with the provider's key"
					case !g.hasIn(st, Fact{pred: "msgok", args: []string{a.ack, "gateway:" + a.gw}}):
						why = "the acknowledgement was not verified with the gateway's key"
					default:
						if ack, w := provedBy(g, st, a.gw, a.ack, a.req); ack == "" {
							why = w
						} else if !aboutCID(g, st, a.id, decodedFrom(g, dhtPubDecode, a.req, isOfferList)) {
							why = "the publication was not found to be about the identifier asked for"
						}
					}
					if why == "" {
						ok = true
					}
				}
				r.ob("client-accepts", short(f), ok, g.where(e), "a publication is reported as proven although "+why)
				return true
			})
		}
	}
}

// aboutCID: some identifier of an offer in one of the lists is known to equal the given one.
func aboutCID(g *G, st *FSet, id string, lists map[string]bool) bool {
	for _, f := range st.list(g) {
		if f.pred != "==" && f.pred != "eq" || len(f.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.args[i] != cidString+id+")" {
				continue
			}
			if x, ok := offerOfKey(f.args[1-i]); ok && inLists(x, lists) {
				return true
			}
		}
	}
	return false
}

// msgVals: the values that denote the message with this key.
func msgVals(g *G, key string) []Val {
	var out []Val
	for _, c := range g.ctxs {
		if c.fn == nil {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok && typeFull(deref(v.Type())) == tMsg && g.objkey(Val{c, v}).s == key {
					out = append(out, Val{c, v})
				}
			}
		}
	}
	return out
}

// signedOwn: the message was signed by this node before.
func signedOwn(g *G, st *FSet, k string) bool {
	for _, f := range st.list(g) {
		if f.pred == "signed" && f.args[0] == k {
			return true
		}
	}
	return false
}
