package main

// P04: what is signed, and what a successful verification means.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkgCrypto = "common/pkg/fcrcrypto"

// content of a signed object that is bound to a signed field by other means
var boundElsewhere = map[string]map[string]string{
	"common/pkg/cidoffer.CIDOffer":    {"cids": "merkleRoot", "merkleTree": "merkleRoot"},
	"common/pkg/cidoffer.SubCIDOffer": {"subCID": "merkleRoot (inclusion proof)", "merkleProof": "merkleRoot (inclusion proof)"},
}

func signOpaque(name string, f *ssa.Function) bool {
	return strings.HasPrefix(name, pkgCrypto+".") || strings.HasPrefix(name, "common/pkg/fcrmerkletree.") || strings.HasPrefix(name, "common/pkg/nodeid.") || strings.HasPrefix(name, "common/pkg/cid.")
}

type signedForm struct {
	fields map[string]string // wire name -> flow
	order  []string          // wire names in order of appearance, with type
	where  string
}

func wireOrder(t types.Type) []string {
	var out []string
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		n, ok := jsonName(t, i)
		if !ok {
			continue
		}
		tag := st.Tag(i)
		opt := ""
		if strings.Contains(tag, ",omitempty") {
			opt = "?"
		}
		if strings.Contains(tag, ",string") {
			opt += "s"
		}
		out = append(out, n+opt)
	}
	return out
}

// signedForms: what the msg argument of SignMessage / VerifyMessage is in function f.
func signedForms(u *Universe, g *G, callee string, argIdx int) ([]signedForm, []*Node) {
	var forms []signedForm
	var nodes []*Node
	fl := newFlow(g)
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if name != callee || !g.reachable(n) {
			return
		}
		nodes = append(nodes, n)
		for _, o := range g.origins(Val{n.ctx, args(c)[argIdx]}) {
			mc, i := callOf(o)
			if isNilConst(o.v) {
				continue
			}
			if mc == nil || i != 0 || u.CalleeName(mc) != "encoding/json.Marshal" {
				forms = append(forms, signedForm{map[string]string{"": fl.of(o)}, nil, g.where(n)})
				continue
			}
			fs, t, plain := fl.wireStruct(o.ctx, args(mc)[0], mc)
			if fs == nil {
				forms = append(forms, signedForm{map[string]string{"": plain}, nil, g.where(n)})
				continue
			}
			forms = append(forms, signedForm{fs, wireOrder(t), g.where(n)})
		}
	})
	return forms, nodes
}

// fieldOfReceiver: the receiver's field named by an address, if it is one.
func fieldOfReceiver(g *G, addr Val) (string, bool) {
	a := g.resolve(addr)
	fa, ok := a.v.(*ssa.FieldAddr)
	if !ok {
		return "", false
	}
	b := g.resolve(Val{a.ctx, fa.X})
	if b.ctx == g.root && len(g.entry.Params) > 0 && b.v == g.entry.Params[0] {
		return fieldName(fa.X.Type(), fa.Field), true
	}
	return "", false
}

// loadedField: v is the value of a receiver field read before the function stored anything to it.
func loadedField(g *G, v Val) (string, bool) {
	r := g.resolve(v)
	u, ok := r.v.(*ssa.UnOp)
	if !ok {
		return "", false
	}
	f, ok := fieldOfReceiver(g, Val{r.ctx, u.X})
	if !ok {
		return "", false
	}
	n := r.ctx.nodes[u]
	if n == nil || !g.reachable(n) {
		return f, false
	}
	for k := range n.in.m {
		if g.facts[k].pred == "pristine" && g.facts[k].args[0] == f {
			return f, true
		}
	}
	return f, false
}

// recvConfig tracks the state of the receiver's fields: pristine(f) until stored, holds(f, token) after a store.
func recvConfig(f *ssa.Function) *Config {
	cfg := &Config{Opaque: signOpaque, Loose: true}
	cfg.CallFacts = func(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
		if name == pkgCrypto+".VerifyMessage" {
			v, _ := call.(ssa.Value)
			return []CondFact{{0, True, mkFact("verified", Key{s: g.token(Val{c, v})})}}
		}
		return nil
	}
	cfg.NodeKill = func(g *G, n *Node, ft *Fact) bool {
		if ft.pred != "pristine" && ft.pred != "holds" {
			return false
		}
		st, ok := n.instr.(*ssa.Store)
		if !ok {
			return false
		}
		a := g.resolve(Val{n.ctx, st.Addr})
		if a.ctx == g.root && len(g.entry.Params) > 0 && a.v == g.entry.Params[0] {
			return true
		}
		fn, ok := fieldOfReceiver(g, a)
		return ok && ft.args[0] == fn
	}
	cfg.NodeGen = func(g *G, n *Node) []Fact {
		st, ok := n.instr.(*ssa.Store)
		if !ok {
			return nil
		}
		if fn, ok := fieldOfReceiver(g, Val{n.ctx, st.Addr}); ok {
			k := g.resolve(Val{n.ctx, st.Val})
			return []Fact{mkFact("holds", Key{s: fn}, Key{s: g.token(k)})}
		}
		return nil
	}
	cfg.Entry = func(g *G) []Fact {
		var out []Fact
		if g.entry.Signature.Recv() == nil {
			return nil
		}
		st, ok := deref(g.entry.Params[0].Type()).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, mkFact("pristine", Key{s: st.Field(i).Name()}))
		}
		return out
	}
	return cfg
}

func formString(f signedForm) string {
	var ks []string
	for k := range f.fields {
		ks = append(ks, k+"="+f.fields[k])
	}
	sort.Strings(ks)
	return strings.Join(ks, "; ")
}

func init() {
	register("P04", "For every type with Sign/Verify methods calling SignMessage/VerifyMessage, the JSON struct actually handed to the signing or verifying primitive is reconstructed by value flow (helpers expanded) and compared with what the type transmits; success exits of Verify and of every layer below it are required to carry the fact that the layer underneath accepted exactly these bytes, this key and this signature.",
		[]string{"common"}, func(r *Run) {
			u := r.U("common")
			r.rule("covers-content", "every field that is transmitted, other than the signature, is part of the signed bytes, unmodified (or is bound to a signed field)")
			r.rule("sign-verify-agree", "signing and verifying serialise the same content in the same form")
			r.rule("sign-stores", "a successful Sign stores the signature made by the signing primitive with the given key over that content")
			r.rule("verify-means-verified", "Verify succeeds only if VerifyMessage returned true for the given key, the object's signature and that content")
			r.rule("verify-leaves-unchanged", "a successful Verify leaves every field as it was")
			r.rule("verify-chain", "each layer of signature verification returns true only if the layer below accepted this key, these bytes and this signature")
			r.rule("sign-chain", "signing hands the library the digest that verifying the same bytes compares with, and the caller's private key")
			r.rule("root-binds-cids", "the merkle root of an offer is computed from exactly its content identifiers")
			r.rule("sub-offer-carries", "a sub-offer carries its parent's signed content and signature unchanged")
			r.rule("digest-covers", "the digest of an offer depends on its provider, every one of its content identifiers, price, expiry and quality of service")
			type tf struct {
				sign, verify *ssa.Function
			}
			byType := map[string]*tf{}
			for _, f := range u.Funcs {
				if f.Signature.Recv() == nil || f.Parent() != nil {
					continue
				}
				t := typeFull(f.Signature.Recv().Type())
				if strings.HasPrefix(t, pkgCrypto+".") || strings.Contains(t, "mock") {
					continue
				}
				isS, isV := f.Name() == "Sign" && f.Signature.Params().Len() == 2, f.Name() == "Verify" && f.Signature.Params().Len() == 1
				if !isS && !isV || typeFull(f.Signature.Params().At(0).Type()) != pkgCrypto+".KeyPair" {
					continue
				}
				if byType[t] == nil {
					byType[t] = &tf{}
				}
				if isS {
					byType[t].sign = f
				} else {
					byType[t].verify = f
				}
			}
			forms := map[string]signedForm{}
			var names []string
			for t := range byType {
				names = append(names, t)
			}
			sort.Strings(names)
			for _, t := range names {
				p := byType[t]
				sent := map[string]string{} // receiver field -> wire name
				pkg, tn := t[:strings.LastIndex(t, ".")], t[strings.LastIndex(t, ".")+1:]
				sent = jsonFieldFlows(u, pkg, tn)
				if len(sent) == 0 {
					r.ob("covers-content", tn, false, "-", "no MarshalJSON from which the transmitted content could be read")
					continue
				}
				sigField := ""
				check := func(f *ssa.Function, prim string, role string) (signedForm, bool) {
					g := NewG(u, f, recvConfig(f))
					g.Solve()
					fs, nodes := signedForms(u, g, prim, 2)
					where := u.Pos(f.Pos())
					if len(nodes) == 0 {
						// the primitive is not called: succeeds anyway?
						r.ob("verify-means-verified", tn+"."+role, len(g.successes()) == 0, where, "does not call "+prim)
						return signedForm{}, false
					}
					ok := len(fs) > 0
					for _, x := range fs[1:] {
						if formString(x) != formString(fs[0]) {
							ok = false
						}
					}
					r.ob("covers-content", tn+"."+role+": one serialised form", ok && fs[0].order != nil, where, "the signed bytes are not the JSON of one struct: "+formString(fs[0]))
					key := f.Params[1]
					if role == "Verify" {
						for _, n := range nodes {
							as := args(n.instr.(ssa.CallInstruction))
							sf, pr := loadedField(g, Val{n.ctx, as[1]})
							sigField = sf
							kp := g.resolve(Val{n.ctx, as[0]})
							r.ob("verify-means-verified", tn+".Verify: key and signature", pr && kp.v == key && sent["r."+sf] != "", g.where(n), "the primitive is not given the caller's key and the object's own signature")
						}
						for _, t := range g.successes() {
							got := false
							for k := range t.st.m {
								if g.facts[k].pred == "verified" {
									got = true
								}
							}
							r.ob("verify-means-verified", tn+".Verify: success", got, g.where(t.node), "a success exit is reached without VerifyMessage having returned true")
							st := deref(f.Params[0].Type()).Underlying().(*types.Struct)
							for i := 0; i < st.NumFields(); i++ {
								fn := st.Field(i).Name()
								same := false
								for k := range t.st.m {
									ft := g.facts[k]
									if ft.pred == "pristine" && ft.args[0] == fn {
										same = true
									}
									if ft.pred == "holds" && ft.args[0] == fn {
										// the stored value is the field's original content
										for _, n := range g.nodes {
											if s, ok := n.instr.(*ssa.Store); ok {
												if lf, pr := loadedField(g, Val{n.ctx, s.Val}); pr && lf == fn && g.token(g.resolve(Val{n.ctx, s.Val})) == ft.args[1] {
													same = true
												}
											}
										}
									}
								}
								if _, ptr := f.Params[0].Type().Underlying().(*types.Pointer); !ptr {
									same = true
								}
								r.ob("verify-leaves-unchanged", tn+".Verify: "+fn, same, g.where(t.node), "field "+fn+" may differ after a successful verification")
							}
						}
					} else {
						for _, n := range nodes {
							as := args(n.instr.(ssa.CallInstruction))
							kp, kv := g.resolve(Val{n.ctx, as[0]}), g.resolve(Val{n.ctx, as[1]})
							r.ob("sign-stores", tn+".Sign: key", kp.v == key && kv.v == f.Params[2], g.where(n), "the primitive is not given the caller's key and key version")
						}
						for _, t := range g.successes() {
							got := false
							for k := range t.st.m {
								ft := g.facts[k]
								if ft.pred != "holds" {
									continue
								}
								for _, n := range nodes {
									c, isC := n.instr.(*ssa.Call)
									if !isC {
										continue
									}
									for _, e := range extracts(c) {
										if e.Index == 0 && ft.args[1] == g.token(Val{n.ctx, e}) {
											got = true
											if sigField != "" && sigField != ft.args[0] {
												got = false
											}
										}
									}
								}
							}
							r.ob("sign-stores", tn+".Sign: success", got, g.where(t.node), "a success exit is reached without the new signature being stored in the object's signature field")
						}
					}
					return fs[0], ok
				}
				var vf, sf signedForm
				var vok, sok bool
				if p.verify != nil {
					vf, vok = check(p.verify, pkgCrypto+".VerifyMessage", "Verify")
				}
				if p.sign != nil {
					sf, sok = check(p.sign, pkgCrypto+".SignMessage", "Sign")
				}
				for role, f := range map[string]signedForm{"Verify": vf, "Sign": sf} {
					if f.fields == nil {
						continue
					}
					for fld, wn := range sent {
						fn := strings.TrimPrefix(fld, "r.")
						if fn == sigField {
							continue
						}
						if b := boundElsewhere[t][fn]; b != "" {
							continue
						}
						cov := ""
						for k, s := range f.fields {
							if s == fld || s == "*"+fld {
								cov = k
							}
						}
						r.ob("covers-content", tn+"."+role+": "+wn, cov != "", f.where, "transmitted field "+fn+" is not part of the signed content: "+formString(f))
					}
					if boundElsewhere[t] != nil {
						ok := false
						for _, s := range f.fields {
							if s == "r.merkleRoot" {
								ok = true
							}
						}
						r.ob("covers-content", tn+"."+role+": merkle root", ok, f.where, "the merkle root is not part of the signed content: "+formString(f))
					}
				}
				if vok && sok {
					r.ob("sign-verify-agree", tn, formString(vf) == formString(sf) && strings.Join(vf.order, ",") == strings.Join(sf.order, ","), vf.where, fmt.Sprintf("signed %v {%s}, verified %v {%s}", sf.order, formString(sf), vf.order, formString(vf)))
				}
				if vok {
					forms[tn] = vf
				}
			}
			if a, ok := forms["CIDOffer"]; ok {
				b := forms["SubCIDOffer"]
				r.ob("sign-verify-agree", "CIDOffer and SubCIDOffer", formString(a) == formString(b) && strings.Join(a.order, ",") == strings.Join(b.order, ","), a.where, fmt.Sprintf("offers are signed as %v {%s} but sub-offers verified as %v {%s}", a.order, formString(a), b.order, formString(b)))
			}
			verifyChain(u, r)
			offerRules(u, r, forms["CIDOffer"])
			r.floor("covers-content", 12)
			r.floor("verify-means-verified", 6)
			if len(names) < 3 {
				r.ob("anchor", "signed types", false, "-", "fewer than three types with Sign/Verify")
			}
		})
}

// signChain: SignMessage -> library: the library signs the digest of exactly these bytes, and what it made is returned.
func signChain(u *Universe, r *Run, digest map[string]bool) {
	f := u.fn(pkgCrypto + ".SignMessage")
	if f == nil {
		r.ob("sign-chain", "SignMessage", false, "-", "not found")
		return
	}
	g := NewG(u, f, &Config{})
	g.Solve()
	fl := newFlow(g)
	n := 0
	g.calls(func(nd *Node, c ssa.CallInstruction, name string) {
		if !strings.HasSuffix(name, "/go-secp256k1.Sign") || !g.reachable(nd) {
			return
		}
		n++
		as := args(c)
		msg, sk := fl.of(Val{nd.ctx, as[0]}), fl.of(Val{nd.ctx, as[1]})
		bad := ""
		if !digest[msg] {
			bad += " the digest signed is " + msg + ", the digest verified is not"
		}
		if !strings.Contains(sk, "p0.pKey") {
			bad += " private key is " + sk
		}
		r.ob("sign-chain", "arguments of the library call", bad == "", g.where(nd), bad)
	})
	if n == 0 {
		r.ob("sign-chain", "arguments of the library call", false, u.Pos(f.Pos()), "SignMessage does not reach the library")
	}
}

// verifyChain: VerifyMessage -> library, with everything between expanded.
func verifyChain(u *Universe, r *Run) {
	f := u.fn(pkgCrypto + ".VerifyMessage")
	if f == nil {
		r.ob("verify-chain", "VerifyMessage", false, "-", "not found")
		return
	}
	libArgs := func(g *G, c *Ctx, call ssa.CallInstruction) string {
		fl := newFlow(g)
		as := args(call)
		pk, msg, sig := fl.of(Val{c, as[0]}), fl.of(Val{c, as[1]}), sigSource(fl, Val{c, as[2]})
		bad := ""
		if !strings.Contains(pk, "p0.pubKey") || strings.Contains(pk, "p1") || strings.Contains(pk, "p2") {
			bad += " public key is " + pk
		}
		if !strings.Contains(msg, "p2") || strings.Contains(msg, "?") || strings.Contains(msg, "[") {
			bad += " digest is " + msg
		}
		if !strings.Contains(sig, "hex.DecodeString#0(p1)") {
			bad += " signature is " + sig
		}
		return bad
	}
	cfg := &Config{CallFacts: func(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
		if strings.HasSuffix(name, "/go-secp256k1.VerifySignature") && libArgs(g, c, call) == "" {
			return []CondFact{{0, True, mkFact("libok", Key{s: "accepted"})}}
		}
		return nil
	}}
	g := NewG(u, f, cfg)
	g.Solve()
	digest := map[string]bool{}
	defer func() { signChain(u, r, digest) }()
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if strings.HasSuffix(name, "/go-secp256k1.VerifySignature") {
			bad := libArgs(g, n.ctx, c)
			digest[newFlow(g).of(Val{n.ctx, args(c)[1]})] = true
			r.ob("verify-chain", "arguments of the library call", bad == "", g.where(n), bad)
		}
	})
	n := 0
	for _, rt := range g.root.rets {
		if !g.reachable(rt) {
			continue
		}
		v := Val{g.root, rt.instr.(*ssa.Return).Results[0]}
		im := g.imp(v, True)
		if im.top {
			continue
		}
		st := rt.in.union(im)
		if st.top || g.contradicts(rt.in, im) {
			continue
		}
		n++
		got := false
		for k := range st.m {
			if g.facts[k].pred == "libok" {
				got = true
			}
		}
		r.ob("verify-chain", "VerifyMessage returning true", got, g.where(rt), "true may be returned although the library did not accept the signature")
	}
	if n == 0 {
		r.ob("verify-chain", "VerifyMessage returning true", false, u.Pos(f.Pos()), "no path returns true")
	}
	// VerifyMerkleProof
	f = u.fn("common/pkg/cidoffer.SubCIDOffer.VerifyMerkleProof")
	if f == nil {
		r.ob("verify-chain", "VerifyMerkleProof", false, "-", "not found")
		return
	}
	g = NewG(u, f, &Config{Opaque: signOpaque, CallFacts: func(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
		if name == "common/pkg/fcrmerkletree.FCRMerkleProof.VerifyContent" {
			fl := newFlow(g)
			as := args(call)
			s := fl.of(Val{c, as[0]}) + "," + fl.of(Val{c, as[1]}) + "," + fl.of(Val{c, as[2]})
			return []CondFact{{0, True, mkFact("included", Key{s: s})}}
		}
		return nil
	}})
	g.Solve()
	for _, t := range g.successes() {
		got := false
		for k := range t.st.m {
			if g.facts[k].String() == "included(r.merkleProof,r.subCID,r.merkleRoot)" {
				got = true
			}
		}
		r.ob("verify-chain", "VerifyMerkleProof succeeding", got, g.where(t.node), "success without the proof having been verified for the offer's own sub CID and root")
	}
}

// sigSource looks through suffix/prefix slicing of the signature bytes.
func sigSource(fl *Flow, v Val) string {
	for k := 0; k < 10; k++ {
		v = fl.g.resolve(v)
		s, ok := v.v.(*ssa.Slice)
		if !ok {
			break
		}
		v = Val{v.ctx, s.X}
	}
	return fl.of(v)
}

func offerRules(u *Universe, r *Run, form signedForm) {
	const pk = "common/pkg/cidoffer"
	rootOK := func(s string) bool {
		return strings.Contains(s, "GetMerkleRoot#0(") && strings.Contains(s, "CreateMerkleTree#0(list:e(")
	}
	// constructor
	if f := u.fn(pk + ".NewCIDOffer"); f != nil {
		g := NewG(u, f, &Config{Opaque: signOpaque})
		g.Solve()
		fl := newFlow(g)
		for _, t := range g.successes() {
			b := g.resolve(t.vals[0])
			fs := fl.structOf(b, t.node.instr)
			byName := map[string]string{}
			st := deref(f.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				byName[st.Field(i).Name()] = fs[i]
			}
			ok := rootOK(byName["merkleRoot"]) && strings.Contains(byName["merkleRoot"], "list:e("+byName["cids"]+")")
			r.ob("root-binds-cids", "NewCIDOffer", ok, g.where(t.node), "merkle root is "+byName["merkleRoot"]+" for cids "+byName["cids"])
		}
	} else {
		r.ob("root-binds-cids", "NewCIDOffer", false, "-", "not found")
	}
	if f := u.fn(pk + ".CIDOffer.UnmarshalJSON"); f != nil {
		out, g, succ := unmarshalFlows(u, f)
		root := ""
		for s := range out["merkleRoot"] {
			root += s
		}
		cids := ""
		for s := range out["cids"] {
			cids += s
		}
		if len(out["merkleTree"]) == 1 {
			for s := range out["merkleTree"] {
				root = strings.ReplaceAll(root, "r.merkleTree", s)
			}
		}
		for _, fld := range []string{"cids", "merkleTree", "merkleRoot"} {
			for _, t := range succ {
				nd := t.node
				sets := func(n *Node) bool {
					st, ok := n.instr.(*ssa.Store)
					if !ok || n.after {
						return false
					}
					ad := g.resolve(Val{n.ctx, st.Addr})
					if ad.v == ssa.Value(f.Params[0]) {
						return true // the whole offer; what is in it is judged above
					}
					fa, ok := ad.v.(*ssa.FieldAddr)
					return ok && strings.HasSuffix(typeFull(fa.X.Type()), "cidoffer.CIDOffer") && fieldName(fa.X.Type(), fa.Field) == fld
				}
				set := passesBack(g, nd, sets, nil)
				if !set && t.via != nil {
					set = passesBack(g, t.via, sets, nil) || passesOn(g, t.via, sets, []*Node{nd})
				}
				r.ob("root-binds-cids", "CIDOffer.UnmarshalJSON: "+fld+" is set", set, g.where(nd), "an offer can be read with the "+fld+" it had before")
			}
		}
		ok := rootOK(root) && len(out["merkleRoot"]) == 1 && (strings.Contains(root, "list:e("+cids+")") || strings.Contains(root, "list:e(r.cids)"))
		r.ob("root-binds-cids", "CIDOffer.UnmarshalJSON", ok, u.Pos(f.Pos()), "merkle root is "+root+" for cids "+cids)
	} else {
		r.ob("root-binds-cids", "CIDOffer.UnmarshalJSON", false, "-", "not found")
	}
	if f := u.fn(pk + ".CIDOffer.GenerateSubCIDOffer"); f != nil {
		g := NewG(u, f, &Config{Opaque: signOpaque})
		g.Solve()
		fl := newFlow(g)
		for _, t := range g.successes() {
			b := g.resolve(t.vals[0])
			fs := fl.structOf(b, t.node.instr)
			st := deref(f.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				n := st.Field(i).Name()
				want := "r." + n
				ok := fs[i] == want
				switch n {
				case "subCID":
					ok = fs[i] == "p0"
				case "merkleProof":
					ok = strings.Contains(fs[i], "GenerateMerkleProof#0(r.merkleTree,p0)")
				}
				r.ob("sub-offer-carries", "GenerateSubCIDOffer: "+n, ok, g.where(t.node), "set to "+fs[i])
			}
		}
	} else {
		r.ob("sub-offer-carries", "GenerateSubCIDOffer", false, "-", "not found")
	}
	if f := u.fn(pk + ".CIDOffer.GetMessageDigest"); f != nil {
		g := NewG(u, f, &Config{Opaque: signOpaque})
		g.Solve()
		for _, t := range g.successes() {
			d := depends(g, t.vals[0])
			for _, fld := range []string{"providerID", "price", "expiry", "qos"} {
				r.ob("digest-covers", "GetMessageDigest: "+fld, d.fields[fld], g.where(t.node), "the digest does not depend on "+fld)
			}
			ok := d.fields["cids"] || d.fields["merkleRoot"]
			why := "the digest does not depend on the content identifiers"
			if d.fields["cids"] && !d.fields["merkleRoot"] && !d.all["cids"] {
				ok, why = false, "not every content identifier enters the digest (no complete loop over them)"
			}
			r.ob("digest-covers", "GetMessageDigest: cids", ok, g.where(t.node), why)
		}
	} else {
		r.ob("digest-covers", "GetMessageDigest", false, "-", "not found")
	}
}

type deps struct {
	fields map[string]bool // receiver fields the value depends on
	all    map[string]bool // list fields of which every element contributes
}

// depends: backward data slice of a value to receiver fields.
func depends(g *G, v Val) deps {
	d := deps{map[string]bool{}, map[string]bool{}}
	seen, seenMem := map[Val]bool{}, map[Val]bool{}
	var walk func(Val)
	var mem func(Val)
	mem = func(a Val) { // everything written to the object at address / slice a
		a = g.resolve(a)
		if seenMem[a] {
			return
		}
		seenMem[a] = true
		if a.v.Referrers() == nil {
			return
		}
		for _, ref := range *a.v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == a.v {
					walk(Val{a.ctx, x.Val})
				}
			case *ssa.IndexAddr:
				mem(Val{a.ctx, x})
			case *ssa.FieldAddr:
				mem(Val{a.ctx, x})
			case *ssa.Slice:
				mem(Val{a.ctx, x})
			case *ssa.Call:
				if _, isB := x.Call.Value.(*ssa.Builtin); isB || a.ctx.children[x] == nil {
					for _, o := range args(x) {
						if o != a.v {
							walk(Val{a.ctx, o})
						}
					}
				}
			}
		}
	}
	walk = func(v Val) {
		r := g.resolve(v)
		if fn, ok := fieldOfReceiver(g, r); ok {
			d.fields[fn] = true
		}
		switch x := r.v.(type) {
		case *ssa.UnOp:
			if seen[r] {
				return
			}
			seen[r] = true
			if ia, ok := g.resolve(Val{r.ctx, x.X}).v.(*ssa.IndexAddr); ok {
				noteElem(g, r.ctx, ia, d)
			}
			walk(Val{r.ctx, x.X})
			return
		case *ssa.Alloc:
			mem(r)
			return
		case *ssa.MakeSlice:
			mem(r)
			return
		case *ssa.Slice:
			if seen[r] {
				return
			}
			seen[r] = true
			walk(Val{r.ctx, x.X})
			return
		}
		if seen[r] {
			return
		}
		seen[r] = true
		if c, idx := callOf(r); c != nil && r.ctx.children[c] != nil {
			for _, o := range g.results(r.ctx, c, idx) {
				walk(o)
			}
			return
		}
		if ins, ok := r.v.(ssa.Instruction); ok {
			for _, op := range ins.Operands(nil) {
				if *op != nil {
					walk(Val{r.ctx, *op})
				}
			}
		}
	}
	walk(v)
	return d
}

// noteElem: element read of a receiver's list field inside a complete loop over it whose every iteration reads it.
func noteElem(g *G, c *Ctx, ia *ssa.IndexAddr, d deps) {
	base := g.resolve(Val{c, ia.X})
	u, ok := base.v.(*ssa.UnOp)
	if !ok {
		return
	}
	fn, ok := fieldOfReceiver(g, Val{base.ctx, u.X})
	if !ok {
		return
	}
	for _, b := range ia.Parent().Blocks {
		li := indexLoop(b)
		if li == nil || li.idx != ia.Index || li.breaks() || !li.everyIteration(ia) || li.src == nil {
			continue
		}
		if s := g.resolve(Val{c, li.src}); g.key(s).s == g.key(base).s {
			d.all[fn] = true
		}
	}
}
