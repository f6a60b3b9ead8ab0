package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkgMsgs = "common/pkg/fcrmessages"

type Codec struct {
	kind     string // name without Encode / Decode
	enc, dec *ssa.Function
	encT     string            // message type constant stamped
	decT     string            // message type constant required
	fields   map[string]string // wire name -> flow from parameters
	wireT    types.Type
	results  []map[string]bool // per decoder result: the flows on success
}

var inversePattern = map[string]string{
	"X": "X", "hex(X)": "unhex(X)", "list:hex(e)(X)": "list:unhex(e)(X)", "priv(X)": "unpriv(X)", "ver(X)": "unver(X)",
	"pub(X)": "unpub(X)", "bytes(X)": "unbytes(X)", "list:bytes(e)(X)": "list:unbytes(e)(X)", "list:e(X)": "X",
}

func pkgFuncs(u *Universe, pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range u.Funcs {
		if f.Pkg != nil && shortPkg(f.Pkg.Pkg.Path()) == pkg && f.Parent() == nil {
			out = append(out, f)
		}
	}
	return out
}

func codecGraph(u *Universe, f *ssa.Function) *G {
	g := NewG(u, f, &Config{Opaque: codecOpaque})
	g.Solve()
	return g
}

// codecs analyses every encoder and decoder; problems are recorded under the given rule if r is not nil.
func codecs(u *Universe, r *Run) map[string]*Codec {
	out := map[string]*Codec{}
	get := func(k string) *Codec {
		if out[k] == nil {
			out[k] = &Codec{kind: k}
		}
		return out[k]
	}
	for _, f := range pkgFuncs(u, pkgMsgs) {
		if f.Signature.Recv() != nil {
			continue
		}
		n := f.Name()
		if strings.HasPrefix(n, "Encode") && sigEndsMsgErr(f) {
			get(n[6:]).enc = f
		} else if strings.HasPrefix(n, "Decode") && f.Signature.Params().Len() == 1 && typeFull(f.Signature.Params().At(0).Type()) == tMsg {
			get(n[6:]).dec = f
		}
	}
	var names []string
	for k := range out {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		c := out[k]
		if c.enc != nil {
			analyseEncoder(u, r, c)
		}
		if c.dec != nil {
			analyseDecoder(u, r, c)
		}
	}
	return out
}

func sigEndsMsgErr(f *ssa.Function) bool {
	s := f.Signature.Results()
	return s.Len() == 2 && typeFull(s.At(0).Type()) == tMsg && isErrorType(s.At(1).Type())
}

func obx(r *Run, rule, construct string, ok bool, where, msg string) {
	if r != nil {
		r.ob(rule, construct, ok, where, msg)
	}
}

func analyseEncoder(u *Universe, r *Run, c *Codec) {
	g := codecGraph(u, c.enc)
	fl := newFlow(g)
	name := FuncName(c.enc)
	pos := u.Pos(c.enc.Pos())
	succ := g.successes()
	obx(r, "encode-wellformed", name+": has a success path", len(succ) > 0, pos, "no path returns a message without an error")
	for _, t := range succ {
		m := g.resolve(t.vals[0])
		call, _ := callOf(m)
		if call == nil || u.CalleeName(call) != pkgMsgs+".CreateFCRMessage" {
			obx(r, "encode-wellformed", name+": message built by CreateFCRMessage", false, g.where(t.node), "the returned message comes from elsewhere: "+fl.of(m))
			continue
		}
		as := args(call)
		tv := g.resolve(Val{m.ctx, as[0]})
		if k, ok := tv.v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			s := k.Value.ExactString()
			if c.encT != "" && c.encT != s {
				s = "several"
			}
			c.encT = s
		} else {
			c.encT = "?"
		}
		bv := g.resolve(Val{m.ctx, as[1]})
		bc, bi := callOf(bv)
		if bc == nil || bi != 0 || u.CalleeName(bc) != "encoding/json.Marshal" {
			obx(r, "encode-wellformed", name+": body is the JSON of the wire struct", false, g.where(t.node), "the body is "+fl.of(bv))
			continue
		}
		obx(r, "encode-wellformed", name+": marshalling error checked", g.tupleHas(t, mkFact("ret1=nil", Key{s: g.token(Val{bv.ctx, bc})})), g.where(t.node), "a failed json.Marshal still yields a message")
		fs, wt, _ := fl.wireStruct(bv.ctx, args(bc)[0], bc)
		if fs == nil {
			obx(r, "encode-wellformed", name+": body is the JSON of the wire struct", false, g.where(t.node), "no struct is marshalled")
			continue
		}
		if c.fields == nil {
			c.fields, c.wireT = fs, wt
		} else {
			for k, v := range fs {
				if c.fields[k] != v {
					c.fields[k] = "alt{" + c.fields[k] + "|" + v + "}"
				}
			}
		}
	}
}

func (g *G) tupleHas(t tuple, f Fact) bool {
	if t.st.top {
		return true
	}
	i, ok := g.index[f.String()]
	return ok && t.st.m[i]
}

func analyseDecoder(u *Universe, r *Run, c *Codec) {
	g := codecGraph(u, c.dec)
	fl := newFlow(g)
	name := FuncName(c.dec)
	pos := u.Pos(c.dec.Pos())
	succ := g.successes()
	obx(r, "decode-wellformed", name+": has a success path", len(succ) > 0, pos, "no path returns without an error")
	msg := Val{g.root, c.dec.Params[0]}
	typeKeys := map[string]bool{
		pkgMsgs + ".FCRMessage.GetMessageType(" + g.objkey(msg).s + ")": true,
		g.objkey(msg).s + ".messageType":                                true, "*" + g.key(msg).s + ".messageType": true,
	}
	nres := c.dec.Signature.Results().Len() - 1
	c.results = make([]map[string]bool, nres)
	for i := range c.results {
		c.results[i] = map[string]bool{}
	}
	for _, t := range succ {
		// type check
		tt := ""
		for k := range t.st.m {
			f := g.facts[k]
			if f.pred == "==" && len(f.args) == 2 {
				for j := 0; j < 2; j++ {
					if typeKeys[f.args[j]] && strings.HasPrefix(f.args[1-j], "const:") {
						tt = strings.TrimPrefix(f.args[1-j], "const:")
					}
				}
			}
		}
		if t.st.top {
			continue
		}
		obx(r, "decode-checks-type", name, tt != "", g.where(t.node), "a path succeeds without the message type having been compared")
		if tt != "" {
			if c.decT != "" && c.decT != tt {
				tt = "several"
			}
			c.decT = tt
		}
		// the body unmarshalled is the message's
		var um []*Node
		g.calls(func(n *Node, ci ssa.CallInstruction, nm string) {
			if nm == "encoding/json.Unmarshal" {
				um = append(um, n)
			}
		})
		okUm := false
		for _, n := range um {
			call, isCall := n.instr.(*ssa.Call)
			if !isCall {
				continue
			}
			d := fl.of(Val{n.ctx, args(call)[0]})
			if (d == "body(p0)" || d == "p0.messageBody") && (g.tupleHas(t, mkFact("ret0=nil", Key{s: g.token(Val{n.ctx, call})})) || errIsCall(g, t, n.ctx, call)) {
				okUm = true
			}
		}
		if nres > 0 || len(um) > 0 {
			obx(r, "decode-wellformed", name+": parses the message's own body and checks the error", okUm, g.where(t.node), "a path succeeds without json.Unmarshal of the given message's body having succeeded")
		}
		fl.st = t.st
		for i := 0; i < nres; i++ {
			c.results[i][fl.of(t.vals[i])] = true
		}
		// fallible conversions of received fields
		for i := 0; i < nres; i++ {
			v := g.resolve(t.vals[i])
			call, idx := callOf(v)
			if call == nil || idx != 0 || call.Call.Signature().Results().Len() != 2 || invCalls[u.CalleeName(call)] == "" {
				continue
			}
			ok := g.tupleHas(t, mkFact("ret1=nil", Key{s: g.token(Val{v.ctx, call})}))
			if r != nil && r.prop == "P18" {
				r.ob("decode-reports-unparseable", name+": "+fl.of(v), ok, g.where(t.node), "the error of parsing this field is ignored: the decoder succeeds with a nil value")
			}
		}
	}
}

func errIsCall(g *G, t tuple, c *Ctx, call *ssa.Call) bool {
	e := g.resolve(t.vals[len(t.vals)-1])
	return e.ctx == c && e.v == ssa.Value(call)
}

func (c *Codec) resultFlows(i int) string { return alt(c.results[i]) }

// wireOfParam: wire name and pattern carrying parameter i.
func (c *Codec) wireOfParam(i int) [][2]string {
	p := "p" + itoa(i)
	var out [][2]string
	for n, f := range c.fields {
		pat := replaceLeaf(f, p)
		if _, ok := inversePattern[pat]; ok {
			out = append(out, [2]string{n, pat})
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a][0] < out[b][0] })
	return out
}

func itoa(i int) string { return constant.MakeInt64(int64(i)).ExactString() }

// replaceLeaf replaces the parameter name as a whole token by X.
func replaceLeaf(s, p string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], p) && (i == 0 || !isWord(s[i-1])) && (i+len(p) == len(s) || !isWord(s[i+len(p)])) {
			b.WriteString("X")
			i += len(p)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func isWord(c byte) bool {
	return c == '_' || c == '.' || c == ':' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func sortedKinds(m map[string]*Codec) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	register("P01", "Flow analysis of every encoder/decoder pair in common/pkg/fcrmessages and of every MarshalJSON/UnmarshalJSON pair of the wire types: parameter (field) -> wire field -> result (field), with the transformations on the way matched against their inverses.",
		[]string{"common"}, func(r *Run) {
			u := r.U("common")
			r.rule("encode-wellformed", "every success path of an encoder returns CreateFCRMessage(kind, json.Marshal(wire struct)) with the marshalling error checked")
			r.rule("decode-wellformed", "every success path of a decoder has parsed the given message's own body into a fresh struct, error checked")
			r.rule("roundtrip", "parameter i of the encoder reaches a wire field under a lossless transformation, and result i of the decoder is the inverse transformation of that same field on every success path")
			r.rule("same-wire-struct", "encoder and decoder of a kind use the same JSON names")
			r.rule("paired", "every encoder has a decoder and vice versa")
			r.rule("json-roundtrip", "every field of a wire type that MarshalJSON writes is restored by UnmarshalJSON from the same JSON name with the inverse transformation")
			r.rule("json-names", "no struct of the repository has two fields with the same JSON name")
			r.rule("getter", "an accessor returns the field whose JSON name it carries")
			r.rule("message-frame", "CreateFCRMessage stores its arguments, the current protocol version and supported versions")
			cs := codecs(u, r)
			for _, k := range sortedKinds(cs) {
				c := cs[k]
				if c.enc == nil || c.dec == nil {
					r.ob("paired", k, false, "-", "only one of encoder and decoder exists")
					continue
				}
				r.ob("paired", k, true, u.Pos(c.enc.Pos()), "")
				r.count("kinds", 1)
				np := c.enc.Signature.Params().Len()
				pos := u.Pos(c.enc.Pos())
				if np != len(c.results) {
					r.ob("roundtrip", k+": arity", false, pos, "the encoder takes "+itoa(np)+" values, the decoder returns "+itoa(len(c.results)))
					continue
				}
				for i := 0; i < np; i++ {
					cand := c.wireOfParam(i)
					got := c.resultFlows(i)
					ok := false
					want := []string{}
					for _, w := range cand {
						e := strings.ReplaceAll(inversePattern[w[1]], "X", "f:"+w[0])
						want = append(want, e)
						if got == e {
							ok = true
						}
					}
					// types agree up to pointers
					pt, rt := c.enc.Signature.Params().At(i).Type(), c.dec.Signature.Results().At(i).Type()
					if deref(pt).String() != deref(rt).String() {
						ok = false
					}
					r.ob("roundtrip", k+": value "+itoa(i), ok, u.Pos(c.dec.Pos()), "encoder puts parameter "+itoa(i)+" at "+strings.Join(want, " or ")+", decoder returns "+got)
				}
			}
			r.floor("paired", 50)
			r.floor("roundtrip", 150)
			messageFrame(u, r)
			jsonMethods(u, r)
			jsonNames(u, r)
			r.floor("json-roundtrip", 20)
			r.floor("getter", 15)
		})
	register("P02", "The type constants stamped by all encoders and required by all decoders are extracted and compared pairwise.",
		[]string{"common"}, func(r *Run) {
			u := r.U("common")
			r.rule("encode-kind", "an encoder stamps one constant kind")
			r.rule("decode-checks-type", "every success path of a decoder has compared the message's type with one constant kind")
			r.rule("same-kind", "encoder and decoder of a kind agree on the constant")
			r.rule("distinct-kind", "no two kinds share a constant")
			r.rule("encode-wellformed", "see P01")
			r.rule("decode-wellformed", "see P01")
			r.rule("message-frame", "CreateFCRMessage stores the given kind and the current protocol version and supported versions")
			cs := codecs(u, r)
			by := map[string][]string{}
			for _, k := range sortedKinds(cs) {
				c := cs[k]
				if c.enc != nil {
					ok := c.encT != "" && c.encT != "?" && c.encT != "several"
					r.ob("encode-kind", k, ok, u.Pos(c.enc.Pos()), "the kind stamped on the message is not one constant: "+c.encT)
					if ok {
						by[c.encT] = append(by[c.encT], k)
					}
				}
				if c.enc != nil && c.dec != nil {
					r.ob("same-kind", k, c.encT == c.decT, u.Pos(c.dec.Pos()), "the encoder stamps "+c.encT+", the decoder requires "+c.decT)
				}
			}
			for t, ks := range by {
				sort.Strings(ks)
				r.ob("distinct-kind", strings.Join(ks, "+"), len(ks) == 1, u.Pos(cs[ks[0]].enc.Pos()), "these kinds share the wire type "+t)
			}
			messageFrame(u, r)
			r.floor("encode-kind", 50)
			r.floor("decode-checks-type", 50)
		})
}

func deref(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return t
}

// messageFrame: the constructor of messages.
func messageFrame(u *Universe, r *Run) {
	f := u.fn(pkgMsgs + ".CreateFCRMessage")
	if f == nil {
		r.ob("message-frame", "CreateFCRMessage", false, "-", "function not found")
		return
	}
	g := NewG(u, f, &Config{})
	g.Solve()
	fl := newFlow(g)
	tags := jsonFieldFlows(u, pkgMsgs, "FCRMessage")
	for _, t := range g.successes() {
		b := g.resolve(t.vals[0])
		fs := fl.structOf(b, t.node.instr)
		byTag := map[string]string{}
		st := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			tag := tags["r."+st.Field(i).Name()]
			if tag == "" {
				tag = "field " + st.Field(i).Name()
			}
			v, ok := fs[i]
			if !ok {
				v = "zero"
			}
			byTag[tag] = v
		}
		want := map[string]func(string) bool{
			"message_type": func(s string) bool { return s == "p0" }, "message_body": func(s string) bool { return s == "p1" },
			"protocol_version":   func(s string) bool { return s == "global:protocolVersion" || strings.Contains(s, "protocolVersion") },
			"protocol_supported": func(s string) bool { return strings.Contains(s, "protocolSupported") },
			"message_signature":  func(s string) bool { return s == "const:" || s == "zero" },
		}
		for tag, w := range want {
			r.ob("message-frame", "CreateFCRMessage: "+tag, w(byTag[tag]), u.Pos(f.Pos()), "set to "+byTag[tag])
		}
	}
}

// fn finds a package-level function or method by FuncFull name.
func (u *Universe) fn(full string) *ssa.Function {
	for _, f := range u.Funcs {
		if f.Parent() == nil && FuncFull(f) == full {
			return f
		}
	}
	return nil
}

// jsonFieldFlows: flow of MarshalJSON of a type, inverted: receiver flow -> JSON name.
func jsonFieldFlows(u *Universe, pkg, typ string) map[string]string {
	out := map[string]string{}
	f := u.fn(pkg + "." + typ + ".MarshalJSON")
	if f == nil {
		return out
	}
	for n, s := range marshalFlows(u, f) {
		if i := strings.Index(s, "r."); i >= 0 {
			j := i + 2
			for j < len(s) && isWord(s[j]) {
				j++
			}
			out[s[i:j]] = n
		}
	}
	return out
}

func marshalFlows(u *Universe, f *ssa.Function) map[string]string {
	g := codecGraph(u, f)
	fl := newFlow(g)
	out := map[string]string{}
	for _, t := range g.successes() {
		v := g.resolve(t.vals[0])
		c, i := callOf(v)
		if c == nil || i != 0 || u.CalleeName(c) != "encoding/json.Marshal" {
			continue
		}
		fs, _, plain := fl.wireStruct(v.ctx, args(c)[0], c)
		if fs == nil {
			out[""] = plain
		}
		for k, s := range fs {
			out[k] = s
		}
	}
	return out
}

// unmarshalFlows: receiver field -> flow on every success path.
func unmarshalFlows(u *Universe, f *ssa.Function) (map[string]map[string]bool, *G, []tuple) {
	g := codecGraph(u, f)
	fl := newFlow(g)
	out := map[string]map[string]bool{}
	succ := g.successes()
	recv := Val{g.root, f.Params[0]}
	for _, n := range g.nodes {
		st, ok := n.instr.(*ssa.Store)
		if !ok || !g.reachable(n) {
			continue
		}
		a := g.resolve(Val{n.ctx, st.Addr})
		if a == recv { // *r = T{...}
			src := g.resolve(Val{n.ctx, st.Val})
			if uo, ok := src.v.(*ssa.UnOp); ok {
				b := g.resolve(Val{src.ctx, uo.X})
				for i, s := range fl.structOf(b, uo) {
					nm := fieldName(f.Params[0].Type(), i)
					if out[nm] == nil {
						out[nm] = map[string]bool{}
					}
					out[nm][s] = true
				}
			}
			continue
		}
		fa, ok := a.v.(*ssa.FieldAddr)
		if !ok || g.resolve(Val{a.ctx, fa.X}) != recv {
			continue
		}
		nm := fieldName(fa.X.Type(), fa.Field)
		if out[nm] == nil {
			out[nm] = map[string]bool{}
		}
		flows := map[string]bool{}
		for _, t := range succ {
			fl.st = t.st
			flows[fl.of(Val{n.ctx, st.Val})] = true
			fl.st = nil
		}
		s := alt(flows)
		for _, t := range succ {
			if t.node.ctx == n.ctx && !instrDominates(st, t.node.instr) {
				s = "sometimes(" + s + ")"
				break
			}
		}
		out[nm][s] = true
	}
	return out, g, succ
}

func jsonMethods(u *Universe, r *Run) {
	for _, f := range u.Funcs {
		if f.Name() != "MarshalJSON" || f.Signature.Recv() == nil || f.Pkg == nil || strings.Contains(f.Pkg.Pkg.Path(), "mock") {
			continue
		}
		tn := typeFull(f.Signature.Recv().Type())
		un := u.fn(tn + ".UnmarshalJSON")
		if un == nil {
			r.ob("json-roundtrip", tn, false, u.Pos(f.Pos()), "MarshalJSON without UnmarshalJSON")
			continue
		}
		if tn == "common/pkg/fcrcrypto.KeyPair" || tn == "common/pkg/fcrmerkletree.FCRMerkleProof" {
			continue // hand-made binary formats, not decided here
		}
		mf := marshalFlows(u, f)
		uf, _, _ := unmarshalFlows(u, un)
		// wire type accepted by both: names
		seen := map[string]bool{}
		var names []string
		for n := range mf {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			s := mf[n]
			leaf := ""
			if i := strings.Index(s, "r."); i >= 0 {
				j := i
				for j < len(s) && isWord(s[j]) {
					j++
				}
				leaf = s[i:j]
			}
			pat := ""
			if leaf != "" {
				pat = replaceLeaf(s, leaf)
			}
			inv, ok := inversePattern[pat]
			if n == "" { // whole value
				want := "f:"
				got := alt(uf[strings.TrimPrefix(leaf, "r.")])
				good := ok && (got == want || got == "fill32@const:0(f:)" || got == "fill32@(const:32-builtin.len#0(f:))(f:)")
				r.ob("json-roundtrip", tn+": whole value", good, u.Pos(un.Pos()), "written from "+s+", read back as "+got)
				continue
			}
			field := strings.TrimPrefix(leaf, "r.")
			if !ok || seen[field] {
				r.ob("json-roundtrip", tn+": "+n, false, u.Pos(f.Pos()), "JSON field is written from "+s)
				continue
			}
			seen[field] = true
			want := strings.ReplaceAll(inv, "X", "f:"+n)
			got := alt(uf[field])
			r.ob("json-roundtrip", tn+": "+n, got == want, u.Pos(un.Pos()), "written from "+s+"; reading sets "+field+" to "+got+", expected "+want)
			// accessor
			for _, m := range u.Funcs {
				if m.Signature.Recv() == nil || m.Parent() != nil || typeFull(m.Signature.Recv().Type()) != tn || !strings.HasPrefix(m.Name(), "Get") || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
					continue
				}
				if !tagMatches(n, m.Name()[3:]) {
					continue
				}
				g := NewG(u, m, &Config{})
				g.Solve()
				fl := newFlow(g)
				set := map[string]bool{}
				for _, t := range g.successes() {
					set[fl.of(t.vals[0])] = true
				}
				r.ob("getter", tn+"."+m.Name(), alt(set) == leaf, u.Pos(m.Pos()), "returns "+alt(set)+" instead of the field written as "+n)
			}
		}
		// every field of the type is written or derivable (fields never written by MarshalJSON must be rebuilt by UnmarshalJSON)
		if _, whole := mf[""]; !whole {
			st := deref(f.Signature.Recv().Type()).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				fn := st.Field(i).Name()
				if seen[fn] {
					continue
				}
				r.ob("json-roundtrip", tn+": unwritten field "+fn, len(uf[fn]) > 0, u.Pos(un.Pos()), "the field is neither on the wire nor rebuilt when reading")
			}
		}
	}
}

func tagMatches(tag, name string) bool {
	t := strings.ToLower(strings.ReplaceAll(tag, "_", ""))
	n := strings.ToLower(name)
	return t == n || strings.HasSuffix(t, n) && (tag == "message_signature")
}

// jsonNames: duplicate JSON names make encoding/json drop both fields.
func jsonNames(u *Universe, r *Run) {
	for _, p := range u.Pkgs {
		sc := p.Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok || st.NumFields() == 0 {
				continue
			}
			tagged := false
			seen := map[string]bool{}
			bad := ""
			for i := 0; i < st.NumFields(); i++ {
				if strings.Contains(st.Tag(i), "json:") {
					tagged = true
				}
				n, ok := jsonName(tn.Type(), i)
				if !ok {
					if strings.Contains(st.Tag(i), "json:") && st.Tag(i) != `json:"-"` {
						bad = "unexported field " + st.Field(i).Name() + " carries a JSON name but is never encoded"
					}
					continue
				}
				if seen[strings.ToLower(n)] {
					bad = "JSON name " + n + " occurs twice"
				}
				seen[strings.ToLower(n)] = true
			}
			if tagged {
				r.ob("json-names", shortPkg(p.Pkg.Path())+"."+nm, bad == "", u.Pos(tn.Pos()), bad)
			}
		}
	}
}

var _ = token.NoPos
