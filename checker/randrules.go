package main

// P23: unpredictable values come from the cryptographic generators.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cryptoPkg = "common/pkg/fcrcrypto."

// prov computes where the unpredictability of values comes from, backwards through the whole program.
type prov struct {
	u       *Universe
	callers map[*ssa.Function][]ssa.CallInstruction
	stores  map[string][]ssa.Value // type.field -> stored values
	rqs     map[*ssa.Function]string
	peers   map[string][]ssa.CallInstruction // message type -> request sites
	sites   int
}

func newProv(u *Universe, mod string) *prov {
	p := &prov{u: u, callers: map[*ssa.Function][]ssa.CallInstruction{}, stores: map[string][]ssa.Value{}, rqs: map[*ssa.Function]string{}, peers: map[string][]ssa.CallInstruction{}}
	_, rqs := regs(u, mod, scratchRun())
	for t, f := range rqs {
		p.rqs[f] = t
	}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					if k := u.Callee(x); k != nil {
						p.callers[k] = append(p.callers[k], x)
					}
					n := u.CalleeName(x)
					if strings.HasPrefix(n, "common/pkg/fcrp2pserver.FCRP2PServer.Request") && len(args(x)) == 4 {
						for t := range constsOf(u, f, args(x)[2], 0) {
							p.peers[t] = append(p.peers[t], x)
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						k := typeFull(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
						p.stores[k] = append(p.stores[k], x.Val)
					}
				}
			}
		}
	}
	return p
}

type leaves map[string]bool

func (l leaves) add(m leaves) {
	for k := range m {
		l[k] = true
	}
}

func (l leaves) String() string {
	var out []string
	for k := range l {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func isRandomIface(t types.Type) bool { return typeFull(t) == cryptoPkg+"Random" }

func (p *prov) of(v ssa.Value) leaves { return p.walk(v, map[ssa.Value]bool{}) }

func (p *prov) walk(v ssa.Value, seen map[ssa.Value]bool) leaves {
	out := leaves{}
	if seen[v] {
		return out
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		out["a constant"] = true
	case *ssa.Convert:
		out = p.walk(x.X, seen)
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && intBits(b) < 32 {
			out = narrowed(out)
		}
	case *ssa.ChangeType:
		return p.walk(x.X, seen)
	case *ssa.ChangeInterface:
		return p.walk(x.X, seen)
	case *ssa.MakeInterface:
		if strings.HasPrefix(typeFull(x.X.Type()), cryptoPkg) {
			if al, ok := x.X.(*ssa.Alloc); ok {
				_ = al
				out["generator new"] = true
				return out
			}
		}
		return p.walk(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			out.add(p.walk(e, seen))
		}
	case *ssa.BinOp:
		a, b := p.walk(x.X, seen), p.walk(x.Y, seen)
		delete(a, "a constant")
		delete(b, "a constant")
		out.add(a)
		out.add(b)
		if len(out) == 0 {
			out["a constant"] = true
		}
		if strongOnly(a) && len(b) > 0 && x.Op != token.AND && x.Op != token.REM {
			out = a
		} else if strongOnly(b) && len(a) > 0 && x.Op != token.AND && x.Op != token.REM {
			out = b
		}
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && narrowing(x.Op, c) {
			out = narrowed(out)
		}
		if c, ok := x.X.(*ssa.Const); ok && c.Value != nil && x.Op == token.AND && narrowing(x.Op, c) {
			out = narrowed(out)
		}
	case *ssa.Parameter:
		f := x.Parent()
		i := paramIndex(f, x)
		for _, c := range p.callers[f] {
			if as := args(c); i < len(as) {
				out.add(p.walk(as[i], seen))
			}
		}
		if len(p.callers[f]) == 0 {
			out["its caller"] = true
		}
	case *ssa.FreeVar:
		f := x.Parent()
		for _, b := range f.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
					for i, fv := range f.FreeVars {
						if fv == x {
							out.add(p.walk(mc.Bindings[i], seen))
						}
					}
				}
			}
		}
	case *ssa.Slice:
		out = p.walk(x.X, seen)
		if h, ok := x.High.(*ssa.Const); ok && h.Value != nil {
			if n, ok := constant.Int64Val(h.Value); ok && n < 8 {
				out = narrowed(out)
			}
		}
	case *ssa.MakeSlice, *ssa.Alloc:
		return p.buffer(v, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return p.walk(x.X, seen)
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if a.Pkg != nil && a.Pkg.Pkg.Path() == "crypto/rand" {
				out["the system's cryptographic generator"] = true
			} else if isRandomIface(a.Type().Underlying().(*types.Pointer).Elem()) {
				out["generator "+a.Name()] = true
			} else {
				out["the variable "+a.Name()] = true
			}
		case *ssa.FieldAddr:
			k := typeFull(a.X.Type()) + "." + fieldName(a.X.Type(), a.Field)
			for _, s := range p.stores[k] {
				out.add(p.walk(s, seen))
			}
			if len(p.stores[k]) == 0 {
				out["the field "+k] = true
			}
		case *ssa.IndexAddr:
			// an argument of a requester
			if pa, ok := a.X.(*ssa.Parameter); ok && p.rqs[pa.Parent()] != "" {
				if c, ok := a.Index.(*ssa.Const); ok {
					for _, site := range p.peers[p.rqs[pa.Parent()]] {
						if els := varargs(args(site)[3]); int(c.Int64()) < len(els) {
							out.add(p.walk(els[c.Int64()], seen))
						}
					}
					return out
				}
			}
			return p.walk(a.X, seen)
		default:
			return p.walk(x.X, seen)
		}
	case *ssa.Global:
		out["the variable "+x.Name()] = true
	case *ssa.TypeAssert:
		return p.walk(x.X, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.call(c, x.Index, seen)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return p.walk(ta.X, seen)
		}
		out["something else"] = true
	case *ssa.Call:
		return p.call(x, 0, seen)
	case *ssa.FieldAddr:
		return p.walk(x.X, seen)
	case *ssa.IndexAddr:
		return p.walk(x.X, seen)
	default:
		out[fmt.Sprintf("something else (%T)", v)] = true
	}
	return out
}

func narrowing(op token.Token, c *ssa.Const) bool {
	v := constant.ToInt(c.Value)
	if v.Kind() != constant.Int {
		return false
	}
	n, _ := new(big.Int).SetString(v.ExactString(), 10)
	if n == nil {
		return false
	}
	switch op {
	case token.SHR:
		return n.Cmp(big.NewInt(16)) > 0
	case token.REM:
		return n.BitLen() <= 32
	case token.AND:
		bits := 0
		for i := 0; i < n.BitLen(); i++ {
			bits += int(n.Bit(i))
		}
		return n.Sign() >= 0 && bits < 32
	}
	return false
}

func narrowed(l leaves) leaves {
	if len(l) == 0 || len(l) == 1 && l["a constant"] {
		return l
	}
	out := leaves{"too few random bits": true}
	out.add(l)
	return out
}

func strongOnly(l leaves) bool {
	for k := range l {
		if k != "the system's cryptographic generator" && !strings.HasPrefix(k, "generator ") {
			return false
		}
	}
	return len(l) > 0
}

// returned: what the idx-th result of a function with source can be.
func (p *prov) returned(f *ssa.Function, idx int, seen map[ssa.Value]bool) leaves {
	out := leaves{}
	errIdx := -1
	rs := f.Signature.Results()
	if rs.Len() > 1 && isErrorType(rs.At(rs.Len()-1).Type()) {
		errIdx = rs.Len() - 1
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			if errIdx >= 0 {
				if c, ok := ret.Results[idx].(*ssa.Const); ok && (c.Value == nil || c.Value.ExactString() == "0" || c.Value.ExactString() == `""`) {
					if e, ok := ret.Results[errIdx].(*ssa.Const); !ok || !e.IsNil() {
						continue // the zero value that goes with an error
					}
				}
			}
			out.add(p.walk(ret.Results[idx], seen))
		}
	}
	return out
}

func (p *prov) call(c *ssa.Call, idx int, seen map[ssa.Value]bool) leaves {
	out := leaves{}
	name := p.u.CalleeName(c)
	if k := p.u.Callee(c); k != nil && k.Blocks != nil && isRepoFunc(k) {
		if strings.HasPrefix(name, "common/pkg/fcrmessages.Decode") {
			out["a received message"] = true
			return out
		}
		// a method that only hands out the receiver
		return p.returned(k, idx, seen)
	}
	switch {
	case name == "builtin.append":
		for _, a := range args(c) {
			out.add(p.walk(a, seen))
		}
		delete(out, "a constant")
		if len(out) == 0 {
			out["a constant"] = true
		}
		return out
	case strings.HasPrefix(name, "builtin."):
		out["a length"] = true
		return out
	case strings.HasPrefix(name, "crypto/rand."):
		if name == "crypto/rand.Int" || name == "crypto/rand.Prime" {
			out = p.walk(args(c)[0], seen)
			return out
		}
		out["the system's cryptographic generator"] = true
		return out
	case strings.HasPrefix(name, "math/rand.") || strings.HasPrefix(name, "math/rand/v2."):
		out["math/rand"] = true
		return out
	case strings.HasPrefix(name, "time."):
		out["the clock"] = true
		return out
	case strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "net."):
		out["the environment"] = true
		return out
	case c.Call.IsInvoke() && strings.HasPrefix(name, cryptoPkg+"Random."):
		return p.walk(c.Call.Value, seen)
	}
	for _, a := range args(c) {
		if a.Type().Underlying() == nil {
			continue
		}
		l := p.walk(a, seen)
		delete(l, "a constant")
		for k := range l {
			if !strings.HasPrefix(k, "the variable ") { // e.g. the encoding used
				out[k] = true
			}
		}
	}
	if len(out) == 0 {
		out["the result of "+name] = true
	}
	return out
}

// buffer: what fills a local buffer.
func (p *prov) buffer(root ssa.Value, seen map[ssa.Value]bool) leaves {
	out := leaves{}
	p.fills(root, func(l leaves) { out.add(l) }, seen, map[ssa.Value]bool{})
	if len(out) == 0 {
		out["a constant"] = true
	}
	return out
}

func (p *prov) fills(v ssa.Value, add func(leaves), seen, at map[ssa.Value]bool) {
	if at[v] || v.Referrers() == nil {
		return
	}
	at[v] = true
	for _, rf := range *v.Referrers() {
		switch x := rf.(type) {
		case *ssa.Slice:
			sub := add
			if h, ok := x.High.(*ssa.Const); ok && h.Value != nil && x.X == v {
				if n, ok := constant.Int64Val(h.Value); ok && n < 8 {
					sub = func(l leaves) { add(narrowed(l)) }
				}
			}
			p.fills(x, sub, seen, at)
		case *ssa.IndexAddr:
			if x.X == v {
				p.fills(x, add, seen, at)
			}
		case *ssa.FieldAddr:
			if x.X == v {
				p.fills(x, add, seen, at)
			}
		case *ssa.Store:
			if x.Addr == v {
				add(p.walk(x.Val, seen))
			}
		case *ssa.Phi:
			p.fills(x, add, seen, at)
		case *ssa.ChangeType:
			p.fills(x, add, seen, at)
		case ssa.CallInstruction:
			as := args(x)
			name := p.u.CalleeName(x)
			for i, a := range as {
				if a != v {
					continue
				}
				switch {
				case name == "builtin.copy":
					if i == 0 {
						add(p.walk(as[1], seen))
					}
				case name == "crypto/rand.Read":
					add(leaves{"the system's cryptographic generator": true})
				case strings.HasPrefix(name, "math/rand"):
					add(leaves{"math/rand": true})
				case name == "io.ReadFull" || name == "io.ReadAtLeast":
					if i == 1 {
						add(p.walk(as[0], seen))
					}
				case x.Common().IsInvoke() && strings.HasPrefix(name, cryptoPkg+"Random."):
					if i == 1 {
						add(p.walk(as[0], seen))
					}
				case name == "io.Reader.Read":
					if i == 1 {
						add(p.walk(as[0], seen))
					}
				case strings.Contains(name, "drbg.DRBG.Read"):
					add(leaves{"the system's cryptographic generator": true})
				case strings.HasSuffix(name, ".Encode") && i+1 < len(as) && !isRepoFunc2(p.u.Callee(x)):
					add(p.walk(as[i+1], seen))
				case strings.HasPrefix(name, "encoding/binary.") && strings.Contains(name, ".Put") && i+1 < len(as):
					add(p.walk(as[i+1], seen))
				default:
					if k := p.u.Callee(x); k != nil && k.Blocks != nil && isRepoFunc(k) && i < len(k.Params) {
						p.fills(k.Params[i], add, seen, at)
					}
				}
			}
		}
	}
}

func isRepoFunc2(f *ssa.Function) bool { return f != nil && isRepoFunc(f) }

// unpredictable: "" when every leaf is a generator (or an accepted forward).
func unpredictable(l leaves, accept ...string) string {
	strong := false
	for k := range l {
		switch {
		case k == "the system's cryptographic generator" || strings.HasPrefix(k, "generator "):
			strong = true
		default:
			ok := false
			for _, a := range accept {
				if a == k {
					ok, strong = true, true
				}
			}
			if !ok {
				return "it can come from " + l.String()
			}
		}
	}
	if !strong {
		return "no generator supplies it"
	}
	return ""
}

func init() {
	register("P23", "Backward provenance over the whole program, from every nonce and challenge of a request that is sent, every key generation and every generator state to the generators, the clock, constants and received messages; a walk over all paths of the generator from each digest back to the last reset and on to the next; and must-facts for the errors of the generators.",
		allMods, func(r *Run) {
			r.rule("from-generator", "nonces and challenges of requests come from the cryptographic generators, or are handed on from a received message or by the caller of a library")
			r.rule("secret-from-private", "keys are drawn from the private generator or the system's, never from the one whose output is published")
			r.rule("public-from-public", "values that are sent do not come from the private generator")
			r.rule("generators-separate", "the private and the public generator are different, each made by the generator's constructor")
			r.rule("state-seeded", "the initial state of a generator comes from the system's cryptographic generator")
			r.rule("output-mixed", "each block of output is a digest over fresh output of the inner generator, the state and a counter, and replaces the state before the next")
			r.rule("state-kept", "whatever replaces the state of a generator is a digest that covers the state before")
			r.rule("output-complete", "a request for random bytes fills all bytes")
			r.rule("error-checked", "an error of a generator is never ignored")
			cs := codecs(r.U("common"), nil)
			for _, mod := range allMods {
				u := r.U(mod)
				if u == nil {
					continue
				}
				randModule(r, u, mod, cs)
			}
			generatorRules(r, r.U("common"))
			r.floor("from-generator", 8)
			r.floor("secret-from-private", 1)
			r.floor("generators-separate", 2)
			r.floor("state-seeded", 1)
			r.floor("output-mixed", 2)
			r.floor("state-kept", 2)
			r.floor("error-checked", 3)
		})
}

func randModule(r *Run, u *Universe, mod string, cs map[string]*Codec) {
	p := newProv(u, mod)
	priv := generatorsOf(p, "GetPrivatePRNG")
	pub := generatorsOf(p, "GetPublicPRNG")
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] && mod != "common" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				name := u.CalleeName(call)
				if strings.HasPrefix(name, "common/pkg/fcrmessages.Encode") && sentSomewhere(u, call) {
					kind := strings.TrimPrefix(name, "common/pkg/fcrmessages.Encode")
					c := cs[kind]
					if c == nil || !strings.Contains(kind, "Request") {
						continue
					}
					for field, flow := range c.fields {
						if field != "nonce" && field != "challenge" {
							continue
						}
						m := pRe.FindStringSubmatch(flow)
						if m == nil || atoi(m[1]) >= len(args(call)) {
							continue
						}
						l := p.of(args(call)[atoi(m[1])])
						accept := []string{"a received message"}
						if strings.HasPrefix(mod, "client") || strings.HasSuffix(mod, "-admin") {
							accept = append(accept, "its caller")
						}
						why := unpredictable(l, accept...)
						if why != "" {
							why = "the " + field + " of a " + kind + " is not unpredictable: " + why
						}
						r.ob("from-generator", FuncName(f)+" "+kind+" "+field, why == "", u.Pos(call.Pos()), why)
						bad := ""
						for k := range l {
							if priv[k] {
								bad = "the " + field + " of a " + kind + " is sent, but comes from the private generator"
							}
						}
						r.ob("public-from-public", FuncName(f)+" "+kind+" "+field, bad == "", u.Pos(call.Pos()), bad)
					}
				}
				if i := keyReader(name); i >= 0 && i < len(args(call)) {
					l := p.of(args(call)[i])
					why := unpredictable(l)
					for k := range l {
						if pub[k] {
							why = "it comes from the generator whose output is published"
						}
					}
					if why != "" {
						why = "a key is generated from a reader that is not a private cryptographic generator: " + why
					}
					r.ob("secret-from-private", FuncName(f)+" "+name, why == "", u.Pos(call.Pos()), why)
				}
			}
		}
	}
	if mod != "common" {
		return
	}
	for _, n := range []string{"GetPrivatePRNG", "GetPublicPRNG"} {
		gs := generatorsOf(p, n)
		f := findFunc(u, strings.TrimSuffix(cryptoPkg, "."), n)
		where := "-"
		if f != nil {
			where = u.Pos(f.Pos())
		}
		ok := len(gs) > 0
		msg := "no generator is handed out"
		for k := range gs {
			if !strings.HasPrefix(k, "generator ") {
				ok, msg = false, "what is handed out can be "+k
			}
			if n == "GetPrivatePRNG" && pub[k] {
				ok, msg = false, "the private generator is also handed out as the public one"
			}
		}
		r.ob("generators-separate", n, ok, where, msg)
	}
	// the global generators are only ever made by the constructor
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				gl, ok := st.Addr.(*ssa.Global)
				if !ok || !isRandomIface(st.Val.Type()) {
					continue
				}
				l := p.of(st.Val)
				r.ob("generators-separate", FuncName(f)+" "+gl.Name(), len(l) == 1 && l["generator new"], u.Pos(st.Pos()), gl.Name()+" is not set to a new generator: "+l.String())
			}
		}
	}
	// helpers that fill a buffer of the caller
	for n, want := range map[string]map[string]bool{"GeneratePrivateRandomBytes": priv, "GeneratePublicRandomBytes": pub} {
		f := findFunc(u, strings.TrimSuffix(cryptoPkg, "."), n)
		if f == nil || len(f.Params) != 1 {
			continue
		}
		l := leaves{}
		p.fills(f.Params[0], func(m leaves) { l.add(m) }, map[ssa.Value]bool{}, map[ssa.Value]bool{})
		ok := len(l) > 0
		for k := range l {
			if !want[k] {
				ok = false
			}
		}
		r.ob("generators-separate", n, ok, u.Pos(f.Pos()), "the bytes come from "+l.String())
	}
	// challenges made by the challenge package
	for _, f := range pkgFuncs(u, "common/pkg/challenge") {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() == 0 {
			continue
		}
		why := unpredictable(p.returned(f, 0, map[ssa.Value]bool{}))
		r.ob("from-generator", FuncName(f), why == "", u.Pos(f.Pos()), "the challenge is not unpredictable: "+why)
	}
	// nonces made by the crypto package
	for _, f := range pkgFuncs(u, strings.TrimSuffix(cryptoPkg, ".")) {
		if f.Object() == nil || !f.Object().Exported() || !strings.Contains(f.Name(), "Random") || f.Signature.Results().Len() != 1 || f.Signature.Recv() != nil {
			continue
		}
		why := unpredictable(p.returned(f, 0, map[ssa.Value]bool{}))
		r.ob("from-generator", FuncName(f), why == "", u.Pos(f.Pos()), "the value is not unpredictable: "+why)
	}
}

func findFunc(u *Universe, pkg, name string) *ssa.Function {
	for _, f := range pkgFuncs(u, pkg) {
		if f.Name() == name && f.Signature.Recv() == nil {
			return f
		}
	}
	return nil
}

func generatorsOf(p *prov, name string) leaves {
	f := findFunc(p.u, strings.TrimSuffix(cryptoPkg, "."), name)
	if f == nil {
		return leaves{}
	}
	return p.returned(f, 0, map[ssa.Value]bool{})
}

// keyReader: which argument of a key generating library function is the source of randomness.
func keyReader(name string) int {
	switch name {
	case "crypto/ecdsa.GenerateKey":
		return 1
	case "crypto/rsa.GenerateKey", "crypto/ed25519.GenerateKey", "crypto/elliptic.GenerateKey", "crypto/ecdh.Curve.GenerateKey":
		if strings.HasPrefix(name, "crypto/elliptic") {
			return 1
		}
		return 0
	}
	if strings.HasSuffix(name, ".GenerateKeyFromSeed") {
		return 0
	}
	return -1
}

// sentSomewhere: the message is used for something else than being put into another message.
func sentSomewhere(u *Universe, call *ssa.Call) bool {
	for _, ex := range extracts(call) {
		if ex.Index != 0 || ex.Referrers() == nil {
			continue
		}
		for _, rf := range *ex.Referrers() {
			if c, ok := rf.(ssa.CallInstruction); ok && strings.HasPrefix(u.CalleeName(c), "common/pkg/fcrmessages.Encode") {
				continue
			}
			if _, ok := rf.(*ssa.DebugRef); ok {
				continue
			}
			return true
		}
	}
	return false
}

// generatorRules: the generator itself, and the errors of all generators.
func generatorRules(r *Run, u *Universe) {
	p := newProv(u, "common")
	n := 0
	for _, f := range u.Funcs {
		if f.Pkg == nil || shortPkg(f.Pkg.Pkg.Path())+"." != cryptoPkg {
			continue
		}
		if mk := makesGenerator(f); mk != nil {
			n++
			seedRules(r, p, f, mk)
		}
		if f.Signature.Recv() != nil && f.Object() != nil && fillsParam(f) && implementsRandom(u, f) {
			g := NewG(u, f, &Config{})
			g.Solve()
			outputRules(r, p, g, f)
		}
		stateKept(r, u, f)
	}
	if n == 0 {
		r.ob("state-seeded", "anchor", false, "-", "no constructor of a generator found")
	}
	for _, mod := range allMods {
		um := r.U(mod)
		if um == nil {
			continue
		}
		for _, f := range um.Funcs {
			if f.Pkg == nil || !um.Roots[f.Pkg] || !callsGenerator(um, f) {
				continue
			}
			g := NewG(um, f, &Config{Opaque: func(string, *ssa.Function) bool { return true }})
			g.Solve()
			errorRules(r, um, g, f)
		}
	}
}

func implementsRandom(u *Universe, f *ssa.Function) bool {
	rt := f.Signature.Recv().Type()
	pk := u.Prog.ImportedPackage(repoPrefix + strings.TrimSuffix(cryptoPkg, "."))
	if pk == nil || pk.Type("Random") == nil {
		return false
	}
	it, ok := pk.Type("Random").Type().Underlying().(*types.Interface)
	return ok && types.Implements(rt, it)
}

func fillsParam(f *ssa.Function) bool {
	return len(f.Params) == 2 && types.Identical(f.Params[1].Type().Underlying(), types.NewSlice(types.Typ[types.Byte])) && (f.Name() == "ReadBytes" || f.Name() == "Read")
}

// makesGenerator: the allocation of a generator the function makes and hands out.
func makesGenerator(f *ssa.Function) *ssa.Alloc {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if mi, ok := ins.(*ssa.MakeInterface); ok && isRandomIface(mi.Type()) {
				if al, ok := mi.X.(*ssa.Alloc); ok {
					return al
				}
			}
		}
	}
	return nil
}

// seedRules: a byte slice field of the generator is its state, an inner generator field is made by its library.
func seedRules(r *Run, p *prov, f *ssa.Function, mk *ssa.Alloc) {
	t := mk.Type().Underlying().(*types.Pointer).Elem()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fn := st.Field(i).Name()
		state := types.Identical(st.Field(i).Type(), types.NewSlice(types.Typ[types.Byte]))
		inner := strings.HasSuffix(st.Field(i).Type().String(), "drbg.DRBG")
		if !state && !inner {
			continue
		}
		l := leaves{}
		made := false
		for _, rf := range *mk.Referrers() {
			fa, ok := rf.(*ssa.FieldAddr)
			if !ok || fa.Field != i {
				continue
			}
			for _, w := range *fa.Referrers() {
				switch x := w.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(fa) {
						if inner {
							c, ok := x.Val.(*ssa.Call)
							made = ok && strings.HasSuffix(p.u.CalleeName(c), "drbg.New")
							continue
						}
						l.add(p.of(x.Val))
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && state {
						p.fills(x, func(m leaves) { l.add(m) }, map[ssa.Value]bool{}, map[ssa.Value]bool{})
					}
				}
			}
		}
		if inner {
			r.ob("state-seeded", FuncName(f)+" "+fn, made, p.u.Pos(mk.Pos()), "the inner generator is not made by its library's constructor")
			continue
		}
		delete(l, "a constant") // the buffer before it is filled
		why := unpredictable(l)
		r.ob("state-seeded", FuncName(f)+" "+fn, why == "", p.u.Pos(mk.Pos()), "the initial state is not unpredictable: "+why)
	}
}

func hashOp(g *G, n *Node) string {
	c, ok := n.instr.(*ssa.Call)
	if !ok || n.after {
		return ""
	}
	nm := g.u.CalleeName(c)
	for _, s := range []string{"Reset", "Write", "Sum"} {
		if strings.HasPrefix(nm, "hash.Hash.") && strings.HasSuffix(nm, "."+s) || nm == "io.Writer."+s {
			return s
		}
	}
	return ""
}

// outputRules: what leaves the generator.
func outputRules(r *Run, p *prov, g *G, f *ssa.Function) {
	b := Val{g.root, f.Params[1]}
	var copies, sums, resets []*Node
	stateField := ""
	isState := func(v Val) bool {
		u, ok := g.resolve(v).v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := g.resolve(Val{g.resolve(v).ctx, u.X}).v.(*ssa.FieldAddr)
		return ok && fieldName(fa.X.Type(), fa.Field) == stateField
	}
	for _, n := range g.nodes {
		if n.after || !g.reachable(n) {
			continue
		}
		switch hashOp(g, n) {
		case "Reset":
			resets = append(resets, n)
		case "Sum":
			sums = append(sums, n)
		}
		if c, ok := n.instr.(*ssa.Call); ok && g.u.CalleeName(c) == "builtin.copy" && g.resolve(sliceBase(g, Val{n.ctx, args(c)[0]})) == b {
			copies = append(copies, n)
		}
		if st, ok := n.instr.(*ssa.Store); ok {
			if fa, ok := g.resolve(Val{n.ctx, st.Addr}).v.(*ssa.FieldAddr); ok && types.Identical(st.Val.Type(), types.NewSlice(types.Typ[types.Byte])) {
				stateField = fieldName(fa.X.Type(), fa.Field)
			}
		}
	}
	// delegates to another generator method entirely
	if len(copies) == 0 {
		l := leaves{}
		p.fills(f.Params[1], func(m leaves) { l.add(m) }, map[ssa.Value]bool{}, map[ssa.Value]bool{})
		r.ob("output-complete", short(f), len(l) > 0, g.u.Pos(f.Pos()), "the buffer is not filled")
		return
	}
	for _, s := range sums {
		con := short(f)
		r.ob("output-mixed", con+": fresh output of the inner generator", passesBack(g, s, func(n *Node) bool {
			if hashOp(g, n) != "Write" {
				return false
			}
			return filledByInner(g, Val{n.ctx, args(n.instr.(*ssa.Call))[1]}, n)
		}, resets), g.where(s), "a digest can be taken that does not cover fresh output of the inner generator")
		r.ob("output-mixed", con+": state", stateField != "" && passesBack(g, s, func(n *Node) bool {
			return hashOp(g, n) == "Write" && isState(Val{n.ctx, args(n.instr.(*ssa.Call))[1]})
		}, resets), g.where(s), "a digest can be taken that does not cover the state")
		r.ob("output-mixed", con+": state replaced", passesOn(g, s, func(n *Node) bool {
			st, ok := n.instr.(*ssa.Store)
			if !ok || n.after {
				return false
			}
			fa, ok := g.resolve(Val{n.ctx, st.Addr}).v.(*ssa.FieldAddr)
			return ok && fieldName(fa.X.Type(), fa.Field) == stateField && g.resolve(Val{n.ctx, st.Val}).v == ssa.Value(s.instr.(*ssa.Call))
		}, resets), g.where(s), "the state is not replaced after output was taken from it")
		r.ob("output-complete", con+": each block is handed out", passesOn(g, s, func(n *Node) bool {
			for _, c := range copies {
				if c == n {
					return true
				}
			}
			return false
		}, resets), g.where(s), "on one way a block is made, but the bytes it is for are not filled")
	}
	for _, c := range copies {
		src := g.resolve(Val{c.ctx, args(c.instr.(*ssa.Call))[1]})
		for {
			sl, ok := src.v.(*ssa.Slice)
			if !ok {
				break
			}
			src = g.resolve(Val{src.ctx, sl.X})
		}
		good := false
		for _, s := range sums {
			if src == (Val{s.ctx, s.instr.(*ssa.Call)}) {
				good = true
			}
		}
		r.ob("output-mixed", short(f)+": what is handed out", good, g.where(c), "bytes are handed out that are not a digest of the generator")
		r.ob("output-complete", short(f)+": position", copyPosition(g, c), g.where(c), "the position a block is put at is not where the previous one ended")
		if sl, ok := g.resolve(Val{c.ctx, args(c.instr.(*ssa.Call))[0]}).v.(*ssa.Slice); ok && sl.High != nil {
			high := g.resolve(Val{c.ctx, sl.High})
			bd := newBounds(g, c.in)
			full := true
			for _, o := range append(g.origins(high), minOf(g, high)...) {
				if c, _ := callOf(o); c != nil && g.u.CalleeName(c) == "builtin.min" {
					continue
				}
				if !bd.known(g.lenOf(b), g.linOf(o), 0) && !isNextPosition(g, c, o, bd) {
					full = false
				}
			}
			r.ob("output-complete", short(f)+": to where", full, g.where(c), "the bytes filled end before the block and before the end of what is asked for")
		}
	}
	// the loop ends only at the end of the buffer
	for _, n := range g.nodes {
		if _, ok := n.instr.(*ssa.Return); !ok || n.ctx != g.root || !g.reachable(n) {
			continue
		}
		bd := newBounds(g, n.in)
		good := false
		for _, c := range copies {
			if low := copyLow(g, c); low.v != nil {
				if bd.known(g.lenOf(b), g.linOf(low), 0) {
					good = true
				}
			}
		}
		r.ob("output-complete", short(f)+": end", good, g.where(n), "it can end before all bytes were filled")
	}
}

func sliceBase(g *G, v Val) Val {
	for {
		v = g.resolve(v)
		sl, ok := v.v.(*ssa.Slice)
		if !ok {
			return v
		}
		v = Val{v.ctx, sl.X}
	}
}

func copyLow(g *G, c *Node) Val {
	sl, ok := g.resolve(Val{c.ctx, args(c.instr.(*ssa.Call))[0]}).v.(*ssa.Slice)
	if !ok || sl.Low == nil {
		return Val{}
	}
	return g.resolve(Val{c.ctx, sl.Low})
}

// copyPosition: the block goes where a counter starting at zero stands, which then advances by a length.
func copyPosition(g *G, c *Node) bool {
	low := copyLow(g, c)
	phi, ok := low.v.(*ssa.Phi)
	if !ok {
		// or the rest of the buffer itself is kept
		sl, ok := g.resolve(Val{c.ctx, args(c.instr.(*ssa.Call))[0]}).v.(*ssa.Phi)
		return ok && sl != nil
	}
	zero, steps := false, 0
	for _, e := range phi.Edges {
		v := g.resolve(Val{low.ctx, e})
		if isIntConst(v.v, 0) {
			zero = true
			continue
		}
		add, ok := v.v.(*ssa.BinOp)
		if !ok || add.Op != token.ADD {
			return false
		}
		other := add.Y
		if g.resolve(Val{v.ctx, add.X}) != low {
			if g.resolve(Val{v.ctx, add.Y}) != low {
				return false
			}
			other = add.X
		}
		cl, ok := g.resolve(Val{v.ctx, other}).v.(*ssa.Call)
		if !ok {
			return false
		}
		if n := g.u.CalleeName(cl); n != "builtin.len" && n != "builtin.copy" {
			return false
		}
		steps++
	}
	return zero && steps > 0
}

// isNextPosition: the value is the position the next block will be put at.
func isNextPosition(g *G, c *Node, v Val, bd *bounds) bool {
	low := copyLow(g, c)
	phi, ok := low.v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		ev := g.resolve(Val{low.ctx, e})
		if isIntConst(ev.v, 0) {
			continue
		}
		if ev == v || bd.known(g.linOf(ev), g.linOf(v), 0) && bd.known(g.linOf(v), g.linOf(ev), 0) {
			return true
		}
	}
	return false
}

// minOf: the arguments of the smaller of two.
func minOf(g *G, v Val) []Val {
	var out []Val
	for _, o := range g.origins(v) {
		if c, _ := callOf(o); c != nil && g.u.CalleeName(c) == "builtin.min" {
			for _, a := range c.Call.Args {
				out = append(out, Val{o.ctx, a})
			}
		}
	}
	return out
}

// stateKept: whatever replaces the state of a generator is a digest that covers the old state.
func stateKept(r *Run, u *Universe, f *ssa.Function) {
	if f.Signature.Recv() == nil || f.Object() == nil || !implementsRandom(u, f) {
		return
	}
	if !f.Object().Exported() && len(u.callersOf(f)) > 0 {
		return // judged where it is called
	}
	g := NewG(u, f, &Config{})
	g.Solve()
	field := func(a Val) string {
		fa, ok := g.resolve(a).v.(*ssa.FieldAddr)
		if !ok || g.resolve(Val{g.resolve(a).ctx, fa.X}) != (Val{g.root, f.Params[0]}) {
			return ""
		}
		return fieldName(fa.X.Type(), fa.Field)
	}
	var resets []*Node
	for _, n := range g.nodes {
		if hashOp(g, n) == "Reset" && g.reachable(n) {
			resets = append(resets, n)
		}
	}
	for _, n := range g.nodes {
		st, ok := n.instr.(*ssa.Store)
		if !ok || n.after || !g.reachable(n) || !types.Identical(st.Val.Type(), types.NewSlice(types.Typ[types.Byte])) {
			continue
		}
		fld := field(Val{n.ctx, st.Addr})
		if fld == "" {
			continue
		}
		isState := func(v Val) bool {
			v = g.resolve(v)
			for {
				sl, ok := v.v.(*ssa.Slice)
				if !ok || sl.Low != nil || sl.High != nil {
					break
				}
				v = g.resolve(Val{v.ctx, sl.X})
			}
			ld, ok := v.v.(*ssa.UnOp)
			return ok && ld.Op == token.MUL && field(Val{v.ctx, ld.X}) == fld
		}
		for _, o := range g.origins(Val{n.ctx, st.Val}) {
			good := false
			if c, ok := o.v.(*ssa.Call); ok {
				for _, m := range g.nodes {
					if m.instr == ssa.Instruction(c) && m.ctx == o.ctx && !m.after && hashOp(g, m) == "Sum" {
						good = passesBack(g, m, func(w *Node) bool {
							return hashOp(g, w) == "Write" && isState(Val{w.ctx, args(w.instr.(*ssa.Call))[1]})
						}, resets)
					}
				}
				if !good { // a digest function over the state and more
					for _, a := range args(c) {
						if isState(Val{o.ctx, a}) || appendsState(g, Val{o.ctx, a}, isState, 0) {
							good = true
						}
					}
				}
			}
			r.ob("state-kept", short(f)+": "+fld, good, g.where(n), "the state is replaced by something that does not depend on the state before: whoever knows the seed knows the output")
		}
	}
}

// appendsState: a list of bytes the state was appended to.
func appendsState(g *G, v Val, isState func(Val) bool, depth int) bool {
	v = g.resolve(v)
	if depth > 6 {
		return false
	}
	switch x := v.v.(type) {
	case *ssa.Slice:
		return appendsState(g, Val{v.ctx, x.X}, isState, depth+1)
	case *ssa.Call:
		if g.u.CalleeName(x) == "builtin.append" {
			for _, a := range args(x) {
				if isState(Val{v.ctx, a}) || appendsState(g, Val{v.ctx, a}, isState, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// passesBack: every way to n from the beginning or the last of the stops goes through want.
func passesBack(g *G, n *Node, want func(*Node) bool, stops []*Node) bool {
	stop := map[*Node]bool{}
	for _, s := range stops {
		stop[s] = true
	}
	seen := map[*Node]bool{}
	var bad bool
	var walk func(n *Node)
	walk = func(n *Node) {
		if seen[n] || bad {
			return
		}
		seen[n] = true
		if len(n.preds) == 0 {
			bad = true
			return
		}
		for _, e := range n.preds {
			m := e.from
			if !g.reachable(m) || want(m) {
				continue
			}
			if stop[m] {
				bad = true
				return
			}
			walk(m)
		}
	}
	walk(n)
	return !bad
}

// passesOn: every way from n to the end or the next of the stops goes through want.
func passesOn(g *G, n *Node, want func(*Node) bool, stops []*Node) bool {
	stop := map[*Node]bool{}
	for _, s := range stops {
		stop[s] = true
	}
	seen := map[*Node]bool{}
	bad := false
	var walk func(n *Node)
	walk = func(n *Node) {
		if seen[n] || bad {
			return
		}
		seen[n] = true
		if _, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root {
			bad = true
			return
		}
		for _, e := range n.succs {
			m := e.to
			if !g.reachable(m) || want(m) {
				continue
			}
			if stop[m] {
				bad = true
				return
			}
			walk(m)
		}
	}
	walk(n)
	return !bad
}

// filledByInner: the buffer was filled by the inner generator before, on every way since it was made.
func filledByInner(g *G, buf Val, at *Node) bool {
	base := sliceBase(g, buf)
	ms, ok := base.v.(ssa.Instruction)
	if !ok {
		return false
	}
	var mk []*Node
	for _, n := range g.nodes {
		if n.instr == ms && n.ctx == base.ctx {
			mk = append(mk, n)
		}
	}
	if len(mk) == 0 {
		return false
	}
	return passesBack(g, at, func(n *Node) bool {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || len(args(c)) < 2 {
			return false
		}
		nm := g.u.CalleeName(c)
		return (strings.HasSuffix(nm, "drbg.DRBG.Read") || nm == "io.Reader.Read") && g.resolve(Val{n.ctx, args(c)[1]}) == base ||
			nm == "io.ReadFull" && g.resolve(Val{n.ctx, args(c)[1]}) == base ||
			nm == "crypto/rand.Read" && g.resolve(Val{n.ctx, args(c)[0]}) == base
	}, mk)
}

func generatorCall(name string) bool {
	return strings.HasPrefix(name, "crypto/rand.") || strings.HasSuffix(name, "drbg.DRBG.Read") || keyReader(name) >= 0
}

func callsGenerator(u *Universe, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok && generatorCall(u.CalleeName(c)) {
				return true
			}
		}
	}
	return false
}

func errorRules(r *Run, u *Universe, g *G, f *ssa.Function) {
	for _, n := range g.nodes {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !generatorCall(u.CalleeName(c)) || n.ctx != g.root {
			continue
		}
		rs := c.Call.Signature().Results()
		if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
			continue
		}
		var errv ssa.Value
		for _, ex := range extracts(c) {
			if ex.Index == rs.Len()-1 {
				errv = ex
			}
		}
		good := errv != nil && errorHandled(g, n, errv, rs.Len()-1)
		r.ob("error-checked", short(f)+" "+u.CalleeName(c), good, g.where(n), "the error of the generator is ignored, so its output may be missing")
	}
}

// errorHandled: from the call on, no way leads to a success return or to the call again without the error
// having been found nil; a way that returns the error itself is no success when it is not nil.
func errorHandled(g *G, n *Node, errv ssa.Value, idx int) bool {
	return errorHandledBy(g, n, errv, idx, g.successExits())
}

func errorHandledBy(g *G, n *Node, errv ssa.Value, idx int, exits map[*Node]*FSet) bool {
	cv := Val{n.ctx, n.instr.(*ssa.Call)}
	facts := []Fact{mkFact(fmt.Sprintf("ret%d=nil", idx), Key{s: g.token(cv), roots: []Val{cv}}), mkFact("isnil", g.objkey(Val{n.ctx, errv}))}
	has := func(st *FSet) bool {
		for _, f := range facts {
			if !st.top && g.hasIn(st, f) {
				return true
			}
		}
		return false
	}
	type state struct {
		n    *Node
		same string
	}
	seen := map[state]bool{}
	bad := false
	var walk func(m *Node, same map[ssa.Value]bool)
	walk = func(m *Node, same map[ssa.Value]bool) {
		var names []string
		for v := range same {
			names = append(names, v.Name())
		}
		sort.Strings(names)
		k := state{m, strings.Join(names, " ")}
		if seen[k] || bad {
			return
		}
		seen[k] = true
		if ret, ok := m.instr.(*ssa.Return); ok && m.ctx == g.root {
			if st, ok := exits[m]; ok && !has(st) && !(len(ret.Results) > 0 && same[ret.Results[len(ret.Results)-1]]) {
				bad = true
			}
			return
		}
		for _, e := range m.succs {
			if !g.reachable(e.to) || has(g.edgeOut(e)) {
				continue
			}
			if e.to == n {
				bad = true
				return
			}
			nx := same
			if e.to.ctx == n.ctx && e.to.instr != nil && e.fromBlk != nil && e.to.instr.Block() != e.fromBlk {
				b := e.to.instr.Block()
				for i, pb := range b.Preds {
					if pb != e.fromBlk {
						continue
					}
					nx = map[ssa.Value]bool{}
					for v := range same {
						nx[v] = true
					}
					for _, ins := range b.Instrs {
						if ph, ok := ins.(*ssa.Phi); ok {
							delete(nx, ph)
							if same[ph.Edges[i]] {
								nx[ph] = true
							}
						}
					}
				}
			}
			walk(e.to, nx)
		}
	}
	walk(n, map[ssa.Value]bool{errv: true})
	return !bad
}

// scratchRun: somewhere to put obligations that belong to another property.
func scratchRun() *Run {
	return &Run{rules: map[string]string{}, seen: map[string]int{}, counts: map[string]int{}}
}
