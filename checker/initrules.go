package main

// P24: a node without keys refuses what needs them, and initialisation installs everything or nothing.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initField: which part of the node's initialisation the field of the core holds; "" for other locations.
func initField(g *G, a Val) string {
	a = g.resolve(a)
	fa, ok := a.v.(*ssa.FieldAddr)
	if !ok || !strings.HasSuffix(typeFull(fa.X.Type()), "/internal/core.Core") {
		return ""
	}
	return initType(fa.Type().(*types.Pointer).Elem())
}

func initType(t types.Type) string {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return ""
	}
	switch typeFull(t) {
	case pkgCrypto + ".KeyPair":
		return "key"
	case pkgCrypto + ".KeyVersion":
		return "key version"
	case "common/pkg/nodeid.NodeID":
		return "identifier"
	case "common/pkg/fcrpaymentmgr.FCRPaymentMgr":
		return "payment manager"
	}
	return ""
}

// initFieldName: same, for the last step of a fact's access path.
func (u *Universe) initFieldName(field string) string {
	i := strings.LastIndex(field, ".")
	if i < 0 || !strings.HasSuffix(field[:i], "/internal/core.Core") {
		return ""
	}
	pk := u.Prog.ImportedPackage(repoPrefix + strings.TrimSuffix(field[:i], ".Core"))
	if pk == nil || pk.Type("Core") == nil {
		return ""
	}
	st, ok := pk.Type("Core").Type().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == field[i+1:] {
			return initType(st.Field(k).Type())
		}
	}
	return ""
}

func initGraph(u *Universe, f *ssa.Function) *G {
	g := NewG(u, f, &Config{Opaque: primitive, CallFacts: primFacts, Loose: true, EdgeGen: func(g *G, st *FSet) []Fact {
		var out []Fact
		for k := range st.m {
			ft := &g.facts[k]
			if ft.pred != "nonnil" || len(ft.fields) == 0 || len(ft.args) != 1 {
				continue
			}
			switch u.initFieldName(ft.fields[len(ft.fields)-1]) {
			case "":
			case "payment manager":
				out = append(out, mkFact("haspay", Key{s: "core"}))
			default:
				out = append(out, mkFact("haskeys", Key{s: "core"}))
			}
		}
		return out
	}})
	g.Solve()
	return g
}

// isRefusalCall: the request is turned down.
func isRefusalCall(g *G, n *Node, c ssa.CallInstruction, name string) bool {
	if n.after {
		return false
	}
	if strings.HasSuffix(name, "go-json-rest/rest.Error") || strings.HasSuffix(name, "FCRServerWriter.WriteInvalidMessage") || strings.HasSuffix(name, "rest.NotFound") || name == "net/http.Error" {
		return true
	}
	if isPeerWrite(name) {
		return isRefusal(msgOrigins(g, Val{n.ctx, args(c)[1]}))
	}
	return false
}

// onlyComparedWithNil: the value is looked at only to see whether it is there.
func onlyComparedWithNil(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.BinOp:
			if !isNilConst(x.X) && !isNilConst(x.Y) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// needs: the parts of the initialisation a function uses, itself or through what it calls or starts.
func (u *Universe) needs(f *ssa.Function, seen map[*ssa.Function]bool) map[string]bool {
	out := map[string]bool{}
	if f == nil || f.Blocks == nil || seen[f] || !isRepoFunc(f) {
		return out
	}
	seen[f] = true
	add := func(m map[string]bool) {
		for k := range m {
			out[k] = true
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.FieldAddr:
				if strings.HasSuffix(typeFull(x.X.Type()), "/internal/core.Core") {
					if k := initType(x.Type().(*types.Pointer).Elem()); k != "" {
						for _, rf := range *x.Referrers() {
							if ld, ok := rf.(*ssa.UnOp); ok && !onlyComparedWithNil(ld) {
								if k == "payment manager" {
									out["wallet"] = true
								} else {
									out["keys"] = true
								}
							}
						}
					}
				}
			case *ssa.MakeClosure:
				if fn, ok := x.Fn.(*ssa.Function); ok {
					add(u.needs(fn, seen))
				}
			case ssa.CallInstruction:
				name := u.CalleeName(x)
				if strings.HasPrefix(name, "common/pkg/fcrp2pserver.FCRP2PServer.Request") {
					out["keys"] = true
				}
				if callee := u.Callee(x); callee != nil {
					add(u.needs(callee, seen))
				}
			}
		}
	}
	return out
}

// decoderValid: on success every pointer the decoder returns comes from calls that succeeded.
func decoderValid(r *Run, u *Universe, d *ssa.Function) {
	g := NewG(u, d, &Config{Opaque: primitive, CallFacts: primFacts})
	g.Solve()
	for n, st := range g.successExits() {
		ret := n.instr.(*ssa.Return)
		for i, rv := range ret.Results {
			p := initType(rv.Type())
			if p == "" {
				continue
			}
			good, why := true, ""
			for _, o := range g.origins(Val{g.root, rv}) {
				if isNilConst(o.v) {
					good, why = false, "nil"
				} else if !errNilIn(g, st, o) {
					good, why = false, "what "+g.key(o).s+" delivered with its error not checked"
				}
			}
			r.ob("decodes-valid", short(d)+fmt.Sprintf(" result %d (%s)", i, p), good, g.where(n), "on success the "+p+" can be "+why)
		}
	}
}

// errNilAt: the call that delivered o is known to have succeeded; calls that report no error have.
func errNilAt(g *G, n *Node, o Val) bool { return errNilIn(g, n.in, o) }

func errNilIn(g *G, st *FSet, o Val) bool {
	c, _ := callOf(o)
	if c == nil {
		return true
	}
	rs := c.Call.Signature().Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return true
	}
	cv := Val{o.ctx, c}
	if g.hasIn(st, mkFact(fmt.Sprintf("ret%d=nil", rs.Len()-1), Key{s: g.token(cv), roots: []Val{cv}})) {
		return true
	}
	for _, ex := range extracts(c) {
		if ex.Index == rs.Len()-1 && g.hasIn(st, mkFact("isnil", g.objkey(Val{o.ctx, ex}))) {
			return true
		}
	}
	return false
}

// avoiding: a way from a to b that passes none of the stops (a and b themselves not counted).
func avoiding(g *G, a, b *Node, stops map[*Node]bool) bool {
	return pathBetween(a, b, func(m *Node) bool { return stops[m] || !g.reachable(m) })
}

func init() {
	register("P24", "Every handler of gateway and provider (found by signature among address-taken functions) is expanded to its control-flow graph and solved for must-facts. Handlers that assign the core's identifier, key, key version or payment manager are initialisation handlers: what they install must come from calls known to have succeeded, all parts together, with no refusal reachable afterwards and no other exit without the installation. In every other handler each use of those fields, and, if the handler uses the keys at all, each effect and answer, must be preceded on all ways by the check that the node has them, and the other way must refuse the request.",
		[]string{"gateway", "provider"}, func(r *Run) {
			r.rule("installs-valid", "what initialisation installs was decoded or made by calls that are known to have succeeded")
			r.rule("installs-together", "identifier, key, key version (and payment manager, when the request carries a wallet) are installed on the same ways")
			r.rule("failure-installs-nothing", "after a part was installed the request cannot be refused any more")
			r.rule("success-installs", "a way on which initialisation is not refused installs every part")
			r.rule("decodes-valid", "the decoder of an initialisation request succeeds only with every part decoded: no error of an inner decoder is passed over and no part is nil")
			r.rule("wallet-arguments", "the payment manager is made from the wallet key, API address and token of the request, each in its place")
			r.rule("refused-uninitialised", "keys and payment manager are used, and requests that need them acted on, only after checking that they are there")
			r.rule("refusal-answered", "a request that is not served because the node is not initialised is refused, not silently dropped")
			nh, ni := 0, 0
			for _, mod := range []string{"gateway", "provider"} {
				u := r.U(mod)
				cs := codecs(u, scratchRun())
				for _, k := range []handlerKind{hREST, hPeer} {
					for _, f := range u.handlers(k) {
						nh++
						g := initGraph(u, f)
						r.count("graph nodes", len(g.nodes))
						installs := map[string][]*Node{}
						for _, n := range g.nodes {
							if st, ok := n.instr.(*ssa.Store); ok && g.reachable(n) {
								if p := initField(g, Val{n.ctx, st.Addr}); p != "" {
									installs[p] = append(installs[p], n)
								}
							}
						}
						if len(installs) > 0 {
							ni++
							initialiser(r, u, g, f, installs, cs)
							continue
						}
						servedInitialised(r, u, g, f)
					}
				}
			}
			r.count("handlers", nh)
			r.count("initialisation handlers", ni)
			r.floor("installs-valid", 8)
			r.floor("decodes-valid", 8)
			r.floor("refused-uninitialised", 40)
			if nh < 20 || ni < 4 {
				r.ob("anchor", "handlers", false, "-", fmt.Sprintf("only %d handlers and %d initialisation handlers found", nh, ni))
			}
		})
}

func initialiser(r *Run, u *Universe, g *G, f *ssa.Function, installs map[string][]*Node, cs map[string]*Codec) {
	var refusals []*Node
	refused := map[*Node]bool{}
	wallet := false
	var entry *Node
	if len(g.root.fn.Blocks) > 0 {
		entry = g.root.first[g.root.fn.Blocks[0]]
	}
	var makers []*Node
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if !g.reachable(n) {
			return
		}
		if isRefusalCall(g, n, c, name) {
			refusals = append(refusals, n)
			refused[n] = true
		}
		if strings.HasPrefix(name, "common/pkg/fcrmessages.Decode") {
			rs := c.Common().Signature().Results()
			strs := 0
			for i := 0; i < rs.Len(); i++ {
				if b, ok := rs.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					strs++
				}
			}
			wallet = wallet || strs > 0
			if d := u.Callee(c); d != nil && d.Blocks != nil {
				decoderValid(r, u, d)
			}
		}
		if name == "common/pkg/fcrpaymentmgr.NewFCRPaymentMgr" && !n.after {
			makers = append(makers, n)
		}
	})
	parts := []string{"identifier", "key", "key version"}
	if wallet {
		parts = append(parts, "payment manager")
	}
	var exits []*Node
	for _, n := range g.root.rets {
		if g.reachable(n) {
			exits = append(exits, n)
		}
	}
	set := func(ns []*Node) map[*Node]bool {
		m := map[*Node]bool{}
		for _, n := range ns {
			m[n] = true
		}
		return m
	}
	var have []string
	for p := range installs {
		have = append(have, p)
	}
	sort.Strings(have)
	for _, p := range have {
		for _, n := range installs[p] {
			os := g.origins(Val{n.ctx, n.instr.(*ssa.Store).Val})
			good, why := len(os) > 0, "where it comes from is not recognised"
			for _, o := range os {
				if isNilConst(o.v) {
					good, why = false, "nothing is installed in its place on some way"
				} else if c, _ := callOf(o); c == nil {
					good, why = false, "it is not what a decoding or constructing call delivered ("+g.key(o).s+")"
				} else if !errNilAt(g, n, o) {
					good, why = false, "the error of "+u.CalleeName(c)+" is not known to be nil when its result is installed"
				}
			}
			r.ob("installs-valid", short(f)+": "+p, good, g.where(n), "the "+p+" is installed although "+why)
			bad := ""
			for _, m := range refusals {
				if pathBetween(n, m, func(x *Node) bool { return !g.reachable(x) }) {
					bad = g.where(m)
				}
			}
			r.ob("failure-installs-nothing", short(f)+": "+p, bad == "", g.where(n), "the request can still be refused ("+bad+") after the "+p+" was installed")
		}
	}
	for _, p := range parts {
		ok, where := true, "-"
		stops := set(installs[p])
		for _, q := range have {
			for _, n := range installs[q] {
				if q == p {
					continue
				}
				before := entry == n || avoiding(g, entry, n, stops)
				after := false
				for _, e := range exits {
					after = after || avoiding(g, n, e, stops)
				}
				if before && after {
					ok, where = false, g.where(n)
				}
			}
		}
		r.ob("installs-together", short(f)+": "+p, ok, where, "another part is installed here on a way that never installs the "+p)
		all := set(append(append([]*Node{}, installs[p]...), refusals...))
		ok, where = true, "-"
		for _, e := range exits {
			if avoiding(g, entry, e, all) {
				ok, where = false, g.where(e)
			}
		}
		r.ob("success-installs", short(f)+": "+p, ok, where, "initialisation ends without a refusal and without the "+p+" having been installed")
	}
	want := []string{"wallet", "ap", "auth"}
	for _, n := range makers {
		c := n.instr.(*ssa.Call)
		as := args(c)
		good, why := len(as) == 3, ""
		for i := 0; good && i < 3; i++ {
			field := wireField(g, cs, Val{n.ctx, as[i]})
			l := strings.ToLower(field)
			is := map[string]bool{"wallet": strings.Contains(l, "wallet"), "auth": strings.Contains(l, "auth") || strings.Contains(l, "token")}
			is["ap"] = strings.Contains(l, "lotus") && !is["auth"]
			if !is[want[i]] {
				good, why = false, fmt.Sprintf("argument %d is %q", i+1, field)
			}
		}
		r.ob("wallet-arguments", short(f), good, g.where(n), "the payment manager is made from other parts of the request than its wallet key, Lotus address and token: "+why)
	}
}

// wireField: the field of the message a value was decoded from.
func wireField(g *G, cs map[string]*Codec, v Val) string {
	out := ""
	for _, o := range g.origins(v) {
		c, i := callOf(o)
		if c == nil {
			return ""
		}
		name := g.u.CalleeName(c)
		cd := cs[strings.TrimPrefix(name, "common/pkg/fcrmessages.Decode")]
		if cd == nil || i < 0 || i >= len(cd.results) {
			return ""
		}
		for fl := range cd.results[i] {
			if strings.Contains(fl, "f:") {
				out += fl
			}
		}
	}
	return out
}

func servedInitialised(r *Run, u *Universe, g *G, f *ssa.Function) {
	keys, pay := mkFact("haskeys", Key{s: "core"}), mkFact("haspay", Key{s: "core"})
	nd := u.needs(f, map[*ssa.Function]bool{})
	ob := func(n *Node, what string, ok bool, part string) {
		r.ob("refused-uninitialised", short(f)+": "+what, ok, g.where(n), "reached on a way on which it was not checked that the node has its "+part)
	}
	var entry *Node
	for _, n := range g.nodes {
		if entry == nil {
			entry = n
		}
		if !g.reachable(n) {
			continue
		}
		if ld, ok := n.instr.(*ssa.UnOp); ok {
			if p := initField(g, Val{n.ctx, ld.X}); p != "" && !onlyComparedWithNil(ld) {
				ft, part := keys, "keys"
				if p == "payment manager" {
					ft, part = pay, "wallet"
				}
				ok := true
				for _, rf := range *ld.Referrers() {
					if b, isCmp := rf.(*ssa.BinOp); isCmp && (isNilConst(b.X) || isNilConst(b.Y)) {
						continue
					}
					un := n.ctx.nodes[rf]
					if _, isPhi := rf.(*ssa.Phi); isPhi || un == nil {
						un = n
					}
					ok = ok && (un.in == nil || un.in.top || g.hasIn(un.in, ft))
				}
				ob(n, "use of the "+p, ok, part)
			}
		}
		if gi, ok := n.instr.(*ssa.Go); ok {
			m := u.needs(goTarget(g, n.ctx, gi), map[*ssa.Function]bool{})
			if m["keys"] {
				ob(n, "starting a goroutine that uses the keys", g.hasIn(n.in, keys), "keys")
			}
			if m["wallet"] {
				ob(n, "starting a goroutine that uses the wallet", g.hasIn(n.in, pay), "wallet")
			}
		}
		if !nd["keys"] {
			continue
		}
		if what, ok := peerEffect(g, n); ok {
			ob(n, what, g.hasIn(n.in, keys), "keys")
		} else if c, ok := n.instr.(*ssa.Call); ok && !n.after && isRESTWrite(u.CalleeName(c)) {
			ob(n, "answer", g.hasIn(n.in, keys), "keys")
		}
	}
	if !nd["keys"] {
		r.count("handlers that need no keys", 1)
		return
	}
	// the way without keys ends in a refusal
	refuses := map[*Node]bool{}
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if isRefusalCall(g, n, c, name) {
			refuses[n] = true
		}
	})
	exits := g.successExits()
	bad := ""
	seen := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if seen[n] || bad != "" {
			return
		}
		seen[n] = true
		if refuses[n] || !g.reachable(n) || g.hasIn(n.in, keys) {
			return
		}
		if _, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root {
			if _, ok := exits[n]; ok {
				bad = g.where(n)
			}
			return
		}
		for _, e := range n.succs {
			if !g.hasIn(g.edgeOut(e), keys) {
				walk(e.to)
			}
		}
	}
	walk(entry)
	r.ob("refusal-answered", short(f), bad == "", bad, "a request to a node without keys ends here without a refusal")
	r.count("handlers that need keys", 1)
}

// goTarget: the function a go statement starts.
func goTarget(g *G, c *Ctx, gi *ssa.Go) *ssa.Function {
	v := g.resolve(Val{c, gi.Call.Value})
	switch x := v.v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		fn, _ := x.Fn.(*ssa.Function)
		return fn
	}
	return gi.Call.StaticCallee()
}
