package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// crashEntries: where values received from the network enter.
func crashEntries(u *Universe) []*ssa.Function {
	var out []*ssa.Function
	add := func(fs []*ssa.Function) { out = append(out, fs...) }
	add(u.handlers(hPeer))
	add(u.handlers(hREST))
	add(u.handlers(hRequester))
	for _, f := range receiveFrames(u) {
		add([]*ssa.Function{f})
	}
	for _, f := range u.Funcs {
		if f.Pkg == nil || !isRepoFunc(f) || len(f.Blocks) == 0 {
			continue
		}
		name := FuncName(f)
		switch {
		case f.Object() != nil && (f.Name() == "UnmarshalJSON" || f.Name() == "MarshalJSON"):
			out = append(out, f)
		case strings.HasPrefix(name, "common/pkg/fcrp2pserver.") || strings.HasPrefix(name, "common/pkg/fcrrestserver.") || strings.HasPrefix(name, "common/pkg/fcrregistermgr.") || strings.HasPrefix(name, "common/pkg/fcrpaymentmgr.") ||
			strings.HasPrefix(name, "common/pkg/request.") || strings.HasPrefix(name, "common/pkg/register."),
			strings.HasPrefix(name, "client/pkg/fcrclient."), strings.HasPrefix(name, "gateway-admin/pkg/"), strings.HasPrefix(name, "provider-admin/pkg/"):
			if f.Parent() == nil && f.Object() != nil && (f.Object().Exported() || startedByGo(u, f)) || f.Parent() != nil {
				out = append(out, f)
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var res []*ssa.Function
	for _, f := range out {
		if !seen[f] {
			seen[f] = true
			res = append(res, f)
		}
	}
	return res
}

const crashTech = "Every function that receives or takes apart something from the network (peer and REST handlers, requesters, the connection loop and frame reader, JSON methods, exported functions of the client libraries) is expanded with its helpers and solved for must-facts (nil tests and error results, comparisons, membership). Each place where Go panics is an obligation: use of a pointer, interface, function or map that may be nil, index or slice bounds, type assertion, division, length of an allocation, explicit panic or exit. Nilness is followed through results paired with errors, fields never set where a value is made, map lookups; bounds are decided by a difference-bound closure over the comparisons known there."

// touchesNetwork: a message handler or JSON method, or something that receives.
func touchesNetwork(g *G) bool {
	f := g.entry
	if strings.HasPrefix(FuncName(f), "common/pkg/fcrpaymentmgr.") {
		return true
	}
	if f.Name() == "UnmarshalJSON" || f.Name() == "MarshalJSON" {
		return true
	}
	for _, p := range f.Params {
		if strings.HasSuffix(typeFull(p.Type()), "fcrmessages.FCRMessage") || strings.HasSuffix(typeFull(p.Type()), "net.Conn") {
			return true
		}
	}
	found := false
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if strings.Contains(name, ".SendMessage") || strings.Contains(name, ".GetJSON") || strings.Contains(name, ".SendJSON") || strings.Contains(name, ".Request") || strings.Contains(name, "readTCPMessage") || strings.HasPrefix(name, "net/http.") || strings.HasPrefix(name, "io.Read") || strings.HasPrefix(name, "io/ioutil.Read") || strings.HasPrefix(name, "(net.Conn).") || strings.HasPrefix(name, "net.Conn.") {
			found = true
		}
	})
	return found
}

// startedByGo: some function starts it as a goroutine.
func startedByGo(u *Universe, f *ssa.Function) bool {
	if f.Referrers() != nil {
		for _, rf := range *f.Referrers() {
			if _, ok := rf.(*ssa.Go); ok {
				return true
			}
		}
	}
	for _, h := range u.Funcs {
		for _, b := range h.Blocks {
			for _, ins := range b.Instrs {
				if gi, ok := ins.(*ssa.Go); ok && gi.Call.StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("P18", crashTech, allMods, func(r *Run) {
		r.rule("nil", "a pointer, interface, function value or map that may be nil is not used")
		r.rule("index", "an index or slice bound is known to be within the length")
		r.rule("assert", "a type assertion is made in its checked form, or after the type was checked")
		r.rule("divide", "an integer is divided only by a number known not to be zero")
		r.rule("alloc", "the length of an allocation is not negative and is the length of something already there or bounded by a constant")
		r.rule("panic", "no explicit panic, fatal log or exit is reachable")
		r.rule("offer-not-empty", "an offer has at least one content identifier, however it was made")
		for _, mod := range allMods {
			u := r.U(mod)
			w := newNilWorld(u)
			ne := map[string]bool{}
			if of := "common/pkg/cidoffer.CIDOffer.cids"; neverEmpty(r, u, of) {
				ne[of] = true
			}
			for _, f := range crashEntries(u) {
				opaque := crashOpaque
				if strings.HasPrefix(FuncName(f), "common/pkg/fcrpaymentmgr.") {
					opaque = nil
				}
				g := NewG(u, f, &Config{Opaque: opaque, ValueFacts: true, NonEmpty: ne, NodeGen: filledEntry, NodeKill: deletedEntry})
				if !touchesNetwork(g) {
					continue
				}
				g.Solve()
				type site struct{ rule, fn string }
				checked := map[site]int{}
				failed := map[site]bool{}
				ob := func(n *Node, rule, what, why string) {
					fn := FuncName(n.ctx.fn)
					if !isRepoFunc(n.ctx.fn) && n.ctx.fn.Pkg != nil {
						return
					}
					checked[site{rule, fn}]++
					if why != "" {
						failed[site{rule, fn}] = true
						r.ob(rule, fn+": "+what, false, g.where(n), why)
					}
				}
				for _, n := range g.nodes {
					if !g.reachable(n) || n.after {
						continue
					}
					crashSites(g, w, n, ob)
				}
				for s, k := range checked {
					r.count("sites "+s.rule, k)
					if !failed[s] {
						r.ob(s.rule, s.fn+" in "+FuncName(f), true, "", "")
					}
				}
				r.count("graph nodes", len(g.nodes))
				r.count("entries", 1)
			}
		}
		r.floor("nil", 100)
		r.floor("index", 20)
	})
}

// crashSites: the obligations of one node.
func crashSites(g *G, w *nilWorld, n *Node, ob func(n *Node, rule, what, why string)) {
	c := n.ctx
	switch n.instr.(type) {
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Slice:
		if _, isMap := n.instr.(*ssa.Lookup); !isMap || isString(n.instr.(*ssa.Lookup).X.Type()) {
			why := outOfBounds(g, n)
			ob(n, "index", why, why)
		}
	}
	for _, v := range derefs(g, n) {
		why := w.mayNilAt(g, n, v)
		ob(n, "nil", shortT(v.v.Type()), why)
	}
	switch x := n.instr.(type) {
	case *ssa.MapUpdate:
		why := w.mayNilAt(g, n, Val{c, x.Map})
		ob(n, "nil", "write to "+shortT(x.Map.Type()), why)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			why := ""
			if !g.hasIn(n.in, mkFact("isa:"+shortT(x.AssertedType), g.key(Val{c, x.X}))) && !g.isType(Val{c, x.X}, x.AssertedType) {
				why = "the value may be of another type"
			}
			ob(n, "assert", shortT(x.AssertedType), why)
		}
	case *ssa.BinOp:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (x.Op == token.QUO || x.Op == token.REM) {
			if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) != 0 {
				return
			}
			b := newBounds(g, n.in)
			b.learn(Val{c, x.Y}, map[Val]bool{})
			why := ""
			if !b.known(lterm{"", 1}, g.linOf(Val{c, x.Y}), 0) && !b.known(g.linOf(Val{c, x.Y}), lterm{"", -1}, 0) && !g.lower(Val{c, x.Y}, 1, map[Val]bool{}) {
				why = "the divisor may be zero"
			}
			ob(n, "divide", x.Op.String(), why)
		}
	case *ssa.MakeSlice:
		why := ""
		for _, l := range []ssa.Value{x.Len, x.Cap} {
			if w := g.badLength(n.in, Val{c, l}); w != "" {
				why = w
			}
		}
		ob(n, "alloc", shortT(x.Type()), why)
	case *ssa.Panic:
		// the offer store panics if its tables disagree, which P14 excludes
		if x.Pos().IsValid() && !strings.HasPrefix(FuncName(c.fn), "common/pkg/fcroffermgr.") {
			ob(n, "panic", "panic", "an explicit panic is reachable")
		}
	case ssa.CallInstruction:
		name := g.u.CalleeName(x)
		switch {
		case name == "os.Exit", strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "log.Panic"), name == "log.Logger.Fatal", name == "runtime.Goexit", name == "common/pkg/logging.ErrorAndPanic":
			ob(n, "panic", name, name+" is reachable")
		}
	}
}

// isType: the value was made with that type.
func (g *G) isType(v Val, t types.Type) bool {
	os := g.origins(v)
	for _, o := range os {
		mi, ok := o.v.(*ssa.MakeInterface)
		if !ok || !types.Identical(mi.X.Type(), t) {
			if o.v != nil && types.Identical(o.v.Type(), t) {
				continue
			}
			return false
		}
	}
	return len(os) > 0
}

// badLength: why the length of an allocation may be negative or as large as the network says.
func (g *G) badLength(st *FSet, v Val) string {
	v = g.resolve(v)
	b := newBounds(g, st)
	b.learn(v, map[Val]bool{})
	if !b.known(lterm{"", 0}, g.linOf(v), 0) && !g.lower(v, 0, map[Val]bool{}) {
		return "the length may be negative"
	}
	if b.bounded(g.linOf(v)) || g.smallByMaking(v, map[Val]bool{}) {
		return ""
	}
	return "the length is not bounded by a constant or by the length of something already there"
}

// bounded: at most a constant, or at most the length of something.
func (b *bounds) bounded(x lterm) bool {
	if x.k == "" || strings.HasPrefix(x.k, "builtin.len(") || strings.HasPrefix(x.k, "builtin.cap(") {
		return true
	}
	seen := map[string]bool{x.k: true}
	queue := []string{x.k}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		for _, e := range b.e[t] {
			if e.to == "" || strings.HasPrefix(e.to, "builtin.len(") || strings.HasPrefix(e.to, "builtin.cap(") {
				return true
			}
			if !seen[e.to] {
				seen[e.to] = true
				queue = append(queue, e.to)
			}
		}
	}
	return false
}

func (g *G) smallByMaking(v Val, seen map[Val]bool) bool {
	v = g.resolve(v)
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !g.smallByMaking(Val{v.ctx, e}, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return g.smallByMaking(Val{v.ctx, x.X}, seen) && g.smallByMaking(Val{v.ctx, x.Y}, seen)
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && intWidth(b) <= 16 {
			return true
		}
		return g.smallByMaking(Val{v.ctx, x.X}, seen)
	case *ssa.Call:
		n := g.u.CalleeName(x)
		return lengthCall(n)
	}
	return false
}

func crashOpaque(name string, f *ssa.Function) bool {
	if name == "common/pkg/nodeid.NodeID.ToString" || name == "common/pkg/cid.ContentID.ToString" {
		return true
	}
	if strings.HasPrefix(name, "common/pkg/fcrcrypto.") && (strings.Contains(name, "Generate") || strings.Contains(name, "PRNG") || strings.Contains(name, "andomImpl") || strings.Contains(name, ".Random.")) {
		return true // nothing received goes in
	}
	return strings.HasPrefix(name, "common/pkg/fcrpaymentmgr.") || strings.HasPrefix(name, "common/pkg/offermgr.") || strings.HasPrefix(name, "common/pkg/dhtring.")
}

// outOfBounds: how the instruction may index or slice beyond what is there.
func outOfBounds(g *G, n *Node) string {
	if n.after {
		return ""
	}
	c := n.ctx
	switch x := n.instr.(type) {
	case *ssa.IndexAddr:
		return g.indexFailure(n.in, Val{c, x.Index}, Val{c, x.X})
	case *ssa.Index:
		return g.indexFailure(n.in, Val{c, x.Index}, Val{c, x.X})
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return g.indexFailure(n.in, Val{c, x.Index}, Val{c, x.X})
		}
	case *ssa.Slice:
		b := newBounds(g, n.in)
		seen := map[Val]bool{}
		b.learn(Val{c, x.X}, seen)
		for _, v := range []ssa.Value{x.Low, x.High} {
			if v != nil {
				b.learn(Val{c, v}, seen)
			}
		}
		length := g.lenOf(Val{c, x.X})
		low := lterm{"", 0}
		if x.Low != nil {
			low = g.linOf(Val{c, x.Low})
			if !b.known(lterm{"", 0}, low, 0) && !g.lower(Val{c, x.Low}, 0, map[Val]bool{}) {
				return "the start may be negative"
			}
		}
		high := length
		if x.High != nil {
			high = g.linOf(Val{c, x.High})
			if !b.known(high, length, 0) {
				return "the end is not known to be within the length"
			}
		}
		if x.Low != nil && !b.known(low, high, 0) || x.Low == nil && x.High != nil && !b.known(low, high, 0) && !g.lower(Val{c, x.High}, 0, map[Val]bool{}) {
			return "the start is not known to be at or before the end"
		}
	}
	return ""
}

// filledEntry: an entry just put into a map is there.
func filledEntry(g *G, n *Node) []Fact {
	mu, ok := n.instr.(*ssa.MapUpdate)
	if !ok {
		return nil
	}
	switch g.resolve(Val{n.ctx, mu.Value}).v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.MakeInterface, *ssa.Function, *ssa.MakeClosure:
		return []Fact{mkFact("inmap", g.key(Val{n.ctx, mu.Map}), g.key(Val{n.ctx, mu.Key}))}
	}
	return nil
}

func deletedEntry(g *G, n *Node, f *Fact) bool {
	c, ok := n.instr.(*ssa.Call)
	if !ok || f.pred != "inmap" {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "delete"
}
