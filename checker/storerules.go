package main

// P14: the in-memory offer store. A refused offer leaves no trace, an accepted one is in every index, all of it in one
// critical section; only expired offers leave; lookups leave out nothing else.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const storePkg = "common/pkg/fcroffermgr."

// indexWrite: the node adds to (or removes from) a table or ring of the store.
func indexWrite(g *G, n *Node) (what string, add bool) {
	if n.after {
		return "", false
	}
	inStore := func(v Val) string {
		for _, o := range g.origins(v) {
			for k := 0; k < 10; k++ {
				u, ok := o.v.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					break
				}
				o = g.resolve(Val{o.ctx, u.X})
			}
			if fa, ok := o.v.(*ssa.FieldAddr); ok {
				if t := typeFull(fa.X.Type()); strings.HasPrefix(t, storePkg) {
					return t[len(storePkg):] + "." + fieldName(fa.X.Type(), fa.Field)
				}
			}
		}
		return ""
	}
	switch x := n.instr.(type) {
	case *ssa.MapUpdate:
		return inStore(Val{n.ctx, x.Map}), true
	case ssa.CallInstruction:
		name := g.u.CalleeName(x)
		switch {
		case name == "builtin.delete":
			return inStore(Val{n.ctx, args(x)[0]}), false
		case strings.HasPrefix(name, "common/pkg/dhtring.Ring."):
			m := name[strings.LastIndex(name, ".")+1:]
			if m == "Insert" || m == "Remove" {
				return inStore(Val{n.ctx, args(x)[0]}), m == "Insert"
			}
		}
	}
	return "", false
}

// offerTable: the map holds offers.
func offerTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isOfferType(m.Elem())
}

// tableOfTables: the map holds pointers to structures that hold offers.
func tableOfTables(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	p, ok := m.Elem().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if offerTable(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// cidOfTable: the name of the content identifier (as a string key) under which the table that owns this map is kept.
func cidOfTable(g *G, m Val) (string, *Key) {
	m = g.resolve(m)
	u, ok := m.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "the table is not the one kept under a content identifier", nil
	}
	fa, ok := g.resolve(Val{m.ctx, u.X}).v.(*ssa.FieldAddr)
	if !ok {
		return "the table is not the one kept under a content identifier", nil
	}
	owner := Val{g.resolve(Val{m.ctx, u.X}).ctx, fa.X}
	var key *Key
	set := func(k Key) bool {
		if key != nil && key.s != k.s {
			return false
		}
		key = &k
		return true
	}
	for _, o := range g.origins(owner) {
		switch x := o.v.(type) {
		case *ssa.Lookup:
			if !set(g.key(Val{o.ctx, x.Index})) {
				return "the table may be the one of another content identifier", nil
			}
		case *ssa.Extract:
			lk, ok := x.Tuple.(*ssa.Lookup)
			if !ok {
				return "the table is not the one kept under a content identifier", nil
			}
			if !set(g.key(Val{o.ctx, lk.Index})) {
				return "the table may be the one of another content identifier", nil
			}
		case *ssa.Alloc:
			// a new one: stored under the key
			found := false
			for _, n := range g.nodes {
				if mu, ok := n.instr.(*ssa.MapUpdate); ok && !n.after {
					for _, vo := range g.origins(Val{n.ctx, mu.Value}) {
						if vo == o {
							found = true
							if !set(g.key(Val{n.ctx, mu.Key})) {
								return "a new table is kept under another content identifier", nil
							}
						}
					}
				}
			}
			if !found {
				return "a new table is not kept", nil
			}
		default:
			return "the table is not the one kept under a content identifier", nil
		}
	}
	if key == nil {
		return "the table is not the one kept under a content identifier", nil
	}
	return "", key
}

func init() {
	register("P14", guardTech+" The functions that add an offer are walked path by path with what they have changed so far: no change before a refusal, all changes in one critical section; must-facts about all elements decide that an accepted offer is in the table of each of its content identifiers.", []string{"common", "gateway", "provider"}, func(r *Run) {
		ws, _ := guardProperty(r, []string{"common"})
		r.floor("guarded", 4)
		u := r.U("common")
		r.rule("refused-no-trace", "no path to a return with an error has changed an index")
		r.rule("one-section", "all changes an addition makes to the indexes happen within one uninterrupted holding of one exclusive lock")
		r.rule("decided-inside", "the finding that an offer is new was made within the critical section of the changes that follow from it")
		r.rule("stored-everywhere", "when an addition succeeds, the offer was put under its own digest into the table of each of its content identifiers (or was there already)")
		r.rule("ring-with-table", "when an addition to a storage with a ring succeeds, the content identifier was inserted into the ring")
		r.rule("only-expired-leave", "an offer is removed from a table only if it was found expired")
		r.rule("leaves-everywhere", "an offer that is removed is removed from the table of each of its content identifiers")
		r.rule("lookup-complete", "a lookup going over a table leaves out an offer only if it has expired")
		var adds []*ssa.Function
		for _, f := range u.Funcs {
			if f.Pkg == nil || f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(FuncName(f), storePkg) {
				continue
			}
			opaque := func(name string, k *ssa.Function) bool { return !strings.HasPrefix(name, storePkg) }
			var offer Val
			cfg := &Config{Opaque: opaque, CallFacts: func(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
				if name == "common/pkg/cidoffer.CIDOffer.HasExpired" {
					k := g.objkey(Val{c, args(call)[0]})
					return []CondFact{{0, True, mkFact("expired", k)}, {0, False, mkFact("fresh", k)}}
				}
				return nil
			}}
			cfg.NodeGen = func(g *G, n *Node) []Fact {
				switch x := n.instr.(type) {
				case *ssa.MapUpdate:
					if n.after || !offerTable(x.Map.Type()) || offer.v == nil || g.resolve(Val{n.ctx, x.Value}) != offer {
						return nil
					}
					if g.key(Val{n.ctx, x.Key}).s != "common/pkg/cidoffer.CIDOffer.GetMessageDigest("+g.objkey(offer).s+")" {
						return nil
					}
					if why, k := cidOfTable(g, Val{n.ctx, x.Map}); why == "" {
						return []Fact{mkFact("stored", *k)}
					}
				case *ssa.Call:
					if w, add := indexWrite(g, n); w != "" && add && strings.HasPrefix(g.u.CalleeName(x), "common/pkg/dhtring.") {
						return []Fact{mkFact("ringed", g.key(Val{n.ctx, args(x)[1]}))}
					}
					if g.u.CalleeName(x) == "builtin.delete" && offerTable(args(x)[0].Type()) && !n.after {
						if why, k := cidOfTable(g, Val{n.ctx, args(x)[0]}); why == "" {
							return []Fact{mkFact("removed", *k)}
						}
					}
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && !n.after {
						var out []Fact
						for _, v := range appended(g, n.ctx, x) {
							out = append(out, mkFact("listed", g.objkey(v)))
						}
						return out
					}
				case *ssa.Return:
					if offer.v != nil && n.in != nil && !n.in.top && storedEverywhere(g, n.in, offer) {
						return []Fact{mkFact("placed", g.objkey(offer))}
					}
				}
				return nil
			}
			cfg.EdgeGen = func(g *G, st *FSet) []Fact {
				if offer.v == nil || st.top {
					return nil
				}
				var out []Fact
				for _, m := range g.nodes {
					// found there already
					lk, ok := m.instr.(*ssa.Lookup)
					if !ok || !offerTable(lk.X.Type()) || g.key(Val{m.ctx, lk.Index}).s != "common/pkg/cidoffer.CIDOffer.GetMessageDigest("+g.objkey(offer).s+")" {
						continue
					}
					f := mkFact("inmap", g.key(Val{m.ctx, lk.X}), g.key(Val{m.ctx, lk.Index}))
					if i, ok := g.index[f.String()]; ok && st.m[i] {
						if why, k := cidOfTable(g, Val{m.ctx, lk.X}); why == "" {
							out = append(out, mkFact("stored", *k))
						}
					}
				}
				if storedEverywhere(g, st, offer) {
					out = append(out, mkFact("placed", g.objkey(offer)))
				}
				return out
			}
			for _, p := range f.Params {
				if isOfferType(p.Type()) {
					offer = Val{nil, p}
				}
			}
			g := &G{u: u, cfg: cfg}
			_ = g
			gg := newGWith(u, f, cfg, func(g *G) {
				if offer.v != nil {
					offer.ctx = g.root
				}
			})
			r.count("graph nodes", len(gg.nodes))
			writes := map[*Node]string{}
			adding := false
			for _, n := range gg.nodes {
				if w, add := indexWrite(gg, n); w != "" && gg.reachable(n) {
					writes[n] = w
					adding = adding || add
				}
			}
			lookupRules(r, gg, f)
			if !adding {
				continue
			}
			adds = append(adds, f)
			con := short(f)
			if offer.v == nil {
				r.ob("stored-everywhere", con, false, u.Pos(f.Pos()), "adds to the index, but takes no offer")
				continue
			}
			// path by path
			trace, split, decided := map[string]bool{}, "", ""
			x := walkMarks(ws[0], gg, func(x *lockRun, n *Node, s *lstate) *lstate {
				s = s.unmark(func(m string) bool {
					if !strings.HasPrefix(m, "sec:") && !strings.HasPrefix(m, "dec:") || m == "dec:" {
						return false
					}
					for _, h := range s.held {
						if h.excl && m[:4]+h.key+"@"+gg.where(h.at) == m {
							return false
						}
					}
					return true
				})
				// the latest look at whether the offer is already there
				if lk, ok := n.instr.(*ssa.Lookup); ok && !n.after && offerTable(lk.X.Type()) {
					s = s.unmark(func(m string) bool { return strings.HasPrefix(m, "dec:") })
					s = s.mark("dec:")
					for _, h := range s.held {
						if h.excl {
							s = s.mark("dec:" + h.key + "@" + gg.where(h.at))
						}
					}
				}
				w := writes[n]
				if w == "" {
					return s
				}
				if s.marked("dec:") && decided == "" {
					in := false
					for _, h := range s.held {
						in = in || h.excl && s.marked("dec:"+h.key+"@"+gg.where(h.at))
					}
					if !in {
						decided = gg.where(n) + " (" + w + ")"
					}
				}
				if c, ok := n.instr.(*ssa.Call); ok && strings.HasPrefix(u.CalleeName(c), "common/pkg/dhtring.") && isCIDOf(gg.key(Val{n.ctx, args(c)[1]}).s, gg, offer) {
					s = s.mark("ring")
				}
				first := true
				for _, m := range s.marks {
					if strings.HasPrefix(m, "w:") {
						first = false
					}
				}
				held := map[string]bool{}
				for _, h := range s.held {
					if h.excl {
						held["sec:"+h.key+"@"+gg.where(h.at)] = true
					}
				}
				if first {
					for k := range held {
						s = s.mark(k)
					}
				}
				s = s.unmark(func(m string) bool { return strings.HasPrefix(m, "sec:") && !held[m] })
				any := false
				for _, m := range s.marks {
					any = any || strings.HasPrefix(m, "sec:")
				}
				if !any && split == "" {
					split = gg.where(n) + " (" + w + ")"
				}
				return s.mark("w:" + w)
			})
			if x.capped {
				r.ob("bounded", con, false, u.Pos(f.Pos()), "too many states")
			}
			nerr := 0
			for _, rn := range gg.root.rets {
				res := rn.instr.(*ssa.Return).Results
				if len(res) == 0 {
					continue
				}
				last := res[len(res)-1]
				for _, s := range x.states(rn) {
					isN, known := x.isNil(gg.root, last, s)
					if known && isN {
						continue
					}
					nerr++
					for _, m := range s.marks {
						if strings.HasPrefix(m, "w:") {
							trace[m[2:]] = true
						}
					}
				}
			}
			var tr []string
			for k := range trace {
				tr = append(tr, k)
			}
			sort.Strings(tr)
			r.ob("refused-no-trace", con, len(tr) == 0, u.Pos(f.Pos()), "can return an error after it has changed "+strings.Join(tr, ", "))
			r.count("refusing paths", nerr)
			r.ob("one-section", con, split == "", u.Pos(f.Pos()), "the change at "+split+" is not in the critical section of the changes before it")
			r.ob("decided-inside", con, decided == "", u.Pos(f.Pos()), "the change at "+decided+" is not in the critical section in which it was found out that the offer is new")
			// what holds on success
			hasRing := false
			for _, w := range writes {
				if strings.Contains(strings.ToLower(w), "ring") {
					hasRing = true
				}
			}
			ok, okRing, why := true, true, ""
			nsucc := 0
			for _, rn := range gg.root.rets {
				if !gg.reachable(rn) {
					continue
				}
				res := rn.instr.(*ssa.Return).Results
				if hasRing && len(ringed(gg, rn.in, offer)) == 0 {
					for _, s := range x.states(rn) {
						fails := false
						if len(res) > 0 {
							isN, known := x.isNil(gg.root, res[len(res)-1], s)
							fails = known && !isN
						}
						if !fails && !s.marked("ring") {
							okRing = false
						}
					}
				}
				judge := func(st *FSet) {
					nsucc++
					if !storedEverywhere(gg, st, offer) {
						ok, why = false, "an addition can succeed without the offer being in the table of each of its content identifiers"
					}
				}
				if len(res) == 0 {
					judge(rn.in)
					continue
				}
				may := false
				for _, s := range x.states(rn) {
					if isN, known := x.isNil(gg.root, res[len(res)-1], s); isN || !known {
						may = true
					}
				}
				if !may {
					continue
				}
				v := Val{gg.root, res[len(res)-1]}
				gg.ways(rn.in, v, func(st *FSet, v Val, leaf bool) bool {
					if isNilConst(v.v) {
						judge(rn.in.union(st))
						return true
					}
					return false
				})
			}
			if nsucc == 0 {
				ok, why = false, "no successful return was recognised"
			}
			r.ob("stored-everywhere", con, ok, u.Pos(f.Pos()), why)
			if hasRing {
				r.ob("ring-with-table", con, okRing, u.Pos(f.Pos()), "an addition can succeed without the content identifier having been inserted into the ring")
			}
		}
		if len(adds) < 2 {
			r.ob("anchor", "additions", false, "-", "fewer than two functions adding offers found")
		}
		r.floor("only-expired-leave", 1)
		r.floor("lookup-complete", 2)
		r.floor("ring-with-table", 1)
	})
}

// newGWith: like NewG, with something to do before the graph is solved.
func newGWith(u *Universe, f *ssa.Function, cfg *Config, before func(g *G)) *G {
	g := NewG(u, f, cfg)
	before(g)
	g.Solve()
	return g
}

// appended: the values a variadic append adds one by one.
func appended(g *G, c *Ctx, call *ssa.Call) []Val {
	if len(call.Call.Args) < 2 {
		return nil
	}
	sl, ok := g.resolve(Val{c, call.Call.Args[1]}).v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var out []Val
	for _, rf := range *al.Referrers() {
		ia, ok := rf.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				out = append(out, Val{c, st.Val})
			}
		}
	}
	return out
}

func storedEverywhere(g *G, st *FSet, offer Val) bool {
	if st.top {
		return true
	}
	ko := g.objkey(offer).s
	cids := "common/pkg/cidoffer.CIDOffer.GetCIDs(" + ko + ")"
	digest := "common/pkg/cidoffer.CIDOffer.GetMessageDigest(" + ko + ")"
	for k := range st.m {
		f := &g.facts[k]
		switch f.pred {
		case "placed":
			if f.args[0] == ko {
				return true
			}
		case "all:stored":
			if f.args[0] == "common/pkg/cid.ContentID.ToString("+cids+"[*])" {
				return true
			}
		case "inmap":
			if f.args[1] == digest && strings.Contains(f.args[0], "common/pkg/cid.ContentID.ToString("+cids+"[") {
				return true
			}
		}
	}
	return false
}

func ringed(g *G, st *FSet, offer Val) []string {
	if st.top {
		return []string{"unreachable"}
	}
	var out []string
	for k := range st.m {
		f := &g.facts[k]
		if (f.pred == "ringed" || f.pred == "all:ringed") && isCIDOf(f.args[0], g, offer) {
			out = append(out, f.args[0])
		}
	}
	return out
}

// lookupRules: what leaves the tables, and what lookups leave out.
func lookupRules(r *Run, g *G, f *ssa.Function) {
	for _, n := range g.nodes {
		if n.after || !g.reachable(n) {
			continue
		}
		if c, ok := n.instr.(*ssa.Call); ok && g.u.CalleeName(c) == "builtin.delete" && offerTable(args(c)[0].Type()) {
			// the digest of an offer known to have expired, or of an element of a list of such offers
			k := g.key(Val{n.ctx, args(c)[1]}).s
			good := false
			pre := "common/pkg/cidoffer.CIDOffer.GetMessageDigest("
			if strings.HasPrefix(k, pre) {
				obj := k[len(pre) : len(k)-1]
				good = len(g.factsAbout(n.in, "expired", obj)) > 0
				if dc, ok := g.resolve(Val{n.ctx, args(c)[1]}).v.(*ssa.Call); ok && !good {
					rv := g.resolve(Val{n.ctx, args(c)[1]})
					if src, ok := elementOf(g, Val{rv.ctx, args(dc)[0]}); ok {
						good = allExpired(g, src)
					}
				}
			}
			r.ob("only-expired-leave", FuncName(n.ctx.fn), good, g.where(n), "an offer is removed that was not found to have expired")
			if good {
				r.ob("leaves-everywhere", short(f)+": "+FuncName(n.ctx.fn), leavesEverywhere(g, n, k[len(pre):len(k)-1]), g.where(n), "the offer need not be removed from the table of each of its content identifiers")
			}
		}
		if c, ok := n.instr.(*ssa.Call); ok && g.u.CalleeName(c) == "builtin.delete" && tableOfTables(args(c)[0].Type()) {
			r.ob("only-expired-leave", FuncName(n.ctx.fn)+" whole table", false, g.where(n), "all offers of a content identifier are removed")
		}
		// an index of an existing storage is replaced, with everything in it
		if st, ok := n.instr.(*ssa.Store); ok {
			if fa, ok := g.resolve(Val{n.ctx, st.Addr}).v.(*ssa.FieldAddr); ok && strings.HasPrefix(typeFull(fa.X.Type()), storePkg) {
				t := st.Val.Type()
				if offerTable(t) || tableOfTables(t) || strings.HasSuffix(t.String(), "dhtring.Ring") {
					fresh := true
					for _, o := range g.origins(Val{g.resolve(Val{n.ctx, st.Addr}).ctx, fa.X}) {
						if _, ok := o.v.(*ssa.Alloc); !ok {
							fresh = false
						}
					}
					r.ob("only-expired-leave", FuncName(n.ctx.fn)+" "+fieldName(fa.X.Type(), fa.Field), fresh, g.where(n), "the whole "+fieldName(fa.X.Type(), fa.Field)+" of an existing storage is replaced, whether or not what is in it has expired")
				}
			}
		}
		// loops over a table of offers
		nx, ok := n.instr.(*ssa.Next)
		if !ok {
			continue
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok || !offerTable(rg.X.Type()) {
			continue
		}
		var elem Val
		for _, ex := range extracts(nx) {
			if ex.Index == 2 {
				elem = Val{n.ctx, ex}
			}
		}
		if elem.v == nil {
			continue
		}
		h := nx.Block()
		k := g.objkey(elem).s
		good := true
		for _, e := range n.ctx.first[h].preds {
			if e.from.ctx != n.ctx || e.fromBlk == nil || !h.Dominates(e.fromBlk) {
				continue
			}
			st := g.edgeOut(e)
			if st.top {
				continue
			}
			if len(g.factsAbout(st, "expired", k)) == 0 && len(g.factsAbout(st, "listed", k)) == 0 {
				good = false
			}
		}
		r.ob("lookup-complete", short(f)+" in "+FuncName(n.ctx.fn), good, g.where(n), "an offer in the table is passed over although it has not expired")
	}
}

// leavesEverywhere: the removal happens in a loop over all content identifiers of the offer, each time round, from the table of that identifier.
func leavesEverywhere(g *G, n *Node, obj string) bool {
	list := "common/pkg/cidoffer.CIDOffer.GetCIDs(" + obj + ")"
	at := n.instr
	for c := n.ctx; c != nil; at, c = c.site, c.parent {
		for _, h := range c.fn.Blocks {
			li := g.loopAt(h)
			if li == nil || !li.blocks[at.Block()] || g.objkey(Val{c, li.src}).s != list {
				continue
			}
			d := c.first[li.done]
			if d == nil || !g.reachable(d) || li.breaks() {
				continue
			}
			for _, e := range d.preds {
				if e.from.ctx != c || e.fromBlk != h {
					continue
				}
				if st := g.edgeOut(e); st.top || g.hasIn(st, Fact{pred: "all:removed", args: []string{"common/pkg/cid.ContentID.ToString(" + list + "[*])"}}) {
					return true
				}
			}
		}
		if c.site == nil {
			break
		}
	}
	return false
}

// allExpired: everything ever put into the local list was known to have expired.
func allExpired(g *G, src Val) bool {
	n := 0
	good := true
	seen := map[Val]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		for _, o := range g.origins(v) {
			if seen[o] {
				continue
			}
			seen[o] = true
			switch x := o.v.(type) {
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "append" {
					good = false
					continue
				}
				at := o.ctx.nodes[x]
				for _, v := range appended(g, o.ctx, x) {
					n++
					if at.in == nil || !at.in.top && len(g.factsAbout(at.in, "expired", g.objkey(v).s)) == 0 {
						good = false
					}
				}
				walk(Val{o.ctx, x.Call.Args[0]})
			case *ssa.MakeSlice, *ssa.Const:
			case *ssa.Slice:
				walk(Val{o.ctx, x.X})
			case *ssa.Alloc:
			default:
				good = false
			}
		}
	}
	walk(src)
	return good && n > 0
}

// isCIDOf: the name is that of the string form of a content identifier of the offer.
func isCIDOf(k string, g *G, offer Val) bool {
	return strings.HasPrefix(k, "common/pkg/cid.ContentID.ToString(common/pkg/cidoffer.CIDOffer.GetCIDs("+g.objkey(offer).s+")[")
}
