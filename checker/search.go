package main

// P09: every offer a client's search returns was verified.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func mentionsType(t types.Type, name string, depth int) bool {
	if depth > 6 {
		return false
	}
	if typeFull(t) == name {
		return true
	}
	switch x := t.(type) {
	case *types.Pointer:
		return mentionsType(x.Elem(), name, depth+1)
	case *types.Slice:
		return mentionsType(x.Elem(), name, depth+1)
	case *types.Array:
		return mentionsType(x.Elem(), name, depth+1)
	case *types.Map:
		return mentionsType(x.Elem(), name, depth+1)
	case *types.Named:
		return mentionsType(x.Underlying(), name, depth+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if mentionsType(x.Field(i).Type(), name, depth+1) {
				return true
			}
		}
	}
	return false
}

const tSubOffer = "common/pkg/cidoffer.SubCIDOffer"

// collected: a walk over everything a returned collection may contain.
type collected struct {
	g     *G
	seen  map[Val]bool
	elem  func(n *Node, v Val)              // an element put in at node n
	all   func(n *Node, v Val) (known bool) // a whole collection of unknown making, used at node n
	bad   func(n *Node, v Val, what string)
	elemT string
}

func (w *collected) nodeOf(c *Ctx, ins ssa.Instruction) *Node { return c.nodes[ins] }

// walk visits the collection v as it is at node n.
func (w *collected) walk(n *Node, v Val) {
	g := w.g
	v = g.resolve(v)
	if w.seen[v] {
		return
	}
	w.seen[v] = true
	switch x := v.v.(type) {
	case *ssa.Const:
		return
	case *ssa.MakeSlice:
		w.stores(v)
		return
	case *ssa.MakeMap:
		w.stores(v)
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.walk(n, Val{v.ctx, e})
		}
		return
	case *ssa.Alloc:
		w.alloc(n, v, x)
		return
	case *ssa.Slice:
		w.walk(n, Val{v.ctx, x.X})
		return
	case *ssa.UnOp:
		a := g.resolve(Val{v.ctx, x.X})
		switch y := a.v.(type) {
		case *ssa.Alloc:
			w.alloc(n, a, y)
			return
		case *ssa.FieldAddr:
			// a field of a local structure
			base := g.resolve(Val{a.ctx, y.X})
			if al, ok := base.v.(*ssa.Alloc); ok && w.fieldStores(n, base, al, y.Field) {
				return
			}
		}
	case *ssa.FieldAddr:
		base := g.resolve(Val{v.ctx, x.X})
		if al, ok := base.v.(*ssa.Alloc); ok && w.fieldStores(n, base, al, x.Field) {
			return
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			at := w.nodeOf(v.ctx, x)
			w.walk(at, Val{v.ctx, x.Call.Args[0]})
			w.walk(at, Val{v.ctx, x.Call.Args[1]})
			return
		}
		if rs := g.results(v.ctx, x, 0); len(rs) > 0 {
			for i, r := range rs {
				w.walk(v.ctx.children[x].rets[i], r)
			}
			return
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if rs := g.results(v.ctx, call, x.Index); len(rs) > 0 {
				for i, r := range rs {
					w.walk(v.ctx.children[call].rets[i], r)
				}
				return
			}
		}
	}
	if w.all != nil && w.all(n, v) {
		return
	}
	w.bad(n, v, "cannot tell what "+g.key(v).s+" contains")
}

func (w *collected) fieldStores(n *Node, base Val, al *ssa.Alloc, field int) bool {
	found := false
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field != field {
				continue
			}
			for _, rr := range *x.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == x {
					found = true
					w.walk(w.nodeOf(base.ctx, st), Val{base.ctx, st.Val})
				}
			}
		case *ssa.Store:
			if x.Addr == al {
				return false // whole structure copied in
			}
		}
	}
	return found
}

// alloc: a local slice/map/array variable or a local element.
func (w *collected) alloc(n *Node, a Val, al *ssa.Alloc) {
	elemT := al.Type().Underlying().(*types.Pointer).Elem()
	switch elemT.Underlying().(type) {
	case *types.Array:
		w.stores(a)
		return
	case *types.Slice, *types.Map:
		for _, s := range allStores(al) {
			w.walk(w.nodeOf(a.ctx, s), Val{a.ctx, s.Val})
		}
		return
	}
	if typeFull(elemT) == w.etype() {
		w.elem(n, a)
		return
	}
	w.bad(n, a, "cannot tell what "+w.g.key(a).s+" contains")
}

// stores: elements put into a slice, array or map by index.
func (w *collected) stores(c Val) {
	g := w.g
	for _, n := range g.nodes {
		if n.after || !g.reachable(n) {
			continue
		}
		switch x := n.instr.(type) {
		case *ssa.MapUpdate:
			if w.sameCollection(Val{n.ctx, x.Map}, c) {
				w.item(n, Val{n.ctx, x.Value})
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if ok && w.sameCollection(Val{n.ctx, ia.X}, c) {
				w.item(n, Val{n.ctx, x.Val})
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && w.sameCollection(Val{n.ctx, x.Call.Args[0]}, c) {
				w.walk(n, Val{n.ctx, x.Call.Args[1]})
			}
		}
	}
}

func (w *collected) sameCollection(v, c Val) bool {
	v = w.g.resolve(v)
	if v == c {
		return true
	}
	for _, o := range w.g.origins(v) {
		if o == c {
			return true
		}
	}
	if s, ok := v.v.(*ssa.Slice); ok {
		return w.sameCollection(Val{v.ctx, s.X}, c)
	}
	return false
}

// item: one value put into a collection: an offer, or a collection of offers.
func (w *collected) item(n *Node, v Val) {
	t := v.v.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if typeFull(t) == w.etype() {
		w.elem(n, v)
		return
	}
	w.walk(n, v)
}

func init() {
	register("P09", "Every exported function of the client that returns offers is expanded with its helpers and solved for must-facts; every construction of the returned collection (append, index store, map update, whole slice) is an obligation: at that point the offer must be signature-verified with the key registered for the provider it names, proof-verified, and equal in content identifier to the one asked for.",
		[]string{"client"}, func(r *Run) {
			r.rule("returned-offer-verified", "an offer enters a returned collection only after offer.Verify(k)==nil with k registered for the provider it names")
			r.rule("returned-offer-proven", "an offer enters a returned collection only after VerifyMerkleProof()==nil")
			r.rule("returned-offer-asked", "an offer enters a returned collection only if its content identifier was found equal to the one asked for")
			u := r.U("client")
			searches := 0
			for _, f := range u.Funcs {
				if f.Pkg == nil || shortPkg(f.Pkg.Pkg.Path()) != "client/pkg/fcrclient" || f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
					continue
				}
				for ri := 0; ri < f.Signature.Results().Len(); ri++ {
					if !mentionsType(f.Signature.Results().At(ri).Type(), tSubOffer, 0) {
						continue
					}
					searches++
					g := newGate(u, f)
					r.count("graph nodes", len(g.nodes))
					var asked []string
					for _, p := range f.Params {
						if typeFull(p.Type()) == "common/pkg/cid.ContentID" {
							asked = append(asked, g.objkey(Val{g.root, p}).s)
						}
					}
					con := short(f)
					judge := func(n *Node, st *FSet, names []string) {
						r.count("points at which offers enter a result", 1)
						ok, why := false, ""
						mk, sub := false, false
						for _, nm := range names {
							if o, w := g.verifiedOffer(st, nm); o {
								ok = true
							} else {
								why = w
							}
							if len(g.factsAbout(st, "merkleok", nm)) > 0 {
								mk = true
							}
							for _, e := range elemNames(nm) {
								for _, a := range asked {
									if g.same(st, a, "common/pkg/cidoffer.SubCIDOffer.GetSubCID("+e+")") {
										sub = true
									}
								}
							}
						}
						r.ob("returned-offer-verified", con, ok || st.top, g.where(n), "an offer is returned although "+why)
						r.ob("returned-offer-proven", con, mk || st.top, g.where(n), "an offer is returned although its inclusion proof was not verified")
						r.ob("returned-offer-asked", con, sub || st.top, g.where(n), "an offer is returned although its content identifier was not compared with the one asked for")
					}
					w := &collected{g: g, seen: map[Val]bool{}}
					w.elem = func(n *Node, v Val) { judge(n, n.in, []string{g.objkey(v).s}) }
					w.all = func(n *Node, v Val) bool {
						judge(n, n.in, []string{g.objkey(v).s + "[*]"})
						return true
					}
					w.bad = func(n *Node, v Val, what string) {
						r.ob("returned-offer-verified", con, false, g.where(n), what)
					}
					for _, n := range g.root.rets {
						if g.reachable(n) {
							w.walk(n, Val{g.root, n.instr.(*ssa.Return).Results[ri]})
						}
					}
				}
			}
			r.count("searches", searches)
			r.floor("returned-offer-verified", 4)
			r.floor("returned-offer-asked", 4)
		})
	_ = strings.HasPrefix
}

func (w *collected) etype() string {
	if w.elemT != "" {
		return w.elemT
	}
	return tSubOffer
}
