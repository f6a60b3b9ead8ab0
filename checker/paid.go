package main

// P10: no answer after the time to live, no expired offers. P11: no paid answer without sufficient payment.

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- comparing times --------------------------------------------------------------------------------------------

// timeFacts: the comparisons of package time as order facts.
func timeFacts(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
	as := args(call)
	if len(as) != 2 {
		return nil
	}
	a, b := g.key(Val{c, as[0]}), g.key(Val{c, as[1]})
	switch name {
	case "time.Time.Before":
		return []CondFact{{0, True, mkFact("<", a, b)}, {0, False, mkFact("<=", b, a)}}
	case "time.Time.After":
		return []CondFact{{0, True, mkFact("<", b, a)}, {0, False, mkFact("<=", a, b)}}
	}
	return nil
}

// timeUnit: what a value is: the current time or the limit, and whether as a time.Time ("T") or in seconds ("S").
func timeUnit(g *G, v Val, limit string) (what, unit string) {
	if limit != "" && g.objkey(v).s == limit {
		return "limit", "S"
	}
	os := g.origins(v)
	if len(os) != 1 {
		return "", ""
	}
	o := os[0]
	if limit != "" && g.objkey(o).s == limit {
		return "limit", "S"
	}
	if cv, ok := o.v.(*ssa.Convert); ok {
		if intWidth(cv.Type()) >= 64 && intWidth(cv.X.Type()) >= 64 {
			return timeUnit(g, Val{o.ctx, cv.X}, limit)
		}
		return "", ""
	}
	c, _ := callOf(o)
	if c == nil {
		return "", ""
	}
	name := g.u.CalleeName(c)
	base := name[strings.LastIndex(name, ".")+1:]
	as := args(c)
	switch {
	case name == "time.Now" || base == "Now" && typeFull(c.Type()) == "time.Time":
		return "now", "T"
	case name == "time.Unix":
		if w, u := timeUnit(g, Val{o.ctx, as[0]}, limit); u == "S" {
			return w, "T"
		}
	case name == "time.Time.Unix":
		if w, u := timeUnit(g, Val{o.ctx, as[0]}, limit); u == "T" {
			return w, "S"
		}
	case name == "time.Time.UTC" || name == "time.Time.Local":
		return timeUnit(g, Val{o.ctx, as[0]}, limit)
	case name == "time.Time.Sub":
		w1, u1 := timeUnit(g, Val{o.ctx, as[0]}, limit)
		w2, u2 := timeUnit(g, Val{o.ctx, as[1]}, limit)
		if u1 == "T" && u2 == "T" && w1 != w2 {
			return w1 + "-" + w2, "D"
		}
	case name == "time.Until" || name == "time.Since":
		if w, u := timeUnit(g, Val{o.ctx, as[0]}, limit); u == "T" && w == "limit" {
			if name == "time.Until" {
				return "limit-now", "D"
			}
			return "now-limit", "D"
		}
	}
	return "", ""
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	return intBits(b)
}

// valOf: the value a rendering stands for, if it is one of the fact's roots or an arithmetic expression over them.
func (g *G) factVal(f *Fact, i int) (Val, bool) {
	for _, r := range f.roots {
		if g.token(r) == f.args[i] {
			return r, true
		}
	}
	return Val{}, false
}

// notPast: some fact says that the current time has not passed the limit.
func notPast(g *G, st *FSet, limit string) bool {
	if st.top {
		return true
	}
	cls := func(f *Fact, i int) (string, string) {
		a := f.args[i]
		if a == limit {
			return "limit", "S"
		}
		if a == "const:0" {
			return "0", "0"
		}
		if v, ok := g.factVal(f, i); ok {
			if b, ok := v.v.(*ssa.BinOp); ok && b.Op == token.SUB {
				w1, u1 := timeUnit(g, Val{v.ctx, b.X}, limit)
				w2, u2 := timeUnit(g, Val{v.ctx, b.Y}, limit)
				if u1 == "S" && u2 == "S" {
					return w1 + "-" + w2, "D"
				}
			}
			return timeUnit(g, v, limit)
		}
		// a difference of two named values
		if strings.HasPrefix(a, "(") && strings.HasSuffix(a, ")") {
			for k := 1; k < len(a)-1; k++ {
				if a[k] != '-' {
					continue
				}
				name := func(s string) string {
					if s == limit {
						return "limit"
					}
					for _, r := range f.roots {
						if g.token(r) == s {
							if w, u := timeUnit(g, r, limit); u == "S" {
								return w
							}
						}
					}
					return "?"
				}
				l, r := name(a[1:k]), name(a[k+1:len(a)-1])
				if l != "?" && r != "?" {
					return l + "-" + r, "D"
				}
			}
		}
		return "", ""
	}
	for k := range st.m {
		f := &g.facts[k]
		if f.pred != "<" && f.pred != "<=" || len(f.args) != 2 {
			continue
		}
		w1, u1 := cls(f, 0)
		w2, u2 := cls(f, 1)
		if u1 == u2 && w1 == "now" && w2 == "limit" {
			return true
		}
		if w1 == "0" && w2 == "limit-now" || w1 == "now-limit" && w2 == "0" {
			return true
		}
	}
	return false
}

// ---- values with the facts of every way to get them ---------------------------------------------------------------

// ways: calls fn for every leaf the value may come from, with the facts that hold when it is taken from there.
// fn returns true if it is satisfied without looking further into the value.
func (g *G) ways(st *FSet, v Val, fn func(st *FSet, v Val, leaf bool) bool) {
	seen := map[Val]bool{}
	var walk func(st *FSet, v Val)
	walk = func(st *FSet, v Val) {
		if st.top {
			return
		}
		loose := g.cfg.Loose
		g.cfg.Loose = false
		v = g.resolve(v)
		g.cfg.Loose = loose
		if fn(st, v, false) || seen[v] {
			return
		}
		seen[v] = true // on this way; the same value met again on another way has other facts
		defer delete(seen, v)
		switch x := v.v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				walk(g.edgeState(v.ctx, x.Block().Preds[i], x.Block()), Val{v.ctx, e})
			}
			return
		case *ssa.Call, *ssa.Extract:
			c, idx := callOf(v)
			if c != nil {
				if ch := v.ctx.children[c]; ch != nil {
					for _, rn := range ch.rets {
						if !g.reachable(rn) {
							continue
						}
						if ret, ok := rn.instr.(*ssa.Return); ok && idx < len(ret.Results) {
							walk(rn.in, Val{ch, ret.Results[idx]})
						}
					}
					return
				}
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					an := v.ctx.nodes[c]
					if an != nil && an.in != nil && !an.in.top {
						if fn(an.in, v, true) {
							return
						}
						walk(an.in, Val{v.ctx, c.Call.Args[0]})
						walk(an.in, Val{v.ctx, c.Call.Args[1]})
					}
					return
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := g.resolve(Val{v.ctx, x.X})
				if al, ok := a.v.(*ssa.Alloc); ok {
					if ss := allStores(al); len(ss) > 0 {
						for _, s := range ss {
							if n := a.ctx.nodes[s]; n != nil && n.in != nil && !n.in.top {
								walk(n.in, Val{a.ctx, s.Val})
							}
						}
						return
					}
				}
			}
		}
		fn(st, v, true)
	}
	walk(st, v)
}

// ---- P10 --------------------------------------------------------------------------------------------------------

var ttlFlow = regexp.MustCompile(`f:ttl\b`)

// wireResult: index of the decoder's result that carries the given wire field.
func wireResult(c *Codec, field string) int {
	re := regexp.MustCompile(`f:` + regexp.QuoteMeta(field) + `\b`)
	for i, res := range c.results {
		for fl := range res {
			if re.MatchString(fl) {
				return i
			}
		}
	}
	return -1
}

func (g *G) isAnswer(n *Node, c ssa.CallInstruction, name string) (Val, bool) {
	if isPeerWrite(name) {
		return Val{n.ctx, args(c)[1]}, true
	}
	if isRESTWrite(name) {
		as := args(c)
		return Val{n.ctx, as[len(as)-1]}, true
	}
	return Val{}, false
}

const tOffer = "common/pkg/cidoffer.CIDOffer"

var sqlFresh = []*regexp.Regexp{
	regexp.MustCompile(`datetime\( ?(\w+\.)?expiry ?, ?'unixepoch' ?\) ?>=? ?datetime\( ?'now' ?\)`),
	regexp.MustCompile(`datetime\( ?'now' ?\) ?<=? ?datetime\( ?(\w+\.)?expiry ?, ?'unixepoch' ?\)`),
	regexp.MustCompile(`(\w+\.)?expiry ?>=? ?(unixepoch\( ?('now')? ?\)|cast\( ?strftime\( ?'%s' ?, ?'now' ?\) as int(eger)? ?\))`),
	regexp.MustCompile(`(unixepoch\( ?('now')? ?\)|cast\( ?strftime\( ?'%s' ?, ?'now' ?\) as int(eger)? ?\)) ?<=? ?(\w+\.)?expiry`),
}
var sqlFreshParam = regexp.MustCompile(`(\w+\.)?expiry ?>=? ?\?`)
var sqlOffers = regexp.MustCompile(`\b(from|join) .*\boffer\b`)
var sqlOr = regexp.MustCompile(`\bor\b`)

// sqlFiltersExpired: the statement selects offers and restricts them to those that have not expired.
func sqlFiltersExpired(sql string) (selects, filters bool) {
	s := strings.Join(strings.Fields(strings.ToLower(sql)), " ")
	if !strings.HasPrefix(s, "select") && !strings.HasPrefix(s, "with") || !sqlOffers.MatchString(s) {
		return false, false
	}
	i := strings.Index(s, "where")
	if i < 0 || sqlOr.MatchString(s[i:]) {
		return true, false
	}
	for _, re := range sqlFresh {
		if m := re.FindStringIndex(s); m != nil && !strings.HasSuffix(strings.TrimSpace(s[:m[0]]), "not") {
			return true, true
		}
	}
	return true, sqlFreshParam.MatchString(s[i:])
}

func isQuery(name string) bool {
	b := name[strings.LastIndex(name, ".")+1:]
	return (strings.HasPrefix(name, "common/pkg/database.") || strings.HasPrefix(name, "database/sql.")) && strings.HasPrefix(b, "Query")
}

// constString: the text of a value if it is built from constants only.
func constString(g *G, v Val, d int) ([]string, bool) {
	var out []string
	for _, o := range g.origins(v) {
		switch x := o.v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return nil, false
			}
			out = append(out, stringConst(x))
		case *ssa.BinOp:
			if x.Op != token.ADD || d > 10 {
				return nil, false
			}
			a, ok1 := constString(g, Val{o.ctx, x.X}, d+1)
			b, ok2 := constString(g, Val{o.ctx, x.Y}, d+1)
			if !ok1 || !ok2 {
				return nil, false
			}
			for _, p := range a {
				for _, q := range b {
					out = append(out, p+q)
				}
			}
		default:
			return nil, false
		}
	}
	return out, len(out) > 0
}

func offerStoreOpaque(name string, f *ssa.Function) bool {
	if strings.HasPrefix(name, "common/pkg/fcroffermgr.") || strings.HasPrefix(name, "common/pkg/offermgr.") {
		return false
	}
	return primitive(name, f) || strings.HasPrefix(name, "common/pkg/cidoffer.") || strings.HasPrefix(name, "common/pkg/database.") || strings.HasPrefix(name, "common/pkg/logging.")
}

func offerStoreFacts(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
	if name == "common/pkg/cidoffer.CIDOffer.HasExpired" {
		return []CondFact{{0, False, mkFact("fresh", g.objkey(Val{c, args(call)[0]}))}}
	}
	return nil
}

func isOfferType(t types.Type) bool {
	return typeFull(t) == tOffer
}

func init() {
	register("P10", "Every gateway handler of a request whose decoder yields a 'ttl' field is expanded and solved: at each point where it answers with data, a comparison on every path must have established now <= ttl. Every exported lookup of both offer stores is expanded: each offer that enters its result was found unexpired, or was selected by an SQL text whose WHERE clause restricts expiry to the future of the UTC clock. HasExpired is checked to mean that.",
		[]string{"gateway", "provider", "common"}, func(r *Run) {
			r.rule("answer-within-ttl", "at each answer with data, 'now <= ttl of the request' holds on every path")
			r.rule("ttl-handler", "a request kind with a time to live is handled by code that reads it")
			r.rule("no-expired-offer", "an offer enters the result of a lookup only if it has not expired (checked in Go or by the SQL text)")
			r.rule("has-expired-means", "HasExpired() == false implies now <= expiry")
			for _, mod := range []string{"gateway", "provider"} {
				u := r.U(mod)
				cs := codecs(u, nil)
				for _, f := range append(u.handlers(hPeer), u.handlers(hREST)...) {
					g := NewG(u, f, &Config{Opaque: primitive, Loose: true, CallFacts: func(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
						return append(primFacts(g, c, call, name), timeFacts(g, c, call, name)...)
					}})
					g.Solve()
					var req Val
					for _, p := range f.Params {
						if typeFull(p.Type()) == tMsg {
							req = Val{g.root, p}
						}
					}
					for _, dn := range decodesOf(g, g.objkey(req)) {
						dname := u.CalleeName(dn.instr.(ssa.CallInstruction))
						dc := cs[dname[strings.LastIndex(dname, ".Decode")+7:]]
						if dc == nil {
							continue
						}
						hasTTL := false
						if dc.fields["ttl"] != "" {
							hasTTL = true
						}
						ri := wireResult(dc, "ttl")
						if ri >= 0 {
							hasTTL = true
						}
						if !hasTTL {
							continue
						}
						r.count("handlers of requests with a time to live", 1)
						limit := ""
						for _, ex := range extracts(dn.instr.(ssa.Value)) {
							if ex.Index == ri {
								limit = g.objkey(Val{dn.ctx, ex}).s
							}
						}
						r.ob("ttl-handler", short(f), limit != "", g.where(dn), "the time to live of the request is ignored")
						if limit == "" {
							continue
						}
						g.calls(func(n *Node, c ssa.CallInstruction, name string) {
							m, ok := g.isAnswer(n, c, name)
							if !ok || !g.reachable(n) || isRefusal(msgOrigins(g, m)) || !g.passesThrough(Val{dn.ctx, dn.instr.(ssa.Value)}, n) {
								return
							}
							r.ob("answer-within-ttl", short(f)+": "+uniqJoin(msgOrigins(g, m)), notPast(g, n.in, limit), g.where(n), "data is sent on a path on which the current time was not found to be at most the request's time to live")
						})
					}
				}
			}
			r.floor("answer-within-ttl", 6)
			r.floor("ttl-handler", 6)

			u := r.U("common")
			lookups := 0
			for _, f := range u.Funcs {
				if f.Pkg == nil || f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
					continue
				}
				p := shortPkg(f.Pkg.Pkg.Path())
				if p != "common/pkg/fcroffermgr" && p != "common/pkg/offermgr" {
					continue
				}
				for ri := 0; ri < f.Signature.Results().Len(); ri++ {
					rt := f.Signature.Results().At(ri).Type()
					if !mentionsType(rt, tOffer, 0) || strings.HasSuffix(typeFull(rt), "FCROfferMgr") {
						continue
					}
					lookups++
					con := short(f)
					g := NewG(u, f, &Config{Opaque: offerStoreOpaque, CallFacts: offerStoreFacts, Loose: true})
					g.Solve()
					r.count("graph nodes", len(g.nodes))
					// SQL selections of offers
					sqlOK, sqlN, sqlWhy := true, 0, ""
					g.calls(func(n *Node, c ssa.CallInstruction, name string) {
						if !isQuery(name) || !g.reachable(n) {
							return
						}
						as := args(c)
						for _, a := range as {
							if b, ok := a.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
								continue
							}
							texts, ok := constString(g, Val{n.ctx, a}, 0)
							if !ok {
								sqlOK, sqlWhy = false, "the SQL text at "+g.where(n)+" is not built from constants"
								return
							}
							for _, t := range texts {
								sel, fil := sqlFiltersExpired(t)
								if sel {
									sqlN++
									r.count("SQL selections of offers", 1)
									if !fil {
										sqlOK, sqlWhy = false, "the SQL text used at "+g.where(n)+" does not restrict expiry to the future"
									}
								}
							}
							return
						}
					})
					judge := func(n *Node, st *FSet, v Val) bool {
						k := g.objkey(v).s
						return len(g.factsAbout(st, "fresh", k)) > 0 || sqlN > 0 && sqlOK
					}
					fail := func(n *Node, why string) {
						if sqlWhy != "" {
							why = sqlWhy
						}
						r.ob("no-expired-offer", con, false, g.where(n), why)
					}
					okc := 0
					if isOfferType(rt) {
						for _, rn := range g.root.rets {
							if !g.reachable(rn) {
								continue
							}
							g.ways(rn.in, Val{g.root, rn.instr.(*ssa.Return).Results[ri]}, func(st *FSet, v Val, leaf bool) bool {
								if isNilConst(v.v) {
									okc++
									return true
								}
								if st.top || judge(rn, st, v) {
									okc++
									return true
								}
								if leaf {
									fail(rn, "an offer is returned that was not found to be unexpired")
								}
								return false
							})
						}
					} else {
						w := &collected{g: g, seen: map[Val]bool{}, elemT: tOffer}
						w.elem = func(n *Node, v Val) {
							if n.in.top || judge(n, n.in, v) {
								okc++
								return
							}
							// an element of another collection built here
							if s, ok := elementOf(g, v); ok {
								okc++
								w.walk(n, s)
								return
							}
							fail(n, "an offer enters the result that was not found to be unexpired")
						}
						w.bad = func(n *Node, v Val, what string) { fail(n, what) }
						for _, rn := range g.root.rets {
							if g.reachable(rn) {
								w.walk(rn, Val{g.root, rn.instr.(*ssa.Return).Results[ri]})
							}
						}
					}
					r.ob("no-expired-offer", con, okc > 0, u.Pos(f.Pos()), "no construction of the result was recognised")
				}
			}
			r.count("lookups", lookups)
			r.floor("no-expired-offer", 8)
			for _, t := range []string{"CIDOffer", "SubCIDOffer"} {
				f := u.fn("common/pkg/cidoffer." + t + ".HasExpired")
				if f == nil {
					r.ob("has-expired-means", t, false, "-", "HasExpired not found")
					continue
				}
				g := NewG(u, f, &Config{CallFacts: timeFacts})
				g.Solve()
				for _, rn := range g.root.rets {
					st := g.imp(Val{g.root, rn.instr.(*ssa.Return).Results[0]}, False)
					if st.top {
						continue
					}
					st = st.union(rn.in)
					ok := false
					for k := range st.m {
						for _, rt := range g.facts[k].roots {
							_ = rt
						}
					}
					limit := g.expiryKeys(f)
					for _, l := range limit {
						if notPast(g, st, l) {
							ok = true
						}
					}
					r.ob("has-expired-means", t, ok, g.where(rn), "HasExpired can return false although the expiry has passed")
				}
			}
			r.floor("has-expired-means", 2)
		})
}

// expiryKeys: renderings of loads of the receiver's expiry field.
func (g *G) expiryKeys(f *ssa.Function) []string {
	set := map[string]bool{}
	for _, n := range g.nodes {
		v, ok := n.instr.(ssa.Value)
		if !ok || n.after {
			continue
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			a := g.resolve(Val{n.ctx, u.X})
			if fa, ok := a.v.(*ssa.FieldAddr); ok && strings.EqualFold(fieldName(fa.X.Type(), fa.Field), "expiry") && a.ctx == g.root {
				if b := g.resolve(Val{a.ctx, fa.X}); b.v == ssa.Value(f.Params[0]) {
					set[g.objkey(Val{n.ctx, v}).s] = true
				}
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// elementOf: the value is read from a slice, array or map held in a local: that collection.
func elementOf(g *G, v Val) (Val, bool) {
	v = g.resolve(v)
	for k := 0; k < 10; k++ {
		switch x := v.v.(type) {
		case *ssa.UnOp:
			v = g.resolve(Val{v.ctx, x.X})
			if al, ok := v.v.(*ssa.Alloc); ok {
				s := singleStore(al)
				if s == nil {
					return Val{}, false
				}
				v = g.resolve(Val{v.ctx, s.Val})
			}
			continue
		case *ssa.Alloc:
			s := singleStore(x)
			if s == nil {
				return Val{}, false
			}
			v = g.resolve(Val{v.ctx, s.Val})
			continue
		case *ssa.IndexAddr:
			return g.resolve(Val{v.ctx, x.X}), true
		case *ssa.Index:
			return g.resolve(Val{v.ctx, x.X}), true
		case *ssa.Lookup:
			return g.resolve(Val{v.ctx, x.X}), true
		}
		return Val{}, false
	}
	return Val{}, false
}

// ---- P11 --------------------------------------------------------------------------------------------------------

// paidKinds: request kind -> the price that applies and the wire field that multiplies it.
var paidKinds = map[string][2]string{
	"ClientStandardDiscoverRequestV2":    {"SearchPrice", ""},
	"ClientStandardDiscoverOfferRequest": {"OfferPrice", "offer_digests"},
	"ClientDHTDiscoverRequestV2":         {"SearchPrice", "num_dht"},
	"ClientDHTDiscoverOfferRequest":      {"OfferPrice", "gateways_digests"},
	"GatewayDHTDiscoverRequestV2":        {"SearchPrice", ""},
	"GatewayDHTDiscoverOfferRequest":     {"OfferPrice", "offer_digests"},
}

// backSlice: values that flow into v (data only), including what is written into big.Int values by their own methods.
type backSlice struct {
	g      *G
	seen   map[Val]bool
	fields map[string]bool        // loads of T.f met
	exts   map[string]bool        // renderings of call results met
	ops    map[string]bool        // big.Int operations met
	leaf   func(name string) bool // calls whose results do not count as computed from their arguments
	leafV  func(v Val) bool       // values that are not looked into
}

func newBackSlice(g *G) *backSlice {
	return &backSlice{g: g, seen: map[Val]bool{}, fields: map[string]bool{}, exts: map[string]bool{}, ops: map[string]bool{}}
}

func (b *backSlice) add(v Val) {
	g := b.g
	v = g.resolve(v)
	if b.seen[v] {
		return
	}
	b.seen[v] = true
	if b.leafV != nil && b.leafV(v) {
		return
	}
	if v.v.Type() != nil && strings.HasPrefix(typeFull(v.v.Type()), "math/big.Int") {
		b.mutations(v)
	}
	switch x := v.v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			b.add(Val{v.ctx, e})
		}
		b.times(v.ctx, x.Block())
	case *ssa.Extract:
		b.exts[g.objkey(v).s] = true
		if c, ok := x.Tuple.(*ssa.Call); ok {
			b.call(v, c, x.Index)
			return
		}
		b.add(Val{v.ctx, x.Tuple})
	case *ssa.Next:
		b.add(Val{v.ctx, x.Iter})
	case *ssa.Range:
		b.add(Val{v.ctx, x.X})
	case *ssa.Call:
		b.exts[g.objkey(v).s] = true
		b.call(v, x, 0)
	case *ssa.UnOp:
		a := g.resolve(Val{v.ctx, x.X})
		switch y := a.v.(type) {
		case *ssa.Alloc:
			for _, s := range allStores(y) {
				b.add(Val{a.ctx, s.Val})
			}
		case *ssa.FieldAddr:
			b.fields[fieldName(y.X.Type(), y.Field)] = true
			b.add(Val{a.ctx, y.X})
		default:
			b.add(a)
		}
	case *ssa.FieldAddr:
		b.fields[fieldName(x.X.Type(), x.Field)] = true
		b.add(Val{v.ctx, x.X})
	case *ssa.Field:
		b.fields[fieldName(x.X.Type(), x.Field)] = true
		b.add(Val{v.ctx, x.X})
	case *ssa.IndexAddr:
		b.add(Val{v.ctx, x.X})
	case *ssa.Index:
		b.add(Val{v.ctx, x.X})
	case *ssa.Lookup:
		b.add(Val{v.ctx, x.X})
	case *ssa.Slice:
		b.add(Val{v.ctx, x.X})
	case *ssa.Convert:
		b.add(Val{v.ctx, x.X})
	case *ssa.ChangeType:
		b.add(Val{v.ctx, x.X})
	case *ssa.MakeInterface:
		b.add(Val{v.ctx, x.X})
	case *ssa.TypeAssert:
		b.add(Val{v.ctx, x.X})
	case *ssa.BinOp:
		b.ops[x.Op.String()] = true
		b.add(Val{v.ctx, x.X})
		b.add(Val{v.ctx, x.Y})
	case *ssa.Alloc:
		for _, s := range allStores(x) {
			b.add(Val{v.ctx, s.Val})
		}
	}
}

func (b *backSlice) call(v Val, c *ssa.Call, idx int) {
	g := b.g
	if rs := g.results(v.ctx, c, idx); len(rs) > 0 {
		for _, r := range rs {
			b.add(r)
		}
		return
	}
	name := g.u.CalleeName(c)
	if strings.HasPrefix(name, "common/pkg/fcrmessages.Decode") {
		return // a field of the request, recorded by its rendering
	}
	if b.leaf != nil && b.leaf(name) {
		return
	}
	if strings.HasPrefix(name, "math/big.") {
		b.ops[name] = true
	}
	for _, a := range args(c) {
		b.add(Val{v.ctx, a})
	}
}

// mutations: big.Int methods that write into this value.
func (b *backSlice) mutations(v Val) {
	g := b.g
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if !strings.HasPrefix(name, "math/big.Int.") || len(args(c)) < 2 {
			return
		}
		if typeFull(args(c)[0].Type()) != "math/big.Int" || c.Common().Signature().Results().Len() == 0 {
			return
		}
		rt := c.Common().Signature().Results().At(0).Type()
		if _, ok := rt.Underlying().(*types.Pointer); !ok {
			return
		}
		recv := Val{n.ctx, args(c)[0]}
		same := g.resolve(recv) == v
		if !same {
			for _, o := range g.origins(recv) {
				if o == v {
					same = true
				}
			}
		}
		if same {
			b.ops[name] = true
			for _, a := range args(c)[1:] {
				b.add(Val{n.ctx, a})
			}
			b.times(n.ctx, n.instr.Block())
		}
	})
}

// times: a value accumulated in a loop also depends on how often the loop is run, which its only exit decides.
func (b *backSlice) times(c *Ctx, blk *ssa.BasicBlock) {
	if !reachesB(blk, blk) {
		return
	}
	known := false
	for _, head := range blk.Parent().Blocks {
		in := naturalLoop(head)
		if in == nil || !in[blk] {
			continue
		}
		known = true
		var out *ssa.BasicBlock
		for _, s := range head.Succs {
			if !in[s] {
				out = s
			}
		}
		i, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
		if out == nil || !ok {
			b.ops["a loop whose number of rounds is not known"] = true
			continue
		}
		for x := range in {
			for _, s := range x.Succs {
				if x != head && !in[s] && (s == out || reachesB(s, out)) {
					b.ops["a loop that can be left early"] = true
				}
			}
		}
		switch y := i.Cond.(type) {
		case *ssa.BinOp:
			b.add(Val{c, y.X})
			b.add(Val{c, y.Y})
		case *ssa.Extract:
			b.add(Val{c, y})
		}
	}
	if !known {
		b.ops["a loop whose number of rounds is not known"] = true
	}
}

var priceOps = map[string]bool{
	"math/big.NewInt": true, "math/big.Int.Mul": true, "math/big.Int.SetInt64": true, "math/big.Int.SetUint64": true, "math/big.Int.Set": true,
	"math/big.Int.Add": true, "+": true, "*": true,
}

// roots of a big.Int value: what it is the result of, receivers of its methods followed.
func bigOrigins(g *G, v Val) []Val {
	var out []Val
	for _, o := range g.origins(v) {
		out = append(out, o)
	}
	return out
}

type payment struct {
	n    *Node
	call *ssa.Call
}

// paidFor: the facts say that this payment was received without error and covers a price; the price is returned.
func paidFor(g *G, st *FSet, p payment) (price *Val) {
	tok := g.token(Val{p.n.ctx, p.call})
	okErr := false
	for k := range st.m {
		f := &g.facts[k]
		if f.pred == "ret1=nil" && f.args[0] == tok {
			okErr = true
		}
	}
	if !okErr {
		return nil
	}
	isAmount := func(v Val) bool {
		os := g.origins(v)
		for _, o := range os {
			c, idx := callOf(o)
			if c == p.call && idx == 0 && o.ctx == p.n.ctx {
				continue
			}
			if isNilConst(o.v) {
				continue
			}
			return false
		}
		return len(os) > 0
	}
	for k := range st.m {
		f := &g.facts[k]
		if len(f.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			v, ok := g.factVal(f, i)
			if !ok {
				continue
			}
			c, idx := callOf(v)
			if c == nil || idx != 0 {
				continue
			}
			// relation of the call's result (X) to a constant, as seen from X
			rel := f.pred
			if i == 1 {
				switch f.pred {
				case "<":
					rel = ">"
				case "<=":
					rel = ">="
				}
			}
			other := f.args[1-i]
			ge := rel+other == ">=const:0" || rel+other == ">const:-1" || rel+other == ">const:0" || rel+other == ">=const:1" || rel+other == "!=const:-1" || rel+other == "==const:0" || rel+other == "==const:1"
			le := rel+other == "<=const:0" || rel+other == "<const:1" || rel+other == "<const:0" || rel+other == "<=const:-1" || rel+other == "!=const:1" || rel+other == "==const:0" || rel+other == "==const:-1"
			as := args(c)
			switch g.u.CalleeName(c) {
			case "math/big.Int.Cmp":
				if ge && isAmount(Val{v.ctx, as[0]}) {
					return &Val{v.ctx, as[1]}
				}
				if le && isAmount(Val{v.ctx, as[1]}) {
					return &Val{v.ctx, as[0]}
				}
			case "math/big.Int.Sign":
				for _, o := range g.origins(Val{v.ctx, as[0]}) {
					if sc, _ := callOf(o); sc != nil && g.u.CalleeName(sc) == "math/big.Int.Sub" {
						sa := args(sc)
						if ge && isAmount(Val{o.ctx, sa[1]}) {
							return &Val{o.ctx, sa[2]}
						}
						if le && isAmount(Val{o.ctx, sa[2]}) {
							return &Val{o.ctx, sa[1]}
						}
					}
				}
			}
		}
	}
	return nil
}

func isReceivePayment(name string) bool {
	return name == "common/pkg/fcrpaymentmgr.FCRPaymentMgr.Receive" || strings.HasSuffix(name, ".Receive") && strings.Contains(strings.ToLower(name), "paymentm")
}

func init() {
	register("P11", "Every gateway handler of a paid request kind is expanded and solved. At each place where an answer is encoded, every list in it is traced back through all the ways it can be built: it is empty, or the facts there include that Receive of the channel and voucher named in this request returned no error and that the amount received compared as at least a price; the price's data dependences include the configured price for that kind and the request's own quantity, combined by multiplication and addition only.",
		[]string{"gateway"}, func(r *Run) {
			r.rule("paid-result", "a list in the answer to a paid request is empty or guarded by Receive(channel and voucher of the request) without error and amount >= price")
			r.rule("paid-price", "the price compared depends on the configured price of that kind and on the quantity the request asks for, by multiplication and addition only")
			r.rule("paid-quantity", "where a result is given out, a quantity that the request states as a number is known not to be negative")
			r.rule("paid-kind-handled", "each paid kind has a handler that answers it")
			u := r.U("gateway")
			cs := codecs(u, nil)
			handled := map[string]bool{}
			for _, f := range append(u.handlers(hPeer), u.handlers(hREST)...) {
				g := newGate(u, f)
				r.count("graph nodes", len(g.nodes))
				var req Val
				for _, p := range f.Params {
					if typeFull(p.Type()) == tMsg {
						req = Val{g.root, p}
					}
				}
				for _, dn := range decodesOf(g, g.objkey(req)) {
					dname := u.CalleeName(dn.instr.(ssa.CallInstruction))
					kind := dname[strings.LastIndex(dname, ".Decode")+7:]
					want, paid := paidKinds[kind]
					if !paid || cs[kind] == nil {
						continue
					}
					field := func(w string) map[string]bool {
						out := map[string]bool{}
						ri := wireResult(cs[kind], w)
						for _, ex := range extracts(dn.instr.(ssa.Value)) {
							if ex.Index == ri && ri >= 0 {
								out[g.objkey(Val{dn.ctx, ex}).s] = true
							}
						}
						return out
					}
					chanK, vouK := field("payment_channel_address"), field("voucher")
					var pays []payment
					g.calls(func(n *Node, c ssa.CallInstruction, name string) {
						if cc, ok := c.(*ssa.Call); ok && isReceivePayment(name) && g.reachable(n) && len(args(c)) == 3 {
							if chanK[g.objkey(Val{n.ctx, args(c)[1]}).s] && vouK[g.objkey(Val{n.ctx, args(c)[2]}).s] {
								pays = append(pays, payment{n, cc})
							}
						}
					})
					var prices []Val
					quantity := map[string]bool{}
					paidAt := func(st *FSet) bool {
						for _, p := range pays {
							if pr := paidFor(g, st, p); pr != nil {
								prices = append(prices, *pr)
								if want[1] != "" {
									checkQuantity(g, st, dn, wireResult(cs[kind], want[1]), quantity)
								}
								return true
							}
						}
						return false
					}
					g.calls(func(n *Node, c ssa.CallInstruction, name string) {
						if !strings.HasPrefix(name, "common/pkg/fcrmessages.Encode") || !strings.Contains(name, "Response") || !g.reachable(n) {
							return
						}
						rk := name[strings.LastIndex(name, ".Encode")+7:]
						if cs[rk] == nil || cs[rk].fields["payment_required"] == "" {
							return
						}
						handled[kind] = true
						for ai, a := range args(c) {
							if _, ok := a.Type().Underlying().(*types.Slice); !ok {
								continue
							}
							ok := true
							where := g.where(n)
							g.ways(n.in, Val{n.ctx, a}, func(st *FSet, v Val, leaf bool) bool {
								if isNilConst(v.v) || paidAt(st) {
									return true
								}
								if ms, isMS := v.v.(*ssa.MakeSlice); isMS {
									if isZeroConst(ms.Len) {
										return true
									}
								}
								if sl, isSl := v.v.(*ssa.Slice); isSl { // make([]T, 0) with constant bounds
									if al, ok2 := sl.X.(*ssa.Alloc); ok2 {
										if at, ok3 := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok3 && (at.Len() == 0 || sl.High != nil && isZeroConst(sl.High)) {
											return true
										}
									}
								}
								if leaf {
									ok = false
									return true
								}
								return false
							})
							r.ob("paid-result", short(f)+": "+rk+" argument "+itoa(ai), ok, where, "the answer can carry this list although no sufficient payment for this request was received (payments with the request's channel and voucher: "+itoa(len(pays))+")")
						}
					})
					con := short(f)
					if len(prices) == 0 {
						r.ob("paid-price", con, false, g.where(dn), "no price is compared with the payment received")
					}
					for q, ok := range quantity {
						r.ob("paid-quantity", con+": "+q, ok, g.where(dn), "the quantity the price is computed from may be negative, and the price with it, where the result is given out")
					}
					for _, pr := range prices {
						b := newBackSlice(g)
						b.add(pr)
						why := ""
						if !b.fields[want[0]] {
							why = "the price compared does not depend on the configured " + want[0]
						}
						if want[1] != "" {
							has := false
							for k := range field(want[1]) {
								if b.exts[k] {
									has = true
								}
							}
							if !has {
								why = "the price compared does not depend on the request's " + want[1]
							}
						}
						for op := range b.ops {
							if !priceOps[op] {
								why = "the price is computed with " + op
							}
						}
						if why == "" {
							var q *Val
							if want[1] != "" {
								ri := wireResult(cs[kind], want[1])
								for _, ex := range extracts(dn.instr.(ssa.Value)) {
									if ex.Index == ri && ri >= 0 {
										q = &Val{dn.ctx, ex}
									}
								}
							}
							if q != nil || want[1] == "" {
								why = priceMismatch(g, pr, want[0], q, quantityKind(q))
							}
						}
						r.ob("paid-price", con, why == "", g.where(dn), why)
					}
				}
			}
			var ks []string
			for k := range paidKinds {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				r.ob("paid-kind-handled", k, handled[k], "-", "no handler of this paid kind encodes an answer with a payment_required field")
			}
			r.floor("paid-result", 10)
		})
}

// checkQuantity: an integer quantity of the request is known not to be negative.
func checkQuantity(g *G, st *FSet, dn *Node, ri int, out map[string]bool) {
	for _, ex := range extracts(dn.instr.(ssa.Value)) {
		if ex.Index != ri {
			continue
		}
		b, ok := ex.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		v := Val{dn.ctx, ex}
		bs := newBounds(g, st)
		bs.learnUses(v)
		ok = bs.known(lterm{"", 0}, g.linOf(v), 0) || g.lower(v, 0, map[Val]bool{})
		if !ok {
			// handed to a function that succeeded, and only does for numbers that are not negative
			g.calls(func(n *Node, c ssa.CallInstruction, name string) {
				cc, isCall := c.(*ssa.Call)
				f := c.Common().StaticCallee()
				if ok || !isCall || f == nil || !isRepoFunc(f) || len(f.Blocks) == 0 || !hasErrorResult(f) {
					return
				}
				ei := errIndex(f.Signature)
				known := g.hasIn(st, mkFact("ret"+itoa(ei)+"=nil", Key{s: g.token(Val{n.ctx, cc})}))
				for i, a := range args(c) {
					av := g.resolve(Val{n.ctx, a})
					for {
						cv, isConv := av.v.(*ssa.Convert)
						if !isConv || !keepsInt(cv) {
							break
						}
						av = g.resolve(Val{av.ctx, cv.X})
					}
					if known && av == g.resolve(v) && nonnegOnSuccess(g.u, f, i) {
						ok = true
					}
				}
			})
		}
		name := "quantity of the request"
		if old, seen := out[name]; seen {
			ok = ok && old
		}
		out[name] = ok
	}
}

// nonnegOnSuccess: the function succeeds only if the parameter is not negative.
func nonnegOnSuccess(u *Universe, f *ssa.Function, i int) bool {
	if i >= len(f.Params) {
		return false
	}
	g := NewG(u, f, &Config{Opaque: primitive, Loose: true})
	g.Solve()
	n := 0
	for _, st := range g.successExits() {
		n++
		if !newBounds(g, st).known(lterm{"", 0}, g.linOf(Val{g.root, f.Params[i]}), 0) {
			return false
		}
	}
	return n > 0
}

func stringConst(c *ssa.Const) string {
	if c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return c.Value.ExactString()
}
