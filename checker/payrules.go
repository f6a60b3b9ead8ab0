package main

// P12: what a voucher must satisfy before it is credited, and what is recorded for it.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ledger: the types of the payment manager's books, found by their shape.
type ledger struct {
	lane, ch                  string // type names
	nonce, laneRed            string // fields of the lane
	balance, chRed, lanesFld  string // fields of the channel
	inbound, outbound, mgrTyp string
}

func isBigInt(t types.Type) bool {
	_, ptr := t.Underlying().(*types.Pointer)
	return !ptr && typeFull(t) == "math/big.Int"
}

func findLedger(u *Universe) (*ledger, string) {
	l := &ledger{}
	for _, sp := range u.Pkgs {
		if shortPkg(sp.Pkg.Path()) != "common/pkg/fcrpaymentmgr" {
			continue
		}
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := tm.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			var bigs, u64, maps []string
			mtx := false
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				switch {
				case isBigInt(f.Type()):
					bigs = append(bigs, f.Name())
				case f.Type().String() == "uint64":
					u64 = append(u64, f.Name())
				case isMutexType(f.Type()):
					mtx = true
				default:
					if _, ok := f.Type().Underlying().(*types.Map); ok {
						maps = append(maps, f.Name())
					}
				}
			}
			switch {
			case len(bigs) == 1 && len(u64) == 1:
				l.lane, l.nonce, l.laneRed = typeFull(tm.Type()), u64[0], bigs[0]
			case len(bigs) == 2 && mtx && len(maps) == 1:
				l.ch, l.lanesFld = typeFull(tm.Type()), maps[0]
				for _, b := range bigs {
					if strings.Contains(strings.ToLower(b), "balance") {
						l.balance = b
					} else {
						l.chRed = b
					}
				}
			case mtx && len(maps) >= 2:
				l.mgrTyp = typeFull(tm.Type())
				for _, m := range maps {
					if strings.Contains(strings.ToLower(m), "inbound") {
						l.inbound = m
					} else {
						l.outbound = m
					}
				}
			}
		}
	}
	if l.lane == "" || l.ch == "" || l.balance == "" || l.chRed == "" || l.inbound == "" {
		return nil, fmt.Sprintf("the ledger of the payment manager was not recognised: %+v", *l)
	}
	return l, ""
}

// lin: an amount as a linear combination of named amounts.
type lin struct {
	k    map[string]int
	ok   bool
	why  string
	uses []linUse
}

type linUse struct {
	n     *Node
	field string
}

func (a lin) add(b lin, s int) lin {
	out := lin{k: map[string]int{}, ok: a.ok && b.ok, why: a.why + b.why, uses: append(append([]linUse(nil), a.uses...), b.uses...)}
	for k, v := range a.k {
		out.k[k] += v
	}
	for k, v := range b.k {
		out.k[k] += s * v
	}
	for k, v := range out.k {
		if v == 0 {
			delete(out.k, k)
		}
	}
	return out
}

func (a lin) is(want map[string]int) bool {
	if !a.ok || len(a.k) != len(want) {
		return false
	}
	for k, v := range want {
		if a.k[k] != v {
			return false
		}
	}
	return true
}

func (a lin) String() string {
	if !a.ok {
		return "an amount that cannot be followed (" + a.why + ")"
	}
	var ks []string
	for k := range a.k {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := ""
	for _, k := range ks {
		out += fmt.Sprintf("%+d*%s ", a.k[k], k)
	}
	if out == "" {
		return "0"
	}
	return strings.TrimSpace(out)
}

type payGraph struct {
	g    *G
	l    *ledger
	atom func(v Val) string // names of amounts from outside ("" unknown)
	busy map[busyAt]bool
}

// stateField: the ledger field an address denotes.
func (p *payGraph) stateField(v Val) (field string, base Val, ok bool) {
	v = p.g.resolve(v)
	fa, isFA := v.v.(*ssa.FieldAddr)
	if !isFA {
		return "", v, false
	}
	t, f := typeFull(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)
	switch {
	case t == p.l.lane && f == p.l.nonce:
		field = "lane.nonce"
	case t == p.l.lane && f == p.l.laneRed:
		field = "lane.redeemed"
	case t == p.l.ch && f == p.l.balance:
		field = "channel.balance"
	case t == p.l.ch && f == p.l.chRed:
		field = "channel.redeemed"
	default:
		return "", v, false
	}
	return field, p.g.resolve(Val{v.ctx, fa.X}), true
}

func bad(format string, a ...interface{}) lin {
	return lin{why: fmt.Sprintf(format, a...)}
}

func (p *payGraph) atomOf(name string, n *Node) lin {
	return lin{k: map[string]int{name: 1}, ok: true, uses: []linUse{{n, name}}}
}

func (p *payGraph) nodeOf(v Val) *Node {
	if ins, ok := v.v.(ssa.Instruction); ok {
		return v.ctx.nodes[ins]
	}
	return nil
}

type busyAt struct {
	v  Val
	at *Node
}

// bigRoot: the big.Int object a chain of operations returns.
func (p *payGraph) bigRoot(v Val) Val {
	for {
		v = p.g.resolve(v)
		c, ok := v.v.(*ssa.Call)
		if !ok || !bigMutator(p.g.u.CalleeName(c)) || len(args(c)) == 0 {
			return v
		}
		v = Val{v.ctx, args(c)[0]}
	}
}

// mutators: the big.Int operations that write into the object.
func (p *payGraph) mutators(v Val) []Val {
	var out []Val
	g := p.g
	root := p.bigRoot(v)
	for _, n := range g.nodes {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !bigMutator(g.u.CalleeName(c)) || len(args(c)) == 0 {
			continue
		}
		if p.bigRoot(Val{n.ctx, args(c)[0]}) == root {
			out = append(out, Val{n.ctx, c})
		}
	}
	return out
}

// content: what the object holds at a place, when the operations that write into it follow each other in a straight line.
func (p *payGraph) content(ms []Val, at *Node) lin {
	if at == nil {
		return bad("it is changed in several places")
	}
	var last *Node
	for _, m := range ms {
		n := p.nodeOf(m)
		if n == nil {
			return bad("it is changed in several places")
		}
		reach := after(n)
		if reach[n] {
			return bad("it is changed again and again")
		}
		if n == at || !reach[at] {
			continue
		}
		if last == nil || after(last)[n] {
			last = n
		}
	}
	if last == nil {
		return bad("it is changed in several places")
	}
	for _, m := range ms {
		n := p.nodeOf(m)
		if n != last && after(n)[last] != after(n)[at] || n != last && n != at && after(last)[n] && after(n)[at] {
			return bad("it is changed in several places")
		}
	}
	if !p.onEveryWay(last, at) {
		return bad("it is only changed on some ways")
	}
	return p.op(Val{last.ctx, last.instr.(ssa.Value)})
}

// onEveryWay: the place is only reached by way of the other.
func (p *payGraph) onEveryWay(via, at *Node) bool {
	seen := map[*Node]bool{}
	st := []*Node{at}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == via || seen[x] {
			continue
		}
		seen[x] = true
		if len(x.preds) == 0 {
			return false
		}
		for _, e := range x.preds {
			st = append(st, e.from)
		}
	}
	return true
}

func (p *payGraph) form(v Val, at *Node) lin {
	g := p.g
	v = g.resolve(v)
	bk := busyAt{v, at}
	if p.busy[bk] || len(p.busy) > 60 {
		return bad("it depends on itself")
	}
	p.busy[bk] = true
	defer delete(p.busy, bk)
	if f, _, ok := p.stateField(v); ok {
		return p.atomOf(f, at)
	}
	if a := p.atom(v); a != "" {
		return p.atomOf(a, at)
	}
	if n := p.nodeOf(v); n != nil {
		if u, ok := v.v.(*ssa.UnOp); ok {
			_ = u
			at = n
		}
	}
	switch x := v.v.(type) {
	case *ssa.Call:
		name := g.u.CalleeName(x)
		n := v.ctx.nodes[x]
		as := args(x)
		switch name {
		case "math/big.NewInt":
			if ms := p.mutators(v); len(ms) == 1 {
				return p.op(ms[0])
			} else if len(ms) > 1 {
				return p.content(ms, at)
			}
			if c, ok := as[0].(*ssa.Const); ok {
				if isZeroConst(c) {
					return lin{k: map[string]int{}, ok: true}
				}
				return p.atomOf("const:"+c.Value.ExactString(), n)
			}
			return bad("it is built from %s", as[0].Name())
		}
		if bigMutator(name) {
			if ms := p.mutators(Val{v.ctx, as[0]}); len(ms) > 1 {
				if _, _, ok := p.stateField(Val{v.ctx, as[0]}); !ok {
					return p.content(ms, at)
				}
			}
			return p.op(v)
		}
	case *ssa.Alloc:
		if ms := p.mutators(v); len(ms) == 1 && len(allStores(x)) == 0 {
			return p.op(ms[0])
		} else if len(ms) == 0 && len(allStores(x)) == 1 {
			s := allStores(x)[0]
			return p.form(Val{v.ctx, s.Val}, v.ctx.nodes[s])
		} else if len(ms) == 0 && len(allStores(x)) == 0 {
			return lin{k: map[string]int{}, ok: true}
		} else if len(ms) > 1 && len(allStores(x)) == 0 {
			return p.content(ms, at)
		}
		return bad("it is changed in several places")
	case *ssa.UnOp:
		a := g.resolve(Val{v.ctx, x.X})
		if _, isPtr := x.Type().Underlying().(*types.Pointer); !isPtr {
			return p.form(a, at)
		}
		if al, ok := a.v.(*ssa.Alloc); ok {
			if ss := allStores(al); len(ss) == 1 {
				return p.form(Val{a.ctx, ss[0].Val}, a.ctx.nodes[ss[0]])
			}
		}
		// the pointer inside a wrapper
		if fa, ok := a.v.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Int" {
			return p.form(Val{a.ctx, fa.X}, at)
		}
	}
	// a wrapper around a big.Int: what is written into it
	if strings.HasSuffix(typeFull(v.v.Type()), ".FIL") || strings.HasSuffix(typeFull(v.v.Type()), "big.Int") || strings.HasSuffix(typeFull(v.v.Type()), ".BigInt") {
		var ms []Val
		k := g.objkey(v).s
		for _, n := range g.nodes {
			c, ok := n.instr.(*ssa.Call)
			if !ok || n.after || !bigMutator(g.u.CalleeName(c)) {
				continue
			}
			if s := g.objkey(Val{n.ctx, args(c)[0]}).s; s == k+".Int" || s == k {
				ms = append(ms, Val{n.ctx, c})
			}
		}
		if len(ms) == 1 {
			return p.op(ms[0])
		}
	}
	return bad("%s", g.key(v).s)
}

// op: the value a big.Int operation stores.
func (p *payGraph) op(v Val) lin {
	c := v.v.(*ssa.Call)
	name := strings.TrimPrefix(p.g.u.CalleeName(c), "math/big.Int.")
	as := args(c)
	n := v.ctx.nodes[c]
	arg := func(i int) lin { return p.form(Val{v.ctx, as[i]}, n) }
	switch name {
	case "Add":
		return arg(1).add(arg(2), 1)
	case "Sub":
		return arg(1).add(arg(2), -1)
	case "Set":
		return arg(1)
	}
	return bad("big.Int.%s", name)
}

type ledgerWrite struct {
	n     *Node
	field string
	form  lin
	nonce Val
}

// writes to the books (not the initial values of a new entry).
func (p *payGraph) writes() []ledgerWrite {
	g := p.g
	var out []ledgerWrite
	for _, n := range g.nodes {
		if n.after || !g.reachable(n) {
			continue
		}
		switch x := n.instr.(type) {
		case *ssa.Store:
			f, b, ok := p.stateField(Val{n.ctx, x.Addr})
			if !ok {
				continue
			}
			if _, fresh := b.v.(*ssa.Alloc); fresh {
				continue
			}
			w := ledgerWrite{n: n, field: f}
			if f == "lane.nonce" {
				w.nonce = Val{n.ctx, x.Val}
			} else {
				w.form = p.form(Val{n.ctx, x.Val}, n)
			}
			out = append(out, w)
		case *ssa.Call:
			name := g.u.CalleeName(x)
			if !bigMutator(name) || len(args(x)) == 0 {
				continue
			}
			f, b, ok := p.stateField(Val{n.ctx, args(x)[0]})
			if !ok {
				continue
			}
			if _, fresh := b.v.(*ssa.Alloc); fresh {
				continue
			}
			out = append(out, ledgerWrite{n: n, field: f, form: p.op(Val{n.ctx, x})})
		}
	}
	return out
}

// ledgerWriteField: the field of the books a node changes ("" none).
func ledgerWriteField(p *payGraph, n *Node) string {
	switch x := n.instr.(type) {
	case *ssa.Store:
		if f, b, ok := p.stateField(Val{n.ctx, x.Addr}); ok {
			if _, fresh := b.v.(*ssa.Alloc); !fresh {
				return f
			}
		}
	case *ssa.Call:
		if bigMutator(p.g.u.CalleeName(x)) && len(args(x)) > 0 {
			if f, b, ok := p.stateField(Val{n.ctx, args(x)[0]}); ok {
				if _, fresh := b.v.(*ssa.Alloc); !fresh {
					return f
				}
			}
		}
	}
	return ""
}

// after: nodes reachable from n (n itself only through a cycle).
func after(n *Node) map[*Node]bool {
	seen := map[*Node]bool{}
	var st []*Node
	for _, e := range n.succs {
		st = append(st, e.to)
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, e := range x.succs {
			st = append(st, e.to)
		}
	}
	return seen
}

// stale: an amount read from the books after they were changed.
func stale(f lin, ws []ledgerWrite) string {
	for _, u := range f.uses {
		for _, w := range ws {
			if w.field == u.field && w.field != "channel.balance" && u.n != nil && after(w.n)[u.n] {
				return "it uses " + u.field + " after that was changed"
			}
		}
	}
	return ""
}

// atLeast: the facts say that form >= 0 (strict: > 0) for one of the comparisons made.
func (p *payGraph) atLeast(st *FSet, want map[string]int, strict bool, ws []ledgerWrite) bool {
	g := p.g
	for k := range st.m {
		f := &g.facts[k]
		if len(f.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			v, ok := g.factVal(f, i)
			if !ok {
				continue
			}
			c, idx := callOf(v)
			if c == nil || idx != 0 {
				continue
			}
			name := g.u.CalleeName(c)
			if !strings.HasPrefix(name, "math/big.Int.Cmp") && name != "math/big.Int.Sign" {
				continue
			}
			rel := f.pred
			if i == 1 {
				switch f.pred {
				case "<":
					rel = ">"
				case "<=":
					rel = ">="
				}
			}
			ge, le, gt, lt := signFacts(rel + f.args[1-i])
			n := v.ctx.nodes[c]
			as := args(c)
			d := p.form(Val{v.ctx, as[0]}, n)
			if name != "math/big.Int.Sign" {
				d = d.add(p.form(Val{v.ctx, as[1]}, n), -1)
			}
			if stale(d, ws) != "" {
				continue
			}
			neg := map[string]int{}
			for k, v := range want {
				neg[k] = -v
			}
			if d.is(want) && (gt || ge && !strict) || d.is(neg) && (lt || le && !strict) {
				return true
			}
		}
	}
	return false
}

// signFacts: what a relation of a three-way comparison's result to a constant says about its sign.
func signFacts(s string) (ge, le, gt, lt bool) {
	switch s {
	case ">const:0", ">=const:1", "==const:1":
		return true, false, true, false
	case "<const:0", "<=const:-1", "==const:-1":
		return false, true, false, true
	case ">=const:0", ">const:-1", "!=const:-1":
		return true, false, false, false
	case "<=const:0", "<const:1", "!=const:1":
		return false, true, false, false
	case "==const:0":
		return true, true, false, false
	}
	return
}

// flows: constants and calls a value is made of (data only).
func flows(g *G, v Val) (consts, calls map[string]bool, vals map[Val]bool) {
	consts, calls, vals = map[string]bool{}, map[string]bool{}, map[Val]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		v = g.resolve(v)
		if vals[v] {
			return
		}
		vals[v] = true
		switch x := v.v.(type) {
		case *ssa.Const:
			if x.Value != nil {
				consts[x.Value.ExactString()] = true
			}
			return
		case *ssa.Alloc:
			for _, s := range allStores(x) {
				walk(Val{v.ctx, s.Val})
			}
			return
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return
		}
		if c, idx := callOf(v); c != nil {
			if rs := g.results(v.ctx, c, idx); len(rs) > 0 {
				for _, o := range rs {
					walk(o)
				}
				return
			}
			calls[g.u.CalleeName(c)] = true
			for _, a := range args(c) {
				walk(Val{v.ctx, a})
			}
			return
		}
		if ins, ok := v.v.(ssa.Instruction); ok {
			for _, op := range ins.Operands(nil) {
				if op != nil && *op != nil {
					walk(Val{v.ctx, *op})
				}
			}
		}
	}
	walk(v)
	return
}

func hasSuffixIn(m map[string]bool, suf string) bool {
	for k := range m {
		if strings.HasSuffix(k, suf) {
			return true
		}
	}
	return false
}

func init() {
	register("P12", guardTech+" For vouchers, every exported function of the payment manager that decodes or issues one is expanded and solved; amounts are followed as linear combinations of the voucher's amount, the parameter and the books, and at every write to the books the facts on all paths must include the checks (recipient, signature, channel, nonce, amount, balance) and the value written must be the one they justify.", allMods, func(r *Run) {
		guardProperty(r, allMods)
		r.floor("guarded", 8)
		r.floor("atomic", 2)
		u := r.U("common")
		l, why := findLedger(u)
		if l == nil {
			r.ob("anchor", "ledger", false, "common/pkg/fcrpaymentmgr", why)
			return
		}
		r.rule("validated-before-credit", "at every change of the books for a received voucher: it was signed by the channel's payer, the channel pays this node, it is for this channel, its nonce is not below the lane's, its amount exceeds what the lane redeemed and the channel's balance covers it")
		r.rule("credit-exact", "the lane's nonce becomes the voucher's nonce + 1, the lane's redeemed amount the voucher's amount, the channel's redeemed amount grows by the difference, which is the amount reported")
		r.rule("credit-complete", "success is reported only after all three were recorded, and a refusal only when none was")
		r.rule("one-ledger-per-channel", "the table of inbound channels is keyed by the canonical form of the parsed channel address")
		r.rule("kept-in-books", "the lane and the channel that are changed are the ones the books hold under the voucher's lane and channel (or the recipient), or are put there")
		r.rule("voucher-covered", "a voucher is issued only if the channel's balance covers it, for the lane's amount redeemed plus the amount to pay, with the lane's nonce, and lane and channel are updated by exactly that")
		r.rule("topup-confirmed", "a channel enters the books, or its balance grows, only after the chain reported success, and by the amount asked for")
		for _, f := range u.Funcs {
			if f.Pkg == nil || f.Parent() != nil || f.Blocks == nil || shortPkg(f.Pkg.Pkg.Path()) != "common/pkg/fcrpaymentmgr" || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			payEntry(r, u, l, f)
		}
		r.floor("validated-before-credit", 3)
		r.floor("credit-exact", 4)
		r.floor("credit-complete", 2)
		r.floor("one-ledger-per-channel", 1)
		r.floor("voucher-covered", 5)
		r.floor("kept-in-books", 8)
		r.floor("topup-confirmed", 2)
	})
}

func payEntry(r *Run, u *Universe, l *ledger, f *ssa.Function) {
	p := &payGraph{l: l, busy: map[busyAt]bool{}, atom: func(Val) string { return "" }}
	cfg := &Config{Opaque: func(name string, k *ssa.Function) bool {
		return !strings.HasPrefix(name, "common/pkg/fcrpaymentmgr.")
	}}
	cfg.NodeGen = func(g *G, n *Node) []Fact {
		if n.after {
			return nil
		}
		if fl := ledgerWriteField(p, n); fl != "" {
			return []Fact{{pred: "recorded", args: []string{fl}}}
		}
		return nil
	}
	g := NewG(u, f, cfg)
	p.g = g
	g.Solve()
	var decoded, issued, pushed []*Node
	var verified []*Node
	for _, n := range g.nodes {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		name := g.u.CalleeName(c)
		switch {
		case strings.HasSuffix(name, "paych.DecodeSignedVoucher"):
			decoded = append(decoded, n)
		case strings.HasSuffix(name, "SignedVoucher.SigningBytes"):
			issued = append(issued, n)
		case strings.HasSuffix(name, ".MpoolPush"):
			pushed = append(pushed, n)
		case strings.HasSuffix(name, "lib/sigs.Verify"):
			verified = append(verified, n)
		}
	}
	r.count("functions of the payment manager expanded", 1)
	switch {
	case len(decoded) > 0:
		p.received(r, f, decoded[0], verified)
	case len(issued) > 0:
		p.paid(r, f, issued[0])
	case len(pushed) > 0:
		p.toppedUp(r, f, pushed)
	}
}

func extractOf(n *Node, i int) (Val, bool) {
	for _, e := range extracts(n.instr.(ssa.Value)) {
		if e.Index == i {
			return Val{n.ctx, e}, true
		}
	}
	return Val{}, false
}

func (p *payGraph) received(r *Run, f *ssa.Function, dec *Node, verified []*Node) {
	g := p.g
	con := FuncName(f)
	sv, ok := extractOf(dec, 0)
	if !ok {
		r.ob("anchor", con, false, g.where(dec), "the decoded voucher is not used")
		return
	}
	svk := g.objkey(sv).s
	p.atom = func(v Val) string {
		k := g.objkey(v).s
		if k == svk+".Amount.Int" || k == svk+".Amount" {
			return "amount"
		}
		return ""
	}
	ws := p.writes()
	inc := map[string]int{"amount": 1, "lane.redeemed": -1}
	seen := map[string]bool{}
	for _, w := range ws {
		seen[w.field] = true
		where := g.where(w.n)
		if w.field == "channel.balance" {
			_, calls, vals := flows(g, Val{w.n.ctx, w.n.instr.(*ssa.Store).Val})
			okB := hasSuffixIn(calls, ".StateReadState")
			_ = vals
			r.ob("validated-before-credit", con+" channel.balance", okB, where, "the balance of a channel is not the one read from the chain")
			continue
		}
		msg := ""
		miss := func(s string) {
			if msg == "" {
				msg = "changes " + w.field + " on a path on which " + s
			}
		}
		// signature
		sigOK := false
		for _, vn := range verified {
			as := args(vn.instr.(*ssa.Call))
			if len(as) != 3 || !g.has(w.n, Fact{pred: "ret0=nil", args: []string{g.token(Val{vn.ctx, vn.instr.(ssa.Value)})}}) {
				continue
			}
			if g.objkey(Val{vn.ctx, as[0]}).s != svk+".Signature" {
				continue
			}
			kc, kcalls, _ := flows(g, Val{vn.ctx, as[1]})
			_, mcalls, mvals := flows(g, Val{vn.ctx, as[2]})
			if hasSuffixIn(kcalls, ".StateAccountKey") && kc[`"From"`] && hasSuffixIn(mcalls, "SignedVoucher.SigningBytes") && mvals[g.resolve(sv)] {
				sigOK = true
			}
		}
		if !sigOK {
			miss("the voucher's signature was not verified with the key of the channel's payer")
		}
		// recipient, channel
		recOK, chOK := false, false
		for _, ft := range g.factsAt(w.n, "==") {
			for i := 0; i < 2; i++ {
				a := ft.args[i]
				b := ft.args[1-i]
				if strings.HasSuffix(a, ".address") {
					if v, ok := g.factVal(&ft, 1-i); ok {
						cc, calls, _ := flows(g, v)
						if hasSuffixIn(calls, ".StateAccountKey") && cc[`"To"`] {
							recOK = true
						}
					}
				}
				if a == svk+".ChannelAddr" {
					for _, rn := range g.nodes {
						c, ok := rn.instr.(*ssa.Call)
						if !ok || rn.after || !strings.HasSuffix(g.u.CalleeName(c), ".StateReadState") {
							continue
						}
						for _, x := range args(c) {
							if g.objkey(Val{rn.ctx, x}).s == b {
								chOK = true
							}
						}
					}
				}
			}
		}
		// the state may also be read for the voucher's own channel address
		for _, rn := range g.nodes {
			if c, ok := rn.instr.(*ssa.Call); ok && !rn.after && strings.HasSuffix(g.u.CalleeName(c), ".StateReadState") {
				for _, x := range args(c) {
					if g.objkey(Val{rn.ctx, x}).s == svk+".ChannelAddr" {
						chOK = true
					}
				}
			}
		}
		if !recOK {
			miss("the channel was not found to pay this node")
		}
		if !chOK {
			miss("the voucher was not found to be for the channel whose state was read")
		}
		switch w.field {
		case "lane.nonce":
			okN := false
			for _, pr := range []string{"<=", "<"} {
				for _, ft := range g.factsAt(w.n, pr) {
					if strings.HasSuffix(ft.args[0], "."+p.l.nonce) && strings.TrimLeft(ft.args[1], "*") == svk+".Nonce" {
						okN = true
					}
				}
			}
			if !okN {
				miss("the voucher's nonce was not found to be at least the lane's")
			}
			b, isB := g.resolve(w.nonce).v.(*ssa.BinOp)
			exact := isB && b.Op.String() == "+" && (g.objkey(Val{g.resolve(w.nonce).ctx, b.X}).s == svk+".Nonce" && isIntConst(b.Y, 1) || g.objkey(Val{g.resolve(w.nonce).ctx, b.Y}).s == svk+".Nonce" && isIntConst(b.X, 1))
			r.ob("credit-exact", con+" lane.nonce", exact, where, "the lane's nonce is not set to the voucher's nonce + 1")
		case "lane.redeemed":
			if !p.atLeast(w.n.in, inc, true, ws) {
				miss("the voucher's amount was not found to exceed what the lane redeemed")
			}
			st := stale(w.form, ws)
			r.ob("credit-exact", con+" lane.redeemed", w.form.is(map[string]int{"amount": 1}) && st == "", where, "the amount redeemed on the lane becomes "+w.form.String()+" instead of the voucher's amount "+st)
		case "channel.redeemed":
			if !p.atLeast(w.n.in, map[string]int{"channel.balance": 1, "channel.redeemed": -1, "amount": -1, "lane.redeemed": 1}, false, ws) {
				miss("the channel's balance was not found to cover what is redeemed")
			}
			st := stale(w.form, ws)
			r.ob("credit-exact", con+" channel.redeemed", w.form.is(map[string]int{"channel.redeemed": 1, "amount": 1, "lane.redeemed": -1}) && st == "", where, "the amount redeemed on the channel becomes "+w.form.String()+" instead of growing by the amount paid "+st)
		}
		r.ob("validated-before-credit", con+" "+w.field, msg == "", where, msg)
	}
	for _, fl := range []string{"lane.nonce", "lane.redeemed", "channel.redeemed"} {
		r.ob("validated-before-credit", con+" records "+fl, seen[fl], g.where(dec), "nothing is recorded in "+fl)
	}
	// success after all were recorded
	for _, n := range g.nodes {
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.ctx != g.root || !g.reachable(n) || len(ret.Results) == 0 {
			continue
		}
		g.ways(n.in, Val{n.ctx, ret.Results[0]}, func(st *FSet, v Val, leaf bool) bool {
			if isNilConst(v.v) {
				touched := ""
				for _, w := range ws {
					if w.field != "channel.balance" && after(w.n)[n] && !g.has(n, Fact{pred: "recorded", args: []string{"channel.redeemed"}}) {
						touched = w.field
					}
				}
				r.ob("credit-complete", con+" refusal", touched == "", g.where(n), "a refusal is reported after "+touched+" was changed")
				return true
			}
			if !leaf {
				return false
			}
			var missing []string
			for _, fl := range []string{"lane.nonce", "lane.redeemed", "channel.redeemed"} {
				if !g.has(n, Fact{pred: "recorded", args: []string{fl}}) {
					missing = append(missing, fl)
				}
			}
			r.ob("credit-complete", con+" success", len(missing) == 0, g.where(n), "an amount is reported as received although "+strings.Join(missing, ", ")+" was not recorded on every path")
			form := p.form(v, n)
			s := stale(form, ws)
			r.ob("credit-exact", con+" reported", form.is(inc) && s == "", g.where(n), "the amount reported is "+form.String()+" instead of the voucher's amount less what the lane had redeemed "+s)
			return true
		})
	}
	sameCh := map[string]bool{svk + ".ChannelAddr": true}
	for _, w := range ws {
		for _, ft := range g.factsAt(w.n, "==") {
			for i := 0; i < 2; i++ {
				if ft.args[i] == svk+".ChannelAddr" {
					sameCh[ft.args[1-i]] = true
				}
			}
		}
	}
	for _, rn := range g.nodes {
		if c, ok := rn.instr.(*ssa.Call); ok && !rn.after && strings.HasSuffix(g.u.CalleeName(c), ".StateReadState") {
			for _, x := range args(c) {
				if typeFull(x.Type()) == "github.com/filecoin-project/go-address.Address" {
					sameCh[g.objkey(Val{rn.ctx, x}).s] = true
				}
			}
		}
	}
	p.keptInBooks(r, con, ws, p.l.inbound,
		func(v Val) bool { return strings.TrimLeft(g.objkey(v).s, "*") == svk+".Lane" },
		func(v Val) bool {
			v = g.resolve(v)
			c, _ := callOf(v)
			return c == nil || len(args(c)) == 0 || sameCh[g.objkey(Val{v.ctx, args(c)[0]}).s]
		})
	// the key of the table
	for _, n := range g.nodes {
		mu, ok := n.instr.(*ssa.MapUpdate)
		if !ok || n.after || !strings.HasSuffix(g.key(Val{n.ctx, mu.Map}).s, "."+p.l.inbound) {
			continue
		}
		p.canonical(r, con, n, Val{n.ctx, mu.Key})
	}
	for _, n := range g.nodes {
		lk, ok := n.instr.(*ssa.Lookup)
		if !ok || n.after || !strings.HasSuffix(g.key(Val{n.ctx, lk.X}).s, "."+p.l.inbound) {
			continue
		}
		p.canonical(r, con, n, Val{n.ctx, lk.Index})
	}
}

// keptInBooks: what is changed is what the books hold: it was found in the table under the right key, or is put there.
func (p *payGraph) keptInBooks(r *Run, con string, ws []ledgerWrite, table string, laneKey, chKey func(v Val) bool) {
	g := p.g
	type tab struct {
		fld  string
		good func(v Val) bool
	}
	at := func(field string) tab {
		if strings.HasPrefix(field, "lane.") {
			return tab{p.l.lanesFld, laneKey}
		}
		return tab{table, chKey}
	}
	inTable := func(c *Ctx, m ssa.Value, fld string) bool {
		return strings.HasSuffix(g.key(Val{c, m}).s, "."+fld)
	}
	var exits []*Node
	for _, n := range g.nodes {
		if _, ok := n.instr.(*ssa.Return); ok && n.ctx == g.root && g.reachable(n) {
			exits = append(exits, n)
		}
	}
	for _, w := range ws {
		var addr ssa.Value
		switch x := w.n.instr.(type) {
		case *ssa.Store:
			addr = x.Addr
		case *ssa.Call:
			addr = args(x)[0]
		}
		fa, ok := g.resolve(Val{w.n.ctx, addr}).v.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		t := at(w.field)
		msg := ""
		for _, o := range g.origins(Val{g.resolve(Val{w.n.ctx, addr}).ctx, fa.X}) {
			var lk *ssa.Lookup
			switch x := o.v.(type) {
			case *ssa.Lookup:
				lk = x
			case *ssa.Extract:
				lk, _ = x.Tuple.(*ssa.Lookup)
			case *ssa.Alloc:
				an := p.nodeOf(o)
				if an == nil {
					continue
				}
				keeps := func(n *Node) bool {
					mu, ok := n.instr.(*ssa.MapUpdate)
					if !ok || n.after || !inTable(n.ctx, mu.Map, t.fld) || !t.good(Val{n.ctx, mu.Key}) {
						return false
					}
					for _, v := range g.origins(Val{n.ctx, mu.Value}) {
						if v == o {
							return true
						}
					}
					return false
				}
				if !pathBetween(an, w.n, keeps) {
					continue
				}
				for _, e := range exits {
					if pathBetween(w.n, e, keeps) {
						msg = "a new entry is changed that is not put into " + t.fld + " under its key: the next voucher is judged without what is recorded here"
					}
				}
				continue
			}
			if lk != nil && inTable(o.ctx, lk.X, t.fld) && !t.good(Val{o.ctx, lk.Index}) {
				msg = "the entry changed is looked up in " + t.fld + " under another key than the voucher's"
			}
		}
		r.ob("kept-in-books", con+" "+w.field, msg == "", g.where(w.n), msg)
	}
}

func (p *payGraph) canonical(r *Run, con string, n *Node, key Val) {
	c, _ := callOf(p.g.resolve(key))
	ok := c != nil && strings.HasSuffix(p.g.u.CalleeName(c), "go-address.Address.String")
	r.ob("one-ledger-per-channel", con, ok, p.g.where(n), "the table of inbound channels is used with a key other than the text form of the parsed address: the same channel could be credited twice under two names")
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	return c.Value.ExactString() == fmt.Sprint(n)
}

func (p *payGraph) paid(r *Run, f *ssa.Function, sb *Node) {
	g := p.g
	con := FuncName(f)
	var amt Val
	for _, pa := range f.Params {
		if typeFull(pa.Type()) == "math/big.Int" {
			amt = Val{g.root, pa}
		}
	}
	p.atom = func(v Val) string {
		if v == amt {
			return "amount"
		}
		return ""
	}
	ws := p.writes()
	cover := map[string]int{"channel.balance": 1, "channel.redeemed": -1, "amount": -1}
	covered := func(n *Node) bool { return p.atLeast(n.in, cover, false, ws) }
	r.ob("voucher-covered", con+" issue", covered(sb), g.where(sb), "a voucher is issued on a path on which the channel's balance was not found to cover it")
	seen := map[string]bool{}
	for _, w := range ws {
		seen[w.field] = true
		where := g.where(w.n)
		switch w.field {
		case "lane.nonce":
			b, isB := g.resolve(w.nonce).v.(*ssa.BinOp)
			ok := isB && b.Op.String() == "+" && (strings.HasSuffix(g.objkey(Val{g.resolve(w.nonce).ctx, b.X}).s, "."+p.l.nonce) && isIntConst(b.Y, 1))
			r.ob("voucher-covered", con+" lane.nonce", ok, where, "the lane's nonce does not grow by one with the voucher")
		case "lane.redeemed":
			s := stale(w.form, ws)
			r.ob("voucher-covered", con+" lane.redeemed", s == "" && w.form.is(map[string]int{"lane.redeemed": 1, "amount": 1}), where, "the lane's amount becomes "+w.form.String()+" "+s)
		case "channel.redeemed":
			s := stale(w.form, ws)
			r.ob("voucher-covered", con+" channel.redeemed", s == "" && covered(w.n) && w.form.is(map[string]int{"channel.redeemed": 1, "amount": 1}), where, "the channel's amount becomes "+w.form.String()+" "+s)
		case "channel.balance":
			r.ob("voucher-covered", con+" channel.balance", false, where, "paying changes the channel's balance")
		}
	}
	for _, fl := range []string{"lane.nonce", "lane.redeemed", "channel.redeemed"} {
		if !seen[fl] {
			r.ob("voucher-covered", con+" "+fl, false, g.where(sb), "nothing is recorded in "+fl)
		}
	}
	// the voucher
	sv := g.resolve(Val{sb.ctx, args(sb.instr.(*ssa.Call))[0]})
	lane := ""
	if al, ok := sv.v.(*ssa.Alloc); ok {
		for _, ref := range *al.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Lane" && fa.Referrers() != nil {
				for _, rr := range *fa.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
						lane = g.objkey(Val{sv.ctx, st.Val}).s
					}
				}
			}
		}
	}
	who := p.recipient(f)
	p.keptInBooks(r, con, ws, p.l.outbound,
		func(v Val) bool { return lane == "" || g.objkey(v).s == lane },
		func(v Val) bool { return g.resolve(v) == who })
	if al, ok := sv.v.(*ssa.Alloc); ok {
		for _, ref := range *al.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok || fa.Referrers() == nil {
				continue
			}
			for _, rr := range *fa.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok || st.Addr != fa {
					continue
				}
				n := sv.ctx.nodes[st]
				if n == nil {
					continue
				}
				v := Val{sv.ctx, st.Val}
				switch fieldName(fa.X.Type(), fa.Field) {
				case "Amount":
					form := p.form(v, n)
					s := stale(form, ws)
					r.ob("voucher-covered", con+" voucher amount", s == "" && form.is(map[string]int{"lane.redeemed": 1, "amount": 1}), g.where(n), "the voucher is for "+form.String()+" "+s)
				case "Nonce":
					k := g.objkey(v).s
					late := false
					for _, w := range ws {
						if w.field == "lane.nonce" && after(w.n)[n] {
							late = true
						}
					}
					r.ob("voucher-covered", con+" voucher nonce", strings.HasSuffix(k, "."+p.l.nonce) && !late, g.where(n), "the voucher's nonce is not the lane's")
				case "ChannelAddr":
					r.ob("voucher-covered", con+" voucher channel", strings.Contains(g.objkey(v).s, p.l.outbound), g.where(n), "the voucher is not for the recipient's channel")
				}
			}
		}
	}
	for _, n := range g.nodes {
		ret, ok := n.instr.(*ssa.Return)
		if !ok || n.ctx != g.root || !g.reachable(n) || len(ret.Results) < 2 {
			continue
		}
		g.ways(n.in, Val{n.ctx, ret.Results[1]}, func(st *FSet, v Val, leaf bool) bool {
			if c, ok := v.v.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == `""` {
				return true
			}
			if !leaf {
				return false
			}
			var missing []string
			for _, fl := range []string{"lane.nonce", "lane.redeemed", "channel.redeemed"} {
				if !g.has(n, Fact{pred: "recorded", args: []string{fl}}) {
					missing = append(missing, fl)
				}
			}
			r.ob("credit-complete", con+" success", len(missing) == 0, g.where(n), "a voucher is handed out although "+strings.Join(missing, ", ")+" was not recorded on every path")
			return true
		})
	}
}

// recipient: the parameter naming who is paid.
func (p *payGraph) recipient(f *ssa.Function) Val {
	for _, pa := range f.Params {
		if pa.Type().String() == "string" {
			return Val{p.g.root, pa}
		}
	}
	return Val{}
}

func (p *payGraph) toppedUp(r *Run, f *ssa.Function, pushed []*Node) {
	g := p.g
	con := FuncName(f)
	var amt Val
	for _, pa := range f.Params {
		if typeFull(pa.Type()) == "math/big.Int" {
			amt = Val{g.root, pa}
		}
	}
	p.atom = func(v Val) string {
		if v == amt {
			return "amount"
		}
		return ""
	}
	confirmed := func(n *Node) bool {
		for _, ft := range g.factsAt(n, "==") {
			for i := 0; i < 2; i++ {
				if strings.HasSuffix(ft.args[i], ".ExitCode") && ft.args[1-i] == "const:0" {
					return true
				}
			}
		}
		return false
	}
	ws := p.writes()
	who := p.recipient(f)
	p.keptInBooks(r, con, ws, p.l.outbound, func(Val) bool { return true }, func(v Val) bool { return g.resolve(v) == who })
	for _, w := range ws {
		if w.field != "channel.balance" {
			r.ob("topup-confirmed", con+" "+w.field, false, g.where(w.n), "a topup changes "+w.field)
			continue
		}
		r.ob("topup-confirmed", con+" balance", confirmed(w.n) && w.form.is(map[string]int{"channel.balance": 1, "amount": 1}), g.where(w.n), "the balance becomes "+w.form.String()+", or does so although the chain did not report success")
	}
	for _, n := range g.nodes {
		mu, ok := n.instr.(*ssa.MapUpdate)
		if !ok || n.after || !g.reachable(n) || !strings.HasSuffix(g.key(Val{n.ctx, mu.Map}).s, "."+p.l.outbound) {
			continue
		}
		v := g.resolve(Val{n.ctx, mu.Value})
		okAmt := false
		s := "its balance is not set"
		if al, ok := v.v.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				fa, ok := ref.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != p.l.balance || fa.Referrers() == nil {
					continue
				}
				for _, rr := range *fa.Referrers() {
					if st, ok := rr.(*ssa.Store); ok {
						form := p.form(Val{v.ctx, st.Val}, v.ctx.nodes[st])
						okAmt = form.is(map[string]int{"amount": 1})
						s = "its balance starts as " + form.String()
					}
				}
			}
		}
		r.ob("kept-in-books", con+" new channel", g.resolve(Val{n.ctx, mu.Key}) == who, g.where(n), "a channel is entered under another name than the recipient's")
		r.ob("topup-confirmed", con+" new channel", confirmed(n) && okAmt, g.where(n), "a new channel is recorded although the chain did not report success, or "+s)
	}
	if len(ws) == 0 {
		r.ob("topup-confirmed", con+" balance", false, g.where(pushed[0]), "a topup of a known channel is not recorded")
	}
}
