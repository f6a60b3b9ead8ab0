package main

// P20: a pooled peer connection serves one exchange at a time; a failed one is closed and leaves the pool first.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const p2pPkg = "common/pkg/fcrp2pserver."

// channelType: the struct holding a connection and the mutex of its exchanges.
type channelType struct {
	full       string
	conn, lock int
	lockName   string
}

func findChannels(u *Universe) map[string]*channelType {
	out := map[string]*channelType{}
	p := u.Prog.ImportedPackage(repoPrefix + strings.TrimSuffix(p2pPkg, "."))
	if p == nil {
		return out
	}
	for _, m := range p.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		st, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		c := &channelType{full: typeFull(t.Type()), conn: -1, lock: -1}
		for i := 0; i < st.NumFields(); i++ {
			if isConnType(st.Field(i).Type()) {
				c.conn = i
			}
			if isMutexType(st.Field(i).Type()) {
				c.lock, c.lockName = i, st.Field(i).Name()
			}
		}
		if c.conn >= 0 && c.lock >= 0 {
			out[c.full] = c
		}
	}
	return out
}

func isConnType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net" && (n.Obj().Name() == "Conn" || n.Obj().Name() == "TCPConn")
}

func isPoolMap(t types.Type, chans map[string]*channelType) *channelType {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return nil
	}
	return chans[typeFull(m.Elem())]
}

// connHolder: the pooled channel a connection was taken from.
func connHolder(g *G, v Val, chans map[string]*channelType) (Val, *channelType) {
	r := g.resolve(v)
	u, ok := r.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return Val{}, nil
	}
	fa, ok := g.resolve(Val{r.ctx, u.X}).v.(*ssa.FieldAddr)
	if !ok {
		return Val{}, nil
	}
	c := chans[typeFull(fa.X.Type())]
	if c == nil || fa.Field != c.conn {
		return Val{}, nil
	}
	return g.resolve(Val{g.resolve(Val{r.ctx, u.X}).ctx, fa.X}), c
}

// connOf: the connection a reader or writer was built around.
func connOf(g *G, v Val) []Val {
	var out []Val
	for _, o := range g.origins(v) {
		al, ok := o.v.(*ssa.Alloc)
		if !ok {
			return nil
		}
		for _, rf := range *al.Referrers() {
			fa, ok := rf.(*ssa.FieldAddr)
			if !ok || !isConnType(fa.Type().Underlying().(*types.Pointer).Elem()) {
				continue
			}
			for _, w := range *fa.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					out = append(out, Val{o.ctx, st.Val})
				}
			}
		}
	}
	return out
}

func isChannelEnd(t types.Type) bool {
	n := typeFull(t)
	return n == p2pPkg+"FCRServerReader" || n == p2pPkg+"FCRServerWriter"
}

func (s *lstate) holds(g *G, ch Val, c *channelType) bool {
	want := g.objkey(ch).s + "." + c.lockName
	for _, h := range s.held {
		if h.excl && h.class == c.full+"."+c.lockName && (h.is(want) || h.key == want || strings.TrimLeft(h.key, "*&") == strings.TrimLeft(want, "*&")) {
			return true
		}
	}
	return false
}

// errExtract: the error among the results of a call.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func init() {
	register("P20", guardTech+" Every exported operation of the peer server that runs an exchange is walked path by path, once with the exchange failing and once with it succeeding, following locks, removals and closes.", []string{"common", "gateway", "provider"}, func(r *Run) {
		guardProperty(r, []string{"common", "gateway", "provider"})
		u := r.U("common")
		r.rule("exchange-locked", "a requester is run on a pooled connection only while the exclusive lock of that connection's channel is held, and reads and writes on one and the same channel")
		r.rule("failed-closed-removed", "before the lock is given up after a failed exchange, the connection has been closed and removed from the pool (or was no longer the pooled one)")
		r.rule("remove-own", "after a failed exchange only the failed channel itself is removed from the pool")
		r.rule("one-per-peer", "a new connection enters the pool only where no connection to that peer is in it")
		r.rule("pooled-under-dialled", "a connection is pooled under the identifier of the node whose address was dialled")
		r.rule("dialled-kept-or-closed", "a connection that was opened is put into the pool or closed before the operation returns")
		chans := findChannels(u)
		if len(chans) == 0 {
			r.ob("anchor", "pooled connections", false, "-", "no struct with a connection and a mutex found")
			return
		}
		ws := lockWorlds(r, []string{"common"})
		nex := 0
		for _, f := range u.Funcs {
			if f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(FuncName(f), p2pPkg) {
				continue
			}
			g := NewG(u, f, &Config{Loose: true, NodeKill: staleMapFacts, Opaque: func(name string, k *ssa.Function) bool {
				return !strings.HasPrefix(name, p2pPkg) || isChannelEnd(recvType(k))
			}})
			g.Solve()
			if p2pEntry(r, u, ws[0], g, chans) {
				nex++
			}
		}
		if nex < 2 {
			r.ob("anchor", "exchanges", false, "-", "fewer than two operations running an exchange on a pooled connection found")
		}
		r.count("operations with an exchange", nex)
		r.floor("exchange-locked", 2)
		r.floor("failed-closed-removed", 2)
		r.floor("one-per-peer", 1)
		r.floor("dialled-kept-or-closed", 2)
	})
}

func recvType(f *ssa.Function) types.Type {
	if f != nil && f.Signature.Recv() != nil {
		return f.Signature.Recv().Type()
	}
	return types.Typ[types.Invalid]
}

func p2pEntry(r *Run, u *Universe, l *lockWorld, g *G, chans map[string]*channelType) bool {
	con := FuncName(g.entry)
	// exchanges: calls of a requester
	type exch struct {
		ch  Val
		c   *channelType
		tok string
	}
	exchanges := map[*Node]*exch{}
	dials := map[*Node]string{}
	for _, n := range g.nodes {
		call, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		name := u.CalleeName(call)
		if strings.HasPrefix(name, "net.Dial") || name == "net.Dialer.Dial" || name == "net.Dialer.DialContext" {
			dials[n] = g.token(Val{n.ctx, call})
			continue
		}
		if n.ctx.children[call] != nil || strings.HasPrefix(name, p2pPkg) {
			continue
		}
		var ends []Val
		for _, a := range call.Call.Args {
			if isChannelEnd(a.Type()) {
				ends = append(ends, Val{n.ctx, a})
			}
		}
		if len(ends) == 0 {
			continue
		}
		var hold []Val
		var c *channelType
		known, alone := true, 0
		for _, e := range ends {
			cs := connOf(g, e)
			known = known && len(cs) > 0
			for _, cv := range cs {
				h, hc := connHolder(g, cv, chans)
				if hc == nil {
					alone++
					continue
				}
				hold, c = append(hold, h), hc
			}
		}
		if len(hold) == 0 && known {
			continue // an accepted connection: served by one goroutine (no pooled channel)
		}
		ok = known && alone == 0
		for _, h := range hold {
			ok = ok && g.objkey(h).s == g.objkey(hold[0]).s
		}
		if !ok {
			r.ob("exchange-locked", con, false, g.where(n), "the reader and the writer handed to the requester are not both built on the connection of one pooled channel")
			continue
		}
		exchanges[n] = &exch{hold[0], c, g.token(Val{n.ctx, call})}
	}
	if len(exchanges) == 0 && len(dials) == 0 {
		return false
	}
	r.count("graph nodes", len(g.nodes))
	same := func(a, b Val) bool {
		ka, kb := g.objkey(a).s, g.objkey(b).s
		return ka == kb && ka != ""
	}
	// pooled: what a value is if it was looked up in a pool
	pooled := func(v Val) *ssa.Lookup {
		for _, o := range append([]Val{g.resolve(v)}, g.origins(v)...) {
			x := o.v
			if e, ok := x.(*ssa.Extract); ok {
				x = e.Tuple
			}
			if lk, ok := x.(*ssa.Lookup); ok && isPoolMap(lk.X.Type(), chans) != nil {
				return lk
			}
		}
		return nil
	}
	unlocked, foreign := "", ""
	leaks := map[string]bool{}
	outcome := map[string]string{} // exchange token -> first failure
	hook := func(x *lockRun, n *Node, s *lstate) *lstate {
		// results of the calls that were decided to fail or to succeed
		if ex, ok := n.instr.(*ssa.Extract); ok && !n.after {
			if call, ok := ex.Tuple.(*ssa.Call); ok {
				t := g.token(Val{n.ctx, call})
				if ex.Index == errIndex(call.Call.Signature()) {
					if s.marked("bad:" + t) {
						s = s.setNil(Val{n.ctx, ex}, false, true)
					} else if s.marked("good:" + t) {
						s = s.setNil(Val{n.ctx, ex}, true, true)
					}
				}
			}
		}
		// a failed exchange whose lock is free again
		for _, e := range exchanges {
			m := "bad:" + e.tok
			if s.marked(m) && !s.holds(g, e.ch, e.c) {
				why := ""
				if !s.marked("removed:" + e.tok) {
					why = "removed from the pool"
				}
				if !s.marked("closed:" + e.tok) {
					if why != "" {
						why += " and "
					}
					why += "closed"
				}
				if why != "" && outcome[e.tok] == "" {
					outcome[e.tok] = why
				}
				s = s.mark("judged:" + e.tok)
			}
		}
		if e := exchanges[n]; e != nil {
			if !s.holds(g, e.ch, e.c) {
				unlocked = g.where(n)
			}
			s = s.unmark(func(m string) bool { return strings.HasSuffix(m, ":"+e.tok) })
			return s.mark("good:" + e.tok)
		}
		if t := dials[n]; t != "" {
			return s.mark("good:" + t).mark("open:" + t)
		}
		call, isCall := n.instr.(ssa.CallInstruction)
		if isCall && !n.after {
			cc := call.Common()
			if cc.IsInvoke() && isConnType(cc.Value.Type()) {
				h, c := connHolder(g, Val{n.ctx, cc.Value}, chans)
				if c == nil && cc.Method.Name() == "Close" {
					for dn, t := range dials {
						if dialled(g, Val{n.ctx, cc.Value}, dn) {
							s = s.mark("shut:" + t)
						}
					}
				}
				if c != nil {
					for _, e := range exchanges {
						if same(h, e.ch) && s.marked("bad:"+e.tok) && cc.Method.Name() == "Close" && s.holds(g, h, c) {
							s = s.mark("closed:" + e.tok)
						}
					}
				}
			}
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" && isPoolMap(cc.Args[0].Type(), chans) != nil {
				for _, e := range exchanges {
					if !s.marked("bad:" + e.tok) {
						continue
					}
					if s.marked("own:" + e.tok) {
						s = s.mark("removed:" + e.tok)
					} else if foreign == "" {
						foreign = g.where(n)
					}
				}
			}
		}
		if mu, ok := n.instr.(*ssa.MapUpdate); ok && !n.after && isPoolMap(mu.Map.Type(), chans) != nil {
			for dn, t := range dials {
				for _, o := range g.origins(Val{n.ctx, mu.Value}) {
					if al, ok := o.v.(*ssa.Alloc); ok && chans[typeFull(al.Type())] != nil {
						for _, cv := range connOf(g, o) {
							if dialled(g, cv, dn) {
								s = s.mark("shut:" + t)
							}
						}
					}
				}
			}
		}
		return s
	}
	fork := func(x *lockRun, n *Node, s *lstate) []*lstate {
		if e := exchanges[n]; e != nil && s.marked("good:"+e.tok) {
			return []*lstate{s.unmark(func(m string) bool { return m == "good:"+e.tok }).mark("bad:" + e.tok)}
		}
		if t := dials[n]; t != "" && s.marked("good:"+t) {
			return []*lstate{s.unmark(func(m string) bool { return m == "good:"+t || m == "open:"+t }).mark("bad:" + t)}
		}
		return nil
	}
	edge := func(x *lockRun, e *Edge, s *lstate) *lstate {
		if !e.isBr {
			return s
		}
		c := e.from.ctx
		cv, pol := Val{c, e.cond}, e.pol
		for {
			if v, ok := cv.v.(*ssa.UnOp); ok && v.Op == token.NOT {
				cv, pol = Val{cv.ctx, v.X}, !pol
				continue
			}
			break
		}
		cv = g.resolve(cv)
		for {
			if v, ok := cv.v.(*ssa.UnOp); ok && v.Op == token.NOT {
				cv, pol = g.resolve(Val{cv.ctx, v.X}), !pol
				continue
			}
			break
		}
		if ex, ok := cv.v.(*ssa.Extract); ok && ex.Index == 1 && !pol {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok && isPoolMap(lk.X.Type(), chans) != nil {
				for _, e := range exchanges {
					if s.marked("bad:" + e.tok) {
						s = s.mark("removed:" + e.tok).mark("closed:" + e.tok)
					}
				}
			}
		}
		b, ok := cv.v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return s
		}
		p, q := Val{cv.ctx, b.X}, Val{cv.ctx, b.Y}
		eq := (b.Op == token.EQL) == pol
		for _, e := range exchanges {
			if !s.marked("bad:" + e.tok) {
				continue
			}
			if same(q, e.ch) {
				p, q = q, p
			}
			lq := pooled(q)
			switch {
			case same(p, e.ch) && lq != nil && eq:
				s = s.mark("own:" + e.tok)
			case same(p, e.ch) && lq != nil && !eq:
				s = s.mark("removed:" + e.tok).mark("closed:" + e.tok) // whoever removed it closed it
			case isNilConst(q.v) && eq && pooled(p) != nil:
				s = s.mark("removed:" + e.tok).mark("closed:" + e.tok)
			}
		}
		return s
	}
	y := walkWith(l, g, hook, fork, edge)
	if y.capped {
		r.ob("bounded", con, false, u.Pos(g.entry.Pos()), "too many states")
	}
	for _, rn := range g.root.rets {
		for _, s := range y.states(rn) {
			for _, e := range exchanges {
				if s.marked("bad:"+e.tok) && !s.marked("judged:"+e.tok) && !s.holds(g, e.ch, e.c) && !(s.marked("removed:"+e.tok) && s.marked("closed:"+e.tok)) {
					outcome[e.tok] = "removed from the pool and closed"
				}
			}
			for dn, t := range dials {
				if s.marked("open:"+t) && !s.marked("shut:"+t) {
					leaks[g.where(dn)] = true
				}
			}
		}
	}
	if len(exchanges) > 0 {
		r.ob("exchange-locked", con, unlocked == "", unlocked, "runs the requester on a pooled connection whose lock is not held exclusively")
		bad := ""
		for _, w := range outcome {
			bad = w
		}
		r.ob("failed-closed-removed", con, bad == "", u.Pos(g.entry.Pos()), "after a failed exchange the lock can be given up before the connection was "+bad)
		r.ob("remove-own", con, foreign == "", foreign, "removes a channel from the pool that need not be the one that failed")
	}
	if len(dials) > 0 {
		var ls []string
		for k := range leaks {
			ls = append(ls, k)
		}
		sort.Strings(ls)
		r.ob("dialled-kept-or-closed", con, len(ls) == 0, strings.Join(ls, ", "), "an opened connection is neither pooled nor closed on some path")
	}
	for _, n := range g.nodes {
		mu, ok := n.instr.(*ssa.MapUpdate)
		if !ok || n.after || !g.reachable(n) || isPoolMap(mu.Map.Type(), chans) == nil {
			continue
		}
		mk, kk := g.key(Val{n.ctx, mu.Map}), g.key(Val{n.ctx, mu.Key})
		free := g.has(n, mkFact("notinmap", mk, kk))
		mk.s = strings.TrimLeft(mk.s, "*")
		for _, f := range g.factsAt(n, "isnil") {
			free = free || strings.TrimLeft(f.args[0], "*") == mk.s+"["+kk.s+"]"
		}
		r.ob("one-per-peer", FuncName(n.ctx.fn), free, g.where(n), "puts a connection into the pool without having found the place empty")
		// the node whose address was dialled
		for dn := range dials {
			for _, o := range g.origins(Val{n.ctx, mu.Value}) {
				al, ok := o.v.(*ssa.Alloc)
				if !ok || chans[typeFull(al.Type())] == nil {
					continue
				}
				for _, cv := range connOf(g, o) {
					if !dialled(g, cv, dn) {
						continue
					}
					bs := newBackSlice(g)
					for _, a := range dn.instr.(*ssa.Call).Call.Args {
						bs.add(Val{dn.ctx, a})
					}
					ids := map[string]bool{}
					for v := range bs.seen {
						c, ok := v.v.(*ssa.Call)
						if !ok {
							continue
						}
						if nm := u.CalleeName(c); strings.HasSuffix(nm, "FCRRegisterMgr.GetGateway") || strings.HasSuffix(nm, "FCRRegisterMgr.GetProvider") {
							ids[g.objkey(Val{v.ctx, args(c)[1]}).s] = true
						}
					}
					good := len(ids) == 1
					for id := range ids {
						good = good && strings.Contains(kk.s, id)
					}
					r.ob("pooled-under-dialled", FuncName(n.ctx.fn), good, g.where(n), "the connection is pooled under another identifier than the one whose address was looked up and dialled")
				}
			}
		}
	}
	return len(exchanges) > 0
}

// dialled: the value is the connection this call opened.
func dialled(g *G, v Val, dn *Node) bool {
	for _, o := range append([]Val{g.resolve(v)}, g.origins(v)...) {
		if ex, ok := o.v.(*ssa.Extract); ok && ex.Index == 0 && o.ctx == dn.ctx && ex.Tuple == ssa.Value(dn.instr.(*ssa.Call)) {
			return true
		}
	}
	return false
}
