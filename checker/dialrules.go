package main

// P03: a request reaches the interface at which its kind is served, and a connection is served from the table of the address it came in at.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constReach: nodes reached when tests between constants are decided.
func (g *G) constReach() map[*Node]bool {
	seen := map[*Node]bool{}
	var st []*Node
	for _, n := range g.nodes {
		if len(n.preds) == 0 && n.ctx == g.root {
			st = append(st, n)
		}
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		for _, e := range n.succs {
			if e.isBr && e.cond != nil {
				if b, ok := e.cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
					x, okx := g.resolve(Val{n.ctx, b.X}).v.(*ssa.Const)
					y, oky := g.resolve(Val{n.ctx, b.Y}).v.(*ssa.Const)
					if okx && oky && x.Value != nil && y.Value != nil {
						same := x.Value.ExactString() == y.Value.ExactString()
						if (same == (b.Op == token.EQL)) != e.pol {
							continue
						}
					}
				}
			}
			st = append(st, e.to)
		}
	}
	return seen
}

func dialRules(u *Universe, r *Run) {
	const pkg = "common/pkg/fcrp2pserver"
	want := map[string][2]string{
		"RequestGatewayFromGateway":  {"Gateway", "GetNetworkInfoGateway"},
		"RequestGatewayFromProvider": {"Gateway", "GetNetworkInfoProvider"},
		"RequestProvider":            {"Provider", "GetNetworkInfoGateway"},
	}
	for _, f := range u.Funcs {
		if f.Pkg == nil || shortPkg(f.Pkg.Pkg.Path()) != pkg || f.Parent() != nil || len(f.Params) < 2 {
			continue
		}
		w, ok := want[f.Name()]
		if !ok {
			continue
		}
		g := NewG(u, f, &Config{Opaque: func(n string, fn *ssa.Function) bool { return !strings.HasPrefix(n, pkg) }})
		g.Solve()
		live := g.constReach()
		id := Val{g.root, f.Params[1]}
		for _, n := range g.nodes {
			c, isC := n.instr.(ssa.CallInstruction)
			if !isC || n.after || !live[n] {
				continue
			}
			name := u.CalleeName(c)
			m := name[strings.LastIndex(name, ".")+1:]
			switch {
			case strings.HasPrefix(m, "GetNetworkInfo"):
				r.ob("dialled-interface", FuncName(f)+": "+m, m == w[1], g.where(n), "the peer is contacted at "+m+" instead of "+w[1]+", where its handlers for these requests listen")
			case strings.HasSuffix(name, "FCRRegisterMgr.GetGateway") || strings.HasSuffix(name, "FCRRegisterMgr.GetProvider"):
				as := args(c)
				r.ob("dialled-interface", FuncName(f)+": looks up the peer", m == "Get"+w[0] && g.resolve(Val{n.ctx, as[len(as)-1]}) == id, g.where(n), "the peer dialled is not the "+strings.ToLower(w[0])+" asked for")
			}
		}
		for _, n := range g.nodes {
			var key ssa.Value
			switch x := n.instr.(type) {
			case *ssa.Lookup:
				if strings.Contains(x.X.Type().String(), "communicationChannel") {
					key = x.Index
				}
			case *ssa.MapUpdate:
				if strings.Contains(x.Map.Type().String(), "communicationChannel") {
					key = x.Key
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && strings.Contains(x.Call.Args[0].Type().String(), "communicationChannel") {
					key = x.Call.Args[1]
				}
			}
			if key == nil || n.after || !live[n] {
				continue
			}
			kv := g.resolve(Val{n.ctx, key})
			c, _ := callOf(kv)
			ok := c != nil && strings.HasSuffix(u.CalleeName(c), "NodeID.ToString") && g.resolve(Val{kv.ctx, args(c)[0]}) == id
			r.ob("dialled-interface", FuncName(f)+": pool", ok, g.where(n), "the table of connections is used under another name than that of the peer asked for")
		}
	}
	listenerTable(u, r, pkg)
	listenerTable(u, r, "common/pkg/fcrrestserver")
}

func blockInLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// outward: what a value is in the functions that hand it in (arguments of single calls, captured variables, single assignments).
// shared is set when it is read, in a goroutine of its own, from a variable that later rounds of a loop assign again.
func (u *Universe) outward(v ssa.Value, depth int) (out ssa.Value, shared bool) {
	if depth > 12 {
		return v, false
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		return u.outward(x.X, depth+1)
	case *ssa.MakeInterface:
		return u.outward(x.X, depth+1)
	case *ssa.Parameter:
		f := x.Parent()
		cs := u.callersOf(f)
		if len(cs) != 1 {
			return v, false
		}
		i := paramIndex(f, x)
		if a := cs[0].Common().Args; i >= 0 && i < len(a) {
			return u.outward(a[i], depth+1)
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return u.outward(b, depth+1)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return v, false
		}
		a, sh := u.outward(x.X, depth+1)
		al, ok := a.(*ssa.Alloc)
		if !ok {
			return v, sh
		}
		sts := allStores(al)
		if len(sts) != 1 {
			return v, sh
		}
		st := sts[0]
		if x.Parent() != al.Parent() && blockInLoop(st.Block()) && !blockInLoop(al.Block()) {
			sh = true
		}
		o, sh2 := u.outward(st.Val, depth+1)
		return o, sh || sh2
	}
	return v, false
}

func bindingOf(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	for i, x := range f.FreeVars {
		if x != fv || f.Parent() == nil {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
					return mc.Bindings[i]
				}
			}
		}
	}
	return nil
}

// listenerTable: the handlers used for a connection are those registered for the address it was accepted at.
func listenerTable(u *Universe, r *Run, pkg string) {
	var addrs []ssa.Value
	sharedLn := false
	for _, f := range u.Funcs {
		if f.Pkg == nil || shortPkg(f.Pkg.Pkg.Path()) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() || c.Common().Method.Name() != "Accept" {
					continue
				}
				ln, sh := u.outward(c.Common().Value, 0)
				sharedLn = sharedLn || sh
				ex, ok := ln.(*ssa.Extract)
				if !ok {
					continue
				}
				lc, ok := ex.Tuple.(*ssa.Call)
				if !ok || u.CalleeName(lc) != "net.Listen" {
					continue
				}
				a := lc.Call.Args[1]
				if bo, ok := a.(*ssa.BinOp); ok && bo.Op == token.ADD {
					a = bo.Y
				}
				x, _ := u.outward(a, 0)
				addrs = append(addrs, x)
				r.ob("listener-table", FuncName(f)+": listener", !sharedLn, u.Pos(ins.Pos()), "the listener is read from a variable the next round of the loop assigns again")
			}
		}
	}
	for _, f := range u.Funcs { // or the library accepts the connections
		if f.Pkg == nil || shortPkg(f.Pkg.Pkg.Path()) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || !strings.HasPrefix(u.CalleeName(c), "net/http.ListenAndServe") {
					continue
				}
				a := c.Call.Args[0]
				if bo, ok := a.(*ssa.BinOp); ok && bo.Op == token.ADD {
					a = bo.Y
				}
				x, sh := u.outward(a, 0)
				addrs = append(addrs, x)
				r.ob("listener-table", FuncName(f)+": address", !sh, u.Pos(ins.Pos()), "the address is read from a variable the next round of the loop assigns again")
			}
		}
	}
	if len(addrs) != 1 {
		return
	}
	for _, f := range u.Funcs {
		if f.Pkg == nil || shortPkg(f.Pkg.Pkg.Path()) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				lk, ok := ins.(*ssa.Lookup)
				if !ok || !strings.HasPrefix(lk.X.Type().String(), "map[string]map[int32]func") {
					continue
				}
				// registration looks up the table of the address it is given
				only := true
				if refs := lk.Referrers(); refs != nil {
					for _, rf := range *refs {
						vals := []ssa.Instruction{rf}
						if ex, ok := rf.(*ssa.Extract); ok {
							vals = *ex.Referrers()
						}
						for _, x := range vals {
							switch x.(type) {
							case *ssa.MapUpdate, *ssa.If, *ssa.DebugRef:
							default:
								only = false
							}
						}
					}
				}
				if only {
					continue
				}
				x, sh := u.outward(lk.Index, 0)
				r.ob("listener-table", FuncName(f)+": handlers", x == addrs[0] && !sh, u.Pos(ins.Pos()), "a connection is served with the handlers of another address than the one it was accepted at")
			}
		}
	}
}
