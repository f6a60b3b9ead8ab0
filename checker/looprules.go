package main

// P29: what a loop keeps for one element is not changed by the next.
//
// For every memory cell, structure, list and table that exists before an iteration begins, the analysis follows where
// its address goes. It is an alarm when, in a cycle of the control flow that does not make the object anew, the object
// is changed and its address is kept (in a table, list, field, channel, goroutine, deferred call or a variable of the
// next iteration).

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopSink struct {
	ins  ssa.Instruction
	why  string
	same bool // always the same place
	held bool // through a holder (a list, a structure, a closure)
}

type loopFlow struct {
	l      *loopWorld
	fn     *ssa.Function
	addr   map[ssa.Value]bool // values that point into the object
	hold   map[ssa.Value]bool // values that hold (or point to something that holds) such values
	sinks  []loopSink
	mods   []ssa.Instruction
	fills  []ssa.Instruction
	ret    map[int]bool
	obj    ssa.Value // the object, nil for a parameter
	given  bool      // followed for what a call does with a parameter
	sinked map[ssa.Instruction]bool
	modded map[ssa.Instruction]bool
	work   bool
}

type keepSum struct {
	kept, modified bool
	why            string
	results        map[int]bool
}

type loopWorld struct {
	u    *Universe
	sums map[ssa.Value]*keepSum
	deep int
}

var noSum = &keepSum{results: map[int]bool{}}

// summary: what the function does with a parameter or a captured variable.
func (l *loopWorld) summary(f *ssa.Function, p ssa.Value) *keepSum {
	if s, ok := l.sums[p]; ok {
		return s
	}
	if f.Blocks == nil || l.deep > 12 {
		return noSum
	}
	l.sums[p] = noSum
	l.deep++
	fl := l.follow(f, nil, p)
	l.deep--
	s := &keepSum{results: fl.ret, modified: len(fl.mods) > 0}
	if len(fl.sinks) > 0 {
		s.kept = true
		s.why = fl.sinks[0].why
	}
	l.sums[p] = s
	return s
}

func (l *loopWorld) follow(f *ssa.Function, obj ssa.Value, seeds ...ssa.Value) *loopFlow {
	fl := &loopFlow{l: l, fn: f, obj: obj, addr: map[ssa.Value]bool{}, hold: map[ssa.Value]bool{}, ret: map[int]bool{}, sinked: map[ssa.Instruction]bool{}, modded: map[ssa.Instruction]bool{}}
	for _, s := range seeds {
		fl.addr[s] = true
		switch s.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			fl.given = obj == nil
		}
	}
	for i := 0; i < 30; i++ {
		fl.work = false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fl.visit(ins)
			}
		}
		if !fl.work {
			break
		}
	}
	return fl
}

func (fl *loopFlow) a(v ssa.Value) {
	if !fl.addr[v] && carries(v.Type()) {
		fl.addr[v] = true
		fl.work = true
	}
}

func (fl *loopFlow) h(v ssa.Value) {
	if !fl.hold[v] && carries(v.Type()) {
		fl.hold[v] = true
		fl.work = true
	}
}

func (fl *loopFlow) t(v ssa.Value) bool { return fl.addr[v] || fl.hold[v] }

func (fl *loopFlow) sink(ins ssa.Instruction, why string, same, held bool) {
	if !fl.sinked[ins] {
		fl.sinked[ins] = true
		fl.sinks = append(fl.sinks, loopSink{ins, why, same, held})
	}
}

func (fl *loopFlow) mod(ins ssa.Instruction) {
	if !fl.modded[ins] {
		fl.modded[ins] = true
		fl.mods = append(fl.mods, ins)
	}
}

// carries: a value of the type can carry a reference.
func carries(t types.Type) bool { return carries1(t, 0) }
func carries1(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if carries1(x.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return carries1(x.Elem(), d+1)
	case *types.Tuple:
		return true
	}
	return true
}

// memRoot: the object an address lies in.
func memRoot(v ssa.Value) ssa.Value {
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// local: memory made in this function, which holds things only as long as it is itself kept.
func (fl *loopFlow) local(root ssa.Value) bool {
	switch x := root.(type) {
	case *ssa.Alloc:
		return fl.obj == nil || x == fl.obj || !fl.older(x)
	case *ssa.MakeMap, *ssa.MakeSlice:
		return fl.obj == nil || root == fl.obj || !fl.older(root)
	}
	return false
}

// once: the object is put into memory made in this function, and not again in a cycle it survives.
func (fl *loopFlow) once(at ssa.Instruction, root ssa.Value) bool {
	ob, ok := fl.obj.(ssa.Instruction)
	if !ok {
		return false
	}
	switch root.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return !cycleAvoiding(at.Block(), at.Block(), ob.Block())
	}
	return false
}

// older: the memory is not made anew in the cycles the object survives.
func (fl *loopFlow) older(v ssa.Value) bool {
	ob, ok := fl.obj.(ssa.Instruction)
	vi, ok2 := v.(ssa.Instruction)
	if !ok || !ok2 {
		return ok2 && !reachesB(vi.Block(), vi.Block())
	}
	return !cycleAvoiding(vi.Block(), vi.Block(), ob.Block())
}

// cycleAvoiding: there is a way from a to b and back that does not pass the block where the object is made.
func cycleAvoiding(a, b, not *ssa.BasicBlock) bool {
	if a == not || b == not {
		return false
	}
	return wayAvoiding(a, b, not) && wayAvoiding(b, a, not)
}

func wayAvoiding(a, b, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == not || seen[x] {
			continue
		}
		if x == b {
			return true
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func (fl *loopFlow) invariant(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return fl.invariant(x.X)
	case *ssa.IndexAddr:
		return fl.invariant(x.X) && fl.invariant(x.Index)
	case *ssa.UnOp:
		return x.Op == token.MUL && fl.invariant(x.X)
	case ssa.Instruction:
		ob, ok := fl.obj.(ssa.Instruction)
		if !ok {
			return !reachesB(x.Block(), x.Block())
		}
		return !cycleAvoiding(x.Block(), x.Block(), ob.Block())
	}
	return false
}

func (fl *loopFlow) visit(ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if fl.addr[e] {
				fl.a(x)
			}
			if fl.hold[e] {
				fl.h(x)
			}
			if fl.t(e) && x.Block().Dominates(x.Block().Preds[i]) && e != ssa.Value(x) {
				if fl.hold[e] || isCell(fl.obj) {
					fl.sink(x, "is kept in a variable of the following iterations", false, true)
				}
			}
		}
	case *ssa.ChangeType:
		fl.copyOf(x, x.X)
	case *ssa.Convert:
		fl.copyOf(x, x.X)
	case *ssa.MakeInterface:
		fl.copyOf(x, x.X)
	case *ssa.ChangeInterface:
		fl.copyOf(x, x.X)
	case *ssa.TypeAssert:
		fl.copyOf(x, x.X)
	case *ssa.Slice:
		fl.copyOf(x, x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			fl.result(c, x, x.Index)
			return
		}
		fl.copyOf(x, x.Tuple)
	case *ssa.Field:
		fl.copyOf(x, x.X)
	case *ssa.Index:
		fl.copyOf(x, x.X)
	case *ssa.FieldAddr:
		fl.copyOf(x, x.X)
	case *ssa.IndexAddr:
		fl.copyOf(x, x.X)
	case *ssa.Lookup:
		if fl.hold[x.X] {
			fl.a(x)
		}
	case *ssa.Next:
		if fl.hold[x.Iter] {
			fl.a(x)
		}
	case *ssa.Range:
		fl.copyOf(x, x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL && fl.hold[x.X] {
			fl.a(x)
			fl.h(x)
		}
	case *ssa.Store:
		if fl.addr[x.Addr] {
			fl.mod(x)
		}
		if fl.t(x.Val) {
			root := memRoot(x.Addr)
			if fl.local(root) || fl.once(x, root) {
				fl.h(root)
				fl.h(x.Addr)
			} else {
				_, el := x.Addr.(*ssa.IndexAddr)
				fl.sink(x, "is stored in "+placeName(x.Addr), fl.invariant(x.Addr), el)
			}
		}
	case *ssa.MapUpdate:
		if fl.addr[x.Map] {
			fl.mod(x)
		}
		if fl.t(x.Value) || fl.t(x.Key) {
			if fl.local(memRoot(x.Map)) || fl.once(x, memRoot(x.Map)) {
				fl.h(memRoot(x.Map))
			} else {
				fl.sink(x, "is stored in a table", fl.invariant(x.Map) && fl.invariant(x.Key), false)
			}
		}
	case *ssa.Send:
		if fl.t(x.X) {
			fl.sink(x, "is sent over a channel", false, false)
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Send != nil && fl.t(s.Send) {
				fl.sink(x, "is sent over a channel", false, false)
			}
		}
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			if fl.t(b) {
				fl.h(x)
			}
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if fl.t(v) && !fl.ret[i] {
				fl.ret[i] = true
				fl.work = true
			}
		}
	case *ssa.Go:
		fl.launched(x, "is used by a goroutine")
	case *ssa.Defer:
		switch {
		case fl.onlySync(x):
		case fl.given:
			// runs before the function returns: what it keeps itself counts
			for _, ca := range fl.callees(x) {
				for i, p := range ca.params {
					if !fl.t(ca.args[i]) {
						continue
					}
					s := fl.l.summary(ca.fn, p)
					if s.kept {
						fl.sink(x, "is kept by "+short(ca.fn)+" ("+s.why+")", false, false)
					}
					if s.modified && fl.addr[ca.args[i]] {
						fl.mod(x)
					}
				}
			}
		default:
			fl.launched(x, "is used by a deferred call")
		}
	case *ssa.Call:
		fl.call(x)
	}
}

func (fl *loopFlow) onlySync(x ssa.CallInstruction) bool {
	n := fl.l.u.CalleeName(x)
	return strings.HasPrefix(n, "sync.")
}

func isCell(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func placeName(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return "the field " + fieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return "a list"
	case *ssa.Global:
		return "the package variable " + x.Name()
	}
	return "a variable that outlives the iteration"
}

func (fl *loopFlow) copyOf(x, from ssa.Value) {
	if fl.addr[from] {
		fl.a(x)
	}
	if fl.hold[from] {
		fl.h(x)
	}
}

func (fl *loopFlow) launched(c ssa.CallInstruction, why string) {
	cc := c.Common()
	if fl.t(cc.Value) {
		fl.sink(c, why, false, true)
	}
	for _, a := range cc.Args {
		if fl.t(a) {
			fl.sink(c, why, false, true)
		}
	}
}

func (fl *loopFlow) result(c *ssa.Call, v ssa.Value, idx int) {
	for _, ca := range fl.callees(c) {
		for i, p := range ca.params {
			if i < len(ca.args) && fl.t(ca.args[i]) && fl.l.summary(ca.fn, p).results[idx] {
				if fl.addr[ca.args[i]] {
					fl.a(v)
				}
				fl.h(v)
			}
		}
	}
}

type loopCallee struct {
	fn     *ssa.Function
	params []ssa.Value
	args   []ssa.Value
}

func (fl *loopFlow) callees(c ssa.CallInstruction) (out []loopCallee) {
	cc := c.Common()
	var fns []*ssa.Function
	as := cc.Args
	if cc.IsInvoke() {
		fns = fl.l.u.Implementations(cc.Value.Type(), cc.Method.Name())
		as = append([]ssa.Value{cc.Value}, cc.Args...)
	} else if f := cc.StaticCallee(); f != nil {
		fns = []*ssa.Function{f}
	}
	for _, f := range fns {
		if f.Blocks == nil || !isRepoFunc(f) {
			continue
		}
		lc := loopCallee{fn: f}
		for i, p := range f.Params {
			if i < len(as) {
				lc.params = append(lc.params, p)
				lc.args = append(lc.args, as[i])
			}
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				lc.params = append(lc.params, f.FreeVars[i])
				lc.args = append(lc.args, b)
			}
		}
		out = append(out, lc)
	}
	return
}

func (fl *loopFlow) call(c *ssa.Call) {
	cc := c.Common()
	name := fl.l.u.CalleeName(c)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if fl.t(cc.Args[0]) {
				fl.copyOf(c, cc.Args[0])
				if fl.addr[cc.Args[0]] && emptied(cc.Args[0], map[ssa.Value]bool{}) {
					fl.mod(c)
				}
			}
			if len(cc.Args) > 1 && fl.hold[cc.Args[1]] {
				fl.h(c)
			}
		case "copy":
			if fl.addr[cc.Args[0]] {
				fl.mod(c)
			}
			if fl.hold[cc.Args[1]] {
				if r := memRoot(cc.Args[0]); fl.local(r) {
					fl.h(r)
				} else {
					fl.sink(c, "is stored in a list", false, true)
				}
			}
		}
		return
	}
	cs := fl.callees(c)
	for _, ca := range cs {
		for i, p := range ca.params {
			if !fl.t(ca.args[i]) {
				continue
			}
			s := fl.l.summary(ca.fn, p)
			if s.kept {
				fl.sink(c, "is kept by "+short(ca.fn)+" ("+s.why+")", false, false)
			}
			if s.modified && fl.addr[ca.args[i]] {
				fl.mod(c)
			}
			if cc.Signature().Results().Len() == 1 {
				fl.result(c, c, 0)
			}
		}
	}
	if len(cs) > 0 {
		return
	}
	as := args(c)
	any := false
	for _, a := range as {
		if fl.t(a) {
			any = true
		}
	}
	if !any {
		return
	}
	base := baseOfName(name)
	switch {
	case fillsInterface(name), base == "Read", base == "ReadFull", base == "ReadAtLeast", base == "ReadAt":
		for i, a := range as {
			if fl.addr[a] && !(i == 0 && cc.Signature().Recv() != nil) {
				fl.mod(c)
				if fillsInterface(name) {
					fl.fills = append(fl.fills, c)
				}
			}
			if els := varargs(a); els != nil {
				for _, e := range els {
					if fl.addr[unwrap(e)] {
						fl.mod(c)
					}
				}
			}
		}
	case len(bigChanges(name)) > 0:
		for _, i := range bigChanges(name) {
			if i < len(as) && fl.addr[as[i]] {
				fl.mod(c)
			}
		}
		if fl.addr[as[0]] {
			fl.a(c)
		}
	case name == "time.AfterFunc", base == "PushBack" || base == "PushFront", strings.HasPrefix(name, "sync.Map.") && (base == "Store" || base == "LoadOrStore" || base == "Swap"),
		name == "container/heap.Push", name == "sync/atomic.Value.Store", name == "context.WithValue":
		for i, a := range as {
			if fl.t(a) && !(i == 0 && cc.Signature().Recv() != nil) {
				fl.sink(c, "is kept by "+name, false, true)
			}
		}
	case name == "bytes.NewBuffer" || name == "bytes.NewReader" || strings.HasPrefix(name, "bufio.New"):
		fl.h(c)
	}
}

// emptied: the list is cut back to no elements before it is appended to, so that its memory is used again.
func emptied(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
			return false // a list made here
		}
		return x.High != nil && isZeroConst(x.High) || emptied(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if emptied(e, seen) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return emptied(x.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, s := range allStores(al) {
				if emptied(s.Val, seen) {
					return true
				}
			}
		}
	}
	return false
}

// shareable: memory that is meant to be shared between iterations.
func shareable(t types.Type) bool {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic" || p == "context"
}

func init() {
	register("P29", "Objects that live longer than one iteration are followed interprocedurally: where their address is kept, and where they are changed. Keeping and changing one in the same cycle of the control flow, without making it anew, is reported.",
		[]string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin", "register"}, func(r *Run) {
			r.rule("own-item", "an object whose address is kept in a loop (in a list, a table, a field, a message, a channel, a goroutine or a deferred call) is not changed by the following iterations")
			for _, mod := range []string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin", "register"} {
				loopModule(r, r.U(mod))
			}
			r.rule("aligned", "lists that are sent together and describe the same items grow together on every way, and items of lists received together are used in pairs")
			r.rule("parts-meet", "a list that is worked off in parts is cut where the part before ends")
			r.floor("own-item", 40)
			r.floor("aligned", 8)
		})
}

func loopModule(r *Run, u *Universe) {
	l := &loopWorld{u: u, sums: map[ssa.Value]*keepSum{}}
	l.aligned(r, u)
	for _, f := range u.Funcs {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || !u.Roots[root.Pkg] || f.Blocks == nil {
			continue
		}
		loops := false
		for _, b := range f.Blocks {
			if b.Index > 0 && reachesB(b, b) {
				loops = true
			}
		}
		if !loops {
			continue
		}
		r.count("functions with loops", 1)
		var objs []ssa.Value
		for _, fv := range f.FreeVars {
			objs = append(objs, fv)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Alloc:
					objs = append(objs, x)
				case *ssa.MakeSlice:
					objs = append(objs, x)
				case *ssa.MakeMap:
					objs = append(objs, x)
				case *ssa.Call:
					if _, ok := x.Type().Underlying().(*types.Pointer); ok && isRepoType(x.Type()) {
						objs = append(objs, x)
					}
				case *ssa.Extract:
					if _, ok := x.Type().Underlying().(*types.Pointer); ok && isRepoType(x.Type()) {
						objs = append(objs, x)
					}
				}
			}
		}
		for _, o := range objs {
			l.object(r, f, o)
		}
		ownPosition(r, u, f)
		partsMeet(r, u, f)
	}
}

func (l *loopWorld) object(r *Run, f *ssa.Function, o ssa.Value) {
	if shareable(o.Type()) {
		return
	}
	r.count("objects followed", 1)
	fl := l.follow(f, o, o)
	var not *ssa.BasicBlock
	if oi, ok := o.(ssa.Instruction); ok {
		not = oi.Block()
	}
	in := func(a, b ssa.Instruction) bool {
		if not == nil {
			return reachesB(a.Block(), b.Block()) && reachesB(b.Block(), a.Block())
		}
		return cycleAvoiding(a.Block(), b.Block(), not)
	}
	name := o.Name()
	if al, ok := o.(*ssa.Alloc); ok && al.Comment != "" {
		name = al.Comment
	}
	inLoop := false
	why, where := "", ""
	judge := func(sinks []loopSink, mods []ssa.Instruction, what string) {
		for _, s := range sinks {
			if !reachesB(s.ins.Block(), s.ins.Block()) {
				continue
			}
			inLoop = true
			if s.same && !directCell(o, mods) {
				continue
			}
			for _, m := range mods {
				if in(s.ins, m) && m != s.ins {
					why = what + s.why + ", and the next iteration changes it (" + l.u.Pos(m.Pos()) + ")"
					where = l.u.Pos(s.ins.Pos())
				}
			}
		}
	}
	judge(fl.sinks, fl.mods, "")
	// a variable decoded into again and again: lists in it use the same memory
	if al, ok := o.(*ssa.Alloc); ok && len(fl.fills) > 0 && why == "" && carries(al.Type().Underlying().(*types.Pointer).Elem()) {
		var loads []ssa.Value
		for _, ref := range *al.Referrers() {
			if ld, ok := ref.(*ssa.UnOp); ok && ld.Op == token.MUL {
				loads = append(loads, ld)
			}
		}
		if len(loads) > 0 {
			f2 := l.follow(f, nil, loads...)
			f2.obj = o
			judge(f2.sinks, fl.fills, "what was decoded into it ")
		}
	}
	if inLoop {
		if where == "" {
			where = l.u.Pos(o.Pos())
		}
		r.ob("own-item", short(f)+" "+name, why == "", where, "the address of "+name+" "+why)
	}
}

// directCell: the object is a variable that is assigned as a whole.
func directCell(o ssa.Value, mods []ssa.Instruction) bool {
	if !isCell(o) {
		return false
	}
	for _, m := range mods {
		if s, ok := m.(*ssa.Store); ok && s.Addr == o {
			return true
		}
	}
	return false
}

// parallel: the lists (numbered among the list arguments) of a message kind that describe the same items.
var parallel = map[string][]int{
	"ClientDHTDiscoverOfferRequest": {0, 1}, "ClientDHTDiscoverOfferResponse": {0, 1}, "ClientDHTDiscoverResponse": {0, 1}, "ClientDHTDiscoverResponseV2": {0, 1},
	"ClientStandardDiscoverOfferResponse": {0, 1}, "ClientStandardDiscoverResponse": {0, 1}, "ClientStandardDiscoverResponseV2": {0, 1},
	"GatewayDHTDiscoverOfferResponse": {0, 1}, "GatewayDHTDiscoverResponse": {0, 1}, "GatewayDHTDiscoverResponseV2": {0, 1},
	"ProviderAdminPublishDHTOfferRequest": {0, 1, 2, 3},
}

type listOrigin struct {
	appends map[*ssa.Call]bool
	front   map[*ssa.Call]bool // of these, those that put items before the others
	srcs    map[ssa.Value]bool // lists received from elsewhere
	params  map[*ssa.Parameter]bool
}

func originOfList(v ssa.Value, o *listOrigin, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.MakeSlice:
		if !isZeroConst(x.Len) {
			o.srcs[x] = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			originOfList(e, o, seen)
		}
	case *ssa.ChangeType:
		originOfList(x.X, o, seen)
	case *ssa.MakeInterface:
		originOfList(x.X, o, seen)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && (at.Len() == 0 || x.High != nil && isZeroConst(x.High)) {
				return
			}
		}
		o.srcs[x] = true
	case *ssa.Parameter:
		o.params[x] = true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			o.appends[x] = true
			if literalItems(x.Call.Args[0]) && !literalItems(x.Call.Args[1]) {
				// the new items are put before the ones there are
				o.front[x] = true
				originOfList(x.Call.Args[1], o, seen)
				return
			}
			originOfList(x.Call.Args[0], o, seen)
			return
		}
		o.srcs[x] = true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, s := range allStores(al) {
				originOfList(s.Val, o, seen)
			}
			return
		}
		o.srcs[x] = true
	default:
		o.srcs[v] = true
	}
}

// literalItems: a list written out where it is used, with items.
func literalItems(v ssa.Value) bool {
	x, ok := v.(*ssa.Slice)
	if !ok || x.Low != nil || x.High != nil {
		return false
	}
	al, ok := x.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	return ok && at.Len() > 0
}

func newOrigin(v ssa.Value) *listOrigin {
	o := &listOrigin{appends: map[*ssa.Call]bool{}, front: map[*ssa.Call]bool{}, srcs: map[ssa.Value]bool{}, params: map[*ssa.Parameter]bool{}}
	originOfList(v, o, map[ssa.Value]bool{})
	return o
}

func isList(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func (l *loopWorld) aligned(r *Run, u *Universe) {
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				name := baseOfName(u.CalleeName(c))
				if kind := strings.TrimPrefix(name, "Encode"); kind != name && parallel[kind] != nil && strings.HasPrefix(u.CalleeName(c), "common/pkg/fcrmessages.") {
					var ls []ssa.Value
					for _, a := range c.Call.Args {
						if isList(a.Type()) {
							ls = append(ls, a)
						}
					}
					ix := parallel[kind]
					for i := 1; i < len(ix); i++ {
						if ix[i] < len(ls) {
							l.pair(r, kind, c, ls[ix[0]], ls[ix[i]], 0)
						}
					}
				}
				if kind := strings.TrimPrefix(name, "Decode"); kind != name && parallel[kind] != nil && strings.HasPrefix(u.CalleeName(c), "common/pkg/fcrmessages.") {
					l.usedTogether(r, kind, c)
				}
			}
		}
	}
}

// pair: two lists given to a call at the same place describe the same items in the same order.
func (l *loopWorld) pair(r *Run, kind string, use ssa.CallInstruction, a, b ssa.Value, depth int) {
	f := use.Parent()
	oa, ob := newOrigin(a), newOrigin(b)
	if len(oa.params) > 0 && len(ob.params) > 0 && len(oa.appends)+len(ob.appends) == 0 && depth < 4 {
		for pa := range oa.params {
			for pb := range ob.params {
				l.climbPair(r, kind, f, pa, pb, depth+1)
			}
		}
		return
	}
	con := short(f) + " lists of " + kind
	switch {
	case len(oa.appends) == 0 && len(ob.appends) == 0:
		return
	case len(oa.appends) > 0 && len(ob.appends) > 0:
	default:
		// one is collected, the other was received: one item per item of the other
		if len(oa.appends) > 0 {
			oa, ob = ob, oa
		}
		if len(oa.srcs)+len(oa.params) == 0 {
			return // no list at all
		}
	}
	d := &diffWalk{f: f, use: use, a: oa, b: ob}
	why := d.run()
	if why == "" && (len(oa.front) > 0) != (len(ob.front) > 0) {
		why = "one of the lists has its items in the reverse order of the other: new items are put before the ones there are"
	}
	r.ob("aligned", con, why == "", l.u.Pos(use.Pos()), why)
}

func (l *loopWorld) climbPair(r *Run, kind string, f *ssa.Function, pa, pb *ssa.Parameter, depth int) {
	ia, ib := paramIndex(f, pa), paramIndex(f, pb)
	for _, c := range l.callsOf(f) {
		as := c.Common().Args
		if c.Common().IsInvoke() {
			as = append([]ssa.Value{c.Common().Value}, as...)
		}
		if ia < len(as) && ib < len(as) {
			l.pair(r, kind, c, as[ia], as[ib], depth)
		}
	}
}

func (l *loopWorld) callsOf(f *ssa.Function) (out []ssa.CallInstruction) {
	for _, g := range l.u.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if cc.StaticCallee() == f {
					out = append(out, c)
				}
				if cc.IsInvoke() && cc.Method.Name() == f.Name() {
					for _, im := range l.u.Implementations(cc.Value.Type(), cc.Method.Name()) {
						if im == f {
							out = append(out, c)
						}
					}
				}
			}
		}
	}
	return
}

// diffWalk: how many more items one list has than the other, on every way to the call.
type diffWalk struct {
	f    *ssa.Function
	use  ssa.CallInstruction
	a, b *listOrigin
}

// bodyOf: the edges that begin an iteration over one of the lists.
func (d *diffWalk) begins(from, to *ssa.BasicBlock) bool {
	if len(d.a.appends) > 0 {
		return false
	}
	i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] != to {
		return false
	}
	cmp, ok := i.Cond.(*ssa.BinOp)
	if !ok || !reachesB(to, from) {
		return false
	}
	is := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return false
		}
		o := newOrigin(c.Call.Args[0])
		for s := range o.srcs {
			if d.a.srcs[s] {
				return true
			}
		}
		for p := range o.params {
			if d.a.params[p] {
				return true
			}
		}
		return false
	}
	switch cmp.Op {
	case token.LSS, token.NEQ:
		return is(cmp.Y)
	case token.GTR:
		return is(cmp.X)
	}
	return false
}

func (d *diffWalk) run() string {
	type st struct {
		b *ssa.BasicBlock
		n int
	}
	seen := map[st]bool{}
	work := []st{{d.f.Blocks[0], 0}}
	iterated := len(d.a.appends) > 0
	why := ""
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] || s.n > 4 || s.n < -4 {
			continue
		}
		seen[s] = true
		n := s.n
		for _, ins := range s.b.Instrs {
			if ins == ssa.Instruction(d.use) && n != 0 {
				why = "one of the lists has an item more than the other on some way to this call, so that later items are taken for those of another"
			}
			if c, ok := ins.(*ssa.Call); ok {
				if d.a.appends[c] {
					n++
				}
				if d.b.appends[c] {
					n--
				}
			}
		}
		for _, t := range s.b.Succs {
			m := n
			if d.begins(s.b, t) {
				iterated = true
				m++
			}
			work = append(work, st{t, m})
		}
	}
	if !iterated && why == "" {
		why = "one of the lists is collected anew, item by item, and the other is passed on as it was received"
	}
	return why
}

// usedTogether: items of lists that were received together are used in pairs.
func (l *loopWorld) usedTogether(r *Run, kind string, dec *ssa.Call) {
	lists := map[int]ssa.Value{}
	for _, ex := range extracts(dec) {
		lists[ex.Index] = ex
	}
	tup := dec.Type().(*types.Tuple)
	var ls []ssa.Value
	for i := 0; i < tup.Len(); i++ {
		if isList(tup.At(i).Type()) {
			ls = append(ls, lists[i])
		}
	}
	var pick []ssa.Value
	for _, i := range parallel[kind] {
		if i < len(ls) {
			pick = append(pick, ls[i])
		}
	}
	l.together(r, kind, dec, pick, 0)
}

func (l *loopWorld) together(r *Run, kind string, dec *ssa.Call, ls []ssa.Value, depth int) {
	f := dec.Parent()
	// handed on to the callers
	res := make([]int, len(ls))
	handed := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range ret.Results {
			if !isList(v.Type()) {
				continue
			}
			o := newOrigin(v)
			for k, x := range ls {
				if x != nil && o.srcs[x] && res[k] == 0 {
					res[k] = i + 1
					handed++
				}
			}
		}
	}
	if handed > 1 && depth < 4 {
		for _, c := range l.callsOf(f) {
			cv, ok := c.(*ssa.Call)
			if !ok {
				continue
			}
			up := make([]ssa.Value, len(ls))
			for _, ex := range extracts(cv) {
				for k := range ls {
					if res[k] == ex.Index+1 {
						up[k] = ex
					}
				}
			}
			l.together(r, kind, cv, up, depth+1)
		}
	}
	var at []*ssa.IndexAddr
	of := map[*ssa.IndexAddr]int{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ia, ok := ins.(*ssa.IndexAddr)
			if !ok || !reachesB(b, b) {
				continue
			}
			o := newOrigin(ia.X)
			for i := range ls {
				if ls[i] != nil && o.srcs[ls[i]] {
					at = append(at, ia)
					of[ia] = i
				}
			}
		}
	}
	why, where := "", l.u.Pos(dec.Pos())
	for _, x := range at {
		for _, y := range at {
			if of[x] == of[y] || !(reachesB(x.Block(), y.Block()) && reachesB(y.Block(), x.Block())) {
				continue
			}
			if x.Index != y.Index && !(isConstV(x.Index) && isConstV(y.Index)) {
				why = "the items of the lists that are used together have different positions"
				where = l.u.Pos(y.Pos())
			}
		}
	}
	if len(at) > 0 {
		r.ob("aligned", short(f)+" uses the lists of "+kind, why == "", where, why)
	}
}

func isConstV(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// ownPosition: where a loop uses the items of a list at its position, it does not keep or send the item of another, fixed
// position of the same list.
func ownPosition(r *Run, u *Universe, f *ssa.Function) {
	for _, h := range f.Blocks {
		if !reachesB(h, h) {
			continue
		}
		for _, ins := range h.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if !isPosition(phi) {
				continue
			}
			at := map[ssa.Value]bool{}
			var other []*ssa.IndexAddr
			inLoop := func(b *ssa.BasicBlock) bool { return b == h || reachesB(b, h) && h.Dominates(b) }
			for _, b := range f.Blocks {
				if !inLoop(b) {
					continue
				}
				for _, x := range b.Instrs {
					ia, ok := x.(*ssa.IndexAddr)
					if !ok || !isList(ia.X.Type()) {
						continue
					}
					if ia.Index == ssa.Value(phi) || isNext(ia.Index, phi) {
						at[ia.X] = true
					} else if fixedPosition(ia.Index, 0) {
						other = append(other, ia)
					}
				}
			}
			for x := range at {
				bad := ""
				for _, ia := range other {
					if ia.X == x && givenAway(ia) {
						bad = u.Pos(ia.Pos())
					}
				}
				r.ob("own-item", short(f)+" keeps the items of "+listName(x)+" at its own position", bad == "", bad, "within a loop over the positions of the list, the item of a fixed position is kept or passed on")
			}
		}
	}
}

func listName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.UnOp:
		return placeName(x.X)
	}
	return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

// isPosition: the variable counts one up in each iteration.
func isPosition(phi *ssa.Phi) bool {
	for _, e := range phi.Edges {
		if isNext(e, phi) {
			return true
		}
	}
	return false
}

func isNext(v ssa.Value, phi *ssa.Phi) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
		return false
	}
	c, ok := b.Y.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 1
}

// fixedPosition: a constant, or the length of a list with a constant added or taken off.
func fixedPosition(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		return fixedPosition(x.X, d+1) && fixedPosition(x.Y, d+1)
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	case *ssa.Convert:
		return fixedPosition(x.X, d+1)
	}
	return false
}

// givenAway: the item, or its address, is stored or passed to a function other than as the receiver.
func givenAway(ia *ssa.IndexAddr) bool {
	given := func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.MapUpdate:
				if x.Value == v || x.Key == v {
					return true
				}
			case ssa.CallInstruction:
				cc := x.Common()
				for i, a := range cc.Args {
					if a == v && !(i == 0 && cc.Signature().Recv() != nil) {
						return true
					}
				}
			}
		}
		return false
	}
	if given(ia) {
		return true
	}
	for _, ref := range *ia.Referrers() {
		if ld, ok := ref.(*ssa.UnOp); ok && given(ld) {
			return true
		}
	}
	return false
}

// partsMeet: where a list is worked off in parts, the part that is kept begins where the part taken ends.
func partsMeet(r *Run, u *Universe, f *ssa.Function) {
	bounded := func(v ssa.Value) (int64, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		return c.Int64(), true
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			rest, ok := ins.(*ssa.Slice)
			if !ok || rest.Low == nil || rest.High != nil {
				continue
			}
			phi, ok := rest.X.(*ssa.Phi) // the list is replaced by its rest
			if !ok {
				continue
			}
			back := false
			for _, e := range phi.Edges {
				if e == ssa.Value(rest) {
					back = true
				}
				if p2, ok := e.(*ssa.Phi); ok {
					for _, e2 := range p2.Edges {
						if e2 == ssa.Value(rest) {
							back = true
						}
					}
				}
			}
			if !back {
				continue
			}
			for _, rf := range *phi.Referrers() {
				head, ok := rf.(*ssa.Slice)
				if !ok || head == rest || head.High == nil || head.X != ssa.Value(phi) {
					continue
				}
				if !reachesB(head.Block(), rest.Block()) && !reachesB(rest.Block(), head.Block()) && head.Block() != rest.Block() {
					continue
				}
				lo, ok1 := bounded(rest.Low)
				hi, ok2 := bounded(head.High)
				if ok1 != ok2 {
					continue
				}
				good := rest.Low == head.High || ok1 && lo == hi
				if !ok1 && !good {
					continue // two computed ends: not compared
				}
				r.ob("parts-meet", FuncName(f), good, u.Pos(rest.Pos()), "the list is worked off in parts, but the rest does not begin where the part taken before it ends: items are left out or taken twice")
			}
		}
	}
}
