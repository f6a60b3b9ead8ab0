package main

// The inlined control-flow graph: one entry function with every statically resolvable repo callee that the rule does
// not treat as a primitive expanded in place (a fresh context per call site, recursion and a depth bound cut).
// On it: a forward must-analysis of facts with conditional facts attached to boolean / error / pointer values, so that a
// check counts the same whether it is written inline, in a helper, with an early return, a flag, a switch or && / ||.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	id       int
	parent   *Ctx
	site     ssa.CallInstruction
	fn       *ssa.Function
	depth    int
	mkCtx    *Ctx // context in which the closure was made
	mk       *ssa.MakeClosure
	nodes    map[ssa.Instruction]*Node
	after    map[ssa.Instruction]*Node
	first    map[*ssa.BasicBlock]*Node
	children map[ssa.Instruction]*Ctx
	rets     []*Node
}

type Node struct {
	id    int
	ctx   *Ctx
	instr ssa.Instruction
	after bool
	succs []*Edge
	preds []*Edge
	in    *FSet
}

type Edge struct {
	from, to *Node
	cond     ssa.Value
	pol      bool
	isBr     bool
	fromBlk  *ssa.BasicBlock
}

type Pol int

const (
	True Pol = iota
	False
	IsNil
	NotNil
)

type Val struct {
	ctx *Ctx
	v   ssa.Value
}

// FSet: a set of interned facts; top = unreachable (every fact).
type FSet struct {
	top bool
	m   map[int]bool
}

func newFSet() *FSet { return &FSet{m: map[int]bool{}} }
func topFSet() *FSet { return &FSet{top: true} }
func (s *FSet) clone() *FSet {
	if s.top {
		return topFSet()
	}
	n := newFSet()
	for k := range s.m {
		n.m[k] = true
	}
	return n
}
func (s *FSet) union(o *FSet) *FSet {
	if s.top || o.top {
		return topFSet()
	}
	n := s.clone()
	for k := range o.m {
		n.m[k] = true
	}
	return n
}
func (s *FSet) inter(o *FSet) *FSet {
	if s.top {
		return o.clone()
	}
	if o.top {
		return s.clone()
	}
	n := newFSet()
	for k := range s.m {
		if o.m[k] {
			n.m[k] = true
		}
	}
	return n
}
func (s *FSet) equal(o *FSet) bool {
	if s.top != o.top {
		return false
	}
	if s.top {
		return true
	}
	if len(s.m) != len(o.m) {
		return false
	}
	for k := range s.m {
		if !o.m[k] {
			return false
		}
	}
	return true
}

type Key struct {
	s      string
	roots  []Val
	fields []string
}

type Fact struct {
	pred   string
	args   []string
	roots  []Val
	fields []string
}

type CondFact struct {
	idx  int // result index the fact is conditional on; -1: unconditional
	pol  Pol
	fact Fact
}

type Config struct {
	NonEmpty   map[string]bool // type.field lists never empty (for bounds)
	ValueFacts bool            // also record what comparisons with nil and map lookups tell about the value loaded
	Opaque     func(name string, f *ssa.Function) bool
	CallFacts  func(g *G, ctx *Ctx, call ssa.CallInstruction, name string) []CondFact
	NodeKill   func(g *G, n *Node, f *Fact) bool
	// NodeGen: facts that hold after the node was executed
	NodeGen func(g *G, n *Node) []Fact
	// EdgeGen: facts that hold on a branch edge given those that do
	EdgeGen func(g *G, st *FSet) []Fact
	// Entry: facts assumed on entry
	Entry    func(g *G) []Fact
	MaxDepth int
	MaxNodes int
	// Loose: for naming a value, a nil (zero) alternative merged in by a phi or a failing return is ignored
	Loose bool
}

type G struct {
	u      *Universe
	cfg    *Config
	entry  *ssa.Function
	root   *Ctx
	nodes  []*Node
	ctxs   []*Ctx
	facts  []Fact
	index  map[string]int
	cut    []string
	solved bool
	rounds int
	busy   map[busyKey]bool
	keyc   map[Val]Key
	keyb   map[Val]bool
	loops  map[*ssa.BasicBlock]*loopInfo
	vacant map[loopKey]bool // loops whose body never completes an iteration
	at     place
}

type loopKey struct {
	c *Ctx
	b *ssa.BasicBlock
}

// place: the edge at which an implication is being evaluated.
type place struct {
	ctx      *Ctx
	from, to *ssa.BasicBlock
}

type busyKey struct {
	v Val
	p Pol
}

func NewG(u *Universe, f *ssa.Function, cfg *Config) *G {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 10
	}
	if cfg.MaxNodes == 0 {
		cfg.MaxNodes = 60000
	}
	g := &G{u: u, cfg: cfg, entry: f, index: map[string]int{}, busy: map[busyKey]bool{}, keyc: map[Val]Key{}, keyb: map[Val]bool{}, loops: map[*ssa.BasicBlock]*loopInfo{}, vacant: map[loopKey]bool{}}
	g.root = g.build(nil, nil, f, nil, nil)
	return g
}

func (g *G) newNode(c *Ctx, i ssa.Instruction, after bool) *Node {
	n := &Node{id: len(g.nodes), ctx: c, instr: i, after: after}
	g.nodes = append(g.nodes, n)
	return n
}

func (g *G) link(a, b *Node) *Edge {
	e := &Edge{from: a, to: b, fromBlk: a.instr.Block()}
	a.succs = append(a.succs, e)
	b.preds = append(b.preds, e)
	return e
}

func (g *G) calleeFor(c *Ctx, call ssa.CallInstruction) (*ssa.Function, *Ctx, *ssa.MakeClosure) {
	cc := call.Common()
	if cc.IsInvoke() {
		f := g.u.Callee(call)
		return f, nil, nil
	}
	v := g.resolve(Val{c, cc.Value})
	switch x := v.v.(type) {
	case *ssa.Function:
		return x, nil, nil
	case *ssa.MakeClosure:
		if f, ok := x.Fn.(*ssa.Function); ok {
			return f, v.ctx, x
		}
	}
	return nil, nil, nil
}

func (g *G) build(parent *Ctx, site ssa.CallInstruction, f *ssa.Function, mkCtx *Ctx, mk *ssa.MakeClosure) *Ctx {
	c := &Ctx{id: len(g.ctxs), parent: parent, site: site, fn: f, mkCtx: mkCtx, mk: mk,
		nodes: map[ssa.Instruction]*Node{}, after: map[ssa.Instruction]*Node{}, first: map[*ssa.BasicBlock]*Node{}, children: map[ssa.Instruction]*Ctx{}}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	g.ctxs = append(g.ctxs, c)
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			n := g.newNode(c, ins, false)
			c.nodes[ins] = n
			if i == 0 {
				c.first[b] = n
			}
		}
	}
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			n := c.nodes[ins]
			out := n
			if call, ok := ins.(*ssa.Call); ok {
				if callee, mc, mkc := g.calleeFor(c, call); callee != nil && g.inlinable(c, callee, call) {
					child := g.build(c, call, callee, mc, mkc)
					c.children[ins] = child
					aft := g.newNode(c, ins, true)
					c.after[ins] = aft
					if len(callee.Blocks) > 0 {
						g.link(n, child.first[callee.Blocks[0]])
					}
					for _, r := range child.rets {
						g.link(r, aft)
					}
					out = aft
				}
			}
			switch x := ins.(type) {
			case *ssa.If:
				for k, s := range b.Succs {
					e := g.link(out, c.first[s])
					e.isBr, e.cond, e.pol, e.fromBlk = true, x.Cond, k == 0, b
				}
			case *ssa.Jump:
				e := g.link(out, c.first[b.Succs[0]])
				e.fromBlk = b
			case *ssa.Return:
				c.rets = append(c.rets, out)
			case *ssa.Panic:
			default:
				if call, ok := ins.(*ssa.Call); ok && neverReturns(g.u.CalleeName(call)) {
					break
				}
				if i+1 < len(b.Instrs) {
					g.link(out, c.nodes[b.Instrs[i+1]])
				}
			}
		}
	}
	return c
}

// neverReturns: library functions after which the caller does not go on.
func neverReturns(name string) bool {
	return name == "os.Exit" || name == "runtime.Goexit" || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic")
}

func (g *G) inlinable(c *Ctx, f *ssa.Function, call ssa.CallInstruction) bool {
	if !isRepoFunc(f) {
		return false
	}
	name := FuncFull(f)
	if strings.HasPrefix(name, "common/pkg/logging.") && !strings.HasPrefix(FuncFull(c.fn), "common/pkg/logging.") {
		return false
	}
	if g.cfg.Opaque != nil && g.cfg.Opaque(name, f) {
		return false
	}
	for p := c; p != nil; p = p.parent {
		if p.fn == f {
			return false
		}
	}
	if c.depth+1 > g.cfg.MaxDepth || len(g.nodes) > g.cfg.MaxNodes {
		g.cut = append(g.cut, name)
		return false
	}
	return true
}

// ---- values -----------------------------------------------------------------------------------------------------

func (g *G) resolve(v Val) Val {
	for k := 0; k < 200; k++ {
		n, ok := g.step(v)
		if !ok {
			return v
		}
		v = n
	}
	return v
}

func (g *G) step(v Val) (Val, bool) {
	switch x := v.v.(type) {
	case *ssa.Parameter:
		c := v.ctx
		if c.parent == nil || c.site == nil {
			return v, false
		}
		idx := -1
		for i, p := range c.fn.Params {
			if p == x {
				idx = i
			}
		}
		cc := c.site.Common()
		if cc.IsInvoke() {
			if idx == 0 {
				return Val{c.parent, cc.Value}, true
			}
			if idx-1 < len(cc.Args) && idx >= 1 {
				return Val{c.parent, cc.Args[idx-1]}, true
			}
			return v, false
		}
		if idx >= 0 && idx < len(cc.Args) {
			return Val{c.parent, cc.Args[idx]}, true
		}
	case *ssa.FreeVar:
		c := v.ctx
		if c.mk != nil {
			for i, fv := range c.fn.FreeVars {
				if fv == x {
					return Val{c.mkCtx, c.mk.Bindings[i]}, true
				}
			}
		}
	case *ssa.ChangeType:
		return Val{v.ctx, x.X}, true
	case *ssa.ChangeInterface:
		return Val{v.ctx, x.X}, true
	case *ssa.MakeInterface:
		return Val{v.ctx, x.X}, true
	case *ssa.Call:
		if x.Call.Signature().Results().Len() == 1 {
			if r := g.loose(g.results(v.ctx, x, 0)); len(r) == 1 {
				return r[0], true
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if r := g.loose(g.results(v.ctx, call, x.Index)); len(r) == 1 {
				return r[0], true
			}
		}
	case *ssa.Field:
		if r, ok := g.fieldValue(Val{v.ctx, x.X}, x.Field, 0); ok {
			return r, true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := g.resolve(Val{v.ctx, x.X})
			if fa, ok := a.v.(*ssa.FieldAddr); ok {
				if r, ok := g.fieldValue(Val{a.ctx, fa.X}, fa.Field, 0); ok {
					return r, true
				}
			}
			if al, ok := a.v.(*ssa.Alloc); ok {
				if s := singleStore(al); s != nil {
					return Val{a.ctx, s.Val}, true
				}
				if a.v == x.X && onlyLocalStores(al) {
					// result slots of functions with defers: the store just before, in the same block or the only one before it
					if last := storeBefore(al, x); last != nil {
						return Val{v.ctx, last.Val}, true
					}
				}
			}
		}
	case *ssa.Phi:
		var one ssa.Value
		for _, e := range x.Edges {
			if e == x || g.cfg.Loose && isZeroConst(e) && !isBasic(e.Type()) {
				continue
			}
			if one != nil && one != e {
				return v, false
			}
			one = e
		}
		if one != nil {
			return Val{v.ctx, one}, true
		}
	}
	return v, false
}

// storeBefore: the store to a local that the load reads, if it is on the only way to the load.
func storeBefore(al *ssa.Alloc, ld ssa.Instruction) *ssa.Store {
	b := ld.Block()
	end := -1
	for i, ins := range b.Instrs {
		if ins == ld {
			end = i
		}
	}
	for k := 0; k < 50; k++ {
		for i := end - 1; i >= 0; i-- {
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == al {
				return st
			}
			if b.Instrs[i] == ssa.Instruction(al) {
				return nil
			}
		}
		if len(b.Preds) != 1 || b.Preds[0] == b {
			return nil
		}
		b = b.Preds[0]
		end = len(b.Instrs)
	}
	return nil
}

// loose drops zero alternatives (other than booleans and numbers) and repeated values.
func (g *G) loose(vs []Val) []Val {
	if !g.cfg.Loose || len(vs) < 2 {
		return vs
	}
	var out []Val
	for _, v := range vs {
		if isZeroConst(v.v) {
			if b, ok := v.v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString != 0 {
				continue
			}
		}
		dup := false
		for _, o := range out {
			if o == v {
				dup = true
			}
		}
		if !dup {
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		return vs
	}
	return out
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.String:
		return constant.StringVal(c.Value) == ""
	case constant.Int:
		return constant.Sign(c.Value) == 0
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	}
	return false
}

// results: the values an inlined call can return at index i (one per return site).
func (g *G) results(c *Ctx, call ssa.Instruction, i int) []Val {
	ch := c.children[call]
	if ch == nil {
		return nil
	}
	var out []Val
	for _, r := range ch.rets {
		ret := r.instr.(*ssa.Return)
		if i < len(ret.Results) && (ret.Block() != ch.fn.Recover || len(ch.rets) == 1) {
			v := Val{ch, ret.Results[i]}
			if x, ok := v.v.(*ssa.UnOp); ok && x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok && onlyLocalStores(al) {
					// the result slot of a function with defers
					if last := storeBefore(al, x); last != nil {
						v.v = last.Val
					}
				}
			}
			out = append(out, v)
		}
	}
	return out
}

// singleStore: the only store to a local whose address is otherwise used only for loads and field/method access.
func singleStore(a *ssa.Alloc) *ssa.Store {
	var s *ssa.Store
	if a.Referrers() == nil {
		return nil
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				if s != nil {
					return nil
				}
				s = x
			} else {
				return nil // address stored
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if fieldStored(x) {
				return nil
			}
		case *ssa.IndexAddr:
			return nil
		case *ssa.Call:
		case *ssa.Defer, *ssa.Go:
		case *ssa.MakeClosure:
			// captured: resolvable as long as the closure does not store to it
			fn, _ := x.Fn.(*ssa.Function)
			if fn == nil {
				return nil
			}
			for i, b := range x.Bindings {
				if b == a && freeVarStored(fn, fn.FreeVars[i]) {
					return nil
				}
			}
		case *ssa.MakeInterface, *ssa.Phi, *ssa.Slice, *ssa.BinOp, *ssa.ChangeType, *ssa.Return, *ssa.MapUpdate:
			if _, ok := r.(*ssa.MakeInterface); ok {
				// passed as interface (json.Unmarshal(&x)): may be written
				return nil
			}
		default:
			return nil
		}
	}
	return s
}

func freeVarStored(fn *ssa.Function, fv *ssa.FreeVar) bool {
	if fv.Referrers() == nil {
		return false
	}
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			f2, _ := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == fv && f2 != nil && freeVarStored(f2, f2.FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

func fieldStored(fa *ssa.FieldAddr) bool {
	if fa.Referrers() == nil {
		return false
	}
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == fa {
				return true
			}
		case *ssa.FieldAddr:
			if fieldStored(x) {
				return true
			}
		}
	}
	return false
}

func (g *G) token(v Val) string { return fmt.Sprintf("c%d.%s", v.ctx.id, v.v.Name()) }

// key: canonical description of a value; equal keys denote the same value as long as no root was redefined in between.
func (g *G) key(v Val) Key {
	if k, ok := g.keyc[v]; ok {
		return k
	}
	if g.keyb[v] {
		return Key{s: g.token(v), roots: []Val{v}}
	}
	g.keyb[v] = true
	k := g.key1(v)
	delete(g.keyb, v)
	if len(g.keyb) == 0 {
		g.keyc[v] = k
	}
	return k
}

func (g *G) key1(v0 Val) Key {
	v := g.resolve(v0)
	own := func() Key { return Key{s: g.token(v), roots: []Val{v}} }
	merge := func(pat string, ks ...Key) Key {
		var out Key
		args := make([]interface{}, len(ks))
		for i, k := range ks {
			args[i] = k.s
			out.roots = append(out.roots, k.roots...)
			out.fields = append(out.fields, k.fields...)
		}
		out.s = fmt.Sprintf(pat, args...)
		return out
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Key{s: "nil:" + shortT(x.Type())}
		}
		return Key{s: "const:" + x.Value.ExactString()}
	case *ssa.Global:
		return Key{s: "global:" + x.RelString(nil)}
	case *ssa.Function:
		return Key{s: "func:" + FuncName(x)}
	case *ssa.Builtin:
		return Key{s: "builtin:" + x.Name()}
	case *ssa.Parameter, *ssa.FreeVar:
		return own()
	case *ssa.FieldAddr:
		f := fieldName(x.X.Type(), x.Field)
		k := merge("%s."+f, g.key(Val{v.ctx, x.X}))
		k.fields = append(k.fields, typeFull(x.X.Type())+"."+f)
		return k
	case *ssa.Field:
		f := fieldName(x.X.Type(), x.Field)
		k := merge("%s."+f, g.objkey(Val{v.ctx, x.X}))
		k.fields = append(k.fields, typeFull(x.X.Type())+"."+f)
		return k
	case *ssa.IndexAddr:
		return merge("%s[%s]", g.objkey(Val{v.ctx, x.X}), g.key(Val{v.ctx, x.Index}))
	case *ssa.Index:
		return merge("%s[%s]", g.objkey(Val{v.ctx, x.X}), g.key(Val{v.ctx, x.Index}))
	case *ssa.Lookup:
		return merge("%s[%s]", g.key(Val{v.ctx, x.X}), g.key(Val{v.ctx, x.Index}))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return merge("*%s", g.key(Val{v.ctx, x.X}))
		}
		if x.Op == token.ARROW {
			return own()
		}
		return merge(x.Op.String()+"(%s)", g.key(Val{v.ctx, x.X}))
	case *ssa.Convert:
		return merge("conv:"+shortT(x.Type())+"(%s)", g.key(Val{v.ctx, x.X}))
	case *ssa.BinOp:
		return merge("(%s"+strings.ReplaceAll(x.Op.String(), "%", "%%")+"%s)", g.key(Val{v.ctx, x.X}), g.key(Val{v.ctx, x.Y}))
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			return merge("%s[:]", g.key(Val{v.ctx, x.X}))
		}
		return own()
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return g.key(Val{v.ctx, x.X})
		}
		return own()
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return g.key(Val{v.ctx, t.X})
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				return merge("%s[%s]", g.key(Val{v.ctx, t.X}), g.key(Val{v.ctx, t.Index}))
			}
		case *ssa.Call:
			if n := g.u.CalleeName(t); pureCall(n) {
				k := g.callKey(v.ctx, t, n)
				k.s += fmt.Sprintf("#%d", x.Index)
				return k
			}
		}
		return own()
	case *ssa.Call:
		if n := g.u.CalleeName(x); pureCall(n) {
			return g.callKey(v.ctx, x, n)
		}
		return own()
	}
	return own()
}

func (g *G) callKey(c *Ctx, call *ssa.Call, name string) Key {
	out := Key{s: name + "("}
	args := call.Call.Args
	if call.Call.IsInvoke() {
		args = append([]ssa.Value{call.Call.Value}, args...)
	}
	for i, a := range args {
		k := g.objkey(Val{c, a})
		if i > 0 {
			out.s += ","
		}
		out.s += k.s
		out.roots = append(out.roots, k.roots...)
		out.fields = append(out.fields, k.fields...)
	}
	out.s += ")"
	return out
}

// objkey: key of the object denoted, ignoring whether it is named by pointer or by value (leading *'s dropped, and a
// local that only ever holds a copy of another location denotes that location).
func (g *G) objkey(v Val) Key {
	r := g.resolve(v)
	if al, ok := r.v.(*ssa.Alloc); ok {
		if s := singleStore(al); s != nil {
			sv := g.resolve(Val{r.ctx, s.Val})
			if u, ok := sv.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				k := g.objkey(Val{sv.ctx, u.X})
				return k
			}
		}
	}
	if u, ok := r.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		a := g.resolve(Val{r.ctx, u.X})
		switch a.v.(type) {
		case *ssa.Alloc, *ssa.IndexAddr, *ssa.FieldAddr:
			return g.objkey(a)
		}
		if _, isPtr := u.Type().Underlying().(*types.Pointer); !isPtr {
			return g.objkey(a)
		}
	}
	k := g.key(r)
	k.s = strings.TrimLeft(k.s, "*")
	return k
}

func shortT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

var pureNames = map[string]bool{
	"builtin.len": true, "builtin.cap": true,
	"common/pkg/nodeid.NodeID.ToString": true, "common/pkg/cid.ContentID.ToString": true,
	"gateway/internal/core.GetSingleInstance": true, "provider/internal/core.GetSingleInstance": true,
	"(error).Error": true, "encoding/hex.EncodeToString": true, "strings.ToLower": true, "strings.ToUpper": true, "math/big.Int.Int64": true, "math/big.NewInt": true,
	"encoding/binary.bigEndian.Uint32": true, "encoding/binary.littleEndian.Uint32": true, "encoding/binary.bigEndian.Uint16": true, "encoding/binary.bigEndian.Uint64": true,
}

func pureCall(n string) bool {
	if pureNames[n] {
		return true
	}
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return false
	}
	m := n[i+1:]
	return strings.HasPrefix(n, "common/pkg/") && (strings.HasPrefix(m, "Get") && !strings.HasPrefix(m, "GetTime") || m == "ToString" || m == "ToBytes")
}

// origins: every leaf the value may come from (phis, multi-return helpers and multiply assigned locals expanded).
func (g *G) origins(v Val) []Val {
	seen := map[Val]bool{}
	var out []Val
	var walk func(Val)
	walk = func(v Val) {
		v = g.resolve(v)
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(Val{v.ctx, e})
			}
			return
		case *ssa.Call:
			if x.Call.Signature().Results().Len() == 1 {
				if rs := g.results(v.ctx, x, 0); len(rs) > 0 {
					for _, r := range rs {
						walk(r)
					}
					return
				}
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if rs := g.results(v.ctx, call, x.Index); len(rs) > 0 {
					for _, r := range rs {
						walk(r)
					}
					return
				}
			}
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				walk(Val{v.ctx, ta.X})
				return
			}
		case *ssa.TypeAssert:
			walk(Val{v.ctx, x.X})
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := g.resolve(Val{v.ctx, x.X})
				if al, ok := a.v.(*ssa.Alloc); ok {
					st := allStores(al)
					if len(st) > 0 {
						for _, s := range st {
							walk(Val{a.ctx, s.Val})
						}
						return
					}
				}
			}
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

func allStores(a *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	if a.Referrers() == nil {
		return nil
	}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			out = append(out, s)
		}
	}
	return out
}

// ---- facts ------------------------------------------------------------------------------------------------------

func mkFact(pred string, ks ...Key) Fact {
	f := Fact{pred: pred}
	for _, k := range ks {
		f.args = append(f.args, k.s)
		f.roots = append(f.roots, k.roots...)
		f.fields = append(f.fields, k.fields...)
	}
	return f
}

func (f Fact) String() string { return f.pred + "(" + strings.Join(f.args, ", ") + ")" }

func (g *G) intern(f Fact) int {
	s := f.String()
	if i, ok := g.index[s]; ok {
		return i
	}
	i := len(g.facts)
	g.facts = append(g.facts, f)
	g.index[s] = i
	return i
}

func (g *G) single(f Fact) *FSet {
	s := newFSet()
	s.m[g.intern(f)] = true
	return s
}

func polOf(b bool) Pol {
	if b {
		return True
	}
	return False
}

func negate(p Pol) Pol {
	switch p {
	case True:
		return False
	case False:
		return True
	case IsNil:
		return NotNil
	}
	return IsNil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && !isBasic(c.Type())
}

func isBasic(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

func nonNilCall(name string) bool {
	switch name {
	case "errors.New", "fmt.Errorf", "builtin.new", "math/big.NewInt":
		return true
	}
	return false
}

// imp: facts that hold whenever v has polarity p (top: v cannot have it).
func (g *G) imp(v Val, p Pol) *FSet {
	bk := busyKey{v, p}
	if g.busy[bk] {
		return topFSet()
	}
	g.busy[bk] = true
	defer delete(g.busy, bk)
	out := newFSet()
	switch x := v.v.(type) {
	case *ssa.Const:
		switch p {
		case True, False:
			if x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) != (p == True) {
				return topFSet()
			}
		case NotNil:
			if x.Value == nil {
				return topFSet()
			}
		case IsNil:
			if x.Value != nil {
				return topFSet()
			}
		}
		return out
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		if p == IsNil {
			return topFSet()
		}
		return out
	case *ssa.MakeInterface:
		if p == IsNil {
			return topFSet()
		}
		return out
	case *ssa.ChangeInterface:
		return g.imp(Val{v.ctx, x.X}, p)
	case *ssa.ChangeType:
		return g.imp(Val{v.ctx, x.X}, p)
	case *ssa.Parameter, *ssa.FreeVar:
		if n, ok := g.step(v); ok {
			return g.imp(n, p)
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return g.imp(Val{v.ctx, x.X}, negate(p))
		}
		if x.Op == token.MUL {
			if n, ok := g.step(v); ok {
				return g.imp(n, p)
			}
			a := g.resolve(Val{v.ctx, x.X})
			if al, ok := a.v.(*ssa.Alloc); ok && onlyLocalStores(al) {
				// an unlifted local: facts common to every value stored to it (zero value included)
				return g.impStores(a, al, p)
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			if p != True && p != False {
				return out
			}
			eq := (x.Op == token.EQL) == (p == True)
			a, b := Val{v.ctx, x.X}, Val{v.ctx, x.Y}
			if isNilConst(g.resolve(a).v) {
				a, b = b, a
			}
			if isNilConst(g.resolve(b).v) {
				pp := NotNil
				if eq {
					pp = IsNil
				}
				r := g.imp(a, pp)
				if r.top {
					return r
				}
				nm := "nonnil"
				if eq {
					nm = "isnil"
				}
				r = r.union(g.single(mkFact(nm, g.objkey(a))))
				if g.cfg.ValueFacts {
					if av := g.resolve(a); av.v != nil {
						r = r.union(g.single(mkFact(nm, Key{s: "val:" + g.token(av), roots: []Val{av}})))
					}
				}
				return r
			}
			for k := 0; k < 2; k++ {
				if c, ok := g.resolve(b).v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					bv := constant.BoolVal(c.Value)
					return g.imp(a, polOf(bv == eq))
				}
				a, b = b, a
			}
			return g.single(g.cmpFact("==", a, b, eq))
		}
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if p == True || p == False {
				return g.single(g.ordFact(x.Op, Val{v.ctx, x.X}, Val{v.ctx, x.Y}, p == True))
			}
		}
		return out
	case *ssa.Phi:
		acc := topFSet()
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			st := g.edgeState(v.ctx, pred, x.Block())
			if st.top {
				continue
			}
			old := g.at
			g.at = place{v.ctx, pred, x.Block()}
			im := g.imp(Val{v.ctx, e}, p)
			g.at = old
			if im.top || g.contradicts(st, im) {
				continue
			}
			acc = acc.inter(st.union(im))
		}
		acc = g.dropRoot(acc, v)
		if li := g.loopAt(x.Block()); li != nil && !acc.top && g.outside(v.ctx, li) {
			acc = acc.union(g.flagForall(v.ctx, li, x, p))
		}
		if g.cfg.ValueFacts && !acc.top && (p == True || p == False) {
			acc = acc.union(g.single(mkFact(map[Pol]string{True: "true", False: "false"}[p], Key{s: "val:" + g.token(v), roots: []Val{v}})))
		}
		return acc
	case *ssa.Call:
		if v.ctx.children[x] != nil && x.Call.Signature().Results().Len() == 1 {
			return g.impResults(v, x, 0, p)
		}
		return g.impCall(v.ctx, x, 0, p)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if v.ctx.children[call] != nil {
				return g.impResults(v, call, x.Index, p)
			}
			return g.impCall(v.ctx, call, x.Index, p)
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			k := g.key(Val{v.ctx, lk.X})
			k2 := g.key(Val{v.ctx, lk.Index})
			if p == True {
				r := g.single(mkFact("inmap", k, k2))
				if g.cfg.ValueFacts {
					r = r.union(g.single(mkFact("true", Key{s: "val:" + g.token(v), roots: []Val{v}})))
				}
				return r
			} else if p == False {
				out := g.single(mkFact("notinmap", k, k2))
				if m, ok := lk.X.Type().Underlying().(*types.Map); ok && nilable(m.Elem()) {
					e := Key{s: strings.TrimLeft(k.s, "*") + "[" + k2.s + "]"}
					e.roots = append(append(e.roots, k.roots...), k2.roots...)
					e.fields = append(append(e.fields, k.fields...), k2.fields...)
					out = out.union(g.single(mkFact("isnil", e)))
				}
				return out
			}
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && p == True {
			return g.single(mkFact("isa:"+shortT(ta.AssertedType), g.key(Val{v.ctx, ta.X})))
		}
	}
	return out
}

func onlyLocalStores(a *ssa.Alloc) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (g *G) impStores(a Val, al *ssa.Alloc, p Pol) *FSet {
	acc := topFSet()
	if p == IsNil || p == False { // zero value possible
		return newFSet()
	}
	for _, s := range allStores(al) {
		n := a.ctx.nodes[s]
		if n == nil || n.in == nil || n.in.top {
			continue
		}
		im := g.imp(Val{a.ctx, s.Val}, p)
		if im.top {
			continue
		}
		acc = acc.inter(im) // only the implied facts: the variable may be read much later
	}
	return acc
}

// dropRoot removes facts that mention v itself (about to be redefined).
func (g *G) dropRoot(s *FSet, v Val) *FSet {
	if s.top {
		return s
	}
	out := newFSet()
	for k := range s.m {
		bad := false
		for _, r := range g.facts[k].roots {
			if r == v {
				bad = true
			}
		}
		if !bad {
			out.m[k] = true
		}
	}
	return out
}

func (g *G) cmpFact(op string, a, b Val, pos bool) Fact {
	ka, kb := g.objkey(a), g.objkey(b)
	if kb.s < ka.s {
		ka, kb = kb, ka
	}
	if !pos {
		op = "!="
	}
	return mkFact(op, ka, kb)
}

// ordFact normalises to < and <=.
func (g *G) ordFact(op token.Token, a, b Val, pos bool) Fact {
	if !pos {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		}
	}
	switch op {
	case token.GTR:
		return mkFact("<", g.key(b), g.key(a))
	case token.GEQ:
		return mkFact("<=", g.key(b), g.key(a))
	case token.LSS:
		return mkFact("<", g.key(a), g.key(b))
	}
	return mkFact("<=", g.key(a), g.key(b))
}

func (g *G) impResults(v Val, call *ssa.Call, idx int, p Pol) *FSet {
	ch := v.ctx.children[call]
	acc := topFSet()
	for _, r := range ch.rets {
		if r.in == nil || r.in.top {
			continue
		}
		ret := r.instr.(*ssa.Return)
		old := g.at
		g.at = place{ch, ret.Block(), ret.Block()}
		im := g.imp(Val{ch, ret.Results[idx]}, p)
		g.at = old
		if im.top || g.contradicts(r.in, im) {
			continue
		}
		all := r.in.union(im)
		if g.cfg.NodeGen != nil {
			for _, f := range g.cfg.NodeGen(g, r) {
				all.m[g.intern(f)] = true
			}
		}
		acc = acc.inter(all)
	}
	if !acc.top && (p == IsNil || p == NotNil) {
		nm, is := "nil", "isnil"
		if p == NotNil {
			nm, is = "nonnil", "nonnil"
		}
		cv := Val{v.ctx, call}
		acc = acc.union(g.single(mkFact(is, g.objkey(v))))
		acc = acc.union(g.single(mkFact(fmt.Sprintf("ret%d=%s", idx, nm), Key{s: g.token(cv), roots: []Val{cv}})))
	}
	if !acc.top && (p == True || p == False) {
		cv := Val{v.ctx, call}
		acc = acc.union(g.single(mkFact(fmt.Sprintf("ret%d=%s", idx, map[Pol]string{True: "true", False: "false"}[p]), Key{s: g.token(cv), roots: []Val{cv}})))
	}
	if !acc.top && (p == True || p == False) && g.cfg.ValueFacts {
		if f := call.Call.StaticCallee(); f != nil && purePredicate(f) {
			k := g.callKey(v.ctx, call, FuncName(f))
			acc = acc.union(g.single(mkFact(map[Pol]string{True: "ret0=true", False: "ret0=false"}[p], k)))
		}
	}
	if !acc.top && p == IsNil && g.cfg.ValueFacts && idx == errIndex(call.Call.Signature()) {
		// what the other results are then, if there is one way to succeed
		var one *ssa.Return
		n := 0
		type way struct {
			ret *ssa.Return
			st  *FSet
		}
		var success []way
		for _, r := range ch.rets {
			if r.in == nil || r.in.top {
				continue
			}
			ret := r.instr.(*ssa.Return)
			old := g.at
			g.at = place{ch, ret.Block(), ret.Block()}
			im := g.imp(Val{ch, ret.Results[idx]}, IsNil)
			g.at = old
			if !im.top && !g.contradicts(r.in, im) {
				one = ret
				n++
				success = append(success, way{ret, r.in.union(im)})
			}
		}
		exs := extracts(call)
		for i, x := range exs {
			for _, y := range exs[:i] {
				_, xs := x.Type().Underlying().(*types.Slice)
				_, ys := y.Type().Underlying().(*types.Slice)
				if !xs || !ys || n < 2 || x.Index == y.Index {
					continue
				}
				same := true
				for _, w := range success {
					b := newBounds(g, w.st)
					p, q := g.lenOf(Val{ch, w.ret.Results[x.Index]}), g.lenOf(Val{ch, w.ret.Results[y.Index]})
					same = same && b.known(p, q, 0) && b.known(q, p, 0)
				}
				if same {
					a, b := g.objkey(Val{v.ctx, x}), g.objkey(Val{v.ctx, y})
					a.s, b.s = "builtin.len("+a.s+")", "builtin.len("+b.s+")"
					if b.s < a.s {
						a, b = b, a
					}
					acc = acc.union(g.single(mkFact("==", a, b)))
				}
			}
		}
		if n == 1 {
			for _, ex := range extracts(call) {
				if ex.Index == idx {
					continue
				}
				a, b := g.objkey(Val{v.ctx, ex}), g.objkey(Val{ch, one.Results[ex.Index]})
				switch t := ex.Type().Underlying().(type) {
				case *types.Slice:
					a.s, b.s = "builtin.len("+a.s+")", "builtin.len("+b.s+")"
				case *types.Basic:
					if t.Info()&types.IsInteger == 0 {
						continue
					}
				default:
					continue
				}
				if b.s < a.s {
					a, b = b, a
				}
				acc = acc.union(g.single(mkFact("==", a, b)))
			}
		}
	}
	return acc
}

func (g *G) impCall(c *Ctx, call *ssa.Call, idx int, p Pol) *FSet {
	name := g.u.CalleeName(call)
	if p == IsNil && nonNilCall(name) {
		return topFSet()
	}
	out := newFSet()
	// generic: the outcome of this very call
	res := "err"
	switch p {
	case True:
		res = "true"
	case False:
		res = "false"
	case IsNil:
		res = "nil"
	case NotNil:
		res = "nonnil"
	}
	out.m[g.intern(mkFact(fmt.Sprintf("ret%d=%s", idx, res), Key{s: g.token(Val{c, call}), roots: []Val{{c, call}}}))] = true
	if g.cfg.CallFacts != nil {
		for _, cf := range g.cfg.CallFacts(g, c, call, name) {
			if cf.idx == idx && cf.pol == p {
				out.m[g.intern(cf.fact)] = true
			}
		}
	}
	return out
}

// edgeState: facts at the end of block pred on its edge to blk in context c.
func (g *G) edgeState(c *Ctx, pred, blk *ssa.BasicBlock) *FSet {
	first := c.first[blk]
	acc := topFSet()
	for _, e := range first.preds {
		if e.fromBlk == pred && e.from.ctx == c {
			acc = acc.inter(g.edgeOut(e))
		}
	}
	return acc
}

func (g *G) edgeOut(e *Edge) *FSet {
	o := g.out(e.from)
	if o.top {
		return o
	}
	if e.isBr {
		old := g.at
		g.at = place{e.from.ctx, e.fromBlk, e.to.instr.Block()}
		im := g.imp(Val{e.from.ctx, e.cond}, polOf(e.pol))
		g.at = old
		if im.top {
			return topFSet()
		}
		if g.contradicts(o, im) {
			return topFSet()
		}
		o = o.union(im)
		if li := g.loopAt(e.fromBlk); li != nil && e.to == e.from.ctx.first[li.done] {
			fa := g.forall(e.from.ctx, li)
			if fa.top {
				return fa
			}
			o = o.union(fa)
		}
		if g.cfg.EdgeGen != nil {
			if fs := g.cfg.EdgeGen(g, o); len(fs) > 0 {
				o = o.clone()
				for _, f := range fs {
					o.m[g.intern(f)] = true
				}
			}
		}
	}
	return o
}

// loopAt: the complete index loop with this header, if there is one.
func (g *G) loopAt(b *ssa.BasicBlock) *loopInfo {
	if li, ok := g.loops[b]; ok {
		return li
	}
	var li *loopInfo
	if len(b.Instrs) > 0 && len(b.Succs) == 2 {
		li = indexLoop(b)
		if li != nil && li.src == nil {
			li = nil
		}
	}
	g.loops[b] = li
	return li
}

// outside: the current place is after the loop (not on a path that left it early).
func (g *G) outside(c *Ctx, li *loopInfo) bool {
	p := g.at
	for p.ctx != nil && p.ctx != c {
		if p.ctx.site == nil {
			return false
		}
		b := p.ctx.site.Block()
		p = place{p.ctx.parent, b, b}
	}
	if p.ctx == nil {
		return false
	}
	return !li.blocks[p.to] && (!li.blocks[p.from] || p.from == li.header)
}

// elemKey: the name of the current element in the body of the loop, and the name that stands for all of them.
func (g *G) elemKey(c *Ctx, li *loopInfo) (elem, all, idx string) {
	s := g.objkey(Val{c, li.src}).s
	idx = g.key(Val{c, li.idx}).s
	return s + "[" + idx + "]", s + "[*]", idx
}

// generalise: from facts that hold for the current element at the end of every iteration to facts about all elements.
func (g *G) generalise(c *Ctx, li *loopInfo, st *FSet) *FSet {
	out := newFSet()
	elem, all, idx := g.elemKey(c, li)
	base := Val{c, li.idx}
	var phi ssa.Value = li.idx
	if b, ok := li.idx.(*ssa.BinOp); ok {
		phi = b.X
	}
	for k := range st.m {
		f := g.facts[k]
		hit, bad := false, false
		n := Fact{pred: "all:" + f.pred, fields: f.fields}
		for _, a := range f.args {
			if strings.Contains(a, elem) {
				hit = true
				a = strings.ReplaceAll(a, elem, all)
			}
			if strings.Contains(a, idx) {
				bad = true
			}
			n.args = append(n.args, a)
		}
		if !hit || bad {
			continue
		}
		for _, r := range f.roots {
			if r != base && (r.ctx != c || r.v != phi) {
				n.roots = append(n.roots, r)
			}
		}
		out.m[g.intern(n)] = true
	}
	return out
}

func (g *G) backEdges(c *Ctx, li *loopInfo) []*Edge {
	var out []*Edge
	for _, e := range c.first[li.header].preds {
		if e.from.ctx == c && li.blocks[e.fromBlk] {
			out = append(out, e)
		}
	}
	return out
}

// forall: facts about every element once the loop ran to its end (top while nothing is known about its iterations).
func (g *G) forall(c *Ctx, li *loopInfo) *FSet {
	if g.vacant[loopKey{c, li.header}] {
		return newFSet()
	}
	acc := topFSet()
	for _, e := range g.backEdges(c, li) {
		acc = acc.inter(g.edgeOut(e))
	}
	if acc.top {
		return acc
	}
	return g.generalise(c, li, acc)
}

// flagForall: facts about every element implied by a flag that only keeps its value in iterations where they hold.
func (g *G) flagForall(c *Ctx, li *loopInfo, phi *ssa.Phi, p Pol) *FSet {
	acc := topFSet()
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, st *FSet) bool
	walk = func(v ssa.Value, st *FSet) bool {
		if st.top {
			return true
		}
		if v == ssa.Value(phi) {
			acc = acc.inter(st)
			return true
		}
		if x, ok := v.(*ssa.Phi); ok && li.blocks[x.Block()] && x.Block() != li.header && g.loopAt(x.Block()) == nil && !seen[v] {
			seen[v] = true
			for i, e := range x.Edges {
				if !walk(e, g.edgeState(c, x.Block().Preds[i], x.Block()).union(st)) {
					return false
				}
			}
			return true
		}
		return g.imp(Val{c, v}, p).top
	}
	for i, pred := range li.header.Preds {
		if !li.blocks[pred] {
			continue
		}
		if !walk(phi.Edges[i], g.edgeState(c, pred, li.header)) {
			return newFSet()
		}
	}
	if acc.top {
		return newFSet()
	}
	return g.generalise(c, li, acc)
}

// contradicts: the two sets cannot hold together (only facts about values, which nothing can change in between).
func (g *G) contradicts(a, b *FSet) bool {
	if a.top || b.top {
		return true
	}
	for k := range b.m {
		f := &g.facts[k]
		o := ""
		switch {
		case strings.HasPrefix(f.pred, "ret"):
			i := strings.Index(f.pred, "=")
			if i < 0 {
				continue
			}
			switch f.pred[i+1:] {
			case "nil":
				o = f.pred[:i+1] + "nonnil"
			case "nonnil":
				o = f.pred[:i+1] + "nil"
			case "true":
				o = f.pred[:i+1] + "false"
			case "false":
				o = f.pred[:i+1] + "true"
			}
		case f.pred == "isnil" && stableFact(f):
			o = "nonnil"
		case f.pred == "nonnil" && stableFact(f):
			o = "isnil"
		case f.pred == "==" && stableFact(f):
			o = "!="
		case f.pred == "!=" && stableFact(f):
			o = "=="
		}
		if o == "" {
			continue
		}
		if i, ok := g.index[o+"("+strings.Join(f.args, ", ")+")"]; ok && a.m[i] {
			return true
		}
	}
	return false
}

func stableFact(f *Fact) bool {
	if len(f.fields) > 0 {
		return false
	}
	for _, a := range f.args {
		if strings.ContainsAny(a, "*[.(") && strings.Contains(a, "*") {
			return false
		}
	}
	for _, r := range f.roots {
		switch r.v.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
			return false
		}
	}
	return true
}

func (g *G) out(n *Node) *FSet {
	if n.in == nil || n.in.top {
		return topFSet()
	}
	s := n.in
	inlinedCallEntry := false
	if call, ok := n.instr.(*ssa.Call); ok && n.ctx.children[call] != nil && !n.after {
		inlinedCallEntry = true
	}
	var def *Val
	if v, ok := n.instr.(ssa.Value); ok && !inlinedCallEntry {
		def = &Val{n.ctx, v}
	}
	var storeAddr *Val
	storeField := ""
	if st, ok := n.instr.(*ssa.Store); ok {
		a := g.resolve(Val{n.ctx, st.Addr})
		storeAddr = &a
		if fa, ok := a.v.(*ssa.FieldAddr); ok {
			storeField = typeFull(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
		}
	}
	res := newFSet()
	for k := range s.m {
		f := &g.facts[k]
		kill := false
		for _, r := range f.roots {
			if def != nil && r == *def {
				kill = true
			}
			if storeAddr != nil && r == *storeAddr {
				kill = true
			}
		}
		if storeField != "" {
			for _, fl := range f.fields {
				if fl == storeField {
					kill = true
				}
			}
		}
		if !kill && g.cfg.NodeKill != nil && g.cfg.NodeKill(g, n, f) {
			kill = true
		}
		if !kill {
			res.m[k] = true
		}
	}
	if g.cfg.NodeGen != nil {
		for _, f := range g.cfg.NodeGen(g, n) {
			res.m[g.intern(f)] = true
		}
	}
	if call, ok := n.instr.(*ssa.Call); ok && !inlinedCallEntry && !n.after {
		if g.cfg.CallFacts != nil {
			for _, cf := range g.cfg.CallFacts(g, n.ctx, call, g.u.CalleeName(call)) {
				if cf.idx == -1 {
					res.m[g.intern(cf.fact)] = true
				}
			}
		}
	}
	return res
}

// Solve computes the greatest fixpoint of the must-facts.
func (g *G) Solve() {
	if g.solved {
		return
	}
	g.solved = true
	for _, n := range g.nodes {
		n.in = topFSet()
	}
	if len(g.entry.Blocks) == 0 {
		return
	}
	start := g.root.first[g.entry.Blocks[0]]
	start.in = newFSet()
	if g.cfg.Entry != nil {
		for _, f := range g.cfg.Entry(g) {
			start.in.m[g.intern(f)] = true
		}
	}
	order := g.rpo(start)
	for {
		g.iterate(start, order)
		more := false
		for _, c := range g.ctxs {
			for _, b := range c.fn.Blocks {
				li := g.loopAt(b)
				if li == nil || g.vacant[loopKey{c, b}] || !g.reachable(c.first[b]) {
					continue
				}
				dead := true
				for _, e := range g.backEdges(c, li) {
					if !g.edgeOut(e).top {
						dead = false
					}
				}
				if dead {
					g.vacant[loopKey{c, b}] = true
					more = true
				}
			}
		}
		if !more {
			return
		}
		for _, n := range g.nodes {
			if n != start {
				n.in = topFSet()
			}
		}
	}
}

func (g *G) iterate(start *Node, order []*Node) {
	for round := 0; round < 60; round++ {
		g.rounds = round + 1
		changed := false
		for _, n := range order {
			if n == start {
				continue
			}
			acc := topFSet()
			for _, e := range n.preds {
				acc = acc.inter(g.edgeOut(e))
			}
			if !acc.equal(n.in) {
				n.in = acc
				changed = true
			}
		}
		if !changed {
			break
		}
	}
}

func (g *G) rpo(start *Node) []*Node {
	seen := make([]bool, len(g.nodes))
	var post []*Node
	type fr struct {
		n *Node
		i int
	}
	st := []fr{{start, 0}}
	seen[start.id] = true
	for len(st) > 0 {
		t := &st[len(st)-1]
		if t.i < len(t.n.succs) {
			s := t.n.succs[t.i].to
			t.i++
			if !seen[s.id] {
				seen[s.id] = true
				st = append(st, fr{s, 0})
			}
			continue
		}
		post = append(post, t.n)
		st = st[:len(st)-1]
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (g *G) reachable(n *Node) bool { return n.in != nil && !n.in.top }

func (g *G) has(n *Node, f Fact) bool {
	if n.in.top {
		return true
	}
	i, ok := g.index[f.String()]
	return ok && n.in.m[i]
}

// factsAt lists the facts at a node with the given predicate.
func (g *G) factsAt(n *Node, pred string) []Fact {
	var out []Fact
	for k := range n.in.m {
		if g.facts[k].pred == pred {
			out = append(out, g.facts[k])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// calls iterates over call instructions (calls, defers, go statements) that were not expanded.
func (g *G) calls(fn func(n *Node, c ssa.CallInstruction, name string)) {
	for _, n := range g.nodes {
		if n.after {
			continue
		}
		c, ok := n.instr.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if _, ok := n.instr.(*ssa.Call); ok && n.ctx.children[n.instr] != nil {
			continue
		}
		fn(n, c, g.u.CalleeName(c))
	}
}

// where: position of a node with its inlining chain.
func (g *G) where(n *Node) string {
	s := g.u.Pos(nodePos(n))
	for c := n.ctx; c.parent != nil; c = c.parent {
		s += " <- called at " + g.u.Pos(c.site.Pos())
	}
	return s
}

func nodePos(n *Node) token.Pos {
	if p := n.instr.Pos(); p.IsValid() {
		return p
	}
	if n.ctx.site != nil {
		return n.ctx.site.Pos()
	}
	return n.ctx.fn.Pos()
}

func args(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

// purePredicate: the function only looks at its arguments, and answers the same for the same ones.
func purePredicate(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 || !isBasic(f.Signature.Results().At(0).Type()) {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.MakeInterface:
			case *ssa.UnOp:
				if x.Op == token.MUL || x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if !x.Call.IsInvoke() {
					return false
				}
				switch x.Call.Method.Name() {
				case "Timeout", "Temporary", "Error":
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}
