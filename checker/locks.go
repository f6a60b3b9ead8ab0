package main

// Locks and the state they guard. One engine for P12, P14, P15, P16, P17, P20 and P21.
//
// Every function that other code can start (exported, used as a value, started as a goroutine, or without callers) is
// expanded in place as far as its callees lock something or touch tracked state. On that graph the set of locks held is
// propagated along every feasible path (a set of alternatives per program point, deferred unlocks included).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type heldLock struct {
	key   string // instance
	class string // type and field
	excl  bool
	at    *Node
	also  string // names the instance took on the way, each ending in a newline
}

// is: the lock has this name.
func (h heldLock) is(key string) bool {
	return h.key == key || strings.Contains("\n"+h.also, "\n"+key+"\n")
}

// rename: from here on, what is called a on this path is also called b (and b no longer what it was before).
func (s *lstate) rename(a, b string) *lstate {
	t := s
	for i, h := range s.held {
		var keep []string
		for _, x := range strings.Split(h.also, "\n") {
			if x != "" && !strings.HasPrefix(x, b+".") && x != b {
				keep = append(keep, x)
			}
		}
		for _, x := range append([]string{h.key}, strings.Split(h.also, "\n")...) {
			if x != "" && a != b && strings.HasPrefix(x, a+".") {
				keep = append(keep, b+x[len(a):])
			}
		}
		also := ""
		if len(keep) > 0 {
			sort.Strings(keep)
			also = strings.Join(keep, "\n") + "\n"
		}
		if also != h.also {
			if t == s {
				t = s.copy()
			}
			t.held[i].also = also
		}
	}
	return t
}

type deferred struct {
	ctx *Ctx
	n   *Node
}

type lstate struct {
	held  []heldLock
	defs  []deferred
	cond  []condVal
	nils  []condVal // values known to be nil (true) or not nil (false) on this path
	marks []string  // what a rule remembers along the path, sorted
}

type condVal struct {
	v   Val
	pol bool
}

func (s *lstate) id() string {
	var b strings.Builder
	for _, h := range s.held {
		fmt.Fprintf(&b, "%s/%v/%d/%s;", h.key, h.excl, h.at.id, h.also)
	}
	b.WriteString("|")
	for _, d := range s.defs {
		fmt.Fprintf(&b, "%d;", d.n.id)
	}
	b.WriteString("|")
	for _, c := range s.cond {
		fmt.Fprintf(&b, "%d.%s=%v;", c.v.ctx.id, c.v.v.Name(), c.pol)
	}
	for _, c := range s.nils {
		fmt.Fprintf(&b, "%d.%s==nil:%v;", c.v.ctx.id, c.v.v.Name(), c.pol)
	}
	for _, m := range s.marks {
		b.WriteString("!" + m)
	}
	return b.String()
}

func (s *lstate) copy() *lstate {
	return &lstate{held: append([]heldLock(nil), s.held...), defs: append([]deferred(nil), s.defs...), cond: append([]condVal(nil), s.cond...), nils: append([]condVal(nil), s.nils...), marks: append([]string(nil), s.marks...)}
}

func (s *lstate) marked(m string) bool {
	for _, x := range s.marks {
		if x == m {
			return true
		}
	}
	return false
}

// mark: the state with one mark more.
func (s *lstate) mark(m string) *lstate {
	if s.marked(m) {
		return s
	}
	t := s.copy()
	t.marks = append(t.marks, m)
	sort.Strings(t.marks)
	return t
}

// unmark: the state without the marks chosen.
func (s *lstate) unmark(sel func(m string) bool) *lstate {
	var keep []string
	for _, x := range s.marks {
		if !sel(x) {
			keep = append(keep, x)
		}
	}
	if len(keep) == len(s.marks) {
		return s
	}
	t := s.copy()
	t.marks = keep
	return t
}

func (s *lstate) find(key string) int {
	for i, h := range s.held {
		if h.is(key) {
			return i
		}
	}
	return -1
}

type lockEvent struct {
	n    *Node
	fn   *ssa.Function // function containing the construct
	what string        // "" for a plain acquisition
	key  string
	cls  string
	msg  string
}

type access struct {
	cls    string
	base   string
	deep   bool
	write  bool
	n      *Node
	val    ssa.Value // value read
	update bool      // writes that depend on an earlier decision matter for (not deletions)
	obj    types.Type
	states []*lstate
}

type chanOp struct {
	cls string
	n   *Node
}

// lockRun: the analysis of one entry.
type lockRun struct {
	l      *lockWorld
	g      *G
	entry  *ssa.Function
	st     map[int]map[string]*lstate
	events []lockEvent // violations of the lock discipline
	acq    map[string]*Node
	order  map[[2]string]*Node
	acc    []*access
	chans  []chanOp
	capped bool
	multi  map[ssa.Value]bool
	live   map[[2]any]bool
	extra  map[*Node]*Ctx
	// hook: the marks after a node; set together with following which errors and pointers are nil on the path
	hook func(n *Node, s *lstate) *lstate
	// fork: further states after a node (failure of a call, say); edge: the marks after a branch was taken
	fork func(n *Node, s *lstate) []*lstate
	edge func(e *Edge, s *lstate) *lstate
}

type lockWorld struct {
	mutexes  map[string]bool
	u        *Universe
	tracked  map[string]bool // struct types
	globals  map[*ssa.Global]bool
	relevant map[*ssa.Function]bool
	once     map[*ssa.Function]bool
	entries  []*ssa.Function
	started  map[*ssa.Function]int // bodies of go statements
	runs     []*lockRun
	mut      map[*ssa.Function]map[int]bool
	mutBusy  map[*ssa.Function]bool
}

func lockOp(name string) (string, bool) {
	switch name {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		return "Lock", true
	case "sync.RWMutex.RLock":
		return "RLock", true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		return "Unlock", true
	case "sync.RWMutex.RUnlock":
		return "RUnlock", true
	}
	return "", false
}

func isMutexType(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// worldOf computes what is tracked and where analysis starts. inScope selects the packages whose functions are entries.
func worldOf(u *Universe, inScope func(pkg string) bool, extraTypes []string) *lockWorld {
	l := &lockWorld{u: u, mutexes: map[string]bool{}, tracked: map[string]bool{}, globals: map[*ssa.Global]bool{}, relevant: map[*ssa.Function]bool{}, once: map[*ssa.Function]bool{}, mut: map[*ssa.Function]map[int]bool{}, mutBusy: map[*ssa.Function]bool{}}
	for _, t := range extraTypes {
		l.tracked[t] = true
	}
	for _, sp := range u.Pkgs {
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := tm.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if isMutexType(st.Field(i).Type()) {
					l.mutexes[typeFull(tm.Type())+"."+st.Field(i).Name()] = true
					l.tracked[typeFull(tm.Type())] = true
				}
			}
		}
	}
	// functions run under sync.Once
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && u.CalleeName(c) == "sync.Once.Do" {
					switch a := args(c)[1].(type) {
					case *ssa.MakeClosure:
						l.once[a.Fn.(*ssa.Function)] = true
					case *ssa.Function:
						l.once[a] = true
					}
				}
			}
		}
	}
	isInit := func(f *ssa.Function) bool {
		for p := f; p != nil; p = p.Parent() {
			if l.once[p] {
				return true
			}
			if p.Parent() == nil && p.Signature.Recv() == nil && (p.Name() == "init" || strings.HasPrefix(p.Name(), "init#")) {
				return true
			}
			if p.Parent() == nil && p.Pkg != nil && p.Pkg.Pkg.Name() == "main" && p.Name() == "main" {
				return true
			}
		}
		return false
	}
	for _, f := range u.Funcs {
		if isInit(f) || f.Pkg == nil || f.Pkg.Pkg.Name() == "main" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if gl, ok := st.Addr.(*ssa.Global); ok && strings.HasPrefix(gl.Pkg.Pkg.Path(), repoPrefix) {
						l.globals[gl] = true
					}
				}
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					if ld, ok := mu.Map.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if gl, ok := ld.X.(*ssa.Global); ok && strings.HasPrefix(gl.Pkg.Pkg.Path(), repoPrefix) {
							l.globals[gl] = true
						}
					}
				}
			}
		}
	}
	// relevance
	direct := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					if _, ok := lockOp(u.CalleeName(x)); ok {
						return true
					}
				case *ssa.FieldAddr:
					if l.tracked[typeFull(x.X.Type())] {
						return true
					}
				case *ssa.Field:
					if l.tracked[typeFull(x.X.Type())] {
						return true
					}
				case *ssa.Send, *ssa.Select:
					return true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						return true
					}
					if gl, ok := x.X.(*ssa.Global); ok && l.globals[gl] {
						return true
					}
				case *ssa.Store:
					if gl, ok := x.Addr.(*ssa.Global); ok && l.globals[gl] {
						return true
					}
				}
			}
		}
		return false
	}
	for _, f := range u.Funcs {
		if direct(f) {
			l.relevant[f] = true
		}
	}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					callees[f] = append(callees[f], mc.Fn.(*ssa.Function))
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					if _, isGo := ins.(*ssa.Go); isGo {
						continue
					}
					if k := u.Callee(c); k != nil {
						callees[f] = append(callees[f], k)
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range u.Funcs {
			if l.relevant[f] {
				continue
			}
			for _, k := range callees[f] {
				if l.relevant[k] {
					l.relevant[f] = true
					ch = true
					break
				}
			}
		}
	}
	// entries
	taken := u.addressTaken()
	plain := map[*ssa.Function]bool{}
	l.started = map[*ssa.Function]int{}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				k := u.Callee(c)
				if k == nil {
					if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
						k, _ = mc.Fn.(*ssa.Function)
					}
				}
				if k == nil {
					continue
				}
				if _, isGo := ins.(*ssa.Go); isGo {
					l.started[k]++
				} else {
					plain[k] = true
				}
			}
		}
	}
	for _, f := range u.Funcs {
		if !l.relevant[f] || f.Pkg == nil || !inScope(shortPkg(f.Pkg.Pkg.Path())) || strings.Contains(f.Pkg.Pkg.Path(), "mock") {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if f.Parent() != nil && l.started[f] == 0 {
			// a closure: analysed where it is called when that can be seen; on its own when it is not called directly
			if plain[f] || l.once[f] || calledInside(f) {
				continue
			}
		} else if !exported && !taken[f] && l.started[f] == 0 && plain[f] {
			continue
		}
		l.entries = append(l.entries, f)
	}
	sort.Slice(l.entries, func(i, j int) bool { return FuncName(l.entries[i]) < FuncName(l.entries[j]) })
	return l
}

// calledInside: a closure bound to a local that is only called or deferred.
func calledInside(f *ssa.Function) bool {
	p := f.Parent()
	for _, b := range p.Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != f || mc.Referrers() == nil {
				continue
			}
			for _, r := range *mc.Referrers() {
				if _, isGo := r.(*ssa.Go); isGo {
					return false
				}
				c, ok := r.(ssa.CallInstruction)
				if !ok {
					return false
				}
				for _, a := range c.Common().Args {
					if a == ssa.Value(mc) {
						// handed to a function: inlined there if it is one of ours and calls it
						if k := c.Common().StaticCallee(); k == nil || !isRepoFunc(k) {
							return false
						}
					}
				}
			}
			return true
		}
	}
	return false
}

func (l *lockWorld) isInit(f *ssa.Function) bool {
	for p := f; p != nil; p = p.Parent() {
		if l.once[p] || p.Parent() == nil && p.Signature.Recv() == nil && (p.Name() == "init" || strings.HasPrefix(p.Name(), "init#")) {
			return true
		}
	}
	return false
}

func (l *lockWorld) analyse() {
	for _, f := range l.entries {
		l.runs = append(l.runs, l.runOn(f, nil))
	}
}

func (l *lockWorld) runOn(f *ssa.Function, kill func(g *G, n *Node, f *Fact) bool) *lockRun {
	cfg := &Config{Loose: false, MaxNodes: 40000, NodeKill: kill, Opaque: func(name string, k *ssa.Function) bool {
		if strings.HasSuffix(name, "internal/core.GetSingleInstance") {
			return true
		}
		return !l.relevant[k]
	}}
	g := NewG(l.u, f, cfg)
	g.Solve()
	r := &lockRun{l: l, g: g, entry: f, st: map[int]map[string]*lstate{}, acq: map[string]*Node{}, order: map[[2]string]*Node{}, multi: map[ssa.Value]bool{}, live: map[[2]any]bool{}, extra: map[*Node]*Ctx{}}
	r.run()
	return r
}

// lockKey: instance and class of the mutex a call operates on.
func (r *lockRun) lockKey(c *Ctx, call ssa.CallInstruction) (string, string) {
	a := r.g.resolve(Val{c, args(call)[0]})
	k := r.g.objkey(a).s
	cls := "local"
	switch x := a.v.(type) {
	case *ssa.FieldAddr:
		cls = typeFull(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Global:
		cls = shortPkg(x.Pkg.Pkg.Path()) + "." + x.Name()
	case *ssa.UnOp:
		if fa, ok := r.g.resolve(Val{a.ctx, x.X}).v.(*ssa.FieldAddr); ok {
			cls = typeFull(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
		}
	default:
		if p := typeFull(a.v.Type()); p != "sync.Mutex" && p != "sync.RWMutex" {
			cls = p + ".lock"
		}
	}
	return k, cls
}

func (r *lockRun) event(n *Node, what, key, cls, msg string) {
	for _, e := range r.events {
		if e.n == n && e.what == what && e.cls == cls {
			return
		}
	}
	r.events = append(r.events, lockEvent{n, n.ctx.fn, what, key, cls, msg})
}

// apply one lock operation.
func (r *lockRun) apply(s *lstate, n *Node, op, key, cls string) *lstate {
	s = s.copy()
	switch op {
	case "Lock", "RLock":
		excl := op == "Lock"
		if i := s.find(key); i >= 0 {
			how := "locks it again"
			if !s.held[i].excl && excl {
				how = "asks for exclusive access while holding it shared"
			} else if !s.held[i].excl {
				how = "read-locks it again (blocks for ever once a writer waits in between)"
			}
			r.event(n, "relock", key, cls, "a goroutine that already holds "+cls+" (since "+r.g.u.Pos(nodePos(s.held[i].at))+") "+how)
			return s
		}
		for _, h := range s.held {
			p := [2]string{h.class, cls}
			if _, ok := r.order[p]; !ok {
				r.order[p] = n
			}
		}
		if _, ok := r.acq[cls]; !ok {
			r.acq[cls] = n
		}
		s.held = append(s.held, heldLock{key: key, class: cls, excl: excl, at: n})
	case "Unlock", "RUnlock":
		excl := op == "Unlock"
		i := s.find(key)
		if i < 0 {
			c := 0
			for j, h := range s.held {
				if h.class == cls {
					c++
					i = j
				}
			}
			if c != 1 {
				r.event(n, "unlock", key, cls, "unlocks "+cls+", which is not held on a path leading here")
				return s
			}
		}
		if s.held[i].excl != excl {
			r.event(n, "unlock-mode", key, cls, "releases "+cls+" in another mode than it was acquired in at "+r.g.u.Pos(nodePos(s.held[i].at)))
		}
		s.held = append(s.held[:i:i], s.held[i+1:]...)
	}
	return s
}

func (r *lockRun) put(n *Node, s *lstate, work *[]*Node) {
	m := r.st[n.id]
	if m == nil {
		m = map[string]*lstate{}
		r.st[n.id] = m
	}
	if len(m) >= 96 {
		r.capped = true
		return
	}
	id := s.id()
	if _, ok := m[id]; ok {
		return
	}
	m[id] = s
	*work = append(*work, n)
}

// condUses: the branches deciding on a boolean value, directly, negated, through a phi or by being returned.
func condUses(v ssa.Value, d int) []ssa.Instruction {
	var out []ssa.Instruction
	if rf := v.Referrers(); rf != nil && d < 4 {
		for _, u := range *rf {
			switch x := u.(type) {
			case *ssa.If:
				out = append(out, x)
			case *ssa.UnOp:
				if x.Op == token.NOT {
					out = append(out, condUses(x, d+1)...)
				}
			case *ssa.Phi:
				if len(condUses(x, d+1)) > 0 {
					out = append(out, x)
				}
			case *ssa.Return:
				out = append(out, x)
			}
		}
	}
	return out
}

// kept: a condition whose outcome matters again after it was decided (kept along the path).
func (r *lockRun) kept(v ssa.Value) bool {
	if b, ok := r.multi[v]; ok {
		return b
	}
	n := len(condUses(v, 0))
	b := n > 1
	switch x := v.(type) {
	case *ssa.Phi:
		b = n > 0
	case *ssa.Extract:
		_, call := x.Tuple.(*ssa.Call)
		b = n > 1 || n > 0 && call
	case *ssa.Call:
		b = n > 0
	}
	if t, ok := v.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsBoolean == 0 {
		b = false
	}
	r.multi[v] = b
	return b
}

// alive: the condition can be asked about again from the start of the block.
func (r *lockRun) alive(v ssa.Value, b *ssa.BasicBlock) bool {
	k := [2]any{v, b}
	if x, ok := r.live[k]; ok {
		return x
	}
	uses := map[*ssa.BasicBlock]bool{}
	for _, u := range condUses(v, 0) {
		if p, ok := u.(*ssa.Phi); ok {
			// asked about on the edge into the phi's block
			for i, e := range p.Edges {
				if e == v {
					uses[p.Block().Preds[i]] = true
				}
				if n, ok := e.(*ssa.UnOp); ok && n.X == v {
					uses[p.Block().Preds[i]] = true
				}
			}
			continue
		}
		uses[u.Block()] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	res := false
	for len(st) > 0 && !res {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if uses[x] {
			res = true
		}
		st = append(st, x.Succs...)
	}
	r.live[k] = res
	return res
}

// known: the outcome of a condition on the path taken, if it was decided.
func (s *lstate) known(c *Ctx, v ssa.Value) (bool, bool) {
	pol := true
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, pol = u.X, !pol
			continue
		}
		break
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return constant.BoolVal(k.Value) == pol, true
	}
	for _, c2 := range s.cond {
		if c2.v == (Val{c, v}) {
			return c2.pol == pol, true
		}
	}
	return false, false
}

func (s *lstate) setCond(v Val, pol bool) {
	for i, c := range s.cond {
		if c.v == v {
			s.cond[i].pol = pol
			return
		}
	}
	s.cond = append(s.cond, condVal{v, pol})
}

// cross: the state after taking the edge (nil when the path cannot take it).
func (r *lockRun) cross(e *Edge, s *lstate) *lstate {
	t := s
	if r.hook != nil {
		if t = r.crossNil(e, s); t == nil {
			return nil
		}
		if r.edge != nil {
			if t = r.edge(e, t); t == nil {
				return nil
			}
		}
	}
	if e.isBr {
		cv, pol := e.cond, e.pol
		for {
			if u, ok := cv.(*ssa.UnOp); ok && u.Op == token.NOT {
				cv, pol = u.X, !pol
				continue
			}
			break
		}
		if r.kept(cv) {
			if b, ok := t.known(e.from.ctx, cv); ok {
				if b != pol {
					return nil
				}
			} else {
				t = t.copy()
				t.setCond(Val{e.from.ctx, cv}, pol)
			}
		}
	}
	if e.from.ctx == e.to.ctx {
		blk := e.to.instr.Block()
		if e.to == e.to.ctx.first[blk] && !e.to.after {
			// phis take their values, conditions nobody asks about again are forgotten
			type set struct {
				v   ssa.Value
				b   bool
				has bool
			}
			var sets []set
			for _, ins := range blk.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if _, ok := p.Type().Underlying().(*types.Pointer); ok && len(t.held) > 0 {
					for i, pb := range blk.Preds {
						if pb == e.fromBlk {
							t = t.rename(r.g.objkey(Val{e.from.ctx, p.Edges[i]}).s, r.g.objkey(Val{e.to.ctx, p}).s)
							break
						}
					}
				}
				if !r.kept(p) {
					continue
				}
				for i, pb := range blk.Preds {
					if pb == e.fromBlk {
						b, ok := t.known(e.from.ctx, p.Edges[i])
						sets = append(sets, set{p, b, ok})
						break
					}
				}
			}
			if len(sets) > 0 || len(t.cond) > 0 {
				t = t.copy()
			}
			for _, x := range sets {
				for i, c := range t.cond {
					if c.v == (Val{e.to.ctx, x.v}) {
						t.cond = append(t.cond[:i:i], t.cond[i+1:]...)
						break
					}
				}
				if x.has {
					t.cond = append(t.cond, condVal{Val{e.to.ctx, x.v}, x.b})
				}
			}
			var keep []condVal
			for _, c := range t.cond {
				if c.v.ctx != e.to.ctx || r.alive(c.v.v, blk) {
					keep = append(keep, c)
				}
			}
			if len(t.cond) > 0 {
				t.cond = keep
			}
		}
		return t
	}
	if ret, ok := e.from.instr.(*ssa.Return); ok && e.to.after && e.from.ctx.site != nil {
		// results known on this path
		t = t.copy()
		var keep []condVal
		for _, c := range t.cond {
			if c.v.ctx != e.from.ctx {
				keep = append(keep, c)
			}
		}
		for i, v := range ret.Results {
			if call, ok := e.from.ctx.site.(*ssa.Call); ok && len(t.held) > 0 {
				if _, ok := v.Type().Underlying().(*types.Pointer); ok {
					from := r.g.objkey(Val{e.from.ctx, v}).s
					if len(ret.Results) == 1 {
						t = t.rename(from, r.g.objkey(Val{e.to.ctx, call}).s)
					} else {
						for _, ex := range extracts(call) {
							if ex.Index == i {
								t = t.rename(from, r.g.objkey(Val{e.to.ctx, ex}).s)
							}
						}
					}
				}
			}
			b, ok := t.known(e.from.ctx, v)
			if !ok {
				continue
			}
			call, _ := e.from.ctx.site.(*ssa.Call)
			if call == nil {
				continue
			}
			if len(ret.Results) == 1 {
				if r.kept(call) {
					keep = append(keep, condVal{Val{e.to.ctx, call}, b})
				}
				continue
			}
			for _, ex := range extracts(call) {
				if ex.Index == i && r.kept(ex) {
					keep = append(keep, condVal{Val{e.to.ctx, ex}, b})
				}
			}
		}
		t.cond = keep
	}
	return t
}

func (r *lockRun) run() {
	if len(r.entry.Blocks) == 0 {
		return
	}
	start := r.g.root.first[r.entry.Blocks[0]]
	var work []*Node
	r.put(start, &lstate{}, &work)
	r.drain(work, nil)
	// exits
	for _, ret := range r.g.root.rets {
		for _, s := range r.states(ret) {
			for _, h := range s.held {
				r.event(ret, "leak", h.key, h.class, "returns with "+h.class+" still held (acquired at "+r.g.where(h.at)+")")
			}
		}
	}
}

func (r *lockRun) states(n *Node) []*lstate {
	m := r.st[n.id]
	ids := make([]string, 0, len(m))
	for k := range m {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	out := make([]*lstate, 0, len(m))
	for _, k := range ids {
		out = append(out, m[k])
	}
	return out
}

// drain propagates states; within limits the walk to one (deferred) function body when only is set.
func (r *lockRun) drain(work []*Node, only *Ctx) {
	done := map[string]bool{}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range r.states(n) {
			k := fmt.Sprintf("%d#%s", n.id, s.id())
			if done[k] {
				continue
			}
			done[k] = true
			outs := r.transfer(n, s)
			if r.fork != nil {
				var more []*lstate
				for _, o := range outs {
					more = append(more, r.fork(n, o)...)
				}
				outs = append(outs, more...)
			}
			for _, o := range outs {
				for _, e := range n.succs {
					if e.from.in != nil && r.g.edgeOut(e).top {
						continue
					}
					if t := r.cross(e, o); t != nil {
						r.put(e.to, t, &work)
					}
				}
			}
		}
	}
}

// transfer: the states after node n was executed in state s.
func (r *lockRun) transfer(n *Node, s *lstate) []*lstate {
	if r.hook != nil {
		s = r.hook(n, r.nilStep(n, s))
		if s == nil {
			return nil
		}
	}
	_, isPhi := n.instr.(*ssa.Phi)
	ex, isEx := n.instr.(*ssa.Extract)
	if isEx {
		if call, ok := ex.Tuple.(*ssa.Call); ok && n.ctx.children[call] != nil {
			isPhi = true // set on the way out of the callee
		}
	}
	if v, ok := n.instr.(ssa.Value); ok && len(s.cond) > 0 && !isPhi && !n.after {
		for i, c := range s.cond {
			if c.v.ctx == n.ctx && c.v.v == v {
				s = s.copy()
				s.cond = append(s.cond[:i:i], s.cond[i+1:]...)
				break
			}
		}
	}
	switch x := n.instr.(type) {
	case *ssa.Call:
		if op, ok := lockOp(r.g.u.CalleeName(x)); ok {
			k, cls := r.lockKey(n.ctx, x)
			return []*lstate{r.apply(s, n, op, k, cls)}
		}
	case *ssa.Defer:
		s = s.copy()
		for i, d := range s.defs {
			if d.n == n { // deferred again in a loop
				s.defs = append(s.defs[:i:i], s.defs[i+1:]...)
				break
			}
		}
		s.defs = append(s.defs, deferred{n.ctx, n})
		return []*lstate{s}
	case *ssa.RunDefers:
		cur := []*lstate{s}
		for {
			var next []*lstate
			more := false
			for _, t := range cur {
				i := len(t.defs) - 1
				for i >= 0 && t.defs[i].ctx != n.ctx {
					i--
				}
				if i < 0 {
					next = append(next, t)
					continue
				}
				more = true
				d := t.defs[i]
				t = t.copy()
				t.defs = append(t.defs[:i:i], t.defs[i+1:]...)
				next = append(next, r.runDeferred(n, d, t)...)
			}
			cur = next
			if !more {
				return cur
			}
			if len(cur) > 96 {
				r.capped = true
				return cur[:96]
			}
		}
	}
	return []*lstate{s}
}

// runDeferred applies a deferred call.
func (r *lockRun) runDeferred(at *Node, d deferred, s *lstate) []*lstate {
	df := d.n.instr.(*ssa.Defer)
	if op, ok := lockOp(r.g.u.CalleeName(df)); ok {
		k, cls := r.lockKey(d.ctx, df)
		return []*lstate{r.apply(s, d.n, op, k, cls)}
	}
	callee, mc, mkc := r.g.calleeFor(d.ctx, df)
	if callee == nil || !isRepoFunc(callee) || !r.l.relevant[callee] && (r.hook == nil || r.g.cfg.Opaque != nil && r.g.cfg.Opaque(FuncName(callee), callee)) {
		return []*lstate{s}
	}
	ch := r.extra[d.n]
	if ch == nil {
		ch = r.g.build(d.ctx, df, callee, mc, mkc)
		r.extra[d.n] = ch
	}
	// the body is walked from its start with this state; states of earlier walks remain recorded
	first := ch.first[callee.Blocks[0]]
	before := map[int]map[string]bool{}
	for _, ret := range ch.rets {
		m := map[string]bool{}
		for k := range r.st[ret.id] {
			m[k] = true
		}
		before[ret.id] = m
	}
	_ = before
	sub := &lockRun{l: r.l, g: r.g, entry: callee, st: map[int]map[string]*lstate{}, acq: r.acq, order: r.order, multi: r.multi, live: r.live, extra: r.extra, events: r.events, hook: r.hook, fork: r.fork, edge: r.edge}
	var work []*Node
	sub.put(first, s, &work)
	sub.drain(work, ch)
	r.events = sub.events
	r.capped = r.capped || sub.capped
	for id, m := range sub.st {
		if r.st[id] == nil {
			r.st[id] = map[string]*lstate{}
		}
		for k, v := range m {
			if len(r.st[id]) < 96 {
				r.st[id][k] = v
			}
		}
	}
	var out []*lstate
	for _, ret := range ch.rets {
		out = append(out, sub.states(ret)...)
	}
	return out
}

// ---- accesses ---------------------------------------------------------------------------------------------------

type loc struct {
	cls, base string
	deep      bool
}

// locs: the tracked locations an address or a reference value leads to.
func (r *lockRun) locs(v Val) []loc {
	var out []loc
	seen := map[Val]bool{}
	var walk func(v Val, deep bool)
	walk = func(v Val, deep bool) {
		v = r.g.resolve(v)
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.v.(type) {
		case *ssa.FieldAddr:
			st := typeFull(x.X.Type())
			if r.l.tracked[st] {
				if isMutexType(deref(x.Type())) {
					return
				}
				b := r.g.resolve(Val{v.ctx, x.X})
				if r.fresh(b) {
					return
				}
				out = append(out, loc{st + "." + fieldName(x.X.Type(), x.Field), r.g.objkey(b).s, deep})
				return
			}
			walk(Val{v.ctx, x.X}, deep)
		case *ssa.Field:
			walk(Val{v.ctx, x.X}, deep)
		case *ssa.IndexAddr:
			walk(Val{v.ctx, x.X}, deep)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return
			}
			a := r.g.resolve(Val{v.ctx, x.X})
			if al, ok := a.v.(*ssa.Alloc); ok {
				for _, s := range allStores(al) {
					walk(Val{a.ctx, s.Val}, deep)
				}
				return
			}
			walk(a, true)
		case *ssa.Lookup:
			walk(Val{v.ctx, x.X}, true)
		case *ssa.Slice:
			walk(Val{v.ctx, x.X}, deep)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Lookup:
				walk(Val{v.ctx, t.X}, true)
			case *ssa.Next:
				if rg, ok := t.Iter.(*ssa.Range); ok {
					walk(Val{v.ctx, rg.X}, true)
				}
			case *ssa.Call:
				for _, o := range r.g.results(v.ctx, t, x.Index) {
					walk(o, deep)
				}
			case *ssa.TypeAssert:
				walk(Val{v.ctx, t.X}, deep)
			}
		case *ssa.TypeAssert:
			walk(Val{v.ctx, x.X}, deep)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(Val{v.ctx, e}, deep)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(Val{v.ctx, x.Call.Args[0]}, deep)
				return
			}
			for _, o := range r.g.results(v.ctx, x, 0) {
				walk(o, deep)
			}
		case *ssa.Global:
			if r.l.globals[x] {
				out = append(out, loc{shortPkg(x.Pkg.Pkg.Path()) + "." + x.Name(), "global", deep})
			}
		}
	}
	walk(v, false)
	return out
}

// fresh: an object made in this very graph, not one that others may already hold.
func (r *lockRun) fresh(b Val) bool {
	_, ok := b.v.(*ssa.Alloc)
	return ok
}

// mutates: does f write through its i-th parameter.
func (l *lockWorld) mutates(f *ssa.Function, i int) bool {
	if f.Blocks == nil {
		return false
	}
	if m, ok := l.mut[f]; ok {
		return m[i]
	}
	if l.mutBusy[f] {
		return false
	}
	l.mutBusy[f] = true
	res := map[int]bool{}
	// derived values per parameter
	for pi, p := range f.Params {
		if l.tracked[typeFull(p.Type())] {
			continue // its own locks are checked where it is used
		}
		der := map[ssa.Value]bool{p: true}
		for ch := true; ch; {
			ch = false
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					v, ok := ins.(ssa.Value)
					if !ok || der[v] {
						continue
					}
					src := ssa.Value(nil)
					switch x := ins.(type) {
					case *ssa.FieldAddr:
						src = x.X
					case *ssa.IndexAddr:
						src = x.X
					case *ssa.UnOp:
						if x.Op == token.MUL && refType(x.Type()) {
							src = x.X
						}
					case *ssa.Lookup:
						if refType(x.Type()) {
							src = x.X
						}
					case *ssa.Extract:
						if refType(x.Type()) {
							src = x.Tuple
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							if der[e] {
								src = e
							}
						}
					case *ssa.Slice:
						src = x.X
					case *ssa.ChangeType:
						src = x.X
					case *ssa.MakeInterface:
						src = x.X
					case *ssa.TypeAssert:
						src = x.X
					}
					if src != nil && der[src] && !l.tracked[typeFull(v.Type())] {
						der[v] = true
						ch = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if der[x.Addr] {
						res[pi] = true
					}
				case *ssa.MapUpdate:
					if der[x.Map] {
						res[pi] = true
					}
				case ssa.CallInstruction:
					for ai, a := range args(x) {
						if der[a] && l.callMutates(x, ai) {
							res[pi] = true
						}
					}
				}
			}
		}
	}
	delete(l.mutBusy, f)
	l.mut[f] = res
	return res[i]
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		return true
	case *types.Tuple:
		return true
	}
	return false
}

func (l *lockWorld) callMutates(c ssa.CallInstruction, i int) bool {
	name := l.u.CalleeName(c)
	switch name {
	case "builtin.delete", "builtin.copy", "builtin.clear":
		return i == 0
	}
	if k := l.u.Callee(c); k != nil && k.Blocks != nil {
		return l.mutates(k, i)
	}
	return i == 0 && bigMutator(name)
}

// bigMutator: methods of math/big.Int that set their receiver.
func bigMutator(name string) bool {
	if !strings.HasPrefix(name, "math/big.Int.") {
		return false
	}
	switch strings.TrimPrefix(name, "math/big.Int.") {
	case "Add", "Sub", "Mul", "Div", "Mod", "Quo", "Rem", "Neg", "Abs", "Set", "SetBytes", "SetInt64", "SetUint64", "SetString", "Exp", "Lsh", "Rsh", "And", "Or", "Xor", "Not", "Sqrt", "SetBit", "SetBits", "DivMod", "QuoRem", "GCD", "ModInverse", "MulRange", "Binomial", "Rand", "AndNot", "UnmarshalJSON", "UnmarshalText", "GobDecode", "Scan":
		return true
	}
	return false
}

// collect the accesses to tracked state of all reached nodes.
func (r *lockRun) collect() {
	objType := func(n *Node) types.Type {
		switch x := n.instr.(type) {
		case *ssa.Store:
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				return a.X.Type()
			case *ssa.IndexAddr:
				return a.X.Type()
			}
			return x.Addr.Type()
		case *ssa.MapUpdate:
			return x.Map.Type()
		}
		return nil
	}
	add := func(n *Node, v Val, write, update bool, ref bool, val ssa.Value) {
		for _, lc := range r.locs(v) {
			if ref && !lc.deep {
				continue // a copy of the value, not the shared object
			}
			r.acc = append(r.acc, &access{cls: lc.cls, base: lc.base, deep: lc.deep, write: write, update: update, n: n, val: val, obj: objType(n), states: r.states(n)})
		}
	}
	for _, n := range r.g.nodes {
		if n.after || len(r.st[n.id]) == 0 || r.l.isInit(n.ctx.fn) {
			continue
		}
		c := n.ctx
		switch x := n.instr.(type) {
		case *ssa.Store:
			add(n, Val{c, x.Addr}, true, true, false, nil)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				add(n, Val{c, x.X}, false, false, false, x)
			} else if x.Op == token.ARROW {
				r.chanOp(n, Val{c, x.X})
			}
		case *ssa.Send:
			r.chanOp(n, Val{c, x.Chan})
		case *ssa.Select:
			if x.Blocking {
				for _, st := range x.States {
					r.chanOp(n, Val{c, st.Chan})
				}
			}
		case *ssa.MapUpdate:
			add(n, Val{c, x.Map}, true, true, true, nil)
		case *ssa.Lookup:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				add(n, Val{c, x.X}, false, false, true, x)
			}
		case *ssa.Next:
			if rg, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
				add(n, Val{c, rg.X}, false, false, true, x)
			}
		case ssa.CallInstruction:
			if _, isGo := n.instr.(*ssa.Go); isGo {
				continue
			}
			if call, ok := n.instr.(*ssa.Call); ok && c.children[call] != nil {
				continue
			}
			if _, ok := lockOp(r.g.u.CalleeName(x)); ok {
				continue
			}
			name := r.g.u.CalleeName(x)
			if strings.HasPrefix(name, "common/pkg/logging.") {
				continue
			}
			for i, a := range args(x) {
				if !refType(a.Type()) {
					continue
				}
				w := r.l.callMutates(x, i)
				if name == "builtin.len" || name == "builtin.cap" {
					if _, ok := a.Type().Underlying().(*types.Map); !ok {
						continue
					}
				} else if !w && name != "builtin.append" {
					if name == "builtin.copy" || passes(a.Type()) {
					} else {
						continue
					}
				}
				val, _ := n.instr.(ssa.Value)
				upd := w && name != "builtin.delete" && name != "builtin.clear"
				r.addRef(n, Val{c, a}, w, upd, val)
			}
		}
	}
}

// addRef: the object behind a reference handed to a callee.
func (r *lockRun) addRef(n *Node, v Val, w, upd bool, val ssa.Value) {
	for _, lc := range r.locs(v) {
		r.acc = append(r.acc, &access{cls: lc.cls, base: lc.base, deep: lc.deep, write: w, update: upd, n: n, val: val, obj: v.v.Type(), states: r.states(n)})
	}
}

// passes: handing a pointer or map of this type to a callee lets it read what is behind.
func passes(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Pointer:
		s := typeFull(x.Elem())
		return s == "math/big.Int" || s == "common/pkg/dhtring.Ring"
	}
	return false
}

func (r *lockRun) chanOp(n *Node, v Val) {
	v = r.g.resolve(v)
	cls := ""
	if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := r.g.resolve(Val{v.ctx, u.X}).v.(*ssa.FieldAddr); ok {
			cls = typeFull(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
		}
	}
	if cls != "" {
		r.chans = append(r.chans, chanOp{cls, n})
	}
}
