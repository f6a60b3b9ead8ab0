package main

// P28: a failed operation is never reported as success.
//
// For every call of an operation that can fail, every way the function can go on when it did fail is walked (the error and
// its copies are known to be non-nil, so tests of it are decided). On none of these ways may the function report success,
// or use the result the operation does not have.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type failWorld struct {
	u       *Universe
	pos     map[*ssa.Function]int
	fails   map[*ssa.Function]int
	nilable map[*ssa.Function]int
}

type failWalk struct {
	w      *failWorld
	f      *ssa.Function
	c      ssa.CallInstruction
	seen   map[string]bool
	out    map[string]string // what went wrong -> where
	skip   bool
	flag   ssa.Value // the refusal, if one was decoded
	ended  bool      // a way on reaches the end of the function
	states int
	eff    map[ssa.Instruction]bool
}

type valSet map[ssa.Value]bool

func (s valSet) key() string {
	var n []string
	for v := range s {
		n = append(n, v.Name())
	}
	sort.Strings(n)
	return strings.Join(n, ",")
}

func (s valSet) with(v ssa.Value) valSet {
	if s[v] {
		return s
	}
	n := valSet{}
	for x := range s {
		n[x] = true
	}
	n[v] = true
	return n
}

func (s valSet) without(v ssa.Value) valSet {
	if !s[v] {
		return s
	}
	n := valSet{}
	for x := range s {
		if x != v {
			n[x] = true
		}
	}
	return n
}

func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

type pathSt struct {
	e, a, n valSet                  // known errors, results that are not there, values known to be nil
	o       map[ssa.Value]ssa.Value // what a variable of type error holds
	t, f    valSet                  // known to be true, known to be false
	neg     bool                    // a refusal was given
	no      bool                    // the answer made last is a negative one
	tests   string                  // answers of questions about the error
}

func (p pathSt) key() string {
	k := p.e.key() + "|" + p.a.key() + "|" + p.n.key() + "|" + p.t.key() + "|" + p.f.key()
	var os []string
	for a, v := range p.o {
		os = append(os, a.Name()+"="+v.Name())
	}
	sort.Strings(os)
	k += "|" + strings.Join(os, ",")
	if p.neg {
		k += "|neg"
	}
	if p.no {
		k += "|no"
	}
	return k + p.tests
}

// walk: the ways on from a call that fails (or, for comparison, succeeds).
func (w *failWorld) walk(f *ssa.Function, c ssa.CallInstruction, fails bool) *failWalk {
	fw := &failWalk{w: w, f: f, c: c, seen: map[string]bool{}, out: map[string]string{}, eff: map[ssa.Instruction]bool{}}
	v, isVal := c.(ssa.Value)
	st := pathSt{e: valSet{}, a: valSet{}, n: w.nilBefore(f, c), t: valSet{}, f: valSet{}}
	sig := c.Common().Signature()
	ei := errResult(sig)
	if isVal {
		if sig.Results().Len() == 1 {
			st.e = st.e.with(v)
		} else {
			for _, ex := range extracts(v) {
				if ex.Index == ei {
					st.e = st.e.with(ex)
				} else {
					st.a = st.a.with(ex)
				}
			}
		}
	}
	if !fails {
		for x := range st.e {
			st.n = st.n.with(x)
		}
		st.e, st.a = valSet{}, valSet{}
	}
	fw.start(st)
	return fw
}

func (fw *failWalk) start(st pathSt) {
	i := 0
	for k, ins := range fw.c.Block().Instrs {
		if ins == fw.c.(ssa.Instruction) {
			i = k + 1
		}
	}
	fw.block(fw.c.Block(), i, st)
}

// walkRefused: the ways on from a call that decodes a refusal.
func (w *failWorld) walkRefused(f *ssa.Function, c *ssa.Call, flag ssa.Value, refusal bool) *failWalk {
	fw := &failWalk{w: w, f: f, c: c, seen: map[string]bool{}, out: map[string]string{}, eff: map[ssa.Instruction]bool{}, flag: flag}
	st := pathSt{e: valSet{}, a: valSet{}, n: w.nilBefore(f, c), t: valSet{}, f: valSet{}}
	ei := errResult(c.Call.Signature())
	for _, ex := range extracts(c) {
		if ex.Index == ei {
			st.n = st.n.with(ex)
		}
	}
	if refusal {
		st.t = st.t.with(flag)
	} else {
		st.f = st.f.with(flag)
	}
	fw.start(st)
	return fw
}

// nilBefore: the errors known to be nil where the call is made.
func (w *failWorld) nilBefore(f *ssa.Function, c ssa.CallInstruction) valSet {
	n := valSet{}
	for b := c.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		x, eq := nilTest(iff.Cond)
		if x == nil || !isErrorType(x.Type()) {
			continue
		}
		if eq && d.Succs[0] == b || !eq && d.Succs[1] == b {
			n = n.with(x)
		}
	}
	return n
}

// nilTest: the value compared with nil, and whether it is for being nil.
func nilTest(c ssa.Value) (ssa.Value, bool) {
	switch x := c.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil, false
		}
		if isNilConst(x.Y) {
			return x.X, x.Op == token.EQL
		}
		if isNilConst(x.X) {
			return x.Y, x.Op == token.EQL
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, eq := nilTest(x.X)
			return v, !eq
		}
	}
	return nil, false
}

func holds(m map[ssa.Value]ssa.Value, a, v ssa.Value) map[ssa.Value]ssa.Value {
	if m[a] == v {
		return m
	}
	n := map[ssa.Value]ssa.Value{}
	for k, x := range m {
		n[k] = x
	}
	n[a] = v
	return n
}

// truth: whether the value is known to be true or false.
func (p pathSt) truth(v ssa.Value) (is, known bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && isBoolean(x.Type()) {
			return x.Value.String() == "true", true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			is, known = p.truth(x.X)
			return !is, known
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, ka := p.truth(x.X)
			b, kb := p.truth(x.Y)
			if ka && kb {
				return (a == b) == (x.Op == token.EQL), true
			}
		}
	}
	return p.t[v], p.t[v] || p.f[v]
}

func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (fw *failWalk) bad(what string, at token.Pos) {
	if _, ok := fw.out[what]; !ok {
		fw.out[what] = fw.w.u.Pos(at)
	}
}

func (fw *failWalk) enter(from, to *ssa.BasicBlock, st pathSt) {
	if to.Dominates(fw.c.Block()) && reachesB(fw.c.Block(), to) {
		fw.skip = true
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	ne, na, nn, nt, nf := st.e, st.a, st.n, st.t, st.f
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := phi.Edges[pi]
		ne, na, nn = ne.without(phi), na.without(phi), nn.without(phi)
		nt, nf = nt.without(phi), nf.without(phi)
		if is, known := st.truth(v); known && is {
			nt = nt.with(phi)
		} else if known {
			nf = nf.with(phi)
		}
		switch {
		case st.e[v]:
			ne = ne.with(phi)
		case st.a[v]:
			na = na.with(phi)
		case isNilConst(v) || st.n[v]:
			nn = nn.with(phi)
		}
	}
	st.e, st.a, st.n, st.t, st.f = ne, na, nn, nt, nf
	fw.block(to, 0, st)
}

func (fw *failWalk) block(b *ssa.BasicBlock, i int, st pathSt) {
	if i == 0 {
		k := itoa(b.Index) + "|" + st.key()
		if fw.seen[k] {
			return
		}
		fw.seen[k] = true
		fw.states++
		if fw.states > 4000 {
			fw.bad("too many ways to follow", fw.c.Pos())
			return
		}
	}
	for ; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				st.e, st.n, st.a = st.e.without(al), st.n.without(al), st.a.without(al)
				st.t, st.f = st.t.without(al), st.f.without(al)
				if isErrorType(x.Val.Type()) {
					st.o = holds(st.o, al, x.Val)
				}
				if is, known := st.truth(x.Val); known && is {
					st.t = st.t.with(al)
				} else if known {
					st.f = st.f.with(al)
				}
				switch {
				case st.e[x.Val]:
					st.e = st.e.with(al)
				case isNilConst(x.Val) || st.n[x.Val]:
					st.n = st.n.with(al)
				case st.a[x.Val]:
					st.a = st.a.with(al)
				}
				continue
			}
			fw.effect(x)
			continue // counts if success is reported
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				st.e, st.n, st.a = st.e.without(x), st.n.without(x), st.a.without(x)
				st.t, st.f = st.t.without(x), st.f.without(x)
				if v := st.o[al]; v != nil {
					st.o = holds(st.o, x, v)
				}
				if st.t[al] {
					st.t = st.t.with(x)
				}
				if st.f[al] {
					st.f = st.f.with(x)
				}
				if st.e[al] {
					st.e = st.e.with(x)
				}
				if st.n[al] {
					st.n = st.n.with(x)
				}
				if st.a[al] {
					st.a = st.a.with(x)
				}
				continue
			}
			if st.a[x.X] {
				fw.bad("uses the result the failed call does not have", x.Pos())
				return
			}
		case *ssa.Extract:
			if st.a[x] || st.e[x] {
				continue
			}
		case *ssa.MakeInterface:
			if st.a[x.X] {
				st.a = st.a.with(x) // may only be logged
			}
			continue
		case *ssa.ChangeInterface:
			if st.e[x.X] {
				st.e = st.e.with(x)
			}
			continue
		case *ssa.Return:
			fw.ret(x, st)
			return
		case *ssa.Panic:
			return
		case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
			fw.effect(ins)
		case *ssa.Jump:
			fw.enter(b, b.Succs[0], st)
			return
		case *ssa.If:
			if is, known := st.truth(x.Cond); known {
				if is {
					fw.enter(b, b.Succs[0], st)
				} else {
					fw.enter(b, b.Succs[1], st)
				}
				return
			}
			v, eq := nilTest(x.Cond)
			if v != nil && st.e[v] {
				if eq {
					fw.enter(b, b.Succs[1], st)
				} else {
					fw.enter(b, b.Succs[0], st)
				}
				return
			}
			if v != nil && st.n[v] {
				if eq {
					fw.enter(b, b.Succs[0], st)
				} else {
					fw.enter(b, b.Succs[1], st)
				}
				return
			}
			if v != nil && st.a[v] { // there is no result
				if eq {
					fw.enter(b, b.Succs[0], st)
				} else {
					fw.enter(b, b.Succs[1], st)
				}
				return
			}
			s0, s1 := st, st
			if v != nil {
				if eq {
					s0.n = st.n.with(v)
				} else {
					s1.n = st.n.with(v)
				}
				if isErrorType(v.Type()) { // another failure: reported instead
					if eq {
						s1.e = st.e.with(v)
					} else {
						s0.e = st.e.with(v)
					}
				}
			}
			if q := fw.question(x.Cond, st); q != "" {
				if strings.Contains(st.tests, q+"=true") {
					fw.enter(b, b.Succs[0], st)
					return
				}
				if strings.Contains(st.tests, q+"=false") {
					fw.enter(b, b.Succs[1], st)
					return
				}
				s0.tests += q + "=true"
				s1.tests += q + "=false"
			}
			fw.enter(b, b.Succs[0], s0)
			fw.enter(b, b.Succs[1], s1)
			return
		case *ssa.BinOp:
			continue
		case *ssa.Call:
			if stop := fw.call(x, &st); stop {
				return
			}
			continue
		}
		var ops [12]*ssa.Value
		for _, op := range ins.Operands(ops[:0]) {
			if *op != nil && st.a[*op] {
				if _, isSt := ins.(*ssa.Store); isSt {
					continue
				}
				fw.bad("uses the result the failed call does not have", ins.Pos())
				return
			}
		}
	}
}

func (fw *failWalk) call(x *ssa.Call, st *pathSt) (stop bool) {
	name := fw.w.u.CalleeName(x)
	if name != "" && name == fw.w.u.CalleeName(fw.c) && x != fw.c && sameWork(x, fw.c) {
		return true // tried again
	}
	if neverReturns(name) || name == "builtin.panic" || strings.HasPrefix(name, "common/pkg/logging.") && (strings.Contains(name, "Fatal") || strings.Contains(name, "Panic")) {
		return true
	}
	if strings.HasPrefix(name, "common/pkg/logging.") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") {
		return false
	}
	for _, a := range args(x) {
		if st.a[a] {
			fw.bad("uses the result the failed call does not have", x.Pos())
			return true
		}
	}
	fw.effect(x)
	if no, ok := saysNo(x); ok {
		st.no = no
	}
	switch fw.w.answer(x) {
	case 1:
		st.neg = true
	case 2:
		if st.no && !st.neg {
			break
		}
		fw.bad("answers as if it had succeeded", x.Pos())
		return true
	}
	return false
}

// answer: 1 a negative answer is given, 2 a positive one.
func (w *failWorld) answer(x ssa.CallInstruction) int {
	name := w.u.CalleeName(x)
	base := baseOfName(name)
	switch {
	case isRESTWrite(name), isPeerWrite(name):
		return 2
	case strings.HasSuffix(name, "rest.Error"), name == "net/http.Error", base == "WriteInvalidMessage", base == "WriteProtocolChange":
		return 1
	}
	f := x.Common().StaticCallee()
	if f == nil || !isRepoFunc(f) || f.Blocks == nil {
		return 0
	}
	return w.answers(f)
}

func (w *failWorld) answers(f *ssa.Function) int {
	if r, ok := w.pos[f]; ok {
		return r
	}
	w.pos[f] = 0
	r := 0
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if a := w.answer(c); a > r {
					r = a
				}
			}
		}
	}
	if r == 2 && errResult(f.Signature) >= 0 && !takesAnswer(f) {
		r = 0 // an exchange of its own
	}
	w.pos[f] = r
	return r
}

func takesAnswer(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := typeFull(p.Type())
		if strings.HasSuffix(t, "rest.ResponseWriter") || strings.HasSuffix(t, "FCRServerWriter") {
			return true
		}
	}
	return false
}

func (fw *failWalk) ret(r *ssa.Return, st pathSt) {
	ei := errResult(fw.f.Signature)
	if ei >= 0 {
		v := r.Results[ei]
		if h := st.o[v]; h != nil && !st.e[v] {
			v = h
		}
		fw.ended = true
		if st.e[v] || st.neg || st.no {
			return
		}
		if fw.flag != nil { // the caller may be told by the flag itself
			for _, o := range r.Results {
				if is, known := st.truth(o); known && isBoolean(o.Type()) && is == st.t[fw.flag] {
					return
				}
			}
		}
		if isNilConst(v) || st.n[v] {
			fw.bad("returns as if it had succeeded", r.Pos())
		} else if fw.other(v, st) {
			fw.bad("returns the outcome of another operation", r.Pos())
		}
		return
	}
	fw.ended = true
	if k := len(r.Results); k > 0 {
		if c, ok := r.Results[k-1].(*ssa.Const); ok && c.Value != nil && c.Value.String() == "false" {
			return
		}
	}
	for i, v := range r.Results {
		c, isC := v.(*ssa.Const)
		if st.a[v] {
			fw.bad("returns the result the failed call does not have", r.Pos())
			return
		}
		if isC && i == len(r.Results)-1 && c.Value != nil && c.Value.String() == "true" {
			fw.bad("returns true", r.Pos())
		}
		if isC {
			continue
		}
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if strings.HasSuffix(typeBase(v.Type()), "OK") {
			fw.bad("answers as if it had succeeded", r.Pos())
			continue
		}
		if typeBase(r.Results[i].Type()) == "Responder" || st.neg || st.n[r.Results[i]] || st.e[r.Results[i]] || fw.f.Parent() != nil {
			continue
		}
		if p, ok := v.Type().Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				fw.bad("returns a value as if it had succeeded", r.Pos())
			}
		}
	}
}

// other: the error is that of an operation carried out after the failure.
func (fw *failWalk) other(v ssa.Value, st pathSt) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		_ = mi
		return false
	}
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || c == fw.c || !fw.eff[c] || c.Block().Dominates(fw.c.Block()) && c.Block() != fw.c.Block() {
		return false
	}
	for _, a := range args(c) {
		if st.e[a] {
			return false
		}
	}
	if fw.w.answer(c) != 0 {
		return false
	}
	name := fw.w.u.CalleeName(c)
	if name == "errors.New" || strings.HasPrefix(name, "fmt.Errorf") || strings.Contains(name, "errors.") {
		return false
	}
	if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil && isRepoFunc(f) {
		return fw.w.mayReturnNil(f)
	}
	return true
}

// mayReturnNil: the function's error can be nil.
func (w *failWorld) mayReturnNil(f *ssa.Function) bool {
	if r, ok := w.nilable[f]; ok {
		return r == 1
	}
	w.nilable[f] = 0
	r := 0
	ei := errResult(f.Signature)
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && ei >= 0 {
			switch x := ret.Results[ei].(type) {
			case *ssa.Call:
				n := w.u.CalleeName(x)
				if n != "errors.New" && n != "fmt.Errorf" {
					r = 1
				}
			case *ssa.MakeInterface:
			default:
				r = 1
			}
		}
	}
	w.nilable[f] = r
	return r == 1
}

// sameWork: the call repeats the failed one (it takes the same receiver).
func sameWork(a, b ssa.CallInstruction) bool {
	x, y := args(a), args(b)
	if len(x) != len(y) {
		return false
	}
	same := true
	for i := range x {
		same = same && sameArg(x[i], y[i])
	}
	if same || len(x) == 0 {
		return true
	}
	// another key, another form: only for checks, which leave nothing behind
	n := ""
	if f := a.Common().StaticCallee(); f != nil {
		n = f.Name()
	}
	for _, p := range []string{"Verify", "Decode", "Unmarshal", "Parse"} {
		if strings.HasPrefix(n, p) && sameArg(x[0], y[0]) {
			return true
		}
	}
	return false
}

func sameArg(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if ok && ok2 {
		return x.Value == y.Value || x.Value != nil && y.Value != nil && x.Value.String() == y.Value.String()
	}
	switch x := a.(type) {
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		f := x.Call.StaticCallee()
		return ok && f != nil && y.Call.StaticCallee() == f && (f.String() == "context.Background" || f.String() == "context.TODO")
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameArg(x.X, y.X)
	case *ssa.MakeInterface:
		y, ok := b.(*ssa.MakeInterface)
		return ok && sameArg(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameArg(x.X, y.X)
	}
	return false
}

// retried: the call is in a loop in which it is made again with the same arguments, until it succeeds.
func retried(c *ssa.Call) bool {
	inLoop := func(b *ssa.BasicBlock) bool { return reachesB(b, c.Block()) && reachesB(c.Block(), b) }
	if !inLoop(c.Block()) {
		return false
	}
	for _, a := range args(c) {
		if ins, ok := a.(ssa.Instruction); ok && inLoop(ins.Block()) && !steady(a, inLoop, 0) {
			return false
		}
	}
	return true
}

// steady: the same value each time round.
func steady(v ssa.Value, inLoop func(*ssa.BasicBlock) bool, d int) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok || !inLoop(ins.Block()) {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		_, local := x.X.(*ssa.Alloc) // may be another value each time
		return x.Op == token.MUL && !local && steady(x.X, inLoop, d+1)
	case *ssa.Field:
		return steady(x.X, inLoop, d+1)
	case *ssa.MakeInterface:
		return steady(x.X, inLoop, d+1)
	case *ssa.ChangeInterface:
		return steady(x.X, inLoop, d+1)
	case *ssa.FieldAddr:
		return steady(x.X, inLoop, d+1)
	case *ssa.Call:
		n := ""
		if f := x.Call.StaticCallee(); f != nil {
			n = f.String()
		}
		return n == "context.Background" || n == "context.TODO"
	}
	return false
}

// question: what is asked about the error, in words.
func (fw *failWalk) question(c ssa.Value, st pathSt) string {
	if n, ok := c.(*ssa.UnOp); ok && n.Op == token.NOT {
		return ""
	}
	call, ok := c.(*ssa.Call)
	if !ok || len(args(call)) != 1 || !st.e[args(call)[0]] {
		return ""
	}
	return " " + fw.w.u.CalleeName(call)
}

func (fw *failWalk) effect(ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Store:
		if r, ok := memRoot(x.Addr).(*ssa.Alloc); ok && !r.Heap {
			return
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				return
			}
		}
	case *ssa.Call:
		base := baseOfName(fw.w.u.CalleeName(x))
		if onlyLogged(fw.w.u, x, 0) {
			return
		}
		if strings.HasPrefix(base, "Get") || base == "ToString" || base == "String" || base == "Error" || base == "len" || base == "Unlock" || base == "RUnlock" {
			return
		}
	}
	fw.eff[ins] = true
}

// onlyLogged: the value goes into log texts and nowhere else.
func onlyLogged(u *Universe, v ssa.Value, d int) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 || d > 8 {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Extract, *ssa.Slice, *ssa.IndexAddr:
			if !onlyLogged(u, x.(ssa.Value), d+1) {
				return false
			}
		case *ssa.BinOp:
			if x.Op != token.ADD || !onlyLogged(u, x, d+1) {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			if ia == v { // the place in the list of arguments
				continue
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok || al.Comment != "varargs" || !onlyLogged(u, al, d+1) {
				return false
			}
		case *ssa.Call:
			n := u.CalleeName(x)
			if strings.HasPrefix(n, "common/pkg/logging.") || strings.HasPrefix(n, "log.") {
				continue
			}
			b := baseOfName(n)
			if (strings.HasPrefix(n, "fmt.Sprint") || b == "Error" || b == "String" || b == "ToString") && onlyLogged(u, x, d+1) {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

// saysNo: the call makes an answer; it is a negative one.
func saysNo(c *ssa.Call) (bool, bool) {
	f := c.Call.StaticCallee()
	if f == nil || !strings.HasPrefix(f.Name(), "Encode") || !strings.Contains(f.Name(), "Response") || !isRepoFunc(f) {
		return false, false
	}
	for i, p := range f.Params {
		k, ok := c.Call.Args[i].(*ssa.Const)
		if !ok || k.Value == nil {
			continue
		}
		switch p.Name() {
		case "paymentRequired":
			if k.Value.String() == "true" {
				return true, true
			}
		case "found", "exists", "success", "received", "refreshed", "acknowledged", "alive":
			if k.Value.String() == "false" {
				return true, true
			}
		}
	}
	return false, true
}

// canFail: the call's error can be other than nil, and matters.
func (w *failWorld) canFail(c ssa.CallInstruction) bool {
	name := w.u.CalleeName(c)
	base := baseOfName(name)
	switch {
	case base == "Close", base == "WriteJson", strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "common/pkg/logging."),
		name == "hash.Hash.Write", name == "io.Writer.Write", strings.HasPrefix(name, "bytes.Buffer.Write"), strings.HasPrefix(name, "strings.Builder.Write"),
		name == "os.Hostname", name == "os.MkdirAll", name == "io.WriteString":
		return false
	case name == "encoding/json.Marshal":
		return !plainData(args(c)[0], 0)
	}
	if base == "Exec" {
		for _, a := range args(c) {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.HasPrefix(strings.ToLower(strings.Trim(k.Value.ExactString(), "\"` \n\t")), "pragma") {
				return false // a mode of the store, no operation on what is stored
			}
		}
	}
	cc := c.Common()
	var fs []*ssa.Function
	if cc.IsInvoke() {
		fs = w.u.Implementations(cc.Value.Type(), cc.Method.Name())
	} else if f := cc.StaticCallee(); f != nil {
		fs = []*ssa.Function{f}
	}
	if len(fs) == 0 {
		return true
	}
	for _, f := range fs {
		if f.Blocks == nil || !isRepoFunc(f) || w.functionFails(f) {
			return true
		}
	}
	return false
}

func (w *failWorld) functionFails(f *ssa.Function) bool {
	if r, ok := w.fails[f]; ok {
		return r == 1
	}
	w.fails[f] = 0
	r := 0
	ei := errResult(f.Signature)
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && ei >= 0 && w.errorComes(ret.Results[ei], map[ssa.Value]bool{}) {
			r = 1
		}
	}
	w.fails[f] = r
	return r == 1
}

func (w *failWorld) errorComes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || isNilConst(v) {
		return false
	}
	seen[v] = true
	// on the way of a call that cannot fail
	if ins, ok := v.(ssa.Instruction); ok && w.deadBlock(ins.Block()) {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.errorComes(e, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return w.canFail(c)
		}
	case *ssa.Call:
		return w.canFail(x)
	}
	return true
}

// deadBlock: only entered if a call failed that cannot.
func (w *failWorld) deadBlock(b *ssa.BasicBlock) bool {
	for ; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(b.Preds) != 1 {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		v, eq := nilTest(iff.Cond)
		if v == nil || !isErrorType(v.Type()) || (d.Succs[0] == b) == eq {
			continue
		}
		var c *ssa.Call
		switch y := v.(type) {
		case *ssa.Extract:
			c, _ = y.Tuple.(*ssa.Call)
		case *ssa.Call:
			c = y
		}
		if c != nil && !w.canFail(c) {
			return true
		}
	}
	return false
}

// plainData: encoding the value as JSON cannot fail.
func plainData(v ssa.Value, d int) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return plainType(mi.X.Type(), 0)
	}
	return false
}

func plainType(t types.Type, d int) bool {
	if d > 8 {
		return false
	}
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			return false
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if !plainType(x.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	case *types.Slice:
		return plainType(x.Elem(), d+1)
	case *types.Array:
		return plainType(x.Elem(), d+1)
	case *types.Pointer:
		return plainType(x.Elem(), d+1)
	}
	return false
}

// bestEffort: operations on one of several peers, whose failure concerns that peer only.
func bestEffort(name string) bool {
	return strings.HasPrefix(name, "common/pkg/fcrp2pserver.FCRP2PServer.Request")
}

// refusals: the results of a decoded answer that say no, and the value with which they do.
func (w *failWorld) refusals(c *ssa.Call) map[*ssa.Extract]bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil || !strings.HasPrefix(f.Name(), "Decode") || !strings.Contains(f.Name(), "Response") || !isRepoFunc(f) {
		return nil
	}
	enc := f.Pkg.Func("Encode" + strings.TrimPrefix(f.Name(), "Decode"))
	if enc == nil {
		return nil
	}
	var names []string
	for _, p := range enc.Params {
		if isBoolean(p.Type()) {
			names = append(names, p.Name())
		}
	}
	out := map[*ssa.Extract]bool{}
	k := 0
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if !isBoolean(res.At(i).Type()) {
			continue
		}
		if k < len(names) {
			for _, ex := range extracts(c) {
				if ex.Index != i {
					continue
				}
				switch names[k] {
				case "paymentRequired":
					out[ex] = true
				case "success", "received", "refreshed", "acknowledged":
					out[ex] = false
				case "exists", "found":
					if !hasList(res) {
						out[ex] = false
					}
				}
			}
		}
		k++
	}
	return out
}

// hasList: what was not found shows in an empty list.
func hasList(t *types.Tuple) bool {
	for i := 0; i < t.Len(); i++ {
		if _, ok := t.At(i).Type().Underlying().(*types.Slice); ok {
			return true
		}
	}
	return false
}

// ignoredRefusal: a flag of a decoded answer that nothing looks at.
func (w *failWorld) refusalRules(r *Run, f *ssa.Function, c *ssa.Call) {
	u := w.u
	fl := w.refusals(c)
	g := c.Call.StaticCallee()
	if g != nil && strings.HasPrefix(g.Name(), "Decode") && strings.Contains(g.Name(), "Response") && isRepoFunc(g) && g.Pkg.Func("Encode"+strings.TrimPrefix(g.Name(), "Decode")) != nil {
		// the flag must be taken from the answer at all
		enc := g.Pkg.Func("Encode" + strings.TrimPrefix(g.Name(), "Decode"))
		want := 0
		for _, p := range enc.Params {
			switch p.Name() {
			case "success", "received", "refreshed", "acknowledged", "paymentRequired":
				want++
			case "exists", "found":
				if !hasList(g.Signature.Results()) {
					want++
				}
			}
		}
		if want > 0 {
			r.ob("refusal-reported", short(f)+": "+u.CalleeName(c), len(fl) >= want, u.Pos(c.Pos()), "the part of the answer that says whether it is a refusal is not looked at")
		}
	}
	for ex, no := range fl {
		fw := w.walkRefused(f, c, ex, no)
		why, where := "", u.Pos(c.Pos())
		for k, at := range fw.out {
			why, where = "when the answer is a refusal, the function "+k, at
		}
		r.ob("refusal-reported", short(f)+": "+u.CalleeName(c)+" result "+itoa(ex.Index), why == "", where, why)
	}
}

func init() {
	register("P28", "Every way a function can go on when a call fails is walked; none may report success or use the result that is not there.",
		[]string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin", "register"}, func(r *Run) {
			r.rule("failure-reported", "no way a function goes on after an operation failed reports success")
			for _, mod := range []string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin", "register"} {
				failModule(r, r.U(mod))
			}
			r.rule("refusal-reported", "no way a function goes on after decoding an answer that refuses (not successful, not received, payment required) reports success")
			r.floor("failure-reported", 200)
			r.floor("refusal-reported", 10)
		})
}

func failModule(r *Run, u *Universe) {
	w := &failWorld{u: u, pos: map[*ssa.Function]int{}, fails: map[*ssa.Function]int{}, nilable: map[*ssa.Function]int{}}
	for _, f := range u.Funcs {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || !u.Roots[root.Pkg] || f.Blocks == nil || generatedOrTool(root.Pkg.Pkg.Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					if cc, is := ins.(ssa.CallInstruction); is && errResult(cc.Common().Signature()) >= 0 && w.canFail(cc) && baseOfName(u.CalleeName(cc)) != "Rollback" {
						r.ob("failure-reported", short(f)+": "+u.CalleeName(cc), false, u.Pos(cc.Pos()), "nobody learns of its failure, as it is started or deferred")
					}
					continue
				}
				if errResult(c.Common().Signature()) < 0 {
					continue
				}
				w.refusalRules(r, f, c)
				if !w.canFail(c) {
					r.count("calls that cannot fail", 1)
					continue
				}
				name := u.CalleeName(c)
				fw := w.walk(f, c, true)
				why, where := "", u.Pos(c.Pos())
				var ks []string
				for k := range fw.out {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if why == "" {
						where = fw.out[k]
						why = "when it fails, the function " + k
					}
				}
				if why == "" && (fw.skip && !bestEffort(name) && !retried(c) || f.Signature.Results().Len() == 0 && !takesAnswer(f)) {
					// the item is left out, or nothing is reported: what follows success must not all follow failure
					ok := w.walk(f, c, false)
					lost := false
					for ins := range ok.eff {
						if !fw.eff[ins] {
							lost = true
						}
					}
					extra := false
					for ins := range fw.eff {
						if !ok.eff[ins] {
							extra = true
						}
					}
					if !lost && !extra && (fw.skip || len(ok.eff) > 0) {
						why = "when it fails, the function goes on as if it had not"
					}
				}
				r.ob("failure-reported", short(f)+": "+name, why == "", where, why)
			}
		}
	}
}

// generatedOrTool: generated API code (another property) and developers' scripts.
func generatedOrTool(p string) bool {
	return strings.Contains(p, "/scripts/") || strings.Contains(p, "register/restapi") || strings.Contains(p, "register/models")
}
