package main

// P13: whose amount a big.Int is, and who may change it.
//
// Every *big.Int is traced to where it comes from: made here (fresh), given by a caller (param), or kept somewhere
// (a field, a table, a package variable). Only fresh amounts, and amounts in a field of the same component that holds
// nothing but amounts it made itself, may be changed.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bigInt = "math/big.Int"

// changes: the operands of a call to a method of big.Int that it writes to (0 is the receiver).
func bigChanges(name string) []int {
	if !strings.HasPrefix(name, bigInt+".") {
		return nil
	}
	switch m := strings.TrimPrefix(name, bigInt+"."); m {
	case "QuoRem", "DivMod":
		return []int{0, 3}
	case "GCD":
		return []int{0, 1, 2}
	case "Set", "SetInt64", "SetUint64", "SetBits", "SetBytes", "SetString", "SetBit", "Abs", "Neg", "Add", "Sub", "Mul", "MulRange", "Binomial",
		"Quo", "Rem", "Div", "Mod", "Exp", "ModInverse", "ModSqrt", "Lsh", "Rsh", "And", "AndNot", "Or", "Xor", "Not", "Sqrt", "Rand",
		"Scan", "UnmarshalJSON", "UnmarshalText", "GobDecode":
		return []int{0}
	}
	return nil
}

// fillsInterface: an outside function that writes through the pointers it is given as interfaces.
func fillsInterface(name string) bool {
	b := baseOfName(name)
	for _, p := range []string{"Unmarshal", "Scan", "Sscan", "Fscan", "Decode", "Unpack"} {
		if strings.HasPrefix(b, p) {
			return true
		}
	}
	return false
}

func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigVal(p.Elem())
}

func isBigVal(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

// holdsBig: a value of the type holds an amount itself (not a pointer to one), so that copying it shares its digits.
func holdsBig(t types.Type) bool { return holdsBig1(t, 0) }
func holdsBig1(t types.Type, d int) bool {
	if d > 8 {
		return false
	}
	if isBigVal(t) {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		n, ok := types.Unalias(t).(*types.Named)
		if ok && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix)) {
			return false
		}
		for i := 0; i < x.NumFields(); i++ {
			if holdsBig1(x.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return holdsBig1(x.Elem(), d+1)
	}
	return false
}

type amtOrigin struct {
	kind string    // fresh, outside, param, kept
	at   ssa.Value // what made it; the parameter
	what string    // for kept: the place
	fld  string    // for kept: type.field
}

type amounts struct {
	u     *Universe
	busy  map[ssa.Value]bool
	depth int
}

func (a *amounts) from(v ssa.Value) []amtOrigin {
	if a.busy[v] || a.depth > 40 {
		return nil
	}
	a.busy[v] = true
	a.depth++
	defer func() { delete(a.busy, v); a.depth-- }()
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Alloc:
		return []amtOrigin{{kind: "fresh", at: x}}
	case *ssa.Parameter:
		if x.Parent().Parent() != nil {
			// a function literal called in the function that makes it
			if os, ok := a.literalArgs(x); ok {
				return os
			}
		}
		return []amtOrigin{{kind: "param", at: x}}
	case *ssa.FreeVar:
		return a.binding(x)
	case *ssa.Global:
		return []amtOrigin{{kind: "kept", what: "the package variable " + x.Name(), fld: "global " + x.RelString(nil)}}
	case *ssa.Phi:
		var out []amtOrigin
		for _, e := range x.Edges {
			out = append(out, a.from(e)...)
		}
		return out
	case *ssa.ChangeType:
		return a.from(x.X)
	case *ssa.Convert:
		return a.from(x.X)
	case *ssa.MakeInterface:
		return a.from(x.X)
	case *ssa.ChangeInterface:
		return a.from(x.X)
	case *ssa.TypeAssert:
		return a.from(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.call(c, x.Index)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return a.from(ta.X)
		}
		if _, ok := x.Tuple.(*ssa.Lookup); ok {
			return []amtOrigin{{kind: "kept", what: "an entry of a table", fld: "entry"}}
		}
		return []amtOrigin{{kind: "kept", what: "an entry of a table", fld: "entry"}}
	case *ssa.Call:
		return a.call(x, 0)
	case *ssa.Lookup:
		return []amtOrigin{{kind: "kept", what: "an entry of a table", fld: "entry"}}
	case *ssa.FieldAddr:
		return a.field(x.X, x.X.Type(), x.Field)
	case *ssa.Field:
		return a.field(x.X, x.X.Type(), x.Field)
	case *ssa.IndexAddr, *ssa.Index:
		return []amtOrigin{{kind: "kept", what: "an element of a list", fld: "element"}}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return []amtOrigin{{kind: "kept", what: "a value received", fld: "received"}}
		}
		switch y := x.X.(type) {
		case *ssa.Alloc:
			var out []amtOrigin
			for _, s := range allStores(y) {
				out = append(out, a.from(s.Val)...)
			}
			if len(out) == 0 && isBigVal(y.Type().Underlying().(*types.Pointer).Elem()) {
				return []amtOrigin{{kind: "fresh", at: y}}
			}
			return out
		case *ssa.FreeVar:
			// the variable itself: what was stored in it where it was made
			var out []amtOrigin
			for _, al := range boundAllocs(a.u, y) {
				for _, s := range allStores(al) {
					out = append(out, a.from(s.Val)...)
				}
			}
			return out
		}
		return a.from(x.X)
	case *ssa.Slice:
		return a.from(x.X)
	}
	return []amtOrigin{{kind: "kept", what: "a value of unknown origin", fld: "unknown"}}
}

func (a *amounts) field(base ssa.Value, t types.Type, i int) []amtOrigin {
	fld := typeFull(t) + "." + fieldName(t, i)
	own := []amtOrigin{{kind: "kept", what: "the field " + fld, fld: fld}}
	if !strings.HasPrefix(typeFull(t), "github.com") && strings.Contains(typeFull(t), ".") && isRepoType(t) {
		return own
	}
	// a field of something an outside function made for the caller
	var os []amtOrigin
	for _, o := range a.from(base) {
		if o.kind == "outside" || o.kind == "fresh" {
			os = append(os, amtOrigin{kind: "outside", at: o.at})
			continue
		}
		return own
	}
	// what is stored in the field here
	if al, ok := base.(*ssa.Alloc); ok && al.Referrers() != nil {
		for _, ref := range *al.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Field == i && fa.Referrers() != nil {
				for _, r2 := range *fa.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
						os = append(os, a.from(s.Val)...)
					}
				}
			}
		}
	}
	if len(os) == 0 {
		return own
	}
	return os
}

func isRepoType(t types.Type) bool {
	for {
		p, ok := t.(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix)
}

func (a *amounts) binding(fv *ssa.FreeVar) (out []amtOrigin) {
	fn := fv.Parent()
	for i, x := range fn.FreeVars {
		if x != fv || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					out = append(out, a.from(mc.Bindings[i])...)
				}
			}
		}
	}
	return
}

func boundAllocs(u *Universe, fv *ssa.FreeVar) (out []*ssa.Alloc) {
	fn := fv.Parent()
	for i, x := range fn.FreeVars {
		if x != fv || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					switch y := mc.Bindings[i].(type) {
					case *ssa.Alloc:
						out = append(out, y)
					case *ssa.FreeVar:
						out = append(out, boundAllocs(u, y)...)
					}
				}
			}
		}
	}
	return
}

func (a *amounts) literalArgs(p *ssa.Parameter) (out []amtOrigin, ok bool) {
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	calls := a.u.callersOf(fn)
	if len(calls) == 0 {
		return nil, false
	}
	for _, c := range calls {
		if idx >= len(c.Common().Args) {
			return nil, false
		}
		out = append(out, a.from(c.Common().Args[idx])...)
	}
	return out, true
}

func (a *amounts) call(c *ssa.Call, idx int) []amtOrigin {
	name := a.u.CalleeName(c)
	if strings.HasPrefix(name, bigInt+".") {
		if len(bigChanges(name)) > 0 {
			switch baseOfName(name) {
			case "QuoRem", "DivMod":
				if idx == 1 {
					return a.from(args(c)[3])
				}
			}
			return a.from(args(c)[0])
		}
		return []amtOrigin{{kind: "fresh", at: c}}
	}
	if name == "math/big.NewInt" {
		return []amtOrigin{{kind: "fresh", at: c}}
	}
	var fns []*ssa.Function
	if f := c.Call.StaticCallee(); f != nil {
		fns = []*ssa.Function{f}
	} else if c.Call.IsInvoke() {
		for _, f := range a.u.Funcs {
			if f.Name() == c.Call.Method.Name() && f.Signature.Recv() != nil && implementsCall(f, c) {
				fns = append(fns, f)
			}
		}
	} else if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
		fns = []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	var out []amtOrigin
	known := false
	for _, f := range fns {
		if f.Blocks == nil || !isRepoFunc(f) {
			continue
		}
		known = true
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(ret.Results) {
				continue
			}
			for _, o := range a.from(ret.Results[idx]) {
				switch o.kind {
				case "param":
					as := args(c)
					if !c.Call.IsInvoke() {
						as = c.Call.Args
					}
					for i, p := range f.Params {
						if ssa.Value(p) == o.at && i < len(as) {
							out = append(out, a.from(as[i])...)
						}
					}
				case "fresh", "outside":
					out = append(out, amtOrigin{kind: o.kind, at: c})
				default:
					out = append(out, o)
				}
			}
		}
	}
	if known {
		return out
	}
	if _, isB := c.Call.Value.(*ssa.Builtin); isB {
		return []amtOrigin{{kind: "kept", what: "an element of a list", fld: "element"}}
	}
	if strings.HasPrefix(name, "github.com") || !strings.Contains(name, "/pkg/") && !strings.HasPrefix(name, "common/") && name != "" {
		return []amtOrigin{{kind: "outside", at: c}}
	}
	return []amtOrigin{{kind: "kept", what: "the result of " + name, fld: name}}
}

func implementsCall(f *ssa.Function, c *ssa.Call) bool {
	it, ok := c.Call.Value.Type().Underlying().(*types.Interface)
	return ok && types.Implements(f.Signature.Recv().Type(), it)
}

func isSettingsType(fld string) bool {
	l := strings.ToLower(fld)
	return strings.Contains(l, "setting") || strings.Contains(l, "config") || strings.Contains(l, "builder")
}

type amountRun struct {
	r      *Run
	u      *Universe
	a      *amounts
	stores map[string][]*ssa.Store // type.field -> stores
	lits   map[string]bool
	seen   map[string]bool
}

func fldOf(addr ssa.Value) string {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		return typeFull(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
	}
	return ""
}

func inPackage(f *ssa.Function, fld string) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(fld, shortPkg(f.Pkg.Pkg.Path())+".") && strings.Count(strings.TrimPrefix(fld, shortPkg(f.Pkg.Pkg.Path())+"."), ".") == 1 &&
		!strings.Contains(strings.TrimPrefix(fld, shortPkg(f.Pkg.Pkg.Path())+"."), "/")
}

// mayChange: why the amount may not be changed by the function ("" it may).
func (m *amountRun) mayChange(f *ssa.Function, v ssa.Value, depth int) string {
	if depth > 8 {
		return "it is changed through too many functions to follow"
	}
	for _, o := range m.a.from(v) {
		switch o.kind {
		case "kept":
			if why := m.owned(f, o); why != "" {
				return why
			}
		case "param":
			p := o.at.(*ssa.Parameter)
			g := p.Parent()
			if g.Object() != nil && g.Object().Exported() || g.Object() == nil && g.Parent() == nil {
				return "it was given by the caller of " + short(g)
			}
			cs := m.u.callersOf(g)
			if len(cs) == 0 {
				return "it was given by the caller of " + short(g)
			}
			idx := -1
			for i, q := range g.Params {
				if q == p {
					idx = i
				}
			}
			for _, c := range cs {
				as := c.Common().Args
				if c.Common().IsInvoke() {
					as = args(c)
				}
				if idx < 0 || idx >= len(as) {
					return "it was given by the caller of " + short(g)
				}
				if why := m.mayChange(c.Parent(), as[idx], depth+1); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// owned: the place belongs to the component of the function and holds nothing but amounts made for it.
func (m *amountRun) owned(f *ssa.Function, o amtOrigin) string {
	if isSettingsType(o.fld) {
		return o.what + " belongs to the configuration"
	}
	if !inPackage(f, o.fld) {
		return o.what + " belongs to someone else"
	}
	for _, s := range m.stores[o.fld] {
		if isBigVal(s.Val.Type()) {
			continue // copies are looked at on their own
		}
		for _, so := range m.a.from(s.Val) {
			if so.kind == "kept" && so.fld == o.fld {
				continue
			}
			if so.kind == "kept" || so.kind == "param" {
				return o.what + " can hold an amount of someone else (" + m.u.Pos(s.Pos()) + ")"
			}
		}
	}
	return ""
}

func init() {
	register("P13", "Every *big.Int is traced through calls, results, closures, fields and merges to where it comes from. Each call that writes to an amount is then required to write to one made for it or owned by the writing component; each copy of an amount by value is required to take its digits from one nobody else uses; and the uses of the payment ledger's amounts are followed until they end in a reading.",
		[]string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin"}, func(r *Run) {
			r.rule("not-changed", "an amount that is written to was made for the purpose or belongs to the writing component, never to a caller, the configuration or another component")
			r.rule("digits-not-shared", "an amount is never copied by value from one that is used elsewhere (the copy would share its digits)")
			r.rule("ledger-not-shared", "an amount of the payment ledger is only read or written in the ledger; no pointer to it is returned, stored or handed on, and no pointer of a caller is kept in it")
			for _, mod := range []string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin"} {
				amountModule(r, r.U(mod))
			}
			r.floor("not-changed", 8)
			r.floor("digits-not-shared", 1)
			r.floor("ledger-not-shared", 3)
		})
}

func amountModule(r *Run, u *Universe) {
	m := &amountRun{r: r, u: u, a: &amounts{u: u, busy: map[ssa.Value]bool{}}, stores: map[string][]*ssa.Store{}, seen: map[string]bool{}}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if k := fldOf(s.Addr); k != "" {
						m.stores[k] = append(m.stores[k], s)
					}
				}
			}
		}
	}
	copies := map[ssa.Value][]*ssa.UnOp{}
	for _, f := range u.Funcs {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || !u.Roots[root.Pkg] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					m.callSite(f, x)
				case *ssa.UnOp:
					if x.Op == token.MUL && holdsBig(x.Type()) {
						m.copied(f, x, copies)
					}
				case *ssa.Lookup:
					m.byValue(f, x, x.Type())
				case *ssa.Next:
					if t, ok := x.Type().(*types.Tuple); ok && t.Len() == 3 {
						m.byValue(f, x, t.At(2).Type())
					}
				case *ssa.FieldAddr:
					m.ledger(f, x)
				case *ssa.Store:
					m.ledgerStore(f, x)
					m.written(f, x)
				}
			}
		}
	}
}

func (m *amountRun) describe(v ssa.Value) string {
	var out []string
	for _, o := range m.a.from(v) {
		d := o.kind
		if o.kind == "kept" {
			d = o.fld
		}
		if o.kind == "param" {
			d = "parameter " + o.at.Name()
		}
		out = append(out, d)
	}
	sort.Strings(out)
	return uniqJoin(out)
}

func (m *amountRun) callSite(f *ssa.Function, c ssa.CallInstruction) {
	name := m.u.CalleeName(c)
	as := args(c)
	if strings.HasPrefix(name, bigInt+".") {
		for _, i := range bigChanges(name) {
			if i >= len(as) {
				continue
			}
			m.r.count("writing calls", 1)
			why := m.mayChange(f, as[i], 0)
			m.r.ob("not-changed", short(f)+" "+strings.TrimPrefix(name, "math/big.")+" of "+m.describe(as[i]), why == "", m.u.Pos(c.Pos()), why)
		}
		if b := baseOfName(name); b == "Bits" || b == "SetBits" {
			v := as[len(as)-1]
			if b == "Bits" {
				why := m.mayChange(f, v, 0)
				m.r.ob("digits-not-shared", short(f)+" Bits of "+m.describe(v), why == "", m.u.Pos(c.Pos()), "the digits of the amount are handed out: "+why)
			}
		}
		return
	}
	if fn := c.Common().StaticCallee(); fn != nil && isRepoFunc(fn) || !fillsInterface(name) {
		return
	}
	for _, a := range as {
		var vs []ssa.Value
		if els := varargs(a); els != nil {
			vs = els
		} else {
			vs = []ssa.Value{a}
		}
		for _, v := range vs {
			w := unwrap(v)
			if !isBigPtr(w.Type()) {
				continue
			}
			why := m.mayChange(f, w, 0)
			m.r.ob("not-changed", short(f)+" "+name+" of "+m.describe(w), why == "", m.u.Pos(c.Pos()), why)
		}
	}
}

// copied: an amount (or a structure holding one) copied by value.
func (m *amountRun) copied(f *ssa.Function, x *ssa.UnOp, copies map[ssa.Value][]*ssa.UnOp) {
	if refs := x.Referrers(); refs == nil || len(*refs) == 0 {
		return
	}
	m.r.count("copies by value", 1)
	if m.onlyRead(x) {
		m.r.ob("digits-not-shared", short(f)+" copy of "+m.describe(x.X), true, m.u.Pos(x.Pos()), "")
		return
	}
	why := ""
	for _, o := range m.a.from(x.X) {
		switch o.kind {
		case "fresh", "outside":
			for _, y := range copies[o.at] {
				if y.Parent() != x.Parent() || y.Block() == x.Block() || reachesB(y.Block(), x.Block()) || reachesB(x.Block(), y.Block()) {
					why = "the same amount is copied twice, and the copies share their digits"
				}
			}
			copies[o.at] = append(copies[o.at], x)
			if ai, ok := o.at.(ssa.Instruction); ok && ai.Block() != nil && ai.Parent() == f && repeats(x.Block(), ai.Block()) {
				why = "the same amount is copied again and again, and the copies share their digits"
			}
			if w := usedAfter(x, o.at); w != "" && why == "" {
				why = w
			}
			if w := m.escapes(f, o.at); w != "" && why == "" {
				why = w
			}
		case "kept":
			why = "it shares its digits with " + o.what
		case "param":
			why = "it shares its digits with the caller's amount " + o.at.Name()
		}
	}
	m.r.ob("digits-not-shared", short(f)+" copy of "+m.describe(x.X), why == "", m.u.Pos(x.Pos()), why)
}

// onlyRead: the copy is a local variable that is only read.
func (m *amountRun) onlyRead(x *ssa.UnOp) bool {
	if !isBigVal(x.Type()) {
		return false
	}
	for _, ref := range *x.Referrers() {
		s, ok := ref.(*ssa.Store)
		if !ok {
			return false
		}
		al, ok := s.Addr.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r2 := range *al.Referrers() {
			switch y := r2.(type) {
			case *ssa.Store:
				if y.Addr != ssa.Value(al) {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.Call:
				name := m.u.CalleeName(y)
				if !strings.HasPrefix(name, bigInt+".") || baseOfName(name) == "Bits" {
					return false
				}
				as := args(y)
				for _, i := range bigChanges(name) {
					if i < len(as) && as[i] == ssa.Value(al) {
						return false
					}
				}
			default:
				return false
			}
		}
	}
	return true
}

// escapes: the original of a copy is itself handed to the caller or kept in a field.
func (m *amountRun) escapes(f *ssa.Function, at ssa.Value) string {
	same := func(v ssa.Value) bool {
		if !isBigPtr(v.Type()) {
			return false
		}
		for _, o := range m.a.from(v) {
			if o.at == at && (o.kind == "fresh" || o.kind == "outside") {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Return:
				for _, v := range x.Results {
					if same(v) {
						return "the original is handed to the caller after it was copied, and the two share their digits"
					}
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isRepoType(fa.X.Type()) && same(x.Val) {
					return "the original is also kept in " + fldOf(fa) + ", and the two share their digits"
				}
			}
		}
	}
	return ""
}

// usedAfter: the original is written to after it was copied.
func usedAfter(x *ssa.UnOp, at ssa.Value) string {
	seen := map[ssa.Value]bool{}
	why := ""
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch y := ref.(type) {
			case *ssa.Call:
				f := y.Call.StaticCallee()
				if f == nil {
					continue
				}
				for _, i := range bigChanges(FuncFull(f)) {
					if i < len(y.Call.Args) && y.Call.Args[i] == v && (y.Block() == x.Block() && laterIn(y, x) || y.Block() != x.Block() && reachesB(x.Block(), y.Block())) {
						why = "the original is changed after it was copied, and the two share their digits"
					}
				}
				if len(bigChanges(FuncFull(f))) > 0 && len(y.Call.Args) > 0 && y.Call.Args[0] == v {
					walk(y)
				}
			case *ssa.Phi:
				walk(y)
			}
		}
	}
	walk(at)
	return why
}

func laterIn(a, b ssa.Instruction) bool {
	for _, ins := range b.Block().Instrs {
		if ins == a {
			return false
		}
		if ins == b {
			return true
		}
	}
	return false
}

func reachesB(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// repeats: the block can be executed again without the other in between.
func repeats(b, not *ssa.BasicBlock) bool {
	if b == not {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{not: true}
	st := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func (m *amountRun) byValue(f *ssa.Function, x ssa.Instruction, t types.Type) {
	if tp, ok := t.(*types.Tuple); ok && tp.Len() > 0 {
		t = tp.At(0).Type()
	}
	if holdsBig(t) {
		m.r.ob("digits-not-shared", short(f)+" copy of a table entry", false, m.u.Pos(x.Pos()), "the entry is copied, and the copy shares the digits of its amounts")
	}
}

func isLedger(fld string) bool { return strings.HasPrefix(fld, "common/pkg/fcrpaymentmgr.") }

// ledger: every use of the address of an amount of the ledger (or of a pointer it keeps) ends in the ledger.
func (m *amountRun) ledger(f *ssa.Function, fa *ssa.FieldAddr) {
	fld := fldOf(fa)
	if !isLedger(fld) {
		return
	}
	ft := fa.Type().Underlying().(*types.Pointer).Elem()
	var starts []ssa.Value
	switch {
	case isBigVal(ft):
		starts = []ssa.Value{fa}
	case isBigPtr(ft):
		for _, ref := range *fa.Referrers() {
			if ld, ok := ref.(*ssa.UnOp); ok && ld.Op == token.MUL {
				starts = append(starts, ld)
			}
		}
	default:
		return
	}
	why := ""
	for _, s := range starts {
		if w := m.follow(s, fld, map[ssa.Value]bool{}, 0); w != "" {
			why = w
		}
	}
	m.r.ob("ledger-not-shared", short(f)+" "+fld, why == "", m.u.Pos(fa.Pos()), why)
}

func (m *amountRun) follow(v ssa.Value, fld string, seen map[ssa.Value]bool, depth int) string {
	if seen[v] || v.Referrers() == nil {
		return ""
	}
	if depth > 12 {
		return "it is handed through too many functions"
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		why := ""
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue // written through
			}
			if fldOf(x.Addr) == fld {
				continue
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, r2 := range *al.Referrers() {
					switch y := r2.(type) {
					case *ssa.UnOp:
						if w := m.follow(y, fld, seen, depth+1); w != "" {
							why = w
						}
					case *ssa.Store:
					case *ssa.DebugRef:
					default:
						why = "it is kept elsewhere"
					}
				}
			} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				// the list of arguments of a call
				if al, ok := ia.X.(*ssa.Alloc); ok {
					for _, r2 := range *al.Referrers() {
						if sl, ok := r2.(*ssa.Slice); ok {
							for _, r3 := range *sl.Referrers() {
								if c, ok := r3.(ssa.CallInstruction); !ok || !m.reader(c) {
									why = "it is kept elsewhere"
								}
							}
						}
					}
				} else {
					why = "it is kept elsewhere"
				}
			} else {
				why = "it is kept elsewhere"
			}
		case *ssa.Return:
			g := x.Parent()
			if g.Object() == nil || g.Object().Exported() {
				if g.Parent() == nil {
					why = short(g) + " returns it"
					break
				}
			}
			for _, c := range m.u.callersOf(g) {
				if cv, ok := c.(*ssa.Call); ok {
					if cv.Call.Signature().Results().Len() == 1 {
						why = m.follow(cv, fld, seen, depth+1)
					} else {
						for _, ex := range extracts(cv) {
							for i, rv := range x.Results {
								if rv == v && ex.Index == i {
									if w := m.follow(ex, fld, seen, depth+1); w != "" {
										why = w
									}
								}
							}
						}
					}
				}
			}
		case ssa.CallInstruction:
			name := m.u.CalleeName(x)
			if strings.HasPrefix(name, bigInt+".") {
				if cv, ok := x.(*ssa.Call); ok && len(bigChanges(name)) > 0 && x.Common().Args[0] == v {
					why = m.follow(cv, fld, seen, depth+1)
				}
				if baseOfName(name) == "Bits" {
					why = "its digits are handed out"
				}
				break
			}
			g := x.Common().StaticCallee()
			if g != nil && isRepoFunc(g) && g.Blocks != nil {
				for i, p := range x.Common().Args {
					if p == v && i < len(g.Params) {
						if w := m.follow(g.Params[i], fld, seen, depth+1); w != "" {
							why = w
						}
					}
				}
				break
			}
			if !m.reader(x) {
				why = "it is handed to " + name
			}
		case *ssa.MakeInterface:
			why = m.follow(x, fld, seen, depth+1)
		case *ssa.Phi:
			why = m.follow(x, fld, seen, depth+1)
		case *ssa.ChangeType:
			why = m.follow(x, fld, seen, depth+1)
		case *ssa.UnOp, *ssa.BinOp, *ssa.DebugRef, *ssa.FieldAddr:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					if w := m.follow(fn.FreeVars[i], fld, seen, depth+1); w != "" {
						why = w
					}
				}
			}
		default:
			why = fmt.Sprintf("it is used by %T", ref)
		}
		if why != "" {
			return why
		}
	}
	return ""
}

// reader: an outside function known only to read the amounts it is given.
func (m *amountRun) reader(c ssa.CallInstruction) bool {
	name := m.u.CalleeName(c)
	for _, p := range []string{"fmt.", "common/pkg/logging.", "errors.", "strconv.", "math/big."} {
		if strings.HasPrefix(name, p) && !fillsInterface(name) {
			return true
		}
	}
	return strings.HasSuffix(name, "go-state-types/big.NewFromGo") || strings.HasSuffix(name, ".Cmp")
}

// ledgerStore: no pointer of a caller is kept in the ledger.
func (m *amountRun) ledgerStore(f *ssa.Function, s *ssa.Store) {
	fld := fldOf(s.Addr)
	if !isLedger(fld) || !isBigPtr(s.Val.Type()) {
		return
	}
	why := ""
	for _, o := range m.a.from(s.Val) {
		switch o.kind {
		case "param":
			why = "the caller's amount " + o.at.Name() + " is kept"
		case "kept":
			if o.fld != fld {
				why = o.what + " is kept a second time"
			}
		}
	}
	m.r.ob("ledger-not-shared", short(f)+" stores "+fld, why == "", m.u.Pos(s.Pos()), why)
}

// written: an amount overwritten as a whole, or an amount of the configuration replaced.
func (m *amountRun) written(f *ssa.Function, s *ssa.Store) {
	if isBigVal(s.Val.Type()) {
		why := m.mayChange(f, s.Addr, 0)
		m.r.ob("not-changed", short(f)+" overwrites "+m.describe(s.Addr), why == "", m.u.Pos(s.Pos()), why)
		return
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || !isBigPtr(s.Val.Type()) || !isSettingsType(fldOf(fa)) {
		return
	}
	if inPackage(f, fldOf(fa)) {
		return // the settings' own constructors and setters
	}
	why := ""
	for _, o := range m.a.from(fa.X) {
		if o.kind != "fresh" {
			why = "an amount of the configuration is replaced after it was made"
		}
	}
	m.r.ob("not-changed", short(f)+" sets "+fldOf(fa), why == "", m.u.Pos(s.Pos()), why)
}
