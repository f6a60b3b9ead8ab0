package main

// Codec analysis: which parameter (or receiver field) reaches which wire field under which transformation, and which
// wire field comes back as which result. Works on the inlined graph, so helpers, builders and hand-written loops count.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// transformations and their inverses
var fwdCalls = map[string]string{
	"common/pkg/nodeid.NodeID.ToString": "hex", "common/pkg/cid.ContentID.ToString": "hex",
	"common/pkg/nodeid.NodeID.ToBytes": "bytes", "common/pkg/cid.ContentID.ToBytes": "bytes",
	"common/pkg/fcrcrypto.KeyPair.EncodePrivateKey": "priv", "common/pkg/fcrcrypto.KeyPair.EncodePublicKey": "pub",
	"common/pkg/fcrcrypto.KeyVersion.EncodeKeyVersion": "ver",
	"common/pkg/fcrmessages.FCRMessage.GetMessageBody": "body", "common/pkg/fcrmessages.FCRMessage.GetMessageType": "type",
	"common/pkg/fcrcrypto.KeySigAlg.EncodeSigAlg": "alg",
}
var invCalls = map[string]string{
	"common/pkg/nodeid.NewNodeIDFromHexString": "unhex", "common/pkg/cid.NewContentIDFromHexString": "unhex",
	"common/pkg/nodeid.NewNodeIDFromBytes": "unbytes", "common/pkg/cid.NewContentIDFromBytes": "unbytes",
	"common/pkg/fcrcrypto.DecodePrivateKey": "unpriv", "common/pkg/fcrcrypto.DecodePublicKey": "unpub",
	"common/pkg/fcrcrypto.DecodeKeyVersion": "unver",
}

func codecOpaque(name string, f *ssa.Function) bool {
	if fwdCalls[name] != "" || invCalls[name] != "" {
		return true
	}
	switch name {
	case "common/pkg/fcrmessages.CreateFCRMessage", "common/pkg/fcrmessages.FCRMessage.DumpMessage":
		return true
	}
	return strings.HasPrefix(name, "common/pkg/fcrcrypto.") || strings.HasPrefix(name, "common/pkg/fcrmerkletree.") || strings.HasPrefix(name, "common/pkg/cidoffer.") && f != nil && f.Object() != nil && f.Object().Exported()
}

type Flow struct {
	st *FSet // what is known where the value is used (nil: nothing)
	g  *G
	// wire: locals that json.Unmarshal fills
	wire map[ssa.Value]*ssa.Call
	busy map[Val]bool
}

func newFlow(g *G) *Flow {
	fl := &Flow{g: g, wire: map[ssa.Value]*ssa.Call{}, busy: map[Val]bool{}}
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if name == "encoding/json.Unmarshal" {
			if a := g.resolve(Val{n.ctx, args(c)[1]}); a.v != nil {
				if al, ok := a.v.(*ssa.Alloc); ok {
					if call, ok := n.instr.(*ssa.Call); ok {
						fl.wire[al] = call
					}
				}
			}
		}
	})
	return fl
}

func jsonName(t types.Type, i int) (string, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return "", false
	}
	f := s.Field(i)
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	name := strings.Split(tag, ",")[0]
	if name == "-" && tag == "-" || !f.Exported() && !f.Embedded() {
		return "-" + f.Name(), false
	}
	if name == "" {
		name = f.Name()
	}
	return name, true
}

func (fl *Flow) of(v Val) string {
	g := fl.g
	v = g.resolve(v)
	if fl.busy[v] {
		return "?cycle"
	}
	fl.busy[v] = true
	defer delete(fl.busy, v)
	if s, ok := fl.list(v); ok {
		return s
	}
	if s, ok := fl.fill(v); ok {
		return s
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		if x.Value.Kind() == constant.String {
			return "const:" + constant.StringVal(x.Value)
		}
		return "const:" + x.Value.ExactString()
	case *ssa.Parameter:
		if v.ctx.parent == nil {
			for i, p := range v.ctx.fn.Params {
				if p == x {
					if i == 0 && v.ctx.fn.Signature.Recv() != nil {
						return "r"
					}
					if v.ctx.fn.Signature.Recv() != nil {
						i--
					}
					return fmt.Sprintf("p%d", i)
				}
			}
		}
	case *ssa.Global:
		return "global:" + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return fl.load(Val{v.ctx, x.X})
		}
		return x.Op.String() + "(" + fl.of(Val{v.ctx, x.X}) + ")"
	case *ssa.Alloc, *ssa.FieldAddr:
		return fl.load(v)
	case *ssa.Field:
		n, _ := jsonName(x.X.Type(), x.Field)
		_ = n
		return fl.field(fl.of(Val{v.ctx, x.X}), x.X.Type(), x.Field)
	case *ssa.Convert:
		from, to := x.X.Type().Underlying(), x.Type().Underlying()
		fb, ok1 := from.(*types.Basic)
		tb, ok2 := to.(*types.Basic)
		if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if intBits(fb) <= intBits(tb) {
				return fl.of(Val{v.ctx, x.X})
			}
		}
		return "conv:" + shortT(x.Type()) + "(" + fl.of(Val{v.ctx, x.X}) + ")"
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return fl.of(Val{v.ctx, x.X})
		}
	case *ssa.Call:
		return fl.call(v.ctx, x, 0)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return fl.call(v.ctx, c, x.Index)
		}
	case *ssa.Phi:
		return fl.merge(v.ctx, x)
	case *ssa.BinOp:
		return "(" + fl.of(Val{v.ctx, x.X}) + x.Op.String() + fl.of(Val{v.ctx, x.Y}) + ")"
	}
	return "?" + shortInstr(v.v)
}

func shortInstr(v ssa.Value) string {
	return strings.TrimPrefix(fmt.Sprintf("%T", v), "*ssa.")
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (fl *Flow) merge(c *Ctx, x *ssa.Phi) string {
	set := map[string]bool{}
	for _, e := range x.Edges {
		set[fl.of(Val{c, e})] = true
	}
	return alt(set)
}

func alt(set map[string]bool) string {
	var ss []string
	for s := range set {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	if len(ss) == 1 {
		return ss[0]
	}
	return "alt{" + strings.Join(ss, "|") + "}"
}

func (fl *Flow) call(c *Ctx, x *ssa.Call, idx int) string {
	name := fl.g.u.CalleeName(x)
	as := args(x)
	if t := fwdCalls[name]; t != "" && idx == 0 {
		return t + "(" + fl.of(Val{c, as[0]}) + ")"
	}
	if t := invCalls[name]; t != "" && idx == 0 {
		return t + "(" + fl.of(Val{c, as[0]}) + ")"
	}
	if c.children[x] != nil {
		set := map[string]bool{}
		for _, r := range fl.g.resultsIn(fl.st, c, x, idx) {
			set[fl.of(r)] = true
		}
		return alt(set)
	}
	if d := fl.streamed(c, x, name); d != "" {
		return d
	}
	var ss []string
	for _, a := range as {
		ss = append(ss, fl.of(Val{c, a}))
	}
	return fmt.Sprintf("%s#%d(%s)", name, idx, strings.Join(ss, ","))
}

// streamed: the sum of a hasher made for it that took one piece of data, always, before.
func (fl *Flow) streamed(c *Ctx, x *ssa.Call, name string) string {
	g := fl.g
	as := args(x)
	if name != "hash.Hash.Sum" || len(as) != 2 || !isNilConst(g.resolve(Val{c, as[1]}).v) {
		return ""
	}
	h := g.resolve(Val{c, as[0]})
	mk, _ := callOf(h)
	if mk == nil || baseOfName(g.u.CalleeName(mk)) != "New256" {
		return ""
	}
	data := ""
	n := 0
	for _, nd := range g.nodes {
		call, ok := nd.instr.(*ssa.Call)
		if !ok || nd.after {
			continue
		}
		cn := g.u.CalleeName(call)
		if !strings.HasPrefix(cn, "hash.Hash.") && cn != "io.Writer.Write" || len(args(call)) == 0 || g.resolve(Val{nd.ctx, args(call)[0]}) != h {
			continue
		}
		switch baseOfName(cn) {
		case "Write":
			n++
			if nd.ctx != c || !call.Block().Dominates(x.Block()) || reachesB(call.Block(), call.Block()) || call.Block() == x.Block() && !earlierIn(call, x) {
				return ""
			}
			data = fl.of(Val{nd.ctx, args(call)[1]})
		case "Reset":
			return ""
		}
	}
	if n != 1 {
		return ""
	}
	pk := g.u.CalleeName(mk)
	return strings.TrimSuffix(pk, "New256") + "Sum256#0(" + data + ")"
}

func earlierIn(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

func (fl *Flow) field(base string, t types.Type, i int) string {
	if strings.HasPrefix(base, "f:") {
		n, ok := jsonName(t, i)
		if !ok {
			return "?unexported"
		}
		if base == "f:" {
			return "f:" + n
		}
		return base + "." + n
	}
	return base + "." + fieldName(t, i)
}

// load: the content of an address.
func (fl *Flow) load(a Val) string {
	g := fl.g
	a = g.resolve(a)
	switch x := a.v.(type) {
	case *ssa.FieldAddr:
		base := g.resolve(Val{a.ctx, x.X})
		if al, ok := base.v.(*ssa.Alloc); ok && fl.wire[al] == nil {
			// field of a local struct
			fs := fl.structOf(base, nil)
			if s, ok := fs[x.Field]; ok {
				return s
			}
		}
		return fl.field(fl.load(base), x.X.Type(), x.Field)
	case *ssa.Alloc:
		if fl.wire[x] != nil {
			return "f:"
		}
		if s := singleStore(x); s != nil {
			return fl.of(Val{a.ctx, s.Val})
		}
		set := map[string]bool{}
		for _, s := range allStores(x) {
			set[fl.of(Val{a.ctx, s.Val})] = true
		}
		if len(set) > 0 {
			return alt(set)
		}
		return "?local"
	case *ssa.Global:
		return "global:" + x.Name()
	case *ssa.UnOp, *ssa.Parameter, *ssa.Call, *ssa.Extract, *ssa.FreeVar, *ssa.Phi:
		return fl.of(a)
	case *ssa.IndexAddr:
		return fl.of(Val{a.ctx, x.X}) + "[" + fl.of(Val{a.ctx, x.Index}) + "]"
	}
	return "?" + shortInstr(a.v)
}

// structOf: what is stored in the fields of a local struct (by field index); at: the instruction reading it.
func (fl *Flow) structOf(base Val, at ssa.Instruction) map[int]string {
	out := map[int]string{}
	al, ok := base.v.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return out
	}
	sets := map[int]map[string]bool{}
	add := func(i int, s string) {
		if sets[i] == nil {
			sets[i] = map[string]bool{}
		}
		sets[i][s] = true
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.FieldAddr:
			if y.Referrers() == nil {
				continue
			}
			for _, rr := range *y.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == y {
					s := fl.of(Val{base.ctx, st.Val})
					if at != nil && at.Parent() == st.Parent() && !instrDominates(st, at) {
						s = "sometimes(" + s + ")"
					}
					add(y.Field, s)
				}
			}
		case *ssa.Store:
			if y.Addr != al {
				continue
			}
			// whole-struct copy
			src := fl.g.resolve(Val{base.ctx, y.Val})
			if u, ok := src.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				sb := fl.g.resolve(Val{src.ctx, u.X})
				if sa, ok := sb.v.(*ssa.Alloc); ok && fl.wire[sa] == nil {
					for i, s := range fl.structOf(sb, u) {
						add(i, s)
					}
					continue
				}
			}
			bs := fl.of(src)
			if st, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					add(i, fl.field(bs, al.Type(), i))
				}
			}
		}
	}
	for i, s := range sets {
		out[i] = alt(s)
	}
	return out
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// wireStruct: the struct handed to json.Marshal: JSON name -> flow.
func (fl *Flow) wireStruct(c *Ctx, v ssa.Value, at ssa.Instruction) (map[string]string, types.Type, string) {
	g := fl.g
	r := g.resolve(Val{c, v})
	var t types.Type
	var fields map[int]string
	if u, ok := r.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		b := g.resolve(Val{r.ctx, u.X})
		if _, ok := b.v.(*ssa.Alloc); ok {
			t = u.Type()
			fields = fl.structOf(b, u)
		}
	} else if al, ok := r.v.(*ssa.Alloc); ok {
		t = al.Type().Underlying().(*types.Pointer).Elem()
		fields = fl.structOf(r, at)
	} else if k, ok := r.v.(*ssa.Const); ok {
		t = k.Type()
	}
	if t == nil {
		return nil, r.v.Type(), fl.of(r)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, t, fl.of(r)
	}
	out := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		n, exported := jsonName(t, i)
		if !exported {
			continue
		}
		s, ok := fields[i]
		if !ok {
			s = "zero"
		}
		if _, dup := out[n]; dup {
			s = "duplicate-json-name"
		}
		out[n] = s
	}
	return out, t, ""
}

// list: a slice built element by element from another one, in order and completely: list:T(src) with e the element.
func (fl *Flow) list(v Val) (string, bool) {
	switch x := v.v.(type) {
	case *ssa.MakeSlice:
		return fl.listIndexed(v.ctx, x)
	case *ssa.Phi:
		return fl.listAppended(v.ctx, x)
	}
	return "", false
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	idx    ssa.Value // element index inside the body
	src    ssa.Value // the slice ranged over (nil: bound is not a len)
	bound  ssa.Value
	done   *ssa.BasicBlock
	body   *ssa.BasicBlock
}

// indexLoop recognises a complete ascending loop over all indices of a slice at the given header.
func indexLoop(h *ssa.BasicBlock) *loopInfo {
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	li := &loopInfo{header: h}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if op == token.GTR {
		x, y, op = y, x, token.LSS
	}
	tIdx, fIdx := 0, 1
	switch op {
	case token.LSS, token.NEQ:
	case token.GEQ, token.EQL:
		tIdx, fIdx = 1, 0
	default:
		return nil
	}
	li.body, li.done = h.Succs[tIdx], h.Succs[fIdx]
	// natural loop of h
	li.blocks = naturalLoop(h)
	if li.blocks == nil || !li.blocks[li.body] || li.blocks[li.done] {
		return nil
	}
	isInc := func(v ssa.Value, phi *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != phi {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 1
	}
	checkPhi := func(phi *ssa.Phi, init int64, inc func(ssa.Value) bool) bool {
		if phi.Block() != h {
			return false
		}
		for i, e := range phi.Edges {
			if li.blocks[h.Preds[i]] {
				if !inc(e) {
					return false
				}
			} else {
				c, ok := e.(*ssa.Const)
				if !ok || c.Value == nil || c.Int64() != init {
					return false
				}
			}
		}
		return true
	}
	switch z := x.(type) {
	case *ssa.Phi: // for i := 0; i < len(s); i++
		if !checkPhi(z, 0, func(e ssa.Value) bool { return isInc(e, z) }) {
			return nil
		}
		li.idx = z
	case *ssa.BinOp: // range: phi starts at -1, incremented first
		phi, ok := z.X.(*ssa.Phi)
		if !ok || !isInc(z, phi) || !checkPhi(phi, -1, func(e ssa.Value) bool { return e == z }) {
			return nil
		}
		li.idx = z
	default:
		return nil
	}
	li.bound = y
	if c, ok := y.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			li.src = c.Call.Args[0]
		}
	}
	return li
}

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	blocks := map[*ssa.BasicBlock]bool{h: true}
	var st []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			st = append(st, p)
		}
	}
	if len(st) == 0 {
		return nil
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if blocks[b] {
			continue
		}
		blocks[b] = true
		st = append(st, b.Preds...)
	}
	return blocks
}

// otherExitsJoin: some edge leaves the loop elsewhere than at the header and can rejoin the code after it.
func (li *loopInfo) breaks() bool {
	for b := range li.blocks {
		if b == li.header {
			continue
		}
		for _, s := range b.Succs {
			if li.blocks[s] {
				continue
			}
			if reachesBlock(s, li.done, li.blocks) {
				return true
			}
		}
	}
	return false
}

func reachesBlock(from, to *ssa.BasicBlock, avoid map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] || avoid[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// everyIteration: the instruction runs on every complete iteration.
func (li *loopInfo) everyIteration(i ssa.Instruction) bool {
	if !li.blocks[i.Block()] {
		return false
	}
	for _, p := range li.header.Preds {
		if li.blocks[p] && !i.Block().Dominates(p) {
			return false
		}
	}
	return true
}

func (fl *Flow) elem(c *Ctx, li *loopInfo, v ssa.Value, src string) string {
	s := fl.of(Val{c, v})
	// occurrences of src[<idx>] become e
	idx := fl.of(Val{c, li.idx})
	return strings.ReplaceAll(s, src+"["+idx+"]", "e")
}

func (fl *Flow) listIndexed(c *Ctx, m *ssa.MakeSlice) (string, bool) {
	if m.Referrers() == nil {
		return "", false
	}
	var store *ssa.Store
	for _, r := range *m.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
			for _, rr := range *ia.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
					if store != nil {
						return "", false
					}
					store = s
				}
			}
		}
	}
	if store == nil {
		return "", false
	}
	ia := store.Addr.(*ssa.IndexAddr)
	for _, b := range m.Parent().Blocks {
		li := indexLoop(b)
		if li == nil || li.idx != ia.Index || !li.everyIteration(store) || li.breaks() {
			continue
		}
		src := li.src
		if src == nil {
			// bound may be a len taken earlier
			bv := fl.g.resolve(Val{c, li.bound})
			if k, ok := bv.v.(*ssa.Call); ok {
				if bi, ok := k.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					src = k.Call.Args[0]
				}
			}
		}
		if src == nil {
			continue
		}
		ss := fl.of(Val{c, src})
		if l := fl.of(Val{c, m.Len}); l != "builtin.len#0("+ss+")" && l != "builtin.len#0("+fl.of(Val{c, m})+")" {
			continue
		}
		return "list:" + fl.elem(c, li, store.Val, ss) + "(" + ss + ")", true
	}
	return "", false
}

func (fl *Flow) listAppended(c *Ctx, x *ssa.Phi) (string, bool) {
	li := indexLoop(x.Block())
	if li == nil || li.src == nil || li.breaks() {
		return "", false
	}
	var app *ssa.Call
	for i, e := range x.Edges {
		if li.blocks[x.Block().Preds[i]] {
			a, ok := e.(*ssa.Call)
			if !ok || app != nil && app != a {
				return "", false
			}
			app = a
		} else if !emptySlice(e) {
			return "", false
		}
	}
	if app == nil {
		return "", false
	}
	b, ok := app.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || app.Call.Args[0] != x || len(app.Call.Args) != 2 || !li.everyIteration(app) {
		return "", false
	}
	el := singleVararg(app.Call.Args[1])
	if el == nil {
		return "", false
	}
	ss := fl.of(Val{c, li.src})
	return "list:" + fl.elem(c, li, el, ss) + "(" + ss + ")", true
}

func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 0
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if a, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
				return true
			}
		}
		if c, ok := x.High.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
			return true
		}
	}
	return false
}

// singleVararg: the one element of a variadic argument slice built at the call.
func singleVararg(v ssa.Value) ssa.Value {
	es := varargs(v)
	if len(es) == 1 {
		return es[0]
	}
	return nil
}

// varargs: the elements of an argument list literal, in order (nil if it is not one).
func varargs(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, arr.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
				out[c.Int64()] = st.Val
			}
		}
	}
	for _, e := range out {
		if e == nil {
			return nil
		}
	}
	return out
}

// resultsIn: the values an inlined call can return at index i, given what is known about its error.
func (g *G) resultsIn(st *FSet, c *Ctx, x *ssa.Call, idx int) []Val {
	ei := errIndex(x.Call.Signature())
	ch := c.children[x]
	if st == nil || st.top || ei < 0 || ei == idx || ch == nil {
		return g.results(c, x, idx)
	}
	ok := g.hasIn(st, mkFact("ret"+itoa(ei)+"=nil", Key{s: g.token(Val{c, x})}))
	for _, ex := range extracts(x) {
		if ex.Index == ei && g.hasIn(st, mkFact("isnil", g.objkey(Val{c, ex}))) {
			ok = true
		}
	}
	if !ok {
		return g.results(c, x, idx)
	}
	var out []Val
	for _, r := range ch.rets {
		ret := r.instr.(*ssa.Return)
		if !g.reachable(r) || idx >= len(ret.Results) {
			continue
		}
		old := g.at
		g.at = place{ch, ret.Block(), ret.Block()}
		im := g.imp(Val{ch, ret.Results[ei]}, IsNil)
		g.at = old
		if im.top || g.contradicts(r.in, im) {
			continue
		}
		out = append(out, Val{ch, ret.Results[idx]})
	}
	return out
}

// ---- success tuples -----------------------------------------------------------------------------------------------

type tuple struct {
	via  *Node // the return of the helper that the success was taken from, if any
	vals []Val
	st   *FSet
	node *Node
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// successes: the result tuples of the entry function with a nil error (all of them, if it returns none).
func (g *G) successes() []tuple {
	var out []tuple
	sig := g.entry.Signature.Results()
	errIdx := -1
	if sig.Len() > 0 && isErrorType(sig.At(sig.Len()-1).Type()) {
		errIdx = sig.Len() - 1
	}
	for _, r := range g.root.rets {
		if !g.reachable(r) {
			continue
		}
		ret := r.instr.(*ssa.Return)
		t := tuple{st: r.in, node: r}
		for _, v := range ret.Results {
			t.vals = append(t.vals, Val{g.root, v})
		}
		if len(ret.Results) == 0 { // recovered or result-less
			out = append(out, t)
			continue
		}
		g.expandTuple(t, errIdx, 0, &out)
	}
	return out
}

func (g *G) expandTuple(t tuple, errIdx, depth int, out *[]tuple) {
	if errIdx >= 0 {
		im := g.imp(t.vals[errIdx], IsNil)
		if im.top || g.contradicts(t.st, im) {
			return
		}
		t.st = t.st.union(im)
	}
	if depth < 8 && errIdx >= 0 {
		e := t.vals[errIdx]
		switch x := e.v.(type) {
		case *ssa.UnOp: // named results loaded at the end: not expanded
			_ = x
		case *ssa.Phi:
			for i, ed := range x.Edges {
				st := g.edgeState(e.ctx, x.Block().Preds[i], x.Block())
				if st.top {
					continue
				}
				n := tuple{node: t.node, via: t.via, st: st.union(t.st)}
				_ = ed
				for _, v := range t.vals {
					if p, ok := v.v.(*ssa.Phi); ok && v.ctx == e.ctx && p.Block() == x.Block() {
						n.vals = append(n.vals, Val{v.ctx, p.Edges[i]})
					} else {
						n.vals = append(n.vals, v)
					}
				}
				g.expandTuple(n, errIdx, depth+1, out)
			}
			return
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && e.ctx.children[c] != nil {
				ch := e.ctx.children[c]
				for _, r := range ch.rets {
					if !g.reachable(r) {
						continue
					}
					ret := r.instr.(*ssa.Return)
					n := tuple{node: t.node, via: r, st: r.in.union(t.st)}
					for _, v := range t.vals {
						if ex, ok := v.v.(*ssa.Extract); ok && v.ctx == e.ctx && ex.Tuple == c {
							n.vals = append(n.vals, Val{ch, ret.Results[ex.Index]})
						} else {
							n.vals = append(n.vals, v)
						}
					}
					g.expandTuple(n, errIdx, depth+1, out)
				}
				return
			}
		case *ssa.Call:
			if ch := e.ctx.children[x]; ch != nil && x.Call.Signature().Results().Len() == 1 {
				for _, r := range ch.rets {
					if !g.reachable(r) {
						continue
					}
					n := tuple{node: t.node, via: r, st: r.in.union(t.st)}
					n.vals = append(n.vals, t.vals...)
					n.vals[errIdx] = Val{ch, r.instr.(*ssa.Return).Results[0]}
					g.expandTuple(n, errIdx, depth+1, out)
				}
				return
			}
		case *ssa.Parameter:
			if r, ok := g.step(e); ok {
				n := tuple{node: t.node, via: t.via, st: t.st, vals: append([]Val{}, t.vals...)}
				n.vals[errIdx] = r
				g.expandTuple(n, errIdx, depth+1, out)
				return
			}
		}
	}
	*out = append(*out, t)
}

// fill: a fresh byte slice whose only content comes from one copy: fill<len>@<offset>(source).
func (fl *Flow) fill(v Val) (string, bool) {
	g := fl.g
	n := ""
	switch x := v.v.(type) {
	case *ssa.MakeSlice:
		n = fl.of(Val{v.ctx, x.Len})
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil {
			return "", false
		}
		arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || al.Comment != "makeslice" {
			return "", false
		}
		n = fmt.Sprintf("const:%d", arr.Len())
	default:
		return "", false
	}
	// addresses the fresh slice was stored to
	homes := map[string]bool{}
	for _, nd := range g.nodes {
		if st, ok := nd.instr.(*ssa.Store); ok && g.resolve(Val{nd.ctx, st.Val}) == v {
			homes[g.key(Val{nd.ctx, st.Addr}).s] = true
		}
	}
	isV := func(d Val) bool {
		d = g.resolve(d)
		if d == v {
			return true
		}
		if u, ok := d.v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return homes[g.key(Val{d.ctx, u.X}).s]
		}
		return false
	}
	res := ""
	g.calls(func(nd *Node, c ssa.CallInstruction, name string) {
		as := args(c)
		if name == "builtin.copy" {
			dst := g.resolve(Val{nd.ctx, as[0]})
			off := "const:0"
			if sl, ok := dst.v.(*ssa.Slice); ok && dst != v && sl.High == nil {
				if sl.Low != nil {
					off = fl.of(Val{dst.ctx, sl.Low})
				}
				dst = Val{dst.ctx, sl.X}
			}
			if isV(dst) {
				s := "@" + off + "(" + fl.of(Val{nd.ctx, as[1]}) + ")"
				if res != "" {
					s = "?several-copies"
				}
				res = s
			}
		} else if strings.HasPrefix(name, "common/pkg/fcrcrypto.Generate") && len(as) == 1 && isV(Val{nd.ctx, as[0]}) {
			res = "@random"
		}
	})
	if res == "" {
		return "", false
	}
	return "fill" + strings.TrimPrefix(n, "const:") + res, true
}
