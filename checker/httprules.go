package main

// P27: an HTTP exchange reports success only for a complete, well-formed answer of the success status to its own request.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tHTTPResp = "net/http.Response"

// isExchange: the call makes an HTTP request and returns its answer.
func isExchange(name string) bool {
	switch name {
	case "net/http.Client.Do", "net/http.Client.Get", "net/http.Client.Post", "net/http.Client.PostForm", "net/http.Client.Head",
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "net/http.RoundTripper.RoundTrip", "net/http.Transport.RoundTrip":
		return true
	}
	return false
}

func httpProduction(f *ssa.Function) bool {
	n := FuncFull(f)
	return isRepoFunc(f) && !strings.Contains(n, "/utest.") && !strings.HasPrefix(n, "itest/")
}

// httpCheck: one exchange in one expanded entry.
type httpCheck struct {
	r    *Run
	u    *Universe
	g    *G
	f    *ssa.Function
	n    *Node
	call *ssa.Call
	lbl  string
}

// isResp: the value is (certainly) the answer of this exchange.
func (h *httpCheck) isResp(v Val) bool {
	os := h.g.origins(v)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		c, i := callOf(o)
		if c != h.call || o.ctx != h.n.ctx || i > 0 {
			return false
		}
	}
	return true
}

// respField: the value is read from the named field of the answer.
func (h *httpCheck) respField(v Val, field string) bool {
	v = h.g.resolve(v)
	if ld, ok := v.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		a := h.g.resolve(Val{v.ctx, ld.X})
		if fa, ok := a.v.(*ssa.FieldAddr); ok && typeFull(fa.X.Type()) == tHTTPResp && fieldName(fa.X.Type(), fa.Field) == field {
			return h.isResp(Val{a.ctx, fa.X})
		}
		return false
	}
	if fd, ok := v.v.(*ssa.Field); ok && typeFull(fd.X.Type()) == tHTTPResp && fieldName(fd.X.Type(), fd.Field) == field {
		ld, ok := h.g.resolve(Val{v.ctx, fd.X}).v.(*ssa.UnOp)
		return ok && h.isResp(Val{v.ctx, ld.X})
	}
	if ct, ok := v.v.(*ssa.Convert); ok {
		return h.respField(Val{v.ctx, ct.X}, field)
	}
	return false
}

// body: the value is the body of this answer, possibly behind a reader that passes all of it on.
func (h *httpCheck) body(v Val) bool {
	for k := 0; k < 8; k++ {
		v = h.g.resolve(v)
		if h.respField(v, "Body") {
			return true
		}
		c, i := callOf(v)
		if c == nil || i > 0 {
			return false
		}
		switch h.u.CalleeName(c) {
		case "bufio.NewReader", "bufio.NewReaderSize", "io.TeeReader", "io.NopCloser", "io/ioutil.NopCloser":
			v = Val{v.ctx, c.Call.Args[0]}
		default:
			return false
		}
	}
	return false
}

// succeeded: the call is known to have returned no error.
func (h *httpCheck) succeeded(st *FSet, c *Ctx, call *ssa.Call) bool {
	g := h.g
	ei := errResult(call.Call.Signature())
	if ei < 0 {
		return true
	}
	if outcome(g, st, Val{c, call}, ei, "nil") {
		return true
	}
	if call.Call.Signature().Results().Len() == 1 {
		return g.hasIn(st, mkFact("nil", g.objkey(Val{c, call})))
	}
	for _, ex := range extracts(call) {
		if ex.Index == ei && g.hasIn(st, mkFact("nil", g.objkey(Val{c, ex}))) {
			return true
		}
	}
	return false
}

// whole: the bytes are the whole body of this exchange's answer, read without error; "" if so.
func (h *httpCheck) whole(st *FSet, v Val) string {
	g := h.g
	v = g.resolve(v)
	if ct, ok := v.v.(*ssa.Convert); ok {
		return h.whole(st, Val{v.ctx, ct.X})
	}
	c, i := callOf(v)
	if c == nil {
		if ph, ok := v.v.(*ssa.Phi); ok && len(ph.Edges) > 0 {
			for _, o := range g.origins(v) {
				if o == v {
					return "it is not what was read from the body of the answer"
				}
				if why := h.whole(st, o); why != "" {
					return why
				}
			}
			return ""
		}
		return "it is not what was read from the body of the answer"
	}
	name := h.u.CalleeName(c)
	switch name {
	case "io.ReadAll", "io/ioutil.ReadAll":
		if i > 0 || !h.body(Val{v.ctx, c.Call.Args[0]}) {
			return "what was read is not the whole body of this answer"
		}
		if !h.succeeded(st, v.ctx, c) {
			return "reading the body may have failed half way"
		}
		return ""
	case "bytes.Buffer.Bytes", "bytes.Buffer.String":
		return h.buffered(st, Val{v.ctx, args(c)[0]})
	case "bytes.TrimSpace":
		return h.whole(st, Val{v.ctx, c.Call.Args[0]})
	}
	return "it comes from " + name + ", not from reading the body of the answer to its end"
}

// buffered: the local buffer was filled once, with the whole body.
func (h *httpCheck) buffered(st *FSet, b Val) string {
	g := h.g
	b = g.resolve(b)
	if !h.fresh(b) {
		return "the buffer is not new"
	}
	filled, other := 0, ""
	g.calls(func(n *Node, ci ssa.CallInstruction, name string) {
		c, ok := ci.(*ssa.Call)
		if !ok || n.after {
			return
		}
		as := args(c)
		for i, a := range as {
			if g.resolve(Val{n.ctx, a}) != b {
				continue
			}
			src := ssa.Value(nil)
			switch {
			case name == "bytes.Buffer.ReadFrom" && i == 0:
				src = as[1]
			case (name == "io.Copy" || name == "io.CopyBuffer") && i == 0:
				src = as[1]
			case name == "bytes.Buffer.Grow" || name == "bytes.Buffer.Bytes" || name == "bytes.Buffer.String" || name == "bytes.Buffer.Len":
				continue
			default:
				other = name
				continue
			}
			if !h.body(Val{n.ctx, src}) {
				other = "what is not the body"
			} else if !h.succeeded(st, n.ctx, c) {
				other = "a read that may have failed half way"
			} else {
				filled++
			}
		}
	})
	if other != "" {
		return "the buffer is touched by " + other
	}
	if filled != 1 {
		return "the body is not read into the buffer exactly once"
	}
	return ""
}

// fresh: an object made in the course of this exchange.
func (h *httpCheck) fresh(v Val) bool {
	v = h.g.resolve(v)
	switch x := v.v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		n := h.u.CalleeName(x)
		return n == "builtin.new" || strings.HasPrefix(n, "bytes.NewBuffer")
	}
	return false
}

// answer: the value handed on is (decoded from) the whole body of this exchange's answer; "" if so.
func (h *httpCheck) answer(st *FSet, v Val) string {
	g := h.g
	v = g.resolve(v)
	if sl, ok := v.v.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) || isStringType(v.v.Type()) {
		return h.whole(st, v)
	}
	if ld, ok := v.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		v = g.resolve(Val{v.ctx, ld.X}) // returned by value
	}
	if c, i := callOf(v); c != nil && i <= 0 {
		// a decoding function
		if !h.succeeded(st, v.ctx, c) {
			return "decoding it may have failed"
		}
		why := "it is not decoded from the body of the answer"
		for _, a := range args(c) {
			if sl, ok := a.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
				if why = h.whole(st, Val{v.ctx, a}); why == "" {
					return ""
				}
			}
		}
		return why
	}
	if !h.fresh(v) {
		return "it is not an object made for this exchange"
	}
	why := "nothing is decoded into it"
	n := 0
	g.calls(func(m *Node, ci ssa.CallInstruction, name string) {
		c, ok := ci.(*ssa.Call)
		if !ok || m.after {
			return
		}
		as := args(c)
		for i, a := range as {
			if g.resolve(Val{m.ctx, a}) != v {
				continue
			}
			w := ""
			switch {
			case name == "encoding/json.Unmarshal" && i == 1:
				w = h.whole(st, Val{m.ctx, as[0]})
			case name == "encoding/json.Decoder.Decode" && i == 1:
				d, _ := callOf(g.resolve(Val{m.ctx, as[0]}))
				if d == nil || h.u.CalleeName(d) != "encoding/json.NewDecoder" {
					w = "the decoder is not made for this answer"
				} else if rd := g.resolve(Val{m.ctx, d.Call.Args[0]}); !h.body(rd) {
					rc, _ := callOf(rd)
					if rc != nil && (h.u.CalleeName(rc) == "bytes.NewReader" || h.u.CalleeName(rc) == "bytes.NewBuffer") {
						w = h.whole(st, Val{rd.ctx, rc.Call.Args[0]})
					} else {
						w = "the decoder reads something else than the body of the answer"
					}
				}
			case strings.HasSuffix(name, ".UnmarshalJSON") && i == 0:
				w = h.whole(st, Val{m.ctx, as[1]})
			default:
				continue
			}
			n++
			if w == "" && !h.succeeded(st, m.ctx, c) {
				w = "decoding it may have failed, or is left out"
			}
			why = w
		}
	})
	return why
}

// ---- the status --------------------------------------------------------------------------------------------------

// statusForms: the names of the expressions over the status, and what they are for a status code.
func (h *httpCheck) statusForms() map[string]func(int) int {
	g := h.g
	out := map[string]func(int) int{}
	put := func(v Val, fn func(int) int) {
		out[g.key(v).s] = fn
		out[g.objkey(v).s] = fn
	}
	for _, c := range g.ctxs {
		for _, b := range c.fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || !isBasic(v.Type()) {
					continue
				}
				if h.respField(Val{c, v}, "StatusCode") {
					put(Val{c, v}, func(s int) int { return s })
					continue
				}
				if op, ok := v.(*ssa.BinOp); ok {
					k, isK := g.resolve(Val{c, op.Y}).v.(*ssa.Const)
					if !isK || k.Value == nil || k.Value.Kind() != constant.Int || !h.respField(Val{c, op.X}, "StatusCode") {
						continue
					}
					n := int(k.Int64())
					switch {
					case op.Op == token.QUO && n != 0:
						put(Val{c, v}, func(s int) int { return s / n })
					case op.Op == token.REM && n != 0:
						put(Val{c, v}, func(s int) int { return s % n })
					case op.Op == token.SUB:
						put(Val{c, v}, func(s int) int { return s - n })
					}
				}
			}
		}
	}
	return out
}

// rulesOut: the facts say that the status is not the one given.
func rulesOut(g *G, st *FSet, forms map[string]func(int) int, status int) bool {
	if st.top {
		return true
	}
	for _, f := range st.list(g) {
		if len(f.args) != 2 {
			continue
		}
		val := func(i int) (int, bool) {
			if fn := forms[f.args[i]]; fn != nil {
				return fn(status), true
			}
			if strings.HasPrefix(f.args[i], "const:") {
				n, err := strconv.Atoi(f.args[i][6:])
				return n, err == nil
			}
			return 0, false
		}
		if forms[f.args[0]] == nil && forms[f.args[1]] == nil {
			continue
		}
		a, ok1 := val(0)
		b, ok2 := val(1)
		if !ok1 || !ok2 {
			continue
		}
		switch f.pred {
		case "==":
			if a != b {
				return true
			}
		case "!=":
			if a == b {
				return true
			}
		case "<":
			if a >= b {
				return true
			}
		case "<=":
			if a > b {
				return true
			}
		}
	}
	return false
}

// reachesSuccess: with an answer of the status, the entry can get to the end and report success.
func (h *httpCheck) reachesSuccess(exits map[*Node]*FSet, forms map[string]func(int) int, status int) (string, bool) {
	g := h.g
	seen := map[*Node]bool{}
	st := []*Node{h.n}
	for len(st) > 0 {
		m := st[len(st)-1]
		st = st[:len(st)-1]
		if ex, ok := exits[m]; ok && !rulesOut(g, ex, forms, status) {
			return g.where(m), true
		}
		for _, e := range m.succs {
			if seen[e.to] || !g.reachable(e.to) {
				continue
			}
			es := g.edgeOut(e)
			if es.top || callFailed(g, es, h.n.ctx, h.call) || rulesOut(g, es, forms, status) {
				continue
			}
			seen[e.to] = true
			st = append(st, e.to)
		}
	}
	return "", false
}

// ---- closing -----------------------------------------------------------------------------------------------------

// unclosed: a way from the exchange to the end of the entry on which the body is not closed.
func (h *httpCheck) unclosed() (string, bool) {
	g := h.g
	closes := func(m *Node) bool {
		c, ok := m.instr.(ssa.CallInstruction)
		if !ok || m.after {
			return false
		}
		if _, isGo := c.(*ssa.Go); isGo {
			return false
		}
		as := args(c)
		if strings.HasSuffix(g.u.CalleeName(c), ".Close") && len(as) > 0 && h.body(Val{m.ctx, as[0]}) {
			return true
		}
		d, ok := c.(*ssa.Defer)
		if !ok {
			return false
		}
		var fn *ssa.Function
		var bind []ssa.Value
		switch x := d.Call.Value.(type) {
		case *ssa.MakeClosure:
			fn, bind = x.Fn.(*ssa.Function), x.Bindings
		case *ssa.Function:
			fn = x
		}
		if fn == nil || len(fn.Blocks) == 0 || !isRepoFunc(fn) {
			return false
		}
		// every way through the deferred function closes the body
		outer := func(v ssa.Value) (Val, bool) {
			for i, fv := range fn.FreeVars {
				if fv == v && i < len(bind) {
					return Val{m.ctx, bind[i]}, true
				}
			}
			for i, p := range fn.Params {
				if p == v && i < len(d.Call.Args) {
					return Val{m.ctx, d.Call.Args[i]}, true
				}
			}
			return Val{}, false
		}
		inner := func(v ssa.Value) bool { // v is the body
			if w, ok := outer(v); ok {
				return h.body(w)
			}
			ld, ok := v.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				return false
			}
			if fa, ok := ld.X.(*ssa.FieldAddr); ok && typeFull(fa.X.Type()) == tHTTPResp && fieldName(fa.X.Type(), fa.Field) == "Body" {
				if w, ok := outer(fa.X); ok {
					return h.isResp(w)
				}
				if l2, ok := fa.X.(*ssa.UnOp); ok && l2.Op == token.MUL {
					if w, ok := outer(l2.X); ok {
						if al, ok := g.resolve(w).v.(*ssa.Alloc); ok {
							sts := allStores(al)
							for _, s := range sts {
								if !h.isResp(Val{g.resolve(w).ctx, s.Val}) {
									return false
								}
							}
							return len(sts) > 0
						}
					}
				}
				return false
			}
			if w, ok := outer(ld.X); ok {
				if al, ok := g.resolve(w).v.(*ssa.Alloc); ok {
					sts := allStores(al)
					for _, s := range sts {
						if !h.body(Val{g.resolve(w).ctx, s.Val}) {
							return false
						}
					}
					return len(sts) > 0
				}
			}
			return false
		}
		seen := map[*ssa.BasicBlock]bool{}
		var open func(b *ssa.BasicBlock) bool
		open = func(b *ssa.BasicBlock) bool {
			if seen[b] {
				return false
			}
			seen[b] = true
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					as := args(ci)
					if strings.HasSuffix(g.u.CalleeName(ci), ".Close") && len(as) > 0 && inner(as[0]) {
						return false
					}
				}
			}
			last := b.Instrs[len(b.Instrs)-1]
			if _, ok := last.(*ssa.Return); ok {
				return true
			}
			for i, s := range b.Succs {
				if ifi, ok := last.(*ssa.If); ok {
					if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && isNilConst(cmp.Y) && (cmp.Op == token.EQL) == (i == 0) {
						// no answer, no body
						if ld, ok := cmp.X.(*ssa.UnOp); ok && (typeFull(ld.Type()) == tHTTPResp || typeFull(ld.Type()) == "io.ReadCloser") {
							continue
						}
					}
				}
				if open(s) {
					return true
				}
			}
			return false
		}
		return !open(fn.Blocks[0])
	}
	seen := map[*Node]bool{}
	st := []*Node{h.n}
	first := true
	for len(st) > 0 {
		m := st[len(st)-1]
		st = st[:len(st)-1]
		if !first {
			if m == h.n {
				return "the next exchange", true
			}
			if closes(m) {
				continue
			}
			if _, ok := m.instr.(*ssa.Return); ok && m.ctx == g.root {
				return "the end is reached (" + g.where(m) + ")", true
			}
		}
		first = false
		for _, e := range m.succs {
			if seen[e.to] && e.to != h.n || !g.reachable(e.to) {
				continue
			}
			es := g.edgeOut(e)
			if es.top || callFailed(g, es, h.n.ctx, h.call) {
				continue
			}
			seen[e.to] = true
			st = append(st, e.to)
		}
	}
	return "", false
}

// ---- the request -------------------------------------------------------------------------------------------------

// text: the parts of a string put together; constants as they are, other parts as \x00.
func (h *httpCheck) text(v Val, depth int) (string, []Val) {
	g := h.g
	v = g.resolve(v)
	if depth > 10 {
		return "\x00", []Val{v}
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), nil
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, va := h.text(Val{v.ctx, x.X}, depth+1)
			b, vb := h.text(Val{v.ctx, x.Y}, depth+1)
			return a + b, append(va, vb...)
		}
	case *ssa.Call:
		switch h.u.CalleeName(x) {
		case "fmt.Sprintf":
			k, ok := g.resolve(Val{v.ctx, x.Call.Args[0]}).v.(*ssa.Const)
			if !ok || len(x.Call.Args) < 2 {
				break
			}
			vs := varargs(x.Call.Args[1])
			out, vals, i := "", []Val(nil), 0
			fs := constant.StringVal(k.Value)
			for j := 0; j < len(fs); j++ {
				if fs[j] != '%' {
					out += fs[j : j+1]
					continue
				}
				j++
				if j >= len(fs) || fs[j] != 's' && fs[j] != 'v' || i >= len(vs) || vs[i] == nil {
					return "\x00", []Val{v}
				}
				s, sv := h.text(Val{v.ctx, vs[i]}, depth+1)
				i++
				out += s
				vals = append(vals, sv...)
			}
			return out, vals
		case "fmt.Sprint":
			if len(x.Call.Args) == 1 {
				out, vals := "", []Val(nil)
				for _, a := range varargs(x.Call.Args[0]) {
					if a == nil {
						return "\x00", []Val{v}
					}
					s, sv := h.text(Val{v.ctx, a}, depth+1)
					out += s
					vals = append(vals, sv...)
				}
				return out, vals
			}
		case "net/url.URL.String":
			return "\x00", []Val{v}
		}
	}
	return "\x00", []Val{v}
}

// constInt: the constant a value is, through parameters and fields set in one place.
func constInt(u *Universe, v ssa.Value, d int) []int64 {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return []int64{x.Int64()}
		}
	case *ssa.Convert:
		return constInt(u, x.X, d+1)
	case *ssa.ChangeType:
		return constInt(u, x.X, d+1)
	case *ssa.BinOp:
		a, b := constInt(u, x.X, d+1), constInt(u, x.Y, d+1)
		if len(a) == 1 && len(b) == 1 {
			switch x.Op {
			case token.MUL:
				return []int64{a[0] * b[0]}
			case token.ADD:
				return []int64{a[0] + b[0]}
			}
		}
	case *ssa.Phi:
		var out []int64
		for _, e := range x.Edges {
			a := constInt(u, e, d+1)
			if a == nil {
				return nil
			}
			out = append(out, a...)
		}
		return out
	case *ssa.Parameter:
		var out []int64
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, c := range u.callersOf(x.Parent()) {
				if i >= len(args(c)) {
					return nil
				}
				a := constInt(u, args(c)[i], d+1)
				if a == nil {
					return nil
				}
				out = append(out, a...)
			}
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if gl, ok := x.X.(*ssa.Global); ok {
				var out []int64
				for _, f := range append([]*ssa.Function{gl.Pkg.Func("init")}, u.Funcs...) {
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							if st, ok := ins.(*ssa.Store); ok && st.Addr == gl {
								a := constInt(u, st.Val, d+1)
								if a == nil {
									return nil
								}
								out = append(out, a...)
							}
						}
					}
				}
				return out
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := singleStore(al); s != nil {
					return constInt(u, s.Val, d+1)
				}
			}
		}
	}
	return nil
}

// clientBounded: the HTTP client gives up after a positive, constant time. "" if so.
func clientBounded(u *Universe, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		if typeFull(x.Type()) != "net/http.Client" || x.Referrers() == nil {
			break
		}
		set := ""
		n := 0
		for _, ref := range *x.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != "Timeout" {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					n++
					ks := constInt(u, st.Val, 0)
					if len(ks) == 0 {
						set = "its time limit is not a constant"
					}
					for _, k := range ks {
						if k <= 0 || k > 3600e9 {
							set = "its time limit is not between nothing and an hour"
						}
					}
				}
			}
		}
		if n == 0 {
			return "the client has no time limit"
		}
		return set
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := clientBounded(u, e, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil || fn.Blocks == nil || !isRepoFunc(fn) {
			break
		}
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
				if w := clientBounded(u, ret.Results[0], seen); w != "" {
					return w
				}
			}
		}
		return ""
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			cs := u.callersOf(x.Parent())
			if len(cs) == 0 {
				return "the client is given by an unknown caller"
			}
			for _, c := range cs {
				if i >= len(args(c)) {
					return "the client is given by an unknown caller"
				}
				if w := clientBounded(u, args(c)[i], seen); w != "" {
					return w
				}
			}
			return ""
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			for _, s := range allStores(a) {
				if w := clientBounded(u, s.Val, seen); w != "" {
					return w
				}
			}
			return ""
		case *ssa.FieldAddr, *ssa.Global:
			n := 0
			t, fld := "", ""
			if fa, ok := a.(*ssa.FieldAddr); ok {
				t, fld = typeFull(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)
			}
			gl, _ := a.(*ssa.Global)
			if gl != nil && !strings.HasPrefix(gl.Pkg.Pkg.Path(), repoPrefix) {
				return gl.Name() + " of " + gl.Pkg.Pkg.Path() + " has no time limit"
			}
			fs := append([]*ssa.Function(nil), u.Funcs...)
			if gl != nil {
				fs = append(fs, gl.Pkg.Func("init"))
			}
			for _, f := range fs {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						st, ok := ins.(*ssa.Store)
						if !ok {
							continue
						}
						fa, isF := st.Addr.(*ssa.FieldAddr)
						if gl != nil && st.Addr == gl || fld != "" && isF && typeFull(fa.X.Type()) == t && fieldName(fa.X.Type(), fa.Field) == fld {
							n++
							if w := clientBounded(u, st.Val, seen); w != "" {
								return w
							}
						}
					}
				}
			}
			if n == 0 {
				return "no client is ever put there"
			}
			return ""
		}
	}
	return "where the client comes from is not known"
}

// request: the form of the request this exchange sends; "" if it fits.
func (h *httpCheck) request(routes map[string]bool) string {
	g, u := h.g, h.u
	name := u.CalleeName(h.call)
	as := args(h.call)
	var data, url []ssa.Value
	for _, p := range h.f.Params {
		if h.f.Signature.Recv() != nil && p == h.f.Params[0] {
			continue
		}
		if isStringType(p.Type()) {
			url = append(url, p)
		} else {
			data = append(data, p)
		}
	}
	wantBody := len(data) > 0
	method, addr, body := "", Val{}, Val{}
	var rq Val
	switch {
	case strings.HasSuffix(name, ".Get"):
		method, addr = "GET", Val{h.n.ctx, as[len(as)-1]}
	case strings.HasSuffix(name, ".Do"):
		rq = g.resolve(Val{h.n.ctx, as[1]})
		c, _ := callOf(rq)
		if c == nil {
			return "the request is not made in the entry"
		}
		ra := c.Call.Args
		switch u.CalleeName(c) {
		case "net/http.NewRequest":
		case "net/http.NewRequestWithContext":
			ra = ra[1:]
		default:
			return "the request is made by " + u.CalleeName(c)
		}
		m, _ := h.text(Val{rq.ctx, ra[0]}, 0)
		method, addr, body = m, Val{rq.ctx, ra[1]}, g.resolve(Val{rq.ctx, ra[2]})
	case strings.HasSuffix(name, ".Post"):
		i := len(as) - 3
		method, addr, body = "POST", Val{h.n.ctx, as[i]}, g.resolve(Val{h.n.ctx, as[i+2]})
		if ct, _ := h.text(Val{h.n.ctx, as[i+1]}, 0); ct != "application/json" {
			return "the content type is not application/json"
		}
	default:
		return "the form of the request is not known"
	}
	// address
	txt, vals := h.text(addr, 0)
	if len(url) != 1 || len(vals) != 1 || g.resolve(vals[0]).v != url[0] {
		return "the request does not go to the address given"
	}
	pre, suf := txt[:strings.Index(txt, "\x00")], txt[strings.Index(txt, "\x00")+1:]
	if pre != "" && pre != "http://" && pre != "https://" {
		return "the address is changed to begin with " + pre
	}
	if pre == "" && suf != "" {
		return "the address is changed to end with " + suf
	}
	if pre != "" && !routes[method+" "+suf] {
		return "no server of the project serves " + method + " " + suf
	}
	// body
	if !wantBody {
		want := "DELETE"
		if h.f.Signature.Results().Len() > 1 {
			want = "GET"
		}
		if method != want {
			return "the method is " + method + ", not " + want
		}
		return ""
	}
	if method != "POST" && method != "PUT" {
		return "what is to be sent is not sent with POST but " + method
	}
	if body.v == nil || isNilConst(body.v) {
		return "nothing is sent"
	}
	bc, _ := callOf(body)
	if bc == nil {
		return "what is sent is not the encoding of what was given"
	}
	switch u.CalleeName(bc) {
	case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
	default:
		return "what is sent is not the encoding of what was given"
	}
	enc := g.resolve(Val{body.ctx, bc.Call.Args[0]})
	if ct, ok := enc.v.(*ssa.Convert); ok {
		enc = g.resolve(Val{enc.ctx, ct.X})
	}
	mc, i := callOf(enc)
	if mc == nil || i > 0 || errResult(mc.Call.Signature()) < 0 {
		return "what is sent is not the encoding of what was given"
	}
	mn := u.CalleeName(mc)
	if mn != "encoding/json.Marshal" && !strings.HasSuffix(mn, ".MarshalJSON") && mn != nToBytes {
		return "what is sent is made by " + mn
	}
	src := g.resolve(Val{enc.ctx, args(mc)[0]})
	if ld, ok := src.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		src = g.resolve(Val{src.ctx, ld.X})
	}
	if len(data) != 1 || src.v != data[0] {
		return "what is encoded is not what was given"
	}
	if !h.succeeded(h.n.in, enc.ctx, mc) {
		return "encoding may have failed"
	}
	if rq.v == nil {
		return ""
	}
	// the content type is set on every way to the exchange
	set := false
	bad := ""
	g.calls(func(m *Node, ci ssa.CallInstruction, name string) {
		if m.after || name != "net/http.Header.Set" && name != "net/http.Header.Add" && name != "net/http.Header.Del" {
			return
		}
		ha := args(ci)
		hd, ok := g.resolve(Val{m.ctx, ha[0]}).v.(*ssa.UnOp)
		if !ok {
			return
		}
		fa, ok := g.resolve(Val{m.ctx, hd.X}).v.(*ssa.FieldAddr)
		if !ok || typeFull(fa.X.Type()) != "net/http.Request" || g.resolve(Val{m.ctx, fa.X}) != rq {
			return
		}
		k, _ := h.text(Val{m.ctx, ha[1]}, 0)
		if !strings.EqualFold(k, "Content-Type") {
			return
		}
		v := ""
		if len(ha) > 2 {
			v, _ = h.text(Val{m.ctx, ha[2]}, 0)
		}
		if strings.TrimSpace(strings.SplitN(v, ";", 2)[0]) != "application/json" {
			bad = "the content type is set to " + v
			return
		}
		rc, _ := callOf(rq)
		if !around(g, rq.ctx, rc, m, h.n) {
			set = true
		}
	})
	if bad != "" {
		return bad
	}
	if !set {
		return "the content type application/json is not set on every way"
	}
	return ""
}

// around: a way from a call that succeeded to the target that does not pass the node.
func around(g *G, c *Ctx, call *ssa.Call, n, target *Node) bool {
	seen := map[*Node]bool{n: true}
	st := []*Node{c.nodes[call]}
	for len(st) > 0 {
		m := st[len(st)-1]
		st = st[:len(st)-1]
		if m == target {
			return true
		}
		if seen[m] || !g.reachable(m) {
			continue
		}
		seen[m] = true
		for _, e := range m.succs {
			if es := g.edgeOut(e); !es.top && !callFailed(g, es, c, call) {
				st = append(st, e.to)
			}
		}
	}
	return false
}

// serverRoutes: method and path the project's REST servers serve with messages.
func serverRoutes(u *Universe) map[string]bool {
	out := map[string]bool{}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := u.CalleeName(c)
				const p = "go-json-rest/rest."
				i := strings.Index(name, p)
				if i < 0 {
					continue
				}
				m := strings.ToUpper(name[i+len(p):])
				if m == "POST" || m == "PUT" || m == "GET" || m == "DELETE" {
					for _, t := range constTexts(u, c.Common().Args[0], 0) {
						out[m+" "+t] = true
					}
				}
			}
		}
	}
	return out
}

// ---- the server --------------------------------------------------------------------------------------------------

// httpServer: a message is handed to a handler only once it was read whole from the request and decoded.
func httpServer(r *Run, u *Universe) {
	n := 0
	for _, f := range u.Funcs {
		if !strings.HasPrefix(FuncFull(f), "common/pkg/fcrrestserver.") || f.Blocks == nil || f.Object() != nil && f.Object().Exported() {
			continue
		}
		if f.Parent() == nil && len(u.callersOf(f)) > 0 && !takesRequest(f) {
			continue
		}
		if !takesRequest(f) {
			continue
		}
		fromLit := false
		for _, c := range u.callersOf(f) {
			if takesRequest(c.Parent()) {
				fromLit = true
			}
		}
		if fromLit {
			continue
		}
		g := NewG(u, f, &Config{Loose: true, Opaque: func(name string, h *ssa.Function) bool {
			return h.Pkg == nil || f.Pkg != nil && h.Pkg != f.Pkg && h.Parent() == nil
		}})
		g.Solve()
		for _, m := range g.nodes {
			c, ok := m.instr.(*ssa.Call)
			if !ok || m.after || !g.reachable(m) || m.ctx.children[c] != nil || c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
				continue
			}
			if _, isB := c.Call.Value.(*ssa.Builtin); isB {
				continue
			}
			for _, a := range c.Call.Args {
				if typeFull(a.Type()) != tMsg {
					continue
				}
				n++
				msg := g.resolve(Val{m.ctx, a})
				dc, i := callOf(msg)
				h := &httpCheck{r: r, u: u, g: g, f: f}
				why := ""
				switch {
				case dc == nil || i > 0 || u.CalleeName(dc) != nFromBytes:
					why = "the message given to the handler is not decoded from the request"
				case !h.succeeded(m.in, msg.ctx, dc):
					why = "decoding the message may have failed"
				default:
					why = reqWhole(h, m.in, Val{msg.ctx, dc.Call.Args[0]})
				}
				r.ob("request-read", short(f), why == "", g.where(m), why)
				r.ob("routed", short(f), routedBy(g, Val{m.ctx, c.Call.Value}, msg), g.where(m), "the handler is not the one kept for the type of this message and the address it came in by")
			}
		}
	}
	r.count("places where a request is handed to a handler", n)
}

func takesRequest(f *ssa.Function) bool {
	for _, p := range f.Params {
		if typeFull(p.Type()) == "github.com/ant0ine/go-json-rest/rest.Request" {
			return true
		}
	}
	return false
}

// reqWhole: the bytes are the whole body of the request.
func reqWhole(h *httpCheck, st *FSet, v Val) string {
	g := h.g
	v = g.resolve(v)
	c, i := callOf(v)
	if c == nil || i > 0 || h.u.CalleeName(c) != "io/ioutil.ReadAll" && h.u.CalleeName(c) != "io.ReadAll" {
		return "the message is not decoded from the whole body of the request"
	}
	if !h.succeeded(st, v.ctx, c) {
		return "reading the body of the request may have failed half way"
	}
	b := g.resolve(Val{v.ctx, c.Call.Args[0]})
	if ld, ok := b.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := g.resolve(Val{b.ctx, ld.X}).v.(*ssa.FieldAddr); ok && typeFull(fa.X.Type()) == "net/http.Request" && fieldName(fa.X.Type(), fa.Field) == "Body" {
			return ""
		}
	}
	return "what is read is not the body of the request"
}

// routedBy: the handler is looked up by the type of the message, in the table of the listen address the request came by.
func routedBy(g *G, h, msg Val) bool {
	ok := false
	for _, o := range g.origins(h) {
		lk := mapLookup(o)
		if lk == nil {
			return false
		}
		k := g.resolve(Val{o.ctx, lk.Index})
		kc, _ := callOf(k)
		if kc == nil || g.u.CalleeName(kc) != "common/pkg/fcrmessages.FCRMessage.GetMessageType" || g.resolve(Val{k.ctx, args(kc)[0]}) != msg {
			return false
		}
		outer := g.resolve(Val{o.ctx, lk.X})
		l2 := mapLookup(outer)
		if l2 == nil {
			return false
		}
		a := g.resolve(Val{outer.ctx, l2.Index})
		if !isStringType(a.v.Type()) {
			return false
		}
		av := a.v
		if ld, isLd := av.(*ssa.UnOp); isLd && ld.Op == token.MUL {
			av = ld.X
		}
		switch av.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
		default:
			return false
		}
		ok = true
	}
	return ok
}

func mapLookup(v Val) *ssa.Lookup {
	switch x := v.v.(type) {
	case *ssa.Lookup:
		return x
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return l
		}
	}
	return nil
}

// ---- driver ------------------------------------------------------------------------------------------------------

func httpExchanges(r *Run, u *Universe, mod string, routes map[string]bool) {
	has := map[*ssa.Function]bool{}
	pkgs := map[*ssa.Package]bool{}
	for _, f := range u.Funcs {
		if !httpProduction(f) || mod != "common" && strings.HasPrefix(FuncFull(f), "common/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && isExchange(u.CalleeName(c)) {
					has[f] = true
					pkgs[f.Pkg] = true
				}
			}
		}
	}
	// everything in those packages from which an exchange is reached
	for changed := true; changed; {
		changed = false
		for _, f := range u.Funcs {
			if has[f] || !pkgs[f.Pkg] {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						if h := u.Callee(c); h != nil && has[h] && h.Pkg == f.Pkg {
							has[f], changed = true, true
						}
						if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok && has[mc.Fn.(*ssa.Function)] {
							has[f], changed = true, true
						}
						for _, a := range c.Common().Args {
							if mc, ok := a.(*ssa.MakeClosure); ok && has[mc.Fn.(*ssa.Function)] {
								has[f], changed = true, true
							}
						}
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	for f := range has {
		inner := 0
		for _, c := range u.callersOf(f) {
			if c.Parent() != nil && c.Parent().Pkg == f.Pkg && c.Parent() != f {
				inner++
			}
		}
		if f.Parent() == nil && (f.Object() != nil && f.Object().Exported() || inner == 0) {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return short(roots[i]) < short(roots[j]) })
	covered := map[ssa.Instruction]bool{}
	for _, f := range roots {
		g := NewG(u, f, &Config{Loose: true, Opaque: func(name string, h *ssa.Function) bool { return h.Parent() == nil && h.Pkg != f.Pkg }})
		g.Solve()
		exits := g.maybeSuccess()
		r.count("entries", 1)
		r.count("graph nodes", len(g.nodes))
		var exs []*httpCheck
		for _, n := range g.nodes {
			c, ok := n.instr.(*ssa.Call)
			if !ok || n.after || !isExchange(u.CalleeName(c)) || !g.reachable(n) {
				continue
			}
			exs = append(exs, &httpCheck{r: r, u: u, g: g, f: f, n: n, call: c, lbl: short(f)})
		}
		if len(exs) == 0 {
			r.ob("status-checked", short(f), false, u.Pos(f.Pos()), "the exchange was not found in the expanded entry")
			continue
		}
		handsOn := -1
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if !isErrorType(rs.At(i).Type()) {
				handsOn = i
			}
		}
		for _, h := range exs {
			covered[h.call] = true
			r.count("exchanges", 1)
			forms := h.statusForms()
			bad := []int{100, 199, 300, 301, 302, 304, 307, 308, 399, 400, 401, 402, 403, 404, 405, 408, 409, 415, 418, 422, 429, 499, 500, 501, 502, 503, 504, 599, 0, -1}
			if handsOn >= 0 {
				bad = append(bad, 206)
			}
			why := ""
			for _, s := range bad {
				if at, ok := h.reachesSuccess(exits, forms, s); ok {
					why = "success is reported (" + at + ") for an answer of status " + strconv.Itoa(s)
					break
				}
			}
			if why == "" && errResult(f.Signature) < 0 {
				why = "the entry has no way of reporting a failure"
			}
			r.ob("status-checked", h.lbl, why == "", g.where(h.n), why)
			_, ok200 := h.reachesSuccess(exits, forms, 200)
			r.ob("success-possible", h.lbl, ok200, g.where(h.n), "an answer of the success status is never reported as success")
			at, open := h.unclosed()
			r.ob("closed", h.lbl, !open, g.where(h.n), "the body of the answer is not closed on some way before "+at)
			var cl string
			as := args(h.call)
			if n := u.CalleeName(h.call); strings.HasPrefix(n, "net/http.Client.") {
				cl = clientBounded(u, as[0], map[ssa.Value]bool{})
			} else {
				cl = n + " has no time limit"
			}
			r.ob("bounded", h.lbl, cl == "", g.where(h.n), "the exchange may go on for ever: "+cl)
			w := h.request(routes)
			r.ob("request-form", h.lbl, w == "", g.where(h.n), w)
		}
		if len(exs) > 1 {
			r.ob("own-answer", short(f), false, g.where(exs[1].n), "the entry makes more than one exchange; which answer it hands on is not decided")
			continue
		}
		h := exs[0]
		i := 0
		for n, st := range exits {
			// no success without the exchange itself
			w := ""
			if !h.succeeded(st, h.n.ctx, h.call) {
				w = "success may be reported though the exchange failed or did not take place"
			}
			r.ob("own-answer", short(f)+" exchanged", w == "", g.where(n), w)
			i++
			if handsOn < 0 {
				continue
			}
			ret := n.instr.(*ssa.Return)
			w = h.answer(st, Val{g.root, ret.Results[handsOn]})
			r.ob("own-answer", short(f)+" answer", w == "", g.where(n), "what is handed on may not be the whole answer of this exchange: "+w)
		}
		r.ob("success-possible", short(f)+" exits", i > 0, u.Pos(f.Pos()), "success is never reported")
	}
	for f := range has {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && isExchange(u.CalleeName(c)) && !covered[ins] {
					r.ob("own-answer", short(f)+" covered", false, u.Pos(ins.Pos()), "this exchange is not reached from any entry looked at")
				}
			}
		}
	}
}

func init() {
	register("P27", "Every call that makes an HTTP request is found; each exported function it is reached from is expanded to one control-flow graph. On it, every status is followed to the exits that report success, the body is followed to where it is closed, read and decoded, and what is handed on is traced back to the body of the same exchange. The client's time limit and the request's method, address, content type and content are traced back to constants and to what was given. On the server's side the message handed to a handler is traced back to the body of the request.",
		[]string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin", "register"}, func(r *Run) {
			r.rule("status-checked", "success is reported only for an answer of a success status (2xx; not a partial content where content is handed on)")
			r.rule("success-possible", "an answer of status 200 can be reported as success")
			r.rule("closed", "the body of every answer is closed on every way")
			r.rule("bounded", "the client that makes the exchange has a positive time limit")
			r.rule("request-form", "the request goes to the address given, with the method the operation stands for, the content given, and its type")
			r.rule("own-answer", "what is handed on as the answer is the whole body of this exchange's answer, read and decoded without error; without an exchange there is no success")
			r.rule("request-read", "a server hands on only a message decoded from the whole of the request")
			r.rule("routed", "a server hands a message to the handler kept for its type and the address it came in by")
			routes := serverRoutes(r.U("common"))
			for _, m := range []string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin", "register"} {
				httpExchanges(r, r.U(m), m, routes)
			}
			httpServer(r, r.U("common"))
			r.floor("status-checked", 4)
			r.floor("success-possible", 4)
			r.floor("closed", 4)
			r.floor("bounded", 4)
			r.floor("request-form", 4)
			r.floor("own-answer", 4)
			r.floor("request-read", 1)
			r.floor("routed", 1)
		})
}
