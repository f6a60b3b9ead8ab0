package main

// P25: the register's handlers store and return registrations faithfully, and answer for their own operation.
//
// The operations are those of the generated API; for each, the function installed as its handler is expanded with its
// helpers into one graph. What a way through it answers is followed with the merges (phis) and helper results taken on
// that way.

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	regOps    = "register/restapi/operations/"
	regModels = "register/models."
	respIface = "github.com/go-openapi/runtime/middleware.Responder"
)

// redisOp: the Redis command a call sends ("" none).
func redisOp(name string) string {
	i := strings.Index(name, "go-redis/redis/v8.")
	if i < 0 {
		return ""
	}
	p := strings.Split(name[i+len("go-redis/redis/v8."):], ".")
	if len(p) == 2 {
		switch p[0] {
		case "cmdable", "Client", "Cmdable", "UniversalClient", "statefulCmdable", "hooks", "baseClient":
			return p[1]
		}
	}
	return ""
}

// redisResult: the call reads the outcome of a command (Err, Result or Val).
func redisResult(name string) string {
	i := strings.Index(name, "go-redis/redis/v8.")
	if i < 0 {
		return ""
	}
	p := strings.Split(name[i+len("go-redis/redis/v8."):], ".")
	if len(p) == 2 && (strings.HasSuffix(p[0], "Cmd") || p[0] == "Cmder") {
		switch p[1] {
		case "Err", "Result", "Val":
			return p[1]
		}
	}
	return ""
}

type regOpn struct {
	dbs  map[string]map[string][][2]string // databases used, by kind of registration
	kind string                            // gateway, provider
	name string                            // AddGatewayRegister...
	what string                            // add, list, byid, delete
	fn   *ssa.Function
	mk   *ssa.MakeClosure
}

func opKind(name string) (what string) {
	switch {
	case strings.HasPrefix(name, "Add"):
		return "add"
	case strings.HasPrefix(name, "Get") && strings.HasSuffix(name, "ByID"):
		return "byid"
	case strings.HasPrefix(name, "Get"):
		return "list"
	case strings.HasPrefix(name, "Delete"):
		return "delete"
	}
	return ""
}

func unwrap(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// handlerAPI: the generated API struct and its handler fields.
func handlerAPI(u *Universe) (*types.Named, *types.Struct) {
	for _, sp := range u.Pkgs {
		if sp.Pkg.Path() != repoPrefix+"register/restapi/operations" {
			continue
		}
		for _, m := range sp.Members {
			if tm, ok := m.(*ssa.Type); ok {
				if st, ok := tm.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if strings.HasSuffix(typeFull(st.Field(i).Type()), "Handler") && strings.Contains(typeFull(st.Field(i).Type()), regOps) {
							n, _ := tm.Type().(*types.Named)
							return n, st
						}
					}
				}
			}
		}
	}
	return nil, nil
}

func isOpHandler(t types.Type) (kind, name string) {
	s := typeFull(t)
	i := strings.Index(s, regOps)
	if i < 0 || !strings.HasSuffix(s, "Handler") {
		return "", ""
	}
	p := strings.SplitN(strings.TrimSuffix(s[i+len(regOps):], "Handler"), ".", 2)
	if len(p) != 2 {
		return "", ""
	}
	return p[0], p[1]
}

func init() {
	register("P25", "Every operation of the register's generated API is taken with the function installed as its handler, expanded with its helpers. What a way answers is followed through merges and helper results; the commands sent to the store, their table, key and value, and the errors looked at on that way are required of every way that answers success. The generated code the data passes through (binding, payloads, models, routes) is compared with the description of the API.",
		[]string{"register", "common"}, func(r *Run) {
			r.rule("wired", "every operation of the API has a handler installed")
			r.rule("routed", "each path and method of the description leads to the operation of that name")
			r.rule("own-table", "a handler only touches the table of its own kind, and only an operation that changes registrations sends commands that do")
			r.rule("stored-under", "a registration is stored once, as it was given, under its own node identifier")
			r.rule("success-means-stored", "every way that answers success has sent the command it stands for, looked at the error of every command sent and found none")
			r.rule("answer-form", "every answer is one of the handler's own operation, and a failure is not given a status of success")
			r.rule("returned", "what is returned is the registration given, found under the identifier asked, or found in the table, decoded without error and not changed")
			r.rule("all-listed", "every entry of the table that can be decoded is listed, each as its own record")
			r.rule("all-deleted", "every entry of the table is deleted before success is answered")
			r.rule("no-panic", "a handler does not panic when the store fails")
			r.rule("released", "the connection to the store is closed on every way")
			r.rule("bound", "the request's body and path reach the handler's parameters unchanged")
			r.rule("payload-kept", "the payload given to a response is the one sent, with the response's own status")
			r.rule("wire-names", "each field of a registration has a JSON name of its own, the same in the register and in the nodes that use it")
			r.rule("model-codec", "a registration is encoded and decoded whole")
			r.rule("one-store", "all operations of a kind of registration use the same database of the store")
			u := r.U("register")
			ops := installed(r, u)
			dbs := map[string]map[string][][2]string{}
			for _, o := range ops {
				if o.what == "" {
					continue
				}
				o.dbs = dbs
				faithful(r, u, o)
			}
			for kind, of := range dbs {
				most := ""
				for db, at := range of {
					if most == "" || len(at) > len(of[most]) || len(at) == len(of[most]) && db < most {
						most = db
					}
				}
				for db, at := range of {
					for _, a := range at {
						r.ob("one-store", a[0], db == most, a[1], "uses database "+db+" of the store, the other operations of a "+kind+" use "+most)
					}
				}
			}
			routes(r, u)
			generated(r, u)
			models(r, u, r.U("common"))
			r.floor("stored-under", 2)
			r.floor("success-means-stored", 8)
			r.floor("returned", 6)
			r.floor("all-listed", 2)
			r.floor("all-deleted", 2)
			r.floor("routed", 8)
			r.floor("released", 8)
			r.floor("bound", 4)
			r.floor("wire-names", 2)
			r.floor("model-codec", 4)
		})
}

func installed(r *Run, u *Universe) (out []regOpn) {
	api, st := handlerAPI(u)
	if api == nil {
		r.ob("anchor", "generated API", false, "-", "the struct that holds the handlers was not found")
		return
	}
	have := map[string][]regOpn{}
	for _, f := range u.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg == nil || strings.HasPrefix(FuncFull(f), regOps) || f.Pkg.Pkg.Path() == repoPrefix+"register/restapi/operations" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldOwner(fa) != api {
					continue
				}
				name := fieldName(fa.X.Type(), fa.Field)
				kind, op := isOpHandler(st.Field(fa.Field).Type())
				if kind == "" {
					continue
				}
				o := regOpn{kind: kind, name: op, what: opKind(op)}
				switch x := unwrap(s.Val).(type) {
				case *ssa.Function:
					o.fn = x
				case *ssa.MakeClosure:
					o.fn, o.mk = x.Fn.(*ssa.Function), x
				}
				r.ob("wired", name, o.fn != nil, u.Pos(s.Pos()), "what is installed is not a function that can be followed")
				if o.fn != nil {
					have[name] = append(have[name], o)
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if kind, _ := isOpHandler(f.Type()); kind == "" {
			continue
		}
		if len(have[f.Name()]) == 0 {
			r.ob("wired", f.Name(), false, "-", "no handler is installed for the operation")
			continue
		}
		out = append(out, have[f.Name()]...)
	}
	return
}

// answering: the value of a response on one way.
type answering struct {
	g    *G
	env  map[string]Val
	nils map[string]bool // errors found to be nil, or not, on the way
}

func isResponse(t types.Type) bool {
	s := typeFull(t)
	if s == respIface || strings.HasSuffix(s, "runtime/middleware.Responder") {
		return true
	}
	p, ok := t.(*types.Pointer)
	return ok && strings.Contains(typeFull(p.Elem()), regOps)
}

func (a *answering) name(v Val, i int) string { return fmt.Sprintf("%s#%d", a.g.token(v), i) }

func (a *answering) value(v Val) Val {
	for d := 0; d < 60; d++ {
		v = a.g.resolve(v)
		v.v = unwrap(v.v)
		switch x := v.v.(type) {
		case *ssa.Phi:
			if w, ok := a.env[a.name(v, 0)]; ok {
				v = w
				continue
			}
		case *ssa.Call:
			if w, ok := a.env[a.name(v, 0)]; ok {
				v = w
				continue
			}
		case *ssa.Extract:
			if w, ok := a.env[a.name(Val{v.ctx, x.Tuple}, x.Index)]; ok {
				v = w
				continue
			}
		case *ssa.TypeAssert:
			v = Val{v.ctx, x.X}
			continue
		}
		w := a.g.resolve(v)
		if w == v {
			return v
		}
		v = w
	}
	return v
}

func (a *answering) key() string {
	var ks []string
	for k, v := range a.env {
		ks = append(ks, k+"="+a.g.token(v))
	}
	for k, v := range a.nils {
		ks = append(ks, fmt.Sprintf("%s:%v", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// answersFrom walks every way on from the edges or nodes given and reports each answer reached with its place.
func answersFrom(g *G, from []*Node, cut func(e *Edge) bool, stop func(n *Node) bool, reached func(n *Node, a *answering, v Val)) {
	type state struct {
		n *Node
		k string
	}
	seen := map[state]bool{}
	var walk func(n *Node, a *answering)
	walk = func(n *Node, a *answering) {
		k := state{n, a.key()}
		if seen[k] {
			return
		}
		seen[k] = true
		if stop != nil && stop(n) {
			return
		}
		if v, ok := n.instr.(ssa.Value); ok && len(a.nils) > 0 {
			// executed again: what was known about its last outcome is gone
			pre := g.token(Val{n.ctx, v})
			drop := []string{pre}
			for _, ex := range extracts(v) {
				drop = append(drop, g.token(Val{n.ctx, ex}))
			}
			for _, d := range drop {
				if _, ok := a.nils[d]; ok {
					a = a.clone()
					delete(a.nils, d)
				}
			}
		}
		if ret, ok := n.instr.(*ssa.Return); ok {
			if n.ctx == g.root {
				if len(ret.Results) > 0 {
					reached(n, a, a.value(Val{n.ctx, ret.Results[0]}))
				}
				return
			}
			if site, ok := n.ctx.site.(*ssa.Call); ok {
				var nx *answering
				for i, rv := range ret.Results {
					if !isResponse(rv.Type()) {
						continue
					}
					if nx == nil {
						nx = a.clone()
					}
					nx.env[a.name(Val{n.ctx.parent, site}, i)] = a.value(Val{n.ctx, rv})
				}
				for i, rv := range ret.Results {
					if isErrorType(rv.Type()) {
						if nx == nil {
							nx = a.clone()
						}
						nx.env[a.name(Val{n.ctx.parent, site}, i)] = a.value(Val{n.ctx, rv})
					}
				}
				if nx != nil {
					a = nx
				}
			}
		}
		for _, e := range n.succs {
			if !g.reachable(e.to) || g.edgeOut(e).top || cut != nil && cut(e) {
				continue
			}
			nx := a
			if v, isNil, ok := nilEdge(e); ok {
				w := a.value(Val{n.ctx, v})
				known, nilKnown := a.nils[g.token(w)]
				if !nilKnown {
					if cst, isC := w.v.(*ssa.Const); isC && cst.Value == nil {
						known, nilKnown = true, true
					} else if c, _ := callOf(w); c != nil && nonNilCall(g.u.CalleeName(c)) {
						known, nilKnown = false, true
					} else if _, isM := v.(*ssa.MakeInterface); isM {
						known, nilKnown = false, true
					}
				}
				if nilKnown && known != isNil {
					continue
				}
				nx = a.clone()
				nx.nils[g.token(w)] = isNil
			}
			if e.to.instr != nil && e.fromBlk != nil && e.to.instr.Block() != e.fromBlk && e.to.ctx == n.ctx {
				b := e.to.instr.Block()
				for i, pb := range b.Preds {
					if pb != e.fromBlk {
						continue
					}
					for _, ins := range b.Instrs {
						if ph, ok := ins.(*ssa.Phi); ok && (isResponse(ph.Type()) || isErrorType(ph.Type())) {
							if nx == a {
								nx = a.clone()
							}
							nx.env[a.name(Val{n.ctx, ph}, 0)] = a.value(Val{n.ctx, ph.Edges[i]})
						}
					}
				}
			}
			walk(e.to, nx)
		}
	}
	for _, n := range from {
		walk(n, &answering{g, map[string]Val{}, map[string]bool{}})
	}
}

func (a *answering) clone() *answering {
	b := &answering{a.g, map[string]Val{}, map[string]bool{}}
	for k, v := range a.env {
		b.env[k] = v
	}
	for k, v := range a.nils {
		b.nils[k] = v
	}
	return b
}

// nilEdge: the edge is a branch on whether an error is nil: the error, and whether it is on this edge.
func nilEdge(e *Edge) (v ssa.Value, isNil, ok bool) {
	if e.fromBlk == nil || e.to.instr == nil || len(e.fromBlk.Succs) != 2 || e.fromBlk.Succs[0] == e.fromBlk.Succs[1] || e.to.instr.Block() == e.fromBlk {
		return
	}
	ifi, isIf := e.fromBlk.Instrs[len(e.fromBlk.Instrs)-1].(*ssa.If)
	if !isIf {
		return
	}
	b, isB := ifi.Cond.(*ssa.BinOp)
	if !isB || !isErrorType(b.X.Type()) {
		return
	}
	x := b.X
	if isNilConst(x) {
		x = b.Y
	} else if !isNilConst(b.Y) {
		return
	}
	onTrue := e.to.instr.Block() == e.fromBlk.Succs[0]
	switch b.Op {
	case token.EQL:
		return x, onTrue, true
	case token.NEQ:
		return x, !onTrue, true
	}
	return
}

// response: the type of an answer, its payload and the status given to it.
func (o *regOpn) response(g *G, v Val) (typ string, payload *Val, status []Val) {
	typ = typeFull(v.v.Type())
	if p, ok := v.v.Type().(*types.Pointer); ok {
		typ = typeFull(p.Elem())
	}
	for d := 0; d < 20; d++ {
		v = g.resolve(v)
		c, ok := v.v.(*ssa.Call)
		if !ok {
			break
		}
		name := g.u.CalleeName(c)
		as := args(c)
		switch {
		case !strings.Contains(name, regOps):
			return
		case strings.HasSuffix(name, ".WithPayload"):
			if payload == nil {
				payload = &Val{v.ctx, as[1]}
			}
			v = Val{v.ctx, as[0]}
			continue
		case strings.HasSuffix(name, ".WithStatusCode"):
			status = append(status, Val{v.ctx, as[1]})
			v = Val{v.ctx, as[0]}
			continue
		case len(as) == 1 && isInteger(as[0].Type()):
			status = append(status, Val{v.ctx, as[0]})
		}
		break
	}
	if payload == nil {
		base := g.resolve(v)
		for _, n := range g.nodes {
			switch x := n.instr.(type) {
			case *ssa.Call:
				if nm := g.u.CalleeName(x); !n.after && strings.Contains(nm, regOps) && strings.HasSuffix(nm, ".SetPayload") && g.resolve(Val{n.ctx, args(x)[0]}) == base {
					payload = &Val{n.ctx, args(x)[1]}
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Payload" && g.resolve(Val{n.ctx, fa.X}) == base {
					payload = &Val{n.ctx, x.Val}
				}
			}
		}
	}
	return
}

type redisCmd struct {
	n    *Node
	op   string
	c    *ssa.Call
	args []Val
}

func faithful(r *Run, u *Universe, o regOpn) {
	g := NewG(u, o.fn, &Config{Opaque: func(name string, f *ssa.Function) bool {
		return strings.Contains(name, regOps) || strings.HasPrefix(name, "common/") || strings.HasPrefix(name, "register/config") || strings.HasPrefix(name, regModels)
	}})
	g.Solve()
	r.count("operations", 1)
	r.count("graph nodes", len(g.nodes))
	con := o.kind + " " + o.name
	own := regOps + o.kind + "." + o.name
	var start *Node
	for _, n := range g.nodes {
		if n.ctx == g.root && len(n.preds) == 0 && n.instr != nil && n.instr.Block() == o.fn.Blocks[0] {
			start = n
			break
		}
	}
	if start == nil {
		r.ob("anchor", con, false, "-", "the handler has no body")
		return
	}
	isOK := func(v Val) bool {
		t, _, _ := o.response(g, v)
		return strings.HasSuffix(t, "OK")
	}
	// commands, outcomes
	var cmds []redisCmd
	for _, n := range g.nodes {
		c, ok := n.instr.(ssa.CallInstruction)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		op := redisOp(u.CalleeName(c))
		if op == "" || op == "Close" {
			continue
		}
		call, plain := c.(*ssa.Call)
		if !plain {
			r.ob("success-means-stored", con+" "+op, false, g.where(n), "the command is sent without waiting for its outcome")
			continue
		}
		cmd := redisCmd{n: n, op: op, c: call}
		for _, a := range args(call) {
			cmd.args = append(cmd.args, Val{n.ctx, a})
		}
		cmds = append(cmds, cmd)
	}
	r.count("store commands", len(cmds))
	write := map[string]bool{"HSet": true, "HSetNX": true, "HMSet": true, "HDel": true, "Del": true, "Unlink": true}
	readsOnly := map[string]bool{"HGet": true, "HGetAll": true, "HVals": true, "HKeys": true, "HExists": true, "HLen": true, "HMGet": true, "Ping": true, "Exists": true}
	allowed := map[string]map[string]bool{
		"add":    {"HSet": true, "HSetNX": false, "HMSet": true},
		"delete": {"HDel": true, "Del": true, "Unlink": true},
	}
	for _, c := range cmds {
		why := ""
		switch {
		case write[c.op] && !allowed[o.what][c.op]:
			why = "the operation sends " + c.op
		case !write[c.op] && !readsOnly[c.op]:
			why = "the command " + c.op + " is not one whose effect on the table is known"
		case c.op == "Ping":
		case len(c.args) < 3:
			why = "no table is named"
		default:
			keys := []Val{c.args[2]}
			if c.op == "Del" || c.op == "Unlink" || c.op == "Exists" {
				vs, ok := variadic(g, c.args[2])
				if !ok {
					why = "the tables are not written out"
				}
				keys = vs
			}
			for _, k := range keys {
				for _, ov := range g.origins(k) {
					cst, ok := ov.v.(*ssa.Const)
					if !ok || cst.Value == nil || cst.Value.Kind() != constant.String || constant.StringVal(cst.Value) != o.kind {
						why = "the table is not that of " + o.kind + "s"
					}
				}
			}
		}
		r.ob("own-table", con+" "+c.op, why == "", g.where(c.n), why)
	}
	// the outcomes looked at
	type outc struct {
		n    *Node
		call *ssa.Call
		idx  int
		kind string
	}
	outs := map[*Node][]outc{}
	for _, n := range g.nodes {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		k := redisResult(u.CalleeName(c))
		if k == "" {
			continue
		}
		recv := Val{n.ctx, args(c)[0]}
		if fa, ok := recv.v.(*ssa.FieldAddr); ok {
			recv.v = fa.X // promoted from the embedded base
		}
		for _, ov := range g.origins(recv) {
			for _, cm := range cmds {
				if oc, _ := callOf(ov); oc == cm.c && ov.ctx == cm.n.ctx {
					outs[cm.n] = append(outs[cm.n], outc{n, c, c.Call.Signature().Results().Len() - 1, k})
				}
			}
		}
	}
	succeeded := func(st *FSet, n *Node) bool {
		if st.top {
			return false
		}
		for _, oc := range outs[n] {
			if oc.kind == "Val" {
				continue
			}
			cv := Val{oc.n.ctx, oc.call}
			if outcome(g, st, cv, oc.idx, "nil") || g.hasIn(st, mkFact("isnil", g.objkey(cv))) {
				return true
			}
			for _, ex := range extracts(oc.call) {
				if ex.Index == oc.idx && g.hasIn(st, mkFact("isnil", g.objkey(Val{oc.n.ctx, ex}))) {
					return true
				}
			}
		}
		return false
	}
	sucEdge := func(n *Node) func(e *Edge) bool { return func(e *Edge) bool { return succeeded(g.edgeOut(e), n) } }
	// result value of a successful read
	readOf := func(v Val, ops ...string) (redisCmd, bool) {
		for _, ov := range []Val{g.resolve(v)} {
			c, i := callOf(ov)
			if c == nil {
				continue
			}
			k := redisResult(u.CalleeName(c))
			if k == "Result" && i != 0 || k == "" || k == "Err" {
				continue
			}
			for _, cm := range cmds {
				for _, oc := range outs[cm.n] {
					if oc.call == c && oc.n.ctx == ov.ctx && containsStr(ops, cm.op) {
						return cm, true
					}
				}
			}
		}
		return redisCmd{}, false
	}
	// answers
	n := 0
	type answer struct {
		n *Node
		v Val
	}
	var okAnswers []answer
	answersFrom(g, []*Node{start}, nil, nil, func(at *Node, a *answering, v Val) {
		n++
		typ, _, status := o.response(g, v)
		why := ""
		if typ != own+"OK" && typ != own+"Default" {
			why = "it answers with " + typ
		}
		for _, s := range status {
			for _, ov := range g.origins(s) {
				c, ok := ov.v.(*ssa.Const)
				if !ok || c.Value == nil || c.Int64() < 400 && c.Int64() > 0 || c.Int64() > 599 {
					why = "a failure is given a status that is not one of failure"
				}
			}
		}
		if isOK(v) {
			okAnswers = append(okAnswers, answer{at, v})
		}
		r.ob("answer-form", con, why == "", g.where(at), why)
	})
	r.count("answers", n)
	if len(okAnswers) == 0 {
		r.ob("answer-form", con, false, "-", "no way answers success")
	}
	// every command's error is looked at; the command of the operation is sent
	for _, c := range cmds {
		bad := ""
		for _, e := range c.n.succs {
			answersFrom(g, []*Node{e.to}, sucEdge(c.n), func(m *Node) bool {
				if m == c.n {
					bad = "the command is sent again"
				}
				return m == c.n
			}, func(at *Node, a *answering, v Val) {
				if isOK(v) {
					bad = "success is answered (" + g.where(at) + ")"
				}
			})
		}
		r.ob("success-means-stored", con+" "+c.op, bad == "", g.where(c.n), bad+" although the command may have failed")
	}
	need := map[string][]string{"add": {"HSet", "HMSet"}, "byid": {"HGet"}, "list": {"HGetAll", "HVals"}, "delete": {"HGetAll", "HKeys", "Del", "Unlink"}}[o.what]
	isNeed := func(m *Node) bool {
		for _, c := range cmds {
			if c.n == m && containsStr(need, c.op) {
				return true
			}
		}
		return false
	}
	bad := ""
	answersFrom(g, []*Node{start}, nil, isNeed, func(at *Node, a *answering, v Val) {
		if isOK(v) {
			bad = g.where(at)
		}
	})
	r.ob("success-means-stored", con, bad == "", bad, "success is answered without "+strings.Join(need, " or ")+" having been sent")
	// panics
	for _, m := range g.nodes {
		if _, ok := m.instr.(*ssa.Panic); ok && g.reachable(m) {
			r.ob("no-panic", con, false, g.where(m), "the handler panics")
		}
	}
	r.ob("no-panic", con, true, "", "")
	// the connection
	clients := 0
	for _, m := range g.nodes {
		c, ok := m.instr.(*ssa.Call)
		if !ok || m.after || !g.reachable(m) || !strings.HasSuffix(u.CalleeName(c), "redis/v8.NewClient") {
			continue
		}
		clients++
		// which of the store's databases
		base := g.resolve(Val{m.ctx, args(c)[0]})
		if al, ok := base.v.(*ssa.Alloc); ok {
			st, _ := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			fs := newFlow(g).structOf(base, c)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if st.Field(i).Name() == "DB" {
					db := fs[i]
					if db == "" {
						db = "const:0"
					}
					if o.dbs[o.kind] == nil {
						o.dbs[o.kind] = map[string][][2]string{}
					}
					o.dbs[o.kind][db] = append(o.dbs[o.kind][db], [2]string{con, g.where(m)})
				}
			}
		}
		why, l := leak(g, m, 0)
		r.ob("released", con, !l, g.where(m), "the connection opened here is not closed on some way before "+why)
	}
	if clients == 0 {
		r.ob("released", con, true, "", "")
	}
	// the data
	if len(o.fn.Params) == 0 {
		return
	}
	param := o.fn.Params[len(o.fn.Params)-1]
	isField := func(v Val, field string) bool {
		p, f := fieldPath(g, v)
		return p == (Val{g.root, param}) && f == field
	}
	body := func(v Val) bool { // the registration given
		v.v = unwrap(v.v)
		v = g.resolve(v)
		return typeFull(v.v.Type()) == regModels+map[string]string{"gateway": "GatewayRegister", "provider": "ProviderRegister"}[o.kind] && isField(v, "Register")
	}
	// nobody changes a registration on the way
	changed := ""
	for _, m := range g.nodes {
		if s, ok := m.instr.(*ssa.Store); ok && g.reachable(m) {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && strings.HasPrefix(typeFull(fa.X.Type()), regModels) && strings.HasSuffix(typeFull(fa.X.Type()), "Register") {
				changed = g.where(m)
			}
			if p, ok := s.Addr.Type().Underlying().(*types.Pointer); ok && isNamed(p.Elem()) && strings.HasPrefix(typeFull(p.Elem()), regModels) && strings.HasSuffix(typeFull(p.Elem()), "Register") {
				if !wholeCopy(s) {
					changed = g.where(m)
				}
			}
		}
	}
	r.ob("returned", con+": unchanged", changed == "", changed, "a field of a registration is changed here")
	switch o.what {
	case "add":
		sets := 0
		for _, c := range cmds {
			if c.op != "HSet" && c.op != "HMSet" {
				continue
			}
			sets++
			why := ""
			vs, ok := variadic(g, c.args[3])
			if !ok || len(vs) != 2 {
				why = "not exactly one key and value are written"
			} else {
				k := vs[0]
				k.v = unwrap(k.v)
				if !isField(k, "Register.NodeID") {
					why = "the key is not the node identifier of the registration given"
				} else if !encodedBody(g, vs[1], body, c.n) {
					why = "the value is not the registration given"
				}
			}
			r.ob("stored-under", con, why == "", g.where(c.n), why)
		}
		r.ob("stored-under", con, sets == 1, "-", "the registration is not stored exactly once")
		for _, a := range okAnswers {
			_, p, _ := o.response(g, a.v)
			r.ob("returned", con, p != nil && body(*p), g.where(a.n), "the answer does not carry the registration given")
		}
	case "byid":
		for _, a := range okAnswers {
			_, p, _ := o.response(g, a.v)
			why := "the answer carries no registration"
			if p != nil {
				var dec *Node
				var text Val
				_, dec, text, why = recordOf(g, *p)
				if why == "" {
					if c, ok := readOf(textOf(g, text), "HGet"); !ok {
						why = "what is decoded is not what the lookup returned"
					} else if !isField(c.args[3], "ID") {
						why = "the registration looked up is not that of the identifier asked"
					}
				}
				if why == "" {
					answersFrom(g, []*Node{start}, func(e *Edge) bool { return decoded(g, dec, g.edgeOut(e)) }, nil, func(at *Node, _ *answering, v Val) {
						if _, q, _ := o.response(g, v); isOK(v) && q != nil && g.resolve(*q) == g.resolve(*p) {
							why = "the record may not have been decoded"
						}
					})
				}
			}
			r.ob("returned", con, why == "", g.where(a.n), why)
		}
	case "list":
		for _, a := range okAnswers {
			_, p, _ := o.response(g, a.v)
			if p == nil {
				r.ob("returned", con, false, g.where(a.n), "the answer carries no list")
				continue
			}
			listed(r, g, con, *p, a.n, start, func(v Val) bool { _, ok := readOf(v, "HGetAll", "HVals"); return ok }, isOK)
		}
	case "delete":
		whole := false
		for _, c := range cmds {
			if c.op == "Del" || c.op == "Unlink" {
				whole = true
				bad := ""
				answersFrom(g, []*Node{start}, func(e *Edge) bool { return false }, func(m *Node) bool { return m == c.n }, func(at *Node, _ *answering, v Val) {
					if isOK(v) {
						bad = g.where(at)
					}
				})
				r.ob("all-deleted", con, bad == "", bad, "success is answered without deleting")
			}
		}
		if !whole {
			deleted(r, g, con, cmds, start, succeeded, func(v Val) bool { _, ok := readOf(v, "HGetAll", "HKeys"); return ok }, isOK)
		}
	}
}

// fieldPath: what a value is loaded from: a root and the fields taken from it.
func fieldPath(g *G, v Val) (Val, string) {
	path := ""
	for d := 0; d < 40; d++ {
		v = g.resolve(v)
		switch x := v.v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, path
			}
			v.v = x.X
		case *ssa.FieldAddr:
			path = fieldName(x.X.Type(), x.Field) + "." + path
			v.v = x.X
		case *ssa.Field:
			path = fieldName(x.X.Type(), x.Field) + "." + path
			v.v = x.X
		case *ssa.Alloc:
			s := singleStore(x)
			if s == nil {
				return v, strings.TrimSuffix(path, ".")
			}
			v.v = s.Val
		default:
			return v, strings.TrimSuffix(path, ".")
		}
	}
	return v, strings.TrimSuffix(path, ".")
}

// wholeCopy: the store copies a whole registration (a local copy of one).
func wholeCopy(s *ssa.Store) bool {
	switch s.Val.(type) {
	case *ssa.UnOp, *ssa.Const, *ssa.Phi, *ssa.Call, *ssa.Extract:
		return true
	}
	return false
}

// encodedBody: the value written is the registration (which encodes itself) or its encoding made without error.
func encodedBody(g *G, v Val, body func(Val) bool, at *Node) bool {
	v.v = unwrap(v.v)
	v = g.resolve(v)
	v.v = unwrap(v.v)
	if body(v) {
		return true
	}
	if cv, ok := v.v.(*ssa.Convert); ok {
		return encodedBody(g, Val{v.ctx, cv.X}, body, at)
	}
	c, i := callOf(v)
	if c == nil || i != 0 {
		return false
	}
	nm := g.u.CalleeName(c)
	if nm != "encoding/json.Marshal" && !(strings.HasPrefix(nm, regModels) && strings.HasSuffix(nm, ".MarshalBinary")) && !strings.HasSuffix(nm, "swag.WriteJSON") {
		return false
	}
	a := Val{v.ctx, args(c)[0]}
	a.v = unwrap(a.v)
	cv := Val{v.ctx, c}
	okErr := outcome(g, at.in, cv, 1, "nil")
	for _, ex := range extracts(c) {
		okErr = okErr || ex.Index == 1 && g.hasIn(at.in, mkFact("isnil", g.objkey(Val{v.ctx, ex})))
	}
	return okErr && body(a)
}

// recordOf: the variable a registration returned by pointer lives in, and the call that decoded it.
func recordOf(g *G, p Val) (al Val, dec *Node, text Val, why string) {
	p = g.resolve(p)
	p.v = unwrap(p.v)
	for d := 0; d < 20; d++ {
		p = g.resolve(p)
		a, ok := p.v.(*ssa.Alloc)
		if !ok {
			// what a helper returns: the alternatives that are not nil
			var alt []Val
			for _, ov := range g.origins(p) {
				if isNilConst(ov.v) {
					continue
				}
				alt = append(alt, ov)
			}
			if len(alt) == 1 && alt[0] != p {
				p = alt[0]
				continue
			}
			return p, nil, Val{}, "the record returned is not one made here"
		}
		var decs []*Node
		var src *Val
		for _, n := range g.nodes {
			if n.ctx != p.ctx && n.instr == nil || n.after || !g.reachable(n) {
				continue
			}
			switch x := n.instr.(type) {
			case *ssa.Call:
				nm := g.u.CalleeName(x)
				as := args(x)
				var tgt, txt ssa.Value
				switch {
				case nm == "encoding/json.Unmarshal" || strings.HasSuffix(nm, "swag.ReadJSON"):
					txt, tgt = as[0], as[1]
				case strings.HasPrefix(nm, regModels) && strings.HasSuffix(nm, ".UnmarshalBinary"):
					tgt, txt = as[0], as[1]
				default:
					continue
				}
				t := Val{n.ctx, unwrap(tgt)}
				t = g.resolve(t)
				t.v = unwrap(t.v)
				if t == p {
					decs = append(decs, n)
					text = Val{n.ctx, txt}
				}
			case *ssa.Store:
				if w := g.resolve(Val{n.ctx, x.Addr}); w == p && !isZeroConst(x.Val) {
					v := Val{n.ctx, x.Val}
					src = &v
				}
			}
		}
		if len(decs) == 1 && src == nil {
			return p, decs[0], text, ""
		}
		if len(decs) == 0 && src != nil {
			if s := soleStore(a); s == nil {
				return p, nil, Val{}, "the record is stored more than once"
			}
			// a copy of another record
			w := *src
			for k := 0; k < 10; k++ {
				if ld, ok := w.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
					w = Val{w.ctx, ld.X}
					break
				}
				x := g.resolve(w)
				if x == w {
					break
				}
				w = x
			}
			if w == *src {
				return p, nil, Val{}, "the record is not a decoded one"
			}
			p = w
			continue
		}
		return p, nil, Val{}, "the record is not decoded exactly once"
	}
	return p, nil, Val{}, "the record is not followed"
}

func textOf(g *G, v Val) Val {
	for d := 0; d < 10; d++ {
		v = g.resolve(v)
		if c, ok := v.v.(*ssa.Convert); ok {
			v = Val{v.ctx, c.X}
			continue
		}
		break
	}
	return v
}

func decoded(g *G, dec *Node, st *FSet) bool {
	c := dec.instr.(*ssa.Call)
	cv := Val{dec.ctx, c}
	return outcome(g, st, cv, 0, "nil") || g.hasIn(st, mkFact("isnil", g.objkey(cv)))
}

// tableLoops: the loops over what was read from the table; each with its body's first edges, its header and its elements.
type tableLoop struct {
	ctx    *Ctx
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	isElem func(v Val) bool // the stored text (or, for keys, the key)
	isKey  func(v Val) bool
	body   *ssa.BasicBlock
}

func tableLoops(g *G, isRead func(Val) bool) (out []tableLoop) {
	for _, c := range g.ctxs {
		if c.fn == nil {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, ins := range b.Instrs {
				nx, ok := ins.(*ssa.Next)
				if !ok {
					continue
				}
				rg, ok := nx.Iter.(*ssa.Range)
				if !ok || !isRead(Val{c, rg.X}) {
					continue
				}
				ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				if ex, ok := ifi.Cond.(*ssa.Extract); !ok || ex.Tuple != ssa.Value(nx) {
					continue
				}
				bl := naturalLoop(b)
				if bl == nil {
					continue
				}
				ext := func(idx int) func(v Val) bool {
					return func(v Val) bool {
						v = g.resolve(v)
						ex, ok := v.v.(*ssa.Extract)
						if ok && v.ctx == c && ex.Tuple == ssa.Value(nx) && ex.Index == idx {
							return true
						}
						if lk, ok := v.v.(*ssa.Lookup); ok && idx == 2 && isRead(Val{v.ctx, lk.X}) {
							k := g.resolve(Val{v.ctx, lk.Index})
							ex, ok := k.v.(*ssa.Extract)
							return ok && k.ctx == c && ex.Tuple == ssa.Value(nx) && ex.Index == 1
						}
						return false
					}
				}
				out = append(out, tableLoop{c, b, bl, ext(2), ext(1), b.Succs[0]})
			}
			if li := indexLoop(b); li != nil && li.src != nil && isRead(Val{c, li.src}) {
				li := li
				el := func(v Val) bool {
					v = g.resolve(v)
					ld, ok := v.v.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						return false
					}
					ia, ok := ld.X.(*ssa.IndexAddr)
					return ok && v.ctx == c && ia.Index == li.idx && g.resolve(Val{c, ia.X}) == g.resolve(Val{c, li.src})
				}
				out = append(out, tableLoop{c, b, li.blocks, el, el, li.body})
			}
		}
	}
	return
}

// inside: the node is executed within an iteration of the loop (in its function or in one called from it).
func (l tableLoop) inside(c *Ctx, b *ssa.BasicBlock) bool {
	for c != nil {
		if c == l.ctx {
			return l.blocks[b]
		}
		if c.site == nil {
			return false
		}
		b = c.site.Block()
		c = c.parent
	}
	return false
}

// skipped: an iteration can end, or the handler succeed, without passing one of the wanted edges.
func (l tableLoop) skipped(g *G, start *Node, wanted func(e *Edge) bool, isOK func(Val) bool) string {
	hd := l.ctx.first[l.header]
	bd := l.ctx.first[l.body]
	if hd == nil || bd == nil {
		return "the loop is not followed"
	}
	bad := ""
	answersFrom(g, []*Node{bd}, wanted, func(m *Node) bool {
		if m == hd {
			bad = "an entry is passed over"
		}
		return m == hd
	}, func(at *Node, a *answering, v Val) {})
	answersFrom(g, []*Node{bd}, nil, func(m *Node) bool { return m == hd }, func(at *Node, a *answering, v Val) {
		if isOK(v) && bad == "" {
			bad = "success is answered before the last entry"
		}
	})
	if bad != "" {
		return bad
	}
	answersFrom(g, []*Node{start}, nil, func(m *Node) bool { return m == hd }, func(at *Node, a *answering, v Val) {
		if isOK(v) {
			bad = "success is answered without going through the entries"
		}
	})
	return bad
}

func listed(r *Run, g *G, con string, p Val, at, start *Node, isRead, isOK func(Val) bool) {
	loops := tableLoops(g, isRead)
	if len(loops) != 1 {
		r.ob("all-listed", con, false, g.where(at), "there is not one loop over the entries of the table")
		return
	}
	l := loops[0]
	// everything the list is made of
	var apps []*ssa.Call
	appCtx := map[*ssa.Call]*Ctx{}
	seen := map[Val]bool{}
	why := ""
	var walk func(v Val)
	walk = func(v Val) {
		for _, ov := range g.origins(v) {
			if seen[ov] {
				continue
			}
			seen[ov] = true
			switch x := ov.v.(type) {
			case *ssa.Const, *ssa.MakeSlice:
				if ms, ok := x.(*ssa.MakeSlice); ok {
					if c, ok := ms.Len.(*ssa.Const); !ok || c.Int64() != 0 {
						why = "the list starts with records that were not in the table"
					}
				}
				continue
			case *ssa.Slice:
				if vs, ok := variadic(g, ov); ok && len(vs) == 0 {
					continue
				}
				if al, ok := x.X.(*ssa.Alloc); ok {
					if pt, ok := al.Type().Underlying().(*types.Pointer); ok {
						if at, ok := pt.Elem().Underlying().(*types.Array); ok && (at.Len() == 0 || x.High != nil && isZeroConst(x.High)) {
							continue
						}
					}
				}
			case *ssa.Call:
				if old, els, _, ok := appendedTo(g, ov); ok && len(els) > 0 {
					apps = append(apps, x)
					appCtx[x] = ov.ctx
					for _, el := range els {
						an := g.nodeOf(ov.ctx, x)
						if an == nil {
							continue
						}
						rec, dec, text, w := recordOf(g, el)
						switch {
						case w != "":
							why = w
						case !decoded(g, dec, an.in):
							why = "a record that could not be decoded is listed"
						case !l.isElem(textOf(g, text)):
							why = "a listed record is not the entry the loop is at"
						case !l.inside(rec.ctx, rec.v.(*ssa.Alloc).Block()):
							why = "all entries are listed as one and the same record"
						}
					}
					if len(els) != 1 {
						why = "an entry is listed more than once"
					}
					walk(old)
					continue
				}
			}
			why = "the list is not made by appending records"
		}
	}
	walk(p)
	r.ob("returned", con, why == "", g.where(at), why)
	// each entry appended once, or found undecodable
	wanted := func(e *Edge) bool {
		for _, a := range apps {
			if e.from.instr == ssa.Instruction(a) && e.from.ctx == appCtx[a] {
				return true
			}
		}
		st := e.to
		_ = st
		es := g.edgeOut(e)
		if es.top {
			return true
		}
		for _, f := range es.list(g) {
			if f.pred != "ret0=nonnil" && f.pred != "nonnil" {
				continue
			}
			for i := range f.args {
				if cv, ok := g.factVal(&f, i); ok {
					if c, ok := cv.v.(*ssa.Call); ok {
						nm := g.u.CalleeName(c)
						if nm == "encoding/json.Unmarshal" || strings.HasSuffix(nm, ".UnmarshalBinary") || strings.HasSuffix(nm, "swag.ReadJSON") {
							return true
						}
					}
				}
			}
		}
		return false
	}
	why = l.skipped(g, start, wanted, isOK)
	if len(apps) > 1 && why == "" {
		for _, a := range apps {
			for _, b := range apps {
				if a != b && followsInIteration(g, l, a, appCtx[a], b, appCtx[b]) {
					why = "an entry is listed more than once"
				}
			}
		}
	}
	r.ob("all-listed", con, why == "", g.where(at), why)
}

func followsInIteration(g *G, l tableLoop, a *ssa.Call, ca *Ctx, b *ssa.Call, cb *Ctx) bool {
	na, nb := g.nodeOf(ca, a), g.nodeOf(cb, b)
	if na == nil || nb == nil {
		return false
	}
	hd := l.ctx.first[l.header]
	hit := false
	seen := map[*Node]bool{na: true}
	st := []*Node{na}
	for len(st) > 0 {
		m := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range m.succs {
			if e.to == hd || seen[e.to] || !g.reachable(e.to) {
				continue
			}
			seen[e.to] = true
			if e.to == nb {
				hit = true
			}
			st = append(st, e.to)
		}
	}
	return hit
}

func (g *G) nodeOf(c *Ctx, ins ssa.Instruction) *Node {
	for _, n := range g.nodes {
		if n.ctx == c && n.instr == ins && !n.after {
			return n
		}
	}
	return nil
}

func deleted(r *Run, g *G, con string, cmds []redisCmd, start *Node, succeeded func(*FSet, *Node) bool, isRead, isOK func(Val) bool) {
	loops := tableLoops(g, isRead)
	if len(loops) != 1 {
		r.ob("all-deleted", con, false, "-", "there is not one loop over the entries of the table")
		return
	}
	l := loops[0]
	why := ""
	n := 0
	var lists []Val
	for _, c := range cmds {
		if c.op != "HDel" {
			continue
		}
		n++
		vs, ok := variadic(g, c.args[3])
		if ok {
			if len(vs) != 1 || !l.isKey(vs[0]) {
				why = "the entry deleted is not the one the loop is at"
			}
		} else {
			lists = append(lists, c.args[3])
		}
	}
	if n == 0 {
		why = "nothing is deleted"
	}
	wanted := func(e *Edge) bool {
		for _, c := range cmds {
			if c.op == "HDel" && succeeded(g.edgeOut(e), c.n) {
				return true
			}
		}
		return false
	}
	if len(lists) == 1 && n == 1 && why == "" {
		// the keys are collected first
		var apps []Val
		seen := map[Val]bool{}
		var walk func(v Val)
		walk = func(v Val) {
			for _, ov := range g.origins(v) {
				if seen[ov] {
					continue
				}
				seen[ov] = true
				switch ov.v.(type) {
				case *ssa.Const, *ssa.MakeSlice:
					continue
				case *ssa.Call:
					if old, els, _, ok := appendedTo(g, ov); ok && len(els) == 1 && l.isKey(els[0]) {
						apps = append(apps, ov)
						walk(old)
						continue
					}
				}
				why = "the entries deleted are not those of the table"
			}
		}
		walk(lists[0])
		wanted = func(e *Edge) bool {
			for _, a := range apps {
				if e.from.instr == ssa.Instruction(a.v.(*ssa.Call)) && e.from.ctx == a.ctx {
					return true
				}
			}
			return false
		}
		if why == "" {
			bad := ""
			answersFrom(g, []*Node{start}, func(e *Edge) bool {
				// an empty table needs no command
				x, empty, ok := lenEdge(e)
				if !ok || !empty {
					return false
				}
				v := Val{e.from.ctx, x}
				return g.resolve(v) == g.resolve(lists[0]) || isRead(v)
			}, func(m *Node) bool {
				for _, c := range cmds {
					if c.op == "HDel" && c.n == m {
						return true
					}
				}
				return false
			}, func(at *Node, _ *answering, v Val) {
				if isOK(v) {
					bad = "success is answered without deleting"
				}
			})
			why = bad
		}
	}
	if why == "" {
		why = l.skipped(g, start, wanted, isOK)
	}
	r.ob("all-deleted", con, why == "", "-", why)
}

// ---- generated code -------------------------------------------------------------------------------------------

func routes(r *Run, u *Universe) {
	// the description
	type opn struct {
		OperationID string `json:"operationId"`
	}
	want := map[string]string{}
	for _, f := range u.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != repoPrefix+"register/restapi" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(c.Value)
					if !strings.Contains(s, "operationId") {
						continue
					}
					var d struct {
						Paths map[string]map[string]json.RawMessage `json:"paths"`
					}
					if json.Unmarshal([]byte(s), &d) != nil {
						continue
					}
					for p, ms := range d.Paths {
						for m, raw := range ms {
							var o opn
							if json.Unmarshal(raw, &o) == nil && o.OperationID != "" {
								k := strings.ToUpper(m) + " " + strings.TrimSuffix(p, "/")
								if w, ok := want[k]; ok && w != o.OperationID {
									r.ob("routed", k, false, u.Pos(ins.Pos()), "the two descriptions disagree")
								}
								want[k] = o.OperationID
							}
						}
					}
				}
			}
		}
	}
	if len(want) == 0 {
		r.ob("routed", "description", false, "-", "the description of the API was not found")
		return
	}
	got := map[string]bool{}
	for _, f := range u.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != repoPrefix+"register/restapi/operations" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				path, ok := mu.Key.(*ssa.Const)
				if !ok || path.Value == nil || path.Value.Kind() != constant.String {
					continue
				}
				lk, ok := mu.Map.(*ssa.Lookup)
				if !ok {
					continue
				}
				meth, ok := lk.Index.(*ssa.Const)
				if !ok || meth.Value == nil {
					continue
				}
				k := constant.StringVal(meth.Value) + " " + constant.StringVal(path.Value)
				op, kind := "", ""
				if mi, ok := mu.Value.(*ssa.MakeInterface); ok {
					s := typeFull(mi.X.Type())
					if p, ok := mi.X.Type().(*types.Pointer); ok {
						s = typeFull(p.Elem())
					}
					op = baseOfName(s)
					kind = strings.TrimSuffix(strings.TrimPrefix(s, regOps), "."+op)
				}
				good := want[k] != "" && strings.EqualFold(want[k], op)
				if strings.Contains(k, "/registers/") {
					good = good && strings.HasPrefix(strings.SplitN(k, "/registers/", 2)[1], kind)
				}
				got[k] = true
				r.ob("routed", k, good, u.Pos(ins.Pos()), "the request leads to "+op+" and not to "+want[k])
			}
		}
	}
	for k, w := range want {
		if !got[k] {
			r.ob("routed", k, false, "-", "no request leads to "+w)
		}
	}
}

func generated(r *Run, u *Universe) {
	for _, f := range u.Funcs {
		full := FuncFull(f)
		if !strings.HasPrefix(full, regOps) || f.Signature.Recv() == nil || f.Blocks == nil || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		recv := f.Params[0]
		con := strings.TrimPrefix(full, regOps)
		switch baseOfName(full) {
		case "WithPayload", "SetPayload":
			good := false
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Payload" && fa.X == ssa.Value(recv) {
							good = s.Val == ssa.Value(f.Params[1]) && len(f.Blocks) == 1
						}
					}
					if rt, ok := ins.(*ssa.Return); ok && len(rt.Results) == 1 && rt.Results[0] != ssa.Value(recv) {
						good = false
					}
				}
			}
			r.ob("payload-kept", con, good, u.Pos(f.Pos()), "the payload given is not what the response holds")
		case "WriteResponse":
			writeResponse(r, u, f, con)
		case "BindRequest":
			bindRequest(r, u, f, con)
		case "Handle":
			if len(f.Params) == 2 {
				good := false
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if c, ok := ins.(*ssa.Call); ok && c.Call.Value == ssa.Value(recv) && len(c.Call.Args) == 1 {
							good = true
							if p := g1(u, f, c.Call.Args[0]); p != ssa.Value(f.Params[1]) {
								good = false
							}
						}
					}
				}
				r.ob("bound", con, good, u.Pos(f.Pos()), "the handler is not called with the parameters of the request")
			}
		}
	}
}

// g1: a value within one function, through local copies.
func g1(u *Universe, f *ssa.Function, v ssa.Value) ssa.Value {
	g := NewG(u, f, &Config{Opaque: func(string, *ssa.Function) bool { return true }})
	return g.resolve(Val{g.root, v}).v
}

func writeResponse(r *Run, u *Universe, f *ssa.Function, con string) {
	g := NewG(u, f, &Config{Opaque: func(string, *ssa.Function) bool { return true }})
	g.Solve()
	ok := strings.Contains(con, "OK.")
	var status, produce []*Node
	for _, n := range g.nodes {
		c, isC := n.instr.(ssa.CallInstruction)
		if !isC || n.after || !g.reachable(n) {
			continue
		}
		nm := u.CalleeName(c)
		if strings.HasSuffix(nm, ".WriteHeader") {
			status = append(status, n)
		}
		if strings.HasSuffix(nm, ".Produce") {
			produce = append(produce, n)
		}
	}
	why := ""
	if len(status) != 1 {
		why = "the status is not written exactly once"
	} else {
		as := args(status[0].instr.(ssa.CallInstruction))
		v := g.resolve(Val{g.root, as[len(as)-1]})
		if ok {
			if c, isC := v.v.(*ssa.Const); !isC || c.Value == nil || c.Int64() != 200 {
				why = "success is not given the status 200"
			}
		} else if !ownField(g, v, "_statusCode") {
			why = "the status is not the one the response was given"
		}
	}
	if len(produce) != 1 && why == "" {
		why = "the payload is not written exactly once"
	}
	if why == "" {
		as := args(produce[0].instr.(ssa.CallInstruction))
		good := 0
		for _, ov := range g.origins(Val{g.root, unwrap(as[len(as)-1])}) {
			switch x := ov.v.(type) {
			case *ssa.MakeSlice:
				if c, isC := x.Len.(*ssa.Const); !isC || c.Int64() != 0 {
					why = "something else than the payload is written"
				}
			case *ssa.Slice:
				if x.High == nil || !isZeroConst(x.High) {
					why = "something else than the payload is written"
				}
			default:
				if ownField(g, ov, "Payload") {
					good++
				} else {
					why = "something else than the payload is written"
				}
			}
		}
		if good == 0 && why == "" {
			why = "something else than the payload is written"
		}
		// a success always has its payload written
		if why == "" && ok {
			for _, n := range g.nodes {
				if _, isR := n.instr.(*ssa.Return); isR && g.reachable(n) && f.Recover != n.instr.Block() {
					if !passesBack(g, n, func(m *Node) bool { return m == produce[0] }, nil) && !payloadNil(g, n) {
						why = "the payload is left out on some way"
					}
				}
			}
		}
	}
	r.ob("payload-kept", con, why == "", u.Pos(f.Pos()), why)
}

// ownField: the value is that field of the receiver.
func ownField(g *G, v Val, field string) bool {
	p, f := fieldPath(g, v)
	return p == (Val{g.root, g.entry.Params[0]}) && f == field
}

// payloadNil: every way to the node that does not write it has found the payload nil.
func payloadNil(g *G, n *Node) bool {
	seen := map[*Node]bool{}
	ok := true
	k := strings.TrimLeft(g.key(Val{g.root, g.entry.Params[0]}).s, "*") + ".Payload"
	var walk func(m *Node)
	walk = func(m *Node) {
		if seen[m] || !ok {
			return
		}
		seen[m] = true
		if c, isC := m.instr.(ssa.CallInstruction); isC && strings.HasSuffix(g.u.CalleeName(c), ".Produce") {
			return
		}
		if len(m.preds) == 0 {
			ok = false
			return
		}
		for _, e := range m.preds {
			es := g.edgeOut(e)
			if es.top {
				continue
			}
			found := false
			for _, f := range es.list(g) {
				if f.pred == "isnil" && len(f.args) == 1 && f.args[0] == k {
					found = true
				}
			}
			if !found {
				walk(e.from)
			}
		}
	}
	walk(n)
	return ok
}

func bindRequest(r *Run, u *Universe, f *ssa.Function, con string) {
	pt, ok := f.Params[0].Type().(*types.Pointer)
	if !ok {
		return
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	g := NewG(u, f, &Config{Opaque: func(name string, h *ssa.Function) bool { return !strings.Contains(name, regOps) }})
	g.Solve()
	exits := g.successExits()
	self := g.key(Val{g.root, f.Params[0]}).s
	for i := 0; i < st.NumFields(); i++ {
		fld := st.Field(i).Name()
		if fld == "HTTPRequest" {
			continue
		}
		var stores []*Node
		why := ""
		for _, n := range g.nodes {
			s, ok := n.instr.(*ssa.Store)
			if !ok || !g.reachable(n) {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != fld || g.key(g.resolve(Val{n.ctx, fa.X})).s != self {
				continue
			}
			stores = append(stores, n)
			for _, ov := range g.origins(Val{n.ctx, s.Val}) {
				if why == "" {
					why = boundFrom(g, n, ov, fld)
				}
			}
		}
		if len(stores) == 0 {
			why = "the parameter is never bound"
		}
		if why == "" {
			for x := range exits {
				if !passesBackEither(g, x, stores) {
					why = "the request is accepted on some way without the parameter"
				}
			}
		}
		r.ob("bound", con+": "+fld, why == "", u.Pos(f.Pos()), why)
	}
}

// passesBackEither: every feasible way to the exit that returns no error passes one of the nodes, or a place where an
// error was noted (appended to the list that decides the outcome).
func passesBackEither(g *G, exit *Node, nodes []*Node) bool {
	seen := map[*Node]bool{}
	ok := true
	var walk func(m *Node)
	walk = func(m *Node) {
		if seen[m] || !ok {
			return
		}
		seen[m] = true
		for _, n := range nodes {
			if n == m {
				return
			}
		}
		if c, isC := m.instr.(*ssa.Call); isC && g.u.CalleeName(c) == "builtin.append" {
			return
		}
		if len(m.preds) == 0 {
			ok = false
			return
		}
		for _, e := range m.preds {
			if g.edgeOut(e).top || notesError(e) {
				continue
			}
			walk(e.from)
		}
	}
	walk(exit)
	return ok
}

// lenEdge: the edge is a branch on whether a list is empty: the list, and whether it is on this edge.
func lenEdge(e *Edge) (list ssa.Value, empty, ok bool) {
	if e.fromBlk == nil || e.to.instr == nil || len(e.fromBlk.Succs) != 2 || e.fromBlk.Succs[0] == e.fromBlk.Succs[1] {
		return
	}
	ifi, isIf := e.fromBlk.Instrs[len(e.fromBlk.Instrs)-1].(*ssa.If)
	if !isIf {
		return
	}
	b, isB := ifi.Cond.(*ssa.BinOp)
	if !isB || !isZeroConst(b.Y) {
		return
	}
	c, isC := b.X.(*ssa.Call)
	if !isC || len(c.Call.Args) != 1 {
		return
	}
	if bi, isBi := c.Call.Value.(*ssa.Builtin); !isBi || bi.Name() != "len" {
		return
	}
	onTrue := e.to.instr.Block() == e.fromBlk.Succs[0]
	switch b.Op {
	case token.EQL, token.LEQ:
		return c.Call.Args[0], onTrue, true
	case token.NEQ, token.GTR:
		return c.Call.Args[0], !onTrue, true
	}
	return
}

// notesError: the branch taken when a list of errors is not empty.
func notesError(e *Edge) bool {
	l, empty, ok := lenEdge(e)
	if !ok || empty {
		return false
	}
	sl, ok := l.Type().Underlying().(*types.Slice)
	return ok && isErrorType(sl.Elem())
}

func boundFrom(g *G, n *Node, v Val, fld string) string {
	switch x := v.v.(type) {
	case *ssa.Alloc: // a body
		for _, m := range g.nodes {
			c, ok := m.instr.(*ssa.Call)
			if !ok || m.after || !strings.HasSuffix(g.u.CalleeName(c), ".Consume") {
				continue
			}
			as := args(c)
			t := g.resolve(Val{m.ctx, unwrap(as[len(as)-1])})
			t.v = unwrap(t.v)
			if t.v == ssa.Value(x) {
				if s := soleStore(x); s != nil && !isZeroConst(s.Val) {
					return "the body is replaced"
				}
				cv := Val{m.ctx, c}
				if outcome(g, n.in, cv, 0, "nil") || g.hasIn(n.in, mkFact("isnil", g.objkey(cv))) {
					return ""
				}
				return "the body may not have been read"
			}
		}
		return "the value bound is not the body read"
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "" {
			return ""
		}
		return "a constant is bound"
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			src := g.resolve(Val{v.ctx, ia.X})
			c, i := callOf(src)
			if c != nil && i == 0 && strings.HasSuffix(g.u.CalleeName(c), ".GetOK") {
				as := args(c)
				k := g.resolve(Val{src.ctx, as[len(as)-1]})
				if kc, ok := k.v.(*ssa.Const); ok && kc.Value != nil && strings.EqualFold(constant.StringVal(kc.Value), fld) {
					return ""
				}
				return "another part of the path is bound"
			}
		}
	}
	return "what is bound is not taken from the request"
}

// models: the JSON names of registrations, and their encoding.
func models(r *Run, u, common *Universe) {
	names := map[string]map[string]string{} // model -> JSON name -> field
	for _, sp := range u.Pkgs {
		if sp.Pkg.Path() != repoPrefix+"register/models" {
			continue
		}
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok || !strings.HasSuffix(tm.Name(), "Register") {
				continue
			}
			st, ok := tm.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			ns := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				nm := wireNameOf(st.Tag(i), f.Name())
				why := ""
				if nm == "-" || !f.Exported() {
					why = "the field is not part of the JSON form"
				} else if other, dup := ns[nm]; dup {
					why = "the name is also that of " + other
				} else if !strings.EqualFold(nm, f.Name()) {
					why = "the JSON name " + nm + " is that of something else"
				}
				ns[nm] = f.Name()
				r.ob("wire-names", tm.Name()+"."+f.Name(), why == "", u.Pos(f.Pos()), why)
			}
			names[tm.Name()] = ns
		}
	}
	if common != nil {
		for _, sp := range common.Pkgs {
			if sp.Pkg.Path() != repoPrefix+"common/pkg/register" {
				continue
			}
			for _, m := range sp.Members {
				tm, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				st, ok := tm.Type().Underlying().(*types.Struct)
				if !ok || !strings.HasPrefix(strings.ToLower(tm.Name()), "gateway") && !strings.HasPrefix(strings.ToLower(tm.Name()), "provider") {
					continue
				}
				model := "GatewayRegister"
				if strings.HasPrefix(strings.ToLower(tm.Name()), "provider") {
					model = "ProviderRegister"
				}
				used := 0
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if st.Tag(i) == "" {
						continue
					}
					used++
					nm := wireNameOf(st.Tag(i), f.Name())
					g, ok := names[model][nm]
					r.ob("wire-names", "common "+tm.Name()+"."+f.Name(), ok && strings.EqualFold(g, f.Name()), common.Pos(f.Pos()), "the register has no such field under the name "+nm)
				}
				if used > 0 {
					for nm, fld := range names[model] {
						have := false
						for i := 0; i < st.NumFields(); i++ {
							have = have || wireNameOf(st.Tag(i), st.Field(i).Name()) == nm
						}
						r.ob("wire-names", "common "+tm.Name()+" has "+fld, have, "-", "what the register keeps as "+nm+" is not read by the nodes")
					}
				}
			}
		}
	}
	for _, f := range u.Funcs {
		full := FuncFull(f)
		if !strings.HasPrefix(full, regModels) || f.Signature.Recv() == nil || f.Blocks == nil || !strings.Contains(full, "Register.") {
			continue
		}
		con := strings.TrimPrefix(full, regModels)
		g := NewG(u, f, &Config{Opaque: func(string, *ssa.Function) bool { return true }})
		g.Solve()
		self := Val{g.root, f.Params[0]}
		switch baseOfName(full) {
		case "MarshalBinary":
			why := ""
			for x := range g.successExits() {
				ret := x.instr.(*ssa.Return)
				for _, ov := range g.origins(Val{g.root, ret.Results[0]}) {
					c, i := callOf(ov)
					if isNilConst(ov.v) && g.hasIn(x.in, mkFact("isnil", g.objkey(self))) {
						continue
					}
					if c == nil || i != 0 {
						why = "what is returned is not the encoding of the registration"
						continue
					}
					nm := u.CalleeName(c)
					a := g.resolve(Val{g.root, unwrap(args(c)[0])})
					if !strings.HasSuffix(nm, "swag.WriteJSON") && nm != "encoding/json.Marshal" || a != g.resolve(self) {
						why = "what is returned is not the encoding of the registration"
					}
				}
			}
			r.ob("model-codec", con, why == "", u.Pos(f.Pos()), why)
		case "UnmarshalBinary":
			why := "nothing is decoded into the registration"
			for _, n := range g.nodes {
				s, ok := n.instr.(*ssa.Store)
				if !ok || g.resolve(Val{g.root, s.Addr}) != g.resolve(self) {
					continue
				}
				ld, ok := s.Val.(*ssa.UnOp)
				if !ok {
					why = "what is stored is not what was decoded"
					continue
				}
				_, dec, text, w := recordOf(g, Val{g.root, ld.X})
				why = w
				if w == "" && (!decoded(g, dec, n.in) || g.resolve(text).v != ssa.Value(f.Params[1])) {
					why = "the registration is replaced although the text may not have been decoded"
				}
				for x := range g.successExits() {
					if why == "" && !passesBack(g, x, func(m *Node) bool { return m == n }, nil) {
						why = "success is reported although nothing was decoded"
					}
				}
			}
			r.ob("model-codec", con, why == "", u.Pos(f.Pos()), why)
		}
	}
}

func wireNameOf(tag, field string) string {
	t := reflect.StructTag(tag).Get("json")
	n := strings.Split(t, ",")[0]
	if n == "" {
		return field
	}
	return n
}

func isNamed(t types.Type) bool { _, ok := t.(*types.Named); return ok }
