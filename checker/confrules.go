package main

// P26: configuration reaches the setting it is named after.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tAppSettings = ".AppSettings"

// text: a string expression as text, with $NAME for the configuration variable NAME.
func (g *G) text(v Val, d int) string {
	os := g.origins(v)
	if len(os) != 1 || d > 12 {
		return "?several values"
	}
	v = g.resolve(os[0])
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value)
		}
		if x.Value != nil {
			return x.Value.ExactString()
		}
	case *ssa.MakeInterface:
		return g.text(Val{v.ctx, x.X}, d+1)
	case *ssa.ChangeType:
		return g.text(Val{v.ctx, x.X}, d+1)
	case *ssa.Convert:
		return g.text(Val{v.ctx, x.X}, d+1)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return g.text(Val{v.ctx, x.X}, d+1) + g.text(Val{v.ctx, x.Y}, d+1)
		}
	case *ssa.Call:
		if t, ok := g.textCall(v.ctx, x, d); ok {
			return t
		}
		return "?" + g.u.CalleeName(x)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return "?" + g.u.CalleeName(c)
		}
	}
	return "?" + shortInstr(v.v)
}

func viperGet(name string) string {
	if i := strings.Index(name, "spf13/viper."); i >= 0 {
		if j := strings.LastIndex(name, ".Get"); j > i {
			return name[j+4:]
		}
	}
	if name == "os.Getenv" {
		return "String"
	}
	return ""
}

func (g *G) textCall(c *Ctx, x *ssa.Call, d int) (string, bool) {
	name := g.u.CalleeName(x)
	as := args(x)
	if k := viperGet(name); k != "" {
		if ks, ok := constString(g, Val{c, as[len(as)-1]}, 0); ok && len(ks) == 1 {
			return "$" + strings.ToUpper(ks[0]), true
		}
		return "?a variable that cannot be read off", true
	}
	switch name {
	case "strings.TrimSpace":
		return g.text(Val{c, as[0]}, d+1), true
	case "net.JoinHostPort":
		return g.text(Val{c, as[0]}, d+1) + ":" + g.text(Val{c, as[1]}, d+1), true
	case "path.Join", "path/filepath.Join":
		if els := varargs(as[0]); els != nil {
			var ss []string
			for _, e := range els {
				ss = append(ss, g.text(Val{c, e}, d+1))
			}
			return strings.Join(ss, "/"), true
		}
	case "fmt.Sprintf":
		f, ok := constString(g, Val{c, as[0]}, 0)
		els := varargs(as[1])
		if !ok || len(f) != 1 {
			return "", false
		}
		out, i := "", 0
		for j := 0; j < len(f[0]); j++ {
			if f[0][j] != '%' {
				out += string(f[0][j])
				continue
			}
			j++
			if j >= len(f[0]) || !strings.Contains("svd", string(f[0][j])) || i >= len(els) {
				return "", false
			}
			out += g.text(Val{c, els[i]}, d+1)
			i++
		}
		return out, i == len(els)
	}
	return "", false
}

func settingsStruct(t types.Type) (*types.Named, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || !strings.HasSuffix(typeFull(t), tAppSettings) {
		return nil, nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}

// outcome: result idx of the call is known to be r (nil, nonnil, true, false).
func outcome(g *G, st *FSet, cv Val, idx int, r string) bool {
	return g.hasIn(st, mkFact(fmt.Sprintf("ret%d=%s", idx, r), Key{s: g.token(cv), roots: []Val{cv}}))
}

type settingValue struct {
	g        *G
	field    string
	tag      string
	typ      types.Type
	defaults map[string]bool // defaults seen
	parsed   int
}

// check: the value that reaches the setting on one way; "" if it is right.
func (s *settingValue) check(st *FSet, v Val) string {
	g := s.g
	want := "$" + s.tag
	v0 := v
	for {
		if c, ok := v.v.(*ssa.Convert); ok {
			v = g.resolve(Val{v.ctx, c.X})
			continue
		}
		if c, ok := v.v.(*ssa.ChangeType); ok {
			v = g.resolve(Val{v.ctx, c.X})
			continue
		}
		break
	}
	c, idx := callOf(v)
	name := ""
	if c != nil {
		name = g.u.CalleeName(c)
	}
	// the parse call whose failure allows the default
	failed := func() bool {
		for _, f := range st.list(g) {
			var i int
			var res string
			if n, _ := fmt.Sscanf(f.pred, "ret%d=%s", &i, &res); n == 2 && (res == "nonnil" || res == "false") {
				if cv, ok := g.factVal(&f, 0); ok {
					if pc, ok := cv.v.(*ssa.Call); ok && parserOf(g.u.CalleeName(pc)) != "" {
						if pa := s.parsedText(cv.ctx, pc); pa == want {
							return true
						}
					}
				}
			}
		}
		return false
	}
	switch typeFull(s.typ) {
	case "time.Duration":
		if k, ok := v.v.(*ssa.Const); ok {
			if k.Value == nil || constant.Sign(k.Value) <= 0 {
				return "it may be a default that is not positive"
			}
			s.defaults[k.Value.ExactString()] = true
			if !failed() {
				return "the default replaces it although " + s.tag + " was not found to be unparsable"
			}
			return ""
		}
		if name == "time.ParseDuration" && idx == 0 {
			if t := g.text(Val{v.ctx, args(c)[0]}, 0); t != want {
				return "it is parsed from " + t + ", not from " + want
			}
			if !outcome(g, st, Val{v.ctx, c}, 1, "nil") {
				return "the result of a failed parse (zero) may be taken"
			}
			s.parsed++
			return ""
		}
		return "it does not come from parsing " + want + " (" + g.text(v0, 0) + ")"
	case "math/big.Int":
		if name == "math/big.NewInt" {
			k, ok := g.resolve(Val{v.ctx, args(c)[0]}).v.(*ssa.Const)
			if !ok || k.Value == nil || constant.Sign(k.Value) <= 0 {
				return "the default is not a positive constant"
			}
			s.defaults[k.Value.ExactString()] = true
			if !failed() {
				return "the default replaces it although " + s.tag + " was not found to be unparsable"
			}
			return ""
		}
		if name == "math/big.Int.SetString" && idx == 0 {
			if t := g.text(Val{v.ctx, args(c)[1]}, 0); t != want {
				return "it is parsed from " + t + ", not from " + want
			}
			if !outcome(g, st, Val{v.ctx, c}, 1, "true") {
				return "the result of a failed parse may be taken"
			}
			s.parsed++
			return ""
		}
		if al, ok := v.v.(*ssa.Alloc); ok {
			// new(big.Int) filled by a call: whole-text parsers only
			for _, n := range g.nodes {
				pc, ok := n.instr.(*ssa.Call)
				if !ok || n.after {
					continue
				}
				pn := g.u.CalleeName(pc)
				switch {
				case pn == "math/big.Int.SetString" && g.resolve(Val{n.ctx, args(pc)[0]}) == (Val{v.ctx, al}):
					if t := g.text(Val{n.ctx, args(pc)[1]}, 0); t != want {
						return "it is parsed from " + t + ", not from " + want
					}
					if !outcome(g, st, Val{n.ctx, pc}, 1, "true") {
						return "the result of a failed parse may be taken"
					}
					s.parsed++
					return ""
				case strings.HasPrefix(pn, "fmt.Sscan"):
					if els := varargs(args(pc)[len(args(pc))-1]); len(els) == 1 {
						e := g.resolve(Val{n.ctx, els[0]})
						if mi, ok := e.v.(*ssa.MakeInterface); ok {
							e = g.resolve(Val{e.ctx, mi.X})
						}
						if e == (Val{v.ctx, al}) {
							return "it is scanned, which accepts a text of which only a prefix is a number (0.001 is read as 0)"
						}
					}
				}
			}
			return "it may be a number to which nothing was assigned (zero)"
		}
		return "it does not come from parsing " + want
	}
	b, ok := s.typ.Underlying().(*types.Basic)
	if !ok {
		return "a setting of a kind for which no rule exists"
	}
	switch {
	case b.Kind() == types.String:
		t := g.text(v0, 0)
		if t == want {
			s.parsed++
			return ""
		}
		if r := networkRole(s.field); r != "" {
			for _, w := range []string{"$IP:$BIND_" + r + "_API", "$IP:$" + s.tag} {
				if t == w {
					s.parsed++
					return ""
				}
			}
			return "it is " + t + " and not the node's address with the port of the " + strings.ToLower(r) + " interface"
		}
		return "it is " + t + " and not " + want
	case b.Info()&types.IsInteger != 0 && (name == "strconv.ParseUint" || name == "strconv.ParseInt" || name == "strconv.Atoi"):
		if idx != 0 {
			return "it is not the parsed number"
		}
		if t := g.text(Val{v.ctx, args(c)[0]}, 0); t != want {
			return "it is parsed from " + t + ", not from " + want
		}
		if !outcome(g, st, Val{v.ctx, c}, 1, "nil") {
			return "the result of a failed parse (zero) may be taken"
		}
		bits := int64(64)
		if len(args(c)) == 3 {
			if k, ok := g.resolve(Val{v.ctx, args(c)[2]}).v.(*ssa.Const); ok {
				bits = k.Int64()
			}
			if bits == 0 {
				bits = 64
			}
		}
		if int(bits) > intBits(b) {
			return "a number that does not fit is cut off"
		}
		s.parsed++
		return ""
	case c != nil && viperGet(name) != "":
		t := g.text(v, 0)
		if t != want {
			return "it is " + t + " and not " + want
		}
		if v0 != v {
			return "a number that does not fit is cut off"
		}
		s.parsed++
		return ""
	}
	return "it is " + g.text(v0, 0) + " and not " + want
}

func parserOf(name string) string {
	switch name {
	case "time.ParseDuration", "math/big.Int.SetString", "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		return name
	}
	return ""
}

func (s *settingValue) parsedText(c *Ctx, pc *ssa.Call) string {
	as := args(pc)
	i := 0
	if s.g.u.CalleeName(pc) == "math/big.Int.SetString" {
		i = 1
	}
	return s.g.text(Val{c, as[i]}, 0)
}

// list: the facts of a set.
func (s *FSet) list(g *G) []Fact {
	var out []Fact
	for id := range s.m {
		out = append(out, g.facts[id])
	}
	return out
}

// networkRole: for a setting that advertises the address of one of the node's interfaces, which one.
func networkRole(field string) string {
	if !strings.HasPrefix(field, "NetworkInfo") {
		return ""
	}
	switch r := strings.ToUpper(strings.TrimPrefix(field, "NetworkInfo")); r {
	case "CLIENT":
		return "REST"
	default:
		return r
	}
}

func init() {
	register("P26", "The functions that build the nodes' settings are expanded with their helpers and solved for must-facts; every store to a setting is an obligation on every way the value may come from (variable read, text parsed, error outcome). The start-up code is expanded in the same way and the arguments of every component it makes are traced to the settings. The libraries' builders, Build functions and getters are compared field by field.",
		[]string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin", "register"}, func(r *Run) {
			r.rule("setting-from-variable", "a setting is filled from the variable of its tag and from no other; a parsed number or duration is the whole text, and when it cannot be parsed it is the positive default and never zero")
			r.rule("setting-filled", "every setting is filled on every way the settings are returned")
			r.rule("same-default", "gateway and provider use one default for one variable")
			r.rule("component-setting", "register manager, servers, handlers and requests use the setting that is meant for them")
			r.rule("library-setting", "a value given to a library's settings builder reaches the setting of that name, and only that one; the getter returns it")
			r.rule("request-argument", "what the caller of a library gives is sent as the part of the request that has its name; a node is given the key meant for it, by a request signed with the administrator's key")
			r.rule("payment-node", "the payment manager is made with the wallet key, address and token given for it, and uses that address and token")
			r.rule("library-default", "a library setting that has a default is given it")
			r.rule("logging-variable", "the logger is set up from the LOG_ variables of the same meaning")
			r.rule("register-variable", "the register connects to the address and with the password of the REDIS_ variables")
			defs := map[string]map[string]bool{}
			for _, mod := range []string{"gateway", "provider"} {
				settingsRules(r, r.U(mod), mod, defs)
				startRules(r, r.U(mod), mod)
			}
			for tag, vals := range defs {
				r.ob("same-default", "variable "+tag, len(vals) == 1, "-", fmt.Sprintf("the nodes disagree about the default: %v", keysOf(vals)))
			}
			for _, mod := range []string{"client", "gateway-admin", "provider-admin"} {
				builderRules(r, r.U(mod), mod)
				libraryArgs(r, r.U(mod), mod)
			}
			for _, mod := range []string{"gateway", "provider"} {
				u := r.U(mod)
				paymentNode(r, u, &libArgs{u, map[*ssa.Function]*G{}}, codecs(u, nil))
			}
			paymentDial(r, r.U("common"))
			loggingRules(r, r.U("common"))
			redisRules(r, r.U("register"))
			r.floor("setting-from-variable", 45)
			r.floor("setting-filled", 45)
			r.floor("same-default", 6)
			r.floor("component-setting", 30)
			r.floor("library-setting", 60)
			r.floor("request-argument", 10)
			r.floor("payment-node", 9)
			r.floor("logging-variable", 8)
			r.floor("register-variable", 8)
		})
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func settingsRules(r *Run, u *Universe, mod string, defs map[string]map[string]bool) {
	n := 0
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || shortPkg(f.Pkg.Pkg.Path()) != mod+"/config" {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 {
			configured(r, u, f)
			continue
		}
		named, st := settingsStruct(rs.At(0).Type())
		if st == nil {
			configured(r, u, f)
			continue
		}
		n++
		g := NewG(u, f, &Config{Opaque: primitive})
		g.Solve()
		r.count("graph nodes", len(g.nodes))
		var entry *Node
		if len(f.Blocks) > 0 {
			entry = g.root.first[f.Blocks[0]]
		}
		filled := map[int]map[*Node]bool{}
		for i := 0; i < st.NumFields(); i++ {
			filled[i] = map[*Node]bool{}
		}
		for _, nd := range g.nodes {
			s, ok := nd.instr.(*ssa.Store)
			if !ok || !g.reachable(nd) {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			fn, _ := settingsStruct(fa.X.Type())
			if fn != named {
				continue
			}
			filled[fa.Field][nd] = true
			tag := reflect.StructTag(st.Tag(fa.Field)).Get("mapstructure")
			ft := st.Field(fa.Field).Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			sv := &settingValue{g: g, field: st.Field(fa.Field).Name(), tag: strings.ToUpper(tag), typ: ft, defaults: map[string]bool{}}
			why := ""
			g.ways(nd.in, Val{nd.ctx, s.Val}, func(fs *FSet, v Val, leaf bool) bool {
				if !leaf {
					return false
				}
				if w := sv.check(fs, v); w != "" && why == "" {
					why = w
				}
				return true
			})
			if why == "" && sv.parsed == 0 {
				why = "no way gives it the value of " + sv.tag
			}
			r.ob("setting-from-variable", mod+": "+sv.field, why == "", g.where(nd), "setting "+sv.field+": "+why)
			for d := range sv.defaults {
				if defs[sv.tag] == nil {
					defs[sv.tag] = map[string]bool{}
				}
				defs[sv.tag][d] = true
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			ok := len(filled[i]) > 0
			if ok && entry != nil {
				for _, nd := range g.nodes {
					if _, isRet := nd.instr.(*ssa.Return); isRet && nd.ctx == g.root && g.reachable(nd) && avoiding(g, entry, nd, filled[i]) {
						ok = false
					}
				}
			}
			r.ob("setting-filled", mod+": "+st.Field(i).Name(), ok, u.Pos(f.Pos()), "the settings may be returned without "+st.Field(i).Name())
		}
		configured(r, u, f)
	}
	if n == 0 {
		r.ob("anchor", mod+": settings", false, "-", "no function that builds the node's settings found")
	}
}

// configured: values put into the configuration under a name come from the variable of that name.
func configured(r *Run, u *Universe, f *ssa.Function) {
	g := NewG(u, f, &Config{Opaque: primitive})
	g.Solve()
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if n.after || !g.reachable(n) || !strings.HasSuffix(name, "viper.Viper.Set") || !strings.Contains(name, "spf13/") {
			return
		}
		as := args(c)
		k, ok := constString(g, Val{n.ctx, as[1]}, 0)
		t := g.text(Val{n.ctx, as[2]}, 0)
		r.ob("setting-from-variable", short(n.ctx.fn)+": configuration "+strings.Join(k, ","), ok && len(k) == 1 && t == "$"+strings.ToUpper(k[0]), g.where(n), "the variable is set to "+t)
	})
}

// settingOf: the setting that a value is read from.
func settingOf(g *G, v Val, d int) string {
	v = g.resolve(v)
	os := g.origins(v)
	if len(os) != 1 || d > 8 {
		return "?several values"
	}
	v = g.resolve(os[0])
	var t types.Type
	var i int
	switch x := v.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := g.resolve(Val{v.ctx, x.X})
			if fa, ok := a.v.(*ssa.FieldAddr); ok {
				t, i = fa.X.Type(), fa.Field
			}
		}
	case *ssa.Field:
		t, i = x.X.Type(), x.Field
	case *ssa.Const:
		return "the constant " + x.String()
	}
	if t != nil {
		if n, _ := settingsStruct(t); n != nil {
			return fieldName(t, i)
		}
		return "?" + typeFull(t) + "." + fieldName(t, i)
	}
	return "?" + shortInstr(v.v)
}

var bindOf = map[string]string{"clientapi": "BindRestAPI", "adminapi": "BindAdminAPI", "gatewayapi": "BindGatewayAPI", "providerapi": "BindProviderAPI"}

func startRules(r *Run, u *Universe, mod string) {
	mains := 0
	for _, f := range u.Funcs {
		if f.Name() != "main" || f.Pkg == nil || !u.Roots[f.Pkg] || f.Pkg.Pkg.Name() != "main" || f.Signature.Recv() != nil || f.Parent() != nil || !strings.Contains(shortPkg(f.Pkg.Pkg.Path()), "/cmd/") {
			continue
		}
		mains++
		g := NewG(u, f, &Config{Opaque: func(name string, f *ssa.Function) bool {
			return primitive(name, f) || strings.HasPrefix(name, "common/") || strings.HasPrefix(name, mod+"/config.") || strings.HasPrefix(name, mod+"/internal/core.")
		}})
		g.Solve()
		want := func(n *Node, what string, v Val, fields ...string) {
			s := settingOf(g, v, 0)
			ok := false
			for _, w := range fields {
				ok = ok || s == w
			}
			r.ob("component-setting", mod+": "+what, ok, g.where(n), what+" is "+s+" and not the setting "+strings.Join(fields, " or "))
		}
		listens := func(n *Node, what string, v Val, fields ...string) {
			got := map[string]bool{}
			for _, e := range sliceElems(g, v) {
				got[settingOf(g, e, 0)] = true
			}
			w := map[string]bool{}
			for _, x := range fields {
				w[x] = true
			}
			r.ob("component-setting", mod+": "+what, reflect.DeepEqual(got, w), g.where(n), fmt.Sprintf("%s are %v and not %v", what, keysOf(got), keysOf(w)))
		}
		seen := map[string]int{}
		g.calls(func(n *Node, c ssa.CallInstruction, name string) {
			if n.after || !g.reachable(n) {
				return
			}
			as := args(c)
			switch {
			case name == "common/pkg/fcrregistermgr.NewFCRRegisterMgr":
				seen[name]++
				want(n, "register URL", Val{n.ctx, as[0]}, "RegisterAPIURL")
				want(n, "register refresh interval", Val{n.ctx, as[3]}, "RegisterRefreshDuration")
			case name == "common/pkg/fcrrestserver.NewFCRRESTServer":
				seen[name]++
				listens(n, "REST server's addresses", Val{n.ctx, as[0]}, "BindAdminAPI", "BindRestAPI")
			case name == "common/pkg/fcrp2pserver.NewFCRP2PServer":
				seen[name]++
				fs := []string{"BindGatewayAPI"}
				if mod == "gateway" {
					fs = append(fs, "BindProviderAPI")
				}
				listens(n, "P2P server's addresses", Val{n.ctx, as[0]}, fs...)
				want(n, "P2P server's time limit", Val{n.ctx, as[2]}, "TCPInactivityTimeout")
			case strings.HasSuffix(name, "Server.AddHandler"):
				seen["AddHandler"]++
				fv := g.resolve(Val{n.ctx, as[3]})
				fn, _ := fv.v.(*ssa.Function)
				if ct, ok := fv.v.(*ssa.ChangeType); ok {
					fn, _ = g.resolve(Val{fv.ctx, ct.X}).v.(*ssa.Function)
				}
				if fn == nil || fn.Pkg == nil {
					r.ob("component-setting", mod+": handler", false, g.where(n), "the handler registered here cannot be read off")
					return
				}
				b := bindOf[fn.Pkg.Pkg.Name()]
				if b == "" {
					return
				}
				want(n, "address that serves "+fn.Name(), Val{n.ctx, as[1]}, b)
			}
		})
		for _, x := range []string{"common/pkg/fcrregistermgr.NewFCRRegisterMgr", "common/pkg/fcrrestserver.NewFCRRESTServer", "common/pkg/fcrp2pserver.NewFCRP2PServer"} {
			r.ob("component-setting", mod+": start-up makes "+x[strings.LastIndex(x, ".")+1:], seen[x] == 1, u.Pos(f.Pos()), fmt.Sprintf("made %d times", seen[x]))
		}
		if seen["AddHandler"] < 5 {
			r.ob("anchor", mod+": handlers", false, "-", "fewer than 5 registrations of handlers found in the start-up code")
		}
	}
	if mains == 0 {
		r.ob("anchor", mod+": main", false, "-", "no main function found")
	}
	// time limits of messages
	n := 0
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || f.Blocks == nil {
			continue
		}
		var g *G
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				name := u.CalleeName(c)
				if !strings.HasPrefix(name, "common/pkg/fcrp2pserver.FCRServer") {
					continue
				}
				as := args(c)
				if len(as) == 0 || typeFull(as[len(as)-1].Type()) != "time.Duration" {
					continue
				}
				if g == nil {
					g = NewG(u, f, &Config{Opaque: primitive, MaxDepth: 1})
				}
				if _, isp := as[len(as)-1].(*ssa.Parameter); isp {
					continue
				}
				n++
				s := settingOf(g, Val{g.root, as[len(as)-1]}, 0)
				r.ob("component-setting", short(f)+": time limit of "+name[strings.LastIndex(name, ".")+1:], s == "TCPInactivityTimeout" || s == "TCPLongInactivityTimeout", u.Pos(c.Pos()), "the time limit is "+s+" and not one of the TCP inactivity settings")
			}
		}
	}
	r.count("time limits of messages", n)
}

// sliceElems: the elements of a slice literal.
func sliceElems(g *G, v Val) []Val {
	v = g.resolve(v)
	var out []Val
	for _, o := range g.origins(v) {
		o = g.resolve(o)
		if els := varargs(o.v); els != nil {
			for _, e := range els {
				out = append(out, Val{o.ctx, e})
			}
			continue
		}
		if c, ok := o.v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				out = append(out, sliceElems(g, Val{o.ctx, c.Call.Args[0]})...)
				for _, e := range varargs(c.Call.Args[1]) {
					out = append(out, Val{o.ctx, e})
				}
				continue
			}
		}
		out = append(out, o)
	}
	return out
}

// ---- library settings -----------------------------------------------------------------------------------------------

func builderRules(r *Run, u *Universe, mod string) {
	var builder, settings *types.Named
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || f.Signature.Recv() == nil || f.Name() != "Build" || f.Signature.Results().Len() == 0 {
			continue
		}
		if p, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			if s, ok := p.Elem().(*types.Named); ok && strings.HasSuffix(s.Obj().Name(), "Settings") {
				settings = s
				t := f.Signature.Recv().Type()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				builder, _ = t.(*types.Named)
			}
		}
	}
	if builder == nil || settings == nil {
		r.ob("anchor", mod+": builder", false, "-", "no settings builder found")
		return
	}
	bs, _ := builder.Underlying().(*types.Struct)
	ss, _ := settings.Underlying().(*types.Struct)
	if bs == nil || ss == nil {
		r.ob("anchor", mod+": builder", false, "-", "the settings are not structs")
		return
	}
	is := func(t types.Type, n *types.Named) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return types.Identical(t, n)
	}
	builderSet := map[string]bool{} // builder fields some setter assigns
	builderDef := map[string]bool{} // builder fields CreateSettings assigns
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		recv := f.Signature.Recv()
		switch {
		case recv != nil && is(recv.Type(), builder) && strings.HasPrefix(f.Name(), "Set"):
			setterRules(r, u, mod, f, builder, builderSet)
		case recv != nil && is(recv.Type(), builder) && f.Name() == "Build":
			buildRules(r, u, mod, f, builder, settings)
		case recv != nil && is(recv.Type(), settings) && f.Signature.Results().Len() == 1 && f.Signature.Params().Len() == 0:
			g := NewG(u, f, &Config{Opaque: primitive})
			g.Solve()
			for _, n := range g.nodes {
				ret, ok := n.instr.(*ssa.Return)
				if !ok || n.ctx != g.root || !g.reachable(n) {
					continue
				}
				s := structField(g, Val{n.ctx, ret.Results[0]}, settings)
				r.ob("library-setting", mod+": getter "+f.Name(), strings.EqualFold(s, f.Name()), g.where(n), "it returns "+s)
			}
		case recv == nil && f.Signature.Results().Len() == 1 && is(f.Signature.Results().At(0).Type(), builder):
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && is(fa.X.Type(), builder) {
							name := fieldName(fa.X.Type(), fa.Field)
							builderDef[name] = true
							defaultConst(r, u, mod, f, s, name)
						}
					}
				}
			}
		}
	}
	// a default constant named after a builder field is used by the constructor
	for i := 0; i < bs.NumFields(); i++ {
		name := bs.Field(i).Name()
		if c, ok := builder.Obj().Pkg().Scope().Lookup("default" + strings.ToUpper(name[:1]) + name[1:]).(*types.Const); ok {
			r.ob("library-default", mod+": "+name, builderDef[name], u.Pos(c.Pos()), "the default "+c.Name()+" is never given to the builder")
		}
	}
}

// defaultConst: the constant given to a builder field is the one named after it.
func defaultConst(r *Run, u *Universe, mod string, f *ssa.Function, s *ssa.Store, name string) {
	c, _ := f.Pkg.Pkg.Scope().Lookup("default" + strings.ToUpper(name[:1]) + name[1:]).(*types.Const)
	v := s.Val
	if call, ok := v.(*ssa.Call); ok && u.CalleeName(call) == "math/big.NewInt" {
		v = args(call)[0]
	}
	k, ok := v.(*ssa.Const)
	if c == nil || !ok || k.Value == nil {
		return
	}
	r.ob("library-default", mod+": "+name, constant.Compare(constant.ToInt(c.Val()), token.EQL, constant.ToInt(k.Value)) || c.Val().ExactString() == k.Value.ExactString(), u.Pos(s.Pos()), "the default of "+name+" is "+k.Value.String()+" and not "+c.Name())
}

// structField: the field of the struct type (reached from the root's receiver) that the value is read from.
func structField(g *G, v Val, t *types.Named) string {
	var got []string
	for _, o := range g.origins(v) {
		o = g.resolve(o)
		switch x := o.v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := g.resolve(Val{o.ctx, x.X})
				if fa, ok := a.v.(*ssa.FieldAddr); ok {
					bt := fa.X.Type()
					if p, ok := bt.Underlying().(*types.Pointer); ok {
						bt = p.Elem()
					}
					if types.Identical(bt, t) {
						got = append(got, fieldName(fa.X.Type(), fa.Field))
						continue
					}
				}
			}
		case *ssa.Field:
			if types.Identical(x.X.Type(), t) {
				got = append(got, fieldName(x.X.Type(), x.Field))
				continue
			}
		}
		got = append(got, "?"+shortInstr(o.v))
	}
	sort.Strings(got)
	return strings.Join(got, " or ")
}

// setterRules: SetX(x) puts each parameter into the builder field of the parameter's role and into no other.
func setterRules(r *Run, u *Universe, mod string, f *ssa.Function, builder *types.Named, set map[string]bool) {
	g := NewG(u, f, &Config{Opaque: primitive})
	g.Solve()
	np := f.Signature.Params().Len()
	got := map[int][]string{}
	var where *Node
	for _, n := range g.nodes {
		s, ok := n.instr.(*ssa.Store)
		if !ok || !g.reachable(n) {
			continue
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || fieldOwner(fa) != builder {
			continue
		}
		name := fieldName(fa.X.Type(), fa.Field)
		set[name] = true
		where = n
		pi := -1
		for _, o := range g.origins(Val{n.ctx, s.Val}) {
			if p, ok := g.resolve(o).v.(*ssa.Parameter); ok && p.Parent() == f {
				pi = paramIndex(f, p) - 1
			}
		}
		got[pi] = append(got[pi], name)
	}
	base := strings.TrimPrefix(f.Name(), "Set")
	for i := 0; i < np; i++ {
		names := got[i]
		sort.Strings(names)
		ok := len(names) == 1
		why := fmt.Sprintf("the value is put into %v", names)
		if ok {
			n := names[0]
			switch {
			case np == 1:
				ok = strings.EqualFold(n, base)
			case base == "Logging":
				ok = i < 3 && n == []string{"logLevel", "logTarget", "logServiceName"}[i]
			default:
				// the key, then its version
				ok = strings.EqualFold(n, base+[]string{"", "Ver"}[min(i, 1)])
			}
		}
		pos := u.Pos(f.Pos())
		if where != nil {
			pos = g.where(where)
		}
		r.ob("library-setting", mod+": "+f.Name()+" parameter "+strconv.Itoa(i), ok, pos, why)
	}
	if len(got[-1]) > 0 {
		r.ob("library-setting", mod+": "+f.Name(), false, g.where(where), fmt.Sprintf("it changes %v to something other than what it was given", got[-1]))
	}
}

func fieldOwner(fa *ssa.FieldAddr) *types.Named {
	t := fa.X.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// buildRules: Build gives each setting the builder's value of that name, or, only when there is none, a made one.
func buildRules(r *Run, u *Universe, mod string, f *ssa.Function, builder, settings *types.Named) {
	g := NewG(u, f, &Config{Opaque: primitive})
	g.Solve()
	ss := settings.Underlying().(*types.Struct)
	bs := builder.Underlying().(*types.Struct)
	filled := map[int]map[*Node]bool{}
	for _, n := range g.nodes {
		s, ok := n.instr.(*ssa.Store)
		if !ok || !g.reachable(n) {
			continue
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || fieldOwner(fa) != settings {
			continue
		}
		if filled[fa.Field] == nil {
			filled[fa.Field] = map[*Node]bool{}
		}
		filled[fa.Field][n] = true
		name := fieldName(fa.X.Type(), fa.Field)
		why := ""
		g.ways(n.in, Val{n.ctx, s.Val}, func(st *FSet, v Val, leaf bool) bool {
			if !leaf {
				return false
			}
			from := structField(g, v, builder)
			if from == name || why != "" {
				return true
			}
			if strings.HasPrefix(from, "?") && builderFieldNil(g, st, builder, strings.TrimSuffix(name, "Ver")) {
				return true // made because none was given
			}
			why = "it is " + from
			return true
		})
		r.ob("library-setting", mod+": Build "+name, why == "", g.where(n), "setting "+name+": "+why)
	}
	var entry *Node
	if len(f.Blocks) > 0 {
		entry = g.root.first[f.Blocks[0]]
	}
	for i := 0; i < ss.NumFields(); i++ {
		name := ss.Field(i).Name()
		has := false
		for j := 0; j < bs.NumFields(); j++ {
			has = has || bs.Field(j).Name() == name
		}
		if !has {
			continue
		}
		ok := len(filled[i]) > 0
		for _, n := range g.nodes {
			if _, isRet := n.instr.(*ssa.Return); ok && isRet && n.ctx == g.root && g.reachable(n) && avoiding(g, entry, n, filled[i]) {
				ok = false
			}
		}
		r.ob("library-setting", mod+": Build fills "+name, ok, u.Pos(f.Pos()), "the settings may be built without the builder's "+name)
	}
	g.calls(func(n *Node, c ssa.CallInstruction, name string) {
		if n.after || !g.reachable(n) || name != "common/pkg/logging.Init1" {
			return
		}
		for i, w := range []string{"logLevel", "logTarget", "logServiceName"} {
			s := structField(g, Val{n.ctx, args(c)[i]}, builder)
			r.ob("library-setting", mod+": Build "+w, s == w, g.where(n), "the logger is given "+s+" as "+w)
		}
	})
}

// builderFieldNil: the builder's field of this name is known to be nil.
func builderFieldNil(g *G, st *FSet, builder *types.Named, name string) bool {
	for _, f := range st.list(g) {
		if f.pred == "isnil" && strings.HasSuffix(f.args[0], "."+name) {
			return true
		}
	}
	return false
}

// ---- logging and register ---------------------------------------------------------------------------------------------

func loggingRules(r *Run, u *Universe) {
	order := []string{"LOG_LEVEL", "LOG_TARGET", "LOG_SERVICE_NAME"}
	for _, f := range u.Funcs {
		if f.Pkg == nil || f.Blocks == nil || shortPkg(f.Pkg.Pkg.Path()) != "common/pkg/logging" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		inits := f.Signature.Results().Len() == 1 && typeFull(f.Signature.Results().At(0).Type()) == "github.com/rs/zerolog.Logger"
		if !inits {
			continue
		}
		g := NewG(u, f, &Config{Opaque: func(name string, f *ssa.Function) bool { return !strings.HasPrefix(name, "common/pkg/logging.") }})
		g.Solve()
		levels, parsed := 0, 0
		g.calls(func(n *Node, c ssa.CallInstruction, name string) {
			if n.after || !g.reachable(n) {
				return
			}
			as := args(c)
			switch {
			case strings.HasSuffix(name, "viper.Viper.Set"):
				k, ok := constString(g, Val{n.ctx, as[1]}, 0)
				v := g.resolve(Val{n.ctx, as[2]})
				if mi, isMI := v.v.(*ssa.MakeInterface); isMI {
					v = g.resolve(Val{v.ctx, mi.X})
				}
				p, isP := v.v.(*ssa.Parameter)
				ok = ok && len(k) == 1 && isP && v.ctx == g.root
				if ok {
					i := paramIndex(f, p)
					ok = i < len(order) && order[i] == k[0]
				}
				r.ob("logging-variable", short(f)+": sets "+strings.Join(k, ","), ok, g.where(n), "it is not set to the argument meant for it")
			case strings.HasSuffix(name, "zerolog.ParseLevel"):
				t := g.text(Val{n.ctx, as[0]}, 0)
				r.ob("logging-variable", short(f)+": level", t == "$LOG_LEVEL", g.where(n), "the level is parsed from "+t)
			case strings.HasSuffix(name, "zerolog.SetGlobalLevel"):
				why := ""
				levels++
				g.ways(n.in, Val{n.ctx, as[0]}, func(st *FSet, v Val, leaf bool) bool {
					if !leaf {
						return false
					}
					if g.contradicts(st, n.in) {
						return true
					}
					if pc, idx := callOf(v); pc != nil && idx == 0 && strings.HasSuffix(u.CalleeName(pc), "zerolog.ParseLevel") {
						parsed++
						if !outcome(g, st, Val{v.ctx, pc}, 1, "nil") {
							why = "the level of a text that could not be parsed may be used"
						}
					} else if _, isK := v.v.(*ssa.Const); !isK {
						why = "the level does not come from the configuration"
					}
					return true
				})
				r.ob("logging-variable", short(f)+": level used", why == "", g.where(n), why)
			}
		})
		if levels > 0 {
			r.ob("logging-variable", short(f)+": level of the configuration", parsed > 0, u.Pos(f.Pos()), "the level of the configuration is not used")
		}
		for _, n := range g.nodes {
			s, ok := n.instr.(*ssa.Store)
			if !ok || !g.reachable(n) {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(typeFull(fa.X.Type()), "lumberjack.v2.Logger") {
				continue
			}
			name := fieldName(fa.X.Type(), fa.Field)
			want := "$LOG" + snake(name)
			if name == "Filename" {
				want = "$LOG_DIR/$LOG_FILE"
			}
			t := g.text(Val{n.ctx, s.Val}, 0)
			r.ob("logging-variable", short(f)+": "+name, t == want, g.where(n), "it is "+t+" and not "+want)
		}
	}
}

func snake(s string) string {
	out := ""
	for _, c := range s {
		if c >= 'A' && c <= 'Z' {
			out += "_"
		}
		out += strings.ToUpper(string(c))
	}
	return out
}

func redisRules(r *Run, u *Universe) {
	for _, f := range u.Funcs {
		if f.Pkg == nil || !u.Roots[f.Pkg] || f.Blocks == nil {
			continue
		}
		var g *G
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(typeFull(fa.X.Type()), "redis/v8.Options") {
					continue
				}
				if g == nil {
					g = NewG(u, f, &Config{Opaque: primitive})
				}
				name := fieldName(fa.X.Type(), fa.Field)
				want := map[string]string{"Addr": "$REDIS_URL:$REDIS_PORT", "Password": "$REDIS_PASSWORD"}[name]
				if want == "" {
					continue
				}
				t := g.text(Val{g.root, s.Val}, 0)
				r.ob("register-variable", short(f)+": "+name, t == want, u.Pos(s.Pos()), "it is "+t+" and not "+want)
			}
		}
	}
}
