package main

// P22: secrets never reach logs, error texts, standard output or messages other than the administrator's key initialisation.
//
// A value carries a set of labels: "secret", or "what parameter p holds". Labels are propagated through each function and,
// by summaries, through calls; struct fields and globals are kept per type and field. Where a label arrives at an output,
// it is reported (secret) or becomes part of the function's summary (parameter) and is reported at the call.

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type label interface{} // secretLabel{} or *ssa.Parameter

type secretLabel struct{}

type labels map[label]bool

type outlet struct {
	rule, what string
	cond       *ssa.Parameter // of a message: the parameter that says of which type it is
}

type secretWorld struct {
	u       *Universe
	val     map[ssa.Value]labels
	field   map[string]bool             // T.f holds a secret
	fieldBy map[string]map[label]bool   // T.f is stored what a parameter holds
	into    map[*ssa.Parameter][]string // fields a parameter is stored in
	global  map[*ssa.Global]bool
	res     map[*ssa.Function][]labels
	outs    map[*ssa.Parameter]map[outlet]bool
	initTyp map[int64]bool // message types that may hold keys
	bind    map[*ssa.FreeVar][]ssa.Value
	hits    map[string]*Ob
	seen    map[string]string // every output looked at
	changed bool
	seeds   int
}

var secretName = regexp.MustCompile(`(?i)(priv(ate)?_?key|wallet_?(priv|secret|key)|auth_?token|access_?token|lotus_?auth|secret|passw|mnemonic|credential)`)

// secretType: types a secret of that name can have.
func secretCarrier(t types.Type) bool {
	if isStringType(t) {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Slice:
		if b, ok := x.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return true
		}
	case *types.Pointer:
		return isStringType(x.Elem()) || typeFull(x.Elem()) == "common/pkg/fcrcrypto.KeyPair"
	}
	return typeFull(t) == "common/pkg/fcrcrypto.KeyPair"
}

func seedName(name string, t types.Type) bool {
	return secretName.MatchString(name) && !regexp.MustCompile(`(?i)(version|ver$|pub)`).MatchString(name) && secretCarrier(t)
}

// carrier: a value of the type can carry (part of) a secret: not numbers (other than characters) and truth values.
func carrier(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return !ok || b.Info()&types.IsString != 0 || b.Kind() == types.UnsafePointer || b.Kind() == types.Uint8 || b.Kind() == types.Int32
}

// oneByte: a single element at a fixed place, as an algorithm's number is; not a way to hand on the whole.
func oneByte(index ssa.Value, elem types.Type) bool {
	_, isConst := index.(*ssa.Const)
	b, isBasic := elem.Underlying().(*types.Basic)
	return isConst && isBasic && b.Info()&types.IsString == 0
}

// stdStream: the value is the program's standard output or error.
func stdStream(v ssa.Value) bool {
	for k := 0; k < 8; k++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
		default:
			return false
		}
	}
	return false
}

func (w *secretWorld) get(v ssa.Value) labels {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Global:
		if w.global[x] {
			return labels{secretLabel{}: true}
		}
		return nil
	}
	return w.val[v]
}

func (w *secretWorld) add(v ssa.Value, ls labels) {
	if len(ls) == 0 || v == nil || !carrier(v.Type()) {
		return
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	case *ssa.Global:
		if ls[secretLabel{}] && !w.global[x] {
			w.global[x] = true
			w.changed = true
		}
		return
	}
	m := w.val[v]
	if m == nil {
		m = labels{}
		w.val[v] = m
	}
	for l := range ls {
		if !m[l] {
			m[l] = true
			w.changed = true
		}
	}
}

func isSecretSet(ls labels) bool { return ls[secretLabel{}] }

var onlySecret = labels{secretLabel{}: true}

func fieldKey(t types.Type, i int) string { return typeFull(t) + "." + fieldName(t, i) }

func (w *secretWorld) putField(k string, ls labels) {
	if k == tMsg+".messageBody" || k == "common/pkg/fcrmessages.fcrMessageJson.MessageBody" {
		return // messages differ: told by the message
	}
	if ls[secretLabel{}] && !w.field[k] {
		w.field[k] = true
		w.changed = true
	}
	for l := range ls {
		if p, ok := l.(*ssa.Parameter); ok {
			if w.fieldBy[k] == nil {
				w.fieldBy[k] = map[label]bool{}
			}
			if !w.fieldBy[k][p] {
				w.fieldBy[k][p] = true
				w.into[p] = append(w.into[p], k)
				w.changed = true
			}
		}
	}
}

// putObj: the labels arrive in the object v denotes or points to.
func (w *secretWorld) putObj(v ssa.Value, ls labels, d int) {
	if len(ls) == 0 || d > 12 {
		return
	}
	w.add(v, ls)
	switch x := v.(type) {
	case *ssa.Slice:
		w.putObj(x.X, ls, d+1)
	case *ssa.IndexAddr:
		w.putObj(x.X, ls, d+1)
	case *ssa.MakeInterface:
		w.putObj(x.X, ls, d+1)
	case *ssa.ChangeType:
		w.putObj(x.X, ls, d+1)
	case *ssa.ChangeInterface:
		w.putObj(x.X, ls, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.val[e] == nil || len(ls) > 0 && !subset(ls, w.val[e]) {
				w.putObj(e, ls, d+1)
			}
		}
	case *ssa.FieldAddr:
		w.putField(fieldKey(x.X.Type(), x.Field), ls)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			w.putObj(x.X, ls, d+1)
		}
	case *ssa.FreeVar:
		for _, b := range w.bind[x] {
			w.putObj(b, ls, d+1)
		}
	}
}

func subset(a, b labels) bool {
	for l := range a {
		if !b[l] {
			return false
		}
	}
	return true
}

// localRoot: the local object an address belongs to.
func localRoot(v ssa.Value) *ssa.Alloc {
	for k := 0; k < 20; k++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func inRepoType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return !ok || n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix)
}

// shows: what formatting a value of the type shows of secret fields; as JSON only if asJSON.
func (w *secretWorld) shows(t types.Type, top bool, d int) bool {
	if d > 6 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && typeFull(n) == "common/pkg/fcrcrypto.KeyPair" {
		return !top
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		if !top {
			m := w.method(t, "String")
			return m != nil && len(w.res[m]) > 0 && isSecretSet(w.res[m][0]) // otherwise printed as an address
		}
		if typeFull(x.Elem()) == "common/pkg/fcrcrypto.KeyPair" {
			return false // told by the value
		}
		return w.shows(x.Elem(), false, d+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			ft := x.Field(i).Type()
			if carrier(ft) {
				if _, isPtr := ft.Underlying().(*types.Pointer); !isPtr && w.field[typeFull(t)+"."+x.Field(i).Name()] {
					return true
				}
			}
			if w.shows(ft, false, d+1) {
				return true
			}
		}
	case *types.Slice:
		return w.shows(x.Elem(), false, d+1)
	case *types.Array:
		return w.shows(x.Elem(), false, d+1)
	case *types.Map:
		return w.shows(x.Elem(), false, d+1) || w.shows(x.Key(), false, d+1)
	}
	return false
}

// method: the repo method of the name a value of the type has.
func (w *secretWorld) method(t types.Type, name string) *ssa.Function {
	for _, mt := range []types.Type{t, types.NewPointer(t)} {
		ms := w.u.Prog.MethodSets.MethodSet(mt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() != name {
				continue
			}
			if o, ok := ms.At(i).Obj().(*types.Func); ok {
				if f := w.u.Prog.FuncValue(o); f != nil && f.Blocks != nil {
					return f
				}
			}
		}
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			break
		}
	}
	return nil
}

// subst: labels of a callee seen at a call.
func (w *secretWorld) subst(ls labels, f *ssa.Function, as []ssa.Value) labels {
	out := labels{}
	for l := range ls {
		p, ok := l.(*ssa.Parameter)
		if !ok || p.Parent() != f {
			out[l] = true
			continue
		}
		if i := paramIndex(f, p); i >= 0 && i < len(as) {
			for x := range w.get(as[i]) {
				out[x] = true
			}
		}
	}
	return out
}

// secretPasses: functions of other libraries whose result contains what they are given.
func secretPasses(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "fmt.Sprint", "fmt.Append", "strconv.Quote", "strconv.Append", "encoding/hex.", "encoding/base64.", "encoding/json.Marshal", "encoding/json.Indent", "encoding/base32.", "net/url.", "path.", "math/big.Int.", "unicode", "html.", "bufio.New", "bufio.Reader.", "bufio.Scanner.", "io.LimitReader", "net/http.MaxBytesReader", "io.NopCloser", "io/ioutil.NopCloser", "io.TeeReader", "io.ReadAll", "io/ioutil.ReadAll", "encoding/pem.", "encoding/xml.Marshal", "encoding/binary.", "builtin.append", "sort.", "text/template.", "errors.Unwrap", "github.com/btcsuite/btcutil/base58.", "crypto/ecdsa.PrivateKey.", "golang.org/x/xerrors.", "github.com/pkg/errors.", "net/http.Header.", "net/http.NewRequest"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// outletOf: the call brings what it is given out of the program.
func outletOf(name string) (rule, what string) {
	base := name[strings.LastIndex(name, ".")+1:]
	has := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	}
	switch {
	case has("github.com/rs/zerolog"):
		if strings.HasPrefix(base, "With") && !strings.Contains(name, "Context") || base == "New" || base == "Output" || base == "Level" || base == "Logger" {
			return "", ""
		}
		return "not-logged", "the log"
	case has("log.Print", "log.Fatal", "log.Panic", "log.Output", "log.Logger.Print", "log.Logger.Fatal", "log.Logger.Panic", "log.Logger.Output", "go.uber.org/zap", "github.com/sirupsen/logrus", "log/syslog.", "github.com/ipfs/go-log"):
		return "not-logged", "the log"
	case has("fmt.Print", "builtin.print", "os.File.Write"):
		return "not-logged", "an output"
	case name == "builtin.panic":
		return "not-logged", "the text of a panic"
	case has("fmt.Errorf", "errors.New", "golang.org/x/xerrors.Errorf", "golang.org/x/xerrors.New", "github.com/pkg/errors."):
		return "not-in-errors", "an error text"
	case strings.HasSuffix(name, "go-json-rest/rest.Error") || name == "net/http.Error":
		return "not-in-errors", "an error answer"
	case strings.HasSuffix(name, "go-json-rest/rest.ResponseWriter.WriteJson") || has("net/http.ResponseWriter.Write"):
		return "not-in-messages", "an answer"
	case has("net.Conn.Write", "bufio.Writer.Write", "net.TCPConn.Write"):
		return "not-in-messages", "what is sent to a peer"
	case strings.HasSuffix(name, "HttpCommunications.GetJSON") || strings.HasSuffix(name, "HttpCommunications.SendJSON") || strings.HasSuffix(name, "HttpCommunications.Delete"):
		return "not-in-messages", "a request to the register"
	case has("os.WriteFile", "io/ioutil.WriteFile", "os.Setenv"):
		return "not-logged", "a file"
	case has("database/sql.") && (base == "Exec" || base == "Query" || base == "QueryRow" || base == "ExecContext"):
		return "not-logged", "a database"
	case has("github.com/go-redis/redis") && (strings.HasSuffix(base, "Set") || base == "Publish"):
		return "not-logged", "a database"
	}
	return "", ""
}

// leaks: labels arrive at an outlet.
func (w *secretWorld) leaks(f *ssa.Function, at ssa.Instruction, o outlet, ls labels, via string) {
	name := short(f)
	k := o.rule + "|" + name + " " + via
	if _, ok := w.seen[k]; !ok {
		w.seen[k] = w.u.Pos(at.Pos())
	}
	for l := range ls {
		switch x := l.(type) {
		case secretLabel:
			if o.cond != nil {
				continue
			}
			if w.hits[k] == nil {
				w.hits[k] = &Ob{Rule: o.rule, Construct: name + " " + via, Where: w.u.Pos(at.Pos()), Msg: "a secret may be put into " + o.what}
				w.changed = true
			}
		case *ssa.Parameter:
			if w.outs[x] == nil {
				w.outs[x] = map[outlet]bool{}
			}
			if !w.outs[x][o] {
				w.outs[x][o] = true
				w.changed = true
			}
		}
	}
}

func (w *secretWorld) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		var out []*ssa.Function
		for _, f := range w.u.Implementations(cc.Value.Type(), cc.Method.Name()) {
			if f.Blocks != nil && isRepoFunc(f) {
				out = append(out, f)
			}
		}
		return out
	}
	if f := cc.StaticCallee(); f != nil && f.Blocks != nil && isRepoFunc(f) {
		return []*ssa.Function{f}
	}
	return nil
}

const nCreateMsg = "common/pkg/fcrmessages.CreateFCRMessage"

func (w *secretWorld) call(f *ssa.Function, c ssa.CallInstruction) {
	u := w.u
	name := u.CalleeName(c)
	as := args(c)
	v, _ := c.(ssa.Value)
	setRes := func(i int, ls labels) {
		if v == nil {
			return
		}
		rs := c.Common().Signature().Results()
		if rs.Len() == 1 {
			w.add(v, ls)
			return
		}
		for _, ex := range extracts(v) {
			if ex.Index == i {
				w.add(ex, ls)
			}
		}
	}
	rule, what := outletOf(name)
	if name != "" && rule == "" && len(as) > 0 {
		for _, a := range as {
			if stdStream(a) {
				rule, what = "not-logged", "the standard output"
			}
		}
	}
	if rule != "" {
		for _, a := range as {
			w.leaks(f, c, outlet{rule: rule, what: what}, w.get(a), name)
		}
		if len(as) == 0 {
			w.leaks(f, c, outlet{rule: rule, what: what}, nil, name)
		}
	}
	if name == nCreateMsg && len(as) == 2 {
		o := outlet{rule: "not-in-messages", what: "a message that is not an administrator's key initialisation"}
		ok := false
		switch x := as[0].(type) {
		case *ssa.Const:
			ok = x.Value != nil && w.initTyp[x.Int64()]
		case *ssa.Parameter:
			o.cond = x
		}
		if !ok {
			w.leaks(f, c, o, w.get(as[1]), name)
		}
	}
	switch name {
	case "builtin.append":
		for _, a := range as {
			setRes(0, w.get(a))
		}
		return
	case "builtin.copy":
		w.putObj(as[0], w.get(as[1]), 0)
		return
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy", "io.Writer.Write", "io.StringWriter.WriteString":
		for _, a := range as[1:] {
			w.putObj(as[0], w.get(a), 0)
		}
		return
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		if mi, ok := as[0].(*ssa.MakeInterface); ok {
			if m := w.method(mi.X.Type(), "MarshalJSON"); m != nil && len(w.res[m]) > 0 {
				setRes(0, w.subst(w.res[m][0], m, []ssa.Value{mi.X}))
				return
			}
		}
	case nFromBytes:
		setRes(0, w.get(as[0]))
		return
	case "common/pkg/fcrcrypto.GeneratePrivateRandomBytes":
		w.putObj(as[0], onlySecret, 0)
	}
	hs := w.callees(c)
	for _, h := range hs {
		for i, ls := range w.res[h] {
			setRes(i, w.subst(ls, h, as))
		}
		for i, p := range h.Params {
			if i >= len(as) {
				break
			}
			// what is put into the objects given
			extra := labels{}
			for l := range w.val[p] {
				if l != label(p) {
					extra[l] = true
				}
			}
			if len(extra) > 0 && !(isSecretSet(extra) && w.named(p)) {
				if s := w.subst(extra, h, as); len(s) > 0 {
					w.putObj(as[i], s, 0)
				}
			}
			al := w.get(as[i])
			if len(al) == 0 {
				continue
			}
			for _, k := range w.into[p] {
				w.putField(k, al)
			}
			for o := range w.outs[p] {
				oo := o
				if o.cond != nil {
					oo.cond = nil
					if j := paramIndex(h, o.cond); j >= 0 && j < len(as) {
						switch t := as[j].(type) {
						case *ssa.Const:
							if t.Value != nil && w.initTyp[t.Int64()] {
								continue
							}
						case *ssa.Parameter:
							oo.cond = t
						}
					}
				}
				w.leaks(f, c, oo, al, name)
			}
		}
	}
	if len(hs) > 0 {
		return
	}
	if regexp.MustCompile(`\.GenerateKey[A-Za-z]*$`).MatchString(name) {
		w.seeds++
		setRes(0, onlySecret)
	}
	all := labels{}
	for _, a := range as {
		for l := range w.get(a) {
			all[l] = true
		}
	}
	if len(all) == 0 {
		return
	}
	if secretPasses(name) {
		rs := c.Common().Signature().Results()
		for i := 0; i < rs.Len(); i++ {
			if isErrorType(rs.At(i).Type()) && !strings.HasPrefix(name, "net/url.") {
				continue
			}
			setRes(i, all)
		}
		// writers that keep what they are given
		if rc := c.Common().Signature().Recv(); rc != nil && (strings.Contains(name, ".Write") || strings.Contains(name, "big.Int.Set")) {
			w.putObj(as[0], all, 0)
		}
		if strings.HasPrefix(name, "encoding/") && strings.HasSuffix(name, "Encode") && len(as) > 1 {
			w.putObj(as[len(as)-2], w.get(as[len(as)-1]), 0)
		}
	}
	if strings.HasPrefix(name, "strconv.Parse") || name == "strconv.Atoi" {
		setRes(c.Common().Signature().Results().Len()-1, all) // the error quotes the text
	}
	if name == "error.Error" {
		setRes(0, all)
	}
}

// named: the parameter is a secret because of its name.
func (w *secretWorld) named(p *ssa.Parameter) bool { return seedName(p.Name(), p.Type()) }

func (w *secretWorld) fn(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					w.add(x, w.get(e))
				}
			case *ssa.BinOp:
				if carrier(x.Type()) {
					w.add(x, w.get(x.X))
					w.add(x, w.get(x.Y))
				}
			case *ssa.Convert:
				w.add(x, w.get(x.X))
			case *ssa.ChangeType:
				w.add(x, w.get(x.X))
			case *ssa.ChangeInterface:
				w.add(x, w.get(x.X))
			case *ssa.SliceToArrayPointer:
				w.add(x, w.get(x.X))
			case *ssa.MakeInterface:
				if !carrier(x.X.Type()) {
					continue
				}
				if m := w.method(x.X.Type(), "String"); m != nil && len(w.res[m]) > 0 {
					w.add(x, w.subst(w.res[m][0], m, []ssa.Value{x.X}))
					continue
				}
				w.add(x, w.get(x.X))
				if p, ok := x.X.(*ssa.Parameter); ok && typeFull(p.Type()) == "common/pkg/fcrcrypto.KeyPair" && f.Signature.Recv() != nil && f.Params[0] == p {
					w.add(x, onlySecret) // a pair showing itself
				}
				if inRepoType(x.X.Type()) && w.shows(x.X.Type(), true, 0) {
					w.add(x, onlySecret)
				}
			case *ssa.TypeAssert:
				w.add(x, w.get(x.X))
			case *ssa.Slice:
				w.add(x, w.get(x.X))
			case *ssa.Index:
				if !oneByte(x.Index, x.Type()) {
					w.add(x, w.get(x.X))
				}
			case *ssa.IndexAddr:
				if !oneByte(x.Index, x.Type().(*types.Pointer).Elem()) {
					w.add(x, w.get(x.X))
				}
			case *ssa.Lookup:
				if !oneByte(x.Index, x.Type()) {
					w.add(x, w.get(x.X))
				}
			case *ssa.Range:
				w.add(x, w.get(x.X))
			case *ssa.Next:
				w.add(x, w.get(x.Iter))
			case *ssa.Extract:
				if _, isCall := x.Tuple.(*ssa.Call); !isCall {
					w.add(x, w.get(x.Tuple))
				}
			case *ssa.Field:
				k := fieldKey(x.X.Type(), x.Field)
				if w.field[k] {
					w.add(x, onlySecret)
				}
				if w.through(x.X.Type(), x.Field) {
					w.add(x, w.get(x.X))
				}
			case *ssa.FieldAddr:
				if w.through(x.X.Type(), x.Field) {
					w.add(x, w.get(x.X))
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					if fa, ok := x.X.(*ssa.FieldAddr); ok {
						if typeFull(fa.X.Type()) == "net/http.Request" && fieldName(fa.X.Type(), fa.Field) == "Body" {
							w.add(x, onlySecret) // the keys arrive in a request
						}
						if w.field[fieldKey(fa.X.Type(), fa.Field)] {
							w.add(x, onlySecret)
						}
						if w.through(fa.X.Type(), fa.Field) {
							w.add(x, w.get(fa.X))
						}
						continue
					}
					w.add(x, w.get(x.X))
				case token.ARROW:
					w.add(x, w.get(x.X))
				}
			case *ssa.Send:
				w.add(x.Chan, w.get(x.X))
			case *ssa.MapUpdate:
				w.putObj(x.Map, w.get(x.Value), 0)
				w.putObj(x.Map, w.get(x.Key), 0)
			case *ssa.Store:
				ls := w.get(x.Val)
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					k := fieldKey(fa.X.Type(), fa.Field)
					if k == "common/pkg/fcrcrypto.KeyPair.pKey" {
						w.putObj(x.Val, onlySecret, 0)
						if a := localRoot(fa); a != nil {
							w.add(a, onlySecret)
						} else {
							w.putObj(fa.X, onlySecret, 0)
						}
						continue
					}
					if len(ls) == 0 {
						continue
					}
					w.putField(k, ls)
					if typeFull(fa.X.Type()) == tMsg && fieldName(fa.X.Type(), fa.Field) == "messageBody" {
						w.putObj(fa.X, ls, 0)
						continue
					}
					if _, isPtr := x.Val.Type().Underlying().(*types.Pointer); isPtr {
						continue
					}
					if a := localRoot(fa); a != nil {
						w.add(a, ls)
					}
					continue
				}
				if len(ls) > 0 {
					w.putObj(x.Addr, ls, 0)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, fv := range fn.FreeVars {
					w.add(fv, w.get(x.Bindings[i]))
				}
			case *ssa.Panic:
				w.leaks(f, x, outlet{rule: "not-logged", what: "the text of a panic"}, w.get(x.X), "panic")
			case *ssa.Return:
				rs := w.res[f]
				if rs == nil {
					rs = make([]labels, len(x.Results))
					for i := range rs {
						rs[i] = labels{}
					}
					w.res[f] = rs
				}
				for i, v := range x.Results {
					if !carrier(v.Type()) {
						continue
					}
					for l := range w.get(v) {
						if !rs[i][l] {
							rs[i][l] = true
							w.changed = true
						}
					}
				}
			case ssa.CallInstruction:
				w.call(f, x)
			}
		}
	}
}

// through: what is read from the field of an object that holds a secret is part of the secret.
func (w *secretWorld) through(t types.Type, i int) bool {
	if typeFull(t) == tMsg {
		return fieldName(t, i) == "messageBody"
	}
	return !inRepoType(t)
}

func newSecretWorld(u *Universe) *secretWorld {
	w := &secretWorld{u: u, val: map[ssa.Value]labels{}, field: map[string]bool{}, fieldBy: map[string]map[label]bool{}, into: map[*ssa.Parameter][]string{}, global: map[*ssa.Global]bool{},
		res: map[*ssa.Function][]labels{}, outs: map[*ssa.Parameter]map[outlet]bool{}, initTyp: map[int64]bool{}, bind: map[*ssa.FreeVar][]ssa.Value{}, hits: map[string]*Ob{}, seen: map[string]string{}}
	// fields
	for _, sp := range u.Pkgs {
		path := sp.Pkg.Path()
		if !strings.HasPrefix(path, repoPrefix) || strings.Contains(path, "mock") {
			continue
		}
		for name, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.NamedConst:
				if shortPkg(path) == "common/pkg/fcrmessages" && strings.Contains(name, "InitialiseKeyRequest") && x.Value != nil && x.Value.Value != nil && x.Value.Value.Kind() == constant.Int {
					w.initTyp[x.Value.Int64()] = true
				}
			case *ssa.Type:
				st, ok := x.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				prng := shortPkg(path) == "common/pkg/fcrcrypto" && w.method(x.Type(), "Reseed") != nil
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					full := typeFull(x.Type()) + "." + f.Name()
					if seedName(f.Name(), f.Type()) || full == "common/pkg/fcrcrypto.KeyPair.pKey" || prng && carrier(f.Type()) && f.Name() != "lock" && f.Name() != "prfHasher" {
						w.field[full] = true
						w.seeds++
					}
				}
			case *ssa.Global:
				if seedName(name, x.Type().(*types.Pointer).Elem()) {
					w.global[x] = true
					w.seeds++
				}
			}
		}
	}
	for _, f := range u.Funcs {
		for _, p := range f.Params {
			w.add(p, labels{p: true})
			if w.named(p) {
				w.add(p, onlySecret)
				w.seeds++
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.MakeClosure:
					for i, fv := range x.Fn.(*ssa.Function).FreeVars {
						w.bind[fv] = append(w.bind[fv], x.Bindings[i])
					}
				case *ssa.Call:
					n := u.CalleeName(x)
					if strings.HasPrefix(n, "common/pkg/fcrmessages.Decode") && strings.Contains(n, "InitialiseKeyRequest") && len(x.Call.Args) > 0 {
						w.putObj(x.Call.Args[0], onlySecret, 0)
						w.seeds++
					}
				}
			}
		}
	}
	return w
}

func secretsOf(r *Run, u *Universe) {
	w := newSecretWorld(u)
	fs := append([]*ssa.Function(nil), u.Funcs...)
	sort.Slice(fs, func(i, j int) bool { return FuncName(fs[i]) < FuncName(fs[j]) })
	rounds := 0
	for w.changed = true; w.changed && rounds < 60; rounds++ {
		w.changed = false
		for _, f := range fs {
			if !secretProduction(f) {
				continue
			}
			w.fn(f)
		}
	}
	if rounds >= 60 {
		r.ob("not-logged", "propagation", false, "", "labels do not settle")
	}
	if os.Getenv("FCR_SECRETS") != "" {
		for k := range w.field {
			println("secret field", k)
		}
		for _, f := range fs {
			for i, ls := range w.res[f] {
				if isSecretSet(ls) {
					println("secret result", FuncName(f), i)
				}
			}
		}
	}
	r.count("functions", len(fs))
	r.count("places secrets come from", w.seeds)
	r.count("fields that hold secrets", len(w.field))
	var ks []string
	for k := range w.seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		rule, con := k[:strings.Index(k, "|")], k[strings.Index(k, "|")+1:]
		if h := w.hits[k]; h != nil {
			r.ob(rule, con, false, h.Where, h.Msg)
		} else {
			r.ob(rule, con, true, w.seen[k], "")
		}
	}
	// what is handed out as public
	for _, f := range fs {
		if secretProduction(f) && strings.HasPrefix(FuncFull(f), "common/pkg/fcrcrypto.") && strings.Contains(f.Name(), "Public") && !strings.Contains(f.Name(), "PRNG") && f.Signature.Results().Len() > 0 && len(w.res[f]) > 0 {
			bad := isSecretSet(w.res[f][0])
			r.ob("public-is-public", short(f), !bad, u.Pos(f.Pos()), "what is handed out as public may contain the private key")
		}
	}
	// the sources: the fields the rules rely on are there
	for _, k := range []string{"common/pkg/fcrcrypto.KeyPair.pKey"} {
		if !w.field[k] {
			r.ob("sources", k, false, "", "the field private keys are kept in is not found")
		}
	}
}

func secretProduction(f *ssa.Function) bool {
	n := FuncName(f)
	return !strings.Contains(n, "/scripts/") && !strings.Contains(n, "mock") && !strings.Contains(n, "utest.")
}

func init() {
	mods := []string{"common", "gateway", "provider", "client", "gateway-admin", "provider-admin"}
	register("P22", "Interprocedural taint propagation: private and wallet keys, access tokens, the state of the random generators and the administrator's key initialisation requests are labelled where they arise (fields, parameters, decoded requests, generated keys). Labels follow values through operations, containers, fields, closures and, by summaries, calls. Every log, output, error text, answer, message and file is an outlet no label may arrive at.",
		mods, func(r *Run) {
			r.rule("not-logged", "no secret is written to a log, standard output, a panic, a file or a database")
			r.rule("not-in-errors", "no secret is part of an error text or an error answer")
			r.rule("not-in-messages", "no secret is part of a message, an answer or a request other than the administrator's key initialisation")
			r.rule("public-is-public", "what the cryptographic library hands out as public contains no private key")
			r.rule("sources", "the places secrets are kept in are known")
			for _, m := range mods {
				secretsOf(r, r.U(m))
			}
			r.floor("not-logged", 50)
			r.floor("not-in-errors", 50)
			r.floor("not-in-messages", 40)
		})
}
