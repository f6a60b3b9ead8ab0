package main

// P34: the SQL offer store.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	dbPkg       = "common/pkg/database."
	sqlStorePkg = "common/pkg/offermgr."
	tRows       = "database/sql.Rows"
	tTx         = "database/sql.Tx"
	tStmt       = "database/sql.Stmt"
	tRedis      = "github.com/go-redis/redis/v8.Client"
)

// ---- SQL texts --------------------------------------------------------------------------------------------------

func sqlTokens(s string) []string {
	var out []string
	s = strings.ToLower(s)
	word := func(c byte) bool {
		return c == '_' || c == '.' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9'
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				j++
			}
			if j < len(s) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case c == '"' || c == '`' || c == '[':
			i++ // a quoted name: its quotes do not matter
		case c == ']':
			i++
		case word(c):
			j := i
			for j < len(s) && word(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case strings.HasPrefix(s[i:], ">=") || strings.HasPrefix(s[i:], "<=") || strings.HasPrefix(s[i:], "<>") || strings.HasPrefix(s[i:], "!=") || strings.HasPrefix(s[i:], "=="):
			out = append(out, s[i:i+2])
			i += 2
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func sqlCol(w string) string { return w[strings.LastIndex(w, ".")+1:] }

func sqlName(w string) bool {
	return w != "" && (w[0] == '_' || w[0] >= 'a' && w[0] <= 'z')
}

type sqlCond struct {
	col, op string // what a placeholder is compared with
	param   int
}

type sqlText struct {
	kind    string // insert, select, other
	table   string
	cols    []string       // of an insert: column names; of a select: selected columns
	bound   map[string]int // insert: column -> placeholder
	conds   []sqlCond
	nparams int
	order   []string
	tables  map[string]bool
	joined  map[string]bool // columns compared between tables
	whereNE []string        // insert: columns compared in "where not exists"
	bad     string
	replace bool
}

func sqlList(ts []string) [][]string {
	var out [][]string
	d, cur := 0, []string{}
	for _, t := range ts {
		if t == "(" {
			d++
		}
		if t == ")" {
			d--
		}
		if t == "," && d == 0 {
			out = append(out, cur)
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	return append(out, cur)
}

func sqlParen(ts []string, i int) int { // index after the matching ')'
	d := 0
	for ; i < len(ts); i++ {
		if ts[i] == "(" {
			d++
		}
		if ts[i] == ")" {
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return len(ts)
}

func sqlParse(text string) *sqlText {
	ts := sqlTokens(text)
	for len(ts) > 0 && ts[len(ts)-1] == ";" {
		ts = ts[:len(ts)-1]
	}
	q := &sqlText{kind: "other", bound: map[string]int{}, tables: map[string]bool{}, joined: map[string]bool{}}
	if len(ts) == 0 {
		return q
	}
	// placeholders and their conditions
	idx := make([]int, len(ts))
	cmp := map[string]bool{"=": true, "==": true, ">=": true, "<=": true, ">": true, "<": true, "<>": true, "!=": true, "is": true}
	flip := map[string]string{"=": "=", "==": "=", ">=": "<=", "<=": ">=", ">": "<", "<": ">"}
	at := func(i int) string {
		if i >= 0 && i < len(ts) {
			return ts[i]
		}
		return ""
	}
	for i, t := range ts {
		if t == ";" {
			q.bad = "it is several statements"
		}
		if (t == "from" || t == "join" || t == "into") && sqlName(at(i+1)) {
			q.tables[at(i+1)] = true
			for j := i + 1; t == "from" && sqlName(at(j)); { // a, b
				k := j + 1
				if at(k) == "as" {
					k++
				}
				if sqlName(at(k)) && !sqlKeyword(at(k)) {
					k++
				}
				if at(k) != "," || !sqlName(at(k+1)) {
					break
				}
				j = k + 1
				q.tables[at(j)] = true
			}
		}
		if cmp[t] && sqlName(at(i-1)) && sqlName(at(i+1)) && strings.Contains(at(i-1), ".") && strings.Contains(at(i+1), ".") && sqlCol(at(i-1)) == sqlCol(at(i+1)) && t[0] == '=' {
			q.joined[sqlCol(at(i-1))] = true
		}
		if t == "using" && at(i+1) == "(" {
			for _, c := range ts[i+2 : sqlParen(ts, i+1)-1] {
				q.joined[c] = true
			}
		}
		if t != "?" {
			continue
		}
		idx[i] = q.nparams
		c := sqlCond{param: q.nparams}
		q.nparams++
		op := strings.ReplaceAll(at(i-1), "==", "=")
		switch {
		case cmp[at(i-1)] && sqlName(at(i-2)):
			c.col, c.op = sqlCol(at(i-2)), op
		case at(i-1) == "between" && sqlName(at(i-2)):
			c.col, c.op = sqlCol(at(i-2)), ">="
		case at(i-1) == "and" && at(i-2) == "?" && at(i-3) == "between":
			c.col, c.op = sqlCol(at(i-4)), "<="
		case at(i-1) == "limit":
			c.col, c.op = "", "limit"
		case flip[at(i+1)] != "" && sqlName(at(i+2)):
			c.col, c.op = sqlCol(at(i+2)), flip[at(i+1)]
		default:
			continue
		}
		q.conds = append(q.conds, c)
	}
	for i := range ts {
		if ts[i] == "order" && at(i+1) == "by" {
			for j := i + 2; j < len(ts) && ts[j] != "limit" && ts[j] != ")"; j++ {
				if ts[j] == "desc" {
					q.order = append(q.order, "desc")
				} else if sqlName(ts[j]) && ts[j] != "asc" {
					q.order = append(q.order, sqlCol(ts[j]))
				}
			}
		}
	}
	switch ts[0] {
	case "insert", "replace":
		q.kind = "insert"
		q.replace = ts[0] == "replace" || at(1) == "or" && at(2) == "replace"
		i := 0
		for i < len(ts) && ts[i] != "into" {
			i++
		}
		q.table = at(i + 1)
		if at(i+2) != "(" {
			q.bad = "its columns are not named"
			return q
		}
		j := sqlParen(ts, i+2)
		for _, c := range sqlList(ts[i+3 : j-1]) {
			if len(c) != 1 {
				q.bad = "its columns are not recognised"
				return q
			}
			q.cols = append(q.cols, c[0])
		}
		var items [][]string
		base := j
		switch at(j) {
		case "values":
			k := sqlParen(ts, j+1)
			items, base = sqlList(ts[j+2:k-1]), j+2
			if at(k) == "," {
				q.bad = "it inserts several rows"
			}
		case "select":
			k, d := j+1, 0
			for k < len(ts) && !(d == 0 && (ts[k] == "from" || ts[k] == "where")) {
				if ts[k] == "(" {
					d++
				}
				if ts[k] == ")" {
					d--
				}
				k++
			}
			items, base = sqlList(ts[j+1:k]), j+1
			for ; k < len(ts); k++ {
				if ts[k] != "where" {
					continue
				}
				if at(k+1) == "not" && at(k+2) == "exists" && at(k+3) == "(" && sqlParen(ts, k+3) == len(ts) {
					sub := sqlParse(strings.Join(ts[k+4:len(ts)-1], " "))
					if !sub.tables[q.table] || len(sub.tables) != 1 {
						q.bad = "it is skipped depending on another table"
					}
					for _, c := range sub.conds {
						if c.op != "=" {
							q.bad = "it is skipped on another condition than equality"
						}
						q.whereNE = append(q.whereNE, c.col)
					}
					for _, t := range ts[k:] {
						if t == "or" {
							q.bad = "it is skipped on alternative conditions"
						}
					}
					if len(q.whereNE) == 0 {
						q.bad = "it is skipped unless the table is empty"
					}
				} else {
					q.bad = "it is made under a condition that is not recognised"
				}
				break
			}
		default:
			q.bad = "its values are not recognised"
		}
		if len(items) != len(q.cols) {
			q.bad = "the numbers of columns and values differ"
			return q
		}
		pos := base
		for n, it := range items {
			if len(it) > 0 && it[0] == "?" && (len(it) == 1 || len(it) == 2 && sqlName(it[1]) || len(it) == 3 && it[1] == "as") {
				q.bound[q.cols[n]] = idx[pos]
			}
			pos += len(it) + 1
		}
	case "select":
		q.kind = "select"
		k, d := 1, 0
		if at(1) == "distinct" {
			k = 2
		}
		j := k
		for j < len(ts) && !(d == 0 && ts[j] == "from") {
			if ts[j] == "(" {
				d++
			}
			if ts[j] == ")" {
				d--
			}
			j++
		}
		for _, it := range sqlList(ts[k:j]) {
			if len(it) == 1 && sqlName(it[0]) || len(it) == 2 && sqlName(it[0]) || len(it) == 3 && it[1] == "as" {
				q.cols = append(q.cols, sqlCol(it[0]))
			} else {
				q.cols = append(q.cols, "?"+strings.Join(it, " "))
			}
		}
	}
	return q
}

func sqlKeyword(w string) bool {
	switch w {
	case "where", "join", "on", "inner", "left", "order", "group", "limit", "using", "natural", "cross", "union", "having":
		return true
	}
	return false
}

type sqlTable struct {
	types map[string]string
	key   []string
}

// sqlCreate: the table a statement creates.
func sqlCreate(text string) (string, *sqlTable) {
	ts := sqlTokens(text)
	if len(ts) < 4 || ts[0] != "create" || ts[1] != "table" {
		return "", nil
	}
	i := 2
	if ts[i] == "if" {
		i += 3
	}
	if i+1 >= len(ts) || ts[i+1] != "(" {
		return "", nil
	}
	t := &sqlTable{types: map[string]string{}}
	for _, it := range sqlList(ts[i+2 : sqlParen(ts, i+1)-1]) {
		if len(it) == 0 {
			continue
		}
		if it[0] == "primary" || it[0] == "unique" {
			j := 1
			for j < len(it) && it[j] != "(" {
				j++
			}
			if it[0] == "primary" {
				for _, c := range it[j:] {
					if sqlName(c) {
						t.key = append(t.key, c)
					}
				}
			}
			continue
		}
		typ := ""
		if len(it) > 1 && it[1] != "primary" && it[1] != "not" {
			typ = it[1]
		}
		t.types[it[0]] = typ
		for j := range it {
			if it[j] == "primary" {
				t.key = append(t.key, it[0])
			}
		}
	}
	return ts[i], t
}

// numericAffinity: a text stored in such a column may come back as a number.
func numericAffinity(typ string) bool {
	for _, s := range []string{"char", "clob", "text", "blob"} {
		if strings.Contains(typ, s) && !strings.Contains(typ, "int") {
			return false
		}
	}
	return typ != ""
}

// ---- database calls ---------------------------------------------------------------------------------------------

type sqlOp struct {
	n      *Node
	c      ssa.CallInstruction
	name   string
	op     string // Exec, Query, QueryRow, Prepare, Begin, Commit, Rollback
	recv   Val
	text   Val // statement (no value for Commit and the like)
	params []Val
	known  bool // the parameters are known one by one
}

func sqlBase(name string) string {
	if !strings.HasPrefix(name, dbPkg) && !strings.HasPrefix(name, "database/sql.") {
		return ""
	}
	b := strings.TrimSuffix(name[strings.LastIndex(name, ".")+1:], "Context")
	if b == "BeginTx" {
		b = "Begin"
	}
	switch b {
	case "Exec", "Query", "QueryRow", "Prepare", "Begin", "Commit", "Rollback":
		return b
	}
	return ""
}

func sqlOpOf(g *G, n *Node) *sqlOp {
	c, ok := n.instr.(ssa.CallInstruction)
	if !ok || n.after {
		return nil
	}
	if _, isGo := c.(*ssa.Go); isGo {
		return nil
	}
	name := g.u.CalleeName(c)
	b := sqlBase(name)
	if b == "" {
		return nil
	}
	as := args(c)
	o := &sqlOp{n: n, c: c, name: name, op: b, recv: Val{n.ctx, as[0]}}
	i := 1
	if strings.HasSuffix(name, "Context") {
		i = 2
	}
	stmt := typeFull(as[0].Type()) == tStmt || strings.HasSuffix(strings.TrimSuffix(name, "."+name[strings.LastIndex(name, ".")+1:]), "sql.Stmt")
	switch b {
	case "Exec", "Query", "QueryRow":
		if stmt {
			if pc, _ := callOf(g.resolve(o.recv)); pc != nil && sqlBase(g.u.CalleeName(pc)) == "Prepare" {
				pv := g.resolve(o.recv)
				if pn := pv.ctx.nodes[pc]; pn != nil {
					if po := sqlOpOf(g, pn); po != nil {
						o.text, o.recv = po.text, po.recv
					}
				}
			}
		} else if i < len(as) {
			o.text = Val{n.ctx, as[i]}
		}
		o.params, o.known = variadic(g, Val{n.ctx, as[len(as)-1]})
	case "Prepare":
		if i < len(as) {
			o.text = Val{n.ctx, as[i]}
		}
	}
	return o
}

// variadic: the values passed for a variadic parameter, also when they are passed on.
func variadic(g *G, v Val) ([]Val, bool) {
	v = g.resolve(v)
	if c, ok := v.v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	els := varargs(v.v)
	if els == nil {
		return nil, false
	}
	var out []Val
	for _, e := range els {
		out = append(out, Val{v.ctx, e})
	}
	return out, true
}

func sqlStoreOpaque(name string, f *ssa.Function) bool { return !strings.HasPrefix(name, sqlStorePkg) }

func sqlStoreGraph(u *Universe, f *ssa.Function) *G {
	g := NewG(u, f, &Config{Opaque: sqlStoreOpaque})
	g.Solve()
	return g
}

// constText: a statement is put together from constants only (looking at every caller for parameters).
func constText(u *Universe, f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if s := constText(u, f, x.X, seen); s != "" {
				return s
			}
			return constText(u, f, x.Y, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := constText(u, f, e, seen); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Convert:
		if isStringType(x.Type()) && isStringType(x.X.Type()) {
			return constText(u, f, x.X, seen)
		}
	case *ssa.ChangeType:
		return constText(u, f, x.X, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			root, fn := addrRoot(u, x.X, f)
			switch a := root.(type) {
			case *ssa.Alloc:
				vals, ok := sqlStoredIn(a, fn)
				if !ok {
					return "what is kept in a variable that is passed on"
				}
				for _, sv := range vals {
					if r := constText(u, sv.fn, sv.v, seen); r != "" {
						return r
					}
				}
				return ""
			case *ssa.Global:
				n := 0
				for _, h := range u.Funcs {
					for _, b := range h.Blocks {
						for _, ins := range b.Instrs {
							if st, ok := ins.(*ssa.Store); ok && st.Addr == a {
								n++
								if r := constText(u, h, st.Val, seen); r != "" {
									return r
								}
							}
						}
					}
				}
				if a.Pkg != nil {
					if init := a.Pkg.Func("init"); init != nil {
						for _, b := range init.Blocks {
							for _, ins := range b.Instrs {
								if st, ok := ins.(*ssa.Store); ok && st.Addr == a {
									n++
									if r := constText(u, init, st.Val, seen); r != "" {
										return r
									}
								}
							}
						}
					}
				}
				if n > 0 {
					return ""
				}
			}
		}
	case *ssa.Call:
		name := u.CalleeName(x)
		switch name {
		case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
			return constText(u, f, x.Call.Args[0], seen)
		case "fmt.Sprintf", "strings.Join", "strings.Repeat", "strings.ReplaceAll", "strings.Replace":
			for _, a := range x.Call.Args {
				if isStringType(a.Type()) {
					if s := constText(u, f, a, seen); s != "" {
						return s
					}
				} else if els := varargs(a); els != nil {
					for _, e := range els {
						if mi, ok := e.(*ssa.MakeInterface); ok {
							e = mi.X
						}
						if s := constText(u, f, e, seen); s != "" {
							return s
						}
					}
				} else if _, isConst := a.(*ssa.Const); !isConst && !isInteger(a.Type()) {
					return shortInstr(a)
				}
			}
			return ""
		}
		if h := u.Callee(x); h != nil && isRepoFunc(h) && h.Blocks != nil && x.Call.Signature().Results().Len() == 1 {
			for _, b := range h.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if s := constText(u, h, r.Results[0], seen); s != "" {
						return s
					}
				}
			}
			return ""
		}
	case *ssa.Parameter:
		cs := u.callersOf(f)
		if len(cs) == 0 {
			return "parameter " + x.Name() + " of " + FuncFull(f)
		}
		i := -1
		for k, p := range f.Params {
			if p == x {
				i = k
			}
		}
		for _, c := range cs {
			if i < 0 || i >= len(args(c)) {
				return "parameter " + x.Name()
			}
			if s := constText(u, c.Parent(), args(c)[i], seen); s != "" {
				return s
			}
		}
		return ""
	}
	return shortInstr(v)
}

// addrRoot: the variable an address lies in, looking out of function literals.
func addrRoot(u *Universe, v ssa.Value, f *ssa.Function) (ssa.Value, *ssa.Function) {
	for k := 0; k < 20; k++ {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.FreeVar:
			p := f.Parent()
			if p == nil {
				return v, f
			}
			var b ssa.Value
			for _, blk := range p.Blocks {
				for _, ins := range blk.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
						for i, fv := range f.FreeVars {
							if fv == x {
								b = mc.Bindings[i]
							}
						}
					}
				}
			}
			if b == nil {
				return v, f
			}
			v, f = b, p
		default:
			return v, f
		}
	}
	return v, f
}

type sqlStoredVal struct {
	fn *ssa.Function
	v  ssa.Value
}

// storedIn: every value stored in a local variable or composite literal; not ok if its address goes elsewhere.
func sqlStoredIn(a *ssa.Alloc, f *ssa.Function) (out []sqlStoredVal, ok bool) {
	ok = true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, f *ssa.Function)
	walk = func(v ssa.Value, f *ssa.Function) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch y := ref.(type) {
			case *ssa.IndexAddr:
				if y.X == v {
					walk(y, f)
				}
			case *ssa.FieldAddr:
				walk(y, f)
			case *ssa.Slice:
				walk(y, f)
			case *ssa.Store:
				if y.Addr == v {
					out = append(out, sqlStoredVal{f, y.Val})
				} else {
					ok = false
				}
			case *ssa.MakeClosure:
				fn := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == v {
						walk(fn.FreeVars[i], fn)
					}
				}
			case *ssa.UnOp, *ssa.DebugRef, *ssa.Range:
			case *ssa.Call:
				if b, isB := y.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" && b.Name() != "cap" {
					ok = false
				}
			default:
				ok = false
			}
		}
	}
	walk(a, f)
	return out, ok
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func resourceType(t types.Type) string {
	p, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	switch n := typeFull(p.Elem()); n {
	case tRows, tTx, tStmt, "database/sql.Conn", tRedis:
		return n
	}
	return ""
}

// releases: the instruction (call or deferred call) closes the resource.
func releases(g *G, n *Node, isRes func(Val) bool) bool {
	c, ok := n.instr.(ssa.CallInstruction)
	if !ok || n.after {
		return false
	}
	if _, isGo := c.(*ssa.Go); isGo {
		return false
	}
	name := g.u.CalleeName(c)
	if closesResource(name) {
		return isRes(Val{n.ctx, embedding(args(c)[0])})
	}
	// a deferred (or called) function literal that closes it
	d, ok := c.(*ssa.Defer)
	if !ok {
		return false
	}
	fn, mc := (*ssa.Function)(nil), (*ssa.MakeClosure)(nil)
	switch x := d.Call.Value.(type) {
	case *ssa.MakeClosure:
		fn, mc = x.Fn.(*ssa.Function), x
	case *ssa.Function:
		fn = x
	}
	if fn == nil || fn.Blocks == nil || !isRepoFunc(fn) {
		return false
	}
	return closesIn(g, n.ctx, d, fn, mc, isRes)
}

// embedding: the object a promoted method was called on.
func embedding(v ssa.Value) ssa.Value {
	if ld, ok := v.(*ssa.UnOp); ok {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && typeFull(fa.X.Type()) == tRedis {
			return fa.X
		}
	}
	return v
}

func closesResource(name string) bool {
	switch name {
	case "database/sql.Rows.Close", "database/sql.Stmt.Close", "database/sql.Tx.Commit", "database/sql.Tx.Rollback", "database/sql.Conn.Close", "github.com/go-redis/redis/v8.baseClient.Close", tRedis + ".Close":
		return true
	}
	return false
}

// closesIn: every way through the deferred function closes the resource (or finds it nil).
func closesIn(g *G, c *Ctx, d *ssa.Defer, fn *ssa.Function, mc *ssa.MakeClosure, isRes func(Val) bool) bool {
	bound := func(v ssa.Value) (Val, bool) {
		switch x := v.(type) {
		case *ssa.FreeVar:
			for i, fv := range fn.FreeVars {
				if fv == x && mc != nil {
					return Val{c, mc.Bindings[i]}, true
				}
			}
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == x && i < len(d.Call.Args) {
					return Val{c, d.Call.Args[i]}, true
				}
			}
		}
		return Val{}, false
	}
	res := func(v ssa.Value) bool {
		if w, ok := bound(v); ok {
			return isRes(w)
		}
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if w, ok := bound(ld.X); ok {
				if al, ok := g.resolve(w).v.(*ssa.Alloc); ok {
					for _, s := range allStores(al) {
						if isRes(Val{g.resolve(w).ctx, s.Val}) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	closing := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok {
				if closesResource(g.u.CalleeName(call)) && res(embedding(args(call)[0])) {
					closing[b] = true
				}
			}
		}
	}
	// a way from entry to return that avoids the closing blocks
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if closing[b] || seen[b] {
			return false
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		if _, ok := last.(*ssa.Return); ok {
			return true
		}
		for i, s := range b.Succs {
			if ifi, ok := last.(*ssa.If); ok {
				if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && isNilConst(cmp.Y) && (res(cmp.X) || isErrorType(cmp.X.Type())) {
					if (cmp.Op == token.EQL) == (i == 0) && res(cmp.X) {
						continue
					}
					if isErrorType(cmp.X.Type()) && (cmp.Op == token.EQL) == (i == 0) {
						// no error: the success side, on which the function has committed itself
						continue
					}
				}
				if doneFlag(g, c, ifi.Cond, i == 0, bound, isRes) {
					continue
				}
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return len(fn.Blocks) > 0 && !walk(fn.Blocks[0])
}

// doneFlag: the side of the condition is taken only after the function has closed the resource itself and noted it in
// a flag.
func doneFlag(g *G, c *Ctx, cond ssa.Value, val bool, bound func(ssa.Value) (Val, bool), isRes func(Val) bool) bool {
	if not, ok := cond.(*ssa.UnOp); ok && not.Op == token.NOT {
		return doneFlag(g, c, not.X, !val, bound, isRes)
	}
	ld, ok := cond.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || !val {
		return false
	}
	w, ok := bound(ld.X)
	if !ok {
		return false
	}
	al, ok := w.v.(*ssa.Alloc)
	if !ok {
		return false
	}
	vals, ok := sqlStoredIn(al, al.Parent())
	if !ok {
		return false
	}
	for _, sv := range vals {
		k, ok := sv.v.(*ssa.Const)
		if !ok || sv.fn != al.Parent() {
			return false
		}
		if k.Value == nil || !constant.BoolVal(k.Value) {
			continue
		}
		closed := false
		for _, ref := range *al.Referrers() {
			st, ok := ref.(*ssa.Store)
			if !ok || st.Val != sv.v {
				continue
			}
			closed = false
			for _, b := range al.Parent().Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(*ssa.Call); ok && closesResource(g.u.CalleeName(call)) && isRes(Val{c, args(call)[0]}) && instrDominates(call, st) {
						closed = true
					}
				}
			}
			if !closed {
				return false
			}
		}
		if !closed {
			return false
		}
	}
	return true
}

// callFailed: the call is known to have returned an error.
func callFailed(g *G, st *FSet, c *Ctx, call *ssa.Call) bool {
	rs := call.Call.Signature().Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return false
	}
	if outcome(g, st, Val{c, call}, rs.Len()-1, "nonnil") {
		return true
	}
	for _, ex := range extracts(call) {
		if ex.Index == rs.Len()-1 && g.hasIn(st, mkFact("nonnil", g.objkey(Val{c, ex}))) {
			return true
		}
	}
	return false
}

// leak: a way from the acquisition to the end of the entry function on which the resource is not released.
func leak(g *G, n *Node, resIdx int) (string, bool) {
	call := n.instr.(*ssa.Call)
	isRes := func(v Val) bool {
		for _, o := range g.origins(v) {
			if c, i := callOf(o); c == call && o.ctx == n.ctx && i == resIdx {
				return true
			}
		}
		return false
	}
	kind := ""
	rs := call.Call.Signature().Results()
	kind = resourceType(rs.At(resIdx).Type())
	seen := map[*Node]bool{}
	st := []*Node{n}
	start := true
	for len(st) > 0 {
		m := st[len(st)-1]
		st = st[:len(st)-1]
		if !start {
			if m == n {
				return "it is opened again", true
			}
			if releases(g, m, isRes) {
				continue
			}
			if ret, ok := m.instr.(*ssa.Return); ok && m.ctx == g.root {
				handed := false
				for _, v := range ret.Results {
					if isRes(Val{m.ctx, v}) {
						handed = true
					}
				}
				if handed {
					continue
				}
				return "the end is reached (" + g.where(m) + ")", true
			}
			if s, ok := m.instr.(*ssa.Store); ok && isRes(Val{m.ctx, s.Val}) {
				if _, local := g.resolve(Val{m.ctx, s.Addr}).v.(*ssa.Alloc); !local {
					continue // kept in an object: its owner closes it
				}
			}
		}
		start = false
		for _, e := range m.succs {
			if seen[e.to] && e.to != n || !g.reachable(e.to) {
				continue
			}
			es := g.edgeOut(e)
			if es.top || callFailed(g, es, n.ctx, call) {
				continue
			}
			if kind == tRows && rowsDone(g, es, isRes) {
				continue // a result set read to its end closes itself
			}
			seen[e.to] = true
			st = append(st, e.to)
		}
	}
	return "", false
}

// rowsDone: Next has returned false on the result set.
func rowsDone(g *G, st *FSet, isRes func(Val) bool) bool {
	for _, f := range st.list(g) {
		if f.pred != "ret0=false" {
			continue
		}
		if cv, ok := g.factVal(&f, 0); ok {
			if c, ok := cv.v.(*ssa.Call); ok && g.u.CalleeName(c) == "database/sql.Rows.Next" && isRes(Val{cv.ctx, args(c)[0]}) {
				return true
			}
		}
	}
	return false
}

// maybeSuccess: the exits of the entry function that may report success (a nil error, or true).
func (g *G) maybeSuccess() map[*Node]*FSet {
	out := g.successExits()
	for n := range out {
		ret := n.instr.(*ssa.Return)
		if len(ret.Results) == 0 {
			continue
		}
		rv := ret.Results[len(ret.Results)-1]
		if b, ok := rv.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			g.at = place{g.root, ret.Block(), ret.Block()}
			im := g.imp(Val{g.root, rv}, True)
			if im.top || g.contradicts(n.in, im) {
				delete(out, n)
			}
		}
	}
	return out
}

func init() {
	register("P34", "Every call into database/sql and the project's wrapper around it is found. Statement texts are traced back through all callers and must be built from constants. Result sets, statements and transactions are tracked from where they are opened to where they are closed, on every way. Errors are tracked from the failing call to the exits that report success. The exported operations of the SQL offer store are expanded to one control-flow graph each; the statements they execute are parsed, and every column is followed from the field of the offer it is written from to the field it is read into.",
		[]string{"common"}, func(r *Run) {
			r.rule("text-constant", "an SQL statement is put together from constants; values are passed as parameters")
			r.rule("closed", "a result set, prepared statement or transaction is closed, committed or rolled back on every way")
			r.rule("error-handled", "an operation of the store reports success only if every step it consists of has succeeded")
			r.rule("rows-complete", "a result set that ended is taken as complete only after its error was asked for")
			r.rule("all-or-nothing", "all rows of an offer are written in one transaction, and success means it was committed")
			r.rule("every-content", "a row is written for every content identifier of the offer, numbered by its position")
			r.rule("key", "rows of different offers and of different positions are different rows: what a row is skipped for covers the primary key")
			r.rule("written", "the columns of a row are written from the fields of the offer, one field each")
			r.rule("restored", "each field of an offer is restored from the column it was written to")
			r.rule("content-order", "the content identifiers of an offer are read in the order of their positions")
			r.rule("lookup", "a lookup compares the column with the value it was asked for, in the encoding it was written in, and a range includes both of its ends")
			r.rule("visible", "a lookup leaves out no offer but those that do not match what was asked for or have expired")
			r.rule("join", "rows of different offers are not joined")
			r.rule("table", "every column used is created, with a type that returns the text it was given")
			r.rule("parameters", "a statement has as many parameters as placeholders")
			u := r.U("common")
			sqlResources(r, u)
			sqlStore(r, u)
			r.floor("text-constant", 5)
			r.floor("closed", 4)
			r.floor("error-handled", 8)
			r.floor("rows-complete", 2)
			r.floor("all-or-nothing", 2)
			r.floor("written", 8)
			r.floor("restored", 10)
			r.floor("lookup", 5)
			r.floor("visible", 5)
			r.floor("table", 9)
		})
}

// sqlFallible: calls whose error decides whether the operation succeeded.
func sqlFallible(name string) bool {
	if closesResource(name) && !strings.HasSuffix(name, ".Commit") {
		return false
	}
	for _, p := range []string{"database/sql.", dbPkg, sqlStorePkg, "common/pkg/nodeid.", "common/pkg/cid.", "common/pkg/cidoffer.", "encoding/hex.", "strconv.", "encoding/json."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func sqlResources(r *Run, u *Universe) {
	for _, f := range u.Funcs {
		full := FuncFull(f)
		uses := strings.HasPrefix(full, dbPkg) || strings.HasPrefix(full, sqlStorePkg)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := u.CalleeName(c)
				base := sqlBase(name)
				if base == "" {
					continue
				}
				uses = true
				switch base {
				case "Exec", "Query", "QueryRow", "Prepare":
					as := args(c)
					i := 1
					if strings.HasSuffix(name, "Context") {
						i = 2
					}
					if strings.HasPrefix(name, "database/sql.Stmt.") || i >= len(as) || !isStringType(as[i].Type()) {
						continue
					}
					// the wrapper passes its own parameter on; its callers are looked at instead
					if p, isParam := as[i].(*ssa.Parameter); isParam && strings.HasPrefix(full, dbPkg) && f.Object() != nil && f.Object().Exported() {
						r.ob("text-constant", short(f)+" "+base, p != nil, u.Pos(ins.Pos()), "")
						continue
					}
					why := constText(u, f, as[i], map[ssa.Value]bool{})
					r.ob("text-constant", short(f)+" "+base, why == "", u.Pos(ins.Pos()), "the text of the statement contains a value that is not constant: "+why)
				}
			}
		}
		if !uses || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		g := NewG(u, f, &Config{Opaque: func(name string, h *ssa.Function) bool {
			return !strings.HasPrefix(name, sqlStorePkg) && !strings.HasPrefix(name, dbPkg) || f.Pkg != nil && h.Pkg != f.Pkg
		}})
		g.Solve()
		r.count("functions using the database", 1)
		r.count("graph nodes", len(g.nodes))
		for _, n := range g.nodes {
			call, ok := n.instr.(*ssa.Call)
			if !ok || n.after || !g.reachable(n) || n.ctx.children[call] != nil {
				continue
			}
			rs := call.Call.Signature().Results()
			name := u.CalleeName(call)
			for i := 0; i < rs.Len(); i++ {
				if resourceType(rs.At(i).Type()) == "" {
					continue
				}
				why, bad := leak(g, n, i)
				r.ob("closed", short(f)+" "+name, !bad, g.where(n), "what is opened here is not closed on some way before "+why)
			}
		}
	}
}

func sqlStore(r *Run, u *Universe) {
	var roots []*ssa.Function
	for _, f := range u.Funcs {
		if !strings.HasPrefix(FuncFull(f), sqlStorePkg) || f.Parent() != nil || f.Blocks == nil {
			continue
		}
		if f.Signature.Recv() == nil {
			continue
		}
		sqlErrors(r, u, f)
		if f.Object() != nil && f.Object().Exported() {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return short(roots[i]) < short(roots[j]) })
	tables := map[string]*sqlTable{}
	for _, f := range u.Funcs {
		if !strings.HasPrefix(FuncFull(f), sqlStorePkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || sqlBase(u.CalleeName(c)) != "Exec" {
					continue
				}
				g := &G{}
				_ = g
				for _, a := range args(c) {
					for _, t := range constTexts(u, a, 0) {
						if name, tb := sqlCreate(t); tb != nil {
							tables[name] = tb
						}
					}
				}
			}
		}
	}
	s := &sqlStoreCheck{r: r, u: u, tables: tables, written: map[string]string{}, enc: map[string]string{}, position: map[string]bool{}}
	s.ctor()
	var writers, readers []*ssa.Function
	gs := map[*ssa.Function]*G{}
	for _, f := range roots {
		g := sqlStoreGraph(u, f)
		gs[f] = g
		w, q := false, false
		for _, n := range g.nodes {
			if o := sqlOpOf(g, n); o != nil && g.reachable(n) {
				w = w || o.op == "Exec"
				q = q || o.op == "Query" || o.op == "QueryRow"
			}
		}
		if w {
			writers = append(writers, f)
		} else if q {
			readers = append(readers, f)
		}
		if len(g.cut) > 0 {
			r.ob("anchor", short(f), false, "-", fmt.Sprintf("not expanded completely: %v", g.cut))
		}
	}
	for _, f := range writers {
		s.writer(gs[f], f)
	}
	for _, f := range readers {
		s.reader(gs[f], f)
	}
	r.count("operations that write", len(writers))
	r.count("operations that read", len(readers))
	r.count("tables", len(tables))
	if len(writers) < 2 || len(readers) < 4 || len(tables) < 2 {
		r.ob("anchor", "store", false, "-", fmt.Sprintf("%d writing and %d reading operations and %d tables found", len(writers), len(readers), len(tables)))
	}
}

// constTexts: constants a value may be, through local variables and package constants only.
func constTexts(u *Universe, v ssa.Value, d int) []string {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, constTexts(u, e, d+1)...)
		}
		return out
	case *ssa.BinOp:
		var out []string
		for _, a := range constTexts(u, x.X, d+1) {
			for _, b := range constTexts(u, x.Y, d+1) {
				out = append(out, a+b)
			}
		}
		return out
	case *ssa.Parameter:
		var out []string
		for i, p := range x.Parent().Params {
			if p == x {
				for _, c := range u.callersOf(x.Parent()) {
					if i < len(args(c)) {
						out = append(out, constTexts(u, args(c)[i], d+1)...)
					}
				}
			}
		}
		return out
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		var out []string
		switch a := x.X.(type) {
		case *ssa.Alloc:
			for _, s := range allStores(a) {
				out = append(out, constTexts(u, s.Val, d+1)...)
			}
		case *ssa.Global:
			if a.Pkg != nil && a.Pkg.Func("init") != nil {
				for _, b := range a.Pkg.Func("init").Blocks {
					for _, ins := range b.Instrs {
						if st, ok := ins.(*ssa.Store); ok && st.Addr == a {
							out = append(out, constTexts(u, st.Val, d+1)...)
						}
					}
				}
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
			// an element of a composite literal: every constant stored into it
			root := x.X
			for k := 0; k < 6; k++ {
				switch y := root.(type) {
				case *ssa.IndexAddr:
					root = y.X
				case *ssa.FieldAddr:
					root = y.X
				case *ssa.Slice:
					root = y.X
				}
			}
			if al, ok := root.(*ssa.Alloc); ok {
				var walk func(v ssa.Value)
				walk = func(v ssa.Value) {
					if v.Referrers() == nil {
						return
					}
					for _, ref := range *v.Referrers() {
						switch y := ref.(type) {
						case *ssa.IndexAddr:
							if y.X == v {
								walk(y)
							}
						case *ssa.FieldAddr:
							walk(y)
						case *ssa.Store:
							if y.Addr == v {
								out = append(out, constTexts(u, y.Val, d+1)...)
							}
						}
					}
				}
				walk(al)
			}
		}
		return out
	}
	return nil
}

// sqlErrors: errors within one method of the store.
func sqlErrors(r *Run, u *Universe, f *ssa.Function) {
	g := NewG(u, f, &Config{Opaque: func(name string, h *ssa.Function) bool { return h.Parent() != f }})
	g.Solve()
	exits := g.maybeSuccess()
	report := hasErrorResult(f)
	if rs := f.Signature.Results(); rs.Len() > 0 {
		if b, ok := rs.At(rs.Len() - 1).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			report = true
		}
	}
	for _, n := range g.nodes {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		name := u.CalleeName(c)
		rs := c.Call.Signature().Results()
		if sqlFallible(name) && rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
			var errv ssa.Value = c
			if rs.Len() > 1 {
				errv = nil
				for _, ex := range extracts(c) {
					if ex.Index == rs.Len()-1 {
						errv = ex
					}
				}
			}
			good := report && errv != nil && errorHandledBy(g, n, errv, rs.Len()-1, exits)
			r.ob("error-handled", short(f)+" "+name, good, g.where(n), "success can be reported (or the next step taken in its place) although this call failed")
		}
		if name == "database/sql.Rows.Next" {
			rowsComplete(r, g, f, n, exits)
		}
	}
}

// rowsComplete: after Next has returned false, Err is asked for before success is reported.
func rowsComplete(r *Run, g *G, f *ssa.Function, n *Node, exits map[*Node]*FSet) {
	call := n.instr.(*ssa.Call)
	rows := g.resolve(Val{n.ctx, args(call)[0]})
	bad := ""
	type state struct {
		n    *Node
		done bool
	}
	seen := map[state]bool{}
	var walk func(m *Node, done bool)
	walk = func(m *Node, done bool) {
		if seen[state{m, done}] {
			return
		}
		seen[state{m, done}] = true
		if c, ok := m.instr.(ssa.CallInstruction); ok && !m.after {
			if g.u.CalleeName(c) == "database/sql.Rows.Err" && g.resolve(Val{m.ctx, args(c)[0]}) == rows {
				return
			}
			if m == n {
				done = false
			}
		}
		if _, ok := m.instr.(*ssa.Return); ok && m.ctx == g.root {
			if _, ok := exits[m]; ok && done {
				bad = g.where(m)
			}
			return
		}
		for _, e := range m.succs {
			if !g.reachable(e.to) {
				continue
			}
			es := g.edgeOut(e)
			if es.top {
				continue
			}
			d := done || outcome(g, es, Val{n.ctx, call}, 0, "false")
			walk(e.to, d)
		}
	}
	walk(n, false)
	r.ob("rows-complete", short(f), bad == "", g.where(n), "a result set cut short by a failure is taken as complete at "+bad)
}

type sqlStoreCheck struct {
	r        *Run
	u        *Universe
	tables   map[string]*sqlTable
	written  map[string]string // table.column -> field of the offer (or "digest", "content", "position")
	enc      map[string]string // table.column -> encoding function
	position map[string]bool   // columns that hold the position
	params   []string          // field stored from each parameter of the constructor
	setters  map[string]string // setter -> field
	newOffer *ssa.Function
}

// ctor: which field the constructor and the setters of an offer store each parameter in.
func (s *sqlStoreCheck) ctor() {
	s.setters = map[string]string{}
	for _, f := range s.u.Funcs {
		full := FuncFull(f)
		if !strings.HasPrefix(full, "common/pkg/cidoffer.") || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		if full == "common/pkg/cidoffer.NewCIDOffer" {
			s.newOffer = f
			s.params = make([]string, len(f.Params))
		} else if f.Signature.Recv() == nil || f.Signature.Results().Len() != 0 || len(f.Params) != 2 {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isOfferPtr(fa.X.Type()) {
					continue
				}
				v := st.Val
				for {
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
						continue
					}
					break
				}
				p, ok := v.(*ssa.Parameter)
				if !ok {
					continue
				}
				for i, q := range f.Params {
					if q == p {
						if f == s.newOffer {
							s.params[i] = offerFieldName(fa)
						} else if i == 1 {
							s.setters[full] = offerFieldName(fa)
						}
					}
				}
			}
		}
	}
	if s.newOffer == nil {
		s.r.ob("anchor", "NewCIDOffer", false, "-", "the constructor of offers is not found")
		return
	}
	for i, p := range s.params {
		s.r.ob("restored", "NewCIDOffer parameter "+s.newOffer.Params[i].Name(), p != "", s.u.Pos(s.newOffer.Pos()), "the parameter is not stored in the offer as it is")
	}
}

func isOfferPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeFull(p.Elem()) == tOffer
}

func offerFieldName(fa *ssa.FieldAddr) string {
	s := fieldName(fa.X.Type(), fa.Field)
	return s[strings.LastIndex(s, ".")+1:]
}

// getterField: the field a method of the offer returns.
func (s *sqlStoreCheck) getterField(name string) string {
	f := s.u.fn(name)
	if f == nil || f.Blocks == nil || f.Signature.Recv() == nil || len(f.Params) != 1 {
		return ""
	}
	out := ""
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(ret.Results) != 1 {
			return ""
		}
		v := ret.Results[0]
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return ""
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || !isOfferPtr(fa.X.Type()) || out != "" && out != offerFieldName(fa) {
			return ""
		}
		out = offerFieldName(fa)
	}
	return out
}

// encoded: strips the encoding off a value: the calls it went through, and what is encoded.
func (s *sqlStoreCheck) encoded(g *G, v Val) (encs []string, base Val, narrowed bool) {
	for k := 0; k < 20; k++ {
		v = g.resolve(v)
		switch x := v.v.(type) {
		case *ssa.Convert:
			if intWidth(x.Type()) < intWidth(x.X.Type()) && intWidth(x.Type()) > 0 {
				narrowed = true
			}
			v = Val{v.ctx, x.X}
			continue
		case *ssa.Slice:
			if x.Low != nil && !isZeroConst(x.Low) || x.High != nil {
				narrowed = true
			}
			v = Val{v.ctx, x.X}
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := g.resolve(Val{v.ctx, x.X})
				if al, ok := a.v.(*ssa.Alloc); ok {
					if st := singleStore(al); st != nil {
						v = Val{a.ctx, st.Val}
						continue
					}
				}
			}
		case *ssa.Alloc:
			if st := singleStore(x); st != nil {
				v = Val{v.ctx, st.Val}
				continue
			}
		case *ssa.Call, *ssa.Extract:
			c, i := callOf(v)
			if c == nil || i != 0 {
				return encs, v, narrowed
			}
			name := s.u.CalleeName(c)
			if sqlEncoder(name) {
				encs = append(encs, name)
				v = Val{v.ctx, args(c)[0]}
				continue
			}
		}
		break
	}
	return encs, v, narrowed
}

func sqlEncoder(name string) bool {
	switch name {
	case "common/pkg/nodeid.NodeID.ToString", "common/pkg/cid.ContentID.ToString", "encoding/hex.EncodeToString", "common/pkg/cidoffer.EncodeMessageDigest", "encoding/base64.Encoding.EncodeToString":
		return true
	}
	return false
}

var sqlInverse = map[string]string{
	"common/pkg/nodeid.NewNodeIDFromHexString": "common/pkg/nodeid.NodeID.ToString",
	"common/pkg/cid.NewContentIDFromHexString": "common/pkg/cid.ContentID.ToString",
}

// texts of an operation, parsed
func (s *sqlStoreCheck) parsed(g *G, o *sqlOp) []*sqlText {
	if o.text.v == nil {
		return nil
	}
	ts, ok := constString(g, o.text, 0)
	if !ok {
		return nil
	}
	var out []*sqlText
	for _, t := range ts {
		out = append(out, sqlParse(t))
	}
	return out
}

func (s *sqlStoreCheck) columns(f *ssa.Function, g *G, o *sqlOp, q *sqlText) {
	r := s.r
	where := g.where(o.n)
	if q.bad != "" {
		r.ob("parameters", short(f)+" "+q.kind+" "+q.table, false, where, "the statement is not one of the accepted forms: "+q.bad)
	}
	r.ob("parameters", short(f)+" "+q.kind+" "+q.table, o.known && len(o.params) == q.nparams, where, fmt.Sprintf("%d parameters are passed for %d placeholders", len(o.params), q.nparams))
	use := func(table, col string) {
		for t := range q.tables {
			if table != "" && t != table {
				continue
			}
			if tb := s.tables[t]; tb != nil {
				if typ, ok := tb.types[col]; ok {
					text := len(s.enc[t+"."+col]) > 0 || s.written[t+"."+col] == "signature"
					r.ob("table", t+"."+col, !text || !numericAffinity(typ), where, "text stored in a column of type "+typ+" may come back as a number")
					return
				}
			}
		}
		var ts []string
		for t := range q.tables {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		r.ob("table", strings.Join(ts, ",")+"."+col, false, where, "the column is not created")
	}
	for _, c := range q.cols {
		if !strings.HasPrefix(c, "?") {
			use(q.table, c)
		}
	}
	for _, c := range q.conds {
		if c.col != "" {
			use("", c.col)
		}
	}
	if q.kind == "select" && len(q.tables) > 1 {
		r.ob("join", short(f), q.joined["digest"], where, "rows of several tables are combined without comparing their digests")
	}
}

func (s *sqlStoreCheck) writer(g *G, f *ssa.Function) {
	r := s.r
	var writes []*sqlOp
	var commits []*Node
	txs := map[Val]bool{}
	inserted := map[string]bool{}
	for _, n := range g.nodes {
		o := sqlOpOf(g, n)
		if o == nil || !g.reachable(n) {
			continue
		}
		switch o.op {
		case "Commit":
			if _, isCall := n.instr.(*ssa.Call); isCall {
				commits = append(commits, n)
			}
		case "Begin":
			txs[Val{n.ctx, n.instr.(ssa.Value)}] = true
		case "Exec":
			writes = append(writes, o)
		}
	}
	// columns first: digest is needed to compare the conditions with
	for _, o := range writes {
		for _, q := range s.parsed(g, o) {
			if q.kind != "insert" {
				continue
			}
			inserted[q.table] = true
			for i, c := range q.cols {
				p, ok := q.bound[c]
				if !ok || p >= len(o.params) {
					r.ob("written", q.table+"."+c, false, g.where(o.n), "it is not written from a parameter")
					continue
				}
				_ = i
				what, why := s.source(g, o, o.params[p])
				key := q.table + "." + c
				encs, _, narrow := s.encoded(g, o.params[p])
				if narrow {
					why = "it is narrowed on the way"
				}
				if len(encs) > 1 {
					why = "it is encoded twice"
				}
				if w, dup := s.written[key]; dup && w != what && why == "" {
					why = "it is written from " + w + " elsewhere"
				}
				for k, w := range s.written {
					if why == "" && w == what && k != key && strings.HasPrefix(k, q.table+".") {
						why = k + " is written from the same field"
					}
				}
				r.ob("written", key, why == "" && what != "", g.where(o.n), "the column is not written from a field of the offer: "+why)
				if why == "" {
					s.written[key] = what
					if len(encs) == 1 {
						if e := s.enc[key]; e != "" && e != encs[0] {
							r.ob("written", key, false, g.where(o.n), "it is written in different encodings")
						}
						s.enc[key] = encs[0]
					}
					if what == "position" {
						s.position[c] = true
					}
				}
			}
		}
	}
	for _, o := range writes {
		where := g.where(o.n)
		recv := g.origins(o.recv)
		ok := len(recv) > 0
		for _, v := range recv {
			c, i := callOf(v)
			if c == nil || i != 0 || !txs[Val{v.ctx, c}] {
				ok = false
			}
		}
		if len(writes) > 1 || inLoop(o.n) {
			r.ob("all-or-nothing", short(f)+" write "+s.tableOf(g, o), ok && len(txs) == 1, where, "the row is not written in the transaction of the offer's other rows")
		}
		qs := s.parsed(g, o)
		if len(qs) == 0 {
			r.ob("parameters", short(f)+" Exec", false, where, "the statement is not known")
		}
		for _, q := range qs {
			s.columns(f, g, o, q)
			if q.kind != "insert" {
				r.ob("parameters", short(f)+" Exec", false, where, "adding an offer does something else than inserting rows")
				continue
			}
			tb := s.tables[q.table]
			if tb == nil {
				r.ob("table", q.table, false, where, "the table is not created")
				continue
			}
			// the key tells the rows apart
			var kinds []string
			for _, k := range tb.key {
				kinds = append(kinds, s.written[q.table+"."+k])
			}
			ks := strings.Join(kinds, " ")
			multi := inLoop(o.n)
			good := strings.Contains(ks, "digest") && (!multi || strings.Contains(ks, "position") || strings.Contains(ks, "content"))
			r.ob("key", q.table, good || len(tb.key) == 0, where, fmt.Sprintf("the primary key (%s) does not tell the rows of offers apart", strings.Join(tb.key, ", ")))
			if len(q.whereNE) > 0 {
				miss := ""
				for _, k := range tb.key {
					if !containsStr(q.whereNE, k) {
						miss = k
					}
				}
				if len(tb.key) == 0 {
					miss = "its key"
				}
				r.ob("key", short(f)+" "+q.table, miss == "", where, "the row is skipped without its "+miss+" having been compared")
				for _, c := range q.conds {
					p, okb := q.bound[c.col]
					if c.op != "=" || !okb || c.param >= len(o.params) || p >= len(o.params) || c.param == p {
						continue
					}
					same := sameValue(g, s, o.params[c.param], o.params[p])
					r.ob("key", short(f)+" "+q.table+"."+c.col, same, where, "what is compared is not what is written")
				}
			}
			// every content identifier
			for _, c := range q.cols {
				if s.written[q.table+"."+c] != "content" {
					continue
				}
				why := s.everyContent(g, f, o)
				r.ob("every-content", short(f)+" "+q.table, why == "", where, why)
			}
		}
	}
	for _, n := range commits {
		recv := g.origins(Val{n.ctx, args(n.instr.(*ssa.Call))[0]})
		for _, v := range recv {
			if c, _ := callOf(v); c == nil || !txs[Val{v.ctx, c}] {
				r.ob("all-or-nothing", short(f)+" commit", false, g.where(n), "what is committed is not the transaction begun")
			}
		}
		// nothing is written after the commit
		for _, o := range writes {
			if pathBetween(n, o.n, func(m *Node) bool { return !g.reachable(m) }) {
				r.ob("all-or-nothing", short(f)+" commit", false, g.where(o.n), "rows are written after the commit")
			}
		}
	}
	for tx := range txs {
		// looked at from the function that begins and commits it
		c := tx.ctx
		holds := func(c *Ctx) bool {
			for _, n := range commits {
				for x := n.ctx; x != nil; x = x.parent {
					if x == c {
						return true
					}
				}
			}
			return false
		}
		for c.parent != nil && !holds(c) {
			c = c.parent
		}
		h := g
		if c != g.root {
			h = sqlStoreGraph(s.u, c.fn)
		}
		stops := map[*Node]bool{}
		for _, n := range h.nodes {
			if o := sqlOpOf(h, n); o != nil && o.op == "Commit" {
				if _, isCall := n.instr.(*ssa.Call); isCall {
					stops[n] = true
				}
			}
		}
		bad := ""
		for e := range h.maybeSuccess() {
			if avoiding(h, h.root.first[h.root.fn.Blocks[0]], e, stops) {
				bad = h.where(e)
			}
		}
		if !hasErrorResult(c.fn) {
			bad = "all exits: " + short(c.fn) + " reports no error"
		}
		r.ob("all-or-nothing", short(f)+" commit", bad == "", bad, "success can be reported without the transaction having been committed")
	}
	// the fields of the offer are all written
	have := map[string]bool{}
	for k, w := range s.written {
		if inserted[k[:strings.Index(k, ".")]] {
			have[w] = true
		}
	}
	need := []string{"digest", "content", "position"}
	for _, p := range s.params {
		if p != "cids" && p != "" {
			need = append(need, p)
		}
	}
	for _, p := range s.setters {
		need = append(need, p)
	}
	for _, p := range need {
		r.ob("written", short(f)+" "+p, have[p], s.u.Pos(f.Pos()), "the "+p+" of the offer is not written")
	}
}

func (s *sqlStoreCheck) tableOf(g *G, o *sqlOp) string {
	for _, q := range s.parsed(g, o) {
		return q.table
	}
	return "?"
}

func containsStr(ss []string, x string) bool {
	for _, s := range ss {
		if s == x {
			return true
		}
	}
	return false
}

func inLoop(n *Node) bool {
	for c, i := n.ctx, n.instr; c != nil; {
		b := i.Block()
		if reachesBlock2(b) {
			return true
		}
		if c.site == nil {
			return false
		}
		i = c.site
		c = c.parent
	}
	return false
}

func reachesBlock2(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == b || reachesBlock(s, b, nil) {
			return true
		}
	}
	return false
}

func sameValue(g *G, s *sqlStoreCheck, a, b Val) bool {
	ea, va, na := s.encoded(g, a)
	eb, vb, nb := s.encoded(g, b)
	return strings.Join(ea, " ") == strings.Join(eb, " ") && na == nb && (va == vb || g.key(va).s == g.key(vb).s)
}

// source: what a column is written from.
func (s *sqlStoreCheck) source(g *G, o *sqlOp, v Val) (what, why string) {
	_, base, _ := s.encoded(g, v)
	if c, i := callOf(base); c != nil && i == 0 {
		name := s.u.CalleeName(c)
		if len(args(c)) > 0 {
			recv := g.resolve(Val{base.ctx, args(c)[0]})
			p, ok := recv.v.(*ssa.Parameter)
			if !ok || recv.ctx != g.root || !isOfferPtr(p.Type()) {
				return "", "it does not belong to the offer that is added"
			}
			if strings.HasSuffix(name, "CIDOffer.GetMessageDigest") {
				return "digest", ""
			}
			if fld := s.getterField(name); fld != "" {
				return fld, ""
			}
		}
		return "", "it is the result of " + name
	}
	// an element of the content identifiers, or a position
	if _, ok := s.contentElem(g, base); ok {
		return "content", ""
	}
	if s.counter(g, o, base) {
		return "position", ""
	}
	return "", "it is " + shortInstr(base.v)
}

// contentElem: an element of the list of content identifiers of the offer that is added; the index it is taken at.
func (s *sqlStoreCheck) contentElem(g *G, v Val) (Val, bool) {
	v = g.resolve(v)
	for k := 0; k < 12; k++ {
		switch x := v.v.(type) {
		case *ssa.UnOp:
			v = g.resolve(Val{v.ctx, x.X})
			continue
		case *ssa.Alloc:
			st := singleStore(x)
			if st == nil {
				return Val{}, false
			}
			v = g.resolve(Val{v.ctx, st.Val})
			continue
		case *ssa.IndexAddr:
			l := g.resolve(Val{v.ctx, x.X})
			if c, _ := callOf(l); c != nil && s.getterField(s.u.CalleeName(c)) == "cids" {
				return Val{v.ctx, x.Index}, true
			}
			return Val{}, false
		}
		return Val{}, false
	}
	return Val{}, false
}

// counter: a number that is different in every iteration and grows with the position.
func (s *sqlStoreCheck) counter(g *G, o *sqlOp, v Val) bool {
	v = g.resolve(v)
	for k := 0; k < 6; k++ {
		switch x := v.v.(type) {
		case *ssa.Convert:
			v = g.resolve(Val{v.ctx, x.X})
			continue
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				if _, isPhi := x.X.(*ssa.Phi); isPhi || true {
					v = g.resolve(Val{v.ctx, x.X})
					continue
				}
			}
			return false
		case *ssa.Phi:
			blocks := naturalLoop(x.Block())
			if blocks == nil {
				return false
			}
			for i, e := range x.Edges {
				if !blocks[x.Block().Preds[i]] {
					if _, ok := e.(*ssa.Const); !ok {
						return false
					}
					continue
				}
				b, ok := e.(*ssa.BinOp)
				if !ok || b.Op != token.ADD || b.X != x {
					return false
				}
				c, ok := b.Y.(*ssa.Const)
				if !ok || c.Value == nil || constant.Sign(c.Value) <= 0 {
					return false
				}
			}
			return true
		}
		return false
	}
	return false
}

func (s *sqlStoreCheck) everyContent(g *G, f *ssa.Function, o *sqlOp) string {
	fn := o.n.ctx.fn
	var ins ssa.Instruction = o.n.instr
	c := o.n.ctx
	for c != nil {
		for _, b := range fn.Blocks {
			li := indexLoop(b)
			if li == nil || li.src == nil || !li.blocks[ins.Block()] {
				continue
			}
			src := g.resolve(Val{c, li.src})
			if call, _ := callOf(src); call == nil || s.getterField(s.u.CalleeName(call)) != "cids" {
				continue
			}
			if li.breaks() {
				return "the loop over the content identifiers can end before the last one"
			}
			if !li.everyIteration(ins) {
				return "some content identifiers are passed over"
			}
			// the element written is the one the loop is at
			for _, q := range s.parsed(g, o) {
				for col, p := range q.bound {
					if s.written[q.table+"."+col] != "content" || p >= len(o.params) {
						continue
					}
					_, base, _ := s.encoded(g, o.params[p])
					idx, ok := s.contentElem(g, base)
					if !ok || g.resolve(idx).v != li.idx {
						return "the identifier written is not the one the loop is at"
					}
				}
			}
			return ""
		}
		if c.site == nil {
			break
		}
		ins = c.site
		c = c.parent
		fn = ins.Parent()
	}
	return "there is no loop over all content identifiers of the offer around it"
}

// ---- reading ----------------------------------------------------------------------------------------------------

type scanDest struct {
	op  *sqlOp
	col string
}

func (s *sqlStoreCheck) reader(g *G, f *ssa.Function) {
	r := s.r
	ops := map[*ssa.Call]map[*Ctx]*sqlOp{}
	for _, n := range g.nodes {
		o := sqlOpOf(g, n)
		if o == nil || !g.reachable(n) || o.op != "Query" && o.op != "QueryRow" {
			continue
		}
		call, ok := n.instr.(*ssa.Call)
		if !ok {
			continue
		}
		if ops[call] == nil {
			ops[call] = map[*Ctx]*sqlOp{}
		}
		ops[call][n.ctx] = o
	}
	// scan destinations
	dests := map[Val][]scanDest{}
	for _, n := range g.nodes {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		name := s.u.CalleeName(c)
		if name != "database/sql.Rows.Scan" && name != "database/sql.Row.Scan" {
			continue
		}
		var src *sqlOp
		one := true
		for _, v := range g.origins(Val{n.ctx, args(c)[0]}) {
			qc, _ := callOf(v)
			if qc == nil || ops[qc] == nil || ops[qc][v.ctx] == nil || src != nil {
				one = false
				continue
			}
			src = ops[qc][v.ctx]
		}
		els, known := variadic(g, Val{n.ctx, args(c)[len(args(c))-1]})
		if src == nil || !one || !known {
			r.ob("restored", short(f)+" scan", false, g.where(n), "what is read here is not known")
			continue
		}
		for _, q := range s.parsed(g, src) {
			r.ob("parameters", short(f)+" scan of "+strings.Join(q.cols, " "), len(q.cols) == len(els), g.where(n), fmt.Sprintf("%d columns are read into %d variables", len(q.cols), len(els)))
			for i, e := range els {
				a := g.resolve(e)
				if i < len(q.cols) {
					dests[a] = append(dests[a], scanDest{src, q.cols[i]})
				}
			}
		}
	}
	colOf := func(v Val) (string, bool) { // column a value was scanned from
		v = g.resolve(v)
		ld, ok := v.v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return "", false
		}
		a := g.resolve(Val{v.ctx, ld.X})
		ds := dests[a]
		if len(ds) == 0 || a.v.(ssa.Value) == nil {
			return "", false
		}
		if al, ok := a.v.(*ssa.Alloc); ok && len(allStores(al)) > 0 {
			return "", false
		}
		for _, d := range ds[1:] {
			if d.col != ds[0].col {
				return "", false
			}
		}
		return ds[0].col, true
	}
	fieldCol := func(field string) string {
		for k, w := range s.written {
			if w == field {
				return k[strings.Index(k, ".")+1:]
			}
		}
		return ""
	}
	colEnc := func(col string) string {
		for k, e := range s.enc {
			if strings.HasSuffix(k, "."+col) {
				return e
			}
		}
		return ""
	}
	colField := func(col string) string {
		for k, w := range s.written {
			if strings.HasSuffix(k, "."+col) {
				return w
			}
		}
		return ""
	}
	// conditions
	for _, m := range ops {
		for _, o := range m {
			qs := s.parsed(g, o)
			if len(qs) == 0 {
				r.ob("parameters", short(f)+" Query", false, g.where(o.n), "the statement is not known")
			}
			for _, q := range qs {
				s.columns(f, g, o, q)
				s.lookup(g, f, o, q, colOf, colEnc, colField)
				if ts, ok := constString(g, o.text, 0); ok {
					for _, t := range ts {
						why := s.visible(t, q, colField)
						r.ob("visible", short(f)+" "+strings.Join(q.cols, " "), why == "", g.where(o.n), "offers that were stored and have not expired are not found: "+why)
					}
				}
				if len(q.cols) == 1 && colField(q.cols[0]) == "content" || containsCol(q.cols, colField, "content") {
					ok := len(q.order) > 0 && s.position[q.order[0]] && !containsStr(q.order, "desc")
					r.ob("content-order", short(f), ok, g.where(o.n), "the content identifiers are not read in the order of the positions they were written with")
				}
			}
		}
	}
	// restored fields
	check := func(n *Node, field string, v Val) {
		want := fieldCol(field)
		why := ""
		if field == "cids" {
			why = s.contentRestored(g, v, colOf, fieldCol("content"))
		} else {
			why = s.columnRestored(g, v, want, colOf, colEnc)
		}
		r.ob("restored", short(f)+" "+field, why == "", g.where(n), "the "+field+" is not restored from the column it was written to: "+why)
	}
	made := 0
	for _, n := range g.nodes {
		c, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		name := s.u.CalleeName(c)
		if s.u.Callee(c) == s.newOffer && s.newOffer != nil {
			made++
			for i, a := range args(c) {
				if i < len(s.params) && s.params[i] != "" {
					check(n, s.params[i], Val{n.ctx, a})
				}
			}
			// every setter is called before the offer is handed out
			for set, fld := range s.setters {
				stops := map[*Node]bool{}
				for _, m := range g.nodes {
					if mc, ok := m.instr.(*ssa.Call); ok && !m.after && s.u.CalleeName(mc) == set {
						stops[m] = true
					}
				}
				bad := ""
				for e := range g.maybeSuccess() {
					// a way on which the offer is made and handed out without it
					if leadsUnset(g, n, e, stops) {
						bad = g.where(e)
					}
				}
				r.ob("restored", short(f)+" "+fld+" always", bad == "", g.where(n), "an offer can be handed out without its "+fld)
			}
		}
		if fld := s.setters[name]; fld != "" {
			check(n, fld, Val{n.ctx, args(c)[1]})
		}
	}
	r.ob("restored", short(f)+" made", made > 0, s.u.Pos(f.Pos()), "the lookup does not make the offers it returns with the constructor of offers")
}

// leadsUnset: the offer made at n is kept (appended, stored, returned) on a way that avoids the setters.
func leadsUnset(g *G, n, exit *Node, stops map[*Node]bool) bool {
	call := n.instr.(*ssa.Call)
	seen := map[*Node]bool{}
	st := []*Node{n}
	for len(st) > 0 {
		m := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range m.succs {
			if seen[e.to] || stops[e.to] || !g.reachable(e.to) {
				continue
			}
			es := g.edgeOut(e)
			if es.top || callFailed(g, es, n.ctx, call) {
				continue
			}
			if e.to == exit || e.to == n {
				return true
			}
			seen[e.to] = true
			st = append(st, e.to)
		}
	}
	return false
}

func containsCol(cols []string, kind func(string) string, want string) bool {
	for _, c := range cols {
		if kind(c) == want {
			return true
		}
	}
	return false
}

func (s *sqlStoreCheck) columnRestored(g *G, v Val, want string, colOf func(Val) (string, bool), colEnc func(string) string) string {
	if want == "" {
		return "it is not written"
	}
	decoded := ""
	for k := 0; k < 20; k++ {
		if col, ok := colOf(v); ok {
			if col != want {
				return "it is read from " + col
			}
			if colEnc(col) != decoded {
				return "it is written with " + colEnc(col) + " and not read with its inverse"
			}
			return ""
		}
		v = g.resolve(v)
		switch x := v.v.(type) {
		case *ssa.Phi:
			why, n := "", 0
			for _, o := range g.origins(v) {
				if isNilConst(o.v) || o == v {
					continue
				}
				n++
				if decoded != "" {
					why = "what is decoded is one of several values"
				} else if w := s.columnRestored(g, o, want, colOf, colEnc); w != "" {
					why = w
				}
			}
			if n == 0 {
				why = "nothing"
			}
			return why
		case *ssa.Convert:
			if intWidth(x.Type()) > 0 && intWidth(x.Type()) < intWidth(x.X.Type()) {
				return "it is narrowed"
			}
			v = Val{v.ctx, x.X}
			continue
		case *ssa.Call, *ssa.Extract:
			c, i := callOf(v)
			if c == nil {
				break
			}
			inv := sqlInverse[g.u.CalleeName(c)]
			if inv == "" || i != 0 || decoded != "" {
				return "it passes through " + g.u.CalleeName(c)
			}
			decoded = inv
			v = Val{v.ctx, args(c)[0]}
			continue
		}
		break
	}
	return "it is " + shortInstr(v.v)
}

// contentRestored: the list holds the decoded content column of the rows of this very offer.
func (s *sqlStoreCheck) contentRestored(g *G, v Val, colOf func(Val) (string, bool), want string) string {
	n, why := 0, ""
	seen := map[Val]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		for _, o := range g.origins(v) {
			if seen[o] {
				continue
			}
			seen[o] = true
			switch x := o.v.(type) {
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					walk(Val{o.ctx, x.Call.Args[0]})
					els := varargs(x.Call.Args[1])
					if els == nil {
						why = "what is appended is not known"
					}
					for _, e := range els {
						for _, eo := range g.origins(Val{o.ctx, e}) {
							ev := eo
							if ld, ok := ev.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
								if _, scanned := colOf(ev); !scanned {
									ev = Val{ev.ctx, ld.X}
								}
							}
							n++
							if w := s.columnRestored(g, ev, want, colOf, func(string) string { return "common/pkg/cid.ContentID.ToString" }); w != "" {
								why = w
							}
						}
					}
					continue
				}
			case *ssa.Slice, *ssa.MakeSlice:
				if emptySlice(o.v) {
					continue
				}
			case *ssa.Const:
				if x.Value == nil {
					continue
				}
			}
			if emptySlice(o.v) {
				continue
			}
			why = "part of it is " + shortInstr(o.v)
		}
	}
	walk(v)
	if why == "" && n == 0 {
		why = "nothing is put into it"
	}
	return why
}

// visible: what hides an offer from a lookup other than the identifier asked for and its expiry.
func (s *sqlStoreCheck) visible(text string, q *sqlText, colField func(string) string) string {
	ts := sqlTokens(text)
	on := false
	for i, t := range ts {
		switch t {
		case "where", "on":
			on = true
		case "from", "order", "join", "inner", "limit", ")":
			on = on && t == ")"
		}
		if t == "or" || t == "not" || t == "group" || t == "having" || t == "except" || t == "intersect" {
			return "it contains \"" + t + "\""
		}
		if t == "limit" && i+1 < len(ts) && ts[i+1] != "?" {
			one := false
			for _, c := range q.conds {
				one = one || c.op == "=" && colField(c.col) == "digest"
			}
			if !one || ts[i+1] == "0" {
				return "it is limited to " + ts[i+1] + " rows"
			}
		}
		if !on || !sqlName(t) {
			continue
		}
		next := ""
		if i+1 < len(ts) {
			next = ts[i+1]
		}
		switch t {
		case "where", "on", "and", "between", "is", "as", "cast", "integer", "int", "strftime", "unixepoch", "using":
			continue
		case "datetime", "date", "julianday", "time":
			return "times after the year 9999 have no " + t
		}
		if next == "(" {
			return "it uses " + t
		}
		switch k := colField(sqlCol(t)); k {
		case "digest", "content", "expiry":
		default:
			if k == "" && !strings.Contains(t, ".") && q.tables[t] {
				continue
			}
			if k == "" && i > 0 && ts[i-1] == ")" {
				on = false // the name given to a subselect
				continue
			}
			return "it depends on " + t
		}
	}
	return ""
}

func (s *sqlStoreCheck) lookup(g *G, f *ssa.Function, o *sqlOp, q *sqlText, colOf func(Val) (string, bool), colEnc, colField func(string) string) {
	r := s.r
	where := g.where(o.n)
	lower, upper := -1, -1
	eq := 0
	for _, c := range q.conds {
		if c.col == "" || c.param >= len(o.params) {
			continue
		}
		kind := colField(c.col)
		if kind != "digest" && kind != "content" {
			continue
		}
		name := short(f) + " " + c.col + " " + c.op
		v := o.params[c.param]
		encs, base, narrow := s.encoded(g, v)
		// a column of the row at hand
		if col, ok := colOf(v); ok {
			r.ob("lookup", name+" row", colField(col) == kind && c.op == "=", where, "the "+c.col+" is compared with the column "+col)
			eq++
			continue
		}
		p, isParam := base.v.(*ssa.Parameter)
		enc := strings.Join(encs, " ")
		good := isParam && base.ctx == g.root && !narrow
		why := "it is not compared with what the lookup was asked for"
		idx := -1
		if good {
			for i, q := range g.root.fn.Params {
				if q == p {
					idx = i
				}
			}
			if enc != colEnc(c.col) {
				good, why = false, "it is compared in another encoding ("+enc+") than it was written in ("+colEnc(c.col)+")"
			}
		}
		switch c.op {
		case "=":
			eq++
		case ">=":
			lower = idx
		case "<=":
			upper = idx
		default:
			good, why = false, "it is compared with "+c.op
		}
		r.ob("lookup", name, good, where, "the "+c.col+": "+why)
	}
	if lower >= 0 || upper >= 0 {
		r.ob("lookup", short(f)+" range", lower >= 0 && upper > lower, where, "the range is not from the first to the second identifier asked for")
	} else {
		r.ob("lookup", short(f)+" selects", eq > 0, where, "rows are selected without comparing digest or content identifier")
	}
}
