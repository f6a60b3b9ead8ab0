package main

// P30: identifiers.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P30", "Flow analysis of every constructor of NodeID and ContentID, of their string form, of their JSON methods, and of every comparison and write of identifiers and their bytes in all modules.",
		[]string{"common", "gateway", "provider", "client"}, func(r *Run) {
			r.rule("constructor-length", "the bytes of an identifier are a fresh array of 32 bytes")
			r.rule("constructor-fill", "the array is only filled whole: at random, or with all of a source known to be at most 32 long, ending at the end of the array; on every success path of a function that builds an identifier that happened")
			r.rule("string-form", "ToString is the hexadecimal form of all bytes")
			r.rule("bytes-form", "ToBytes returns the identifier's bytes")
			r.rule("equality-by-value", "identifiers are not compared by address, and Equals compares all bytes of both")
			r.rule("bytes-not-written", "no code writes into the bytes of an identifier after construction")
			r.rule("field-write", "the byte field of an identifier is only assigned by the functions checked under constructor-length")
			u := r.U("common")
			checked := map[*ssa.Function]bool{}
			for _, typ := range []string{"common/pkg/nodeid.NodeID", "common/pkg/cid.ContentID"} {
				pkg := typ[:strings.LastIndex(typ, ".")]
				for _, f := range pkgFuncs(u, pkg) {
					x := newIdentFill(u, f, typ)
					if x == nil {
						continue
					}
					for n := range x.set {
						checked[n.ctx.fn] = true
					}
					r.count("functions writing an identifier", 1)
					x.report(r)
				}
				if f := u.fn(typ + ".ToString"); f != nil {
					g := codecGraph(u, f)
					fl := newFlow(g)
					set := map[string]bool{}
					for _, t := range g.successes() {
						for _, o := range g.origins(t.vals[0]) {
							set[fl.of(o)] = true
						}
					}
					delete(set, "const:00")
					r.ob("string-form", typ, alt(set) == "encoding/hex.EncodeToString#0(r.id)" || alt(set) == `fmt.Sprintf#0(const:%x,r.id)`, u.Pos(f.Pos()), "ToString returns "+alt(set))
				} else {
					r.ob("string-form", typ, false, "-", "ToString not found")
				}
				if f := u.fn(typ + ".ToBytes"); f != nil {
					g := codecGraph(u, f)
					fl := newFlow(g)
					set := map[string]bool{}
					for _, t := range g.successes() {
						set[fl.of(t.vals[0])] = true
					}
					r.ob("bytes-form", typ, alt(set) == "r.id" || strings.HasPrefix(alt(set), "fill") && strings.HasSuffix(alt(set), "@const:0(r.id)"), u.Pos(f.Pos()), "ToBytes returns "+alt(set))
				}
				if f := u.fn(typ + ".Equals"); f != nil {
					g := codecGraph(u, f)
					fl := newFlow(g)
					for _, t := range g.successes() {
						s := fl.of(t.vals[0])
						r.ob("equality-by-value", FuncName(f), equalsFlow(s), g.where(t.node), "Equals returns "+s)
					}
				}
			}
			r.floor("constructor-length", 6)
			for _, mod := range []string{"common", "gateway", "provider", "client"} {
				um := r.U(mod)
				for _, f := range um.Funcs {
					if f.Pkg == nil || !um.Roots[f.Pkg] {
						continue
					}
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							identUse(um, r, f, ins, checked)
						}
					}
				}
			}
		})
}

func equalsFlow(s string) bool {
	l := func(x string) bool {
		return strings.HasPrefix(x, "hex(") || strings.HasPrefix(x, "encoding/hex.EncodeToString#0(") || strings.HasPrefix(x, "bytes(") || strings.HasSuffix(x, ".id")
	}
	if strings.HasPrefix(s, "bytes.Equal#0(") {
		p := strings.SplitN(s[len("bytes.Equal#0("):len(s)-1], ",", 2)
		return len(p) == 2 && l(p[0]) && l(p[1]) && p[0] != p[1]
	}
	if strings.HasPrefix(s, "(") && strings.Contains(s, "==") {
		p := strings.SplitN(s[1:len(s)-1], "==", 2)
		if p[1] == "const:0" && strings.HasPrefix(p[0], "bytes.Compare#0(") {
			return true
		}
		return l(p[0]) && l(p[1]) && p[0] != p[1]
	}
	return false
}

func isIdent(full string) bool {
	return full == "common/pkg/nodeid.NodeID" || full == "common/pkg/cid.ContentID"
}

func identUse(u *Universe, r *Run, f *ssa.Function, ins ssa.Instruction, checked map[*ssa.Function]bool) {
	switch x := ins.(type) {
	case *ssa.BinOp:
		if (x.Op == token.EQL || x.Op == token.NEQ) && isPtrTo(x.X, isIdent) && isPtrTo(x.Y, isIdent) && !isNilConst(x.X) && !isNilConst(x.Y) {
			r.ob("equality-by-value", FuncName(f)+" compares identifiers by address", false, u.Pos(x.Pos()), "two identifiers are compared as pointers")
		}
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isIdent(typeFull(fa.X.Type())) {
			r.ob("field-write", FuncName(f), checked[f] || inCommon(f), u.Pos(x.Pos()), "the bytes of an identifier are replaced outside its constructors")
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && fromIdentBytes(u, ia.X) {
			r.ob("bytes-not-written", FuncName(f), false, u.Pos(x.Pos()), "a byte of an identifier is overwritten")
		}
	case *ssa.Call:
		n := u.CalleeName(x)
		as := args(x)
		switch {
		case n == "builtin.copy" && fromIdentBytes(u, as[0]):
			r.ob("bytes-not-written", FuncName(f), false, u.Pos(x.Pos()), "the bytes of an identifier are overwritten")
		case strings.HasSuffix(n, ".ToBytes") && isIdent(strings.TrimSuffix(n, ".ToBytes")):
			r.ob("bytes-not-written", FuncName(f), true, u.Pos(x.Pos()), "")
		case (n == "encoding/hex.Decode" || n == "crypto/rand.Read" || strings.HasSuffix(n, "littleEndian.PutUint64") || strings.HasSuffix(n, "bigEndian.PutUint64")) && len(as) > 0:
			for _, a := range as[:1] {
				if fromIdentBytes(u, a) {
					r.ob("bytes-not-written", FuncName(f), false, u.Pos(x.Pos()), "the bytes of an identifier are overwritten")
				}
			}
		}
	}
}

func inCommon(f *ssa.Function) bool {
	return false
}

func isPtrTo(v ssa.Value, p func(string) bool) bool {
	t := v.Type()
	return deref(t) != t && p(typeFull(t))
}

// fromIdentBytes: the slice is (part of) what ToBytes of an identifier returned.
func fromIdentBytes(u *Universe, v ssa.Value) bool {
	for k := 0; k < 10; k++ {
		switch x := v.(type) {
		case *ssa.Call:
			n := u.CalleeName(x)
			return strings.HasSuffix(n, ".ToBytes") && isIdent(strings.TrimSuffix(n, ".ToBytes"))
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Phi:
			if len(x.Edges) == 0 {
				return false
			}
			v = x.Edges[0]
		default:
			return false
		}
	}
	return false
}
