package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// digestText: the text form of a digest is the whole digest, written and read in the same alphabet.
func digestText(r *Run, u *Universe, rule string) {
	const pk = "common/pkg/cidoffer"
	alphabet := map[string]string{}
	for _, nm := range []string{"EncodeMessageDigest", "DecodeMessageDigest"} {
		f := u.fn(pk + "." + nm)
		if f == nil {
			continue
		}
		g := NewG(u, f, &Config{})
		g.Solve()
		cut := ""
		for _, n := range g.nodes {
			if n.after || !g.reachable(n) {
				continue
			}
			switch x := n.instr.(type) {
			case *ssa.Slice:
				if x.Low != nil {
					if k, ok := intConst(g, Val{n.ctx, x.Low}); ok && k > 0 {
						cut = u.Pos(x.Pos())
					}
				}
				if x.High == nil {
					continue
				}
				if k, ok := intConst(g, Val{n.ctx, x.High}); ok && k < 32 {
					cut = u.Pos(x.Pos())
				}
			case *ssa.Call:
				name := u.CalleeName(x)
				i := strings.LastIndex(name, ".")
				if !strings.HasPrefix(name, "encoding/") || i < 0 || !(strings.HasPrefix(name[i+1:], "EncodeToString") || strings.HasPrefix(name[i+1:], "DecodeString") || name[i+1:] == "Encode" || name[i+1:] == "Decode" || strings.HasPrefix(name[i+1:], "AppendEncode") || strings.HasPrefix(name[i+1:], "AppendDecode")) {
					continue
				}
				a := name[:i]
				if len(args(x)) > 0 {
					if ld, ok := g.resolve(Val{n.ctx, args(x)[0]}).v.(*ssa.UnOp); ok {
						if gl, ok := ld.X.(*ssa.Global); ok {
							a += " " + gl.Name()
						}
					}
				}
				alphabet[nm] = a
			}
		}
		r.ob(rule, nm+": the whole digest", cut == "", u.Pos(f.Pos()), "only part of the digest is taken (at "+cut+")")
	}
	if len(alphabet) == 2 {
		a, b := alphabet["EncodeMessageDigest"], alphabet["DecodeMessageDigest"]
		r.ob(rule, "text of a digest", a == b, "common/pkg/cidoffer", "written as "+a+" but read as "+b)
	}
}
