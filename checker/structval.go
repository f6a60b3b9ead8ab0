package main

// Values kept in a field of a local struct: a parameter object or a result object stands for what was stored in it.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type fieldID struct {
	t *types.Named
	i int
}

// plainFields: whether every store to a field of a struct of the repository names a local object directly, so that no
// store elsewhere can reach an object this way; computed once per universe.
func (u *Universe) plainField(t *types.Named, i int) bool {
	if u.unplain == nil {
		u.unplain = map[fieldID]bool{}
		named := func(t types.Type) *types.Named {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			n, _ := types.Unalias(t).(*types.Named)
			return n
		}
		for _, f := range u.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.FieldAddr:
						n := named(x.X.Type())
						if n == nil {
							continue
						}
						_, local := x.X.(*ssa.Alloc)
						for _, r := range *x.Referrers() {
							switch y := r.(type) {
							case *ssa.Store:
								if y.Addr != x || !local {
									u.unplain[fieldID{n, x.Field}] = true
								}
							case *ssa.UnOp, *ssa.DebugRef:
							default:
								u.unplain[fieldID{n, x.Field}] = true
							}
						}
					case *ssa.Store:
						n := named(x.Addr.Type())
						if n == nil {
							continue
						}
						st, ok := n.Underlying().(*types.Struct)
						if !ok {
							continue
						}
						if _, local := x.Addr.(*ssa.Alloc); !local {
							for k := 0; k < st.NumFields(); k++ {
								u.unplain[fieldID{n, k}] = true
							}
						}
					case *ssa.MakeInterface:
						// an object reached by pointer through an interface may be filled by anyone
						if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
							continue
						}
						if n := named(x.X.Type()); n != nil {
							if st, ok := n.Underlying().(*types.Struct); ok {
								for k := 0; k < st.NumFields(); k++ {
									u.unplain[fieldID{n, k}] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return !u.unplain[fieldID{t, i}]
}

// fieldValue: what is in field i of the object v is (or points to), where exactly one value was ever put there.
func (g *G) fieldValue(v Val, i int, d int) (Val, bool) {
	if d > 6 {
		return v, false
	}
	t := v.v.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Exported() || !g.u.plainField(n, i) {
		return v, false
	}
	v = g.resolve(v)
	if ld, ok := v.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if _, isPtr := ld.Type().Underlying().(*types.Pointer); isPtr {
			return v, false
		}
		v = g.resolve(Val{v.ctx, ld.X})
	}
	al, ok := v.v.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return v, false
	}
	var one *ssa.Store
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field != i {
				continue
			}
			for _, rr := range *x.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == x {
					if one != nil {
						return v, false
					}
					one = s
				}
			}
		case *ssa.Store:
			if x.Addr != al {
				continue // kept somewhere: no store reaches the field by another name
			}
			if isZeroConst(x.Val) {
				continue
			}
			if one != nil {
				return v, false
			}
			one = x
		}
	}
	if one == nil {
		return v, false
	}
	if one.Addr == al {
		return g.fieldValue(Val{v.ctx, one.Val}, i, d+1)
	}
	return Val{v.ctx, one.Val}, true
}
