package main

// What the rules know about this repository: which functions are handlers and requesters, and what the calls of the
// project's own primitives mean.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tP2PReader = "common/pkg/fcrp2pserver.FCRServerReader"
	tP2PWriter = "common/pkg/fcrp2pserver.FCRServerWriter"
	tMsg       = "common/pkg/fcrmessages.FCRMessage"
)

func sigIs(s *types.Signature, params, results []string) bool {
	if s.Params().Len() != len(params) || s.Results().Len() != len(results) {
		return false
	}
	for i, p := range params {
		if p != "*" && typeFull(s.Params().At(i).Type()) != p {
			return false
		}
	}
	for i, p := range results {
		if p != "*" && typeFull(s.Results().At(i).Type()) != p {
			return false
		}
	}
	return true
}

// addressTaken: functions used as values (not merely called) somewhere in the universe's repo code.
func (u *Universe) addressTaken() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range u.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops [16]*ssa.Value
				call, isCall := ins.(ssa.CallInstruction)
				for _, op := range ins.Operands(ops[:0]) {
					fn, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if isCall && !call.Common().IsInvoke() && call.Common().Value == fn {
						isArg := false
						for _, a := range call.Common().Args {
							if a == fn {
								isArg = true
							}
						}
						if !isArg {
							continue
						}
					}
					out[fn] = true
				}
			}
		}
	}
	return out
}

type handlerKind int

const (
	hPeer handlerKind = iota
	hREST
	hRequester
)

// handlers: address-taken functions of the module under analysis with the given role's signature.
func (u *Universe) handlers(k handlerKind) []*ssa.Function {
	var out []*ssa.Function
	for f := range u.addressTaken() {
		if f.Blocks == nil || f.Pkg == nil || !u.Roots[f.Pkg] {
			continue
		}
		if strings.Contains(f.Pkg.Pkg.Path(), "mock") {
			continue
		}
		s := f.Signature
		ok := false
		switch k {
		case hPeer:
			ok = sigIs(s, []string{tP2PReader, tP2PWriter, tMsg}, []string{"error"})
		case hREST:
			ok = sigIs(s, []string{"github.com/ant0ine/go-json-rest/rest.ResponseWriter", tMsg}, nil)
		case hRequester:
			ok = s.Variadic() && sigIs(s, []string{tP2PReader, tP2PWriter, "*"}, []string{tMsg, "error"})
		}
		if ok {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return FuncName(out[i]) < FuncName(out[j]) })
	return out
}

func short(f *ssa.Function) string { return FuncName(f) }
