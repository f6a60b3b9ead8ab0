package main

// P19: sender and receiver of a peer message agree on its frame; the frame is bounded, written as one unit, read in full,
// and a connection whose stream is out of step is not used again.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nFromBytes = "common/pkg/fcrmessages.FCRMsgFromBytes"
	nToBytes   = "common/pkg/fcrmessages.FCRMessage.FCRMsgToBytes"
)

// connish: the value is a connection, or a buffered reader or writer around one ("conn", "buf").
func connish(g *G, v Val) string {
	for k := 0; k < 20; k++ {
		v = g.resolve(v)
		if isConnType(v.v.Type()) || isConnPtr(v.v.Type()) {
			return "conn"
		}
		switch x := v.v.(type) {
		case *ssa.MakeInterface:
			v = Val{v.ctx, x.X}
		case *ssa.ChangeInterface:
			v = Val{v.ctx, x.X}
		case *ssa.Call:
			n := g.u.CalleeName(x)
			if strings.HasPrefix(n, "bufio.New") && len(x.Call.Args) > 0 {
				if connish(g, Val{v.ctx, x.Call.Args[0]}) != "" {
					return "buf"
				}
			}
			return ""
		default:
			os := g.origins(v)
			if len(os) == 1 && os[0] != v {
				v = os[0]
				continue
			}
			return ""
		}
	}
	return ""
}

func isConnPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && isConnType(p.Elem())
}

// rawIO: the call moves bytes over a connection ("read", "write", "flush").
func rawIO(g *G, n *Node) (kind string, buffered bool) {
	call, ok := n.instr.(ssa.CallInstruction)
	if !ok || n.after || n.ctx.children[n.instr] != nil {
		return "", false
	}
	name := g.u.CalleeName(call)
	if name == "" || strings.HasPrefix(name, "bufio.New") || strings.HasPrefix(name, "builtin.") || strings.Contains(name, p2pPkg) {
		return "", false
	}
	base := name[strings.LastIndex(name, ".")+1:]
	what := ""
	for _, a := range args(call) {
		if c := connish(g, Val{n.ctx, a}); c != "" {
			what = c
			break
		}
	}
	if what == "" {
		return "", false
	}
	switch {
	case strings.HasPrefix(base, "Read") || base == "Peek" || base == "Discard" || base == "Copy" || base == "CopyN" || base == "CopyBuffer":
		kind = "read"
		if strings.HasPrefix(base, "Copy") && connish(g, Val{n.ctx, args(call)[0]}) != "" {
			kind = "write"
		}
	case strings.HasPrefix(base, "Write"):
		kind = "write"
	case base == "Flush":
		kind = "flush"
	case base == "Fprint" || base == "Fprintf" || base == "Fprintln":
		kind = "write"
	default:
		return "", false
	}
	return kind, what == "buf"
}

type intCode struct{ order, width string }

// intCoding: the call converts between bytes and an unsigned integer of fixed width.
func intCoding(name string) (verb string, c intCode, ok bool) {
	const p = "encoding/binary."
	if !strings.HasPrefix(name, p) {
		return
	}
	s := strings.Split(name[len(p):], ".")
	if len(s) != 2 {
		return
	}
	order, m := s[0], s[1]
	for _, v := range []string{"PutUint", "AppendUint", "Uint"} {
		if strings.HasPrefix(m, v) {
			return v, intCode{strings.TrimSuffix(order, "Endian"), m[len(v):]}, true
		}
	}
	return
}

func (c intCode) bytes() int64 { return int64(atoi(c.width) / 8) }

// frameFuncs: the smallest functions whose expansion converts a message, codes a length and moves bytes over a connection.
func frameFuncs(u *Universe, conv, io string, mk func(f *ssa.Function) *G) map[*ssa.Function]*G {
	out := map[*ssa.Function]*G{}
	has := map[*ssa.Function]bool{}
	var fs []*ssa.Function
	for _, f := range u.Funcs {
		if f.Blocks == nil || !strings.HasPrefix(FuncName(f), p2pPkg) {
			continue
		}
		fs = append(fs, f)
	}
	graphs := map[*ssa.Function]*G{}
	for _, f := range fs {
		if !mentions(u, f, conv, map[*ssa.Function]bool{}) {
			continue
		}
		g := mk(f)
		c, i, l := false, false, false
		for _, n := range g.nodes {
			if call, ok := n.instr.(ssa.CallInstruction); ok && !n.after {
				if u.CalleeName(call) == conv {
					c = true
				}
				if _, _, ok := intCoding(u.CalleeName(call)); ok || strings.HasPrefix(u.CalleeName(call), "encoding/binary.") {
					l = true
				}
				if k, _ := rawIO(g, n); k == io {
					i = true
				}
			}
		}
		if c && i && l {
			has[f] = true
			graphs[f] = g
		}
	}
	for f, g := range graphs {
		small := true
		for _, c := range g.ctxs {
			if c.fn != f && has[c.fn] {
				small = false
			}
		}
		if small {
			out[f] = g
		}
	}
	return out
}

func mentions(u *Universe, f *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || f.Blocks == nil || !strings.HasPrefix(FuncName(f), p2pPkg) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok {
				if fn, ok := mc.Fn.(*ssa.Function); ok && mentions(u, fn, name, seen) {
					return true
				}
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				if u.CalleeName(c) == name {
					return true
				}
				if mentions(u, u.Callee(c), name, seen) {
					return true
				}
			}
		}
	}
	return false
}

func tokKey(g *G, v Val) Key { return Key{s: g.token(v), roots: []Val{v}} }

// frameFacts: what the outcome of a call on the connection tells.
func frameFacts(g *G, c *Ctx, call ssa.CallInstruction, name string) []CondFact {
	cl, ok := call.(*ssa.Call)
	if !ok {
		return nil
	}
	base := name[strings.LastIndex(name, ".")+1:]
	switch base {
	case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
		if connish(g, Val{c, args(call)[0]}) == "" {
			return nil
		}
		if !fromTimeout(g, Val{c, args(call)[1]}) {
			return nil
		}
		var out []CondFact
		if base != "SetWriteDeadline" {
			out = append(out, CondFact{-1, True, mkFact("readlimit", Key{s: "conn"})})
		}
		if base != "SetReadDeadline" {
			out = append(out, CondFact{-1, True, mkFact("writelimit", Key{s: "conn"})})
		}
		return out
	case "Timeout":
		if strings.HasPrefix(name, "net.") || strings.HasPrefix(name, "os.") {
			return []CondFact{{0, True, mkFact("instep", Key{s: "conn"})}}
		}
	case "IsTimeout", "Is":
		if name == "errors.Is" && strings.Contains(g.key(Val{c, args(call)[1]}).s, "ErrDeadlineExceeded") || name == "os.IsTimeout" {
			return []CondFact{{0, True, mkFact("instep", Key{s: "conn"})}}
		}
	}
	if e := errIndex(call.Common().Signature()); e >= 0 {
		t := tokKey(g, Val{c, cl})
		out := []CondFact{{e, IsNil, mkFact("did", t)}}
		if uses(g, c, call) {
			out = append(out, CondFact{e, IsNil, mkFact("instep", Key{s: "conn"})})
		}
		return out
	}
	return nil
}

// uses: the call, not expanded here, uses a peer connection or one of its ends.
func uses(g *G, c *Ctx, call ssa.CallInstruction) bool {
	if n := c.nodes[call]; n != nil {
		if k, _ := rawIO(g, n); k != "" {
			return true
		}
	}
	name := g.u.CalleeName(call)
	base := name[strings.LastIndex(name, ".")+1:]
	if base == "Close" || strings.HasPrefix(base, "Set") || base == "RemoteAddr" || base == "LocalAddr" || strings.HasPrefix(name, "builtin.") || strings.HasPrefix(name, "bufio.New") {
		return false
	}
	if c.children[call] != nil {
		return false
	}
	for _, a := range args(call) {
		if isChannelEnd(a.Type()) || isConnType(a.Type()) {
			return true
		}
	}
	return false
}

// fromTimeout: now plus a duration that the function was given.
func fromTimeout(g *G, t Val) bool {
	os := g.origins(t)
	for _, o := range os {
		call, ok := o.v.(*ssa.Call)
		if !ok || g.u.CalleeName(call) != "time.Time.Add" {
			return false
		}
		now, ok := g.resolve(Val{o.ctx, call.Call.Args[0]}).v.(*ssa.Call)
		if !ok || g.u.CalleeName(now) != "time.Now" {
			return false
		}
		for _, d := range g.origins(Val{o.ctx, call.Call.Args[1]}) {
			if _, isParam := d.v.(*ssa.Parameter); !isParam {
				return false
			}
		}
	}
	return len(os) > 0
}

func frameGraph(u *Universe, f *ssa.Function) *G {
	g := NewG(u, f, &Config{
		ValueFacts: true,
		Opaque:     func(name string, k *ssa.Function) bool { return !strings.HasPrefix(FuncName(k), p2pPkg) },
		CallFacts:  frameFacts,
		NodeKill: func(g *G, n *Node, f *Fact) bool {
			switch f.pred {
			case "flushed":
				k, _ := rawIO(g, n)
				return k == "write"
			case "instep":
				call, ok := n.instr.(ssa.CallInstruction)
				return ok && !n.after && uses(g, n.ctx, call)
			}
			return false
		},
	})
	g.Solve()
	return g
}

// wholeBuf: the allocation the slice is all of.
func wholeBuf(g *G, v Val) (Val, bool) {
	for k := 0; k < 20; k++ {
		v = g.resolve(v)
		switch x := v.v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			return v, true
		case *ssa.Slice:
			if x.Low != nil && !isConst(g.affine(Val{v.ctx, x.Low}, 0), 0) {
				return v, false
			}
			if x.High != nil {
				whole := g.affineTerm(g.lenOf(Val{v.ctx, x.X}))
				if n, ok := arrayLen(x.X.Type()); ok {
					whole = map[string]int64{"": n}
				}
				if !isConst(plus(g.affine(Val{v.ctx, x.High}, 0), whole, -1), 0) {
					return v, false
				}
			}
			v = Val{v.ctx, x.X}
		default:
			os := g.origins(v)
			if len(os) == 1 && os[0] != v {
				v = os[0]
				continue
			}
			return v, false
		}
	}
	return v, false
}

// filledAt: the buffer is known to have been read in full.
func filledAt(g *G, n *Node, buf Val) bool {
	for _, m := range g.nodes {
		if k, _ := rawIO(g, m); k != "read" {
			continue
		}
		call := m.instr.(ssa.CallInstruction)
		name := g.u.CalleeName(call)
		as := args(call)
		if len(as) < 2 {
			continue
		}
		if cl, ok := m.instr.(*ssa.Call); ok {
			if b, ok := wholeBuf(g, Val{m.ctx, as[1]}); ok && b == buf {
				if name == "io.ReadFull" && g.has(n, mkFact("did", tokKey(g, Val{m.ctx, cl}))) {
					return true
				}
				if name == "io.ReadAtLeast" && g.has(n, mkFact("did", tokKey(g, Val{m.ctx, cl}))) && isConst(plus(g.affine(Val{m.ctx, as[2]}, 0), g.affineTerm(g.lenOf(buf)), -1), 0) {
					return true
				}
			}
			// a loop reading what is still missing
			sl, ok := g.resolve(Val{m.ctx, as[1]}).v.(*ssa.Slice)
			if !ok || sl.Low == nil || sl.High != nil {
				continue
			}
			sc := g.resolve(Val{m.ctx, as[1]}).ctx
			if b, ok := wholeBuf(g, Val{sc, sl.X}); !ok || b != buf {
				continue
			}
			phi, ok := g.resolve(Val{sc, sl.Low}).v.(*ssa.Phi)
			if !ok {
				continue
			}
			fine := true
			for _, e := range phi.Edges {
				switch y := e.(type) {
				case *ssa.Const:
					fine = fine && y.Int64() == 0
				case *ssa.BinOp:
					got, isN := y.Y.(*ssa.Extract)
					if y.Y == ssa.Value(phi) {
						got, isN = y.X.(*ssa.Extract)
					}
					fine = fine && y.Op == token.ADD && isN && got.Tuple == ssa.Value(cl) && got.Index == 0 && (y.X == ssa.Value(phi) || y.Y == ssa.Value(phi))
				default:
					fine = false
				}
			}
			if fine && newBounds(g, n.in).known(g.lenOf(buf), g.linOf(Val{sc, phi}), 0) {
				return true
			}
		}
	}
	return false
}

// codedInt: the integer is what one conversion from bytes gave, unchanged.
func codedInt(g *G, v Val) (*ssa.Call, *Ctx, intCode, bool) {
	for k := 0; k < 20; k++ {
		v = g.resolve(v)
		switch x := v.v.(type) {
		case *ssa.Convert:
			v = Val{v.ctx, x.X}
		case *ssa.Call:
			verb, c, ok := intCoding(g.u.CalleeName(x))
			if ok && verb == "Uint" {
				return x, v.ctx, c, true
			}
			return nil, nil, c, false
		default:
			os := g.origins(v)
			if len(os) == 1 && os[0] != v {
				v = os[0]
				continue
			}
			return nil, nil, intCode{}, false
		}
	}
	return nil, nil, intCode{}, false
}

type piece struct {
	what string
	code intCode
	val  Val // the number written
}

// pieces: what a run of bytes consists of.
func pieces(g *G, v Val, d int) ([]piece, bool) {
	if d > 20 {
		return nil, false
	}
	v = g.resolve(v)
	switch x := v.v.(type) {
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && g.u.CalleeName(call) == nToBytes {
			return []piece{{what: "data"}}, true
		}
	case *ssa.Call:
		name := g.u.CalleeName(x)
		if name == "builtin.append" {
			a, ok1 := pieces(g, Val{v.ctx, x.Call.Args[0]}, d+1)
			b, ok2 := pieces(g, Val{v.ctx, x.Call.Args[1]}, d+1)
			return append(append([]piece{}, a...), b...), ok1 && ok2
		}
		if verb, c, ok := intCoding(name); ok && verb == "AppendUint" {
			as := args(x)
			a, ok1 := pieces(g, Val{v.ctx, as[len(as)-2]}, d+1)
			return append(append([]piece{}, a...), piece{"prefix", c, Val{v.ctx, as[len(as)-1]}}), ok1
		}
		if name == "bytes.Buffer.Bytes" {
			return bufferPieces(g, Val{v.ctx, x.Call.Args[0]}, d+1)
		}
		if name == "bytes.Join" {
			return nil, false
		}
	}
	if b, ok := wholeBuf(g, v); ok {
		return bufPieces(g, b)
	}
	os := g.origins(v)
	if len(os) == 1 && os[0] != v {
		return pieces(g, os[0], d+1)
	}
	return nil, false
}

// bufPieces: an allocated buffer, by what is put where.
func bufPieces(g *G, buf Val) ([]piece, bool) {
	total := g.affineTerm(g.lenOf(buf))
	if ms, ok := buf.v.(*ssa.MakeSlice); ok {
		total = g.affine(Val{buf.ctx, ms.Len}, 0)
	}
	if isConst(total, 0) {
		return nil, true
	}
	type put struct {
		p   piece
		off map[string]int64
		end map[string]int64
	}
	var puts []put
	part := func(v Val) (map[string]int64, bool) {
		off := map[string]int64{}
		for k := 0; k < 20; k++ {
			v = g.resolve(v)
			if v == buf {
				return off, true
			}
			sl, ok := v.v.(*ssa.Slice)
			if !ok {
				os := g.origins(v)
				if len(os) == 1 && os[0] != v {
					v = os[0]
					continue
				}
				return nil, false
			}
			if sl.Low != nil {
				off = plus(off, g.affine(Val{v.ctx, sl.Low}, 0), 1)
			}
			v = Val{v.ctx, sl.X}
		}
		return nil, false
	}
	for _, n := range g.nodes {
		call, ok := n.instr.(*ssa.Call)
		if !ok || n.after || n.ctx.children[call] != nil {
			continue
		}
		name := g.u.CalleeName(call)
		as := args(call)
		if verb, c, ok := intCoding(name); ok && verb == "PutUint" {
			if off, ok := part(Val{n.ctx, as[len(as)-2]}); ok {
				puts = append(puts, put{piece{"prefix", c, Val{n.ctx, as[len(as)-1]}}, off, plus(off, map[string]int64{"": c.bytes()}, 1)})
			}
		} else if name == "builtin.copy" {
			if off, ok := part(Val{n.ctx, as[0]}); ok {
				ps, ok := pieces(g, Val{n.ctx, as[1]}, 5)
				if !ok || len(ps) != 1 {
					return nil, false
				}
				puts = append(puts, put{ps[0], off, plus(off, g.affineTerm(g.lenOf(Val{n.ctx, as[1]})), 1)})
			}
		}
	}
	// in a row from the start to the end
	var out []piece
	at := map[string]int64{}
	for len(out) < len(puts) {
		found := false
		for _, p := range puts {
			if isConst(plus(p.off, at, -1), 0) {
				out = append(out, p.p)
				at = p.end
				found = true
				break
			}
		}
		if !found || len(out) > 5 {
			return nil, false
		}
	}
	return out, len(out) > 0 && isConst(plus(at, total, -1), 0)
}

// bufferPieces: a bytes.Buffer, by the writes to it in their order.
func bufferPieces(g *G, buf Val, d int) ([]piece, bool) {
	buf = g.resolve(buf)
	type w struct {
		n  *Node
		ps []piece
	}
	var ws []w
	for _, n := range g.nodes {
		call, ok := n.instr.(*ssa.Call)
		if !ok || n.after || n.ctx.children[call] != nil {
			continue
		}
		name := g.u.CalleeName(call)
		as := args(call)
		if len(as) == 0 {
			continue
		}
		a := g.resolve(Val{n.ctx, as[0]})
		if mi, ok := a.v.(*ssa.MakeInterface); ok {
			a = g.resolve(Val{a.ctx, mi.X})
		}
		if a != buf {
			continue
		}
		switch {
		case name == "bytes.Buffer.Write":
			ps, ok := pieces(g, Val{n.ctx, as[1]}, d+1)
			if !ok {
				return nil, false
			}
			ws = append(ws, w{n, ps})
		case name == "encoding/binary.Write":
			if p, ok := binaryArg(g, n, as); ok {
				ws = append(ws, w{n, []piece{p}})
			} else {
				return nil, false
			}
		case strings.HasPrefix(name, "bytes.Buffer.Write"):
			return nil, false
		}
	}
	sort.Slice(ws, func(i, j int) bool { return before(ws[i].n, ws[j].n) })
	var out []piece
	for _, x := range ws {
		if before(x.n, x.n) {
			return nil, false
		}
		out = append(out, x.ps...)
	}
	return out, true
}

func binaryArg(g *G, n *Node, as []ssa.Value) (piece, bool) {
	mi, ok := g.resolve(Val{n.ctx, as[2]}).v.(*ssa.MakeInterface)
	if !ok {
		return piece{}, false
	}
	t, ok := mi.X.Type().Underlying().(*types.Basic)
	if !ok || !strings.HasPrefix(t.Name(), "uint") || t.Name() == "uint" {
		return piece{}, false
	}
	order := ""
	o := Val{n.ctx, as[1]}
	if m, ok := g.resolve(o).v.(*ssa.MakeInterface); ok {
		switch typeFull(m.X.Type()) {
		case "encoding/binary.bigEndian":
			order = "big"
		case "encoding/binary.littleEndian":
			order = "little"
		}
	}
	return piece{"prefix", intCode{order, strings.TrimPrefix(t.Name(), "uint")}, Val{g.resolve(Val{n.ctx, as[2]}).ctx, mi.X}}, order != ""
}

// before: a way leads from a to b.
func before(a, b *Node) bool {
	seen := map[*Node]bool{}
	stack := []*Node{a}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, e := range n.succs {
			if e.to == b {
				return true
			}
			if !seen[e.to] {
				seen[e.to] = true
				stack = append(stack, e.to)
			}
		}
	}
	return false
}

const maxFrame = int64(1) << 30

func init() {
	register("P19", "Every function of the peer package that turns bytes of a connection into a message, or a message into bytes of a connection, is expanded with its helpers; the length prefix, the buffers and the order of the reads and writes are traced over it, and must-facts say what was read in full, under which limits, and whether the stream is still in step.", []string{"common", "gateway", "provider"}, func(r *Run) {
		r.rule("prefix-agree", "receivers and senders use one width and byte order for the length, it stands before the data, and means exactly the number of bytes of the data")
		r.rule("length-bounded", "what a receiver allocates is bounded by a constant of at most 1 GiB")
		r.rule("read-in-full", "the length and the data were each read in full before they are used, and the data is handed on whole")
		r.rule("written-whole", "on every successful way out of a sender, the length and then the data were written without error, once, and flushed if buffered")
		r.rule("time-limited", "every read and write on a connection happens after a deadline was set from the time the caller allows")
		r.rule("no-read-ahead", "a receiver reads nothing beyond its message, that is, not through a buffer of its own")
		r.rule("incomplete-is-fatal", "an error after part of a message was read is never handed on as a time out, which callers treat as nothing received")
		r.rule("only-framed", "bytes are read from and written to peer connections only by the functions above")
		r.rule("handed-on", "the message a receiver returns is the one it decoded, and the message a sender encodes is the one it was given")
		r.rule("out-of-step-dropped", "after a failed read or write (other than a time out before anything came), a handler, requester or server loop gives up the connection: it does not use it again and does not report success")
		u := r.U("common")
		covered := map[ssa.Instruction]bool{}
		codes := map[intCode][]string{}
		readers := frameFuncs(u, nFromBytes, "read", func(f *ssa.Function) *G { return frameGraph(u, f) })
		writers := frameFuncs(u, nToBytes, "write", func(f *ssa.Function) *G { return frameGraph(u, f) })
		r.ob("anchor", "receivers", len(readers) > 0, "-", "no function reading a message from a connection found")
		r.ob("anchor", "senders", len(writers) > 0, "-", "no function writing a message to a connection found")
		r.count("receivers", len(readers))
		r.count("senders", len(writers))
		tolerant := timeoutsTolerated(u)
		for f, g := range readers {
			frameReader(r, f, g, covered, codes, tolerant)
		}
		for f, g := range writers {
			frameWriter(r, f, g, covered, codes)
		}
		var cs []string
		for c, w := range codes {
			cs = append(cs, fmt.Sprintf("%s-endian %s bits in %s", c.order, c.width, uniqJoin(w)))
		}
		sort.Strings(cs)
		r.ob("prefix-agree", "width and byte order", len(codes) == 1, "-", "the length is coded differently: "+strings.Join(cs, "; "))
		// exported ends
		for _, f := range u.Funcs {
			if f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || !isChannelEnd(f.Signature.Recv().Type()) {
				continue
			}
			g := frameGraph(u, f)
			frameEnd(r, f, g)
		}
		// nothing else touches the stream
		for _, f := range u.Funcs {
			if f.Blocks == nil || !isRepoFunc(f) || !strings.HasPrefix(FuncName(f), p2pPkg) {
				continue
			}
			g := NewG(u, f, &Config{Opaque: func(string, *ssa.Function) bool { return true }})
			for _, n := range g.nodes {
				if k, _ := rawIO(g, n); k != "" {
					r.ob("only-framed", FuncName(f), covered[n.instr], g.where(n), "bytes are moved over a peer connection outside the functions that send and receive messages")
				}
			}
		}
		n := 0
		for _, mod := range []string{"common", "gateway", "provider"} {
			n += inStep(r, r.U(mod))
		}
		r.count("users of peer connections", n)
		r.floor("read-in-full", 2)
		r.floor("written-whole", 2)
		r.floor("length-bounded", 1)
		r.floor("time-limited", 2)
		r.floor("out-of-step-dropped", 10)
	})
}

// timeoutsTolerated: somewhere in the peer package an error is asked whether it is a time out.
func timeoutsTolerated(u *Universe) bool {
	for _, f := range u.Funcs {
		if f.Blocks == nil || !strings.HasPrefix(FuncName(f), p2pPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					n := u.CalleeName(c)
					if strings.HasSuffix(n, ".Timeout") || strings.HasSuffix(n, "IsTimeout") || n == "errors.Is" {
						return true
					}
				}
			}
		}
	}
	return false
}

func frameReader(r *Run, f *ssa.Function, g *G, covered map[ssa.Instruction]bool, codes map[intCode][]string, tolerant bool) {
	u := g.u
	con := FuncName(f)
	for _, n := range g.nodes {
		if !g.reachable(n) {
			continue
		}
		kind, buffered := rawIO(g, n)
		if kind == "read" {
			covered[n.instr] = true
			r.ob("no-read-ahead", con, !buffered, g.where(n), "a buffer of this call reads beyond the message, and what it read is lost to the next one")
			r.ob("time-limited", con, g.has(n, mkFact("readlimit", Key{s: "conn"})), g.where(n), "no deadline was set from the time allowed before this read")
		}
		if ms, ok := n.instr.(*ssa.MakeSlice); ok {
			if _, isC := ms.Len.(*ssa.Const); !isC {
				b := newBounds(g, n.in)
				b.learn(Val{n.ctx, ms.Len}, map[Val]bool{})
				r.ob("length-bounded", con, boundedLen(g, b, Val{n.ctx, ms.Len}), g.where(n), "the number of bytes allocated is not known to be bounded by a constant when it is allocated")
			}
		}
		call, ok := n.instr.(*ssa.Call)
		if !ok || n.after {
			continue
		}
		name := u.CalleeName(call)
		if strings.HasSuffix(name, ".ReadAll") || name == "io/ioutil.ReadAll" {
			r.ob("length-bounded", con, false, g.where(n), "everything the peer sends is read into memory")
		}
		if name != nFromBytes {
			continue
		}
		buf, whole := wholeBuf(g, Val{n.ctx, call.Call.Args[0]})
		r.ob("read-in-full", con+" (data handed on whole)", whole, g.where(n), "what is decoded is not the whole of a buffer")
		if !whole {
			continue
		}
		r.ob("read-in-full", con+" (data)", filledAt(g, n, buf), g.where(n), "the data is decoded without knowing that all of it was read")
		ms, ok := buf.v.(*ssa.MakeSlice)
		if !ok {
			r.ob("prefix-agree", con, false, g.where(n), "the length of the data is not the one announced")
			continue
		}
		dec, dctx, code, ok := codedInt(g, Val{buf.ctx, ms.Len})
		r.ob("prefix-agree", con, ok, g.where(n), "the number of bytes read is not exactly the number decoded from the length prefix")
		if !ok {
			continue
		}
		codes[code] = append(codes[code], con)
		as := args(dec)
		pv := Val{dctx, as[len(as)-1]}
		pb, whole := wholeBuf(g, pv)
		size := g.affineTerm(g.lenOf(pb))
		if ms, ok := pb.v.(*ssa.MakeSlice); ok {
			size = g.affine(Val{pb.ctx, ms.Len}, 0)
		}
		r.ob("prefix-agree", con+" (size of the length)", whole && isConst(size, code.bytes()), u.Pos(dec.Pos()), "the length prefix read is not as wide as the number decoded from it")
		dn := dctx.nodes[dec]
		r.ob("read-in-full", con+" (length)", dn != nil && whole && filledAt(g, dn, pb), u.Pos(dec.Pos()), "the length is decoded without knowing that all of it was read")
	}
	if tolerant {
		for _, n := range g.root.rets {
			if !g.reachable(n) {
				continue
			}
			ret := n.instr.(*ssa.Return)
			if len(ret.Results) == 0 {
				continue
			}
			ev := Val{g.root, ret.Results[len(ret.Results)-1]}
			for _, o := range g.origins(ev) {
				ex, ok := o.v.(*ssa.Extract)
				if !ok {
					continue
				}
				call, ok := ex.Tuple.(*ssa.Call)
				if !ok {
					continue
				}
				m := o.ctx.nodes[call]
				if m == nil {
					continue
				}
				if k, _ := rawIO(g, m); k != "read" {
					continue
				}
				// the way from this read to the return on which its error is handed on
				first := !anyReadBefore(g, m)
				ok = first && noneRead(g, n, o.ctx, call)
				why := "the error of a read after the start of the message is handed on as it is: a time out in the middle of a message would be taken for nothing received"
				r.ob("incomplete-is-fatal", con, ok, g.where(n)+" (read at "+u.Pos(call.Pos())+")", why)
			}
		}
	}
}

// boundedLen: a constant of at most 1 GiB bounds the integer (or what it was converted from).
func boundedLen(g *G, b *bounds, v Val) bool {
	for k := 0; k < 10; k++ {
		if b.known(g.linOf(v), lterm{"", maxFrame}, 0) {
			return true
		}
		r := g.resolve(v)
		if c, ok := r.v.(*ssa.Convert); ok && keepsInt(c) {
			v = Val{r.ctx, c.X}
			continue
		}
		if c, ok := r.v.(*ssa.Call); ok {
			if verb, code, is := intCoding(g.u.CalleeName(c)); is && verb == "Uint" && atoi(code.width) <= 16 {
				return true
			}
		}
		return false
	}
	return false
}

func anyReadBefore(g *G, m *Node) bool {
	for _, n := range g.nodes {
		if n == m {
			continue
		}
		if k, _ := rawIO(g, n); k == "read" && before(n, m) {
			return true
		}
	}
	return before(m, m)
}

// noneRead: at the return the read is known to have read nothing.
func noneRead(g *G, n *Node, c *Ctx, call *ssa.Call) bool {
	for _, ex := range extracts(call) {
		if ex.Index == 0 {
			if g.onEveryWay(n, func(st *FSet) bool { return newBounds(g, st).known(g.linOf(Val{c, ex}), lterm{"", 0}, 0) }) {
				return true
			}
		}
	}
	return false
}

func frameWriter(r *Run, f *ssa.Function, g *G, covered map[ssa.Instruction]bool, codes map[intCode][]string) {
	u := g.u
	con := FuncName(f)
	var ws, fl []*Node
	buf := false
	for _, n := range g.nodes {
		if !g.reachable(n) {
			continue
		}
		kind, buffered := rawIO(g, n)
		switch kind {
		case "write":
			ws = append(ws, n)
			buf = buf || buffered
		case "flush":
			fl = append(fl, n)
		default:
			continue
		}
		covered[n.instr] = true
		r.ob("time-limited", con, g.has(n, mkFact("writelimit", Key{s: "conn"})), g.where(n), "no deadline was set from the time allowed before this write")
	}
	sort.Slice(ws, func(i, j int) bool { return before(ws[i], ws[j]) })
	var all []piece
	decided := true
	for i, w := range ws {
		call := w.instr.(ssa.CallInstruction)
		as := args(call)
		if u.CalleeName(call) == "encoding/binary.Write" {
			p, ok := binaryArg(g, w, as)
			decided = decided && ok
			all = append(all, p)
		} else if len(as) >= 2 {
			ps, ok := pieces(g, Val{w.ctx, as[1]}, 0)
			decided = decided && ok
			all = append(all, ps...)
		} else {
			decided = false
		}
		r.ob("written-whole", con+" (once)", !before(w, w) && (i == 0 || before(ws[i-1], w) && !before(w, ws[i-1])), g.where(w), "the parts of a message are not written one after the other, once each")
		_, bw := rawIO(g, w)
		r.ob("written-whole", con+" (one way)", bw == buf, g.where(w), "parts of a message are written partly through a buffer and partly past it")
	}
	var names []string
	for _, p := range all {
		names = append(names, p.what)
	}
	good := decided && len(all) == 2 && all[0].what == "prefix" && all[1].what == "data"
	r.ob("prefix-agree", con, good, u.Pos(f.Pos()), "what is written is not the length followed by the data (found: "+strings.Join(names, ", ")+")")
	if good {
		p := all[0]
		codes[p.code] = append(codes[p.code], con)
		a := g.affine(p.val, 0)
		v := g.resolve(p.val)
		for k := 0; k < 5; k++ {
			c, ok := v.v.(*ssa.Convert)
			if !ok {
				break
			}
			v = g.resolve(Val{v.ctx, c.X})
		}
		a = g.affine(v, 0)
		data := map[string]int64{}
		exact := true
		for _, n := range g.nodes {
			call, ok := n.instr.(*ssa.Call)
			if !ok || n.after || u.CalleeName(call) != nToBytes {
				continue
			}
			for _, ex := range extracts(call) {
				if ex.Index == 0 {
					data = g.affineTerm(g.lenOf(Val{n.ctx, ex}))
				}
			}
		}
		r.ob("prefix-agree", con+" (meaning)", isConst(plus(a, data, -1), 0), u.Pos(f.Pos()), "the number written is not the number of bytes of the data")
		// the conversion to the width of the prefix loses nothing
		lim := int64(1)<<uint(atoi(p.code.width)) - 1
		if p.code.width == "64" {
			lim = 1<<62 - 1
		}
		w := ws[len(ws)-1]
		b := newBounds(g, w.in)
		exact = p.code.width == "64" || b.known(g.lenOfTerm(data), lterm{"", lim}, 0)
		r.ob("prefix-agree", con+" (range)", exact, g.where(w), "the length of the data may not fit the width of the prefix")
	}
	if buf {
		r.ob("written-whole", con+" (flush)", len(fl) > 0, u.Pos(f.Pos()), "what is written to the buffer is never flushed")
	}
	for n, st := range g.successExits() {
		ok := true
		for _, w := range ws {
			// the error of a buffered writer comes again with the flush
			ok = ok && (buf || g.hasIn(st, didFact(g, w)))
		}
		r.ob("written-whole", con, ok, g.where(n), "success is reported although a part of the message may not have been written")
		if buf {
			flushed := false
			for _, x := range fl {
				last := true
				for _, w := range ws {
					if before(x, w) {
						last = false
					}
				}
				if last && g.hasIn(st, didFact(g, x)) {
					flushed = true
				}
			}
			r.ob("written-whole", con+" (flushed)", flushed, g.where(n), "success is reported although the buffer may not have been flushed after the last write")
		}
	}
}

func didFact(g *G, n *Node) Fact {
	v, _ := n.instr.(ssa.Value)
	return mkFact("did", tokKey(g, Val{n.ctx, v}))
}

func (g *G) lenOfTerm(m map[string]int64) lterm {
	l := lterm{"", m[""]}
	for k := range m {
		if k != "" {
			l.k = k
		}
	}
	return l
}

// frameEnd: the exported reading and writing operations hand on the message they were given or decoded.
func frameEnd(r *Run, f *ssa.Function, g *G) {
	u := g.u
	con := FuncName(f)
	dec, enc := false, false
	for _, n := range g.nodes {
		call, ok := n.instr.(*ssa.Call)
		if !ok || n.after || !g.reachable(n) {
			continue
		}
		switch u.CalleeName(call) {
		case nFromBytes:
			dec = true
		case nToBytes:
			enc = true
			var msgParam *ssa.Parameter
			for _, p := range f.Params {
				if typeFull(p.Type()) == tMsg {
					msgParam = p
				}
			}
			for _, o := range g.origins(Val{n.ctx, args(call)[0]}) {
				if msgParam != nil {
					r.ob("handed-on", con, o.v == ssa.Value(msgParam), g.where(n), "the message written is not the one given")
				} else {
					ex, ok := o.v.(*ssa.Extract)
					var ec *ssa.Call
					if ok {
						ec, _ = ex.Tuple.(*ssa.Call)
					}
					r.ob("handed-on", con, ec != nil && ex.Index == 0 && strings.HasPrefix(u.CalleeName(ec), "common/pkg/fcrmessages.Encode"), g.where(n), "the message written is not a freshly encoded one")
				}
			}
		}
	}
	if f.Signature.Results().Len() > 0 && typeFull(f.Signature.Results().At(0).Type()) == tMsg {
		r.ob("handed-on", con+" (decodes)", dec, u.Pos(f.Pos()), "no message is decoded")
		for n := range g.successExits() {
			ret := n.instr.(*ssa.Return)
			for _, o := range g.origins(Val{g.root, ret.Results[0]}) {
				if isNilConst(o.v) {
					continue
				}
				ex, ok := o.v.(*ssa.Extract)
				var c *ssa.Call
				if ok {
					c, _ = ex.Tuple.(*ssa.Call)
				}
				r.ob("handed-on", con, c != nil && ex.Index == 0 && u.CalleeName(c) == nFromBytes, g.where(n), "the message returned is not the one decoded from the connection")
			}
		}
	} else {
		r.ob("handed-on", con+" (encodes)", enc, u.Pos(f.Pos()), "no message is written")
	}
}

// inStep: users of peer connections give them up once a read or write failed.
func inStep(r *Run, u *Universe) int {
	n := 0
	fs := entryPoints(u, func(c ssa.CallInstruction, name string) bool {
		for _, a := range args(c) {
			if isChannelEnd(a.Type()) {
				return true
			}
		}
		return false
	})
	for _, f := range fs {
		if isChannelEnd(recvType(f)) {
			continue
		}
		in := Key{s: "conn"}
		g := NewG(u, f, &Config{
			Opaque: func(name string, k *ssa.Function) bool {
				if strings.HasPrefix(FuncName(k), p2pPkg) {
					// the functions that move a message are one step, decisions about errors are not
					return mentions(u, k, nFromBytes, map[*ssa.Function]bool{}) || mentions(u, k, nToBytes, map[*ssa.Function]bool{})
				}
				return primitive(name, k)
			},
			CallFacts: frameFacts,
			NodeKill: func(g *G, n *Node, f *Fact) bool {
				call, ok := n.instr.(ssa.CallInstruction)
				return f.pred == "instep" && ok && !n.after && uses(g, n.ctx, call)
			},
			Entry: func(g *G) []Fact { return []Fact{mkFact("instep", in)} },
		})
		g.Solve()
		con := FuncName(f)
		found := false
		for _, m := range g.nodes {
			call, ok := m.instr.(ssa.CallInstruction)
			if !ok || m.after || !g.reachable(m) || !uses(g, m.ctx, call) || errIndex(call.Common().Signature()) < 0 {
				continue
			}
			found = true
			r.ob("out-of-step-dropped", con+" uses "+callLabel(u, call), g.has(m, mkFact("instep", in)), g.where(m), "the connection is used again although an earlier read or write on it may have failed")
		}
		if !found {
			continue
		}
		n++
		if hasErrorResult(f) {
			for m, st := range g.successExits() {
				// only where a use of the connection leads here
				r.ob("out-of-step-dropped", con, g.hasIn(st, mkFact("instep", in)), g.where(m), "success is reported although the last read or write on the connection may have failed, so that it stays in use")
			}
		}
	}
	return n
}

func callLabel(u *Universe, c ssa.CallInstruction) string {
	n := u.CalleeName(c)
	if n == "" {
		return "a handler or requester"
	}
	return n[strings.LastIndex(n, "/")+1:]
}
