package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	register(check{"C29", "A TCP server answers only after setup and cleans up every connection",
		"typestate by abstract interpretation: Start is run on a connection whose reads deliver a setup frame, other frames, the end or an error in every order, with the reading loop's goroutine run when it is waited for; Listen on a listener that accepts, fails and closes; and Connect with sends that fail or succeed. On every path the order of reads, handled frames, readiness, close and start is the one required",
		100, c29})
}

// runPending runs the goroutines a state has started and not yet run.
func runPending(in *ai.Interp, st *ai.State) []*ai.State {
	var gos []*ai.Event
	ran := 0
	for _, e := range st.Events {
		if e.Kind == "go" {
			gos = append(gos, e)
		}
		if e.Kind == "op" && e.Name == "ran" {
			ran++
		}
	}
	if ran >= len(gos) {
		return nil
	}
	e := gos[ran]
	s := st.Fork()
	opEvent(s, "ran")
	var r []*ai.State
	for _, o := range runGo(in, s, goCall{fn: e.Recv, site: e.Instr.(*ssa.Go), args: e.Args}) {
		if o.Kind == ai.Ret {
			r = append(r, o.St)
		}
	}
	return r
}

// drain runs the goroutines left when a function has returned.
func drain(in *ai.Interp, o ai.Outcome) []ai.Outcome {
	ss := runPending(in, o.St)
	if len(ss) == 0 {
		return []ai.Outcome{o}
	}
	var r []ai.Outcome
	for _, s := range ss {
		r = append(r, drain(in, ai.Outcome{Kind: o.Kind, St: s, Ret: o.Ret, Why: o.Why})...)
	}
	return r
}

// cell counters kept in the abstract heap
func newCell(st *ai.State, label string) *ai.PtrV { return st.Alloc(nil, ai.K(0), label) }
func cellN(st *ai.State, p *ai.PtrV) int64 {
	n, _ := st.Load(p).(*ai.Lin).Int64()
	return n
}

func errVal(st *ai.State, key string, t types.Type) ai.Value {
	st.SetBool("isnil("+key+")", false)
	return opq(key, t)
}

// forkErr returns a nil and a non-nil error.
func forkErr(c *ai.CallCtx, okEv, badEv, key string) ([]ai.Outcome, bool) {
	s := c.St.Fork()
	opEvent(c.St, okEv)
	opEvent(s, badEv)
	return []ai.Outcome{{Kind: ai.Ret, St: c.St, Ret: ai.NilV{}}, {Kind: ai.Ret, St: s, Ret: errVal(s, key, types.Universe.Lookup("error").Type())}}, true
}

type startH struct {
	c      *Ctx
	w      *World
	in     *ai.Interp
	tp     ai.Value
	server bool
	tag    string
	limit  int64
	reads  *ai.PtrV
	hand   *ai.PtrV
	eof    *ssa.Global
	wait   *ssa.Function
	eofV   ai.Value
	snap   func(st *ai.State)
	field  int // the transport's field whose closing makes it ready
}

// readyAt finds the channel whose closing made the transport ready.
func (h *startH) readyAt(st *ai.State) {
	p, ok := h.tp.(*ai.PtrV)
	if !ok {
		return
	}
	if s, ok := st.Load(p).(*ai.StructV); ok {
		for i, f := range s.F {
			if ch, _ := st.Chan(f); ch != nil && ch.Closed {
				h.field = i
			}
		}
	}
}

// ready tells what WaitUntilReady says now: "true", "false", "waits".
func (h *startH) ready(st *ai.State) string {
	n := len(h.in.Obls)
	cb := h.in.OnBlock
	h.in.OnBlock = nil
	os := h.in.Run(st.Fork(), h.wait, []ai.Value{h.tp}, nil)
	h.in.OnBlock = cb
	h.in.Obls = h.in.Obls[:n]
	m := map[string]bool{}
	for _, o := range os {
		if o.Kind != ai.Ret {
			continue
		}
		rs := retTuple(o.Ret)
		if len(rs) == 1 {
			if b, ok := rs[0].(*ai.BoolV); ok {
				switch o.St.Eval(b) {
				case 1:
					m["true"] = true
				case -1:
					m["false"] = true
				default:
					m["?"] = true
				}
				continue
			}
		}
		m["returns"] = true
	}
	if len(m) == 0 {
		return "waits"
	}
	return keysOf(m)
}

func (h *startH) callback(c *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
	if m == nil {
		return nil, false
	}
	o, ok := c.Args[0].(*ai.OpaqueV)
	if !ok {
		return nil, false
	}
	switch {
	case o.Key == "conn" && m.Name() == "Read":
		if h.snap != nil { // only the goroutines matter
			h.snap(c.St)
			return nil, true
		}
		tt := c.RetT.(*types.Tuple)
		n := cellN(c.St, h.reads)
		for _, e := range c.St.Events {
			if e.Kind == "op" && (e.Name == "read:eof" || e.Name == "read:err") {
				h.c.fail(h.tag+":read-after", "%s: the connection is read again after %s", h.w.at(c.Instr.Pos()), e.Name)
				return nil, true
			}
		}
		c.St.Store(h.reads, ai.K(n+1))
		now := h.ready(c.St)
		opEvent(c.St, "ready:"+now)
		if now == "true" {
			h.readyAt(c.St)
		}
		var r []ai.Outcome
		frame := func(kind string, named string) {
			s := c.St.Fork()
			t := h.w.named("internal/frames", named)
			p := s.Alloc(t, s.Symbolic(fmt.Sprintf("frame%d", n), t), fmt.Sprintf("frame%d", n))
			f := &ai.IfaceV{Dyn: types.NewPointer(t), V: p}
			opEvent(s, "read:"+kind, f)
			r = append(r, ai.Outcome{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{f, ai.NilV{}}}})
		}
		if n < h.limit {
			frame("other", "RequestPayload")
			frame("setup", "Setup")
			frame("other", "Payload")
		}
		for _, k := range []string{"eof", "err"} {
			s := c.St.Fork()
			opEvent(s, "read:"+k)
			e := h.eofV
			if k == "err" {
				e = errVal(s, "readerr", tt.At(1).Type())
			}
			r = append(r, ai.Outcome{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{ai.NilV{}, e}}})
		}
		return r, true
	case o.Key == "conn" && m.Name() == "Close":
		opEvent(c.St, "close-conn")
		if len(retTuple(c.St.Zero(c.RetT))) == 1 {
			return forkErr(c, "closed", "closed", "closeerr")
		}
	case o.Key == "handler" && m.Name() == "HandleFrame":
		opEvent(c.St, "handle", c.Args[1])
		n := cellN(c.St, h.hand)
		c.St.Store(h.hand, ai.K(n+1))
		return forkErr(c, "handled", "handle:err", fmt.Sprintf("herr%d", n))
	}
	return nil, false
}

func c29Start(c *Ctx, w *World, server bool) int {
	h := &startH{c: c, w: w, server: server, limit: 3, tag: "client", field: -1}
	if server {
		h.tag = "server"
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		h.limit = 4
	}
	in := w.interp()
	in.ChanModel, in.NoConcurrent, in.Far = true, true, true
	in.UnrollFork = 20000
	in.UnrollAny = true
	in.MaxSteps = 60000000
	h.in = in
	in.OpaqueCB = h.callback
	in.OnBlock = func(st *ai.State) []*ai.State { return runPending(in, st) }
	in.Hooks["(*sync.WaitGroup).Wait"] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		var r []ai.Outcome
		for _, o := range drain(in, ai.Outcome{Kind: ai.Ret, St: cc.St}) {
			r = append(r, o)
		}
		return r, true
	}
	in.Hooks["errors.Is"] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		a, b := cc.Args[0].VKey(), cc.Args[1].VKey()
		if a == b {
			return cc.Return(ai.BConst(true))
		}
		if strings.HasPrefix(a, "$readerr") && b == h.eofV.VKey() {
			return cc.Return(ai.BConst(false))
		}
		return nil, false
	}
	h.wait = w.method(rsPkg, "Transport", "WaitUntilReady")
	start := w.method(rsPkg, "Transport", "Start")
	st := ai.NewState()
	h.reads, h.hand = newCell(st, "H.reads"), newCell(st, "H.handled")
	if p := w.Prog.ImportedPackage("io"); p != nil {
		h.eof, _ = p.Members["EOF"].(*ssa.Global)
	}
	if h.eof == nil {
		failf("io.EOF is not found")
	}
	h.eofV = in.GlobalValue(st, h.eof)
	ks := []string{"$readerr", h.eofV.VKey()}
	sort.Strings(ks)
	st.SetBool("eq("+ks[0]+","+ks[1]+")", false)
	st.SetBool("isnil(conn)", false)
	st.SetBool("isnil(handler)", false)
	st.SetBool("isnil(ctx)", false)
	nt := w.fn(rsPkg, "NewTransport")
	args := []ai.Value{opq("conn", nt.Signature.Params().At(0).Type()), opq("handler", nt.Signature.Params().At(1).Type()), ai.BConst(server)}
	os := in.Run(st, nt, args, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("NewTransport is not decided")
	}
	st, h.tp = os[0].St, os[0].Ret
	st.Events = nil
	c.check(h.ready(st) == "waits", h.tag+":ready-early", "a new transport counts as ready before it is started")
	outs := in.Run(st, start, []ai.Value{h.tp, opq("ctx", start.Signature.Params().At(0).Type())}, nil)
	n := 0
	for _, o := range outs {
		if o.Kind != ai.Ret {
			if o.St != nil {
				c.fail(h.tag+":path", "a path of Start does not return: %s", o.Why)
			}
			continue
		}
		for _, o := range drain(in, o) {
			n++
			h.judge(o)
		}
	}
	c.check(n > 0, h.tag+":paths", "no path of Start returns")
	c.Paths += n
	c.count("paths of Start ("+h.tag+")", n)
	c.oblSet(w, in, h.tag, "block chan panic index nil slice assert")
	return h.field
}

func (h *startH) judge(o ai.Outcome) {
	c := h.c
	var read, handled []string
	first, trace := "", []string{}
	accepted := !h.server
	ended, readErr := "", false
	var herr []string
	sent := map[string]bool{}
	closed, reads, asked := 0, 0, 0
	bad := false
	fail := func(key, f string, a ...any) {
		bad = true
		c.fail(h.tag+":"+key, f+" ("+h.tag+": "+strings.Join(trace, " ")+")", a...)
	}
	reported := false
	for _, e := range o.St.Events {
		if e.Kind == "send" || e.Kind == "select" && e.Name == "send" {
			for _, a := range e.Args {
				sent[a.VKey()] = true
			}
		}
		if e.Kind == "select" && e.Name == "recv" && e.Recv != nil || e.Kind == "recv" {
			if ch, ok := recvElem(e); ok && types.Identical(ch, types.Universe.Lookup("error").Type()) {
				reported = true
			}
		}
		if e.Kind != "op" {
			continue
		}
		trace = append(trace, e.Name)
		switch {
		case strings.HasPrefix(e.Name, "ready:"):
			asked++
			if ended != "" {
				fail("read-refused", "the connection is read again after %s", ended)
			}
			now := strings.TrimPrefix(e.Name, "ready:")
			if accepted && now != "true" {
				fail("not-ready", "the transport goes on to read frames without having become ready: WaitUntilReady %s", now)
			}
			if !accepted && now != "waits" {
				fail("ready", "the transport counts as ready (%s) before its setup frame was accepted", now)
			}
		case strings.HasPrefix(e.Name, "read:"):
			k := strings.TrimPrefix(e.Name, "read:")
			if first == "" {
				first = k
			} else if h.server && !accepted {
				fail("unaccepted", "another frame is read although the setup frame was not accepted")
			}
			if k == "eof" || k == "err" {
				ended = "reading " + k
				readErr = k == "err"
				break
			}
			reads++
			read = append(read, e.Args[0].VKey())
		case e.Name == "handle":
			handled = append(handled, e.Args[0].VKey())
			if !accepted && (first != "setup" || len(handled) > 1) {
				fail("handled-before-setup", "a frame is processed before a setup frame was accepted")
			}
		case e.Name == "handled":
			if !accepted && len(handled) == 1 && first == "setup" {
				accepted = true
			}
		case e.Name == "handle:err":
			if !accepted {
				ended = "the setup frame was refused"
				if first == "setup" && len(handled) == 1 {
					readErr = true
				}
			} else {
				herr = append(herr, fmt.Sprintf("$herr%d", len(handled)-1))
			}
		case e.Name == "close-conn":
			closed++
		}
	}
	rs := retTuple(o.Ret)
	ret := isNilV(o.St, rs[len(rs)-1])
	if closed == 0 {
		fail("not-closed", "Start returns without closing the connection")
	}
	if len(handled) > len(read) || strings.Join(handled, " ") != strings.Join(read[:len(handled)], " ") {
		fail("order", "the frames processed are not those read, each once and in order")
	} else if accepted && len(handled) < len(read) && len(herr) == 0 {
		fail("lost", "%d of %d frames read are processed", len(handled), len(read))
	}
	if !accepted {
		if len(handled) > 0 && first != "setup" {
			fail("refused", "a first frame that is not a setup frame is processed")
		}
		if ret >= 0 && first != "eof" && first != "" {
			fail("no-error", "Start reports no error although no setup frame was accepted")
		}
		// the connection is over, so nobody may be left waiting for it
		if r := h.ready(o.St); r != "false" && first != "" {
			fail("waiting", "after the connection has ended without a setup frame WaitUntilReady %s", r)
		}
	} else if readErr && ret >= 0 {
		fail("read-error", "Start reports no error although reading failed")
	}
	if reported && ret >= 0 {
		fail("handle-error", "Start reports no error although processing a frame failed")
	}
	if len(herr) > 0 && ret >= 0 && !sent[herr[0]] {
		fail("handle-error-lost", "the error of processing a frame is dropped")
	}
	if !bad {
		c.ok(h.tag + ":path")
	}
}

// c29Loop: whatever the interleaving, the goroutine that processes the frames
// read goes on until there are no more.
func c29Loop(c *Ctx, w *World) {
	h := &startH{c: c, w: w, tag: "loop", field: -1}
	in := w.interp()
	h.in = in
	in.NoConcurrent = true
	in.OpaqueCB = h.callback
	st := ai.NewState()
	h.reads, h.hand = newCell(st, "H.reads"), newCell(st, "H.handled")
	st.SetBool("isnil(conn)", false)
	st.SetBool("isnil(handler)", false)
	st.SetBool("isnil(ctx)", false)
	nt := w.fn(rsPkg, "NewTransport")
	os := in.Run(st, nt, []ai.Value{opq("conn", nt.Signature.Params().At(0).Type()), opq("handler", nt.Signature.Params().At(1).Type()), ai.BConst(false)}, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("NewTransport is not decided")
	}
	st, h.tp = os[0].St, os[0].Ret
	st.Events = nil
	var at *ai.State
	h.snap = func(s *ai.State) { at = s.Fork() }
	start := w.method(rsPkg, "Transport", "Start")
	in.Run(st, start, []ai.Value{h.tp, opq("ctx", start.Signature.Params().At(0).Type())}, nil)
	if at == nil {
		failf("Start never reads")
	}
	frame := w.named("internal/frames", "Frame")
	isFrame := func(e *ai.Event) bool {
		t, ok := recvElem(e)
		return ok && types.Identical(t, frame) && (e.Kind == "recv" || e.Kind == "select" && e.Name == "recv")
	}
	open := func(s *ai.State, e *ai.Event) int {
		if t, ok := e.Ret.(*ai.TupleV); ok && len(t.E) == 2 {
			if b, ok := t.E[1].(*ai.BoolV); ok {
				return s.Eval(b)
			}
		}
		return 0
	}
	for _, g := range at.Events {
		if g.Kind != "go" {
			continue
		}
		s := at.Fork()
		s.Events = nil
		loops := false
		for _, o := range runGo(in, s, goCall{fn: g.Recv, site: g.Instr.(*ssa.Go), args: g.Args}) {
			c.Paths++
			if o.Kind != ai.Ret {
				continue
			}
			var last *ai.Event
			failed := false
			for _, e := range o.St.Events {
				if isFrame(e) {
					last = e
				}
				failed = failed || e.Kind == "op" && e.Name == "handle:err"
				for i, b := range e.Sub {
					var got *ai.Event
					n := 0
					for _, x := range b {
						if isFrame(x) {
							got = x
							n++
						}
						if x.Kind == "op" && x.Name == "handle" {
							n += 100
						}
					}
					if got == nil {
						continue
					}
					loops = true
					if t, ok := got.Ret.(*ai.TupleV); ok && n == 101 {
						for _, x := range b {
							if x.Kind == "op" && x.Name == "handle" && x.Args[0].VKey() != t.E[0].VKey() {
								n = 0
							}
						}
					}
					if len(e.SubEnd) > i && open(e.SubEnd[i], got) >= 0 {
						c.check(n == 101, "loop:each", "%s: a frame taken from the queue is not processed exactly once", w.at(g.Pos))
					}
				}
			}
			if last == nil {
				continue
			}
			c.check(failed || open(o.St, last) < 0, "loop:exit", "%s: the goroutine that processes frames can end while there are more to come", w.at(g.Pos))
		}
		_ = loops
	}
	c.used(in)
}

// recvElem is the element type of the channel an event receives from.
func recvElem(e *ai.Event) (types.Type, bool) {
	switch x := e.Instr.(type) {
	case *ssa.UnOp:
		if ch, ok := x.X.Type().Underlying().(*types.Chan); ok {
			return ch.Elem(), true
		}
	case *ssa.Select:
		if o, ok := e.Recv.(*ai.OpaqueV); ok && o.T != nil {
			if ch, ok := o.T.Underlying().(*types.Chan); ok {
				return ch.Elem(), true
			}
		}
		if p, ok := e.Recv.(*ai.PtrV); ok && e.St != nil {
			if h := e.St.Obj(p.Obj); h != nil && h.T != nil {
				if ch, ok := h.T.Underlying().(*types.Chan); ok {
					return ch.Elem(), true
				}
			}
		}
	}
	return nil, false
}

// reaches reports whether something satisfying f is referenced from v.
func reaches(st *ai.State, v ai.Value, f func(ai.Value) bool) bool {
	seen := map[int]bool{}
	var walk func(v ai.Value, d int) bool
	all := func(vs []ai.Value, d int) bool {
		for _, y := range vs {
			if walk(y, d) {
				return true
			}
		}
		return false
	}
	walk = func(v ai.Value, d int) bool {
		if v == nil || d > 16 {
			return false
		}
		if f(v) {
			return true
		}
		switch x := v.(type) {
		case *ai.PtrV:
			if seen[x.Obj] {
				return false
			}
			seen[x.Obj] = true
			if h := st.Obj(x.Obj); h != nil {
				return walk(h.V, d+1)
			}
		case *ai.IfaceV:
			return walk(x.V, d+1)
		case *ai.StructV:
			return all(x.F, d+1)
		case *ai.TupleV:
			return all(x.E, d+1)
		case *ai.FuncV:
			return all(x.Free, d+1)
		case *ai.SliceV:
			if x.Ptr == nil {
				return false
			}
			// What lies behind the end of the slice is not held by it.
			off, ok1 := num(x.Off)
			n, ok2 := num(x.Len)
			if a, ok := st.Load(x.Ptr).(*ai.ArrV); ok && ok1 && ok2 {
				for _, w := range a.Ws {
					if w.Val != nil {
						if i, ok := num(w.Off); ok && (i < off || i >= off+n) {
							continue
						}
						if walk(w.Val, d+1) {
							return true
						}
					} else if walk(w.Src, d+1) {
						return true
					}
				}
				return false
			}
			return walk(x.Ptr, d+1)
		case *ai.ArrV:
			for _, w := range x.Ws {
				if walk(w.Val, d+1) {
					return true
				}
			}
		case *ai.MapObj:
			gone := map[string]bool{}
			for i := len(x.Log) - 1; i >= 0; i-- {
				e := x.Log[i]
				if gone[e.K.VKey()] {
					continue
				}
				gone[e.K.VKey()] = true
				if !e.Del && (walk(e.K, d+1) || walk(e.V, d+1)) {
					return true
				}
			}
		case *ai.ChanObj:
			return all(x.Buf, d+1)
		}
		return false
	}
	return walk(v, 0)
}

func isOpq(key string) func(ai.Value) bool {
	return func(v ai.Value) bool { o, ok := v.(*ai.OpaqueV); return ok && o.Key == key }
}

type listenH struct {
	c     *Ctx
	w     *World
	in    *ai.Interp
	t     ai.Value
	n     *ai.PtrV
	limit int64
	eof   ai.Value
	field int
}

func (h *listenH) callback(c *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
	st := c.St
	if m == nil {
		if c.Fn != nil || len(c.Free) == 0 {
			return nil, false
		}
		o, ok := c.Free[0].(*ai.OpaqueV)
		if !ok {
			return nil, false
		}
		switch o.Key {
		case "lf":
			tt := c.RetT.(*types.Tuple)
			s := st.Fork()
			opEvent(st, "listening")
			opEvent(s, "listen:err")
			st.SetBool("isnil(l)", false)
			r := []ai.Outcome{
				{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{ai.NilV{}, errVal(s, "listenerr", tt.At(1).Type())}}}}
			give := func(st *ai.State) {
				r = append(r, ai.Outcome{Kind: ai.Ret, St: st, Ret: &ai.TupleV{E: []ai.Value{opq("l", tt.At(0).Type()), ai.NilV{}}}})
			}
			// the server may be closed before it listens
			for _, o := range runMethod(h.in, st.Fork(), h.t, "Close") {
				if o.Kind == ai.Ret {
					opEvent(o.St, "server-closed")
					give(o.St)
				}
			}
			give(st)
			return r, true
		case "acceptor":
			opEvent(st, "acceptor", c.Args...)
			return []ai.Outcome{{Kind: ai.Ret, St: st}}, true
		}
		return nil, false
	}
	o, ok := c.Args[0].(*ai.OpaqueV)
	if !ok {
		return nil, false
	}
	switch {
	case o.Key == "l" && m.Name() == "Accept":
		n := cellN(st, h.n)
		st.Store(h.n, ai.K(n+1))
		tt := c.RetT.(*types.Tuple)
		var r []ai.Outcome
		shut, open := false, true
		for _, e := range st.Events {
			if e.Kind == "op" {
				shut = shut || e.Name == "server-closed"
				open = open && e.Name != "close:l"
			}
		}
		h.c.check(!shut || !open, "listen:deaf", "Listen waits for connections for ever: the server was closed before it listened, and nothing closes the listener")
		snap := st.Fork()
		opEvent(st, "accepting")
		st.Events[len(st.Events)-1].St = snap
		if n < h.limit {
			k := fmt.Sprintf("conn.%d", n)
			give := func(s *ai.State) {
				s.SetBool("isnil("+k+")", false)
				opEvent(s, "accept", opq(k, tt.At(0).Type()))
				r = append(r, ai.Outcome{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{opq(k, tt.At(0).Type()), ai.NilV{}}}})
			}
			give(st.Fork())
			// the server may be closed while the connection arrives
			for _, o := range runMethod(h.in, st.Fork(), h.t, "Close") {
				if o.Kind == ai.Ret {
					opEvent(o.St, "server-closed")
					give(o.St)
				}
			}
			s := st.Fork()
			opEvent(s, "accept:err")
			r = append(r, ai.Outcome{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{ai.NilV{}, errVal(s, "accepterr", tt.At(1).Type())}}})
		}
		s := st.Fork()
		opEvent(s, "accept:eof")
		return append(r, ai.Outcome{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{ai.NilV{}, h.eof}}}), true
	case m.Name() == "Close" && (o.Key == "l" || strings.HasPrefix(o.Key, "conn.")):
		opEvent(st, "close:"+o.Key)
		return forkErr(c, "closed", "closed", "closeerr")
	}
	return nil, false
}

func c29Listen(c *Ctx, w *World, field int) {
	n := 0
	h := c29ListenRun(c, w, 2, nil, func(h *listenH, o ai.Outcome) {
		if o.Kind != ai.Ret {
			if o.St != nil {
				c.fail("listen:path", "a path of Listen does not return: %s", o.Why)
			}
			return
		}
		n++
		h.field = field
		h.judge(o)
	})
	c.check(n > 0, "listen:paths", "no path of Listen returns")
	c.count("paths of Listen", n)
	c.Paths += n
	c.oblSet(w, h.in, "listen", "chan panic index nil slice assert")
}

// c29ListenRun follows Listen with a listener that accepts up to limit connections.
func c29ListenRun(c *Ctx, w *World, limit int64, prep func(in *ai.Interp), each func(h *listenH, o ai.Outcome)) *listenH {
	h := &listenH{c: c, w: w, limit: limit, field: -1}
	in := w.interp()
	if prep != nil {
		prep(in)
	}
	h.in = in
	in.ChanModel, in.NoConcurrent, in.Far = true, true, true
	in.UnrollFork, in.UnrollAny = 20000, true
	in.MaxSteps = 60000000
	in.OpaqueCB = h.callback
	st := ai.NewState()
	h.n = newCell(st, "H.accepts")
	if p := w.Prog.ImportedPackage("io"); p != nil {
		if g, ok := p.Members["EOF"].(*ssa.Global); ok {
			h.eof = in.GlobalValue(st, g)
		}
	}
	ks := []string{"$accepterr", h.eof.VKey()}
	sort.Strings(ks)
	st.SetBool("eq("+ks[0]+","+ks[1]+")", false)
	for _, k := range []string{"ctx", "lf", "hf", "acceptor", "notifier"} {
		st.SetBool("isnil("+k+")", false)
	}
	nt := w.fn(rsPkg, "NewTCPServerTransport")
	os := in.Run(st, nt, []ai.Value{opq("lf", nt.Signature.Params().At(0).Type()), opq("hf", nt.Signature.Params().At(1).Type())}, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("NewTCPServerTransport is not decided")
	}
	h.t, st = os[0].Ret, os[0].St
	it, ok := h.t.(*ai.IfaceV)
	if !ok {
		failf("NewTCPServerTransport returns no known server")
	}
	acc := w.methodOf(it.Dyn, "Accept")
	os = in.Run(st, acc, []ai.Value{it.V, opq("acceptor", acc.Signature.Params().At(0).Type())}, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("Accept is not decided")
	}
	st = os[0].St
	st.Events = nil
	listen := w.methodOf(it.Dyn, "Listen")
	for _, o := range in.Run(st, listen, []ai.Value{it.V, opq("ctx", listen.Signature.Params().At(0).Type()), opq("notifier", listen.Signature.Params().At(1).Type())}, nil) {
		each(h, o)
	}
	return h
}

func (h *listenH) judge(o ai.Outcome) {
	c := h.c
	var trace []string
	bad := false
	fail := func(key, f string, a ...any) {
		bad = true
		c.fail("listen:"+key, f+" (%s)", append(a, strings.Join(trace, " "))...)
	}
	closed := map[string]bool{}
	var conns []string
	listening, failed, early := false, false, false
	notified := []ai.Value{}
	for _, e := range o.St.Events {
		switch {
		case e.Kind == "send" && e.Recv.VKey() == "$notifier":
			notified = append(notified, e.Args[0])
		case e.Kind == "op":
			trace = append(trace, e.Name)
			switch {
			case e.Name == "listening":
				listening = true
			case e.Name == "listen:err":
				failed = true
			case e.Name == "server-closed":
				early = early || len(conns) == 0 && len(notified) == 0
			case e.Name == "accept":
				conns = append(conns, e.Args[0].(*ai.OpaqueV).Key)
			case strings.HasPrefix(e.Name, "close:"):
				closed[strings.TrimPrefix(e.Name, "close:")] = true
			}
		}
	}
	rs := retTuple(o.Ret)
	ret := isNilV(o.St, rs[len(rs)-1])
	if len(notified) != 1 || !early && o.St.Eval(notified[0].(*ai.BoolV)) != map[bool]int{true: 1, false: -1}[listening] {
		fail("notify", "the notifier is not told once, and truly, whether the server listens")
	}
	if failed && ret >= 0 {
		fail("error", "Listen reports no error although listening failed")
	}
	if listening && !closed["l"] {
		fail("listener", "Listen returns without closing its listener")
	}
	// the goroutines of each connection
	for i, k := range conns {
		// the server as it is once it has dealt with the connection
		var at *ai.State
		for _, e := range o.St.Events {
			if e.Kind == "op" && e.Name == "accept" && e.Args[0].VKey() == "$"+k {
				at = nil
			}
			if e.Kind == "op" && e.Name == "accepting" && at == nil {
				at = e.St
			}
		}
		if at == nil {
			at = o.St
		}
		if !closed[k] {
			fail("conn-closed", "Listen returns while connection %d is neither closed nor ended", i)
		}
		starts, left := 0, false
		calls := map[string]int{}
		for _, g := range at.Events {
			if g.Kind != "go" {
				continue
			}
			save := len(h.in.Obls)
			s := at.Fork()
			s.Events = nil
			tp := h.transportOf(at, g, k)
			h.in.Hooks[ai.Name(h.w.method(rsPkg, "Transport", "Start"))] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				opEvent(cc.St, "start", cc.Args[0])
				return forkErr(cc, "started", "start:err", "starterr")
			}
			for _, mode := range []string{"waiting", "ready", "ended"} {
				s := s.Fork()
				if tp != nil && !h.prepare(s, tp, mode) {
					continue
				}
				for _, r := range runGo(h.in, s, goCall{fn: g.Recv, site: g.Instr.(*ssa.Go), args: g.Args}) {
					if r.Kind != ai.Ret {
						continue
					}
					n, acc := 0, 0
					for _, e := range r.St.Events {
						if e.Kind != "op" {
							continue
						}
						if e.Name == "start" && reaches(r.St, e.Args[0], isOpq(k)) {
							n++
						}
						if e.Name == "acceptor" && len(e.Args) > 1 && tp != nil {
							acc++
							if !reaches(r.St, tp, sameAs(e.Args[1])) {
								fail("acceptor-arg", "the acceptor is given a caller that is not the connection's")
							}
						}
					}
					if n > 0 && mode == "waiting" {
						starts += n
						if reaches(r.St, h.t, isOpq(k)) {
							left = true
						}
					}
					if tp != nil && acc > calls[mode] {
						calls[mode] = acc
					}
				}
			}
			delete(h.in.Hooks, ai.Name(h.w.method(rsPkg, "Transport", "Start")))
			h.in.Obls = h.in.Obls[:save]
		}
		if starts == 0 && !h.rejected(o.St, k) {
			fail("started", "an accepted connection is neither started nor closed at once")
		}
		// each goroutine forks on the outcome of Start
		if starts > 2 {
			fail("started-twice", "an accepted connection is started more than once")
		}
		if left {
			fail("forgotten", "the server still remembers a connection after it has ended")
		}
		if starts > 0 {
			if calls["waiting"] > 0 || calls["ended"] > 0 {
				fail("acceptor-early", "the acceptor is called for a connection whose setup was not accepted")
			}
			if calls["ready"] != 1 {
				fail("acceptor", "the acceptor is called %d times for a connection that is ready", calls["ready"])
			}
		}
	}
	if !bad {
		c.ok("listen:path")
	}
}

func sameAs(v ai.Value) func(ai.Value) bool {
	k := v.VKey()
	return func(x ai.Value) bool { return x.VKey() == k }
}

// rejected: the connection was closed before the next one was asked for.
func (h *listenH) rejected(st *ai.State, k string) bool {
	open := false
	for _, e := range st.Events {
		if e.Kind != "op" {
			continue
		}
		if e.Name == "accept" && e.Args[0].(*ai.OpaqueV).Key == k {
			open = true
		} else if open && e.Name == "close:"+k {
			return true
		} else if open && strings.HasPrefix(e.Name, "accept") {
			return false
		}
	}
	return false
}

// transportOf is the transport a goroutine captures for connection k.
func (h *listenH) transportOf(st *ai.State, g *ai.Event, k string) ai.Value {
	var tp ai.Value
	tt := types.NewPointer(h.w.named(rsPkg, "Transport"))
	vs := append([]ai.Value{}, g.Args...)
	if f, ok := g.Recv.(*ai.FuncV); ok {
		vs = append(vs, f.Free...)
	} else {
		vs = append(vs, g.Recv)
	}
	for _, v := range vs {
		for d := 0; d < 3 && v != nil; d++ {
			p, ok := v.(*ai.PtrV)
			if !ok {
				break
			}
			if ob := st.Obj(p.Obj); len(p.Path) == 0 && ob != nil && ob.T != nil && types.Identical(types.NewPointer(ob.T), tt) && reaches(st, p, isOpq(k)) {
				tp = p
			}
			v = st.Load(p)
		}
	}
	return tp
}

// prepare puts a transport into the given stage.
func (h *listenH) prepare(st *ai.State, tp ai.Value, mode string) bool {
	p := tp.(*ai.PtrV)
	switch mode {
	case "ready":
		s, ok := st.Load(p).(*ai.StructV)
		if !ok || h.field < 0 {
			failf("the transport's readiness is not a channel of its own")
		}
		ch, cp := st.Chan(s.F[h.field])
		if ch == nil {
			return false
		}
		if !ch.Closed {
			st.ChanClose(cp, ch)
		}
		h.reopen(st, s, h.field)
	case "waiting":
		if s, ok := st.Load(p).(*ai.StructV); ok {
			h.reopen(st, s, -1)
		}
	case "ended":
		s, ok := st.Load(p).(*ai.StructV)
		if !ok {
			return false
		}
		h.reopen(st, s, -1)
		for i, f := range s.F {
			if ch, cp := st.Chan(f); ch != nil && i != h.field {
				st.ChanClose(cp, ch)
			}
		}
	}
	return true
}

// reopen takes the transport back to before it was closed.
func (h *listenH) reopen(st *ai.State, s *ai.StructV, but int) {
	for i, f := range s.F {
		if ch, cp := st.Chan(f); ch != nil && i != but && ch.Closed {
			st.Store(cp, &ai.ChanObj{Cap: ch.Cap, Buf: ch.Buf})
		}
	}
}

func c29(c *Ctx) {
	w := load(rsPkg)
	f := c29Start(c, w, true)
	c29Start(c, w, false)
	c29Loop(c, w)
	c29Listen(c, w, f)
	c29Connect(c, w)
}

// c29ConnectRun prepares running a client up to where it connects.
func c29ConnectRun(w *World) (*ai.Interp, *ai.State) {
	in := w.interp()
	in.ChanModel, in.NoConcurrent, in.Far = true, true, true
	st := ai.NewState()
	connT := w.fn(rsPkg, "NewConnWithAddr").Signature.Results().At(0).Type()
	dialed := func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		tt := cc.RetT.(*types.Tuple)
		s := cc.St.Fork()
		opEvent(cc.St, "dialed")
		opEvent(s, "dial:err")
		cc.St.SetBool("isnil(netconn)", false)
		return []ai.Outcome{
			{Kind: ai.Ret, St: cc.St, Ret: &ai.TupleV{E: []ai.Value{opq("netconn", connT), ai.NilV{}}}},
			{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{ai.NilV{}, errVal(s, "dialerr", tt.At(1).Type())}}}}, true
	}
	for _, n := range []string{"(*net.Dialer).DialContext", "(*net.Dialer).Dial", "net.Dial", "net.DialTimeout"} {
		in.Hooks[n] = dialed
	}
	tabT := w.fn("invoke", "GetOperationsTable").Signature.Results().At(0).Type()
	in.Hooks[ai.Name(w.fn("invoke", "GetOperationsTable"))] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		return cc.Return(cc.St.Symbolic("optable", tabT))
	}
	toB := w.methodOf(tabT, "ToBytes")
	in.Hooks[ai.Name(toB)] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		k := "otherbytes"
		if cc.Args[0].VKey() == cc.St.Symbolic("optable", tabT).VKey() {
			k = "tablebytes"
		}
		return cc.Return(cc.St.Symbolic(k, types.NewSlice(types.Typ[types.Byte])))
	}
	in.OpaqueCB = func(cc *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
		if m != nil && m.Name() == "Close" && cc.Args[0].VKey() == "$netconn" {
			opEvent(cc.St, "close")
			return forkErr(cc, "closed", "closed", "closeerr")
		}
		return nil, false
	}
	return in, st
}

func c29Connect(c *Ctx, w *World) {
	in, st := c29ConnectRun(w)
	in.Hooks[ai.Name(w.method(rsPkg, "Transport", "Start"))] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		opEvent(cc.St, "start")
		return forkErr(cc, "started", "start:err", "starterr")
	}
	for _, ct := range connTypes(w) {
		pt := types.NewPointer(ct)
		in.Hooks[ai.Name(w.methodOf(pt, "Write"))] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
			opEvent(cc.St, "write", cc.Args[1])
			return forkErr(cc, "written", "write:err", "writeerr")
		}
		in.Hooks[ai.Name(w.methodOf(pt, "Flush"))] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
			opEvent(cc.St, "flush")
			return forkErr(cc, "flushed", "flush:err", "flusherr")
		}
	}
	fn := w.fn(rsPkg, "Connect")
	hv := st.Symbolic("h", fn.Signature.Params().At(0).Type())
	if o, ok := hv.(*ai.OpaqueV); ok {
		st.SetBool("isnil("+o.Key+")", false)
	}
	started, n := 0, 0
	for _, o := range in.Run(st, fn, []ai.Value{hv}, nil) {
		if o.Kind != ai.Ret {
			if o.St != nil {
				c.fail("connect:path", "a path of Connect does not return: %s", o.Why)
			}
			continue
		}
		n++
		var trace []string
		bad := false
		fail := func(key, f string, a ...any) {
			bad = true
			c.fail("connect:"+key, f+" (%s)", append(a, strings.Join(trace, " "))...)
		}
		failed, dialed, setup, flushed, first, begun, closed := "", false, false, false, true, false, false
		startErr := false
		for _, e := range o.St.Events {
			if e.Kind != "op" {
				continue
			}
			trace = append(trace, e.Name)
			switch e.Name {
			case "dialed":
				dialed = true
			case "dial:err", "write:err", "flush:err":
				failed = e.Name
			case "write":
				good := false
				if i, ok := e.Args[0].(*ai.IfaceV); ok && typeStr(i.Dyn) == "*internal/frames.Setup" {
					if sv, ok := o.St.Load(i.V.(*ai.PtrV)).(*ai.StructV); ok {
						t := deref1(i.Dyn).Underlying().(*types.Struct)
						for k := 0; k < t.NumFields(); k++ {
							if s, ok := sv.F[k].(*ai.SliceV); ok && t.Field(k).Name() == "Data" && s.VKey() == o.St.Symbolic("tablebytes", s2t(s)).VKey() {
								good = true
							}
						}
					}
				}
				if first && !good {
					fail("first", "the first frame sent is not a setup frame with the table of exported operations")
				}
				first = false
				setup = setup || good
			case "flushed":
				flushed = flushed || setup
			case "start":
				begun = true
				started++
				if failed != "" {
					fail("start-failed", "the connection is started although %s", failed)
				}
				if !setup || !flushed {
					fail("start-early", "the connection is started before its setup frame was written and flushed")
				}
			case "start:err":
				startErr = true
			case "close":
				closed = true
			}
		}
		rs := retTuple(o.Ret)
		ret := isNilV(o.St, rs[len(rs)-1])
		if failed != "" && ret >= 0 {
			fail("error", "Connect reports no error although %s", failed)
		}
		if startErr && ret >= 0 {
			fail("start-error", "Connect does not report what the connection ended with")
		}
		if dialed && !begun && !closed {
			fail("close", "Connect returns without closing its connection")
		}
		if dialed && failed == "" && !begun {
			fail("not-started", "Connect does not start the connection")
		}
		if !bad {
			c.ok("connect:path")
		}
	}
	c.Paths += n
	c.count("paths of Connect", n)
	c.check(started > 0, "connect:starts", "no path of Connect starts the connection")
	c.oblSet(w, in, "connect", "chan panic index nil slice assert")
}

func s2t(s *ai.SliceV) types.Type { return types.NewSlice(s.Elem) }
