package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

//go:embed drivers/peer.go.txt
var peerDriver []byte

// A peer is one of the three implementations of the protocol. Frames go in the
// way its transport hands them over, and are observed where they leave it.
type peer struct {
	c    *Ctx
	w    *World
	in   *ai.Interp
	prop string
	kind string // "client", "server" (handler), "host", "guest"
	tag  string
	obj  ai.Value // *handler.Handler, *host.Instance, nil
	// concrete stream ids: the one looked at and another
	sid, other int64

	caller  ai.Value // invoke.Caller
	recvCh  *ai.PtrV
	sendCh  *ai.PtrV
	loop    *goCall // receives frames
	sloop   *goCall // sends frames
	takers  [2]int  // goroutines taking frames off the receiving and the sending queue
	initEv  []*ai.Event
	mem     func(c *ai.CallCtx) ([]ai.Outcome, bool) // the guest's memory is read
	gbuf    *ssa.Global
	hbuf    *ssa.Global
	frames  map[string]*pFrame
	pl      map[string]ai.Value   // payloads
	sl      map[string]*ai.SliceV // byte slices
	cells   map[string]*ai.PtrV   // harness cells
	cb      func(c *ai.CallCtx, key string) ([]ai.Outcome, bool)
	nums    map[string]*ai.Lin
	sids    map[int64]string
	globals []*ssa.Global
	start   *ai.State
	proved  int // obligations discharged on the way
}

// pFrame is a frame ready to be handed to the peer.
type pFrame struct {
	name  string
	v     ai.Value   // IfaceV of the frame
	bytes *ai.SliceV // its encoding
}

func (h *peer) d(n string) *ssa.Function { return h.w.fn(driverPkg, n) }
func (h *peer) pt(fn string, i int) types.Type {
	return h.d(fn).Signature.Params().At(i).Type()
}
func (h *peer) rt(fn string) types.Type { return h.d(fn).Signature.Results().At(0).Type() }

func (h *peer) one(st *ai.State, fn string, args ...ai.Value) (*ai.State, ai.Value) {
	os := h.in.Run(st, h.d(fn), args, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		why := fmt.Sprint(len(os))
		for _, o := range os {
			why += " " + o.Why
		}
		failf("%s: %s is not decided: %s", h.tag, fn, why)
	}
	return os[0].St, os[0].Ret
}

func (h *peer) nonNil(st *ai.State, key string, t types.Type) ai.Value {
	st.SetBool("isnil("+key+")", false)
	return opq(key, t)
}

func (h *peer) callback(c *ai.CallCtx, method *types.Func) ([]ai.Outcome, bool) {
	if method != nil {
		o, ok := c.Args[0].(*ai.OpaqueV)
		if !ok {
			return nil, false
		}
		switch {
		case method.Name() == "Error" && strings.HasPrefix(o.Key, "errtext:"):
			return c.Return(ai.StrConst(strings.TrimPrefix(o.Key, "errtext:")))
		case method.Name() == "Error" && strings.HasPrefix(o.Key, "err"):
			return c.Return(ai.StrConst("text of " + o.Key))
		case o.Key == "mod" && method.Name() == "ExportedFunction":
			name, _ := ai.ConstStr(c.Args[1].(*ai.StrV))
			return c.Return(h.nonNil(c.St, "fn:"+name, c.RetT))
		case o.Key == "mod" && method.Name() == "Memory":
			return c.Return(h.nonNil(c.St, "mem", c.RetT))
		case o.Key == "mem" && method.Name() == "Read" && h.mem != nil:
			return h.mem(c)
		case o.Key == "gctx" && method.Name() == "Value":
			return c.Return(&ai.IfaceV{Dyn: h.rt("HostInstance"), V: h.obj})
		case strings.HasPrefix(o.Key, "fn:") && method.Name() == "Call":
			opEvent(c.St, "call:"+strings.TrimPrefix(o.Key, "fn:"), c.Args[2:]...)
			c.St.Events[len(c.St.Events)-1].St = c.St.Fork()
			tt := c.RetT.(*types.Tuple)
			return c.Return(&ai.TupleV{E: []ai.Value{c.St.Zero(tt.At(0).Type()), ai.NilV{}}})
		}
		return nil, false
	}
	if c.Fn != nil || len(c.Free) == 0 {
		return nil, false
	}
	o, ok := c.Free[0].(*ai.OpaqueV)
	if !ok {
		return nil, false
	}
	if o.Key == "send" {
		if c.St.Bools()["H.failing"] {
			opEvent(c.St, "refused")
			return c.Return(errVal(c.St, "err.send", c.RetT))
		}
		if f, ok := c.Args[0].(*ai.IfaceV); ok && c.St.Bools()["H.picky"] && !strings.HasSuffix(f.Dyn.String(), ".Error") {
			// anything but an error is too large
			opEvent(c.St, "refused")
			return c.Return(errVal(c.St, "err.send", c.RetT))
		}
		h.sent(c.St, c.Args[0])
		return c.Return(ai.NilV{})
	}
	if o.Key == "wsrc" {
		return []ai.Outcome{{Kind: ai.Ret, St: c.St}}, true
	}
	if h.cb != nil {
		if os, ok := h.cb(c, o.Key); ok {
			return os, ok
		}
	}
	// a handler no request of the history is for: it answers nothing
	if os.Getenv("VERIF_DEBUG") == "3" {
		fmt.Println("opaque call", o.Key, c.RetT)
	}
	for _, fn := range []string{"MonoCreate", "FluxCreate"} {
		if c.RetT != nil && types.Identical(c.RetT, h.rt(fn)) {
			c.St.SetBool("isnil(wsrc)", false)
			return h.in.Run(c.St, h.d(fn), []ai.Value{opq("wsrc", h.pt(fn, 0))}, nil), true
		}
	}
	if o.Key == "hFF" || o.Key == "zFF" {
		return []ai.Outcome{{Kind: ai.Ret, St: c.St}}, true
	}
	return nil, false
}

// sent records a frame leaving the peer, with the state it leaves in.
func (h *peer) sent(st *ai.State, f ai.Value) {
	opEvent(st, "frame", f)
	e := st.Events[len(st.Events)-1]
	e.St = st.Fork()
}

func newPeer(c *Ctx, w *World, prop, kind string) (*peer, *ai.State) {
	h := &peer{c: c, w: w, prop: prop, kind: kind, tag: kind, frames: map[string]*pFrame{}, pl: map[string]ai.Value{}, sl: map[string]*ai.SliceV{}, cells: map[string]*ai.PtrV{}, nums: map[string]*ai.Lin{}}
	in := w.interp()
	in.ChanModel = true
	in.Far = true
	in.NoConcurrent = true
	in.UnrollFork = 200000
	in.UnrollAny = true
	in.MaxSteps = 1 << 40
	in.FromInit = map[string]bool{mod + "/invoke": true, mod + "/" + pGuest: true}
	in.OpaqueCB = h.callback
	in.Hooks["errors.New"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		return c.Return(h.nonNil(c.St, "errtext:"+h.textName(c.St, c.Args[0]), c.RetT))
	}
	if prop == "C13" {
		in.Hooks[ai.Name(w.fn("operations", "FromBytes"))] = h.anyTable
	}
	h.in = in
	st := ai.NewState()
	st.SetBool("isnil(ctx)", false)
	ctx := func(fn string, i int) ai.Value { return opq("ctx", h.pt(fn, i)) }
	switch kind {
	case "client", "server":
		st.SetBool("isnil(send)", false)
		st, h.obj = h.one(st, "HandlerNew", ctx("HandlerNew", 0), ai.BConst(kind == "server"), opq("send", h.pt("HandlerNew", 2)))
		st, h.caller = h.one(st, "HandlerCaller", h.obj)
	case "host":
		st.SetBool("isnil(mod)", false)
		var r ai.Value
		st, r = h.one(st, "HostNew", ctx("HostNew", 0), opq("mod", h.pt("HostNew", 1)))
		h.obj = retTuple(r)[0]
		h.initEv = st.Events
		st = h.hostLoops(st)
		st, h.caller = h.one(st, "HostCaller", h.obj)
	case "guest":
		in.Hooks[ai.Name(h.hostSend())] = h.guestSend
		st, _ = h.one(st, "GuestInit")
		st, h.caller = h.one(st, "GuestCaller")
		var ns []string
		for n := range w.pkg(pGuest).Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			g, ok := w.pkg(pGuest).Members[n].(*ssa.Global)
			switch {
			case !ok:
			case h.sized(st, g, 0):
				h.gbuf = g
			case h.sized(st, g, 1):
				h.hbuf = g
			case !strings.Contains(n, "$"):
				h.globals = append(h.globals, g)
			}
		}
		if h.gbuf == nil || h.hbuf == nil {
			failf("unresolved anchor: the guest's buffers")
		}
	}
	st.Events = nil
	return h, st
}

const pGuest = "transport/wasmrs/guest"

// hostLoops finds the goroutine that receives frames from the guest, and the
// channels frames go through.
func (h *peer) hostLoops(st *ai.State) *ai.State {
	byt := types.NewSlice(types.Typ[types.Byte])
	p, _ := h.obj.(*ai.PtrV)
	if p == nil {
		failf("host: NewInstance yields no instance")
	}
	t := st.Obj(p.Obj).T
	s, _ := st.Load(p).(*ai.StructV)
	fs, _ := t.Underlying().(*types.Struct)
	if s == nil || fs == nil {
		failf("host: the instance is not a structure")
	}
	frame := h.w.named(pFrames, "Frame")
	for i := range s.F {
		ct, ok := fs.Field(i).Type().Underlying().(*types.Chan)
		if !ok {
			continue
		}
		_, cp := st.Chan(s.F[i])
		switch {
		case types.Identical(ct.Elem(), byt):
			h.recvCh = cp
		case types.Identical(ct.Elem(), frame):
			h.sendCh = cp
		}
	}
	if h.recvCh == nil || h.sendCh == nil {
		failf("host: the queues of frames are not found")
	}
	for _, e := range st.Events {
		g, ok := e.Instr.(*ssa.Go)
		if e.Kind != "go" || !ok {
			continue
		}
		gc := &goCall{fn: e.Recv, site: g, args: e.Args}
		// the receiving goroutine takes a message off the queue
		probe := st.Fork()
		probe.Events = nil
		ch, _ := probe.Chan(h.recvCh)
		probe.Store(h.recvCh, &ai.ChanObj{Cap: ch.Cap, Buf: []ai.Value{probe.Zero(byt)}})
		for _, s := range h.untilIdle(probe, *gc) {
			if ch, _ := s.Chan(h.recvCh); ch != nil && len(ch.Buf) == 0 {
				if h.loop != gc {
					h.takers[0]++
				}
				h.loop = gc
			}
		}
	}
	for _, e := range st.Events {
		g, ok := e.Instr.(*ssa.Go)
		if e.Kind != "go" || !ok {
			continue
		}
		gc := &goCall{fn: e.Recv, site: g, args: e.Args}
		probe := st.Fork()
		probe.Events = nil
		f := &ai.IfaceV{Dyn: types.NewPointer(h.w.named(pFrames, "Cancel")), V: probe.Alloc(h.w.named(pFrames, "Cancel"), probe.Zero(h.w.named(pFrames, "Cancel")), "probe")}
		ch, _ := probe.Chan(h.sendCh)
		probe.Store(h.sendCh, &ai.ChanObj{Cap: ch.Cap, Buf: []ai.Value{f}})
		h.mem = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
			tt := c.RetT.(*types.Tuple)
			return c.Return(&ai.TupleV{E: []ai.Value{c.St.Zero(tt.At(0).Type()), ai.BConst(false)}})
		}
		for _, s := range h.untilIdle(probe, *gc) {
			if ch, _ := s.Chan(h.sendCh); ch != nil && len(ch.Buf) == 0 {
				if h.sloop != gc {
					h.takers[1]++
				}
				h.sloop = gc
			}
		}
		h.mem = nil
	}
	if h.loop == nil {
		failf("host: no goroutine receives frames")
	}
	return st
}

// untilIdle runs a goroutine until it waits for more input.
func (h *peer) untilIdle(st *ai.State, g goCall) []*ai.State {
	var idle []*ai.State
	old := h.in.OnBlock
	h.in.OnBlock = func(s *ai.State) []*ai.State {
		idle = append(idle, s.Fork())
		return nil
	}
	n := len(h.in.Obls)
	os := runGo(h.in, st, g)
	h.in.OnBlock = old
	keep := h.in.Obls[:n]
	for _, o := range h.in.Obls[n:] {
		switch {
		case o.Kind == "block":
		case o.OK:
			h.proved++
		default:
			keep = append(keep, o)
		}
	}
	h.in.Obls = keep
	for _, o := range os {
		switch o.Kind {
		case ai.Ret:
			idle = append(idle, o.St)
		case ai.Panic:
			o.St.SetBool("H.panic:"+o.Why, true)
			idle = append(idle, o.St)
		case ai.Cut:
			h.c.fail(h.tag+":cut", "%s: analysis incomplete: %s", h.tag, o.Why)
		}
	}
	return idle
}

// hostSend is the imported function that takes a position; outside
// WebAssembly it has an empty body.
func (h *peer) hostSend() *ssa.Function {
	if fn := h.w.pkg(pGuest).Func("hostSend"); fn != nil {
		return fn
	}
	var found *ssa.Function
	for _, fn := range ai.PkgFuncs(h.w.Prog, h.w.pkg(pGuest)) {
		s := fn.Signature
		if fn.Parent() != nil || s.Recv() != nil || s.Results().Len() != 0 || s.Params().Len() != 1 || !types.Identical(s.Params().At(0).Type(), types.Typ[types.Uint32]) {
			continue
		}
		if len(fn.Blocks) == 1 && len(fn.Blocks[0].Instrs) == 1 {
			if found != nil {
				failf("unresolved anchor: guest.hostSend: several functions could be it")
			}
			found = fn
		}
	}
	if found == nil {
		failf("unresolved anchor: guest.hostSend")
	}
	return found
}

// sized reports whether a variable holds the buffer that has the size given
// as Init's i-th argument.
func (h *peer) sized(st *ai.State, g *ssa.Global, i int) bool {
	switch g.Name() {
	case "guestBuffer":
		return i == 0
	case "hostBuffer":
		return i == 1
	}
	if !isByteSlice(g.Type().(*types.Pointer).Elem()) {
		return false
	}
	b, ok := h.in.GlobalValue(st, g).(*ai.SliceV)
	return ok && b.Len != nil && st.ProveEQ(ai.AddK(b.Len, -int64(16+4*i)*1024)) // see GuestInit
}

// guestSend sees a frame in the host's buffer.
func (h *peer) guestSend(c *ai.CallCtx) ([]ai.Outcome, bool) {
	n, ok := c.Args[0].(*ai.Lin)
	if !ok || h.hbuf == nil {
		return nil, false
	}
	buf, _ := h.in.GlobalValue(c.St, h.hbuf).(*ai.SliceV)
	if buf == nil {
		return nil, false
	}
	opEvent(c.St, "bytes", buf, n)
	e := c.St.Events[len(c.St.Events)-1]
	e.St = c.St.Fork()
	return []ai.Outcome{{Kind: ai.Ret, St: c.St}}, true
}

// build makes a frame once; it is handed over many times.
func (h *peer) build(st *ai.State, name, typ string, fields map[string]ai.Value) *ai.State {
	t := h.w.named(pFrames, typ)
	v := st.Zero(t).(*ai.StructV)
	v = &ai.StructV{F: append([]ai.Value(nil), v.F...)}
	fs := t.Underlying().(*types.Struct)
	for i := 0; i < fs.NumFields(); i++ {
		if x, ok := fields[fs.Field(i).Name()]; ok {
			v.F[i] = x
		}
	}
	f := &ai.IfaceV{Dyn: types.NewPointer(t), V: st.Alloc(t, v, "frame."+name)}
	pf := &pFrame{name: name, v: f}
	h.frames[name] = pf
	if h.kind == "host" || h.kind == "guest" {
		var b ai.Value
		st, b = h.one(st, "FEncode", f)
		pf.bytes = b.(*ai.SliceV)
	}
	return st
}

// deliver hands a frame to the peer.
func (h *peer) deliver(st *ai.State, f *pFrame) []ai.Outcome {
	opEvent(st, "deliver:"+f.name)
	return h.input(st, f)
}

func (h *peer) input(st *ai.State, f *pFrame) []ai.Outcome {
	switch h.kind {
	case "client", "server":
		return h.in.Run(st, h.d("HandlerFrame"), []ai.Value{h.obj, f.v}, nil)
	case "host":
		ch, _ := st.Chan(h.recvCh)
		st.Store(h.recvCh, &ai.ChanObj{Cap: ch.Cap, Buf: []ai.Value{f.bytes}})
		var r []ai.Outcome
		for _, s := range h.untilIdle(st, *h.loop) {
			o := ai.Outcome{Kind: ai.Ret, St: s}
			for k, v := range s.Bools() {
				if v && strings.HasPrefix(k, "H.panic:") {
					o.Kind, o.Why = ai.Panic, strings.TrimPrefix(k, "H.panic:")
				}
			}
			r = append(r, o)
		}
		return r
	default:
		buf := h.in.GlobalValue(st, h.gbuf)
		st, n := h.one(st, "GuestFill", buf, f.bytes)
		return h.in.Run(st, h.d("GuestFrame"), []ai.Value{n}, nil)
	}
}

// gotFrame is a frame seen leaving the peer.
type gotFrame struct {
	st  *ai.State
	typ string
	f   map[string]ai.Value
	bad string
}

// frame reads the frame of an event.
func (h *peer) frame(e *ai.Event) *gotFrame {
	g := &gotFrame{st: e.St, f: map[string]ai.Value{}}
	var v ai.Value
	switch {
	case e.Kind == "op" && e.Name == "frame":
		v = e.Args[0]
	case e.Kind == "op" && e.Name == "bytes":
		buf, n := e.Args[0].(*ai.SliceV), e.Args[1].(*ai.Lin)
		av, _ := e.St.Load(buf.Ptr).(*ai.ArrV)
		if av == nil {
			g.bad = "the buffer is unknown"
			return g
		}
		var l *ai.Lin = ai.K(0)
		for k := int64(0); k < 3; k++ {
			b, ok := e.St.ArrRead(av, ai.AddK(buf.Off, k)).(*ai.Lin)
			if !ok {
				g.bad = "its length is unknown"
				return g
			}
			l = ai.Add(l, ai.Scale(b, bigP2(uint(8*(2-k)))))
		}
		if !e.St.ProveEQ(ai.Sub(ai.AddK(l, 3), n)) {
			g.bad = fmt.Sprintf("its length prefix says %s where %s bytes are sent", l.Key(), n.Key())
			return g
		}
		b := *buf
		b.Off, b.Len, b.Cap = ai.AddK(buf.Off, 3), ai.AddK(n, -3), ai.AddK(n, -3)
		k := len(h.in.Obls)
		os := h.in.Run(e.St.Fork(), h.d("FDecode"), []ai.Value{&b}, nil)
		h.in.Obls = h.in.Obls[:k]
		if len(os) != 1 || os[0].Kind != ai.Ret {
			g.bad = "it cannot be decoded"
			return g
		}
		rs := retTuple(os[0].Ret)
		g.st = os[0].St
		if _, ok := rs[1].(ai.NilV); !ok {
			g.bad = "it cannot be decoded"
			return g
		}
		v = rs[0]
	default:
		v = e.Args[0]
	}
	i, ok := v.(*ai.IfaceV)
	if !ok {
		g.bad = "it is unknown"
		return g
	}
	p, _ := i.V.(*ai.PtrV)
	pt, _ := i.Dyn.(*types.Pointer)
	if p == nil || pt == nil {
		g.bad = "it is unknown"
		return g
	}
	n, _ := pt.Elem().(*types.Named)
	s, _ := g.st.Load(p).(*ai.StructV)
	fs, _ := pt.Elem().Underlying().(*types.Struct)
	if n == nil || s == nil || fs == nil {
		g.bad = "it is unknown"
		return g
	}
	g.typ = n.Obj().Name()
	for k := 0; k < fs.NumFields(); k++ {
		g.f[fs.Field(k).Name()] = s.F[k]
	}
	return g
}

func (g *gotFrame) String() string {
	if g.bad != "" {
		return "a frame (" + g.bad + ")"
	}
	var r []string
	for _, k := range []string{"FrameType", "StreamID", "Next", "Complete", "Follows", "InitialN", "N"} {
		if v := g.f[k]; v != nil {
			r = append(r, k+"="+v.VKey())
		}
	}
	return g.typ + "{" + strings.Join(r, " ") + "}"
}

// isFrame recognises the events of frames leaving the peer.
func (h *peer) isFrame(e *ai.Event) bool {
	if e.Kind == "op" && (e.Name == "frame" || e.Name == "bytes") {
		return true
	}
	if h.sendCh != nil && e.Recv != nil && e.Recv.VKey() == h.sendCh.VKey() {
		return e.Kind == "send" || e.Kind == "select" && e.Name == "send"
	}
	return false
}

func num(v ai.Value) (int64, bool) {
	l, ok := v.(*ai.Lin)
	if !ok {
		return 0, false
	}
	return l.Int64()
}

// truth decides a boolean value: 1, -1 or 0.
func truth(st *ai.State, v ai.Value) int {
	b, ok := v.(*ai.BoolV)
	if !ok {
		return 0
	}
	return st.Eval(b)
}

// text compares a string with a constant.
func text(st *ai.State, v ai.Value, want string) bool {
	s, ok := v.(*ai.StrV)
	if !ok {
		return false
	}
	if c, ok := ai.ConstStr(s); ok {
		return c == want
	}
	if !st.ProveEQ(ai.AddK(s.Len, -int64(len(want)))) {
		return false
	}
	for i := 0; i < len(want); i++ {
		n, ok := num(st.ArrRead(s.C, ai.AddK(s.Off, int64(i))))
		if !ok || n != int64(want[i]) {
			return false
		}
	}
	return true
}
