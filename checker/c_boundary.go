package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// ---- the wasm memory boundary ------------------------------------------------

// hostExports finds the functions the host module exports to guests by name.
func hostExports(w *World) map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for _, fn := range moduleFuncs(w) {
		if fn.Pkg != w.pkg(pHost) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Export" || len(c.Call.Args) != 1 {
					continue
				}
				k, ok := c.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				v := c.Call.Value
				for i := 0; i < 10; i++ {
					x, ok := v.(*ssa.Call)
					if !ok || !x.Call.IsInvoke() {
						break
					}
					if x.Call.Method.Name() == "WithGoFunction" {
						if f := staticFn(x.Call.Args[0]); f != nil {
							r[constant.StringVal(k.Value)] = f
						}
						break
					}
					v = x.Call.Value
				}
			}
		}
	}
	for _, n := range []string{"__init_buffers", "__op_list", "__send"} {
		f := r[n]
		if f == nil || len(f.Params) != 2 {
			failf("unresolved anchor: the host function exported as %s", n)
		}
	}
	return r
}

func staticFn(v ssa.Value) *ssa.Function {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeClosure:
			f, _ := x.Fn.(*ssa.Function)
			return f
		default:
			return nil
		}
	}
	return nil
}

type boundary struct {
	*peer
	exp      map[string]*ssa.Function
	gmem     *ai.PtrV
	sendPtr  *ai.Lin
	recvPtr  *ai.Lin
	sendSize *ai.Lin
	recvSize *ai.Lin
	obs      map[string]string // what a frame must look like
}

func (b *boundary) guestCall(st *ai.State, name string, params ...ai.Value) []ai.Outcome {
	u64 := types.Typ[types.Uint64]
	n := ai.K(int64(len(params)))
	av := &ai.ArrV{Elem: u64, N: n, Base: "params"}
	for i, p := range params {
		av = st.ArrWrite(av, ai.K(int64(i)), p)
	}
	s := &ai.SliceV{Ptr: st.Alloc(nil, av, "params"), Off: ai.K(0), Len: n, Cap: n, Elem: u64}
	f := b.exp[name]
	return b.in.Run(st, f, []ai.Value{b.nonNil(st, "gctx", f.Params[0].Type()), s}, nil)
}

// memory gives the guest's memory; it may also be out of reach.
func (b *boundary) memory(c *ai.CallCtx) ([]ai.Outcome, bool) {
	tt := c.RetT.(*types.Tuple)
	off, ok1 := c.Args[1].(*ai.Lin)
	n, ok2 := c.Args[2].(*ai.Lin)
	if !ok1 || !ok2 {
		return nil, false
	}
	bad := c.St.Fork()
	bad.SetBool("H.nomem", true)
	s := &ai.SliceV{Ptr: b.gmem, Off: off, Len: n, Cap: n, Elem: types.Typ[types.Byte]}
	if c.St.ProveEQ(ai.Sub(off, b.sendPtr)) {
		// what the buffer held before is of no concern
		s.Ptr = c.St.Alloc(nil, &ai.ArrV{Elem: types.Typ[types.Byte], N: n, Base: fmt.Sprintf("sbuf%d", len(c.St.Events))}, "sbuf")
		s.Off = ai.K(0)
	}
	opEvent(c.St, "memread", off, n, s)
	return []ai.Outcome{
		{Kind: ai.Ret, St: c.St, Ret: &ai.TupleV{E: []ai.Value{s, ai.BConst(true)}}},
		{Kind: ai.Ret, St: bad, Ret: &ai.TupleV{E: []ai.Value{bad.Zero(tt.At(0).Type()), ai.BConst(false)}}},
	}, true
}

func (b *boundary) check(ok bool, key, f string, a ...any) {
	b.c.check(ok, "boundary:"+key, "%s: "+f, append([]any{key}, a...)...)
}

// params reads the numbers handed to a guest function.
func (b *boundary) params(e *ai.Event) []*ai.Lin {
	var r []*ai.Lin
	s, _ := e.Args[len(e.Args)-1].(*ai.SliceV)
	if s == nil || s.Ptr == nil {
		return nil
	}
	av, _ := e.St.Load(s.Ptr).(*ai.ArrV)
	n, ok := s.Len.Int64()
	if av == nil || !ok {
		return nil
	}
	for i := int64(0); i < n; i++ {
		l, ok := e.St.ArrRead(av, ai.AddK(s.Off, i)).(*ai.Lin)
		if !ok {
			return nil
		}
		r = append(r, l)
	}
	return r
}

func (b *boundary) pred(what string, os []ai.Outcome, f func(st *ai.State, ret ai.Value)) {
	if len(os) == 0 {
		b.check(false, what, "it leads nowhere")
	}
	for _, o := range os {
		switch o.Kind {
		case ai.Ret:
			f(o.St, o.Ret)
		case ai.Panic:
			b.check(false, what+":panic", "panics: %s", o.Why)
		default:
			b.check(false, what+":cut", "analysis incomplete: %s", o.Why)
		}
	}
}

func hostBoundary(c *Ctx) {
	w := loadPeers()
	h, st := newPeer(c, w, "C36", "host")
	b := &boundary{peer: h, exp: hostExports(w)}
	if h.sloop == nil {
		failf("unresolved anchor: the goroutine of the host that sends frames")
	}
	h.mem = b.memory
	h.in.Obls = nil
	// the sizes the guest was told
	for _, e := range h.initEv {
		if e.Kind == "op" && e.Name == "call:__wasmrs_init" {
			if p := b.params(e); len(p) == 3 {
				b.sendSize, b.recvSize = p[0], p[1]
			}
		}
	}
	if b.sendSize == nil {
		failf("unresolved anchor: the buffer sizes the host gives __wasmrs_init")
	}
	b.gmem = st.Alloc(nil, &ai.ArrV{Elem: types.Typ[types.Byte], N: ai.K(1 << 33), Base: "gmem"}, "gmem")
	b.sendPtr = st.Symbolic("sendptr", types.Typ[types.Uint32]).(*ai.Lin)
	b.recvPtr = st.Symbolic("recvptr", types.Typ[types.Uint32]).(*ai.Lin)
	os := b.guestCall(st, "__init_buffers", b.sendPtr, b.recvPtr)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("host: __init_buffers is not decided")
	}
	st = os[0].St
	b.sending(st)
	b.refusing(st)
	b.receiving(st)
	b.opList(st)
	b.finishBoundary()
}

func (b *boundary) finishBoundary() {
	for _, cut := range b.in.Cuts {
		b.check(false, "cut:"+cut, "analysis incomplete: %s", cut)
	}
	seen := map[string]bool{}
	for _, o := range b.in.Obls {
		if o.OK {
			b.c.Obligations++
			b.c.Discharged++
			continue
		}
		k := fmt.Sprintf("%s:%s:%s", b.kind, shortFn(o.Root), o.Kind)
		if !seen[k] && o.Kind != "block" {
			seen[k] = true
			b.c.fail(k, "boundary: %s: %s in %s: %s", b.w.at(o.RPos), o.Kind, shortFn(o.Root), o.Why)
		}
	}
	b.in.Obls = nil
	b.c.used(b.in)
}

// anyFrames builds one frame of each kind.
func (b *boundary) anyFrames(st *ai.State) *ai.State {
	h := b.peer
	h.sid = 0x5A6B7C8D
	h.sids = map[int64]string{}
	h.number(st, "init")
	h.number(st, "rn")
	b.obs = map[string]string{}
	for _, t := range []string{"RR", "FF", "RS", "RC"} {
		f := map[string]ai.Value{"FrameType": ai.K(h.w.konst(pFrames, "FrameType"+reqTypes[t])), "StreamID": ai.K(h.sid), "Data": h.slice(st, "req.d", 1, 2000), "Metadata": h.slice(st, "req.m", 1, 2000)}
		b.obs[t] = "out Request " + t + " d=req.d m=req.m"
		if t == "RS" || t == "RC" {
			f["InitialN"] = h.nums["init"]
			b.obs[t] += " n=init"
		}
		st = h.build(st, t, "RequestPayload", f)
	}
	st = h.commonFrames(st, "", h.sid)
	b.obs["next"] = "out Payload next d=msg.d m=msg.m"
	b.obs["both"] = "out Payload next complete d=msg.d m=msg.m"
	b.obs["complete"] = "out Payload complete"
	b.obs["error"] = "out Error " + remoteText
	b.obs["cancel"] = "out Cancel"
	b.obs["rn"] = "out RequestN rn"
	return st
}

// sending: each queued frame is put into the guest's buffer and handed over.
func (b *boundary) sending(st *ai.State) {
	h := b.peer
	st = b.anyFrames(st.Fork())
	st.Events = nil
	var names []string
	for n := range b.obs {
		names = append(names, n)
	}
	sort.Strings(names)
	var qs [][]string
	for i, n := range names {
		qs = append(qs, []string{n}, []string{n, names[(i+1)%len(names)]})
	}
	closed := b.closedState(st)
	for _, q := range qs {
		for k, s0 := range []*ai.State{st, closed} {
			s := s0.Fork()
			s.Events = nil
			ch, _ := s.Chan(h.sendCh)
			o := &ai.ChanObj{Cap: ch.Cap, Closed: ch.Closed}
			for _, n := range q {
				o.Buf = append(o.Buf, h.frames[n].v)
			}
			s.Store(h.sendCh, o)
			what := "sending " + strings.Join(q, ", ")
			if k == 1 {
				what += " (instance closed)"
			}
			if debugging() {
				fmt.Println(what)
			}
			ends := h.untilIdle(s, *h.sloop)
			if len(ends) == 0 {
				b.check(false, what, "it leads nowhere")
			}
			for _, e := range ends {
				bad := ""
				for k, v := range e.Bools() {
					if v && strings.HasPrefix(k, "H.panic:") {
						bad = strings.TrimPrefix(k, "H.panic:")
					}
				}
				if bad != "" {
					b.check(false, what+":panic", "panics: %s", bad)
					continue
				}
				var got []string
				var buf ai.Value
				for _, ev := range e.Events {
					switch {
					case ev.Kind == "op" && ev.Name == "memread":
						buf = ev.Args[2]
						b.check(e.ProveEQ(ai.Sub(ev.Args[0].(*ai.Lin), b.sendPtr)) && e.ProveGE(ai.Sub(b.sendSize, ev.Args[1].(*ai.Lin))), "sending:memory", "bytes outside the guest's buffer are used")
					case ev.Kind == "op" && ev.Name == "call:__wasmrs_send":
						p := b.params(ev)
						if len(p) != 1 {
							got = append(got, "a malformed call")
							continue
						}
						if buf == nil {
							got = append(got, "nothing that was written")
							continue
						}
						got = append(got, h.saw(&ai.Event{Kind: "op", Name: "bytes", Args: []ai.Value{buf, p[0]}, St: ev.St}))
					}
				}
				if e.Bools()["H.nomem"] {
					b.check(len(got) < len(q), what+":nomem", "a frame is handed over that could not be written")
					continue
				}
				var want []string
				for _, n := range q {
					want = append(want, b.obs[n])
				}
				b.check(strings.Join(got, "; ") == strings.Join(want, "; "), what, "the guest is handed %s instead of %s", strings.Join(got, "; "), strings.Join(want, "; "))
			}
		}
	}
}

func (b *boundary) closedState(st *ai.State) *ai.State {
	os := b.in.Run(st.Fork(), b.d("HostClose"), []ai.Value{b.obj}, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("host: Close of an idle instance is not decided")
	}
	return os[0].St
}

// refusing: a frame is queued exactly if it fits the guest's buffer.
func (b *boundary) refusing(st *ai.State) {
	h := b.peer
	for _, n := range []string{"RS", "next", "error"} {
		s := st.Fork()
		f := map[string]ai.Value{"StreamID": ai.K(3)}
		big := func(key string) *ai.SliceV {
			x := byteSlice(s, key)
			atLeast(s, x.Len, 1)
			atMost(s, x.Len, 1<<24-1)
			return x
		}
		typ := "Payload"
		switch n {
		case "RS":
			typ = "RequestPayload"
			f["FrameType"] = ai.K(h.w.konst(pFrames, "FrameTypeRequestStream"))
			f["Data"], f["Metadata"] = big("big.d"), big("big.m")
		case "next":
			f["Data"], f["Metadata"], f["Next"] = big("big.d"), big("big.m"), ai.BConst(true)
		case "error":
			typ = "Error"
			x := s.Symbolic("big.t", types.Typ[types.String]).(*ai.StrV)
			atMost(s, x.Len, 1<<24-1)
			f["Data"] = x
		}
		s = h.build(s, "big", typ, f)
		size := ai.AddK(h.frames["big"].bytes.Len, 3)
		what := "queueing " + n
		h.clean(s)
		b.pred(what, h.in.Run(s, h.d("HostSend"), []ai.Value{h.obj, h.frames["big"].v}, nil), func(e *ai.State, ret ai.Value) {
			ch, _ := e.Chan(h.sendCh)
			_, ok := ret.(ai.NilV)
			if ok {
				b.check(len(ch.Buf) == 1, what, "SendFrame reports success and queues %d frames", len(ch.Buf))
				b.check(e.ProveGE(ai.Sub(b.sendSize, size)), what+":fits", "a frame is queued that may not fit the guest's buffer")
				return
			}
			b.check(len(ch.Buf) == 0, what, "SendFrame reports an error and queues %d frames", len(ch.Buf))
			b.check(e.ProveGE(ai.AddK(ai.Sub(size, b.sendSize), -1)), what+":refused", "a frame is refused that may fit the guest's buffer")
		})
	}
}

// receiving: the complete frames in the memory are queued, as copies.
func (b *boundary) receiving(st *ai.State) {
	h := b.peer
	for frames := 0; frames <= 2; frames++ {
		for _, tail := range []string{"nothing", "one or two bytes", "a truncated frame"} {
			s := st.Fork()
			s.Events = nil
			h.clean(s)
			what := fmt.Sprintf("receiving %d frames and %s", frames, tail)
			if debugging() {
				fmt.Println(what)
			}
			heads := 0
			be := func(off *ai.Lin) *ai.Lin {
				l := s.Symbolic(fmt.Sprintf("len%d", heads), types.Typ[types.Uint32]).(*ai.Lin)
				atMost(s, l, 1<<16)
				heads++
				s, _ = h.one(s, "Head", &ai.SliceV{Ptr: b.gmem, Off: off, Len: ai.K(3), Cap: ai.K(3), Elem: types.Typ[types.Byte]}, l)
				return l
			}
			off := b.recvPtr
			n := ai.K(0)
			var want []*ai.SliceV
			for i := 0; i < frames; i++ {
				l := be(off)
				atLeast(s, l, 1)
				atMost(s, l, 1<<16)
				p := ai.AddK(off, 3)
				want = append(want, &ai.SliceV{Ptr: b.gmem, Off: p, Len: l, Cap: l, Elem: types.Typ[types.Byte]})
				off = ai.Add(p, l)
				n = ai.AddK(ai.Add(n, l), 3)
			}
			switch tail {
			case "one or two bytes":
				r := s.Symbolic("rest", types.Typ[types.Uint32]).(*ai.Lin)
				atLeast(s, r, 1)
				atMost(s, r, 2)
				n = ai.Add(n, r)
			case "a truncated frame":
				r := s.Symbolic("rest", types.Typ[types.Uint32]).(*ai.Lin)
				atLeast(s, r, 3)
				atMost(s, r, 1<<16)
				atLeast(s, ai.Sub(ai.AddK(be(off), 3), r), 1)
				n = ai.Add(n, r)
			}
			pre := s.Fork()
			b.pred(what, b.guestCall(s, "__send", n), func(e *ai.State, _ ai.Value) {
				ch, _ := e.Chan(h.recvCh)
				if e.Bools()["H.nomem"] {
					b.check(len(ch.Buf) == 0, what+":nomem", "frames are queued that could not be read")
					return
				}
				for _, ev := range e.Events {
					if ev.Kind == "op" && ev.Name == "memread" {
						b.check(e.ProveEQ(ai.Sub(ev.Args[0].(*ai.Lin), b.recvPtr)), "receiving:memory", "the frames are not read from the guest's buffer")
					}
				}
				ok := len(ch.Buf) == len(want)
				for i := range want {
					if !ok {
						break
					}
					g, _ := ch.Buf[i].(*ai.SliceV)
					ok = g != nil && sameBytes(e, g, pre, want[i], 0)
					if g != nil && g.Ptr != nil {
						b.check(g.Ptr.Obj != b.gmem.Obj, what+":alias", "a queued frame shares the guest's memory, which is used again")
					}
				}
				b.check(ok, what, "the queue does not hold those frames (%d frames)", len(ch.Buf))
			})
		}
	}
}

// opList: the table read from the guest's memory is the instance's table.
func (b *boundary) opList(st *ai.State) {
	s := st.Fork()
	s.Events = nil
	table := ""
	old := b.in.Hooks[ai.Name(b.w.fn("operations", "FromBytes"))]
	defer func() { b.in.Hooks[ai.Name(b.w.fn("operations", "FromBytes"))] = old }()
	b.in.Hooks[ai.Name(b.w.fn("operations", "FromBytes"))] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		opEvent(c.St, "table", c.Args[0])
		os, ok := b.anyTable(c)
		for i, o := range os {
			t := o.Ret.(*ai.TupleV).E
			if _, fine := t[1].(ai.NilV); fine {
				table = t[0].VKey()
			} else {
				os[i].St.SetBool("H.notable", true)
			}
		}
		return os, ok
	}
	ptr := s.Symbolic("opptr", types.Typ[types.Uint32]).(*ai.Lin)
	n := s.Symbolic("opsize", types.Typ[types.Uint32]).(*ai.Lin)
	b.pred("the operation list", b.guestCall(s, "__op_list", ptr, n), func(e *ai.State, _ ai.Value) {
		var arg *ai.SliceV
		for _, ev := range e.Events {
			if ev.Kind == "op" && ev.Name == "table" {
				arg, _ = ev.Args[0].(*ai.SliceV)
			}
		}
		for _, o := range b.in.Run(e.Fork(), b.d("HostOps"), []ai.Value{b.obj}, nil) {
			t, _ := o.Ret.(*ai.SliceV)
			if e.Bools()["H.nomem"] {
				continue
			}
			if arg == nil || arg.Ptr == nil {
				b.check(false, "the operation list", "it is not decoded")
				continue
			}
			b.check(arg.Ptr.Obj == b.gmem.Obj && e.ProveEQ(ai.Sub(arg.Off, ptr)) && e.ProveEQ(ai.Sub(arg.Len, n)), "the operation list", "other bytes are decoded than the guest gave")
			b.check(t != nil && (t.VKey() == table || e.Bools()["H.notable"]), "the operation list", "the table is not the decoded one")
		}
	})
}

func guestBoundary(c *Ctx) {
	w := loadPeers()
	h, st := newPeer(c, w, "C36", "guest")
	b := &boundary{peer: h}
	st = h.ready(st)
	h.in.Obls = nil
	// sending: a frame crosses exactly if it fits the host's buffer
	{
		s := st.Fork()
		d, m := h.slice(s, "req.d", 1, 1<<24-1), h.slice(s, "req.m", 1, 1<<24-1)
		h.sid = 1
		h.sids = map[int64]string{}
		var p ai.Value
		s, p = h.one(s, "PNew", d, m)
		s = h.build(s, "big", "RequestPayload", map[string]ai.Value{"FrameType": ai.K(w.konst(pFrames, "FrameTypeRequestFNF")), "StreamID": ai.K(1), "Data": d, "Metadata": m})
		size := ai.AddK(h.frames["big"].bytes.Len, 3)
		host := ai.K(20 * 1024)
		s.Events = nil
		b.pred("sending from the guest", h.in.Run(s, h.d("CallFF"), []ai.Value{h.caller, opq("ctx", h.pt("CallFF", 1)), p}, nil), func(e *ai.State, _ ai.Value) {
			n := 0
			for _, ev := range e.Events {
				if !h.isFrame(ev) {
					continue
				}
				n++
				o := strings.Replace(h.saw(ev), " on another stream", "", 1)
				b.check(o == "out Request FF d=req.d m=req.m", "sending from the guest", "the host is handed %s", o)
			}
			switch n {
			case 0:
				b.check(e.ProveGE(ai.AddK(ai.Sub(size, host), -1)), "sending from the guest:refused", "a frame is not sent that may fit the host's buffer")
			case 1:
				b.check(e.ProveGE(ai.Sub(host, size)), "sending from the guest:fits", "a frame is sent that may not fit the host's buffer")
			default:
				b.check(false, "sending from the guest", "%d frames are sent for one", n)
			}
		})
		delete(h.sl, "req.d")
		delete(h.sl, "req.m")
	}
	// receiving: each frame handed over at once is handled
	for _, two := range []bool{false, true} {
		s := st.Fork()
		h.sid = 2
		h.cb = func(cc *ai.CallCtx, key string) ([]ai.Outcome, bool) {
			if key == "hFF" {
				opEvent(cc.St, "handler:FF", cc.Args...)
				cc.St.Events[len(cc.St.Events)-1].St = cc.St.Fork()
				return []ai.Outcome{{Kind: ai.Ret, St: cc.St}}, true
			}
			return nil, false
		}
		var want []string
		for i, k := range []string{"req", "msg"} {
			m := h.slice(s, k+".m", 9, 2000)
			av, _ := s.Load(m.Ptr).(*ai.ArrV)
			if av == nil {
				s.Store(m.Ptr, s.Fork().Load(m.Ptr))
			}
			for j := int64(0); j < 4; j++ {
				av = s.ArrWrite(av, ai.AddK(m.Off, j), ai.K(j/3))
			}
			s.Store(m.Ptr, av)
			s = h.build(s, k, "RequestPayload", map[string]ai.Value{"FrameType": ai.K(w.konst(pFrames, "FrameTypeRequestFNF")), "StreamID": ai.K(int64(2 * (i + 1))), "Data": h.slice(s, k+".d", 1, 2000), "Metadata": m})
			want = append(want, "handler FF d="+k+".d")
		}
		s.Events = nil
		buf := h.in.GlobalValue(s, h.gbuf)
		var n ai.Value
		if two {
			s, n = h.one(s, "GuestFill2", buf, h.frames["req"].bytes, h.frames["msg"].bytes)
		} else {
			s, n = h.one(s, "GuestFill", buf, h.frames["req"].bytes)
			want = want[:1]
		}
		what := fmt.Sprintf("receiving %d frames in the guest", len(want))
		b.pred(what, h.in.Run(s, h.d("GuestFrame"), []ai.Value{n}, nil), func(e *ai.State, _ ai.Value) {
			var got []string
			for _, ev := range e.Events {
				if o := h.saw(ev); o != "" {
					o, _, _ = strings.Cut(o, " m=")
					got = append(got, o)
				}
			}
			b.check(strings.Join(got, "; ") == strings.Join(want, "; "), what, "%s instead of %s", strings.Join(got, "; "), strings.Join(want, "; "))
		})
		h.sl = map[string]*ai.SliceV{}
	}
	b.finishBoundary()
}

func init() {
	register(check{"C36", "Frames cross the wasm memory boundary intact",
		"abstract interpretation of the wasm host's sending goroutine, of the functions it exports to guests and of the guest's sending and receiving functions over memory of unknown content at unknown addresses: what is handed over decodes to the frame that was sent, in order; what does not fit the buffer size agreed on is refused; received frames are queued as copies, incomplete rests dropped; memory out of reach does no harm",
		150, func(c *Ctx) {
			c.shards([]string{"host", "guest"}, func(n string) {
				if n == "host" {
					hostBoundary(c)
				} else {
					guestBoundary(c)
				}
			})
		}})
}
