package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Expectations: what must be seen next, per class (the first word). An entry
// starting with "?" may stay away; one ending in "*" matches what it begins.
type expects []string

func class(s string) string {
	w := strings.Fields(strings.TrimPrefix(s, "?"))
	if w[0] == "out" && len(w) > 1 && (w[1] == "RequestN" || w[1] == "Cancel") {
		return "ctl"
	}
	return w[0]
}

func expMatch(e, s string) bool {
	e = strings.TrimPrefix(e, "?")
	for _, alt := range strings.Split(e, "|") {
		if alt == s || strings.HasSuffix(alt, "*") && strings.HasPrefix(s, alt[:len(alt)-1]) {
			return true
		}
	}
	return false
}

// take consumes the expectation an observation meets: the first of its class,
// for demand and cancellations any.
func (x expects) take(s string) (expects, bool) {
	cl := class(s)
	for i, e := range x {
		if class(e) != cl || strings.HasPrefix(e, "?") {
			continue
		}
		if expMatch(e, s) {
			return append(append(expects{}, x[:i]...), x[i+1:]...), true
		}
		if ordered(cl) {
			break
		}
	}
	for _, e := range x {
		if class(e) == cl && strings.HasPrefix(e, "?") && expMatch(e, s) {
			return x, true
		}
	}
	return x, false
}

// loosen makes the expectations of a class optional.
func (x expects) loosen(cl string) expects {
	var r expects
	for _, e := range x {
		if class(e) == cl && !strings.HasPrefix(e, "?") {
			e = "?" + e
		}
		r = r.add(e)
	}
	return r
}

// add appends expectations; what may happen may happen any number of times.
func (x expects) add(s ...string) expects {
	r := append(expects{}, x...)
next:
	for _, e := range s {
		if strings.HasPrefix(e, "?") {
			for _, o := range r {
				if o == e {
					continue next
				}
			}
		}
		r = append(r, e)
	}
	return r.canon()
}

// without removes an expectation.
func (x expects) without(s string) expects {
	var r expects
	for _, e := range x {
		if e != s {
			r = append(r, e)
		}
	}
	return r
}

// ordered: observations of these classes come in the order they are awaited.
func ordered(cl string) bool { return cl == "out" || cl == "in" || cl == "c" || cl == "o" }

// canon sorts what may come in any order.
func (x expects) canon() expects {
	rank := func(e string) string {
		cl := class(e)
		switch {
		case strings.HasPrefix(e, "?"):
			return "3" + e
		case ordered(cl):
			return "1" + cl
		}
		return "2" + e
	}
	sort.SliceStable(x, func(i, j int) bool { return rank(x[i]) < rank(x[j]) })
	return x
}

func (x expects) missing() []string {
	var r []string
	for _, e := range x {
		if !strings.HasPrefix(e, "?") {
			r = append(r, e)
		}
	}
	return r
}

// names gives slices, texts and numbers their harness names.
func (h *peer) sliceName(st *ai.State, v ai.Value, names ...string) string {
	s, ok := v.(*ai.SliceV)
	if !ok {
		if _, nilv := v.(ai.NilV); nilv {
			return "-"
		}
		return "?"
	}
	if n, ok := s.Len.Int64(); ok && n == 0 || s.Ptr == nil {
		return "-"
	}
	for _, n := range names {
		if b := h.sl[n]; b != nil && sameBytes(st, s, st, b, 0) {
			return n
		}
	}
	return "?"
}

func (h *peer) numName(st *ai.State, v ai.Value, names ...string) string {
	l, ok := v.(*ai.Lin)
	if !ok {
		return "?"
	}
	for _, n := range names {
		if k := h.nums[n]; k != nil && st.ProveEQ(ai.Sub(l, k)) {
			return n
		}
	}
	return "?" + l.Key()
}

func (h *peer) textName(st *ai.State, v ai.Value) string {
	for _, t := range []string{"text of err", remoteText} {
		if text(st, v, t) {
			return t
		}
	}
	return "other text"
}

const remoteText = "remote failure"

func (h *peer) names() []string {
	r := []string{"resp.d", "resp.m", "req.d", "req.m", "msg.d", "msg.m"}
	if h.prop == "C42" {
		for i := 0; i < 3; i++ {
			for _, p := range []string{"i", "m"} {
				r = append(r, fmt.Sprintf("%s%d.d", p, i), fmt.Sprintf("%s%d.m", p, i))
			}
		}
	}
	return r
}
func (h *peer) numNames() []string { return []string{"init", "rn", "inreq", "max"} }

func (h *peer) payloadName(st *ai.State, p ai.Value) string {
	get := func(m string) ai.Value {
		n := len(h.in.Obls)
		defer func() { h.in.Obls = h.in.Obls[:n] }()
		os := runMethod(h.in, st.Fork(), p, m)
		if len(os) != 1 || os[0].Kind != ai.Ret {
			return nil
		}
		return os[0].Ret
	}
	md := h.sliceName(st, get("Metadata"), append(h.names(), "req.m+8")...)
	return "d=" + h.sliceName(st, get("Data"), h.names()...) + " m=" + md
}

func (h *peer) errName(st *ai.State, v ai.Value) string {
	n := len(h.in.Obls)
	defer func() { h.in.Obls = h.in.Obls[:n] }()
	os := h.in.Run(st.Fork(), h.d("ErrText"), []ai.Value{v}, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		return "unknown text"
	}
	return h.textName(os[0].St, os[0].Ret)
}

// saw renders an observation, "" for events that are none.
func (h *peer) saw(e *ai.Event) string {
	if h.isFrame(e) {
		g := h.frame(e)
		if g.bad != "" {
			return "out a frame of which " + g.bad
		}
		sid := ""
		if n, ok := num(g.f["StreamID"]); !ok || n != h.sid {
			sid = " on another stream"
			if n, ok := num(g.f["StreamID"]); ok && h.sids[n] != "" {
				sid = " on stream " + h.sids[n]
			}
		}
		flag := func(n string) string {
			switch truth(g.st, g.f[n]) {
			case 1:
				return " " + strings.ToLower(n)
			case -1:
				return ""
			}
			return " maybe-" + strings.ToLower(n)
		}
		switch g.typ {
		case "Payload":
			s := "out Payload" + sid + flag("Follows") + flag("Next") + flag("Complete")
			if truth(g.st, g.f["Next"]) != -1 {
				s += " d=" + h.sliceName(g.st, g.f["Data"], h.names()...) + " m=" + h.sliceName(g.st, g.f["Metadata"], h.names()...)
			}
			return s
		case "Error":
			return "out Error" + sid + " " + h.textName(g.st, g.f["Data"])
		case "Cancel":
			return "out Cancel" + sid
		case "RequestN":
			return "out RequestN" + sid + " " + h.numName(g.st, g.f["N"], h.numNames()...)
		case "RequestPayload":
			k, _ := num(g.f["FrameType"])
			s := "out Request " + h.kindName(k) + sid + flag("Follows") +
				" d=" + h.sliceName(g.st, g.f["Data"], h.names()...) + " m=" + h.sliceName(g.st, g.f["Metadata"], h.names()...)
			if h.kindName(k) == "RS" || h.kindName(k) == "RC" {
				s += " n=" + h.numName(g.st, g.f["InitialN"], h.numNames()...)
			}
			return s
		}
		return "out " + g.typ + sid
	}
	if e.Kind == "op" && strings.HasPrefix(e.Name, "handler:") {
		return "handler " + strings.TrimPrefix(e.Name, "handler:") + " " + strings.ReplaceAll(h.payloadName(e.St, e.Args[1]), "+8", "")
	}
	switch n := cbName(e); n {
	case "src.request":
		return "src request " + h.numName(e.St, e.Args[0], h.numNames()...)
	case "src.cancel":
		return "src cancel"
	case "in.next", "c.next", "o.next":
		return strings.Replace(n, ".", " ", 1) + " " + h.payloadName(e.St, e.Args[0])
	case "in.error", "c.error", "o.error":
		return strings.Replace(n, ".", " ", 1) + " " + h.errName(e.St, e.Args[0])
	case "in.complete", "c.complete", "o.complete":
		return strings.Replace(n, ".", " ", 1)
	}
	return ""
}

func (h *peer) kindName(k int64) string {
	for n, t := range reqTypes {
		if h.w.konst(pFrames, "FrameType"+t) == k {
			return n
		}
	}
	return fmt.Sprintf("type %d", k)
}

var reqTypes = map[string]string{"RR": "RequestResponse", "FF": "RequestFNF", "RS": "RequestStream", "RC": "RequestChannel"}

// payload makes a payload whose parts have the given names.
func (h *peer) payload(st *ai.State, name string) *ai.State {
	d, m := h.slice(st, name+".d", 1, h.room()), h.slice(st, name+".m", 1, h.room())
	st, h.pl[name] = h.one(st, "PNew", d, m)
	return st
}

func (h *peer) slice(st *ai.State, name string, lo, hi int64) *ai.SliceV {
	if s := h.sl[name]; s != nil {
		return s
	}
	s := st.Symbolic(name, types.NewSlice(types.Typ[types.Byte])).(*ai.SliceV)
	atLeast(st, s.Len, lo)
	atMost(st, s.Len, hi)
	h.sl[name] = s
	return s
}

func (h *peer) number(st *ai.State, name string) *ai.Lin {
	t := types.Typ[types.Uint32]
	l := st.Symbolic(name, t).(*ai.Lin)
	atLeast(st, l, 1)
	atMost(st, l, 1<<31-1)
	h.nums[name] = l
	return l
}

// commonFrames builds the frames of a stream that are not requests.
func (h *peer) commonFrames(st *ai.State, pre string, sid int64) *ai.State {
	id := ai.K(sid)
	d, m := h.slice(st, "msg.d", 1, h.room()), h.slice(st, "msg.m", 1, h.room())
	flag := func(next, comp bool, f map[string]ai.Value) map[string]ai.Value {
		r := map[string]ai.Value{"StreamID": id, "Next": ai.BConst(next), "Complete": ai.BConst(comp)}
		for k, v := range f {
			r[k] = v
		}
		return r
	}
	dm := map[string]ai.Value{"Data": d, "Metadata": m}
	st = h.build(st, pre+"next", "Payload", flag(true, false, dm))
	st = h.build(st, pre+"both", "Payload", flag(true, true, dm))
	st = h.build(st, pre+"complete", "Payload", flag(false, true, nil))
	st = h.build(st, pre+"none", "Payload", flag(false, false, nil))
	st = h.build(st, pre+"error", "Error", map[string]ai.Value{"StreamID": id, "Code": ai.K(0x201), "Data": ai.StrConst(remoteText)})
	st = h.build(st, pre+"cancel", "Cancel", map[string]ai.Value{"StreamID": id})
	st = h.build(st, pre+"rn", "RequestN", map[string]ai.Value{"StreamID": id, "N": h.nums["rn"]})
	return st
}

var frameOps = []string{"next", "both", "complete", "none", "error", "cancel", "rn"}

func (h *peer) cell(st *ai.State, name string) *ai.PtrV {
	p := st.Alloc(nil, ai.NilV{}, "H."+name)
	h.cells[name] = p
	return p
}

func (h *peer) held(st *ai.State, name string) ai.Value {
	v := st.Load(h.cells[name])
	if _, ok := v.(ai.NilV); ok {
		return nil
	}
	return v
}

// tables are the values of the peer the streams hang off.
func (h *peer) tables(st *ai.State) []ai.Value {
	if h.obj != nil {
		return []ai.Value{h.obj}
	}
	var r []ai.Value
	for _, g := range h.globals {
		r = append(r, h.in.GlobalValue(st, g))
	}
	return r
}

// registered looks for a stream with the id in the peer's tables.
func (h *peer) registered(st *ai.State, sid int64) bool {
	si := h.w.named("proxy", "Stream").Underlying().(*types.Interface)
	for _, root := range h.tables(st) {
		if reaches(st, root, func(v ai.Value) bool {
			var os []ai.Outcome
			n := len(h.in.Obls)
			defer func() { h.in.Obls = h.in.Obls[:n] }()
			switch x := v.(type) {
			case *ai.IfaceV:
				if !types.Implements(x.Dyn, si) {
					return false
				}
				os = runMethod(h.in, st.Fork(), x, "StreamID")
			case *ai.PtrV:
				o := st.Obj(x.Obj)
				if len(x.Path) > 0 || o == nil || o.T == nil {
					return false
				}
				pt := types.NewPointer(o.T)
				if !types.Implements(pt, si) {
					return false
				}
				os = runMethod(h.in, st.Fork(), &ai.IfaceV{Dyn: pt, V: x}, "StreamID")
			default:
				return false
			}
			if len(os) != 1 || os[0].Kind != ai.Ret {
				return false
			}
			k, ok := num(os[0].Ret)
			return ok && k == sid
		}) {
			return true
		}
	}
	return false
}

// clean forgets what has been sent and received.
func (h *peer) clean(st *ai.State) {
	if h.sendCh != nil {
		for _, p := range []*ai.PtrV{h.sendCh, h.recvCh} {
			if ch, _ := st.Chan(p); ch != nil {
				st.Store(p, &ai.ChanObj{Cap: ch.Cap, Closed: ch.Closed})
			}
		}
	}
	if h.kind == "guest" {
		for _, g := range []*ssa.Global{h.hbuf, h.gbuf} {
			n := g.Name()
			if b, ok := h.in.GlobalValue(st, g).(*ai.SliceV); ok && b.Ptr != nil {
				if a, ok := st.Load(b.Ptr).(*ai.ArrV); ok {
					st.Store(b.Ptr, &ai.ArrV{Elem: a.Elem, N: a.N, Base: "old." + n})
				}
			}
		}
	}
}

func ofRx(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return strings.HasPrefix(n.Obj().Pkg().Path(), mod+"/rx")
}

// ---- incoming requests -------------------------------------------------------

type inMon struct {
	sent, called, live, ended, lost bool
	loose                           bool // the handler's output is unspecified
	gone                            bool // the stream has left the table
	inSub, inEnd                    bool
	early                           bool   // frames came before the handler was called
	cancelled                       bool   // a cancel came before the source was subscribed
	asked                           bool   // demand came before that
	buf                             string // signals waiting for the input to be subscribed
	exp                             expects
}

type inScn struct {
	typ   string // RR FF RS RC
	meta  string // known, unknown, short
	style string // what the handler does
}

// incoming builds the frames of a request and of those that may follow it.
func (h *peer) incoming(st *ai.State, s inScn, sid int64) *ai.State {
	w := h.w
	d := h.slice(st, "req.d", 1, h.room())
	var m *ai.SliceV
	switch s.meta {
	case "short":
		m = h.slice(st, "req.m", 1, 7)
	default:
		m = h.slice(st, "req.m", 9, h.room())
		av, _ := st.Load(m.Ptr).(*ai.ArrV)
		l := ai.K(0)
		for k := int64(0); k < 4; k++ {
			b := st.ArrRead(av, ai.AddK(m.Off, k)).(*ai.Lin)
			l = ai.Add(l, ai.Scale(b, bigP2(uint(8*(3-k)))))
		}
		if s.meta == "known" {
			for k := int64(0); k < 4; k++ {
				v := ai.K(0)
				if k == 3 {
					v = ai.K(1)
				}
				av = st.ArrWrite(av, ai.AddK(m.Off, k), v)
			}
			st.Store(m.Ptr, av)
		} else {
			st.AddFact(ai.AddK(l, -2))
		}
	}
	tail := *m
	tail.Off, tail.Len, tail.Cap = ai.AddK(m.Off, 8), ai.AddK(m.Len, -8), ai.AddK(m.Cap, -8)
	h.sl["req.m+8"] = &tail
	if s.meta == "short" {
		delete(h.sl, "req.m+8")
	}
	rf := map[string]ai.Value{"FrameType": ai.K(w.konst(pFrames, "FrameType"+reqTypes[s.typ])), "StreamID": ai.K(sid), "Data": d, "Metadata": m, "InitialN": ai.K(1)}
	if s.typ == "RS" || s.typ == "RC" {
		rf["InitialN"] = h.nums["init"]
	}
	st = h.build(st, "req", "RequestPayload", rf)
	st = h.commonFrames(st, "", sid)
	st = h.commonFrames(st, "x.", h.other)
	return st
}

func (h *peer) inbound(s inScn, sid int64) {
	c, w := h.c, h.w
	tag := fmt.Sprintf("%s:%s:%s:%s", h.kind, s.typ, s.meta, s.style)
	h.tag = tag
	st := h.start
	st = st.Fork()
	// harness
	h.cells = map[string]*ai.PtrV{}
	h.cell(st, "sink")
	h.cell(st, "in")
	for _, k := range []string{"src", "src.request", "src.cancel", "in.next", "in.complete", "in.error", "in.fin", "err"} {
		st.SetBool("isnil("+k+")", false)
	}
	h.sid, h.other = sid, sid^0x00040200
	h.sids = map[int64]string{}
	h.number(st, "init")
	h.number(st, "rn")
	h.number(st, "inreq")
	st = h.payload(st, "resp")
	st = h.incoming(st, s, sid)
	if h.prop == "C22" {
		st = h.otherRequest(st, s)
	}
	st.Events = nil
	h.clean(st)

	mono := s.typ == "RR"
	// the handler
	emit := func(st *ai.State, what string, sink ai.Value) []ai.Outcome {
		opEvent(st, "sink."+what)
		val := h.pl["resp"]
		er := opq("err", h.pt("MonoErr", 1))
		switch {
		case mono && what == "success":
			return h.in.Run(st, h.d("MonoSuccess"), []ai.Value{sink, val}, nil)
		case mono:
			return h.in.Run(st, h.d("MonoErr"), []ai.Value{sink, er}, nil)
		case what == "next":
			return h.in.Run(st, h.d("FluxNext"), []ai.Value{sink, val}, nil)
		case what == "complete":
			return h.in.Run(st, h.d("FluxComplete"), []ai.Value{sink}, nil)
		}
		return h.in.Run(st, h.d("FluxErr"), []ai.Value{sink, er}, nil)
	}
	then := func(os []ai.Outcome, f func(st *ai.State) []ai.Outcome) []ai.Outcome {
		var r []ai.Outcome
		for _, o := range os {
			if o.Kind != ai.Ret {
				r = append(r, o)
				continue
			}
			r = append(r, f(o.St)...)
		}
		return r
	}
	inSub := func(st *ai.State) []ai.Outcome {
		in := h.held(st, "in")
		if in == nil {
			return nil
		}
		opEvent(st, "in.sub")
		return h.in.Run(st, h.d("FluxSub"), []ai.Value{in, opq("in.next", h.pt("FluxSub", 1)), opq("in.complete", h.pt("FluxSub", 2)), opq("in.error", h.pt("FluxSub", 3)), opq("in.fin", h.pt("FluxSub", 4)), ai.BConst(true)}, nil)
	}
	h.cb = func(cc *ai.CallCtx, key string) ([]ai.Outcome, bool) {
		switch {
		case key == "src":
			st, sink := cc.St, cc.Args[0]
			st.Store(h.cells["sink"], sink)
			opEvent(st, "src")
			var os []ai.Outcome
			if mono {
				os = []ai.Outcome{{Kind: ai.Ret, St: st}}
			} else {
				os = h.in.Run(st, h.d("FluxOnSub"), []ai.Value{sink, opq("src.request", h.pt("FluxOnSub", 1)), opq("src.cancel", h.pt("FluxOnSub", 2))}, nil)
			}
			switch s.style {
			case "sync":
				if mono {
					os = then(os, func(st *ai.State) []ai.Outcome { return emit(st, "success", sink) })
				} else {
					os = then(os, func(st *ai.State) []ai.Outcome { return emit(st, "next", sink) })
					os = then(os, func(st *ai.State) []ai.Outcome { return emit(st, "complete", sink) })
				}
			case "syncerr":
				os = then(os, func(st *ai.State) []ai.Outcome { return emit(st, "error", sink) })
			}
			for i := range os {
				os[i].Ret = nil
			}
			return os, true
		case strings.HasPrefix(key, "h") || strings.HasPrefix(key, "z"):
			st := cc.St
			if key[0] == 'z' {
				opEvent(st, "handler:another "+key[1:], cc.Args...)
				st.Events[len(st.Events)-1].St = st.Fork()
				return nil, false
			}
			opEvent(st, "handler:"+key[1:], cc.Args...)
			st.Events[len(st.Events)-1].St = st.Fork()
			if key[1:] != s.typ || s.typ == "FF" {
				return nil, false
			}
			os := []ai.Outcome{{Kind: ai.Ret, St: st}}
			if s.typ == "RC" {
				st.Store(h.cells["in"], cc.Args[2])
				if s.style == "insub" {
					os = then(os, inSub)
				}
			}
			fn, a := "FluxCreate", ai.Value(opq("src", h.pt("FluxCreate", 0)))
			if mono {
				fn, a = "MonoCreate", opq("src", h.pt("MonoCreate", 0))
			}
			switch s.style {
			case "fail":
				fn, a = strings.Replace(fn, "Create", "Error", 1), opq("err", h.pt("MonoErr", 1))
			case "just":
				fn, a = "MonoJust", h.pl["resp"]
			}
			return then(os, func(st *ai.State) []ai.Outcome { return h.in.Run(st, h.d(fn), []ai.Value{a}, nil) }), true
		}
		return nil, false
	}

	mon := func(n *hnode) inMon { return n.mon.(inMon) }
	quiet := func(n *hnode) bool { return len(n.pend) < h.width(s.typ) && !mon(n).lost }
	var ops []hop
	op := func(name string, ready func(n *hnode) bool, run func(st *ai.State, n *hnode) []ai.Outcome) {
		ops = append(ops, hop{name: name, ready: func(n *hnode) bool { return quiet(n) && (ready == nil || ready(n)) }, run: func(st *ai.State, n *hnode) []ai.Outcome {
			h.clean(st)
			return run(st, n)
		}})
	}
	op("request", func(n *hnode) bool { return !mon(n).sent }, func(st *ai.State, n *hnode) []ai.Outcome { return h.deliver(st, h.frames["req"]) })
	for _, f := range frameOps {
		f := f
		op(f, func(n *hnode) bool {
			// what waits for the input is bounded
			if f == "rn" && mon(n).asked && !mon(n).called {
				return false
			}
			return mon(n).sent && (f != "next" && f != "both" || strings.Count(mon(n).buf, "|") < 1)
		}, func(st *ai.State, n *hnode) []ai.Outcome { return h.deliver(st, h.frames[f]) })
		op("x."+f, nil, func(st *ai.State, n *hnode) []ai.Outcome { return h.deliver(st, h.frames["x."+f]) })
	}
	sinks := []string{"next", "complete", "error"}
	if mono {
		sinks = []string{"success", "error"}
	}
	if s.typ != "FF" && s.meta == "known" && (s.style == "create" || s.style == "insub") {
		for _, k := range sinks {
			k := k
			op("sink."+k, nil, func(st *ai.State, n *hnode) []ai.Outcome {
				sink := h.held(st, "sink")
				if sink == nil {
					return nil
				}
				return emit(st, k, sink)
			})
		}
	}
	if s.typ == "RC" && s.meta == "known" {
		op("in.sub", func(n *hnode) bool { return !mon(n).inSub }, func(st *ai.State, n *hnode) []ai.Outcome { return inSub(st) })
		for _, k := range []string{"request", "cancel"} {
			k := k
			op("in."+k, func(n *hnode) bool { return mon(n).inSub }, func(st *ai.State, n *hnode) []ai.Outcome {
				in := h.held(st, "in")
				if in == nil {
					return nil
				}
				opEvent(st, "in."+k)
				if k == "request" {
					return h.in.Run(st, h.d("FluxRequest"), []ai.Value{in, h.nums["inreq"]}, nil)
				}
				return h.in.Run(st, h.d("FluxCancel"), []ai.Value{in}, nil)
			})
		}
	}
	if h.prop == "C13" {
		ops = append(ops, hop{name: "any frame", ready: func(n *hnode) bool { return len(n.pend) == 0 }, run: func(st *ai.State, n *hnode) []ai.Outcome { return h.wild(st) }})
	}
	if h.prop == "C22" {
		ops = append(ops, h.closeOp(s, sid, emit))
	}
	roots := []ai.Value{h.cells["sink"], h.cells["in"]}
	x := &explorer{c: c, w: w, in: h.in, tag: tag, ops: ops, roots: roots, rootsF: h.tables, forgetObj: ofRx,
		step: func(n *hnode, m any, op string, es []*ai.Event, st *ai.State) any {
			r := h.stepIn(s, n, m.(inMon), op, es, st)
			h.clean(st)
			return r
		},
		monKey: func(m any) string {
			k := m.(inMon)
			switch h.prop {
			case "C13":
				return fmt.Sprint(k.sent, k.inSub, k.lost)
			case "C15", "C22":
				k.exp = nil
			}
			return fmt.Sprintf("%+v", k)
		},
		boolKey: func(k string) bool { return false },
		onPanic: func(n *hnode, op string, o ai.Outcome) {
			if h.prop == "C13" || h.prop == "C12" || h.prop == "C22" {
				c.fail(tag+":panic:"+op, "%s: %s panics: %s (history%s %s)", tag, op, o.Why, n.hist, op)
			}
		},
	}
	x.maxPend, x.max, x.maxFails = 3, 20000, 6
	h.finish(x, &hnode{st: st, mon: inMon{}})
}

func (h *peer) finish(x *explorer, n *hnode) {
	c := h.c
	h.in.Obls = nil
	x.explore(n)
	if debugging() {
		var ks []string
		for k := range x.seen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		os.WriteFile("/tmp/seen.txt", []byte(strings.Join(ks, "\n")), 0o644)
	}
	c.used(h.in)
	c.count("abstract states", x.states)
	c.count("transitions", x.trans)
	if x.bounded {
		c.Notes = append(c.Notes, fmt.Sprintf("%s: exploration stopped after %d abstract states", x.tag, x.states))
	}
	if debugging() {
		fmt.Println(x.tag, x.states, x.trans, h.in.Steps)
	}
	for _, cut := range h.in.Cuts {
		c.fail(x.tag+":cut:"+cut, "%s: analysis incomplete: %s", x.tag, cut)
	}
	h.in.Cuts = nil
	seen := map[string]bool{}
	for _, o := range h.in.Obls {
		if o.OK {
			if h.prop == "C13" {
				c.Obligations++
				c.Discharged++
			}
			continue
		}
		// A crash is no answer, no delivery and no order either.
		if h.prop != "C13" && h.prop != "C12" && h.prop != "C16" && h.prop != "C42" {
			continue
		}
		k := fmt.Sprintf("%s:%s:%s", h.kind, shortFn(o.Root), o.Kind)
		if !seen[k] {
			seen[k] = true
			c.fail(k, "%s: %s: %s in %s: %s", x.tag, h.w.at(o.RPos), o.Kind, shortFn(o.Root), o.Why)
		}
	}
	h.in.Obls = nil
	if h.prop == "C13" {
		c.Obligations += h.proved
		c.Discharged += h.proved
	}
	h.proved = 0
}

func (h *peer) report(prop, key, f string, a ...any) {
	if prop == h.prop {
		h.c.fail(h.tag+":"+key, "%s: "+f, append([]any{h.tag}, a...)...)
	}
}

// keep notes a signal for the input, which is not subscribed yet.
func (m *inMon) keep(x string) {
	if m.buf != "" {
		x = m.buf + "|" + x
	}
	m.buf = x
}

func (h *peer) stepIn(s inScn, n *hnode, m inMon, op string, es []*ai.Event, st *ai.State) any {
	hist := n.hist + " " + op
	mono := s.typ == "RR"
	stream := s.typ == "RS" || s.typ == "RC"
	const val = "d=resp.d m=resp.m"
	opt := func(e string) string {
		if m.loose {
			return "?" + e
		}
		return e
	}
	bad := false
	pend := len(n.pend)
	if strings.HasPrefix(op, "go") {
		pend--
	}
	for _, e := range es {
		if e.Kind == "go" {
			pend++
			continue
		}
		if e.Kind == "op" {
			switch {
			case e.Name == "deliver:req":
				m.sent = true
				if s.meta == "known" {
					m.exp = m.exp.add("handler " + s.typ + " d=req.d m=req.m")
				} else {
					m.exp = m.exp.add("out Error *")
					m.ended, m.gone = true, true
				}
			case e.Name == "src":
				m.live = true
				switch {
				case mono:
				case m.cancelled:
					m.exp = m.exp.add("?src request init", "?src request rn", "?out Payload next "+val, "?out Payload complete", "?out Error text of err")
					q := ""
					if strings.HasPrefix(s.style, "sync") {
						q = "?"
					}
					m.exp = m.exp.add(q + "src cancel")
					m.live = false
				default:
					m.exp = m.exp.add("src request init")
				}
			case e.Name == "sink.next" && m.live:
				m.exp = m.exp.add(opt("out Payload next " + val))
			case e.Name == "sink.success" && m.live:
				m.exp = m.exp.add(opt("out Payload next complete " + val))
				m.live, m.ended, m.gone = false, true, true
			case e.Name == "sink.complete" && m.live:
				m.exp = m.exp.add(opt("out Payload complete"))
				m.live, m.ended, m.gone = false, true, true
				m.exp = m.exp.loosen("src")
			case e.Name == "sink.error" && m.live:
				m.exp = m.exp.add(opt("out Error text of err"))
				m.live, m.ended, m.gone = false, true, true
				m.exp = m.exp.loosen("src")
			case e.Name == "deliver:rn":
				switch {
				case (m.live || m.sent && !m.called && !m.ended && s.style != "fail") && stream && !m.gone && s.meta == "known":
					m.exp = m.exp.add("src request rn")
					m.asked = m.asked || !m.called
				default:
					m.exp = m.exp.add("?src request rn")
				}
			case e.Name == "deliver:cancel":
				switch {
				case m.live && stream && !m.gone:
					m.exp = m.exp.loosen("src").loosen("out").add("src cancel")
					switch {
					case m.inSub && !m.inEnd:
						m.exp = m.exp.add("?in complete")
					case !m.inSub:
						m.keep("?in complete")
					}
					m.live, m.ended, m.gone, m.inEnd = false, true, true, true
				case m.live && stream:
					m.loose = true
					m.exp = m.exp.add("?src cancel", "?in complete")
				case m.sent && s.meta == "known" && !m.ended && stream:
					if !m.gone {
						m.exp = m.exp.loosen("handler").loosen("src").loosen("out")
						m.cancelled, m.gone = true, true
						m.keep("?in complete")
					}
					m.loose = true
					m.exp = m.exp.add("?src cancel")
				case m.sent && s.meta == "known" && !m.ended:
					m.loose, m.early = true, true
					m.exp = m.exp.add("?src cancel")
				}
			case e.Name == "deliver:next" || e.Name == "deliver:both" || e.Name == "deliver:complete":
				if s.typ == "RC" && m.sent && s.meta == "known" && !m.inEnd {
					q := ""
					if m.gone {
						q = "?"
					}
					put := func(x string) {
						switch {
						case m.inSub:
							m.exp = m.exp.add(q + x)
						case !m.gone:
							m.keep(x)
						}
					}
					if e.Name != "deliver:complete" {
						put("in next d=msg.d m=msg.m")
					}
					if e.Name != "deliver:next" {
						put("in complete")
						m.inEnd = !m.gone
					}
				}
				if e.Name != "deliver:next" {
					if m.sent && s.meta == "known" && stream {
						m.gone = true
						m.exp = m.exp.loosen("src")
					} else {
						m.early = true
					}
				}
			case e.Name == "deliver:error":
				if s.typ == "RC" && m.sent && s.meta == "known" && !m.inEnd {
					q := ""
					if m.gone {
						q = "?"
					}
					switch {
					case m.inSub:
						m.exp = m.exp.add(q + "in error " + remoteText)
					case !m.gone:
						m.keep("in error " + remoteText)
					}
					m.inEnd = !m.gone
				}
				if m.sent && s.meta == "known" && stream {
					m.gone, m.loose = true, true
					m.exp = m.exp.loosen("src").loosen("out").add("?src cancel")
				} else {
					m.early = true
				}
			case e.Name == "in.sub":
				m.inSub = true
				if m.buf != "" {
					for _, x := range strings.Split(m.buf, "|") {
						m.exp = m.exp.add(x)
					}
				}
				m.buf = ""
			case e.Name == "in.request":
				q := ""
				if m.inEnd || m.gone || m.loose {
					q = "?"
				}
				m.exp = m.exp.add(q + "out RequestN inreq")
			case e.Name == "in.cancel":
				q := ""
				if m.inEnd || m.gone || m.loose {
					q = "?"
				}
				m.exp = m.exp.add(q+"out Cancel", "?in complete")
				m.inEnd = true
			}
		}
		o := h.saw(e)
		if o == "" || m.lost {
			continue
		}
		var ok bool
		if m.exp, ok = m.exp.take(o); !ok {
			bad = true
			h.report("C12", op+":"+o, "unexpected: %s, awaited: %s (history%s)", o, strings.Join(m.exp, "; "), hist)
		}
		if strings.HasPrefix(o, "handler ") {
			m.called = true
			switch {
			case s.style == "fail" && s.typ != "FF":
				m.exp = m.exp.add(opt("out Error text of err"))
				m.ended, m.gone = true, true
			case s.style == "just":
				m.exp = m.exp.add(opt("out Payload next complete " + val))
				m.ended, m.gone = true, true
			}
		}
	}
	if pend > 3 {
		m.lost = true
	}
	if pend == 0 && !m.lost {
		if miss := m.exp.missing(); len(miss) > 0 {
			bad = true
			h.report("C12", op+":missing:"+miss[0], "nothing came of %s (history%s)", strings.Join(miss, "; "), hist)
		}
		m.exp = nil
		if h.prop == "C15" {
			h.clean(st)
			reg := h.registered(st, h.sid)
			if m.gone && reg && !m.early {
				bad = true
				h.report("C15", op+":kept", "the stream has ended but is still registered (history%s)", hist)
			}
			if m.live && stream && !m.gone && !reg && !m.early {
				bad = true
				h.report("C15", op+":removed", "the stream has not ended but is no longer registered (history%s)", hist)
			}
			if h.registered(st, h.other) {
				h.report("C15", op+":other", "a stream nobody opened is registered (history%s)", hist)
			}
		}
	}
	if !bad {
		h.c.ok(h.tag + ":" + op)
	}
	return m
}

// ---- the checks --------------------------------------------------------------

func loadPeers() *World {
	return loadWith(peerDriver, "handler", "proxy", "payload", "invoke", pFrames, pHost, pGuest, "rx", "rx/mono", "rx/flux")
}

// ready registers the handlers requests are for.
func (h *peer) ready(st *ai.State) *ai.State {
	ks := []string{"RR", "FF", "RS", "RC"}
	for _, k := range ks {
		st.SetBool("isnil(h"+k+")", false)
		st.SetBool("isnil(z"+k+")", false)
	}
	if h.kind == "host" {
		a := []ai.Value{h.obj}
		for i, k := range ks {
			a = append(a, opq("h"+k, h.pt("HostHandlers", i+1)))
		}
		st, _ = h.one(st, "HostHandlers", a...)
	} else {
		for _, k := range ks {
			st, _ = h.one(st, "Export"+k, opq("z"+k, h.pt("Export"+k, 0)))
			st, _ = h.one(st, "Export"+k, opq("h"+k, h.pt("Export"+k, 0)))
		}
	}
	st.Events = nil
	return st
}

var peerSID = map[string]int64{"client": 0x5A6B7C8E, "server": 0x5A6B7C8D, "host": 0x5A6B7C8D, "guest": 0x5A6B7C8E}

func peersIn(c *Ctx, w *World, prop, kind, t string) {
	var ss []inScn
	for _, mt := range []string{"unknown", "short"} {
		ss = append(ss, inScn{t, mt, "create"})
	}
	styles := map[string][]string{"RR": {"create", "sync", "syncerr", "fail", "just"}, "FF": {"create"}, "RS": {"create", "sync", "syncerr", "fail"}, "RC": {"create", "sync", "syncerr", "fail", "insub"}}
	for _, sty := range styles[t] {
		ss = append(ss, inScn{t, "known", sty})
	}
	for _, s := range ss {
		if !only(fmt.Sprintf("%s:%s:%s:%s", kind, s.typ, s.meta, s.style)) {
			continue
		}
		h, st := newPeer(c, w, prop, kind)
		h.start = h.ready(st)
		h.inbound(s, peerSID[kind])
	}
}

// only restricts the scenarios while debugging.
func only(tag string) bool { return strings.HasPrefix(tag, os.Getenv("VERIF_ONLY")) }

func init() {
	register(check{"C12", "Every request is handled by its kind or answered with an error",
		"abstract interpretation of the three peers over histories: each kind of request, with a registered, an unknown and no operation index, is delivered as its transport delivers it, and every order of frames on its stream and on another one, of the handler's source and input operations and of pending goroutines is applied until no new abstract state appears; every handler call, source signal, input signal and frame sent must be one the requests and signals so far call for, with the same payload, number or text, and none may be missing when nothing is pending",
		10000, func(c *Ctx) { peers(c, "C12") }})
	register(check{"C13", "No frame a peer sends can crash the receiver",
		"abstract interpretation of the three peers over histories of frames on a live, an ended and an unknown stream, incoming and outgoing, and of arbitrary frames of which nothing is known, with the panic obligations of every operation on the way (index, slice, nil, assertion, closed channel, division) proved in each abstract state",
		200000, func(c *Ctx) { peers(c, "C13") }})
	register(check{"C22", "An instance's in-flight accounting is balanced",
		"abstract interpretation of the wasm host over histories of each kind of request (registered, unknown and no operation; every outcome of its handler): in every state with nothing pending, alone and with another request in flight, Close must wait until exactly the requests in flight have ended; after it returned, a second Close, requests still queued, frames sent and frames from the guest neither block nor panic",
		2000, func(c *Ctx) { peers(c, "C22") }})
	register(check{"C15", "Finished streams are forgotten",
		"abstract interpretation of the three peers over histories: whenever nothing is pending, the streams reachable from the peer's tables are exactly those the events so far leave open, for the stream under study and another one",
		30000, func(c *Ctx) { peers(c, "C15") }})
}

func init() {
	register(check{"C16", "Outgoing requests carry the caller's payload, kind and a fresh stream",
		"abstract interpretation of each caller operation on the three peers over histories of subscription, demand, cancellation, input signals and frames: the request frame carries the given kind, data, metadata, demand and an id no other stream has, leaves only when its stream is registered, and the caller sees exactly what frames on that id call for; on TCP the send function Listen and Connect hand out writes each frame once",
		50000, func(c *Ctx) { peers(c, "C16") }})
}

func peers(c *Ctx, prop string) {
	var names []string
	kinds := []string{"guest", "host", "client", "server"}
	if prop == "C22" {
		kinds = kinds[1:2]
	}
	for _, kind := range kinds {
		for _, t := range []string{"RS", "RC", "RR", "FF"} {
			if prop != "C12" && prop != "C22" {
				names = append(names, kind+" out "+t)
			}
			if prop != "C16" {
				names = append(names, kind+" in "+t)
			}
		}
	}
	if prop == "C16" {
		names = append(names, "tcp")
	}
	c.shards(names, func(name string) {
		if name == "tcp" {
			c.borrow(keyHas(":once", ":set", ":path", ":sends"), senders)
			return
		}
		p := strings.Fields(name)
		w := loadPeers()
		if p[1] == "in" {
			peersIn(c, w, prop, p[0], p[2])
		} else {
			peersOut(c, w, prop, p[0], p[2])
		}
		c.Notes = uniq(c.Notes)
	})
	c.Notes = uniq(c.Notes)
}

// width bounds the goroutines not yet run while more happens.
func (h *peer) width(typ string) int {
	if h.c.Tier == "thorough" || typ != "RC" {
		return 2
	}
	return 1
}

// room is the length up to which the data and the metadata of every frame are
// taken to be: the largest that always fits what the peers exchange.
func (h *peer) room() int64 {
	if h.kind == "host" || h.kind == "guest" {
		return 8000 // of 16 KiB together
	}
	return 8000000 // of 16 MiB together
}
