package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// ---- closing an instance -----------------------------------------------------

// otherRequest builds a request of a kind the scenario does not use; its
// handler answers with a stream that stays open until it is cancelled.
func (h *peer) otherRequest(st *ai.State, s inScn) *ai.State {
	typ := "RS"
	if s.typ == "RS" {
		typ = "RC"
	}
	m := h.slice(st, "req2.m", 9, h.room())
	av, _ := st.Load(m.Ptr).(*ai.ArrV)
	for k := int64(0); k < 4; k++ {
		av = st.ArrWrite(av, ai.AddK(m.Off, k), ai.K(k/3))
	}
	st.Store(m.Ptr, av)
	return h.build(st, "req2", "RequestPayload", map[string]ai.Value{
		"FrameType": ai.K(h.w.konst(pFrames, "FrameType"+reqTypes[typ])), "StreamID": ai.K(h.other),
		"Data": h.slice(st, "req2.d", 1, h.room()), "Metadata": m, "InitialN": h.nums["init"]})
}

// drain runs the goroutines outcomes have started, in order.
func (h *peer) drain(os []ai.Outcome) []ai.Outcome {
	var r []ai.Outcome
	for _, o := range os {
		if o.Kind != ai.Ret {
			r = append(r, o)
			continue
		}
		es := o.St.Events
		o.St.Events = nil
		next := []ai.Outcome{o}
		for _, e := range es {
			g, ok := e.Instr.(*ssa.Go)
			if e.Kind != "go" || !ok {
				continue
			}
			var ns []ai.Outcome
			for _, n := range next {
				if n.Kind != ai.Ret {
					ns = append(ns, n)
					continue
				}
				n.St.Events = nil
				ns = append(ns, h.drain(runGo(h.in, n.St, goCall{fn: e.Recv, site: g, args: e.Args}))...)
			}
			next = ns
		}
		r = append(r, next...)
	}
	return r
}

// waits runs f; the steps are taken one after the other when it waits. It
// tells after how many of them f returned (-1: it did not), and what panicked.
func (h *peer) waits(st *ai.State, f func(st *ai.State) []ai.Outcome, steps ...func(st *ai.State) []ai.Outcome) (r []waited) {
	count := func(s *ai.State) int {
		n := 0
		for s.Bools()[fmt.Sprintf("H.waited:%d", n)] {
			n++
		}
		return n
	}
	st = st.Fork()
	st.Events = nil
	for i := range steps {
		st.DropBool(fmt.Sprintf("H.waited:%d", i))
	}
	old := h.in.OnBlock
	defer func() { h.in.OnBlock = old }()
	busy := false
	h.in.OnBlock = func(s *ai.State) []*ai.State {
		n := count(s)
		if busy {
			r = append(r, waited{n: n, blocked: "a step taken meanwhile"})
			return nil
		}
		if n == len(steps) {
			r = append(r, waited{n: n, blocked: "it"})
			return nil
		}
		busy = true
		defer func() { busy = false }()
		s = s.Fork()
		h.clean(s)
		var ss []*ai.State
		for _, o := range h.drain(steps[n](s)) {
			switch o.Kind {
			case ai.Ret:
				o.St.SetBool(fmt.Sprintf("H.waited:%d", n), true)
				ss = append(ss, o.St)
			case ai.Panic:
				r = append(r, waited{n: n, panics: o.Why})
			}
		}
		return ss
	}
	for _, o := range f(st) {
		switch o.Kind {
		case ai.Ret:
			r = append(r, waited{n: count(o.St), st: o.St})
		case ai.Panic:
			r = append(r, waited{n: count(o.St), panics: o.Why})
		case ai.Cut:
			h.c.fail(h.tag+":cut", "%s: analysis incomplete: %s", h.tag, o.Why)
		}
	}
	return r
}

type waited struct {
	n               int // steps taken before
	st              *ai.State
	blocked, panics string
}

// closeOp closes the instance in a state with nothing pending.
func (h *peer) closeOp(s inScn, sid int64, emit func(st *ai.State, what string, sink ai.Value) []ai.Outcome) hop {
	step := func(what string) func(st *ai.State) []ai.Outcome {
		if strings.HasPrefix(what, "frame ") {
			return func(st *ai.State) []ai.Outcome { return h.input(st, h.frames[strings.TrimPrefix(what, "frame ")]) }
		}
		return func(st *ai.State) []ai.Outcome {
			sink := h.held(st, "sink")
			if sink == nil {
				return nil
			}
			return emit(st, what, sink)
		}
	}
	closing := func(st *ai.State) []ai.Outcome {
		return h.in.Run(st, h.d("HostClose"), []ai.Value{h.obj}, nil)
	}
	run := func(st *ai.State, n *hnode) []ai.Outcome {
		m := n.mon.(inMon)
		if m.loose || m.lost || m.early || m.gone && m.live {
			return nil
		}
		in := h.in
		keep := len(in.Obls)
		defer func() { in.Obls = in.Obls[:keep] }()
		flight := m.called && m.live
		ends := []string{""}
		if flight {
			ends = []string{"error"}
			if s.typ == "RR" {
				ends = append(ends, "success")
			} else {
				ends = append(ends, "complete", "frame cancel")
			}
		}
		if !flight {
			h.closeWhileSending(st, n, closing)
		}
		for _, end := range ends {
			for _, two := range []bool{false, true} {
				h.closeProbe(st, n, end, two, false, step, closing)
			}
			h.closeProbe(st, n, end, false, true, step, closing)
		}
		return nil
	}
	return hop{name: "close", ready: func(n *hnode) bool { return len(n.pend) == 0 }, run: run}
}

func (h *peer) closeProbe(st *ai.State, n *hnode, end string, two, queued bool, step func(string) func(*ai.State) []ai.Outcome, closing func(*ai.State) []ai.Outcome) {
	st = st.Fork()
	h.clean(st)
	var steps []func(st *ai.State) []ai.Outcome
	what := ""
	starts := []*ai.State{st}
	if end != "" {
		steps = append(steps, step(end))
		what = " and the request ends by " + end
	}
	if two {
		what += " with another request in flight that is cancelled"
		if end != "" {
			what += " afterwards"
		}
		starts = nil
		for _, o := range h.drain(h.input(st, h.frames["req2"])) {
			if o.Kind == ai.Panic {
				h.report("C22", "second", "a second request panics: %s (history%s)", o.Why, n.hist)
			}
			if o.Kind == ai.Ret {
				starts = append(starts, o.St)
			}
		}
		steps = append(steps, step("frame x.cancel"))
	}
	if len(starts) == 0 {
		h.report("C22", "second", "a second request leads nowhere (history%s)", n.hist)
	}
	if queued {
		what += " with frames still queued"
	}
	for _, st := range starts {
		h.clean(st)
		if queued {
			for _, p := range []*ai.PtrV{h.sendCh, h.recvCh} {
				if ch, _ := st.Chan(p); ch != nil {
					st.Store(p, &ai.ChanObj{Cap: ch.Cap, Buf: []ai.Value{ai.NilV{}}, Closed: ch.Closed})
				}
			}
		}
		ws := h.waits(st, closing, steps...)
		if len(ws) == 0 {
			h.report("C22", "close", "Close leads nowhere (history%s)", n.hist)
		}
		for _, w := range ws {
			switch {
			case w.panics != "":
				h.report("C22", "close:panic", "the instance is closed%s: panic: %s (history%s)", what, w.panics, n.hist)
			case w.blocked == "it":
				h.report("C22", "close:block", "the instance is closed%s: Close goes on waiting (history%s)", what, n.hist)
			case w.blocked != "":
				h.report("C22", "close:block", "the instance is closed%s: %s blocks (history%s)", what, w.blocked, n.hist)
			case w.n < len(steps):
				h.report("C22", "close:early", "the instance is closed%s: Close returns before, after %d of %d (history%s)", what, w.n, len(steps), n.hist)
			default:
				h.c.ok(h.tag + ":close")
				if !two && !queued {
					h.afterClose(w.st, n, what, closing)
				}
			}
		}
	}
}

// full fills the queues of frames.
func (h *peer) full(st *ai.State) {
	h.clean(st)
	for _, p := range []*ai.PtrV{h.sendCh, h.recvCh} {
		if ch, _ := st.Chan(p); ch != nil {
			st.Store(p, &ai.ChanObj{Cap: 1, Buf: []ai.Value{ai.NilV{}}, Closed: ch.Closed})
		}
	}
}

// sendRequest sends a frame while the queue is full.
func (h *peer) sendRequest(st *ai.State) []ai.Outcome {
	h.full(st)
	var p ai.Value
	st, p = h.one(st, "PNew", h.sl["req.d"], h.sl["req.m"])
	return h.in.Run(st, h.d("CallFF"), []ai.Value{h.caller, opq("ctx", h.pt("CallFF", 1)), p}, nil)
}

// closeWhileSending closes the instance while a frame waits for room.
func (h *peer) closeWhileSending(st *ai.State, n *hnode, closing func(*ai.State) []ai.Outcome) {
	ws := h.waits(st, h.sendRequest, closing)
	if len(ws) == 0 {
		h.report("C22", "sending", "a frame being sent while the instance is closed leads nowhere (history%s)", n.hist)
	}
	for _, w := range ws {
		switch {
		case w.panics != "":
			h.report("C22", "sending", "a frame waiting to be sent while the instance is closed: panic: %s (history%s)", w.panics, n.hist)
		case w.blocked != "":
			h.report("C22", "sending", "a frame waiting to be sent while the instance is closed waits for ever (history%s)", n.hist)
		default:
			h.c.ok(h.tag + ":sending")
		}
	}
}

// afterClose: what comes too late neither blocks nor panics.
func (h *peer) afterClose(st *ai.State, n *hnode, what string, closing func(*ai.State) []ai.Outcome) {
	late := map[string]func(st *ai.State) []ai.Outcome{
		"a second Close": closing,
		"a request sent": h.sendRequest,
		"a request that was queued": func(st *ai.State) []ai.Outcome {
			h.clean(st)
			var r []ai.Outcome
			for _, o := range h.input(st, h.frames["req2"]) {
				if o.Kind == ai.Ret {
					h.full(o.St)
				}
				r = append(r, o)
			}
			return h.drain(r)
		},
	}
	late["two requests that were queued, both cancelled"] = func(st *ai.State) []ai.Outcome {
		os := []ai.Outcome{{Kind: ai.Ret, St: st}}
		for _, f := range []string{"req2", "x.cancel", "req2", "x.cancel"} {
			var r []ai.Outcome
			for _, o := range os {
				if o.Kind != ai.Ret {
					r = append(r, o)
					continue
				}
				h.clean(o.St)
				r = append(r, h.drain(h.input(o.St, h.frames[f]))...)
			}
			os = r
		}
		return os
	}
	var ns []string
	for k := range late {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, name := range ns {
		ws := h.waits(st, late[name])
		if len(ws) == 0 {
			h.report("C22", "late:"+name, "%s leads nowhere after Close (history%s)", name, n.hist)
		}
		for _, w := range ws {
			switch {
			case w.panics != "":
				h.report("C22", "late:"+name, "%s panics after Close: %s (history%s)", name, w.panics, n.hist)
			case w.blocked != "":
				h.report("C22", "late:"+name, "%s blocks after Close (history%s)", name, n.hist)
			default:
				h.c.ok(h.tag + ":late")
			}
		}
	}
}
