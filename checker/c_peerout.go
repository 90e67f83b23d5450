package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// ---- outgoing requests -------------------------------------------------------

type outMon struct {
	called, sub, asked bool // the request was made, subscribed, demand was made
	sent               bool // its frame has left
	ended              bool // the caller has had its outcome
	gone               bool // the stream has ended
	loose              bool // what the caller sees is unspecified
	inLive             bool // the caller's input has a source that has not ended
	inSeen             bool // the caller's input was subscribed
	oGone              bool // the other request has ended
	cancelled          bool // the caller has cancelled
	lost               bool
	exp                expects
}

type outScn struct {
	typ  string // RR FF RS RC
	auto bool   // demand is made by subscribing
}

// call makes a request on the peer.
func (h *peer) call(st *ai.State, typ string, p ai.Value) []ai.Outcome {
	fn := h.d("Call" + typ)
	a := []ai.Value{h.caller, opq("ctx", h.pt("Call"+typ, 1)), p}
	if typ == "RC" {
		s, in := h.one(st, "FluxCreate", opq("insrc", h.pt("FluxCreate", 0)))
		st, a = s, append(a, in)
	}
	return h.in.Run(st, fn, a, nil)
}

func (h *peer) subscribe(st *ai.State, typ string, v ai.Value, pre string, auto bool) []ai.Outcome {
	if typ == "RR" {
		return h.in.Run(st, h.d("MonoSub"), []ai.Value{v, opq(pre+".next", h.pt("MonoSub", 1)), opq(pre+".error", h.pt("MonoSub", 2)), opq(pre+".fin", h.pt("MonoSub", 3))}, nil)
	}
	return h.in.Run(st, h.d("FluxSub"), []ai.Value{v, opq(pre+".next", h.pt("FluxSub", 1)), opq(pre+".complete", h.pt("FluxSub", 2)), opq(pre+".error", h.pt("FluxSub", 3)), opq(pre+".fin", h.pt("FluxSub", 4)), ai.BConst(!auto)}, nil)
}

// settle runs the goroutines started so far to a single end.
func (h *peer) settle(os []ai.Outcome, what string) *ai.State {
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("%s: %s is not decided: %d outcomes", h.tag, what, len(os))
	}
	st := os[0].St
	for i := 0; i < len(st.Events); i++ {
		e := st.Events[i]
		g, ok := e.Instr.(*ssa.Go)
		if e.Kind != "go" || !ok {
			continue
		}
		r := runGo(h.in, st, goCall{fn: e.Recv, site: g, args: e.Args})
		if len(r) != 1 || r[0].Kind != ai.Ret {
			failf("%s: %s is not decided: %d ends", h.tag, what, len(r))
		}
		st = r[0].St
	}
	return st
}

// requestFrame finds the stream id of the request among the frames sent.
func (h *peer) requestFrame(st *ai.State, from int, what string) int64 {
	for _, e := range st.Events[from:] {
		if !h.isFrame(e) {
			continue
		}
		g := h.frame(e)
		if g.typ != "RequestPayload" {
			continue
		}
		if n, ok := num(g.f["StreamID"]); ok {
			return n
		}
	}
	h.c.fail(h.tag+":norequest", "%s: %s sends no request frame", h.tag, what)
	return -1
}

func (h *peer) outbound(s outScn) {
	c, w := h.c, h.w
	style := "manual"
	if s.auto {
		style = "auto"
	}
	tag := fmt.Sprintf("%s:call:%s:%s", h.kind, s.typ, style)
	h.tag = tag
	st := h.start.Fork()
	h.cells = map[string]*ai.PtrV{}
	h.cell(st, "call")
	h.cell(st, "insink")
	for _, k := range []string{"insrc", "src.request", "src.cancel", "err"} {
		st.SetBool("isnil("+k+")", false)
	}
	for _, p := range []string{"c", "o"} {
		for _, k := range []string{"next", "complete", "error", "fin"} {
			st.SetBool("isnil("+p+"."+k+")", false)
		}
	}
	h.number(st, "rn")
	h.number(st, "inreq")
	h.nums["max"] = ai.K(w.konst("rx", "RequestMax"))
	st = h.payload(st, "resp")
	st = h.payload(st, "req")
	st = h.payload(st, "oth")
	h.cb = func(cc *ai.CallCtx, key string) ([]ai.Outcome, bool) {
		if key != "insrc" {
			return nil, false
		}
		st, sink := cc.St, cc.Args[0]
		st.Store(h.cells["insink"], sink)
		opEvent(st, "insrc")
		os := h.in.Run(st, h.d("FluxOnSub"), []ai.Value{sink, opq("src.request", h.pt("FluxOnSub", 1)), opq("src.cancel", h.pt("FluxOnSub", 2))}, nil)
		for i := range os {
			os[i].Ret = nil
		}
		return os, true
	}
	// another request is under way
	h.sids = map[int64]string{}
	os := h.call(st, "RS", h.pl["oth"])
	ost := h.settle(os, "a call")
	octl := os[0].Ret
	ost = h.settle(h.subscribe(ost, "RS", octl, "o", true), "a subscription")
	h.other = h.requestFrame(ost, 0, "an earlier call")
	st = ost
	st.Events = nil
	h.clean(st)
	// find out the stream id the request gets
	probe := st.Fork()
	os = h.call(probe, s.typ, h.pl["req"])
	p2 := h.settle(os, "the call")
	if s.typ != "FF" {
		v := os[0].Ret
		p2 = h.settle(h.subscribe(p2, s.typ, v, "c", true), "the subscription")
	}
	h.sid = h.requestFrame(p2, 0, "the call")
	if h.other < 0 || h.sid < 0 {
		return
	}
	if h.prop == "C16" {
		c.check(h.sid != h.other, tag+":fresh", "%s: two requests are made on the same stream %d", tag, h.sid)
	}
	h.sids[h.other] = "of another request"
	st = h.commonFrames(st, "", h.sid)
	st = h.commonFrames(st, "x.", h.other)
	st = h.commonFrames(st, "u.", h.sid^0x40200) // nobody's
	st.Events = nil
	h.clean(st)

	mon := func(n *hnode) outMon { return n.mon.(outMon) }
	var ops []hop
	op := func(name string, ready func(m outMon) bool, run func(st *ai.State, n *hnode) []ai.Outcome) {
		ops = append(ops, hop{name: name, ready: func(n *hnode) bool {
			return len(n.pend) < h.width(s.typ) && !mon(n).lost && (ready == nil || ready(mon(n)))
		}, run: func(st *ai.State, n *hnode) []ai.Outcome {
			h.clean(st)
			opEvent(st, name)
			return run(st, n)
		}})
	}
	op("call", func(m outMon) bool { return !m.called }, func(st *ai.State, n *hnode) []ai.Outcome {
		os := h.call(st, s.typ, h.pl["req"])
		for _, o := range os {
			if o.Kind == ai.Ret && s.typ != "FF" {
				o.St.Store(h.cells["call"], o.Ret)
			}
		}
		return os
	})
	if s.typ != "FF" {
		op("subscribe", func(m outMon) bool { return m.called && !m.sub }, func(st *ai.State, n *hnode) []ai.Outcome {
			return h.subscribe(st, s.typ, h.held(st, "call"), "c", s.auto)
		})
	}
	if s.typ == "RS" || s.typ == "RC" {
		op("request", func(m outMon) bool { return m.sub }, func(st *ai.State, n *hnode) []ai.Outcome {
			return h.in.Run(st, h.d("FluxRequest"), []ai.Value{h.held(st, "call"), h.nums["inreq"]}, nil)
		})
		op("cancel", func(m outMon) bool { return m.sub }, func(st *ai.State, n *hnode) []ai.Outcome {
			return h.in.Run(st, h.d("FluxCancel"), []ai.Value{h.held(st, "call")}, nil)
		})
	}
	for _, f := range frameOps {
		f := f
		op("frame."+f, func(m outMon) bool { return m.sent || m.called && h.prop == "C13" }, func(st *ai.State, n *hnode) []ai.Outcome { return h.input(st, h.frames[f]) })
		op("x."+f, nil, func(st *ai.State, n *hnode) []ai.Outcome { return h.input(st, h.frames["x."+f]) })
		op("u."+f, func(m outMon) bool { return m.sent }, func(st *ai.State, n *hnode) []ai.Outcome { return h.input(st, h.frames["u."+f]) })
	}
	if s.typ == "RC" {
		for _, k := range []string{"next", "complete", "error"} {
			k := k
			op("in."+k, nil, func(st *ai.State, n *hnode) []ai.Outcome {
				sink := h.held(st, "insink")
				if sink == nil {
					return nil
				}
				switch k {
				case "next":
					return h.in.Run(st, h.d("FluxNext"), []ai.Value{sink, h.pl["resp"]}, nil)
				case "complete":
					return h.in.Run(st, h.d("FluxComplete"), []ai.Value{sink}, nil)
				}
				return h.in.Run(st, h.d("FluxErr"), []ai.Value{sink, opq("err", h.pt("MonoErr", 1))}, nil)
			})
		}
	}
	if h.prop == "C13" {
		ops = append(ops, hop{name: "any frame", ready: func(n *hnode) bool { return len(n.pend) == 0 }, run: func(st *ai.State, n *hnode) []ai.Outcome { return h.wild(st) }})
	}
	roots := []ai.Value{h.cells["call"], h.cells["insink"], octl}
	x := &explorer{c: c, w: w, in: h.in, tag: tag, ops: ops, roots: roots, rootsF: h.tables, forgetObj: ofRx,
		step: func(n *hnode, m any, op string, es []*ai.Event, st *ai.State) any {
			r := h.stepOut(s, n, m.(outMon), op, es, st)
			h.clean(st)
			return r
		},
		monKey: func(m any) string {
			k := m.(outMon)
			switch h.prop {
			case "C13":
				return fmt.Sprint(k.called, k.sub, k.sent, k.lost)
			case "C15":
				k.exp = nil
			}
			return fmt.Sprintf("%+v", k)
		},
		boolKey: func(k string) bool { return false },
		onPanic: func(n *hnode, op string, o ai.Outcome) {
			if h.prop == "C13" || h.prop == "C16" {
				c.fail(tag+":panic:"+op, "%s: %s panics: %s (history%s %s)", tag, op, o.Why, n.hist, op)
			}
		},
	}
	x.maxPend, x.max, x.maxFails = 3, 20000, 6
	h.finish(x, &hnode{st: st, mon: outMon{}})
}

func (h *peer) stepOut(s outScn, n *hnode, m outMon, op string, es []*ai.Event, st *ai.State) any {
	hist := n.hist + " " + op
	flux := s.typ == "RS" || s.typ == "RC"
	defer h.clean(st)
	const msg = "d=msg.d m=msg.m"
	bad := false
	pend := len(n.pend)
	if strings.HasPrefix(op, "go") {
		pend--
	}
	req := "out Request " + s.typ + " d=req.d m=req.m"
	q := func(loose bool, e ...string) {
		for _, x := range e {
			if loose {
				x = "?" + x
			}
			m.exp = m.exp.add(x)
		}
	}
	// demand made by subscribing is renewed as payloads arrive
	m.exp = m.exp.add("?dem on stream of another request max")
	if m.sub && s.auto && flux {
		m.exp = m.exp.add("?dem max")
	}
	end := func() { m.ended, m.gone = true, true; m.exp = m.exp.loosen("dem").loosen("ctl").loosen("src") }
	for _, e := range es {
		if e.Kind == "go" {
			pend++
			// it may run at once
			if g, ok := e.Instr.(*ssa.Go); ok && e.St != nil && h.prop == "C16" && !m.sent {
				k := len(h.in.Obls)
				for _, o := range runGo(h.in, e.St.Fork(), goCall{fn: e.Recv, site: g, args: e.Args}) {
					for _, f := range o.St.Events {
						if x := h.saw(f); strings.HasPrefix(x, "out Request ") && len(strings.Fields(x)) > 3 && !strings.Contains(x, " on ") {
							h.c.check(h.registered(f.St, h.sid), h.tag+":"+op+":registered", "%s: the request can be sent before its stream is registered (history%s)", h.tag, hist)
						}
					}
				}
				h.in.Obls = h.in.Obls[:k]
			}
			continue
		}
		if e.Kind == "op" {
			live := m.sent && !m.gone
			switch e.Name {
			case "call":
				m.called = true
				if s.typ == "FF" {
					m.exp = m.exp.add(req)
					m.gone = true
				}
			case "subscribe":
				m.sub = true
				switch {
				case s.typ == "RR":
					q(m.loose, req)
				case s.auto:
					q(m.loose, req, "dem max")
					m.exp = m.exp.add("?dem max")
					m.asked = true
				}
			case "request":
				off := m.gone || m.loose || m.ended
				if !m.asked && !m.cancelled {
					q(off, req)
					m.asked = true
				}
				q(off, "dem inreq")
			case "cancel":
				if flux {
					q(!live || m.loose, "out Cancel")
					m.exp = m.exp.add("?src cancel", "?c complete").loosen("out")
					if !live {
						m.loose = true
					}
					end()
					m.cancelled = true
					if !m.sent {
						// nothing may ask for the stream any more
						m.exp = m.exp.without("?" + req)
					}
				}
			case "frame.next", "frame.both", "frame.complete":
				next, comp := e.Name != "frame.complete", e.Name != "frame.next"
				switch {
				case !m.called || s.typ == "FF":
				case !live && !m.gone && m.called:
					m.loose = true
					q(true, "c next "+msg, "c complete")
					if comp {
						end()
					}
				case m.gone:
				case s.typ == "RR":
					if !m.ended && next {
						q(m.loose, "c next "+msg)
						m.ended = true
					}
					if comp {
						if !m.ended {
							m.loose = true
							q(true, "c complete", "c error *")
						}
						end()
					}
				default:
					if next {
						q(m.loose, "c next "+msg)
					}
					if comp {
						q(m.loose, "c complete")
						end()
					}
				}
			case "frame.error":
				switch {
				case s.typ == "FF" || m.gone:
				default:
					q(!live || m.loose || m.ended, "c error "+remoteText)
					if !live {
						m.loose = true
					}
					end()
				}
			case "frame.cancel":
				if s.typ != "FF" && !m.gone {
					q(true, "c complete", "src cancel")
					if !live {
						m.loose = true
					}
					end()
					m.exp = m.exp.loosen("out")
					m.loose = true
				}
			case "frame.rn":
				if s.typ == "RC" {
					q(!live || m.loose || !m.inLive, "src request rn")
				}
			case "insrc":
				m.inLive, m.inSeen = true, true
			case "in.next":
				if m.inLive {
					q(m.gone || m.loose, "out Payload next d=resp.d m=resp.m")
				}
			case "in.complete":
				if m.inLive {
					q(m.gone || m.loose, "out Payload complete")
					m.inLive = false
				}
			case "in.error":
				if m.inLive {
					q(m.gone || m.loose, "out Error text of err")
					m.inLive = false
					m.loose = true
				}
			case "x.next":
				q(m.oGone, "o next "+msg)
			case "x.both", "x.complete":
				if !m.oGone && e.Name == "x.both" {
					q(false, "o next "+msg)
				}
				if !m.oGone {
					q(false, "o complete")
				}
				m.oGone = true
			case "x.error":
				if !m.oGone {
					q(false, "o error "+remoteText)
				}
				m.oGone = true
			case "x.cancel":
				if !m.oGone {
					q(true, "o complete")
				}
				m.oGone = true
			}
			if e.Name == "x.next" && m.oGone {
				m.exp = m.exp.without("?o next " + msg)
			}
		}
		o := h.saw(e)
		if o == "" || m.lost {
			continue
		}
		// a request frame and a request-n frame carry demand
		obs := []string{o}
		if i := strings.LastIndex(o, " n="); i > 0 && strings.HasPrefix(o, "out Request ") {
			obs = []string{o[:i], "dem " + o[i+3:]}
		}
		if strings.HasPrefix(o, "out RequestN ") {
			obs = []string{"dem " + strings.TrimPrefix(o, "out RequestN ")}
		}
		for _, o := range obs {
			var ok bool
			if m.exp, ok = m.exp.take(o); !ok {
				bad = true
				h.report("C16", op+":"+o, "unexpected: %s, awaited: %s (history%s)", o, strings.Join(m.exp, "; "), hist)
			}
		}
		if strings.HasPrefix(o, "out Request ") {
			m.sent = true
			if s.typ != "FF" && h.prop == "C16" && !m.gone {
				h.c.check(h.registered(e.St, h.sid), h.tag+":"+op+":registered", "%s: the request is sent before its stream is registered (history%s)", h.tag, hist)
			}
		}
	}
	if pend > 3 {
		m.lost = true
	}
	if pend == 0 && !m.lost {
		if miss := m.exp.missing(); len(miss) > 0 {
			bad = true
			h.report("C16", op+":missing:"+miss[0], "nothing came of %s (history%s)", strings.Join(miss, "; "), hist)
		}
		if s.typ == "RC" && h.prop == "C16" && m.sent && !m.gone && !m.loose && !m.ended && !m.inSeen {
			bad = true
			h.report("C16", op+":input", "the request was sent but its input is not subscribed (history%s)", hist)
		}
		m.exp = nil
		if h.prop == "C15" {
			h.clean(st)
			reg := h.registered(st, h.sid)
			if m.gone && reg && m.sent {
				bad = true
				h.report("C15", op+":kept", "the stream has ended but is still registered (history%s)", hist)
			}
			if m.sent && !m.gone && !m.ended && !reg {
				bad = true
				h.report("C15", op+":removed", "the stream has not ended but is no longer registered (history%s)", hist)
			}
			if oreg := h.registered(st, h.other); oreg == m.oGone {
				bad = true
				h.report("C15", op+":other", "another stream is registered: %v, ended: %v (history%s)", oreg, m.oGone, hist)
			}
		}
	}
	if !bad {
		h.c.ok(h.tag + ":" + op)
	}
	return m
}

func peersOut(c *Ctx, w *World, prop, kind, t string) {
	for _, s := range []outScn{{"RR", true}, {"FF", true}, {"RS", true}, {"RS", false}, {"RC", true}, {"RC", false}} {
		if s.typ != t || !only(fmt.Sprintf("%s:call:%s:%v", kind, s.typ, s.auto)) {
			continue
		}
		h, st := newPeer(c, w, prop, kind)
		h.start = h.ready(st)
		h.outbound(s)
	}
}
