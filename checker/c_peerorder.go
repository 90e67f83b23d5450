package main

import (
	"fmt"
	"strings"

	"verif/checker/ai"
)

// ---- the order of a stream's signals -------------------------------------------

// A lane is a series of events of which each calls for one observation.
type lane struct {
	name  string
	steps []func(st *ai.State) []ai.Outcome
	want  []string
}

type orderMon struct {
	pos  string // how far each lane is
	exp  string // what is awaited, in order per class
	lost bool
}

func (h *peer) inOrder(served bool, typ, end string, late bool) {
	c := h.c
	dir := map[bool]string{true: "served", false: "called"}[served]
	tag := fmt.Sprintf("%s:%s:%s:%s", h.kind, dir, typ, end)
	if late {
		tag += ":late"
	}
	h.tag = tag
	if !only(tag) {
		return
	}
	st := h.start.Fork()
	h.cells = map[string]*ai.PtrV{}
	h.sl = map[string]*ai.SliceV{}
	for _, n := range []string{"call", "sink", "insink", "in"} {
		h.cell(st, n)
	}
	for _, k := range []string{"src", "insrc", "src.request", "src.cancel", "in.next", "in.complete", "in.error", "in.fin", "c.next", "c.complete", "c.error", "c.fin", "err"} {
		st.SetBool("isnil("+k+")", false)
	}
	for _, n := range []string{"init", "rn", "inreq"} {
		h.number(st, n)
	}
	h.nums["max"] = ai.K(h.w.konst("rx", "RequestMax"))
	h.sids = map[int64]string{}
	h.other = 0
	if !served {
		st = h.payload(st, "req")
	}
	for i := 0; i < items; i++ {
		st = h.payload(st, fmt.Sprintf("i%d", i))
		h.slice(st, fmt.Sprintf("m%d.d", i), 1, h.room())
		h.slice(st, fmt.Sprintf("m%d.m", i), 1, h.room())
	}
	source := func(st *ai.State, cell string, sink ai.Value) []ai.Outcome {
		st.Store(h.cells[cell], sink)
		os := h.in.Run(st, h.d("FluxOnSub"), []ai.Value{sink, opq("src.request", h.pt("FluxOnSub", 1)), opq("src.cancel", h.pt("FluxOnSub", 2))}, nil)
		for i := range os {
			os[i].Ret = nil
		}
		return os
	}
	h.cb = func(cc *ai.CallCtx, key string) ([]ai.Outcome, bool) {
		st := cc.St
		switch key {
		case "src":
			return source(st, "sink", cc.Args[0]), true
		case "insrc":
			return source(st, "insink", cc.Args[0]), true
		case "h" + typ:
			os := []ai.Outcome{{Kind: ai.Ret, St: st}}
			if typ == "RC" {
				st.Store(h.cells["in"], cc.Args[2])
				if !late {
					os = h.subscribeIn(st, cc.Args[2])
				}
			}
			var r []ai.Outcome
			for _, o := range os {
				if o.Kind != ai.Ret {
					r = append(r, o)
					continue
				}
				r = append(r, h.in.Run(o.St, h.d("FluxCreate"), []ai.Value{opq("src", h.pt("FluxCreate", 0))}, nil)...)
			}
			return r, true
		}
		return nil, false
	}
	// the stream is opened
	var starts []ai.Outcome
	st.Events = nil
	h.clean(st)
	if served {
		h.sid = peerSID[h.kind]
		h.other = h.sid ^ 0x00040200
		st = h.incoming(st, inScn{typ: typ, meta: "known"}, h.sid)
		starts = []ai.Outcome{{Kind: ai.Ret, St: st}}
	} else {
		probe := st.Fork()
		probe = h.payload(probe, "small")
		if h.sid = h.probeSID(probe, typ); h.sid < 0 {
			return
		}
		h.other = h.sid ^ 0x00040200
		starts = h.then(h.through(h.call(st, typ, h.pl["req"])), func(o ai.Outcome) []ai.Outcome {
			o.St.Store(h.cells["call"], o.Ret)
			return h.subscribe(o.St, typ, o.Ret, "c", true)
		})
	}
	for _, o := range starts {
		if o.Kind != ai.Ret {
			c.fail(tag+":open", "%s: opening the stream: %s", tag, o.Why)
		} else {
			h.lanes(o.St, tag, served, typ, end, late)
		}
	}
	c.check(len(starts) > 0, tag+":open", "%s: opening the stream leads nowhere", tag)
}

const items = 3

func (h *peer) subscribeIn(st *ai.State, v ai.Value) []ai.Outcome {
	return h.in.Run(st, h.d("FluxSub"), []ai.Value{v, opq("in.next", h.pt("FluxSub", 1)), opq("in.complete", h.pt("FluxSub", 2)), opq("in.error", h.pt("FluxSub", 3)), opq("in.fin", h.pt("FluxSub", 4)), ai.BConst(false)}, nil)
}

func (h *peer) lanes(st *ai.State, tag string, served bool, typ, end string, late bool) {
	c := h.c
	// what happens on the stream
	var lanes []lane
	name := func(p string, i int) string { return fmt.Sprintf(" d=%s%d.d m=%s%d.m", p, i, p, i) }
	frames := func(class string) lane {
		l := lane{name: "frame"}
		if served {
			l.steps = append(l.steps, func(st *ai.State) []ai.Outcome { return h.deliver(st, h.frames["req"]) })
			l.want = append(l.want, "")
		}
		if class == "" {
			return l
		}
		put := func(fn string, fields map[string]ai.Value, typ string, want ...string) {
			fields["StreamID"] = ai.K(h.sid)
			st = h.build(st, fn, typ, fields)
			l.steps = append(l.steps, func(st *ai.State) []ai.Outcome { return h.input(st, h.frames[fn]) })
			l.want = append(l.want, strings.Join(want, "|"))
		}
		for i := 0; i < items; i++ {
			f := map[string]ai.Value{"Next": ai.BConst(true), "Complete": ai.BConst(false), "Data": h.sl[fmt.Sprintf("m%d.d", i)], "Metadata": h.sl[fmt.Sprintf("m%d.m", i)]}
			w := []string{class + " next" + name("m", i)}
			if i == items-1 && end == "both" {
				f["Complete"] = ai.BConst(true)
				w = append(w, class+" complete")
			}
			put(fmt.Sprintf("q%d", i), f, "Payload", w...)
		}
		switch end {
		case "complete":
			put("qe", map[string]ai.Value{"Next": ai.BConst(false), "Complete": ai.BConst(true)}, "Payload", class+" complete")
		case "error":
			put("qe", map[string]ai.Value{"Code": ai.K(0x201), "Data": ai.StrConst(remoteText)}, "Error", class+" error "+remoteText)
		}
		return l
	}
	emits := func(cell string) lane {
		l := lane{name: "emit"}
		run := func(fn string, want string, a ...ai.Value) {
			l.steps = append(l.steps, func(st *ai.State) []ai.Outcome {
				sink := h.held(st, cell)
				if sink == nil {
					return nil
				}
				return h.in.Run(st, h.d(fn), append([]ai.Value{sink}, a...), nil)
			})
			l.want = append(l.want, want)
		}
		for i := 0; i < items; i++ {
			run("FluxNext", "out Payload next"+name("i", i), h.pl[fmt.Sprintf("i%d", i)])
		}
		if end == "error" {
			run("FluxErr", "out Error text of err", opq("err", h.pt("MonoErr", 1)))
		} else {
			run("FluxComplete", "out Payload complete")
		}
		if h.kind == "host" && !served {
			full := st.Fork()
			h.clean(full)
			h.crowded(full, tag, l.steps[0], l.want[0])
		}
		return l
	}
	switch {
	case served:
		lanes = append(lanes, emits("sink"), frames(map[string]string{"RC": "in"}[typ]))
		if late {
			lanes = append(lanes, lane{name: "sub", want: []string{""}, steps: []func(st *ai.State) []ai.Outcome{func(st *ai.State) []ai.Outcome {
				in := h.held(st, "in")
				if in == nil {
					return nil
				}
				return h.subscribeIn(st, in)
			}}})
		}
	default:
		lanes = append(lanes, frames("c"))
		if typ == "RC" {
			lanes = append(lanes, emits("insink"))
		}
	}
	st.Events = nil
	h.clean(st)
	mon := func(m any) orderMon { return m.(orderMon) }
	at := func(m orderMon, l int) int { return int(m.pos[l] - '0') }
	// either end of a channel may bring down the other half: then the rest is
	// not awaited any more, but must still come in order
	done := func(m orderMon, name string) bool {
		for i, l := range lanes {
			if l.name == name && at(m, i) == len(l.steps) && l.want[len(l.steps)-1] != "" {
				return true
			}
		}
		return false
	}
	ended := func(m orderMon) bool { return done(m, "frame") || done(m, "emit") }
	waiting := func(m orderMon) bool {
		for i, l := range lanes {
			if l.name == "sub" && at(m, i) == 0 {
				return true
			}
		}
		return false
	}
	var ops []hop
	for i, l := range lanes {
		for k, run := range l.steps {
			i, k, run := i, k, run
			ops = append(ops, hop{name: fmt.Sprintf("%s%d", l.name, k), ready: func(n *hnode) bool {
				return at(mon(n.mon), i) == k && len(n.pend) < 2 && !mon(n.mon).lost
			}, run: func(st *ai.State, n *hnode) []ai.Outcome {
				h.clean(st)
				return run(st)
			}})
		}
	}
	roots := []ai.Value{}
	for _, n := range []string{"call", "sink", "insink", "in"} {
		roots = append(roots, h.cells[n])
	}
	x := &explorer{c: c, w: h.w, in: h.in, tag: tag, ops: ops, roots: roots, rootsF: h.tables, forgetObj: ofRx,
		boolKey: func(k string) bool { return false },
		monKey:  func(m any) string { return fmt.Sprintf("%+v", m) },
		onPanic: func(n *hnode, op string, o ai.Outcome) {
			c.fail(tag+":panic:"+op, "%s: %s panics: %s (history%s %s)", tag, op, o.Why, n.hist, op)
		},
		step: func(n *hnode, mm any, op string, es []*ai.Event, st *ai.State) any {
			m := mon(mm)
			defer h.clean(st)
			hist := n.hist + " " + op
			pend := len(n.pend)
			if strings.HasPrefix(op, "go") {
				pend--
			}
			var exp []string
			if m.exp != "" {
				exp = strings.Split(m.exp, "|")
			}
			was := ended(m)
			for i, l := range lanes {
				if strings.HasPrefix(op, l.name) {
					k := at(m, i)
					for _, w := range strings.Split(l.want[k], "|") {
						if w == "" {
							continue
						}
						if was {
							w = "?" + w
						}
						exp = append(exp, w)
					}
					m.pos = m.pos[:i] + string(rune('0'+k+1)) + m.pos[i+1:]
				}
			}
			ok := true
			for _, e := range es {
				if e.Kind == "go" {
					pend++
					continue
				}
				o := h.saw(e)
				cl := ""
				if o != "" {
					cl = class(o)
				}
				if m.lost || cl != "out" && cl != "in" && cl != "c" {
					continue
				}
				// the first awaited one of the class; those not demanded may be skipped
				hit := -1
				for j, w := range exp {
					if class(w) != cl {
						continue
					}
					if strings.TrimPrefix(w, "?") == o {
						hit = j
						break
					}
					if !strings.HasPrefix(w, "?") {
						break
					}
				}
				if hit < 0 {
					if was || ended(m) {
						if strings.HasSuffix(o, " complete") || strings.HasPrefix(o, "out Cancel") {
							continue
						}
					}
					ok = false
					c.fail(tag+":"+op+":"+o, "%s: %s comes out of order or twice; awaited: %s (history%s)", tag, o, strings.Join(exp, "; "), hist)
					m.lost = true
					continue
				}
				var rest []string
				for j, w := range exp {
					if j == hit || j < hit && class(w) == cl {
						continue
					}
					rest = append(rest, w)
				}
				exp = rest
			}
			// the halves of a channel end together or not
			for j, w := range exp {
				other := map[string]string{"in": "emit", "c": "emit", "out": "frame"}[class(w)]
				if !strings.HasPrefix(w, "?") && done(m, other) && (pend > 0 || waiting(m)) {
					exp[j] = "?" + w
				}
			}
			if pend > 3 {
				m.lost = true
			}
			if pend == 0 && !m.lost {
				var miss, keep []string
				for _, w := range exp {
					switch {
					case class(w) == "in" && waiting(m):
						keep = append(keep, w)
					case !strings.HasPrefix(w, "?"):
						miss = append(miss, w)
					}
				}
				if len(miss) > 0 {
					ok = false
					m.lost = true
					c.fail(tag+":"+op+":missing:"+miss[0], "%s: %s never comes (history%s)", tag, strings.Join(miss, "; "), hist)
				}
				exp = keep
			}
			m.exp = strings.Join(exp, "|")
			if ok {
				c.ok(tag + ":" + op)
			}
			return m
		},
	}
	x.maxPend, x.max, x.maxFails = 3, 20000, 6
	h.finish(x, &hnode{st: st, mon: orderMon{pos: strings.Repeat("0", len(lanes))}})
	c.check(x.states > items, tag+":states", "%s: only %d states explored", tag, x.states)
}

// crowded: a frame that finds the queue full waits for room, behind what is queued.
func (h *peer) crowded(st *ai.State, tag string, run func(st *ai.State) []ai.Outcome, want string) {
	c := h.c
	st = st.Fork()
	h.full(st)
	ws := h.waits(st, run, func(st *ai.State) []ai.Outcome { return []ai.Outcome{{Kind: ai.Ret, St: st}} })
	c.check(len(ws) > 0, tag+":full", "%s: sending with a full queue leads nowhere", tag)
	for _, w := range ws {
		switch {
		case w.panics != "":
			c.check(false, tag+":full", "%s: sending with a full queue panics: %s", tag, w.panics)
			continue
		case w.blocked != "":
			c.check(false, tag+":full", "%s: sending waits although the queue was emptied", tag)
			continue
		case w.n == 0:
			c.check(false, tag+":full", "%s: %s is not waited for when the queue is full: what is sent next can overtake it", tag, want)
			continue
		}
		n, extra := 0, ""
		for _, e := range w.st.Events {
			o := h.saw(e)
			switch {
			case o == want:
				n++
			case e.Kind == "go":
				extra = "a goroutine is left behind"
			case strings.HasPrefix(o, "out "):
				extra = "sent as well: " + o
			}
		}
		c.check(n == 1 && extra == "", tag+":full", "%s: with a full queue %s is sent %d times; %s", tag, want, n, extra)
	}
}

func init() {
	register(check{"C42", "Payloads of one stream arrive in the order they were sent",
		"abstract interpretation of the peers on one open stream or channel with three distinguishable items and an end in each direction, in every order of the directions and of the goroutines started: what the caller, the handler's input and the connection see must be the items in the order they were received or emitted, the end last, and nothing else; the same for what carries the frames: the function Listen and Connect hand out for sending, the TCP read loop, the unbounded queue, the host's and guest's frame boundary",
		12000, func(c *Ctx) {
			c.shards([]string{"client", "server", "host", "guest", "tcp", "memory", "queue"}, func(kind string) {
				switch kind {
				case "tcp":
					c.borrow(keyHas(":once", ":set", ":path", ":sends"), senders)
					c.borrow(keyHas(":order", ":lost", "loop:", ":path", "cut:"), func(c *Ctx) {
						w := load(rsPkg)
						c29Start(c, w, true)
						c29Start(c, w, false)
						c29Loop(c, w)
					})
					return
				case "memory":
					c.borrow(keyHas("boundary:sending", "boundary:receiving", "boundary:queueing"), hostBoundary)
					c.borrow(keyHas("boundary:"), guestBoundary)
					return
				case "queue":
					c.borrow(keyHas("order", "duplicate", "delivery", "lost", "offer", "put", "load", "decided", "early-close", "history:", "cut:"), c21)
					return
				}
				w := loadPeers()
				h, st := newPeer(c, w, "C42", kind)
				h.start = h.ready(st)
				if kind == "host" {
					for i, q := range []string{"receiving", "sending"} {
						c.check(h.takers[i] == 1, "host:takers:"+q, "host: %d goroutines take frames off the %s queue: they overtake each other", h.takers[i], q)
					}
				}
				for _, served := range []bool{true, false} {
					for _, typ := range []string{"RS", "RC"} {
						for _, end := range []string{"complete", "both", "error"} {
							if served && typ == "RS" && end == "both" {
								continue
							}
							h.inOrder(served, typ, end, false)
							if served && typ == "RC" {
								h.inOrder(served, typ, end, true)
							}
						}
					}
				}
			})
		}})
}
