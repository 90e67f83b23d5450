package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"verif/checker/ai"
)

// C44: demand. The histories are those of C19/C20, with concrete demand and the
// counters kept, so that what was asked for, what reached the source and what
// was delivered can be compared.

func init() {
	register(check{"C44", "Demand reaches the source as asked, and slice sources keep to it",
		"typestate over histories with concrete demand: for every constructor and operator of rx/flux, every order of subscription, source subscription, requests (from outside, from OnRequest and from OnNext), items, cancellation and pending goroutines; whenever no request is under way the source was asked for exactly what the subscriber asked for, OnRequest runs at subscription and exactly when the demand is used up, cancellation reaches the source once, and slice sources deliver no more than asked and no less than asked and available, in order, and complete with their last item",
		15000, demandHistories})
}

type demMon struct {
	subscribed, onsub, live bool
	req, fwd, recv          int
	pend, reqOps            int
	cancels                 int
	cancelled               bool // by the subscriber or a failed mapper, with the source subscribed
	neg, noReq              bool
	completed               bool
	off                     bool // demand was overdrawn by the harness
}

type demand struct {
	*rxHarness
	// what callbacks may do before returning
	in2 map[string][]hop
	// asked counts the requests made by OnRequest
	asked *ai.PtrV
	reqs  int
}

const demBig = 123456789

func demandHistories(c *Ctx) {
	w := loadWith(rxDriver, "rx", "rx/mono", "rx/flux", "transform")
	defer func() { c.Notes = uniq(c.Notes) }()
	for _, s := range []*rxScn{
		{name: "FluxCreate", flux: true, srcFlux: true},
		{name: "FluxProc", flux: true, srcFlux: true, proc: true},
		{name: "FluxMap", flux: true, srcFlux: true, mapped: true},
		{name: "FluxSlice2", self: true, flux: true, srcFlux: true, vals: []string{"$a", "$b"}},
		{name: "FluxSlice0", self: true, flux: true, srcFlux: true},
		{name: "FluxRespond2", self: true, flux: true, srcFlux: true, vals: []string{"$a", "$b"}},
		{name: "FluxRespond0", self: true, flux: true, srcFlux: true},
	} {
		for _, onReq := range []bool{true, false} {
			for _, no := range []bool{false, true} {
				h := &demand{rxHarness: &rxHarness{c: c, w: w, scn: s, prop: "C44", badAt: map[string]bool{}, nils: map[string]bool{}}}
				h.nils["cb.request"] = !onReq
				h.run(no)
			}
		}
	}
}

func (h *demand) run(no bool) {
	s := h.scn
	st := h.begin()
	h.in.OpaqueCB = h.callback
	h.reqs = 2
	if h.c.Tier == "thorough" {
		h.reqs = 3
	}
	h.asked = st.Alloc(nil, ai.K(0), "H.asked")
	h.in.UnrollFork, h.in.MaxSteps = 1<<14, 1<<40
	sub, req, can := "FluxSub", "FluxRequest", "FluxCancel"
	if s.mapped {
		sub, req, can = sub+"W", req+"W", can+"W"
	}
	var obj ai.Value
	switch {
	case s.proc:
		st, obj = h.one(st, "FluxProc")
		var snk ai.Value
		st, snk = h.one(st, "FluxProcSink", obj)
		st, obj = h.one(st, "FluxProcFlux", obj)
		st.Store(h.sink, snk)
	case s.self:
		fn := h.d(s.name)
		var args []ai.Value
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			p := fn.Signature.Params().At(i)
			st.SetBool("isnil("+p.Name()+")", false)
			args = append(args, opq(p.Name(), p.Type()))
		}
		st, obj = h.one(st, s.name, args...)
	case s.mapped:
		st, obj = h.one(st, s.name, opq("src", h.param(s.name, 0)), opq("tx", h.param(s.name, 1)))
	default:
		st, obj = h.one(st, s.name, opq("src", h.param(s.name, 0)))
	}
	h.obj = obj
	mon := func(n *hnode) demMon { return n.mon.(demMon) }
	request := func(name string, k int64) hop {
		return hop{name: name, ready: func(n *hnode) bool {
			m := mon(n)
			return m.subscribed && m.live && m.reqOps < h.reqs && m.pend < 2 && (k > 0 || s.self)
		}, run: func(st *ai.State, n *hnode) []ai.Outcome {
			opEvent(st, "request", ai.K(k))
			return h.in.Run(st, h.d(req), []ai.Value{obj, ai.K(k)}, nil)
		}}
	}
	cancel := hop{name: "cancel", ready: func(n *hnode) bool { return mon(n).subscribed && mon(n).live }, run: func(st *ai.State, n *hnode) []ai.Outcome {
		opEvent(st, "cancel")
		return h.in.Run(st, h.d(can), []ai.Value{obj}, nil)
	}}
	ops := []hop{request("request1", 1), request("request2", 2), request("requestMany", demBig), request("request0", 0), request("requestNeg", -1), cancel}
	h.in2 = map[string][]hop{"cb.next": {ops[0], cancel}}
	noV := ai.Value(ai.BConst(no))
	ops = append(ops, hop{name: "subscribe", ready: func(n *hnode) bool { return !mon(n).subscribed }, run: func(st *ai.State, n *hnode) []ai.Outcome {
		opEvent(st, "subscribe")
		args := append([]ai.Value{obj}, h.cbs(sub)...)
		args[len(args)-1] = noV
		return h.in.Run(st, h.d(sub), args, nil)
	}})
	if !s.self {
		sink := func(name, fn string, ready func(m demMon) bool, args ...ai.Value) hop {
			return hop{name: name, ready: func(n *hnode) bool { return ready(mon(n)) }, run: func(st *ai.State, n *hnode) []ai.Outcome {
				k := h.sinkOf(st)
				if k == nil {
					return nil
				}
				if name == "sink.Next" {
					st.SetBool("isnil(val)", false)
				}
				opEvent(st, name)
				return h.in.Run(st, h.d(fn), append([]ai.Value{k}, args...), nil)
			}}
		}
		ops = append(ops,
			sink("sink.Next", "FluxNext", func(m demMon) bool {
				return m.subscribed && m.live && m.req > m.recv && (!m.onsub || m.fwd > m.recv) && m.recv < 3 && m.pend < 2
			}, opq("val", h.param("FluxNext", 1))),
			sink("sink.Complete", "FluxComplete", func(m demMon) bool { return m.subscribed && m.live }),
			sink("onsub", "FluxOnSub", func(m demMon) bool {
				return !m.onsub && m.recv == 0 && m.live && m.pend < 2 && (m.subscribed || s.proc)
			}, opq("srcsub.request", h.param("FluxOnSub", 1)), opq("srcsub.cancel", h.param("FluxOnSub", 2))))
		h.in2["srcsub.request"] = []hop{ops[len(ops)-3]}
		h.in2["src"] = []hop{ops[len(ops)-1]}
	}
	x := &explorer{c: h.c, w: h.w, in: h.in, tag: s.name, ops: ops, roots: []ai.Value{obj, h.sink, h.asked},
		step: func(n *hnode, mm any, op string, es []*ai.Event, st *ai.State) any {
			return h.step(n, mm.(demMon), op, es)
		},
		monKey:  func(m any) string { return fmt.Sprintf("%+v", m) },
		boolKey: func(k string) bool { return false },
		keep:    true, max: 20000, maxPend: 8, maxFails: 4,
		onPanic: func(n *hnode, op string, o ai.Outcome) {
			h.fail("panic", "%s panics (history%s): %s", op, n.hist, o.Why)
		}}
	h.x = x
	x.explore(&hnode{st: st, mon: demMon{live: true, onsub: s.self, noReq: no}})
	h.c.used(h.in)
	h.c.count("abstract states", x.states)
	h.c.count("transitions", x.trans)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println(s.name, no, h.nils["cb.request"], x.states, x.trans, x.bounded)
	}
	if x.bounded && len(h.c.fails) == 0 {
		h.fail("bounded", "the exploration is not complete after %d abstract states", x.states)
	}
	for _, cut := range h.in.Cuts {
		h.fail("cut:"+cut, "analysis incomplete: %s", cut)
	}
	seen := map[string]bool{}
	for _, o := range h.in.Obls {
		k := shortFn(o.Root) + ":" + o.Kind
		if o.OK || o.Kind == "block" || seen[k] {
			continue
		}
		seen[k] = true
		h.fail(k, "%s: %s in %s: %s", h.w.at(o.RPos), o.Kind, shortFn(o.Root), o.Why)
	}
}

func (h *demand) fail(key, f string, a ...any) {
	h.c.fail(h.scn.name+":"+key, h.scn.name+": "+f, a...)
}

// callback lets OnRequest use the subscription it was handed.
func (h *demand) callback(c *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
	if c.Fn == nil && len(c.Free) > 0 {
		if o, ok := c.Free[0].(*ai.OpaqueV); ok && o.Key == "cb.request" {
			c.Event(&ai.Event{Kind: "call", Recv: o, Args: c.Args, Name: o.Key})
			r := []ai.Outcome{{Kind: ai.Ret, St: c.St}}
			asked, _ := c.St.Load(h.asked).(*ai.Lin).Int64()
			if asked >= 3 {
				return r, true
			}
			for _, k := range []int64{1, 2} {
				st := c.St.Fork()
				st.Store(h.asked, ai.K(asked+1))
				opEvent(st, "request", ai.K(k))
				for _, x := range runMethod(h.in, st, c.Args[0], "Request", ai.K(k)) {
					x.Ret = nil
					r = append(r, x)
				}
			}
			st := c.St.Fork()
			opEvent(st, "cancel")
			for _, x := range runMethod(h.in, st, c.Args[0], "Cancel") {
				x.Ret = nil
				r = append(r, x)
			}
			return r, true
		}
	}
	h.re = nil
	if c.Fn == nil && len(c.Free) > 0 {
		if o, ok := c.Free[0].(*ai.OpaqueV); ok {
			h.re = h.in2[o.Key]
		}
	}
	return h.rxHarness.callback(c, m)
}

func (h *demand) step(n *hnode, m demMon, op string, es []*ai.Event) any {
	s := h.scn
	var trace []string
	if strings.HasPrefix(op, "go") {
		m.pend--
	}
	fails := 0
	bad := func(key, f string, a ...any) {
		fails++
		h.fail(key, f+" (history%s %s: %s)", append(a, n.hist, op, strings.Join(trace, " "))...)
	}
	refills := 0
	nexts := 0
	each(es, func(e *ai.Event) {
		if e.Kind == "go" {
			m.pend++
			return
		}
		if e.Kind == "op" {
			trace = append(trace, e.Name)
			switch e.Name {
			case "subscribe":
				m.subscribed = true
				if !m.noReq && h.nils["cb.request"] {
					m.req += h.max()
				}
			case "onsub":
				m.onsub = true
			case "request":
				k, _ := e.Args[0].(*ai.Lin).Int64()
				m.reqOps++
				if k > 0 {
					m.req += int(k)
				} else {
					m.neg = true
				}
			case "cancel":
				if m.live {
					m.live = false
					m.cancelled = m.onsub && !s.self
				}
			case "sink.Next":
				nexts++
			}
			return
		}
		switch cb := cbName(e); cb {
		case "":
			return
		case "srcsub.request":
			trace = append(trace, fmt.Sprintf("request(%s)", e.Args[0].VKey()))
			k, ok := e.Args[0].(*ai.Lin).Int64()
			if !ok {
				bad("amount", "the source is asked for an amount that is not the one requested")
			}
			m.fwd += int(k)
			if m.live && m.fwd > m.req {
				bad("more", "the source is asked for %d items although %d were requested", m.fwd, m.req)
			}
		case "srcsub.cancel":
			trace = append(trace, "source cancel")
			m.cancels++
			if m.cancels > 1 {
				bad("cancel-twice", "the source is cancelled twice")
				m.cancels = 1
			}
			if m.live && !m.cancelled {
				bad("cancel-live", "the source is cancelled although its subscriber did not cancel")
			}
		case "cb.request":
			trace = append(trace, "OnRequest")
			refills++
			if m.noReq {
				bad("no-request", "OnRequest runs although the subscriber asked for no automatic demand")
			}
			first := op == "subscribe" && refills == 1
			if m.live && !first && !m.neg && (m.recv != m.req || refills > 1 && op != "subscribe" && !strings.HasPrefix(op, "go")) {
				bad("refill-early", "OnRequest runs although %d of the %d requested items are outstanding", m.req-m.recv, m.req)
			}
		case "cb.next":
			trace = append(trace, "item")
			if m.live && s.self {
				if m.recv >= m.req {
					bad("over", "the source delivers item %d although %d were requested", m.recv+1, m.req)
				}
				if m.recv < len(s.vals) && e.Args[0].VKey() != s.vals[m.recv] {
					bad("order", "item %d is %s, not %s", m.recv+1, e.Args[0].VKey(), s.vals[m.recv])
				}
			}
			m.recv++
		case "cb.complete":
			trace = append(trace, "complete")
			if s.self && m.live && m.recv < len(s.vals) {
				bad("complete-early", "the source completes after %d of its %d items", m.recv, len(s.vals))
			}
			m.live, m.completed = false, true
		case "tx":
			if _, nilErr := e.Ret.(*ai.TupleV).E[1].(ai.NilV); !nilErr && m.live {
				m.live = false
				m.cancelled = m.onsub
			}
		case "cb.error":
			trace = append(trace, "error")
			m.live = false
		}
	})
	if op == "subscribe" && !h.nils["cb.request"] && !m.noReq && refills == 0 && m.live {
		bad("refill-first", "subscribing does not run OnRequest")
	}
	if op == "sink.Next" && !h.nils["cb.request"] && !m.noReq && refills == 0 && m.live && m.recv == m.req && !m.neg {
		bad("refill", "the demand is used up but OnRequest does not run")
	}
	if m.cancelled && m.cancels == 0 {
		bad("cancel", "the cancellation does not reach the source")
	}
	if m.pend == 0 && m.subscribed && m.live {
		if !s.self && m.onsub && m.fwd != m.req {
			bad("lost", "%d items were requested but the source was asked for %d", m.req, m.fwd)
		}
		if s.self {
			want := m.req
			if want > len(s.vals) {
				want = len(s.vals)
			}
			if m.recv < want {
				bad("under", "%d items were requested and are available, %d were delivered", want, m.recv)
			}
			if m.recv == len(s.vals) && m.req > 0 {
				bad("complete", "all items were delivered but the source does not complete")
			}
		}
	}
	if fails == 0 {
		h.c.ok(s.name + ":" + op)
	}
	return m
}

func (h *demand) max() int {
	return int(h.w.konst("rx", "RequestMax"))
}
