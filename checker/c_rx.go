package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

//go:embed drivers/rx.go.txt
var rxDriver []byte

func init() {
	register(check{"C19", "Every reactive stream ends at most once",
		"typestate over histories: from every constructor, every order of subscribe, emit, complete, fail, request, cancel, notify and pending-goroutine steps (also re-entered from inside callbacks) is applied until no new abstract state appears; on no transition is a value or terminal delivered after a terminal or a cancellation",
		400, func(c *Ctx) { rxHistories(c, "C19") }})
	register(check{"C20", "Subscribing always leads to a terminal signal",
		"must-signal over the same abstract histories: when the source of a subscribed Mono or Flux has reached an outcome, the subscriber has received exactly that terminal signal with its value or error, and finally and awaiter callbacks have run exactly once with the matching signal",
		400, func(c *Ctx) { rxHistories(c, "C20") }})
}

type rxScn struct {
	name    string
	flux    bool // subscriber side
	srcFlux bool // sink side
	proc    bool // the sink exists before subscription
	void    bool
	mapped  bool
	conv    string // "", "tomono", "tovoid", "toflux"
	self    bool   // no sink: the source is inside the library
	expect  string // outcome of a self-contained source
	vals    []string
}

type rxMon struct {
	subscribed, notified, onsub bool
	src                         string // outcome the source reached
	errKey                      string
	nval                        int
	term                        string
	fin, ntf                    int
	finSig, ntfSig              string
	waitTx                      bool
	cancelled                   bool
	requested                   bool
}

func (m rxMon) key() string {
	m.requested = false
	return fmt.Sprintf("%+v", m)
}

type rxHarness struct {
	c     *Ctx
	w     *World
	in    *ai.Interp
	scn   *rxScn
	prop  string
	sink  *ai.PtrV
	obj   ai.Value
	depth int
	re    []hop
	sigs  map[string]string // constant -> name
	x     *explorer
	badAt map[string]bool
	nils  map[string]bool
}

func (h *rxHarness) d(name string) *ssa.Function { return h.w.fn(driverPkg, name) }

func opq(key string, t types.Type) *ai.OpaqueV { return &ai.OpaqueV{Key: key, T: t} }

func (h *rxHarness) param(fn string, i int) types.Type {
	return h.d(fn).Signature.Params().At(i).Type()
}

func opEvent(st *ai.State, name string, args ...ai.Value) {
	st.Events = append(st.Events[:len(st.Events):len(st.Events)], &ai.Event{Kind: "op", Name: name, Args: args})
}

func (h *rxHarness) sinkOf(st *ai.State) ai.Value {
	v := st.Load(h.sink)
	if _, ok := v.(ai.NilV); ok {
		return nil
	}
	return v
}

// cbName classifies a harness callback.
func cbName(e *ai.Event) string {
	if e.Kind != "call" {
		return ""
	}
	if o, ok := e.Recv.(*ai.OpaqueV); ok {
		return o.Key
	}
	return ""
}

func (h *rxHarness) sinkOps() []hop {
	mk := func(name, fn string, args func(st *ai.State) []ai.Value) hop {
		return hop{name: name, run: func(st *ai.State, n *hnode) []ai.Outcome {
			s := h.sinkOf(st)
			if s == nil {
				return nil
			}
			var a []ai.Value
			if args != nil {
				a = args(st)
			}
			if i, ok := s.(*ai.IfaceV); ok && name == "cancel" && h.w.methodOf(i.Dyn, "Cancel") == nil {
				return nil
			}
			opEvent(st, name, a...)
			return h.in.Run(st, h.d(fn), append([]ai.Value{s}, a...), nil)
		}}
	}
	val := func(fn string) func(st *ai.State) []ai.Value {
		t := h.param(fn, 1)
		return func(st *ai.State) []ai.Value {
			st.SetBool("isnil(val)", false)
			return []ai.Value{opq("val", t)}
		}
	}
	er := func(fn string) func(st *ai.State) []ai.Value {
		t := h.param(fn, 1)
		return func(st *ai.State) []ai.Value { st.SetBool("isnil(err)", false); return []ai.Value{opq("err", t)} }
	}
	if !h.scn.srcFlux {
		r := []hop{
			mk("sink.Success", "MonoSuccess", val("MonoSuccess")),
			mk("sink.Error", "MonoErr", er("MonoErr")),
		}
		if h.scn.conv == "" {
			r = append(r, mk("cancel", "MonoCancel", nil))
		}
		return r
	}
	return []hop{
		mk("sink.Next", "FluxNext", val("FluxNext")),
		mk("sink.Complete", "FluxComplete", nil),
		mk("sink.Error", "FluxErr", er("FluxErr")),
	}
}

// subscription operations of a flux
func (h *rxHarness) subOps() []hop {
	if !h.scn.flux {
		return nil
	}
	sfx := ""
	if h.scn.mapped {
		sfx = "W"
	}
	return []hop{
		{name: "cancel", run: func(st *ai.State, n *hnode) []ai.Outcome {
			opEvent(st, "cancel")
			return h.in.Run(st, h.d("FluxCancel"+sfx), []ai.Value{h.obj}, nil)
		}},
		{name: "request", run: func(st *ai.State, n *hnode) []ai.Outcome {
			nn := st.Symbolic("n", types.Typ[types.Int]).(*ai.Lin)
			st.AddFact(ai.AddK(nn, -1))
			if h.scn.self {
				nn = ai.K(1)
			}
			opEvent(st, "request")
			return h.in.Run(st, h.d("FluxRequest"+sfx), []ai.Value{h.obj, nn}, nil)
		}},
	}
}

func (h *rxHarness) callback(c *ai.CallCtx, method *types.Func) ([]ai.Outcome, bool) {
	if c.Fn != nil || len(c.Free) == 0 {
		return nil, false
	}
	o, ok := c.Free[0].(*ai.OpaqueV)
	if !ok {
		return nil, false
	}
	st := c.St
	ev := func() {
		c.Event(&ai.Event{Kind: "call", Recv: o, Args: c.Args, Name: o.Key})
	}
	switch {
	case o.Key == "src":
		if h.sinkOf(st) == nil && len(c.Args) == 1 {
			st.Store(h.sink, c.Args[0])
		}
		ev()
		return h.reenter(st, nil), true
	case o.Key == "tx":
		tt := c.RetT.(*types.Tuple)
		good := st.Fork()
		good.SetBool("isnil(txval)", false)
		good.SetBool("isnil(txerr)", false)
		rt := func(s *ai.State, v, e ai.Value) ai.Outcome {
			r := &ai.TupleV{E: []ai.Value{v, e}}
			cc := *c
			cc.St = s
			cc.Event(&ai.Event{Kind: "call", Recv: o, Args: c.Args, Name: "tx", Ret: r})
			return ai.Outcome{Kind: ai.Ret, St: s, Ret: r}
		}
		bad := good.Fork()
		return []ai.Outcome{rt(good, opq("txval", tt.At(0).Type()), ai.NilV{}), rt(bad, bad.Zero(tt.At(0).Type()), opq("txerr", tt.At(1).Type()))}, true
	case strings.HasPrefix(o.Key, "cb.") || strings.HasPrefix(o.Key, "srcsub."):
		ev()
		return h.reenter(st, nil), true
	}
	return nil, false
}

// reenter explores what a callback may do before returning.
func (h *rxHarness) reenter(st *ai.State, ret ai.Value) []ai.Outcome {
	r := []ai.Outcome{{Kind: ai.Ret, St: st, Ret: ret}}
	if h.depth >= 1 || h.obj == nil {
		return r
	}
	h.depth++
	defer func() { h.depth-- }()
	base := st.Fork()
	for _, op := range h.re {
		for _, o := range op.run(base.Fork(), nil) {
			if o.Kind == ai.Ret {
				r = append(r, ai.Outcome{Kind: ai.Ret, St: o.St, Ret: ret})
			}
		}
	}
	return r
}

func isCbNil(st *ai.State, k string) bool { b, ok := st.BoolFact("isnil(" + k + ")"); return ok && b }

func (h *rxHarness) sig(v ai.Value) string {
	if l, ok := v.(*ai.Lin); ok {
		if n, ok := l.Int64(); ok {
			return h.sigs[fmt.Sprint(n)]
		}
	}
	return "?"
}

func (h *rxHarness) report(prop, key, f string, a ...any) {
	if prop == h.prop {
		h.c.fail(h.scn.name+":"+key, h.scn.name+": "+f, a...)
	}
	h.badAt[prop] = true
}

func (h *rxHarness) step(n *hnode, mon any, op string, es []*ai.Event, st *ai.State) any {
	m := mon.(rxMon)
	s := h.scn
	hist := n.hist + " " + op
	var trace []string
	h.badAt = map[string]bool{}
	each(es, func(e *ai.Event) {
		name := e.Name
		if e.Kind == "op" {
			trace = append(trace, name)
			switch name {
			case "subscribe":
				m.subscribed = true
			case "notify":
				m.notified = true
			case "onsub":
				m.onsub = true
			case "request":
				m.requested = true
			}
			if name == "cancel" && m.subscribed && !m.cancelled && m.term == "" && m.fin == 0 && m.ntf == 0 && !h.nils["cb.finally"] && (m.src == "" || s.conv == "toflux" || s.self) {
				m.src, m.cancelled = "cancel", true
				return
			}
			live := m.src == "" && !m.cancelled && (m.subscribed || s.proc && !s.srcFlux)
			if !live {
				return
			}
			switch name {
			case "sink.Success":
				m.src = "success"
				if s.mapped && m.subscribed {
					m.waitTx = true
				}
				if s.conv == "toflux" {
					m.src = "complete"
				}
			case "sink.Error":
				m.src, m.errKey = "error", "err"
			case "sink.Complete":
				m.src = "complete"
				switch s.conv {
				case "tomono":
					m.src, m.errKey = "error", ""
				case "tovoid":
					m.src = "success"
				}
			case "sink.Next":
				switch {
				case s.conv == "tomono":
					m.src = "success"
				case s.conv == "tovoid":
				default:
					m.waitTx = s.mapped
				}
			case "cancel":
				if m.subscribed && !s.self {
					m.src, m.cancelled = "cancel", true
				}
			}
			return
		}
		cb := cbName(e)
		if cb == "" {
			return
		}
		trace = append(trace, cb)
		over := m.term != "" || m.cancelled
		after := "a terminal signal"
		if m.cancelled && m.term == "" {
			after = "cancellation"
		}
		one := func(k string) {
			if over {
				h.report("C19", "after-end:"+k, "%s is delivered after %s (history%s: %s)", k, after, hist, strings.Join(trace, " "))
			} else {
				h.ok("C19", "at-most-once:"+k)
			}
		}
		switch cb {
		case "tx":
			t := e.Ret.(*ai.TupleV)
			if m.waitTx || s.mapped && m.src == "success" {
				if _, nilErr := t.E[1].(ai.NilV); !nilErr && !over {
					m.src, m.errKey = "error", "txerr"
				}
			}
			m.waitTx = false
		case "cb.next", "cb.success":
			one(strings.TrimPrefix(cb, "cb."))
			if len(e.Args) == 1 && !over && s.conv != "tovoid" {
				want := "$val"
				if s.mapped {
					want = "$txval"
				}
				if s.self {
					want = ""
					if m.nval < len(s.vals) {
						want = s.vals[m.nval]
					} else {
						h.report("C20", "extra-value", "the value %s is delivered beyond the source's values (history%s)", e.Args[0].VKey(), hist)
					}
				}
				if want != "" && e.Args[0].VKey() != want {
					h.report("C20", "value", "the value delivered is %s, not the one emitted (history%s)", e.Args[0].VKey(), hist)
				}
			}
			if s.self {
				m.nval++
			}
			if cb == "cb.success" {
				m.term = "success"
			}
		case "cb.complete":
			one("complete")
			m.term = "complete"
		case "cb.error":
			one("error")
			if !over && len(e.Args) == 1 && m.src == "error" && m.errKey != "" && e.Args[0].VKey() != "$"+m.errKey {
				h.report("C20", "error-value", "the error delivered is %s, not the source's (history%s)", e.Args[0].VKey(), hist)
			}
			m.term = "error"
		case "cb.finally":
			m.fin++
			m.finSig = h.sig(e.Args[0])
			if m.fin > 1 {
				h.report("C20", "finally-twice", "the finally callback runs again with %s (history%s: %s)", m.finSig, hist, strings.Join(trace, " "))
				m.fin = 2
			}
		case "cb.notify":
			m.ntf++
			m.ntfSig = h.sig(e.Args[0])
			if m.ntf > 1 {
				h.report("C20", "awaiter-twice", "an awaiter is notified again with %s (history%s: %s)", m.ntfSig, hist, strings.Join(trace, " "))
				m.ntf = 2
			}
		}
	})
	if op == "request" && h.prop == "C20" && !s.self && n.mon.(rxMon).onsub && n.mon.(rxMon).src == "" {
		passed := false
		for _, e := range es {
			if e.Kind == "go" || cbName(e) == "srcsub.request" {
				passed = true
			}
		}
		if !passed {
			h.report("C20", "request", "a request made after the source subscribed its demand does not reach it (history%s)", hist)
		}
	}
	if m.subscribed && (m.src != "" || s.self && !h.nils["cb.finally"]) && h.prop == "C20" {
		src := m.src
		if s.self && !m.cancelled {
			src = s.expect
			if src == "" {
				return m
			}
			if s.flux && src == "complete" && m.term == "" {
				// the source completes once its values have been requested
				ran := strings.HasPrefix(op, "go")
				if ran && m.nval < len(s.vals) && m.nval == n.mon.(rxMon).nval && !isCbNil(st, "cb.next") {
					h.report("C20", "progress", "running a request delivers nothing although values are left (history%s: %s)", hist, strings.Join(trace, " "))
				}
				if !(ran && m.nval == len(s.vals)) {
					return m
				}
			}
		}
		wantSig := map[string]string{"success": "complete", "complete": "complete", "error": "error", "cancel": "cancel"}[src]
		if src != "cancel" {
			cb := "cb." + src
			if !isCbNil(st, cb) && m.term != src {
				what := "no terminal signal"
				if m.term != "" {
					what = "the terminal signal " + m.term
				}
				h.report("C20", "terminal:"+src, "the source ended with %s but the subscriber received %s (history%s: %s)", src, what, hist, strings.Join(trace, " "))
			}
		} else if m.term != "" {
			h.report("C20", "terminal:cancel", "a cancelled subscriber received %s (history%s)", m.term, hist)
		}
		if !isCbNil(st, "cb.finally") && m.fin == 0 {
			h.report("C20", "finally:"+src, "the source ended with %s but the finally callback did not run (history%s: %s)", src, hist, strings.Join(trace, " "))
		}
		if m.fin == 1 && m.finSig != wantSig {
			h.report("C20", "finally-signal:"+src, "the source ended with %s but finally was told %s (history%s)", src, m.finSig, hist)
		}
		if m.notified && m.ntf == 0 {
			h.report("C20", "awaiter:"+src, "the source ended with %s but an awaiter was not notified (history%s: %s)", src, hist, strings.Join(trace, " "))
		}
		if m.ntf == 1 && !s.mapped && m.ntfSig != wantSig {
			h.report("C20", "awaiter-signal:"+src, "the source ended with %s but an awaiter was told %s (history%s)", src, m.ntfSig, hist)
		}
	}
	if !h.badAt[h.prop] {
		h.ok(h.prop, op)
	}
	return m
}

func each(es []*ai.Event, f func(*ai.Event)) {
	for _, e := range es {
		f(e)
	}
}

func (h *rxHarness) ok(prop, key string) {
	if prop == h.prop {
		h.c.ok(h.scn.name + ":" + key)
	}
}

// begin creates a state with the harness cells.
func (h *rxHarness) begin() *ai.State {
	in := h.w.interp()
	in.ChanModel = true
	in.Far = true
	in.UnrollFork = 64
	in.OpaqueCB = h.callback
	h.in = in
	st := ai.NewState()
	for _, k := range []string{"src", "tx", "srcsub.request", "srcsub.cancel", "cb.notify"} {
		st.SetBool("isnil("+k+")", false)
	}
	for _, k := range []string{"cb.request", "cb.success", "cb.next", "cb.complete", "cb.error", "cb.finally"} {
		st.SetBool("isnil("+k+")", h.nils[k])
	}
	h.sink = st.Alloc(nil, ai.NilV{}, "H.sink")
	h.obj = nil
	return st
}

// one runs a driver that has a single outcome.
func (h *rxHarness) one(st *ai.State, fn string, args ...ai.Value) (*ai.State, ai.Value) {
	os := h.in.Run(st, h.d(fn), args, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("constructor %s is not decided", fn)
	}
	return os[0].St, os[0].Ret
}

func (h *rxHarness) cbs(fn string) []ai.Value {
	var r []ai.Value
	ps := h.d(fn).Signature.Params()
	for i := 1; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		n := map[string]string{"onS": "cb.success", "onE": "cb.error", "fin": "cb.finally", "onN": "cb.next", "onC": "cb.complete", "onR": "cb.request"}[ps.At(i).Name()]
		if n == "" {
			r = append(r, ai.BAtom("noRequest"))
			continue
		}
		r = append(r, opq(n, t))
	}
	return r
}

func (h *rxHarness) run() {
	s := h.scn
	st := h.begin()
	src := func(fn string) ai.Value { return opq("src", h.param(fn, 0)) }
	var obj ai.Value
	sub, ntf := "MonoSub", "MonoNotify"
	if s.flux {
		sub, ntf = "FluxSub", "FluxNotify"
	}
	if s.mapped {
		sub, ntf = sub+"W", ntf+"W"
	}
	if s.void {
		sub, ntf = sub+"Void", ntf+"Void"
	}
	switch {
	case s.proc:
		p, pm, ps := "MonoProc", "MonoProcMono", "MonoProcSink"
		if s.flux {
			p, pm, ps = "FluxProc", "FluxProcFlux", "FluxProcSink"
		}
		st, obj = h.one(st, p)
		var snk ai.Value
		st, snk = h.one(st, ps, obj)
		st, obj = h.one(st, pm, obj)
		st.Store(h.sink, snk)
	case s.self:
		fn := h.d(s.name)
		var args []ai.Value
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			p := fn.Signature.Params().At(i)
			st.SetBool("isnil("+p.Name()+")", false)
			args = append(args, opq(p.Name(), p.Type()))
		}
		st, obj = h.one(st, s.name, args...)
	case s.mapped:
		st, obj = h.one(st, s.name, src(s.name), opq("tx", h.param(s.name, 1)))
	default:
		st, obj = h.one(st, s.name, src(s.name))
	}
	h.obj = obj
	h.re = h.sinkOps()
	if s.self {
		h.re = nil
	}
	h.re = append(h.re, h.subOps()...)
	ops := append([]hop(nil), h.re...)
	mon := func(n *hnode) rxMon { return n.mon.(rxMon) }
	for i := range ops {
		if ops[i].name == "cancel" && s.flux || ops[i].name == "request" {
			ops[i].ready = func(n *hnode) bool { return mon(n).subscribed }
		}
	}
	ops = append(ops,
		hop{name: "subscribe", ready: func(n *hnode) bool { return !mon(n).subscribed }, run: func(st *ai.State, n *hnode) []ai.Outcome {
			opEvent(st, "subscribe")
			return h.in.Run(st, h.d(sub), append([]ai.Value{obj}, h.cbs(sub)...), nil)
		}},
		hop{name: "notify", ready: func(n *hnode) bool { return !mon(n).notified }, run: func(st *ai.State, n *hnode) []ai.Outcome {
			opEvent(st, "notify")
			return h.in.Run(st, h.d(ntf), []ai.Value{obj, opq("cb.notify", h.param(ntf, 1))}, nil)
		}})
	if s.srcFlux && !s.self {
		ons := hop{name: "onsub", ready: func(n *hnode) bool { return !mon(n).onsub }, run: func(st *ai.State, n *hnode) []ai.Outcome {
			k := h.sinkOf(st)
			if k == nil {
				return nil
			}
			opEvent(st, "onsub")
			return h.in.Run(st, h.d("FluxOnSub"), []ai.Value{k, opq("srcsub.request", h.param("FluxOnSub", 1)), opq("srcsub.cancel", h.param("FluxOnSub", 2))}, nil)
		}}
		ops = append(ops, ons)
		h.re = append(h.re, ons)
	}
	x := &explorer{c: h.c, w: h.w, in: h.in, tag: s.name, ops: ops, roots: []ai.Value{obj, h.sink}, step: h.step,
		monKey:  func(m any) string { return m.(rxMon).key() },
		boolKey: func(k string) bool { return strings.HasPrefix(k, "isnil(cb.") || k == "noRequest" }}
	h.x = x
	x.maxPend = 1
	x.explore(&hnode{st: st, mon: rxMon{}})
	h.c.used(h.in)
	h.c.count("abstract states", x.states)
	h.c.count("transitions", x.trans)
	if x.bounded {
		h.c.Notes = append(h.c.Notes, fmt.Sprintf("%s: exploration stopped after %d abstract states", s.name, x.states))
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println(s.name, x.states, x.trans, h.in.Steps)
	}
	for _, cut := range h.in.Cuts {
		h.c.fail(s.name+":cut:"+cut, "%s: analysis incomplete: %s", s.name, cut)
	}
	seen := map[string]bool{}
	for _, o := range h.in.Obls {
		if o.OK || o.Kind == "block" || h.prop != "C20" {
			continue
		}
		k := fmt.Sprintf("%s:%s:%s", s.name, shortFn(o.Root), o.Kind)
		if !seen[k] {
			seen[k] = true
			h.c.fail(k, "%s: %s: %s in %s: %s", s.name, h.w.at(o.RPos), o.Kind, shortFn(o.Root), o.Why)
		}
	}
}

func rxHistories(c *Ctx, prop string) {
	w := loadWith(rxDriver, "rx", "rx/mono", "rx/flux", "transform")
	defer func() { c.Notes = uniq(c.Notes) }()
	sigs := map[string]string{}
	for _, n := range []string{"Complete", "Cancel", "Error"} {
		sigs[fmt.Sprint(w.konst("rx", "Signal"+n))] = strings.ToLower(n)
	}
	scns := []*rxScn{
		{name: "MonoCreate"},
		{name: "MonoProc", proc: true},
		{name: "MonoMap", mapped: true},
		{name: "FluxCreate", flux: true, srcFlux: true},
		{name: "FluxProc", flux: true, srcFlux: true, proc: true},
		{name: "FluxMap", flux: true, srcFlux: true, mapped: true},
		{name: "ToMono", srcFlux: true, conv: "tomono"},
		{name: "ToVoid", srcFlux: true, conv: "tovoid", void: true},
		{name: "ToFlux", flux: true, conv: "toflux"},
		{name: "MonoJust", self: true, expect: "success", vals: []string{"$v"}},
		{name: "MonoError", self: true, expect: "error"},
		{name: "FluxError", self: true, flux: true, expect: "error"},
		{name: "FluxSlice2", self: true, flux: true, srcFlux: true, expect: "complete", vals: []string{"$a", "$b"}},
		{name: "FluxSlice0", self: true, flux: true, srcFlux: true, expect: "complete"},
		{name: "FluxRespond2", self: true, flux: true, srcFlux: true, expect: "complete", vals: []string{"$a", "$b"}},
		{name: "FluxRespond0", self: true, flux: true, srcFlux: true, expect: "complete"},
	}
	for _, s := range scns {
		for _, nils := range [][]string{nil, {"cb.request"}, {"cb.request", "cb.success", "cb.next", "cb.complete", "cb.error", "cb.finally"}} {
			if !s.flux && len(nils) == 1 {
				continue
			}
			h := &rxHarness{c: c, w: w, scn: s, prop: prop, sigs: sigs, badAt: map[string]bool{}, nils: map[string]bool{}}
			for _, n := range nils {
				h.nils[n] = true
			}
			h.run()
		}
	}
	if prop == "C20" {
		rxBlocks(c, w, sigs)
	}
}

// rxBlocks: Block and Get hand back the outcome of the source. Goroutines run
// where they are started; paths that wait for a source that never ends are not
// judged.
func rxBlocks(c *Ctx, w *World, sigs map[string]string) {
	for _, s := range []*rxScn{
		{name: "MonoCreate"},
		{name: "MonoMap", mapped: true},
		{name: "MonoJust", self: true, expect: "success"},
		{name: "MonoError", self: true, expect: "error"},
		{name: "FluxCreate", flux: true, srcFlux: true},
		{name: "FluxMap", flux: true, srcFlux: true, mapped: true},
		{name: "FluxSlice2", flux: true, self: true, srcFlux: true, expect: "complete"},
		{name: "FluxError", flux: true, self: true, expect: "error"},
	} {
		for _, early := range []bool{false, true} {
			if early && s.self {
				continue
			}
			h := &rxHarness{c: c, w: w, scn: s, prop: "C20", sigs: sigs, badAt: map[string]bool{}, nils: map[string]bool{"cb.request": true}}
			st := h.begin()
			var obj ai.Value
			fn := h.d(s.name)
			var args []ai.Value
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				p := fn.Signature.Params().At(i)
				k := p.Name()
				st.SetBool("isnil("+k+")", false)
				args = append(args, opq(k, p.Type()))
			}
			st, obj = h.one(st, s.name, args...)
			h.obj = obj
			h.re = h.sinkOps()
			if s.self {
				h.re = nil
			}
			h.in.SyncGo = true
			sub, blk, get := "MonoSub", "MonoBlock", "MonoGet"
			if s.flux {
				sub, blk, get = "FluxSub", "FluxBlock", ""
			}
			if s.mapped {
				sub, blk = sub+"W", blk+"W"
				if get != "" {
					get += "W"
				}
			}
			starts := []*ai.State{st}
			if early {
				starts = nil
				for _, o := range h.in.Run(st, h.d(sub), append([]ai.Value{obj}, h.cbs(sub)...), nil) {
					if o.Kind == ai.Ret {
						starts = append(starts, o.St)
					}
				}
			}
			want := func(es []*ai.Event) (string, string) {
				out, v := "", ""
				for _, e := range es {
					if out != "" {
						break
					}
					switch {
					case e.Kind == "op" && e.Name == "sink.Success":
						if !s.mapped {
							out, v = "value", "$val"
						}
					case e.Kind == "op" && e.Name == "sink.Complete":
						out = "value"
					case e.Kind == "op" && e.Name == "sink.Error":
						out, v = "error", "$err"
					case e.Kind == "op" && e.Name == "cancel":
						out = "cancel"
					case cbName(e) == "tx":
						if _, ok := e.Ret.(*ai.TupleV).E[1].(ai.NilV); !ok {
							out, v = "error", "$txerr"
						} else if !s.flux {
							out, v = "value", "$txval"
						}
					}
				}
				if s.self {
					switch s.expect {
					case "success":
						out, v = "value", "$v"
					case "complete":
						out = "value"
					case "error":
						out, v = "error", "$err"
					}
				}
				return out, v
			}
			for _, s0 := range starts {
				out0, _ := want(s0.Events)
				if early && (out0 == "" || out0 == "cancel") {
					continue
				}
				calls := []string{blk}
				if get != "" && early && !s.mapped { // a mapper applies its function again
					calls = append(calls, get)
				}
				for _, d := range calls {
					a := []ai.Value{obj}
					if d == blk && s.flux {
						b := h.d(blk)
						for i := 1; i < b.Signature.Params().Len(); i++ {
							a = append(a, ai.NilV{})
						}
					}
					if early && d == blk && s.mapped {
						continue // a mapper subscribes again
					}
					for _, o := range h.in.Run(s0.Fork(), h.d(d), a, nil) {
						if o.Kind != ai.Ret || widened(o.St.Events) {
							continue
						}
						c.Paths++
						out, v := want(o.St.Events)
						if out == "" || out == "cancel" {
							continue
						}
						r := retTuple(o.Ret)
						er := r[len(r)-1]
						key := d + ":" + s.name + ":" + out
						if out == "error" {
							c.check(er.VKey() == v, key, "%s of %s returns the error %s, not %s", d, s.name, er.VKey(), v)
						} else {
							ok := isNilV(o.St, er) > 0
							if v != "" && len(r) == 2 {
								ok = ok && r[0].VKey() == v
							}
							c.check(ok, key, "%s of %s returns %s instead of %s", d, s.name, o.Ret.VKey(), v)
						}
					}
				}
			}
			for _, o := range h.in.Obls {
				if !o.OK && o.Kind != "block" {
					c.fail(fmt.Sprintf("block:%s:%s:%s", s.name, shortFn(o.Root), o.Kind), "blocking on %s: %s: %s in %s: %s", s.name, w.at(o.RPos), o.Kind, shortFn(o.Root), o.Why)
				}
			}
			c.used(h.in)
		}
	}
}
