package main

import (
	"fmt"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	register(check{"C27", "Flow steps run once each and in order",
		"typestate over histories: for flows of no, one and three steps whose steps end, fail, succeed or await nothing, one or two awaitables, every order in which awaitables settle (already settled, later, and preempting another settlement at an atomic operation) is applied until no new abstract state appears; on no transition is a step started twice, out of order, before what its predecessor awaits has ended or after an error or End, and whenever the predecessor's awaitables have all ended the next step has been started",
		300, flowHistories})
}

type flowMon struct {
	started int
	out     string    // how the latest step returned
	open    [2]string // its awaitables: "", "new", "async", "open", "settled"
	n       int       // number of awaitables of the latest step
	stop    string    // error or end
	term    string
	want    string // error to report
}

type flowH struct {
	c     *Ctx
	w     *World
	in    *ai.Interp
	name  string
	flow  ai.Value
	cells [3][2]*ai.PtrV
	flux  bool
	steps int
	depth int
	old   int // objects below existed before the operation
}

func (h *flowH) d(n string) *ssa.Function { return h.w.fn(driverPkg, n) }

func (h *flowH) settleNow(st *ai.State, i, j int) []ai.Outcome {
	fn := st.Load(h.cells[i][j])
	if _, ok := fn.(ai.NilV); ok {
		return nil
	}
	st.Store(h.cells[i][j], ai.NilV{})
	opEvent(st, fmt.Sprintf("settle.%d.%d", i, j))
	sig := st.Symbolic(fmt.Sprintf("sig.%d.%d", i, j), h.d("FlowSettle").Signature.Params().At(1).Type())
	return h.in.Run(st, h.d("FlowSettle"), []ai.Value{fn, sig}, nil)
}

func (h *flowH) callback(c *ai.CallCtx, method *types.Func) ([]ai.Outcome, bool) {
	st := c.St
	if method != nil {
		o, ok := c.Args[0].(*ai.OpaqueV)
		if !ok || !strings.HasPrefix(o.Key, "aw.") {
			return nil, false
		}
		var i, j int
		fmt.Sscanf(o.Key, "aw.%d.%d", &i, &j)
		switch method.Name() {
		case "Async":
			opEvent(st, fmt.Sprintf("async.%d.%d", i, j))
			return []ai.Outcome{{Kind: ai.Ret, St: st}}, true
		case "Notify":
			opEvent(st, fmt.Sprintf("notify.%d.%d", i, j))
			st.Store(h.cells[i][j], c.Args[1])
			r := []ai.Outcome{{Kind: ai.Ret, St: st.Fork()}}
			for _, o := range h.settleNow(st, i, j) {
				o.Ret = nil
				r = append(r, o)
			}
			return r, true
		}
		return nil, false
	}
	if c.Fn != nil || len(c.Free) == 0 {
		return nil, false
	}
	o, ok := c.Free[0].(*ai.OpaqueV)
	if !ok {
		return nil, false
	}
	if strings.HasPrefix(o.Key, "cb.") {
		c.Event(&ai.Event{Kind: "call", Recv: o, Args: c.Args, Name: o.Key})
		return []ai.Outcome{{Kind: ai.Ret, St: st}}, true
	}
	if !strings.HasPrefix(o.Key, "step.") {
		return nil, false
	}
	var i int
	fmt.Sscanf(o.Key, "step.%d", &i)
	opEvent(st, o.Key)
	var r []ai.Outcome
	tt := c.RetT.(*types.Tuple)
	ret := func(kind string, fn string, args ...ai.Value) {
		s := st.Fork()
		var os []ai.Outcome
		if fn == "" {
			s.SetBool("isnil(err)", false)
			os = []ai.Outcome{{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{s.Zero(tt.At(0).Type()), opq("err", tt.At(1).Type())}}}}
		} else {
			os = h.in.Run(s, h.d(fn), args, nil)
		}
		for _, o := range os {
			if o.Kind == ai.Ret {
				tu, _ := o.Ret.(*ai.TupleV)
				switch {
				case tu == nil || len(tu.E) != 2:
				case kind == "endawait":
					// End was called, but the step returns awaitables of its own
					for _, e := range h.in.Run(o.St, h.d("FlowEnd"), []ai.Value{h.flow}, nil) {
						if e.Kind == ai.Ret {
							e.Ret = tu
							opEvent(e.St, fmt.Sprintf("ret.%d.%s", i, kind))
						}
						r = append(r, e)
					}
					continue
				case kind == "errawait":
					o.St.SetBool("isnil(err)", false)
					o.Ret = &ai.TupleV{E: []ai.Value{tu.E[0], opq("err", tt.At(1).Type())}}
				}
				opEvent(o.St, fmt.Sprintf("ret.%d.%s", i, kind))
			}
			r = append(r, o)
		}
	}
	aw := func(j int) ai.Value {
		k := fmt.Sprintf("aw.%d.%d", i, j)
		st.SetBool("isnil("+k+")", false)
		return opq(k, h.d("Await1").Signature.Params().At(0).Type())
	}
	st.SetBool("isnil(val)", false)
	val := func(fn string) ai.Value { return opq("val", h.d(fn).Signature.Params().At(1).Type()) }
	st.SetBool("isnil(err)", false)
	ret("error", "")
	ret("await0", "Await0")
	ret("await1", "Await1", aw(0))
	ret("await2", "Await2", aw(0), aw(1))
	ret("end", "FlowEnd", h.flow)
	ret("endawait", "Await1", aw(0))
	ret("errawait", "Await1", aw(0))
	ret("fail", "FlowFail", h.flow, opq("err", h.d("FlowFail").Signature.Params().At(1).Type()))
	if h.flux {
		ret("complete", "FlowDone", h.flow)
	} else {
		ret("success", "FlowSuccess", h.flow, val("FlowSuccess"))
	}
	return r, true
}

// preempt lets another settlement run at an atomic operation.
func (h *flowH) preempt(c *ai.CallCtx) ([]ai.Outcome, bool) {
	os, ok := c.Std()
	if !ok || h.depth >= 1 {
		return os, ok
	}
	h.depth++
	defer func() { h.depth-- }()
	r := append([]ai.Outcome(nil), os...)
	for _, o := range os {
		if o.Kind != ai.Ret {
			continue
		}
		for i := range h.cells {
			for j := range h.cells[i] {
				for _, p := range h.settleNow(o.St.Fork(), i, j) {
					if p.Kind == ai.Ret {
						p.Ret = o.Ret
						r = append(r, p)
					}
				}
			}
		}
	}
	return r, true
}

func (h *flowH) step(n *hnode, mon any, op string, es []*ai.Event, st *ai.State) any {
	m := mon.(flowMon)
	var trace, writes []string
	bad := false
	fail := func(key, f string, a ...any) {
		bad = true
		h.c.fail(h.name+":"+key, h.name+": "+f+fmt.Sprintf(" (history%s %s: %s)", n.hist, op, strings.Join(trace, " ")), a...)
	}
	for _, e := range es {
		if cb := cbName(e); cb != "" {
			trace = append(trace, cb)
			switch cb {
			case "cb.success", "cb.complete", "cb.error":
				t := strings.TrimPrefix(cb, "cb.")
				if m.term != "" {
					fail("twice", "the flow's subscriber receives %s after %s", t, m.term)
				}
				m.term = t
				if t == "error" && e.Args[0].VKey() != "$err" {
					fail("error-value", "the flow reports the error %s, not the one its step returned", e.Args[0].VKey())
				}
				if cb == "cb.success" && e.Args[0].VKey() != "$val" {
					fail("value", "the flow delivers %s, not the value of Success", e.Args[0].VKey())
				}
			}
			continue
		}
		if e.Kind != "op" {
			continue
		}
		trace = append(trace, e.Name)
		var i, j int
		p := strings.Split(e.Name, ".")
		if len(p) > 1 {
			fmt.Sscanf(p[1], "%d", &i)
		}
		if len(p) > 2 {
			fmt.Sscanf(p[2], "%d", &j)
		}
		switch p[0] {
		case "step":
			switch {
			case i < m.started:
				fail("again", "step %d is started again", i)
			case i > m.started:
				fail("order", "step %d is started before step %d", i, m.started)
			case m.stop != "":
				fail("after-stop", "step %d is started after %s", i, m.stop)
			case m.started > 0:
				for k := 0; k < m.n; k++ {
					if m.open[k] != "settled" {
						fail("early", "step %d is started although awaitable %d of the step before has not ended", i, k)
					}
				}
				if m.out == "" {
					fail("early", "step %d is started before the step before it has returned", i)
				}
			}
			m.started, m.out, m.n, m.open = i+1, "", 0, [2]string{}
		case "ret":
			if i+1 != m.started {
				break
			}
			m.out = p[2]
			if strings.HasSuffix(p[2], "await") {
				m.n = 1
			}
			switch p[2] {
			case "error", "fail", "errawait":
				m.stop = "a step failed"
				m.want = "error"
			case "end", "endawait":
				m.stop = "End"
			case "success":
				m.want = "success"
			case "complete":
				m.want = "complete"
			case "await1":
				m.n = 1
			case "await2":
				m.n = 2
			}
		case "async":
			if i+1 == m.started && m.open[j] == "" {
				m.open[j] = "async"
			}
		case "notify":
			if i+1 != m.started {
				fail("late-notify", "awaitable %d of step %d is awaited although a later step was started", j, i)
				break
			}
			if m.open[j] == "" {
				fail("not-running", "awaitable %d is awaited without being started (Async)", j)
			}
			if m.open[j] == "open" || m.open[j] == "settled" {
				fail("notify-twice", "awaitable %d of step %d is awaited twice", j, i)
			}
			m.open[j] = "open"
		case "settle":
			if i+1 == m.started {
				m.open[j] = "settled"
			}
		case "write":
			writes = append(writes, h.w.at(e.Pos))
		}
	}
	if strings.HasPrefix(op, "settle") && m.started == n.mon.(flowMon).started {
		for k := 0; k < m.n; k++ {
			if m.open[k] == "open" && len(writes) > 0 {
				fail("race", "the notification of one awaitable writes shared state at %s without synchronisation while another awaitable of the step may be notifying too", writes[0])
			}
		}
	}
	// at rest
	if m.started > 0 || op == "subscribe" {
		if op == "subscribe" && m.started == 0 && h.steps > 0 {
			fail("start", "subscribing does not start the first step")
		}
		all := m.n > 0
		for k := 0; k < m.n; k++ {
			if m.open[k] != "settled" {
				all = false
			}
			if (m.open[k] == "" || m.open[k] == "async") && m.stop == "" {
				fail("not-awaited", "awaitable %d of step %d is never awaited", k, m.started-1)
			}
		}
		if all && m.stop == "" && m.started < h.steps {
			fail("stuck", "everything step %d awaits has ended but step %d is not started", m.started-1, m.started)
		}
		if m.want != "" && m.term != m.want {
			fail("terminal", "the flow's outcome is %s but its subscriber received %q", m.want, m.term)
		}
	}
	if !bad {
		h.c.ok(h.name + ":" + op)
	}
	return m
}

func flowHistories(c *Ctx) {
	w := loadWith(rxDriver, "rx", "rx/mono", "rx/flux", "rx/flow", "rx/await", "transform")
	defer func() { c.Notes = uniq(c.Notes) }()
	for _, s := range []struct {
		name  string
		steps int
		flux  bool
	}{{"FlowMono0", 0, false}, {"FlowMono1", 1, false}, {"FlowMono3", 3, false}, {"FlowFlux3", 3, true}} {
		in := w.interp()
		in.ChanModel = true
		in.Far = true
		in.UnrollFork = 20000
		in.MaxSteps = 40000000
		h := &flowH{c: c, w: w, in: in, name: s.name, flux: s.flux, steps: s.steps}
		in.OpaqueCB = h.callback
		for _, t := range []string{"Add", "Load", "Store", "CompareAndSwap", "Swap"} {
			for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
				for _, nm := range []string{"sync/atomic." + t + k, "(*sync/atomic." + k + ")." + t} {
					if ai.HasStd(nm) {
						in.Hooks[nm] = h.preempt
					}
				}
			}
		}
		in.OnAccess = func(st *ai.State, fn *ssa.Function, p *ai.PtrV, write bool, pos ai.Pos, ins ssa.Instruction) {
			if _, plain := ins.(*ssa.Store); plain && write && p.Obj < h.old && len(st.Locks) == 0 {
				opEvent(st, "write")
				st.Events[len(st.Events)-1].Pos = pos
			}
		}
		st := ai.NewState()
		roots := []ai.Value{}
		for i := range h.cells {
			for j := range h.cells[i] {
				h.cells[i][j] = st.Alloc(nil, ai.NilV{}, fmt.Sprintf("H.aw.%d.%d", i, j))
				roots = append(roots, h.cells[i][j])
			}
		}
		for _, k := range []string{"cb.success", "cb.next", "cb.complete", "cb.error", "cb.finally", "step.0", "step.1", "step.2"} {
			st.SetBool("isnil("+k+")", false)
		}
		st.SetBool("isnil(cb.request)", true)
		one := func(fn string, args ...ai.Value) ai.Value {
			os := in.Run(st, h.d(fn), args, nil)
			if len(os) != 1 || os[0].Kind != ai.Ret {
				failf("constructor %s is not decided", fn)
			}
			st = os[0].St
			return os[0].Ret
		}
		h.flow = one("FlowNew")
		args := []ai.Value{h.flow}
		for i := 0; i < s.steps; i++ {
			args = append(args, opq(fmt.Sprintf("step.%d", i), h.d(s.name).Signature.Params().At(i+1).Type()))
		}
		obj := one(s.name, args...)
		roots = append(roots, h.flow, obj)
		sub := "MonoSub"
		if s.flux {
			sub = "FluxSub"
		}
		rh := &rxHarness{w: w}
		ops := []hop{{name: "subscribe", ready: func(n *hnode) bool { return n.n == 0 }, run: func(st *ai.State, n *hnode) []ai.Outcome {
			opEvent(st, "subscribe")
			return in.Run(st, h.d(sub), append([]ai.Value{obj}, rh.cbs(sub)...), nil)
		}}}
		for i := 0; i < 3; i++ {
			for j := 0; j < 2; j++ {
				i, j := i, j
				ops = append(ops, hop{name: fmt.Sprintf("settle.%d.%d", i, j), run: func(st *ai.State, n *hnode) []ai.Outcome {
					h.old = st.NextObj()
					return h.settleNow(st, i, j)
				}})
			}
		}
		x := &explorer{c: c, w: w, in: in, tag: s.name, ops: ops, roots: roots, step: h.step, max: 4000,
			monKey:  func(m any) string { return fmt.Sprintf("%+v", m.(flowMon)) },
			boolKey: func(k string) bool { return strings.HasPrefix(k, "isnil(cb.") || k == "noRequest" },
			keepInt: func(types.Type) bool { return true }, maxPend: 1}
		x.explore(&hnode{st: st, mon: flowMon{}})
		c.used(in)
		c.count("abstract states", x.states)
		c.count("transitions", x.trans)
		if x.bounded {
			c.Notes = append(c.Notes, fmt.Sprintf("%s: exploration stopped after %d abstract states", s.name, x.states))
		}
		if debugging() {
			fmt.Println(s.name, x.states, x.trans, in.Steps)
		}
		for _, cut := range in.Cuts {
			c.fail(s.name+":cut:"+cut, "%s: analysis incomplete: %s", s.name, cut)
		}
		seen := map[string]bool{}
		for _, o := range in.Obls {
			k := fmt.Sprintf("%s:%s:%s", s.name, shortFn(o.Root), o.Kind)
			if o.OK || o.Kind == "block" || seen[k] {
				continue
			}
			seen[k] = true
			c.fail(k, "%s: %s: %s in %s: %s", s.name, w.at(o.RPos), o.Kind, shortFn(o.Root), o.Why)
		}
	}
	atomicOnly(c, w, "rx/flow")
}
