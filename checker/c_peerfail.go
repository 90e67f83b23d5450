package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// ---- requests that cannot be sent ----------------------------------------------

// through runs the goroutines outcomes start, keeping the events in order.
func (h *peer) through(os []ai.Outcome) []ai.Outcome {
	var r []ai.Outcome
	for _, o := range os {
		r = append(r, h.throughFrom(o, 0)...)
	}
	return r
}

func (h *peer) throughFrom(o ai.Outcome, i int) []ai.Outcome {
	if o.Kind != ai.Ret {
		return []ai.Outcome{o}
	}
	for ; i < len(o.St.Events); i++ {
		e := o.St.Events[i]
		g, ok := e.Instr.(*ssa.Go)
		if e.Kind != "go" || !ok {
			continue
		}
		var r []ai.Outcome
		for _, x := range runGo(h.in, o.St, goCall{fn: e.Recv, site: g, args: e.Args}) {
			x.Ret = o.Ret
			r = append(r, h.throughFrom(x, i+1)...)
		}
		return r
	}
	return []ai.Outcome{o}
}

// then continues every normal outcome.
func (h *peer) then(os []ai.Outcome, f func(o ai.Outcome) []ai.Outcome) []ai.Outcome {
	var r []ai.Outcome
	for _, o := range os {
		if o.Kind != ai.Ret {
			r = append(r, o)
			continue
		}
		n := len(o.St.Events)
		for _, x := range f(o) {
			r = append(r, h.throughFrom(x, n)...)
		}
	}
	return r
}

func (h *peer) unsent(why, typ string, auto bool) {
	c := h.c
	style := "manual"
	if auto {
		style = "auto"
	}
	tag := fmt.Sprintf("%s:%s:%s:%s", h.kind, why, typ, style)
	h.tag = tag
	if !only(tag) {
		return
	}
	st := h.start.Fork()
	h.sl = map[string]*ai.SliceV{}
	for _, k := range []string{"insrc", "src.request", "src.cancel", "c.next", "c.complete", "c.error", "c.fin"} {
		st.SetBool("isnil("+k+")", false)
	}
	h.number(st, "inreq")
	h.nums["max"] = ai.K(h.w.konst("rx", "RequestMax"))
	h.sids = map[int64]string{}
	if why == "too large" {
		h.slice(st, "req.d", 24*1024, 1<<23)
	}
	st = h.payload(st, "req")
	h.cb = func(cc *ai.CallCtx, key string) ([]ai.Outcome, bool) {
		if key != "insrc" {
			return nil, false
		}
		st, sink := cc.St, cc.Args[0]
		opEvent(st, "insrc")
		os := h.in.Run(st, h.d("FluxOnSub"), []ai.Value{sink, opq("src.request", h.pt("FluxOnSub", 1)), opq("src.cancel", h.pt("FluxOnSub", 2))}, nil)
		for i := range os {
			os[i].Ret = nil
		}
		return os, true
	}
	// the stream the request would have had
	probe := st.Fork()
	probe = h.payload(probe, "small")
	h.sid = h.probeSID(probe, typ)
	if h.sid < 0 {
		return
	}
	switch why {
	case "send fails":
		st.SetBool("H.failing", true)
	case "closed":
		os := h.in.Run(st, h.d("HostClose"), []ai.Value{h.obj}, nil)
		if len(os) != 1 || os[0].Kind != ai.Ret {
			failf("host: Close of an idle instance is not decided")
		}
		st = os[0].St
	}
	h.clean(st)
	st.Events = nil
	os := h.through(h.call(st, typ, h.pl["req"]))
	var v []ai.Value
	if typ != "FF" {
		os = h.then(os, func(o ai.Outcome) []ai.Outcome {
			v = append(v, o.Ret)
			s := h.subscribe(o.St, typ, o.Ret, "c", auto)
			for i := range s {
				s[i].Ret = o.Ret
			}
			return s
		})
		if !auto && typ != "RR" {
			os = h.then(os, func(o ai.Outcome) []ai.Outcome {
				s := h.in.Run(o.St, h.d("FluxRequest"), []ai.Value{o.Ret, h.nums["inreq"]}, nil)
				for i := range s {
					s[i].Ret = o.Ret
				}
				return s
			})
		}
	}
	what := fmt.Sprintf("%s: a request that cannot be sent (%s)", h.tag, why)
	judge := func(s *ai.State, after string) {
		n := 0
		var got []string
		bad := ""
		for _, e := range s.Events {
			x := h.saw(e)
			if e.Kind == "op" && e.Name == "insrc" {
				bad = "its input is subscribed"
			}
			switch {
			case x == "":
				continue
			case strings.HasPrefix(x, "c error "):
				n++
			case strings.HasPrefix(x, "c "):
				bad = "the caller sees " + x
			case strings.HasPrefix(x, "out Request "):
				bad = "its frame is sent: " + x
			case strings.HasPrefix(x, "out Payload"):
				bad = "a frame is sent: " + x
			}
			got = append(got, x)
		}
		c.check(bad == "", tag+":effects"+after, "%s%s: %s", what, after, bad)
		if typ != "FF" {
			c.check(n == 1, tag+":outcome"+after, "%s%s: the caller gets %d errors instead of one (%s)", what, after, n, strings.Join(got, "; "))
		}
		c.check(!h.registered(s, h.sid), tag+":registered"+after, "%s%s: its stream stays registered", what, after)
	}
	all := func(os []ai.Outcome, after string) {
		if len(os) == 0 {
			c.check(false, tag+":nowhere"+after, "%s%s leads nowhere", what, after)
		}
		for _, o := range os {
			switch o.Kind {
			case ai.Ret:
				judge(o.St, after)
			case ai.Panic:
				c.check(false, tag+":panic"+after, "%s%s: panics: %s", what, after, o.Why)
			default:
				c.check(false, tag+":cut"+after, "%s%s: analysis incomplete: %s", what, after, o.Why)
			}
		}
	}
	all(os, "")
	if typ != "RS" && typ != "RC" {
		return
	}
	// what the caller does next is without effect
	for _, op := range []string{"FluxRequest", "FluxCancel"} {
		var later []ai.Outcome
		for _, o := range os {
			if o.Kind != ai.Ret {
				continue
			}
			s := o.St.Fork()
			s.SetBool("H.failing", false)
			a := []ai.Value{o.Ret}
			if op == "FluxRequest" {
				a = append(a, h.nums["inreq"])
			}
			n := len(s.Events)
			for _, x := range h.in.Run(s, h.d(op), a, nil) {
				later = append(later, h.throughFrom(x, n)...)
			}
		}
		all(later, ", then "+strings.TrimPrefix(op, "Flux"))
	}
}

// probeSID finds the stream the next request gets.
func (h *peer) probeSID(probe *ai.State, typ string) int64 {
	probe.Events = nil
	os := h.call(probe, typ, h.pl["small"])
	p2 := h.settle(os, "the call")
	if typ != "FF" {
		p2 = h.settle(h.subscribe(p2, typ, os[0].Ret, "c", true), "the subscription")
	}
	return h.requestFrame(p2, 0, "the call")
}

func init() {
	register(check{"C37", "A request that cannot be sent fails its caller",
		"abstract interpretation of each caller operation on the three peers with a connection whose send function fails, a closed instance and a payload that does not fit the other side's buffer: the caller gets exactly one error and nothing else, the stream is forgotten, the input is left alone, no request frame leaves, and later demand or cancellation changes nothing of that; on TCP the send function reports what the connection's Write and Flush report",
		80, func(c *Ctx) {
			var names []string
			for _, k := range []string{"client", "server", "host", "guest"} {
				why := map[string][]string{"host": {"closed", "too large"}, "guest": {"too large"}}[k]
				if why == nil {
					why = []string{"send fails"}
				}
				for _, y := range why {
					names = append(names, k+"/"+y)
				}
			}
			c.shards(append(names, "tcp"), func(name string) {
				if name == "tcp" {
					senders(c)
					return
				}
				kind, why, _ := strings.Cut(name, "/")
				w := loadPeers()
				h, st := newPeer(c, w, "C37", kind)
				h.start = h.ready(st)
				for _, typ := range []string{"RR", "FF", "RS", "RC"} {
					h.unsent(why, typ, true)
					if typ == "RS" || typ == "RC" {
						h.unsent(why, typ, false)
					}
				}
				for _, cut := range h.in.Cuts {
					c.check(false, h.tag+":cut:"+cut, "analysis incomplete: %s", cut)
				}
				c.used(h.in)
			})
		}})
}
