package main

import (
	"fmt"
	"strings"

	"verif/checker/ai"
)

// ---- answers that cannot be sent ------------------------------------------------

// unanswerable serves one request whose answer does not fit the connection.
func (h *peer) unanswerable(typ, style string) {
	c := h.c
	tag := fmt.Sprintf("%s:%s:%s", h.kind, typ, style)
	h.tag = tag
	if !only(tag) {
		return
	}
	st := h.start.Fork()
	h.cells = map[string]*ai.PtrV{}
	h.cell(st, "sink")
	for _, k := range []string{"src", "src.request", "src.cancel", "err"} {
		st.SetBool("isnil("+k+")", false)
	}
	h.sid = map[bool]int64{true: 6, false: 5}[h.kind == "client" || h.kind == "guest"]
	h.other = h.sid ^ 0x00040200
	h.sids = map[int64]string{}
	h.sl = map[string]*ai.SliceV{}
	for _, n := range []string{"init", "rn", "inreq"} {
		h.number(st, n)
	}
	st = h.payload(st, "resp")
	h.slice(st, "big.d", 24*1024, 1<<23)
	st = h.payload(st, "big")
	st = h.incoming(st, inScn{typ: typ, meta: "known"}, h.sid)
	if h.kind == "client" || h.kind == "server" {
		st.SetBool("H.picky", true)
	}
	mono := typ == "RR"
	emit := func(st *ai.State, what string, sink ai.Value) []ai.Outcome {
		opEvent(st, "sink."+what)
		er := func(key string) ai.Value {
			st.SetBool("isnil("+key+")", false)
			return opq(key, h.pt("MonoErr", 1))
		}
		pl := h.pl["resp"]
		if what == "big" {
			pl = h.pl["big"]
		}
		switch {
		case what == "complete":
			return h.in.Run(st, h.d("FluxComplete"), []ai.Value{sink}, nil)
		case what == "longerror" || what == "error":
			key := "err"
			if what == "longerror" {
				key = "errtext:" + strings.Repeat("long ", 6000)
			}
			return h.in.Run(st, h.d(map[bool]string{true: "MonoErr", false: "FluxErr"}[mono]), []ai.Value{sink, er(key)}, nil)
		}
		return h.in.Run(st, h.d(map[bool]string{true: "MonoSuccess", false: "FluxNext"}[mono]), []ai.Value{sink, pl}, nil)
	}
	first := "big"
	if style == "longerror" {
		first = "longerror"
	}
	h.cb = func(cc *ai.CallCtx, key string) ([]ai.Outcome, bool) {
		st := cc.St
		switch {
		case key == "src":
			sink := cc.Args[0]
			st.Store(h.cells["sink"], sink)
			os := []ai.Outcome{{Kind: ai.Ret, St: st}}
			if !mono {
				os = h.in.Run(st, h.d("FluxOnSub"), []ai.Value{sink, opq("src.request", h.pt("FluxOnSub", 1)), opq("src.cancel", h.pt("FluxOnSub", 2))}, nil)
			}
			if style == "sync" {
				var r []ai.Outcome
				for _, o := range os {
					if o.Kind != ai.Ret {
						r = append(r, o)
						continue
					}
					r = append(r, emit(o.St, first, sink)...)
				}
				os = r
			}
			for i := range os {
				os[i].Ret = nil
			}
			return os, true
		case key == "h"+typ:
			if style == "just" {
				return h.in.Run(st, h.d("MonoJust"), []ai.Value{h.pl["big"]}, nil), true
			}
			fn := map[bool]string{true: "MonoCreate", false: "FluxCreate"}[mono]
			return h.in.Run(st, h.d(fn), []ai.Value{opq("src", h.pt(fn, 0))}, nil), true
		}
		return nil, false
	}
	h.clean(st)
	st.Events = nil
	os := h.through(h.deliver(st, h.frames["req"]))
	if style == "create" || style == "longerror" {
		os = h.then(os, func(o ai.Outcome) []ai.Outcome {
			sink := h.held(o.St, "sink")
			if sink == nil {
				return nil
			}
			return emit(o.St, first, sink)
		})
	}
	what := fmt.Sprintf("%s: an answer that cannot be sent", tag)
	judge := func(s *ai.State, after string) {
		told, cancelled := 0, 0
		bad := ""
		var got []string
		for _, e := range s.Events {
			x := h.saw(e)
			switch {
			case x == "" || strings.HasPrefix(x, "src request"):
				continue
			case strings.HasPrefix(x, "out Error "):
				told++
				if strings.Contains(x, "on another stream") {
					bad = "an error is sent for another stream"
				}
			case strings.HasPrefix(x, "out "):
				bad = "a frame is sent: " + x
			case x == "src cancel":
				cancelled++
			}
			got = append(got, x)
		}
		all := strings.Join(got, "; ")
		c.check(bad == "", tag+":effects"+after, "%s%s: %s", what, after, bad)
		c.check(told == 1, tag+":told"+after, "%s%s: the requester is sent %d errors instead of one (%s)", what, after, told, all)
		if !mono && style != "longerror" {
			c.check(cancelled == 1, tag+":cancelled"+after, "%s%s: the handler's stream is cancelled %d times (%s)", what, after, cancelled, all)
		}
		c.check(!h.registered(s, h.sid), tag+":registered"+after, "%s%s: the stream stays registered", what, after)
	}
	all := func(os []ai.Outcome, after string) {
		n := 0
		for _, o := range os {
			switch o.Kind {
			case ai.Ret:
				n++
				judge(o.St, after)
			case ai.Panic:
				c.check(false, tag+":panic"+after, "%s%s: panics: %s", what, after, o.Why)
			default:
				c.check(false, tag+":cut"+after, "%s%s: analysis incomplete: %s", what, after, o.Why)
			}
		}
		c.check(n > 0, tag+":nowhere"+after, "%s%s leads nowhere", what, after)
		c.Paths += n
	}
	all(os, "")
	if style == "just" {
		return
	}
	// what the handler does next is without effect
	later := []string{"complete", "error", "next", "big"}
	if mono {
		later = []string{"error", "next", "big"}
	}
	for _, op := range later {
		op := op
		var fs []ai.Outcome
		for _, o := range os {
			if o.Kind == ai.Ret {
				fs = append(fs, ai.Outcome{Kind: ai.Ret, St: o.St.Fork()})
			}
		}
		all(h.then(fs, func(o ai.Outcome) []ai.Outcome { return emit(o.St, op, h.held(o.St, "sink")) }), ", then "+op)
	}
}

func init() {
	register(check{"C38", "A requester is told when its answer cannot be sent",
		"abstract interpretation of each peer serving a request, stream and channel whose handler answers, at once or later, with a payload (or an error text) that does not fit the connection: exactly one error frame for the stream leaves and nothing else, the handler's stream is cancelled, the stream is forgotten, and whatever the handler emits afterwards is without effect; on TCP the send function reports what the connection's Write and Flush report",
		150, func(c *Ctx) {
			c.shards([]string{"client", "server", "host", "guest", "tcp"}, func(kind string) {
				if kind == "tcp" {
					senders(c)
					return
				}
				w := loadPeers()
				h, st := newPeer(c, w, "C38", kind)
				h.start = h.ready(st)
				for _, typ := range []string{"RR", "RS", "RC"} {
					styles := []string{"create", "sync"}
					if typ == "RR" {
						styles = append(styles, "just")
					}
					if kind == "host" || kind == "guest" {
						styles = append(styles, "longerror")
					}
					for _, s := range styles {
						h.unanswerable(typ, s)
					}
				}
				for _, cut := range h.in.Cuts {
					c.check(false, h.tag+":cut:"+cut, "analysis incomplete: %s", cut)
				}
				c.used(h.in)
			})
		}})
}
