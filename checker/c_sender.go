package main

import (
	"go/types"
	"strings"

	"verif/checker/ai"
)

// ---- what the peers of a TCP connection send with --------------------------------

// borrow runs part of another check and takes over the obligations that bear
// on this one's property.
func (c *Ctx) borrow(keep func(key string) bool, f func(c *Ctx)) {
	s := &Ctx{Prop: c.Prop, Tier: c.Tier, fails: map[string]*finding{}, Funcs: c.Funcs, Counts: c.Counts}
	f(s)
	c.Obligations += s.Obligations
	c.Discharged += s.Discharged
	c.Paths += s.Paths
	for _, x := range s.Samples {
		c.sample(x)
	}
	for _, k := range s.order {
		fd := s.fails[k]
		if !keep(k) {
			c.Obligations--
			continue
		}
		if _, dup := c.fails[k]; !dup {
			c.fails[k] = fd
			c.order = append(c.order, k)
		}
	}
}

func keyHas(parts ...string) func(string) bool {
	return func(k string) bool {
		for _, p := range parts {
			if strings.Contains(k, p) {
				return true
			}
		}
		return false
	}
}

// senders runs the function each end of a TCP connection gives its peer to
// send frames with.
func senders(c *Ctx) {
	w := load(rsPkg)
	setter := ai.Name(w.method("handler", "Handler", "SetFrameSender"))
	prep := func(in *ai.Interp) {
		in.Hooks[setter] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
			opEvent(cc.St, "sender", cc.Args[1])
			return []ai.Outcome{{Kind: ai.Ret, St: cc.St}}, true
		}
		for _, ct := range connTypes(w) {
			pt := types.NewPointer(ct)
			in.Hooks[ai.Name(w.methodOf(pt, "Write"))] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				opEvent(cc.St, "write", cc.Args[1])
				return forkErr(cc, "written", "write:err", "writeerr")
			}
			in.Hooks[ai.Name(w.methodOf(pt, "Flush"))] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				opEvent(cc.St, "flush")
				return forkErr(cc, "flushed", "flush:err", "flusherr")
			}
		}
	}
	judge := func(tag string, in *ai.Interp, at *ai.State, fn ai.Value) {
		st := at.Fork()
		st.Events = nil
		st.SetBool("isnil(frame)", false)
		fr := opq("frame", w.named("internal/frames", "Frame"))
		os := in.CallValue(st, fn, []ai.Value{fr})
		c.check(len(os) > 0, tag+":sends", "%s: sending a frame leads nowhere", tag)
		for _, o := range os {
			c.Paths++
			if o.Kind != ai.Ret {
				c.fail(tag+":path", "%s: sending a frame does not return: %s", tag, o.Why)
				continue
			}
			wrote, flushed, failed, after := 0, false, "", 0
			for _, e := range o.St.Events {
				if e.Kind != "op" {
					continue
				}
				switch e.Name {
				case "write":
					wrote++
					if e.Args[0].VKey() != fr.VKey() {
						after++
					}
				case "flushed":
					flushed = wrote > 0
				case "write:err", "flush:err":
					failed = e.Name
				}
			}
			rs := retTuple(o.Ret)
			n := 0
			if len(rs) > 0 {
				n = isNilV(o.St, rs[len(rs)-1])
			}
			c.check(wrote == 1 && after == 0, tag+":once", "%s: the function that sends a frame returns after writing it %d times to the connection: frames sent one after the other may overtake each other or get lost", tag, wrote-after)
			if failed != "" {
				c.check(n < 0, tag+":error", "%s: the function that sends a frame reports no error although %s", tag, strings.Replace(failed, ":err", " failed", 1))
			} else {
				c.check(n > 0, tag+":success", "%s: the function that sends a frame reports an error although it was written", tag)
				c.check(flushed, tag+":flush", "%s: a frame is left in the connection's buffer", tag)
			}
		}
	}
	last := func(es []*ai.Event) ai.Value {
		var v ai.Value
		for _, e := range es {
			if e.Kind == "op" && e.Name == "sender" {
				v = e.Args[0]
			}
		}
		return v
	}
	// the server
	n := 0
	c29ListenRun(c, w, 1, prep, func(h *listenH, o ai.Outcome) {
		open := -1
		for i, e := range o.St.Events {
			if e.Kind != "op" {
				continue
			}
			switch e.Name {
			case "accept":
				open = i
			case "close:conn.0", "server-closed", "close:l":
				return
			case "accepting":
				if open < 0 || e.St == nil {
					break
				}
				v := last(o.St.Events[open:i])
				if c.check(v != nil, "sender:server:set", "the handler of an accepted connection is given nothing to send with") {
					n++
					judge("sender:server", h.in, e.St, v)
				}
				open = -1
			}
		}
	})
	c.check(n > 0, "sender:server", "no accepted connection's sender was seen")
	// the client
	n = 0
	in, st := c29ConnectRun(w)
	prep(in)
	start := ai.Name(w.method(rsPkg, "Transport", "Start"))
	in.Hooks[start] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		v := last(cc.St.Events)
		if c.check(v != nil, "sender:client:set", "the handler of a client's connection is given nothing to send with") {
			n++
			judge("sender:client", in, cc.St, v)
		}
		return forkErr(cc, "started", "start:err", "starterr")
	}
	fn := w.fn(rsPkg, "Connect")
	hv := st.Symbolic("h", fn.Signature.Params().At(0).Type())
	if o, ok := hv.(*ai.OpaqueV); ok {
		st.SetBool("isnil("+o.Key+")", false)
	}
	in.Run(st, fn, []ai.Value{hv}, nil)
	c.check(n > 0, "sender:client", "no client connection's sender was seen")
	c.used(in)
}
