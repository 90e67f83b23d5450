package ai

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ChanObj is a channel whose content is fully known (Interp.ChanModel).
type ChanObj struct {
	Cap    int64
	Buf    []Value
	Closed bool
}

func (c *ChanObj) VKey() string {
	s := fmt.Sprintf("chan%d/%v[", c.Cap, c.Closed)
	for _, v := range c.Buf {
		s += v.VKey() + ";"
	}
	return s + "]"
}

// Chan returns the modelled channel behind v.
func (st *State) Chan(v Value) (*ChanObj, *PtrV) {
	p, ok := v.(*PtrV)
	if !ok || len(p.Path) > 0 {
		return nil, nil
	}
	c, _ := st.Load(p).(*ChanObj)
	return c, p
}

// ChanSend, ChanRecv and ChanClose step a modelled channel; ok is false when
// the operation would block, panics when it would panic.
func (st *State) ChanSend(p *PtrV, c *ChanObj, v Value) (ok, panics bool) {
	if c.Closed {
		return false, true
	}
	if int64(len(c.Buf)) >= c.Cap {
		return false, false
	}
	st.Store(p, &ChanObj{Cap: c.Cap, Buf: append(c.Buf[:len(c.Buf):len(c.Buf)], v)})
	return true, false
}

func (st *State) ChanRecv(p *PtrV, c *ChanObj, zero Value) (v Value, open, ok bool) {
	if len(c.Buf) > 0 {
		v = c.Buf[0]
		st.Store(p, &ChanObj{Cap: c.Cap, Buf: c.Buf[1:], Closed: c.Closed})
		return v, true, true
	}
	if c.Closed {
		return zero, false, true
	}
	return nil, false, false
}

func (st *State) ChanClose(p *PtrV, c *ChanObj) (panics bool) {
	if c.Closed {
		return true
	}
	st.Store(p, &ChanObj{Cap: c.Cap, Buf: c.Buf, Closed: true})
	return false
}

func (in *Interp) selectKnown(st *State, fr *frame, x *ssa.Select) ([]Outcome, bool) {
	tt := x.Type().(*types.Tuple)
	type arm struct {
		c *ChanObj
		p *PtrV
	}
	var arms []arm
	for _, s := range x.States {
		c, p := st.Chan(in.val(st, fr, s.Chan))
		if c == nil {
			return nil, false
		}
		arms = append(arms, arm{c, p})
	}
	tuple := func(s *State, idx int, open bool, recv Value) *TupleV {
		t := &TupleV{E: []Value{K(int64(idx)), BConst(open)}}
		k := 2
		for i, sx := range x.States {
			if sx.Dir == types.RecvOnly {
				if i == idx {
					t.E = append(t.E, recv)
				} else {
					t.E = append(t.E, s.Zero(tt.At(k).Type()))
				}
				k++
			}
		}
		return t
	}
	var res []Outcome
	for i, a := range arms {
		s := st.Fork()
		x0 := x.States[i]
		ev := &Event{Kind: "select", Pos: x.Pos(), Instr: x, Recv: a.p}
		if x0.Dir == types.SendOnly {
			v := in.val(s, fr, x0.Send)
			ok, panics := s.ChanSend(a.p, a.c, v)
			if panics {
				in.obl(s, fr, "chan", x.Pos(), false, "send on a closed channel")
				res = append(res, Outcome{Kind: Panic, St: s, Why: "send on closed channel"})
				continue
			}
			if !ok {
				continue
			}
			ev.Name, ev.Args = "send", []Value{v}
			in.event(s, fr, ev)
			res = append(res, Outcome{Kind: Ret, St: s, Ret: tuple(s, i, false, nil)})
			continue
		}
		et := x0.Chan.Type().Underlying().(*types.Chan).Elem()
		v, open, ok := s.ChanRecv(a.p, a.c, s.Zero(et))
		if !ok {
			continue
		}
		ev.Name, ev.Ret = "recv", v
		in.event(s, fr, ev)
		res = append(res, Outcome{Kind: Ret, St: s, Ret: tuple(s, i, open, v)})
	}
	if len(res) == 0 || in.Far && !x.Blocking && roomy(x.States, func(i int) *ChanObj { return arms[i].c }) {
		if x.Blocking {
			in.obl(st, fr, "block", x.Pos(), false, "select blocks for ever")
			return nil, true
		}
		s := st.Fork()
		in.event(s, fr, &Event{Kind: "select", Name: "default", Pos: x.Pos(), Instr: x})
		return append(res, Outcome{Kind: Ret, St: s, Ret: tuple(s, -1, false, nil)}), true
	}
	return res, true
}

// roomy: a send on a channel with room for several is all that is ready.
func roomy(arms []*ssa.SelectState, ch func(i int) *ChanObj) bool {
	n := 0
	for i, a := range arms {
		c := ch(i)
		if a.Dir == types.SendOnly {
			if c.Cap < 2 || c.Closed {
				return false
			}
			n++
		} else if c.Closed || len(c.Buf) > 0 {
			return false
		}
	}
	return n > 0
}

// recovers reports whether a panic below fr is recovered by a deferred call.
func (in *Interp) recovers(fr *frame) bool {
	for f := fr; f != nil; f = f.caller {
		for _, d := range f.defers {
			fn := d.call.Common().StaticCallee()
			if fv, ok := d.fn.(*FuncV); ok {
				fn = fv.Fn
			}
			if fn != nil && callsRecover(fn) {
				return true
			}
		}
	}
	return false
}

func callsRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// unwind runs the deferred calls of a panicking frame.
func (in *Interp) unwind(fn *ssa.Function, o Outcome) []Outcome {
	fr := o.fr
	ds := fr.defers
	fr.defers = nil
	o.St.Panicking = true
	var res []Outcome
	for _, r := range in.runDefers(o.St, fr, ds) {
		if r.St.Panicking || r.Kind == Panic {
			res = append(res, Outcome{Kind: Panic, St: r.St, Why: o.Why})
			continue
		}
		if r.Kind != Ret {
			res = append(res, r)
			continue
		}
		if fn.Recover != nil {
			res = append(res, in.exec(r.St, fr.clone(), fn.Recover, 0, nil)...)
			continue
		}
		var v Value
		if rs := fn.Signature.Results(); rs.Len() == 1 {
			v = r.St.Zero(rs.At(0).Type())
		} else if rs.Len() > 1 {
			t := &TupleV{}
			for i := 0; i < rs.Len(); i++ {
				t.E = append(t.E, r.St.Zero(rs.At(i).Type()))
			}
			v = t
		}
		res = append(res, Outcome{Kind: Ret, St: r.St, Ret: v})
	}
	return res
}

func (in *Interp) makeChan(st *State, fr *frame, x *ssa.MakeChan) Value {
	sz := in.val(st, fr, x.Size)
	if in.ChanModel {
		if l, ok := sz.(*Lin); ok {
			if n, ok := l.Int64(); ok {
				p := st.Alloc(x.Type(), &ChanObj{Cap: n}, "chan")
				in.event(st, fr, &Event{Kind: "makechan", Ret: p, Args: []Value{sz}, Pos: x.Pos(), Instr: x})
				return p
			}
		}
	}
	n := st.nextSeq()
	o := &OpaqueV{Key: fmt.Sprintf("chan#%d", n), T: x.Type()}
	st.SetBool("isnil("+o.Key+")", false)
	in.event(st, fr, &Event{Kind: "makechan", Ret: o, Args: []Value{sz}, Pos: x.Pos(), Instr: x})
	return o
}

func (in *Interp) chanRecv(st *State, fr *frame, ch Value, t types.Type, commaOk bool, pos token.Pos, ins ssa.Instruction) Value {
	if c, p := st.Chan(ch); c != nil {
		et := t
		if tt, ok := t.(*types.Tuple); ok {
			et = tt.At(0).Type()
		}
		v, open, ok := st.ChanRecv(p, c, st.Zero(et))
		if !ok {
			in.obl(st, fr, "block", pos, false, "receive blocks for ever")
			st.dead = true
			return NilV{}
		}
		in.event(st, fr, &Event{Kind: "recv", Recv: ch, Ret: v, Pos: pos, Instr: ins})
		if commaOk {
			return &TupleV{E: []Value{v, BConst(open)}}
		}
		return v
	}
	r := st.Symbolic(fmt.Sprintf("recv#%d", st.nextSeq()), t)
	in.event(st, fr, &Event{Kind: "recv", Recv: ch, Ret: r, Pos: pos, Instr: ins})
	return r
}
