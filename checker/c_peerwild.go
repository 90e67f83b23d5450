package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// ---- arbitrary frames --------------------------------------------------------

// wildFrames makes frames of which nothing is known: for the handler one of
// every frame type with unconstrained fields, for the others any bytes.
func (h *peer) wildFrames(st *ai.State) []*pFrame {
	if h.kind == "host" || h.kind == "guest" {
		s := byteSlice(st, "w.bytes")
		atMost(st, s.Len, 1<<24-1)
		return []*pFrame{{name: "wild", bytes: s}}
	}
	fi := h.w.named(pFrames, "Frame").Underlying().(*types.Interface)
	var r []*pFrame
	sc := h.w.pkg(pFrames).Pkg.Scope()
	ns := sc.Names()
	sort.Strings(ns)
	for _, n := range ns {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if _, ok := tn.Type().Underlying().(*types.Struct); !ok || !types.Implements(pt, fi) {
			continue
		}
		p := st.Alloc(tn.Type(), st.Symbolic("w."+n, tn.Type()), "frame.wild."+n)
		r = append(r, &pFrame{name: "wild." + n, v: &ai.IfaceV{Dyn: pt, V: p}})
	}
	if len(r) < 5 {
		failf("unresolved anchor: the frame types")
	}
	return r
}

// anyTable answers the reading of an operation table, which C03 and C10 decide.
func (h *peer) anyTable(c *ai.CallCtx) ([]ai.Outcome, bool) {
	tt, ok := c.RetT.(*types.Tuple)
	if !ok || tt.Len() != 2 {
		return nil, false
	}
	s := c.St.Fork()
	return []ai.Outcome{
		{Kind: ai.Ret, St: c.St, Ret: &ai.TupleV{E: []ai.Value{c.St.Symbolic("w.table", tt.At(0).Type()), ai.NilV{}}}},
		{Kind: ai.Ret, St: s, Ret: &ai.TupleV{E: []ai.Value{s.Zero(tt.At(0).Type()), errVal(s, "err.table", tt.At(1).Type())}}},
	}, true
}

// wild hands over frames of which nothing is known and runs what they start.
// Only what can go wrong on the way is of interest.
func (h *peer) wild(st *ai.State) []ai.Outcome {
	h.clean(st)
	var r []ai.Outcome
	for _, f := range h.wildFrames(st) {
		s := st.Fork()
		s.Events = nil
		r = append(r, h.runAll(h.wildInput(s, f))...)
	}
	return r
}

func (h *peer) wildInput(st *ai.State, f *pFrame) []ai.Outcome {
	if h.kind != "guest" {
		return h.input(st, f)
	}
	// the guest's buffer has unknown contents: one frame and an incomplete rest
	buf, _ := h.in.GlobalValue(st, h.gbuf).(*ai.SliceV)
	if buf == nil {
		failf("guest: the buffer is unknown")
	}
	n := st.Symbolic("w.end", types.Typ[types.Uint32]).(*ai.Lin)
	av, _ := st.Load(buf.Ptr).(*ai.ArrV)
	if av == nil {
		failf("guest: the buffer is unknown")
	}
	l := ai.K(0)
	for k := int64(0); k < 3; k++ {
		l = ai.Add(l, ai.Scale(st.ArrRead(av, ai.AddK(buf.Off, k)).(*ai.Lin), bigP2(uint(8*(2-k)))))
	}
	atMost(st, ai.AddK(ai.Sub(n, l), -3), 0)
	return h.in.Run(st, h.d("GuestFrame"), []ai.Value{n}, nil)
}

// runAll runs the goroutines outcomes have started; only panics remain.
func (h *peer) runAll(os []ai.Outcome) []ai.Outcome {
	var r []ai.Outcome
	for _, o := range os {
		if o.Kind == ai.Panic {
			r = append(r, o)
			continue
		}
		if o.Kind != ai.Ret {
			continue
		}
		es := o.St.Events
		for i, e := range es {
			g, ok := e.Instr.(*ssa.Go)
			if e.Kind != "go" || !ok {
				continue
			}
			s := o.St.Fork()
			s.Events = nil
			_ = i
			r = append(r, h.runAll(runGo(h.in, s, goCall{fn: e.Recv, site: g, args: e.Args}))...)
		}
	}
	return r
}
