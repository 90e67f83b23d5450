package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	register(check{id: "C11", title: "Registration, exported table and dispatch agree on every index",
		rule:  "abstract interpretation of every history of registrations up to the depth, from the initialised package, with unconstrained names: each registration's index is the next of its kind (or the earlier one's, exactly when both names are the same), the handler lookup of each kind gives exactly the handler registered under the index and nothing beyond, and the table lists exactly the registrations with their kind, direction, names and index",
		floor: 1000, run: checkOps})
}

const (
	pInvoke = "invoke"
	pOpers  = "operations"
)

var opKinds = []string{"RequestResponse", "FireAndForget", "RequestStream", "RequestChannel"}

type opReg struct {
	kind   int
	imp    bool
	ns, op *ai.StrV
	h      *ai.OpaqueV
	idx    int
}

type opHist struct {
	st    *ai.State
	regs  []opReg
	asked bool // the table and the handlers were asked for
}

func (h opHist) of(kind int, imp bool) (r []opReg) {
	for _, x := range h.regs {
		if x.kind == kind && x.imp == imp {
			r = append(r, x)
		}
	}
	return
}

// same: +1 the two names are the same text, -1 they differ, 0 unknown.
func sameStr(q *ai.State, a, b ai.Value) int {
	as, ok := a.(*ai.StrV)
	if !ok {
		return 0
	}
	return nameEq(q, b, q.Content(a), as.Len)
}

func checkOps(c *Ctx) {
	w := load(pInvoke, "handler")
	in := w.interp()
	in.FromInit = map[string]bool{mod + "/" + pInvoke: true}
	in.UnrollFork = 1000000
	in.MaxSteps = 1 << 40
	str := types.Typ[types.String]
	kindVal := map[int]int64{}
	for i, k := range opKinds {
		kindVal[i] = w.konst(pOpers, k)
	}
	dirExp, dirImp := w.konst(pOpers, "Export"), w.konst(pOpers, "Import")
	opT := w.named(pOpers, "Operation")
	n := 0
	register := func(h opHist, kind int, imp bool) []opHist {
		st := h.st.Fork()
		n++
		ns := st.Symbolic(fmt.Sprintf("ns%d", len(h.regs)), str).(*ai.StrV)
		op := st.Symbolic(fmt.Sprintf("op%d", len(h.regs)), str).(*ai.StrV)
		name := "Export" + opKinds[kind]
		if imp {
			name = "Import" + opKinds[kind]
		}
		fn := w.fn(pInvoke, name)
		reg := opReg{kind: kind, imp: imp, ns: ns, op: op}
		args := []ai.Value{ns, op}
		if !imp {
			reg.h = opq(fmt.Sprintf("h%d", len(h.regs)), fn.Signature.Params().At(2).Type())
			st.SetBool("isnil("+reg.h.Key+")", false)
			args = append(args, reg.h)
		}
		var res []opHist
		for _, o := range in.Run(st, fn, args, nil) {
			c.Paths++
			if !c.check(o.Kind == ai.Ret, name+":returns", "%s: %s", name, o.Why) {
				continue
			}
			r := reg
			prev := h.of(kind, imp)
			r.idx = 0
			for _, p := range prev {
				if p.idx >= r.idx {
					r.idx = p.idx + 1
				}
			}
			if imp {
				l, _ := o.Ret.(*ai.Lin)
				got, isK := int64(-1), false
				if l != nil {
					got, isK = o.St.Norm(l).Int64()
				}
				if !c.check(isK, name+":index", "%s: the index is not decided", name) {
					continue
				}
				old, dup := -1, 0
				for _, p := range prev {
					a, b := sameStr(o.St, p.ns, ns), sameStr(o.St, p.op, op)
					s := min(a, b)
					if a < 0 || b < 0 {
						s = -1
					}
					if s > 0 {
						old, dup = p.idx, 1
						break
					}
					if s == 0 {
						dup = 0
						old = -2
					}
				}
				switch {
				case dup > 0:
					c.check(got == int64(old), name+":again", "%s: an operation imported before gets index %d where it had %d", name, got, old)
					res = append(res, opHist{o.St, h.regs, h.asked})
					continue
				case old == -2:
					c.fail(name+":compare", "%s: index %d is given without comparing namespace and operation with those imported before", name, got)
				default:
					c.check(got == int64(r.idx), name+":next", "%s: a new import gets index %d where %d is next", name, got, r.idx)
				}
				r.idx = int(got)
			}
			res = append(res, opHist{o.St, append(append([]opReg(nil), h.regs...), r), h.asked})
		}
		return res
	}
	table := func(h opHist) {
		st := h.st.Fork()
		st.Events = nil
		fn := w.fn(pInvoke, "GetOperationsTable")
		for _, o := range in.Run(st, fn, nil, nil) {
			c.Paths++
			if !c.check(o.Kind == ai.Ret, "table:returns", "GetOperationsTable: %s", o.Why) {
				continue
			}
			q := o.St
			s, ok := o.Ret.(*ai.SliceV)
			num, isK := int64(0), false
			if ok {
				num, isK = q.Norm(s.Len).Int64()
			}
			if !c.check(ok && isK, "table:length", "the table's length is not decided") {
				continue
			}
			if !c.check(num == int64(len(h.regs)), "table:count", "the table has %d entries for %d registrations", num, len(h.regs)) || num == 0 {
				continue
			}
			arr, ok := q.Load(s.Ptr).(*ai.ArrV)
			if !c.check(ok, "table:entries", "the table's entries are unknown") {
				continue
			}
			used := map[int]bool{}
			for i := int64(0); i < num; i++ {
				e, ok := q.ArrRead(arr, ai.AddK(s.Off, i)).(*ai.StructV)
				if !c.check(ok, "table:entry", "entry %d is unknown", i) {
					continue
				}
				geti := func(f string) int64 {
					if l, ok := e.F[fieldIdx(opT, f)].(*ai.Lin); ok {
						if k, ok := q.Norm(l).Int64(); ok {
							return k
						}
					}
					return -1
				}
				hit := -1
				for j, r := range h.regs {
					d := dirExp
					if r.imp {
						d = dirImp
					}
					if !used[j] && geti("Index") == int64(r.idx) && geti("Type") == kindVal[r.kind] && geti("Direction") == d {
						hit = j
					}
				}
				if !c.check(hit >= 0, "table:matches", "entry %d (kind %d, direction %d, index %d) is no registration", i, geti("Type"), geti("Direction"), geti("Index")) {
					continue
				}
				used[hit] = true
				r := h.regs[hit]
				c.check(sameStr(q, e.F[fieldIdx(opT, "Namespace")], r.ns) > 0, "table:namespace", "an entry carries another namespace than was registered under its index")
				c.check(sameStr(q, e.F[fieldIdx(opT, "Operation")], r.op) > 0, "table:operation", "an entry carries another operation name than was registered under its index")
			}
		}
	}
	lookup := func(h opHist, kind int) {
		name := "Get" + opKinds[kind] + "Handler"
		fn := w.fn(pInvoke, name)
		ex := h.of(kind, false)
		for i := 0; i <= len(ex); i++ {
			st := h.st.Fork()
			st.Events = nil
			var id *ai.Lin
			if i < len(ex) {
				id = ai.K(int64(i))
			} else {
				id = ai.IntAtom("id", types.Typ[types.Uint32])
				st.AddFact(ai.AddK(id, -int64(i)))
			}
			for _, o := range in.Run(st, fn, []ai.Value{id}, nil) {
				c.Paths++
				if !c.check(o.Kind == ai.Ret, name+":returns", "%s: %s", name, o.Why) {
					continue
				}
				if i == len(ex) {
					c.check(isNilV(o.St, o.Ret) > 0, name+":beyond", "%s: an index nothing is registered under gives a handler", name)
					continue
				}
				g, ok := o.Ret.(*ai.OpaqueV)
				c.check(ok && g.Key == ex[i].h.Key, name+":handler", "%s: index %d does not give the handler registered under it", name, i)
			}
		}
	}
	all := func(h opHist) {
		table(h)
		for k := range opKinds {
			lookup(h, k)
		}
	}
	// ask asks for everything and goes on with what that leaves behind
	ask := func(h opHist) (r []opHist) {
		sts := []*ai.State{h.st}
		run := func(fn *ssa.Function, args ...ai.Value) {
			var next []*ai.State
			for _, s := range sts {
				q := s.Fork()
				q.Events = nil
				for _, o := range in.Run(q, fn, args, nil) {
					if o.Kind == ai.Ret {
						next = append(next, o.St)
					}
				}
			}
			sts = next
		}
		run(w.fn(pInvoke, "GetOperationsTable"))
		for k := range opKinds {
			run(w.fn(pInvoke, "Get"+opKinds[k]+"Handler"), ai.K(0))
		}
		for _, s := range sts {
			r = append(r, opHist{s, h.regs, true})
		}
		return r
	}
	depth := 3
	if c.Tier == "thorough" {
		depth = 4
	}
	cur := []opHist{{st: ai.NewState()}}
	hists := 0
	for d := 0; d <= depth; d++ {
		var next []opHist
		for _, h := range cur {
			hists++
			all(h)
			if d == depth {
				continue
			}
			hs := []opHist{h}
			if !h.asked {
				hs = append(hs, ask(h)...)
			}
			for _, h := range hs {
				for k := range opKinds {
					next = append(next, register(h, k, false)...)
					next = append(next, register(h, k, true)...)
				}
			}
		}
		cur = next
	}
	// long chains of one kind: growth of the lists, and three imports
	for k := range opKinds {
		h := opHist{st: ai.NewState()}
		for i := 0; i < 24; i++ {
			if i == 12 {
				if r := ask(h); len(r) > 0 {
					h = r[0]
				}
			}
			r := register(h, k, false)
			if len(r) != 1 {
				break
			}
			h = r[0]
		}
		hists++
		all(h)
		hs := []opHist{{st: ai.NewState()}}
		for i := 0; i < 3; i++ {
			var next []opHist
			for _, x := range hs {
				next = append(next, register(x, k, true)...)
			}
			hs = next
		}
		for _, x := range hs {
			hists++
			table(x)
		}
	}
	c.count("histories", hists)
	c.oblSet(w, in, "ops", "index slice panic nil makeslice")
	importsOfPeer(c, w)
}

// importsOfPeer: the connected peer's import lookups give the index of an
// export of their kind with the names asked for.
func importsOfPeer(c *Ctx, w *World) {
	ht := w.named("handler", "Handler")
	tt := w.named(pOpers, "Table")
	opT := w.named(pOpers, "Operation")
	fi := -1
	s := ht.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), tt) {
			fi = i
		}
	}
	if fi < 0 {
		failf("unresolved anchor: the operation table of handler.Handler")
	}
	for k, kind := range opKinds {
		in := w.interp()
		in.UnrollFork = 4000
		st := ai.NewState()
		hv := st.Zero(ht).(*ai.StructV)
		arr := &ai.ArrV{Elem: opT, N: ai.K(2)}
		var es []*ai.StructV
		for i := int64(0); i < 2; i++ {
			e := symStruct(st, fmt.Sprintf("e%d", i), opT)
			es = append(es, e)
			arr = st.ArrWrite(arr, ai.K(i), e)
		}
		hv.F[fi] = &ai.SliceV{Ptr: st.Alloc(nil, arr, "table"), Off: ai.K(0), Len: ai.K(2), Cap: ai.K(2), Elem: opT}
		h := st.Alloc(ht, hv, "handler")
		ns, op := st.Symbolic("ns", types.Typ[types.String]), st.Symbolic("op", types.Typ[types.String])
		fn := w.method("handler", "Handler", "Import"+kind)
		hits := 0
		// alone, and after other look-ups
		starts := []*ai.State{st}
		for _, other := range []string{kind, opKinds[(k+1)%len(opKinds)]} {
			s := st.Fork()
			ns2, op2 := s.Symbolic("ns2", types.Typ[types.String]), s.Symbolic("op2", types.Typ[types.String])
			for _, o := range in.Run(s, w.method("handler", "Handler", "Import"+other), []ai.Value{h, ns2, op2}, nil) {
				if o.Kind == ai.Ret {
					o.St.Events = nil
					starts = append(starts, o.St)
				}
			}
		}
		var os []ai.Outcome
		for _, s := range starts {
			os = append(os, in.Run(s, fn, []ai.Value{h, ns, op}, nil)...)
		}
		for _, o := range os {
			c.Paths++
			name := "Handler.Import" + kind
			if !c.check(o.Kind == ai.Ret, name+":returns", "%s: %s", name, o.Why) {
				continue
			}
			q := o.St
			l, _ := o.Ret.(*ai.Lin)
			// which entries match on this path
			match, any := make([]int, 2), 0
			for i, e := range es {
				m := 1
				for _, t := range []int{
					q.Eval(ai.BEQ(ai.AddK(e.F[fieldIdx(opT, "Direction")].(*ai.Lin), -w.konst(pOpers, "Export")))),
					q.Eval(ai.BEQ(ai.AddK(e.F[fieldIdx(opT, "Type")].(*ai.Lin), -w.konst(pOpers, opKinds[k])))),
					sameStr(q, e.F[fieldIdx(opT, "Namespace")], ns),
					sameStr(q, e.F[fieldIdx(opT, "Operation")], op)} {
					if t < 0 {
						m = -1
						break
					}
					m = min(m, t)
				}
				match[i] = m
				any = max(any, m)
			}
			if any > 0 {
				good := false
				for i, e := range es {
					if match[i] > 0 && l != nil && q.ProveEQ(q.Norm(ai.Sub(l, e.F[fieldIdx(opT, "Index")].(*ai.Lin)))) {
						good = true
					}
				}
				hits++
				c.check(good, name+":index", "%s: the result is not the index of the matching export", name)
				continue
			}
			for i, e := range es {
				if l != nil && match[i] < 1 && l.Key() == e.F[fieldIdx(opT, "Index")].(*ai.Lin).Key() {
					c.fail(name+":match", "%s: the result is the index of an entry that need not be an export of the kind with these names", name)
				}
			}
			c.check(match[0] < 0 && match[1] < 0, name+":decided", "%s: a matching export may be overlooked", name)
		}
		c.check(hits > 0, "Handler.Import"+kind+":finds", "no path finds an export")
		c.oblSet(w, in, "peer", "index slice panic nil makeslice")
	}
}
