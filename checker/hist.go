package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// History exploration: the operations of an object are applied in every order
// from its constructed state until no new abstract state appears. An abstract
// state is the shape of the reachable heap with booleans and enumerations kept
// and counters forgotten, so the exploration terminates and covers histories of
// any length.

type goCall struct {
	fn   ai.Value
	site *ssa.Go
	args []ai.Value
}

type hnode struct {
	st   *ai.State
	mon  any
	pend []goCall
	hist string
	n    int
}

type hop struct {
	name string
	// ready says whether the operation makes sense in a state
	ready func(n *hnode) bool
	run   func(st *ai.State, n *hnode) []ai.Outcome
}

type explorer struct {
	c   *Ctx
	w   *World
	in  *ai.Interp
	tag string
	ops []hop
	// roots are the harness values the digest starts from
	roots []ai.Value
	// step updates the monitor with the events of one operation
	step func(n *hnode, mon any, op string, es []*ai.Event, st *ai.State) any
	// monKey renders a monitor
	monKey  func(m any) string
	boolKey func(k string) bool
	max     int
	maxPend int
	keepInt func(t types.Type) bool
	states  int
	trans   int
	seen    map[string]bool
	bounded bool
	onPanic func(n *hnode, op string, o ai.Outcome)
	noGo    bool
	// rootsF: more roots, read from the state
	rootsF func(st *ai.State) []ai.Value
	// maxFails: that many violations end the exploration, 0 for none
	maxFails int
	// forgetObj restricts whose counters are forgotten
	forgetObj func(t types.Type) bool
	// keep: counters are part of the state
	keep bool
}

func (x *explorer) explore(n0 *hnode) {
	x.seen = map[string]bool{}
	if x.max == 0 {
		x.max = 3000
	}
	if x.maxPend == 0 {
		x.maxPend = 2
	}
	fails0 := len(x.c.fails)
	q := []*hnode{n0}
	x.seen[x.digest(n0)] = true
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		x.states++
		if x.states > x.max || x.maxFails > 0 && len(x.c.fails)-fails0 >= x.maxFails {
			x.bounded = true
			break
		}
		for _, op := range x.allOps(n) {
			if op.ready != nil && !op.ready(n) {
				continue
			}
			st := n.st.Fork()
			st.Events = nil
			outs := op.run(st, n)
			if os.Getenv("VERIF_DEBUG") == "2" && len(outs) > 1 {
				fmt.Println("  outs", op.name, len(outs), n.hist, len(st.Bools()))
				for _, o := range outs {
					fmt.Println("    ", o.Kind, o.Why)
					for _, e := range o.St.Events {
						fmt.Println("       ", e.Kind, e.Name, x.w.at(e.Pos))
					}
				}
			}
			for _, o := range outs {
				x.trans++
				x.c.Paths++
				if o.Kind != ai.Ret {
					if o.Kind == ai.Panic && x.onPanic != nil {
						x.onPanic(n, op.name, o)
					}
					if o.Kind == ai.Cut {
						x.c.Notes = append(x.c.Notes, x.tag+": "+op.name+": "+o.Why)
					}
					if o.St == nil || o.Kind == ai.Cut {
						continue
					}
				}
				es := o.St.Events
				if widened(es) {
					// a loop was summarised: what it delivered is not known in order
					x.bounded = true
					x.c.count("summarised paths skipped", 1)
					continue
				}
				m := &hnode{st: o.St, pend: append([]goCall(nil), n.pend...), hist: n.hist + " " + op.name, n: n.n + 1}
				if strings.HasPrefix(op.name, "go") {
					var i int
					fmt.Sscanf(op.name, "go%d", &i)
					m.pend = append(m.pend[:i:i], m.pend[i+1:]...)
				}
				m.mon = x.step(n, n.mon, op.name, es, o.St)
				if o.Kind != ai.Ret {
					continue
				}
				if !x.noGo {
					for _, e := range es {
						if g, ok := e.Instr.(*ssa.Go); ok && e.Kind == "go" && len(m.pend) < x.maxPend {
							m.pend = append(m.pend, goCall{fn: e.Recv, site: g, args: e.Args})
						}
					}
				}
				o.St.Events, o.St.Forks = nil, 0
				if !x.keep {
					x.forget(o.St)
				}
				k := x.digest(m)
				if !x.seen[k] {
					x.seen[k] = true
					q = append(q, m)
				}
			}
		}
	}
}

func widened(es []*ai.Event) bool {
	for _, e := range es {
		if len(e.Sub) > 0 {
			return true
		}
	}
	return false
}

func (x *explorer) allOps(n *hnode) []hop {
	ops := x.ops
	for i := range n.pend {
		i := i
		g := n.pend[i]
		ops = append(ops[:len(ops):len(ops)], hop{name: fmt.Sprintf("go%d", i), run: func(st *ai.State, n *hnode) []ai.Outcome {
			return runGo(x.in, st, g)
		}})
	}
	return ops
}

func runGo(in *ai.Interp, st *ai.State, g goCall) []ai.Outcome {
	cm := g.site.Common()
	if cm.IsInvoke() {
		return runMethod(in, st, g.fn, cm.Method.Name(), g.args...)
	}
	if f := cm.StaticCallee(); f != nil {
		if fv, ok := g.fn.(*ai.FuncV); ok {
			return in.Run(st, fv.Fn, g.args, fv.Free)
		}
		return in.Run(st, f, g.args, nil)
	}
	if _, ok := g.fn.(*ai.FuncV); ok {
		return in.CallValue(st, g.fn, g.args)
	}
	return []ai.Outcome{{Kind: ai.Ret, St: st}}
}

// callMethod calls a method of an interface or pointer value.
func runMethod(in *ai.Interp, st *ai.State, recv ai.Value, name string, args ...ai.Value) []ai.Outcome {
	if i, ok := recv.(*ai.IfaceV); ok {
		ms := in.Prog.MethodSets.MethodSet(i.Dyn)
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == name {
				return in.Run(st, in.Prog.MethodValue(ms.At(k)), append([]ai.Value{i.V}, args...), nil)
			}
		}
	}
	return []ai.Outcome{{Kind: ai.Cut, St: st, Why: "no method " + name}}
}

// forget abstracts the counters of all objects.
func (x *explorer) forget(st *ai.State) {
	for _, id := range st.Objs() {
		h := st.Obj(id)
		if h == nil || h.T == nil || x.forgetObj != nil && !x.forgetObj(h.T) {
			continue
		}
		if v, ch := x.forgetV(st, h.V, h.T, fmt.Sprintf("n%d", id)); ch {
			st.Store(&ai.PtrV{Obj: id}, v)
		}
	}
}

func (x *explorer) forgetV(st *ai.State, v ai.Value, t types.Type, key string) (ai.Value, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, ok := t.(*types.Named); ok || u.Info()&types.IsInteger == 0 {
			return v, false
		}
		if x.keepInt != nil && x.keepInt(t) {
			return v, false
		}
		if l, ok := v.(*ai.Lin); ok && strings.HasPrefix(l.Key(), "any") {
			return v, false
		}
		return st.Symbolic(fmt.Sprintf("any%s.%d", key, x.trans), t), true
	case *types.Struct:
		s, ok := v.(*ai.StructV)
		if !ok || len(s.F) != u.NumFields() {
			return v, false
		}
		var r *ai.StructV
		for i := range s.F {
			if f, ch := x.forgetV(st, s.F[i], u.Field(i).Type(), fmt.Sprintf("%s.%d", key, i)); ch {
				if r == nil {
					r = &ai.StructV{F: append([]ai.Value(nil), s.F...)}
				}
				r.F[i] = f
			}
		}
		if r != nil {
			return r, true
		}
	}
	return v, false
}

// digest renders the state reachable from the roots with objects renumbered.
func (x *explorer) digest(n *hnode) string {
	d := &digester{st: n.st, num: map[int]int{}, any: map[string]int{}}
	for _, r := range x.roots {
		d.val(r, nil)
		d.sb.WriteByte(';')
	}
	if x.rootsF != nil {
		for _, r := range x.rootsF(n.st) {
			d.val(r, nil)
			d.sb.WriteByte(';')
		}
	}
	for _, g := range n.pend {
		d.val(g.fn, nil)
		for _, a := range g.args {
			if _, ok := a.(*ai.Lin); ok && !x.keep {
				d.sb.WriteByte('T')
				continue
			}
			d.val(a, nil)
		}
		d.sb.WriteByte('&')
	}
	for len(d.todo) > 0 {
		id := d.todo[0]
		d.todo = d.todo[1:]
		h := n.st.Obj(id)
		fmt.Fprintf(&d.sb, "|%d=", d.num[id])
		if h != nil {
			d.val(h.V, h.T)
		}
	}
	var bs []string
	for k, v := range n.st.Bools() {
		if x.boolKey != nil && x.boolKey(k) {
			bs = append(bs, fmt.Sprintf("%s=%v", k, v))
		}
	}
	sort.Strings(bs)
	locks := ""
	for _, l := range n.st.Locks {
		locks += l.Key
	}
	return d.sb.String() + "#" + strings.Join(bs, ",") + "#" + x.monKey(n.mon) + "#" + locks
}

type digester struct {
	st   *ai.State
	num  map[int]int
	todo []int
	sb   strings.Builder
	any  map[string]int
}

func (d *digester) obj(id int) {
	if _, ok := d.num[id]; !ok {
		d.num[id] = len(d.num)
		d.todo = append(d.todo, id)
	}
	fmt.Fprintf(&d.sb, "@%d", d.num[id])
}

func (d *digester) val(v ai.Value, t types.Type) {
	switch x := v.(type) {
	case nil:
		d.sb.WriteString("_")
	case *ai.PtrV:
		d.obj(x.Obj)
		for _, s := range x.Path {
			if s.Idx != nil {
				d.sb.WriteString("[]")
			} else {
				fmt.Fprintf(&d.sb, ".%d", s.Field)
			}
		}
	case *ai.SliceV:
		if x.Ptr == nil {
			d.sb.WriteString("nilslice")
			return
		}
		d.sb.WriteString("sl(")
		d.val(x.Ptr, nil)
		if n, ok := x.Len.Int64(); ok {
			fmt.Fprintf(&d.sb, ",%d", n)
		} else {
			d.sb.WriteString(",?")
		}
		d.sb.WriteString(")")
	case *ai.IfaceV:
		fmt.Fprintf(&d.sb, "i<%s>", x.Dyn)
		d.val(x.V, nil)
	case *ai.FuncV:
		d.sb.WriteString("f:" + x.Fn.String() + "(")
		for _, f := range x.Free {
			d.val(f, nil)
			d.sb.WriteByte(',')
		}
		d.sb.WriteString(")")
	case *ai.StructV:
		d.sb.WriteByte('{')
		for _, f := range x.F {
			d.val(f, nil)
			d.sb.WriteByte(',')
		}
		d.sb.WriteByte('}')
	case *ai.TupleV:
		d.sb.WriteByte('<')
		for _, f := range x.E {
			d.val(f, nil)
			d.sb.WriteByte(',')
		}
		d.sb.WriteByte('>')
	case *ai.ArrV:
		// contents of small arrays: latest write per constant index
		d.sb.WriteString("arr" + x.Base)
		if x.Base != "" && len(x.Ws) == 0 {
			return
		}
		seen := map[string]bool{}
		var parts []string
		cur := d.sb.String()
		d.sb.Reset()
		for i := len(x.Ws) - 1; i >= 0; i-- {
			w := x.Ws[i]
			if w.Val == nil {
				parts = append(parts, "blk")
				continue
			}
			k := w.Off.Key()
			if seen[k] {
				continue
			}
			seen[k] = true
			d.val(w.Val, nil)
			parts = append(parts, k+":"+d.sb.String())
			d.sb.Reset()
		}
		sort.Strings(parts)
		d.sb.WriteString(cur + "[" + strings.Join(parts, ";") + "]")
	case *ai.Lin:
		if n, ok := x.Int64(); ok {
			fmt.Fprintf(&d.sb, "%d", n)
			return
		}
		d.sb.WriteString("T")
	case *ai.BoolV:
		d.sb.WriteString(x.VKey())
	case *ai.OpaqueV:
		d.sb.WriteString("$" + x.Key)
	default:
		d.sb.WriteString(v.VKey())
	}
}
