package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Budget bounds the time all analyses of a process may take together.
var Budget = 400 * time.Second
var started = time.Now()

type OutKind int

const (
	Ret OutKind = iota
	Panic
	Cut
	exitEdge
	backEdge
)

// Outcome is one abstract path result.
type Outcome struct {
	Kind     OutKind
	St       *State
	Ret      Value // TupleV for multiple results, nil for none
	Why      string
	fr       *frame
	from, to *ssa.BasicBlock
}

// Obl is a safety obligation met on some path.
type Obl struct {
	Kind string
	Pos  token.Pos
	Fn   *ssa.Function // innermost function
	Root *ssa.Function // innermost function inside the module
	RPos token.Pos     // position in Root
	OK   bool
	Why  string
}

type CallCtx struct {
	In    *Interp
	St    *State
	Fn    *ssa.Function
	Name  string
	Args  []Value
	Instr ssa.CallInstruction
	Fr    *frame
	Free  []Value
	RetT  types.Type
}

type Hook func(c *CallCtx) ([]Outcome, bool)

type Interp struct {
	Prog      *ssa.Program
	Module    string
	InlineF   func(fn *ssa.Function) (inline, decided bool)
	Hooks     map[string]Hook
	OpaqueCB  func(c *CallCtx, method *types.Func) ([]Outcome, bool)
	OnAccess  func(st *State, fn *ssa.Function, p *PtrV, write bool, pos token.Pos, instr ssa.Instruction)
	Obls      []*Obl
	MaxDepth  int
	MaxSteps  int
	Steps     int
	Cuts      []string
	Fset      *token.FileSet
	stack     []*frame
	loopsC    map[*ssa.Function]map[*ssa.BasicBlock]*loop
	initHeap  map[string]*State
	Funcs     map[*ssa.Function]bool
	NoEvents  bool
	Globals   map[*ssa.Global]bool // written outside init
	MaxUnroll int
	RetEvents bool // record the results of inlined calls
	// UnrollExits unrolls loops with a decided guard even when iterations may
	// leave the loop early.
	UnrollExits bool
	// UnrollFork: like UnrollExits, following every way an iteration continues,
	// for at most this many iterations in all.
	UnrollFork int
	// FromInit: packages whose variables start with their initialised value, even
	// those that change later (the analysis starts when the program does).
	FromInit  map[string]bool
	InitAlso  map[string]bool // other packages whose initialised variables are taken as constant
	UnrollAny bool            // with UnrollFork: also when the guard is undecided
	ChanModel bool            // track the content of channels made with constant capacity
	RecLimit  int
	SyncGo    bool // goroutines run to completion where they are started
	// OnBlock is asked for the states other goroutines can lead to when a
	// receive or select on known channels would block.
	OnBlock      func(st *State) []*State
	NoConcurrent bool
	// Far follows tests of growing quantities against large constants both
	// ways; a send on a modelled channel with room for several that need not
	// wait may find it full.
	Far  bool
	farC map[*ssa.BinOp]bool
}

func New(prog *ssa.Program, module string) *Interp {
	return &Interp{Prog: prog, Module: module, Hooks: map[string]Hook{}, MaxDepth: 40, MaxSteps: 4000000,
		Fset: prog.Fset, loopsC: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, initHeap: map[string]*State{},
		Funcs: map[*ssa.Function]bool{}, MaxUnroll: 400, RecLimit: 2}
}

type deferred struct {
	call ssa.CallInstruction
	fn   Value
	args []Value
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	caller *frame
	call   ssa.Instruction
	depth  int
}

func (f *frame) clone() *frame {
	c := *f
	c.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		c.env[k] = v
	}
	c.defers = append([]deferred(nil), f.defers...)
	return &c
}

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type region struct{ lp *loop }

func (in *Interp) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := in.loopsC[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := m[s]
				if lp == nil {
					lp = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = lp
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	in.loopsC[fn] = m
	return m
}

// PkgPath returns the defining package path of fn.
func PkgPath(fn *ssa.Function) string {
	for fn != nil {
		if fn.Origin() != nil {
			fn = fn.Origin()
		}
		if fn.Pkg != nil {
			return fn.Pkg.Pkg.Path()
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
		if fn.Parent() == nil {
			break
		}
		fn = fn.Parent()
	}
	if fn != nil && fn.Signature.Recv() != nil {
		if n, ok := deref(fn.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Name is the origin-qualified function name.
func Name(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

var stdInline = map[string]bool{"encoding/binary": true, "math/bits": true, "math": false}

func (in *Interp) inlines(fn *ssa.Function) bool {
	if in.InlineF != nil {
		if b, ok := in.InlineF(fn); ok {
			return b
		}
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	p := PkgPath(fn)
	if strings.HasPrefix(p, in.Module) {
		return true
	}
	if fn.Synthetic != "" && p == "" {
		return true
	}
	return stdInline[p]
}

func (in *Interp) inModule(fn *ssa.Function) bool { return strings.HasPrefix(PkgPath(fn), in.Module) }

func (in *Interp) obl(st *State, fr *frame, kind string, pos token.Pos, ok bool, why string) {
	if !ok && crashKind[kind] && in.recovers(fr) {
		ok = true // the panic is recovered
	}
	o := &Obl{Kind: kind, Pos: pos, Fn: fr.fn, OK: ok, Why: why}
	f, p := fr, pos
	for f != nil && !in.inModule(f.fn) && f.caller != nil {
		if f.call != nil {
			p = f.call.Pos()
		}
		f = f.caller
	}
	if f != nil {
		o.Root, o.RPos = f.fn, p
	} else {
		o.Root, o.RPos = fr.fn, pos
	}
	if !ok {
		if fs := st.Facts(); len(fs) > 0 {
			sort.Strings(fs)
			if len(fs) > 12 {
				fs = fs[:12]
			}
			o.Why += " | path: " + strings.Join(fs, ", ")
		}
	}
	in.Obls = append(in.Obls, o)
}

var crashKind = map[string]bool{"panic": true, "nil": true, "index": true, "slice": true, "makeslice": true, "assert": true, "chan": true, "nilmap": true, "mapkey": true}

// need records an obligation that cond holds and then assumes it.
func (in *Interp) need(st *State, fr *frame, kind string, pos token.Pos, cond *BoolV, why string) bool {
	e := st.Eval(cond)
	in.obl(st, fr, kind, pos, e > 0, why)
	if e < 0 {
		st.dead = true
		return false
	}
	if e == 0 {
		return st.Assume(cond, true)
	}
	return true
}

// Run interprets fn on args from st.
func (in *Interp) Run(st *State, fn *ssa.Function, args []Value, free []Value) []Outcome {
	return in.call(st, nil, nil, fn, args, free)
}

// CallValue invokes a function value.
func (in *Interp) CallValue(st *State, f Value, args []Value) []Outcome {
	switch x := f.(type) {
	case *FuncV:
		return in.call(st, nil, nil, x.Fn, args, x.Free)
	}
	return []Outcome{{Kind: Cut, St: st, Why: "call of non-function value"}}
}

func (in *Interp) call(st *State, caller *frame, site ssa.Instruction, fn *ssa.Function, args []Value, free []Value) []Outcome {
	fr := &frame{fn: fn, env: map[ssa.Value]Value{}, caller: caller, call: site}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	in.Funcs[fn] = true
	if fr.depth > in.MaxDepth {
		in.Cuts = append(in.Cuts, "depth limit at "+fn.String())
		return []Outcome{{Kind: Cut, St: st, Why: "depth"}}
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		}
	}
	if len(fn.Blocks) == 0 {
		return []Outcome{{Kind: Cut, St: st, Why: "no body " + fn.String()}}
	}
	os := in.enter(st, fr, nil, fn.Blocks[0], nil)
	for i, o := range os {
		if o.Kind == Panic && o.fr != nil && len(o.fr.defers) > 0 {
			res := append([]Outcome(nil), os[:i]...)
			for _, o := range os[i:] {
				if o.Kind == Panic && o.fr != nil && len(o.fr.defers) > 0 {
					res = append(res, in.unwind(fn, o)...)
				} else {
					res = append(res, o)
				}
			}
			return res
		}
	}
	return os
}

// enter transfers control along an edge.
func (in *Interp) enter(st *State, fr *frame, from, to *ssa.BasicBlock, rg *region) []Outcome {
	if rg != nil {
		if to == rg.lp.head {
			return []Outcome{{Kind: backEdge, St: st, fr: fr, from: from, to: to}}
		}
		if !rg.lp.body[to] {
			return []Outcome{{Kind: exitEdge, St: st, fr: fr, from: from, to: to}}
		}
	}
	if lp := in.loops(fr.fn)[to]; lp != nil {
		return in.loop(st, fr, from, lp, rg)
	}
	in.phis(st, fr, from, to)
	return in.exec(st, fr, to, 0, rg)
}

func (in *Interp) phis(st *State, fr *frame, from, to *ssa.BasicBlock) {
	if from == nil {
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vals = append(vals, in.val(st, fr, ph.Edges[pi]))
	}
	for i, ph := range ps {
		fr.env[ph] = vals[i]
	}
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, ins := range b.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			r = append(r, ph)
		} else {
			break
		}
	}
	return r
}

type inv struct {
	phi  *ssa.Phi
	kind string // ge, le, below, suffix, lenle, objsame
	init Value
	bad  bool
}

// guards gives the blocks that decide whether the loop goes round again: its
// head when it tests without calling anything, otherwise where it goes round.
func guards(lp *loop) map[*ssa.BasicBlock]bool {
	leaves := func(b *ssa.BasicBlock) bool {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
			return false
		}
		for _, s := range b.Succs {
			if !lp.body[s] {
				return true
			}
		}
		return false
	}
	head := leaves(lp.head)
	calls := false
	for _, i := range lp.head.Instrs {
		if c, ok := i.(*ssa.Call); ok {
			if _, b := c.Call.Value.(*ssa.Builtin); !b {
				calls = true
			}
		}
	}
	if head && !calls {
		return map[*ssa.BasicBlock]bool{lp.head: true}
	}
	r := map[*ssa.BasicBlock]bool{}
	for _, p := range lp.head.Preds {
		if lp.body[p] {
			if !leaves(p) {
				r = nil
				break
			}
			r[p] = true
		}
	}
	if len(r) == 0 && head {
		return map[*ssa.BasicBlock]bool{lp.head: true}
	}
	return r
}

// rangeLimits are the bounds of the indexes of range loops: the index of the
// last round is below the length that was taken before the loop.
func (in *Interp) rangeLimits(st *State, fr *frame, lp *loop) (r []*inv) {
	for _, i := range lp.head.Instrs {
		c, ok := i.(*ssa.BinOp)
		if !ok || c.Op != token.LSS {
			continue
		}
		n, ok := c.X.(*ssa.BinOp)
		if !ok || n.Op != token.ADD {
			continue
		}
		p, ok := n.X.(*ssa.Phi)
		if !ok || p.Block() != lp.head {
			continue
		}
		if d, ok := c.Y.(ssa.Instruction); ok && lp.body[d.Block()] {
			continue
		}
		lim, ok1 := in.val(st, fr, c.Y).(*Lin)
		x, ok2 := fr.env[p].(*Lin)
		if ok1 && ok2 && st.ProveGE(AddK(Sub(lim, x), -1)) {
			r = append(r, &inv{phi: p, kind: "below", init: lim})
		}
	}
	return r
}

func (in *Interp) loop(st *State, fr *frame, from *ssa.BasicBlock, lp *loop, rg *region) []Outcome {
	in.phis(st, fr, from, lp.head)
	var results []Outcome
	live := func(os []Outcome) (l []Outcome, rest []Outcome) {
		for _, o := range os {
			if o.Kind == exitEdge || o.Kind == backEdge {
				l = append(l, o)
			} else {
				rest = append(rest, o)
			}
		}
		return
	}
	cont := func(o Outcome) {
		results = append(results, in.enter(o.St, o.fr, o.from, o.to, rg)...)
	}
	gs := guards(lp)
	maxFork := in.UnrollFork
	if maxFork == 0 && len(gs) > 0 {
		maxFork = 200
	}
	if maxFork > 0 {
		// 0. unroll every way on while the loop guard is decided
		type item struct {
			st *State
			fr *frame
		}
		save, saveCuts, saveSteps := len(in.Obls), len(in.Cuts), 0
		work := []item{{st.Fork(), fr.clone()}}
		var res []Outcome
		ok := true
		for len(work) > 0 && ok {
			it := work[0]
			work = work[1:]
			if saveSteps++; saveSteps > maxFork {
				ok = false
				break
			}
			l, rest := live(in.exec(it.st, it.fr, lp.head, 0, &region{lp}))
			back, guard := false, false
			for _, o := range l {
				if o.Kind == backEdge {
					back = true
				} else if gs[o.from] {
					guard = true
				}
			}
			if back && guard && !in.UnrollAny {
				ok = false
				break
			}
			res = append(res, rest...)
			for _, o := range l {
				if o.Kind == backEdge {
					in.phis(o.St, o.fr, o.from, lp.head)
					work = append(work, item{o.St, o.fr})
				} else {
					res = append(res, in.enter(o.St, o.fr, o.from, o.to, rg)...)
				}
			}
		}
		if ok {
			return append(results, res...)
		}
		in.Obls, in.Cuts = in.Obls[:save], in.Cuts[:saveCuts]
	}
	// 1. deterministic unrolling
	st0, fr0, save0, saveCuts0 := st.Fork(), fr.clone(), len(in.Obls), len(in.Cuts)
	for it := 0; it < in.MaxUnroll; it++ {
		save := len(in.Obls)
		saveCuts := len(in.Cuts)
		os := in.exec(st.Fork(), fr.clone(), lp.head, 0, &region{lp})
		l, rest := live(os)
		if in.UnrollExits && len(l) > 1 {
			// the iteration continues at most one way and the loop guard was decided
			var back []Outcome
			guard := false
			for _, o := range l {
				if o.Kind == backEdge {
					back = append(back, o)
				} else if gs[o.from] {
					guard = true
				}
			}
			if len(back) <= 1 && !guard {
				for _, o := range l {
					if o.Kind == exitEdge {
						cont(o)
					}
				}
				if l = back; len(l) == 0 {
					return append(results, rest...)
				}
			}
		}
		if len(l) > 1 {
			in.Obls = in.Obls[:save]
			in.Cuts = in.Cuts[:saveCuts]
			break
		}
		results = append(results, rest...)
		if len(l) == 0 {
			return results
		}
		if l[0].Kind == exitEdge {
			cont(l[0])
			return results
		}
		st, fr = l[0].St, l[0].fr
		in.phis(st, fr, l[0].from, lp.head)
		if it == in.MaxUnroll-1 { // too long: widen from the start instead
			results, st, fr = nil, st0, fr0
			in.Obls = in.Obls[:save0]
			in.Cuts = in.Cuts[:saveCuts0]
		}
	}
	// 2. widening
	pre := st.Fork()
	phis := headPhis(lp.head)
	st.seq++
	lid := fmt.Sprintf("L%d", st.seq)
	initPhi := map[*ssa.Phi]Value{}
	for _, p := range phis {
		initPhi[p] = fr.env[p]
	}
	havocPhi := map[*ssa.Phi]bool{}
	type cell struct {
		obj  int
		path string
	}
	havocCell := map[cell]bool{}
	extraSyms := map[string]int{}
	_ = extraSyms
	var invs []*inv
	for _, p := range phis {
		switch fr.env[p].(type) {
		case *Lin:
			invs = append(invs, &inv{phi: p, kind: "ge", init: fr.env[p]}, &inv{phi: p, kind: "le", init: fr.env[p]})
		case *SliceV:
			invs = append(invs, &inv{phi: p, kind: "objsame", init: fr.env[p]}, &inv{phi: p, kind: "suffix", init: fr.env[p]}, &inv{phi: p, kind: "lenle", init: fr.env[p]})
		}
	}
	invs = append(invs, in.rangeLimits(st, fr, lp)...)
	getInv := func(p *ssa.Phi, k string) *inv {
		for _, i := range invs {
			if i.phi == p && i.kind == k && !i.bad {
				return i
			}
		}
		return nil
	}
	save := len(in.Obls)
	saveCuts := len(in.Cuts)
	base, basefr := st, fr
	for round := 0; ; round++ {
		in.Obls = in.Obls[:save]
		in.Cuts = in.Cuts[:saveCuts]
		w, wf := base.Fork(), basefr.clone()
		for _, p := range phis {
			if !havocPhi[p] {
				continue
			}
			key := fmt.Sprintf("%s.%s", lid, p.Name())
			iv := initPhi[p]
			switch x := iv.(type) {
			case *Lin:
				f := IntAtom(key, p.Type())
				wf.env[p] = f
				if getInv(p, "ge") != nil {
					w.AddFact(Sub(f, x))
				}
				if getInv(p, "le") != nil {
					w.AddFact(Sub(x, f))
				}
				if i := getInv(p, "below"); i != nil {
					w.AddFact(AddK(Sub(i.init.(*Lin), f), -1))
				}
			case *SliceV:
				if getInv(p, "objsame") != nil && x.Ptr != nil {
					off := AtomLin(U.Atom("off("+key+")", "len", b0, MaxLen))
					var ln, cp *Lin
					if getInv(p, "suffix") != nil {
						ln = Sub(Add(x.Off, x.Len), off)
						w.AddFact(ln)
						cp = Sub(Add(x.Off, x.Cap), off)
						w.AddFact(cp)
						w.AddFact(Sub(off, x.Off))
					} else {
						ln = LenAtom(key)
						cp = AtomLin(U.Atom("cap("+key+")", "len", b0, MaxLen))
						w.AddFact(Sub(cp, ln))
						if getInv(p, "lenle") != nil {
							w.AddFact(Sub(x.Len, ln))
						}
					}
					wf.env[p] = &SliceV{Ptr: x.Ptr, Off: off, Len: ln, Cap: cp, Elem: x.Elem}
				} else {
					wf.env[p] = w.Symbolic(key, p.Type())
				}
			default:
				wf.env[p] = w.Symbolic(key, p.Type())
			}
		}
		for c := range havocCell {
			h := w.heap[c.obj]
			if h == nil {
				continue
			}
			nv := in.havocAt(w, h.V, c.path, fmt.Sprintf("%s.o%d%s", lid, c.obj, c.path), h.T)
			w.wheap()[c.obj] = &HObj{T: h.T, V: nv, Label: h.Label}
		}
		w.seq += 50 * (round + 1)
		os := in.exec(w.Fork(), wf.clone(), lp.head, 0, &region{lp})
		l, rest := live(os)
		changed := false
		var bodies [][]*Event
		var ends []*State
		for _, b := range l {
			if b.Kind != backEdge {
				continue
			}
			bst, bfr := b.St, b.fr
			in.phis(bst, bfr, b.from, lp.head)
			if len(bst.Events) > len(w.Events) {
				bodies = append(bodies, bst.Events[len(w.Events):])
				ends = append(ends, bst)
			}
			if len(bst.Locks) != len(w.Locks) {
				in.obl(bst, bfr, "lock-balance", lp.head.Instrs[0].Pos(), false, "loop iteration changes the set of held locks")
			}
			for _, p := range phis {
				nv, wv := bfr.env[p], wf.env[p]
				if !havocPhi[p] {
					if nv.VKey() != wv.VKey() {
						havocPhi[p] = true
						changed = true
					}
					continue
				}
				for _, iv := range invs {
					if iv.phi != p || iv.bad {
						continue
					}
					ok := false
					switch iv.kind {
					case "ge":
						if n, k := nv.(*Lin); k {
							ok = bst.ProveGE(Sub(n, iv.init.(*Lin)))
						}
					case "le":
						if n, k := nv.(*Lin); k {
							ok = bst.ProveGE(Sub(iv.init.(*Lin), n))
						}
					case "below":
						if n, k := nv.(*Lin); k {
							ok = bst.ProveGE(AddK(Sub(iv.init.(*Lin), n), -1))
						}
					case "objsame":
						if n, k := nv.(*SliceV); k && n.Ptr != nil && iv.init.(*SliceV).Ptr != nil {
							ok = n.Ptr.VKey() == iv.init.(*SliceV).Ptr.VKey()
						}
					case "suffix":
						if n, k := nv.(*SliceV); k {
							x := iv.init.(*SliceV)
							ok = bst.ProveEQ(Sub(Add(n.Off, n.Len), Add(x.Off, x.Len))) && bst.ProveGE(Sub(n.Off, x.Off)) &&
								bst.ProveEQ(Sub(Add(n.Off, n.Cap), Add(x.Off, x.Cap)))
						}
					case "lenle":
						if n, k := nv.(*SliceV); k {
							ok = bst.ProveGE(Sub(iv.init.(*SliceV).Len, n.Len))
						}
					}
					if !ok {
						iv.bad = true
						changed = true
					}
				}
			}
			// heap
			for id, h := range w.heap {
				bh := bst.heap[id]
				if bh == h || bh == nil {
					continue
				}
				for _, path := range diffPaths(h.V, bh.V, "") {
					c := cell{id, path}
					cov := false
					for q := path; ; {
						if havocCell[cell{id, q}] {
							cov = true
							break
						}
						i := strings.LastIndex(q, ".")
						if i < 0 {
							break
						}
						q = q[:i]
					}
					if !cov {
						havocCell[c] = true
						changed = true
					}
				}
			}
			// symbolic objects first touched inside the loop and mutated there
			for k, id := range bst.syms {
				if _, ok := w.syms[k]; ok {
					continue
				}
				bh := bst.heap[id]
				// recreate the base content and compare
				if bh == nil {
					continue
				}
				bk := bh.V.VKey()
				fresh := baseKeyOf(k, bh)
				if bk != fresh && round < 20 {
					// materialise in the base state so that it is tracked
					if _, ok := base.syms[k]; !ok {
						if v := in.baseContent(base, k, bh); v != nil {
							nid := base.symObj(k, func() Value { return v })
							base.heap[nid].T = bh.T
							changed = true
						}
					}
				}
			}
		}
		if round > 24 {
			in.Cuts = append(in.Cuts, "loop did not stabilise in "+fr.fn.String())
			changed = false
		}
		if !changed {
			results = append(results, rest...)
			for _, e := range l {
				if e.Kind == exitEdge {
					if len(bodies) > 0 {
						ev := &Event{Kind: "loop", Sub: bodies, SubEnd: ends, In: fr.fn, Pos: lp.head.Instrs[0].Pos(), St: w, Pre: pre, Depth: fr.depth}
						es := e.St
						n := len(w.Events)
						tail := append([]*Event(nil), es.Events[n:]...)
						es.Events = append(append(append([]*Event(nil), es.Events[:n]...), ev), tail...)
					}
					cont(e)
				}
			}
			return results
		}
	}
}

// baseContent rebuilds the pristine content of a symbolic object.
func (in *Interp) baseContent(st *State, k string, h *HObj) Value {
	switch h.V.(type) {
	case *ArrV:
		a := h.V.(*ArrV)
		return &ArrV{Elem: a.Elem, N: a.N, Base: a.Base}
	}
	if strings.HasPrefix(k, "*") && h.T != nil {
		return st.Symbolic(k[1:]+"^", h.T)
	}
	return nil
}

func baseKeyOf(k string, h *HObj) string {
	if a, ok := h.V.(*ArrV); ok {
		return (&ArrV{Base: a.Base}).VKey()
	}
	return "$" + k[1:] + "^"
}

// diffPaths lists struct-field paths at which two content trees differ.
func diffPaths(a, b Value, p string) []string {
	if a.VKey() == b.VKey() {
		return nil
	}
	x, ok1 := a.(*StructV)
	y, ok2 := b.(*StructV)
	if ok1 && ok2 && len(x.F) == len(y.F) {
		var r []string
		for i := range x.F {
			r = append(r, diffPaths(x.F[i], y.F[i], fmt.Sprintf("%s.%d", p, i))...)
		}
		return r
	}
	if o, ok := a.(*OpaqueV); ok && ok2 {
		if s, ok := o.T.Underlying().(*types.Struct); ok {
			var r []string
			tmp := NewState()
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				r = append(r, diffPaths(tmp.Symbolic(o.Key+"."+f.Name(), f.Type()), y.F[i], fmt.Sprintf("%s.%d", p, i))...)
			}
			return r
		}
	}
	return []string{p}
}

func (in *Interp) havocAt(st *State, v Value, path, key string, t types.Type) Value {
	if path != "" {
		v = st.expand(v, nil)
		s, ok := v.(*StructV)
		if ok {
			rest := path[1:]
			i := strings.Index(rest, ".")
			head, tail := rest, ""
			if i >= 0 {
				head, tail = rest[:i], rest[i:]
			}
			var n int
			fmt.Sscanf(head, "%d", &n)
			var ft types.Type
			if t != nil {
				if stt, ok := t.Underlying().(*types.Struct); ok && n < stt.NumFields() {
					ft = stt.Field(n).Type()
				}
			}
			c := &StructV{F: append([]Value(nil), s.F...)}
			c.F[n] = in.havocAt(st, s.F[n], tail, key, ft)
			return c
		}
	}
	switch x := v.(type) {
	case *ArrV:
		return &ArrV{Elem: x.Elem, N: x.N, Base: key}
	case *MapObj:
		return &MapObj{Base: key}
	}
	if t != nil {
		return st.Symbolic(key, t)
	}
	switch x := v.(type) {
	case *Lin:
		return AtomLin(U.Atom(key, "sym", nInf, bInf))
	case *OpaqueV:
		return &OpaqueV{Key: key, T: x.T}
	}
	return &OpaqueV{Key: key, T: types.Typ[types.Invalid]}
}

func (in *Interp) val(st *State, fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return st.constVal(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Global:
		return in.global(st, x)
	case *ssa.Builtin:
		return &OpaqueV{Key: "builtin:" + x.Name(), T: x.Type()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return &OpaqueV{Key: "undef:" + v.Name() + "@" + fr.fn.String(), T: v.Type()}
}

// GlobalPtr is the address of a package-level variable.
func (in *Interp) GlobalPtr(st *State, g *ssa.Global) *PtrV {
	p, _ := in.global(st, g).(*PtrV)
	return p
}

// GlobalValue loads a package-level variable.
func (in *Interp) GlobalValue(st *State, g *ssa.Global) Value {
	if p, ok := in.global(st, g).(*PtrV); ok {
		return st.Load(p)
	}
	return nil
}

func (in *Interp) global(st *State, g *ssa.Global) Value {
	key := "global:" + g.String()
	if id, ok := st.syms[key]; ok {
		return &PtrV{Obj: id}
	}
	t := g.Type().(*types.Pointer).Elem()
	var v Value
	if in.FromInit[g.Pkg.Pkg.Path()] || (strings.HasPrefix(g.Pkg.Pkg.Path(), in.Module) || in.InitAlso[g.Pkg.Pkg.Path()]) && !in.mutableGlobal(g) {
		if is := in.initState(g.Pkg); is != nil {
			if id, ok := is.syms[key]; ok {
				v = in.importVal(st, is, is.heap[id].V, map[int]int{})
			}
		}
	}
	if v == nil {
		v = st.Symbolic(key, t)
		if types.Implements(t, errIface) {
			st.SetBool("isnil("+key+")", false)
		}
	}
	id := st.symObj(key, func() Value { return v })
	st.wheap()[id] = &HObj{T: t, V: v, Label: key}
	return &PtrV{Obj: id}
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (in *Interp) importVal(st, is *State, v Value, m map[int]int) Value {
	imp := func(p *PtrV) *PtrV {
		if p == nil {
			return nil
		}
		if id, ok := m[p.Obj]; ok {
			return &PtrV{Obj: id, Path: p.Path}
		}
		h := is.heap[p.Obj]
		np := st.Alloc(h.T, NilV{}, h.Label)
		m[p.Obj] = np.Obj
		nv := in.importVal(st, is, h.V, m)
		st.wheap()[np.Obj] = &HObj{T: h.T, V: nv, Label: h.Label}
		return &PtrV{Obj: np.Obj, Path: p.Path}
	}
	switch x := v.(type) {
	case *PtrV:
		return imp(x)
	case *SliceV:
		c := *x
		c.Ptr = imp(x.Ptr)
		return &c
	case *StructV:
		c := &StructV{}
		for _, f := range x.F {
			c.F = append(c.F, in.importVal(st, is, f, m))
		}
		return c
	case *IfaceV:
		return &IfaceV{Dyn: x.Dyn, V: in.importVal(st, is, x.V, m)}
	case *ArrV:
		c := *x
		c.key = ""
		c.Ws = append([]AW(nil), x.Ws...)
		for i := range c.Ws {
			if c.Ws[i].Val != nil {
				c.Ws[i].Val = in.importVal(st, is, c.Ws[i].Val, m)
			}
		}
		return &c
	case *OpaqueV:
		if b, ok := is.bools["isnil("+x.Key+")"]; ok {
			st.SetBool("isnil("+x.Key+")", b)
		}
	}
	return v
}

func (in *Interp) mutableGlobal(g *ssa.Global) bool {
	if in.Globals == nil {
		in.Globals = map[*ssa.Global]bool{}
		for _, p := range in.Prog.AllPackages() {
			if !strings.HasPrefix(p.Pkg.Path(), in.Module) {
				continue
			}
			for _, fn := range PkgFuncs(in.Prog, p) {
				if fn.Name() == "init" && fn.Synthetic != "" {
					continue
				}
				isInit := strings.HasPrefix(fn.Name(), "init#")
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						for _, op := range ins.Operands(nil) {
							gg, ok := (*op).(*ssa.Global)
							if !ok {
								continue
							}
							if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
								continue
							}
							// indexing of an array global for reading
							if ia, ok := ins.(*ssa.IndexAddr); ok && onlyLoads(ia) {
								continue
							}
							if fa, ok := ins.(*ssa.FieldAddr); ok && onlyLoads(fa) {
								continue
							}
							if sl, ok := ins.(*ssa.Slice); ok && onlyLoads(sl) {
								continue
							}
							_ = isInit
							in.Globals[gg] = true
						}
					}
				}
			}
		}
	}
	return in.Globals[g]
}

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

// PkgFuncs lists all functions of a package including methods and closures.
func PkgFuncs(prog *ssa.Program, p *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			if n, ok := x.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

func (in *Interp) initState(p *ssa.Package) *State {
	path := p.Pkg.Path()
	if s, ok := in.initHeap[path]; ok {
		return s
	}
	in.initHeap[path] = nil
	fn := p.Func("init")
	if fn == nil {
		return nil
	}
	sub := New(in.Prog, in.Module)
	sub.Globals = in.Globals
	sub.initHeap = in.initHeap
	sub.MaxSteps = 200000
	st := NewState()
	// zero every global of the package first
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			k := "global:" + g.String()
			t := g.Type().(*types.Pointer).Elem()
			id := st.symObj(k, func() Value { return st.Zero(t) })
			st.heap[id].T = t
		}
	}
	sub.InlineF = func(f *ssa.Function) (bool, bool) {
		if f.Name() == "init" && f.Synthetic != "" && f != fn {
			return false, true
		}
		return false, false
	}
	outs := sub.Run(st, fn, nil, nil)
	for _, o := range outs {
		if o.Kind == Ret && len(o.St.Events) >= 0 {
			// pick the path that ran the initialisers (init$guard false)
			if in.initHeap[path] == nil || o.St.nextObj > in.initHeap[path].nextObj {
				in.initHeap[path] = o.St
			}
		}
	}
	return in.initHeap[path]
}

func (in *Interp) event(st *State, fr *frame, e *Event) *Event {
	e.In = fr.fn
	e.Depth = fr.depth
	if !in.NoEvents {
		if e.St == nil {
			e.St = st.Fork()
		}
		st.Events = append(st.Events[:len(st.Events):len(st.Events)], e)
	}
	return e
}

// ---- instruction execution --------------------------------------------------

func (in *Interp) exec(st *State, fr *frame, b *ssa.BasicBlock, idx int, rg *region) []Outcome {
	for i := idx; i < len(b.Instrs); i++ {
		if st.dead {
			return nil
		}
		in.Steps++
		if in.Steps&1023 == 0 && time.Since(started) > Budget && in.Steps < in.MaxSteps {
			in.Steps = in.MaxSteps + 1
			in.Cuts = append(in.Cuts, "time limit in "+fr.fn.String())
		}
		if in.Steps > in.MaxSteps {
			if in.Steps == in.MaxSteps+1 {
				in.Cuts = append(in.Cuts, "step limit in "+fr.fn.String())
			}
			return []Outcome{{Kind: Cut, St: st, Why: "steps"}}
		}
		ins := b.Instrs[i]
		if in.OnBlock != nil && in.wouldBlock(st, fr, ins) {
			if ss := in.OnBlock(st); len(ss) > 0 {
				var res []Outcome
				for _, s := range ss {
					res = append(res, in.exec(s, fr.clone(), b, i, rg)...)
				}
				return res
			}
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			return in.branch(st, fr, b, in.boolOf(st, in.val(st, fr, x.Cond)), rg)
		case *ssa.Jump:
			return in.enter(st, fr, b, b.Succs[0], rg)
		case *ssa.Return:
			var r Value
			switch len(x.Results) {
			case 0:
			case 1:
				r = in.val(st, fr, x.Results[0])
			default:
				t := &TupleV{}
				for _, v := range x.Results {
					t.E = append(t.E, in.val(st, fr, v))
				}
				r = t
			}
			return []Outcome{{Kind: Ret, St: st, Ret: r}}
		case *ssa.Panic:
			in.obl(st, fr, "panic", x.Pos(), false, "explicit panic reached")
			in.event(st, fr, &Event{Kind: "panic", Pos: x.Pos(), Args: []Value{in.val(st, fr, x.X)}})
			return []Outcome{{Kind: Panic, St: st, Why: "panic", fr: fr.clone()}}
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			was := st.Panicking
			os := in.runDefers(st, fr, ds)
			var res []Outcome
			for k, o := range os {
				if o.Kind == Ret && o.St.Panicking && !was {
					res = append(res, Outcome{Kind: Panic, St: o.St, Why: "panic in a deferred call"})
					continue
				}
				if o.Kind != Ret {
					res = append(res, o)
					continue
				}
				f := fr
				if k < len(os)-1 {
					f = fr.clone()
				}
				res = append(res, in.exec(o.St, f, b, i+1, rg)...)
			}
			return res
		case *ssa.Call:
			os := in.callInstr(st, fr, x)
			if len(os) == 1 && os[0].Kind == Ret {
				st = os[0].St
				fr.env[x] = retVal(os[0].Ret, x)
				continue
			}
			var res []Outcome
			for k, o := range os {
				if o.Kind != Ret {
					o.Ret = nil
					if o.Kind == Panic {
						o.fr = fr.clone()
					}
					res = append(res, o)
					continue
				}
				f := fr
				if k < len(os)-1 {
					f = fr.clone()
				}
				f.env[x] = retVal(o.Ret, x)
				res = append(res, in.exec(o.St, f, b, i+1, rg)...)
			}
			return res
		case *ssa.Go:
			in.simple(st, fr, ins)
			if !in.SyncGo {
				continue
			}
			f, args := in.calleeArgs(st, fr, x.Common())
			os := in.invoke(st, fr, x, f, args)
			var res []Outcome
			for k, o := range os {
				if o.Kind != Ret {
					res = append(res, o)
					continue
				}
				f := fr
				if k < len(os)-1 {
					f = fr.clone()
				}
				res = append(res, in.exec(o.St, f, b, i+1, rg)...)
			}
			return res
		case *ssa.Convert:
			neg, off := in.wrapping(st, fr, x)
			if neg == nil {
				in.simple(st, fr, ins)
				break
			}
			s2, f2 := st.Fork(), fr.clone()
			var res []Outcome
			if s2.AddFact(neg) && !s2.dead {
				f2.env[x] = Add(AddK(Scale(neg, bM1), -1), KB(off))
				res = append(res, in.exec(s2, f2, b, i+1, rg)...)
			}
			l := AddK(Scale(neg, bM1), -1)
			if st.AddFact(l) && !st.dead {
				fr.env[x] = l
				res = append(res, in.exec(st, fr, b, i+1, rg)...)
			}
			return res
		case *ssa.TypeAssert, *ssa.Select, *ssa.Lookup, *ssa.Next:
			os := in.forking(st, fr, ins)
			v := ins.(ssa.Value)
			if len(os) == 1 && os[0].Kind == Ret {
				st = os[0].St
				fr.env[v] = os[0].Ret
				break
			}
			var res []Outcome
			for k, o := range os {
				if o.Kind != Ret {
					if o.Kind == Panic {
						o.fr = fr.clone()
					}
					res = append(res, o)
					continue
				}
				f := fr
				if k < len(os)-1 {
					f = fr.clone()
				}
				f.env[v] = o.Ret
				res = append(res, in.exec(o.St, f, b, i+1, rg)...)
			}
			return res
		default:
			in.simple(st, fr, ins)
		}
		if v, ok := ins.(ssa.Value); ok {
			switch ins.(type) {
			case *ssa.UnOp, *ssa.Index, *ssa.Lookup:
				a, cl := st.tableClusters(fr.env[v])
				if a == nil {
					continue
				}
				var res []Outcome
				for k, c := range cl {
					s, f := st, fr
					if k < len(cl)-1 {
						s, f = st.Fork(), fr.clone()
					}
					if s.AddFact(Sub(AtomLin(a), K(c[0]))) && s.AddFact(Sub(K(c[1]), AtomLin(a))) {
						res = append(res, in.exec(s, f, b, i+1, rg)...)
					}
				}
				return res
			}
		}
	}
	return nil
}

// wrapping: a conversion to an unsigned type of a value known to lie in part
// of its signed type's range on both sides of zero. It gives the term that is
// non-negative exactly when the value is negative, and what wrapping adds.
func (in *Interp) wrapping(st *State, fr *frame, x *ssa.Convert) (neg *Lin, off *big.Int) {
	w, s, ok := intType(x.Type())
	fw, fs, ok2 := intType(x.X.Type())
	if !ok || !ok2 || s || !fs {
		return
	}
	l, ok := in.val(st, fr, x.X).(*Lin)
	if !ok || l.IsConst() {
		return
	}
	lo, hi := st.Range(l)
	if lo.Sign() >= 0 || hi.Sign() < 0 || hi.Cmp(pow2(w)) >= 0 || lo.Cmp(new(big.Int).Neg(pow2(w))) < 0 {
		return
	}
	if lo.Cmp(new(big.Int).Neg(pow2(fw-1))) <= 0 && hi.Cmp(new(big.Int).Sub(pow2(fw-1), b1)) >= 0 {
		return
	}
	return AddK(Scale(l, bM1), -1), pow2(w)
}

// wrapCmp: a comparison of a value with itself wrapped to fewer bits holds
// exactly in the narrower type's range.
func wrapCmp(c *BoolV) (x *Lin, lo, hi *big.Int) {
	if c.Kind != "eq0" || c.L.K.Sign() != 0 || len(c.L.Ts) != 2 || c.L.Ts[0].C.CmpAbs(b1) != 0 || new(big.Int).Add(c.L.Ts[0].C, c.L.Ts[1].C).Sign() != 0 {
		return
	}
	for i, t := range c.L.Ts {
		x := AtomLin(c.L.Ts[1-i].A)
		a, signed := t.A, false
		if a.Op == "conv" && a.Signed {
			signed = true
			w := a.N
			if a = a.Args[0].Single(); a == nil || a.Op != "bits" || len(a.Segs) != 1 || a.Segs[0].W != w {
				continue
			}
		}
		if a.Op != "bits" || len(a.Segs) != 1 || a.Segs[0].Lo != 0 || !LinEq(a.Segs[0].Src, x) {
			continue
		}
		w := a.Segs[0].W
		if signed {
			return x, new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), b1)
		}
		return x, b0, new(big.Int).Sub(pow2(w), b1)
	}
	return
}

func retVal(v Value, x *ssa.Call) Value {
	if v == nil {
		return &TupleV{}
	}
	return v
}

func (in *Interp) branch(st *State, fr *frame, b *ssa.BasicBlock, c *BoolV, rg *region) []Outcome {
	switch st.Eval(c) {
	case 1:
		return in.enter(st, fr, b, b.Succs[0], rg)
	case -1:
		return in.enter(st, fr, b, b.Succs[1], rg)
	}
	var r []Outcome
	if x, lo, hi := wrapCmp(c); x != nil {
		eq, ne := b.Succs[0], b.Succs[1]
		if c.Neg {
			eq, ne = ne, eq
		}
		for _, out := range []*Lin{AddK(Sub(KB(lo), x), -1), AddK(Sub(x, KB(hi)), -1)} {
			if s, f := st.Fork(), fr.clone(); s.AddFact(out) && !s.dead {
				s.Forks++
				r = append(r, in.enter(s, f, b, ne, rg)...)
			}
		}
		st.Forks++
		if st.AddFact(Sub(x, KB(lo))) && st.AddFact(Sub(KB(hi), x)) && !st.dead {
			r = append(r, in.enter(st, fr, b, eq, rg)...)
		}
		return r
	}
	s2, f2 := st.Fork(), fr.clone()
	st.Forks++
	s2.Forks++
	if st.Assume(c, true) && !st.dead {
		r = append(r, in.enter(st, fr, b, b.Succs[0], rg)...)
	}
	if s2.Assume(c, false) && !s2.dead {
		r = append(r, in.enter(s2, f2, b, b.Succs[1], rg)...)
	}
	return r
}

func (in *Interp) boolOf(st *State, v Value) *BoolV {
	switch x := v.(type) {
	case *BoolV:
		return x
	case *OpaqueV:
		return BAtom(x.Key)
	}
	return BAtom(v.VKey())
}

func (in *Interp) runDefers(st *State, fr *frame, ds []deferred) []Outcome {
	os := []Outcome{{Kind: Ret, St: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []Outcome
		for _, o := range os {
			if o.Kind == Panic && o.St != nil && !o.St.dead {
				o.St.Panicking = true
				o.Kind = Ret
			}
			if o.Kind != Ret {
				next = append(next, o)
				continue
			}
			next = append(next, in.invoke(o.St, fr, ds[i].call, ds[i].fn, ds[i].args)...)
		}
		os = next
	}
	return os
}

// IsNil decides nil-ness.
func (st *State) IsNil(v Value) *BoolV {
	switch x := v.(type) {
	case NilV:
		return BConst(true)
	case *SliceV:
		if x.Ptr == nil {
			return BConst(true)
		}
		if x.NilAtom != "" {
			if c := st.Eval(BGE(AddK(x.Len, -1))); c > 0 {
				return BConst(false)
			}
			return BAtom(x.NilAtom)
		}
		return BConst(false)
	case *OpaqueV:
		return BAtom("isnil(" + x.Key + ")")
	}
	return BConst(false)
}

func (in *Interp) equal(st *State, a, b Value, t types.Type) *BoolV {
	if _, ok := a.(NilV); ok {
		return st.IsNil(b)
	}
	if _, ok := b.(NilV); ok {
		return st.IsNil(a)
	}
	if s, ok := b.(*SliceV); ok && s.Ptr == nil {
		return st.IsNil(a)
	}
	if s, ok := a.(*SliceV); ok && s.Ptr == nil {
		return st.IsNil(b)
	}
	if a.VKey() == b.VKey() {
		if _, ok := a.(*OpaqueV); ok {
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
				return BAtom("feq(" + a.VKey() + ")")
			}
		}
		return BConst(true)
	}
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			return BEQ(Sub(x, y))
		}
	case *BoolV:
		y, ok := b.(*BoolV)
		if ok {
			if e := st.Eval(y); e != 0 {
				if e > 0 {
					return x
				}
				return x.Not()
			}
			if e := st.Eval(x); e != 0 {
				if e > 0 {
					return y
				}
				return y.Not()
			}
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			cx, ok1 := ConstStr(x)
			cy, ok2 := ConstStr(y)
			if ok1 && ok2 {
				return BConst(cx == cy)
			}
			if ok1 && cx == "" {
				return BEQ(y.Len)
			}
			if ok2 && cy == "" {
				return BEQ(x.Len)
			}
			if st.Content(x) == st.Content(y) {
				return BConst(true)
			}
			if st.Eval(BEQ(Sub(x.Len, y.Len))) < 0 {
				return BConst(false)
			}
			if !ok1 && !ok2 {
				ka, kb := st.Content(x), st.Content(y)
				if kb < ka {
					ka, kb = kb, ka
				}
				return BAtom("streq:" + ka + "==" + kb)
			}
		}
	case *PtrV:
		if _, ok := b.(*PtrV); ok {
			return BConst(false) // distinct abstract objects
		}
		if _, ok := b.(*FuncV); ok {
			return BConst(false)
		}
	case *FuncV:
		return BConst(false)
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if !types.Identical(x.Dyn, y.Dyn) {
				return BConst(false)
			}
			return in.equal(st, x.V, y.V, x.Dyn)
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			break
		}
		sT, _ := t.Underlying().(*types.Struct)
		var open []*BoolV
		for i := range x.F {
			var ft types.Type = types.Typ[types.Invalid]
			if sT != nil && i < sT.NumFields() {
				ft = sT.Field(i).Type()
			}
			e := in.equal(st, x.F[i], y.F[i], ft)
			if r := st.Eval(e); r < 0 {
				return BConst(false)
			} else if r == 0 {
				open = append(open, e)
			}
		}
		if len(open) == 0 {
			return BConst(true)
		}
		if len(open) == 1 {
			return open[0]
		}
	}
	ka, kb := a.VKey(), b.VKey()
	if kb < ka {
		ka, kb = kb, ka
	}
	return BAtom("eq(" + ka + "," + kb + ")")
}

func (in *Interp) arith(st *State, l *Lin, t types.Type) *Lin {
	w, s, ok := intType(t)
	if !ok {
		return l
	}
	// pieces of one value put together again are the value
	n := 0
	for _, t := range l.Ts {
		if t.A.Op == "bits" {
			n++
		}
	}
	if n > 1 {
		if e := st.dropShr(st.expandBits(l)); len(e.Ts) < len(l.Ts) {
			l = e
		}
	}
	lo, hi := st.Range(l)
	tlo, thi := typeRange(w, s)
	if lo.Cmp(tlo) >= 0 && hi.Cmp(thi) <= 0 {
		return l
	}
	// 64-bit arithmetic on quantities bounded by lengths does not wrap
	return st.Conv(l, w, s)
}

func opq(st *State, op string, t types.Type, args ...Value) Value {
	k := op
	for _, a := range args {
		k += "," + a.VKey()
	}
	return st.Symbolic("("+k+")", t)
}

func (in *Interp) binop(st *State, fr *frame, x *ssa.BinOp) Value {
	a, b := in.val(st, fr, x.X), in.val(st, fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return in.equal(st, a, b, t)
	case token.NEQ:
		return in.equal(st, a, b, t).Not()
	}
	la, ok1 := a.(*Lin)
	lb, ok2 := b.(*Lin)
	if ok1 && ok2 {
		la, lb = st.Norm(la), st.Norm(lb)
		w, signed, _ := intType(t)
		switch x.Op {
		case token.LSS:
			return BGE(AddK(Sub(lb, la), -1))
		case token.LEQ:
			return BGE(Sub(lb, la))
		case token.GTR:
			return BGE(AddK(Sub(la, lb), -1))
		case token.GEQ:
			return BGE(Sub(la, lb))
		case token.ADD:
			return in.arith(st, Add(la, lb), x.Type())
		case token.SUB:
			return in.arith(st, Sub(la, lb), x.Type())
		case token.MUL:
			if la.IsConst() {
				la, lb = lb, la
			}
			if lb.IsConst() {
				return in.arith(st, Scale(la, lb.K), x.Type())
			}
			lo1, hi1 := st.Range(la)
			lo2, hi2 := st.Range(lb)
			if lo1.Sign() >= 0 && lo2.Sign() >= 0 {
				at := U.Atom("mul("+la.Key()+","+lb.Key()+")", "mul", new(big.Int).Mul(lo1, lo2), new(big.Int).Mul(hi1, hi2))
				return in.arith(st, AtomLin(at), x.Type())
			}
			return opq(st, "mul", x.Type(), la, lb)
		case token.QUO, token.REM:
			in.need(st, fr, "div", x.Pos(), BEQ(lb).Not(), "divisor may be zero")
			return st.divrem(x.Op, la, lb, x.Type())
		case token.SHL:
			if n, ok := lb.Int64(); ok && n < 64 {
				if lo, _ := st.Range(la); signed && lo.Sign() < 0 {
					return in.arith(st, Scale(la, pow2(int(n))), x.Type())
				}
				r := st.fromSegs(shiftSegs(st.segsOf(la, w), int(n), w))
				if signed {
					r = st.Conv(r, w, true)
				}
				return r
			}
			if la.IsConst() {
				// 1<<n style
				lo, hi := st.Range(lb)
				if lo.Sign() >= 0 && hi.IsInt64() && hi.Int64() < int64(w) && la.K.Sign() > 0 {
					at := U.Atom("shl("+la.Key()+","+lb.Key()+")", "shl", new(big.Int).Lsh(la.K, uint(lo.Int64())), new(big.Int).Lsh(la.K, uint(hi.Int64())))
					return in.arith(st, AtomLin(at), x.Type())
				}
			}
			return opq(st, fmt.Sprintf("shl%d", w), x.Type(), la, lb)
		case token.SHR:
			if n, ok := lb.Int64(); ok && n < 64 {
				lo, _ := st.Range(la)
				if !signed || lo.Sign() >= 0 {
					return st.fromSegs(dropSegs(st.segsOf(la, w), int(n)))
				}
				if la.IsConst() {
					return KB(new(big.Int).Rsh(la.K, uint(n)))
				}
				// arithmetic shift: result bits are bits [n, w) sign extended
				flo := new(big.Int).Rsh(lo, uint(n))
				_, hi := st.Range(la)
				fhi := new(big.Int).Rsh(hi, uint(n))
				at := U.Atom(fmt.Sprintf("sar(%s,%d)", la.Key(), n), "sar", flo, fhi)
				at.Args = []*Lin{la}
				return AtomLin(at)
			}
			return opq(st, fmt.Sprintf("shr%d", w), x.Type(), la, lb)
		case token.AND, token.OR, token.XOR:
			r := st.bitop(x.Op.String(), la, lb, w)
			if signed {
				r = st.Conv(r, w, true)
			}
			return r
		case token.AND_NOT:
			nb := st.bitop("^", lb, KB(thiU(w)), w)
			r := st.bitop("&", la, nb, w)
			if signed {
				r = st.Conv(r, w, true)
			}
			return r
		}
	}
	if x.Op == token.ADD {
		if sa, ok := a.(*StrV); ok {
			if sb, ok := b.(*StrV); ok {
				return st.concat(sa, sb)
			}
		}
	}
	// floats, string ordering
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		return BAtom("(" + x.Op.String() + "," + a.VKey() + "," + b.VKey() + ")")
	}
	return opq(st, x.Op.String(), x.Type(), a, b)
}

func (st *State) concat(a, b *StrV) *StrV {
	ca, ok1 := ConstStr(a)
	cb, ok2 := ConstStr(b)
	if ok1 && ok2 {
		return StrConst(ca + cb)
	}
	if ok1 && ca == "" {
		return b
	}
	if ok2 && cb == "" {
		return a
	}
	c := &ArrV{Elem: types.Typ[types.Byte]}
	c = st.ArrBlock(c, K(0), a.Len, a.C, a.Off)
	c = st.ArrBlock(c, a.Len, b.Len, b.C, b.Off)
	return &StrV{C: c, Off: K(0), Len: Add(a.Len, b.Len)}
}

func (st *State) divrem(op token.Token, a, b *Lin, t types.Type) Value {
	c, ok := b.Int64()
	if a.IsConst() && ok && c != 0 {
		q, r := new(big.Int).QuoRem(a.K, b.K, new(big.Int))
		if op == token.QUO {
			return KB(q)
		}
		return KB(r)
	}
	if ok && c > 0 {
		// exact division of every coefficient
		div := new(big.Int).Mod(a.K, b.K).Sign() == 0
		for _, x := range a.Ts {
			if new(big.Int).Mod(x.C, b.K).Sign() != 0 {
				div = false
			}
		}
		if div {
			if op == token.REM {
				return K(0)
			}
			r := &Lin{K: new(big.Int).Quo(a.K, b.K)}
			for _, x := range a.Ts {
				r.Ts = append(r.Ts, LT{x.A, new(big.Int).Quo(x.C, b.K)})
			}
			return r
		}
		lo, hi := st.Range(a)
		if op == token.QUO {
			at := U.Atom(fmt.Sprintf("div(%s,%d)", a.Key(), c), "div", new(big.Int).Quo(lo, b.K), new(big.Int).Quo(hi, b.K))
			at.Args = []*Lin{a}
			return AtomLin(at)
		}
		rlo, rhi := new(big.Int).Neg(big.NewInt(c-1)), big.NewInt(c-1)
		if lo.Sign() >= 0 {
			rlo = b0
			if hi.Cmp(rhi) < 0 {
				return a
			}
			// power of two
			if c&(c-1) == 0 {
				n := big.NewInt(c).BitLen() - 1
				return st.fromSegs(cutSegs(st.segsOf(a, 64), n))
			}
		}
		at := U.Atom(fmt.Sprintf("rem(%s,%d)", a.Key(), c), "rem", rlo, rhi)
		at.Args = []*Lin{a}
		return AtomLin(at)
	}
	return opq(st, op.String(), t, a, b)
}

func (in *Interp) convert(st *State, v Value, from, to types.Type) Value {
	if w, s, ok := intType(to); ok {
		if l, ok := v.(*Lin); ok {
			return st.Conv(st.Norm(l), w, s)
		}
		if _, ok := from.(*types.TypeParam); ok { // a conversion is a function of its operand
			return IntAtom("("+to.String()+")("+v.VKey()+")", to)
		}
		return opq(st, "toint:"+to.String(), to, v)
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(*StrV); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				c := &ArrV{Elem: sl.Elem()}
				c = st.ArrBlock(c, K(0), s.Len, s.C, s.Off)
				p := st.Alloc(nil, c, "bytes(string)")
				return &SliceV{Ptr: p, Off: K(0), Len: s.Len, Cap: s.Len, Elem: sl.Elem()}
			}
		}
		return opq(st, "conv", to, v)
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case *StrV:
			return x
		case *SliceV:
			if x.Ptr == nil {
				return StrConst("")
			}
			if a, ok := st.Load(x.Ptr).(*ArrV); ok {
				b, o := st.Block(a, x.Off, x.Len)
				return &StrV{C: b, Off: o, Len: x.Len}
			}
		}
		if _, ok := from.(*types.TypeParam); ok {
			return st.Symbolic("string("+v.VKey()+")", to)
		}
		return opq(st, "tostring", to, v)
	}
	if fb != nil && tb != nil {
		if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
			return v
		}
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		return opq(st, "conv:"+tb.Name(), to, v)
	}
	if tb != nil && tb.Kind() == types.UnsafePointer || fb != nil && fb.Kind() == types.UnsafePointer {
		return opq(st, "unsafe", to, v)
	}
	return v
}

// asPtr turns a pointer-typed value into an address, checking for nil.
func (in *Interp) asPtr(st *State, fr *frame, v Value, pos token.Pos, what string) *PtrV {
	switch x := v.(type) {
	case *PtrV:
		return x
	case NilV:
		in.obl(st, fr, "nil", pos, false, "nil dereference of "+what)
		st.dead = true
		return nil
	case *OpaqueV:
		c := st.IsNil(x)
		if !in.need(st, fr, "nil", pos, c.Not(), "possibly nil "+x.Key) {
			return nil
		}
		return st.Pointee(x)
	}
	in.obl(st, fr, "nil", pos, false, "unresolved pointer "+v.VKey())
	return st.Alloc(nil, &OpaqueV{Key: fmt.Sprintf("unresolved%d", st.nextSeq()), T: types.Typ[types.Invalid]}, "unresolved")
}

func (in *Interp) simple(st *State, fr *frame, ins ssa.Instruction) {
	set := func(v ssa.Value, r Value) { fr.env[v] = r }
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		set(x, st.Alloc(t, st.Zero(t), x.Comment))
	case *ssa.BinOp:
		set(x, in.far(st, x, in.binop(st, fr, x)))
	case *ssa.UnOp:
		v := in.val(st, fr, x.X)
		switch x.Op {
		case token.MUL:
			p := in.asPtr(st, fr, v, x.Pos(), x.X.Name())
			if p == nil {
				return
			}
			if in.OnAccess != nil {
				in.OnAccess(st, fr.fn, p, false, x.Pos(), x)
			}
			r := st.Load(p)
			if o, ok := r.(*OpaqueV); ok && (o.T == nil || o.T == types.Typ[types.Invalid]) {
				r = st.Symbolic(o.Key, x.Type())
			}
			set(x, r)
		case token.NOT:
			set(x, in.boolOf(st, v).Not())
		case token.SUB:
			if l, ok := v.(*Lin); ok {
				set(x, in.arith(st, Scale(l, bM1), x.Type()))
			} else {
				set(x, opq(st, "neg", x.Type(), v))
			}
		case token.XOR:
			if l, ok := v.(*Lin); ok {
				w, s, _ := intType(x.Type())
				if s {
					set(x, in.arith(st, AddK(Scale(l, bM1), -1), x.Type()))
				} else {
					set(x, st.bitop("^", l, KB(thiU(w)), w))
				}
			} else {
				set(x, opq(st, "xor", x.Type(), v))
			}
		case token.ARROW:
			set(x, in.chanRecv(st, fr, v, x.Type(), x.CommaOk, x.Pos(), x))
		}
	case *ssa.Convert:
		set(x, in.farConv(st, x, in.convert(st, in.val(st, fr, x.X), x.X.Type(), x.Type())))
	case *ssa.MultiConvert:
		set(x, in.convert(st, in.val(st, fr, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		set(x, in.val(st, fr, x.X))
	case *ssa.ChangeInterface:
		set(x, in.val(st, fr, x.X))
	case *ssa.MakeInterface:
		set(x, &IfaceV{Dyn: x.X.Type(), V: in.val(st, fr, x.X)})
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Free = append(f.Free, in.val(st, fr, b))
		}
		set(x, f)
	case *ssa.MakeMap:
		set(x, st.Alloc(x.Type(), &MapObj{}, "map"))
	case *ssa.MakeChan:
		set(x, in.makeChan(st, fr, x))
	case *ssa.MakeSlice:
		ln, ok1 := in.val(st, fr, x.Len).(*Lin)
		cp, ok2 := in.val(st, fr, x.Cap).(*Lin)
		et := x.Type().Underlying().(*types.Slice).Elem()
		if !ok1 {
			ln = LenAtom(fmt.Sprintf("mk%d", st.nextSeq()))
		}
		if !ok2 {
			cp = ln
		}
		in.event(st, fr, &Event{Kind: "make", Args: []Value{ln, cp}, Pos: x.Pos(), Instr: x, Name: et.String()})
		in.need(st, fr, "makeslice", x.Pos(), BGE(ln), "negative make length "+ln.Key())
		p := st.Alloc(nil, &ArrV{Elem: et, N: cp}, "make")
		set(x, &SliceV{Ptr: p, Off: K(0), Len: ln, Cap: cp, Elem: et})
	case *ssa.FieldAddr:
		p := in.asPtr(st, fr, in.val(st, fr, x.X), x.Pos(), x.X.Name())
		if p == nil {
			return
		}
		set(x, &PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], Sel{Field: x.Field})})
	case *ssa.Field:
		set(x, st.child(in.val(st, fr, x.X), Sel{Field: x.Field}))
	case *ssa.IndexAddr:
		in.indexAddr(st, fr, x)
	case *ssa.Index:
		v := in.val(st, fr, x.X)
		i, _ := in.val(st, fr, x.Index).(*Lin)
		switch a := v.(type) {
		case *ArrV:
			if i != nil {
				if a.N != nil {
					in.need(st, fr, "index", x.Pos(), BGE(i), "negative index")
					in.need(st, fr, "index", x.Pos(), BGE(AddK(Sub(a.N, i), -1)), fmt.Sprintf("index %s out of array length %s", i.Key(), a.N.Key()))
				}
				set(x, st.ArrRead(a, i))
				return
			}
		case *StrV:
			if i != nil {
				in.need(st, fr, "index", x.Pos(), BGE(i), "negative index")
				in.need(st, fr, "index", x.Pos(), BGE(AddK(Sub(a.Len, i), -1)), fmt.Sprintf("index %s vs string length %s", i.Key(), a.Len.Key()))
				set(x, st.ArrRead(a.C, Add(a.Off, i)))
				return
			}
		}
		set(x, opq(st, "index", x.Type(), v, in.val(st, fr, x.Index)))
	case *ssa.Slice:
		in.slice(st, fr, x)
	case *ssa.Store:
		p := in.asPtr(st, fr, in.val(st, fr, x.Addr), x.Pos(), x.Addr.Name())
		if p == nil {
			return
		}
		v := in.val(st, fr, x.Val)
		if in.OnAccess != nil {
			in.OnAccess(st, fr.fn, p, true, x.Pos(), x)
		}
		st.Store(p, v)
	case *ssa.Extract:
		t := in.val(st, fr, x.Tuple)
		if tv, ok := t.(*TupleV); ok && x.Index < len(tv.E) {
			set(x, tv.E[x.Index])
			return
		}
		set(x, st.Symbolic(fmt.Sprintf("%s#%d", t.VKey(), x.Index), x.Type()))
	case *ssa.MapUpdate:
		m := in.val(st, fr, x.Map)
		k, v := in.val(st, fr, x.Key), in.val(st, fr, x.Value)
		in.event(st, fr, &Event{Kind: "mapupdate", Recv: m, Args: []Value{k, v}, Pos: x.Pos(), Instr: x})
		if p := in.mapPtr(st, fr, m, x.Pos(), true); p != nil {
			if in.OnAccess != nil {
				in.OnAccess(st, fr.fn, p, true, x.Pos(), x)
			}
			mo := st.mapObj(p)
			nl := append(mo.Log[:len(mo.Log):len(mo.Log)], MapEnt{K: k, V: v})
			st.Store(p, &MapObj{Base: mo.Base, Log: nl})
		}
		if o, ok := k.(*IfaceV); ok {
			if !types.Comparable(o.Dyn) {
				in.obl(st, fr, "mapkey", x.Pos(), false, "unhashable map key "+o.Dyn.String())
			}
		} else if o, ok := k.(*OpaqueV); ok && types.IsInterface(o.T) {
			in.obl(st, fr, "mapkey", x.Pos(), false, "map key of interface type may be unhashable: "+o.Key)
		}
	case *ssa.Send:
		if c, p := st.Chan(in.val(st, fr, x.Chan)); c != nil {
			ok, panics := st.ChanSend(p, c, in.val(st, fr, x.X))
			if panics {
				in.obl(st, fr, "chan", x.Pos(), false, "send on a closed channel")
				st.dead = true
				return
			}
			if !ok {
				in.obl(st, fr, "block", x.Pos(), false, "send blocks for ever")
				st.dead = true
				return
			}
		}
		in.event(st, fr, &Event{Kind: "send", Recv: in.val(st, fr, x.Chan), Args: []Value{in.val(st, fr, x.X)}, Pos: x.Pos(), Instr: x})
	case *ssa.Go:
		f, args := in.calleeArgs(st, fr, x.Common())
		in.event(st, fr, &Event{Kind: "go", Recv: f, Args: args, Pos: x.Pos(), Instr: x, Fn: x.Common().StaticCallee(), Name: calleeName(x.Common())})
	case *ssa.Defer:
		f, args := in.calleeArgs(st, fr, x.Common())
		fr.defers = append(fr.defers, deferred{call: x, fn: f, args: args})
	case *ssa.Range:
		if p, ok := in.val(st, fr, x.X).(*PtrV); ok {
			if m, ok := st.Load(p).(*MapObj); ok {
				if in.OnAccess != nil {
					in.OnAccess(st, fr.fn, p, false, x.Pos(), x)
				}
				if es, ok := m.entries(); ok {
					set(x, st.Alloc(nil, &IterV{Ents: es}, "range"))
					break
				}
			}
		}
		set(x, &OpaqueV{Key: fmt.Sprintf("range(%s)#%d", in.val(st, fr, x.X).VKey(), st.nextSeq()), T: x.Type()})
	case *ssa.SliceToArrayPointer:
		set(x, opq(st, "s2a", x.Type(), in.val(st, fr, x.X)))
	default:
		if v, ok := ins.(ssa.Value); ok {
			set(v, st.Symbolic(fmt.Sprintf("unk#%d", st.nextSeq()), v.Type()))
		}
	}
}

func (st *State) mapObj(p *PtrV) *MapObj {
	v := st.Load(p)
	if m, ok := v.(*MapObj); ok {
		return m
	}
	return &MapObj{Base: v.VKey()}
}

func (in *Interp) mapPtr(st *State, fr *frame, m Value, pos token.Pos, write bool) *PtrV {
	switch x := m.(type) {
	case *PtrV:
		return x
	case NilV:
		if write {
			in.obl(st, fr, "nilmap", pos, false, "assignment to nil map")
			st.dead = true
		}
		return nil
	case *OpaqueV:
		if write {
			in.need(st, fr, "nilmap", pos, st.IsNil(x).Not(), "map may be nil: "+x.Key)
		}
		id := st.symObj("*"+x.Key, func() Value { return &MapObj{Base: x.Key} })
		if h := st.heap[id]; h.T == nil {
			st.wheap()[id] = &HObj{T: x.T, V: h.V, Label: h.Label}
		}
		return &PtrV{Obj: id}
	}
	return nil
}

func (in *Interp) indexAddr(st *State, fr *frame, x *ssa.IndexAddr) {
	base := in.val(st, fr, x.X)
	i, ok := in.val(st, fr, x.Index).(*Lin)
	if !ok {
		i = IntAtom(fmt.Sprintf("idx#%d", st.nextSeq()), x.Index.Type())
	}
	i = st.Norm(i)
	switch b := base.(type) {
	case *SliceV:
		why := fmt.Sprintf("index %s vs length %s", i.Key(), b.Len.Key())
		if !in.need(st, fr, "index", x.Pos(), BGE(i), "negative "+why) {
			return
		}
		if !in.need(st, fr, "index", x.Pos(), BGE(AddK(Sub(b.Len, i), -1)), why) {
			return
		}
		if b.Ptr == nil {
			st.dead = true
			return
		}
		fr.env[x] = &PtrV{Obj: b.Ptr.Obj, Path: append(b.Ptr.Path[:len(b.Ptr.Path):len(b.Ptr.Path)], Sel{Idx: Add(b.Off, i)})}
		return
	default:
		p := in.asPtr(st, fr, base, x.Pos(), x.X.Name())
		if p == nil {
			return
		}
		if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			why := fmt.Sprintf("index %s vs array length %d", i.Key(), at.Len())
			in.need(st, fr, "index", x.Pos(), BGE(i), "negative "+why)
			in.need(st, fr, "index", x.Pos(), BGE(AddK(Sub(K(at.Len()), i), -1)), why)
		}
		fr.env[x] = &PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], Sel{Idx: i})}
	}
}

func (in *Interp) slice(st *State, fr *frame, x *ssa.Slice) {
	base := in.val(st, fr, x.X)
	get := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		if l, ok := in.val(st, fr, v).(*Lin); ok {
			return st.Norm(l)
		}
		return IntAtom(fmt.Sprintf("idx#%d", st.nextSeq()), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	switch b := base.(type) {
	case *StrV:
		if lo == nil {
			lo = K(0)
		}
		if hi == nil {
			hi = b.Len
		}
		in.need(st, fr, "slice", x.Pos(), BGE(Sub(b.Len, hi)), fmt.Sprintf("string slice bound %s vs length %s", hi.Key(), b.Len.Key()))
		in.need(st, fr, "slice", x.Pos(), BGE(lo), "negative slice bound")
		in.need(st, fr, "slice", x.Pos(), BGE(Sub(hi, lo)), fmt.Sprintf("slice bounds %s:%s", lo.Key(), hi.Key()))
		fr.env[x] = &StrV{C: b.C, Off: Add(b.Off, lo), Len: Sub(hi, lo)}
		return
	case *SliceV:
		if lo == nil {
			lo = K(0)
		}
		limit := b.Cap
		if hi == nil {
			hi = b.Len
			limit = b.Len
		}
		if x.High != nil {
			// slicing beyond len but within cap exposes stale bytes; the
			// language allows it, so only cap is a safety bound.
			limit = b.Cap
		}
		if mx != nil {
			in.need(st, fr, "slice", x.Pos(), BGE(Sub(b.Cap, mx)), "slice max beyond cap")
			limit = mx
		}
		in.need(st, fr, "slice", x.Pos(), BGE(Sub(limit, hi)), fmt.Sprintf("slice bound %s vs capacity %s", hi.Key(), limit.Key()))
		in.need(st, fr, "slice", x.Pos(), BGE(lo), "negative slice bound")
		in.need(st, fr, "slice", x.Pos(), BGE(Sub(hi, lo)), fmt.Sprintf("slice bounds %s:%s", lo.Key(), hi.Key()))
		if x.High != nil && st.Eval(BGE(Sub(b.Len, hi))) <= 0 {
			in.event(st, fr, &Event{Kind: "overslice", Recv: b, Args: []Value{hi, b.Len}, Pos: x.Pos(), Instr: x})
		}
		if b.Ptr == nil {
			fr.env[x] = b
			return
		}
		cp := Sub(b.Cap, lo)
		if mx != nil {
			cp = Sub(mx, lo)
		}
		na := ""
		if b.NilAtom != "" && x.Low == nil && x.High == nil {
			na = b.NilAtom
		}
		fr.env[x] = &SliceV{Ptr: b.Ptr, Off: Add(b.Off, lo), Len: Sub(hi, lo), Cap: cp, NilAtom: na, Elem: b.Elem}
		return
	}
	// pointer to array
	if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
		p := in.asPtr(st, fr, base, x.Pos(), x.X.Name())
		if p == nil {
			return
		}
		n := K(at.Len())
		if lo == nil {
			lo = K(0)
		}
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		in.need(st, fr, "slice", x.Pos(), BGE(Sub(mx, hi)), fmt.Sprintf("slice bound %s vs array length %s", hi.Key(), n.Key()))
		in.need(st, fr, "slice", x.Pos(), BGE(lo), "negative slice bound")
		in.need(st, fr, "slice", x.Pos(), BGE(Sub(hi, lo)), fmt.Sprintf("slice bounds %s:%s", lo.Key(), hi.Key()))
		fr.env[x] = &SliceV{Ptr: p, Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo), Elem: at.Elem()}
		return
	}
	fr.env[x] = opq(st, fmt.Sprintf("slice%d", st.nextSeq()), x.Type(), base)
}

// wouldBlock reports a receive or select whose channels are known and not ready.
func (in *Interp) wouldBlock(st *State, fr *frame, ins ssa.Instruction) bool {
	ready := func(v ssa.Value, send bool) bool {
		c, _ := st.Chan(in.val(st, fr, v))
		return c == nil || c.Closed || send && int64(len(c.Buf)) < c.Cap || !send && len(c.Buf) > 0
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW && !ready(x.X, false)
	case *ssa.Send:
		return !ready(x.Chan, true)
	case *ssa.Select:
		for _, s := range x.States {
			if ready(s.Chan, s.Dir == types.SendOnly) {
				return false
			}
		}
		return x.Blocking
	}
	return false
}

// forking instructions that may split the state.
func (in *Interp) forking(st *State, fr *frame, ins ssa.Instruction) []Outcome {
	switch x := ins.(type) {
	case *ssa.TypeAssert:
		return in.typeAssert(st, fr, x)
	case *ssa.Lookup:
		m := in.val(st, fr, x.X)
		k := in.val(st, fr, x.Index)
		if s, ok := m.(*StrV); ok {
			i, _ := k.(*Lin)
			if i != nil {
				in.need(st, fr, "index", x.Pos(), BGE(i), "negative index")
				in.need(st, fr, "index", x.Pos(), BGE(AddK(Sub(s.Len, i), -1)), fmt.Sprintf("index %s vs string length %s", i.Key(), s.Len.Key()))
				return []Outcome{{Kind: Ret, St: st, Ret: st.ArrRead(s.C, Add(s.Off, i))}}
			}
			return []Outcome{{Kind: Ret, St: st, Ret: st.Symbolic(fmt.Sprintf("stridx#%d", st.nextSeq()), x.Type())}}
		}
		mt, _ := x.X.Type().Underlying().(*types.Map)
		ev := in.event(st, fr, &Event{Kind: "maplookup", Recv: m, Args: []Value{k}, Pos: x.Pos(), Instr: x})
		mk := func(v Value, ok bool) Value {
			if x.CommaOk {
				return &TupleV{[]Value{v, BConst(ok)}}
			}
			return v
		}
		var mo *MapObj
		if p := in.mapPtr(st, fr, m, x.Pos(), false); p != nil {
			if in.OnAccess != nil {
				in.OnAccess(st, fr.fn, p, false, x.Pos(), x)
			}
			mo = st.mapObj(p)
		} else {
			mo = &MapObj{}
		}
		var res []Outcome
		cur := st
		for i := len(mo.Log) - 1; i >= 0; i-- {
			e := mo.Log[i]
			c := in.equal(cur, e.K, k, mt.Key())
			r := cur.Eval(c)
			hit := func(s *State) Outcome {
				if e.Del {
					return Outcome{Kind: Ret, St: s, Ret: mk(s.Zero(mt.Elem()), false)}
				}
				return Outcome{Kind: Ret, St: s, Ret: mk(e.V, true)}
			}
			if r > 0 {
				return append(res, hit(cur))
			}
			if r < 0 {
				continue
			}
			s2 := cur.Fork()
			if s2.Assume(c, true) {
				res = append(res, hit(s2))
			}
			if !cur.Assume(c, false) {
				return res
			}
		}
		if mo.Base == "" {
			return append(res, Outcome{Kind: Ret, St: cur, Ret: mk(cur.Zero(mt.Elem()), false)})
		}
		key := fmt.Sprintf("%s[%s]", mo.Base, k.VKey())
		v := cur.Symbolic(key, mt.Elem())
		ev.Ret = v
		has := BAtom("has(" + key + ")")
		s2 := cur.Fork()
		if cur.Assume(has, true) {
			res = append(res, Outcome{Kind: Ret, St: cur, Ret: mk(v, true)})
		}
		if s2.Assume(has, false) {
			res = append(res, Outcome{Kind: Ret, St: s2, Ret: mk(s2.Zero(mt.Elem()), false)})
		}
		return res
	case *ssa.Next:
		it := in.val(st, fr, x.Iter)
		n := st.nextSeq()
		tt := x.Type().(*types.Tuple)
		if p, ok := it.(*PtrV); ok {
			if iv, ok := st.Load(p).(*IterV); ok {
				if iv.Pos >= len(iv.Ents) {
					return []Outcome{{Kind: Ret, St: st, Ret: &TupleV{[]Value{BConst(false), NilV{}, NilV{}}}}}
				}
				e := iv.Ents[iv.Pos]
				st.Store(p, &IterV{Ents: iv.Ents, Pos: iv.Pos + 1})
				return []Outcome{{Kind: Ret, St: st, Ret: &TupleV{[]Value{BConst(true), e.K, e.V}}}}
			}
		}
		if x.IsString {
			return []Outcome{{Kind: Ret, St: st, Ret: &TupleV{[]Value{BAtom(fmt.Sprintf("next#%d", n)), IntAtom(fmt.Sprintf("nexti#%d", n), types.Typ[types.Int]), IntAtom(fmt.Sprintf("nextr#%d", n), types.Typ[types.Int32])}}}}
		}
		mkv := func(i int, nm string) Value {
			t := tt.At(i).Type()
			if t == types.Typ[types.Invalid] || t == nil {
				return NilV{}
			}
			return st.Symbolic(fmt.Sprintf("%s#%d(%s)", nm, n, it.VKey()), t)
		}
		return []Outcome{{Kind: Ret, St: st, Ret: &TupleV{[]Value{BAtom(fmt.Sprintf("next#%d", n)), mkv(1, "key"), mkv(2, "val")}}}}
	case *ssa.Select:
		if os, ok := in.selectKnown(st, fr, x); ok {
			return os
		}
		var res []Outcome
		n := st.nextSeq()
		tt := x.Type().(*types.Tuple)
		emit := func(idx int) {
			s := st.Fork()
			t := &TupleV{E: []Value{K(int64(idx)), BAtom(fmt.Sprintf("selok#%d", n))}}
			for i := 2; i < tt.Len(); i++ {
				t.E = append(t.E, s.Symbolic(fmt.Sprintf("selrecv#%d.%d", n, i), tt.At(i).Type()))
			}
			ev := &Event{Kind: "select", Name: "default", Pos: x.Pos(), Instr: x}
			if idx >= 0 {
				c := x.States[idx]
				ev.Recv = in.val(s, fr, c.Chan)
				if c.Dir == types.SendOnly {
					ev.Name = "send"
					ev.Args = []Value{in.val(s, fr, c.Send)}
				} else {
					ev.Name = "recv"
				}
			}
			in.event(s, fr, ev)
			res = append(res, Outcome{Kind: Ret, St: s, Ret: t})
		}
		for i := range x.States {
			emit(i)
		}
		if !x.Blocking {
			emit(-1)
		}
		return res
	}
	return nil
}

func (in *Interp) typeAssert(st *State, fr *frame, x *ssa.TypeAssert) []Outcome {
	v := in.val(st, fr, x.X)
	T := x.AssertedType
	okv := func(s *State, r Value) Outcome {
		if x.CommaOk {
			return Outcome{Kind: Ret, St: s, Ret: &TupleV{[]Value{r, BConst(true)}}}
		}
		return Outcome{Kind: Ret, St: s, Ret: r}
	}
	bad := func(s *State, why string) Outcome {
		if x.CommaOk {
			return Outcome{Kind: Ret, St: s, Ret: &TupleV{[]Value{s.Zero(T), BConst(false)}}}
		}
		in.obl(s, fr, "assert", x.Pos(), false, why)
		return Outcome{Kind: Panic, St: s, Why: why}
	}
	good := func(s *State, r Value) Outcome {
		if !x.CommaOk {
			in.obl(s, fr, "assert", x.Pos(), true, "")
		}
		return okv(s, r)
	}
	matches := func(dyn types.Type) bool {
		if it, ok := T.Underlying().(*types.Interface); ok {
			return types.Implements(dyn, it)
		}
		return types.Identical(dyn, T)
	}
	switch a := v.(type) {
	case NilV:
		return []Outcome{bad(st, "type assertion on nil interface to "+T.String())}
	case *IfaceV:
		if matches(a.Dyn) {
			if types.IsInterface(T) {
				return []Outcome{good(st, a)}
			}
			return []Outcome{good(st, a.V)}
		}
		return []Outcome{bad(st, fmt.Sprintf("type assertion of %s to %s", a.Dyn, T))}
	case *OpaqueV:
		if d := st.dyn[a.Key]; d != nil {
			if matches(d) {
				if types.IsInterface(T) {
					return []Outcome{good(st, a)}
				}
				return []Outcome{good(st, st.Symbolic(a.Key+".("+T.String()+")", T))}
			}
			return []Outcome{bad(st, fmt.Sprintf("type assertion of %s to %s", d, T))}
		}
		nk := a.Key + " is " + T.String()
		if st.ndyn[nk] {
			return []Outcome{bad(st, "type assertion to "+T.String())}
		}
		nilc := st.IsNil(a)
		if st.Eval(nilc) > 0 {
			return []Outcome{bad(st, "type assertion on nil interface to "+T.String())}
		}
		if types.IsInterface(T) {
			if b, ok := st.bools["impl:"+nk]; ok && b {
				return []Outcome{good(st, &OpaqueV{Key: a.Key, T: T})}
			}
			if a.T != nil && types.IsInterface(a.T) && types.Implements(a.T, T.Underlying().(*types.Interface)) && st.Eval(nilc) < 0 {
				return []Outcome{good(st, &OpaqueV{Key: a.Key, T: T})}
			}
		}
		s2 := st.Fork()
		var res []Outcome
		if st.Eval(nilc) < 0 || st.Assume(nilc, false) {
			var r Value
			if types.IsInterface(T) {
				st.SetBool("impl:"+nk, true)
				r = &OpaqueV{Key: a.Key, T: T}
			} else {
				st.wdyn()
				st.dyn[a.Key] = T
				r = st.Symbolic(a.Key+".("+T.String()+")", T)
			}
			res = append(res, okv(st, r))
		}
		s2.wdyn()
		s2.ndyn[nk] = true
		res = append(res, bad(s2, fmt.Sprintf("unchecked type assertion of %s to %s", a.Key, T)))
		return res
	}
	return []Outcome{okv(st, st.Symbolic(fmt.Sprintf("assert#%d", st.nextSeq()), T))}
}

func (in *Interp) calleeArgs(st *State, fr *frame, c *ssa.CallCommon) (Value, []Value) {
	f := in.val(st, fr, c.Value)
	var args []Value
	for _, a := range c.Args {
		args = append(args, in.val(st, fr, a))
	}
	return f, args
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return Name(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

func (in *Interp) callInstr(st *State, fr *frame, x *ssa.Call) []Outcome {
	f, args := in.calleeArgs(st, fr, x.Common())
	return in.invoke(st, fr, x, f, args)
}

// invoke performs a call with evaluated operands.
func (in *Interp) invoke(st *State, fr *frame, site ssa.CallInstruction, f Value, args []Value) []Outcome {
	c := site.Common()
	var retT types.Type = c.Signature().Results()
	if c.Signature().Results().Len() == 1 {
		retT = c.Signature().Results().At(0).Type()
	}
	pos := site.Pos()
	if c.IsInvoke() {
		cc := &CallCtx{In: in, St: st, Name: c.Method.FullName(), Args: append([]Value{f}, args...), Instr: site, Fr: fr, RetT: retT}
		switch r := f.(type) {
		case *IfaceV:
			fn := in.Prog.LookupMethod(r.Dyn, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				return in.static(st, fr, site, fn, append([]Value{r.V}, args...), nil, retT)
			}
		case NilV:
			in.obl(st, fr, "nil", pos, false, "method call "+c.Method.Name()+" on nil interface")
			return nil
		case *OpaqueV:
			if d := st.dyn[r.Key]; d != nil {
				if fn := in.Prog.LookupMethod(d, c.Method.Pkg(), c.Method.Name()); fn != nil && in.inlines(fn) {
					return in.static(st, fr, site, fn, append([]Value{st.Symbolic(r.Key+".("+d.String()+")", d)}, args...), nil, retT)
				}
			}
			if !in.need(st, fr, "nil", pos, st.IsNil(r).Not(), "method call "+c.Method.Name()+" on possibly nil "+r.Key) {
				return nil
			}
		}
		if h, ok := in.Hooks[cc.Name]; ok {
			if os, done := h(cc); done {
				return os
			}
		}
		if in.OpaqueCB != nil {
			if os, done := in.OpaqueCB(cc, c.Method); done {
				return os
			}
		}
		return in.opaque(cc, f, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, fr, site, b, args, retT)
	}
	switch x := f.(type) {
	case *FuncV:
		return in.static(st, fr, site, x.Fn, args, x.Free, retT)
	case NilV:
		in.obl(st, fr, "nil", pos, false, "call of nil function")
		return nil
	case *OpaqueV:
		if !in.need(st, fr, "nil", pos, st.IsNil(x).Not(), "call of possibly nil function "+x.Key) {
			return nil
		}
	}
	cc := &CallCtx{In: in, St: st, Name: "dynamic", Args: args, Instr: site, Fr: fr, RetT: retT, Free: []Value{f}}
	if in.OpaqueCB != nil {
		if os, done := in.OpaqueCB(cc, nil); done {
			return os
		}
	}
	return in.opaque(cc, f, args, pos)
}

func (in *Interp) static(st *State, fr *frame, site ssa.CallInstruction, fn *ssa.Function, args, free []Value, retT types.Type) []Outcome {
	cc := &CallCtx{In: in, St: st, Fn: fn, Name: Name(fn), Args: args, Instr: site, Fr: fr, Free: free, RetT: retT}
	if h, ok := in.Hooks[cc.Name]; ok {
		if os, done := h(cc); done {
			return os
		}
	}
	if h, ok := stdModels[cc.Name]; ok {
		if os, done := h(cc); done {
			return os
		}
	}
	if in.inlines(fn) {
		n := 0
		for f := fr; f != nil; f = f.caller {
			if f.fn == fn {
				n++
			}
		}
		if n < in.RecLimit {
			os := in.call(st, fr, site, fn, args, free)
			if in.RetEvents && fr != nil {
				for i := range os {
					if os[i].Kind == Ret && os[i].Ret != nil {
						in.event(os[i].St, fr, &Event{Kind: "ret", Name: cc.Name, Fn: fn, Args: args, Ret: os[i].Ret, Pos: site.Pos(), Instr: site.(ssa.Instruction)})
					}
				}
			}
			return os
		}
		in.event(st, fr, &Event{Kind: "recursion", Name: cc.Name, Fn: fn, Args: args, Pos: site.Pos()})
	}
	if in.OpaqueCB != nil {
		if os, done := in.OpaqueCB(cc, nil); done {
			return os
		}
	}
	return in.opaque(cc, nil, args, site.Pos())
}

// Opaque is the default treatment of an unresolved call.
func (in *Interp) opaque(cc *CallCtx, recv Value, args []Value, pos token.Pos) []Outcome {
	st := cc.St
	n := st.nextSeq()
	var r Value
	ev := &Event{Kind: "call", Name: cc.Name, Fn: cc.Fn, Recv: recv, Args: args, Pos: pos, Instr: cc.Instr.(ssa.Instruction)}
	in.event(st, cc.Fr, ev)
	if cc.RetT != nil {
		if tt, ok := cc.RetT.(*types.Tuple); !ok || tt.Len() > 0 {
			short := cc.Name
			if i := strings.LastIndex(short, "/"); i >= 0 {
				short = short[i+1:]
			}
			r = st.Symbolic(fmt.Sprintf("%s#%d", short, n), cc.RetT)
		}
	}
	ev.Ret = r
	// byte buffers handed to code we do not see may be overwritten
	for _, a := range args {
		in.clobber(st, a, n, cc)
	}
	return []Outcome{{Kind: Ret, St: st, Ret: r}}
}

func (in *Interp) clobber(st *State, a Value, n int, cc *CallCtx) {
	s, ok := a.(*SliceV)
	if !ok || s.Ptr == nil {
		return
	}
	if cc.Fn != nil && pureSlice[cc.Name] {
		return
	}
	if cc.Fn == nil {
		// interface and callback parameters receive buffers by convention
		// read-only, except io.Reader-style methods
		if !strings.HasSuffix(cc.Name, ".Read") {
			return
		}
	}
	if av, ok := st.Load(s.Ptr).(*ArrV); ok {
		if cc.In.OnAccess != nil {
			cc.In.OnAccess(st, cc.Fr.fn, s.Ptr, true, cc.Instr.Pos(), cc.Instr.(ssa.Instruction))
		}
		st.Store(s.Ptr, st.ArrBlock(av, s.Off, s.Len, &ArrV{Elem: av.Elem, Base: fmt.Sprintf("io#%d", n)}, K(0)))
	}
}

var pureSlice = map[string]bool{
	"bytes.Equal": true, "bytes.NewReader": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Errorf": true, "fmt.Sprintf": true,
	"encoding/hex.EncodeToString": true, "(*bufio.Writer).Write": true, "(*bytes.Buffer).Write": true, "crypto/sha1.Sum": true,
}

// Opaque exposes the default call treatment to hooks.
func (c *CallCtx) Opaque() []Outcome {
	return c.In.opaque(c, nil, c.Args, c.Instr.Pos())
}

// Opaque2 is the default treatment, for callbacks that stand in for it.
func (c *CallCtx) Opaque2() []Outcome {
	if len(c.Args) > 0 && c.Instr.Common().IsInvoke() {
		return c.In.opaque(c, c.Args[0], c.Args[1:], c.Instr.Pos())
	}
	if len(c.Free) > 0 && c.Fn == nil {
		return c.In.opaque(c, c.Free[0], c.Args, c.Instr.Pos())
	}
	return c.In.opaque(c, nil, c.Args, c.Instr.Pos())
}

// Return is a helper for hooks.
func (c *CallCtx) Return(v Value) ([]Outcome, bool) {
	return []Outcome{{Kind: Ret, St: c.St, Ret: v}}, true
}

// Event records an event from a hook.
func (c *CallCtx) Event(e *Event) *Event {
	if e.Pos == token.NoPos {
		e.Pos = c.Instr.Pos()
	}
	if e.Name == "" {
		e.Name = c.Name
	}
	e.Fn = c.Fn
	if e.Args == nil {
		e.Args = c.Args
	}
	e.Instr = c.Instr.(ssa.Instruction)
	return c.In.event(c.St, c.Fr, e)
}

var _ = constant.Bool

// Frame and Pos name the hook parameter types outside the package.
type Frame = *frame
type Pos = token.Pos
