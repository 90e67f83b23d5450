package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type HObj struct {
	T     types.Type
	V     Value
	Label string
}

type bnd struct{ lo, hi *big.Int }

// Event is one observable step on an abstract path.
type Event struct {
	Kind   string // call, go, defer, send, recv, close, select, store, load, lock, unlock, make, mapupdate, mapdelete, maplookup, loop, panic, assert
	Name   string
	Fn     *ssa.Function // callee when static
	Recv   Value
	Args   []Value
	Ret    Value
	Pos    token.Pos
	In     *ssa.Function // function containing the instruction
	St     *State        // snapshot before the event
	Sub    [][]*Event    // loop bodies
	SubEnd []*State      // states at the end of those bodies
	Pre    *State        // state before a widened loop
	Instr  ssa.Instruction
	Depth  int
}

func (e *Event) String() string {
	s := e.Kind + " " + e.Name
	if e.Recv != nil {
		s += " recv=" + e.Recv.VKey()
	}
	for _, a := range e.Args {
		if a == nil {
			s += ", <nil>"
			continue
		}
		k := a.VKey()
		if len(k) > 160 {
			k = k[:160] + "…"
		}
		s += ", " + k
	}
	return s
}

type Lock struct {
	Key  string
	Ptr  Value
	Read bool
	Pos  token.Pos
}

type State struct {
	heap    map[int]*HObj
	heapSh  bool
	nextObj int
	syms    map[string]int
	symsSh  bool
	bnds    map[int]bnd
	bndsSh  bool
	bools   map[string]bool
	boolsSh bool
	dyn     map[string]types.Type
	ndyn    map[string]bool
	dynSh   bool
	facts   []*Lin
	Events  []*Event
	Locks   []Lock
	seq     int
	Forks   int
	// Panicking: a panic is unwinding the stack
	Panicking bool
	dead      bool
	tdepth    int // nesting of propagate
}

func NewState() *State {
	return &State{heap: map[int]*HObj{}, syms: map[string]int{}, bnds: map[int]bnd{}, bools: map[string]bool{}, dyn: map[string]types.Type{}, ndyn: map[string]bool{}, nextObj: 1}
}

func (st *State) Fork() *State {
	st.heapSh, st.symsSh, st.bndsSh, st.boolsSh, st.dynSh = true, true, true, true, true
	c := *st
	c.facts = st.facts[:len(st.facts):len(st.facts)]
	c.Events = st.Events[:len(st.Events):len(st.Events)]
	st.facts = c.facts
	st.Events = c.Events
	c.Locks = append([]Lock(nil), st.Locks...)
	return &c
}

func (st *State) wheap() map[int]*HObj {
	if st.heapSh {
		m := make(map[int]*HObj, len(st.heap)+4)
		for k, v := range st.heap {
			m[k] = v
		}
		st.heap, st.heapSh = m, false
	}
	return st.heap
}
func (st *State) wsyms() map[string]int {
	if st.symsSh {
		m := make(map[string]int, len(st.syms)+4)
		for k, v := range st.syms {
			m[k] = v
		}
		st.syms, st.symsSh = m, false
	}
	return st.syms
}
func (st *State) wbnds() map[int]bnd {
	if st.bndsSh {
		m := make(map[int]bnd, len(st.bnds)+4)
		for k, v := range st.bnds {
			m[k] = v
		}
		st.bnds, st.bndsSh = m, false
	}
	return st.bnds
}
func (st *State) wbools() map[string]bool {
	if st.boolsSh {
		m := make(map[string]bool, len(st.bools)+4)
		for k, v := range st.bools {
			m[k] = v
		}
		st.bools, st.boolsSh = m, false
	}
	return st.bools
}
func (st *State) wdyn() {
	if st.dynSh {
		m := make(map[string]types.Type, len(st.dyn)+2)
		for k, v := range st.dyn {
			m[k] = v
		}
		n := make(map[string]bool, len(st.ndyn)+2)
		for k, v := range st.ndyn {
			n[k] = v
		}
		st.dyn, st.ndyn, st.dynSh = m, n, false
	}
}

func (st *State) bounds(a *Atom) (*big.Int, *big.Int) {
	lo, hi := a.Lo, a.Hi
	if b, ok := st.bnds[a.ID]; ok {
		lo, hi = b.lo, b.hi
	}
	if a.Op == "shr" { // what is known of the source bounds the shifted value
		slo, shi := st.Range(a.Args[0])
		if slo.Rsh(slo, uint(a.N)); slo.Cmp(lo) > 0 {
			lo = slo
		}
		if shi.Rsh(shi, uint(a.N)); shi.Cmp(hi) < 0 {
			hi = shi
		}
	}
	return lo, hi
}

// Alloc creates a fresh object holding v.
func (st *State) Alloc(t types.Type, v Value, label string) *PtrV {
	id := st.nextObj
	st.nextObj++
	st.wheap()[id] = &HObj{T: t, V: v, Label: label}
	return &PtrV{Obj: id}
}

func (st *State) symObj(key string, mk func() Value) int {
	if id, ok := st.syms[key]; ok {
		return id
	}
	id := st.nextObj
	st.nextObj++
	st.wheap()[id] = &HObj{V: mk(), Label: "sym:" + key}
	st.wsyms()[key] = id
	return id
}

// Pointee returns the object behind an opaque pointer.
func (st *State) Pointee(o *OpaqueV) *PtrV {
	pt, _ := o.T.Underlying().(*types.Pointer)
	var et types.Type
	if pt != nil {
		et = pt.Elem()
	}
	id := st.symObj("*"+o.Key, func() Value {
		if et == nil {
			return &OpaqueV{Key: "*" + o.Key}
		}
		return st.Symbolic(o.Key+"^", et)
	})
	if h := st.heap[id]; h.T == nil && et != nil {
		st.wheap()[id] = &HObj{T: et, V: h.V, Label: h.Label}
	}
	return &PtrV{Obj: id}
}

func (st *State) Obj(id int) *HObj { return st.heap[id] }

// Expand makes struct fields of an opaque struct explicit.
func (st *State) expand(v Value, t types.Type) Value {
	if o, ok := v.(*OpaqueV); ok {
		if s, ok := o.T.Underlying().(*types.Struct); ok {
			sv := &StructV{}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				sv.F = append(sv.F, st.Symbolic(o.Key+"."+f.Name(), f.Type()))
			}
			return sv
		}
	}
	return v
}

// Load reads through a pointer.
func (st *State) Load(p *PtrV) Value {
	h := st.heap[p.Obj]
	if h == nil {
		return &OpaqueV{Key: "dangling"}
	}
	v := h.V
	for _, s := range p.Path {
		v = st.child(v, s)
	}
	return v
}

func (st *State) child(v Value, s Sel) Value {
	v = st.expand(v, nil)
	switch x := v.(type) {
	case *StructV:
		if s.Idx == nil && s.Field < len(x.F) {
			return x.F[s.Field]
		}
	case *ArrV:
		if s.Idx != nil {
			return st.ArrRead(x, s.Idx)
		}
	}
	return &OpaqueV{Key: fmt.Sprintf("child(%s,%d)", v.VKey(), s.Field), T: types.Typ[types.Invalid]}
}

func (st *State) setChild(v Value, path []Sel, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	v = st.expand(v, nil)
	s := path[0]
	switch x := v.(type) {
	case *StructV:
		if s.Idx == nil && s.Field < len(x.F) {
			c := &StructV{F: append([]Value(nil), x.F...)}
			c.F[s.Field] = st.setChild(x.F[s.Field], path[1:], nv)
			return c
		}
	case *ArrV:
		if s.Idx != nil {
			var e Value = nv
			if len(path) > 1 {
				e = st.setChild(st.ArrRead(x, s.Idx), path[1:], nv)
			}
			return st.ArrWrite(x, s.Idx, e)
		}
	}
	return &OpaqueV{Key: fmt.Sprintf("upd%d", st.nextSeq()), T: types.Typ[types.Invalid]}
}

func (st *State) Store(p *PtrV, v Value) {
	h := st.heap[p.Obj]
	if h == nil {
		return
	}
	nv := st.setChild(h.V, p.Path, v)
	st.wheap()[p.Obj] = &HObj{T: h.T, V: nv, Label: h.Label}
}

func (st *State) nextSeq() int { st.seq++; return st.seq }

// ---- arrays -----------------------------------------------------------------

func (st *State) ArrWrite(a *ArrV, idx *Lin, v Value) *ArrV {
	ws := make([]AW, 0, len(a.Ws)+1)
	for _, w := range a.Ws {
		if w.Val != nil && LinEq(w.Off, idx) {
			continue
		}
		ws = append(ws, w)
	}
	return &ArrV{Elem: a.Elem, N: a.N, Base: a.Base, Ws: append(ws, AW{Off: idx, Val: v})}
}

func (st *State) ArrBlock(a *ArrV, off, n *Lin, src *ArrV, soff *Lin) *ArrV {
	if c, ok := n.Int64(); ok && c == 0 {
		return a
	}
	if c, ok := n.Int64(); ok && c <= 64 {
		r := a
		for i := int64(0); i < c; i++ {
			r = st.ArrWrite(r, AddK(off, i), st.ArrRead(src, AddK(soff, i)))
		}
		return r
	}
	ws := append(append([]AW(nil), a.Ws...), AW{Off: off, Len: n, Src: src, SOff: soff})
	return &ArrV{Elem: a.Elem, N: a.N, Base: a.Base, Ws: ws}
}

func (st *State) baseElem(a *ArrV, idx *Lin) Value {
	if a.Base == "" {
		return st.Zero(a.Elem)
	}
	if a.Base[0] == '=' {
		if i, ok := idx.Int64(); ok && i >= 0 && i < int64(len(a.Base)-1) {
			return K(int64(a.Base[1+i]))
		}
		return st.Symbolic(fmt.Sprintf("(%s)[%s]", strKey(a.Base), idx.Key()), a.Elem)
	}
	return st.Symbolic(fmt.Sprintf("%s[%s]", a.Base, idx.Key()), a.Elem)
}

func strKey(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s..%x", s[:40], hash(s))
	}
	return s
}

func (st *State) ArrRead(a *ArrV, idx *Lin) Value {
	if !idx.IsConst() {
		if t, ok := a.ConstTable(); ok {
			if l := st.tableRead(t, idx); l != nil {
				return l
			}
		}
	}
	for i := len(a.Ws) - 1; i >= 0; i-- {
		w := a.Ws[i]
		d := Sub(idx, w.Off)
		if w.Val != nil {
			if st.ProveEQ(d) {
				return w.Val
			}
			if st.ProveGE(AddK(d, -1)) || st.ProveGE(AddK(Scale(d, bM1), -1)) {
				continue
			}
		} else {
			before := st.ProveGE(AddK(Scale(d, bM1), -1))
			after := st.ProveGE(Sub(d, w.Len))
			if before || after {
				continue
			}
			if st.ProveGE(d) && st.ProveGE(AddK(Sub(w.Len, d), -1)) {
				return st.ArrRead(w.Src, Add(w.SOff, d))
			}
		}
		return st.Symbolic(fmt.Sprintf("mix%x[%s]", hash(a.VKey()), idx.Key()), a.Elem)
	}
	return st.baseElem(a, idx)
}

// Block canonicalises the n elements of a from off: following block copies to
// their source when exactly one covers the range.
func (st *State) Block(a *ArrV, off, n *Lin) (*ArrV, *Lin) {
	for i := len(a.Ws) - 1; i >= 0; i-- {
		w := a.Ws[i]
		d := Sub(off, w.Off) // off - w.Off
		var wl *Lin
		if w.Val != nil {
			wl = K(1)
		} else {
			wl = w.Len
		}
		// disjoint: off >= w.Off+wl  or  off+n <= w.Off
		if st.ProveGE(Sub(d, wl)) || st.ProveGE(Sub(Scale(d, bM1), n)) {
			continue
		}
		if w.Val == nil && st.ProveGE(d) && st.ProveGE(Sub(Sub(wl, d), n)) {
			return st.Block(w.Src, Add(w.SOff, d), n)
		}
		return a, off
	}
	if len(a.Ws) > 0 {
		a = &ArrV{Elem: a.Elem, N: a.N, Base: a.Base}
	}
	return a, off
}

// SliceContent names the canonical content of a slice or string.
func (st *State) Content(v Value) string {
	switch x := v.(type) {
	case *SliceV:
		if x.Ptr == nil || st.ProveEQ(x.Len) {
			return "empty"
		}
		av, ok := st.Load(x.Ptr).(*ArrV)
		if !ok {
			return "?" + x.VKey()
		}
		return st.arrContent(av, x.Off, x.Len)
	case *StrV:
		if st.ProveEQ(x.Len) {
			return "empty"
		}
		return st.arrContent(x.C, x.Off, x.Len)
	}
	return "?" + v.VKey()
}

func (st *State) arrContent(av *ArrV, off, n *Lin) string {
	if c, ok := n.Int64(); ok && c <= 64 {
		s := "elems"
		for i := int64(0); i < c; i++ {
			s += "|" + st.ArrRead(av, AddK(off, i)).VKey()
		}
		return s
	}
	b, o := st.Block(av, off, n)
	return fmt.Sprintf("%s@%s:+%s", b.VKey(), st.Norm(o).Key(), st.Norm(n).Key())
}

// ---- facts ------------------------------------------------------------------

// AddFact records l >= 0; false if contradictory.
func (st *State) AddFact(l *Lin) bool {
	lo, hi := st.Range(l)
	if hi.Sign() < 0 {
		st.dead = true
		return false
	}
	if lo.Sign() >= 0 {
		return true
	}
	if st.ProveGE(AddK(Scale(l, bM1), -1)) {
		st.dead = true
		return false
	}
	// tighten single-atom bounds
	if len(l.Ts) == 1 {
		t := l.Ts[0]
		alo, ahi := st.bounds(t.A)
		// c*a + k >= 0
		nk := new(big.Int).Neg(l.K)
		if t.C.Sign() > 0 { // a >= ceil(-k/c)
			q := ceilDiv(nk, t.C)
			if q.Cmp(alo) > 0 {
				alo = q
			}
		} else { // a <= floor(k/|c|)
			q := floorDiv(l.K, new(big.Int).Neg(t.C))
			if q.Cmp(ahi) < 0 {
				ahi = q
			}
		}
		if alo.Cmp(ahi) > 0 {
			st.dead = true
			return false
		}
		st.wbnds()[t.A.ID] = bnd{alo, ahi}
		st.propagate(t.A)
		return !st.dead
	}
	st.facts = append(st.facts[:len(st.facts):len(st.facts)], l)
	return st.tighten(l)
}

// tighten bounds each atom of l >= 0 by what the others leave it.
func (st *State) tighten(l *Lin) bool {
	for _, t := range l.Ts {
		_, hi := st.Range(l)
		alo, ahi := st.bounds(t.A)
		// c*a >= -(greatest value of the rest)
		if t.C.Sign() > 0 {
			hi.Sub(hi, new(big.Int).Mul(t.C, ahi))
			if q := ceilDiv(hi.Neg(hi), t.C); q.Cmp(alo) > 0 {
				alo = q
			} else {
				continue
			}
		} else {
			hi.Sub(hi, new(big.Int).Mul(t.C, alo))
			if q := floorDiv(hi, new(big.Int).Neg(t.C)); q.Cmp(ahi) < 0 {
				ahi = q
			} else {
				continue
			}
		}
		if alo.Cmp(ahi) > 0 {
			st.dead = true
			return false
		}
		st.wbnds()[t.A.ID] = bnd{alo, ahi}
		st.propagate(t.A)
		if st.dead {
			return false
		}
	}
	return true
}

// propagate pushes a refined bound through simple derived atoms.
func (st *State) propagate(a *Atom) {
	if a.Op == "table" {
		st.narrowTable(a)
		if st.dead {
			return
		}
	}
	if st.tdepth < 4 {
		st.tdepth++
		fs := st.facts
		for _, f := range fs {
			for _, t := range f.Ts {
				if t.A == a && !st.tighten(f) {
					st.tdepth--
					return
				}
			}
		}
		st.tdepth--
	}
	lo, hi := st.bounds(a)
	switch a.Op {
	case "bits":
		// bounds of a pattern bound the sum of its pieces
		if e := st.expandBits(AtomLin(a)); e != nil {
			rlo, rhi := st.Range(e)
			if lo.Cmp(rlo) > 0 && !st.AddFact(Sub(e, KB(lo))) || hi.Cmp(rhi) < 0 && !st.AddFact(Sub(KB(hi), e)) {
				return
			}
		}
	case "shr":
		x := a.Args[0]
		top := new(big.Int).Add(new(big.Int).Lsh(hi, uint(a.N)), new(big.Int).Sub(pow2(a.N), b1))
		if !st.AddFact(Sub(x, KB(new(big.Int).Lsh(lo, uint(a.N))))) || !st.AddFact(Sub(KB(top), x)) {
			return
		}
	}
	if lo.Cmp(hi) == 0 && a.Op == "bits" {
		// every segment value is now known
		off := 0
		for _, s := range a.Segs {
			v := new(big.Int).Rsh(lo, uint(off))
			v.And(v, new(big.Int).Sub(pow2(s.W), b1))
			off += s.W
			if s.Src.IsConst() || s.Lo != 0 {
				continue
			}
			if _, h := st.Range(s.Src); h.BitLen() <= s.W {
				if l, _ := st.Range(s.Src); l.Sign() >= 0 {
					st.AddFact(Sub(s.Src, KB(v)))
					st.AddFact(Sub(KB(v), s.Src))
				}
			}
		}
	}
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}
func ceilDiv(a, b *big.Int) *big.Int {
	q := floorDiv(new(big.Int).Neg(a), b)
	return q.Neg(q)
}

// Norm replaces atoms whose bounds pin a single value.
func (st *State) Norm(l *Lin) *Lin {
	for _, t := range l.Ts {
		lo, hi := st.bounds(t.A)
		if lo.Cmp(hi) == 0 {
			r := K(0)
			r.K = new(big.Int).Set(l.K)
			for _, u := range l.Ts {
				lo, hi := st.bounds(u.A)
				if lo.Cmp(hi) == 0 {
					r.K.Add(r.K, new(big.Int).Mul(lo, u.C))
				} else {
					r.Ts = append(r.Ts, u)
				}
			}
			return r
		}
	}
	return l
}

// Eval: +1 true, -1 false, 0 unknown.
func (st *State) Eval(b *BoolV) int {
	r := 0
	switch b.Kind {
	case "const":
		if b.B {
			return 1
		}
		return -1
	case "atom":
		if v, ok := st.bools[b.Atom]; ok {
			if v {
				r = 1
			} else {
				r = -1
			}
		}
	case "ge0":
		if st.ProveGE(b.L) {
			r = 1
		} else if st.ProveGE(AddK(Scale(b.L, bM1), -1)) {
			r = -1
		}
	case "eq0":
		l := st.Norm(b.L)
		if st.ProveEQ(l) {
			r = 1
		} else if st.ProveGE(AddK(l, -1)) || st.ProveGE(AddK(Scale(l, bM1), -1)) {
			r = -1
		} else if v, ok := st.bools["eq0:"+b.L.Key()]; ok {
			if v {
				r = 1
			} else {
				r = -1
			}
		} else if v, ok := st.bools["eq0:"+Scale(b.L, bM1).Key()]; ok {
			if v {
				r = 1
			} else {
				r = -1
			}
		} else if st.bitsDiffer(l) {
			r = -1
		}
	}
	if b.Neg {
		r = -r
	}
	return r
}

// bitsDiffer: l == atom(bits) - const where a constant segment disagrees.
func (st *State) bitsDiffer(l *Lin) bool {
	if len(l.Ts) != 1 {
		return false
	}
	t := l.Ts[0]
	if t.A.Op != "bits" {
		return false
	}
	var c *big.Int
	if t.C.Cmp(b1) == 0 {
		c = new(big.Int).Neg(l.K)
	} else if t.C.Cmp(bM1) == 0 {
		c = l.K
	} else {
		return false
	}
	off := 0
	for _, s := range t.A.Segs {
		if k, ok := constSeg(s); ok {
			v := new(big.Int).Rsh(c, uint(off))
			v.And(v, new(big.Int).Sub(pow2(s.W), b1))
			if v.Cmp(k) != 0 {
				return true
			}
		}
		off += s.W
	}
	return false
}

// Assume refines the state; false if infeasible.
func (st *State) Assume(b *BoolV, val bool) bool {
	if b.Neg {
		val = !val
	}
	switch b.Kind {
	case "const":
		if b.B != val {
			st.dead = true
		}
		return b.B == val
	case "atom":
		if v, ok := st.bools[b.Atom]; ok {
			if v != val {
				st.dead = true
			}
			return v == val
		}
		st.wbools()[b.Atom] = val
		if val && len(b.Atom) > 6 && b.Atom[:6] == "isnil(" {
			k := b.Atom[6 : len(b.Atom)-1]
			if a, ok := U.atoms["len("+k+")"]; ok {
				return st.AddFact(Scale(AtomLin(a), bM1))
			}
		}
		return true
	case "ge0":
		if val {
			return st.AddFact(b.L)
		}
		return st.AddFact(AddK(Scale(b.L, bM1), -1))
	case "eq0":
		if val {
			return st.AddFact(b.L) && st.AddFact(Scale(b.L, bM1)) && st.eqAtom(b.L)
		}
		// strict side known?
		if st.ProveGE(b.L) {
			return st.AddFact(AddK(b.L, -1))
		}
		if st.ProveGE(Scale(b.L, bM1)) {
			return st.AddFact(AddK(Scale(b.L, bM1), -1))
		}
		st.wbools()["eq0:"+b.L.Key()] = false
	}
	return true
}

func (st *State) eqAtom(l *Lin) bool {
	if len(l.Ts) == 1 {
		st.propagate(l.Ts[0].A)
		if a := l.Ts[0].A; a.Op == "bits" && l.K.Sign() == 0 {
			// every piece of the pattern is zero
			for _, s := range a.Segs {
				top := s.Lo + s.W
				lo, hi := st.Range(s.Src)
				if s.Src.IsConst() || top == 0 || lo.Cmp(new(big.Int).Neg(pow2(top-1))) < 0 || hi.Cmp(pow2(top)) >= 0 {
					continue
				}
				if lo.Sign() < 0 && hi.Cmp(pow2(top-1)) >= 0 {
					continue
				}
				if !st.AddFact(s.Src) || !st.AddFact(Sub(KB(new(big.Int).Sub(pow2(s.Lo), b1)), s.Src)) {
					return false
				}
			}
		}
	}
	st.wbools()["eq0:"+l.Key()] = true
	return !st.dead
}

// Facts renders the path condition for reports.
func (st *State) Facts() []string {
	var r []string
	for k, v := range st.bools {
		r = append(r, fmt.Sprintf("%s=%v", k, v))
	}
	for _, f := range st.facts {
		r = append(r, f.Key()+">=0")
	}
	return r
}

// BoolFact looks up a recorded boolean.
func (st *State) BoolFact(k string) (bool, bool) { v, ok := st.bools[k]; return v, ok }
func (st *State) SetBool(k string, v bool)       { st.wbools()[k] = v }
func (st *State) DropBool(k string)              { delete(st.wbools(), k) }
func (st *State) Dyn(k string) types.Type        { return st.dyn[k] }

// Objs lists the heap object ids in order.
func (st *State) Objs() []int {
	var r []int
	for id := range st.heap {
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

// IsSym reports whether the object existed before the analysed call (it was
// first met through a symbolic pointer).
func (st *State) IsSym(id int) bool {
	h := st.heap[id]
	return h != nil && (strings.HasPrefix(h.Label, "sym:") || strings.HasPrefix(h.Label, "global:"))
}

// NextObj is the id the next allocated object gets.
func (st *State) NextObj() int { return st.nextObj }

// Bools exposes the decided atoms.
func (st *State) Bools() map[string]bool { return st.bools }
