package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) builtin(st *State, fr *frame, site ssa.CallInstruction, b *ssa.Builtin, args []Value, retT types.Type) []Outcome {
	ret := func(v Value) []Outcome { return []Outcome{{Kind: Ret, St: st, Ret: v}} }
	pos := site.Pos()
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if b.Name() == "cap" {
				return ret(x.Cap)
			}
			return ret(x.Len)
		case *StrV:
			return ret(x.Len)
		case *ArrV:
			if x.N != nil {
				return ret(x.N)
			}
		case NilV:
			return ret(K(0))
		case *PtrV:
			if m, ok := st.Load(x).(*MapObj); ok && m.Base == "" && len(m.Log) == 0 {
				return ret(K(0))
			}
			if a, ok := st.Load(x).(*ArrV); ok && a.N != nil {
				return ret(a.N)
			}
			if c, _ := st.Chan(x); c != nil {
				if b.Name() == "cap" {
					return ret(K(c.Cap))
				}
				return ret(K(int64(len(c.Buf))))
			}
			if m, ok := st.Load(x).(*MapObj); ok {
				if es, ok := m.entries(); ok {
					return ret(K(int64(len(es))))
				}
				return ret(LenAtom(m.VKey()))
			}
		case *OpaqueV:
			return ret(LenAtom(x.Key))
		}
		return ret(LenAtom(args[0].VKey()))
	case "copy":
		return in.copyB(st, fr, site, args)
	case "append":
		return ret(in.appendB(st, fr, site, args))
	case "delete":
		in.event(st, fr, &Event{Kind: "mapdelete", Recv: args[0], Args: args[1:], Pos: pos, Instr: site.(ssa.Instruction)})
		if p := in.mapPtr(st, fr, args[0], pos, false); p != nil {
			if in.OnAccess != nil {
				in.OnAccess(st, fr.fn, p, true, pos, site.(ssa.Instruction))
			}
			mo := st.mapObj(p)
			nl := append(mo.Log[:len(mo.Log):len(mo.Log)], MapEnt{K: args[1], Del: true})
			st.Store(p, &MapObj{Base: mo.Base, Log: nl})
		}
		return ret(nil)
	case "close":
		if c, p := st.Chan(args[0]); c != nil && st.ChanClose(p, c) {
			in.obl(st, fr, "chan", pos, false, "close of a closed channel")
			return []Outcome{{Kind: Panic, St: st, Why: "close of closed channel"}}
		}
		in.event(st, fr, &Event{Kind: "close", Recv: args[0], Pos: pos, Instr: site.(ssa.Instruction)})
		return ret(nil)
	case "panic":
		in.obl(st, fr, "panic", pos, false, "explicit panic")
		return []Outcome{{Kind: Panic, St: st}}
	case "recover":
		if st.Panicking {
			st.Panicking = false
			o := &OpaqueV{Key: fmt.Sprintf("panic#%d", st.nextSeq()), T: retT}
			st.SetBool("isnil("+o.Key+")", false)
			return ret(o)
		}
		return ret(NilV{})
	case "print", "println":
		return ret(nil)
	case "min", "max":
		x, ok1 := args[0].(*Lin)
		y, ok2 := args[1].(*Lin)
		if ok1 && ok2 && len(args) == 2 {
			c := BGE(Sub(y, x)) // x <= y
			if b.Name() == "max" {
				x, y = y, x
			}
			switch st.Eval(c) {
			case 1:
				return ret(x)
			case -1:
				return ret(y)
			}
			s2 := st.Fork()
			var r []Outcome
			if st.Assume(c, true) {
				r = append(r, Outcome{Kind: Ret, St: st, Ret: x})
			}
			if s2.Assume(c, false) {
				r = append(r, Outcome{Kind: Ret, St: s2, Ret: y})
			}
			return r
		}
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "SliceData", "StringData", "String", "Slice", "Add":
		return ret(st.Symbolic(fmt.Sprintf("unsafe.%s#%d", b.Name(), st.nextSeq()), retT))
	case "clear":
		if s, ok := args[0].(*SliceV); ok && s.Ptr != nil {
			if av, ok := st.Load(s.Ptr).(*ArrV); ok {
				st.Store(s.Ptr, st.ArrBlock(av, s.Off, s.Len, &ArrV{Elem: av.Elem}, K(0)))
			}
		}
		return ret(nil)
	}
	if tt, ok := retT.(*types.Tuple); ok && tt.Len() == 0 {
		return ret(nil)
	}
	return ret(st.Symbolic(fmt.Sprintf("%s#%d", b.Name(), st.nextSeq()), retT))
}

func (st *State) srcOf(v Value) (*ArrV, *Lin, *Lin) {
	switch x := v.(type) {
	case *SliceV:
		if x.Ptr == nil {
			return &ArrV{}, K(0), K(0)
		}
		if a, ok := st.Load(x.Ptr).(*ArrV); ok {
			b, o := st.Block(a, x.Off, x.Len)
			return b, o, x.Len
		}
	case *StrV:
		return x.C, x.Off, x.Len
	case NilV:
		return &ArrV{}, K(0), K(0)
	}
	return nil, nil, nil
}

func (in *Interp) copyB(st *State, fr *frame, site ssa.CallInstruction, args []Value) []Outcome {
	d, ok := args[0].(*SliceV)
	src, so, sl := st.srcOf(args[1])
	if !ok || src == nil {
		if ok && d.Ptr != nil {
			if av, k := st.Load(d.Ptr).(*ArrV); k {
				st.Store(d.Ptr, st.ArrBlock(av, d.Off, d.Len, &ArrV{Elem: av.Elem, Base: fmt.Sprintf("copy#%d", st.nextSeq())}, K(0)))
			}
		}
		return []Outcome{{Kind: Ret, St: st, Ret: LenAtom(fmt.Sprintf("copy#%d", st.nextSeq()))}}
	}
	if x, ok := args[1].(*SliceV); ok && x.Ptr != nil && in.OnAccess != nil {
		in.OnAccess(st, fr.fn, x.Ptr, false, site.Pos(), site.(ssa.Instruction))
	}
	do := func(s *State, n *Lin, trunc bool) Outcome {
		in.event(s, fr, &Event{Kind: "copy", Recv: d, Args: []Value{args[1], n, BConst(trunc)}, Pos: site.Pos(), Instr: site.(ssa.Instruction)})
		if d.Ptr != nil {
			if av, k := s.Load(d.Ptr).(*ArrV); k {
				if in.OnAccess != nil {
					in.OnAccess(s, fr.fn, d.Ptr, true, site.Pos(), site.(ssa.Instruction))
				}
				s.Store(d.Ptr, s.ArrBlock(av, d.Off, n, src, so))
			}
		}
		return Outcome{Kind: Ret, St: s, Ret: n}
	}
	c := BGE(Sub(d.Len, sl)) // dst long enough
	switch st.Eval(c) {
	case 1:
		return []Outcome{do(st, sl, false)}
	case -1:
		return []Outcome{do(st, d.Len, true)}
	}
	s2 := st.Fork()
	var r []Outcome
	if st.Assume(c, true) {
		r = append(r, do(st, sl, false))
	}
	if s2.Assume(c, false) {
		r = append(r, do(s2, d.Len, true))
	}
	return r
}

func (in *Interp) appendB(st *State, fr *frame, site ssa.CallInstruction, args []Value) Value {
	if len(args) < 2 {
		return args[0]
	}
	return in.appendV(st, fr, site, args, site.Common().Args[0].Type())
}

// appendV appends the elements of args[1] to the slice args[0] of type t.
func (in *Interp) appendV(st *State, fr *frame, site ssa.CallInstruction, args []Value, t types.Type) Value {
	base := args[0]
	src, so, sl := st.srcOf(args[1])
	var et types.Type
	if s, ok := t.Underlying().(*types.Slice); ok {
		et = s.Elem()
	}
	var b *SliceV
	switch x := base.(type) {
	case *SliceV:
		b = x
	case NilV:
		b = &SliceV{Off: K(0), Len: K(0), Cap: K(0), Elem: et}
	}
	if b == nil || src == nil {
		return st.Symbolic(fmt.Sprintf("append#%d", st.nextSeq()), t)
	}
	in.event(st, fr, &Event{Kind: "append", Recv: b, Args: args[1:], Pos: site.Pos(), Instr: site.(ssa.Instruction)})
	nl := Add(b.Len, sl)
	if b.Ptr != nil && b.NilAtom == "" && st.Eval(BGE(Sub(b.Cap, nl))) > 0 {
		if av, ok := st.Load(b.Ptr).(*ArrV); ok {
			st.Store(b.Ptr, st.ArrBlock(av, Add(b.Off, b.Len), sl, src, so))
			return &SliceV{Ptr: b.Ptr, Off: b.Off, Len: nl, Cap: b.Cap, Elem: b.Elem}
		}
	}
	c := &ArrV{Elem: et}
	if b.Ptr != nil {
		if av, ok := st.Load(b.Ptr).(*ArrV); ok {
			bb, bo := st.Block(av, b.Off, b.Len)
			if len(av.Ws) > 0 && bb == av {
				// keep element log precise for small constant windows
				if o, ok := b.Off.Int64(); ok && o == 0 {
					c = &ArrV{Elem: et, Base: av.Base, Ws: av.Ws}
				} else {
					c = st.ArrBlock(c, K(0), b.Len, bb, bo)
				}
			} else {
				c = st.ArrBlock(c, K(0), b.Len, bb, bo)
			}
		}
	}
	c = st.ArrBlock(c, b.Len, sl, src, so)
	p := st.Alloc(nil, c, "append")
	cp := AtomLin(U.Atom(fmt.Sprintf("cap(append#%d)", st.nextSeq()), "len", b0, MaxLen))
	st.AddFact(Sub(cp, nl))
	return &SliceV{Ptr: p, Off: K(0), Len: nl, Cap: cp, Elem: et}
}

// nonNil returns a fresh non-nil opaque value.
func nonNil(c *CallCtx, label string) Value {
	v := c.St.Symbolic(fmt.Sprintf("%s#%d", label, c.St.nextSeq()), c.RetT)
	if o, ok := v.(*OpaqueV); ok {
		c.St.SetBool("isnil("+o.Key+")", false)
	}
	return v
}

func lockHook(kind string, read bool) Hook {
	return func(c *CallCtx) ([]Outcome, bool) {
		key := c.Args[0].VKey()
		st := c.St
		switch kind {
		case "lock":
			for _, l := range st.Locks {
				if l.Key == key && !(l.Read && read) {
					c.In.obl(st, c.Fr, "relock", c.Instr.Pos(), false, "acquiring "+key+" while already held")
				}
			}
			st.Locks = append(st.Locks, Lock{Key: key, Ptr: c.Args[0], Read: read, Pos: c.Instr.Pos()})
		case "unlock":
			found := false
			for i := len(st.Locks) - 1; i >= 0; i-- {
				if st.Locks[i].Key == key && st.Locks[i].Read == read {
					st.Locks = append(append([]Lock(nil), st.Locks[:i]...), st.Locks[i+1:]...)
					found = true
					break
				}
			}
			c.In.obl(st, c.Fr, "unlock", c.Instr.Pos(), found, "unlock of a mutex that is not held: "+key)
		}
		c.Event(&Event{Kind: kind, Recv: c.Args[0]})
		return c.Return(nil)
	}
}

// unwrapPtr resolves an atomic operand.
func (c *CallCtx) ptr(i int) *PtrV {
	p := c.In.asPtr(c.St, c.Fr, c.Args[i], c.Instr.Pos(), "atomic")
	return p
}

func atomicAdd(c *CallCtx) ([]Outcome, bool) {
	p := c.ptr(0)
	if p == nil {
		return nil, true
	}
	d, ok := c.Args[1].(*Lin)
	old, ok2 := c.St.Load(p).(*Lin)
	if !ok || !ok2 {
		return c.Opaque(), true
	}
	t := c.Fn.Signature.Params().At(1).Type()
	nv := c.In.arith(c.St, Add(old, d), t)
	c.Event(&Event{Kind: "atomic", Name: "add", Recv: p, Ret: nv})
	c.St.Store(p, nv)
	return c.Return(nv)
}
func atomicLoad(c *CallCtx) ([]Outcome, bool) {
	p := c.ptr(0)
	if p == nil {
		return nil, true
	}
	c.Event(&Event{Kind: "atomic", Name: "load", Recv: p})
	return c.Return(c.St.Load(p))
}
func atomicStore(c *CallCtx) ([]Outcome, bool) {
	p := c.ptr(0)
	if p == nil {
		return nil, true
	}
	c.Event(&Event{Kind: "atomic", Name: "store", Recv: p})
	c.St.Store(p, c.Args[1])
	return c.Return(nil)
}
func atomicCAS(c *CallCtx) ([]Outcome, bool) {
	p := c.ptr(0)
	if p == nil {
		return nil, true
	}
	ev := c.Event(&Event{Kind: "atomic", Name: "cas", Recv: p})
	cur := c.St.Load(p)
	eq := c.In.equal(c.St, cur, c.Args[1], c.Fn.Signature.Params().At(1).Type())
	s2 := c.St.Fork()
	var r []Outcome
	_ = ev
	if e := c.St.Eval(eq); e >= 0 && (e > 0 || c.St.Assume(eq, true)) {
		c.St.Store(p, c.Args[2])
		r = append(r, Outcome{Kind: Ret, St: c.St, Ret: BConst(true)})
	}
	// a concurrent writer may always win
	if !c.In.NoConcurrent {
		r = append(r, Outcome{Kind: Ret, St: s2, Ret: BConst(false)})
	} else if e := s2.Eval(eq); e <= 0 && (e < 0 || s2.Assume(eq, false)) {
		r = append(r, Outcome{Kind: Ret, St: s2, Ret: BConst(false)})
	}
	return r, true
}

// cellOf is the value field of a typed atomic.
func cellOf(c *CallCtx) *PtrV {
	p := c.ptr(0)
	if p == nil {
		return nil
	}
	s, ok := deref(c.Fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return p
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "v" {
			return &PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], Sel{Field: i})}
		}
	}
	return p
}

func (in *Interp) asBool(st *State, v Value) *BoolV {
	switch x := v.(type) {
	case *BoolV:
		return x
	case *Lin:
		return BEQ(x).Not()
	}
	return in.boolOf(st, v)
}

// typedAtomic models the methods of the integer and boolean atomics.
func typedAtomic(op string, isBool bool) Hook {
	return func(c *CallCtx) ([]Outcome, bool) {
		p := cellOf(c)
		if p == nil {
			return nil, true
		}
		st := c.St
		cur := st.Load(p)
		if isBool {
			cur = c.In.asBool(st, cur)
		}
		c.Event(&Event{Kind: "atomic", Name: op, Recv: p})
		switch op {
		case "load":
			return c.Return(cur)
		case "store":
			st.Store(p, c.Args[1])
			return c.Return(nil)
		case "swap":
			st.Store(p, c.Args[1])
			return c.Return(cur)
		case "add":
			a, ok1 := cur.(*Lin)
			b, ok2 := c.Args[1].(*Lin)
			if !ok1 || !ok2 {
				return c.Opaque(), true
			}
			nv := c.In.arith(st, Add(a, b), c.Fn.Signature.Params().At(0).Type())
			st.Store(p, nv)
			return c.Return(nv)
		}
		var eq *BoolV
		if isBool {
			a, b := cur.(*BoolV), c.In.boolOf(st, c.Args[1])
			switch {
			case st.Eval(b) > 0:
				eq = a
			case st.Eval(b) < 0:
				eq = a.Not()
			default:
				return c.Opaque(), true
			}
		} else {
			eq = c.In.equal(st, cur, c.Args[1], c.Fn.Signature.Params().At(0).Type())
		}
		s2 := st.Fork()
		var r []Outcome
		if st.Assume(eq, true) {
			st.Store(p, c.Args[2])
			r = append(r, Outcome{Kind: Ret, St: st, Ret: BConst(true)})
		}
		if !c.In.NoConcurrent || s2.Assume(eq, false) {
			r = append(r, Outcome{Kind: Ret, St: s2, Ret: BConst(false)})
		}
		return r, true
	}
}

var stdModels map[string]Hook

func init() {
	stdModels = map[string]Hook{
		"(*sync.Mutex).Lock":      lockHook("lock", false),
		"(*sync.Mutex).Unlock":    lockHook("unlock", false),
		"(*sync.RWMutex).Lock":    lockHook("lock", false),
		"(*sync.RWMutex).Unlock":  lockHook("unlock", false),
		"(*sync.RWMutex).RLock":   lockHook("lock", true),
		"(*sync.RWMutex).RUnlock": lockHook("unlock", true),
		"sync/atomic.AddUint32":   atomicAdd, "sync/atomic.AddInt32": atomicAdd, "sync/atomic.AddUint64": atomicAdd, "sync/atomic.AddInt64": atomicAdd,
		"sync/atomic.LoadUint32": atomicLoad, "sync/atomic.LoadInt32": atomicLoad, "sync/atomic.LoadUint64": atomicLoad, "sync/atomic.LoadInt64": atomicLoad,
		"sync/atomic.StoreUint32": atomicStore, "sync/atomic.StoreInt32": atomicStore, "sync/atomic.StoreUint64": atomicStore, "sync/atomic.StoreInt64": atomicStore,
		"sync/atomic.CompareAndSwapUint32": atomicCAS, "sync/atomic.CompareAndSwapInt32": atomicCAS, "sync/atomic.CompareAndSwapUint64": atomicCAS,
		"errors.New": func(c *CallCtx) ([]Outcome, bool) { return c.Return(nonNil(c, "errors.New")) },
		"fmt.Errorf": func(c *CallCtx) ([]Outcome, bool) { return c.Return(nonNil(c, "fmt.Errorf")) },
		"context.WithValue": func(c *CallCtx) ([]Outcome, bool) {
			c.Event(&Event{Kind: "call"})
			return c.Return(nonNil(c, "ctx"))
		},
		"context.Background": func(c *CallCtx) ([]Outcome, bool) { return c.Return(nonNil(c, "ctxbg")) },
		"context.TODO":       func(c *CallCtx) ([]Outcome, bool) { return c.Return(nonNil(c, "ctxbg")) },
		"(*sync.Once).Do": func(c *CallCtx) ([]Outcome, bool) {
			c.Event(&Event{Kind: "once"})
			s2 := c.St.Fork()
			f, ok := c.Args[1].(*FuncV)
			if !ok {
				return c.Opaque(), true
			}
			key := "once(" + c.Args[0].VKey() + ")"
			if v, ok := c.St.BoolFact(key); ok && v {
				return c.Return(nil)
			}
			c.St.SetBool(key, true)
			os := c.In.call(c.St, c.Fr, c.Instr.(ssa.Instruction), f.Fn, nil, f.Free)
			if c.In.NoConcurrent {
				return os, true
			}
			s2.SetBool(key, true)
			return append(os, Outcome{Kind: Ret, St: s2}), true
		},
		"bytes.Equal":      func(c *CallCtx) ([]Outcome, bool) { return c.In.bytesEqual(c) },
		"math.Float32bits": bitsModel("f32"), "math.Float64bits": bitsModel("f64"),
		"math.Float32frombits": fromBits("f32"), "math.Float64frombits": fromBits("f64"),
	}
}

func bitsModel(k string) Hook {
	return func(c *CallCtx) ([]Outcome, bool) {
		if o, ok := c.Args[0].(*OpaqueV); ok {
			if strings.HasPrefix(o.Key, k+"from(") {
				return c.Return(fromTab[o.Key])
			}
		}
		l := IntAtom(k+"bits("+c.Args[0].VKey()+")", c.RetT)
		bitsTab[l.Key()] = c.Args[0]
		return c.Return(l)
	}
}

var fromTab = map[string]Value{}
var bitsTab = map[string]Value{}

func fromBits(k string) Hook {
	return func(c *CallCtx) ([]Outcome, bool) {
		if v, ok := bitsTab[c.Args[0].VKey()]; ok && strings.HasPrefix(c.Args[0].VKey(), k) {
			return c.Return(v)
		}
		key := k + "from(" + c.Args[0].VKey() + ")"
		fromTab[key] = c.Args[0]
		return c.Return(&OpaqueV{Key: key, T: c.RetT})
	}
}

var _ = token.NoPos

// bytesEqual compares short slices of known length element by element.
func (in *Interp) bytesEqual(c *CallCtx) ([]Outcome, bool) {
	st := c.St
	a, ao, al := st.srcOf(c.Args[0])
	b, bo, bl := st.srcOf(c.Args[1])
	if al == nil || bl == nil {
		return c.Opaque(), true
	}
	if e := st.Eval(BEQ(Sub(al, bl))); e < 0 {
		return c.Return(BConst(false))
	}
	if st.Content(c.Args[0]) == st.Content(c.Args[1]) {
		return c.Return(BConst(true))
	}
	n, ok := al.Int64()
	m, ok2 := bl.Int64()
	if !ok && ok2 {
		n, ok = m, true
	}
	if !ok || n > 64 || a == nil || b == nil {
		return c.Opaque(), true
	}
	// the arrays first differ in length, or at a byte; when few bytes are
	// open, each of them gets its own outcome
	var nos []*State
	yes := st
	und := 0
	if e := st.Eval(BEQ(Sub(al, bl))); e == 0 {
		und++
		no := st.Fork()
		if no.Assume(BEQ(Sub(al, bl)), false) {
			nos = append(nos, no)
		}
	}
	whole := st.Fork()
	feasible := yes.Assume(BEQ(Sub(al, bl)), true)
	for i := int64(0); i < n && feasible; i++ {
		x, ok1 := yes.ArrRead(a, AddK(ao, i)).(*Lin)
		y, ok2 := yes.ArrRead(b, AddK(bo, i)).(*Lin)
		if !ok1 || !ok2 {
			return c.Opaque(), true
		}
		e := yes.Eval(BEQ(Sub(x, y)))
		if e < 0 {
			feasible = false
		}
		if e == 0 {
			und++
			if no := yes.Fork(); no.Assume(BEQ(Sub(x, y)), false) {
				nos = append(nos, no)
			}
			feasible = yes.Assume(BEQ(Sub(x, y)), true)
		}
	}
	var r []Outcome
	if feasible {
		r = append(r, Outcome{Kind: Ret, St: yes, Ret: BConst(true)})
	}
	if und > 5 {
		nos = []*State{whole}
	} else if !feasible {
		if und == 0 {
			nos = []*State{whole}
		} else {
			nos = append(nos, yes) // the last byte read differs for certain
		}
	}
	for _, no := range nos {
		r = append(r, Outcome{Kind: Ret, St: no, Ret: BConst(false)})
	}
	return r, true
}

// FloatBits returns the n-byte bit pattern term of a float value, if one is known.
func FloatBits(v Value, n int64) *Lin {
	if n != 4 && n != 8 {
		return nil
	}
	pre := "f64"
	if n == 4 {
		pre = "f32"
	}
	if o, ok := v.(*OpaqueV); ok {
		if b, ok := fromTab[o.Key]; ok {
			l, _ := b.(*Lin)
			return l
		}
	}
	for k, x := range bitsTab {
		if strings.HasPrefix(k, pre) && x.VKey() == v.VKey() {
			if a, ok := U.atoms[k]; ok {
				return AtomLin(a)
			}
		}
	}
	return nil
}

func init() {
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Pointer[T]"} {
		pre := "(*sync/atomic." + t + ")."
		b := t == "Bool"
		stdModels[pre+"Load"] = typedAtomic("load", b)
		stdModels[pre+"Store"] = typedAtomic("store", b)
		stdModels[pre+"Swap"] = typedAtomic("swap", b)
		stdModels[pre+"CompareAndSwap"] = typedAtomic("cas", b)
		if !b && t != "Pointer[T]" {
			stdModels[pre+"Add"] = typedAtomic("add", b)
		}
	}
}

var byteSliceT = types.NewSlice(types.Typ[types.Byte])

// bufField gives the cell of a field of the bytes.Buffer or strings.Builder
// a method is called on.
func bufField(c *CallCtx, name string) *PtrV {
	p := c.ptr(0)
	if p == nil {
		return nil
	}
	s, ok := deref(c.Fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return &PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], Sel{Field: i})}
		}
	}
	return nil
}

// bufRest gives the unread part of a buffer.
func bufRest(c *CallCtx) (cell, offCell *PtrV, rest *SliceV) {
	cell = bufField(c, "buf")
	if cell == nil {
		return
	}
	off := K(0)
	if offCell = bufField(c, "off"); offCell != nil {
		l, ok := c.St.Load(offCell).(*Lin)
		if !ok {
			return nil, nil, nil
		}
		off = l
	}
	switch b := c.St.Load(cell).(type) {
	case *SliceV:
		rest = &SliceV{Ptr: b.Ptr, Off: Add(b.Off, off), Len: Sub(b.Len, off), Cap: Sub(b.Cap, off), Elem: b.Elem}
	case NilV:
		rest = &SliceV{Off: K(0), Len: K(0), Cap: K(0), Elem: types.Typ[types.Byte]}
	}
	return
}

func bufWrite(kind string) Hook {
	return func(c *CallCtx) ([]Outcome, bool) {
		cell := bufField(c, "buf")
		if cell == nil {
			return nil, true
		}
		st := c.St
		item, n := c.Args[1], (*Lin)(nil)
		if kind == "byte" {
			l, ok := item.(*Lin)
			if !ok {
				return nil, true
			}
			arr := st.ArrWrite(&ArrV{Elem: types.Typ[types.Byte], N: K(1)}, K(0), l)
			item = &SliceV{Ptr: st.Alloc(nil, arr, "byte"), Off: K(0), Len: K(1), Cap: K(1), Elem: types.Typ[types.Byte]}
		} else if _, _, n = st.srcOf(item); n == nil {
			return nil, true
		}
		st.Store(cell, c.In.appendV(st, c.Fr, c.Instr, []Value{st.Load(cell), item}, byteSliceT))
		if kind == "byte" {
			return c.Return(NilV{})
		}
		return c.Return(&TupleV{E: []Value{n, NilV{}}})
	}
}

func init() {
	for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		stdModels[t+"Write"] = bufWrite("bytes")
		stdModels[t+"WriteString"] = bufWrite("string")
		stdModels[t+"WriteByte"] = bufWrite("byte")
		stdModels[t+"Grow"] = func(c *CallCtx) ([]Outcome, bool) { return c.Return(nil) }
		stdModels[t+"Len"] = func(c *CallCtx) ([]Outcome, bool) {
			_, _, r := bufRest(c)
			if r == nil {
				return c.Opaque(), true
			}
			return c.Return(r.Len)
		}
		stdModels[t+"String"] = func(c *CallCtx) ([]Outcome, bool) {
			_, _, r := bufRest(c)
			if r == nil {
				return c.Opaque(), true
			}
			a, o, l := c.St.srcOf(r)
			return c.Return(&StrV{C: a, Off: o, Len: l})
		}
	}
	stdModels["(*bytes.Buffer).Bytes"] = func(c *CallCtx) ([]Outcome, bool) {
		_, _, r := bufRest(c)
		if r == nil {
			return c.Opaque(), true
		}
		return c.Return(r)
	}
	reset := func(c *CallCtx) ([]Outcome, bool) {
		cell, off, _ := bufRest(c)
		if cell == nil {
			return nil, true
		}
		if b, ok := c.St.Load(cell).(*SliceV); ok && off != nil {
			b2 := *b
			b2.Len = K(0)
			c.St.Store(cell, &b2)
			c.St.Store(off, K(0))
		} else {
			c.St.Store(cell, NilV{})
		}
		return c.Return(nil)
	}
	stdModels["(*bytes.Buffer).Reset"] = reset
	stdModels["(*strings.Builder).Reset"] = reset
	fresh := func(c *CallCtx) ([]Outcome, bool) {
		t := deref(c.RetT)
		v, ok := c.St.Zero(t).(*StructV)
		s, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 {
			return c.Opaque(), true
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "buf" {
				init := c.Args[0]
				if x, isStr := init.(*StrV); isStr {
					init = &SliceV{Ptr: c.St.Alloc(nil, x.C, "bytes"), Off: x.Off, Len: x.Len, Cap: x.Len, Elem: types.Typ[types.Byte]}
				}
				v.F[i] = init
			}
		}
		return c.Return(c.St.Alloc(t, v, "buffer"))
	}
	stdModels["bytes.NewBuffer"] = fresh
	stdModels["bytes.NewBufferString"] = fresh
}

// Std applies the built-in model of a standard library function.
func (c *CallCtx) Std() ([]Outcome, bool) {
	if h, ok := stdModels[c.Name]; ok {
		return h(c)
	}
	return nil, false
}

// HasStd reports whether a standard library function is modelled.
func HasStd(name string) bool { _, ok := stdModels[name]; return ok }
