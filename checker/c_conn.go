package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	register(check{"C17", "Concurrent senders never interleave frames on a connection",
		"every implementation of Conn is interpreted writing a frame of any size: the bytes handed to the underlying writer are exactly the 3-byte length followed by the encoded frame, a frame that does not fit 24 bits and a failed write are reported; lockset: all uses of the writer (or, if the connection takes no lock itself, all calls of Conn.Write and Conn.Flush in the module) share a mutex that outlives the call and is held from the first to the last byte; Send writes its frame once and flushes when asked; the function Listen and Connect hand out for sending writes the frame once, flushes it and reports failure before it returns",
		12, c17})
	register(check{"C18", "A received frame's bytes are never overwritten by later frames",
		"alias analysis: every abstract path of Conn.Read, of the guest's receive function and of the host's receive functions is interpreted; whatever leaves a path (returned frames, values handed to handlers, streams, channels and maps) references only memory allocated while receiving that frame and kept by nobody else, never the reader's buffer, the guest buffer or wasm memory",
		20, c18})
}

const rsPkg = "transport/rsocket"

// sharedLocks are the mutexes held now that existed before the call.
func sharedLocks(ls *lockset, st *ai.State, start int) map[string]bool {
	r := map[string]bool{}
	for _, l := range st.Locks {
		p, ok := l.Ptr.(*ai.PtrV)
		if l.Read || ok && p.Obj >= start && !st.IsSym(p.Obj) {
			continue
		}
		k := l.Key
		if ok {
			if c := ls.class(st, p); c != "" {
				k = c
			}
		}
		r[k] = true
	}
	return r
}

func meet(a, b map[string]bool) map[string]bool {
	if a == nil {
		return b
	}
	r := map[string]bool{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	return r
}

func keysOf(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// failable makes a call succeed or fail: the last result is the error.
func failable(c *ai.CallCtx, name string, okv func(st *ai.State) []ai.Value) ([]ai.Outcome, bool) {
	e := c.Event(&ai.Event{Kind: "io", Name: name})
	var et types.Type = c.RetT
	n := 1
	if tt, ok := c.RetT.(*types.Tuple); ok {
		n = tt.Len()
		et = tt.At(n - 1).Type()
	}
	mk := func(st *ai.State, ok bool) ai.Outcome {
		var vs []ai.Value
		if ok {
			if okv != nil {
				vs = okv(st)
			}
			vs = append(vs, ai.NilV{})
		} else {
			if tt, isT := c.RetT.(*types.Tuple); isT {
				for i := 0; i < n-1; i++ {
					vs = append(vs, st.Zero(tt.At(i).Type()))
				}
			}
			k := fmt.Sprintf("ioerr%d", len(st.Events))
			st.SetBool("isnil("+k+")", false)
			vs = append(vs, opq(k, et))
		}
		var r ai.Value = vs[0]
		if n > 1 {
			r = &ai.TupleV{E: vs}
		}
		// the outcome is recorded as its own event
		opEvent(st, map[bool]string{true: "ok:", false: "failed:"}[ok]+name)
		st.Events[len(st.Events)-1].Ret = r
		return ai.Outcome{Kind: ai.Ret, St: st, Ret: r}
	}
	_ = e
	return []ai.Outcome{mk(c.St.Fork(), true), mk(c.St, false)}, true
}

// writerHooks turns every use of a byte writer into an event.
func writerHooks(in *ai.Interp, seen func(c *ai.CallCtx, what string)) {
	wr := func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		seen(c, "write")
		return failable(c, "write", func(st *ai.State) []ai.Value {
			if s, ok := c.Args[1].(*ai.SliceV); ok {
				return []ai.Value{s.Len}
			}
			return []ai.Value{st.Symbolic(fmt.Sprintf("wrote%d", len(st.Events)), types.Typ[types.Int])}
		})
	}
	fl := func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		seen(c, "flush")
		return failable(c, "flush", nil)
	}
	in.Hooks["(*bufio.Writer).Write"] = wr
	in.Hooks["(net.Conn).Write"] = wr
	in.Hooks["(io.Writer).Write"] = wr
	in.Hooks["(*bufio.Writer).Flush"] = fl
	for _, n := range []string{"(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteRune", "(*bufio.Writer).ReadFrom", "(*net.Buffers).WriteTo"} {
		n := n
		in.Hooks[n] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
			seen(c, "other "+n)
			return nil, false
		}
	}
}

// connTypes are the types of the rsocket package that implement Conn.
func connTypes(w *World) []*types.Named {
	it := w.named(rsPkg, "Conn").Underlying().(*types.Interface)
	var r []*types.Named
	sc := w.pkg(rsPkg).Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) {
			r = append(r, nt)
		}
	}
	return r
}

func c17(c *Ctx) {
	senders(c)
	w := load(rsPkg)
	ls := newLockset(w)
	u24max := int64(1<<24 - 1)
	cts := connTypes(w)
	if len(cts) == 0 {
		failf("no implementation of Conn found")
	}
	var inner map[string]bool // locks the connections hold around every use of the writer
	unlockedAt := ""
	for _, ct := range cts {
		nm := ct.Obj().Name()
		in := w.interp()
		in.ChanModel = true
		in.Far = true
		st := ai.NewState()
		recv := connValue(c, w, in, &st, ct)
		start := st.NextObj()
		writerHooks(in, func(cc *ai.CallCtx, what string) {
			l := sharedLocks(ls, cc.St, start)
			if len(l) == 0 && unlockedAt == "" {
				unlockedAt = w.at(cc.Instr.Pos())
			}
			inner = meet(inner, l)
		})
		size := ai.IntAtom("size", types.Typ[types.Uint32])
		in.OpaqueCB = func(cc *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
			if m == nil {
				return nil, false
			}
			o, ok := cc.Args[0].(*ai.OpaqueV)
			if !ok || o.Key != "frame" {
				return nil, false
			}
			switch m.Name() {
			case "Size":
				return cc.Return(size)
			case "Encode":
				s, ok := cc.Args[1].(*ai.SliceV)
				if !ok {
					return nil, false
				}
				if s.Ptr == nil {
					e := cc.Event(&ai.Event{Kind: "encode"})
					e.Ret = ai.BEQ(size)
					return []ai.Outcome{{Kind: ai.Ret, St: cc.St}}, true
				}
				if av, ok := cc.St.Load(s.Ptr).(*ai.ArrV); ok {
					cc.St.Store(s.Ptr, cc.St.ArrBlock(av, s.Off, s.Len, &ai.ArrV{Elem: av.Elem, Base: "encoded"}, ai.K(0)))
				}
				e := cc.Event(&ai.Event{Kind: "encode"})
				e.Ret = ai.BEQ(ai.Sub(s.Len, size))
				return []ai.Outcome{{Kind: ai.Ret, St: cc.St}}, true
			}
			return nil, false
		}
		st.SetBool("isnil(frame)", false)
		fr := opq("frame", w.named("internal/frames", "Frame"))
		outs := in.Run(st.Fork(), w.methodOf(types.NewPointer(ct), "Write"), []ai.Value{recv, fr}, nil)
		// a second frame of another size, written to the connection the first left behind
		first := outs
		sizes := make([]*ai.Lin, len(first))
		for i := range sizes {
			sizes[i] = size
		}
		size = ai.IntAtom("size2", types.Typ[types.Uint32])
		for _, o := range first {
			if o.Kind != ai.Ret {
				continue
			}
			s := o.St.Fork()
			s.Events = nil
			for _, o := range in.Run(s, w.methodOf(types.NewPointer(ct), "Write"), []ai.Value{recv, fr}, nil) {
				outs, sizes = append(outs, o), append(sizes, size)
			}
		}
		for i, o := range outs {
			size := sizes[i]
			c.Paths++
			tag := nm + ".Write"
			if o.Kind != ai.Ret {
				c.fail(tag+":path", "%s: a path of %s does not return: %s", w.at(w.methodOf(types.NewPointer(ct), "Write").Pos()), tag, o.Why)
				continue
			}
			rs := retTuple(o.Ret)
			errv := rs[len(rs)-1]
			failed := ""
			var segs []*ai.SliceV
			var sts []*ai.State
			var enc *ai.Event
			unknown := ""
			lockRun := map[string]int{}
			for _, e := range o.St.Events {
				switch {
				case e.Kind == "op" && strings.HasPrefix(e.Name, "failed:"):
					failed = e.Name
				case e.Kind == "io" && e.Name == "write":
					s, ok := e.Args[1].(*ai.SliceV)
					if !ok || failed != "" {
						unknown = "bytes are written after a failed write or from an unknown buffer"
						break
					}
					segs = append(segs, s)
					sts = append(sts, e.St)
				case e.Kind == "encode":
					enc = e
				case e.Kind == "call" && writerArg(e):
					unknown = "the writer is used by " + e.Name + ", which is not modelled"
				case e.Kind == "loop":
					unknown = "bytes are written in a loop of unknown length"
				case e.Kind == "lock":
					lockRun[e.Recv.VKey()]++
				}
			}
			for k, n := range lockRun {
				c.check(n <= 1, tag+":section", "%s gives the lock %s up between the bytes of a frame", tag, k)
			}
			if !c.check(unknown == "", tag+":decided", "%s: %s", tag, unknown) {
				continue
			}
			if failed != "" {
				c.check(isNilV(o.St, errv) < 0, tag+":error", "%s returns no error although writing failed", tag)
				continue
			}
			if len(segs) == 0 {
				c.check(isNilV(o.St, errv) < 0 && o.St.ProveGE(ai.AddK(size, -u24max-1)), tag+":nothing", "%s writes nothing although the frame's length fits 24 bits, or reports no error", tag)
				continue
			}
			c.check(o.St.ProveGE(ai.Sub(ai.K(u24max), size)), tag+":too-long", "%s writes a frame whose length does not fit the 24-bit prefix", tag)
			c.check(isNilV(o.St, errv) > 0, tag+":success", "%s reports an error although everything was written", tag)
			total := ai.K(0)
			at := func(k int64) ai.Value {
				pos := int64(0)
				for j, s := range segs {
					n, known := o.St.Norm(s.Len).Int64()
					if !known || k < pos+n {
						av, ok := sts[j].Load(s.Ptr).(*ai.ArrV)
						if !ok {
							return nil
						}
						return sts[j].ArrRead(av, ai.AddK(s.Off, k-pos))
					}
					pos += n
				}
				return nil
			}
			for _, s := range segs {
				total = ai.Add(total, s.Len)
			}
			c.check(o.St.ProveEQ(ai.Sub(total, ai.AddK(size, 3))), tag+":length", "%s writes %s bytes for a frame of %s bytes and its 3-byte length", tag, o.St.Norm(total).Key(), size.Key())
			for k := int64(0); k < 3; k++ {
				want := o.St.Conv(o.St.ShiftRight(size, int(16-8*k)), 8, false)
				v, _ := at(k).(*ai.Lin)
				c.check(v != nil && o.St.ProveEQ(ai.Sub(v, want)), fmt.Sprintf("%s:prefix%d", tag, k), "%s: byte %d of the length prefix is not the frame size's", tag, k)
			}
			if !c.check(enc != nil && o.St.Eval(enc.Ret.(*ai.BoolV)) > 0, tag+":encode", "%s does not have the frame encode itself into a buffer of its size", tag) {
				continue
			}
			// the bytes after the prefix are the encoded ones
			pos, good := int64(0), true
			for j, s := range segs {
				off, n := s.Off, s.Len
				if k, known := o.St.Norm(s.Len).Int64(); known && pos+k <= 3 {
					pos += k
					continue
				}
				if pos < 3 {
					off, n = ai.AddK(off, 3-pos), ai.AddK(n, -(3-pos))
					pos = 3
				}
				av, ok := sts[j].Load(s.Ptr).(*ai.ArrV)
				if !ok || j != len(segs)-1 {
					good = false
					break
				}
				b, bo := sts[j].Block(av, off, n)
				good = b != nil && b.Base == "encoded" && len(b.Ws) == 0 && bo != nil && o.St.ProveEQ(bo)
			}
			if o.St.ProveEQ(size) {
				good = true
			}
			c.check(good, tag+":bytes", "%s: what follows the length prefix is not the encoded frame", tag)
		}
		for _, m := range methodsOf(w, ct) {
			if m.Name() == "Write" {
				continue
			}
			s := st.Fork()
			args, _ := symArgs(s, m)
			args[0] = recvFor(s, m, recv)
			nob := len(in.Obls)
			os := in.Run(s, m, args, nil)
			if m.Name() != "Flush" { // only its locks matter here
				in.Obls = in.Obls[:nob]
			}
			for _, o := range os {
				c.Paths++
				if m.Name() != "Flush" || o.Kind != ai.Ret {
					continue
				}
				flushed, bad := false, false
				for _, e := range o.St.Events {
					flushed = flushed || e.Kind == "io" && e.Name == "flush"
					bad = bad || e.Kind == "op" && e.Name == "failed:flush"
				}
				rs := retTuple(o.Ret)
				n := isNilV(o.St, rs[len(rs)-1])
				c.check(bad && n < 0 || !bad && flushed && n > 0, nm+".Flush:error", "%s.Flush does not report what flushing the writer reports", nm)
			}
		}
		c.oblSet(w, in, nm, "index nil slice makeslice assert panic chan")
		c.used(in)
	}
	// callers of the connection
	var outer map[string]bool
	outerBad := ""
	sites := map[ssa.Instruction]bool{}
	var direct []*ssa.Function
	isConn := func(ci ssa.CallInstruction) bool {
		cm := ci.Common()
		name := ""
		var rt types.Type
		if cm.IsInvoke() {
			name, rt = cm.Method.Name(), cm.Value.Type()
		} else if f := cm.StaticCallee(); f != nil && f.Signature.Recv() != nil {
			name, rt = f.Name(), f.Signature.Recv().Type()
		}
		if name != "Write" && name != "Flush" || rt == nil {
			return false
		}
		it := w.named(rsPkg, "Conn").Underlying().(*types.Interface)
		if pt, ok := rt.Underlying().(*types.Pointer); ok {
			_ = pt
		}
		return types.Implements(rt, it)
	}
	fns := moduleFuncs(w)
	own := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if r := fn.Signature.Recv(); r != nil {
			for _, ct := range cts {
				if types.Identical(deref1(r.Type()), ct) {
					return true
				}
			}
		}
		return false
	}
	for _, fn := range fns {
		for _, ci := range calleesOf(fn) {
			if isConn(ci) && !own(fn) {
				sites[ci.(ssa.Instruction)] = true
				direct = append(direct, fn)
			}
		}
	}
	c.check(len(sites) > 0, "senders", "nothing in the module writes to a connection")
	roots := liftCallers(fns, direct)
	covered := map[ssa.Instruction]bool{}
	for _, fn := range roots {
		in := w.interp()
		st := ai.NewState()
		start := 0
		in.OpaqueCB = func(cc *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
			if !isConn(cc.Instr) {
				return nil, false
			}
			covered[cc.Instr.(ssa.Instruction)] = true
			l := sharedLocks(ls, cc.St, start)
			if len(l) == 0 && outerBad == "" {
				outerBad = w.at(cc.Instr.Pos()) + " in " + shortFn(fn)
			}
			outer = meet(outer, l)
			name := "conn.Write"
			if strings.HasSuffix(callName(cc.Instr), "Flush") {
				name = "conn.Flush"
			}
			return failable(cc, name, nil)
		}
		for _, ct := range cts {
			for _, n := range []string{"Write", "Flush"} {
				in.Hooks[ai.Name(w.methodOf(types.NewPointer(ct), n))] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) { return in.OpaqueCB(cc, nil) }
			}
		}
		args, free := symArgs(st, fn)
		send := fn.Name() == "Send" && fn.Signature.Recv() != nil && typeStr(deref1(fn.Signature.Recv().Type())) == rsPkg+".Transport"
		if send {
			st.SetBool("isnil(arg.frame)", false)
		}
		start = st.NextObj()
		for _, o := range in.Run(st, fn, args, free) {
			c.Paths++
			if o.Kind != ai.Ret || !send {
				continue
			}
			writes, flushes, failed := 0, 0, false
			for _, e := range o.St.Events {
				switch {
				case e.Kind == "io" && e.Name == "conn.Write":
					writes++
					c.check(e.Args[len(e.Args)-1].VKey() == args[1].VKey(), "send:frame", "Send writes something other than the given frame")
					c.check(flushes == 0, "send:order", "Send flushes before it writes")
				case e.Kind == "io" && e.Name == "conn.Flush":
					flushes++
				case e.Kind == "op" && strings.HasPrefix(e.Name, "failed:"):
					failed = true
				}
			}
			rs := retTuple(o.Ret)
			en := isNilV(o.St, rs[len(rs)-1])
			fv, _ := args[2].(*ai.BoolV)
			if failed {
				c.check(en < 0, "send:error", "Send reports no error although writing or flushing failed")
			} else if en >= 0 {
				c.check(writes == 1, "send:once", "Send reports success after writing its frame %d times", writes)
				c.check(o.St.Eval(fv) < 0 || flushes > 0, "send:flush", "Send was asked to flush but does not")
			}
			lockRun := map[string]int{}
			for _, e := range o.St.Events {
				if e.Kind == "lock" {
					lockRun[e.Recv.VKey()]++
				}
			}
		}
		c.used(in)
		for _, cut := range in.Cuts {
			c.fail("cut:"+shortFn(fn), "analysis of %s incomplete: %s", shortFn(fn), cut)
		}
	}
	if len(inner) > 0 {
		c.ok("lock:connection")
		c.Notes = append(c.Notes, "the connection holds "+keysOf(inner)+" around every use of its writer")
	} else {
		for s := range sites {
			c.check(covered[s], "covered:"+shortFn(s.Parent()), "%s: no analysed path reaches this write to the connection", w.at(s.Pos()))
		}
		why := outerBad
		if why == "" {
			why = "no mutex is common to all senders"
		} else {
			why += " without a mutex that outlives the call"
		}
		c.check(len(outer) > 0, "lock:senders", "frames of concurrent senders may interleave: the writer is used at %s without a lock and the connection is written or flushed at %s", unlockedAt, why)
		c.Notes = append(c.Notes, "every call of Conn.Write and Conn.Flush holds "+keysOf(outer))
	}
	c.count("connection call sites", len(sites))
	c.count("sending entry points", len(roots))
	c.count("connection types", len(cts))
}

func deref1(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func writerArg(e *ai.Event) bool {
	for _, a := range e.Args {
		v := a
		if i, ok := v.(*ai.IfaceV); ok {
			if typeStr(i.Dyn) == "*bufio.Writer" {
				return true
			}
			v = i.V
		}
		if o, ok := v.(*ai.OpaqueV); ok && o.T != nil && typeStr(o.T) == "*bufio.Writer" && e.Kind == "call" {
			return true
		}
	}
	return false
}

// connValue builds a connection with the package's constructor.
func connValue(c *Ctx, w *World, in *ai.Interp, st **ai.State, ct *types.Named) ai.Value {
	for _, m := range w.pkg(rsPkg).Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Signature.Results().Len() != 1 || !types.Identical(deref1(fn.Signature.Results().At(0).Type()), ct) {
			continue
		}
		s := (*st).Fork()
		args, _ := symArgs(s, fn)
		for _, a := range args {
			if o, ok := a.(*ai.OpaqueV); ok {
				s.SetBool("isnil("+o.Key+")", false)
			}
		}
		os := in.Run(s, fn, args, nil)
		if len(os) == 1 && os[0].Kind == ai.Ret {
			os[0].St.Events = nil
			*st = os[0].St
			return os[0].Ret
		}
	}
	k := "conn"
	(*st).SetBool("isnil("+k+")", false)
	return (*st).Symbolic(k, types.NewPointer(ct))
}

func recvFor(st *ai.State, m *ssa.Function, recv ai.Value) ai.Value {
	if _, ptr := m.Signature.Recv().Type().(*types.Pointer); ptr {
		return recv
	}
	if p, ok := recv.(*ai.PtrV); ok {
		return st.Load(p)
	}
	if o, ok := recv.(*ai.OpaqueV); ok {
		return st.Load(st.Pointee(o))
	}
	return recv
}

// liftCallers replaces helpers only called directly by their callers.
func liftCallers(fns, from []*ssa.Function) []*ssa.Function {
	callers := map[*ssa.Function][]*ssa.Function{}
	value := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						if _, plain := ins.(*ssa.Call); plain {
							callers[f] = append(callers[f], fn)
							callee = ci.Common().Value
						} else {
							value[f] = true
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil || *op == callee {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						value[f] = true
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	var up func(fn *ssa.Function)
	up = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		exported := fn.Object() != nil && fn.Object().Exported()
		if fn.Parent() == nil && !exported && !value[fn] && len(callers[fn]) > 0 {
			for _, g := range callers[fn] {
				up(g)
			}
			return
		}
		r = append(r, fn)
	}
	for _, fn := range from {
		up(fn)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// ---- C18 ----------------------------------------------------------------------

// slicesIn calls f for every slice reachable from v.
func slicesIn(st *ai.State, v ai.Value, f func(s *ai.SliceV, path string)) {
	seen := map[int]bool{}
	var walk func(v ai.Value, p string, d int)
	walk = func(v ai.Value, p string, d int) {
		if d > 12 {
			return
		}
		switch x := v.(type) {
		case *ai.SliceV:
			if x.Ptr == nil {
				return
			}
			f(x, p)
			if !seen[x.Ptr.Obj] {
				seen[x.Ptr.Obj] = true
				if a, ok := st.Load(x.Ptr).(*ai.ArrV); ok {
					for _, w := range a.Ws {
						if w.Val != nil {
							walk(w.Val, p+"[]", d+1)
						}
					}
				}
			}
		case *ai.PtrV:
			if !seen[x.Obj] {
				seen[x.Obj] = true
				if h := st.Obj(x.Obj); h != nil {
					walk(h.V, p, d+1)
				}
			}
		case *ai.IfaceV:
			walk(x.V, p, d+1)
		case *ai.StructV:
			for i, y := range x.F {
				walk(y, fmt.Sprintf("%s.%d", p, i), d+1)
			}
		case *ai.TupleV:
			for _, y := range x.E {
				walk(y, p, d+1)
			}
		case *ai.FuncV:
			for _, y := range x.Free {
				walk(y, p+"(captured)", d+1)
			}
		case *ai.ArrV:
			for _, w := range x.Ws {
				if w.Val != nil {
					walk(w.Val, p+"[]", d+1)
				}
			}
		case *ai.MapObj:
			for _, e := range x.Log {
				walk(e.K, p+"[key]", d+1)
				if e.V != nil {
					walk(e.V, p+"[]", d+1)
				}
			}
		case *ai.ChanObj:
			for _, e := range x.Buf {
				walk(e, p+"[]", d+1)
			}
		}
	}
	walk(v, "", 0)
}

func c18(c *Ctx) {
	w := load(rsPkg, "transport/wasmrs/guest", "transport/wasmrs/host")
	bytesT := func(s *ai.SliceV) bool {
		b, ok := s.Elem.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	// Conn.Read
	for _, ct := range connTypes(w) {
		in := w.interp()
		st := ai.NewState()
		recv := connValue(c, w, in, &st, ct)
		fresh := map[int]bool{}
		copies := func(cc *ai.CallCtx) ([]ai.Outcome, bool) { // returns memory of its own
			os := cc.Opaque()
			for _, o := range os {
				for _, v := range retTuple(o.Ret) {
					if s, ok := v.(*ai.SliceV); ok && s.Ptr != nil {
						fresh[s.Ptr.Obj] = true
					}
				}
			}
			return os, true
		}
		for _, n := range []string{"io.ReadAll", "bytes.Clone", "slices.Clone", "(*bufio.Reader).ReadBytes", "(*bytes.Buffer).ReadBytes"} {
			in.Hooks[n] = copies
		}
		start := st.NextObj()
		m := w.methodOf(types.NewPointer(ct), "Read")
		for _, o := range in.Run(st, m, []ai.Value{recv}, nil) {
			c.Paths++
			if o.Kind != ai.Ret {
				continue
			}
			tag := ct.Obj().Name() + ".Read"
			rs := retTuple(o.Ret)
			if isNilV(o.St, rs[0]) > 0 {
				continue
			}
			kind := "frame"
			if i, ok := rs[0].(*ai.IfaceV); ok {
				kind = typeStr(i.Dyn)
			}
			backing := map[int]string{}
			slicesIn(o.St, rs[0], func(s *ai.SliceV, p string) {
				if !bytesT(s) || o.St.ProveEQ(s.Len) && o.St.ProveEQ(s.Cap) {
					return
				}
				id := s.Ptr.Obj
				own := fresh[id] || id >= start && !o.St.IsSym(id)
				c.check(own, tag+":owned:"+kind+p, "%s: field %s of a received %s references %s, memory that was not allocated for it and that a later read may overwrite", w.at(m.Pos()), p, kind, o.St.Obj(id).Label+o.St.Obj(id).V.VKey())
				backing[id] = p
			})
			// nobody else keeps that memory
			for _, id := range o.St.Objs() {
				if id >= start && !o.St.IsSym(id) {
					continue
				}
				slicesIn(o.St, o.St.Obj(id).V, func(s *ai.SliceV, p string) {
					if q, ok := backing[s.Ptr.Obj]; ok {
						c.fail(tag+":kept:"+kind+q, "the memory behind field %s of a received %s is also kept in %s%s", q, kind, o.St.Obj(id).Label, p)
					}
				})
			}
			walkEvents(o.St.Events, func(e *ai.Event) {
				if e.Kind != "send" && e.Name != "(*sync.Pool).Put" {
					return
				}
				for _, a := range e.Args {
					slicesIn(o.St, a, func(s *ai.SliceV, p string) {
						if q, ok := backing[s.Ptr.Obj]; ok {
							c.fail(tag+":given:"+kind+q, "%s: the memory behind field %s of a received %s is given away", w.at(e.Pos), q, kind)
						}
					})
				}
			})
			c.ok(tag + ":kept:" + kind)
		}
		c.used(in)
		for _, cut := range in.Cuts {
			c.fail("cut:"+cut, "analysis of Conn.Read incomplete: %s", cut)
		}
	}
	// shared memory that the other side overwrites
	bufVar := map[int]bool{}
	shared := func(tag string, fn *ssa.Function, prep func(in *ai.Interp, st *ai.State) ([]ai.Value, func(st *ai.State, id int) bool)) {
		in := w.interp()
		st := ai.NewState()
		bufVar = map[int]bool{}
		args, isShared := prep(in, st)
		judged := 0
		see := func(st *ai.State, v ai.Value, where, at string) {
			if v == nil {
				return
			}
			judged++
			bad, is := "", false
			slicesIn(st, v, func(s *ai.SliceV, p string) {
				if isShared(st, s.Ptr.Obj) && !(st.ProveEQ(s.Cap)) {
					bad, is = p, true
				}
			})
			c.check(!is, tag+":"+where, "%s: %s passes on memory that the next frame overwrites (%s%s)", at, shortFn(fn), where, bad)
		}
		start := st.NextObj()
		for _, o := range in.Run(st, fn, args, nil) {
			c.Paths++
			if o.St == nil {
				continue
			}
			var ev func(es []*ai.Event)
			ev = func(es []*ai.Event) {
				for _, e := range es {
					switch e.Kind {
					case "call", "go", "send", "select", "mapupdate", "defer":
						s := e.St
						if s == nil {
							s = o.St
						}
						nm := e.Name
						if harmless[nm] {
							break
						}
						for i, a := range e.Args {
							see(s, a, fmt.Sprintf("%s %s arg%d", e.Kind, nm, i), w.at(e.Pos))
						}
						if f, ok := e.Recv.(*ai.FuncV); ok {
							see(s, f, e.Kind+" "+nm, w.at(e.Pos))
						}
					}
					for i, b := range e.Sub {
						ev(b)
						if i < len(e.SubEnd) && e.SubEnd[i] != nil {
							heapSee(e.SubEnd[i], start, bufVar, see, w.at(e.Pos))
						}
					}
				}
			}
			ev(o.St.Events)
			heapSee(o.St, start, bufVar, see, w.at(fn.Pos()))
			if r := o.Ret; r != nil {
				see(o.St, r, "result", w.at(fn.Pos()))
			}
		}
		c.check(judged > 0, tag+":receives", "%s passes nothing on", shortFn(fn))
		c.count(tag+" values judged", judged)
		c.used(in)
		for _, cut := range in.Cuts {
			c.fail("cut:"+tag+cut, "analysis of %s incomplete: %s", shortFn(fn), cut)
		}
	}
	gp := "transport/wasmrs/guest"
	gs := w.fn(gp, "GuestSend")
	shared("guest", gs, func(in *ai.Interp, st *ai.State) ([]ai.Value, func(*ai.State, int) bool) {
		// the package's byte buffers are the memory shared with the host
		buf := map[int]bool{}
		for _, m := range w.pkg(gp).Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			if sl, ok := deref1(g.Type()).Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem(), types.Typ[types.Uint8]) {
				continue
			}
			if s, ok := in.GlobalValue(st, g).(*ai.SliceV); ok && s.Ptr != nil {
				buf[s.Ptr.Obj] = true
			}
			bufVar[in.GlobalPtr(st, g).Obj] = true
		}
		if len(buf) == 0 {
			failf("the guest's receive buffer is not found")
		}
		args, _ := symArgs(st, gs)
		return args, func(st *ai.State, id int) bool { return buf[id] }
	})
	hp := "transport/wasmrs/host"
	for _, fn := range liftCallers(moduleFuncs(w), memoryReaders(w, hp)) {
		fn := fn
		shared("host."+fn.Name(), fn, func(in *ai.Interp, st *ai.State) ([]ai.Value, func(*ai.State, int) bool) {
			mem := map[int]bool{}
			in.OpaqueCB = func(cc *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
				if m == nil || m.Name() != "Read" || cc.Name != "(github.com/tetratelabs/wazero/api.Memory).Read" {
					return nil, false
				}
				os := cc.Opaque2()
				for _, o := range os {
					for _, v := range retTuple(o.Ret) {
						if s, ok := v.(*ai.SliceV); ok && s.Ptr != nil {
							mem[s.Ptr.Obj] = true
						}
					}
				}
				return os, true
			}
			args, _ := symArgs(st, fn)
			return args, func(st *ai.State, id int) bool { return mem[id] }
		})
	}
}

// harmless calls only read or fill the memory during the call.
var harmless = map[string]bool{"builtin.copy": true, "builtin.len": true,
	"(github.com/nanobus/iota/go/internal/frames.Frame).Encode": true}

// heapSee inspects what the objects that outlive the call reference.
func heapSee(st *ai.State, start int, skip map[int]bool, see func(*ai.State, ai.Value, string, string), at string) {
	for _, id := range st.Objs() {
		if id >= start && !st.IsSym(id) {
			continue
		}
		h := st.Obj(id)
		if skip[id] {
			continue
		}
		if _, arr := h.V.(*ai.ArrV); arr {
			continue
		}
		see(st, h.V, "kept in "+h.Label, at)
	}
}

// memoryReaders are the functions that read wasm memory to take something in.
func memoryReaders(w *World, pkg string) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range ai.PkgFuncs(w.Prog, w.pkg(pkg)) {
		for _, ci := range calleesOf(fn) {
			if callName(ci) == "(github.com/tetratelabs/wazero/api.Memory).Read" {
				r = append(r, fn)
				break
			}
		}
	}
	return r
}
