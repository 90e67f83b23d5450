package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

const pMP = "msgpack"

func init() {
	register(check{id: "C07", title: "The MessagePack reader and writer stay inside their buffer",
		rule:  "abstract interpretation of every byte-level read and write on a symbolic buffer and position: bounds obligations, position transfer, refusal exactly when the request does not fit, big-endian bytes, and no byte written outside the accepted range",
		floor: 180, run: checkDataReader})
	register(check{id: "C04", title: "MessagePack sizing and encoding passes agree byte for byte",
		rule:  "abstract interpretation of each Writer operation on the Sizer and then on the Encoder over a buffer of exactly the computed size (piecewise size tables must coincide and fill the buffer); for dynamically typed values the two implementations must issue the same Writer operations for the same dynamic types",
		floor: 120, run: checkSizerEncoder})
	register(check{id: "C05", title: "MessagePack values decode to what was encoded",
		rule:  "abstract interpretation of each Write operation composed with the matching Read operation: same abstract value, no error, all bytes consumed; an integer outside the width that is read is an error on every path",
		floor: 150, run: checkMPRoundTrip})
	register(check{id: "C06", title: "Skipping a MessagePack value consumes exactly that value",
		rule:  "abstract interpretation of Skip for each of the 256 lead bytes on a symbolic tail: bytes consumed compared with the MessagePack size table on success paths; error paths imply a truncated value",
		floor: 256, run: checkSkip})
}

func mpHooks(in *ai.Interp) *ai.Interp {
	in.Hooks["msgpack.UnsafeBytes"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		s, ok := c.Args[0].(*ai.StrV)
		if !ok {
			return nil, false
		}
		p := c.St.Alloc(nil, s.C, "strbytes")
		return c.Return(&ai.SliceV{Ptr: p, Off: s.Off, Len: s.Len, Cap: s.Len, Elem: types.Typ[types.Byte]})
	}
	in.Hooks["msgpack.UnsafeString"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		s, ok := c.Args[0].(*ai.SliceV)
		if !ok {
			return nil, false
		}
		if s.Ptr == nil {
			return c.Return(ai.StrConst(""))
		}
		a, _ := c.St.Load(s.Ptr).(*ai.ArrV)
		if a == nil {
			return nil, false
		}
		b, o := c.St.Block(a, s.Off, s.Len)
		return c.Return(&ai.StrV{C: b, Off: o, Len: s.Len})
	}
	for k, h := range map[string]ai.Hook{
		"UnsafeBytes": in.Hooks["msgpack.UnsafeBytes"], "UnsafeString": in.Hooks["msgpack.UnsafeString"]} {
		in.Hooks[mod+"/msgpack."+k] = h
	}
	timeHooks(in)
	return in
}

// timeHooks models time.Time as a pair (seconds, nanoseconds).
func timeHooks(in *ai.Interp) {
	in.Hooks["(time.Time).Unix"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		return c.Return(ai.IntAtom("unix("+c.Args[0].VKey()+")", types.Typ[types.Int64]))
	}
	in.Hooks["(time.Time).Nanosecond"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		l := ai.IntAtom("nano("+c.Args[0].VKey()+")", types.Typ[types.Int])
		c.St.AddFact(l)
		atMost(c.St, l, 999999999)
		return c.Return(l)
	}
	in.Hooks["time.Unix"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		c.Event(&ai.Event{Kind: "time.Unix", Args: c.Args})
		return c.Return(&ai.OpaqueV{Key: "time(" + c.Args[0].VKey() + "," + c.Args[1].VKey() + ")", T: c.RetT})
	}
	same := func(c *ai.CallCtx) ([]ai.Outcome, bool) { return c.Return(c.Args[0]) }
	in.Hooks["(time.Time).UTC"] = same
	in.Hooks["(time.Time).Local"] = same
}

type rdr struct {
	ptr  *ai.PtrV
	t    *types.Named
	buf  *ai.SliceV
	off  *ai.Lin
	base []ai.Sel // path to the reader inside obj
}

func (r *rdr) field(st *ai.State, n string) ai.Value {
	p := append(r.base[:len(r.base):len(r.base)], ai.Sel{Field: fieldIdx(r.t, n)})
	return st.Load(&ai.PtrV{Obj: r.ptr.Obj, Path: p})
}

// symReader allocates a DataReader over a symbolic buffer.
func symReader(w *World, st *ai.State) *rdr {
	t := w.named(pMP, "DataReader")
	b := byteSlice(st, "buf")
	atMost(st, b.Len, 1<<32-1)
	off := ai.IntAtom("off", types.Typ[types.Uint32])
	st.AddFact(ai.Sub(b.Len, off))
	v := st.Zero(t)
	p := st.Alloc(t, v, "reader")
	r := &rdr{ptr: p, t: t, buf: b, off: off}
	st.Store(&ai.PtrV{Obj: p.Obj, Path: []ai.Sel{{Field: fieldIdx(t, "buffer")}}}, b)
	st.Store(&ai.PtrV{Obj: p.Obj, Path: []ai.Sel{{Field: fieldIdx(t, "byteOffset")}}}, off)
	return r
}

func methodsOf(w *World, t types.Type) []*ssa.Function {
	ms := w.Prog.MethodSets.MethodSet(types.NewPointer(t))
	var r []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if f := w.Prog.MethodValue(ms.At(i)); f != nil && ms.At(i).Obj().Exported() {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func basicWidth(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	case types.Int64, types.Uint64, types.Float64:
		return 8
	}
	return 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func patternOf(st *ai.State, v ai.Value, n int64) *ai.Lin {
	if l, ok := v.(*ai.Lin); ok {
		return st.Conv(l, int(8*n), false)
	}
	return ai.FloatBits(v, n)
}

func checkDataReader(c *Ctx) {
	w := load(pMP)
	t := w.named(pMP, "DataReader")
	nOps := 0
	for _, fn := range methodsOf(w, t) {
		name := fn.Name()
		sig := fn.Signature
		kind := ""
		for _, p := range []string{"Get", "Set", "Peek", "Discard"} {
			if strings.HasPrefix(name, p) {
				kind = p
			}
		}
		if kind == "" {
			continue
		}
		nOps++
		for _, failed := range []bool{false, true} {
			in := mpHooks(w.interp())
			st := ai.NewState()
			r := symReader(w, st)
			if failed {
				e := &ai.OpaqueV{Key: "prior-error", T: types.Universe.Lookup("error").Type()}
				st.SetBool("isnil(prior-error)", false)
				st.Store(&ai.PtrV{Obj: r.ptr.Obj, Path: []ai.Sel{{Field: fieldIdx(t, "err")}}}, e)
			}
			args := []ai.Value{r.ptr}
			var arg ai.Value
			if sig.Params().Len() == 1 {
				arg = st.Symbolic("arg."+name, sig.Params().At(0).Type())
				if s, ok := arg.(*ai.SliceV); ok {
					atMost(st, s.Len, 1<<32-1)
				}
				args = append(args, arg)
			}
			var width *ai.Lin
			switch x := arg.(type) {
			case *ai.SliceV:
				width = x.Len
			case *ai.Lin:
				if kind == "Set" {
					width = ai.K(basicWidth(sig.Params().At(0).Type()))
				} else {
					width = x
				}
			case nil:
				width = ai.K(basicWidth(sig.Results().At(0).Type()))
			default:
				width = ai.K(basicWidth(sig.Params().At(0).Type()))
			}
			adv := width
			if kind == "Peek" {
				adv = ai.K(0)
			}
			nOK, nErr := 0, 0
			for _, o := range in.Run(st, fn, args, nil) {
				if o.Kind != ai.Ret {
					c.fail(name+":returns", "%s: %s", name, o.Why)
					continue
				}
				c.Paths++
				s := o.St
				ret := retTuple(o.Ret)
				e := isNilV(s, ret[len(ret)-1])
				noff, _ := r.field(s, "byteOffset").(*ai.Lin)
				facts := strings.Join(s.Facts(), ", ")
				if e < 0 {
					nErr++
					if failed {
						c.check(ret[len(ret)-1].VKey() == "$prior-error", name+":sticky", "%s after a failure does not return the first error", name)
					} else {
						c.check(s.ProveGE(ai.AddK(ai.Sub(ai.Add(r.off, width), r.buf.Len), -1)), name+":refuses", "%s refuses a request that fits (%s)", name, facts)
						c.check(isNilV(s, r.field(s, "err")) < 0, name+":recorded", "%s fails without recording the error", name)
					}
					c.check(noff != nil && s.ProveEQ(ai.Sub(noff, r.off)), name+":unchanged", "%s moves the position although it fails", name)
					continue
				}
				if !c.check(e > 0 && !failed, name+":error", "%s succeeds after an earlier failure or with an undecided error", name) {
					continue
				}
				nOK++
				c.check(s.ProveGE(ai.Sub(r.buf.Len, ai.Add(r.off, width))), name+":fits", "%s accepts a request beyond the end of the buffer (%s)", name, facts)
				c.check(noff != nil && s.ProveEQ(ai.Sub(noff, ai.Add(r.off, adv))), name+":advance", "%s moves the position from %s to %v instead of by %s", name, r.off, noff, adv)
				arr := s.Load(r.buf.Ptr).(*ai.ArrV)
				for _, ww := range arr.Ws {
					l := ai.K(1)
					if ww.Val == nil {
						l = ww.Len
					}
					c.check(kind == "Set" && s.ProveGE(ai.Sub(ww.Off, r.off)) && s.ProveGE(ai.Sub(ai.Add(r.off, width), ai.Add(ww.Off, l))), name+":writes", "%s writes buffer bytes outside [position, position+width)", name)
				}
				switch {
				case kind == "Discard":
				case kind == "Set":
					if sl, ok := arg.(*ai.SliceV); ok {
						got := s.Content(&ai.SliceV{Ptr: r.buf.Ptr, Off: r.off, Len: sl.Len, Cap: sl.Len})
						c.check(got == s.Content(sl), name+":bytes", "%s does not store the given bytes at the position", name)
						continue
					}
					n := basicWidth(sig.Params().At(0).Type())
					p := patternOf(s, arg, n)
					c.check(p != nil && beEq(s, arr, r.off, int(n), p), name+":bytes", "%s does not store the value's %d big-endian bytes at the position", name, n)
				default:
					if sl, ok := ret[0].(*ai.SliceV); ok {
						ok = sl.Ptr != nil && sl.Ptr.Obj == r.buf.Ptr.Obj && s.ProveEQ(ai.Sub(sl.Off, r.off)) && s.ProveEQ(ai.Sub(sl.Len, width))
						if !ok {
							ok = s.Content(sl) == s.Content(&ai.SliceV{Ptr: r.buf.Ptr, Off: r.off, Len: width, Cap: width})
						}
						c.check(ok, name+":bytes", "%s does not return the bytes at the position: %s", name, sl.VKey())
						continue
					}
					n := basicWidth(sig.Results().At(0).Type())
					p := patternOf(s, ret[0], n)
					c.check(p != nil && n > 0 && beEq(s, arr, r.off, int(n), p), name+":bytes", "%s does not return the %d big-endian bytes at the position: %s", name, n, ret[0].VKey())
				}
			}
			if failed {
				c.check(nErr > 0 && nOK == 0, name+":sticky-paths", "%s ignores an earlier failure", name)
			} else {
				c.check(nErr > 0 && nOK > 0, name+":paths", "%s has %d accepting and %d refusing paths", name, nOK, nErr)
			}
			c.oblSet(w, in, name, "index slice panic nil makeslice")
		}
	}
	c.check(nOps >= 20, "operations", "only %d byte-level operations found", nOps)
}

// writerOps lists the value-writing methods of the Writer interface.
func writerOps(w *World) []*types.Func {
	it := w.named(pMP, "Writer").Underlying().(*types.Interface)
	var r []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		if strings.HasPrefix(it.Method(i).Name(), "Write") {
			r = append(r, it.Method(i))
		}
	}
	return r
}

type written struct {
	st   *ai.State
	size *ai.Lin
	buf  *ai.SliceV
	enc  *ai.PtrV
}

func encReader(w *World, enc *ai.PtrV) *rdr {
	et := w.named(pMP, "Encoder")
	return &rdr{ptr: enc, t: w.named(pMP, "DataReader"), base: []ai.Sel{{Field: fieldIdx(et, "reader")}}}
}

// sizeAndEncode runs op on the Sizer, allocates that many bytes, and runs it
// on an Encoder over them.
func sizeAndEncode(c *Ctx, w *World, in *ai.Interp, st *ai.State, op string, args []ai.Value) []written {
	szT, enT := w.named(pMP, "Sizer"), w.named(pMP, "Encoder")
	sz, en := w.methodOf(types.NewPointer(szT), op), w.methodOf(types.NewPointer(enT), op)
	ln := w.methodOf(types.NewPointer(szT), "Len")
	ctor := w.fn(pMP, "NewEncoder")
	if sz == nil || en == nil || ln == nil {
		failf("unresolved anchor: %s of Sizer/Encoder", op)
	}
	var r []written
	s := st.Alloc(szT, st.Zero(szT), "sizer")
	for _, o := range in.Run(st, sz, append([]ai.Value{s}, args...), nil) {
		if o.Kind != ai.Ret {
			c.fail(op+":sizer", "Sizer.%s: %s", op, o.Why)
			continue
		}
		for _, o := range in.Run(o.St, ln, []ai.Value{s}, nil) {
			n, ok := o.Ret.(*ai.Lin)
			if !ok {
				c.fail(op+":size", "Sizer.%s: size is not affine", op)
				continue
			}
			buf := dirtyBuf(o.St, "enc", n)
			for _, o := range in.Run(o.St, ctor, []ai.Value{buf}, nil) {
				e := o.St.Alloc(enT, o.Ret, "encoder")
				for _, o := range in.Run(o.St, en, append([]ai.Value{e}, args...), nil) {
					if o.Kind != ai.Ret {
						c.fail(op+":encoder", "Encoder.%s: %s", op, o.Why)
						continue
					}
					r = append(r, written{o.St, n, buf, e})
				}
			}
		}
	}
	c.Paths += len(r)
	return r
}

func symArg(st *ai.State, key string, t types.Type) ai.Value {
	v := st.Symbolic(key, t)
	switch x := v.(type) {
	case *ai.StrV:
		atMost(st, x.Len, 1<<32-64)
	case *ai.SliceV:
		atMost(st, x.Len, 1<<32-64)
	}
	return v
}

func checkSizerEncoder(c *Ctx) {
	w := load(pMP)
	nOps := 0
	for _, m := range writerOps(w) {
		if m.Name() == "WriteAny" {
			continue
		}
		nOps++
		sig := m.Type().(*types.Signature)
		in := mpHooks(w.interp())
		st := ai.NewState()
		var args []ai.Value
		for i := 0; i < sig.Params().Len(); i++ {
			v := symArg(st, "v."+m.Name(), sig.Params().At(i).Type())
			if o, ok := v.(*ai.OpaqueV); ok {
				if pt, ok := o.T.Underlying().(*types.Pointer); ok {
					if b, ok := pt.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						if x, ok := st.Load(st.Pointee(o)).(*ai.StrV); ok {
							atMost(st, x.Len, 1<<32-64)
						}
					}
				}
			}
			args = append(args, v)
		}
		n := 0
		for _, x := range sizeAndEncode(c, w, in, st, m.Name(), args) {
			n++
			r := encReader(w, x.enc)
			off, _ := r.field(x.st, "byteOffset").(*ai.Lin)
			facts := strings.Join(x.st.Facts(), ", ")
			if !c.check(isNilV(x.st, r.field(x.st, "err")) > 0, m.Name()+":room", "Encoder.%s runs out of the %s bytes the Sizer computed (%s)", m.Name(), x.size, facts) {
				continue
			}
			c.check(off != nil && x.st.ProveEQ(ai.Sub(off, x.size)), m.Name()+":size", "Encoder.%s writes %v bytes but the Sizer counts %s (%s)", m.Name(), off, x.size, facts)
		}
		c.check(n > 0, m.Name()+":paths", "no path sizes and encodes %s", m.Name())
		c.oblSet(w, in, m.Name(), "index slice makeslice panic nil")
	}
	c.check(nOps >= 28, "operations", "only %d Writer operations found", nOps)
	checkWriteAny(c, w)
}

// checkWriteAny compares the Writer operations both implementations issue for
// each dynamic type.
func checkWriteAny(c *Ctx, w *World) {
	impl := map[string]map[string][]string{} // type -> writer -> traces
	var tys []string
	seen := map[string]types.Type{}
	for _, name := range []string{"Sizer", "Encoder"} {
		fn := w.method(pMP, name, "WriteAny")
		// candidate dynamic types: every type asserted in WriteAny or a callee
		for f := range reachable(w, fn, pMP) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ta, ok := ins.(*ssa.TypeAssert); ok {
						if k := types.TypeString(ta.AssertedType, nil); seen[k] == nil {
							seen[k] = ta.AssertedType
							tys = append(tys, k)
						}
					}
				}
			}
		}
	}
	for _, t := range []types.Type{types.Typ[types.Complex128], types.NewChan(types.SendRecv, types.Typ[types.Int])} {
		seen[t.String()] = t
		tys = append(tys, t.String())
	}
	tys = append(tys, "nil")
	sort.Strings(tys)
	for _, name := range []string{"Sizer", "Encoder"} {
		t := w.named(pMP, name)
		fn := w.method(pMP, name, "WriteAny")
		for _, k := range tys {
			in := mpHooks(w.interp())
			st := ai.NewState()
			obj := st.Alloc(t, st.Symbolic("w", t), "w")
			var v ai.Value = ai.NilV{}
			if k != "nil" {
				dt := seen[k]
				if types.IsInterface(dt) {
					o := &ai.OpaqueV{Key: "codec", T: dt}
					v = o
					st.SetBool("isnil(codec)", false)
					st.SetBool("assert(codec,"+k+")", true)
				} else {
					v = &ai.IfaceV{Dyn: dt, V: symArg(st, "v", dt)}
				}
			}
			for _, m := range writerOps(w) {
				f := w.methodOf(types.NewPointer(t), m.Name())
				mn := m.Name()
				in.Hooks[ai.Name(f)] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
					cc.Event(&ai.Event{Kind: "op", Name: mn, Args: cc.Args[1:]})
					return cc.Return(nil)
				}
			}
			delete(in.Hooks, ai.Name(fn))
			depth := 0
			in.Hooks[ai.Name(fn)] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				_ = depth
				cc.Event(&ai.Event{Kind: "op", Name: "WriteAny", Args: cc.Args[1:]})
				return cc.Return(nil)
			}
			var traces []string
			for _, o := range in.Run(st, fn, []ai.Value{obj, v}, nil) {
				if o.Kind != ai.Ret {
					c.fail("any:"+name+":"+k, "%s.WriteAny(%s): %s", name, k, o.Why)
					continue
				}
				c.Paths++
				traces = append(traces, normTrace(o.St.Events, o.St))
			}
			sort.Strings(traces)
			traces = uniq(traces)
			if impl[k] == nil {
				impl[k] = map[string][]string{}
			}
			impl[k][name] = traces
			c.used(in)
		}
	}
	for _, k := range tys {
		a, b := strings.Join(impl[k]["Sizer"], " || "), strings.Join(impl[k]["Encoder"], " || ")
		c.check(a == b, "any:"+typeKey(k), "WriteAny(%s): the Sizer performs [%s] but the Encoder performs [%s]", k, a, b)
		if k == "nil" {
			c.check(a == "WriteNil()", "any:nil:once", "WriteAny(nil) performs [%s] instead of writing nil once", a)
		}
	}
	c.check(len(tys) >= 35, "any:types", "only %d dynamic types found", len(tys))
}

func typeKey(k string) string { return strings.ReplaceAll(k, mod+"/", "") }

func uniq(in []string) []string {
	var r []string
	for i, s := range in {
		if i == 0 || s != in[i-1] {
			r = append(r, s)
		}
	}
	return r
}

// normTrace renders the "op" events with run-specific names canonicalised.
func normTrace(evs []*ai.Event, st *ai.State) string {
	var raw func(evs []*ai.Event) string
	raw = func(evs []*ai.Event) string {
		var p []string
		for _, e := range evs {
			switch e.Kind {
			case "op":
				var a []string
				for _, x := range e.Args {
					a = append(a, e.St.Content(x))
				}
				p = append(p, e.Name+"("+strings.Join(a, ",")+")")
			case "call":
				if strings.HasSuffix(e.Name, ".Encode") {
					p = append(p, "Encode("+e.Recv.VKey()+")")
				}
			case "loop":
				m := map[string]bool{}
				for _, s := range e.Sub {
					if x := raw(s); x != "" {
						m[x] = true
					}
				}
				if len(m) > 0 {
					var ks []string
					for k := range m {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					p = append(p, "loop{"+strings.Join(ks, "|")+"}")
				}
			}
		}
		return strings.Join(p, ";")
	}
	return alpha(raw(evs))
}

// alpha renames generated names by order of appearance.
func alpha(s string) string {
	m := map[string]string{}
	var sb strings.Builder
	isW := func(b byte) bool {
		return b == '_' || b == '#' || b == '.' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	for i := 0; i < len(s); {
		if !isW(s[i]) {
			sb.WriteByte(s[i])
			i++
			continue
		}
		j := i
		for j < len(s) && isW(s[j]) {
			j++
		}
		tok := s[i:j]
		gen := strings.Contains(tok, "#") || len(tok) > 1 && tok[0] == 'L' && tok[1] >= '0' && tok[1] <= '9' || len(tok) > 1 && tok[0] == 'o' && tok[1] >= '0' && tok[1] <= '9'
		if gen {
			if m[tok] == "" {
				m[tok] = fmt.Sprintf("g%d", len(m))
			}
			tok = m[tok]
		}
		sb.WriteString(tok)
		i = j
	}
	return sb.String()
}

// reachable returns fn and the functions of package pkg it statically reaches.
func reachable(w *World, fn *ssa.Function, pkg string) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || r[f] || len(f.Blocks) == 0 {
			return
		}
		if p := ai.PkgPath(f); p != mod+"/"+pkg {
			return
		}
		r[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	walk(fn)
	return r
}

// decodeWith runs Decoder op on the encoded bytes.
func decodeWith(c *Ctx, w *World, in *ai.Interp, x written, op, tag string) []ai.Outcome {
	dt := w.named(pMP, "Decoder")
	rd := w.methodOf(types.NewPointer(dt), op)
	if rd == nil {
		failf("unresolved anchor: Decoder.%s", op)
	}
	var r []ai.Outcome
	for _, o := range in.Run(x.st.Fork(), w.fn(pMP, "NewDecoder"), []ai.Value{x.buf}, nil) {
		d := o.St.Alloc(dt, o.Ret, "decoder")
		for _, o := range in.Run(o.St, rd, []ai.Value{d}, nil) {
			if o.Kind != ai.Ret {
				c.fail(tag+":returns", "%s: %s", tag, o.Why)
				continue
			}
			rr := &rdr{ptr: d, t: w.named(pMP, "DataReader"), base: []ai.Sel{{Field: fieldIdx(dt, "reader")}}}
			// every written byte consumed
			off, _ := rr.field(o.St, "byteOffset").(*ai.Lin)
			ret := retTuple(o.Ret)
			if isNilV(o.St, ret[len(ret)-1]) > 0 {
				c.check(off != nil && o.St.ProveEQ(ai.Sub(off, x.size)), tag+":consumed", "%s consumes %v of the %s bytes written (%s)", tag, off, x.size, strings.Join(o.St.Facts(), ", "))
			}
			r = append(r, o)
		}
	}
	c.Paths += len(r)
	return r
}

// same compares a written value with a read one.
func mpSame(st *ai.State, wv, rv ai.Value) (bool, string) {
	if i, ok := rv.(*ai.IfaceV); ok {
		rv = i.V
	}
	if i, ok := wv.(*ai.IfaceV); ok {
		wv = i.V
	}
	if o, ok := wv.(*ai.OpaqueV); ok {
		if n, isT := o.T.(*types.Named); isT && n.String() == "time.Time" {
			// time.Unix(sec, nsec) with the seconds and nanoseconds of o
			var sec, ns *ai.Lin
			for _, e := range st.Events {
				if e.Kind == "time.Unix" {
					sec, _ = e.Args[0].(*ai.Lin)
					ns, _ = e.Args[1].(*ai.Lin)
				}
			}
			if sec == nil || ns == nil {
				return false, "time is not built from seconds and nanoseconds"
			}
			ws := ai.IntAtom("unix("+o.VKey()+")", types.Typ[types.Int64])
			wn := ai.IntAtom("nano("+o.VKey()+")", types.Typ[types.Int])
			return st.ProveEQ(ai.Sub(sec, ws)) && st.ProveEQ(ai.Sub(ns, wn)), fmt.Sprintf("time read as (%s, %s) instead of (%s, %s)", sec, ns, ws, wn)
		}
	}
	return sameValue(st, wv, rv)
}

func checkMPRoundTrip(c *Ctx) {
	w := load(pMP)
	n := 0
	for _, m := range writerOps(w) {
		suffix := strings.TrimPrefix(m.Name(), "Write")
		sig := m.Type().(*types.Signature)
		switch suffix {
		case "Any", "Nil":
			continue
		}
		n++
		in := mpHooks(w.interp())
		st := ai.NewState()
		v := symArg(st, "v."+m.Name(), sig.Params().At(0).Type())
		if o, ok := v.(*ai.OpaqueV); ok {
			if pt, ok := o.T.Underlying().(*types.Pointer); ok {
				if x, ok := st.Load(st.Pointee(o)).(*ai.StrV); ok {
					atMost(st, x.Len, 1<<32-64)
				}
				_ = pt
			}
		}
		tag := "Read" + suffix
		np := 0
		for _, x := range sizeAndEncode(c, w, in, st, m.Name(), []ai.Value{v}) {
			for _, o := range decodeWith(c, w, in, x, "Read"+suffix, tag) {
				np++
				s := o.St
				ret := retTuple(o.Ret)
				facts := strings.Join(s.Facts(), ", ")
				if !c.check(isNilV(s, ret[1]) > 0, tag+":error", "%s of what %s wrote fails (%s)", tag, m.Name(), facts) {
					continue
				}
				wn, rn := 0, 0
				if strings.HasPrefix(suffix, "Nillable") {
					wn, rn = isNilV(s, v), isNilV(s, ret[0])
					if sl, ok := v.(*ai.SliceV); ok && wn == 0 && s.ProveGE(ai.AddK(sl.Len, -1)) {
						wn = -1
					}
					if !c.check(wn == rn && wn != 0, tag+":nil", "%s: %s wrote nil: %s, read nil: %s", tag, m.Name(), tri(wn), tri(rn)) {
						continue
					}
					if wn > 0 {
						c.ok(tag + ":value")
						continue
					}
				}
				a, b := v, ret[0]
				if o, ok := a.(*ai.OpaqueV); ok {
					if _, ok := o.T.Underlying().(*types.Pointer); ok {
						a = s.Load(s.Pointee(o))
						p, ok := b.(*ai.PtrV)
						if !c.check(ok, tag+":pointer", "%s does not return a pointer to the value", tag) {
							continue
						}
						b = s.Load(p)
					}
				}
				eq, why := mpSame(s, a, b)
				c.check(eq, tag+":value", "%s does not read what %s wrote: %s (%s)", tag, m.Name(), why, facts)
			}
		}
		c.check(np > 0, tag+":paths", "no path writes and reads %s", suffix)
		c.oblSet(w, in, tag, "index slice makeslice panic nil")
	}
	c.check(n >= 29, "operations", "only %d operations found", n)

	// nil
	{
		in := mpHooks(w.interp())
		for _, x := range sizeAndEncode(c, w, in, ai.NewState(), "WriteNil", nil) {
			for _, op := range []string{"IsNextNil", "ReadAny"} {
				for _, o := range decodeWith(c, w, in, x, op, op+":nil") {
					r := retTuple(o.Ret)
					ok := isNilV(o.St, r[1]) > 0
					if b, isB := r[0].(*ai.BoolV); isB {
						ok = ok && o.St.Eval(b) > 0
					} else {
						ok = ok && isNilV(o.St, r[0]) > 0
					}
					c.check(ok, op+":nil", "%s does not recognise the written nil", op)
				}
			}
		}
	}

	// integers read with another width
	ints := []string{"Int8", "Int16", "Int32", "Int64", "Uint8", "Uint16", "Uint32", "Uint64"}
	for _, wt := range ints {
		for _, rt := range ints {
			if wt == rt {
				continue
			}
			in := mpHooks(w.interp())
			st := ai.NewState()
			wf, rf := w.method(pMP, "Encoder", "Write"+wt), w.method(pMP, "Decoder", "Read"+rt)
			v := symArg(st, "v"+wt, wf.Signature.Params().At(0).Type()).(*ai.Lin)
			dst := rf.Signature.Results().At(0).Type()
			wd, signed := 8*int(basicWidth(dst)), strings.HasPrefix(rt, "Int")
			lo, hi := big.NewInt(0), new(big.Int).Sub(bigP2(uint(wd)), big.NewInt(1))
			if signed {
				lo, hi = new(big.Int).Neg(bigP2(uint(wd-1))), new(big.Int).Sub(bigP2(uint(wd-1)), big.NewInt(1))
			}
			tag := "Write" + wt + "/Read" + rt
			sameSign := strings.HasPrefix(wt, "Int") == signed
			for _, x := range sizeAndEncode(c, w, in, st, "Write"+wt, []ai.Value{v}) {
				for _, o := range decodeWith(c, w, in, x, "Read"+rt, tag) {
					s := o.St
					ret := retTuple(o.Ret)
					facts := strings.Join(s.Facts(), ", ")
					if e := isNilV(s, ret[1]); e > 0 {
						l, ok := ret[0].(*ai.Lin)
						c.check(ok && s.ProveEQ(ai.Sub(l, v)), tag+":value", "%s returns %s for %s without error (%s)", tag, ret[0].VKey(), v, facts)
					} else if sameSign {
						below := s.ProveGE(ai.AddK(ai.Sub(ai.KB(lo), v), -1))
						above := s.ProveGE(ai.AddK(ai.Sub(v, ai.KB(hi)), -1))
						c.check(e < 0 && (below || above), tag+":refuses", "%s refuses a value that fits (%s)", tag, facts)
					} else {
						c.check(e < 0, tag+":refuses", "%s: undecided error (%s)", tag, facts)
					}
				}
			}
			c.oblSet(w, in, tag, "index slice makeslice panic nil")
		}
	}

	// dynamically typed scalars
	for _, t := range []types.Type{types.Typ[types.Int], types.Typ[types.Int8], types.Typ[types.Int16], types.Typ[types.Int32], types.Typ[types.Int64],
		types.Typ[types.Uint], types.Typ[types.Uint8], types.Typ[types.Uint16], types.Typ[types.Uint32], types.Typ[types.Uint64],
		types.Typ[types.Bool], types.Typ[types.Float32], types.Typ[types.Float64], types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])} {
		in := mpHooks(w.interp())
		st := ai.NewState()
		v := symArg(st, "any."+t.String(), t)
		tag := "ReadAny(" + t.String() + ")"
		np := 0
		for _, x := range sizeAndEncode(c, w, in, st, "WriteAny", []ai.Value{&ai.IfaceV{Dyn: t, V: v}}) {
			for _, o := range decodeWith(c, w, in, x, "ReadAny", tag) {
				np++
				ret := retTuple(o.Ret)
				facts := strings.Join(o.St.Facts(), ", ")
				if !c.check(isNilV(o.St, ret[1]) > 0, tag+":error", "%s of what WriteAny wrote fails (%s)", tag, facts) {
					continue
				}
				if sl, ok := v.(*ai.SliceV); ok && isNilV(o.St, sl) > 0 {
					if isNilV(o.St, ret[0]) > 0 {
						continue // nil bytes read as nil
					}
				}
				eq, why := mpSame(o.St, v, ret[0])
				c.check(eq, tag+":value", "%s does not read what WriteAny wrote: %s (%s)", tag, why, facts)
			}
		}
		c.check(np > 0, tag+":paths", "no path writes and reads a %s", t)
		c.oblSet(w, in, tag, "index slice makeslice panic nil")
	}
}

// mpSpec is the MessagePack size table for values without elements: bytes
// before the payload, width of the length field (0: none), fixed payload.
func mpSpec(lead int) (head, lenW, fixed int64, ok bool) {
	switch {
	case lead <= 0x7f || lead >= 0xe0:
		return 1, 0, 0, true
	case lead >= 0xa0 && lead <= 0xbf:
		return 1, 0, int64(lead & 0x1f), true
	}
	switch lead {
	case 0xc0, 0xc2, 0xc3:
		return 1, 0, 0, true
	case 0xc4, 0xd9:
		return 2, 1, 0, true
	case 0xc5, 0xda:
		return 3, 2, 0, true
	case 0xc6, 0xdb:
		return 5, 4, 0, true
	case 0xc7:
		return 3, 1, 0, true // length, type
	case 0xc8:
		return 4, 2, 0, true
	case 0xc9:
		return 6, 4, 0, true
	case 0xca, 0xce, 0xd2:
		return 5, 0, 0, true
	case 0xcb, 0xcf, 0xd3:
		return 9, 0, 0, true
	case 0xcc, 0xd0:
		return 2, 0, 0, true
	case 0xcd, 0xd1:
		return 3, 0, 0, true
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return 2 + 1<<(lead-0xd4), 0, 0, true
	}
	return 0, 0, 0, false
}

func checkSkip(c *Ctx) {
	w := load(pMP)
	dt := w.named(pMP, "Decoder")
	fn := w.method(pMP, "Decoder", "Skip")
	// run skips a value whose first bytes are fixed, in a buffer of symbolic
	// length; size gives the bytes the value occupies (nil: not a value).
	run := func(tag string, prefix []byte, exact bool, size func(st *ai.State, arr *ai.ArrV, off *ai.Lin) *ai.Lin) {
		in := mpHooks(w.interp())
		in.RecLimit = 12
		in.MaxUnroll = 1200
		in.UnrollExits = true
		st := ai.NewState()
		r := symReader(w, st)
		arr := st.Load(r.buf.Ptr).(*ai.ArrV)
		for i, b := range prefix {
			arr = st.ArrWrite(arr, ai.Add(r.off, ai.K(int64(i))), ai.K(int64(b)))
		}
		st.Store(r.buf.Ptr, arr)
		if exact { // nothing follows the prefix
			st.AddFact(ai.Sub(ai.AddK(r.off, int64(len(prefix))), r.buf.Len))
			st.AddFact(ai.Sub(r.buf.Len, ai.AddK(r.off, int64(len(prefix)))))
		}
		sz := size(st, arr, r.off)
		d := st.Alloc(dt, st.Zero(dt), "decoder")
		st.Store(&ai.PtrV{Obj: d.Obj, Path: []ai.Sel{{Field: fieldIdx(dt, "reader")}}}, st.Load(r.ptr))
		rr := &rdr{ptr: d, t: r.t, base: []ai.Sel{{Field: fieldIdx(dt, "reader")}}}
		n := 0
		for _, o := range in.Run(st, fn, []ai.Value{d}, nil) {
			if o.Kind != ai.Ret {
				c.fail(tag+":returns", "Skip of %s: %s", tag, o.Why)
				continue
			}
			n++
			c.Paths++
			s := o.St
			facts := ""
			if len(s.Facts()) < 12 {
				facts = strings.Join(s.Facts(), ", ")
			}
			off, _ := rr.field(s, "byteOffset").(*ai.Lin)
			switch e := isNilV(s, o.Ret); {
			case e > 0 && sz == nil:
				c.fail(tag+":accepts", "Skip of %s succeeds although there is no such value", tag)
			case e > 0:
				c.check(off != nil && s.ProveEQ(ai.Sub(ai.Sub(off, r.off), sz)), tag+":consumed", "Skip of %s consumes %v bytes, the value has %s (%s)", tag, ai.Sub(off, r.off), sz, facts)
				if exact {
					c.check(s.ProveEQ(ai.AddK(sz, -int64(len(prefix)))), tag+":truncated", "Skip of %s succeeds on a truncated value", tag)
				}
			case e < 0 && sz != nil:
				c.check(s.ProveGE(ai.AddK(ai.Sub(ai.Add(r.off, sz), r.buf.Len), -1)), tag+":refuses", "Skip of %s fails on a complete value (%s)", tag, facts)
			case e < 0:
				c.ok(tag + ":refuses")
			default:
				c.fail(tag+":error", "Skip of %s: undecided error", tag)
			}
		}
		c.check(n > 0, tag+":paths", "Skip of %s has no path", tag)
		c.oblSet(w, in, "skip", "index slice makeslice panic nil")
	}
	k := func(n int64) func(*ai.State, *ai.ArrV, *ai.Lin) *ai.Lin {
		return func(*ai.State, *ai.ArrV, *ai.Lin) *ai.Lin { return ai.K(n) }
	}
	// elements of one and two bytes and with a payload
	elems := func(n int) ([]byte, int64) {
		var b []byte
		for i := 0; i < n; i++ {
			switch {
			case i == 0:
				b = append(b, 0x92, 0x05, 0x81, 0xc0, 0xd9, 2, 'a', 'b') // [5, {nil: "ab"}]
			case i == 2:
				b = append(b, 0xd1, 1, 2)
			default:
				b = append(b, 0x07)
			}
		}
		return b, int64(len(b))
	}
	for lead := 0; lead < 256; lead++ {
		tag := fmt.Sprintf("lead %02x", lead)
		if head, lw, fixed, ok := mpSpec(lead); ok {
			run(tag, []byte{byte(lead)}, false, func(st *ai.State, arr *ai.ArrV, off *ai.Lin) *ai.Lin {
				sz := ai.K(head + fixed)
				if lw > 0 {
					l := ai.K(0)
					for i := int64(0); i < lw; i++ {
						b := st.ArrRead(arr, ai.AddK(off, 1+i)).(*ai.Lin)
						l = ai.Add(ai.Scale(l, big.NewInt(256)), b)
					}
					sz = ai.Add(sz, l)
				}
				return sz
			})
			continue
		}
		hdr := func(n uint64) ([]byte, int, bool) {
			switch {
			case lead >= 0x90 && lead <= 0x9f:
				return []byte{byte(lead)}, lead & 15, n == 0
			case lead >= 0x80 && lead <= 0x8f:
				return []byte{byte(lead)}, 2 * (lead & 15), n == 0
			case lead == 0xdc:
				return []byte{byte(lead), byte(n >> 8), byte(n)}, int(n), n < 1<<16
			case lead == 0xde:
				return []byte{byte(lead), byte(n >> 8), byte(n)}, 2 * int(n), n < 1<<16
			case lead == 0xdd:
				return []byte{byte(lead), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, int(n), true
			case lead == 0xdf:
				return []byte{byte(lead), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, 2 * int(n), true
			}
			return nil, 0, false
		}
		if h, _, _ := hdr(0); h == nil { // 0xc1
			run(tag, []byte{byte(lead)}, false, func(*ai.State, *ai.ArrV, *ai.Lin) *ai.Lin { return nil })
			continue
		}
		for _, n := range []uint64{0, 1, 3, 0x102} {
			if h, cnt, ok := hdr(n); ok {
				es, l := elems(cnt)
				run(fmt.Sprintf("%s count %d", tag, cnt), append(h, es...), false, k(int64(len(h))+l))
			}
		}
		// every bit of the count matters: only a header present
		for b := 0; b < 32; b++ {
			if h, cnt, ok := hdr(1 << b); ok {
				run(fmt.Sprintf("%s only, %d elements", tag, cnt), h, true, k(int64(len(h))+int64(cnt)))
			}
		}
		if h, cnt, _ := hdr(0); lead < 0xc0 && cnt > 0 {
			run(fmt.Sprintf("%s only, %d elements", tag, cnt), h, true, k(int64(1+cnt)))
		}
	}
}
