package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	register(check{id: "C08", title: "Codec failures are reported, not swallowed",
		rule:  "abstract interpretation of every function of msgpack, msgpack/convert and transform that can fail: on each exit that reports success, every error produced on the path (by a reader, writer, nested codec, callback or callee, also inside loops) must be nil, and every writer handed to foreign code must have been asked for its recorded error",
		floor: 400, run: checkErrors})
}

var errType = types.Universe.Lookup("error").Type()

func returnsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && types.Identical(sig.Results().At(n-1).Type(), errType)
}

// lastErr extracts the error of a call result.
func lastErr(v ai.Value, t types.Type) ai.Value {
	switch x := t.(type) {
	case *types.Tuple:
		if x.Len() == 0 || !types.Identical(x.At(x.Len()-1).Type(), errType) {
			return nil
		}
		if x.Len() == 1 {
			return v
		}
		if tv, ok := v.(*ai.TupleV); ok {
			return tv.E[len(tv.E)-1]
		}
		return nil
	}
	if types.Identical(t, errType) {
		return v
	}
	return nil
}

// writerErr locates the sticky error of a local Encoder or Sizer object.
func writerErr(w *World, st *ai.State, v ai.Value, sizerToo bool) (*ai.PtrV, bool) {
	if i, ok := v.(*ai.IfaceV); ok {
		v = i.V
	}
	p, ok := v.(*ai.PtrV)
	if !ok || len(p.Path) != 0 {
		return nil, false
	}
	o := st.Obj(p.Obj)
	if o == nil || o.T == nil {
		return nil, false
	}
	et, sz := w.named(pMP, "Encoder"), w.named(pMP, "Sizer")
	switch {
	case types.Identical(o.T, et):
		r := fieldIdx(et, "reader")
		return &ai.PtrV{Obj: p.Obj, Path: []ai.Sel{{Field: r}, {Field: fieldIdx(w.named(pMP, "DataReader"), "err")}}}, true
	case sizerToo && types.Identical(o.T, sz):
		return &ai.PtrV{Obj: p.Obj, Path: []ai.Sel{{Field: fieldIdx(sz, "err")}}}, true
	}
	return nil, false
}

func checkErrors(c *Ctx) {
	w := load(pMP, pMP+"/convert", "transform")
	n := 0
	for _, pk := range []string{pMP, pMP + "/convert", "transform"} {
		fns := ai.PkgFuncs(w.Prog, w.pkg(pk))
		sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
		for _, fn := range fns {
			if len(fn.Blocks) == 0 || fn.Synthetic != "" {
				continue
			}
			writer := false
			if r := fn.Signature.Recv(); r != nil {
				if nm, ok := derefT(r.Type()).(*types.Named); ok && (nm.Obj().Name() == "Encoder" || nm.Obj().Name() == "Sizer") {
					writer = strings.HasPrefix(fn.Name(), "Write")
				}
				// the byte level is C07's
				if nm, ok := derefT(r.Type()).(*types.Named); ok && nm.Obj().Name() == "DataReader" {
					continue
				}
			}
			if !writer && !returnsError(fn.Signature) || fn.Name() == "Err" {
				continue
			}
			n++
			errorFlow(c, w, fn, writer)
		}
	}
	c.check(n >= 130, "functions", "only %d functions that can fail were found", n)
	c.count("functions_that_can_fail", n)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func errorFlow(c *Ctx, w *World, fn *ssa.Function, writer bool) {
	name := shortFn(fn)
	in := mpHooks(w.interp())
	in.RetEvents = true
	writerT := w.named(pMP, "Writer")
	in.OpaqueCB = func(cc *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
		os := cc.Opaque2()
		for _, o := range os { // sizes within MessagePack's 32-bit lengths
			if x, ok := o.Ret.(*ai.StrV); ok {
				atMost(o.St, x.Len, 1<<32-64)
			}
		}
		// foreign code may make a writer it is given fail
		for _, o := range os {
			for _, a := range cc.Args {
				if p, ok := writerErr(w, o.St, a, true); ok && o.St.Eval(o.St.IsNil(o.St.Load(p))) > 0 {
					k := freshKey("writer-error")
					o.St.Store(p, &ai.OpaqueV{Key: k, T: errType})
				}
			}
		}
		return os, true
	}
	// dynamic values nest: a nested ReadAny/WriteAny is an arbitrary outcome
	for _, t := range []string{"Decoder", "Encoder", "Sizer"} {
		for _, m := range methodsOf(w, w.named(pMP, t)) {
			if m.Name() != "ReadAny" && m.Name() != "WriteAny" || m == fn {
				continue
			}
			h := func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				os := cc.Opaque2()
				for _, o := range os {
					if p, ok := writerErr(w, o.St, cc.Args[0], true); ok && o.St.Eval(o.St.IsNil(o.St.Load(p))) > 0 {
						o.St.Store(p, &ai.OpaqueV{Key: freshKey("writer-error"), T: errType})
					}
				}
				return os, true
			}
			in.Hooks[ai.Name(m)] = h
		}
	}
	in.RecLimit = 1
	st := ai.NewState()
	var args, free []ai.Value
	for i, p := range fn.Params {
		t := p.Type()
		if i == 0 && fn.Signature.Recv() != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				obj := st.Alloc(pt.Elem(), st.Symbolic("recv", pt.Elem()), "recv")
				if nm, ok := pt.Elem().(*types.Named); ok && nm.Obj().Name() == "Decoder" {
					r := symReader(w, st)
					st.Store(&ai.PtrV{Obj: obj.Obj, Path: []ai.Sel{{Field: fieldIdx(nm, "reader")}}}, st.Load(r.ptr))
				}
				if writer {
					// no earlier failure
					if nm := pt.Elem().(*types.Named); nm.Obj().Name() == "Encoder" {
						r := symReader(w, st)
						st.Store(&ai.PtrV{Obj: obj.Obj, Path: []ai.Sel{{Field: fieldIdx(nm, "reader")}}}, st.Load(r.ptr))
					} else {
						st.Store(obj, st.Zero(pt.Elem()))
					}
				}
				args = append(args, obj)
				continue
			}
		}
		v := symArg(st, "arg."+p.Name(), t)
		if o, ok := v.(*ai.OpaqueV); ok {
			st.SetBool("isnil("+o.Key+")", false)
			if _, ok := t.Underlying().(*types.Pointer); ok {
				if x, ok := st.Load(st.Pointee(o)).(*ai.StrV); ok {
					atMost(st, x.Len, 1<<32-64)
				}
			}
		}
		args = append(args, v)
	}
	for _, p := range fn.FreeVars {
		v := st.Symbolic("free."+p.Name(), p.Type())
		if o, ok := v.(*ai.OpaqueV); ok {
			st.SetBool("isnil("+o.Key+")", false)
		}
		free = append(free, v)
	}
	if fn.Name() == "WriteAny" {
		// one run per dynamic type is C04's; here the value is any codec or other value
	}
	type agg struct {
		ok  bool
		msg string
	}
	res := map[string]*agg{}
	var order []string
	note := func(key string, ok bool, msg string) {
		a := res[key]
		if a == nil {
			a = &agg{ok: true}
			res[key] = a
			order = append(order, key)
		}
		if !ok && a.ok {
			a.ok, a.msg = false, msg
		}
	}
	rets := 0
	for _, o := range in.Run(st, fn, args, free) {
		if o.Kind != ai.Ret {
			if o.Kind == ai.Cut {
				note(name+":paths", false, o.Why)
			}
			continue
		}
		c.Paths++
		rets++
		s := o.St
		var final ai.Value
		if returnsError(fn.Signature) {
			r := retTuple(o.Ret)
			final = r[len(r)-1]
		} else if writer {
			if p, ok := writerErr(w, s, args[0], true); ok {
				final = s.Load(p)
			}
		}
		failed := final != nil && isNilV(s, final) < 0
		judge := func(end *ai.State, ev *ai.Event, inLoop bool) {
			if ev.Kind != "call" && ev.Kind != "ret" || ev.Instr == nil {
				return
			}
			ci, ok := ev.Instr.(ssa.CallInstruction)
			if !ok || ev.Ret == nil {
				return
			}
			var e ai.Value
			if ci.Common().Signature().Results().Len() == 1 {
				e = lastErr(ev.Ret, ci.Common().Signature().Results().At(0).Type())
			} else {
				e = lastErr(ev.Ret, ci.Common().Signature().Results())
			}
			if e == nil || producesErrors[ev.Name] {
				return
			}
			// calls made inside the byte-level reader are judged there
			callee := ev.Name[strings.LastIndex(ev.Name, "/")+1:]
			key := name + ": error of " + callee
			ok = failed && !inLoop || isNilV(end, e) > 0 || final != nil && !inLoop && final.VKey() == e.VKey()
			if inLoop && !ok && writer && final != nil {
				ok = failed
			}
			if !ok && len(ev.Args) > 0 { // recorded in the local writer, judged below
				if p := enclosingWriterErr(w, end, ev.Args[0]); p != nil {
					ok = isNilV(end, end.Load(p)) < 0
				}
			}
			where := "on a path that reports success"
			if inLoop {
				where = "in a loop iteration that carries on"
			}
			note(key, ok, "the error of "+callee+" at "+w.at(ev.Pos)+" is dropped "+where)
		}
		dirty := map[string]string{}
		var walk func(end *ai.State, evs []*ai.Event, inLoop bool)
		walk = func(end *ai.State, evs []*ai.Event, inLoop bool) {
			for _, ev := range evs {
				if ev.Kind == "loop" {
					for i, sub := range ev.Sub {
						walk(ev.SubEnd[i], sub, true)
					}
					continue
				}
				judge(end, ev, inLoop)
				if ev.Kind != "call" {
					continue
				}
				// typestate of foreign writers: written, then asked for its error
				for _, a := range append([]ai.Value{ev.Recv}, ev.Args...) {
					ow, ok := a.(*ai.OpaqueV)
					if !ok || ow.T == nil || !types.Identical(ow.T, writerT) {
						continue
					}
					if strings.HasSuffix(ev.Name, ".Err") || lastErrOf(ev) != nil {
						delete(dirty, ow.Key)
					} else {
						dirty[ow.Key] = w.at(ev.Pos)
					}
				}
			}
		}
		walk(s, s.Events, false)
		if returnsError(fn.Signature) && !failed {
			for k, at := range dirty {
				note(name+": writer "+k, false, "what is written at "+at+" may fail and the writer's error is not returned")
			}
			note(name+": writers", true, "")
			// local encoders given to foreign code
			for _, ev := range s.Events {
				for _, a := range ev.Args {
					if i, ok := a.(*ai.IfaceV); ok {
						a = i.V
					}
					if q, ok := a.(*ai.PtrV); ok {
						a = &ai.PtrV{Obj: q.Obj}
					}
					if p, ok := writerErr(w, s, a, false); ok {
						e := s.Load(p)
						note(name+": encoder", isNilV(s, e) > 0 || final != nil && e.VKey() == final.VKey(), "success is reported although the encoder may have recorded an error "+e.VKey()+strings.Join(s.Facts(), ","))
					}
				}
			}
		}
		if p, ok := writerErr(w, s, args0(args), true); ok && writer {
			_ = p
		}
		// the decoder's recorded error is returned too
		if nm, ok := recvNamed(fn); ok && nm.Obj().Name() == "Decoder" && len(args) > 0 && returnsError(fn.Signature) && !failed {
			p := args[0].(*ai.PtrV)
			e := s.Load(&ai.PtrV{Obj: p.Obj, Path: []ai.Sel{{Field: fieldIdx(nm, "reader")}, {Field: fieldIdx(w.named(pMP, "DataReader"), "err")}}})
			note(name+": reader", isNilV(s, e) > 0 || final != nil && e.VKey() == final.VKey(), "a read fails and success is reported")
		}
	}
	note(name+":paths", rets > 0, "no path of "+name+" returns")
	for _, k := range order {
		c.check(res[k].ok, k, "%s: %s", name, res[k].msg)
	}
	for _, cut := range in.Cuts {
		c.fail("cut:"+name, "analysis of %s incomplete: %s", name, cut)
	}
	c.used(in)
}

// enclosingWriterErr finds the sticky error of the local Encoder or Sizer that
// v points into.
func enclosingWriterErr(w *World, st *ai.State, v ai.Value) *ai.PtrV {
	p, ok := v.(*ai.PtrV)
	if !ok {
		return nil
	}
	r, _ := writerErr(w, st, &ai.PtrV{Obj: p.Obj}, true)
	return r
}

// constructors of error values
var producesErrors = map[string]bool{"errors.New": true, "fmt.Errorf": true}

func args0(a []ai.Value) ai.Value {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

func recvNamed(fn *ssa.Function) (*types.Named, bool) {
	r := fn.Signature.Recv()
	if r == nil {
		return nil, false
	}
	n, ok := derefT(r.Type()).(*types.Named)
	return n, ok
}

func lastErrOf(ev *ai.Event) ai.Value {
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok || ev.Ret == nil {
		return nil
	}
	return lastErr(ev.Ret, ci.Common().Signature().Results())
}

var freshN int

func freshKey(s string) string {
	freshN++
	return s + "#" + itoa(freshN)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for ; n > 0; n /= 10 {
		b = append([]byte{byte('0' + n%10)}, b...)
	}
	return string(b)
}
