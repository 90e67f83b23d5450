package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

const pTr = "transform"

func init() {
	register(check{id: "C24", title: "Payload transforms are inverse pairs and keep data and metadata apart",
		rule:  "abstract interpretation of every transform's Encode composed with its Decode, and of every XToBytes helper composed with the matching Read operation, on a symbolic value: the decoded value is the encoded one, the buffer is filled and consumed exactly, no metadata is produced, Decode reads the payload's data; slice and map helpers on counted inputs",
		floor: 250, run: checkTransforms})
	register(check{id: "C32", title: "Numeric and nil conversions never lose a value or crash",
		rule:  "abstract interpretation of every conversion helper on nil and non-nil inputs with and without an incoming error: obligations on dereferences, error passed through unchanged, nil for nil, converted value otherwise",
		floor: 60, run: checkConvert})
}

// readOpFor names the Reader operation for a Go type.
func readOpFor(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.String() == "time.Time" {
		return "ReadTime"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int:
			return "ReadInt64"
		case types.Uint:
			return "ReadUint64"
		}
		return "Read" + strings.ToUpper(u.Name()[:1]) + u.Name()[1:]
	case *types.Slice:
		return "ReadByteArray"
	case *types.Interface:
		return "ReadAny"
	}
	return ""
}

// localObjs lists the heap objects of a given type.
func localObjs(st *ai.State, t types.Type) []*ai.PtrV {
	var r []*ai.PtrV
	for _, id := range st.Objs() {
		if o := st.Obj(id); o != nil && o.T != nil && types.Identical(o.T, t) {
			r = append(r, &ai.PtrV{Obj: id})
		}
	}
	return r
}

// encodersFull: every local Encoder and Decoder has reached the end of its buffer.
func buffersDone(w *World, st *ai.State, typ string) (int, string) {
	n, unused := 0, ""
	t := w.named(pMP, typ)
	dr := w.named(pMP, "DataReader")
	for _, p := range localObjs(st, t) {
		r := &rdr{ptr: p, t: dr, base: []ai.Sel{{Field: fieldIdx(t, "reader")}}}
		b, ok := r.field(st, "buffer").(*ai.SliceV)
		off, ok2 := r.field(st, "byteOffset").(*ai.Lin)
		if !ok || !ok2 {
			continue
		}
		if st.ProveEQ(off) && !st.ProveEQ(b.Len) {
			unused = fmt.Sprintf("0 of %s bytes used", b.Len) // a temporary copy
			continue
		}
		n++
		if !st.ProveEQ(ai.Sub(off, b.Len)) {
			return n, fmt.Sprintf("%s of %s bytes used", off, b.Len)
		}
		if isNilV(st, r.field(st, "err")) <= 0 {
			return n, "an error is recorded"
		}
	}
	if n == 0 {
		return 0, unused
	}
	return n, ""
}

func boundArg(st *ai.State, v ai.Value) {
	switch x := v.(type) {
	case *ai.StrV:
		atMost(st, x.Len, 1<<32-64)
	case *ai.SliceV:
		atMost(st, x.Len, 1<<32-64)
	}
}

// textTime models the formatting and parsing of times.
func textTime(in *ai.Interp) {
	in.Hooks["(time.Time).Format"] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		lay, _ := ai.ConstStr(cc.Args[1])
		v := cc.St.Symbolic("format("+lay+","+cc.Args[0].VKey()+")", cc.RetT)
		boundArg(cc.St, v)
		return cc.Return(v)
	}
	in.Hooks["time.Parse"] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		lay, _ := ai.ConstStr(cc.Args[0])
		k := cc.St.Content(cc.Args[1])
		pre := "format(" + lay + ","
		if i := strings.Index(k, pre); i >= 0 && lay == "2006-01-02T15:04:05.999999999Z07:00" {
			// the whole text of a formatted time
			rest := k[i+len(pre):]
			if j := strings.Index(rest, ")"); j >= 0 {
				key := strings.TrimPrefix(rest[:j], "$")
				t := cc.RetT.(*types.Tuple).At(0).Type()
				want := cc.St.Symbolic("format("+lay+",$"+key+")", types.Typ[types.String])
				if cc.St.Content(want) == k {
					return cc.Return(&ai.TupleV{E: []ai.Value{&ai.OpaqueV{Key: key, T: t}, ai.NilV{}}})
				}
			}
		}
		return cc.Opaque(), true
	}
}

type codecPair struct {
	name     string
	enc, dec ai.Value
	t        types.Type
	init     *ai.State
}

func checkTransforms(c *Ctx) {
	w := load(pTr, pMP, "payload")
	pk := w.pkg(pTr)
	nPairs := 0
	pair := func(name string, t types.Type, run func(in *ai.Interp, st *ai.State, v ai.Value) []ai.Outcome, decode func(in *ai.Interp, st *ai.State, p ai.Value) []ai.Outcome) {
		nPairs++
		vals := []ai.Value{}
		in := mpHooks(w.interp())
		textTime(in)
		mk := func() *ai.State { return ai.NewState() }
		if types.IsInterface(t) { // dynamically typed: a few scalars
			for _, bt := range []types.Type{types.Typ[types.Int64], types.Typ[types.Uint8], types.Typ[types.String], types.Typ[types.Bool], types.Typ[types.Float64]} {
				s := mk()
				v := symArg(s, name+"."+bt.String(), bt)
				vals = append(vals, &ai.IfaceV{Dyn: bt, V: v})
			}
		} else {
			vals = append(vals, nil)
		}
		n := 0
		for _, v := range vals {
			st := mk()
			if v == nil {
				v = symArg(st, name+".value", t)
			} else {
				i := v.(*ai.IfaceV)
				v = &ai.IfaceV{Dyn: i.Dyn, V: symArg(st, name+"."+i.Dyn.String(), i.Dyn)}
			}
			for _, o := range run(in, st, v) {
				if o.Kind != ai.Ret {
					c.fail(name+":encode", "%s.Encode: %s", name, o.Why)
					continue
				}
				s := o.St
				ret := retTuple(o.Ret)
				if !c.check(isNilV(s, ret[1]) > 0, name+":encode-error", "%s.Encode fails on a value (%s)", name, strings.Join(s.Facts(), ", ")) {
					continue
				}
				if t.Underlying().String() != "struct{}" {
					k, why := buffersDone(w, s, "Encoder")
					c.check(why == "" && k > 0, name+":filled", "%s.Encode: %s", name, why)
				}
				md := callMethod(in, s, ret[0], "Metadata")
				c.check(md != nil && isEmpty(s, md), name+":metadata", "%s.Encode produces metadata", name)
				for _, o := range decode(in, s.Fork(), ret[0]) {
					if o.Kind != ai.Ret {
						c.fail(name+":decode", "%s.Decode: %s", name, o.Why)
						continue
					}
					n++
					c.Paths++
					s := o.St
					r := retTuple(o.Ret)
					facts := strings.Join(s.Facts(), ", ")
					if !c.check(isNilV(s, r[1]) > 0, name+":decode-error", "%s.Decode fails on what Encode produced (%s)", name, facts) {
						continue
					}
					if t.Underlying().String() == "struct{}" {
						c.ok(name + ":value")
						continue
					}
					eq, why := mpSame(s, v, r[0])
					if !eq && v.VKey() == r[0].VKey() {
						eq = true
					}
					c.check(eq, name+":value", "%s.Decode does not return the encoded value: %s (%s)", name, why, facts)
					k, why := buffersDone(w, s, "Decoder")
					c.check(why == "" && k > 0, name+":consumed", "%s.Decode: %s", name, why)
				}
			}
		}
		c.check(n > 0, name+":paths", "%s has no encode/decode path", name)
		c.oblSet(w, in, name, "index slice makeslice panic nil")
		// arbitrary bytes: no crash
		in2 := mpHooks(w.interp())
		st := ai.NewState()
		if !types.IsInterface(t) {
			pt := w.named("payload", "SimplePayload")
			data := byteSlice(st, "data")
			boundArg(st, data)
			p := st.Alloc(pt, &ai.StructV{F: []ai.Value{byteSlice(st, "md"), data}}, "payload")
			decode(in2, st, &ai.IfaceV{Dyn: types.NewPointer(pt), V: p})
			c.oblSet(w, in2, name+":malformed", "index slice makeslice panic nil")
		}
	}
	// Transform variables
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, nm := range names {
		g, ok := pk.Members[nm].(*ssa.Global)
		if !ok {
			continue
		}
		gt, ok := derefT(g.Type()).(*types.Named)
		if !ok || gt.Obj().Name() != "Transform" {
			continue
		}
		t := gt.TypeArgs().At(0)
		call := func(field string) func(in *ai.Interp, st *ai.State, v ai.Value) []ai.Outcome {
			return func(in *ai.Interp, st *ai.State, v ai.Value) []ai.Outcome {
				sv, ok := in.GlobalValue(st, g).(*ai.StructV)
				if !ok {
					failf("transform %s is not a known value", nm)
				}
				return in.CallValue(st, sv.F[fieldIdx(gt, field)], []ai.Value{v})
			}
		}
		pair(nm, t, call("Encode"), call("Decode"))
	}
	// XDecode/XEncode function pairs over one basic type
	for _, nm := range names {
		enc, ok := pk.Members[nm].(*ssa.Function)
		if !ok || !strings.HasSuffix(nm, "Encode") {
			continue
		}
		dec, ok := pk.Members[strings.TrimSuffix(nm, "Encode")+"Decode"].(*ssa.Function)
		if !ok || len(enc.Params) != 1 || len(dec.Params) != 1 {
			continue
		}
		if enc.Signature.TypeParams().Len() != 1 {
			continue
		}
		t := enc.Params[0].Type()
		if enc.Signature.Results().Len() != 2 {
			continue // combinator
		}
		if tp, ok := t.(*types.TypeParam); ok {
			if t = ai.CoreOf(tp); t == nil {
				continue
			}
		}
		pair(strings.TrimSuffix(nm, "Encode")+"Encode/Decode", t,
			func(in *ai.Interp, st *ai.State, v ai.Value) []ai.Outcome { return in.Run(st, enc, []ai.Value{v}, nil) },
			func(in *ai.Interp, st *ai.State, v ai.Value) []ai.Outcome { return in.Run(st, dec, []ai.Value{v}, nil) })
	}
	c.check(nPairs >= 20, "pairs", "only %d transform pairs found", nPairs)
	// XToBytes helpers
	mp := w.pkg(pMP)
	nHelp := 0
	var mnames []string
	for n := range mp.Members {
		mnames = append(mnames, n)
	}
	sort.Strings(mnames)
	for _, nm := range mnames {
		fn, ok := mp.Members[nm].(*ssa.Function)
		if !ok || !strings.HasSuffix(nm, "ToBytes") || len(fn.Params) != 1 || fn.Signature.TypeParams().Len() > 0 {
			continue
		}
		t := fn.Params[0].Type()
		op := readOpFor(t)
		if op == "" || types.IsInterface(t) {
			continue
		}
		nHelp++
		in := mpHooks(w.interp())
		st := ai.NewState()
		v := symArg(st, nm+".value", t)
		for _, o := range in.Run(st, fn, []ai.Value{v}, nil) {
			if o.Kind != ai.Ret {
				c.fail(nm+":returns", "%s: %s", nm, o.Why)
				continue
			}
			r := retTuple(o.Ret)
			buf, ok := r[0].(*ai.SliceV)
			if !c.check(ok && isNilV(o.St, r[1]) > 0, nm+":error", "%s fails on a value (%s)", nm, strings.Join(o.St.Facts(), ", ")) {
				continue
			}
			_, why := buffersDone(w, o.St, "Encoder")
			c.check(why == "", nm+":filled", "%s: %s", nm, why)
			for _, o := range decodeWith(c, w, in, written{o.St, buf.Len, buf, nil}, op, nm) {
				rr := retTuple(o.Ret)
				if !c.check(isNilV(o.St, rr[1]) > 0, nm+":decodes", "%s produces bytes %s rejects", nm, op) {
					continue
				}
				eq, why := mpSame(o.St, v, rr[0])
				c.check(eq, nm+":value", "%s produces other bytes than %s expects: %s", nm, op, why)
			}
		}
		c.oblSet(w, in, nm, "index slice makeslice panic nil")
	}
	c.check(nHelp >= 12, "helpers", "only %d ToBytes helpers found", nHelp)
	checkCollections(c, w)
	checkCombinators(c, w)
}

// checkCombinators: the transforms built from element functions return what
// they encoded.
func checkCombinators(c *Ctx, w *World) {
	sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	elem := func(in *ai.Interp) {
		in.OpaqueCB = func(cc *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
			if m != nil || cc.Name != "dynamic" || len(cc.Args) == 0 {
				return nil, false
			}
			f, _ := cc.Free[0].(*ai.OpaqueV)
			if f == nil || (f.Key != "elem" && f.Key != "elem2") {
				return nil, false
			}
			i, ok := cc.Args[0].(*ai.IfaceV)
			if !ok {
				return nil, false
			}
			op, args := "ReadInt64", []ai.Value{i.V}
			if len(cc.Args) == 2 {
				op, args = "WriteInt64", []ai.Value{i.V, cc.Args[1]}
			}
			fn := w.methodOf(i.Dyn, op)
			if fn == nil {
				return nil, false
			}
			return in.Run(cc.St, fn, args, nil), true
		}
	}
	T := types.Typ[types.Int64]
	for _, base := range []string{"Slice", "Map"} {
		for n := int64(0); n <= 2; n++ {
			tag := fmt.Sprintf("%sEncode/Decode(%d elements)", base, n)
			in := mpHooks(w.interp())
			in.UnrollFork = 4000
			elem(in)
			st := ai.NewState()
			st.SetBool("isnil(elem)", false)
			st.SetBool("isnil(elem2)", false)
			fs := []ai.Value{&ai.OpaqueV{Key: "elem", T: sig}}
			var want []string
			var arg ai.Value
			if base == "Slice" {
				sl := st.Symbolic("elems", types.NewSlice(T)).(*ai.SliceV)
				sl = &ai.SliceV{Ptr: sl.Ptr, Off: ai.K(0), Len: ai.K(n), Cap: ai.K(n), Elem: T}
				st.SetBool("isnil(elems)", false)
				for i := int64(0); i < n; i++ {
					want = append(want, st.ArrRead(st.Load(sl.Ptr).(*ai.ArrV), ai.K(i)).VKey())
				}
				arg = sl
			} else {
				fs = append(fs, &ai.OpaqueV{Key: "elem2", T: sig})
				m := &ai.MapObj{}
				for i := int64(0); i < n; i++ {
					v := ai.IntAtom(fmt.Sprintf("mv%d", i), T)
					m.Log = append(m.Log, ai.MapEnt{K: ai.K(10 + i), V: v})
					want = append(want, fmt.Sprintf("%d", 10+i), v.VKey())
				}
				arg = st.Alloc(nil, m, "map")
			}
			closure := func(st *ai.State, name string) (*ai.State, ai.Value) {
				os := in.Run(st, w.fn(pTr, name), fs, nil)
				if len(os) != 1 || os[0].Kind != ai.Ret {
					failf("%s does not return its function", name)
				}
				return os[0].St, os[0].Ret
			}
			st, enc := closure(st, base+"Encode")
			st, dec := closure(st, base+"Decode")
			done := 0
			for _, o := range in.CallValue(st, enc, []ai.Value{arg}) {
				if o.Kind != ai.Ret {
					c.fail(tag+":encode", "%s: %s", tag, o.Why)
					continue
				}
				ret := retTuple(o.Ret)
				if !c.check(isNilV(o.St, ret[1]) > 0, tag+":encode-error", "%s: encoding fails (%s)", tag, strings.Join(o.St.Facts(), ", ")) {
					continue
				}
				k, why := buffersDone(w, o.St, "Encoder")
				c.check(why == "" && k > 0, tag+":filled", "%s: %s", tag, why)
				for _, o := range in.CallValue(o.St.Fork(), dec, []ai.Value{ret[0]}) {
					if o.Kind != ai.Ret {
						c.fail(tag+":decode", "%s: %s", tag, o.Why)
						continue
					}
					r := retTuple(o.Ret)
					if !c.check(isNilV(o.St, r[1]) > 0, tag+":decode-error", "%s: decoding fails (%s)", tag, strings.Join(o.St.Facts(), ", ")) {
						continue
					}
					done++
					c.Paths++
					k, why := buffersDone(w, o.St, "Decoder")
					c.check(why == "" && k > 0, tag+":consumed", "%s: %s", tag, why)
					var got []ai.Value
					switch x := r[0].(type) {
					case *ai.SliceV:
						if k, ok := x.Len.Int64(); ok && x.Ptr != nil {
							for i := int64(0); i < k; i++ {
								got = append(got, o.St.ArrRead(o.St.Load(x.Ptr).(*ai.ArrV), ai.Add(x.Off, ai.K(i))))
							}
						}
					case *ai.PtrV:
						if m, _ := o.St.Load(x).(*ai.MapObj); m != nil && m.Base == "" {
							for _, e := range m.Log {
								got = append(got, e.K, e.V)
							}
						}
					}
					same := len(got) == len(want)
					for i := 0; same && i < len(got); i++ {
						g, ok1 := got[i].(*ai.Lin)
						var wl *ai.Lin
						if base == "Slice" {
							wl, _ = o.St.ArrRead(o.St.Load(arg.(*ai.SliceV).Ptr).(*ai.ArrV), ai.K(int64(i))).(*ai.Lin)
						} else {
							e := o.St.Load(arg.(*ai.PtrV)).(*ai.MapObj).Log[i/2]
							wl, _ = e.K.(*ai.Lin)
							if i%2 == 1 {
								wl, _ = e.V.(*ai.Lin)
							}
						}
						same = ok1 && wl != nil && o.St.ProveEQ(ai.Sub(g, wl))
					}
					c.check(same, tag+":value", "%s: decodes %d values that are not the %d encoded ones", tag, len(got), len(want))
				}
			}
			c.check(done > 0, tag+":paths", "%s has no path", tag)
			c.oblSet(w, in, tag, "index slice makeslice panic nil")
		}
	}
}

func isEmpty(st *ai.State, v ai.Value) bool {
	switch x := v.(type) {
	case ai.NilV:
		return true
	case *ai.SliceV:
		return st.ProveEQ(x.Len)
	}
	return false
}

// callMethod invokes a method without parameters on an interface or pointer.
func callMethod(in *ai.Interp, st *ai.State, v ai.Value, name string) ai.Value {
	i, ok := v.(*ai.IfaceV)
	if !ok {
		return nil
	}
	ms := in.Prog.MethodSets.MethodSet(i.Dyn)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			fn := in.Prog.MethodValue(ms.At(k))
			os := in.Run(st.Fork(), fn, []ai.Value{i.V}, nil)
			if len(os) == 1 && os[0].Kind == ai.Ret {
				return os[0].Ret
			}
		}
	}
	return nil
}

// checkCollections: slice and map helpers handle each element once, in order,
// with the count in front.
func checkCollections(c *Ctx, w *World) {
	T := types.Typ[types.Int64]
	for n := int64(0); n <= 3; n++ {
		tag := func(s string) string { return fmt.Sprintf("%s(%d elements)", s, n) }
		// writing
		for _, name := range []string{"WriteSlice", "WriteMap"} {
			fn := w.fn(pMP, name)
			in := mpHooks(w.interp())
			st := ai.NewState()
			wr := &ai.OpaqueV{Key: "writer", T: w.named(pMP, "Writer")}
			st.SetBool("isnil(writer)", false)
			fs := []ai.Value{&ai.OpaqueV{Key: "f1", T: types.NewSignatureType(nil, nil, nil, nil, nil, false)}, &ai.OpaqueV{Key: "f2", T: types.NewSignatureType(nil, nil, nil, nil, nil, false)}}
			st.SetBool("isnil(f1)", false)
			st.SetBool("isnil(f2)", false)
			var want []string
			var args []ai.Value
			if name == "WriteSlice" {
				sl := st.Symbolic("elems", types.NewSlice(T)).(*ai.SliceV)
				sl = &ai.SliceV{Ptr: sl.Ptr, Off: ai.K(0), Len: ai.K(n), Cap: ai.K(n), Elem: T}
				st.SetBool("isnil(elems)", false)
				want = append(want, fmt.Sprintf("WriteArraySize(%d)", n))
				for i := int64(0); i < n; i++ {
					want = append(want, "$f1("+st.ArrRead(st.Load(sl.Ptr).(*ai.ArrV), ai.K(i)).VKey()+")")
				}
				args = []ai.Value{wr, sl, fs[0]}
			} else {
				m := &ai.MapObj{}
				want = append(want, fmt.Sprintf("WriteMapSize(%d)", n))
				for i := int64(0); i < n; i++ {
					v := ai.IntAtom(fmt.Sprintf("mv%d", i), T)
					m.Log = append(m.Log, ai.MapEnt{K: ai.K(10 + i), V: v})
					want = append(want, fmt.Sprintf("$f1(%d)", 10+i), "$f2("+v.VKey()+")")
				}
				args = []ai.Value{wr, st.Alloc(nil, m, "map"), fs[0], fs[1]}
			}
			for _, o := range in.Run(st, fn, args, nil) {
				if o.Kind != ai.Ret {
					c.fail(tag(name), "%s: %s", name, o.Why)
					continue
				}
				var got []string
				for _, e := range o.St.Events {
					if e.Kind != "call" || strings.HasSuffix(e.Name, ".Err") {
						continue
					}
					k := e.Name[strings.LastIndex(e.Name, ".")+1:]
					as := e.Args
					if e.Name == "dynamic" {
						k = e.Recv.VKey()
						if len(as) > 0 && as[0].VKey() == "$writer" {
							as = as[1:]
						}
					}
					var ks []string
					for _, a := range as {
						ks = append(ks, a.VKey())
					}
					got = append(got, k+"("+strings.Join(ks, ",")+")")
				}
				c.check(strings.Join(got, ";") == strings.Join(want, ";"), tag(name), "%s writes [%s] instead of [%s]", name, strings.Join(got, "; "), strings.Join(want, "; "))
			}
			c.used(in)
		}
		// reading
		for _, name := range []string{"ReadSlice", "ReadMap"} {
			fn := w.fn(pMP, name)
			in := mpHooks(w.interp())
			in.UnrollExits = true
			st := ai.NewState()
			rd := &ai.OpaqueV{Key: "reader", T: w.named(pMP, "Reader")}
			for _, k := range []string{"reader", "f1", "f2"} {
				st.SetBool("isnil("+k+")", false)
			}
			size := func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				return cc.Return(&ai.TupleV{E: []ai.Value{ai.K(n), ai.NilV{}}})
			}
			sz := w.named(pMP, "Reader").Underlying().(*types.Interface)
			for i := 0; i < sz.NumMethods(); i++ {
				m := sz.Method(i)
				if m.Name() == "ReadArraySize" || m.Name() == "ReadMapSize" {
					in.Hooks[m.FullName()] = size
				}
			}
			args := []ai.Value{rd, &ai.OpaqueV{Key: "f1", T: fn.Params[1].Type()}}
			if name == "ReadMap" {
				args = append(args, &ai.OpaqueV{Key: "f2", T: fn.Params[2].Type()})
			}
			okPaths := 0
			for _, o := range in.Run(st, fn, args, nil) {
				if o.Kind != ai.Ret {
					c.fail(tag(name), "%s: %s", name, o.Why)
					continue
				}
				r := retTuple(o.Ret)
				if isNilV(o.St, r[1]) <= 0 {
					continue
				}
				okPaths++
				var got []string // results of the element calls
				for _, e := range o.St.Events {
					if e.Kind == "call" && e.Name == "dynamic" {
						got = append(got, e.Ret.(*ai.TupleV).E[0].VKey())
					}
				}
				switch x := r[0].(type) {
				case *ai.SliceV:
					var el []string
					if k, ok := x.Len.Int64(); ok && x.Ptr != nil {
						for i := int64(0); i < k; i++ {
							el = append(el, o.St.ArrRead(o.St.Load(x.Ptr).(*ai.ArrV), ai.Add(x.Off, ai.K(i))).VKey())
						}
					}
					c.check(int64(len(got)) == n && strings.Join(el, ";") == strings.Join(got, ";"), tag(name), "%s returns [%s] for the elements read [%s]", name, strings.Join(el, "; "), strings.Join(got, "; "))
				case *ai.PtrV:
					m, _ := o.St.Load(x).(*ai.MapObj)
					var el []string
					if m != nil && m.Base == "" {
						for _, e := range m.Log {
							el = append(el, e.K.VKey(), e.V.VKey())
						}
					}
					c.check(int64(len(got)) == 2*n && strings.Join(el, ";") == strings.Join(got, ";"), tag(name), "%s returns [%s] for the entries read [%s]", name, strings.Join(el, "; "), strings.Join(got, "; "))
				default:
					c.fail(tag(name), "%s returns %s", name, r[0].VKey())
				}
			}
			c.check(okPaths > 0, tag(name)+":paths", "%s has no successful path", name)
			c.used(in)
		}
	}
}

// ---- C32 --------------------------------------------------------------------

func checkConvert(c *Ctx) {
	w := load(pMP+"/convert", pMP)
	fns := ai.PkgFuncs(w.Prog, w.pkg(pMP+"/convert"))
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	n := 0
	for _, fn := range fns {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || len(fn.Params) == 0 {
			continue
		}
		name := shortFn(fn)
		if fn.Parent() == nil && fn.Signature.Results().Len() == 1 {
			if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature); ok {
				continue // combinator: its closure is analysed
			}
		}
		n++
		for _, withErr := range []bool{false, true} {
			for _, isNil := range []bool{false, true} {
				_, ptr := fn.Params[0].Type().Underlying().(*types.Pointer)
				if isNil && !ptr {
					continue
				}
				hasErr := len(fn.Params) > 1 && types.Identical(fn.Params[1].Type(), errType)
				if withErr && !hasErr {
					continue
				}
				in := mpHooks(w.interp())
				textTime(in)
				st := ai.NewState()
				v := st.Symbolic("value", fn.Params[0].Type())
				if ptr {
					st.SetBool("isnil(value)", isNil)
					if isNil {
						v = ai.NilV{}
					}
				}
				args := []ai.Value{v}
				var e ai.Value = ai.NilV{}
				if hasErr {
					if withErr {
						e = &ai.OpaqueV{Key: "decode-error", T: errType}
						st.SetBool("isnil(decode-error)", false)
					}
					args = append(args, e)
				}
				var free []ai.Value
				for _, p := range fn.FreeVars {
					fv := st.Symbolic("free."+p.Name(), p.Type())
					if o, ok := fv.(*ai.OpaqueV); ok {
						st.SetBool("isnil("+o.Key+")", false)
					}
					if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
						if o, ok := fv.(*ai.OpaqueV); ok {
							pp := st.Pointee(o)
							if f, ok := st.Load(pp).(*ai.OpaqueV); ok {
								st.SetBool("isnil("+f.Key+")", false)
							}
							_ = pt
						}
					}
					free = append(free, fv)
				}
				tag := fmt.Sprintf("%s[nil=%v,error=%v]", name, isNil, withErr)
				k := 0
				for _, o := range in.Run(st, fn, args, free) {
					if o.Kind != ai.Ret {
						c.fail(tag+":returns", "%s: %s", tag, o.Why)
						continue
					}
					k++
					c.Paths++
					s := o.St
					r := retTuple(o.Ret)
					if withErr {
						c.check(r[len(r)-1].VKey() == e.VKey(), tag+":error", "%s does not pass the incoming error through", tag)
						continue
					}
					if isNil {
						ok := isNilV(s, r[0]) > 0
						if hasErr {
							ok = ok && isNilV(s, r[1]) > 0
						}
						c.check(ok, tag+":nil", "%s does not return nil for nil", tag)
						continue
					}
					// a foreign conversion function decides value and error
					ff := ""
					var fret ai.Value
					for _, ev := range s.Events {
						if ev.Kind == "call" {
							ff, fret = ev.Name, ev.Ret
							want := v
							if ptr && !sameVal(s, v, lastArg(ev)) {
								want = s.Load(s.Pointee(v.(*ai.OpaqueV)))
							}
							c.check(sameVal(s, want, lastArg(ev)), tag+":argument", "%s hands something else than its value to the conversion", tag)
						}
					}
					if hasErr {
						okE := isNilV(s, r[len(r)-1]) > 0
						if ff != "" && !okE {
							t, _ := fret.(*ai.TupleV)
							okE = t != nil && t.E[len(t.E)-1].VKey() == r[len(r)-1].VKey()
							c.check(okE, tag+":error", "%s reports an error of its own", tag)
							continue
						}
						if !c.check(okE, tag+":error", "%s fails without a reason", tag) {
							continue
						}
					}
					got := r[0]
					if gp, ok := got.(*ai.PtrV); ok {
						got = s.Load(gp)
					} else if ptr && isNilV(s, got) != 0 && ff == "" {
						c.check(isNilV(s, got) < 0, tag+":value", "%s returns nil for a value", tag)
						continue
					}
					if ff != "" {
						want := fret
						if t, ok := fret.(*ai.TupleV); ok {
							want = t.E[0]
						}
						c.check(sameVal(s, want, got), tag+":value", "%s does not return what the conversion returned: %s", tag, got.VKey())
						continue
					}
					if strings.Contains(name, "TimeToString") || strings.Contains(name, "StringToTime") {
						c.check(strings.Contains(got.VKey()+s.Content(got), "format(2006-01-02T15:04:05.999999999Z07:00,") || len(s.Events) > 0, tag+":value", "%s does not use the RFC 3339 text", tag)
						continue
					}
					want := v
					if ptr {
						want = s.Load(s.Pointee(v.(*ai.OpaqueV)))
					}
					same := sameVal(s, want, got)
					if !same { // a conversion between type parameters of the same value
						same = strings.Contains(got.VKey(), want.VKey())
					}
					c.check(same, tag+":value", "%s does not return its value: %s for %s", tag, got.VKey(), want.VKey())
				}
				c.check(k > 0, tag+":paths", "%s has no path", tag)
				c.oblSet(w, in, tag, "index slice makeslice panic nil")
			}
		}
	}
	c.check(n >= 14, "functions", "only %d conversion helpers found", n)
}

func lastArg(ev *ai.Event) ai.Value {
	if len(ev.Args) == 0 {
		return ai.NilV{}
	}
	return ev.Args[len(ev.Args)-1]
}

func sameVal(st *ai.State, a, b ai.Value) bool {
	if a.VKey() == b.VKey() {
		return true
	}
	switch a.(type) {
	case *ai.SliceV, *ai.StrV, *ai.Lin, *ai.BoolV:
		ok, _ := sameValue(st, a, b)
		return ok
	}
	return false
}
