package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	register(check{id: "C25", title: "UUIDs are well formed and parse back from their text",
		rule:  "abstract interpretation of the formatters, parsers and generators over all 128-bit values and all texts of each length class: nibbles pass through the formatting and parsing tables as finite functions that compose to the identity, every rejection is justified by an ill-formed position, and generated values carry the version and variant bits on every path",
		floor: 80, run: checkUUID})
}

const pUUID = "types/uuid"

var uuidPos = [16]int64{0, 2, 4, 6, 9, 11, 14, 16, 19, 21, 24, 26, 28, 30, 32, 34}

// hexVal is the value of every character as a hexadecimal digit, 255 if none.
func hexVal() []int64 {
	t := make([]int64, 256)
	for i := range t {
		switch {
		case i >= '0' && i <= '9':
			t[i] = int64(i - '0')
		case i >= 'a' && i <= 'f':
			t[i] = int64(i - 'a' + 10)
		case i >= 'A' && i <= 'F':
			t[i] = int64(i - 'A' + 10)
		default:
			t[i] = 255
		}
	}
	return t
}

func hexDigits() []int64 {
	var t []int64
	for _, c := range "0123456789abcdef" {
		t = append(t, int64(c))
	}
	return t
}

func uuidInterp(w *World) *ai.Interp {
	in := w.interp()
	in.UnrollExits = true
	in.UnrollFork = 150
	in.InlineF = func(fn *ssa.Function) (bool, bool) {
		switch ai.PkgPath(fn) {
		case "encoding/hex":
			return len(fn.Blocks) > 0, true
		}
		return false, false
	}
	lower := func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		key := "lower(" + c.St.Content(c.Args[0]) + ")"
		arr := &ai.ArrV{Elem: types.Typ[types.Byte], Base: key}
		n := ai.LenAtom("len(" + key + ")")
		if _, isStr := c.Args[0].(*ai.StrV); isStr {
			return c.Return(&ai.StrV{C: arr, Off: ai.K(0), Len: n})
		}
		p := c.St.Alloc(nil, arr, key)
		return c.Return(&ai.SliceV{Ptr: p, Off: ai.K(0), Len: n, Cap: n, Elem: types.Typ[types.Byte]})
	}
	in.Hooks["strings.ToLower"], in.Hooks["bytes.ToLower"] = lower, lower
	const prefix = "urn:uuid:"
	isLower := func(c *ai.CallCtx, v ai.Value) string {
		k := c.St.Content(v)
		if i := strings.Index(k, "lower("); i >= 0 {
			return k[i:]
		}
		return ""
	}
	isPrefix := func(c *ai.CallCtx, v ai.Value, fold bool) bool {
		var b []byte
		switch x := v.(type) {
		case *ai.StrV:
			s, ok := ai.ConstStr(x)
			if !ok {
				return false
			}
			b = []byte(s)
		case *ai.SliceV:
			a, ok := c.St.Load(x.Ptr).(*ai.ArrV)
			n, isC := x.Len.Int64()
			if !ok || !isC || n > 64 {
				return false
			}
			for i := int64(0); i < n; i++ {
				l, ok := c.St.ArrRead(a, ai.AddK(x.Off, i)).(*ai.Lin)
				if !ok {
					return false
				}
				k, ok := l.Int64()
				if !ok {
					return false
				}
				b = append(b, byte(k))
			}
		}
		s := string(b)
		if fold {
			s = strings.ToLower(s)
		}
		return s == prefix
	}
	eq := func(fold bool) ai.Hook {
		return func(c *ai.CallCtx) ([]ai.Outcome, bool) {
			for i := 0; i < 2; i++ {
				if isPrefix(c, c.Args[i], fold) {
					if fold {
						return c.Return(ai.BAtom("prefix:" + c.St.Content(c.Args[1-i])))
					}
					if l := isLower(c, c.Args[1-i]); l != "" {
						return c.Return(ai.BAtom("prefix:" + l))
					}
				}
			}
			return c.Std()
		}
	}
	in.Hooks["bytes.Equal"] = eq(false)
	in.Hooks["strings.EqualFold"], in.Hooks["bytes.EqualFold"] = eq(true), eq(true)
	in.Hooks["io.ReadFull"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		b, ok := c.Args[1].(*ai.SliceV)
		if !ok {
			return c.Opaque(), true
		}
		st := c.St
		arr, _ := st.Load(b.Ptr).(*ai.ArrV)
		c.Event(&ai.Event{Kind: "random", Recv: b})
		bad := st.Fork()
		e := &ai.OpaqueV{Key: "readerr", T: c.Fn.Signature.Results().At(1).Type()}
		bad.SetBool("isnil(readerr)", false)
		src := &ai.ArrV{Elem: types.Typ[types.Byte], Base: "random"}
		st.Store(b.Ptr, st.ArrBlock(arr, b.Off, b.Len, src, ai.K(0)))
		bad.Store(b.Ptr, bad.ArrBlock(arr, b.Off, b.Len, &ai.ArrV{Elem: types.Typ[types.Byte], Base: "partial"}, ai.K(0)))
		n := ai.IntAtom("nread", types.Typ[types.Int])
		return []ai.Outcome{{Kind: ai.Ret, St: st, Ret: &ai.TupleV{E: []ai.Value{b.Len, ai.NilV{}}}}, {Kind: ai.Ret, St: bad, Ret: &ai.TupleV{E: []ai.Value{n, e}}}}, true
	}
	return in
}

// symUUID builds a value whose nibbles are independent unknowns.
func symUUID(st *ai.State) (*ai.ArrV, [32]*ai.Lin) {
	arr := &ai.ArrV{Elem: types.Typ[types.Byte], N: ai.K(16)}
	var nib [32]*ai.Lin
	for i := 0; i < 32; i++ {
		nib[i] = ai.IntAtom(fmt.Sprintf("nibble%d", i), types.Typ[types.Uint8])
		a := nib[i].Ts[0].A
		nib[i] = ai.AtomLin(ai.U.Atom(a.Key+"/4", "in", ai.K(0).K, ai.K(15).K))
	}
	for i := int64(0); i < 16; i++ {
		arr = st.ArrWrite(arr, ai.K(i), ai.Add(ai.Scale(nib[2*i], bigP2(4)), nib[2*i+1]))
	}
	return arr, nib
}

// textOf reads the characters of a string or byte slice.
func textAt(st *ai.State, v ai.Value, i int64) *ai.Lin {
	switch x := v.(type) {
	case *ai.StrV:
		l, _ := st.ArrRead(x.C, ai.AddK(x.Off, i)).(*ai.Lin)
		return l
	case *ai.SliceV:
		if a, ok := st.Load(x.Ptr).(*ai.ArrV); ok {
			l, _ := st.ArrRead(a, ai.AddK(x.Off, i)).(*ai.Lin)
			return l
		}
	}
	return nil
}

func textLen(v ai.Value) *ai.Lin {
	switch x := v.(type) {
	case *ai.StrV:
		return x.Len
	case *ai.SliceV:
		return x.Len
	}
	return nil
}

func sameUUID(st *ai.State, v ai.Value, want func(i int64) *ai.Lin) (bool, string) {
	a, ok := v.(*ai.ArrV)
	if !ok {
		return false, "not a UUID value: " + v.VKey()
	}
	for i := int64(0); i < 16; i++ {
		g, ok := st.ArrRead(a, ai.K(i)).(*ai.Lin)
		x := want(i)
		if !ok || x == nil || !st.ProveEQ(ai.Sub(g, x)) {
			return false, fmt.Sprintf("byte %d is %s", i, st.ArrRead(a, ai.K(i)).VKey())
		}
	}
	return true, ""
}

func checkUUID(c *Ctx) {
	w := load(pUUID)
	t := w.named(pUUID, "UUID")
	dig, val := hexDigits(), hexVal()
	parse := w.fn(pUUID, "Parse")
	parseB := w.fn(pUUID, "ParseBytes")
	// formatting and parsing back
	type form struct {
		name   string
		fn     *ssa.Function
		off, n int64
		errs   bool
	}
	forms := []form{{"String", w.methodOf(t, "String"), 0, 36, false}, {"URN", w.methodOf(t, "URN"), 9, 45, false}, {"MarshalText", w.methodOf(t, "MarshalText"), 0, 36, true}}
	for _, f := range forms {
		if f.fn == nil {
			failf("unresolved anchor: UUID.%s", f.name)
		}
		in := uuidInterp(w)
		st := ai.NewState()
		u, nib := symUUID(st)
		n := 0
		for _, o := range in.Run(st, f.fn, []ai.Value{u}, nil) {
			if o.Kind != ai.Ret {
				c.fail(f.name+":returns", "UUID.%s: %s", f.name, o.Why)
				continue
			}
			n++
			r := retTuple(o.Ret)
			if f.errs {
				c.check(isNilV(o.St, r[1]) > 0, f.name+":error", "UUID.%s reports an error", f.name)
			}
			if l := textLen(r[0]); !c.check(l != nil && o.St.ProveEQ(ai.AddK(l, -f.n)), f.name+":length", "UUID.%s has length %v, not %d", f.name, l, f.n) {
				continue
			}
			for i := int64(0); i < f.off; i++ {
				g := textAt(o.St, r[0], i)
				c.check(g != nil && o.St.ProveEQ(ai.AddK(g, -int64("urn:uuid:"[i]))), f.name+":prefix", "character %d of UUID.%s is not that of \"urn:uuid:\"", i, f.name)
			}
			for _, d := range []int64{8, 13, 18, 23} {
				g := textAt(o.St, r[0], f.off+d)
				c.check(g != nil && o.St.ProveEQ(ai.AddK(g, -'-')), fmt.Sprintf("%s:dash[%d]", f.name, d), "character %d of UUID.%s is not a dash", d, f.name)
			}
			for i, p := range uuidPos {
				for h := int64(0); h < 2; h++ {
					g := textAt(o.St, r[0], f.off+p+h)
					x := o.St.TableAt(dig, nib[2*i+int(h)])
					c.check(g != nil && o.St.ProveEQ(ai.Sub(g, x)), fmt.Sprintf("%s:digit[%d]", f.name, p+h), "character %d of UUID.%s is not the lower-case hexadecimal digit of nibble %d: %v", f.off+p+h, f.name, 2*i+int(h), g)
				}
			}
			for _, pf := range []*ssa.Function{parse, parseB} {
				back := o.St.Fork()
				arg := r[0]
				_, str := arg.(*ai.StrV)
				if str != (pf == parse) {
					arg = recast(back, arg)
				}
				m := 0
				for _, d := range in.Run(back, pf, []ai.Value{arg}, nil) {
					if d.Kind != ai.Ret {
						c.fail(pf.Name()+":returns", "%s of UUID.%s: %s", pf.Name(), f.name, d.Why)
						continue
					}
					m++
					rr := retTuple(d.Ret)
					if f.off > 0 {
						if p, ok := prefixFact(d.St); ok && !p {
							continue // the text does start with the prefix
						}
					}
					if !c.check(isNilV(d.St, rr[1]) > 0, f.name+":"+pf.Name()+":accepts", "%s refuses the text UUID.%s produces", pf.Name(), f.name) {
						continue
					}
					ok, why := sameUUID(d.St, rr[0], func(i int64) *ai.Lin { v, _ := d.St.ArrRead(u, ai.K(i)).(*ai.Lin); return v })
					c.check(ok, f.name+":"+pf.Name()+":roundtrip", "%s of UUID.%s is not the same UUID: %s", pf.Name(), f.name, why)
				}
				c.Paths += m
				c.check(m > 0, f.name+":"+pf.Name()+":paths", "no path parses UUID.%s back", f.name)
			}
		}
		c.check(n > 0, f.name+":paths", "no path through UUID.%s", f.name)
		c.oblSet(w, in, f.name, "index slice panic nil makeslice")
	}
	// parsing arbitrary text
	unm := w.methodOf(types.NewPointer(t), "UnmarshalText")
	for _, pf := range []*ssa.Function{parse, parseB, unm} {
		if pf == nil {
			failf("unresolved anchor: UUID.UnmarshalText")
		}
		for _, n := range []int64{32, 36, 38, 45, -1} {
			in := uuidInterp(w)
			st := ai.NewState()
			arr := &ai.ArrV{Elem: types.Typ[types.Byte], Base: "text"}
			tag := fmt.Sprintf("%s:len%d", pf.Name(), n)
			var ln *ai.Lin
			if n >= 0 {
				ln = ai.K(n)
			} else {
				ln = ai.LenAtom("len(text)")
				tag = pf.Name() + ":otherlen"
				for _, k := range []int64{32, 36, 38, 45} {
					st.Assume(ai.BEQ(ai.AddK(ln, -k)), false)
				}
			}
			var s ai.Value = &ai.StrV{C: arr, Off: ai.K(0), Len: ln}
			args := []ai.Value{s}
			var dst *ai.PtrV
			if pf != parse {
				s = recast(st, s)
				args = []ai.Value{s}
			}
			var old *ai.ArrV
			if pf == unm {
				old, _ = symUUID(st)
				dst = st.Alloc(t, old, "dst")
				args = []ai.Value{dst, s}
			}
			off := int64(0)
			if n == 38 {
				off = 1
			}
			if n == 45 {
				off = 9
			}
			good, bad := 0, 0
			for _, o := range in.Run(st, pf, args, nil) {
				if o.Kind != ai.Ret {
					c.fail(tag+":returns", "%s: %s", pf.Name(), o.Why)
					continue
				}
				r := retTuple(o.Ret)
				q := o.St
				e := isNilV(q, r[len(r)-1])
				ch := func(i int64) *ai.Lin { return textAt(q, s, i) }
				if e > 0 {
					good++
					if !c.check(n >= 0, tag+":accepts", "%s accepts a text of another length", pf.Name()) {
						continue
					}
					if n == 45 {
						p, ok := prefixFact(q)
						c.check(ok && p, tag+":prefix", "%s accepts a 45-character text without the urn:uuid: prefix", pf.Name())
					}
					pos := uuidPos
					if n == 32 {
						for i := range pos {
							pos[i] = int64(2 * i)
						}
					} else {
						for _, d := range []int64{8, 13, 18, 23} {
							c.check(q.ProveEQ(ai.AddK(ch(off+d), -'-')), tag+":dash", "%s accepts a text without a dash at %d", pf.Name(), d)
						}
					}
					var got ai.Value
					if dst != nil {
						got = q.Load(dst)
					} else {
						got = r[0]
					}
					ok, why := sameUUID(q, got, func(i int64) *ai.Lin {
						a, b := q.TableAt(val, ch(off+pos[i])), q.TableAt(val, ch(off+pos[i]+1))
						if !q.ProveGE(ai.Sub(ai.K(15), a)) || !q.ProveGE(ai.Sub(ai.K(15), b)) {
							return nil
						}
						return ai.Add(ai.Scale(a, bigP2(4)), b)
					})
					c.check(ok, tag+":value", "%s accepts a text whose digits are not the returned UUID: %s", pf.Name(), why)
					continue
				}
				bad++
				if !c.check(e < 0, tag+":error", "%s: error undecided", pf.Name()) {
					continue
				}
				if dst != nil {
					ok, why := sameUUID(q, q.Load(dst), func(i int64) *ai.Lin { v, _ := q.ArrRead(old, ai.K(i)).(*ai.Lin); return v })
					c.check(ok, tag+":untouched", "%s changes the destination although it reports an error: %s", pf.Name(), why)
				}
				just := n < 0
				if n == 45 {
					if p, ok := prefixFact(q); ok && !p {
						just = true
					}
				}
				for i := int64(0); i < 36 && n >= 0 && !just; i++ {
					if n == 32 && i >= 32 {
						break
					}
					x := ch(off + i)
					if n != 32 && (i == 8 || i == 13 || i == 18 || i == 23) {
						just = q.Eval(ai.BEQ(ai.AddK(x, -'-'))) < 0
						continue
					}
					v := q.TableAt(val, x)
					just = v != nil && q.ProveGE(ai.AddK(v, -16))
				}
				c.check(just, tag+":rejects", "%s refuses a well-formed text (%s)", pf.Name(), strings.Join(q.Facts(), ", "))
			}
			c.Paths += good + bad
			c.check(n < 0 || good > 0, tag+":good", "%s accepts no text of length %d", pf.Name(), n)
			c.check(bad > 0, tag+":bad", "%s refuses nothing (%s)", pf.Name(), tag)
			c.oblSet(w, in, tag, "index slice panic nil makeslice")
		}
	}
	checkUUIDBinary(c, w, t)
	checkUUIDRandom(c, w, t)
}

// recast turns a string into a byte slice of the same content and back.
func recast(st *ai.State, v ai.Value) ai.Value {
	switch x := v.(type) {
	case *ai.StrV:
		a := &ai.ArrV{Elem: types.Typ[types.Byte], N: x.Len}
		if n, ok := x.Len.Int64(); ok {
			for i := int64(0); i < n; i++ {
				a = st.ArrWrite(a, ai.K(i), st.ArrRead(x.C, ai.AddK(x.Off, i)))
			}
		} else {
			a = st.ArrBlock(a, ai.K(0), x.Len, x.C, x.Off)
		}
		p := st.Alloc(nil, a, "bytes")
		return &ai.SliceV{Ptr: p, Off: ai.K(0), Len: x.Len, Cap: x.Len, Elem: types.Typ[types.Byte]}
	case *ai.SliceV:
		if a, ok := st.Load(x.Ptr).(*ai.ArrV); ok {
			return &ai.StrV{C: a, Off: x.Off, Len: x.Len}
		}
	}
	return v
}

// prefixFact: what the path knows about the urn prefix.
func prefixFact(st *ai.State) (bool, bool) {
	for k, v := range st.Bools() {
		if strings.HasPrefix(k, "prefix:") || strings.HasPrefix(k, "eq(") && strings.Contains(k, "lower(") && strings.Contains(k, "urn:uuid:") {
			return v, true
		}
	}
	return false, false
}

func checkUUIDBinary(c *Ctx, w *World, t *types.Named) {
	for _, x := range []struct {
		name string
		fn   *ssa.Function
	}{{"FromBytes", w.fn(pUUID, "FromBytes")}, {"UnmarshalBinary", w.methodOf(types.NewPointer(t), "UnmarshalBinary")}} {
		if x.fn == nil {
			failf("unresolved anchor: %s", x.name)
		}
		in := uuidInterp(w)
		st := ai.NewState()
		b := byteSlice(st, "in")
		args := []ai.Value{b}
		var dst *ai.PtrV
		if x.name != "FromBytes" {
			dst = st.Alloc(t, st.Symbolic("old", t), "dst")
			args = []ai.Value{dst, b}
		}
		good, bad := 0, 0
		for _, o := range in.Run(st, x.fn, args, nil) {
			if o.Kind != ai.Ret {
				c.fail(x.name+":returns", "%s: %s", x.name, o.Why)
				continue
			}
			r := retTuple(o.Ret)
			if isNilV(o.St, r[len(r)-1]) < 0 {
				bad++
				c.check(o.St.Eval(ai.BEQ(ai.AddK(b.Len, -16))) < 0, x.name+":rejects", "%s refuses 16 bytes", x.name)
				continue
			}
			good++
			c.check(o.St.ProveEQ(ai.AddK(b.Len, -16)), x.name+":accepts", "%s accepts an input that may not be 16 bytes long", x.name)
			got := r[0]
			if dst != nil {
				got = o.St.Load(dst)
			}
			ok, why := sameUUID(o.St, got, func(i int64) *ai.Lin { return textAt(o.St, b, i) })
			c.check(ok, x.name+":value", "%s does not copy the bytes: %s", x.name, why)
		}
		c.Paths += good + bad
		c.check(good > 0 && bad > 0, x.name+":paths", "%s has %d accepting and %d refusing paths", x.name, good, bad)
		c.oblSet(w, in, x.name, "index slice panic nil")
	}
	in := uuidInterp(w)
	st := ai.NewState()
	u, _ := symUUID(st)
	mb := w.methodOf(t, "MarshalBinary")
	n := 0
	for _, o := range in.Run(st, mb, []ai.Value{u}, nil) {
		r := retTuple(o.Ret)
		n++
		ok := o.Kind == ai.Ret && isNilV(o.St, r[1]) > 0
		if ok {
			l := textLen(r[0])
			ok = l != nil && o.St.ProveEQ(ai.AddK(l, -16))
			for i := int64(0); i < 16 && ok; i++ {
				g := textAt(o.St, r[0], i)
				v, _ := o.St.ArrRead(u, ai.K(i)).(*ai.Lin)
				ok = g != nil && o.St.ProveEQ(ai.Sub(g, v))
			}
		}
		c.check(ok, "MarshalBinary", "MarshalBinary does not return the 16 bytes")
	}
	c.check(n > 0, "MarshalBinary:paths", "no path")
}

func checkUUIDRandom(c *Ctx, w *World, t *types.Named) {
	ver, vr := w.methodOf(t, "Version"), w.methodOf(t, "Variant")
	if ver == nil || vr == nil {
		failf("unresolved anchor: UUID.Version, UUID.Variant")
	}
	rfc := w.konst(pUUID, "RFC4122")
	verify := func(tag string, in *ai.Interp, o ai.Outcome, v ai.Value, src string) {
		a, ok := v.(*ai.ArrV)
		if !c.check(ok, tag+":value", "%s returns %s", tag, v.VKey()) {
			return
		}
		for _, x := range []struct {
			fn   *ssa.Function
			want int64
		}{{ver, 4}, {vr, rfc}} {
			m := 0
			for _, q := range in.Run(o.St.Fork(), x.fn, []ai.Value{v}, nil) {
				m++
				l, ok := q.Ret.(*ai.Lin)
				c.check(q.Kind == ai.Ret && ok && q.St.ProveEQ(ai.AddK(l, -x.want)), tag+":"+x.fn.Name(), "the %s of a UUID from %s is %v, not %d", x.fn.Name(), tag, q.Ret, x.want)
			}
			c.check(m > 0, tag+":"+x.fn.Name()+":paths", "no path")
		}
		// the other bits are the random bytes, each used once
		base := int64(-1)
		for i := int64(0); i < 16; i++ {
			g, _ := o.St.ArrRead(a, ai.K(i)).(*ai.Lin)
			ok := false
			if g != nil {
				switch i {
				case 6, 8:
					// checked through the mask below
					ok = strings.Contains(g.Key(), "random[") || strings.Contains(g.Key(), "mix") || !g.IsConst()
					if i == 6 {
						k := ai.K(4 << 4)
						d := ai.Sub(g, k)
						ok = ok && o.St.ProveGE(d) && o.St.ProveGE(ai.Sub(ai.K(15), d))
					}
				default:
					s := g.Single()
					ok = s != nil && strings.Contains(s.Key, src)
				}
			}
			c.check(ok, tag+":random", "byte %d of a UUID from %s is %v, not random", i, tag, o.St.ArrRead(a, ai.K(i)).VKey())
		}
		_ = base
	}
	// what the accessors read
	msb := []int64{2, 2, 2, 2, 1, 1, 3, 4} // variant by the top three bits, in declaration order
	names := []string{"Invalid", "RFC4122", "Reserved", "Microsoft", "Future"}
	for top := int64(0); top < 8; top++ {
		in := uuidInterp(w)
		st := ai.NewState()
		u, _ := symUUID(st)
		lo := ai.AtomLin(ai.U.Atom("low5", "in", ai.K(0).K, ai.K(31).K))
		u = st.ArrWrite(u, ai.K(8), ai.AddK(lo, top*32))
		want := w.konst(pUUID, names[msb[top]])
		m := 0
		for _, q := range in.Run(st, vr, []ai.Value{u}, nil) {
			m++
			l, ok := q.Ret.(*ai.Lin)
			c.check(q.Kind == ai.Ret && ok && q.St.ProveEQ(ai.AddK(l, -want)), fmt.Sprintf("Variant:%d", top), "the variant of a UUID whose byte 8 starts with bits %03b is %v, not %s", top, q.Ret, names[msb[top]])
		}
		c.check(m > 0, "Variant:paths", "no path")
	}
	{
		in := uuidInterp(w)
		st := ai.NewState()
		u, nib := symUUID(st)
		for _, q := range in.Run(st, ver, []ai.Value{u}, nil) {
			l, ok := q.Ret.(*ai.Lin)
			c.check(q.Kind == ai.Ret && ok && q.St.ProveEQ(ai.Sub(l, nib[12])), "Version:nibble", "Version is %v, not the high nibble of byte 6", q.Ret)
		}
	}
	var gens []*ssa.Function
	for _, fn := range ai.PkgFuncs(w.Prog, w.pkg(pUUID)) {
		s := fn.Signature
		if s.Recv() != nil || fn.Parent() != nil || s.Results().Len() != 2 || !types.Identical(s.Results().At(0).Type(), t) {
			continue
		}
		if p := s.Params(); p.Len() == 0 || p.Len() == 1 && types.IsInterface(p.At(0).Type()) {
			gens = append(gens, fn)
		}
	}
	c.check(len(gens) >= 2, "generators", "%d generators of random UUIDs found", len(gens))
	// the pool is the byte array that is filled from the random source, its
	// cursor the integer that is moved
	filled, moved := map[*ssa.Global]bool{}, map[*ssa.Global]bool{}
	w.uses(pUUID, func(g *ssa.Global, i ssa.Instruction) {
		switch i := i.(type) {
		case *ssa.Slice:
			filled[g] = true
		case *ssa.Store:
			if i.Addr == g && i.Parent().Name() != "init" {
				moved[g] = true
			}
		}
	})
	elem := func(g *ssa.Global) types.Type { return g.Type().(*types.Pointer).Elem().Underlying() }
	pool := w.global(pUUID, "pool", func(g *ssa.Global) bool {
		_, ok := elem(g).(*types.Array)
		return ok && filled[g]
	})
	poolPos := w.global(pUUID, "poolPos", func(g *ssa.Global) bool {
		b, ok := elem(g).(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && moved[g]
	})
	for _, fn := range gens {
		in := uuidInterp(w)
		st := ai.NewState()
		var args []ai.Value
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			v := st.Symbolic("r", fn.Signature.Params().At(i).Type())
			args = append(args, v)
		}
		// the pool cursor is a multiple of 16 within the pool
		k := ai.AtomLin(ai.U.Atom("poolslot", "in", ai.K(0).K, ai.K(16).K))
		pos := ai.Scale(k, bigP2(4))
		unlocked := ""
		if poolPos != nil && pool != nil {
			pp := in.GlobalPtr(st, poolPos)
			st.Store(pp, pos)
			gp := in.GlobalPtr(st, pool)
			in.OnAccess = func(s *ai.State, f *ssa.Function, p *ai.PtrV, write bool, at token.Pos, _ ssa.Instruction) {
				if (p.Obj == pp.Obj || p.Obj == gp.Obj) && len(s.Locks) == 0 {
					unlocked = w.at(at)
				}
			}
		}
		good, bad := 0, 0
		for _, o := range in.Run(st, fn, args, nil) {
			if o.Kind != ai.Ret {
				c.fail(fn.Name()+":returns", "%s: %s", fn.Name(), o.Why)
				continue
			}
			r := retTuple(o.Ret)
			c.check(len(o.St.Locks) == 0, fn.Name()+":locks", "%s returns with a lock held", fn.Name())
			failed := o.St.Bools()["isnil(readerr)"]
			_, has := o.St.BoolFact("isnil(readerr)")
			_ = failed
			if isNilV(o.St, r[1]) < 0 {
				bad++
				c.check(has, fn.Name()+":error", "%s fails although the random source did not", fn.Name())
				continue
			}
			good++
			c.check(!has, fn.Name()+":ignores", "%s ignores the error of the random source", fn.Name())
			src := "random["
			if poolPos != nil {
				np, _ := in.GlobalValue(o.St, poolPos).(*ai.Lin)
				if np != nil && !ai.LinEq(np, pos) {
					// taken from the pool: the next 16 bytes, once
					a, _ := r[0].(*ai.ArrV)
					refill := false
					for _, e := range o.St.Events {
						if e.Kind == "random" {
							refill = true
						}
					}
					from := pos
					if refill {
						from = ai.K(0)
						c.check(o.St.ProveEQ(ai.AddK(k, -16)), fn.Name()+":refill", "%s refills the pool before it is used up", fn.Name())
					} else {
						src = "global:"
					}
					c.check(o.St.ProveEQ(ai.Sub(np, ai.AddK(from, 16))), fn.Name()+":advance", "%s leaves the pool cursor at %s", fn.Name(), np)
					c.check(o.St.ProveGE(ai.Sub(ai.K(256), np)), fn.Name()+":bound", "%s moves the pool cursor past the pool", fn.Name())
					pv, _ := in.GlobalValue(o.St, pool).(*ai.ArrV)
					for i := int64(0); a != nil && pv != nil && i < 16; i++ {
						if i == 6 || i == 8 {
							continue
						}
						c.check(o.St.ArrRead(a, ai.K(i)).VKey() == o.St.ArrRead(pv, ai.AddK(from, i)).VKey(), fn.Name()+":slot", "byte %d of a UUID from %s is not the pool byte at the cursor", i, fn.Name())
					}
				}
			}
			verify(fn.Name(), in, o, r[0], src)
		}
		c.Paths += good + bad
		c.check(good > 0 && bad > 0, fn.Name()+":paths", "%s has %d returning and %d failing paths", fn.Name(), good, bad)
		c.check(unlocked == "", fn.Name()+":pool-lock", "%s: %s touches the random pool without its lock", unlocked, fn.Name())
		c.oblSet(w, in, fn.Name(), "index slice panic nil unlock relock lock-balance")
	}
}
