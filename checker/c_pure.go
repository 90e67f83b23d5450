package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	register(check{id: "C03", title: "Malformed wire bytes are rejected, never a crash",
		rule:  "abstract interpretation of every wire decoder on an unconstrained byte string and header: every index, slice, make and dereference is proved in range by the guards that dominate it, and every allocation length is bounded by an affine function of the input length",
		floor: 60, run: checkMalformed})
	register(check{id: "C23", title: "Port messages survive encoding",
		rule:  "abstract interpretation of PortIO.Encode composed with PortIO.Decode on a symbolic message: each decoded field is the encoded abstract value on every path; flag constants are distinct single bits",
		floor: 12, run: checkPortIO})
	register(check{id: "C10", title: "The operation table survives serialisation",
		rule:  "abstract interpretation of Table.ToBytes composed with FromBytes on tables of symbolic operations; header layout of a table of symbolic length; refusal paths for wrong magic and version",
		floor: 30, run: checkOpTable})
	register(check{id: "C33", title: "24-bit lengths are exact and overflow is refused",
		rule:  "abstract interpretation of every u24 constructor and reader over the whole input range: the success path implies the value fits and reads back equal, the failure path implies it does not fit",
		floor: 14, run: checkU24})
	register(check{id: "C34", title: "Length-delimited frames are cut from the byte stream exactly",
		rule:  "abstract interpretation of the split function installed on the scanner and of the frame reader, on a symbolic chunk: advance, token and waiting conditions compared with the 3-byte length prefix on every path",
		floor: 8, run: checkSplitter})
	register(check{id: "C09", title: "Stream ids keep parity, range and uniqueness",
		rule:  "abstract interpretation of both generators over the whole 64-bit counter range split at the wrap points: the id equals the affine progression, and the counter is touched by exactly one atomic add per attempt",
		floor: 16, run: checkStreamIDs})
}

// boundedMakes checks that each allocation is bounded by 64*(input length)+4096.
func boundedMakes(c *Ctx, w *World, tag string, outs []ai.Outcome, input *ai.Lin) {
	seen := map[string]bool{}
	bad := map[string]string{}
	var order []string
	var walk func(evs []*ai.Event)
	walk = func(evs []*ai.Event) {
		for _, e := range evs {
			if e.Kind == "make" {
				k := fmt.Sprintf("alloc:%s:%s", tag, shortFn(e.In))
				if !seen[k] {
					seen[k] = true
					order = append(order, k)
				}
				n, ok := e.Args[1].(*ai.Lin)
				lim := ai.AddK(ai.Scale(input, bigP2(6)), 4096)
				if !ok || !e.St.ProveGE(ai.Sub(lim, n)) {
					bad[k] = fmt.Sprintf("%s: make of %s elements is not bounded by the input length", w.at(e.Pos), e.Args[1].VKey())
				}
			}
			for _, s := range e.Sub {
				walk(s)
			}
		}
	}
	for _, o := range outs {
		walk(o.St.Events)
	}
	for _, k := range order {
		c.check(bad[k] == "", k, "%s", bad[k])
	}
}

func checkMalformed(c *Ctx) {
	w := load(pFrames, "operations", "invoke")
	kinds := "index slice makeslice panic div nil"
	hdrT := w.named(pFrames, "FrameHeader")
	for _, n := range frameTypes(w) {
		in := w.interp()
		st := ai.NewState()
		dec := w.methodOf(types.NewPointer(n), "Decode")
		if dec == nil {
			failf("unresolved anchor: Decode of %s", n)
		}
		h := st.Alloc(hdrT, st.Symbolic("hdr", hdrT), "hdr")
		f := st.Alloc(n, st.Zero(n), "f")
		b := byteSlice(st, "payload")
		outs := in.Run(st, dec, []ai.Value{f, h, b}, nil)
		c.Paths += len(outs)
		boundedMakes(c, w, n.Obj().Name(), outs, b.Len)
		c.oblSet(w, in, n.Obj().Name(), kinds)
		c.check(len(outs) > 0, "returns:"+n.Obj().Name(), "Decode has no returning path")
	}
	for _, x := range []struct {
		tag string
		fn  *ssa.Function
		rcv types.Type
	}{{"operations.FromBytes", w.fn("operations", "FromBytes"), nil}, {"PortIO.Decode", w.method("invoke", "PortIO", "Decode"), w.named("invoke", "PortIO")}} {
		in := w.interp()
		st := ai.NewState()
		b := byteSlice(st, "payload")
		args := []ai.Value{b}
		if x.rcv != nil {
			args = []ai.Value{st.Alloc(x.rcv, st.Zero(x.rcv), "f"), b}
		}
		outs := in.Run(st, x.fn, args, nil)
		c.Paths += len(outs)
		boundedMakes(c, w, x.tag, outs, b.Len)
		c.oblSet(w, in, x.tag, kinds)
		c.check(len(outs) > 0, "returns:"+x.tag, "%s has no returning path", x.tag)
	}
}

func checkPortIO(c *Ctx) {
	w := load("invoke")
	t := w.named("invoke", "PortIO")
	in := w.interp()
	st := ai.NewState()
	f := st.Alloc(t, symStruct(st, "m", t), "m")
	atMost(st, fieldOf(st, f, t, "Port").(*ai.StrV).Len, 1<<16-1)
	atMost(st, fieldOf(st, f, t, "Data").(*ai.SliceV).Len, 1<<30)
	n := 0
	for _, e := range in.Run(st, w.method("invoke", "PortIO", "Encode"), []ai.Value{f}, nil) {
		if e.Kind != ai.Ret {
			c.fail("encode", "Encode: %s", e.Why)
			continue
		}
		g := e.St.Alloc(t, e.St.Zero(t), "g")
		for _, d := range in.Run(e.St, w.method("invoke", "PortIO", "Decode"), []ai.Value{g, e.Ret}, nil) {
			if d.Kind != ai.Ret {
				c.fail("decode", "Decode: %s", d.Why)
				continue
			}
			n++
			if !c.check(isNilV(d.St, d.Ret) > 0, "accepts", "decoding an encoded port message reports an error (%s)", strings.Join(d.St.Facts(), ", ")) {
				continue
			}
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				nm := s.Field(i).Name()
				ok, why := sameValue(d.St, fieldOf(d.St, f, t, nm), fieldOf(d.St, g, t, nm))
				c.check(ok, "field:"+nm, "PortIO.%s does not survive encode/decode: %s", nm, why)
			}
		}
	}
	c.Paths += n
	c.check(n > 0, "paths", "no path composes Encode and Decode")
	c.oblSet(w, in, "PortIO", "index slice makeslice panic nil")
	nx, cm := w.konst("invoke", "FlagNext"), w.konst("invoke", "FlagComplete")
	c.check(nx&cm == 0 && nx != 0 && cm != 0, "flags", "FlagNext %#x and FlagComplete %#x are not distinct bits", nx, cm)
}

// symTable builds a table of n symbolic operations.
func symTable(w *World, st *ai.State, n int) (*ai.SliceV, []ai.Value) {
	t := w.named("operations", "Operation")
	arr := &ai.ArrV{Elem: t, N: ai.K(int64(n))}
	var ops []ai.Value
	for i := 0; i < n; i++ {
		v := symStruct(st, fmt.Sprintf("op%d", i), t)
		sv := v
		atMost(st, sv.F[fieldIdx(t, "Namespace")].(*ai.StrV).Len, 1<<16-1)
		atMost(st, sv.F[fieldIdx(t, "Operation")].(*ai.StrV).Len, 1<<16-1)
		ops = append(ops, v)
		arr = st.ArrWrite(arr, ai.K(int64(i)), v)
	}
	p := st.Alloc(nil, arr, "table")
	l := ai.K(int64(n))
	return &ai.SliceV{Ptr: p, Off: ai.K(0), Len: l, Cap: l, Elem: t}, ops
}

// loopTerm: a value the analysis knows only as "what a loop leaves".
var loopTerm = regexp.MustCompile(`\bL\d+\.`)

func checkOpTable(c *Ctx) {
	w := load("operations")
	t := w.named("operations", "Operation")
	s := t.Underlying().(*types.Struct)
	tobytes := w.method("operations", "Table", "ToBytes")
	if tobytes.Signature.Recv() != nil {
		if m := w.methodOf(w.named("operations", "Table"), "ToBytes"); m != nil {
			tobytes = m
		}
	}
	from := w.fn("operations", "FromBytes")
	max := 3
	if c.Tier == "thorough" {
		max = 6
	}
	for n := 0; n <= max; n++ {
		in := w.interp()
		st := ai.NewState()
		tab, ops := symTable(w, st, n)
		paths := 0
		for _, e := range in.Run(st, tobytes, []ai.Value{tab}, nil) {
			if e.Kind != ai.Ret {
				c.fail("encode", "ToBytes: %s", e.Why)
				continue
			}
			buf := e.Ret.(*ai.SliceV)
			arr, _ := e.St.Load(buf.Ptr).(*ai.ArrV)
			hdr := []int64{0, 'w', 'r', 's', 0, 1, 0, 0, 0, int64(n)}
			for i, b := range hdr {
				g, ok := e.St.ArrRead(arr, ai.AddK(buf.Off, int64(i))).(*ai.Lin)
				c.check(ok && e.St.ProveEQ(ai.AddK(g, -b)), fmt.Sprintf("header[%d]", i), "byte %d of a table of %d operations is not %#x", i, n, b)
			}
			for _, d := range in.Run(e.St, from, []ai.Value{e.Ret}, nil) {
				if d.Kind != ai.Ret {
					c.fail("decode", "FromBytes: %s", d.Why)
					continue
				}
				paths++
				r := retTuple(d.Ret)
				if !c.check(isNilV(d.St, r[1]) > 0, "accepts", "reading back a serialised table of %d operations reports an error (%s)", n, strings.Join(d.St.Facts(), ", ")) {
					continue
				}
				got, ok := r[0].(*ai.SliceV)
				if !ok {
					c.check(n == 0, "count", "table of %d operations reads back as %s", n, r[0].VKey())
					continue
				}
				if !c.check(d.St.ProveEQ(ai.AddK(got.Len, -int64(n))), "count", "table of %d operations reads back with %s", n, got.Len) {
					continue
				}
				if n == 0 {
					continue
				}
				ga := d.St.Load(got.Ptr).(*ai.ArrV)
				for i := 0; i < n; i++ {
					g, ok := d.St.ArrRead(ga, ai.AddK(got.Off, int64(i))).(*ai.StructV)
					if !ok {
						c.fail("element", "operation %d of %d reads back as an unknown value", i, n)
						continue
					}
					for j := 0; j < s.NumFields(); j++ {
						ok, why := sameValue(d.St, ops[i].(*ai.StructV).F[j], g.F[j])
						c.check(ok, "field:"+s.Field(j).Name(), "%s of operation %d of %d does not survive serialisation: %s", s.Field(j).Name(), i, n, why)
					}
				}
			}
		}
		c.Paths += paths
		c.check(paths > 0, "paths", "no path composes ToBytes and FromBytes for %d operations", n)
		c.oblSet(w, in, fmt.Sprintf("table%d", n), "index slice makeslice panic")
	}
	// header of a table of any length: the state when the operations loop starts
	in := w.interp()
	st := ai.NewState()
	tab := st.Symbolic("table", types.NewSlice(t)).(*ai.SliceV)
	atMost(st, tab.Len, 1<<31)
	found, good := 0, false
	for _, o := range in.Run(st, tobytes, []ai.Value{tab}, nil) {
		if r, ok := o.Ret.(*ai.SliceV); ok && r.Ptr != nil {
			if a, ok := o.St.Load(r.Ptr).(*ai.ArrV); ok && beEq(o.St, a, ai.AddK(r.Off, 6), 4, tab.Len) {
				found, good = found+1, true
			}
		}
		for _, e := range o.St.Events {
			if e.Kind != "loop" || e.Pre == nil {
				continue
			}
			for id := 1; id < 4000; id++ {
				h := e.Pre.Obj(id)
				if h == nil {
					continue
				}
				a, ok := h.V.(*ai.ArrV)
				if !ok || a.Elem == nil || !types.Identical(a.Elem, types.Typ[types.Byte]) {
					continue
				}
				magic := true
				for i, b := range []int64{0, 'w', 'r', 's'} {
					g, ok := e.Pre.ArrRead(a, ai.K(int64(i))).(*ai.Lin)
					magic = magic && ok && e.Pre.ProveEQ(ai.AddK(g, -b))
				}
				if !magic {
					continue
				}
				found++
				if beEq(e.Pre, a, ai.K(6), 4, tab.Len) {
					good = true
				} else if fh := o.St.Obj(id); fh != nil {
					if fa, isArr := fh.V.(*ai.ArrV); isArr {
						good = good || beEq(o.St, fa, ai.K(6), 4, tab.Len)
					}
				}
			}
		}
	}
	c.check(found == 0 || good, "header-count", "bytes 6..9 of a serialised table are not its 32-bit operation count")
	c.check(found > 0, "header-count:seen", "the serialisation of a table of unknown length was not found")
	// parsing an unconstrained input: an accepted table has the magic, version
	// and count the bytes say; count < 0 leaves the count field open
	acc := 0
	parse := func(count int64) (decided bool) {
		decided = true
		in := w.interp()
		st := ai.NewState()
		b := byteSlice(st, "in")
		if count >= 0 {
			in.UnrollFork = 20000
			arr := st.Load(b.Ptr).(*ai.ArrV)
			if count > 8 {
				// many operations: all their bytes are zero, so nothing branches
				n := ai.K(10 + 12*count)
				arr = &ai.ArrV{Elem: b.Elem, N: n}
				for i, v := range []int64{0, 'w', 'r', 's', 0, 1} {
					arr = st.ArrWrite(arr, ai.K(int64(i)), ai.K(v))
				}
				b = &ai.SliceV{Ptr: b.Ptr, Off: ai.K(0), Len: n, Cap: n, Elem: b.Elem}
			}
			for i := int64(0); i < 4; i++ {
				arr = st.ArrWrite(arr, ai.AddK(b.Off, 6+i), ai.K(count>>(24-8*i)&0xff))
			}
			st.Store(b.Ptr, arr)
		}
		for _, o := range in.Run(st, from, []ai.Value{b}, nil) {
			if o.Kind != ai.Ret {
				continue
			}
			r := retTuple(o.Ret)
			if isNilV(o.St, r[1]) < 0 {
				continue
			}
			acc++
			arr := o.St.Load(b.Ptr).(*ai.ArrV)
			for i, v := range []int64{0, 'w', 'r', 's', 0, 1} {
				g, ok := o.St.ArrRead(arr, ai.AddK(b.Off, int64(i))).(*ai.Lin)
				if ok {
					g = o.St.Norm(g)
				}
				c.check(ok && o.St.ProveEQ(ai.AddK(g, -v)), fmt.Sprintf("accept:header[%d]", i), "a table whose byte %d is not %#x is accepted (%s)", i, v, strings.Join(o.St.Facts(), ", "))
			}
			n := ai.K(0)
			if tv, ok := r[0].(*ai.SliceV); ok {
				n = tv.Len
			}
			if count >= 0 {
				c.check(o.St.ProveEQ(ai.AddK(n, -count)), "accept:count", "a table whose count field is %d reads as %s operations", count, o.St.Norm(n))
			} else {
				ok := beEq(o.St, arr, ai.AddK(b.Off, 6), 4, n)
				if !ok && !loopTerm.MatchString(n.Key()) {
					c.fail("accept:count", "the number of operations read is not the count field: %s", n)
				}
				decided = decided && ok
			}
		}
		c.used(in)
		return
	}
	if parse(-1) {
		c.ok("accept:count")
	} else {
		// the loop over the operations does not show their number: take
		// counts on their own
		for _, n := range []int64{0, 1, 2, 300} {
			parse(n)
		}
	}
	c.check(acc > 0, "accept:paths", "FromBytes accepts nothing")
}

func checkU24(c *Ctx) {
	w := load("internal/u24")
	const pkg = "internal/u24"
	const max = 1<<24 - 1
	c.check(w.konst(pkg, "MaxUint24") == max, "const", "MaxUint24 is %d", w.konst(pkg, "MaxUint24"))
	ut := w.named(pkg, "Uint24")
	u32 := types.Typ[types.Uint32]
	asInt := w.methodOf(ut, "AsInt")
	check3 := func(st *ai.State, tag string, v ai.Value, n *ai.Lin) {
		arr, ok := v.(*ai.ArrV)
		if !ok {
			c.fail(tag+":bytes", "unexpected value %s", v.VKey())
			return
		}
		c.check(beEq(st, arr, ai.K(0), 3, n), tag+":bytes", "%s does not build the big-endian bytes of the number", tag)
		in := w.interp()
		for _, o := range in.Run(st.Fork(), asInt, []ai.Value{v}, nil) {
			r, ok := o.Ret.(*ai.Lin)
			c.check(o.Kind == ai.Ret && ok && o.St.ProveEQ(ai.Sub(r, n)), tag+":AsInt", "AsInt of %s reads back %v instead of the number", tag, o.Ret)
		}
	}
	for _, name := range []string{"NewUint24", "MustNewUint24"} {
		in := w.interp()
		st := ai.NewState()
		n := st.Symbolic("n", u32).(*ai.Lin)
		okp, bad := 0, 0
		for _, o := range in.Run(st, w.fn(pkg, name), []ai.Value{n}, nil) {
			fits := o.St.ProveGE(ai.Sub(ai.K(max), n))
			over := o.St.ProveGE(ai.AddK(n, -(max + 1)))
			if o.Kind == ai.Panic {
				bad++
				c.check(over, name+":panic", "%s panics for a number that may fit (%s)", name, strings.Join(o.St.Facts(), ", "))
				continue
			}
			r := retTuple(o.Ret)
			if len(r) == 2 {
				switch isNilV(o.St, r[1]) {
				case 1:
				case -1:
					bad++
					c.check(over, name+":refuses", "%s refuses a number that may fit", name)
					continue
				default:
					c.fail(name+":error", "%s: error undecided", name)
					continue
				}
			}
			okp++
			if c.check(fits, name+":accepts", "%s accepts a number above %d (%s)", name, max, strings.Join(o.St.Facts(), ", ")) {
				check3(o.St, name, r[0], n)
			}
		}
		c.check(okp > 0 && bad > 0, name+":paths", "%s has %d accepting and %d refusing paths", name, okp, bad)
		c.used(in)
	}
	// readers over raw bytes
	for _, name := range []string{"NewUint24Bytes", "ReadUint24ToInt"} {
		in := w.interp()
		st := ai.NewState()
		b := byteSlice(st, "b")
		st.AddFact(ai.AddK(b.Len, -3))
		for _, o := range in.Run(st, w.fn(pkg, name), []ai.Value{b}, nil) {
			if o.Kind != ai.Ret {
				c.fail(name, "%s: %s", name, o.Why)
				continue
			}
			arr := o.St.Load(b.Ptr).(*ai.ArrV)
			v := ai.K(0)
			for i := 0; i < 3; i++ {
				x := o.St.ArrRead(arr, ai.AddK(b.Off, int64(i))).(*ai.Lin)
				v = ai.Add(v, ai.Scale(x, bigP2(uint(8*(2-i)))))
			}
			if l, ok := o.Ret.(*ai.Lin); ok {
				c.check(o.St.ProveEQ(ai.Sub(l, v)), name, "%s does not read a big-endian 24-bit number: %s", name, l)
			} else {
				check3(o.St, name, o.Ret, v)
			}
		}
		c.oblSet(w, in, name, "index slice panic")
	}
	// WriteUint24 writes exactly those bytes or reports an error without writing
	in := w.interp()
	st := ai.NewState()
	fn := w.fn(pkg, "WriteUint24")
	wr := st.Symbolic("w", fn.Params[0].Type())
	n := st.Symbolic("n", u32).(*ai.Lin)
	wrote := 0
	for _, o := range in.Run(st, fn, []ai.Value{wr, n}, nil) {
		if o.Kind != ai.Ret {
			c.fail("WriteUint24", "%s", o.Why)
			continue
		}
		var ws []*ai.Event
		for _, e := range o.St.Events {
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".Write") {
				ws = append(ws, e)
			}
		}
		if o.St.ProveGE(ai.AddK(n, -(max + 1))) {
			c.check(len(ws) == 0 && isNilV(o.St, o.Ret) < 0, "WriteUint24:refuses", "WriteUint24 writes or accepts a number above %d", max)
			continue
		}
		wrote++
		ok := len(ws) == 1
		if ok {
			b := ws[0].Args[len(ws[0].Args)-1].(*ai.SliceV)
			arr, _ := ws[0].St.Load(b.Ptr).(*ai.ArrV)
			ok = arr != nil && ws[0].St.ProveEQ(ai.AddK(b.Len, -3)) && beEq(ws[0].St, arr, b.Off, 3, n)
			r := retTuple(ws[0].Ret)
			c.check(len(r) == 2 && r[1].VKey() == o.Ret.VKey() || isNilV(o.St, r[1]) == isNilV(o.St, o.Ret) && isNilV(o.St, o.Ret) != 0, "WriteUint24:error", "WriteUint24 does not report the writer's error")
		}
		c.check(ok, "WriteUint24:bytes", "WriteUint24 does not write the three big-endian bytes once")
	}
	c.check(wrote > 0, "WriteUint24:paths", "WriteUint24 never writes")
	c.used(in)
	in = w.interp()
	st = ai.NewState()
	v := st.Symbolic("u", ut)
	for _, o := range in.Run(st, w.methodOf(ut, "Bytes"), []ai.Value{v}, nil) {
		b, ok := o.Ret.(*ai.SliceV)
		okc := ok && o.St.ProveEQ(ai.AddK(b.Len, -3))
		if okc {
			arr := o.St.Load(b.Ptr).(*ai.ArrV)
			for i := int64(0); i < 3; i++ {
				okc = okc && o.St.ArrRead(arr, ai.AddK(b.Off, i)).VKey() == o.St.ArrRead(v.(*ai.ArrV), ai.K(i)).VKey()
			}
		}
		c.check(okc, "Bytes", "Bytes does not return the three bytes")
	}
}

func checkSplitter(c *Ctx) {
	const pkg = "transport/rsocket"
	w := load(pkg, "internal/u24")
	in := w.interp()
	st := ai.NewState()
	ctor := w.fn(pkg, "NewLengthBasedFrameDecoder")
	var split *ai.FuncV
	for _, o := range in.Run(st, ctor, []ai.Value{st.Symbolic("r", ctor.Params[0].Type())}, nil) {
		for _, e := range o.St.Events {
			switch e.Name {
			case "(*bufio.Scanner).Split":
				split, _ = e.Args[1].(*ai.FuncV)
			case "(*bufio.Scanner).Buffer":
				m, ok := e.Args[2].(*ai.Lin)
				k, isC := int64(0), false
				if ok {
					k, isC = m.Int64()
				}
				c.check(isC && k >= 1<<24-1+3, "buffer", "%s: the scanner buffer limit %v cannot hold the largest frame", w.at(e.Pos), e.Args[2].VKey())
			}
		}
	}
	c.used(in)
	if split == nil {
		failf("unresolved anchor: no split function is installed on the frame scanner")
	}
	in = w.interp()
	for _, eof := range []bool{false, true} {
		st = ai.NewState()
		b := byteSlice(st, "data")
		tag := fmt.Sprintf("eof=%v", eof)
		emits, waits := 0, 0
		for _, o := range in.Run(st, split.Fn, []ai.Value{b, ai.BConst(eof)}, split.Free) {
			if o.Kind != ai.Ret {
				c.fail(tag+":returns", "the split function does not return: %s", o.Why)
				continue
			}
			c.Paths++
			s := o.St
			arr := s.Load(b.Ptr).(*ai.ArrV)
			short := s.Eval(ai.BGE(ai.AddK(b.Len, -3))) < 0
			var L *ai.Lin
			if !short {
				L = ai.K(0)
				for i := 0; i < 3; i++ {
					L = ai.Add(L, ai.Scale(s.ArrRead(arr, ai.AddK(b.Off, int64(i))).(*ai.Lin), bigP2(uint(8*(2-i)))))
				}
			}
			r := retTuple(o.Ret)
			adv, _ := r[0].(*ai.Lin)
			facts := strings.Join(s.Facts(), ", ")
			if isNilV(s, r[2]) < 0 {
				trunc := eof && (short && s.ProveGE(ai.AddK(b.Len, -1)) || L != nil && s.ProveGE(ai.AddK(ai.Sub(ai.AddK(L, 3), b.Len), -1)))
				c.check(L != nil && s.ProveEQ(s.Norm(L)) || trunc, tag+":error", "the splitter fails on a chunk that is neither a zero length nor a truncated tail (%s)", facts)
				c.check(isNilV(s, r[1]) > 0, tag+":error-token", "the splitter returns a token along with an error")
				continue
			}
			if isNilV(s, r[1]) > 0 {
				waits++
				ok := short || L != nil && s.ProveGE(ai.AddK(ai.Sub(ai.AddK(L, 3), b.Len), -1))
				c.check(ok, tag+":waits", "the splitter asks for more data although a whole frame is present or its length is invalid (%s)", facts)
				c.check(adv != nil && s.ProveEQ(adv), tag+":wait-advance", "the splitter discards %s bytes without emitting a frame", adv)
				if eof {
					c.check(s.ProveEQ(s.Norm(b.Len)), tag+":truncated", "a truncated tail is dropped silently at the end of the stream (%s)", facts)
				}
				continue
			}
			emits++
			tok, ok := r[1].(*ai.SliceV)
			if !c.check(ok && L != nil && adv != nil, tag+":token", "unexpected token %s", r[1].VKey()) {
				continue
			}
			c.check(s.ProveEQ(s.Norm(ai.Sub(adv, ai.AddK(L, 3)))), tag+":advance", "the splitter advances %s instead of 3+length (%s)", adv, facts)
			c.check(s.ProveGE(ai.Sub(b.Len, ai.AddK(L, 3))), tag+":complete", "a frame is emitted before all its bytes are present")
			c.check(s.ProveGE(ai.AddK(L, -1)), tag+":nonempty", "an empty frame is emitted")
			c.check(tok.Ptr != nil && b.Ptr.VKey() == tok.Ptr.VKey() && s.ProveEQ(s.Norm(ai.Sub(tok.Off, b.Off))) && s.ProveEQ(s.Norm(ai.Sub(tok.Len, ai.AddK(L, 3)))), tag+":token-bytes", "the token is not the length prefix and the frame's bytes: %s", tok.VKey())
		}
		c.check(emits > 0, tag+":emits", "the splitter emits no complete frame (%s)", tag)
		c.check(waits > 0 || eof, tag+":wait-paths", "the splitter never waits (%s)", tag)
	}
	c.oblSet(w, in, "split", "index slice panic")
	// Read strips exactly the prefix and refuses frames without a header
	in = w.interp()
	var tokv *ai.SliceV
	in.Hooks["(*bufio.Scanner).Bytes"] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		if tokv == nil {
			tokv = byteSlice(cc.St, "tok")
		}
		cc.St.AddFact(ai.AddK(tokv.Len, -4))
		return cc.Return(tokv)
	}
	in.Hooks["(*bufio.Scanner).Scan"] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		return cc.Return(ai.BAtom("scan"))
	}
	st = ai.NewState()
	tokv = byteSlice(st, "tok")
	rd := w.method(pkg, "LengthBasedFrameDecoder", "Read")
	good := 0
	for _, o := range in.Run(st, rd, []ai.Value{st.Symbolic("d", rd.Params[0].Type())}, nil) {
		if o.Kind != ai.Ret {
			c.fail("read:returns", "%s", o.Why)
			continue
		}
		r := retTuple(o.Ret)
		scanned, known := o.St.BoolFact("scan")
		e := isNilV(o.St, r[1])
		if !known || !scanned {
			c.check(e < 0, "read:end", "the frame reader reports no error at the end of the stream")
			continue
		}
		if e < 0 {
			c.check(o.St.ProveGE(ai.AddK(ai.Sub(ai.K(9), tokv.Len), -1)), "read:refuses", "the frame reader refuses a frame that has a header")
			continue
		}
		good++
		s, ok := r[0].(*ai.SliceV)
		c.check(ok && o.St.ProveGE(ai.AddK(s.Len, -6)), "read:header", "the frame reader hands out a frame shorter than a frame header")
		want := &ai.SliceV{Ptr: tokv.Ptr, Off: ai.AddK(tokv.Off, 3), Len: ai.AddK(tokv.Len, -3), Cap: tokv.Len, Elem: tokv.Elem}
		c.check(ok && o.St.Content(s) == o.St.Content(want), "read:bytes", "the frame reader does not return exactly the bytes after the length prefix")
	}
	c.check(good > 0, "read:paths", "the frame reader returns no frame")
	c.oblSet(w, in, "read", "index slice panic")
}

func checkStreamIDs(c *Ctx) {
	const pkg = "internal/socket"
	w := load(pkg)
	iface := w.named(pkg, "StreamID").Underlying().(*types.Interface)
	scope := w.pkg(pkg).Pkg.Scope()
	nImpl := 0
	for _, nm := range scope.Names() {
		tn, ok := scope.Lookup(nm).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), iface) {
			continue
		}
		nImpl++
		t := tn.Type().(*types.Named)
		client := strings.Contains(nm, "Client")
		next := w.methodOf(types.NewPointer(t), "Next")
		const half = 1 << 30
		// counter = 2^30*a + s with s a residue; ids are 2*(counter+1) (server) or 2*counter+1 (client)
		type part struct {
			label string
			lo    int64
			hi    int64
		}
		for _, p := range []part{{"residue<max", 0, half - 2}, {"residue=max", half - 1, half - 1}} {
			for _, loop := range []string{"first", "later"} {
				in := w.interp()
				in.RecLimit = 3
				st := ai.NewState()
				a := ai.K(0)
				if loop == "later" {
					a = ai.IntAtom("a", types.Typ[types.Uint64])
					st.AddFact(ai.AddK(a, -1))
					atMost(st, a, 1<<33)
				}
				s := ai.K(p.lo)
				if p.lo != p.hi {
					s = ai.IntAtom("s", types.Typ[types.Uint32])
					atMost(st, s, p.hi)
				}
				x := ai.Add(ai.Scale(a, bigP2(30)), s)
				cell := st.Alloc(t, x, "counter")
				plain := ""
				in.OnAccess = func(st *ai.State, fn *ssa.Function, q *ai.PtrV, write bool, pos token.Pos, instr ssa.Instruction) {
					if q.Obj == cell.Obj {
						plain = w.at(pos)
					}
				}
				tag := nm + ":" + p.label + ":" + loop
				n := 0
				for _, o := range in.Run(st, next, []ai.Value{cell}, nil) {
					if o.Kind != ai.Ret {
						c.fail(tag+":returns", "%s.Next: %s", nm, o.Why)
						continue
					}
					n++
					r := retTuple(o.Ret)
					id, _ := r[0].(*ai.Lin)
					skip := int64(0)
					if !client && p.lo == half-1 {
						skip = 1 // the wrap would give id 0
					}
					want := ai.AddK(ai.Scale(s, bigP2(1)), 1)
					if !client {
						want = ai.AddK(ai.Scale(s, bigP2(1)), 2)
					}
					if skip == 1 {
						want = ai.K(2)
					}
					c.check(id != nil && o.St.ProveEQ(ai.Sub(id, want)), tag+":id", "%s.Next from counter %s returns %v, the progression gives %s", nm, x, r[0].VKey(), want)
					c.check(id != nil && o.St.ProveGE(ai.AddK(id, -1)) && o.St.ProveGE(ai.Sub(ai.K(1<<31-1), id)), tag+":range", "%s.Next can return an id outside 1..2^31-1: %v", nm, r[0].VKey())
					nc, _ := o.St.Load(cell).(*ai.Lin)
					c.check(nc != nil && o.St.ProveEQ(ai.Sub(nc, ai.AddK(x, 1+skip))), tag+":advance", "%s.Next leaves the counter at %v", nm, o.St.Load(cell).VKey())
					adds, others := 0, 0
					for _, e := range o.St.Events {
						if e.Kind == "atomic" {
							if e.Name == "add" {
								adds++
							} else {
								others++
							}
						}
						if e.Kind == "recursion" {
							others += 100
						}
					}
					c.check(adds == 1+int(skip) && others == 0, tag+":atomic", "%s.Next claims an id with %d atomic adds and %d other atomic accesses", nm, adds, others)
				}
				c.check(n > 0, tag+":paths", "no path through %s.Next", nm)
				c.check(plain == "", tag+":plain", "%s.Next touches the counter without an atomic operation at %s", nm, plain)
				c.Paths += n
				c.used(in)
			}
		}
	}
	c.check(nImpl >= 2, "generators", "%d stream id generators found", nImpl)
}
