package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/ai"
)

func init() {
	register(check{id: "C31", title: "Custom sections are read exactly and malformed modules are rejected",
		rule:  "abstract interpretation of the section reader on an unconstrained byte string of up to k sections against a positional grammar: an accepted module is well formed along the whole path and each requested section holds exactly its window of the input, a refused module has a malformed position",
		floor: 40, run: checkSections})
}

const pSections = "transport/wasmrs/customsections"

type brdr struct {
	s *ai.SliceV
	i *ai.Lin
}

// readerModel installs models of a byte reader, the LEB128 decoder and UTF-8
// validation. At most k reads of a single byte find data.
func readerModel(in *ai.Interp) {
	get := func(c *ai.CallCtx, v ai.Value) (*ai.PtrV, brdr, bool) {
		if iv, ok := v.(*ai.IfaceV); ok {
			v = iv.V
		}
		p, ok := v.(*ai.PtrV)
		if !ok {
			return nil, brdr{}, false
		}
		sv, ok := c.St.Load(p).(*ai.StructV)
		if !ok || len(sv.F) < 2 {
			return nil, brdr{}, false
		}
		s, ok1 := sv.F[0].(*ai.SliceV)
		i, ok2 := sv.F[1].(*ai.Lin)
		return p, brdr{s, i}, ok1 && ok2
	}
	set := func(st *ai.State, p *ai.PtrV, i *ai.Lin) {
		st.Store(&ai.PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], ai.Sel{Field: 1})}, i)
	}
	errv := func(st *ai.State, name string, t types.Type) ai.Value {
		st.SetBool("isnil("+name+")", false)
		return &ai.OpaqueV{Key: name, T: t}
	}
	eofv := func(c *ai.CallCtx, st *ai.State) ai.Value {
		for _, p := range c.In.Prog.AllPackages() {
			if p.Pkg.Path() == "io" {
				return c.In.GlobalValue(st, p.Var("EOF"))
			}
		}
		return errv(st, "EOF", nil)
	}
	ret := func(st *ai.State, vs ...ai.Value) ai.Outcome {
		if len(vs) == 1 {
			return ai.Outcome{Kind: ai.Ret, St: st, Ret: vs[0]}
		}
		return ai.Outcome{Kind: ai.Ret, St: st, Ret: &ai.TupleV{E: vs}}
	}
	in.Hooks["bytes.NewReader"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		t := c.Fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		v := c.St.Zero(t).(*ai.StructV)
		v.F[0] = c.Args[0]
		return c.Return(c.St.Alloc(t, v, "reader"))
	}
	in.Hooks["(*bytes.Reader).Len"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		_, r, ok := get(c, c.Args[0])
		if !ok {
			return nil, false
		}
		return c.Return(ai.Sub(r.s.Len, r.i)) // never read past the end
	}
	in.Hooks["(*bytes.Reader).Size"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		_, r, ok := get(c, c.Args[0])
		if !ok {
			return nil, false
		}
		return c.Return(r.s.Len)
	}
	in.Hooks["(*bytes.Reader).ReadByte"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		p, r, ok := get(c, c.Args[0])
		if !ok {
			return nil, false
		}
		st := c.St
		end := st.Fork()
		var res []ai.Outcome
		if st.AddFact(ai.AddK(ai.Sub(r.s.Len, r.i), -1)) {
			a := st.Load(r.s.Ptr).(*ai.ArrV)
			b := st.ArrRead(a, ai.Add(r.s.Off, r.i))
			set(st, p, ai.AddK(r.i, 1))
			res = append(res, ret(st, b, ai.NilV{}))
		}
		if end.AddFact(ai.Sub(r.i, r.s.Len)) {
			res = append(res, ret(end, ai.K(0), eofv(c, end)))
		}
		return res, true
	}
	read := func(c *ai.CallCtx, rd ai.Value, bv ai.Value, full bool) ([]ai.Outcome, bool) {
		p, r, ok := get(c, rd)
		b, ok2 := bv.(*ai.SliceV)
		if !ok || !ok2 {
			return nil, false
		}
		st := c.St
		src := st.Load(r.s.Ptr).(*ai.ArrV)
		fill := func(q *ai.State, n *ai.Lin) {
			if b.Ptr == nil {
				return
			}
			if a, ok := q.Load(b.Ptr).(*ai.ArrV); ok {
				q.Store(b.Ptr, q.ArrBlock(a, b.Off, n, src, ai.Add(r.s.Off, r.i)))
			}
			set(q, p, ai.Add(r.i, n))
		}
		left := ai.Sub(r.s.Len, r.i)
		et := c.Fn.Signature.Results().At(1).Type()
		var res []ai.Outcome
		if full {
			short := st.Fork()
			if st.AddFact(ai.Sub(left, b.Len)) {
				fill(st, b.Len)
				res = append(res, ret(st, b.Len, ai.NilV{}))
			}
			if short.AddFact(ai.AddK(ai.Sub(b.Len, left), -1)) {
				n := left
				fill(short, n)
				res = append(res, ret(short, n, errv(short, "unexpected-eof", et)))
			}
			return res, true
		}
		// Read: end of input is an error even for an empty buffer
		end, short := st.Fork(), st.Fork()
		if end.AddFact(ai.Scale(left, bigK(-1))) {
			res = append(res, ret(end, ai.K(0), eofv(c, end)))
		}
		if st.AddFact(ai.AddK(left, -1)) && st.AddFact(ai.Sub(left, b.Len)) {
			fill(st, b.Len)
			res = append(res, ret(st, b.Len, ai.NilV{}))
		}
		if short.AddFact(ai.AddK(left, -1)) && short.AddFact(ai.AddK(ai.Sub(b.Len, left), -1)) {
			fill(short, left)
			res = append(res, ret(short, left, ai.NilV{}))
		}
		return res, true
	}
	in.Hooks["io.ReadFull"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) { return read(c, c.Args[0], c.Args[1], true) }
	in.Hooks["(*bytes.Reader).Read"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) { return read(c, c.Args[0], c.Args[1], false) }
	in.Hooks["io.CopyN"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		p, r, ok := get(c, c.Args[1])
		n, ok2 := c.Args[2].(*ai.Lin)
		if !ok || !ok2 {
			return nil, false
		}
		left := ai.Sub(r.s.Len, r.i)
		st, short := c.St, c.St.Fork()
		var res []ai.Outcome
		if st.AddFact(ai.Sub(left, n)) {
			set(st, p, ai.Add(r.i, n))
			res = append(res, ret(st, n, ai.NilV{}))
		}
		if short.AddFact(ai.AddK(ai.Sub(n, left), -1)) {
			set(short, p, r.s.Len)
			res = append(res, ret(short, left, eofv(c, short)))
		}
		return res, true
	}
	in.Hooks["(*bytes.Reader).Seek"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		p, r, ok := get(c, c.Args[0])
		n, ok2 := c.Args[1].(*ai.Lin)
		wh, ok3 := c.Args[2].(*ai.Lin)
		if !ok || !ok2 || !ok3 {
			return nil, false
		}
		switch k, _ := wh.Int64(); k {
		case 1:
			n = ai.Add(r.i, n)
		case 2:
			n = ai.Add(r.s.Len, n)
		}
		set(c.St, p, n)
		return c.Return(&ai.TupleV{E: []ai.Value{n, ai.NilV{}}})
	}
	for _, nm := range []string{"github.com/tetratelabs/wabin/leb128.DecodeUint32"} {
		in.Hooks[nm] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
			p, r, ok := get(c, c.Args[0])
			if !ok {
				return nil, false
			}
			st, bad := c.St, c.St.Fork()
			v, n := lebAt(r.i)
			okb := ai.BAtom(lebOK(r.i))
			var res []ai.Outcome
			if st.Assume(okb, true) && st.AddFact(ai.Sub(ai.Sub(r.s.Len, r.i), n)) {
				set(st, p, ai.Add(r.i, n))
				res = append(res, ret(st, v, n, ai.NilV{}))
			}
			if bad.Assume(okb, false) {
				j := ai.LenAtom("lebstop(" + r.i.Key() + ")")
				bad.AddFact(ai.Sub(j, r.i))
				bad.AddFact(ai.Sub(r.s.Len, j))
				set(bad, p, j)
				res = append(res, ret(bad, ai.K(0), ai.K(0), errv(bad, "leberr", c.Fn.Signature.Results().At(2).Type())))
			}
			return res, true
		}
	}
	in.Hooks["unicode/utf8.Valid"] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		return c.Return(ai.BAtom("utf8(" + c.St.Content(c.Args[0]) + ")"))
	}
	in.Hooks["unicode/utf8.ValidString"] = in.Hooks["unicode/utf8.Valid"]
}

func lebAt(pos *ai.Lin) (v, n *ai.Lin) {
	v = ai.IntAtom("leb["+pos.Key()+"]", types.Typ[types.Uint32])
	n = ai.AtomLin(ai.U.Atom("lebn["+pos.Key()+"]", "in", ai.K(1).K, ai.K(5).K))
	return
}

func lebOK(pos *ai.Lin) string { return "lebok[" + pos.Key() + "]" }

func checkSections(c *Ctx) {
	w := load(pSections)
	read := w.fn(pSections, "Read")
	k := 3
	if c.Tier == "thorough" {
		k = 4
	}
	for names := 0; names <= 2; names++ {
		in := w.interp()
		in.InitAlso = map[string]bool{"github.com/tetratelabs/wabin/binary": true}
		in.UnrollFork, in.UnrollAny = 20000, true
		readerModel(in)
		st := ai.NewState()
		b := byteSlice(st, "in")
		atMost(st, b.Len, 1<<31)
		str := types.Typ[types.String]
		arr := &ai.ArrV{Elem: str, N: ai.K(int64(names))}
		var want []ai.Value
		for i := 0; i < names; i++ {
			v := st.Symbolic(fmt.Sprintf("name%d", i), str)
			want = append(want, v)
			arr = st.ArrWrite(arr, ai.K(int64(i)), v)
		}
		np := st.Alloc(nil, arr, "names")
		ns := &ai.SliceV{Ptr: np, Off: ai.K(0), Len: ai.K(int64(names)), Cap: ai.K(int64(names)), Elem: str}
		// the input ends after at most k sections
		limit := in.Hooks["(*bytes.Reader).ReadByte"]
		in.Hooks["(*bytes.Reader).ReadByte"] = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
			seen := 0
			for _, e := range cc.St.Events {
				if e.Kind == "op" && e.Name == "section" {
					seen++
				}
			}
			os, ok := limit(cc)
			var r []ai.Outcome
			for _, o := range os {
				t := retTuple(o.Ret)
				if isNilV(o.St, t[1]) > 0 {
					if seen >= k {
						continue
					}
					opEvent(o.St, "section")
				}
				r = append(r, o)
			}
			return r, ok
		}
		tag := fmt.Sprintf("names=%d", names)
		good, bad, most, matched := 0, 0, 0, 0
		outs := in.Run(st, read, []ai.Value{b, ns}, nil)
		boundedMakes(c, w, tag, outs, b.Len)
		for _, o := range outs {
			c.Paths++
			if o.Kind != ai.Ret {
				c.fail(tag+":returns", "Read: %s", o.Why)
				continue
			}
			q := o.St
			r := retTuple(o.Ret)
			e := isNilV(q, r[1])
			if !c.check(e != 0, tag+":error", "Read: error undecided") {
				continue
			}
			bs := q.Load(b.Ptr).(*ai.ArrV)
			at := func(i *ai.Lin) *ai.Lin { l, _ := q.ArrRead(bs, ai.Add(b.Off, i)).(*ai.Lin); return l }
			path := strings.Join(q.Facts(), ", ")
			// walk the grammar; ok +1 well formed so far, -1 malformed, 0 unknown
			ok, why := 1, ""
			step := func(c int, w string) bool {
				if c <= 0 {
					ok, why = c, w
					return false
				}
				return true
			}
			ge := func(l *ai.Lin) int { return q.Eval(ai.BGE(l)) }
			n := 0
			type entry struct {
				key    int
				off, l *ai.Lin
			}
			var found []entry
			walk := func() {
				if ge(ai.AddK(b.Len, -4)) < 0 || ge(ai.AddK(b.Len, -8)) < 0 {
					step(-1, "length")
					return
				}
				for i, x := range []int64{0, 0x61, 0x73, 0x6d, 1, 0, 0, 0} {
					if !step(q.Eval(ai.BEQ(ai.AddK(at(ai.K(int64(i))), -x))), fmt.Sprintf("magic or version byte %d", i)) {
						return
					}
				}
				if !step(ge(ai.AddK(b.Len, -8)), "length") {
					return
				}
				p := ai.K(8)
				for n < k+1 {
					if d := ai.Sub(b.Len, p); q.ProveEQ(q.Norm(d)) {
						return
					} else if !q.ProveGE(ai.AddK(d, -1)) {
						step(0, "more sections")
						return
					}
					n++
					id := at(p)
					p = ai.AddK(p, 1)
					lok, known := q.BoolFact(lebOK(p))
					if !known || !lok {
						if !known {
							step(0, "section size not read")
						} else {
							step(-1, "section size")
						}
						return
					}
					size, sn := lebAt(p)
					p = ai.Add(p, sn)
					next := ai.Add(p, size)
					z := q.Eval(ai.BEQ(id))
					fits := ge(ai.Sub(b.Len, next))
					if z < 0 {
						if !step(fits, "section content") {
							return
						}
						p = next
						continue
					}
					if z == 0 {
						step(0, "section kind")
						return
					}
					if fits < 0 {
						step(-1, "section content")
						return
					}
					nok, known := q.BoolFact(lebOK(p))
					if !known {
						step(min(fits, 0), "name length not read")
						return
					}
					if !nok {
						step(-1, "name length")
						return
					}
					nl, nn := lebAt(p)
					no := ai.Add(p, nn)
					// the name lies within the input and within the section
					in1, in2 := ge(ai.Sub(ai.Sub(b.Len, no), nl)), ge(ai.Sub(ai.Sub(next, no), nl))
					if in1 < 0 || in2 < 0 {
						step(-1, "name length")
						return
					}
					name := &ai.SliceV{Ptr: b.Ptr, Off: ai.Add(b.Off, no), Len: nl, Cap: nl, Elem: b.Elem}
					content := q.Content(name)
					u, known := q.BoolFact("utf8(" + content + ")")
					if known && !u {
						step(-1, "name encoding")
						return
					}
					if !known || in1 == 0 || in2 == 0 {
						step(0, "name")
						return
					}
					if !step(fits, "section content") {
						return
					}
					got, open := -1, false
					for i, wv := range want {
						m := nameEq(q, wv, content, nl)
						if m > 0 {
							got = i
							break
						}
						open = open || m == 0
					}
					if do := ai.Add(no, nl); got >= 0 || open {
						found = append(found, entry{got, do, ai.Sub(next, do)})
					}
					p = next
				}
			}
			walk()
			if e < 0 {
				bad++
				c.check(ok < 0, tag+":rejects", "a module that is not malformed is refused (%s; %s)", why, path)
				continue
			}
			good++
			if n > most {
				most = n
			}
			if !c.check(ok > 0, tag+":accepts", "a module is accepted although its %s is not right (%s)", why, path) {
				continue
			}
			mp, _ := r[0].(*ai.PtrV)
			var log []ai.MapEnt
			okm := false
			if mp != nil {
				if m, isMap := q.Load(mp).(*ai.MapObj); isMap && m.Base == "" {
					log, okm = m.Log, true
				}
			}
			if !c.check(okm, tag+":map", "the result is %v", r[0].VKey()) {
				continue
			}
			if !c.check(len(log) == len(found), tag+":sections", "%d sections are returned, %d are asked for (%s)", len(log), len(found), path) {
				continue
			}
			for i, f := range found {
				matched++
				en := log[i]
				if !c.check(f.key >= 0 && !en.Del, tag+":name", "whether section %d was asked for is undecided", i) {
					continue
				}
				c.check(sameText(q, en.K, want[f.key]), tag+":key", "section %d is returned under another name", i)
				cs, ok := en.V.(*ai.PtrV)
				if !c.check(ok, tag+":section", "section %d is %v", i, en.V.VKey()) {
					continue
				}
				sv, ok := q.Load(cs).(*ai.StructV)
				if !c.check(ok && len(sv.F) == 2, tag+":section", "section %d is an unknown value", i) {
					continue
				}
				c.check(sameText(q, sv.F[0], want[f.key]), tag+":Name", "section %d carries another name", i)
				d, ok := sv.F[1].(*ai.SliceV)
				okd := false
				if ok {
					wantS := &ai.SliceV{Ptr: b.Ptr, Off: ai.Add(b.Off, f.off), Len: f.l, Cap: f.l, Elem: b.Elem}
					okd = q.ProveEQ(q.Norm(ai.Sub(d.Len, f.l))) && (q.ProveEQ(q.Norm(f.l)) || q.Content(d) == q.Content(wantS))
				}
				c.check(okd, tag+":Data", "the data of section %d is not its bytes in the module (%s)", i, path)
			}
		}
		c.check(good > 0 && bad > 0 && most >= k, tag+":paths", "%d accepting and %d refusing paths, at most %d sections", good, bad, most)
		c.check(names == 0 || matched > 0, tag+":matched", "no path returns a section")
		c.oblSet(w, in, tag, "index slice panic nil makeslice nilmap")
	}
}

// nameEq: whether a wanted name has this content on the path.
func nameEq(q *ai.State, want ai.Value, content string, n *ai.Lin) int {
	wc := q.Content(want)
	if wc == content {
		return 1
	}
	ws, ok := want.(*ai.StrV)
	if ok && q.Eval(ai.BEQ(ai.Sub(ws.Len, n))) < 0 {
		return -1
	}
	for k, v := range q.Bools() {
		if strings.HasPrefix(k, "streq:") && (k == "streq:"+wc+"=="+content || k == "streq:"+content+"=="+wc) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

func sameText(q *ai.State, a, b ai.Value) bool {
	s, ok := a.(*ai.StrV)
	if !ok {
		return false
	}
	return nameEq(q, b, q.Content(a), s.Len) > 0
}
