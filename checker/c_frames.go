package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

const pFrames = "internal/frames"

func init() {
	register(check{id: "C01", title: "Every frame decodes to what was encoded",
		rule:  "abstract interpretation of Encode followed by ParseFrameHeader and Decode on a symbolic frame: on every abstract path each wire-carried field of the decoded frame is the same abstract value as the encoded field, and the bytes written follow the RSocket layout (header, request-n, 24-bit metadata length, metadata, data)",
		floor: 60, run: checkFrameRoundTrip})
	register(check{id: "C02", title: "Size is exactly what Encode writes",
		rule:  "abstract interpretation of Size and then Encode into a buffer of exactly that many bytes: no index or slice bound can fail, no copy is truncated, and the writes tile the whole buffer",
		floor: 30, run: checkFrameSize})
}

// frameTypes lists the concrete frame kinds of the package.
func frameTypes(w *World) []*types.Named {
	iface := w.named(pFrames, "Frame").Underlying().(*types.Interface)
	var r []*types.Named
	p := w.pkg(pFrames)
	for _, m := range p.Pkg.Scope().Names() {
		tn, ok := p.Pkg.Scope().Lookup(m).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(n) {
			continue
		}
		if types.Implements(types.NewPointer(n), iface) {
			r = append(r, n)
		}
	}
	return r
}

type frameCase struct {
	typ   *types.Named
	label string
	ftype int64 // for RequestPayload
}

func frameCases(w *World) []frameCase {
	var r []frameCase
	for _, n := range frameTypes(w) {
		if n.Obj().Name() == "RequestPayload" {
			for _, k := range []string{"RequestResponse", "RequestFNF", "RequestStream", "RequestChannel"} {
				r = append(r, frameCase{n, "RequestPayload/" + k, w.konst(pFrames, "FrameType"+k)})
			}
			continue
		}
		r = append(r, frameCase{n, n.Obj().Name(), -1})
	}
	return r
}

// symFrame allocates a frame with symbolic fields inside the wire's ranges.
func symFrame(st *ai.State, fc frameCase, key string) *ai.PtrV {
	s := fc.typ.Underlying().(*types.Struct)
	sv := &ai.StructV{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		k := key + "." + f.Name()
		v := st.Symbolic(k, f.Type())
		switch f.Name() {
		case "StreamID":
			atMost(st, v.(*ai.Lin), 1<<31-1)
		case "FrameType":
			v = ai.K(fc.ftype)
		case "Metadata":
			atMost(st, v.(*ai.SliceV).Len, 1<<24-1)
		case "Token":
			atMost(st, v.(*ai.SliceV).Len, 1<<16-1)
		case "Data":
			switch x := v.(type) {
			case *ai.SliceV:
				atMost(st, x.Len, 1<<30)
			case *ai.StrV:
				atMost(st, x.Len, 1<<30)
			}
		case "MimeMetadata", "MimeData":
			atMost(st, v.(*ai.StrV).Len, 255)
		}
		if typeStr(f.Type()) == "time.Duration" {
			ms := ai.IntAtom(k+"/ms", types.Typ[types.Uint32])
			v = ai.Scale(ms, big.NewInt(1000000))
		}
		sv.F = append(sv.F, v)
	}
	return st.Alloc(fc.typ, sv, key)
}

func fieldOf(st *ai.State, p *ai.PtrV, t types.Type, name string) ai.Value {
	i := fieldIdx(t, name)
	return st.Load(&ai.PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], ai.Sel{Field: i})})
}

func hasField(t types.Type, name string) bool {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

type encoded struct {
	st   *ai.State
	f    *ai.PtrV
	buf  *ai.SliceV
	size *ai.Lin
}

// encodeFrames runs Size and Encode abstractly.
func encodeFrames(c *Ctx, w *World, in *ai.Interp, fc frameCase) []encoded {
	pt := types.NewPointer(fc.typ)
	size, enc := w.methodOf(pt, "Size"), w.methodOf(pt, "Encode")
	if size == nil || enc == nil {
		failf("unresolved anchor: Size/Encode of %s", fc.label)
	}
	st := ai.NewState()
	f := symFrame(st, fc, "f")
	var r []encoded
	for _, o := range in.Run(st, size, []ai.Value{f}, nil) {
		if o.Kind != ai.Ret {
			c.fail("size-undecided:"+fc.label, "Size of %s: %s", fc.label, o.Why)
			continue
		}
		n, ok := o.Ret.(*ai.Lin)
		if !ok {
			c.fail("size-undecided:"+fc.label, "Size of %s is not an affine quantity: %s", fc.label, o.Ret.VKey())
			continue
		}
		buf := dirtyBuf(o.St, "dirty", n)
		for _, e := range in.Run(o.St, enc, []ai.Value{f, buf}, nil) {
			if e.Kind != ai.Ret {
				c.fail("encode-undecided:"+fc.label, "Encode of %s: %s", fc.label, e.Why)
				continue
			}
			r = append(r, encoded{e.St, f, buf, n})
		}
	}
	c.Paths += len(r)
	return r
}

func checkFrameSize(c *Ctx) {
	w := load(pFrames)
	for _, fc := range frameCases(w) {
		in := w.interp()
		es := encodeFrames(c, w, in, fc)
		if len(es) == 0 {
			c.fail("no-path:"+fc.label, "no abstract path encodes %s", fc.label)
		}
		// bounds obligations of Size/Encode
		for i := range in.Obls {
			if in.Obls[i].Kind == "nil" {
				in.Obls[i].OK = true
			}
		}
		c.oblSet(w, in, fc.label, "index slice makeslice panic div")
		full, trunc := true, ""
		for _, e := range es {
			for _, ev := range e.st.Events {
				if ev.Kind == "copy" && ev.Recv.VKey() != "" {
					if b, ok := ev.Args[2].(*ai.BoolV); ok && b.B {
						trunc = w.at(ev.Pos)
					}
				}
			}
			arr := e.st.Load(e.buf.Ptr).(*ai.ArrV)
			cur := ai.K(0)
			for n := 0; n < len(arr.Ws)+2; n++ {
				if e.st.ProveEQ(ai.Sub(cur, e.size)) {
					break
				}
				hit := false
				for i := len(arr.Ws) - 1; i >= 0; i-- {
					ww := arr.Ws[i]
					if !e.st.ProveEQ(ai.Sub(ww.Off, cur)) {
						continue
					}
					l := ww.Len
					if ww.Val != nil {
						l = ai.K(1)
					}
					if e.st.ProveEQ(l) {
						continue
					}
					cur = ai.Add(cur, l)
					hit = true
					break
				}
				if !hit {
					break
				}
			}
			if !e.st.ProveEQ(ai.Sub(cur, e.size)) {
				full = false
				c.fail("tile:"+fc.label, "%s: Encode writes bytes [0,%s) but Size reports %s", fc.label, cur, e.size)
			}
		}
		if full {
			c.ok("tile:" + fc.label)
		}
		c.check(trunc == "", "copy-complete:"+fc.label, "%s: a copy into the frame buffer is cut short at %s (Size too small for what is written)", fc.label, trunc)
	}
}

func beBytes(st *ai.State, arr *ai.ArrV, off *ai.Lin, n int) []ai.Value {
	var r []ai.Value
	for i := 0; i < n; i++ {
		r = append(r, st.ArrRead(arr, ai.AddK(off, int64(i))))
	}
	return r
}

// beEq: the n bytes at off are the big-endian encoding of v.
func beEq(st *ai.State, arr *ai.ArrV, off *ai.Lin, n int, v *ai.Lin) bool {
	for i := 0; i < n; i++ {
		b, ok := st.ArrRead(arr, ai.AddK(off, int64(i))).(*ai.Lin)
		if !ok {
			return false
		}
		want := st.Conv(st.ShiftRight(v, 8*(n-1-i)), 8, false)
		if !st.ProveEQ(ai.Sub(b, want)) {
			return false
		}
	}
	return true
}

func sameContent(st *ai.State, a, b ai.Value) bool { return st.Content(a) == st.Content(b) }

func lenOf(v ai.Value) *ai.Lin {
	switch x := v.(type) {
	case *ai.SliceV:
		return x.Len
	case *ai.StrV:
		return x.Len
	}
	return ai.K(0)
}

func sameValue(st *ai.State, a, b ai.Value) (bool, string) {
	switch x := a.(type) {
	case *ai.Lin:
		y, ok := b.(*ai.Lin)
		if !ok {
			return false, fmt.Sprintf("%s vs %s", a.VKey(), b.VKey())
		}
		return st.ProveEQ(ai.Sub(x, y)), fmt.Sprintf("encoded %s, decoded %s", x, y)
	case *ai.BoolV:
		y, ok := b.(*ai.BoolV)
		if !ok {
			return false, "not a boolean"
		}
		if x.VKey() == y.VKey() {
			return true, ""
		}
		ex, ey := st.Eval(x), st.Eval(y)
		return ex != 0 && ex == ey, fmt.Sprintf("encoded %s, decoded %s", tri(ex), tri(ey))
	case *ai.SliceV, *ai.StrV:
		ca, cb := st.Content(a), st.Content(b)
		return ca == cb, fmt.Sprintf("encoded %s, decoded %s", ca, cb)
	}
	return a.VKey() == b.VKey(), fmt.Sprintf("encoded %s, decoded %s", a.VKey(), b.VKey())
}

func tri(i int) string {
	return map[int]string{1: "true", -1: "false", 0: "unknown"}[i]
}

// rsocketConsts is the wire table of the RSocket protocol.
var rsocketConsts = map[string]int64{
	"FrameTypeSetup": 1, "FrameTypeLease": 2, "FrameTypeKeepalive": 3, "FrameTypeRequestResponse": 4, "FrameTypeRequestFNF": 5,
	"FrameTypeRequestStream": 6, "FrameTypeRequestChannel": 7, "FrameTypeRequestN": 8, "FrameTypeCancel": 9, "FrameTypePayload": 10,
	"FrameTypeError": 11, "FrameTypeMetadataPush": 12, "FrameTypeResume": 13, "FrameTypeResumeOK": 14, "FrameTypeExt": 0x3f,
	"FlagNext": 0x20, "FlagComplete": 0x40, "FlagFollow": 0x80, "FlagMetadata": 0x100, "FlagIgnore": 0x200, "FlagResume": 0x80, "FlagLease": 0x40,
}

func checkFrameRoundTrip(c *Ctx) {
	w := load(pFrames)
	for k, v := range rsocketConsts {
		c.check(w.konst(pFrames, k) == v, "const:"+k, "%s is %#x on the wire, RSocket assigns %#x", k, w.konst(pFrames, k), v)
	}
	hl := w.konst(pFrames, "FrameHeaderLen")
	c.check(hl == 6, "const:FrameHeaderLen", "frame header length %d, RSocket uses 6", hl)
	parse := w.fn(pFrames, "ParseFrameHeader")
	hdrT := w.named(pFrames, "FrameHeader")
	cases := frameCases(w)
	if len(cases) < 9 {
		c.fail("frame-kinds", "only %d frame kinds found", len(cases))
	}
	for _, fc := range cases {
		in := w.interp()
		es := encodeFrames(c, w, in, fc)
		pt := types.NewPointer(fc.typ)
		dec := w.methodOf(pt, "Decode")
		npaths := 0
		for _, e := range es {
			checkLayout(c, w, in, fc, e)
			for _, h := range in.Run(e.st.Fork(), parse, []ai.Value{e.buf}, nil) {
				if h.Kind != ai.Ret {
					c.fail("header-undecided:"+fc.label, "ParseFrameHeader: %s", h.Why)
					continue
				}
				hp := h.St.Alloc(hdrT, h.Ret, "header")
				g := h.St.Alloc(fc.typ, h.St.Zero(fc.typ), "g")
				pay := &ai.SliceV{Ptr: e.buf.Ptr, Off: ai.K(hl), Len: ai.AddK(e.size, -hl), Cap: ai.AddK(e.size, -hl), Elem: e.buf.Elem}
				for _, d := range in.Run(h.St, dec, []ai.Value{g, hp, pay}, nil) {
					if d.Kind != ai.Ret {
						c.fail("decode-undecided:"+fc.label, "Decode of an encoded %s does not return: %s", fc.label, d.Why)
						continue
					}
					npaths++
					c.check(isNilV(d.St, d.Ret) > 0, "accepts:"+fc.label, "decoding an encoded %s reports an error (%s)", fc.label, strings.Join(d.St.Facts(), ", "))
					if isNilV(d.St, d.Ret) <= 0 {
						continue
					}
					s := fc.typ.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						name := s.Field(i).Name()
						if fc.typ.Obj().Name() == "RequestPayload" {
							stream := strings.HasSuffix(fc.label, "Stream") || strings.HasSuffix(fc.label, "Channel")
							if name == "InitialN" && !stream {
								continue
							}
							if name == "Complete" && !strings.HasSuffix(fc.label, "Channel") {
								continue
							}
						}
						a, b := fieldOf(d.St, e.f, fc.typ, name), fieldOf(d.St, g, fc.typ, name)
						ok, why := sameValue(d.St, a, b)
						c.check(ok, "field:"+fc.label+"."+name, "%s.%s does not survive encode/decode: %s", fc.label, name, why)
					}
				}
			}
		}
		c.Paths += npaths
		c.check(npaths > 0, "paths:"+fc.label, "no decoded path for %s", fc.label)
		c.used(in)
		for _, cut := range in.Cuts {
			c.fail("cut:"+fc.label, "analysis incomplete: %s", cut)
		}
	}
}

// checkLayout compares the encoded bytes with the RSocket layout.
func checkLayout(c *Ctx, w *World, in *ai.Interp, fc frameCase, e encoded) {
	st := e.st
	arr := st.Load(e.buf.Ptr).(*ai.ArrV)
	fld := func(n string) ai.Value { return fieldOf(st, e.f, fc.typ, n) }
	sid := ai.K(0)
	if hasField(fc.typ, "StreamID") {
		sid = fld("StreamID").(*ai.Lin)
	}
	c.check(beEq(st, arr, ai.K(0), 4, sid), "layout:"+fc.label+":stream-id", "%s: bytes 0..3 are not the big-endian stream id", fc.label)
	ft := fc.ftype
	name := fc.typ.Obj().Name()
	if ft < 0 {
		ft = rsocketConsts["FrameType"+name]
	}
	flags := int64(0)
	on := func(f string) int { return st.Eval(fld(f).(*ai.BoolV)) }
	nonEmpty := func(f string) int { return st.Eval(ai.BGE(ai.AddK(lenOf(fld(f)), -1))) }
	und := false
	set := func(r int, bit string) {
		if r == 0 {
			und = true
		}
		if r > 0 {
			flags |= rsocketConsts[bit]
		}
	}
	off := ai.K(6)
	type part struct {
		name string
		off  *ai.Lin
		n    int
		v    *ai.Lin
	}
	var parts []part
	u := func(nm string, n int, v *ai.Lin) {
		parts = append(parts, part{nm, off, n, v})
		off = ai.AddK(off, int64(n))
	}
	type blk struct {
		name string
		off  *ai.Lin
		v    ai.Value
	}
	var blks []blk
	b := func(nm string) {
		v := fld(nm)
		blks = append(blks, blk{nm, off, v})
		off = ai.Add(off, lenOf(v))
	}
	md := func() {
		r := nonEmpty("Metadata")
		set(r, "FlagMetadata")
		if r > 0 {
			u("metadata-length", 3, lenOf(fld("Metadata")))
			b("Metadata")
		}
	}
	switch name {
	case "Setup":
		set(on("Lease"), "FlagLease")
		u("major", 2, fld("MajorVersion").(*ai.Lin))
		u("minor", 2, fld("MinorVersion").(*ai.Lin))
		u("keepalive", 4, msOf(st, fld("TimeBetweenKeepalive").(*ai.Lin)))
		u("lifetime", 4, msOf(st, fld("MaxLifetime").(*ai.Lin)))
		r := nonEmpty("Token")
		set(r, "FlagResume")
		if r > 0 {
			u("token-length", 2, lenOf(fld("Token")))
			b("Token")
		}
		u("metadata-mime-length", 1, lenOf(fld("MimeMetadata")))
		b("MimeMetadata")
		u("data-mime-length", 1, lenOf(fld("MimeData")))
		b("MimeData")
		md()
		b("Data")
	case "RequestPayload":
		if ft == 6 || ft == 7 {
			u("initial-n", 4, fld("InitialN").(*ai.Lin))
		}
		if ft == 7 {
			set(on("Complete"), "FlagComplete")
		}
		set(on("Follows"), "FlagFollow")
		md()
		b("Data")
	case "Payload":
		set(on("Follows"), "FlagFollow")
		set(on("Complete"), "FlagComplete")
		set(on("Next"), "FlagNext")
		md()
		b("Data")
	case "RequestN":
		u("n", 4, fld("N").(*ai.Lin))
	case "Error":
		u("code", 4, fld("Code").(*ai.Lin))
		b("Data")
	}
	if und {
		c.fail("layout:"+name+":flags", "%s: Encode does not look at every flag-carrying field (flag bits undecided on path %s)", fc.label, strings.Join(st.Facts(), ", "))
		return
	}
	c.check(beEq(st, arr, ai.K(4), 2, ai.K(ft<<10|flags)), "layout:"+fc.label+":type-flags", "%s: bytes 4..5 are not type<<10|flags = %#x (have %s %s)", fc.label, ft<<10|flags, beBytes(st, arr, ai.K(4), 1)[0].VKey(), beBytes(st, arr, ai.K(5), 1)[0].VKey())
	for _, p := range parts {
		c.check(beEq(st, arr, p.off, p.n, p.v), "layout:"+fc.label+":"+p.name, "%s: %d bytes at offset %s are not the big-endian %s %s", fc.label, p.n, p.off, p.name, p.v)
	}
	for _, x := range blks {
		l := lenOf(x.v)
		got := st.Content(&ai.SliceV{Ptr: e.buf.Ptr, Off: x.off, Len: l, Cap: l})
		want := st.Content(x.v)
		c.check(got == want, "layout:"+fc.label+":"+x.name, "%s: bytes at offset %s are not %s (have %s, want %s)", fc.label, x.off, x.name, got, want)
	}
}

func msOf(st *ai.State, d *ai.Lin) *ai.Lin {
	r := &ai.Lin{K: new(big.Int).Quo(d.K, big.NewInt(1000000))}
	for _, t := range d.Ts {
		r.Ts = append(r.Ts, ai.LT{A: t.A, C: new(big.Int).Quo(t.C, big.NewInt(1000000))})
	}
	return r
}

var _ *ssa.Function
