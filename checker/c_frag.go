package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/ai"
)

func init() {
	register(check{id: "C28", title: "Fragmentation preserves metadata, data and order within the frame limit",
		rule:  "abstract interpretation of Fragment on a frame of symbolic metadata and data lengths and a symbolic limit: on every path the fragments' metadata and data are adjacent windows that tile the originals, each wire size is proved at most the limit, and the flags are those of a split",
		floor: 100, run: checkFragment})
}

func checkFragment(c *Ctx) {
	w := load(pFrames)
	maxFrags := int64(3)
	if c.Tier == "thorough" {
		maxFrags = 5
	}
	n := 0
	for _, fc := range frameCases(w) {
		frag := w.methodOf(types.NewPointer(fc.typ), "Fragment")
		if frag == nil {
			continue
		}
		n++
		isReq := fc.ftype >= 0
		over := int64(6)
		if isReq && (fc.label == "RequestPayload/RequestStream" || fc.label == "RequestPayload/RequestChannel") {
			over += 4
		}
		in := w.interp()
		in.UnrollFork, in.UnrollAny = 2000, true
		st := ai.NewState()
		f := symFrame(st, fc, "f")
		md := fieldOf(st, f, fc.typ, "Metadata").(*ai.SliceV)
		data := fieldOf(st, f, fc.typ, "Data").(*ai.SliceV)
		max := st.Symbolic("max", types.Typ[types.Uint32]).(*ai.Lin)
		// room for at least one byte after the fixed part and a metadata length
		st.AddFact(ai.AddK(max, -(over + 4)))
		atMost(st, max, 1<<30)
		// at most maxFrags+2 fragments
		room := ai.AddK(max, -(over + 3))
		st.AddFact(ai.Sub(ai.Scale(room, bigK(maxFrags)), ai.Add(md.Len, data.Len)))
		size := func(q *ai.State, m, d *ai.Lin, o int64) (*ai.Lin, bool) {
			switch q.Eval(ai.BGE(ai.AddK(m, -1))) {
			case 1:
				return ai.AddK(ai.Add(m, d), o+3), true
			case -1:
				return ai.AddK(ai.Add(m, d), o), true
			}
			return nil, false
		}
		most := int64(0)
		whole := 0
		for _, o := range in.Run(st, frag, []ai.Value{f, max}, nil) {
			c.Paths++
			if o.Kind != ai.Ret {
				c.fail(fc.label+":returns", "Fragment: %s", o.Why)
				continue
			}
			q := o.St
			path := strings.Join(q.Facts(), ", ")
			res, ok := o.Ret.(*ai.SliceV)
			cnt := int64(0)
			if ok {
				cnt, ok = q.Norm(res.Len).Int64()
			} else if _, isNil := o.Ret.(ai.NilV); isNil {
				ok = true
			}
			if !c.check(ok, fc.label+":count", "the number of fragments is %v", o.Ret.VKey()) {
				continue
			}
			if cnt == 0 {
				whole++
				// not split: only allowed within the limit
				okw := true
				for _, hasMD := range []bool{true, false} {
					q2 := q.Fork()
					if !q2.Assume(ai.BGE(ai.AddK(md.Len, -1)), hasMD) {
						continue
					}
					s, dec := size(q2, md.Len, data.Len, over)
					if q2.ProveGE(ai.Sub(ai.AddK(ai.Add(md.Len, data.Len), over), max)) && false {
						dec = false
					}
					okw = okw && dec && q2.ProveGE(ai.Sub(max, s))
				}
				c.check(okw, fc.label+":whole", "a %s is left whole although it may exceed the limit (%s)", fc.label, path)
				continue
			}
			if cnt > most {
				most = cnt
			}
			// split: only allowed above the limit
			oks := true
			for _, hasMD := range []bool{true, false} {
				q2 := q.Fork()
				if !q2.Assume(ai.BGE(ai.AddK(md.Len, -1)), hasMD) {
					continue
				}
				s, dec := size(q2, md.Len, data.Len, over)
				oks = oks && dec && q2.ProveGE(ai.AddK(ai.Sub(s, max), -1))
			}
			c.check(oks, fc.label+":split", "a %s within the limit is split (%s)", fc.label, path)
			arr, _ := q.Load(res.Ptr).(*ai.ArrV)
			mdOff, dataOff := ai.K(0), ai.K(0)
			for i := int64(0); i < cnt; i++ {
				iv, ok := q.ArrRead(arr, ai.AddK(res.Off, i)).(*ai.IfaceV)
				var p *ai.PtrV
				var ft types.Type
				if ok {
					p, ok = iv.V.(*ai.PtrV)
					if pt, isP := iv.Dyn.(*types.Pointer); isP {
						ft = pt.Elem()
					}
				}
				if !c.check(ok && ft != nil, fc.label+":frame", "fragment %d is %v", i, q.ArrRead(arr, ai.AddK(res.Off, i)).VKey()) {
					break
				}
				fo := int64(6)
				name := typeStr(ft)
				first := i == 0 && isReq
				if first {
					fo = over
					c.check(name == typeStr(fc.typ), fc.label+":kind", "the first fragment of a request is a %s", name)
					for _, k := range []string{"FrameType", "InitialN"} {
						if hasField(ft, k) {
							ok, why := sameValue(q, fieldOf(st, f, fc.typ, k), fieldOf(q, p, ft, k))
							c.check(ok, fc.label+":"+k, "the first fragment has another %s: %s", k, why)
						}
					}
				} else {
					c.check(name == "internal/frames.Payload", fc.label+":kind", "fragment %d is a %s, not a payload", i, name)
				}
				ok, why := sameValue(q, fieldOf(st, f, fc.typ, "StreamID"), fieldOf(q, p, ft, "StreamID"))
				c.check(ok, fc.label+":StreamID", "fragment %d has another stream id: %s", i, why)
				part := func(v ai.Value, whole *ai.SliceV, off *ai.Lin, what string) *ai.Lin {
					s, ok := v.(*ai.SliceV)
					if _, isNil := v.(ai.NilV); isNil || ok && q.ProveEQ(q.Norm(s.Len)) {
						return ai.K(0)
					}
					okp := ok && s.Ptr != nil && whole.Ptr != nil && s.Ptr.VKey() == whole.Ptr.VKey() && q.ProveEQ(q.Norm(ai.Sub(ai.Sub(s.Off, whole.Off), off)))
					if ok && !okp {
						// a copied fragment
						want := &ai.SliceV{Ptr: whole.Ptr, Off: ai.Add(whole.Off, off), Len: s.Len, Cap: s.Len, Elem: whole.Elem}
						okp = q.Content(s) == q.Content(want)
					}
					if !c.check(okp, fc.label+":"+what, "the %s of fragment %d does not continue where the previous fragment stopped (%s): %s", what, i, path, v.VKey()) {
						return nil
					}
					return s.Len
				}
				ml := part(fieldOf(q, p, ft, "Metadata"), md, mdOff, "metadata")
				dl := part(fieldOf(q, p, ft, "Data"), data, dataOff, "data")
				if ml == nil || dl == nil {
					break
				}
				mdOff, dataOff = ai.Add(mdOff, ml), ai.Add(dataOff, dl)
				okz := true
				for _, hasMD := range []bool{true, false} {
					q2 := q.Fork()
					if !q2.Assume(ai.BGE(ai.AddK(ml, -1)), hasMD) {
						continue
					}
					s, dec := size(q2, ml, dl, fo)
					okz = okz && dec && q2.ProveGE(ai.Sub(max, s))
				}
				c.check(okz, fc.label+":limit", "fragment %d of %d may exceed the limit (%s)", i, cnt, path)
				last := i == cnt-1
				flag := func(name string) int {
					if !hasField(ft, name) {
						return -1
					}
					b, ok := fieldOf(q, p, ft, name).(*ai.BoolV)
					if !ok {
						return 0
					}
					return q.Eval(b)
				}
				fl := -1
				if !last {
					fl = 1
				}
				c.check(flag("Follows") == fl, fc.label+":follows", "fragment %d of %d has follows=%d (%s)", i, cnt, flag("Follows"), path)
				if !last {
					c.check(flag("Complete") < 0 && flag("Next") < 0, fc.label+":early-flags", "fragment %d of %d already carries complete or next", i, cnt)
					continue
				}
				for _, k := range []string{"Complete", "Next"} {
					var ok bool
					g, isB := fieldOf(q, p, ft, k).(*ai.BoolV)
					if hasField(fc.typ, k) {
						x := fieldOf(q, f, fc.typ, k).(*ai.BoolV)
						ok = isB && (g.VKey() == x.VKey() || q.Eval(g) != 0 && q.Eval(g) == q.Eval(x))
					} else {
						ok = isB && q.Eval(g) > 0 // a request is a next
					}
					c.check(ok, fc.label+":last-"+k, "the last fragment does not carry the original %s flag", k)
				}
			}
			c.check(q.ProveEQ(q.Norm(ai.Sub(mdOff, md.Len))), fc.label+":all-metadata", "the fragments carry %s bytes of metadata, not all of it (%s)", mdOff, path)
			c.check(q.ProveEQ(q.Norm(ai.Sub(dataOff, data.Len))), fc.label+":all-data", "the fragments carry %s bytes of data, not all of it (%s)", dataOff, path)
		}
		c.check(most >= maxFrags, fc.label+":fragments", "no path splits into %d fragments, at most %d", maxFrags, most)
		c.check(whole > 0, fc.label+":whole-paths", "no path leaves the frame whole")
		c.oblSet(w, in, fc.label, "index slice panic nil makeslice div")
		c.Notes = append(c.Notes, fmt.Sprintf("%s: up to %d fragments", fc.label, most))
	}
	c.check(n >= 2, "fragmentable", "%d frame kinds can be fragmented", n)
}
