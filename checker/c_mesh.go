package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/ai"
)

func init() {
	register(check{"C26", "The module mesh links imports to the matching export only",
		"abstract interpretation of loading modules into a mesh: for every way exports and imports of two or three operations can agree or differ in namespace, name and kind, every order and grouping into modules and reloading of a module, the handlers set on the importing instances and the requests made through them and through the mesh go to an instance that exports exactly that operation, under its index, with the caller's payload, and to no other",
		1300, c26})
}

const (
	pMesh = "transport/wasmrs/mesh"
	pHost = "transport/wasmrs/host"
)

type meshOp struct {
	imp    bool
	kind   int64 // 1..4, others are unknown kinds
	ns, op string
	index  string // symbolic index
}

func (m meshOp) key() string { return fmt.Sprintf("%d|%q|%q", m.kind, m.ns, m.op) }
func (m meshOp) String() string {
	d := "export"
	if m.imp {
		d = "import"
	}
	return fmt.Sprintf("%s(%d %s %s)", d, m.kind, m.ns, m.op)
}

type meshMod struct {
	file string
	ops  []meshOp
}

type meshH struct {
	busy   bool // requests are made between loads
	c      *Ctx
	w      *World
	in     *ai.Interp
	cur    *meshMod
	opT    *types.Named
	tabT   types.Type
	loaded int
	insts  []*ai.PtrV
	idxT   types.Type
}

func (h *meshH) kinds() []string {
	return []string{"RequestResponse", "FireAndForget", "RequestStream", "RequestChannel"}
}

// table builds the operation table of a module.
func (h *meshH) table(st *ai.State, ops []meshOp) ai.Value {
	fs := h.opT.Underlying().(*types.Struct)
	arr := &ai.ArrV{Elem: h.opT, N: ai.K(int64(len(ops)))}
	for i, op := range ops {
		s := st.Zero(h.opT).(*ai.StructV)
		s = &ai.StructV{F: append([]ai.Value(nil), s.F...)}
		for k := 0; k < fs.NumFields(); k++ {
			switch fs.Field(k).Name() {
			case "Index":
				s.F[k] = ai.IntAtom(op.index, fs.Field(k).Type())
			case "Type":
				s.F[k] = ai.K(op.kind)
			case "Direction":
				d := "Export"
				if op.imp {
					d = "Import"
				}
				s.F[k] = ai.K(h.w.konst(pOpers, d))
			case "Namespace":
				s.F[k] = ai.StrConst(op.ns)
			case "Operation":
				s.F[k] = ai.StrConst(op.op)
			default:
				failf("operations.Operation has an unknown field %s", fs.Field(k).Name())
			}
		}
		arr = st.ArrWrite(arr, ai.K(int64(i)), s)
	}
	p := st.Alloc(nil, arr, "optable")
	n := ai.K(int64(len(ops)))
	return &ai.SliceV{Ptr: p, Off: ai.K(0), Len: n, Cap: n, Elem: h.opT}
}

func (h *meshH) setup() {
	w, in := h.w, h.in
	okErr := func(name string, mk func(c *ai.CallCtx) ai.Value) {
		in.Hooks[name] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
			return c.Return(&ai.TupleV{E: []ai.Value{mk(c), ai.NilV{}}})
		}
	}
	okErr("os.ReadFile", func(c *ai.CallCtx) ai.Value {
		return c.St.Symbolic("source", types.NewSlice(types.Typ[types.Byte]))
	})
	ptr := func(name string) func(c *ai.CallCtx) ai.Value {
		return func(c *ai.CallCtx) ai.Value {
			t := w.named(pHost, name)
			return c.St.Alloc(t, c.St.Zero(t), name)
		}
	}
	okErr(ai.Name(w.fn(pHost, "New")), ptr("Host"))
	okErr(ai.Name(w.method(pHost, "Host", "Compile")), ptr("Module"))
	okErr(ai.Name(w.method(pHost, "Module", "Instantiate")), func(c *ai.CallCtx) ai.Value {
		t := w.named(pHost, "Instance")
		p := c.St.Alloc(t, c.St.Zero(t), fmt.Sprintf("instance%d", h.loaded))
		h.insts = append(h.insts, p)
		h.loaded++
		return p
	})
	in.Hooks[ai.Name(w.method(pHost, "Instance", "Operations"))] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		return c.Return(h.table(c.St, h.cur.ops))
	}
	in.Hooks[ai.Name(w.method(pHost, "Instance", "Close"))] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
		opEvent(c.St, "close", c.Args[0])
		return c.Return(ai.NilV{})
	}
	for i, k := range h.kinds() {
		i, k := i, k
		in.Hooks[ai.Name(w.method(pHost, "Instance", "Set"+k+"Handler"))] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
			opEvent(c.St, fmt.Sprintf("set:%d", i+1), c.Args...)
			return []ai.Outcome{{Kind: ai.Ret, St: c.St}}, true
		}
		in.Hooks[ai.Name(w.method(pHost, "Instance", k))] = func(c *ai.CallCtx) ([]ai.Outcome, bool) {
			opEvent(c.St, fmt.Sprintf("request:%d", i+1), c.Args...)
			c.St.Events[len(c.St.Events)-1].St = c.St.Fork()
			if c.RetT == nil {
				return []ai.Outcome{{Kind: ai.Ret, St: c.St}}, true
			}
			if t, ok := c.RetT.(*types.Tuple); ok && t.Len() == 0 {
				return []ai.Outcome{{Kind: ai.Ret, St: c.St}}, true
			}
			r := errVal(c.St, fmt.Sprintf("reply%d", i+1), c.RetT)
			return c.Return(r)
		}
	}
}

// dest is where a call arrived.
type meshDest struct {
	inst int
	kind int
	bad  string
}

// calls runs a handler or mesh request and tells where it arrives.
func (h *meshH) calls(st *ai.State, run func(st *ai.State, ctx, p ai.Value, rest ai.Value) []ai.Outcome, small bool) []meshDest {
	s, p, data, md := h.request(st, small)
	pre := s.Fork()
	var r []meshDest
	for _, o := range run(s, opq("req.ctx", nil), p, opq("req.in", nil)) {
		h.c.Paths++
		if o.Kind != ai.Ret {
			if o.St != nil {
				r = append(r, meshDest{inst: -1, bad: "the call panics: " + o.Why})
			}
			continue
		}
		n := 0
		for _, e := range o.St.Events {
			if e.Kind != "op" || !strings.HasPrefix(e.Name, "request:") {
				continue
			}
			n++
			d := meshDest{inst: -1}
			fmt.Sscanf(e.Name, "request:%d", &d.kind)
			for i, p := range h.insts {
				if e.Args[0].VKey() == p.VKey() {
					d.inst = i
				}
			}
			if e.Args[1].VKey() != "$req.ctx" {
				d.bad = "another context is passed on"
			}
			if d.kind == 4 && (len(e.Args) < 4 || e.Args[3].VKey() != "$req.in") {
				d.bad = "another input stream is passed on"
			}
			if d.kind != 2 && o.Ret != nil && o.Ret.VKey() != fmt.Sprintf("$reply%d", d.kind) {
				d.bad = "the answer is not passed back"
			}
			// the first four bytes hold the index, the others are the caller's
			gotData, gotMd := h.delivered(e.St, e.Args[2])
			switch {
			case d.bad != "":
			case !sameBytes(e.St, gotData, pre, data, 0):
				d.bad = "other data is passed on"
			case small && !(gotMd != nil && e.St.ProveEQ(ai.Sub(gotMd.Len, md.Len))),
				!small && !sameBytes(e.St, gotMd, pre, md, 4):
				d.bad = "other metadata is passed on"
			case !small:
				d.bad = h.indexOf(e.St, gotMd)
			}
			r = append(r, d)
		}
		if n > 1 {
			r = append(r, meshDest{inst: -1, bad: "the call is made more than once"})
		}
		if n == 0 {
			r = append(r, meshDest{inst: -1})
		}
	}
	return r
}

// delivered reads the payload an instance is handed.
func (h *meshH) delivered(st *ai.State, p ai.Value) (data, md *ai.SliceV) {
	get := func(m string) *ai.SliceV {
		n := len(h.in.Obls)
		defer func() { h.in.Obls = h.in.Obls[:n] }()
		os := runMethod(h.in, st.Fork(), p, m)
		if len(os) != 1 || os[0].Kind != ai.Ret {
			return nil
		}
		r, _ := os[0].Ret.(*ai.SliceV)
		return r
	}
	return get("Data"), get("Metadata")
}

// sameBytes reports that a in st holds the bytes b had in pre, from the given
// position on.
func sameBytes(st *ai.State, a *ai.SliceV, pre *ai.State, b *ai.SliceV, from int64) bool {
	if a == nil || b == nil || !st.ProveEQ(ai.Sub(a.Len, b.Len)) {
		return false
	}
	if a.Ptr == nil || b.Ptr == nil {
		return a.Ptr == nil && b.Ptr == nil
	}
	av, _ := st.Load(a.Ptr).(*ai.ArrV)
	bv, _ := pre.Load(b.Ptr).(*ai.ArrV)
	if av == nil || bv == nil {
		return false
	}
	at := func(i *ai.Lin) bool {
		return st.ArrRead(av, ai.Add(a.Off, i)).VKey() == pre.ArrRead(bv, ai.Add(b.Off, i)).VKey()
	}
	for k := from; k < 8; k++ {
		if from > 0 && !at(ai.K(k)) {
			return false
		}
	}
	j := ai.IntAtom("req.any", types.Typ[types.Int])
	st, pre = st.Fork(), pre.Fork()
	for _, s := range []*ai.State{st, pre} {
		s.AddFact(ai.AddK(j, -from))
		s.AddFact(ai.AddK(ai.Sub(b.Len, j), -1))
	}
	return at(j)
}

// indexOf names the symbolic index in the first four bytes.
func (h *meshH) indexOf(st *ai.State, md *ai.SliceV) string {
	av, _ := st.Load(md.Ptr).(*ai.ArrV)
	if av == nil {
		return "index:?"
	}
	var v *ai.Lin = ai.K(0)
	for k := int64(0); k < 4; k++ {
		b, ok := st.ArrRead(av, ai.AddK(md.Off, k)).(*ai.Lin)
		if !ok {
			return "index:?"
		}
		v = ai.Add(v, ai.Scale(b, bigP2(uint(8*(3-k)))))
	}
	for _, n := range h.indexNames() {
		if st.ProveEQ(ai.Sub(v, ai.IntAtom(n, h.idxT))) {
			return "index:" + n
		}
	}
	return "index:?"
}

func (h *meshH) indexNames() []string {
	var r []string
	for i := 0; i < 4; i++ {
		for j := 0; j < 3; j++ {
			r = append(r, fmt.Sprintf("idx.%d.%d", i, j))
		}
	}
	return r
}

func atLeast(st *ai.State, l *ai.Lin, n int64) { st.AddFact(ai.AddK(l, -n)) }

func (h *meshH) request(st *ai.State, small bool) (s *ai.State, p *ai.IfaceV, data, md *ai.SliceV) {
	s = st.Fork()
	s.Events = nil
	bt := types.NewSlice(types.Typ[types.Byte])
	data, md = s.Symbolic("req.data", bt).(*ai.SliceV), s.Symbolic("req.md", bt).(*ai.SliceV)
	if !small {
		atLeast(s, md.Len, 8)
	}
	pn := h.w.fn("payload", "New")
	one := ai.K(1)
	mds := &ai.SliceV{Ptr: s.Alloc(nil, s.ArrWrite(&ai.ArrV{Elem: bt, N: one}, ai.K(0), md), "mds"), Off: ai.K(0), Len: one, Cap: one, Elem: bt}
	os := h.in.Run(s, pn, []ai.Value{data, mds}, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		why := fmt.Sprint(len(os))
		for _, o := range os {
			why += fmt.Sprintf(" %v:%s", o.Kind, o.Why)
		}
		failf("payload.New is not decided: %s", why)
	}
	s = os[0].St
	p = &ai.IfaceV{Dyn: pn.Signature.Results().At(0).Type(), V: os[0].Ret}
	s.SetBool("isnil(req.ctx)", false)
	s.SetBool("isnil(req.in)", false)
	return s, p, data, md
}

// use makes every request there is, by name and through the handlers that are
// set, and goes on with what that leaves behind.
func (h *meshH) use(st *ai.State, m ai.Value, mods []meshMod) *ai.State {
	evs := st.Events
	after := func(os []ai.Outcome) {
		for _, o := range os {
			if o.Kind == ai.Ret {
				st = o.St
				break
			}
		}
	}
	rest := func(kind int64) []ai.Value {
		if kind == 4 {
			return []ai.Value{opq("req.in", nil)}
		}
		return nil
	}
	for _, e := range evs {
		if e.Kind == "op" && strings.HasPrefix(e.Name, "set:") {
			kind := int64(0)
			fmt.Sscanf(e.Name, "set:%d", &kind)
			s, p, _, _ := h.request(st, false)
			after(h.in.CallValue(s, e.Args[2], append([]ai.Value{opq("req.ctx", nil), p}, rest(kind)...)))
		}
	}
	for _, mo := range mods {
		for _, op := range mo.ops {
			s, p, _, _ := h.request(st, false)
			fn := h.w.method(pMesh, "Mesh", h.kinds()[op.kind-1])
			after(h.in.Run(s, fn, append([]ai.Value{m, opq("req.ctx", nil), ai.StrConst(op.ns), ai.StrConst(op.op), p}, rest(op.kind)...), nil))
		}
	}
	st.Events = append([]*ai.Event(nil), evs...)
	return st
}

// run loads the modules in order and judges where everything leads.
func (h *meshH) run(name string, base *ai.State, m ai.Value, mods []meshMod, small bool) {
	c := h.c
	st := base.Fork()
	h.loaded, h.insts = 0, nil
	load := h.w.method(pMesh, "Mesh", "LoadModule")
	st.SetBool("isnil(ctx)", false)
	for i := range mods {
		h.cur = &mods[i]
		for j := range mods[i].ops {
			mods[i].ops[j].index = fmt.Sprintf("idx.%d.%d", i, j)
		}
		os := h.in.Run(st, load, []ai.Value{m, opq("ctx", load.Signature.Params().At(0).Type()), ai.StrConst(mods[i].file)}, nil)
		if len(os) != 1 || os[0].Kind != ai.Ret {
			why := ""
			for _, o := range os {
				why += " " + o.Why
			}
			c.fail("undecided", "loading modules is not decided for %s:%s", name, why)
			return
		}
		st = os[0].St
		if h.busy && i+1 < len(mods) {
			st = h.use(st, m, mods[:i+1])
		}
	}
	// the current exporters
	cur := map[string]int{} // file -> last load
	for i, mo := range mods {
		cur[mo.file] = i
	}
	match := func(k string) map[string]bool {
		r := map[string]bool{}
		for i, mo := range mods {
			if cur[mo.file] != i {
				continue
			}
			for _, op := range mo.ops {
				if !op.imp && op.key() == k && op.kind >= 1 && op.kind <= 4 {
					r[fmt.Sprintf("%d/%s", i, op.index)] = true
				}
			}
		}
		return r
	}
	ever := func(k string) bool {
		for _, mo := range mods {
			for _, op := range mo.ops {
				if !op.imp && op.key() == k {
					return true
				}
			}
		}
		return false
	}
	var trace []string
	for _, mo := range mods {
		var s []string
		for _, op := range mo.ops {
			s = append(s, op.String())
		}
		trace = append(trace, mo.file+": "+strings.Join(s, " "))
	}
	what := strings.Join(trace, "; ")
	bad := false
	fail := func(key, f string, a ...any) {
		bad = true
		c.fail(key, f+" (loading "+what+")", a...)
	}
	judge := func(key, who string, k string, kind int64, ds []meshDest) {
		want := match(k)
		for _, d := range ds {
			if d.inst < 0 && d.bad != "" {
				fail(key+":broken", "%s: %s", who, d.bad)
				continue
			}
			if d.inst < 0 {
				if len(want) > 0 {
					fail(key+":dropped", "%s is not passed on although an operation of that name and kind is exported", who)
				}
				continue
			}
			if int64(d.kind) != kind {
				fail(key+":kind", "%s arrives as a %s", who, h.kinds()[d.kind-1])
				continue
			}
			if d.bad != "" && !strings.HasPrefix(d.bad, "index:") {
				fail(key+":broken", "%s: %s", who, d.bad)
				continue
			}
			if small {
				ok := false
				for x := range want {
					ok = ok || strings.HasPrefix(x, fmt.Sprintf("%d/", d.inst))
				}
				if !ok && ever(k) && len(want) == 0 {
					continue
				}
				if !ok {
					fail(key+":instance", "%s arrives at instance %d, which does not export that operation", who, d.inst)
				}
				continue
			}
			at := fmt.Sprintf("%d/%s", d.inst, strings.TrimPrefix(d.bad, "index:"))
			if len(want) == 0 && ever(k) {
				continue // exported by a module that has been replaced
			}
			if !want[at] {
				fail(key+":target", "%s arrives at %s, want one of %s", who, at, keysOf(want))
			}
		}
	}
	// the handlers set on importing instances
	set := map[string]*ai.Event{}
	for _, e := range st.Events {
		if e.Kind != "op" || !strings.HasPrefix(e.Name, "set:") {
			continue
		}
		kind := int64(0)
		fmt.Sscanf(e.Name, "set:%d", &kind)
		found := false
		for i, mo := range mods {
			if e.Args[0].VKey() != h.insts[i].VKey() {
				continue
			}
			for _, op := range mo.ops {
				if op.imp && e.Args[1].VKey() == ai.IntAtom(op.index, h.idxT).VKey() {
					found = true
					if op.kind != kind {
						fail("set:kind", "%s is set up as a %s", op, h.kinds()[kind-1])
					}
					set[fmt.Sprintf("%d/%s", i, op.index)] = e
				}
			}
		}
		if !found {
			fail("set:slot", "a handler is set under an index that is no import of the instance")
		}
	}
	for i, mo := range mods {
		if cur[mo.file] != i {
			continue
		}
		for _, op := range mo.ops {
			if !op.imp {
				continue
			}
			e := set[fmt.Sprintf("%d/%s", i, op.index)]
			if e == nil {
				if len(match(op.key())) > 0 {
					fail("import:unlinked", "%s is not linked although its operation is exported", op)
				}
				continue
			}
			if !ever(op.key()) {
				fail("import:wrong", "%s is linked although nothing exports it", op)
				continue
			}
			f := e.Args[2]
			judge("import", "a call of "+op.String(), op.key(), op.kind, h.calls(st, func(s *ai.State, ctx, p, in ai.Value) []ai.Outcome {
				args := []ai.Value{ctx, p}
				if op.kind == 4 {
					args = append(args, in)
				}
				return h.in.CallValue(s, f, args)
			}, small))
		}
	}
	// requests made through the mesh
	for _, mo := range mods {
		for _, op := range mo.ops {
			for kind := int64(1); kind <= 4; kind++ {
				kind := kind
				fn := h.w.method(pMesh, "Mesh", h.kinds()[kind-1])
				q := op
				q.kind = kind
				judge("mesh", "a "+h.kinds()[kind-1]+" made through the mesh for "+q.ns+" "+q.op, q.key(), kind, h.calls(st, func(s *ai.State, ctx, p, in ai.Value) []ai.Outcome {
					args := []ai.Value{m, ctx, ai.StrConst(q.ns), ai.StrConst(q.op), p}
					if kind == 4 {
						args = append(args, in)
					}
					return h.in.Run(s, fn, args, nil)
				}, small))
			}
		}
	}
	if !bad {
		c.ok("scenario")
	}
	c.count("scenarios", 1)
}

func c26(c *Ctx) {
	w := load(pMesh, pHost, "payload")
	in := w.interp()
	in.UnrollFork = 100000
	in.MaxSteps = 1 << 40
	in.NoConcurrent = true
	h := &meshH{c: c, w: w, in: in, opT: w.named(pOpers, "Operation")}
	fs := h.opT.Underlying().(*types.Struct)
	for i := 0; i < fs.NumFields(); i++ {
		if fs.Field(i).Name() == "Index" {
			h.idxT = fs.Field(i).Type()
		}
	}
	h.setup()
	st := ai.NewState()
	nw := w.fn(pMesh, "New")
	os := in.Run(st, nw, []ai.Value{ai.NilV{}}, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("mesh.New is not decided")
	}
	st, m := os[0].St, os[0].Ret
	st.Events = nil
	ex := func(kind int64, ns, op string) meshOp { return meshOp{kind: kind, ns: ns, op: op} }
	im := func(kind int64, ns, op string) meshOp { return meshOp{imp: true, kind: kind, ns: ns, op: op} }
	// one export and one import
	two := func(e, i meshOp, small bool) {
		h.run("pair", st, m, []meshMod{{"a", []meshOp{e}}, {"b", []meshOp{i}}}, small)
		h.run("pair", st, m, []meshMod{{"b", []meshOp{i}}, {"a", []meshOp{e}}}, small)
		h.run("pair", st, m, []meshMod{{"a", []meshOp{e, i}}}, small)
		h.run("pair", st, m, []meshMod{{"a", []meshOp{i, e}}}, small)
	}
	for k := int64(0); k <= 5; k++ {
		for k2 := int64(0); k2 <= 5; k2++ {
			for _, e := range []struct{ ns, op string }{{"n", "x"}, {"n", "y"}, {"o", "x"}, {"o", "y"}, {"x", "n"}} {
				two(ex(k, e.ns, e.op), im(k2, "n", "x"), false)
			}
		}
		two(ex(k, "n", "x"), im(k, "n", "x"), true)
	}
	// names that run together
	for _, sep := range []string{"", ".", ":", "::", "/", "|", "#", "-", "_", " ", ","} {
		two(ex(1, "n"+sep+"m", "x"), im(1, "n", "m"+sep+"x"), false)
	}
	two(ex(1, "", "x"), im(1, "x", ""), false)
	two(ex(1, "N", "x"), im(1, "n", "x"), false)
	two(ex(1, "n", "X"), im(1, "n", "x"), false)
	// three operations
	variants := []meshOp{{kind: 1, ns: "n", op: "x"}, {kind: 2, ns: "n", op: "x"}, {kind: 1, ns: "n", op: "y"}, {kind: 1, ns: "o", op: "x"}}
	for _, a := range variants {
		for _, b := range variants {
			for bits := 0; bits < 4; bits++ {
				a, b := a, b
				a.imp, b.imp = bits&1 != 0, bits&2 != 0
				third := im(1, "n", "x")
				if a.imp && b.imp {
					third = ex(1, "n", "x")
				}
				for _, p := range [][]meshOp{{a, b, third}, {a, third, b}, {third, a, b}} {
					p := func() []meshOp { return append([]meshOp(nil), p...) }
					q := p()
					h.run("triple", st, m, []meshMod{{"a", q[:1:1]}, {"b", q[1:2:2]}, {"c", q[2:3:3]}}, false)
					q = p()
					h.run("triple", st, m, []meshMod{{"a", q[:2:2]}, {"b", q[2:]}}, false)
					q = p()
					h.run("triple", st, m, []meshMod{{"a", q[:1:1]}, {"b", q[1:]}}, false)
				}
			}
		}
	}
	// loading a module again, unused and used in between
	for n := int64(0); n < 8; n++ {
		k := n%4 + 1
		h.busy = n >= 4
		e, i := ex(k, "n", "x"), im(k, "n", "x")
		if h.busy {
			two(e, i, false)
		}
		h.run("reload", st, m, []meshMod{{"a", []meshOp{e}}, {"b", []meshOp{i}}, {"a", []meshOp{e}}}, false)
		h.run("reload", st, m, []meshMod{{"b", []meshOp{i}}, {"a", []meshOp{e}}, {"a", []meshOp{e}}}, false)
		h.run("reload", st, m, []meshMod{{"a", []meshOp{e}}, {"b", []meshOp{i}}, {"b", []meshOp{i}}}, false)
		h.run("reload", st, m, []meshMod{{"a", []meshOp{e}}, {"a", []meshOp{ex(k, "n", "y"), e}}, {"b", []meshOp{i}}}, false)
		h.run("reload", st, m, []meshMod{{"a", []meshOp{e}}, {"b", []meshOp{i}}, {"a", []meshOp{ex(k, "n", "y"), e}}}, false)
	}
	c.oblSet(w, in, "mesh", "index nil slice assert panic mapwrite")
}
