package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

func init() {
	register(check{"C14", "The stream table is consistent under concurrent use",
		"every sequence of Add and Remove over three streams with symbolic ids is interpreted on a zero table and the answers of Get, Size and IsEmpty are compared with the set of added streams; every access to table memory is made under one common lock, in one critical section per call",
		2000, c14})
	register(check{"C21", "The unbounded queue loses, duplicates and reorders nothing",
		"every sequence of Put, receive, Load and Dispose is interpreted on a fresh buffer with an exact channel model and compared with a FIFO; all memory of the buffer is accessed under one lock",
		4000, c21})
	register(check{"C30", "Locks are released on every path and never taken twice",
		"in every function of the module that locks or unlocks, every abstract path to a return or panic ends with the locks it started with, and no path locks a held mutex or unlocks one that is not held",
		30, c30})
	register(check{"C35", "Mutex-guarded state is only touched under its mutex",
		"lockset: for every type and package of the module that has a mutex, each location that is written after construction has a mutex common to all its accesses on all abstract paths",
		10, c35})
}

// ---- locksets -----------------------------------------------------------------

type locAcc struct {
	write bool
	locks map[string]bool // key -> read lock only
	at    string
	fn    *ssa.Function
}

type lockset struct {
	w    *World
	accs map[string][]locAcc
	// start is the first object id that counts as created by the call
	start int
	base  int // events before the call
	// typed names locks by type and field instead of by object
	typed bool
	skip  func(p *ai.PtrV) bool
}

func newLockset(w *World) *lockset { return &lockset{w: w, accs: map[string][]locAcc{}} }

func selPath(t types.Type, path []ai.Sel) string {
	s := ""
	for _, x := range path {
		if x.Idx != nil {
			s += "[]"
			if t != nil {
				switch u := t.Underlying().(type) {
				case *types.Array:
					t = u.Elem()
				case *types.Slice:
					t = u.Elem()
				default:
					t = nil
				}
			}
			continue
		}
		if t != nil {
			if st, ok := t.Underlying().(*types.Struct); ok && x.Field < st.NumFields() {
				s += "." + st.Field(x.Field).Name()
				t = st.Field(x.Field).Type()
				continue
			}
			t = nil
		}
		s += fmt.Sprintf(".%d", x.Field)
	}
	return s
}

// class names a location by the type of its object and its field path.
func (ls *lockset) class(st *ai.State, p *ai.PtrV) string {
	h := st.Obj(p.Obj)
	if h == nil {
		return ""
	}
	t := h.T
	if t == nil {
		if o, ok := h.V.(*ai.OpaqueV); ok {
			t = o.T
		}
	}
	cls := h.Label
	switch x := h.V.(type) {
	case *ai.ArrV:
		if t == nil && x.Elem != nil {
			cls = "[]" + typeStr(x.Elem)
		}
	case *ai.MapObj:
		if t == nil {
			cls = "map"
		}
	}
	if strings.HasPrefix(h.Label, "global:") {
		cls = strings.ReplaceAll(h.Label[7:], mod+"/", "")
	} else if t != nil {
		cls = typeStr(t)
	}
	return cls + selPath(t, p.Path)
}

func (ls *lockset) hook(st *ai.State, fn *ssa.Function, p *ai.PtrV, write bool, pos token.Pos, instr ssa.Instruction) {
	if !(p.Obj < ls.start || st.IsSym(p.Obj)) || ls.skip != nil && ls.skip(p) {
		return
	}
	cls := ls.class(st, p)
	if cls == "" {
		return
	}
	a := locAcc{write: write, locks: map[string]bool{}, at: ls.w.at(pos), fn: fn}
	for _, l := range st.Locks {
		k := l.Key
		if ls.typed {
			if q, ok := l.Ptr.(*ai.PtrV); ok {
				k = ls.class(st, q)
			}
		}
		a.locks[k] = l.Read
	}
	ls.accs[cls] = append(ls.accs[cls], a)
}

// stateful library types that must not be used by two goroutines at once
var notThreadSafe = map[string]bool{
	"*math/rand.Rand": true, "*bufio.Writer": true, "*bufio.Reader": true, "*bufio.Scanner": true, "*bytes.Buffer": true,
}

// unsafeCall counts a method call on a package-level library object as a write
// of that object.
func (ls *lockset) unsafeCall(e *ai.Event) {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok || ci.Common().IsInvoke() || len(ci.Common().Args) == 0 {
		return
	}
	r := ci.Common().Args[0]
	ld, ok := r.(*ssa.UnOp)
	if !ok || !notThreadSafe[types.TypeString(r.Type(), nil)] {
		return
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok || e.St == nil {
		return
	}
	a := locAcc{write: true, locks: map[string]bool{}, at: ls.w.at(e.Pos), fn: e.In}
	for _, l := range e.St.Locks {
		k := l.Key
		if q, ok := l.Ptr.(*ai.PtrV); ok {
			k = ls.class(e.St, q)
		}
		a.locks[k] = l.Read
	}
	k := "*" + strings.ReplaceAll(g.String(), mod+"/", "")
	ls.accs[k] = append(ls.accs[k], a)
}

func walkEvents(es []*ai.Event, f func(*ai.Event)) {
	for _, e := range es {
		f(e)
		for _, s := range e.Sub {
			walkEvents(s, f)
		}
	}
}

// judge reports the locations without a common lock.
func (ls *lockset) judge(c *Ctx, tag string) {
	var cs []string
	for k := range ls.accs {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	for _, k := range cs {
		as := ls.accs[k]
		written := false
		common := map[string]bool{}
		for i, a := range as {
			written = written || a.write
			if i == 0 {
				for l, r := range a.locks {
					if !(a.write && r) {
						common[l] = true
					}
				}
				continue
			}
			for l := range common {
				r, ok := a.locks[l]
				if !ok || a.write && r {
					delete(common, l)
				}
			}
		}
		if !written {
			c.count("read-only locations", 1)
			continue
		}
		bad := ""
		if len(common) == 0 {
			for _, a := range as {
				if len(a.locks) == 0 {
					bad = fmt.Sprintf("%s accesses it at %s without any lock", shortFn(a.fn), a.at)
					break
				}
			}
			if bad == "" {
				bad = fmt.Sprintf("no lock is common to its %d accesses", len(as))
			}
		}
		c.check(bad == "", tag+":guard:"+k, "%s is shared and written, but %s", k, bad)
	}
}

// ---- C14 ----------------------------------------------------------------------

func c14(c *Ctx) {
	w := load("proxy")
	tt := w.named("proxy", "Lookup")
	get := w.method("proxy", "Lookup", "Get")
	add := w.method("proxy", "Lookup", "Add")
	rem := w.method("proxy", "Lookup", "Remove")
	size := w.method("proxy", "Lookup", "Size")
	empty := w.method("proxy", "Lookup", "IsEmpty")
	streamT := w.named("proxy", "Stream")
	depth := 5
	if c.Tier == "thorough" {
		depth = 7
	}
	ls := newLockset(w)
	idSets := [][]int64{{0, 2, 1 << 16}, {0, 1 << 24, 1<<24 + 2}}
	for si, set := range idSets {
		in := w.interp()
		in.Far = true
		in.UnrollFork = 64
		ids := map[string]*ai.Lin{}
		st := ai.NewState()
		base := ai.IntAtom("id", types.Typ[types.Uint32])
		atMost(st, base, 1<<31-1-1<<25)
		st.AddFact(ai.AddK(base, -1))
		var streams []ai.Value
		for i, d := range set {
			k := fmt.Sprintf("s%d", i)
			streams = append(streams, &ai.OpaqueV{Key: k, T: streamT})
			st.SetBool("isnil("+k+")", false)
			ids[k] = ai.AddK(base, d)
		}
		in.OpaqueCB = func(cc *ai.CallCtx, m *types.Func) ([]ai.Outcome, bool) {
			if m != nil && m.Name() == "StreamID" {
				if o, ok := cc.Args[0].(*ai.OpaqueV); ok && ids[o.Key] != nil {
					return cc.Return(ids[o.Key])
				}
			}
			return nil, false
		}
		in.OnAccess = ls.hook
		tab := st.Alloc(tt, st.Zero(tt), "table")
		absent := ai.AddK(base, set[1]+1)
		call := func(st *ai.State, fn *ssa.Function, hist string, args ...ai.Value) (*ai.State, []ai.Value) {
			ls.start, ls.base = st.NextObj(), 0
			st.Events = nil
			n := len(in.Obls)
			os := in.Run(st, fn, append([]ai.Value{tab}, args...), nil)
			for _, o := range in.Obls[n:] {
				if !o.OK {
					c.fail("history:"+shortFn(o.Root)+":"+o.Kind, "%s: %s in %s after %s: %s", w.at(o.RPos), o.Kind, shortFn(o.Root), hist, o.Why)
				}
			}
			if len(os) != 1 || os[0].Kind != ai.Ret {
				why := fmt.Sprintf("%d outcomes", len(os))
				for _, o := range os {
					if o.Kind != ai.Ret {
						why = o.Why
					}
				}
				c.fail("history:decided:"+shortFn(fn), "the effect of %s after %s is not decided: %s", shortFn(fn), hist, why)
				return nil, nil
			}
			c.Paths++
			if len(os[0].St.Locks) > 0 {
				c.fail("history:unlocked:"+shortFn(fn), "%s returns holding the table's lock after %s", shortFn(fn), hist)
			}
			c.check(oneSection(os[0].St), "section:"+shortFn(fn), "%s gives up the table's lock between what it reads and what it writes (after %s)", shortFn(fn), hist)
			return os[0].St, retTuple(os[0].Ret)
		}
		seen := map[string]int{}
		var dfs func(st *ai.State, in3 [3]bool, n int, hist string)
		check := func(st *ai.State, in3 [3]bool, hist string) {
			cnt := int64(0)
			for i := range set {
				if in3[i] {
					cnt++
				}
				s2, r := call(st.Fork(), get, hist, ids[fmt.Sprintf("s%d", i)])
				if s2 == nil {
					return
				}
				ok, _ := r[1].(*ai.BoolV)
				e := 0
				if ok != nil {
					e = s2.Eval(ok)
				}
				if in3[i] {
					if !c.check(e > 0 && r[0].VKey() == streams[i].VKey(), "get:present", "after %s, Get(s%d) returns %s, %s", hist, i, r[0].VKey(), r[1].VKey()) {
						return
					}
				} else if !c.check(e < 0, "get:absent", "after %s, Get(s%d) returns %s, %s", hist, i, r[0].VKey(), r[1].VKey()) {
					return
				}
			}
			if s2, r := call(st.Fork(), get, hist, absent); s2 != nil {
				b, _ := r[1].(*ai.BoolV)
				c.check(b != nil && s2.Eval(b) < 0, "get:never-added", "after %s, Get of an id never added returns %s", hist, r[1].VKey())
			}
			if s2, r := call(st.Fork(), size, hist); s2 != nil {
				l, _ := r[0].(*ai.Lin)
				c.check(l != nil && s2.ProveEQ(ai.AddK(l, -cnt)), "size", "after %s, Size is %s", hist, r[0].VKey())
			}
			if s2, r := call(st.Fork(), empty, hist); s2 != nil {
				b, _ := r[0].(*ai.BoolV)
				c.check(b != nil && (s2.Eval(b) > 0) == (cnt == 0) && s2.Eval(b) != 0, "empty", "after %s, IsEmpty is %s", hist, r[0].VKey())
			}
		}
		dfs = func(st *ai.State, in3 [3]bool, n int, hist string) {
			if len(c.fails) > 30 {
				return
			}
			check(st, in3, hist)
			if n == depth {
				return
			}
			for i := 0; i < 4; i++ {
				s := st.Fork()
				nx := in3
				var h string
				switch {
				case i == 3:
					h = hist + " Remove(absent)"
					s, _ = call(s, rem, h, absent)
				case in3[i]:
					h = fmt.Sprintf("%s Remove(s%d)", hist, i)
					nx[i] = false
					s, _ = call(s, rem, h, ids[fmt.Sprintf("s%d", i)])
				default:
					h = fmt.Sprintf("%s Add(s%d)", hist, i)
					nx[i] = true
					s, _ = call(s, add, h, streams[i])
				}
				if s == nil {
					continue
				}
				seen[h]++
				dfs(s, nx, n+1, h)
			}
			if n+2 > depth {
				return
			}
			// Looking something up may change what later operations see.
			for i := 0; i < 6; i++ {
				if strings.Contains(hist, "Get") && c.Tier != "thorough" {
					break
				}
				var s *ai.State
				h := hist
				switch i {
				case 3:
					h += " Get(absent)"
					s, _ = call(st.Fork(), get, h, absent)
				case 4:
					h += " Get,Size"
					s, _ = call(st.Fork(), size, h)
				case 5:
					h += " Get,IsEmpty"
					s, _ = call(st.Fork(), empty, h)
				default:
					h += fmt.Sprintf(" Get(s%d)", i)
					s, _ = call(st.Fork(), get, h, ids[fmt.Sprintf("s%d", i)])
				}
				if s != nil {
					seen[h]++
					dfs(s, in3, n+1, h)
				}
			}
		}
		dfs(st, [3]bool{}, 0, fmt.Sprintf("[set %d]", si))
		c.count("histories", len(seen))
		c.used(in)
		for _, cut := range in.Cuts {
			c.fail("cut:"+cut, "analysis incomplete: %s", cut)
		}
	}
	ls.judge(c, "lookup")
}

// oneSection: every lock is acquired at most once on the path.
func oneSection(st *ai.State) bool {
	n := map[string]int{}
	for _, e := range st.Events {
		if e.Kind == "lock" {
			n[e.Recv.VKey()]++
			if n[e.Recv.VKey()] > 1 {
				return false
			}
		}
	}
	return true
}

// ---- C21 ----------------------------------------------------------------------

type qModel struct {
	pend     []int // put, not yet received
	next     int
	disposed bool
}

func c21(c *Ctx) {
	w := load("internal/buffer", "transport/rsocket")
	var ctor *ssa.Function
	for fn := range ssautil.AllFunctions(w.Prog) {
		if o := fn.Origin(); o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == mod+"/internal/buffer" && o.Name() == "NewUnbounded" {
			if ctor == nil || fn.String() < ctor.String() {
				ctor = fn
			}
		}
	}
	if ctor == nil {
		failf("unresolved anchor: no instance of buffer.NewUnbounded")
	}
	bt := ctor.Signature.Results().At(0).Type()
	meth := func(n string) *ssa.Function {
		f := w.methodOf(bt, n)
		if f == nil {
			failf("unresolved anchor: method Unbounded.%s", n)
		}
		return f
	}
	put, ld, get, disp := meth("Put"), meth("Load"), meth("Get"), meth("Dispose")
	et := put.Signature.Params().At(0).Type()
	depth := 6
	if c.Tier == "thorough" {
		depth = 8
	}
	in := w.interp()
	in.ChanModel = true
	in.Far = true
	ls := newLockset(w)
	in.OnAccess = ls.hook
	st0 := ai.NewState()
	os := in.Run(st0, ctor, nil, nil)
	if len(os) != 1 || os[0].Kind != ai.Ret {
		failf("buffer.NewUnbounded does not return")
	}
	st0 = os[0].St
	buf := os[0].Ret
	bp, _ := buf.(*ai.PtrV)
	if bp == nil {
		failf("buffer.NewUnbounded does not return a fresh buffer")
	}
	val := func(i int) ai.Value { return &ai.OpaqueV{Key: fmt.Sprintf("v%d", i), T: et} }
	for i := 0; i < 16; i++ {
		st0.SetBool(fmt.Sprintf("isnil(v%d)", i), false)
	}
	call := func(st *ai.State, fn *ssa.Function, hist string, args ...ai.Value) (*ai.State, []ai.Value) {
		ls.start, ls.base = st.NextObj(), 0
		st.Events = nil
		n := len(in.Obls)
		os := in.Run(st, fn, append([]ai.Value{buf}, args...), nil)
		for _, o := range in.Obls[n:] {
			if !o.OK {
				c.fail("history:"+shortFn(o.Root)+":"+o.Kind, "%s: %s in %s after%s: %s", w.at(o.RPos), o.Kind, shortFn(o.Root), hist, o.Why)
			}
		}
		if len(os) != 1 || os[0].Kind != ai.Ret {
			why := fmt.Sprintf("%d outcomes", len(os))
			for _, o := range os {
				if o.Kind != ai.Ret {
					why = o.Why
				}
			}
			c.fail("history:decided:"+shortFn(fn), "%s after%s: %s", shortFn(fn), hist, why)
			return nil, nil
		}
		c.Paths++
		if len(os[0].St.Locks) > 0 {
			c.fail("history:unlocked:"+shortFn(fn), "%s returns holding a lock after%s", shortFn(fn), hist)
		}
		c.check(oneSection(os[0].St), "section:"+shortFn(fn), "%s gives up the lock half way (after%s)", shortFn(fn), hist)
		return os[0].St, retTuple(os[0].Ret)
	}
	chanOf := func(st *ai.State, hist string) (*ai.ChanObj, *ai.PtrV) {
		s, r := call(st.Fork(), get, hist)
		if s == nil || len(r) != 1 {
			return nil, nil
		}
		ch, p := st.Chan(r[0])
		if ch == nil {
			c.fail("channel", "Get does not return the buffer's channel after%s", hist)
		}
		return ch, p
	}
	nh := 0
	var inv func(st *ai.State, m qModel, hist string) bool
	inv = func(st *ai.State, m qModel, hist string) bool {
		ch, _ := chanOf(st, hist)
		if ch == nil {
			return false
		}
		ok := c.check(len(ch.Buf) <= 1 && ch.Cap == 1, "in-flight", "%d values are in flight after%s", len(ch.Buf), hist)
		ok = c.check(len(ch.Buf) <= len(m.pend), "duplicate", "a value is offered again after%s", hist) && ok
		if len(ch.Buf) > 0 && len(m.pend) > 0 {
			ok = c.check(ch.Buf[0].VKey() == val(m.pend[0]).VKey(), "order", "after%s the value offered is %s, not v%d", hist, ch.Buf[0].VKey(), m.pend[0]) && ok
		}
		if ch.Closed {
			ok = c.check(m.disposed && len(m.pend) == len(ch.Buf), "early-close", "the channel is closed after%s while %d values wait or it is not disposed", hist, len(m.pend)) && ok
		}
		return ok
	}
	recv := func(st *ai.State, m *qModel, hist string) (*ai.State, bool) {
		ch, p := chanOf(st, hist)
		if ch == nil {
			return st, false
		}
		v, open, ok := st.ChanRecv(p, ch, ai.NilV{})
		if !ok || !open {
			return st, false
		}
		if !c.check(len(m.pend) > 0 && v.VKey() == val(m.pend[0]).VKey(), "delivery", "after%s the consumer receives %s", hist, v.VKey()) {
			return st, false
		}
		m.pend = m.pend[1:]
		return st, true
	}
	drain := func(st *ai.State, m qModel, hist string) {
		st = st.Fork()
		for i := 0; i < 12; i++ {
			var r []ai.Value
			st, r = call(st, ld, hist+" Load")
			if st == nil {
				return
			}
			hist += " Load"
			if len(m.pend) == 0 {
				n, _ := r[0].(*ai.Lin)
				ch, _ := chanOf(st, hist)
				if ch == nil {
					return
				}
				if m.disposed {
					c.check(ch.Closed, "closed-after-drain", "a disposed buffer is not closed once drained, after%s", hist)
					c.check(n != nil && st.ProveEQ(ai.AddK(n, 1)), "load-disposed", "Load reports %s on a drained, disposed buffer", r[0].VKey())
				} else {
					c.check(n != nil && st.ProveEQ(n), "load-empty", "Load reports %s on an empty buffer", r[0].VKey())
				}
				return
			}
			var ok bool
			before := len(m.pend)
			st, ok = recv(st, &m, hist)
			hist += " Recv"
			if !c.check(ok && len(m.pend) == before-1, "lost", "after%s nothing is offered although %d values wait", hist, before) {
				return
			}
		}
	}
	var dfs func(st *ai.State, m qModel, n int, hist string)
	dfs = func(st *ai.State, m qModel, n int, hist string) {
		if len(c.fails) > 20 {
			return
		}
		nh++
		if !inv(st, m, hist) {
			return
		}
		drain(st, m, hist)
		if n == depth {
			return
		}
		cp := func() qModel { x := m; x.pend = append([]int(nil), m.pend...); return x }
		{ // Put
			x := cp()
			h := hist + " Put"
			ch0, _ := chanOf(st, h)
			s, r := call(st.Fork(), put, h, val(x.next))
			if s != nil && ch0 != nil {
				b, _ := r[0].(*ai.BoolV)
				if x.disposed {
					c.check(b != nil && s.Eval(b) < 0, "put-disposed", "Put reports success on a disposed buffer after%s", h)
				} else {
					c.check(b != nil && s.Eval(b) > 0, "put", "Put reports failure after%s", h)
					x.pend = append(x.pend, x.next)
					ch, _ := chanOf(s, h)
					if ch != nil && len(x.pend) == 1 {
						c.check(len(ch.Buf) == 1, "offer", "a value put into an empty buffer is not offered after%s", h)
					}
				}
				x.next++
				dfs(s, x, n+1, h)
			}
		}
		{ // receive
			x := cp()
			h := hist + " Recv"
			if s, ok := recv(st.Fork(), &x, h); ok {
				dfs(s, x, n+1, h)
			}
		}
		{ // Load
			h := hist + " Load"
			ch0, _ := chanOf(st, h)
			s, r := call(st.Fork(), ld, h)
			if s != nil && ch0 != nil {
				ch, _ := chanOf(s, h)
				l, _ := r[0].(*ai.Lin)
				if ch != nil && l != nil {
					want := int64(len(ch.Buf) - len(ch0.Buf))
					if m.disposed && len(m.pend) == len(ch0.Buf) {
						want = -1
						c.check(ch.Closed, "close", "a disposed buffer without backlog is not closed by Load after%s", h)
					}
					c.check(s.ProveEQ(ai.AddK(l, -want)), "load-result", "Load returns %s after%s, %d expected", l, h, want)
				} else {
					c.fail("load-result", "Load's result is not decided after%s", h)
				}
				dfs(s, cp(), n+1, h)
			}
		}
		{ // Dispose
			x := cp()
			h := hist + " Dispose"
			s, _ := call(st.Fork(), disp, h)
			if s != nil {
				x.disposed = true
				if ch, _ := chanOf(s, h); ch != nil && len(x.pend) == len(ch.Buf) {
					c.check(ch.Closed, "dispose-close", "a disposed buffer without backlog is not closed after%s", h)
				}
				dfs(s, x, n+1, h)
			}
		}
	}
	ls.skip = func(p *ai.PtrV) bool {
		if _, ok := os[0].St.Load(&ai.PtrV{Obj: p.Obj}).(*ai.ChanObj); ok {
			return true
		}
		return false
	}
	dfs(st0, qModel{}, 0, "")
	c.count("histories", nh)
	c.used(in)
	for _, cut := range in.Cuts {
		c.fail("cut:"+cut, "analysis incomplete: %s", cut)
	}
	ls.judge(c, "unbounded")
}

// ---- C30 ----------------------------------------------------------------------

var lockOps = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.Mutex).TryLock": true,
	"(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"(sync.Locker).Lock": true, "(sync.Locker).Unlock": true,
}

// moduleFuncs lists every function of the module with a body, closures and
// generic instances included, origins of generics excluded.
func moduleFuncs(w *World) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	take := func(fn *ssa.Function) {
		if fn == nil || seen[fn] || len(fn.Blocks) == 0 || !strings.HasPrefix(ai.PkgPath(fn), mod) || fn.Synthetic != "" && fn.Origin() == nil {
			return
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if len(w.instances()[root]) > 0 { // judged through its instances
			return
		}
		seen[fn] = true
		r = append(r, fn)
	}
	for fn := range ssautil.AllFunctions(w.Prog) {
		take(fn)
	}
	for p, sp := range w.SSA {
		if strings.HasPrefix(p, mod) {
			for _, fn := range ai.PkgFuncs(w.Prog, sp) {
				take(fn)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if a, b := r[i].String(), r[j].String(); a != b {
			return a < b
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

var instCache map[*ssa.Function][]*ssa.Function

func (w *World) instances() map[*ssa.Function][]*ssa.Function {
	if instCache == nil {
		instCache = map[*ssa.Function][]*ssa.Function{}
		for fn := range ssautil.AllFunctions(w.Prog) {
			if o := fn.Origin(); o != nil && o != fn {
				instCache[o] = append(instCache[o], fn)
			}
		}
	}
	return instCache
}

func calleesOf(fn *ssa.Function) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				r = append(r, c)
			}
		}
	}
	return r
}

func callName(ci ssa.CallInstruction) string {
	cm := ci.Common()
	if cm.IsInvoke() {
		return cm.Method.FullName()
	}
	if f := cm.StaticCallee(); f != nil {
		return ai.Name(f)
	}
	return ""
}

// loadAll loads every package of the module and its nested modules except the
// examples (one of which does not compile).
func loadAll() *World {
	var pats []string
	for _, p := range listPackages("./...", mod+"/types/uuid/...", mod+"/transport/wasmrs/cmd/wasmrs/...") {
		if !strings.Contains(p, "/example") && !strings.HasSuffix(p, "/testing") {
			pats = append(pats, p)
		}
	}
	return load(pats...)
}

func symArgs(st *ai.State, fn *ssa.Function) (args, free []ai.Value) {
	for i, p := range fn.Params {
		v := st.Symbolic(fmt.Sprintf("arg.%s", p.Name()), p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if o, ok := v.(*ai.OpaqueV); ok {
				st.SetBool("isnil("+o.Key+")", false)
			}
		}
		args = append(args, v)
	}
	for _, p := range fn.FreeVars {
		v := st.Symbolic("free."+p.Name(), p.Type())
		if o, ok := v.(*ai.OpaqueV); ok {
			st.SetBool("isnil("+o.Key+")", false) // captured variables exist
		}
		free = append(free, v)
	}
	return
}

func c30(c *Ctx) {
	w := loadAll()
	fns := moduleFuncs(w)
	callers := map[*ssa.Function][]*ssa.Function{}
	isRoot := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, ci := range calleesOf(fn) {
			if lockOps[callName(ci)] {
				isRoot[fn] = true
			}
			if f := ci.Common().StaticCallee(); f != nil {
				callers[f] = append(callers[f], fn)
			}
		}
	}
	var work []*ssa.Function
	for _, fn := range fns {
		if isRoot[fn] {
			work = append(work, fn)
		}
	}
	sites := 0
	for _, fn := range work {
		for _, ci := range calleesOf(fn) {
			if lockOps[callName(ci)] {
				sites++
			}
		}
	}
	c.count("lock operations", sites)
	done := map[*ssa.Function]bool{}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if done[fn] {
			continue
		}
		done[fn] = true
		in := w.interp()
		in.MaxSteps = 400000
		st := ai.NewState()
		args, free := symArgs(st, fn)
		os := in.Run(st, fn, args, free)
		name := shortFn(fn)
		var bad []string
		for _, o := range os {
			c.Paths++
			if o.Kind == ai.Cut {
				bad = append(bad, "undecided: "+o.Why)
			}
			for _, l := range o.St.Locks {
				how := "returns"
				if o.Kind == ai.Panic {
					how = "panics"
				}
				bad = append(bad, fmt.Sprintf("%s holding the lock taken at %s", how, w.at(l.Pos)))
			}
		}
		for _, o := range in.Obls {
			if !o.OK && (o.Kind == "relock" || o.Kind == "unlock" || o.Kind == "lock-balance" || o.Kind == "block") {
				bad = append(bad, o.Kind+" at "+w.at(o.RPos)+": "+reason(o.Why))
			}
		}
		for _, cut := range in.Cuts {
			bad = append(bad, "analysis incomplete: "+cut)
		}
		// a lock helper is judged through its callers
		if len(bad) > 0 && len(callers[fn]) > 0 && fn.Object() != nil && !fn.Object().Exported() {
			c.count("helpers judged through callers", 1)
			for _, k := range callers[fn] {
				work = append(work, k)
			}
			c.used(in)
			continue
		}
		c.check(len(bad) == 0, "balance:"+name, "%s %s", name, strings.Join(bad, "; "))
		for _, l := range []string{"lock", "unlock"} {
			for _, o := range os {
				for _, e := range o.St.Events {
					if e.Kind == l {
						c.ok(l + ":" + name)
					}
				}
			}
		}
		c.used(in)
	}
	c.check(sites >= 20, "sites", "only %d lock operations found in the module", sites)
}

func c35(c *Ctx) {
	w := loadAll()
	pkgs := map[*ssa.Package][]*ssa.Function{}
	locking := map[*ssa.Package]bool{}
	staticCalled := map[*ssa.Function]bool{}
	pkgOf := func(fn *ssa.Function) *ssa.Package {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if o := fn.Origin(); o != nil {
			fn = o
		}
		return fn.Pkg
	}
	for _, fn := range moduleFuncs(w) {
		p := pkgOf(fn)
		if p == nil {
			continue
		}
		pkgs[p] = append(pkgs[p], fn)
		for _, ci := range calleesOf(fn) {
			if lockOps[callName(ci)] {
				locking[p] = true
			}
			if _, isGo := ci.(*ssa.Go); !isGo {
				if f := ci.Common().StaticCallee(); f != nil {
					staticCalled[f] = true
				}
			}
		}
	}
	var order []*ssa.Package
	for p := range locking {
		order = append(order, p)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Pkg.Path() < order[j].Pkg.Path() })
	judged := 0
	for _, p := range order {
		pp := strings.TrimPrefix(p.Pkg.Path(), mod+"/")
		ls := newLockset(w)
		ls.typed = true
		roots := 0
		for _, fn := range pkgs[p] {
			// unexported functions are judged inside their callers
			if staticCalled[fn] && (fn.Object() == nil || !fn.Object().Exported()) || fn.Name() == "init" {
				continue
			}
			roots++
			in := w.interp()
			in.MaxSteps = 400000
			in.OnAccess = func(st *ai.State, f *ssa.Function, q *ai.PtrV, write bool, pos token.Pos, instr ssa.Instruction) {
				if pkgOf(f) == p {
					ls.hook(st, f, q, write, pos, instr)
				}
			}
			st := ai.NewState()
			args, free := symArgs(st, fn)
			ls.start = st.NextObj()
			for _, o := range in.Run(st, fn, args, free) {
				walkEvents(o.St.Events, func(e *ai.Event) {
					if e.Kind == "call" {
						ls.unsafeCall(e)
					}
				})
			}
			c.used(in)
			c.Paths++
		}
		c.count("entry points", roots)
		// keep what a mutex of this package is meant to guard: locations written
		// under a lock, and fields of a struct that holds the lock they are
		// accessed under
		for k, as := range ls.accs {
			guarded := false
			for _, a := range as {
				for l := range a.locks {
					base := l
					if i := strings.LastIndex(base, "."); i > strings.LastIndex(base, "/") {
						base = base[:i]
					}
					owner := strings.Contains(base[strings.LastIndex(base, "/")+1:], ".")
					if a.write || owner && strings.HasPrefix(k, base+".") {
						guarded = true
					}
				}
			}
			if !guarded || strings.HasPrefix(k, "rx/") {
				delete(ls.accs, k)
			}
		}
		judged += len(ls.accs)
		ls.judge(c, pp)
	}
	c.count("guarded locations", judged)
	for k, n := range map[string]int{"locking packages": len(order)} {
		c.count(k, n)
	}
	c.check(judged >= 10, "locations", "only %d guarded locations found", judged)
}
