package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func bigP2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// atMost bounds l by n.
func atMost(st *ai.State, l *ai.Lin, n int64) { st.AddFact(ai.Sub(ai.K(n), l)) }

// sliceOf builds an unconstrained byte slice named key.
func byteSlice(st *ai.State, key string) *ai.SliceV {
	v := st.Symbolic(key, types.NewSlice(types.Typ[types.Byte])).(*ai.SliceV)
	return v
}

// buffer allocates n bytes of unknown ("dirty") content.
func dirtyBuf(st *ai.State, key string, n *ai.Lin) *ai.SliceV {
	p := st.Alloc(nil, &ai.ArrV{Elem: types.Typ[types.Byte], N: n, Base: key}, key)
	return &ai.SliceV{Ptr: p, Off: ai.K(0), Len: n, Cap: n, Elem: types.Typ[types.Byte]}
}

func shortFn(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := ai.Name(fn)
	return strings.ReplaceAll(s, mod+"/", "")
}

func typeStr(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), mod+"/", "")
}

// oblSet folds the interpreter's safety obligations into the context. Each
// construct (kind at a source position) is one obligation; it is discharged
// when it held on every abstract path reaching it.
func (c *Ctx) oblSet(w *World, in *ai.Interp, tag string, kinds string) {
	type agg struct {
		ok  bool
		why string
		o   *ai.Obl
		n   int
	}
	m := map[string]*agg{}
	var order []string
	for _, o := range in.Obls {
		if kinds != "" && !strings.Contains(" "+kinds+" ", " "+o.Kind+" ") {
			continue
		}
		k := fmt.Sprintf("%s|%d", o.Kind, o.RPos)
		a := m[k]
		if a == nil {
			a = &agg{ok: true, o: o}
			m[k] = a
			order = append(order, k)
		}
		a.n++
		if !o.OK && a.ok {
			a.ok = false
			a.why = o.Why
			a.o = o
		}
	}
	ord := map[string]int{}
	sort.SliceStable(order, func(i, j int) bool { return m[order[i]].o.RPos < m[order[j]].o.RPos })
	for _, k := range order {
		a := m[k]
		base := fmt.Sprintf("%s:%s:%s", tag, shortFn(a.o.Root), a.o.Kind)
		ord[base]++
		key := fmt.Sprintf("%s#%d", base, ord[base])
		if a.ok {
			c.ok(key)
		} else {
			c.fail(fmt.Sprintf("%s:%s", base, reason(a.why)), "%s: %s in %s: %s", w.at(a.o.RPos), a.o.Kind, shortFn(a.o.Root), a.why)
		}
	}
	for f := range in.Funcs {
		c.Funcs[shortFn(f)] = true
	}
	for _, cut := range in.Cuts {
		c.fail("cut:"+tag+":"+cut, "analysis of %s incomplete: %s", tag, cut)
	}
}

// reason reduces an explanation to its construct part.
func reason(s string) string {
	if i := strings.Index(s, " | path:"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

func (c *Ctx) used(in *ai.Interp) {
	for f := range in.Funcs {
		c.Funcs[shortFn(f)] = true
	}
}

func retTuple(v ai.Value) []ai.Value {
	if t, ok := v.(*ai.TupleV); ok {
		return t.E
	}
	if v == nil {
		return nil
	}
	return []ai.Value{v}
}

// isNilErr: +1 surely nil, -1 surely non-nil, 0 unknown
func isNilV(st *ai.State, v ai.Value) int { return st.Eval(st.IsNil(v)) }

// symStruct is a struct value of unconstrained fields.
func symStruct(st *ai.State, key string, t types.Type) *ai.StructV {
	s := t.Underlying().(*types.Struct)
	r := &ai.StructV{}
	for i := 0; i < s.NumFields(); i++ {
		r.F = append(r.F, st.Symbolic(key+"."+s.Field(i).Name(), s.Field(i).Type()))
	}
	return r
}

func debugging() bool { return os.Getenv("VERIF_DEBUG") != "" }

// atomicOnly: a variable accessed with sync/atomic anywhere is accessed that
// way everywhere.
func atomicOnly(c *Ctx, w *World, pkgs ...string) {
	type place struct {
		t types.Type
		f int
		g *ssa.Global
	}
	at := func(v ssa.Value) (place, bool) {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			t := x.X.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				t = n.Origin()
			}
			return place{t: t, f: x.Field}, true
		case *ssa.Global:
			return place{g: x}, true
		}
		return place{}, false
	}
	atomics := map[place]string{}
	var fns []*ssa.Function
	for _, p := range pkgs {
		fns = append(fns, ai.PkgFuncs(w.Prog, w.pkg(p))...)
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && strings.HasPrefix(f.String(), "sync/atomic.") && len(ci.Common().Args) > 0 {
						if pl, ok := at(ci.Common().Args[0]); ok {
							atomics[pl] = f.Name()
							c.ok("atomic:" + shortFn(fn) + ":" + f.Name())
						}
					}
				}
			}
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var a ssa.Value
				switch x := ins.(type) {
				case *ssa.Store:
					a = x.Addr
				case *ssa.UnOp:
					if x.Op == token.MUL {
						a = x.X
					}
				}
				if a == nil {
					continue
				}
				if pl, ok := at(a); ok {
					if op, hit := atomics[pl]; hit {
						c.fail("plain:"+shortFn(fn)+":"+op, "%s: %s accesses without sync/atomic a variable that is elsewhere accessed with atomic.%s", w.at(ins.Pos()), shortFn(fn), op)
					}
				}
			}
		}
	}
}

func bigK(n int64) *big.Int { return big.NewInt(n) }
