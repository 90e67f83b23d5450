package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- quantities beyond the explored histories ------------------------------------
//
// The histories explored are short, so a test like len(queue) > 50 or
// count%64 == 0 would always go the same way. With Interp.Far such a test of a
// quantity that grows with the history - the length of a channel, map or slice
// of other than bytes, an atomic counter, an integer field - against a constant
// no explored history reaches is followed both ways.

const (
	farMin = 8
	farMax = 1 << 26
)

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func byteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// quantity reports whether v grows with the history; rem is the largest
// constant it is reduced by.
func quantity(v ssa.Value, depth int) (q bool, rem int64) {
	if depth > 6 {
		return false, 0
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return quantity(x.X, depth+1)
	case *ssa.ChangeType:
		return quantity(x.X, depth+1)
	case *ssa.BinOp:
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, ok := constInt(p[1])
			if !ok {
				continue
			}
			q, r := quantity(p[0], depth+1)
			if !q {
				continue
			}
			switch x.Op {
			case token.REM, token.AND, token.QUO:
				if k > r {
					r = k
				}
			case token.SHR:
				if k > 2 && k < 30 && int64(1)<<uint(k) > r {
					r = 1 << uint(k)
				}
			}
			return true, r
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			switch t := x.Call.Args[0].Type().Underlying().(type) {
			case *types.Chan, *types.Map:
				return true, 0
			case *types.Slice:
				return !byteElem(t.Elem()), 0
			}
			return false, 0
		}
		if f := x.Call.StaticCallee(); f != nil {
			n := f.RelString(nil)
			if o := f.Origin(); o != nil {
				n = o.RelString(nil)
			}
			return strings.Contains(n, "sync/atomic.") && (strings.HasPrefix(f.Name(), "Load") || strings.HasPrefix(f.Name(), "Add")), 0
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false, 0
		}
		b, ok := x.Type().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || b.Kind() == types.Uint8 {
			return false, 0
		}
		_, ok = x.X.(*ssa.FieldAddr)
		return ok, 0
	}
	return false, 0
}

func (in *Interp) farTest(x *ssa.BinOp) bool {
	if r, ok := in.farC[x]; ok {
		return r
	}
	r := false
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, ok := constInt(p[1])
			if !ok {
				continue
			}
			q, rem := quantity(p[0], 0)
			if q && (k >= farMin && k <= farMax || rem >= farMin && rem <= farMax) {
				r = true
			}
		}
	}
	if in.farC == nil {
		in.farC = map[*ssa.BinOp]bool{}
	}
	in.farC[x] = r
	return r
}

// far follows a decided test of a growing quantity both ways.
func (in *Interp) far(st *State, x *ssa.BinOp, v Value) Value {
	if !in.Far || !in.farTest(x) {
		return v
	}
	b, ok := v.(*BoolV)
	if !ok || st.Eval(b) == 0 {
		return v
	}
	return BAtom(fmt.Sprintf("far#%d", st.nextSeq()))
}

// farConv: a growing quantity cut to 16 bits or fewer is any number.
func (in *Interp) farConv(st *State, x *ssa.Convert, v Value) Value {
	if !in.Far {
		return v
	}
	w, _, ok := intType(x.Type())
	if !ok || w > 16 {
		return v
	}
	if q, _ := quantity(x.X, 0); !q {
		return v
	}
	if _, ok := x.X.(*ssa.Call); !ok {
		return v
	}
	return st.Symbolic(fmt.Sprintf("farcut#%d", st.nextSeq()), x.Type())
}
