package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{ VKey() string }

func (l *Lin) VKey() string { return l.Key() }

// BoolV is a three-valued boolean: a constant, an atom or a comparison.
type BoolV struct {
	Kind string // "const","atom","ge0","eq0"
	B    bool
	Atom string
	L    *Lin
	Neg  bool
}

func BConst(b bool) *BoolV  { return &BoolV{Kind: "const", B: b} }
func BAtom(k string) *BoolV { return &BoolV{Kind: "atom", Atom: k} }
func BGE(l *Lin) *BoolV     { return &BoolV{Kind: "ge0", L: l} }
func BEQ(l *Lin) *BoolV     { return &BoolV{Kind: "eq0", L: l} }
func (b *BoolV) Not() *BoolV {
	c := *b
	if b.Kind == "const" {
		c.B = !b.B
	} else {
		c.Neg = !b.Neg
	}
	return &c
}
func (b *BoolV) VKey() string {
	s := ""
	if b.Neg {
		s = "!"
	}
	switch b.Kind {
	case "const":
		return fmt.Sprint(b.B)
	case "atom":
		return s + "?" + b.Atom
	default:
		return s + b.Kind + "(" + b.L.Key() + ")"
	}
}

type NilV struct{}

func (NilV) VKey() string { return "nil" }

// Sel is one step of a pointer path.
type Sel struct {
	Field int
	Idx   *Lin // non-nil for array element
}

type PtrV struct {
	Obj  int
	Path []Sel
}

func (p *PtrV) VKey() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "&o%d", p.Obj)
	for _, s := range p.Path {
		if s.Idx != nil {
			fmt.Fprintf(&sb, "[%s]", s.Idx.Key())
		} else {
			fmt.Fprintf(&sb, ".%d", s.Field)
		}
	}
	return sb.String()
}

// SliceV: Obj's content (at Path) is an array.
type SliceV struct {
	Ptr           *PtrV // to the backing array; nil for the nil slice
	Off, Len, Cap *Lin
	NilAtom       string // non-empty: nil-ness is unknown and named
	Elem          types.Type
}

func (s *SliceV) VKey() string {
	if s.Ptr == nil {
		return "nilslice"
	}
	return fmt.Sprintf("slice(%s,%s,%s,%s)%s", s.Ptr.VKey(), s.Off.Key(), s.Len.Key(), s.Cap.Key(), s.NilAtom)
}

type StrV struct {
	C        *ArrV
	Off, Len *Lin
}

func (s *StrV) VKey() string {
	return fmt.Sprintf("str(%s,%s,%s)", s.C.VKey(), s.Off.Key(), s.Len.Key())
}

type IfaceV struct {
	Dyn types.Type
	V   Value
}

func (i *IfaceV) VKey() string { return "iface<" + i.Dyn.String() + ">(" + i.V.VKey() + ")" }

type FuncV struct {
	Fn   *ssa.Function
	Free []Value
}

func (f *FuncV) VKey() string {
	s := "func " + f.Fn.String()
	for _, v := range f.Free {
		s += "," + v.VKey()
	}
	return s
}

type StructV struct {
	F []Value
}

func (s *StructV) VKey() string {
	var sb strings.Builder
	sb.WriteString("{")
	for i, f := range s.F {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(f.VKey())
	}
	sb.WriteString("}")
	return sb.String()
}

type TupleV struct{ E []Value }

func (t *TupleV) VKey() string {
	s := "("
	for _, e := range t.E {
		s += e.VKey() + ";"
	}
	return s + ")"
}

// OpaqueV is an uninterpreted value with an identity.
type OpaqueV struct {
	Key string
	T   types.Type
}

func (o *OpaqueV) VKey() string { return "$" + o.Key }

// ArrV is immutable array content: a base plus a write log.
type ArrV struct {
	Elem types.Type
	N    *Lin   // length if known (fixed arrays), may be nil
	Base string // "" zero base; "=..." constant string; otherwise symbolic key
	Ws   []AW
	key  string

	tab   []int64 // content when every element is constant
	noTab bool
}
type AW struct {
	Off  *Lin
	Val  Value // element write if non-nil
	Len  *Lin  // block write
	Src  *ArrV
	SOff *Lin
}

func (a *ArrV) VKey() string {
	if a.key == "" {
		var sb strings.Builder
		if len(a.Base) > 64 {
			fmt.Fprintf(&sb, "arr<%s..%x>", a.Base[:40], hash(a.Base))
		} else {
			fmt.Fprintf(&sb, "arr<%s>", a.Base)
		}
		for _, w := range a.Ws {
			if w.Val != nil {
				fmt.Fprintf(&sb, "[%s]=%s", w.Off.Key(), w.Val.VKey())
			} else {
				fmt.Fprintf(&sb, "[%s:+%s]=(%s@%s)", w.Off.Key(), w.Len.Key(), w.Src.VKey(), w.SOff.Key())
			}
		}
		a.key = sb.String()
	}
	return a.key
}

func hash(s string) uint64 {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// MapObj is abstract map content: insertion log over opaque base.
type MapObj struct {
	Log  []MapEnt
	Base string // "" : empty map base
}
type MapEnt struct {
	K, V Value
	Del  bool
}

func (m *MapObj) VKey() string {
	s := "map<" + m.Base + ">"
	for _, e := range m.Log {
		if e.Del {
			s += "-" + e.K.VKey()
		} else {
			s += "+" + e.K.VKey() + ":" + e.V.VKey()
		}
	}
	return s
}

func StrConst(s string) *StrV {
	return &StrV{C: &ArrV{Elem: types.Typ[types.Byte], Base: "=" + s}, Off: K(0), Len: K(int64(len(s)))}
}

// ConstStr returns the literal if v is a constant string.
func ConstStr(v Value) (string, bool) {
	s, ok := v.(*StrV)
	if !ok {
		return "", false
	}
	if n, ok := s.Len.Int64(); ok && n == 0 {
		return "", true
	}
	if strings.HasPrefix(s.C.Base, "=") && len(s.C.Ws) == 0 {
		o, ok1 := s.Off.Int64()
		n, ok2 := s.Len.Int64()
		b := s.C.Base[1:]
		if ok1 && ok2 && o >= 0 && o+n <= int64(len(b)) {
			return b[o : o+n], true
		}
	}
	return "", false
}

func intType(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeRange(w int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), b1)
	}
	return b0, thiU(w)
}

// MaxLen bounds every slice, string and map length (documented assumption).
var MaxLen = new(big.Int).Sub(pow2(40), b1)

// IntAtom creates a symbolic integer of type t.
func IntAtom(key string, t types.Type) *Lin {
	w, s, _ := intType(t)
	lo, hi := typeRange(w, s)
	return AtomLin(U.Atom(key, "sym", lo, hi))
}

func LenAtom(key string) *Lin {
	return AtomLin(U.Atom("len("+key+")", "len", b0, MaxLen))
}

// Symbolic builds an unconstrained value of type t named key.
func (st *State) Symbolic(key string, t types.Type) Value {
	if tp, ok := t.(*types.TypeParam); ok {
		if ct := CoreOf(tp); ct != nil {
			return st.Symbolic(key, ct)
		}
		return &OpaqueV{Key: key, T: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intType(t); ok {
			return IntAtom(key, t)
		}
		if u.Info()&types.IsBoolean != 0 {
			return BAtom(key)
		}
		if u.Info()&types.IsString != 0 {
			return &StrV{C: &ArrV{Elem: types.Typ[types.Byte], Base: key}, Off: K(0), Len: LenAtom(key)}
		}
		if u.Kind() == types.UntypedNil {
			return NilV{}
		}
		return &OpaqueV{Key: key, T: t}
	case *types.Slice:
		o := st.symObj(key, func() Value { return &ArrV{Elem: u.Elem(), Base: key} })
		l := LenAtom(key)
		c := AtomLin(U.Atom("cap("+key+")", "len", b0, MaxLen))
		st.AddFact(Sub(c, l))
		return &SliceV{Ptr: &PtrV{Obj: o}, Off: K(0), Len: l, Cap: c, NilAtom: "isnil(" + key + ")", Elem: u.Elem()}
	case *types.Array:
		return &ArrV{Elem: u.Elem(), N: K(u.Len()), Base: key}
	case *types.Tuple:
		var e []Value
		for i := 0; i < u.Len(); i++ {
			e = append(e, st.Symbolic(fmt.Sprintf("%s#%d", key, i), u.At(i).Type()))
		}
		return &TupleV{e}
	}
	return &OpaqueV{Key: key, T: t}
}

// Zero is the zero value of t.
func (st *State) Zero(t types.Type) Value {
	if _, ok := t.(*types.TypeParam); ok {
		return &OpaqueV{Key: "zero:" + t.String(), T: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intType(t); ok {
			return K(0)
		}
		if u.Info()&types.IsBoolean != 0 {
			return BConst(false)
		}
		if u.Info()&types.IsString != 0 {
			return StrConst("")
		}
		if u.Kind() == types.UnsafePointer {
			return NilV{}
		}
		return &OpaqueV{Key: "zero:" + t.String(), T: t}
	case *types.Slice:
		return &SliceV{Off: K(0), Len: K(0), Cap: K(0), Elem: u.Elem()}
	case *types.Array:
		return &ArrV{Elem: u.Elem(), N: K(u.Len())}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, st.Zero(u.Field(i).Type()))
		}
		return s
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, st.Zero(u.At(i).Type()))
		}
		return tv
	}
	return NilV{}
}

// constVal converts an ssa.Const.
func (st *State) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return st.Zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BConst(constant.BoolVal(c.Value))
	case constant.String:
		return StrConst(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if _, _, ok := intType(t); ok {
			v := constant.ToInt(c.Value)
			if v.Kind() == constant.Int {
				n, _ := new(big.Int).SetString(v.ExactString(), 10)
				return KB(n)
			}
		}
		return &OpaqueV{Key: "const:" + c.Value.ExactString(), T: t}
	}
	return &OpaqueV{Key: "const:" + c.Value.ExactString(), T: t}
}

// CoreOf is the single basic type underlying a type parameter's type set.
func CoreOf(tp *types.TypeParam) types.Type {
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || it.NumEmbeddeds() != 1 || it.NumMethods() != 0 {
		return nil
	}
	switch e := it.EmbeddedType(0).(type) {
	case *types.Union:
		if e.Len() == 1 {
			if b, ok := e.Term(0).Type().Underlying().(*types.Basic); ok {
				return b
			}
		}
	case *types.Basic:
		return e
	}
	return nil
}

// IterV is an iteration over the entries of a fully known map.
type IterV struct {
	Ents []MapEnt
	Pos  int
}

func (i *IterV) VKey() string { return fmt.Sprintf("iter%d/%d", i.Pos, len(i.Ents)) }

// entries lists the entries of a map whose content is fully known.
func (m *MapObj) entries() ([]MapEnt, bool) {
	if m.Base != "" {
		return nil, false
	}
	var r []MapEnt
	at := map[string]int{}
	for _, e := range m.Log {
		k := e.K.VKey()
		if i, ok := at[k]; ok {
			r[i] = e
			continue
		}
		at[k] = len(r)
		r = append(r, e)
	}
	// the keys must be known to differ
	for i, e := range r {
		for _, f := range r[:i] {
			if !keysDiffer(e.K, f.K) {
				return nil, false
			}
		}
	}
	var out []MapEnt
	for _, e := range r {
		if !e.Del {
			out = append(out, e)
		}
	}
	return out, true
}

// keysDiffer reports that two keys are certainly different.
func keysDiffer(a, b Value) bool {
	if x, ok := a.(*IfaceV); ok {
		a = x.V
	}
	if x, ok := b.(*IfaceV); ok {
		b = x.V
	}
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			n, ok := Sub(x, y).Int64()
			return ok && n != 0
		}
	case *StrV:
		s, ok1 := ConstStr(x)
		t, ok2 := ConstStr(b)
		return ok1 && ok2 && s != t
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			return x.Obj != y.Obj
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if keysDiffer(x.F[i], y.F[i]) {
					return true
				}
			}
		}
	}
	return false
}
