// Package ai is an abstract interpreter over go/ssa.
//
// Abstract values: affine integer expressions over interval-bounded atoms,
// bit-field concatenations, three-valued booleans, abstract heap objects with
// functional content trees and affine-indexed array contents. States are kept
// as a bounded disjunction (trace partitioning at undecided branches); loops
// are widened to an inductive header state. No solver and no concrete input is
// involved.
package ai

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var (
	b0   = big.NewInt(0)
	b1   = big.NewInt(1)
	bM1  = big.NewInt(-1)
	bInf = new(big.Int).Lsh(b1, 200)
	nInf = new(big.Int).Neg(bInf)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(b1, uint(n)) }

// Atom is an uninterpreted integer quantity with a static interval.
type Atom struct {
	ID     int
	Key    string
	Op     string
	Args   []*Lin
	Segs   []Seg // for Op=="bits"
	N      int   // for conv: width; sign in Signed
	Signed bool
	Tab    map[int64]int64 // for Op=="table"
	Lo, Hi *big.Int
}

type LT struct {
	A *Atom
	C *big.Int
}

// Lin is k + sum c_i * a_i.
type Lin struct {
	K   *big.Int
	Ts  []LT
	key string
}

// Universe hash-conses atoms.
type Universe struct {
	atoms map[string]*Atom
	n     int
}

var U = &Universe{atoms: map[string]*Atom{}}

func (u *Universe) Atom(key, op string, lo, hi *big.Int) *Atom {
	if len(key) > 1<<20 {
		panic("a term grows without bound")
	}
	if a, ok := u.atoms[key]; ok {
		if bigEq(a.Lo, lo) && bigEq(a.Hi, hi) {
			return a
		}
		// the same name with another range is another quantity
		key = fmt.Sprintf("%s<%v,%v>", key, lo, hi)
		if a, ok := u.atoms[key]; ok {
			return a
		}
	}
	u.n++
	a := &Atom{ID: u.n, Key: key, Op: op, Lo: lo, Hi: hi}
	u.atoms[key] = a
	return a
}

func bigEq(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

func K(n int64) *Lin         { return &Lin{K: big.NewInt(n)} }
func KB(n *big.Int) *Lin     { return &Lin{K: n} }
func AtomLin(a *Atom) *Lin   { return &Lin{K: b0, Ts: []LT{{a, b1}}} }
func (l *Lin) IsConst() bool { return len(l.Ts) == 0 }
func (l *Lin) Int64() (int64, bool) {
	if l.IsConst() && l.K.IsInt64() {
		return l.K.Int64(), true
	}
	return 0, false
}

// Single returns the atom if l is exactly one atom with coefficient 1.
func (l *Lin) Single() *Atom {
	if len(l.Ts) == 1 && l.K.Sign() == 0 && l.Ts[0].C.Cmp(b1) == 0 {
		return l.Ts[0].A
	}
	return nil
}

func (l *Lin) Key() string {
	if l.key == "" {
		var sb strings.Builder
		for _, t := range l.Ts {
			if t.C.Cmp(b1) != 0 {
				fmt.Fprintf(&sb, "%s*", t.C)
			}
			fmt.Fprintf(&sb, "%s+", t.A.Key)
		}
		if l.K.Sign() != 0 || len(l.Ts) == 0 {
			sb.WriteString(l.K.String())
		} else {
			s := sb.String()
			l.key = s[:len(s)-1]
			return l.key
		}
		l.key = sb.String()
	}
	return l.key
}
func (l *Lin) String() string { return l.Key() }

func Add(a, b *Lin) *Lin { return lincomb(a, b1, b, b1) }
func Sub(a, b *Lin) *Lin { return lincomb(a, b1, b, bM1) }
func Scale(a *Lin, c *big.Int) *Lin {
	return lincomb(a, c, K(0), b1)
}
func AddK(a *Lin, k int64) *Lin { return Add(a, K(k)) }

func lincomb(a *Lin, ca *big.Int, b *Lin, cb *big.Int) *Lin {
	r := &Lin{K: new(big.Int).Add(new(big.Int).Mul(a.K, ca), new(big.Int).Mul(b.K, cb))}
	i, j := 0, 0
	for i < len(a.Ts) || j < len(b.Ts) {
		var t LT
		switch {
		case j >= len(b.Ts) || (i < len(a.Ts) && a.Ts[i].A.ID < b.Ts[j].A.ID):
			t = LT{a.Ts[i].A, new(big.Int).Mul(a.Ts[i].C, ca)}
			i++
		case i >= len(a.Ts) || b.Ts[j].A.ID < a.Ts[i].A.ID:
			t = LT{b.Ts[j].A, new(big.Int).Mul(b.Ts[j].C, cb)}
			j++
		default:
			t = LT{a.Ts[i].A, new(big.Int).Add(new(big.Int).Mul(a.Ts[i].C, ca), new(big.Int).Mul(b.Ts[j].C, cb))}
			i++
			j++
		}
		if t.C.Sign() != 0 {
			r.Ts = append(r.Ts, t)
		}
	}
	return r
}

func LinEq(a, b *Lin) bool { return a == b || a.Key() == b.Key() }

// ---- bit segments -------------------------------------------------------

// Seg is bits [Lo,Lo+W) of Src in infinite two's complement.
type Seg struct {
	Src *Lin
	Lo  int
	W   int
}

// segsOf splits a term known to be a w-bit unsigned pattern into segments.
func (st *State) segsOf(l *Lin, w int) []Seg {
	if l.IsConst() {
		m := new(big.Int).And(l.K, new(big.Int).Sub(pow2(w), b1))
		return []Seg{{KB(m), 0, w}}
	}
	if a := l.Single(); a != nil {
		switch a.Op {
		case "bits":
			var r []Seg
			n := 0
			for _, s := range a.Segs {
				if n >= w {
					break
				}
				if n+s.W > w {
					s.W = w - n
				}
				n += s.W
				if lo, hi := st.Range(s.Src); !s.Src.IsConst() && lo.Sign() >= 0 && hi.BitLen() < s.Lo+s.W {
					k := hi.BitLen() - s.Lo
					if k < 0 {
						k = 0
					}
					if k > 0 {
						r = append(r, Seg{s.Src, s.Lo, k})
					}
					r = append(r, Seg{K(0), 0, s.W - k})
					continue
				}
				r = append(r, s)
			}
			if n < w {
				r = append(r, Seg{K(0), 0, w - n})
			}
			return r
		case "conv":
			if a.N >= w {
				return st.segsOf(a.Args[0], w)
			}
			if !a.Signed {
				r := st.segsOf(a.Args[0], a.N)
				return append(append([]Seg{}, r...), Seg{K(0), 0, w - a.N})
			}
		}
	}
	if len(l.Ts) > 0 && (len(l.Ts) > 1 || l.K.Sign() != 0 || l.Ts[0].C.Cmp(b1) != 0) {
		x := l
		if e := st.expandBits(l); e != nil {
			x = e
		}
		// multiples of 2^w do not show in w bits
		y := &Lin{K: x.K}
		for _, t := range x.Ts {
			if int(t.C.TrailingZeroBits()) < w {
				y.Ts = append(y.Ts, t)
			}
		}
		if len(y.Ts) < len(x.Ts) {
			return st.segsOf(y, w)
		}
		// l = low + 2^k*high with 0 <= low < 2^k
		for i := 0; i <= len(x.Ts); i++ {
			k := 0
			if i < len(x.Ts) {
				k = int(x.Ts[i].C.TrailingZeroBits())
			} else if x.K.Sign() != 0 {
				k = int(x.K.TrailingZeroBits())
			}
			if k == 0 || k >= w {
				continue
			}
			low, high := &Lin{K: b0}, &Lin{K: b0}
			for _, t := range x.Ts {
				if int(t.C.TrailingZeroBits()) >= k {
					high.Ts = append(high.Ts, LT{t.A, new(big.Int).Rsh(t.C, uint(k))})
				} else {
					low.Ts = append(low.Ts, t)
				}
			}
			low.K = new(big.Int).And(x.K, new(big.Int).Sub(pow2(k), b1))
			high.K = new(big.Int).Rsh(new(big.Int).Sub(x.K, low.K), uint(k))
			lo, hi := st.Range(low)
			if lo.Sign() < 0 || hi.BitLen() > k {
				continue
			}
			if hlo, _ := st.Range(high); hlo.Sign() < 0 {
				continue
			}
			return append(append([]Seg{}, st.segsOf(low, k)...), st.segsOf(high, w-k)...)
		}
	}
	lo, hi := st.Range(l)
	if lo.Sign() >= 0 {
		bl := hi.BitLen()
		if bl < w {
			if bl == 0 {
				return []Seg{{K(0), 0, w}}
			}
			return []Seg{{l, 0, bl}, {K(0), 0, w - bl}}
		}
	}
	return []Seg{{l, 0, w}}
}

func constSeg(s Seg) (*big.Int, bool) {
	if !s.Src.IsConst() {
		return nil, false
	}
	v := new(big.Int).Rsh(s.Src.K, uint(s.Lo))
	return v.And(v, new(big.Int).Sub(pow2(s.W), b1)), true
}

func normSegs(in []Seg) []Seg {
	var r []Seg
	for _, s := range in {
		if s.W == 0 {
			continue
		}
		if c, ok := constSeg(s); ok {
			s = Seg{KB(c), 0, s.W}
		}
		if n := len(r); n > 0 {
			p := &r[n-1]
			if p.Src.IsConst() && s.Src.IsConst() {
				v := new(big.Int).Lsh(s.Src.K, uint(p.W))
				*p = Seg{KB(v.Or(v, p.Src.K)), 0, p.W + s.W}
				continue
			}
			if LinEq(p.Src, s.Src) && !s.Src.IsConst() && p.Lo+p.W == s.Lo {
				p.W += s.W
				continue
			}
		}
		r = append(r, s)
	}
	return r
}

// fromSegs rebuilds a term (unsigned value of the concatenation).
func (st *State) fromSegs(in []Seg) *Lin {
	segs := normSegs(in)
	// drop high zero segments
	for len(segs) > 0 {
		s := segs[len(segs)-1]
		if c, ok := constSeg(s); ok && c.Sign() == 0 {
			segs = segs[:len(segs)-1]
			continue
		}
		break
	}
	if len(segs) == 0 {
		return K(0)
	}
	if len(segs) == 1 {
		s := segs[0]
		if c, ok := constSeg(s); ok {
			return KB(c)
		}
		if s.Lo == 0 {
			lo, hi := st.Range(s.Src)
			if lo.Sign() >= 0 && hi.BitLen() <= s.W {
				return s.Src
			}
		}
	}
	w := 0
	var sb strings.Builder
	sb.WriteString("bits{")
	for _, s := range segs {
		w += s.W
		fmt.Fprintf(&sb, "(%s)[%d:%d];", s.Src.Key(), s.Lo, s.W)
	}
	sb.WriteString("}")
	hi := new(big.Int).Sub(pow2(w), b1)
	// low constant segment gives a lower bound; sum of minima
	lo := new(big.Int)
	hi2 := new(big.Int)
	off := 0
	for _, s := range segs {
		if c, ok := constSeg(s); ok {
			lo.Add(lo, new(big.Int).Lsh(c, uint(off)))
			hi2.Add(hi2, new(big.Int).Lsh(c, uint(off)))
		} else {
			m := new(big.Int).Sub(pow2(s.W), b1)
			hi2.Add(hi2, new(big.Int).Lsh(m, uint(off)))
		}
		off += s.W
	}
	if hi2.Cmp(hi) < 0 {
		hi = hi2
	}
	a := U.Atom(sb.String(), "bits", lo, hi)
	a.Segs = segs
	return AtomLin(a)
}

func shiftSegs(segs []Seg, n int, w int) []Seg { // left
	r := append([]Seg{{K(0), 0, n}}, segs...)
	return cutSegs(r, w)
}

func cutSegs(segs []Seg, w int) []Seg {
	var r []Seg
	n := 0
	for _, s := range segs {
		if n >= w {
			break
		}
		if n+s.W > w {
			s.W = w - n
		}
		r = append(r, s)
		n += s.W
	}
	return r
}

func dropSegs(segs []Seg, n int) []Seg { // logical shift right
	var r []Seg
	for _, s := range segs {
		if n >= s.W {
			n -= s.W
			continue
		}
		if n > 0 {
			s.Lo += n
			s.W -= n
			n = 0
		}
		r = append(r, s)
	}
	return r
}

// zipSegs aligns two segment lists on common boundaries.
func zipSegs(a, b []Seg, f func(x, y Seg) (Seg, bool)) ([]Seg, bool) {
	var r []Seg
	i, j := 0, 0
	ca, cb := append([]Seg{}, a...), append([]Seg{}, b...)
	for i < len(ca) && j < len(cb) {
		w := ca[i].W
		if cb[j].W < w {
			w = cb[j].W
		}
		x, y := ca[i], cb[j]
		x.W, y.W = w, w
		s, ok := f(x, y)
		if !ok {
			return nil, false
		}
		r = append(r, s)
		ca[i].Lo += w
		ca[i].W -= w
		cb[j].Lo += w
		cb[j].W -= w
		if ca[i].W == 0 {
			i++
		}
		if cb[j].W == 0 {
			j++
		}
	}
	return r, true
}

// splitConst splits constant segments into single bits so that mixed masks
// resolve bit by bit.
func splitConst(segs []Seg) []Seg {
	var r []Seg
	for _, s := range segs {
		if c, ok := constSeg(s); ok {
			for i := 0; i < s.W; i++ {
				r = append(r, Seg{K(int64(c.Bit(i))), 0, 1})
			}
			continue
		}
		r = append(r, s)
	}
	return r
}

func (st *State) bitop(op string, x, y *Lin, w int) *Lin {
	xs, ys := splitConst(st.segsOf(x, w)), splitConst(st.segsOf(y, w))
	r, ok := zipSegs(xs, ys, func(p, q Seg) (Seg, bool) {
		cp, okp := constSeg(p)
		cq, okq := constSeg(q)
		if okp && okq {
			v := new(big.Int)
			switch op {
			case "&":
				v.And(cp, cq)
			case "|":
				v.Or(cp, cq)
			case "^":
				v.Xor(cp, cq)
			}
			return Seg{KB(v), 0, p.W}, true
		}
		if okq {
			p, q = q, p
			cp, okp = cq, true
		}
		if okp { // constant side p, single bits, all equal in the run
			if p.W == 1 {
				bit := cp.Bit(0)
				switch {
				case op == "&" && bit == 0:
					return Seg{K(0), 0, 1}, true
				case op == "&" && bit == 1, op == "|" && bit == 0, op == "^" && bit == 0:
					return q, true
				case op == "|" && bit == 1:
					return Seg{K(1), 0, 1}, true
				}
				return Seg{}, false
			}
		}
		if LinEq(p.Src, q.Src) && p.Lo == q.Lo {
			switch op {
			case "&", "|":
				return p, true
			case "^":
				return Seg{K(0), 0, p.W}, true
			}
		}
		return Seg{}, false
	})
	if ok {
		return st.fromSegs(r)
	}
	hi := new(big.Int).Sub(pow2(w), b1)
	lo := b0
	if op == "&" {
		_, h1 := st.Range(x)
		_, h2 := st.Range(y)
		l1, _ := st.Range(x)
		l2, _ := st.Range(y)
		if l1.Sign() >= 0 && h1.Cmp(hi) < 0 {
			hi = h1
		}
		if l2.Sign() >= 0 && h2.Cmp(hi) < 0 {
			hi = h2
		}
	}
	a1, a2 := x.Key(), y.Key()
	if a2 < a1 {
		a1, a2 = a2, a1
	}
	a := U.Atom(fmt.Sprintf("(%s %s%d %s)", a1, op, w, a2), "bitop"+op, lo, hi)
	a.Args = []*Lin{x, y}
	return AtomLin(a)
}

// Conv wraps l to a w-bit (signed) integer.
func (st *State) Conv(l *Lin, w int, signed bool) *Lin {
	lo, hi := st.Range(l)
	var tlo, thi *big.Int
	if signed {
		tlo = new(big.Int).Neg(pow2(w - 1))
		thi = new(big.Int).Sub(pow2(w-1), b1)
	} else {
		tlo = b0
		thi = new(big.Int).Sub(pow2(w), b1)
	}
	if lo.Cmp(tlo) >= 0 && hi.Cmp(thi) <= 0 {
		return l
	}
	if l.IsConst() {
		m := new(big.Int).And(l.K, new(big.Int).Sub(pow2(w), b1))
		if signed && m.Bit(w-1) == 1 {
			m.Sub(m, pow2(w))
		}
		return KB(m)
	}
	// facts may prove the range even when intervals do not
	if st.ProveGE(Sub(l, KB(tlo))) && st.ProveGE(Sub(KB(thi), l)) {
		return l
	}
	if a := l.Single(); a != nil && a.Op == "conv" && a.N >= w {
		return st.Conv(a.Args[0], w, signed)
	}
	segs := normSegs(st.segsOf(l, w))
	if !signed {
		full := len(segs) == 1 && LinEq(segs[0].Src, l) && segs[0].Lo == 0
		if !full {
			return st.fromSegs(segs)
		}
		return st.fromSegs(segs) // bits{(l)[0:w]}
	}
	// signed: a single complete run of a source value that fits
	if len(segs) == 1 && segs[0].Lo == 0 && segs[0].W == w && !segs[0].Src.IsConst() {
		s := segs[0].Src
		slo, shi := st.Range(s)
		if slo.Cmp(tlo) >= 0 && shi.Cmp(thi) <= 0 {
			return s
		}
	}
	u := st.fromSegs(segs)
	if ulo, uhi := st.Range(u); ulo.Cmp(tlo) >= 0 && uhi.Cmp(thi) <= 0 {
		return u
	}
	if ulo, _ := st.Range(u); ulo.Cmp(pow2(w-1)) >= 0 {
		// top bit known set: value is u - 2^w
		if uhi := thiU(w); uhi.Cmp(ulo) >= 0 {
			return Sub(u, KB(pow2(w)))
		}
	}
	a := U.Atom(fmt.Sprintf("s%d(%s)", w, u.Key()), "conv", tlo, thi)
	a.Args = []*Lin{u}
	a.N = w
	a.Signed = true
	return AtomLin(a)
}

func thiU(w int) *big.Int { return new(big.Int).Sub(pow2(w), b1) }

// Range is the interval of l under the state's bounds.
func (st *State) Range(l *Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.K), new(big.Int).Set(l.K)
	for _, t := range l.Ts {
		alo, ahi := st.bounds(t.A)
		x, y := new(big.Int).Mul(alo, t.C), new(big.Int).Mul(ahi, t.C)
		if t.C.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return
}

// shr is floor(l / 2^k) as a canonical term.
func (st *State) shr(l *Lin, k int) *Lin {
	if e := st.expandBits(l); e != nil {
		l = e
	}
	if k == 0 {
		return l
	}
	if l.IsConst() {
		return KB(new(big.Int).Rsh(l.K, uint(k)))
	}
	lo, hi := st.Range(l)
	if x, y := new(big.Int).Rsh(lo, uint(k)), new(big.Int).Rsh(hi, uint(k)); x.Cmp(y) == 0 {
		return KB(x)
	}
	for i := range l.Ts {
		j := int(l.Ts[i].C.TrailingZeroBits())
		if j == 0 {
			continue
		}
		if j > k {
			j = k
		}
		low, high := &Lin{K: b0}, &Lin{K: b0}
		for _, t := range l.Ts {
			if int(t.C.TrailingZeroBits()) >= j {
				high.Ts = append(high.Ts, LT{t.A, new(big.Int).Rsh(t.C, uint(j))})
			} else {
				low.Ts = append(low.Ts, t)
			}
		}
		low.K = new(big.Int).And(l.K, new(big.Int).Sub(pow2(j), b1))
		high.K = new(big.Int).Rsh(new(big.Int).Sub(l.K, low.K), uint(j))
		lo, hi := st.Range(low)
		if lo.Sign() < 0 || hi.BitLen() > j {
			continue
		}
		return st.shr(high, k-j)
	}
	var es State
	lo, hi = es.Range(l)
	if a := l.Single(); a != nil && a.Op == "shr" {
		k += a.N
		l = a.Args[0]
		lo, hi = es.Range(l)
	}
	at := U.Atom(fmt.Sprintf("shr%d(%s)", k, l.Key()), "shr", new(big.Int).Rsh(lo, uint(k)), new(big.Int).Rsh(hi, uint(k)))
	at.Args = []*Lin{l}
	at.N = k
	return AtomLin(at)
}

// expand rewrites bit patterns as sums of shifted terms, in which adjacent
// pieces of one source telescope; nil when there is nothing to rewrite.
func (st *State) expandBits(l *Lin) *Lin {
	any := false
	for _, t := range l.Ts {
		if t.A.Op == "bits" {
			any = true
		}
	}
	if !any {
		return nil
	}
	r := KB(l.K)
	for _, t := range l.Ts {
		if t.A.Op != "bits" {
			r = Add(r, &Lin{K: b0, Ts: []LT{t}})
			continue
		}
		off := 0
		for _, s := range t.A.Segs {
			v := Sub(st.shr(s.Src, s.Lo), Scale(st.shr(s.Src, s.Lo+s.W), pow2(s.W)))
			r = Add(r, Scale(v, new(big.Int).Mul(t.C, pow2(off))))
			off += s.W
		}
	}
	return r
}

// dropShr removes shifted terms the facts prove to be zero.
func (st *State) dropShr(l *Lin) *Lin {
	r := l
	for _, t := range l.Ts {
		if t.A.Op != "shr" {
			continue
		}
		if st.proveGE(Sub(KB(new(big.Int).Sub(pow2(t.A.N), b1)), t.A.Args[0]), 3, nil) && st.proveGE(t.A.Args[0], 3, nil) {
			r = Sub(r, &Lin{K: b0, Ts: []LT{t}})
		}
	}
	return r
}

// ProveGE reports whether l >= 0 follows from the intervals and recorded facts.
func (st *State) ProveGE(l *Lin) bool {
	if st.proveGE(l, 3, nil) {
		return true
	}
	e := st.expandBits(l)
	if e != nil {
		e = st.dropShr(e)
		if lo, _ := st.Range(e); lo.Sign() >= 0 {
			return true
		}
	} else {
		e = l
	}
	var nf []*Lin
	for _, f := range st.facts {
		if x := st.expandBits(f); x != nil {
			nf = append(nf, x)
		} else if e != l {
			nf = append(nf, f)
		}
	}
	if len(nf) == 0 {
		return false
	}
	t := *st
	t.facts = nf
	if e == l {
		t.facts = append(nf, st.facts...)
	}
	return t.proveGE(e, 3, nil)
}

func (st *State) proveGE(l *Lin, depth int, used map[int]bool) bool {
	lo, _ := st.Range(l)
	if lo.Sign() >= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for i, f := range st.facts {
		if used[i] {
			continue
		}
		// only useful if it shares an atom that pulls l down
		share := false
		for _, t := range l.Ts {
			for _, u := range f.Ts {
				if t.A == u.A && t.C.Sign() == u.C.Sign() {
					share = true
				}
			}
		}
		if !share {
			continue
		}
		nu := map[int]bool{i: true}
		for k := range used {
			nu[k] = true
		}
		if st.proveGE(Sub(l, f), depth-1, nu) {
			return true
		}
	}
	return false
}

func (st *State) ProveEQ(l *Lin) bool {
	if l.IsConst() {
		return l.K.Sign() == 0
	}
	if e := st.expandBits(l); e != nil {
		if e = st.dropShr(e); e.IsConst() {
			return e.K.Sign() == 0
		}
	}
	return st.ProveGE(l) && st.ProveGE(Scale(l, bM1))
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ShiftRight is the logical right shift of a non-negative term.
func (st *State) ShiftRight(l *Lin, n int) *Lin {
	if n == 0 {
		return l
	}
	return st.fromSegs(dropSegs(st.segsOf(l, 64), n))
}
