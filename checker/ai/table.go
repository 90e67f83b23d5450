package ai

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Constant tables: an array of up to 256 constants read at an unknown index is
// a known finite function of that index. Reads compose, so a table applied to
// the result of another table is a table of the first index.

const maxTable = 256

// ConstTable is the content of a fully constant array.
func (a *ArrV) ConstTable() ([]int64, bool) {
	if a.tab != nil || a.noTab {
		return a.tab, a.tab != nil
	}
	t := a.constTable()
	a.tab, a.noTab = t, t == nil
	return t, t != nil
}

func (a *ArrV) constTable() []int64 {
	var t []int64
	switch {
	case len(a.Base) > 1 && a.Base[0] == '=':
		if len(a.Base)-1 > maxTable {
			return nil
		}
		for i := 1; i < len(a.Base); i++ {
			t = append(t, int64(a.Base[i]))
		}
	case a.Base == "" && a.N != nil:
		n, ok := a.N.Int64()
		if !ok || n < 2 || n > maxTable || len(a.Ws) == 0 {
			return nil
		}
		if _, _, isInt := intType(a.Elem); !isInt {
			return nil
		}
		t = make([]int64, n)
	default:
		return nil
	}
	for _, w := range a.Ws {
		o, ok := w.Off.Int64()
		l, isInt := w.Val.(*Lin)
		if !ok || !isInt || o < 0 || o >= int64(len(t)) {
			return nil
		}
		v, ok := l.Int64()
		if !ok {
			return nil
		}
		t[o] = v
	}
	return t
}

// tableRead is the constant table tab at idx, or nil when idx is not confined.
func (st *State) tableRead(tab []int64, idx *Lin) *Lin {
	if idx.IsConst() {
		return nil
	}
	f := func(i int64) (int64, bool) {
		if i < 0 || i >= int64(len(tab)) {
			return 0, false
		}
		return tab[i], true
	}
	x := idx
	if a := idx.Single(); a == nil && len(idx.Ts) == 1 || a != nil {
		if in := idx.Ts[0].A; in.Op == "table" {
			// compose with the inner table
			c, k := idx.Ts[0].C, idx.K
			g := in.Tab
			outer := f
			f = func(i int64) (int64, bool) {
				v, ok := g[i]
				if !ok {
					return 0, false
				}
				n := new(big.Int).Add(new(big.Int).Mul(big.NewInt(v), c), k)
				if !n.IsInt64() {
					return 0, false
				}
				return outer(n.Int64())
			}
			x = in.Args[0]
		}
	}
	lo, hi := st.Range(x)
	if !lo.IsInt64() || !hi.IsInt64() || new(big.Int).Sub(hi, lo).Cmp(big.NewInt(4*maxTable)) > 0 {
		return nil
	}
	key := fmt.Sprintf("%x|%s|%v|%v", tabHash(tab), idx.Key(), lo, hi)
	if r, ok := tabCache[key]; ok {
		if r != nil && len(r.Ts) == 1 && r.Ts[0].A.Op == "table" {
			st.narrowTable(r.Ts[0].A)
		}
		return r
	}
	r := tableFn(f, x, lo.Int64(), hi.Int64())
	tabCache[key] = r
	if r != nil && len(r.Ts) == 1 && r.Ts[0].A.Op == "table" {
		st.narrowTable(r.Ts[0].A)
	}
	return r
}

var tabCache = map[string]*Lin{}
var tabHashes = map[*int64]uint64{}

func tabHash(t []int64) uint64 {
	if h, ok := tabHashes[&t[0]]; ok {
		return h
	}
	h := hash(fmt.Sprint(t))
	tabHashes[&t[0]] = h
	return h
}

func tableFn(f func(int64) (int64, bool), x *Lin, lo, hi int64) *Lin {
	first, affine := int64(0), true
	var vlo, vhi int64
	n := int64(0)
	for i := lo; i <= hi; i++ {
		v, ok := f(i)
		if !ok {
			continue // excluded by the bounds check of the read
		}
		if n == 0 {
			first, vlo, vhi = v-i, v, v
		} else {
			if v-i != first {
				affine = false
			}
			vlo, vhi = min(vlo, v), max(vhi, v)
		}
		n++
	}
	switch {
	case n == 0:
		return nil
	case vlo == vhi:
		return K(vlo)
	case affine && n == hi-lo+1:
		return AddK(x, first)
	}
	// the function of the whole domain names the value; the state narrows it
	dlo, dhi := x.statRange()
	if new(big.Int).Sub(dhi, dlo).Cmp(big.NewInt(4*maxTable)) <= 0 && dlo.IsInt64() && dhi.IsInt64() {
		lo, hi = dlo.Int64(), dhi.Int64()
	}
	all := map[int64]int64{}
	var key strings.Builder
	n = 0
	for i := lo; i <= hi; i++ {
		v, ok := f(i)
		if !ok {
			continue
		}
		if n == 0 {
			vlo, vhi = v, v
		}
		n++
		vlo, vhi = min(vlo, v), max(vhi, v)
		all[i] = v
		fmt.Fprintf(&key, "%d:%d,", i, v)
	}
	at := U.Atom(fmt.Sprintf("tbl%x(%s)", hash(key.String()), x.Key()), "table", big.NewInt(vlo), big.NewInt(vhi))
	at.Tab, at.Args = all, []*Lin{x}
	return AtomLin(at)
}

// statRange is the interval of l regardless of the state.
func (l *Lin) statRange() (lo, hi *big.Int) { return emptyState.Range(l) }

var emptyState = NewState()

// TableVals are the values a table atom can still take.
func (st *State) tableVals(a *Atom) []int64 {
	lo, hi := st.bounds(a)
	xlo, xhi := st.Range(a.Args[0])
	seen := map[int64]bool{}
	var r []int64
	for i, v := range a.Tab {
		bi, bv := big.NewInt(i), big.NewInt(v)
		if bi.Cmp(xlo) < 0 || bi.Cmp(xhi) > 0 || bv.Cmp(lo) < 0 || bv.Cmp(hi) > 0 || seen[v] {
			continue
		}
		seen[v] = true
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (st *State) narrowTable(a *Atom) {
	vs := st.tableVals(a)
	if len(vs) == 0 {
		st.dead = true
		return
	}
	lo, hi := st.bounds(a)
	nl, nh := big.NewInt(vs[0]), big.NewInt(vs[len(vs)-1])
	if nl.Cmp(lo) > 0 || nh.Cmp(hi) < 0 {
		st.wbnds()[a.ID] = bnd{nl, nh}
	}
}

// tableClusters splits the values of a table read at wide gaps.
func (st *State) tableClusters(v Value) (*Atom, [][2]int64) {
	l, ok := v.(*Lin)
	if !ok || len(l.Ts) != 1 || l.Ts[0].A.Op != "table" {
		return nil, nil
	}
	a := l.Ts[0].A
	vs := st.tableVals(a)
	if len(vs) == 0 {
		return nil, nil
	}
	var r [][2]int64
	cur := [2]int64{vs[0], vs[0]}
	for _, x := range vs[1:] {
		if x-cur[1] > 64 {
			r = append(r, cur)
			cur = [2]int64{x, x}
		}
		cur[1] = x
	}
	r = append(r, cur)
	if len(r) < 2 || len(r) > 4 {
		return nil, nil
	}
	return a, r
}

// TableAt is the constant table tab read at idx, for stating expectations.
func (st *State) TableAt(tab []int64, idx *Lin) *Lin {
	if i, ok := st.Norm(idx).Int64(); ok {
		if i < 0 || i >= int64(len(tab)) {
			return nil
		}
		return K(tab[i])
	}
	return st.tableRead(tab, idx)
}
