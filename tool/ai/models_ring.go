package ai

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"mkverif/sym"

	"golang.org/x/tools/go/ssa"
)

const (
	rp = Lattigo + "/ring."
	up = Lattigo + "/utils."
	lp = Lattigo + "/rlwe."
)

// ---- structure access by field name ----

// typeAt is the type of the part of an object at a path.
func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		}
	}
	return t
}

// FieldPtr is the address of a named field (searching embedded structs).
func (m *Machine) FieldPtr(p Value, t types.Type, name string) (*Ptr, types.Type) {
	x, ok := p.(*Ptr)
	if !ok {
		if isNil(p) {
			m.fault("nil pointer dereference (field %s)", name)
		}
		m.undecided("field %s of %T", name, p)
	}
	if t == nil {
		t = typeAt(x.O.T, x.Path)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		m.undecided("field %s of %s", name, t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &Ptr{O: x.O, Path: sub(x.Path, i)}, st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		ft := f.Type()
		if pt, ok := ft.(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok && hasField(pt.Elem(), name) {
				return m.FieldPtr(m.Load(&Ptr{O: x.O, Path: sub(x.Path, i)}), pt.Elem(), name)
			}
			continue
		}
		if hasField(ft, name) {
			return m.FieldPtr(&Ptr{O: x.O, Path: sub(x.Path, i)}, ft, name)
		}
	}
	m.undecided("no field %s in %s", name, t)
	return nil, nil
}

func hasField(t types.Type, name string) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			return true
		}
		if f.Embedded() {
			ft := f.Type()
			if pt, ok := ft.(*types.Pointer); ok {
				ft = pt.Elem()
			}
			if hasField(ft, name) {
				return true
			}
		}
	}
	return false
}

// Get reads a (possibly nested) named field: Get(p, "Poly", "Coeffs") follows pointers.
func (m *Machine) Get(p Value, names ...string) Value {
	v := p
	for i, n := range names {
		fp, _ := m.FieldPtr(v, nil, n)
		v = m.Load(fp)
		if i < len(names)-1 {
			if _, ok := v.(*Ptr); !ok {
				if _, ok := v.(*Agg); ok {
					v = fp
				}
			}
		}
	}
	return v
}

// Sub is the address of a nested named field, following pointers.
func (m *Machine) Sub(p Value, names ...string) *Ptr {
	var fp *Ptr
	v := p
	for i, n := range names {
		fp, _ = m.FieldPtr(v, nil, n)
		if i < len(names)-1 {
			v = m.Load(fp)
			if _, ok := v.(*Ptr); !ok {
				v = fp
			}
		}
	}
	return fp
}

// Moduli of a *ring.Ring.
func (m *Machine) Moduli(r Value) []*sym.E {
	var out []*sym.E
	for _, v := range m.values(m.Get(r, "Modulus")) {
		out = append(out, m.u64(v))
	}
	return out
}

// PolyRows returns the coefficient slices of a *ring.Poly.
func (m *Machine) PolyRows(p Value) []Slice {
	cs := m.Get(p, "Coeffs")
	var out []Slice
	for _, v := range m.values(cs) {
		s, ok := v.(Slice)
		if !ok {
			s = Slice{}
		}
		out = append(out, s)
	}
	return out
}

// polyRow is row i of a *ring.Poly, faulting like the source would.
func (m *Machine) polyRow(p Value, i int) Slice {
	if s, ok := p.(*Sel); ok {
		if b, ok := m.known(s.C); ok {
			if b {
				return m.polyRow(s.A, i)
			}
			return m.polyRow(s.B, i)
		}
		m.undecided("polynomial depends on an undecided condition")
	}
	cs, ok := m.Get(p, "Coeffs").(Slice)
	if !ok || i >= cs.Len {
		n := 0
		if ok {
			n = cs.Len
		}
		m.fault("index out of range [%d] with length %d", i, n)
	}
	s, ok := m.sliceGet(cs, i).(Slice)
	if !ok {
		m.fault("index out of range [0] with length 0")
	}
	if s.Len < m.N {
		m.fault("index out of range [%d] with length %d", m.N-1, s.Len)
	}
	return s
}

func qstr(q *sym.E) string { return q.String() }

func qinv(q *sym.E) *sym.E { return sym.Raw("qinv", "", q) }

func (m *Machine) checkQinv(v Value, q *sym.E, who string) bool {
	e := m.u64(v)
	if e == qinv(q) {
		return true
	}
	if _, ok := q.Const(); ok {
		return true
	}
	m.Note("%s modulo %s uses the Montgomery constant %s of another modulus", who, q, e)
	return false
}

func (m *Machine) checkBred(v Value, q *sym.E, who string) bool {
	s, ok := v.(Slice)
	if !ok || s.Len < 2 {
		m.fault("index out of range (Barrett parameters)")
	}
	e0, e1 := m.u64(m.sliceGet(s, 0)), m.u64(m.sliceGet(s, 1))
	if e0 == sym.Raw("bred0", "", q) && e1 == sym.Raw("bred1", "", q) {
		return true
	}
	if _, ok := q.Const(); ok {
		return true
	}
	m.Note("%s modulo %s uses the Barrett constants %s of another modulus", who, q, e0)
	return false
}

// qBound bounds a scalar by a multiple of q from above (and says whether it is >= 0).
func qBound(e, q *sym.E) (lo, hi float64, ok bool) {
	qlo, qhi, rok := q.Range()
	for _, mo := range e.M {
		c, _ := mo.C.Float64()
		var l, h float64
		got := false
		if len(mo.F) == 1 && mo.F[0].X == 1 {
			n := mo.F[0].N
			switch {
			case n.E() == q:
				l, h, got = 1, 1, true
			case n.Op == "red" && n.Args[1] == q:
				l, h, got = 0, 1, true
			case n.Op == "lazy" && n.Args[1] == q:
				b := 0
				fmt.Sscan(n.S, &b)
				l, h, got = 0, float64(b), true
			}
		}
		if !got {
			if !rok {
				return 0, 0, false
			}
			x, y, k := sym.FromMono(big.NewRat(1, 1), mo.F).Range()
			if !k {
				return 0, 0, false
			}
			if len(mo.F) == 0 {
				l, h = 1/qhi, 1/qlo
			} else {
				if x < 0 {
					return 0, 0, false
				}
				l, h = x/qhi, y/qlo
			}
		}
		if c < 0 {
			l, h = h, l
		}
		lo += c * l
		hi += c * h
	}
	return lo, hi, true
}

func lazyE(b int, e, q *sym.E) *sym.E {
	e = sym.Strip(e, q)
	if c, ok := e.Const(); ok && c.Sign() == 0 {
		return sym.Zero
	}
	return sym.Raw("lazy", fmt.Sprint(b), e, q)
}

func (m *Machine) kconst(vs ...Value) ([]uint64, bool) {
	var out []uint64
	for _, v := range vs {
		i, ok := v.(I)
		if !ok {
			return nil, false
		}
		out = append(out, uint64(i))
	}
	return out, true
}

func bmulmod(x, y, q uint64) *big.Int {
	r := new(big.Int).Mul(new(big.Int).SetUint64(x), new(big.Int).SetUint64(y))
	return r.Mod(r, new(big.Int).SetUint64(q))
}

var big64 = new(big.Int).Lsh(big.NewInt(1), 64)

func u64v(b *big.Int) Value { return I(int64(b.Uint64())) }

// ---- row-level operations ----

// RowAdd adds c*b to a (both modulo q).
func (m *Machine) rowAdd(a, b *Row, q *sym.E, sub bool, who string) *Row {
	x, y := m.Whole(a, q), m.Whole(b, q)
	ex, ey := x.E, y.E
	d := x.Dom
	switch {
	case ex == sym.Zero:
		d = y.Dom
	case ey == sym.Zero:
	case x.Dom == y.Dom:
	case x.Dom == -1:
		d = y.Dom
		if d == 1 {
			ex = sym.DropJ(ex)
		}
	case y.Dom == -1:
		if d == 1 {
			ey = sym.DropJ(ey)
		}
	default:
		m.Note("%s combines a polynomial in domain %d with one in domain %d", who, x.Dom, y.Dom)
		return &Row{N: m.N, E: sym.Raw("em", fmt.Sprintf("%d:mix/%d", x.Dom, y.Dom), ex, ey), Dom: x.Dom, Q: q}
	}
	var e *sym.E
	if sub {
		e = sym.Sub(ex, ey)
	} else {
		e = sym.Add(ex, ey)
	}
	if e == sym.Zero {
		d = -1
	}
	return &Row{N: m.N, E: e, Dom: d, Q: q}
}

// rowMul multiplies entrywise (times the scalar k).
func (m *Machine) rowMul(a, b *Row, k, q *sym.E, who string) *Row {
	x, y := m.Whole(a, q), m.Whole(b, q)
	if x.E == sym.Zero || y.E == sym.Zero {
		return &Row{N: m.N, E: sym.Zero, Dom: -1, Q: q}
	}
	switch {
	case x.Dom == -1:
		return &Row{N: m.N, E: sym.Strip(sym.Mul(sym.DropJ(x.E), y.E, k), q), Dom: y.Dom, Q: q}
	case y.Dom == -1:
		return &Row{N: m.N, E: sym.Strip(sym.Mul(x.E, sym.DropJ(y.E), k), q), Dom: x.Dom, Q: q}
	case x.Dom == 1 && y.Dom == 1:
		return &Row{N: m.N, E: sym.Strip(sym.Mul(x.E, y.E, k), q), Dom: 1, Q: q}
	case x.Dom == y.Dom:
		ex, ey := x.E, y.E
		if ey.ID() < ex.ID() {
			ex, ey = ey, ex
		}
		return &Row{N: m.N, E: sym.Mul(k, sym.Raw("em", fmt.Sprintf("%d:had", x.Dom), ex, ey)), Dom: x.Dom, Q: q}
	}
	m.Note("%s multiplies a polynomial in domain %d with one in domain %d", who, x.Dom, y.Dom)
	return &Row{N: m.N, E: sym.Mul(k, sym.Raw("em", fmt.Sprintf("%d:mixmul/%d", x.Dom, y.Dom), x.E, y.E)), Dom: x.Dom, Q: q}
}

// bndIn bounds a row in multiples of q.
func (m *Machine) bndIn(r *Row, q *sym.E) int {
	if r.Elems == nil {
		if r.E == sym.Zero {
			return 0
		}
		if r.Q == q || r.Q == nil {
			return r.Bnd()
		}
		if _, h, ok := r.Q.Range(); ok {
			if l, _, ok := q.Range(); ok {
				return int(math.Ceil(h * float64(r.Bnd()) / l * (1 - 1e-9)))
			}
		}
		return r.Bnd()
	}
	b := 0
	for _, v := range r.Elems {
		e, ok := ToE(v)
		if !ok {
			return 1
		}
		if e == sym.Zero {
			continue
		}
		_, h, ok := qBound(e, q)
		if !ok {
			return 1
		}
		if c := int(math.Ceil(h - 1e-6)); c > b {
			b = c
		}
	}
	return b
}

func (m *Machine) checkWord(b float64, q *sym.E, who string) {
	if _, h, ok := q.Range(); ok && b*h >= math.Ldexp(1, 64)*(1+1e-9) {
		m.Note("%s: unreduced values up to %.0f times the modulus do not fit into 64 bits", who, b)
	}
}

func lvlName(fn *ssa.Function) string { return fn.Name() }

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func installRing(m *Machine) {
	M := m.Models
	type elemF = func(m *Machine, a []Value) Value
	el := func(name string, f elemF) {
		M[rp+name] = func(m *Machine, fn *ssa.Function, a []Value) Value { return f(m, a) }
	}
	// ---- element-level modular arithmetic
	mred := func(name string, lazy int) {
		el(name, func(m *Machine, a []Value) Value {
			if k, ok := m.kconst(a[0], a[1], a[2], a[3]); ok && k[2]&1 == 1 {
				ri := new(big.Int).ModInverse(big64, new(big.Int).SetUint64(k[2]))
				r := bmulmod(k[0], k[1], k[2])
				return u64v(r.Mul(r, ri).Mod(r, new(big.Int).SetUint64(k[2])))
			}
			x, y, q := m.u64(a[0]), m.u64(a[1]), m.u64(a[2])
			if !m.checkQinv(a[3], q, name) {
				return X{sym.Raw("badmred", "", x, y, q, m.u64(a[3]))}
			}
			// the product must stay below q*2^64
			if _, hx, ok := qBound(x, q); ok {
				if _, hy, ok := qBound(y, q); ok {
					if _, qh, ok := q.Range(); ok && hx*hy*qh > math.Ldexp(1, 64)*(1+1e-9) {
						m.Note("%s: operands too large for a Montgomery reduction modulo %s", name, q)
					}
				}
			}
			e := sym.Div(sym.Mul(x, y), sym.R)
			if lazy > 1 {
				return FromE(lazyE(lazy, e, q), tU64)
			}
			return FromE(sym.Red(e, q), tU64)
		})
	}
	mred("MRed", 1)
	mred("MRedConstant", 2)
	mform := func(name string, lazy int, inv bool) {
		el(name, func(m *Machine, a []Value) Value {
			x, q := m.u64(a[0]), m.u64(a[1])
			if k, ok := m.kconst(a[0], a[1]); ok {
				f := new(big.Int).Set(big64)
				if inv {
					f.ModInverse(big64, new(big.Int).SetUint64(k[1]))
				}
				r := f.Mul(f, new(big.Int).SetUint64(k[0]))
				return u64v(r.Mod(r, new(big.Int).SetUint64(k[1])))
			}
			e := sym.Mul(x, sym.R)
			if inv {
				if !m.checkQinv(a[2], q, name) {
					return X{sym.Raw("badmred", "", x, q, m.u64(a[2]))}
				}
				e = sym.Div(x, sym.R)
			} else if !m.checkBred(a[2], q, name) {
				return X{sym.Raw("badbred", "", x, q)}
			}
			if lazy > 1 {
				return FromE(lazyE(lazy, e, q), tU64)
			}
			return FromE(sym.Red(e, q), tU64)
		})
	}
	mform("MForm", 1, false)
	mform("MFormConstant", 2, false)
	mform("InvMForm", 1, true)
	mform("InvMFormConstant", 2, true)
	bred := func(name string, lazy int, add bool) {
		el(name, func(m *Machine, a []Value) Value {
			var e, q *sym.E
			var pv Value
			if add {
				if k, ok := m.kconst(a[0], a[1]); ok {
					return I(int64(k[0] % k[1]))
				}
				e, q, pv = m.u64(a[0]), m.u64(a[1]), a[2]
			} else {
				if k, ok := m.kconst(a[0], a[1], a[2]); ok {
					return u64v(bmulmod(k[0], k[1], k[2]))
				}
				e, q, pv = sym.Mul(m.u64(a[0]), m.u64(a[1])), m.u64(a[2]), a[3]
			}
			if !m.checkBred(pv, q, name) {
				return X{sym.Raw("badbred", "", e, q)}
			}
			if lazy > 1 {
				return FromE(lazyE(lazy, e, q), tU64)
			}
			return FromE(sym.Red(e, q), tU64)
		})
	}
	bred("BRed", 1, false)
	bred("BRedConstant", 2, false)
	bred("BRedAdd", 1, true)
	bred("BRedAddConstant", 2, true)
	el("BRedParams", func(m *Machine, a []Value) Value {
		if k, ok := m.kconst(a[0]); ok {
			if k[0] == 0 {
				m.fault("division by zero")
			}
			r := new(big.Int).Lsh(big.NewInt(1), 128)
			r.Quo(r, new(big.Int).SetUint64(k[0]))
			hi := new(big.Int).Rsh(r, 64)
			lo := new(big.Int).And(r, new(big.Int).Sub(big64, big.NewInt(1)))
			return m.SliceOf(tU64, []Value{u64v(hi), u64v(lo)})
		}
		q := m.u64(a[0])
		return m.SliceOf(tU64, []Value{X{sym.Raw("bred0", "", q)}, X{sym.Raw("bred1", "", q)}})
	})
	el("MRedParams", func(m *Machine, a []Value) Value {
		if k, ok := m.kconst(a[0]); ok {
			qi, q := uint64(1), k[0]
			for i := 0; i < 63; i++ {
				qi *= q
				q *= q
			}
			return I(int64(qi))
		}
		return X{qinv(m.u64(a[0]))}
	})
	el("CRed", func(m *Machine, a []Value) Value {
		if k, ok := m.kconst(a[0], a[1]); ok {
			if k[0] >= k[1] {
				return I(int64(k[0] - k[1]))
			}
			return a[0]
		}
		e, q := m.u64(a[0]), m.u64(a[1])
		lo, hi, ok := qBound(e, q)
		if ok && lo >= -1e-9 && hi <= 2+1e-9 {
			return FromE(sym.Red(e, q), tU64)
		}
		if ok && lo >= -1e-9 && hi <= 16 {
			return FromE(lazyE(int(math.Ceil(hi-1-1e-9)), e, q), tU64)
		}
		if !ok {
			// unknown size: a conditional subtraction keeps the residue class
			return FromE(lazyE(8, e, q), tU64)
		}
		m.Note("conditional subtraction of %s applied to a value outside [0,2q)", q)
		return X{sym.Raw("cred", "", e, q)}
	})
	el("ModExp", func(m *Machine, a []Value) Value {
		if k, ok := m.kconst(a[0], a[1], a[2]); ok {
			r := new(big.Int).Exp(new(big.Int).SetUint64(k[0]), new(big.Int).SetUint64(k[1]), new(big.Int).SetUint64(k[2]))
			return u64v(r)
		}
		x, e, q := m.u64(a[0]), m.u64(a[1]), m.u64(a[2])
		return FromE(sym.Red(m.powMod(x, e, q, false), q), tU64)
	})
	el("ModexpMontgomery", func(m *Machine, a []Value) Value {
		x, e, q := m.u64(a[0]), m.u64(a[1]), m.u64(a[2])
		if !m.checkQinv(a[3], q, "ModexpMontgomery") || !m.checkBred(a[4], q, "ModexpMontgomery") {
			return X{sym.Raw("badmred", "", x, e, q)}
		}
		return FromE(sym.Red(m.powMod(x, e, q, true), q), tU64)
	})
	el("IsPrime", func(m *Machine, a []Value) Value {
		if k, ok := m.kconst(a[0]); ok {
			return B(new(big.Int).SetUint64(k[0]).ProbablyPrime(10))
		}
		return B(true)
	})
	primes := func(name string) {
		el(name, func(m *Machine, a []Value) Value {
			lq, n := m.intOf(a[0]), m.intOf(a[2])
			var vs []Value
			for i := 0; i < n; i++ {
				vs = append(vs, X{m.FreshPrime("gp", lq, name)})
			}
			return m.SliceOf(tU64, vs)
		})
	}
	primes("GenerateNTTPrimes")
	primes("GenerateNTTPrimesQ")
	primes("GenerateNTTPrimesP")
	M[lp+"CheckModuli"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return Nil{} }
	M[lp+"checkSizeParams"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return Nil{} }
	M[up+"AllDistinct"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		seen := map[*sym.E]bool{}
		for _, v := range m.values(a[0]) {
			e := m.u64(v)
			if seen[e] {
				return B(false)
			}
			seen[e] = true
		}
		return B(true)
	}
	// ---- randomness sources
	prng := func(note string) Value {
		t := m.P.Type("utils", "KeyedPRNG")
		m.prngs++
		o := m.New(t, m.zero(t), fmt.Sprintf("%s#%d", note, m.prngs))
		return &Ptr{O: o}
	}
	M[up+"NewPRNG"] = func(mm *Machine, fn *ssa.Function, a []Value) Value { return Tup{prng("prng:secure"), Nil{}} }
	M[up+"NewKeyedPRNG"] = func(mm *Machine, fn *ssa.Function, a []Value) Value {
		key := ""
		for _, v := range mm.values(a[0]) {
			key += Show(v) + ","
		}
		return Tup{prng("prng:keyed:" + key), Nil{}}
	}
	M["(*"+up+"KeyedPRNG).Clock"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, ok := a[1].(Slice)
		if ok {
			src := m.prngNote(a[0])
			m.draws(a[0])
			for i := 0; i < s.Len; i++ {
				m.sliceSet(s, i, X{sym.Atom(m.Fresh("byte"))})
			}
			m.Samples = append(m.Samples, Sample{Kind: "bytes", Src: src, Pos: m.Pos()})
		}
		return Tup{}
	}
	// ---- ring construction
	M["(*"+rp+"Ring).genNTTParams"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := a[0]
		if m.Get(r, "AllowsNTT") == B(true) {
			return Nil{}
		}
		qs := m.Moduli(r)
		n := m.intOf(m.Get(r, "N"))
		st := func(name string, v Value) { p, _ := m.FieldPtr(r, nil, name); m.Store(p, v) }
		su := types.NewSlice(tU64)
		var resc []Value
		for j := 1; j < len(qs); j++ {
			var row []Value
			for i := 0; i < j; i++ {
				row = append(row, X{sym.Red(sym.Neg(sym.Div(sym.R, qs[j])), qs[i])})
			}
			resc = append(resc, m.SliceOf(tU64, row))
		}
		st("RescaleParams", m.SliceOf(su, resc))
		var psi, psii, nps, npsi, ninv []Value
		tab := func(tag string, q *sym.E) Value {
			s := m.MakeSlice(tU64, n, n)
			m.S.Mem[s.O] = &Row{N: n, E: sym.RAtom(tag + ":" + qstr(q)), Dom: 0, Q: q}
			return s
		}
		for _, q := range qs {
			psi = append(psi, X{sym.Raw("psiM", "", q)})
			psii = append(psii, X{sym.Raw("psiinvM", "", q)})
			nps = append(nps, tab("psi", q))
			npsi = append(npsi, tab("psiinv", q))
			ninv = append(ninv, X{sym.Raw("ntni", "", q)})
		}
		st("PsiMont", m.SliceOf(tU64, psi))
		st("PsiInvMont", m.SliceOf(tU64, psii))
		st("NttPsi", m.SliceOf(su, nps))
		st("NttPsiInv", m.SliceOf(su, npsi))
		st("NttNInv", m.SliceOf(tU64, ninv))
		st("AllowsNTT", B(true))
		return Nil{}
	}
	// ---- transforms
	ntt := func(name string, inv bool, lazy int) {
		el(name, func(m *Machine, a []Value) Value {
			var q *sym.E
			var ok bool
			r, s := m.RowOf(a[0])
			_, d := m.RowOf(a[1])
			tabR, _ := m.RowOf(a[3])
			n := m.intOf(a[2])
			if s.Len < n || d.Len < n {
				m.fault("index out of range in %s", name)
			}
			tag := "psi"
			if inv {
				q = m.u64(a[5])
				tag = "psiinv"
				ok = m.checkQinv(a[6], q, name) && m.u64(a[4]) == sym.Raw("ntni", "", q)
			} else {
				q = m.u64(a[4])
				ok = m.checkQinv(a[5], q, name) && m.checkBred(a[6], q, name)
			}
			w := m.Whole(r, q)
			if !ok || tabR.Elems != nil || tabR.E != sym.RAtom(tag+":"+qstr(q)) {
				m.Note("%s modulo %s uses the tables of another modulus", name, q)
				m.SetRow(d, &Row{N: m.N, E: sym.Raw("em", "0:badntt", w.E, q), Dom: 0, Q: q})
				return Tup{}
			}
			switch b := m.bndIn(r, q); {
			case inv && b > 2:
				m.Note("%s: input entries up to %d times the modulus %s", name, b, q)
			case !inv: // the butterflies add 4q before they reduce
				m.checkWord(math.Max(float64(b+4), 8), q, name)
			}
			m.SetRow(d, m.transform(w, inv, lazy))
			return Tup{}
		})
	}
	ntt("NTT", false, 1)
	ntt("NTTLazy", false, 2)
	ntt("InvNTT", true, 1)
	ntt("InvNTTLazy", true, 2)
	installLvl(m)
	installSamplers(m)
	installEncoders(m)
	_ = bits.Len64
	_ = strings.HasPrefix
}

// FreshPrime makes a modulus atom of the given bit size.
func (m *Machine) FreshPrime(prefix string, logQ int, note string) *sym.E {
	q := sym.Atom(fmt.Sprintf("%s.%d", m.Fresh(prefix), logQ))
	p := math.Ldexp(1, logQ)
	sym.SetRange(q, p*(1-math.Ldexp(1, -18)), p*(1-math.Ldexp(1, -30)))
	m.Mods = append(m.Mods, q)
	return q
}

// powMod is x^e mod q (x in Montgomery form if mont).
func (m *Machine) powMod(x, e, q *sym.E, mont bool) *sym.E {
	if mont {
		x = sym.Div(x, sym.R)
	}
	x = sym.Strip(x, q)
	var r *sym.E
	if k, ok := e.Int(); ok && k >= 0 && k < 64 {
		r = sym.PowInt(x, int(k))
	} else if k, ok := sym.Sub(e, q).Int(); ok && k >= -16 && k < 0 { // q-1-j: x^-j
		r = sym.PowInt(x, int(k)+1)
	} else {
		r = sym.Raw("powmod", "", x, e, q)
	}
	if mont {
		r = sym.Mul(r, sym.R)
	}
	return r
}

// transform moves a row one step between the coefficient and evaluation domains.
func (m *Machine) transform(w *Row, inv bool, b int) *Row {
	if w.E == sym.Zero {
		return &Row{N: w.N, E: sym.Zero, Dom: -1, Q: w.Q}
	}
	e, d := w.E, w.Dom
	if inv {
		switch d {
		case -1: // all entries equal: the ring constant
			e, d = sym.DropJ(e), 0
		case 0:
			d = -2
		default:
			d--
		}
	} else {
		switch d {
		case -1:
			d = 1
		case -2:
			d = 0
		default:
			d++
		}
	}
	return &Row{N: w.N, E: e, Dom: d, Q: w.Q, B: b}
}

func (m *Machine) prngNote(v Value) string {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	if p, ok := v.(*Ptr); ok {
		return p.O.Note
	}
	return fmt.Sprintf("%T", v)
}

// ---- polynomial-level operations of ring.Ring ----

func installLvl(m *Machine) {
	M := m.Models
	R := "(*" + rp + "Ring)."
	// ternary ops f(level, p1, p2, p3)
	tern := func(name string, noLvl bool, f func(m *Machine, q *sym.E, i int, r, a, b, c Value, x, y, z *Row) *Row) {
		M[R+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			r := a[0]
			qs := m.Moduli(r)
			lvl := len(qs) - 1
			k := 1
			if !noLvl {
				lvl = m.intOf(a[1])
				k = 2
			}
			for i := 0; i <= lvl; i++ {
				if i >= len(qs) {
					m.fault("index out of range [%d] with length %d", i, len(qs))
				}
				s1, s2, s3 := m.polyRow(a[k], i), m.polyRow(a[k+1], i), m.polyRow(a[k+2], i)
				x, _ := m.RowOf(s1)
				y, _ := m.RowOf(s2)
				z, _ := m.RowOf(s3)
				m.SetRow(s3, f(m, qs[i], i, r, a[k], a[k+1], a[k+2], x, y, z))
			}
			return Tup{}
		}
	}
	setB := func(r *Row, b int) *Row { n := *r; n.B = b; n.memo, n.memoQ = nil, nil; return &n }
	tern("AddLvl", false, func(m *Machine, q *sym.E, i int, r, _, _, _ Value, x, y, z *Row) *Row {
		b := m.bndIn(x, q) + m.bndIn(y, q) - 1
		m.checkWord(float64(b+1), q, "AddLvl")
		return setB(m.rowAdd(x, y, q, false, "AddLvl"), imax(1, b))
	})
	tern("SubLvl", false, func(m *Machine, q *sym.E, i int, r, _, _, _ Value, x, y, z *Row) *Row {
		if m.bndIn(y, q) > 1 {
			m.Note("SubLvl: the subtrahend is not reduced modulo %s", q)
		}
		b := m.bndIn(x, q)
		return setB(m.rowAdd(x, y, q, true, "SubLvl"), imax(1, b))
	})
	tern("AddNoModLvl", false, func(m *Machine, q *sym.E, i int, r, _, _, _ Value, x, y, z *Row) *Row {
		b := m.bndIn(x, q) + m.bndIn(y, q)
		m.checkWord(float64(b), q, "AddNoModLvl")
		return setB(m.rowAdd(x, y, q, false, "AddNoModLvl"), imax(1, b))
	})
	tern("SubNoModLvl", false, func(m *Machine, q *sym.E, i int, r, _, _, _ Value, x, y, z *Row) *Row {
		if m.bndIn(y, q) > 1 {
			m.Note("SubNoModLvl: the subtrahend is not reduced modulo %s", q)
		}
		b := m.bndIn(x, q) + 1
		m.checkWord(float64(b), q, "SubNoModLvl")
		return setB(m.rowAdd(x, y, q, true, "SubNoModLvl"), b)
	})
	type acc int
	const (
		set acc = iota
		add
		subt
		addNoMod
		subNoMod
	)
	mul := func(name string, noLvl, mont bool, lazy int, ac acc) {
		tern(name, noLvl, func(m *Machine, q *sym.E, i int, r, _, _, _ Value, x, y, z *Row) *Row {
			k := sym.One
			if mont {
				k = sym.Inv(sym.R)
			}
			bx, by := m.bndIn(x, q), m.bndIn(y, q)
			if _, h, ok := q.Range(); ok && mont && float64(bx*by)*h > math.Ldexp(1, 64)*(1+1e-9) {
				m.Note("%s: operands too large for a Montgomery reduction modulo %s", name, q)
			}
			p := m.rowMul(x, y, k, q, name)
			switch ac {
			case set:
				return setB(p, lazy)
			case add, subt:
				return setB(m.rowAdd(z, p, q, ac == subt, name), imax(1, m.bndIn(z, q)))
			}
			b := m.bndIn(z, q) + lazy
			m.checkWord(float64(b), q, name)
			return setB(m.rowAdd(z, p, q, ac == subNoMod, name), b)
		})
	}
	mul("MulCoeffs", true, false, 1, set)
	mul("MulCoeffsAndAdd", true, false, 1, add)
	mul("MulCoeffsAndAddNoMod", true, false, 1, addNoMod)
	mul("MulCoeffsConstant", true, false, 2, set)
	mul("MulCoeffsMontgomeryLvl", false, true, 1, set)
	mul("MulCoeffsMontgomeryConstantLvl", false, true, 2, set)
	mul("MulCoeffsMontgomeryAndAddLvl", false, true, 1, add)
	mul("MulCoeffsMontgomeryAndAddNoModLvl", false, true, 1, addNoMod)
	mul("MulCoeffsMontgomeryConstantAndAddNoModLvl", false, true, 2, addNoMod)
	mul("MulCoeffsMontgomeryAndSubLvl", false, true, 1, subt)
	mul("MulCoeffsMontgomeryAndSubNoMod", true, true, 1, subNoMod)
	// unary ops
	un := func(name string, f func(m *Machine, q *sym.E, i int, extra Value, x *Row) *Row, nExtra int) {
		M[R+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			qs := m.Moduli(a[0])
			lvl := m.intOf(a[1])
			var ex Value
			out := a[3]
			if nExtra == 1 {
				ex, out = a[3], a[4]
			}
			for i := 0; i <= lvl; i++ {
				if i >= len(qs) {
					m.fault("index out of range [%d] with length %d", i, len(qs))
				}
				s1, s2 := m.polyRow(a[2], i), m.polyRow(out, i)
				x, _ := m.RowOf(s1)
				m.SetRow(s2, f(m, qs[i], i, ex, x))
			}
			return Tup{}
		}
	}
	scale := func(m *Machine, x *Row, k, q *sym.E, b int) *Row {
		w := m.Whole(x, q)
		e := sym.Strip(sym.Mul(w.E, k), q)
		d := w.Dom
		if e == sym.Zero {
			d = -1
		}
		return &Row{N: m.N, E: e, Dom: d, Q: q, B: b}
	}
	un("NegLvl", func(m *Machine, q *sym.E, i int, _ Value, x *Row) *Row {
		if m.bndIn(x, q) > 1 {
			m.Note("NegLvl: the operand is not reduced modulo %s", q)
		}
		return scale(m, x, sym.Int(-1), q, 1)
	}, 0)
	un("ReduceLvl", func(m *Machine, q *sym.E, i int, _ Value, x *Row) *Row { return scale(m, x, sym.One, q, 1) }, 0)
	un("ReduceConstantLvl", func(m *Machine, q *sym.E, i int, _ Value, x *Row) *Row { return scale(m, x, sym.One, q, 2) }, 0)
	un("InvMFormLvl", func(m *Machine, q *sym.E, i int, _ Value, x *Row) *Row { return scale(m, x, sym.Inv(sym.R), q, 1) }, 0)
	un("MulScalarLvl", func(m *Machine, q *sym.E, i int, k Value, x *Row) *Row { return scale(m, x, m.u64(k), q, 1) }, 1)
	un("MulScalarBigintLvl", func(m *Machine, q *sym.E, i int, k Value, x *Row) *Row { return scale(m, x, m.big(k), q, 1) }, 1)
	M[rp+"MFormVec"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		q := m.u64(a[2])
		x, _ := m.RowOf(a[0])
		_, d := m.RowOf(a[1])
		if !m.checkBred(a[3], q, "MFormVec") {
			w := m.Whole(x, q)
			m.SetRow(d, &Row{N: m.N, E: sym.Raw("em", fmt.Sprintf("%d:badmform", w.Dom), w.E, q), Dom: w.Dom, Q: q})
			return Tup{}
		}
		m.SetRow(d, scale(m, x, sym.R, q, 1))
		return Tup{}
	}
	// automorphism in the evaluation domain
	perm := func(name string, addTo bool) {
		M[rp+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			lvl := m.intOf(a[0])
			gal := m.galoisOfTable(a[2])
			if p, ok := a[1].(*Ptr); ok {
				if o, ok := a[3].(*Ptr); ok && p.O == o.O && eqPath(p.Path, o.Path) {
					m.Note("%s is applied in place: entries are overwritten before they are read", name)
					gal = 0
				}
			}
			for i := 0; i <= lvl; i++ {
				s1, s2 := m.polyRow(a[1], i), m.polyRow(a[3], i)
				x, _ := m.RowOf(s1)
				q := x.Q
				if q == nil {
					q = m.rowModulus(s1, s2)
				}
				if x.Elems == nil && x.E == sym.Zero {
					if !addTo {
						m.SetRow(s2, x)
					}
					continue
				}
				if q == nil {
					m.undecided("%s on a polynomial of unknown modulus", name)
				}
				w := m.Whole(x, q)
				var r *Row
				switch {
				case gal == 0 || w.Dom != 1 && w.Dom != -1:
					if gal != 0 {
						m.Note("%s is applied to a polynomial in domain %d", name, w.Dom)
					}
					r = &Row{N: m.N, E: sym.Raw("em", fmt.Sprintf("%d:badperm", w.Dom), w.E, sym.Int(int64(i))), Dom: w.Dom, Q: q}
				case w.Dom == -1:
					r = w
				default:
					r = &Row{N: m.N, E: sym.Perm(gal, w.E), Dom: 1, Q: q, B: x.Bnd()}
				}
				if addTo {
					z, _ := m.RowOf(s2)
					b := m.bndIn(z, q) + r.Bnd()
					r = setB(m.rowAdd(z, r, q, false, name), b)
				}
				m.SetRow(s2, r)
			}
			return Tup{}
		}
	}
	perm("PermuteNTTWithIndexLvl", false)
	perm("PermuteNTTWithIndexAndAddNoModLvl", true)
}

// rowModulus guesses the modulus of entrywise rows from their entries.
func (m *Machine) rowModulus(ss ...Slice) *sym.E {
	for _, s := range ss {
		r, _ := m.RowOf(s)
		if r.Q != nil {
			return r.Q
		}
		for _, v := range r.Elems {
			if e, ok := ToE(v); ok {
				if n := e.Single(); n != nil && (n.Op == "red" || n.Op == "lazy") {
					return n.Args[1]
				}
			}
		}
	}
	return nil
}

// galoisOfTable recognises the index table of an automorphism (0: none).
func (m *Machine) galoisOfTable(t Value) int {
	s, ok := t.(Slice)
	if !ok || s.Len < m.N {
		m.fault("index out of range (automorphism table)")
	}
	var idx []int
	for i := 0; i < m.N; i++ {
		k, ok := m.sliceGet(s, i).(I)
		if !ok {
			m.Note("automorphism table is not constant")
			return 0
		}
		idx = append(idx, int(k))
	}
	logN := bits.Len(uint(m.N)) - 1
	rev := func(x int) int { return int(bits.Reverse64(uint64(x)) >> (64 - uint(logN))) }
	for g := 1; g < 2*m.N; g += 2 {
		ok := true
		for i := 0; i < m.N; i++ {
			t1 := 2*rev(i) + 1
			t2 := ((g*t1)&(2*m.N-1) - 1) >> 1
			if idx[i] != rev(t2) {
				ok = false
				break
			}
		}
		if ok {
			return g
		}
	}
	m.Note("index table is not that of an automorphism")
	return 0
}

// Bound bounds the entries of a row in multiples of q.
func (m *Machine) Bound(r *Row, q *sym.E) int { return m.bndIn(r, q) }
