package ai

import (
	"fmt"
	"go/types"

	"mkverif/sym"

	"golang.org/x/tools/go/ssa"
)

// sample registers a draw and returns its atom.
func (m *Machine) sample(kind string, sampler Value, param string, obj Value) *sym.E {
	pre := map[string]string{"gauss": "e", "ternary": "u", "sparse": "w", "uniform": "a"}[kind]
	at := sym.RAtom(m.Fresh(pre))
	src := "?"
	if sampler != nil {
		g := m.Get(sampler, "prng")
		src = m.prngNote(g)
		// a draw advances the generator and uses up the random bytes the sampler holds
		m.draws(g)
		m.draws(sampler)
	}
	var o *Obj
	if p, ok := obj.(*Ptr); ok {
		o = p.O
	}
	m.Samples = append(m.Samples, Sample{Kind: kind, Atom: at, Src: src, Pos: m.Pos(), Param: param, Obj: o})
	return at
}

// draws records a write to the state of a generator or of a sampler.
func (m *Machine) draws(v Value) {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	if p, ok := v.(*Ptr); ok {
		m.wrote(p.O)
	}
}

// IsNoise recognises atoms drawn from the error distribution.
func IsNoise(n *sym.Node) bool {
	return n.Op == "ra" && len(n.S) > 1 && n.S[0] == 'e' && n.S[1] >= '0' && n.S[1] <= '9'
}

func installSamplers(m *Machine) {
	M := m.Models
	G := "(*" + rp + "GaussianSampler)."
	gauss := func(add bool) Model {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			lvl := m.intOf(a[1])
			qs := m.Moduli(a[3])
			e := m.sample("gauss", a[0], fmt.Sprintf("sigma=%s bound=%s", Show(a[4]), Show(a[5])), a[2])
			if lvl >= len(qs) {
				m.fault("slice bounds out of range [:%d] with capacity %d", lvl+1, len(qs))
			}
			for i := 0; i <= lvl; i++ {
				s := m.polyRow(a[2], i)
				r := &Row{N: m.N, E: e, Dom: 0, Q: qs[i]}
				if add {
					x, _ := m.RowOf(s)
					b := m.bndIn(x, qs[i])
					r = m.rowAdd(x, r, qs[i], false, "ReadAndAdd")
					r.B = imax(1, b)
				}
				m.SetRow(s, r)
			}
			return Tup{}
		}
	}
	M[G+"readLvl"] = gauss(false)
	M[G+"ReadAndAddFromDistLvl"] = gauss(true)
	T := "(*" + rp + "TernarySampler)."
	tern := func(kind string) Model {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			lvl := m.intOf(a[1])
			qs := m.Moduli(m.Get(a[0], "baseRing"))
			mv := m.values(m.Get(a[0], "matrixValues"))
			param := "p=" + Show(m.Get(a[0], "p"))
			if kind == "sparse" {
				param = "hw=" + Show(m.Get(a[0], "hw"))
			} else if f, ok := m.Get(a[0], "p").(F); ok && f == 0 {
				panic(&AbsPanic{Pos: m.Pos(), Fn: m.fnName(), Msg: "cannot sample -> p = 0", Explicit: true})
			}
			u := m.sample(kind, a[0], param, a[2])
			for i := 0; i <= lvl; i++ {
				s := m.polyRow(a[2], i)
				if i >= len(mv) {
					m.fault("index out of range [%d] with length %d", i, len(mv))
				}
				row := mv[i].(*Agg)
				one, neg := sym.Strip(m.u64(row.V[1]), qs[i]), sym.Strip(m.u64(row.V[2]), qs[i])
				old, _ := m.RowOf(s)
				e := sym.Mul(u, one)
				if sym.Strip(sym.Add(one, neg), qs[i]) != sym.Zero {
					m.Note("ternary sampler: the values for 1 and -1 are not opposite")
					e = sym.Raw("em", "0:badternary", u)
				}
				if kind == "sparse" && (old.Elems != nil || old.E != sym.Zero) {
					m.Note("sparse ternary sampling into a polynomial that is not zero")
					w := m.Whole(old, qs[i])
					e = sym.Raw("em", "0:sparse", u, w.E)
				}
				m.SetRow(s, &Row{N: m.N, E: e, Dom: 0, Q: qs[i]})
			}
			return Tup{}
		}
	}
	M[T+"sampleProba"] = tern("ternary")
	M[T+"sampleSparse"] = tern("sparse")
	U := "(*" + rp + "UniformSampler)."
	uni := func(lvl bool) Model {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			qs := m.Moduli(m.Get(a[0], "baseRing"))
			n := len(qs)
			pol := a[1]
			if lvl {
				n = m.intOf(a[1]) + 1
				pol = a[2]
			}
			e := m.sample("uniform", a[0], "", pol)
			for i := 0; i < n; i++ {
				if i >= len(qs) {
					m.fault("index out of range [%d] with length %d", i, len(qs))
				}
				m.SetRow(m.polyRow(pol, i), &Row{N: m.N, E: e, Dom: 1, Q: qs[i]})
			}
			return Tup{}
		}
	}
	M[U+"Read"] = uni(false)
	M[U+"ReadLvl"] = uni(true)
	// extension of a small polynomial from Q to P
	M["(*"+lp+"RingQP).ExtendBasisSmallNormAndCenter"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		rq, rpp := m.Get(a[0], "RingQ"), m.Get(a[0], "RingP")
		q0 := m.Moduli(rq)[0]
		ps := m.Moduli(rpp)
		lvl := m.intOf(a[2])
		if in, ok := a[1].(*Ptr); ok {
			if out, ok := a[3].(*Ptr); ok && (in.O != out.O || !eqPath(in.Path, out.Path)) {
				cp := m.P.Func("ring", "Poly", "Copy")
				m.CallFn(cp, []Value{a[3], a[1]}, nil)
			}
		}
		x, _ := m.RowOf(m.polyRow(a[1], 0))
		w := m.Whole(x, q0)
		for i := 0; i <= lvl; i++ {
			if i >= len(ps) {
				m.fault("index out of range [%d] with length %d", i, len(ps))
			}
			d := m.polyRow(a[4], i)
			if w.E == sym.Zero {
				m.SetRow(d, &Row{N: m.N, E: sym.Zero, Dom: -1, Q: ps[i]})
				continue
			}
			if w.Dom == 0 && SmallE(w.E) {
				m.SetRow(d, &Row{N: m.N, E: w.E, Dom: 0, Q: ps[i]})
				continue
			}
			m.Note("the centred extension to P is applied to a polynomial that is not small (%s)", w.E)
			m.SetRow(d, &Row{N: m.N, E: sym.Raw("em", "0:center", w.E, q0), Dom: w.Dom, Q: ps[i]})
		}
		return Tup{}
	}
}

// SmallE: an integer combination of small samples (error, ternary, sparse).
func SmallE(e *sym.E) bool {
	for _, mo := range e.M {
		if !mo.C.IsInt() || len(mo.F) != 1 || mo.F[0].X != 1 {
			return false
		}
		n := mo.F[0].N
		if n.Op == "perm" {
			n = n.Args[0].Single()
			if n == nil {
				return false
			}
		}
		if n.Op != "ra" || len(n.S) < 2 || (n.S[0] != 'e' && n.S[0] != 'u' && n.S[0] != 'w' && n.S[0] != 's') {
			return false
		}
	}
	return true
}

func installEncoders(m *Machine) {
	M := m.Models
	enc := func(pkg, typ string) Model {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			t := m.P.Type(pkg, typ)
			if t == nil {
				m.undecided("no encoder type %s.%s", pkg, typ)
			}
			o := m.New(t, m.zero(t), "encoder")
			p := &Ptr{O: o}
			pp, pt := m.FieldPtr(p, nil, "params")
			_ = pt
			m.Store(pp, a[0])
			return Iface{types.NewPointer(t), p}
		}
	}
	M[Lattigo+"/ckks.NewEncoder"] = enc("ckks", "encoderComplex128")
	M[Lattigo+"/bfv.NewEncoder"] = enc("bfv", "encoder")
	C := "(*" + Lattigo + "/ckks.encoderComplex128)."
	ringOf := func(m *Machine, encv Value) Value {
		params := m.Get(encv, "params")
		po := m.New(m.P.Type("ckks", "Parameters"), params, "tmp")
		return m.Get(&Ptr{O: po}, "ringQ")
	}
	encode := func(ntt bool) Model {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			vals := m.values(a[2])
			ls := m.intOf(a[3])
			if ls > 20 || len(vals) > m.N/2 || len(vals) > 1<<uint(ls) || 1<<uint(ls) > m.N/2 {
				panic(&AbsPanic{Pos: m.Pos(), Fn: m.fnName(), Msg: "cannot Encode: too many values/slots for the given ring degree", Explicit: true})
			}
			var es []*sym.E
			for i := 0; i < 1<<uint(ls); i++ {
				if i >= len(vals) {
					es = append(es, sym.Zero, sym.Zero)
					continue
				}
				c, ok := vals[i].(Cx)
				if !ok {
					m.undecided("message entry is %T", vals[i])
				}
				es = append(es, m.num(c.Re), m.num(c.Im))
			}
			ring := sym.Raw("ring", fmt.Sprintf("ckksenc%d", ls), es...)
			scale := m.num(m.Get(a[1], "Scale"))
			pol := m.Get(a[1], "Plaintext", "Value")
			qs := m.Moduli(ringOf(m, a[0]))
			d := 0
			if ntt {
				d = 1
			}
			n := len(m.PolyRows(pol))
			for i := 0; i < n; i++ {
				if i >= len(qs) {
					m.fault("slice bounds out of range")
				}
				m.SetRow(m.polyRow(pol, i), &Row{N: m.N, E: sym.Mul(scale, ring), Dom: d, Q: qs[i]})
			}
			m.Store(m.Sub(pol, "IsNTT"), B(ntt))
			return Tup{}
		}
	}
	M[C+"Encode"] = encode(false)
	M[C+"EncodeNTT"] = encode(true)
	M[C+"Decode"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		ls := m.intOf(a[2])
		if 1<<uint(ls) > m.N/2 {
			panic(&AbsPanic{Pos: m.Pos(), Fn: m.fnName(), Msg: "cannot Decode: too many slots for the given ring degree", Explicit: true})
		}
		es := m.decodeRows(m.Get(a[1], "Plaintext", "Value"), ringOf(m, a[0]), true)
		es = append(es, m.num(m.Get(a[1], "Scale")))
		var out []Value
		for i := 0; i < 1<<uint(ls); i++ {
			out = append(out, Cx{X{sym.Raw("ckksdec", fmt.Sprintf("re%d/%d", i, ls), es...)}, X{sym.Raw("ckksdec", fmt.Sprintf("im%d/%d", i, ls), es...)}})
		}
		return m.SliceOf(types.Typ[types.Complex128], out)
	}
	Bf := "(*" + Lattigo + "/bfv.encoder)."
	M[Bf+"EncodeInt"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		vals := m.values(a[1])
		if len(vals) > m.N {
			panic(&AbsPanic{Pos: m.Pos(), Fn: m.fnName(), Msg: "invalid input to encode: number of coefficients must be smaller or equal to the ring degree", Explicit: true})
		}
		es := make([]*sym.E, m.N)
		for i := range es {
			es[i] = sym.Zero
			if i < len(vals) {
				es[i] = m.num(vals[i])
			}
		}
		ring := sym.Raw("ring", "bfvenc", es...)
		pol := m.Get(a[2], "Plaintext", "Value")
		qs := m.Moduli(ringOf(m, a[0]))
		n := len(m.PolyRows(pol))
		for i := 0; i < n; i++ {
			if i >= len(qs) {
				m.fault("index out of range [%d] with length %d", i, len(qs))
			}
			m.SetRow(m.polyRow(pol, i), &Row{N: m.N, E: ring, Dom: 0, Q: qs[i]})
		}
		return Tup{}
	}
	M[Bf+"DecodeInt"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		pt, ok := a[1].(Iface)
		if !ok {
			m.undecided("DecodeInt of %T", a[1])
		}
		pol := m.Get(pt.V, "Plaintext", "Value")
		r := ringOf(m, a[0])
		if n := len(m.PolyRows(pol)); n < len(m.Moduli(r)) {
			m.fault("index out of range [%d] with length %d", n, n)
		}
		es := m.decodeRows(pol, r, false)
		out, ok := a[2].(Slice)
		if !ok || out.Len < m.N {
			m.fault("index out of range in DecodeInt")
		}
		for i := 0; i < m.N; i++ {
			m.sliceSet(out, i, X{sym.Raw("bfvdec", fmt.Sprint(i), es...)})
		}
		return Tup{}
	}
}

// decodeRows brings a plaintext to coefficient form and returns its rows.
func (m *Machine) decodeRows(pol, ring Value, honourNTT bool) []*sym.E {
	qs := m.Moduli(ring)
	isNTT := honourNTT && m.Get(pol, "IsNTT") == B(true)
	var es []*sym.E
	for i := range m.PolyRows(pol) {
		if i >= len(qs) {
			m.fault("index out of range [%d] with length %d", i, len(qs))
		}
		x, _ := m.RowOf(m.polyRow(pol, i))
		w := m.Whole(x, qs[i])
		if isNTT {
			w = m.transform(w, true, 1)
		}
		e := w.E
		if e != sym.Zero && w.Dom != 0 {
			if w.Dom == -1 { // constant polynomial rows
				e = sym.Raw("em", "0:allequal", e)
			} else {
				e = sym.Raw("em", fmt.Sprintf("%d:wrongdomain", w.Dom), e)
				m.Note("a plaintext is decoded in domain %d", w.Dom)
			}
		}
		es = append(es, sym.Strip(e, qs[i]))
	}
	return es
}
