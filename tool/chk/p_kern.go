package chk

import (
	"fmt"

	"mkverif/ai"
	"mkverif/sym"
)

// ---- plain polynomials ----

func (e *Env) ringOf(f string) ai.Value {
	return e.M.Get(e.Call("mkrlwe", "Parameters", "RingQP", e.Rlwe()), f)
}

func (e *Env) newPoly(ring ai.Value) ai.Value { return e.Call("ring", "Ring", "NewPoly", ring) }

// atomPoly is a new polynomial whose rows modulo mods all hold v.
func (e *Env) atomPoly(ring ai.Value, mods []*sym.E, v *sym.E, dom int) ai.Value {
	p := e.newPoly(ring)
	e.fillRows(p, mods, v, dom)
	if dom == 1 {
		e.storeField(p, "IsNTT", ai.B(true))
	}
	return p
}

// rowsAre decides that the first rows of a polynomial hold the wanted elements
// in domain dom, as representatives below bound times the modulus.
func (e *Env) rowsAre(rule, an, what string, pol ai.Value, mods []*sym.E, want func(q *sym.E) *sym.E, dom, bound int) bool {
	rows := e.M.PolyRows(pol)
	if len(rows) < len(mods) {
		return e.c.Ok(rule, an, false, "%s has %d rows, expected at least %d", what, len(rows), len(mods))
	}
	for i, q := range mods {
		raw, _ := e.M.RowOf(rows[i])
		r := e.M.Whole(raw, q)
		if r.Dom != dom && r.E != sym.Zero {
			return e.c.Ok(rule, an, false, "%s modulo %s is in domain %d, expected %d", what, q, r.Dom, dom)
		}
		if d := Lower(sym.Sub(r.E, want(q)), q); d != sym.Zero {
			e.c.Ok(rule, an, false, "%s modulo %s differs from the expected value by %s", what, q, short(d))
			e.c.Writes(e.LastWrites(pol))
			return false
		}
		if b := e.M.Bound(raw, q); bound > 0 && b > bound {
			return e.c.Ok(rule+".range", an, false, "%s modulo %s has coefficients up to %d times the modulus, expected at most %d", what, q, b, bound)
		}
	}
	return e.c.Ok(rule, an, true, "")
}

// group is the part of a digit's primes that is present at a level.
func (e *Env) group(i, level int) []*sym.E {
	al := e.Sh.Alpha()
	lo, hi := i*al, (i+1)*al
	if hi > level+1 {
		hi = level + 1
	}
	return e.Q[lo:hi]
}

func betaAt(sh Shape, level int) int { return (level + sh.Alpha()) / sh.Alpha() }

func (e *Env) digitPtr(swk ai.Value, i int) *ai.Ptr {
	sl := e.M.Get(swk, "Value").(ai.Slice)
	if i >= sl.Len {
		panic(&ai.Undecided{Pos: "harness", Msg: "the digit vector is too short"})
	}
	return &ai.Ptr{O: sl.O, Path: append(append([]int{}, sl.Path...), sl.Off+i)}
}

func constE(v *sym.E) func(q *sym.E) *sym.E { return func(*sym.E) *sym.E { return v } }

// digitsAre decides that a digit vector is the decomposition of a at a level.
func (e *Env) digitsAre(rule, an string, swk ai.Value, a *sym.E, level int) bool {
	good := true
	for i := 0; i < betaAt(e.Sh, level); i++ {
		d := e.digitPtr(swk, i)
		v := sym.Lift(a, 0, e.group(i, level))
		good = e.rowsAre(rule, an, fmt.Sprintf("digit %d at level %d", i, level), e.M.Get(d, "Q"), e.Level(level), constE(v), 1, 0) && good
		good = e.rowsAre(rule, an, fmt.Sprintf("digit %d at level %d", i, level), e.M.Get(d, "P"), e.PM, constE(v), 1, 0) && good
	}
	return good
}

func (e *Env) kswitcher() ai.Value {
	switch {
	case e.Ks != nil:
		return e.Ks
	case e.Kind == "bfv":
		return e.M.Get(e.Eval, "ksw")
	}
	return e.M.Get(e.Eval, "ksw")
}

func decompUnits(tier string) []Unit {
	var us []Unit
	for _, sh := range decompShapes(tier) {
		L := lv(sh)
		us = append(us, envUnit("rlwe", sh, "Decompose", "decompose", [3]string{"mkrlwe", "KeySwitcher", "Decompose"}, func(e *Env, an string) {
			ad := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
			n := 0
			for pass := 0; pass < 2; pass++ { // upwards and downwards, into the same vector
				for i := 0; i <= L; i++ {
					l := i
					if pass == 1 {
						l = L - i
					}
					for dom := 0; dom < 2; dom++ {
						n++
						v := sym.RAtom(fmt.Sprintf("a%d", n))
						top := l
						if n%2 == 0 {
							top = L // operands of a higher level are cut
						}
						a := e.Call("ring", "", "NewPoly", ai.I(N), ai.I(top+1))
						e.fillRows(a, e.Q, v, dom)
						e.storeField(a, "IsNTT", ai.B(dom == 1))
						fr := e.Freeze(vals{"the operand": a})
						e.Call("mkrlwe", "KeySwitcher", "Decompose", e.Ks, ai.I(l), a, ad)
						e.digitsAre("decompose", an, ad, v, l)
						e.Unchanged("decompose.kept", an, fr)
					}
				}
			}
		}))
		us = append(us, envUnit("rlwe", sh, "DecomposeSingleNTT, DecomposeAndSplit", "decompose.single", [3]string{"mkrlwe", "Decomposer", "DecomposeAndSplit"}, func(e *Env, an string) {
			al, be := sh.Alpha(), sh.Gamma
			dec := e.M.Get(e.Ks, "Decomposer")
			for l := 0; l <= L; l++ {
				for i := 0; i < betaAt(sh, l); i++ {
					v := sym.RAtom(fmt.Sprintf("a%d.%d", l, i))
					a := e.atomPoly(e.ringOf("RingQ"), e.Q, v, 0)
					fr := e.Freeze(vals{"the operand": a})
					want := constE(sym.Lift(v, 0, e.group(i, l)))
					what := fmt.Sprintf("digit %d at level %d", i, l)
					pq, pp := e.newPoly(e.ringOf("RingQ")), e.newPoly(e.ringOf("RingP"))
					e.Call("mkrlwe", "Decomposer", "DecomposeAndSplit", dec, ai.I(l), ai.I(sh.NP-1), ai.I(al), ai.I(i), ai.I(be), a, pq, pp)
					e.rowsAre("decompose.split", an, what, pq, e.Level(l), want, 0, 0)
					e.rowsAre("decompose.split", an, what, pp, e.PM, want, 0, 0)
					an2 := e.c.Anchor("mkrlwe", "KeySwitcher", "DecomposeSingleNTT")
					e.Call("mkrlwe", "KeySwitcher", "DecomposeSingleNTT", e.Ks, ai.I(l), ai.I(sh.NP-1), ai.I(al), ai.I(i), ai.I(be), a, pq, pp)
					e.rowsAre("decompose.single", an2, what, pq, e.Level(l), want, 1, 0)
					e.rowsAre("decompose.single", an2, what, pp, e.PM, want, 1, 0)
					e.Unchanged("decompose.kept", an, fr)
				}
			}
		}))
	}
	for _, sh := range sweepShapes(tier) {
		sh := sh
		us = append(us, Unit{sh.Name + "/Decompose", func(c *Ctx) {
			e := c.bare("rlwe", sh)
			an := c.Anchor("mkrlwe", "KeySwitcher", "Decompose")
			c.Scenario(e, "Decompose", "decompose", an, func() {
				ks := e.Call("mkrlwe", "", "NewKeySwitcher", e.Params)
				ad := e.Call("mkrlwe", "", "NewSwitchingKey", e.Params)
				for l := 0; l < sh.NQ; l++ {
					v := sym.RAtom(fmt.Sprintf("a%d", l))
					a := e.Call("ring", "", "NewPoly", ai.I(N), ai.I(l+1))
					e.fillRows(a, e.Q, v, l%2)
					e.storeField(a, "IsNTT", ai.B(l%2 == 1))
					e.Call("mkrlwe", "KeySwitcher", "Decompose", ks, ai.I(l), a, ad)
					e.digitsAre("decompose", an, ad, v, l)
				}
			})
		}})
	}
	for _, sh := range append([]Shape{bA1, bA13, bA2, bA24}, otherShapes("bfv", tier)...) {
		sh := sh
		us = append(us, envUnit("bfv", sh, "DecomposeBFV", "decompose.bfv", [3]string{"mkbfv", "KeySwitcher", "DecomposeBFV"}, func(e *Env, an string) {
			ks := e.bfvKs()
			l := lv(sh)
			R := append(append([]*sym.E{}, e.Q...), e.QMul...)
			ringR := e.Call("mkbfv", "Parameters", "RingR", e.Params)
			d1, d2 := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe()), e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
			for k := 0; k < 2; k++ {
				v := sym.RAtom(fmt.Sprintf("a%d", k))
				a := e.atomPoly(ringR, R, v, 0)
				fr := e.Freeze(vals{"the operand": a})
				e.Call("mkbfv", "KeySwitcher", "DecomposeBFV", ks, ai.I(l), a, d1, d2)
				e.digitsAre("decompose.bfv", an, d1, v, l)
				al := sh.Alpha()
				for i := 0; i < betaAt(sh, l); i++ {
					d := e.digitPtr(d2, i)
					w := constE(sym.Lift(v, 0, e.QMul[i*al:(i+1)*al]))
					what := fmt.Sprintf("digit %d of the second half", i)
					e.rowsAre("decompose.bfv", an, what, e.M.Get(d, "Q"), e.Q, w, 1, 0)
					e.rowsAre("decompose.bfv", an, what, e.M.Get(d, "P"), e.PM, w, 1, 0)
				}
				e.Unchanged("decompose.kept", an, fr)
			}
		}))
	}
	return us
}

func (e *Env) bfvKs() ai.Value { return e.Call("mkbfv", "", "NewKeySwitcher", e.Params) }

// sweepShapes: many numbers of primes and sizes of digits.
func sweepShapes(tier string) []Shape {
	var r []Shape
	seen := map[string]bool{}
	for _, sh := range decompShapes(tier) {
		seen[fmt.Sprint(sh.NQ, sh.NP, sh.Gamma)] = true
	}
	top, gs := 6, [][2]int{{2, 1}, {3, 1}, {4, 1}, {3, 2}, {4, 2}, {5, 2}, {6, 2}, {7, 2}, {8, 2}, {3, 3}, {6, 3}, {7, 3}, {4, 4}}
	if deep(tier) {
		top, gs = 9, append(gs, [2]int{2, 2}, [2]int{5, 1}, [2]int{10, 2}, [2]int{9, 3}, [2]int{8, 4})
	}
	for nq := 1; nq <= top; nq++ {
		for _, g := range gs {
			if !seen[fmt.Sprint(nq, g[0], g[1])] {
				r = append(r, Shape{Name: fmt.Sprintf("rlwe-q%dp%dg%d", nq, g[0], g[1]), NQ: nq, NP: g[0], Gamma: g[1]})
			}
		}
	}
	return r
}

func decompShapes(tier string) []Shape {
	return []Shape{rA1, rA2, rA2p, rA3, rG3, rP5,
		{Name: "rlwe-q6p3", NQ: 6, NP: 3, Gamma: 1}, {Name: "rlwe-q2p4", NQ: 2, NP: 4, Gamma: 2},
		{Name: "rlwe-q7p6", NQ: 7, NP: 6, Gamma: 2}, {Name: "rlwe-q4p6g3", NQ: 4, NP: 6, Gamma: 3}, {Name: "rlwe-q4p3", NQ: 4, NP: 3, Gamma: 2}}
}

// ---- external product ----

// gadgetAtoms fills a digit vector with unrelated ring elements in NTT and
// Montgomery form and returns them.
func (e *Env) gadgetAtoms(name string) (ai.Value, []*sym.E) {
	swk := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
	var bs []*sym.E
	for i := 0; i < betaAt(e.Sh, lv(e.Sh)); i++ {
		b := sym.RAtom(fmt.Sprintf("%s.%d", name, i))
		bs = append(bs, b)
		d := e.digitPtr(swk, i)
		e.fillRows(e.M.Get(d, "Q"), e.Q, sym.Mul(b, sym.R), 1)
		e.fillRows(e.M.Get(d, "P"), e.PM, sym.Mul(b, sym.R), 1)
	}
	return swk, bs
}

// isDown decides that a polynomial is x divided by P and rounded down, where x
// has the same expression modulo every prime.
func (e *Env) isDown(rule, an string, pol ai.Value, x *sym.E, level int) bool {
	rows := e.M.PolyRows(pol)
	if len(rows) < level+1 {
		return e.c.Ok(rule, an, false, "the result has %d rows, expected %d", len(rows), level+1)
	}
	m := map[*sym.E]*sym.E{}
	for i, q := range e.Level(level) {
		r, _ := e.M.RowOf(rows[i])
		r = e.M.Whole(r, q)
		if r.Dom != 0 && r.E != sym.Zero {
			return e.c.Ok(rule, an, false, "the result modulo %s is in domain %d, expected 0", q, r.Dom)
		}
		m[q] = r.E
	}
	pre, err := Undivide(m, e.PM)
	if err != "" {
		return e.c.Ok(rule, an, false, "division by P: %s", err)
	}
	for _, q := range append(append([]*sym.E{}, e.Level(level)...), e.PM...) {
		if d := Lower(sym.Sub(pre[q], x), q); d != sym.Zero {
			e.c.Ok(rule, an, false, "modulo %s the result differs from the expected value by %s (before division by P)", q, short(d))
			e.c.Writes(e.LastWrites(pol))
			return false
		}
	}
	return e.c.Ok(rule, an, true, "")
}

func extUnits(tier string) []Unit {
	var us []Unit
	for _, sh := range decompShapes(tier) {
		if sh.NQ > 5 {
			continue
		}
		L := lv(sh)
		// against an arbitrary gadget vector: exactly the sum of digit times entry
		us = append(us, envUnit("rlwe", sh, "ExternalProduct with an arbitrary vector", "external", [3]string{"mkrlwe", "KeySwitcher", "ExternalProduct"}, func(e *Env, an string) {
			swk, bs := e.gadgetAtoms("b")
			an2 := e.c.Anchor("mkrlwe", "KeySwitcher", "ExternalProductHoisted")
			hoist := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
			for _, l := range levelOrder(L) {
				for dom := 0; dom < 2; dom++ {
					v := sym.RAtom(fmt.Sprintf("a%d.%d", l, dom))
					a := e.atomPoly(e.ringOf("RingQ"), e.Q, v, dom)
					c := e.newPoly(e.ringOf("RingQ"))
					e.fillRows(c, e.Q, sym.RAtom("old"), 0)
					fr := e.Freeze(vals{"the operand": a, "the vector": swk})
					x := sym.Zero
					for i := 0; i < betaAt(sh, l); i++ {
						x = sym.Add(x, sym.Mul(sym.Lift(v, 0, e.group(i, l)), bs[i]))
					}
					e.Call("mkrlwe", "KeySwitcher", "ExternalProduct", e.Ks, ai.I(l), a, swk, c)
					e.isDown("external", an, c, x, l)
					e.Unchanged("external.kept", an, fr)
					e.Call("mkrlwe", "KeySwitcher", "Decompose", e.Ks, ai.I(l), a, hoist)
					fr = e.Freeze(vals{"the digits": hoist, "the vector": swk})
					for k := 0; k < 2; k++ {
						e.fillRows(c, e.Q, sym.RAtom("old"), 0)
						e.Call("mkrlwe", "KeySwitcher", "ExternalProductHoisted", e.Ks, ai.I(l), hoist, swk, c)
						e.isDown("external.hoisted", an2, c, x, l)
						e.Unchanged("external.kept", an2, fr)
					}
				}
			}
		}))
		// against a gadget encryption: the product with the encrypted value
		us = append(us, envUnit("rlwe", sh, "ExternalProduct with a gadget encryption", "external.key", [3]string{"mkrlwe", "KeySwitcher", "ExternalProduct"}, func(e *Env, an string) {
			swk := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
			e.Kgen("GenSwitchingKey", e.Sk["B"], swk)
			for _, l := range levelOrder(L) {
				for dom := 0; dom < 2; dom++ {
					for how := 0; how < 2; how++ {
						v := sym.RAtom(fmt.Sprintf("a%d.%d.%d", l, dom, how))
						a := e.atomPoly(e.ringOf("RingQ"), e.Q, v, dom)
						ct := e.Ct("out", l, nil)
						c, _ := e.MapGet(e.M.Get(ct, "Value"), "0")
						if how == 0 {
							e.Call("mkrlwe", "KeySwitcher", "ExternalProduct", e.Ks, ai.I(l), a, swk, c)
						} else {
							h := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
							e.Call("mkrlwe", "KeySwitcher", "Decompose", e.Ks, ai.I(l), a, h)
							e.Call("mkrlwe", "KeySwitcher", "ExternalProductHoisted", e.Ks, ai.I(l), h, swk, c)
						}
						e.Judge("external.key", an, ct, Want{Level: l, Target: sym.Mul(v, e.S["B"]), Div: e.divs(true, l, 0), Noise: true})
					}
				}
			}
		}))
	}
	for _, sh := range sweepShapes(tier) {
		sh := sh
		us = append(us, Unit{sh.Name + "/ExternalProduct", func(c *Ctx) {
			e := c.bare("rlwe", sh)
			an := c.Anchor("mkrlwe", "KeySwitcher", "ExternalProduct")
			c.Scenario(e, "ExternalProduct", "external", an, func() {
				e.Ks = e.Call("mkrlwe", "", "NewKeySwitcher", e.Params)
				an2 := c.Anchor("mkrlwe", "KeySwitcher", "ExternalProductHoisted")
				swk, bs := e.gadgetAtoms("b")
				hoist := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
				for l := 0; l < sh.NQ; l++ {
					v := sym.RAtom(fmt.Sprintf("a%d", l))
					a := e.atomPoly(e.ringOf("RingQ"), e.Q, v, l%2)
					c := e.newPoly(e.ringOf("RingQ"))
					e.fillRows(c, e.Q, sym.RAtom("old"), 0)
					x := sym.Zero
					for i := 0; i < betaAt(sh, l); i++ {
						x = sym.Add(x, sym.Mul(sym.Lift(v, 0, e.group(i, l)), bs[i]))
					}
					e.Call("mkrlwe", "KeySwitcher", "ExternalProduct", e.Ks, ai.I(l), a, swk, c)
					e.isDown("external", an, c, x, l)
					e.Call("mkrlwe", "KeySwitcher", "Decompose", e.Ks, ai.I(l), a, hoist)
					e.fillRows(c, e.Q, sym.RAtom("old"), 0)
					e.Call("mkrlwe", "KeySwitcher", "ExternalProductHoisted", e.Ks, ai.I(l), hoist, swk, c)
					e.isDown("external.hoisted", an2, c, x, l)
				}
			})
		}})
	}
	for _, sh := range append([]Shape{bA1, bA13, bA2, bA24}, otherShapes("bfv", tier)...) {
		sh := sh
		us = append(us, envUnit("bfv", sh, "ExternalProductBFV with arbitrary vectors", "external.bfv", [3]string{"mkbfv", "KeySwitcher", "ExternalProductBFV"}, func(e *Env, an string) {
			ks := e.bfvKs()
			l := lv(sh)
			an2 := e.c.Anchor("mkbfv", "KeySwitcher", "ExternalProductBFVHoisted")
			R := append(append([]*sym.E{}, e.Q...), e.QMul...)
			ringR := e.Call("mkbfv", "Parameters", "RingR", e.Params)
			b1, x1 := e.gadgetAtoms("b")
			b2, x2 := e.gadgetAtoms("c")
			d1, d2 := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe()), e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
			for k := 0; k < 2; k++ {
				v := sym.RAtom(fmt.Sprintf("a%d", k))
				a := e.atomPoly(ringR, R, v, 0)
				c := e.newPoly(e.ringOf("RingQ"))
				e.fillRows(c, e.Q, sym.RAtom("old"), 0)
				x := sym.Zero
				al := sh.Alpha()
				for i := range x1 {
					x = sym.Add(x, sym.Mul(sym.Lift(v, 0, e.group(i, l)), x1[i]), sym.Mul(sym.Lift(v, 0, e.QMul[i*al:(i+1)*al]), x2[i]))
				}
				fr := e.Freeze(vals{"the operand": a, "the first vector": b1, "the second vector": b2})
				e.Call("mkbfv", "KeySwitcher", "ExternalProductBFV", ks, ai.I(l), a, b1, b2, c)
				e.isDown("external.bfv", an, c, x, l)
				e.Unchanged("external.kept", an, fr)
				e.Call("mkbfv", "KeySwitcher", "DecomposeBFV", ks, ai.I(l), a, d1, d2)
				fr = e.Freeze(vals{"the first digits": d1, "the second digits": d2, "the first vector": b1, "the second vector": b2})
				for j := 0; j < 2; j++ {
					e.fillRows(c, e.Q, sym.RAtom("old"), 0)
					e.Call("mkbfv", "KeySwitcher", "ExternalProductBFVHoisted", ks, ai.I(l), d1, d2, b1, b2, c)
					e.isDown("external.bfv.hoisted", an2, c, x, l)
					e.Unchanged("external.kept", an2, fr)
				}
			}
		}))
	}
	return us
}

func levelOrder(L int) []int {
	var ls []int
	for l := L; l >= 0; l-- {
		ls = append(ls, l)
	}
	for l := 1; l <= L; l++ {
		ls = append(ls, l)
	}
	return ls
}

// ---- basis extension ----

func basisUnits(tier string) []Unit {
	var us []Unit
	var shs []Shape
	for nq := 1; nq <= 7; nq++ {
		for np := 2; np <= 6; np++ {
			if deep(tier) || nq <= 5 && np <= 4 && ((nq+np)%2 == 1 || nq == np) || nq+np == 8 && nq != 4 {
				shs = append(shs, Shape{Name: fmt.Sprintf("rlwe-q%dp%dg1", nq, np), NQ: nq, NP: np, Gamma: 1})
			}
		}
	}
	for _, sh := range shs {
		sh := sh
		L, LP := lv(sh), sh.NP-1
		unit := func(name string, f func(e *Env, an string, conv ai.Value, lq, lp int)) {
			us = append(us, envUnit("rlwe", sh, name, "basis", [3]string{"mkrlwe", "FastBasisExtender", name}, func(e *Env, an string) {
				c1 := e.Call("mkrlwe", "", "NewFastBasisExtender", e.ringOf("RingQ"), e.ringOf("RingP"))
				c2 := e.Call("mkrlwe", "FastBasisExtender", "ShallowCopy", c1)
				n := 0
				for _, lq := range levelOrder(L) {
					for _, lp := range levelOrder(LP) {
						conv := c1
						if n++; n%2 == 0 {
							conv = c2
						}
						e.Sfx = fmt.Sprint("#", n)
						f(e, an, conv, lq, lp)
					}
				}
			}))
		}
		rq := func(e *Env) ai.Value { return e.ringOf("RingQ") }
		rp := func(e *Env) ai.Value { return e.ringOf("RingP") }
		old := func(e *Env, ring ai.Value, mods []*sym.E) ai.Value {
			return e.atomPoly(ring, mods, sym.RAtom("old"), 0)
		}
		unit("ModUpQtoP", func(e *Env, an string, conv ai.Value, lq, lp int) {
			v := sym.RAtom("x" + e.Sfx)
			x, y := e.atomPoly(rq(e), e.Q, v, 0), old(e, rp(e), e.PM)
			fr := e.Freeze(vals{"the operand": x})
			e.Call("mkrlwe", "FastBasisExtender", "ModUpQtoP", conv, ai.I(lq), ai.I(lp), x, y)
			e.rowsAre("basis.up", an, fmt.Sprintf("the extension from level %d to level %d", lq, lp), y, e.PM[:lp+1], constE(sym.Lift(v, 0, e.Q[:lq+1])), 0, 0)
			e.Unchanged("basis.kept", an, fr)
		})
		unit("ModUpPtoQ", func(e *Env, an string, conv ai.Value, lq, lp int) {
			v := sym.RAtom("x" + e.Sfx)
			x, y := e.atomPoly(rp(e), e.PM, v, 0), old(e, rq(e), e.Q)
			fr := e.Freeze(vals{"the operand": x})
			e.Call("mkrlwe", "FastBasisExtender", "ModUpPtoQ", conv, ai.I(lp), ai.I(lq), x, y)
			e.rowsAre("basis.up", an, fmt.Sprintf("the extension from level %d to level %d", lp, lq), y, e.Q[:lq+1], constE(sym.Lift(v, 0, e.PM[:lp+1])), 0, 0)
			e.Unchanged("basis.kept", an, fr)
		})
		down := func(name string, toQ, ntt bool) {
			unit(name, func(e *Env, an string, conv ai.Value, lq, lp int) {
				d := 0
				if ntt {
					d = 1
				}
				vq, vp := sym.RAtom("x"+e.Sfx), sym.RAtom("y"+e.Sfx)
				for inPlace := 0; inPlace < 2; inPlace++ {
					x, y := e.atomPoly(rq(e), e.Q, vq, d), e.atomPoly(rp(e), e.PM, vp, d)
					keep := vals{"the operand modulo Q": x}
					var out ai.Value
					switch {
					case inPlace == 1 && toQ:
						out, keep = x, vals{}
						if !ntt {
							keep["the operand modulo P"] = y
						}
					case inPlace == 1:
						out = y
					case toQ:
						out = old(e, rq(e), e.Q)
						if !ntt {
							keep["the operand modulo P"] = y
						}
					default:
						out = old(e, rp(e), e.PM)
						keep["the operand modulo P"] = y
					}
					fr := e.Freeze(keep)
					e.Call("mkrlwe", "FastBasisExtender", name, conv, ai.I(lq), ai.I(lp), x, y, out)
					mods, by, big, lo := e.Q[:lq+1], e.PM[:lp+1], vq, vp
					if !toQ {
						mods, by, big, lo = by, mods, vp, vq
					}
					w := sym.Div(sym.Sub(big, sym.Lift(lo, 0, by)), prod(by))
					e.rowsAre("basis.down", an, fmt.Sprintf("the quotient at levels %d, %d", lq, lp), out, mods, constE(w), d, 1)
					e.Unchanged("basis.kept", an, fr)
				}
			})
		}
		down("ModDownQPtoQ", true, false)
		down("ModDownQPtoQNTT", true, true)
		down("ModDownQPtoP", false, false)
		us = append(us, envUnit("rlwe", sh, "ShallowCopy", "basis", [3]string{"mkrlwe", "FastBasisExtender", "ShallowCopy"}, func(e *Env, an string) {
			c1 := e.Call("mkrlwe", "", "NewFastBasisExtender", rq(e), rp(e))
			fr := e.Freeze(merge(vals{"the original": c1}, e.Owned()))
			c2 := e.Call("mkrlwe", "FastBasisExtender", "ShallowCopy", c1)
			e.M.LastW = newWrites()
			for _, c := range []ai.Value{c2} {
				x, y := e.atomPoly(rq(e), e.Q, sym.RAtom("x"), 0), e.atomPoly(rp(e), e.PM, sym.RAtom("y"), 0)
				e.Call("mkrlwe", "FastBasisExtender", "ModDownQPtoQ", c, ai.I(L), ai.I(LP), x, y, x)
				e.Call("mkrlwe", "FastBasisExtender", "ModDownQPtoP", c, ai.I(L), ai.I(LP), x, y, y)
				e.Call("mkrlwe", "FastBasisExtender", "ModUpQtoP", c, ai.I(L), ai.I(LP), x, y)
			}
			e.Unchanged("basis.copy", an, fr)
			e.Unwritten("basis.copy", an, vals{"the original": c1})
		}))
	}
	for _, sh := range append([]Shape{bA1, bA13, bA24}, otherShapes("bfv", tier)...) {
		sh := sh
		us = append(us, envUnit("bfv", sh, "ModUpQtoR, Rescale", "basis.bfv", [3]string{"mkbfv", "FastBasisExtender", "Rescale"}, func(e *Env, an string) {
			for k := 0; k < 2; k++ {
				e.Sfx = fmt.Sprint("#", k)
				e.bfvOperands("basis.bfv", an, "x", "y", AB, BC)
			}
		}))
		us = append(us, envUnit("bfv", sh, "Quantize", "basis.bfv", [3]string{"mkbfv", "FastBasisExtender", "Quantize"}, func(e *Env, an string) {
			R := append(append([]*sym.E{}, e.Q...), e.QMul...)
			ringR := e.Call("mkbfv", "Parameters", "RingR", e.Params)
			conv := e.Call("mkbfv", "", "NewFastBasisExtender", e.ringOf("RingP"), e.ringOf("RingQ"), e.Call("mkbfv", "Parameters", "RingQMul", e.Params), ringR)
			for k := 0; k < 2; k++ {
				v := sym.RAtom(fmt.Sprint("x", k))
				x := e.newPoly(ringR)
				e.fillRows(x, R, v, 1)
				out := e.newPoly(e.ringOf("RingQ"))
				e.fillRows(out, e.Q, sym.RAtom("old"), 0)
				fr := e.Freeze(vals{"the operand": x})
				e.Call("mkbfv", "FastBasisExtender", "Quantize", conv, x, out, ai.X{E: e.T})
				t := sym.Mul(v, e.T)
				e.rowsAre("basis.quantize", an, "T/QMul times the operand", out, e.Q, constE(sym.Div(sym.Sub(t, sym.Lift(t, 0, e.QMul)), prod(e.QMul))), 0, 1)
				e.Unchanged("basis.kept", an, fr)
			}
		}))
	}
	return us
}

func init() {
	register(&Prop{ID: "C19", Min: 100,
		Rule:  "For an arbitrary ring element in either domain, at every level and digit, the digit modulo every prime of Q and P is the transform of the unique representative of the element modulo the digit's own primes present at that level.",
		Units: decompUnits})
	register(&Prop{ID: "C20", Min: 100,
		Rule:  "The external product of an arbitrary ring element with an arbitrary vector is exactly the sum of digit times entry over the digits of the level, divided by P and rounded down; with a gadget encryption it is the product with the encrypted value plus terms small against P; the form with precomputed digits gives the same.",
		Units: extUnits})
	register(&Prop{ID: "C21", Min: 200,
		Rule:  "For every pair of levels, extending the basis gives the unique representative modulo the source primes, and reducing it gives the operand minus its representative modulo the removed primes, divided by their product; the receiver may be an operand and a copied extender has its own memory.",
		Units: basisUnits})
}
