package chk

import (
	"fmt"
	"go/types"
	"math"
	"math/big"

	"mkverif/ai"
	"mkverif/sym"
)

func constVal(x interface{}) ai.Value {
	switch x := x.(type) {
	case int:
		return ai.Iface{T: types.Typ[types.Int], V: ai.I(x)}
	case int64:
		return ai.Iface{T: types.Typ[types.Int64], V: ai.I(x)}
	case uint64:
		return ai.Iface{T: types.Typ[types.Uint64], V: ai.I(x)}
	case float64:
		return ai.Iface{T: types.Typ[types.Float64], V: ai.F(x)}
	case complex128:
		return ai.Iface{T: types.Typ[types.Complex128], V: ai.Cx{Re: ai.F(real(x)), Im: ai.F(imag(x))}}
	}
	panic(fmt.Sprintf("%T", x))
}

func constC(x interface{}) complex128 {
	switch x := x.(type) {
	case int:
		return complex(float64(x), 0)
	case int64:
		return complex(float64(x), 0)
	case uint64:
		return complex(float64(x), 0)
	case float64:
		return complex(x, 0)
	case complex128:
		return x
	}
	panic("type")
}

// linear splits an expression that is linear in element nodes into their coefficients.
func linear(e *sym.E, unit func(n *sym.Node) bool) (map[*sym.Node]*sym.E, bool) {
	out := map[*sym.Node]*sym.E{}
	for _, m := range e.M {
		var u *sym.Node
		rest := sym.Rat(m.C)
		for _, f := range m.F {
			if unit(f.N) {
				if u != nil || f.X != 1 {
					return nil, false
				}
				u = f.N
				continue
			}
			rest = sym.Mul(rest, sym.Fac(f.N, f.X))
		}
		if u == nil {
			return nil, false
		}
		if o := out[u]; o != nil {
			rest = sym.Add(o, rest)
		}
		out[u] = rest
	}
	for u, c := range out {
		if c == sym.Zero {
			delete(out, u)
		}
	}
	return out, true
}

// unround replaces roundings to integers by the rounded value (which is off by at most one).
func unround(e *sym.E) (r *sym.E, n int) {
	r = e.MapMonos(func(c *big.Rat, fs []sym.FP) *sym.E {
		t := sym.Rat(c)
		for _, f := range fs {
			if (f.N.Op == "trunc" || f.N.Op == "round" || f.N.Op == "floor") && f.X == 1 {
				t = sym.Mul(t, f.N.Args[0])
				n++
				continue
			}
			t = sym.Mul(t, sym.Fac(f.N, f.X))
		}
		return t
	})
	return
}

// isConstTimes decides that an integer constant k represents c at scale factor f.
func isConstTimes(k *sym.E, c float64, f *sym.E) string {
	want := sym.Mul(scaleE(c), f)
	if k == want {
		return ""
	}
	u, n := unround(k)
	d := sym.Sub(u, want)
	r, ok := d.Const()
	if !ok || n > 1 {
		return fmt.Sprintf("is multiplied by %s, expected %g*(%s)", short(k), c, f)
	}
	x, _ := r.Float64()
	if math.Abs(x) > 1 || n == 0 {
		return fmt.Sprintf("is multiplied by %s, which is %g away from %g*(%s)", short(k), x, c, f)
	}
	if lo, _, ok := f.Range(); !ok || lo < 1<<30 {
		return fmt.Sprintf("rounds %g*(%s) to an integer: the constant is not scaled up", c, f)
	}
	return ""
}

// judgeConst: out = c * in, entry by entry.
func (e *Env) judgeConst(rule, an string, out ai.Value, name string, ids []string, c complex128, s0 float64, level int) bool {
	lvl := e.levelOf(out)
	if !e.c.Ok(rule+".level", an, lvl == level, "the result is at level %d, expected %d", lvl, level) {
		return false
	}
	sc, ok := ai.ToE(e.M.Get(out, "Scale"))
	if !ok {
		return e.c.Ok(rule+".scale", an, false, "the result has no numeric scale")
	}
	f := sym.Div(sc, scaleE(s0))
	mv := e.M.Get(out, "Value")
	if g, w := sorted(e.Keys(mv)), sorted(append([]string{"0"}, ids...)); join(g) != join(w) {
		return e.c.Ok(rule, an, false, "the result has components {%s}, expected {%s}", join(g), join(w))
	}
	for _, id := range append([]string{"0"}, ids...) {
		p, _ := e.MapGet(mv, id)
		rows, err := e.PolyE(p, e.Level(level))
		if err != "" {
			return e.bad(rule, an, out, "component %q: %s", id, err)
		}
		x := sym.RAtom(name + e.Sfx + "_" + id)
		for i, q := range e.Level(level) {
			fail := func(s string, a ...interface{}) bool {
				return e.bad(rule, an, out, "component %q modulo %s %s", id, q, fmt.Sprintf(s, a...))
			}
			if imag(c) == 0 {
				k, ok := linear(rows[i], func(n *sym.Node) bool { return n.Ring })
				if !ok || len(k) > 1 || (c != 0 && k[x.Single()] == nil) {
					return fail("is %s, expected a multiple of %s", short(rows[i]), x)
				}
				kk := k[x.Single()]
				if kk == nil {
					kk = sym.Zero
				}
				if s := isConstTimes(kk, real(c), f); s != "" {
					return fail("%s", s)
				}
				continue
			}
			h := N / 2
			for j := 0; j < N; j++ {
				v := sym.ElAt(rows[i], 0, j)
				if n := v.Single(); n != nil && n.Op == "red" && len(n.Args) == 2 && n.Args[1] == q {
					v = n.Args[0]
				}
				k, ok := linear(v, func(n *sym.Node) bool { return n.Op == "el" })
				a := sym.ElAt(x, 0, j).Single()
				b := sym.ElAt(x, 0, (j+h)%N).Single()
				cb := -imag(c) // X^(N/2) moves the upper half down with a minus sign
				if j >= h {
					cb = imag(c)
				}
				if !ok || len(k) > 2 {
					return fail("at coefficient %d is %s", j, short(v))
				}
				for n := range k {
					if n != a && n != b {
						return fail("at coefficient %d is %s", j, short(v))
					}
				}
				for _, t := range []struct {
					n *sym.Node
					c float64
				}{{a, real(c)}, {b, cb}} {
					kk := k[t.n]
					if kk == nil {
						kk = sym.Zero
					}
					if s := isConstTimes(kk, t.c, f); s != "" {
						return fail("at coefficient %d %s", j, s)
					}
				}
			}
		}
	}
	return e.c.Ok(rule, an, true, "")
}

// multByConst; lout < 0: in place.
func multByConst(c interface{}, level, lout int, ids ...string) Op {
	where := fmt.Sprintf("-> level %d", lout)
	if lout < 0 {
		where = "in place"
	}
	an := [3]string{"mkckks", "Evaluator", "MultByConst"}
	return Op{Name: fmt.Sprintf("MultByConst[%s@%d * %T(%v) %s]", setName(ids), level, c, c, where), Kind: "ckks", Anchor: an, Ids: ids,
		Make: func(e *Env) *Inst {
			s0 := float64(int64(3) << 39)
			x := e.Ct("x", level, scaleE(s0), ids...)
			o, l := x, level
			ops := map[string]ai.Value{}
			if lout >= 0 {
				o = e.Ct("old", lout, scaleE(5), ids...)
				l = min(level, lout)
				ops["operand"] = x
			}
			return &Inst{Ops: ops, Out: o, Call: func() ai.Value {
				e.Call(an[0], an[1], an[2], e.Eval, x, constVal(c), o)
				return o
			}, Judge: func(rule string, out ai.Value) bool {
				return e.judgeConst(rule, e.c.Anchor(an[0], an[1], an[2]), out, "x", ids, constC(c), s0, l)
			}}
		}}
}

// CkksPt makes an arbitrary CKKS plaintext.
func (e *Env) CkksPt(name string, level int, scale float64) ai.Value {
	pt := e.Call("ckks", "", "NewPlaintext", e.CkksP, ai.I(level), ai.F(scale))
	pol := e.M.Get(pt, "Value")
	e.M.Store(e.M.Sub(pol, "IsNTT"), ai.B(false))
	e.fillRows(pol, e.Q, sym.RAtom(name+e.Sfx), 0)
	return pt
}

func mulPtxt(level, lp int, s0, s1 float64, encoded bool, ids ...string) Op {
	an := [3]string{"mkckks", "Evaluator", "MulPtxtNew"}
	how := ""
	if encoded {
		how = " encoded message"
	}
	return Op{Name: fmt.Sprintf("MulPtxtNew[%s@%d * plaintext@%d%s scales 2^%g,2^%g]", setName(ids), level, lp, how, math.Log2(s0), math.Log2(s1)), Kind: "ckks", Anchor: an, Ids: ids,
		Make: func(e *Env) *Inst {
			x := e.Ct("x", level, scaleE(s0), ids...)
			var pt ai.Value
			v := sym.RAtom("p" + e.Sfx)
			if encoded {
				m, t := e.Msg("m")
				pt = e.Call("mkckks", "Encryptor", "EncodeMsgNew", e.Enc, m)
				v, s1 = sym.Mul(scaleE(e.Sh.Scale), t), e.Sh.Scale
			} else {
				pt = e.CkksPt("p", lp, s1)
			}
			n := e.expectRescale(s0*s1, level, e.Sh.Scale)
			return &Inst{Ops: map[string]ai.Value{"ciphertext": x, "plaintext": pt}, Call: func() ai.Value {
				return e.Call(an[0], an[1], an[2], e.Eval, x, pt)
			}, Judge: func(rule string, out ai.Value) bool {
				return e.Judge(rule, e.c.Anchor(an[0], an[1], an[2]), out, Want{Ids: ids, Level: level - n,
					Target: sym.Mul(e.Ph("x", ids...), v), Div: e.divs(false, level, n), Scale: e.rescaled(s0*s1, level, n)})
			}}
		}}
}

func isNil(v ai.Value) bool {
	switch x := v.(type) {
	case ai.Nil:
		return true
	case ai.Iface:
		return x.T == nil
	case nil:
		return true
	}
	return false
}

// rescale: how in "in place", "new", "into" (receiver at level lout).
func rescale(how string, level, lout int, s0, minScale float64, ids ...string) Op {
	return rescaleOf(how, level, lout, s0, 0, minScale, ids...)
}

// rescaleOf: with exact > 0 the scale is exact times the last prime instead of s0.
func rescaleOf(how string, level, lout int, s0, exact, minScale float64, ids ...string) Op {
	fn := "Rescale"
	if how == "new" {
		fn = "RescaleNew"
	}
	an := [3]string{"mkckks", "Evaluator", fn}
	sname := fmt.Sprintf("2^%.4g", math.Log2(s0))
	if exact > 0 {
		sname = fmt.Sprintf("2^%.4g times the last prime", math.Log2(exact))
	}
	return Op{Name: fmt.Sprintf("%s[%s %s@%d->%d scale %s threshold 2^%.4g]", fn, how, setName(ids), level, lout, sname, math.Log2(minScale)), Kind: "ckks", Anchor: an, Ids: ids,
		Make: func(e *Env) *Inst {
			sc := scaleE(s0)
			if exact > 0 {
				sc = sym.Mul(scaleE(exact), e.Q[level])
			}
			x := e.Ct("x", level, sc, ids...)
			in := &Inst{Ops: map[string]ai.Value{}}
			o := x
			if how != "in place" {
				in.Ops["operand"] = x
			}
			if how == "into" {
				o = e.Ct("old", lout, scaleE(5), ids...)
				in.Out = o
			}
			n := e.expectRescale(s0, level, minScale)
			if exact > 0 {
				n = 0
				if exact >= minScale/2 {
					n = 1
				}
			}
			for i := 0; i < n; i++ {
				sc = sym.Div(sc, e.Q[level-i])
			}
			a := e.c.Anchor(an[0], an[1], an[2])
			in.Call = func() ai.Value {
				if how == "new" {
					t := e.Call(an[0], an[1], fn, e.Eval, x, ai.F(minScale)).(ai.Tup)
					e.c.Ok("rescale.error", a, isNil(t[1]), "rescaling returns an error")
					return t[0]
				}
				err := e.Call(an[0], an[1], fn, e.Eval, x, ai.F(minScale), o)
				e.c.Ok("rescale.error", a, isNil(err), "rescaling returns an error")
				return o
			}
			in.Judge = func(rule string, out ai.Value) bool {
				return e.Judge(rule, a, out, Want{Ids: ids, Level: level - n,
					Target: e.Ph("x", ids...), Div: e.divs(false, level, n), Scale: sc})
			}
			return in
		}}
}

// rescaleRefused: an error is returned and the ciphertext keeps its value and scale.
func rescaleRefused(how string, level int, s0, minScale float64) Unit {
	fn := "Rescale"
	if how == "new" {
		fn = "RescaleNew"
	}
	name := fmt.Sprintf("%s[%s @%d scale %g threshold %g] refused", fn, how, level, s0, minScale)
	return envUnit("ckks", cA1, name, "rescale.refused", [3]string{"mkckks", "Evaluator", fn}, func(e *Env, an string) {
		x := e.Ct("x", level, scaleE(s0), AB...)
		var err ai.Value
		if how == "new" {
			err = e.Call("mkckks", "Evaluator", fn, e.Eval, x, ai.F(minScale)).(ai.Tup)[1]
		} else {
			o := x
			if how == "into" {
				o = e.Ct("old", level, scaleE(5), AB...)
			}
			err = e.Call("mkckks", "Evaluator", fn, e.Eval, x, ai.F(minScale), o)
		}
		e.c.Ok("rescale.refused", an, !isNil(err), "no error is returned")
		e.Judge("rescale.refused", an, x, Want{Ids: AB, Level: level, Target: e.Ph("x", AB...), Scale: scaleE(s0)})
	})
}

func dropLevel(isNew bool, level, k int, ids ...string) Op {
	fn := "DropLevel"
	if isNew {
		fn = "DropLevelNew"
	}
	an := [3]string{"mkckks", "Evaluator", fn}
	return Op{Name: fmt.Sprintf("%s[%s@%d by %d]", fn, setName(ids), level, k), Kind: "ckks", Anchor: an, Ids: ids,
		Make: func(e *Env) *Inst {
			x := e.Ct("x", level, scaleE(3*s40), ids...)
			in := &Inst{Ops: map[string]ai.Value{}}
			if isNew {
				in.Ops["operand"] = x
			}
			in.Call = func() ai.Value {
				if isNew {
					return e.Call(an[0], an[1], fn, e.Eval, x, ai.I(k))
				}
				e.Call(an[0], an[1], fn, e.Eval, x, ai.I(k))
				return x
			}
			in.Judge = func(rule string, out ai.Value) bool {
				return e.Judge(rule, e.c.Anchor(an[0], an[1], an[2]), out, Want{Ids: ids, Level: level - k, Target: e.Ph("x", ids...), Scale: scaleE(3 * s40)})
			}
			return in
		}}
}

func ptConstOps(tier string) func(sh Shape) []Op {
	return func(sh Shape) []Op {
		L := lv(sh)
		ops := []Op{
			mulPtxt(L, L, s40, s40, false, A...),
			mulPtxt(1, L, s40, s40, false, AB...),
			mulPtxt(L, L, s40, 1<<20, false, AB...),
			mulPtxt(2, 2, 1<<60, 1<<62, false, ABC...),
			mulPtxt(0, L, s40, 1<<20, false, AB...),
			mulPtxt(L-1, L, s40, s40, true, AB...),
		}
		cs := []interface{}{0, 1, -1, 7, -5, int64(-3), uint64(9), 2.0, 0.0, -4.0, 1.5, -0.25, 1e-3, 123456.789,
			complex(0, 0), complex(2, -3), complex(0, 1), complex(0, -1), complex(0.5, -1.25), complex(-3, 0), complex(0.1, 0), complex(0, 2.5), complex(-1.5, 4), complex(3, 0.75),
			-float64(1<<26) - 0.5, float64(1<<26) + 0.5, complex(-float64(1<<26)-0.25, 0.5), complex(0.5, -float64(1<<26)-0.5), complex(-1e9-0.5, 1e9+0.5), -1.0 * (1 << 40), int64(-(1 << 45))}
		for i, c := range cs {
			l := []int{L, 1, 0}[i%3]
			ops = append(ops, multByConst(c, l, -1, AB...))
			ops = append(ops, multByConst(c, l, []int{l, min(l, 1), L}[i%3], A...))
			if wide(tier) {
				for l := 0; l <= L; l++ {
					for lo := 0; lo <= L; lo++ {
						ops = append(ops, multByConst(c, l, lo, BC...))
					}
				}
			}
		}
		if wide(tier) {
			for l := 0; l <= L; l++ {
				for lp := l; lp <= L; lp++ {
					ops = append(ops, mulPtxt(l, lp, s40, s40, false, BC...))
				}
			}
		}
		return ops
	}
}

func rescaleOps(tier string) func(sh Shape) []Op {
	return func(sh Shape) []Op {
		L := lv(sh)
		var ops []Op
		levels := []int{L, 1}
		if wide(tier) {
			levels = nil
			for l := 1; l <= L; l++ {
				levels = append(levels, l)
			}
		}
		for _, l := range levels {
			for _, s := range []struct{ s, m float64 }{
				{math.Ldexp(1, 80), s40}, {s40, s40}, {math.Ldexp(1, 120), s40}, {math.Ldexp(1, 80), 1}, {math.Ldexp(1, 200), s40},
				{math.Ldexp(1.01, 79), s40}, {math.Ldexp(0.99, 79), s40}, {math.Ldexp(1, 60), 1 << 20}, {math.Ldexp(1, 80), 1 << 60},
			} {
				ops = append(ops, rescale("in place", l, l, s.s, s.m, AB...), rescale("new", l, l, s.s, s.m, A...), rescale("into", l, l, s.s, s.m, AB...))
				if l < L {
					ops = append(ops, rescale("into", l, L, s.s, s.m, BC...))
				}
			}
		}
		// the scale after the division is exactly half the threshold, or just below it
		for _, l := range []int{1, L} {
			for _, m := range []float64{1 << 21, math.Ldexp(1+math.Ldexp(1, -30), 21)} {
				ops = append(ops, rescaleOf("in place", l, l, 0, 1<<20, m, AB...), rescaleOf("new", l, l, 0, 1<<20, m, A...), rescaleOf("into", l, l, 0, 1<<20, m, AB...))
			}
		}
		for l := 0; l <= L; l++ {
			for k := 0; k <= l; k++ {
				if wide(tier) || k < 2 {
					ops = append(ops, dropLevel(true, l, k, AB...), dropLevel(false, l, k, AB...))
				}
			}
		}
		return ops
	}
}

func init() {
	register(&Prop{ID: "C10", Min: 60,
		Rule: "The abstract result of multiplying an arbitrary ciphertext by an arbitrary plaintext has the product of phase and plaintext as its phase, divided with rounding by the primes the scales call for; multiplied by a constant, every coefficient of every component is the operand's coefficient times the constant at the recorded change of scale (for complex constants the two coefficients N/2 apart that multiplication by a + b*X^(N/2) combines), the constant rounded at most once.",
		Units: func(tier string) []Unit {
			shs := []Shape{cA1, cA2p.rev(), {Name: "ckks-q6p2", NQ: 6, NP: 2, Gamma: 2, LogQ: 40, Scale: 1 << 40}}
			if wide(tier) {
				shs = append(shs, cA2)
			}
			return opUnits("linear", shs, ptConstOps(tier))
		}})
	register(&Prop{ID: "C11", Min: 60,
		Rule: "The abstract result of rescaling an arbitrary ciphertext is its phase divided with rounding by exactly the trailing primes the documented scale rule calls for, at the level below them and with the scale divided by the same primes; refused inputs return an error and keep the ciphertext; dropping levels keeps the phase modulo the remaining primes and the scale.",
		Units: func(tier string) []Unit {
			shs := []Shape{cA1, {Name: "ckks-q6p2", NQ: 6, NP: 2, Gamma: 2, LogQ: 40, Scale: 1 << 40}, {Name: "ckks-q7p6", NQ: 7, NP: 6, Gamma: 2, LogQ: 40, Log0: 55, Scale: 1 << 40}}
			if wide(tier) {
				shs = append(shs, cA1.rev(), cA2)
			}
			us := opUnits("rescale", shs, rescaleOps(tier))
			for _, how := range []string{"in place", "new", "into"} {
				us = append(us, rescaleRefused(how, 2, s40, 0), rescaleRefused(how, 2, s40, -1), rescaleRefused(how, 2, 0, s40), rescaleRefused(how, 0, s40, s40), rescaleRefused(how, 0, math.Ldexp(1, 80), s40))
			}
			return us
		}})
}
