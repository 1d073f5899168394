package chk

import (
	"fmt"
	"math/big"

	"mkverif/ai"
	"mkverif/sym"
)

// bfvOperands obtains what the two operands of a BFV product become in the
// extended basis, through the exported basis extender, and decides that it is
// the operand itself (first) and the operand scaled by QMul/Q with rounding
// (second).  Rows are keyed by modulus, components by id.
type bfvOp map[string]map[*sym.E]*sym.E

func (e *Env) bfvOperands(rule, anchor string, n0, n1 string, ids0, ids1 []string) (x, y bfvOp, ok bool) {
	R := append(append([]*sym.E{}, e.Q...), e.QMul...)
	ringR := e.Call("mkbfv", "Parameters", "RingR", e.Params)
	conv := e.Call("mkbfv", "", "NewFastBasisExtender", e.M.Get(e.Call("mkrlwe", "Parameters", "RingQP", e.Rlwe()), "RingP"),
		e.M.Get(e.Call("mkrlwe", "Parameters", "RingQP", e.Rlwe()), "RingQ"), e.Call("mkbfv", "Parameters", "RingQMul", e.Params), ringR)
	newR := func() ai.Value { return e.Call("ring", "Ring", "NewPoly", ringR) }
	newQ := func() ai.Value {
		return e.Call("ring", "Ring", "NewPoly", e.M.Get(e.Call("mkrlwe", "Parameters", "RingQP", e.Rlwe()), "RingQ"))
	}
	x, y = bfvOp{}, bfvOp{}
	ok = true
	for _, id := range append([]string{"0"}, ids0...) {
		p, r := newQ(), newR()
		v := sym.RAtom(n0 + e.Sfx + "_" + id)
		e.fillRows(p, e.Q, v, 0)
		e.Call("mkbfv", "FastBasisExtender", "ModUpQtoR", conv, p, r)
		rows, err := e.PolyE(r, R)
		if err != "" {
			return nil, nil, e.c.Ok(rule+".extend", anchor, false, "%s", err)
		}
		x[id] = map[*sym.E]*sym.E{}
		lift := sym.Lift(v, 0, e.Q)
		for i, q := range R {
			x[id][q] = rows[i]
			want := v
			if i >= len(e.Q) {
				want = lift
			}
			if d := sym.Strip(sym.Sub(rows[i], want), q); d != sym.Zero {
				ok = e.c.Ok(rule+".extend", anchor, false, "the first operand modulo %s differs from the extension of its value modulo Q by %s", q, d)
			}
		}
	}
	for _, id := range append([]string{"0"}, ids1...) {
		p, r := newQ(), newR()
		v := sym.RAtom(n1 + e.Sfx + "_" + id)
		e.fillRows(p, e.Q, v, 0)
		e.Call("mkbfv", "FastBasisExtender", "Rescale", conv, p, r)
		rows, err := e.PolyE(r, R)
		if err != "" {
			return nil, nil, e.c.Ok(rule+".rescale", anchor, false, "%s", err)
		}
		y[id] = map[*sym.E]*sym.E{}
		rr := map[*sym.E]*sym.E{}
		for i, q := range R {
			y[id][q] = rows[i]
			if i >= len(e.Q) {
				rr[q] = rows[i]
			}
		}
		pre, er := Undivide(rr, e.Q)
		if er != "" {
			ok = e.c.Ok(rule+".rescale", anchor, false, "scaling of the second operand by QMul/Q: %s", er)
			continue
		}
		for _, q := range R {
			if d := Lower(sym.Sub(pre[q], sym.Mul(prod(e.QMul), v)), q); d != sym.Zero {
				ok = e.c.Ok(rule+".rescale", anchor, false, "modulo %s the second operand times Q differs from QMul times its value by %s", q, short(d))
			}
		}
		for i, q := range e.Q {
			want := sym.Lift(rr[e.QMul[0]], 0, e.QMul)
			if d := sym.Strip(sym.Sub(rows[i], want), q); d != sym.Zero {
				ok = e.c.Ok(rule+".rescale", anchor, false, "modulo %s the scaled second operand differs from its value modulo QMul by %s", q, short(d))
			}
		}
	}
	if ok {
		e.c.Ok(rule+".extend", anchor, true, "")
		e.c.Ok(rule+".rescale", anchor, true, "")
	}
	return
}

func (e *Env) bfvPhase(x bfvOp, ids []string, q *sym.E) *sym.E {
	r := x["0"][q]
	for _, id := range ids {
		r = sym.Add(r, sym.Mul(x[id][q], e.S[id]))
	}
	return r
}

// JudgeBFVMul decides that a ciphertext decrypts to round(T/Q * product) plus a
// switching error that is small against P.
func (e *Env) JudgeBFVMul(rule, anchor string, out ai.Value, x, y bfvOp, ids0, ids1 []string) bool {
	c := e.c
	ids := union(ids0, ids1)
	lvl := e.levelOf(out)
	if !c.Ok(rule+".level", anchor, lvl == len(e.Q)-1, "the result is at level %d, expected %d", lvl, len(e.Q)-1) {
		return false
	}
	ph, err := e.Phase(out, e.S, ids, e.Q)
	if err != "" {
		return e.bad(rule, anchor, out, "%s", err)
	}
	P, QM := prod(e.PM), prod(e.QMul)
	var plP, plR *sym.E
	for _, q := range e.Q {
		a, b := sym.Zero, sym.Zero
		for _, m := range sym.Mul(P, ph[q]).M {
			if rest, _, ok := roundTerm(m, e.PM); ok && small(rest) {
				a = sym.Add(a, monoE(m))
				continue
			}
			if rest, _, ok := roundTerm(m, e.QMul); ok && small(sym.Mul(rest, QM, sym.Inv(P))) {
				b = sym.Add(b, sym.Mul(monoE(m), QM, sym.Inv(P)))
				continue
			}
		}
		if plP == nil {
			plP, plR = a, b
		} else if plP != a || plR != b {
			return e.bad(rule, anchor, out, "rounding terms modulo %s and modulo %s differ: %s and %s", e.Q[0], q, short(sym.Add(plP, plR)), short(sym.Add(a, b)))
		}
	}
	// P*phase = P*T/QMul*Pi + V + plP + P/QMul*plR
	var V *sym.E
	for _, p := range e.PM {
		v := Lower(sym.Neg(Lower(plP, p)), p)
		if V == nil {
			V = v
		} else if V != v {
			return e.bad(rule, anchor, out, "residues of the switching error modulo the special primes %s and %s differ", e.PM[0], p)
		}
	}
	for _, m := range V.M {
		if b := monoBits(m); b > exprBits(P)+14 {
			return e.bad(rule, anchor, out, "term %s of the switching error is not small against P (%.0f bits against %.0f)", short(monoE(m)), b, exprBits(P))
		}
	}
	T := sym.Mul(P, e.T)
	for _, q := range e.Q {
		pi := sym.Mul(e.bfvPhase(x, ids0, q), e.bfvPhase(y, ids1, q))
		d := sym.Mul(P, ph[q])
		d = sym.Sub(d, plP)
		d = sym.Sub(d, sym.Mul(P, sym.Inv(QM), plR))
		d = sym.Sub(d, sym.Mul(T, sym.Inv(QM), pi))
		d = Lower(sym.Sub(Lower(d, q), Lower(V, q)), q)
		if d != sym.Zero {
			return e.bad(rule, anchor, out, "modulo %s the result differs from T/QMul times the product by %s (divided by P)", q, short(d))
		}
	}
	for _, r := range e.QMul {
		pi := sym.Mul(e.bfvPhase(x, ids0, r), e.bfvPhase(y, ids1, r))
		d := sym.Mul(T, pi)
		d = sym.Add(d, sym.Mul(P, plR))
		d = sym.Add(d, unfrac(sym.Mul(QM, V), r))
		d = Lower(d, r)
		if d != sym.Zero {
			return e.bad(rule, anchor, out, "modulo %s the rounding error of the product differs from the expected one by %s", r, short(d))
		}
	}
	return c.Ok(rule, anchor, true, "")
}

func small(e *sym.E) bool { b := exprBits(e); return b < 8 && b > -8 }

// unfrac replaces frac(a) by a: QMul*floor(a) is an integer multiple of every
// prime of QMul, so QMul*frac(a) and QMul*a agree modulo it.
func unfrac(e, r *sym.E) *sym.E {
	return sym.Strip(e.MapMonos(func(c *big.Rat, fs []sym.FP) *sym.E {
		t := sym.Rat(c)
		for _, f := range fs {
			if f.N.Op == "frac" && f.X == 1 {
				t = sym.Mul(t, f.N.Args[0])
				continue
			}
			t = sym.Mul(t, sym.Fac(f.N, f.X))
		}
		return t
	}), r)
}

var _ = fmt.Sprint
