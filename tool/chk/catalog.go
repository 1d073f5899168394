package chk

import (
	"fmt"
	"math"

	"mkverif/ai"
	"mkverif/sym"
)

// Inst is one call of the library on arbitrary operands, with the judgement of
// its result.
type Inst struct {
	Ops   map[string]ai.Value // operands that must not change
	Out   ai.Value            // receiver, if the caller passes one
	Call  func() ai.Value
	Judge func(rule string, out ai.Value) bool
}

// Op makes instances of one call.
type Op struct {
	Name   string
	Kind   string // scheme of the environment
	Anchor [3]string
	Ids    []string
	Make   func(e *Env) *Inst
}

func (o Op) anchor(c *Ctx) string { return c.Anchor(o.Anchor[0], o.Anchor[1], o.Anchor[2]) }

// expectRescale is the documented number of rescalings: divide by the last
// prime while the scale stays at least half the default scale and a prime remains.
func (e *Env) expectRescale(scale float64, level int, min float64) int {
	n := 0
	for level-n > 0 {
		q := math.Ldexp(1, e.Sh.logQ(level-n))
		if scale/q < min/2 {
			break
		}
		scale /= q
		n++
	}
	return n
}

func setName(ids []string) string {
	if len(ids) == 0 {
		return "none"
	}
	s := ""
	for _, i := range ids {
		s += i
	}
	return s
}

// divs: the switching division followed by n rescalings from level l.
func (e *Env) divs(ks bool, l, n int) [][]*sym.E {
	var d [][]*sym.E
	if ks {
		d = append(d, e.PM)
	}
	for i := 0; i < n; i++ {
		d = append(d, []*sym.E{e.Q[l-i]})
	}
	return d
}

func (e *Env) rescaled(scale float64, l, n int) *sym.E {
	s := scaleE(scale)
	for i := 0; i < n; i++ {
		s = sym.Div(s, e.Q[l-i])
	}
	return s
}

// ---- multiplication ----

type mulCfg struct {
	ids0, ids1 []string
	l0, l1     int
	s0, s1     float64
	square     bool
	how        string // plain, hoisted
}

func ckksMul(g mulCfg) Op {
	fn := "MulRelinNew"
	if g.how == "hoisted" {
		fn = "MulRelinHoistedNew"
	}
	if g.square {
		g.ids1, g.l1, g.s1 = g.ids0, g.l0, g.s0
	}
	return Op{Name: fmt.Sprintf("%s[%s@%d x %s@%d scale 2^%g,2^%g%s]", fn, setName(g.ids0), g.l0, setName(g.ids1), g.l1, math.Log2(g.s0), math.Log2(g.s1), sq(g.square)),
		Kind: "ckks", Anchor: [3]string{"mkckks", "Evaluator", fn}, Ids: union(g.ids0, g.ids1),
		Make: func(e *Env) *Inst {
			a := e.Ct("x", g.l0, scaleE(g.s0), g.ids0...)
			b := a
			n1 := "x"
			if !g.square {
				b, n1 = e.Ct("y", g.l1, scaleE(g.s1), g.ids1...), "y"
			}
			l := min(g.l0, g.l1)
			n := e.expectRescale(g.s0*g.s1, l, e.Sh.Scale)
			return &Inst{Ops: map[string]ai.Value{"first operand": a, "second operand": b, "relinearization keys": e.RlSet},
				Call: func() ai.Value {
					if g.how == "hoisted" {
						h0 := e.Call("mkckks", "Evaluator", "HoistedForm", e.Eval, a)
						h1 := h0
						if !g.square {
							h1 = e.Call("mkckks", "Evaluator", "HoistedForm", e.Eval, b)
						}
						return e.Call("mkckks", "Evaluator", fn, e.Eval, a, b, h0, h1, e.RlSet)
					}
					return e.Call("mkckks", "Evaluator", fn, e.Eval, a, b, e.RlSet)
				},
				Judge: func(rule string, out ai.Value) bool {
					return e.Judge(rule, e.c.Anchor("mkckks", "Evaluator", fn), out, Want{Ids: union(g.ids0, g.ids1), Level: l - n,
						Target: sym.Mul(e.Ph("x", g.ids0...), e.Ph(n1, g.ids1...)), Div: e.divs(true, l, n), Noise: true,
						Scale: e.rescaled(g.s0*g.s1, l, n)})
				}}
		}}
}

func sq(b bool) string {
	if b {
		return " same object"
	}
	return ""
}

// rlweMul: the scheme-independent key switcher; hoisted: "", "both", "first", "second".
func rlweMul(g mulCfg, lout int) Op {
	fn := "MulAndRelin"
	if g.how != "" {
		fn = "MulAndRelinHoisted"
	}
	if g.square {
		g.ids1, g.l1 = g.ids0, g.l0
	}
	return Op{Name: fmt.Sprintf("%s[%s@%d x %s@%d -> %d%s %s]", fn, setName(g.ids0), g.l0, setName(g.ids1), g.l1, lout, sq(g.square), g.how),
		Kind: "rlwe", Anchor: [3]string{"mkrlwe", "KeySwitcher", fn}, Ids: union(g.ids0, g.ids1),
		Make: func(e *Env) *Inst {
			a := e.Ct("x", g.l0, nil, g.ids0...)
			b := a
			n1 := "x"
			if !g.square {
				b, n1 = e.Ct("y", g.l1, nil, g.ids1...), "y"
			}
			out := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(union(g.ids0, g.ids1)...), ai.I(lout))
			return &Inst{Ops: map[string]ai.Value{"first operand": a, "second operand": b, "relinearization keys": e.RlSet},
				Call: func() ai.Value {
					if fn == "MulAndRelin" {
						e.Call("mkrlwe", "KeySwitcher", fn, e.Ks, a, b, e.RlSet, out)
						return out
					}
					var h0, h1 ai.Value = ai.Nil{}, ai.Nil{}
					if g.how == "both" || g.how == "first" {
						h0 = e.Hoist(a, g.l0, g.ids0)
					}
					if g.how == "both" || g.how == "second" {
						if g.square && g.how == "both" {
							h1 = h0
						} else {
							h1 = e.Hoist(b, g.l1, g.ids1)
						}
					}
					e.Call("mkrlwe", "KeySwitcher", fn, e.Ks, a, b, h0, h1, e.RlSet, out)
					return out
				},
				Judge: func(rule string, out ai.Value) bool {
					return e.Judge(rule, e.c.Anchor("mkrlwe", "KeySwitcher", fn), out, Want{Ids: union(g.ids0, g.ids1), Level: lout,
						Target: sym.Mul(e.Ph("x", g.ids0...), e.Ph(n1, g.ids1...)), Div: e.divs(true, lout, 0), Noise: true})
				}}
		}}
}

// Hoist decomposes every component of a ciphertext through the key switcher.
func (e *Env) Hoist(ct ai.Value, level int, ids []string) ai.Value {
	h := e.Call("mkrlwe", "", "NewHoistedCiphertext")
	mv := e.M.Get(h, "Value")
	for _, id := range ids {
		p, _ := e.MapGet(e.M.Get(ct, "Value"), id)
		swk := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
		e.Call("mkrlwe", "KeySwitcher", "Decompose", e.Ks, ai.I(level), p, swk)
		e.M.MapSet(mv, e.id(id), swk)
	}
	return h
}

func bfvMul(ids0, ids1 []string, square bool) Op {
	if square {
		ids1 = ids0
	}
	return Op{Name: fmt.Sprintf("MulRelinNew[%s x %s%s]", setName(ids0), setName(ids1), sq(square)),
		Kind: "bfv", Anchor: [3]string{"mkbfv", "Evaluator", "MulRelinNew"}, Ids: union(ids0, ids1),
		Make: func(e *Env) *Inst {
			l := e.Sh.NQ - 1
			a := e.Ct("x", l, nil, ids0...)
			b, n1 := a, "x"
			if !square {
				b, n1 = e.Ct("y", l, nil, ids1...), "y"
			}
			return &Inst{Ops: map[string]ai.Value{"first operand": a, "second operand": b, "relinearization keys": e.RlSet},
				Call: func() ai.Value { return e.Call("mkbfv", "Evaluator", "MulRelinNew", e.Eval, a, b, e.RlSet) },
				Judge: func(rule string, out ai.Value) bool {
					an := e.c.Anchor("mkbfv", "Evaluator", "MulRelinNew")
					x, y, ok := e.bfvOperands(rule, an, "x", n1, ids0, ids1)
					return ok && e.JudgeBFVMul(rule, an, out, x, y, ids0, ids1)
				}}
		}}
}

// bfvMulKS is the key switcher product without hoisting on operands in the extended basis.
func bfvMulKS(ids0, ids1 []string, hoisted bool) Op {
	fn := "MulAndRelinBFV"
	if hoisted {
		fn = "MulAndRelinBFVHoisted"
	}
	return Op{Name: fmt.Sprintf("%s[%s x %s]", fn, setName(ids0), setName(ids1)),
		Kind: "bfv", Anchor: [3]string{"mkbfv", "KeySwitcher", fn}, Ids: union(ids0, ids1),
		Make: func(e *Env) *Inst {
			ks := e.Call("mkbfv", "", "NewKeySwitcher", e.Params)
			x, y, ok := e.bfvOperands("operands", "", "x", "y", ids0, ids1)
			R := append(append([]*sym.E{}, e.Q...), e.QMul...)
			ringR := e.Call("mkbfv", "Parameters", "RingR", e.Params)
			mk := func(v bfvOp, ids []string) ai.Value {
				ct := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(ids...), ai.I(e.Sh.NQ-1))
				for _, id := range append([]string{"0"}, ids...) {
					p := e.Call("ring", "Ring", "NewPoly", ringR)
					for i, s := range e.M.PolyRows(p) {
						r := v[id][R[i]]
						if r == nil {
							r = sym.RAtom("in_" + id)
						}
						e.M.SetRow(s, &ai.Row{N: N, E: r, Dom: 0, Q: R[i]})
					}
					e.M.MapSet(e.M.Get(ct, "Value"), e.id(id), p)
				}
				return ct
			}
			if !ok && !e.c.Silent {
				return nil
			}
			a, b := mk(x, ids0), mk(y, ids1)
			out := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(union(ids0, ids1)...), ai.I(e.Sh.NQ-1))
			hoist := func(ct ai.Value, ids []string) (h1, h2 ai.Value) {
				h1, h2 = e.Call("mkrlwe", "", "NewHoistedCiphertext"), e.Call("mkrlwe", "", "NewHoistedCiphertext")
				for _, id := range ids {
					p, _ := e.MapGet(e.M.Get(ct, "Value"), id)
					s1, s2 := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe()), e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
					e.Call("mkbfv", "KeySwitcher", "DecomposeBFV", ks, ai.I(e.Sh.NQ-1), p, s1, s2)
					e.M.MapSet(e.M.Get(h1, "Value"), e.id(id), s1)
					e.M.MapSet(e.M.Get(h2, "Value"), e.id(id), s2)
				}
				return
			}
			return &Inst{Ops: map[string]ai.Value{"first operand": a, "second operand": b, "relinearization keys": e.RlSet},
				Call: func() ai.Value {
					if hoisted {
						a1, a2 := hoist(a, ids0)
						b1, b2 := hoist(b, ids1)
						e.Call("mkbfv", "KeySwitcher", fn, ks, a, b, a1, a2, b1, b2, e.RlSet, out)
					} else {
						e.Call("mkbfv", "KeySwitcher", fn, ks, a, b, e.RlSet, out)
					}
					return out
				},
				Judge: func(rule string, out ai.Value) bool {
					return e.JudgeBFVMul(rule, e.c.Anchor("mkbfv", "KeySwitcher", fn), out, x, y, ids0, ids1)
				}}
		}}
}

// ---- automorphisms ----

func gal(k int) int {
	k = ((k % (N / 2)) + N/2) % (N / 2)
	g := 1
	for i := 0; i < k; i++ {
		g = g * 5 % (2 * N)
	}
	return g
}

// rotate: how is "eval", "hoisted" (evaluator entry points) or "ks", "kshoisted".
func rotate(kind, how string, k, level int, ids ...string) Op {
	return rotateTo(kind, how, k, level, level, ids...)
}

// rotateTo: the key switcher into a receiver of a lower level.
func rotateTo(kind, how string, k, level, lout int, ids ...string) Op {
	pkg, recv, fn := pkgOf(kind), "Evaluator", "RotateNew"
	switch how {
	case "hoisted":
		fn = "RotateHoistedNew"
	case "ks":
		pkg, recv, fn = "mkrlwe", "KeySwitcher", "Rotate"
	case "kshoisted":
		pkg, recv, fn = "mkrlwe", "KeySwitcher", "RotateHoisted"
	}
	return Op{Name: fmt.Sprintf("%s[%s@%d by %d%s]", fn, setName(ids), level, k, into(level, lout)), Kind: kind, Anchor: [3]string{pkg, recv, fn}, Ids: ids,
		Make: func(e *Env) *Inst {
			a := e.Ct("x", level, scaleE(e.Sh.Scale), ids...)
			return &Inst{Ops: map[string]ai.Value{"operand": a, "rotation keys": e.RkSet},
				Call: func() ai.Value {
					switch how {
					case "hoisted":
						h := e.Call("mkckks", "Evaluator", "HoistedForm", e.Eval, a)
						return e.Call(pkg, recv, fn, e.Eval, a, ai.I(k), h, e.RkSet)
					case "ks", "kshoisted":
						out := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(ids...), ai.I(lout))
						if how == "ks" {
							e.Call(pkg, recv, fn, e.Ks, a, ai.I(k), e.RkSet, out)
						} else {
							e.Call(pkg, recv, fn, e.Ks, a, ai.I(k), e.Hoist(a, level, ids), e.RkSet, out)
						}
						return out
					}
					return e.Call(pkg, recv, fn, e.Eval, a, ai.I(k), e.RkSet)
				},
				Judge: func(rule string, out ai.Value) bool {
					w := Want{Ids: ids, Level: lout, Target: sym.Perm(gal(k), e.Ph("x", ids...)), Scale: e.keepScale()}
					if gal(k) != 1 {
						w.Div, w.Noise = e.divs(true, lout, 0), true
					}
					return e.Judge(rule, e.c.Anchor(pkg, recv, fn), out, w)
				}}
		}}
}

func (e *Env) keepScale() *sym.E {
	if e.Kind == "ckks" {
		return scaleE(e.Sh.Scale)
	}
	return nil
}

func into(level, lout int) string {
	if level == lout {
		return ""
	}
	return fmt.Sprintf(" into level %d", lout)
}

func conjugate(kind string, level int, ids ...string) Op {
	return conjugateTo(kind, level, level, ids...)
}

func conjugateTo(kind string, level, lout int, ids ...string) Op {
	pkg, recv, fn := pkgOf(kind), "Evaluator", "ConjugateNew"
	if kind == "rlwe" {
		recv, fn = "KeySwitcher", "Conjugate"
	}
	return Op{Name: fmt.Sprintf("%s[%s@%d%s]", fn, setName(ids), level, into(level, lout)), Kind: kind, Anchor: [3]string{pkg, recv, fn}, Ids: ids,
		Make: func(e *Env) *Inst {
			a := e.Ct("x", level, scaleE(e.Sh.Scale), ids...)
			return &Inst{Ops: map[string]ai.Value{"operand": a, "conjugation keys": e.CkSet},
				Call: func() ai.Value {
					if kind == "rlwe" {
						out := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(ids...), ai.I(lout))
						e.Call(pkg, recv, fn, e.Ks, a, e.CkSet, out)
						return out
					}
					return e.Call(pkg, recv, fn, e.Eval, a, e.CkSet)
				},
				Judge: func(rule string, out ai.Value) bool {
					return e.Judge(rule, e.c.Anchor(pkg, recv, fn), out, Want{Ids: ids, Level: lout, Target: sym.Perm(2*N-1, e.Ph("x", ids...)),
						Div: e.divs(true, lout, 0), Noise: true, Scale: e.keepScale()})
				}}
		}}
}

// ---- linear operations ----

type addCfg struct {
	ids0, ids1 []string
	l0, l1     int
	s0, s1     float64
	sub, same  bool
}

func addsub(kind string, g addCfg) Op {
	fn := "AddNew"
	if g.sub {
		fn = "SubNew"
	}
	if g.same {
		g.ids1, g.l1, g.s1 = g.ids0, g.l0, g.s0
	}
	return Op{Name: fmt.Sprintf("%s[%s@%d , %s@%d scales %g,%g%s]", fn, setName(g.ids0), g.l0, setName(g.ids1), g.l1, g.s0, g.s1, sq(g.same)),
		Kind: kind, Anchor: [3]string{pkgOf(kind), "Evaluator", fn}, Ids: union(g.ids0, g.ids1),
		Make: func(e *Env) *Inst {
			a := e.Ct("x", g.l0, scaleE(g.s0), g.ids0...)
			b, n1 := a, "x"
			if !g.same {
				b, n1 = e.Ct("y", g.l1, scaleE(g.s1), g.ids1...), "y"
			}
			return &Inst{Ops: map[string]ai.Value{"first operand": a, "second operand": b},
				Call: func() ai.Value { return e.Call(pkgOf(kind), "Evaluator", fn, e.Eval, a, b) },
				Judge: func(rule string, out ai.Value) bool {
					x, y := e.Ph("x", g.ids0...), e.Ph(n1, g.ids1...)
					w := Want{Ids: union(g.ids0, g.ids1), Level: min(g.l0, g.l1)}
					if kind == "ckks" {
						w.Scale = scaleE(math.Max(g.s0, g.s1))
						if r := math.Floor(g.s0 / g.s1); r > 1 {
							y = sym.Mul(scaleE(r), y)
						} else if r := math.Floor(g.s1 / g.s0); r > 1 {
							x = sym.Mul(scaleE(r), x)
						}
					}
					if g.sub {
						y = sym.Neg(y)
					}
					w.Target = sym.Add(x, y)
					return e.Judge(rule, e.c.Anchor(pkgOf(kind), "Evaluator", fn), out, w)
				}}
		}}
}
