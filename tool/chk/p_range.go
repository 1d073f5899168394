package chk

import (
	"fmt"
	"sort"
	"strings"

	"mkverif/ai"
	"mkverif/sym"
)

// Disciplined decides that no construct was diagnosed since the scenario began.
func (e *Env) Disciplined(rule, an string, notes []string) bool {
	if len(notes) == 0 {
		return e.c.Ok(rule, an, true, "")
	}
	for _, n := range notes {
		at, msg := an, n
		if i := strings.Index(n, ": "); i > 0 {
			at, msg = n[:i]+", reached from "+an, n[i+2:]
		}
		e.c.Bad(rule, at, "%s", msg)
	}
	return false
}

// Reduced decides that every coefficient row reachable from the roots holds
// values below the modulus.
func (e *Env) Reduced(rule, an string, roots vals, max int) bool {
	reach := e.Reach(roots)
	var objs []*ai.Obj
	for o := range reach {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	n := 0
	for _, o := range objs {
		bad := ""
		var q *sym.E
		mapRows(e.M.S.Mem[o], func(r *ai.Row) ai.Value {
			if r.Q == nil || bad != "" {
				return r
			}
			n++
			if b := e.M.Bound(r, r.Q); b > max {
				q = r.Q
				bad = fmt.Sprint(b)
			}
			return r
		})
		if bad != "" {
			at := an
			if p, ok := e.M.LastW[o]; ok {
				at = e.where(p) + ", reached from " + an
			}
			return e.c.Ok(rule, at, false, "%s is left with coefficients up to %s times the modulus %s", reach[o], bad, q)
		}
	}
	return e.c.Ok(rule, an, true, "")
}

// rangeShapes: the shapes with the primes of the largest supported size.
func rangeShapes(tier string) []kindShape {
	big := func(s Shape) Shape {
		s.LogQ, s.Log0 = 60, 0
		s.Name += "-60"
		return s
	}
	r := []kindShape{{"ckks", big(cA1)}, {"ckks", big(cA2p)}, {"ckks", cA1}, {"bfv", bA1}, {"bfv", bA24}, {"rlwe", rA1}, {"rlwe", rA3}, {"rlwe", rG3},
		{"rlwe", Shape{Name: "rlwe-q10p2", NQ: 10, NP: 2, Gamma: 2}}}
	if deep(tier) {
		r = append(r, kindShape{"ckks", big(cA2)}, kindShape{"bfv", bA2}, kindShape{"rlwe", rA2},
			kindShape{"rlwe", Shape{Name: "rlwe-q10p4", NQ: 10, NP: 4, Gamma: 2}}, kindShape{"rlwe", Shape{Name: "rlwe-q18p2", NQ: 18, NP: 2, Gamma: 2}})
	}
	return r
}

func rangeUnit(sh Shape, op Op) Unit {
	return Unit{sh.Name + "/" + op.Name, func(c *Ctx) {
		e := c.OpEnv(sh, op)
		an := op.anchor(c)
		c.Scenario(e, op.Name, "range", an, func() {
			for i := 0; i < 2; i++ {
				in := e.quiet(op)
				e.M.ClearNotes()
				out := in.Call()
				e.Disciplined("range", an, e.NewNotes())
				if !strings.HasPrefix(op.Name, "HoistedForm") { // digits are only multiplied
					e.Reduced("range.result", an, results(out), 1)
				}
				e.Sfx = "'"
			}
			e.Pending("range", an)
		})
	}}
}

func rangeUnits(tier string) []Unit {
	var us []Unit
	// as many parties as a product can reasonably have
	many := strings.Split("ABCDEFGHI", "")
	for _, l := range []int{0, 1} {
		for _, how := range []string{"", "both"} {
			op := rlweMul(mulCfg{ids0: many, ids1: many, l0: l, l1: l, how: how}, l)
			us = append(us, rangeUnit(rA1, op))
		}
		us = append(us, rangeUnit(rA1, rotate("rlwe", "ks", 1, l, many...)), rangeUnit(rA1, conjugate("rlwe", l, many...)))
	}
	us = append(us, rangeUnit(bA1, bfvMul(many[:6], many[:6], false)))
	for _, sh := range otherShapes("ckks", tier) {
		sh.LogQ, sh.Name = 60, sh.Name+"-60"
		if l := lv(sh); l > 0 {
			us = append(us, rangeUnit(sh, ckksMul(mulCfg{ids0: AB, ids1: BC, l0: l, l1: l, s0: 1 << 60, s1: 1 << 60})),
				rangeUnit(sh, rotate("ckks", "eval", 3, l, ABC...)), rangeUnit(sh, conjugate("ckks", l/2, ABC...)))
		}
	}
	for _, sh := range otherShapes("bfv", tier) {
		us = append(us, rangeUnit(sh, bfvMul(AB, BC, false)), rangeUnit(sh, bfvMul(AC, nil, true)))
	}
	for _, sh := range otherShapes("rlwe", tier) {
		l := lv(sh)
		us = append(us, rangeUnit(sh, rlweMul(mulCfg{ids0: ABC, ids1: BC, l0: l, l1: l, how: "both"}, l)), rangeUnit(sh, rotate("rlwe", "kshoisted", 1, l/2, ABC...)))
	}
	for _, x := range rangeShapes(tier) {
		x := x
		ops := menu(x.kind, x.sh)
		if x.sh.NQ > 5 { // many digits: only the operations that accumulate over digits
			var few []Op
			for _, op := range ops {
				if strings.HasPrefix(op.Name, "MulAndRelin") || strings.HasPrefix(op.Name, "Rotate") || strings.HasPrefix(op.Name, "Conj") {
					few = append(few, op)
				}
			}
			ops = few
		}
		us = append(us, envUnit(x.kind, x.sh, "construction", "range", [3]string{"mkrlwe", "", "NewParameters"}, func(e *Env, an string) {
			e.Disciplined("range.construction", an, e.builtNotes)
			e.Reduced("range.keys", an, e.Owned(), 1)
		}))
		for _, op := range ops {
			op := op
			us = append(us, rangeUnit(x.sh, op))
		}
	}
	return us
}

func init() {
	register(&Prop{ID: "C23", Min: 100,
		Rule:  "On every analysed path every kernel gets operands in the domain, modulus and range it requires (multiples of the modulus are tracked per coefficient row), no intermediate value exceeds a machine word for primes of up to 60 (ciphertext) and 61 (special) bits, and keys and results hold values below the modulus.",
		Units: rangeUnits})
}
