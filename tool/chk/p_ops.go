package chk

import "fmt"

var (
	A   = []string{"A"}
	B   = []string{"B"}
	AB  = []string{"A", "B"}
	BC  = []string{"B", "C"}
	AC  = []string{"A", "C"}
	ABC = []string{"A", "B", "C"}
)

// opUnits turns a list of operations over shapes into units.
func opUnits(rule string, shs []Shape, ops func(sh Shape) []Op) []Unit {
	var us []Unit
	for _, sh := range shs {
		sh := sh
		for _, op := range ops(sh) {
			op := op
			us = append(us, Unit{sh.Name + "/" + op.Name, func(c *Ctx) { c.RunOp(rule, sh, op) }})
		}
	}
	return us
}

// RunOp analyses one operation on fresh memory and judges its result.
func (c *Ctx) RunOp(rule string, sh Shape, op Op) {
	e := c.OpEnv(sh, op)
	c.Scenario(e, op.Name, rule, op.anchor(c), func() {
		var in *Inst
		places := e.M.Recording(nil, func() { in = op.Make(e) })
		if in == nil {
			return
		}
		out := in.Call()
		in.Judge(rule, out)
		// the same call on other values, in the places where the first operands were,
		// must not see what the first call left behind
		e.Sfx = "'"
		e.M.Recording(places, func() { in = op.Make(e) })
		c.inst += " again"
		out2 := in.Call()
		in.Judge(rule+".again", out2)
		e.Pending(rule, op.anchor(c))
	})
}

// OpEnv is the environment an operation needs: three parties by default.
func (c *Ctx) OpEnv(sh Shape, op Op) *Env {
	ids := union(ABC, op.Ids)
	return c.Env(op.Kind, sh, ids...)
}

// Pending reports panics that some values of the operands would raise.
func (e *Env) Pending(rule, anchor string) {
	for _, p := range e.M.Panics {
		e.c.Bad(rule+".panic", anchor, "for some operands: %v", p)
	}
}

const s40 = 1 << 40

func lv(sh Shape) int { return sh.NQ - 1 }

func init() {
	register(&Prop{ID: "C05", Min: 20,
		Rule: "For arbitrary operand ciphertexts the abstract value of the product ciphertext, combined with the parties' abstract secrets, equals the product of the operands' phases: undoing the rescalings and the division by P leaves P times the product plus an error all of whose terms are small against P, with identical residues modulo every special prime; level, scale and key set are the expected ones.",
		Units: func(tier string) []Unit {
			us := opUnits("ckks.mul", []Shape{cA1}, func(sh Shape) []Op {
				L := lv(sh)
				ops := []Op{
					ckksMul(mulCfg{ids0: A, ids1: A, l0: L, l1: L, s0: s40, s1: s40}),
					ckksMul(mulCfg{ids0: A, ids1: B, l0: L, l1: L - 1, s0: s40, s1: s40}),
					ckksMul(mulCfg{ids0: B, ids1: AB, l0: L - 1, l1: L, s0: s40, s1: s40}),
					ckksMul(mulCfg{ids0: AB, ids1: BC, l0: 1, l1: 2, s0: s40, s1: s40}),
					ckksMul(mulCfg{ids0: AB, l0: L, s0: s40, square: true}),
					ckksMul(mulCfg{ids0: A, l0: 1, s0: s40, square: true}),
					ckksMul(mulCfg{ids0: AB, ids1: A, l0: L, l1: L, s0: s40, s1: 1 << 20}),
					ckksMul(mulCfg{ids0: A, ids1: A, l0: L, l1: L, s0: 1 << 60, s1: 1 << 60}),
					ckksMul(mulCfg{ids0: A, ids1: B, l0: 2, l1: 2, s0: s40, s1: s40, how: "hoisted"}),
					ckksMul(mulCfg{ids0: AB, l0: 2, s0: s40, square: true, how: "hoisted"}),
				}
				return append(ops, ckksMul(mulCfg{l0: L, ids1: AB, l1: L, s0: s40, s1: s40}), ckksMul(mulCfg{ids0: B, l0: 2, l1: 2, s0: s40, s1: s40}),
					ckksMul(mulCfg{l0: 2, l1: 1, s0: s40, s1: s40, how: "hoisted"}))
			})
			us = append(us, opUnits("ckks.mul", []Shape{cA2, cA2p, cP5}, func(sh Shape) []Op {
				L := lv(sh)
				return []Op{
					ckksMul(mulCfg{ids0: A, ids1: AB, l0: L, l1: L, s0: s40, s1: s40}),
					ckksMul(mulCfg{ids0: A, ids1: B, l0: 1, l1: L, s0: s40, s1: s40}),
					ckksMul(mulCfg{ids0: A, l0: 2, s0: s40, square: true}),
				}
			})...)
			us = append(us, opUnits("rlwe.mul", []Shape{rA1, rA2, rA2p, rG3, rP5}, func(sh Shape) []Op {
				L := lv(sh)
				return []Op{
					rlweMul(mulCfg{ids0: A, ids1: B, l0: L, l1: L}, L),
					rlweMul(mulCfg{ids0: AB, ids1: BC, l0: L, l1: L}, 1),
					rlweMul(mulCfg{ids0: A, ids1: AB, l0: L, l1: L, how: "both"}, L),
					rlweMul(mulCfg{ids0: A, ids1: A, l0: 0, l1: 0, how: "first"}, 0),
				}
			})...)
			us = append(us, opUnits("ckks.mul", otherShapes("ckks", tier), func(sh Shape) []Op {
				L := lv(sh)
				if L == 0 {
					return nil
				}
				return []Op{ckksMul(mulCfg{ids0: AB, ids1: BC, l0: L, l1: (L + 1) / 2, s0: s40, s1: s40}), ckksMul(mulCfg{ids0: B, l0: L, s0: s40, square: true, how: "hoisted"})}
			})...)
			us = append(us, opUnits("rlwe.mul", otherShapes("rlwe", tier), func(sh Shape) []Op {
				L := lv(sh)
				return []Op{rlweMul(mulCfg{ids0: AB, ids1: BC, l0: L, l1: L}, L), rlweMul(mulCfg{ids0: A, ids1: AB, l0: L, l1: L, how: "both"}, L/2)}
			})...)
			us = append(us, Unit{"five parties", func(c *Ctx) {
				five := []string{"A", "B", "C", "D", "E"}
				c.RunOp("ckks.mul", cA1, ckksMul(mulCfg{ids0: five, ids1: []string{"B", "D"}, l0: 2, l1: 1, s0: s40, s1: s40}))
				c.RunOp("ckks.mul", cA1, ckksMul(mulCfg{ids0: five, l0: 1, s0: s40, square: true, how: "hoisted"}))
			}})
			if wide(tier) {
				us = append(us, opUnits("ckks.mul", []Shape{cA1.rev(), cA2.rev(), cA2p.rev()}, func(sh Shape) []Op {
					var ops []Op
					for l0 := 1; l0 <= lv(sh); l0++ {
						for l1 := 1; l1 <= lv(sh); l1++ {
							ops = append(ops, ckksMul(mulCfg{ids0: AB, ids1: BC, l0: l0, l1: l1, s0: s40, s1: s40}))
						}
						ops = append(ops, ckksMul(mulCfg{ids0: ABC, l0: l0, s0: s40, square: true}))
						ops = append(ops, ckksMul(mulCfg{ids0: ABC, ids1: A, l0: l0, l1: l0, s0: s40, s1: s40, how: "hoisted"}))
					}
					return ops
				})...)
				us = append(us, opUnits("rlwe.mul", []Shape{rA1.rev(), rA2.rev(), rA2p.rev(), rG3.rev(), rA3}, func(sh Shape) []Op {
					var ops []Op
					for l := 0; l <= lv(sh); l++ {
						for _, h := range []string{"", "both", "first", "second"} {
							ops = append(ops, rlweMul(mulCfg{ids0: AB, ids1: BC, l0: l, l1: l, how: h}, l))
						}
					}
					return ops
				})...)
			}
			return us
		}})
	register(&Prop{ID: "C06", Min: 20,
		Rule: "For arbitrary operand ciphertexts the abstract value of the BFV product ciphertext, combined with the parties' abstract secrets, equals T/QMul times the product of the extended operands (the second scaled by QMul/Q), with one rounding and a key-switching error all of whose terms are small against P; modulo the auxiliary primes the fractional parts of the gadget cancel exactly.",
		Units: func(tier string) []Unit {
			us := opUnits("bfv.mul", []Shape{bA1, bA13, bA2}, func(sh Shape) []Op {
				return []Op{
					bfvMul(A, A, false), bfvMul(A, B, false), bfvMul(AB, BC, false), bfvMul(B, AB, false),
					bfvMul(A, nil, true), bfvMul(AB, nil, true),
				}
			})
			us = append(us, opUnits("bfv.mul", []Shape{bA24}, func(sh Shape) []Op {
				return []Op{bfvMul(A, B, false), bfvMul(A, nil, true), bfvMul(nil, B, false), bfvMul(B, nil, false)}
			})...)
			us = append(us, opUnits("bfv.mul", otherShapes("bfv", tier), func(sh Shape) []Op {
				return []Op{bfvMul(AB, BC, false), bfvMul(B, nil, true)}
			})...)
			us = append(us, opUnits("bfv.mul", []Shape{bA1, bA2}, func(sh Shape) []Op {
				return []Op{bfvMulKS(AB, BC, false), bfvMulKS(A, AB, true)}
			})...)
			if wide(tier) {
				us = append(us, opUnits("bfv.mul", []Shape{bA1.rev(), bA13.rev(), bA2.rev(), bA24.rev()}, func(sh Shape) []Op {
					return []Op{bfvMul(ABC, BC, false), bfvMul(C, ABC, false), bfvMul(ABC, nil, true), bfvMulKS(ABC, BC, false), bfvMulKS(ABC, BC, true)}
				})...)
			}
			return us
		}})
	register(&Prop{ID: "C07", Min: 40,
		Rule: "For an arbitrary operand the phase of the rotated ciphertext equals the image of the operand's phase under the automorphism X -> X^(5^k mod 2N), for k any integer, up to an error small against P; level, scale and key set are kept.",
		Units: func(tier string) []Unit {
			us := opUnits("rotate", []Shape{cA1, cA2p}, func(sh Shape) []Op {
				L := lv(sh)
				var ops []Op
				for _, k := range []int{0, 1, 2, 4, 3, 7, N / 2, N/2 + 1, -1, -3, 13} {
					ops = append(ops, rotate("ckks", "eval", k, L-1+abs(k)%2, AB...))
				}
				for _, k := range []int{0, 1, 2, 4, 2 - N/2, N/2 + 1} {
					if sh.Alpha() == 1 || k > 0 {
						ops = append(ops, rotate("ckks", "hoisted", k, L-abs(k)%2, AB...))
					}
				}
				ops = append(ops, rotate("ckks", "eval", 2, 0, A...), rotate("ckks", "hoisted", 1, 0, A...))
				return ops
			})
			us = append(us, opUnits("rotate", []Shape{bA1, bA2}, func(sh Shape) []Op {
				var ops []Op
				for _, k := range []int{0, 1, 4, 3, -1, N/2 + 2, N / 2} {
					ops = append(ops, rotate("bfv", "eval", k, lv(sh), AB...))
				}
				return ops
			})...)
			us = append(us, opUnits("rotate", []Shape{rA1, rA2, rG3}, func(sh Shape) []Op {
				return []Op{rotate("rlwe", "ks", 2, lv(sh), AB...), rotate("rlwe", "ks", 1, 1, ABC...),
					rotate("rlwe", "kshoisted", 4, lv(sh)-1, AB...), rotate("rlwe", "kshoisted", 1, 0, A...),
					rotateTo("rlwe", "ks", 1, lv(sh), lv(sh)-1, AB...), rotateTo("rlwe", "ks", 4, lv(sh)-1, 0, A...),
					rotateTo("rlwe", "kshoisted", 1, lv(sh), lv(sh)-1, AB...), rotateTo("rlwe", "kshoisted", 2, lv(sh), 0, A...)}
			})...)
			us = append(us, opUnits("rotate", []Shape{cP5, rP5}, func(sh Shape) []Op {
				if sh.LogQ == 0 {
					return []Op{rotate("rlwe", "ks", 2, lv(sh), AB...), rotate("rlwe", "kshoisted", 1, lv(sh)-1, AB...), rotateTo("rlwe", "ks", 1, lv(sh), 1, A...)}
				}
				return []Op{rotate("ckks", "eval", 3, lv(sh), AB...), rotate("ckks", "hoisted", 4, lv(sh)-1, A...), rotate("ckks", "eval", 1, 0, B...)}
			})...)
			us = append(us, opUnits("rotate", otherShapes("ckks", tier), func(sh Shape) []Op {
				return []Op{rotate("ckks", "eval", 3, lv(sh), AB...), rotate("ckks", "hoisted", 2, lv(sh)/2, B...)}
			})...)
			us = append(us, opUnits("rotate", otherShapes("bfv", tier), func(sh Shape) []Op {
				return []Op{rotate("bfv", "eval", -2, lv(sh), AB...)}
			})...)
			us = append(us, opUnits("rotate", otherShapes("rlwe", tier), func(sh Shape) []Op {
				return []Op{rotate("rlwe", "ks", 2, lv(sh)/2, AB...), rotate("rlwe", "kshoisted", 4, lv(sh), A...)}
			})...)
			us = append(us, Unit{"five parties", func(c *Ctx) {
				five := []string{"A", "B", "C", "D", "E"}
				c.RunOp("rotate", cA1, rotate("ckks", "eval", 3, lv(cA1)-1, five...))
				c.RunOp("rotate", cA1, rotate("ckks", "hoisted", 2, lv(cA1), five...))
			}})
			if wide(tier) {
				us = append(us, opUnits("rotate", []Shape{cA1.rev(), cA2.rev(), cA2p.rev()}, func(sh Shape) []Op {
					var ops []Op
					for _, k := range rotRange(sh) {
						ops = append(ops, rotate("ckks", "eval", k, abs(k)%(lv(sh)+1), ABC...))
					}
					return ops
				})...)
				us = append(us, opUnits("rotate", []Shape{bA1.rev(), bA2.rev(), bA24.rev()}, func(sh Shape) []Op {
					var ops []Op
					for _, k := range rotRange(sh) {
						ops = append(ops, rotate("bfv", "eval", k, lv(sh), ABC...))
					}
					return ops
				})...)
				us = append(us, opUnits("rotate", []Shape{rA3, rA2p, rA2.rev()}, func(sh Shape) []Op {
					var ops []Op
					for l := 0; l <= lv(sh); l++ {
						ops = append(ops, rotate("rlwe", "ks", 2, l, AB...), rotate("rlwe", "kshoisted", 4, l, AB...))
					}
					return ops
				})...)
			}
			return us
		}})
	register(&Prop{ID: "C08", Min: 10,
		Rule: "For an arbitrary operand at any level the phase of the conjugated ciphertext equals the image of the operand's phase under X -> X^(-1), up to an error small against P; level, scale and key set are kept.",
		Units: func(tier string) []Unit {
			all := func(kind string, ids []string) func(sh Shape) []Op {
				return func(sh Shape) []Op {
					var ops []Op
					for l := 0; l <= lv(sh); l++ {
						if kind == "bfv" && l < lv(sh) {
							continue
						}
						ops = append(ops, conjugate(kind, l, ids...))
					}
					return ops
				}
			}
			us := opUnits("conjugate", []Shape{cA1, cA2p}, all("ckks", AB))
			us = append(us, opUnits("conjugate", []Shape{bA1, bA2}, all("bfv", AB))...)
			us = append(us, opUnits("conjugate", []Shape{rA1, rA2, rG3}, all("rlwe", ABC))...)
			us = append(us, opUnits("conjugate", []Shape{rA1, rA2p, rP5}, func(sh Shape) []Op {
				return []Op{conjugateTo("rlwe", lv(sh), lv(sh)-1, AB...), conjugateTo("rlwe", lv(sh), 0, A...), conjugate("rlwe", lv(sh), BC...)}
			})...)
			for _, kind := range []string{"ckks", "bfv", "rlwe"} {
				kind := kind
				us = append(us, opUnits("conjugate", otherShapes(kind, tier), func(sh Shape) []Op {
					ops := []Op{conjugate(kind, lv(sh), AB...)}
					if kind != "bfv" {
						ops = append(ops, conjugate(kind, lv(sh)/2, B...))
					}
					return ops
				})...)
			}
			us = append(us, opUnits("conjugate", []Shape{cA1}, func(sh Shape) []Op {
				return []Op{conjugate("ckks", lv(sh)-1, "A", "B", "C", "D", "E")}
			})...)
			if wide(tier) {
				us = append(us, opUnits("conjugate", []Shape{cA1.rev(), cA2.rev()}, all("ckks", ABC))...)
				us = append(us, opUnits("conjugate", []Shape{bA13.rev(), bA24.rev()}, all("bfv", ABC))...)
				us = append(us, opUnits("conjugate", []Shape{rA2p.rev(), rA3.rev()}, all("rlwe", AB))...)
			}
			return us
		}})
	register(&Prop{ID: "C04", Min: 20,
		Rule: "For arbitrary operands the phase of the sum (difference) equals the sum (difference) of the operands' phases, aligned by the integer ratio of their scales, exactly; the key set is the union, the level the minimum and the scale the maximum.",
		Units: func(tier string) []Unit {
			gen := func(sh Shape, sub bool) []Op {
				L := lv(sh)
				var ops []Op
				// every small ratio of the scales in both directions
				for i, r := range []float64{2, 3, 4, 7, 1 << 11, 1 << 20} {
					s := [2]float64{s40, r * s40}
					for k := 0; k < 2; k++ {
						l := [][2]int{{L, L}, {L, 1}, {0, 0}, {1, L}}[(i+2*k)%4]
						ids := [][][]string{{A, A}, {AB, BC}, {C, AB}}[(i+k)%3]
						ops = append(ops, addsub("ckks", addCfg{ids0: ids[0], ids1: ids[1], l0: l[0], l1: l[1], s0: s[k], s1: s[1-k], sub: sub}))
					}
				}
				return append(ops,
					addsub("ckks", addCfg{ids0: A, ids1: A, l0: L, l1: L, s0: s40, s1: s40, sub: sub}),
					addsub("ckks", addCfg{ids0: A, ids1: B, l0: L, l1: L - 1, s0: s40, s1: s40, sub: sub}),
					addsub("ckks", addCfg{ids0: AB, ids1: BC, l0: 0, l1: L, s0: s40, s1: s40, sub: sub}),
					addsub("ckks", addCfg{ids0: AB, ids1: BC, l0: L, l1: L, s0: 1 << 42, s1: s40, sub: sub}),
					addsub("ckks", addCfg{ids0: AB, ids1: BC, l0: 1, l1: L, s0: s40, s1: 1 << 45, sub: sub}),
					addsub("ckks", addCfg{ids0: BC, ids1: A, l0: L, l1: 0, s0: s40, s1: s40 * 1.25, sub: sub}),
					addsub("ckks", addCfg{ids0: A, ids1: ABC, l0: L, l1: L, s0: 3 * s40, s1: s40, sub: sub}),
					addsub("ckks", addCfg{ids0: AB, l0: L, s0: s40, same: true, sub: sub}),
					addsub("ckks", addCfg{ids0: []string{"A", "B", "C", "D"}, ids1: []string{"B", "C", "D", "E"}, l0: L, l1: L - 1, s0: s40, s1: 2 * s40, sub: sub}),
				)
			}
			genB := func(sh Shape, sub bool) []Op {
				L := lv(sh)
				return []Op{
					addsub("bfv", addCfg{ids0: A, ids1: A, l0: L, l1: L, sub: sub}),
					addsub("bfv", addCfg{ids0: A, ids1: B, l0: L, l1: L, sub: sub}),
					addsub("bfv", addCfg{ids0: AB, ids1: BC, l0: L, l1: L, sub: sub}),
					addsub("bfv", addCfg{ids0: C, ids1: AB, l0: L, l1: L, sub: sub}),
					addsub("bfv", addCfg{ids0: AB, l0: L, same: true, sub: sub}),
				}
			}
			shs, shb := []Shape{cA1, cA1.rev()}, []Shape{bA1, bA1.rev()}
			if wide(tier) {
				shs, shb = append(shs, cA2, cA2p), append(shb, bA2, bA13)
			}
			us := opUnits("addsub", shs, func(sh Shape) []Op { return append(gen(sh, false), gen(sh, true)...) })
			return append(us, opUnits("addsub", shb, func(sh Shape) []Op { return append(genB(sh, false), genB(sh, true)...) })...)
		}})
}

// rotRange: rotation amounts beyond one period on either side.
func rotRange(sh Shape) []int {
	ks := []int{-2*N - 3, -N - 1, -N, -N/2 - 1, -N / 2, 1 - N/2, -1, N/2 - 1, N / 2, N/2 + 1, N - 1, N, N + 1, N + 5, 2*N + 1, 3*N + 6}
	if sh.Alpha() == 1 && sh.NQ <= 4 {
		for k := -6; k <= 7; k++ {
			ks = append(ks, k)
		}
	}
	return ks
}

var C = []string{"C"}

func abs(k int) int {
	if k < 0 {
		return -k
	}
	return k
}

var _ = fmt.Sprint
