package chk

import (
	"fmt"
	"go/token"
	"math"
	"sort"

	"mkverif/ai"
	"mkverif/sym"
)

// misc makes an operation that is not a homomorphic one.
func misc(kind, name string, an [3]string, mk func(e *Env) (ops map[string]ai.Value, call func() ai.Value, judge func(rule, an string, out ai.Value) bool)) Op {
	return Op{Name: name, Kind: kind, Anchor: an, Ids: ABC, Make: func(e *Env) *Inst {
		ops, call, judge := mk(e)
		in := &Inst{Ops: ops, Call: call}
		in.Judge = func(rule string, out ai.Value) bool {
			if judge == nil {
				return true
			}
			return judge(rule, e.c.Anchor(an[0], an[1], an[2]), out)
		}
		return in
	}}
}

type vals = map[string]ai.Value

// encOps: encoding, encryption and decryption as operations.
func encOps(kind string, sh Shape) []Op {
	pkg, L := pkgOf(kind), lv(sh)
	var ops []Op
	add := func(name, recv, fn string, mk func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool)) {
		ops = append(ops, misc(kind, name, [3]string{pkg, recv, fn}, mk))
	}
	levels := []int{L, 0, 1}
	if kind == "bfv" {
		levels = levels[:1]
	}
	sc := func(e *Env) *sym.E {
		if kind == "ckks" {
			return scaleE(e.Sh.Scale)
		}
		return sym.One
	}
	scn := func(e *Env) *sym.E {
		if kind == "ckks" {
			return scaleE(e.Sh.Scale)
		}
		return nil
	}
	if kind != "rlwe" {
		add("EncryptMsgNew[A]", "Encryptor", "EncryptMsgNew", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
			m, t := e.Msg("m")
			return vals{"message": m}, func() ai.Value { return e.Call(pkg, "Encryptor", "EncryptMsgNew", e.Enc, m, e.Pk["A"]) },
				func(rule, an string, out ai.Value) bool {
					return e.JudgeFresh(rule, an, out, "A", L, scn(e), sym.Mul(sc(e), t))
				}
		})
		for _, l := range levels {
			l := l
			add(fmt.Sprintf("EncryptMsg[B@%d]", l), "Encryptor", "EncryptMsg", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
				m, t := e.Msg("m")
				ct := e.Ct("old", l, scaleE(5), "B")
				return vals{"message": m}, func() ai.Value {
						e.Call(pkg, "Encryptor", "EncryptMsg", e.Enc, m, e.Pk["B"], ct)
						return ct
					},
					func(rule, an string, out ai.Value) bool {
						return e.JudgeFresh(rule, an, out, "B", l, scn(e), sym.Mul(sc(e), t))
					}
			})
			ids := [][]string{ABC, A, BC}[l%3]
			add(fmt.Sprintf("Decrypt[%s@%d]", setName(ids), l), "Decryptor", "Decrypt", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
				s := scaleE(float64(int64(5+l) << 37))
				ct := e.Ct("x", l, s, ids...)
				return vals{"ciphertext": ct}, func() ai.Value { return e.Call(pkg, "Decryptor", "Decrypt", e.Dec, ct, e.SkSet) },
					func(rule, an string, out ai.Value) bool {
						return e.JudgeDecoded(rule, an, out, e.phRows(e.Ph("x", ids...), l), l, s)
					}
			})
		}
		add("CopyNew", "Ciphertext", "CopyNew", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
			s := scaleE(float64(int64(5) << 37))
			l := L
			if kind == "ckks" {
				l--
			}
			ct := e.Ct("x", l, s, AC...)
			if kind == "bfv" {
				s = nil
			}
			return vals{"ciphertext": ct}, func() ai.Value { return e.Call(pkg, "Ciphertext", "CopyNew", ct) },
				func(rule, an string, out ai.Value) bool {
					return e.Judge(rule, an, out, Want{Ids: AC, Level: l, Target: e.Ph("x", AC...), Scale: s})
				}
		})
	}
	if kind == "ckks" {
		add("EncodeMsgNew", "Encryptor", "EncodeMsgNew", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
			m, t := e.Msg("m")
			return vals{"message": m}, func() ai.Value { return e.Call(pkg, "Encryptor", "EncodeMsgNew", e.Enc, m) },
				func(rule, an string, out ai.Value) bool {
					return e.judgePoly(rule, an, e.M.Get(out, "Value"), e.phRows(sym.Mul(sc(e), t), L), L, false)
				}
		})
		add("EncryptPtxt[C@1]", "Encryptor", "EncryptPtxt", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
			pt := e.CkksPt("p", L, 1<<33)
			ct := e.Ct("old", 1, scaleE(5), "C")
			return vals{"plaintext": pt}, func() ai.Value {
					e.Call(pkg, "Encryptor", "EncryptPtxt", e.Enc, pt, e.Pk["C"], ct)
					return ct
				},
				func(rule, an string, out ai.Value) bool {
					return e.JudgeFresh(rule, an, out, "C", 1, scaleE(1<<33), sym.RAtom("p"+e.Sfx))
				}
		})
		add("HoistedForm", "Evaluator", "HoistedForm", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
			ct := e.Ct("x", L-1, scaleE(s40), AB...)
			return vals{"ciphertext": ct}, func() ai.Value { return e.Call(pkg, "Evaluator", "HoistedForm", e.Eval, ct) }, nil
		})
	}
	if kind == "rlwe" {
		for k := 0; k < 4; k++ {
			k := k
			add(fmt.Sprintf("Encrypt[pt ntt=%v ct ntt=%v]", k&1 == 1, k&2 == 2), "Encryptor", "Encrypt", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
				pt := e.Pt("m", L, k&1 == 1)
				l := L - k%2
				ct := e.Ct("old", l, nil, "B")
				if k&2 == 2 {
					ct = e.CtNTT("old", l, "B")
				}
				return vals{"plaintext": pt}, func() ai.Value {
						e.Call(pkg, "Encryptor", "Encrypt", e.Enc, pt, e.Pk["B"], ct)
						return ct
					},
					func(rule, an string, out ai.Value) bool {
						return e.JudgeFresh(rule, an, out, "B", l, nil, sym.RAtom("m"+e.Sfx))
					}
			})
			add(fmt.Sprintf("Decrypt[pt ntt=%v ct ntt=%v]", k&1 == 1, k&2 == 2), "Decryptor", "Decrypt", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
				l := L - k%2
				ct := e.Ct("x", l, nil, AC...)
				if k&2 == 2 {
					ct = e.CtNTT("x", l, AC...)
				}
				pt := e.Pt("old", L, k&1 == 1)
				return vals{"ciphertext": ct}, func() ai.Value {
						e.Call(pkg, "Decryptor", "Decrypt", e.Dec, ct, e.SkSet, pt)
						return pt
					},
					func(rule, an string, out ai.Value) bool {
						return e.judgePoly(rule, an, e.M.Get(out, "Value"), e.phRows(e.Ph("x", AC...), l), l, k&1 == 1)
					}
			})
		}
		add("CopyNew", "Ciphertext", "CopyNew", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
			ct := e.Ct("x", 1, nil, AC...)
			return vals{"ciphertext": ct}, func() ai.Value { return e.Call(pkg, "Ciphertext", "CopyNew", ct) },
				func(rule, an string, out ai.Value) bool {
					return e.Judge(rule, an, out, Want{Ids: AC, Level: 1, Target: e.Ph("x", AC...)})
				}
		})
	}
	for _, l := range levels {
		l := l
		add(fmt.Sprintf("PartialDecrypt[B of ABC@%d]", l), "Decryptor", "PartialDecrypt", func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
			ct := e.Ct("x", l, scaleE(s40), ABC...)
			return vals{}, func() ai.Value {
					e.Call(pkg, "Decryptor", "PartialDecrypt", e.Dec, ct, e.Sk["B"])
					return ct
				},
				func(rule, an string, out ai.Value) bool {
					e.judgeShare(rule, an, ct, l, AC, e.Ph("x", ABC...))
					return true
				}
		})
	}
	return ops
}

// keyOps: the key generators as operations on a used generator.
func keyOps(kind string) []Op {
	var ops []Op
	add := func(fn string, call func(e *Env) ai.Value, judge func(e *Env, rule, an string, k ai.Value)) {
		ops = append(ops, misc(kind, fn, [3]string{"mkrlwe", "KeyGenerator", fn}, func(e *Env) (map[string]ai.Value, func() ai.Value, func(rule, an string, out ai.Value) bool) {
			return vals{}, func() ai.Value { return call(e) }, func(rule, an string, out ai.Value) bool {
				judge(e, rule, an, out)
				return true
			}
		}))
	}
	seen := func() map[*sym.Node]string { return map[*sym.Node]string{} }
	add("GenSecretKey", func(e *Env) ai.Value { return e.Kgen("GenSecretKey", e.id("Z")) },
		func(e *Env, rule, an string, k ai.Value) { e.JudgeSecret(rule, an, k, "Z", "ternary", "p=0.5", seen()) })
	add("GenPublicKey", func(e *Env) ai.Value { return e.Kgen("GenPublicKey", e.Sk["A"]) },
		func(e *Env, rule, an string, k ai.Value) { e.JudgePk(rule, an, k, "A", e.S["A"], seen()) })
	add("GenKeyPair", func(e *Env) ai.Value { return e.Kgen("GenKeyPair", e.id("Z")) },
		func(e *Env, rule, an string, k ai.Value) {
			t := k.(ai.Tup)
			if e.JudgeSecret(rule, an, t[0], "Z", "ternary", "p=0.5", seen()) {
				e.JudgePk(rule, an, t[1], "Z", e.SecretE(t[0]), seen())
			}
		})
	add("GenRotationKey", func(e *Env) ai.Value { return e.Kgen("GenRotationKey", ai.I(-N/2+2), e.Sk["B"]) },
		func(e *Env, rule, an string, k ai.Value) { e.JudgeRot(rule, an, k, "B", 2, e.S["B"], seen()) })
	add("GenConjugationKey", func(e *Env) ai.Value { return e.Kgen("GenConjugationKey", e.Sk["C"]) },
		func(e *Env, rule, an string, k ai.Value) { e.JudgeConj(rule, an, k, "C", e.S["C"], seen()) })
	add("GenRelinearizationKey", func(e *Env) ai.Value {
		if kind == "bfv" {
			return e.Call("mkbfv", "KeyGenerator", "GenRelinearizationKey", e.Kg, e.Sk["A"], e.R["A"])
		}
		return e.Kgen("GenRelinearizationKey", e.Sk["A"], e.R["A"])
	}, func(e *Env, rule, an string, k ai.Value) { e.JudgeRlk(rule, an, k, "A", e.S["A"], e.RS["A"], seen()) })
	add("GenSwitchingKey", func(e *Env) ai.Value {
		swk := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
		e.Kgen("GenSwitchingKey", e.Sk["A"], swk)
		return swk
	}, func(e *Env, rule, an string, k ai.Value) {
		e.JudgeGadget(rule, an, "the gadget encryption", k, noCRS, nil, e.rnsGadget, e.S["A"], seen())
	})
	return ops
}

// evalOps: homomorphic operations with differing levels, scales and party sets.
func evalOps(kind string, sh Shape) []Op {
	L := lv(sh)
	mid := max(L-1, 1)
	switch kind {
	case "ckks":
		ops := []Op{
			ckksMul(mulCfg{ids0: A, ids1: B, l0: L, l1: L, s0: s40, s1: s40}),
			ckksMul(mulCfg{ids0: AB, ids1: BC, l0: 1, l1: L, s0: s40, s1: s40}),
			ckksMul(mulCfg{ids0: AB, l0: mid, s0: s40, square: true}),
			ckksMul(mulCfg{ids0: ABC, ids1: A, l0: mid, l1: mid, s0: s40, s1: s40, how: "hoisted"}),
			ckksMul(mulCfg{ids0: AB, l0: L, s0: s40, square: true, how: "hoisted"}),
			rotate("ckks", "eval", 0, mid, AB...), rotate("ckks", "eval", 3, L, AB...), rotate("ckks", "eval", -1, 0, BC...), rotate("ckks", "eval", 4, 1, A...),
			rotate("ckks", "hoisted", 0, mid, AB...), rotate("ckks", "hoisted", 2, L, AB...), rotate("ckks", "hoisted", 1, 0, BC...),
			conjugate("ckks", mid, AB...), conjugate("ckks", 0, BC...),
			addsub("ckks", addCfg{ids0: AB, ids1: BC, l0: L, l1: 1, s0: s40, s1: s40}),
			addsub("ckks", addCfg{ids0: AB, ids1: BC, l0: 1, l1: L, s0: 1 << 42, s1: s40}),
			addsub("ckks", addCfg{ids0: B, ids1: A, l0: L, l1: L, s0: s40, s1: 1 << 42, sub: true}),
			addsub("ckks", addCfg{ids0: ABC, ids1: A, l0: mid, l1: mid, s0: s40, s1: s40, sub: true}),
			addsub("ckks", addCfg{ids0: AB, l0: mid, s0: s40, same: true}),
			// a ciphertext that involves no party any more
			ckksMul(mulCfg{l0: L, ids1: A, l1: L, s0: s40, s1: s40}),
			ckksMul(mulCfg{ids0: AB, l0: mid, l1: mid, s0: s40, s1: s40, how: "hoisted"}),
			rotate("ckks", "eval", 1, mid), conjugate("ckks", mid),
			addsub("ckks", addCfg{ids1: AB, l0: mid, l1: L, s0: s40, s1: 1 << 42, sub: true}),
			mulPtxt(mid, L, s40, s40, false, AB...), mulPtxt(0, L, s40, 1<<20, true, A...),
			multByConst(3, mid, L, AB...), multByConst(1.5, L, mid, AB...), multByConst(complex(0.5, -1), mid, mid, A...), multByConst(-2, mid, -1, A...),
			rescale("new", L, L, math.Ldexp(1, 80), s40, AB...), rescale("into", mid, L, math.Ldexp(1, 80), s40, A...), rescale("new", L, L, s40, s40, A...),
			dropLevel(true, L, 0, AB...), dropLevel(true, L, 1, AB...), dropLevel(false, L, 1, A...),
		}
		// sums that have to align scales, at every pair of levels
		for i, l := range [][2]int{{L, L}, {1, L}, {L, 1}, {1, 1}, {0, 0}, {0, L}} {
			s := [2]float64{s40, 1 << 42}
			for k := 0; k < 2; k++ {
				ops = append(ops, addsub("ckks", addCfg{ids0: [][]string{AB, C}[i%2], ids1: [][]string{BC, AB}[(i+k)%2], l0: l[0], l1: l[1], s0: s[k], s1: s[1-k], sub: i%2 == k}))
			}
		}
		return ops
	case "bfv":
		return []Op{
			bfvMul(A, B, false), bfvMul(AB, BC, false), bfvMul(AB, nil, true), bfvMulKS(AB, BC, false), bfvMulKS(B, ABC, true),
			bfvMul(nil, A, false), bfvMul(AB, nil, false), bfvMulKS(nil, B, false), rotate("bfv", "eval", 1, L), conjugate("bfv", L), addsub("bfv", addCfg{ids1: AB, l0: L, l1: L, sub: true}),
			rotate("bfv", "eval", 0, L, AB...), rotate("bfv", "eval", 3, L, AB...), rotate("bfv", "eval", -4, L, BC...), rotate("bfv", "eval", 1, L, A...),
			conjugate("bfv", L, AB...),
			addsub("bfv", addCfg{ids0: AB, ids1: BC, l0: L, l1: L}), addsub("bfv", addCfg{ids0: B, ids1: A, l0: L, l1: L, sub: true}), addsub("bfv", addCfg{ids0: AB, l0: L, same: true}),
		}
	}
	return []Op{
		rlweMul(mulCfg{ids0: A, ids1: B, l0: L, l1: L}, L), rlweMul(mulCfg{ids0: AB, ids1: BC, l0: L, l1: L}, 1), rlweMul(mulCfg{ids0: AB, ids1: A, l0: mid, l1: mid, how: "both"}, mid),
		rlweMul(mulCfg{ids0: BC, l0: 0, square: true, how: "both"}, 0),
		rlweMul(mulCfg{l0: mid, ids1: AB, l1: L}, mid), rlweMul(mulCfg{ids0: A, l0: mid, l1: mid, how: "both"}, mid), rotate("rlwe", "kshoisted", 1, mid), conjugate("rlwe", mid),
		rotate("rlwe", "ks", 2, L, AB...), rotate("rlwe", "ks", 1, 0, ABC...), rotate("rlwe", "kshoisted", 4, mid, AB...), rotate("rlwe", "kshoisted", 1, 0, A...),
		conjugate("rlwe", mid, AB...), conjugate("rlwe", 0, ABC...),
	}
}

func menu(kind string, sh Shape) []Op {
	ops := append(evalOps(kind, sh), encOps(kind, sh)...)
	return append(ops, keyOps(kind)...)
}

func memShapes(tier string) []kindShape {
	r := []kindShape{{"ckks", cA1}, {"bfv", bA1}, {"rlwe", rA1}, {"ckks", cA2p.rev()}, {"bfv", bA2.rev()}, {"rlwe", rG3.rev()}}
	if deep(tier) {
		r = append(r, kindShape{"ckks", cA2}, kindShape{"bfv", bA24}, kindShape{"rlwe", rA3})
	}
	return r
}

// opScenario makes units that analyse every operation of the menu.
func menuUnits(tier, rule string, f func(e *Env, op Op, an string)) []Unit {
	var us []Unit
	for _, x := range memShapes(tier) {
		x := x
		for _, op := range menu(x.kind, x.sh) {
			op := op
			us = append(us, Unit{x.sh.Name + "/" + op.Name, func(c *Ctx) {
				e := c.OpEnv(x.sh, op)
				an := op.anchor(c)
				c.Scenario(e, op.Name, rule, an, func() {
					f(e, op, an)
					e.Pending(rule, an)
				})
			}})
		}
	}
	return us
}

// results are the objects a call hands out.
func results(out ai.Value) map[string]ai.Value {
	m := vals{}
	if t, ok := out.(ai.Tup); ok {
		for i, v := range t {
			m[fmt.Sprint("result ", i)] = v
		}
		return m
	}
	m["result"] = out
	return m
}

// only keeps the roots other than those in without.
func without2(m map[string]ai.Value, names ...string) map[string]ai.Value {
	out := vals{}
	for k, v := range m {
		out[k] = v
	}
	for _, n := range names {
		delete(out, n)
	}
	return out
}

// globals are the package-level variables of the analysed repository and its library.
func (e *Env) globals() map[string]ai.Value {
	m := vals{}
	for g, o := range e.M.Globals {
		m["the package variable "+g.String()] = &ai.Ptr{O: o}
	}
	return m
}

// Written decides that nothing reachable from the roots was written since the
// write record was cleared, whether or not the content differs.
func (e *Env) Unwritten(rule, an string, roots map[string]ai.Value) bool {
	return e.unwritten(rule, an, e.ReachAll(roots))
}

func (e *Env) unwritten(rule, an string, reach map[*ai.Obj]string) bool {
	var bad []string
	for o, n := range reach {
		if p, ok := e.M.LastW[o]; ok {
			bad = append(bad, fmt.Sprintf("%s (%s, written at %s)", n, o.T, e.where(p)))
		}
	}
	if len(bad) == 0 {
		return e.c.Ok(rule, an, true, "")
	}
	sort.Strings(bad)
	if len(bad) > 4 {
		bad = append(bad[:4], fmt.Sprintf("and %d more", len(bad)-4))
	}
	return e.c.Ok(rule, an, false, "the call writes to %s", join(bad))
}

func init() {
	register(&Prop{ID: "C12", Min: 150,
		Rule: "On every analysed path of every operation the abstract memory reachable from operands, messages, plaintexts, keys, key sets and parameters is the same before and after the call (scratch memory of evaluating objects and of relinearization key sets excepted).",
		Units: func(tier string) []Unit {
			return menuUnits(tier, "frame", func(e *Env, op Op, an string) {
				for i := 0; i < 2; i++ {
					in := e.quiet(op)
					f := e.Freeze(merge(in.Ops, e.Owned()))
					in.Call()
					e.Unchanged("frame.operands", an, f)
					e.Sfx = "'"
				}
			})
		}})
	register(&Prop{ID: "C13", Min: 150,
		Rule: "On every analysed path the abstract memory reachable from a result is disjoint from the memory reachable from operands, keys, parameters, evaluating objects and earlier results of the same operation, so no later call can change it and changing it changes nothing else; an earlier result is unchanged by the next call.",
		Units: func(tier string) []Unit {
			return menuUnits(tier, "own", func(e *Env, op Op, an string) {
				var first *Frozen
				var outs map[string]ai.Value
				for i := 0; i < 3; i++ {
					in := e.quiet(op)
					out := in.Call()
					if first != nil {
						e.Unchanged("own.later", an, first)
						e.Disjoint("own.earlier", an, out, outs)
					}
					e.Disjoint("own.result", an, out, merge(in.Ops, e.Owned(), e.Workers()))
					e.Apart("own.parts", an, out)
					outs = vals{}
					for k, v := range results(out) {
						outs["an earlier "+k] = v
					}
					first = e.Freeze(outs)
					e.Sfx += "'"
				}
			})
		}})
	register(&Prop{ID: "C24", Min: 150,
		Rule: "On every analysed path an operation writes no abstract memory reachable from package variables, from the parameters, from the keys (scratch memory of relinearization key sets excepted), or from another evaluator, encryptor, decryptor, key switcher or key generator made from the same parameters; making such objects, or further parameters, writes none of it either.",
		Units: func(tier string) []Unit {
			return append(makingUnits(tier), menuUnits(tier, "independent", func(e *Env, op Op, an string) {
				for i := 0; i < 2; i++ {
					other := e.newWorkers()
					in := e.quiet(op)
					shared := e.ReachAll(merge(other, e.globals()))
					own := e.Reach(merge(e.Owned(), in.Ops))
					for o, n := range own {
						if _, ok := shared[o]; !ok {
							shared[o] = n
						}
					}
					// the scratch memory of the relinearization key set belongs to its user
					for o := range e.scratch() {
						delete(shared, o)
					}
					e.M.LastW = newWrites()
					in.Call()
					e.unwritten("independent.shared", an, shared)
					e.Sfx = "'"
				}
			})...)
		}})
}

// makingUnits decide that making objects, or parameters, disturbs none made before.
func makingUnits(tier string) []Unit {
	var us []Unit
	for _, x := range memShapes(tier) {
		us = append(us, envUnit(x.kind, x.sh, "making other objects", "making", [3]string{"mkrlwe", "", "NewKeySwitcher"}, func(e *Env, an string) {
			for i := 0; i < 2; i++ {
				shared := e.ReachAll(merge(e.newWorkers(), merge(e.Owned(), e.globals())))
				e.M.LastW = newWrites()
				e.newWorkers()
				e.unwritten("making.shared", an, shared)
				e.M.LastW = newWrites()
				e.newParams()
				e.unwritten("making.parameters", an, shared)
				e.Sfx = "'"
			}
		}))
	}
	// results do not depend on the parameter sets in use before
	for _, x := range []kindShape{{"ckks", cA1}, {"bfv", bA1}, {"rlwe", rA1}} {
		x := x
		x.sh.Prior = true
		x.sh.Name += "-second"
		us = append(us, Unit{x.sh.Name + "/every operation", func(c *Ctx) {
			for _, op := range menu(x.kind, x.sh) {
				e := c.Env(x.kind, x.sh, ABC...)
				an := op.anchor(c)
				c.Scenario(e, op.Name, "second", an, func() {
					in := op.Make(e)
					in.Judge("second", in.Call())
					e.Pending("second", an)
				})
			}
		}})
	}
	return us
}

// newWorkers makes a second set of evaluating objects.
func (e *Env) newWorkers() map[string]ai.Value {
	pkg := pkgOf(e.Kind)
	m := vals{}
	m["another encryptor"] = e.Call(pkg, "", "NewEncryptor", e.Params)
	m["another decryptor"] = e.Call(pkg, "", "NewDecryptor", e.Params)
	m["another key generator"] = e.Call(kgPkg(e.Kind), "", "NewKeyGenerator", e.kgParams())
	if e.Kind == "rlwe" {
		m["another key switcher"] = e.Call("mkrlwe", "", "NewKeySwitcher", e.Params)
	} else {
		m["another evaluator"] = e.Call(pkg, "", "NewEvaluator", e.Params)
	}
	return m
}

func (e *Env) kgParams() ai.Value {
	if e.Kind == "bfv" {
		return e.Params
	}
	return e.Rlwe()
}

func newWrites() map[*ai.Obj]token.Pos { return map[*ai.Obj]token.Pos{} }

// scratch is the memory of the relinearization key set other than its keys.
func (e *Env) scratch() map[*ai.Obj]bool {
	m := map[*ai.Obj]bool{}
	keys := e.ReachAll(vals{"keys": e.M.Get(e.RlSet, "Value"), "parameters": e.Params})
	for o := range e.ReachAll(vals{"set": e.RlSet}) {
		if _, ok := keys[o]; !ok {
			m[o] = true
		}
	}
	return m
}

// quiet makes an instance of an operation without deciding anything about its operands.
func (e *Env) quiet(op Op) (in *Inst) {
	e.c.Quiet(func() { in = op.Make(e) })
	return
}
