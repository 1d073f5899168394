package chk

import (
	"fmt"

	"mkverif/ai"
)

// MustRefuse decides that a call cannot return normally.
func (e *Env) MustRefuse(rule, an, what string, f func()) {
	n := len(e.M.Panics)
	err := e.Try(f)
	switch {
	case err == nil && len(e.M.Panics) > n:
		e.c.Ok(rule, an, false, "%s is refused for some operands only: %v", what, e.M.Panics[n])
		e.M.Panics = e.M.Panics[:n]
	case err == nil:
		e.c.Ok(rule, an, false, "%s is not refused: the call returns", what)
	case err.Und != nil:
		e.c.Und(rule, an, "%s: %s", what, err.Und)
	default:
		e.c.Ok(rule, an, true, "")
	}
}

type refusal struct {
	rule, what string
	anchor     [3]string
	f          func(e *Env)
	edits      bool // the call follows a change of the common key sets
}

func refusals(kind string, sh Shape) []refusal {
	pkg := pkgOf(kind)
	L := lv(sh)
	var out []refusal
	add := func(rule, what string, an [3]string, f func(e *Env)) {
		out = append(out, refusal{rule: rule, what: what, anchor: an, f: f})
	}
	// decryption without every key
	sets := []struct {
		ct, keys []string
	}{{A, nil}, {AB, A}, {AB, B}, {ABC, AC}, {A, BC}, {BC, []string{"A", "C"}}}
	for _, s := range sets {
		s := s
		mkset := func(e *Env) ai.Value {
			set := e.Call("mkrlwe", "", "NewSecretKeySet")
			for _, id := range s.keys {
				e.Call("mkrlwe", "SecretKeySet", "AddSecretKey", set, e.Sk[id])
			}
			return set
		}
		what := fmt.Sprintf("decrypting a ciphertext of %v with the secret keys of %v", s.ct, s.keys)
		levels := []int{L, 0}
		if kind == "bfv" {
			levels = levels[:1]
		}
		for _, l := range levels {
			l := l
			if kind == "rlwe" {
				add("refuse.decrypt", what, [3]string{pkg, "Decryptor", "Decrypt"}, func(e *Env) {
					e.Call(pkg, "Decryptor", "Decrypt", e.Dec, e.Ct("x", l, nil, s.ct...), mkset(e), e.Pt("p", l, false))
				})
				add("refuse.decrypt", what+" (NTT)", [3]string{pkg, "Decryptor", "Decrypt"}, func(e *Env) {
					e.Call(pkg, "Decryptor", "Decrypt", e.Dec, e.CtNTT("x", l, s.ct...), mkset(e), e.Pt("p", l, true))
				})
			} else {
				add("refuse.decrypt", what, [3]string{pkg, "Decryptor", "Decrypt"}, func(e *Env) {
					e.Call(pkg, "Decryptor", "Decrypt", e.Dec, e.Ct("x", l, scaleE(s40), s.ct...), mkset(e))
				})
			}
		}
	}
	add("refuse.partial", "adding the share of a party that is not involved", [3]string{pkg, "Decryptor", "PartialDecrypt"}, func(e *Env) {
		e.Call(pkg, "Decryptor", "PartialDecrypt", e.Dec, e.Ct("x", L, scaleE(s40), AB...), e.Sk["C"])
	})
	// evaluation keys
	part := func(e *Env, del string) (rl, rk, ck ai.Value) {
		rk, ck = e.Call("mkrlwe", "", "NewRotationKeySet"), e.Call("mkrlwe", "", "NewConjugationKeySet")
		p := "mkrlwe"
		if kind == "bfv" {
			p = "mkbfv"
			rl = e.Call(p, "", "NewRelinearizationKeyKeySet", e.Params)
		} else {
			rl = e.Call(p, "", "NewRelinearizationKeyKeySet", e.Rlwe())
		}
		for _, id := range ABC {
			if id == del {
				continue
			}
			k, _ := e.MapGet(e.M.Get(e.RlSet, "Value"), id)
			e.Call(p, "RelinearizationKeySet", "AddRelinearizationKey", rl, k)
			k, _ = e.MapGet(e.M.Get(e.CkSet, "Value"), id)
			e.Call("mkrlwe", "ConjugationKeySet", "AddConjugationKey", ck, k)
			ks, _ := e.MapGet(e.M.Get(e.RkSet, "Value"), id)
			for _, v := range e.MapC(ks).V {
				e.Call("mkrlwe", "RotationKeySet", "AddRotationKey", rk, v)
			}
		}
		return
	}
	cts := [][2][]string{{A, A}, {A, B}, {B, A}, {AB, BC}, {BC, AB}}
	if kind != "rlwe" {
		for _, p := range cts {
			p := p
			add("refuse.mul", fmt.Sprintf("multiplying ciphertexts of %v and %v without the relinearization key of A", p[0], p[1]), [3]string{pkg, "Evaluator", "MulRelinNew"}, func(e *Env) {
				rl, _, _ := part(e, "A")
				e.Call(pkg, "Evaluator", "MulRelinNew", e.Eval, e.Ct("x", L, scaleE(s40), p[0]...), e.Ct("y", L, scaleE(s40), p[1]...), rl)
			})
			add("refuse.mul", fmt.Sprintf("multiplying ciphertexts of %v and %v after the relinearization key of A was deleted", p[0], p[1]), [3]string{pkg, "Evaluator", "MulRelinNew"}, func(e *Env) {
				q := "mkrlwe"
				if kind == "bfv" {
					q = "mkbfv"
				}
				e.Call(q, "RelinearizationKeySet", "DelRelinearizationKey", e.RlSet, e.id("A"))
				e.Call(pkg, "Evaluator", "MulRelinNew", e.Eval, e.Ct("x", L, scaleE(s40), p[0]...), e.Ct("y", L, scaleE(s40), p[1]...), e.RlSet)
			})
			out[len(out)-1].edits = true
		}
		add("refuse.square", "squaring a ciphertext without its relinearization key", [3]string{pkg, "Evaluator", "MulRelinNew"}, func(e *Env) {
			rl, _, _ := part(e, "A")
			x := e.Ct("x", L, scaleE(s40), AB...)
			e.Call(pkg, "Evaluator", "MulRelinNew", e.Eval, x, x, rl)
		})
		for _, k := range []int{1, 3, -1, 4} {
			k := k
			add("refuse.rotate", fmt.Sprintf("rotating by %d without the rotation keys of B", k), [3]string{pkg, "Evaluator", "RotateNew"}, func(e *Env) {
				_, rk, _ := part(e, "B")
				e.Call(pkg, "Evaluator", "RotateNew", e.Eval, e.Ct("x", L, scaleE(s40), ABC...), ai.I(k), rk)
			})
			add("refuse.rotate", fmt.Sprintf("rotating by %d without the rotation key of B for one power of two", k), [3]string{pkg, "Evaluator", "RotateNew"}, func(e *Env) {
				m := k & (N/2 - 1)
				e.Call("mkrlwe", "RotationKeySet", "DelRotationKey", e.RkSet, e.id("B"), ai.I(m&-m))
				e.Call(pkg, "Evaluator", "RotateNew", e.Eval, e.Ct("x", L, scaleE(s40), ABC...), ai.I(k), e.RkSet)
			})
			out[len(out)-1].edits = true
		}
		add("refuse.conjugate", "conjugating without the conjugation key of B", [3]string{pkg, "Evaluator", "ConjugateNew"}, func(e *Env) {
			_, _, ck := part(e, "B")
			e.Call(pkg, "Evaluator", "ConjugateNew", e.Eval, e.Ct("x", L, scaleE(s40), AB...), ck)
		})
		add("refuse.conjugate", "conjugating after the conjugation key of B was deleted", [3]string{pkg, "Evaluator", "ConjugateNew"}, func(e *Env) {
			e.Call("mkrlwe", "ConjugationKeySet", "DelConjugationKey", e.CkSet, e.id("B"))
			e.Call(pkg, "Evaluator", "ConjugateNew", e.Eval, e.Ct("x", L, scaleE(s40), AB...), e.CkSet)
		})
		out[len(out)-1].edits = true
	}
	if kind == "ckks" {
		for _, k := range []int{3, -1, 6} {
			k := k
			add("refuse.hoisted", fmt.Sprintf("hoisted rotation by %d, for which there is no common reference string", k), [3]string{pkg, "Evaluator", "RotateHoistedNew"}, func(e *Env) {
				x := e.Ct("x", L, scaleE(s40), AB...)
				h := e.Call(pkg, "Evaluator", "HoistedForm", e.Eval, x)
				e.Call(pkg, "Evaluator", "RotateHoistedNew", e.Eval, x, ai.I(k), h, e.RkSet)
			})
		}
		add("refuse.hoisted", "hoisted rotation without the rotation key of B", [3]string{pkg, "Evaluator", "RotateHoistedNew"}, func(e *Env) {
			_, rk, _ := part(e, "B")
			x := e.Ct("x", L, scaleE(s40), AB...)
			h := e.Call(pkg, "Evaluator", "HoistedForm", e.Eval, x)
			e.Call(pkg, "Evaluator", "RotateHoistedNew", e.Eval, x, ai.I(1), h, rk)
		})
		add("refuse.hoisted", "hoisted product without the relinearization key of B", [3]string{pkg, "Evaluator", "MulRelinHoistedNew"}, func(e *Env) {
			rl, _, _ := part(e, "B")
			x, y := e.Ct("x", L, scaleE(s40), AB...), e.Ct("y", L, scaleE(s40), A...)
			h, g := e.Call(pkg, "Evaluator", "HoistedForm", e.Eval, x), e.Call(pkg, "Evaluator", "HoistedForm", e.Eval, y)
			e.Call(pkg, "Evaluator", "MulRelinHoistedNew", e.Eval, x, y, h, g, rl)
		})
	}
	// hoisted forms that lack a party
	if kind == "ckks" {
		short := func(e *Env, ct ai.Value, del string) ai.Value {
			h := e.Call(pkg, "Evaluator", "HoistedForm", e.Eval, ct)
			e.MapDelete(e.M.Get(h, "Value"), del)
			return h
		}
		for _, del := range AB {
			del := del
			add("refuse.form", "hoisted rotation with a hoisted form without "+del, [3]string{pkg, "Evaluator", "RotateHoistedNew"}, func(e *Env) {
				x := e.Ct("x", L, scaleE(s40), AB...)
				e.Call(pkg, "Evaluator", "RotateHoistedNew", e.Eval, x, ai.I(1), short(e, x, del), e.RkSet)
			})
			add("refuse.form", "hoisted product with a first hoisted form without "+del, [3]string{pkg, "Evaluator", "MulRelinHoistedNew"}, func(e *Env) {
				x, y := e.Ct("x", L, scaleE(s40), AB...), e.Ct("y", L, scaleE(s40), ABC...)
				e.Call(pkg, "Evaluator", "MulRelinHoistedNew", e.Eval, x, y, short(e, x, del), e.Call(pkg, "Evaluator", "HoistedForm", e.Eval, y), e.RlSet)
			})
			add("refuse.form", "hoisted product with a second hoisted form without "+del, [3]string{pkg, "Evaluator", "MulRelinHoistedNew"}, func(e *Env) {
				x, y := e.Ct("x", L, scaleE(s40), AB...), e.Ct("y", L, scaleE(s40), ABC...)
				e.Call(pkg, "Evaluator", "MulRelinHoistedNew", e.Eval, x, y, e.Call(pkg, "Evaluator", "HoistedForm", e.Eval, x), short(e, y, del), e.RlSet)
			})
		}
	}
	if kind == "rlwe" {
		short := func(e *Env, ct ai.Value, ids []string, del string) ai.Value {
			h := e.Hoist(ct, L, ids)
			e.MapDelete(e.M.Get(h, "Value"), del)
			return h
		}
		for _, del := range AB {
			del := del
			res := func(e *Env, ids []string) ai.Value {
				return e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(ids...), ai.I(L))
			}
			for _, k := range []int{1, 4} {
				k := k
				add("refuse.form", fmt.Sprintf("hoisted rotation by %d with a hoisted form without %s", k, del), [3]string{"mkrlwe", "KeySwitcher", "RotateHoisted"}, func(e *Env) {
					x := e.Ct("x", L, nil, AB...)
					e.Call("mkrlwe", "KeySwitcher", "RotateHoisted", e.Ks, x, ai.I(k), short(e, x, AB, del), e.RkSet, res(e, AB))
				})
			}
			for i := 0; i < 2; i++ {
				i := i
				add("refuse.form", fmt.Sprintf("hoisted product with hoisted form %d without %s", i+1, del), [3]string{"mkrlwe", "KeySwitcher", "MulAndRelinHoisted"}, func(e *Env) {
					x, y := e.Ct("x", L, nil, AB...), e.Ct("y", L, nil, ABC...)
					h, g := e.Hoist(x, L, AB), e.Hoist(y, L, ABC)
					if i == 0 {
						h = short(e, x, AB, del)
					} else {
						g = short(e, y, ABC, del)
					}
					e.Call("mkrlwe", "KeySwitcher", "MulAndRelinHoisted", e.Ks, x, y, h, g, e.RlSet, res(e, ABC))
				})
			}
		}
	}
	if kind == "rlwe" {
		out := func(e *Env, l int, ids []string) ai.Value {
			return e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(ids...), ai.I(l))
		}
		low := 0
		for _, h := range []bool{false, true} {
			h := h
			fn := "MulAndRelin"
			if h {
				fn = "MulAndRelinHoisted"
			}
			mul := func(e *Env, a, b, rl, o ai.Value) {
				if h {
					e.Call("mkrlwe", "KeySwitcher", fn, e.Ks, a, b, ai.Nil{}, ai.Nil{}, rl, o)
				} else {
					e.Call("mkrlwe", "KeySwitcher", fn, e.Ks, a, b, rl, o)
				}
			}
			for _, p := range cts {
				p := p
				add("refuse.mul", fmt.Sprintf("multiplying ciphertexts of %v and %v without the relinearization key of A", p[0], p[1]), [3]string{"mkrlwe", "KeySwitcher", fn}, func(e *Env) {
					rl, _, _ := part(e, "A")
					mul(e, e.Ct("x", L, nil, p[0]...), e.Ct("y", L, nil, p[1]...), rl, out(e, L, union(p[0], p[1])))
				})
			}
			add("refuse.level", "a product above the level of its first operand", [3]string{"mkrlwe", "KeySwitcher", fn}, func(e *Env) {
				mul(e, e.Ct("x", low, nil, A...), e.Ct("y", L, nil, B...), e.RlSet, out(e, L, AB))
			})
			add("refuse.level", "a product above the level of its second operand", [3]string{"mkrlwe", "KeySwitcher", fn}, func(e *Env) {
				mul(e, e.Ct("x", L, nil, A...), e.Ct("y", low, nil, B...), e.RlSet, out(e, L, AB))
			})
		}
		add("refuse.level", "a rotation above the level of its operand", [3]string{"mkrlwe", "KeySwitcher", "Rotate"}, func(e *Env) {
			e.Call("mkrlwe", "KeySwitcher", "Rotate", e.Ks, e.Ct("x", low, nil, A...), ai.I(1), e.RkSet, out(e, L, A))
		})
		add("refuse.level", "a hoisted rotation above the level of its operand", [3]string{"mkrlwe", "KeySwitcher", "RotateHoisted"}, func(e *Env) {
			x := e.Ct("x", low, nil, A...)
			e.Call("mkrlwe", "KeySwitcher", "RotateHoisted", e.Ks, x, ai.I(1), e.Hoist(x, low, A), e.RkSet, out(e, L, A))
		})
		add("refuse.level", "a conjugation above the level of its operand", [3]string{"mkrlwe", "KeySwitcher", "Conjugate"}, func(e *Env) {
			e.Call("mkrlwe", "KeySwitcher", "Conjugate", e.Ks, e.Ct("x", low, nil, A...), e.CkSet, out(e, L, A))
		})
		for _, k := range []int{1, 2} {
			k := k
			add("refuse.rotate", fmt.Sprintf("rotating by %d without the rotation key of B", k), [3]string{"mkrlwe", "KeySwitcher", "Rotate"}, func(e *Env) {
				_, rk, _ := part(e, "B")
				e.Call("mkrlwe", "KeySwitcher", "Rotate", e.Ks, e.Ct("x", L, nil, AB...), ai.I(k), rk, out(e, L, AB))
			})
			add("refuse.rotate", fmt.Sprintf("hoisted rotation by %d without the rotation key of B", k), [3]string{"mkrlwe", "KeySwitcher", "RotateHoisted"}, func(e *Env) {
				_, rk, _ := part(e, "B")
				x := e.Ct("x", L, nil, AB...)
				e.Call("mkrlwe", "KeySwitcher", "RotateHoisted", e.Ks, x, ai.I(k), e.Hoist(x, L, AB), rk, out(e, L, AB))
			})
		}
		add("refuse.rotate", "rotating by 3 without a key or common reference string for 3", [3]string{"mkrlwe", "KeySwitcher", "Rotate"}, func(e *Env) {
			e.Call("mkrlwe", "KeySwitcher", "Rotate", e.Ks, e.Ct("x", L, nil, AB...), ai.I(3), e.RkSet, out(e, L, AB))
		})
		add("refuse.conjugate", "conjugating without the conjugation key of B", [3]string{"mkrlwe", "KeySwitcher", "Conjugate"}, func(e *Env) {
			_, _, ck := part(e, "B")
			e.Call("mkrlwe", "KeySwitcher", "Conjugate", e.Ks, e.Ct("x", L, nil, AB...), ck, out(e, L, AB))
		})
		// key sets
		for _, id := range []string{"D", "0", map[bool]string{true: "nobody"}[sh.Rev]} { // "" where no party has that name
			id := id
			for _, g := range [][2]string{{"SecretKeySet", "GetSecretKey"}, {"PublicKeySet", "GetPublicKey"}, {"RelinearizationKeySet", "GetRelinearizationKey"}, {"ConjugationKeySet", "GetConjugationKey"}} {
				g := g
				add("refuse.get", fmt.Sprintf("asking for the key of %q, which is not in the set", id), [3]string{"mkrlwe", g[0], g[1]}, func(e *Env) {
					set := map[string]ai.Value{"SecretKeySet": e.SkSet, "PublicKeySet": e.PkSet, "RelinearizationKeySet": e.RlSet, "ConjugationKeySet": e.CkSet}[g[0]]
					e.Call("mkrlwe", g[0], g[1], set, e.id(id))
				})
			}
			add("refuse.get", fmt.Sprintf("asking for a rotation key of %q, who has none", id), [3]string{"mkrlwe", "RotationKeySet", "GetRotationKey"}, func(e *Env) {
				e.Call("mkrlwe", "RotationKeySet", "GetRotationKey", e.RkSet, e.id(id), ai.I(1))
			})
		}
		for _, k := range []int{0, 3, N / 2, N} {
			k := k
			add("refuse.get", fmt.Sprintf("asking for a rotation key for %d, which does not exist", k), [3]string{"mkrlwe", "RotationKeySet", "GetRotationKey"}, func(e *Env) {
				e.Call("mkrlwe", "RotationKeySet", "GetRotationKey", e.RkSet, e.id("A"), ai.I(k))
			})
		}
		for _, k := range []int{0, 3, -1, N / 2, -N / 2, 5} {
			k := k
			add("refuse.genrot", fmt.Sprintf("generating a rotation key for %d", k), [3]string{"mkrlwe", "KeyGenerator", "GenRotationKey"}, func(e *Env) {
				e.Kgen("GenRotationKey", ai.I(k), e.Sk["A"])
			})
		}
		add("refuse.id", "adding the reserved party name 0 to a party set", [3]string{"mkrlwe", "IDSet", "Add"}, func(e *Env) {
			e.Call("mkrlwe", "IDSet", "Add", e.Call("mkrlwe", "", "NewIDSet"), ai.S("0"))
		})
		add("refuse.encrypt", "encrypting into a ciphertext without a component for the party", [3]string{"mkrlwe", "Encryptor", "Encrypt"}, func(e *Env) {
			e.Call("mkrlwe", "Encryptor", "Encrypt", e.Enc, e.Pt("m", L, false), e.Pk["A"], e.Ct("x", L, nil, B...))
		})
	}
	return out
}

func init() {
	register(&Prop{ID: "C03", Min: 80,
		Rule: "Every abstract execution of a call that lacks a key, a party's component, a common reference string or a level ends in a panic; none returns.",
		Units: func(tier string) []Unit {
			var us []Unit
			type ks struct {
				kind string
				sh   Shape
			}
			list := []ks{{"ckks", cA1}, {"ckks", cA2p.rev()}, {"bfv", bA1}, {"bfv", bA2.rev()}, {"rlwe", rA1}, {"rlwe", rA2.rev()}}
			if wide(tier) {
				list = append(list, ks{"ckks", cA2.rev()}, ks{"bfv", bA13.rev()}, ks{"rlwe", rA3}, ks{"rlwe", rG3.rev()})
			}
			for _, x := range list {
				groups := map[string][]refusal{}
				var names []string
				for _, r := range refusals(x.kind, x.sh) {
					if groups[r.rule] == nil {
						names = append(names, r.rule)
					}
					groups[r.rule] = append(groups[r.rule], r)
				}
				for _, g := range names {
					x, rs := x, groups[g]
					us = append(us, Unit{x.sh.Name + "/" + x.kind + " " + g, func(c *Ctx) {
						for _, r := range rs {
							e := c.Env(x.kind, x.sh, ABC...)
							an := c.Anchor(r.anchor[0], r.anchor[1], r.anchor[2])
							c.Scenario(e, r.what, r.rule, an, func() { e.MustRefuse(r.rule, an, r.what, func() { r.f(e) }) })
						}
					}})
				}
			}
			return us
		}})
}
