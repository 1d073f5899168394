package chk

import (
	"fmt"
	"go/types"
	"strings"

	"mkverif/ai"
	"mkverif/sym"
)

// Msg makes a message with arbitrary entries; Enc is its encoding as a ring element.
func (e *Env) Msg(name string) (msg ai.Value, enc *sym.E) { return e.ShortMsg(name, -1) }

// ShortMsg makes a message of k arbitrary entries, which stands for one with zeros in
// the slots after them; k < 0: of as many entries as NewMessage makes.
func (e *Env) ShortMsg(name string, k int) (msg ai.Value, enc *sym.E) {
	name += e.Sfx
	msg = e.Call(pkgOf(e.Kind), "", "NewMessage", e.Params)
	all := len(e.M.Values(e.M.Get(msg, "Value")))
	n := all
	if k >= 0 && k < n {
		n = k
	}
	var vs []ai.Value
	var es []*sym.E
	switch e.Kind {
	case "ckks":
		for i := 0; i < n; i++ {
			re, im := sym.Atom(fmt.Sprintf("%s.re%d", name, i)), sym.Atom(fmt.Sprintf("%s.im%d", name, i))
			vs = append(vs, ai.Cx{Re: ai.X{E: re}, Im: ai.X{E: im}})
			es = append(es, re, im)
		}
		for i := n; i < all; i++ {
			es = append(es, sym.Zero, sym.Zero)
		}
		e.storeField(msg, "Value", e.M.SliceOf(types.Typ[types.Complex128], vs))
		enc = sym.Raw("ring", fmt.Sprintf("ckksenc%d", e.logSlots()), es...)
	case "bfv":
		for i := 0; i < n; i++ {
			v := sym.Atom(fmt.Sprintf("%s.%d", name, i))
			vs = append(vs, ai.X{E: v})
			es = append(es, v)
		}
		for i := n; i < all; i++ {
			es = append(es, sym.Zero)
		}
		e.storeField(msg, "Value", e.M.SliceOf(types.Typ[types.Int64], vs))
		enc = sym.Raw("ring", "bfvenc", es...)
	}
	return
}

func (e *Env) storeField(p ai.Value, name string, v ai.Value) { e.M.Store(e.M.Sub(p, name), v) }

func (e *Env) logSlots() int {
	switch {
	case e.Sh.LogSlots > 0:
		return e.Sh.LogSlots
	case e.Sh.LogSlots < 0:
		return 0
	}
	return LogN - 1
}

// JudgeFresh decides that a ciphertext is an encryption of target under party id.
func (e *Env) JudgeFresh(rule, anchor string, ct ai.Value, id string, level int, scale, target *sym.E) bool {
	c := e.c
	if lvl := e.levelOf(ct); !c.Ok(rule+".level", anchor, lvl == level, "the ciphertext is at level %d, expected %d", lvl, level) {
		return false
	}
	if scale != nil {
		sc, _ := ai.ToE(e.M.Get(ct, "Scale"))
		if !c.Ok(rule+".scale", anchor, sameScale(sc, scale), "the recorded scale is %v, expected %v", sc, scale) {
			return false
		}
	}
	mods := e.Level(level)
	ph, err := e.Phase(ct, e.S, []string{id}, mods)
	if err != "" {
		return e.bad(rule, anchor, ct, "%s", err)
	}
	var ref *sym.E
	for i, q := range mods {
		d := Lower(sym.Sub(ph[q], target), q)
		for _, m := range d.M {
			if b := monoBits(m); b > 14 {
				return e.bad(rule, anchor, ct, "modulo %s the phase differs from the encoded message by the term %s, which is not small", q, short(monoE(m)))
			}
		}
		if i == 0 {
			ref = d
		} else if ref != d {
			return e.bad(rule, anchor, ct, "the encryption errors modulo %s and %s differ: %s and %s", mods[0], q, short(ref), short(d))
		}
	}
	return c.Ok(rule, anchor, ref != sym.Zero, "the ciphertext carries no encryption error")
}

// JudgeDecoded decides that a decrypted message is the decoding of the phase rows.
func (e *Env) JudgeDecoded(rule, anchor string, msg ai.Value, ph map[*sym.E]*sym.E, level int, scale *sym.E) bool {
	c := e.c
	var es []*sym.E
	for _, q := range e.Level(level) {
		es = append(es, Lower(ph[q], q))
	}
	vs := e.M.Values(e.M.Get(msg, "Value"))
	expect := func(i int, got ai.Value, key, name string, es []*sym.E) bool {
		g, _ := ai.ToE(got)
		w := sym.Raw(name, key, es...)
		if g == w {
			return true
		}
		return c.Ok(rule, anchor, false, "slot %d decodes %s, expected %s", i, shortE(g), shortE(w))
	}
	switch e.Kind {
	case "ckks":
		es = append(es, scale)
		n := 1 << uint(e.logSlots())
		if !c.Ok(rule+".slots", anchor, len(vs) == n, "the message has %d slots, expected %d", len(vs), n) {
			return false
		}
		for i, v := range vs {
			x, ok := v.(ai.Cx)
			if !ok {
				return c.Ok(rule, anchor, false, "slot %d is %T", i, v)
			}
			if !expect(i, x.Re, fmt.Sprintf("re%d/%d", i, e.logSlots()), "ckksdec", es) || !expect(i, x.Im, fmt.Sprintf("im%d/%d", i, e.logSlots()), "ckksdec", es) {
				return false
			}
		}
	case "bfv":
		if !c.Ok(rule+".slots", anchor, len(vs) == N, "the message has %d slots, expected %d", len(vs), N) {
			return false
		}
		for i, v := range vs {
			if !expect(i, v, fmt.Sprint(i), "bfvdec", es) {
				return false
			}
		}
	}
	return c.Ok(rule, anchor, true, "")
}

func shortE(e *sym.E) string {
	if e == nil {
		return "<no number>"
	}
	return short(e)
}

// CtNTT is Ct with every component flagged and stored in the NTT domain.
func (e *Env) CtNTT(name string, level int, ids ...string) ai.Value {
	ct := e.Call("mkrlwe", "", "NewCiphertextNTT", e.Rlwe(), e.IDSet(ids...), ai.I(level))
	mv := e.M.Get(ct, "Value")
	for _, id := range append([]string{"0"}, ids...) {
		p, ok := e.MapGet(mv, id)
		if !ok {
			panic(&ai.Undecided{Pos: "harness", Msg: "a fresh ciphertext has no component " + id})
		}
		e.fillRows(p, e.Q, sym.RAtom(name+e.Sfx+"_"+id), 1)
	}
	return ct
}

// Pt makes an rlwe plaintext with arbitrary value.
func (e *Env) Pt(name string, level int, ntt bool) ai.Value {
	pt := e.Call("rlwe", "", "NewPlaintext", e.rlweBase(), ai.I(level))
	pol := e.M.Get(pt, "Value")
	d := 0
	if ntt {
		d = 1
	}
	e.M.Store(e.M.Sub(pol, "IsNTT"), ai.B(ntt))
	e.fillRows(pol, e.Q, sym.RAtom(name+e.Sfx), d)
	return pt
}

func (e *Env) rlweBase() ai.Value { return e.Rlwe().(*ai.Agg).V[0] }

func (e *Env) phRows(ph *sym.E, level int) map[*sym.E]*sym.E {
	m := map[*sym.E]*sym.E{}
	for _, q := range e.Level(level) {
		m[q] = ph
	}
	return m
}

// encUnit makes a unit on an environment of three parties.
func envUnit(kind string, sh Shape, name, rule string, anchor [3]string, f func(e *Env, an string)) Unit {
	return Unit{sh.Name + "/" + name, func(c *Ctx) {
		e := c.Env(kind, sh, ABC...)
		an := c.Anchor(anchor[0], anchor[1], anchor[2])
		c.Scenario(e, name, rule, an, func() {
			f(e, an)
			e.Pending(rule, an)
		})
	}}
}

func (sh Shape) slots(ls int) Shape {
	sh.LogSlots = ls
	if ls == 0 {
		sh.LogSlots = -1
	}
	sh.Name += fmt.Sprintf("-slots%d", 1<<uint(ls))
	return sh
}

// roundTrip: one encryption and one decryption per level.
func roundTrip(kind string, sh Shape) Unit {
	pkg := pkgOf(kind)
	return envUnit(kind, sh, "encrypt and decrypt", "encrypt", [3]string{pkg, "Encryptor", "Encrypt"}, func(e *Env, an string) {
		for l := lv(sh); l >= 0; l-- {
			e.Sfx = fmt.Sprint(".", l)
			id := ABC[l%3]
			ids := [][]string{AB, A, BC}[l%3]
			var anE, anD string
			switch kind {
			case "rlwe":
				pt := e.Pt("m", l, l%2 == 1)
				ct := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(id), ai.I(l))
				e.Call("mkrlwe", "Encryptor", "Encrypt", e.Enc, pt, e.Pk[id], ct)
				e.JudgeFresh("encrypt", an, ct, id, l, nil, sym.RAtom("m"+e.Sfx))
				out := e.Pt("p", l, false)
				e.Call("mkrlwe", "Decryptor", "Decrypt", e.Dec, e.Ct("x", l, nil, ids...), e.SkSet, out)
				e.judgePoly("decrypt", e.c.Anchor(pkg, "Decryptor", "Decrypt"), e.M.Get(out, "Value"), e.phRows(e.Ph("x", ids...), l), l, false)
				continue
			case "bfv":
				if l < lv(sh) {
					continue
				}
				anE, anD = e.c.Anchor(pkg, "Encryptor", "EncryptMsgNew"), e.c.Anchor(pkg, "Decryptor", "Decrypt")
				m, t := e.Msg("m")
				e.JudgeFresh("encrypt", anE, e.Call(pkg, "Encryptor", "EncryptMsgNew", e.Enc, m, e.Pk[id]), id, l, nil, t)
				e.JudgeDecoded("decrypt", anD, e.Call(pkg, "Decryptor", "Decrypt", e.Dec, e.Ct("x", l, nil, ids...), e.SkSet), e.phRows(e.Ph("x", ids...), l), l, nil)
			case "ckks":
				anE, anD = e.c.Anchor(pkg, "Encryptor", "EncryptMsg"), e.c.Anchor(pkg, "Decryptor", "Decrypt")
				m, t := e.Msg("m")
				sc := scaleE(e.Sh.Scale)
				ct := e.Ct("old", l, scaleE(5), id)
				e.Call(pkg, "Encryptor", "EncryptMsg", e.Enc, m, e.Pk[id], ct)
				e.JudgeFresh("encrypt", anE, ct, id, l, sc, sym.Mul(sc, t))
				e.JudgeDecoded("decrypt", anD, e.Call(pkg, "Decryptor", "Decrypt", e.Dec, e.Ct("x", l, sc, ids...), e.SkSet), e.phRows(e.Ph("x", ids...), l), l, sc)
			}
		}
	})
}

func encUnits(tier string) []Unit {
	var us []Unit
	cs := []Shape{cA1, cA1.slots(2), cA2p.rev()}
	bs := []Shape{bA1, bA13.rev()}
	rs := []Shape{rA1, rA2.rev()}
	if wide(tier) {
		cs = append(cs, cA2, cA2.slots(0).rev(), cA1.slots(1))
		bs = append(bs, bA2, bA24)
		rs = append(rs, rA3, rG3.rev(), rA2p)
	}
	for _, kind := range []string{"ckks", "bfv", "rlwe"} {
		for _, sh := range otherShapes(kind, tier) {
			us = append(us, roundTrip(kind, sh))
		}
	}
	for _, sh := range cs {
		L := lv(sh)
		enc := [3]string{"mkckks", "Encryptor", "EncryptMsgNew"}
		us = append(us, envUnit("ckks", sh, "EncryptMsgNew", "encrypt", enc, func(e *Env, an string) {
			for i, id := range []string{"A", "B", "A"} {
				e.Sfx = strings.Repeat("'", i)
				m, t := e.Msg("m")
				ct := e.Call("mkckks", "Encryptor", "EncryptMsgNew", e.Enc, m, e.Pk[id])
				sc := scaleE(e.Sh.Scale)
				e.JudgeFresh("encrypt", an, ct, id, L, sc, sym.Mul(sc, t))
			}
		}))
		us = append(us, envUnit("ckks", sh, "messages of few entries", "encrypt", enc, func(e *Env, an string) {
			n := 1 << uint(e.logSlots())
			ct := e.Ct("old", 1, scaleE(5), "B")
			for i, k := range []int{n / 2, n, 1, n/2 + 1, n / 4, n - 1} {
				e.Sfx = fmt.Sprint(".", i)
				sc := scaleE(e.Sh.Scale)
				m, t := e.ShortMsg("m", k)
				e.JudgeFresh("encrypt.short", an, e.Call("mkckks", "Encryptor", "EncryptMsgNew", e.Enc, m, e.Pk["A"]), "A", L, sc, sym.Mul(sc, t))
				e.Call("mkckks", "Encryptor", "EncryptMsg", e.Enc, m, e.Pk["B"], ct)
				e.JudgeFresh("encrypt.short.into", an, ct, "B", 1, sc, sym.Mul(sc, t))
				pt := e.Call("mkckks", "Encryptor", "EncodeMsgNew", e.Enc, m)
				ct3 := e.Ct("old3", L, scaleE(5), "C")
				e.Call("mkckks", "Encryptor", "EncryptPtxt", e.Enc, pt, e.Pk["C"], ct3)
				e.JudgeFresh("encrypt.short.ptxt", an, ct3, "C", L, sc, sym.Mul(sc, t))
			}
		}))
		us = append(us, envUnit("ckks", sh, "EncryptMsg", "encrypt", [3]string{"mkckks", "Encryptor", "EncryptMsg"}, func(e *Env, an string) {
			for i, l := range []int{L, 0, L, 1} {
				e.Sfx = strings.Repeat("'", i)
				m, t := e.Msg("m")
				ct := e.Ct("old", l, scaleE(5), "B") // content and scale of the receiver must not matter
				e.Call("mkckks", "Encryptor", "EncryptMsg", e.Enc, m, e.Pk["B"], ct)
				sc := scaleE(e.Sh.Scale)
				e.JudgeFresh("encrypt.into", an, ct, "B", l, sc, sym.Mul(sc, t))
			}
		}))
		us = append(us, envUnit("ckks", sh, "EncodeMsgNew+EncryptPtxt", "encrypt", [3]string{"mkckks", "Encryptor", "EncryptPtxt"}, func(e *Env, an string) {
			m, t := e.Msg("m")
			m2, t2 := e.Msg("n")
			pt := e.Call("mkckks", "Encryptor", "EncodeMsgNew", e.Enc, m)
			pt2 := e.Call("mkckks", "Encryptor", "EncodeMsgNew", e.Enc, m2)
			sc := scaleE(e.Sh.Scale)
			for _, l := range []int{L, 1} {
				ct, ct2 := e.Ct("old", l, scaleE(5), "B"), e.Ct("old", l, scaleE(5), "C")
				e.Call("mkckks", "Encryptor", "EncryptPtxt", e.Enc, pt, e.Pk["B"], ct)
				e.Call("mkckks", "Encryptor", "EncryptPtxt", e.Enc, pt2, e.Pk["C"], ct2)
				e.JudgeFresh("encrypt.ptxt", an, ct, "B", l, sc, sym.Mul(sc, t))
				e.JudgeFresh("encrypt.ptxt", an, ct2, "C", l, sc, sym.Mul(sc, t2))
			}
			e.storeField(pt, "Scale", ai.F(3<<30))
			ct := e.Ct("old", 1, scaleE(5), "B")
			e.Call("mkckks", "Encryptor", "EncryptPtxt", e.Enc, pt, e.Pk["B"], ct)
			e.JudgeFresh("encrypt.ptxt", an, ct, "B", 1, scaleE(3<<30), sym.Mul(sc, t))
		}))
		us = append(us, envUnit("ckks", sh, "Decrypt", "decrypt", [3]string{"mkckks", "Decryptor", "Decrypt"}, func(e *Env, an string) {
			for i, l := range []int{L, 0, L, 1, L} {
				e.Sfx = strings.Repeat("'", i)
				sc := scaleE(float64(int64(3+i) << 38))
				ids := [][]string{A, ABC, BC, A, AB}[i]
				ct := e.Ct("x", l, sc, ids...)
				m := e.Call("mkckks", "Decryptor", "Decrypt", e.Dec, ct, e.SkSet)
				e.JudgeDecoded("decrypt", an, m, e.phRows(e.Ph("x", ids...), l), l, sc)
			}
		}))
		us = append(us, envUnit("ckks", sh, "Decrypt(NTT)", "decrypt", [3]string{"mkckks", "Decryptor", "Decrypt"}, func(e *Env, an string) {
			for i, l := range []int{1, L, 0} {
				e.Sfx = strings.Repeat("'", i)
				ct := e.Ct("dummy", l, scaleE(s40), "A", "C")
				ctn := e.CtNTT("x", l, "A", "C")
				e.storeField(ct, "Ciphertext", ctn)
				m := e.Call("mkckks", "Decryptor", "Decrypt", e.Dec, ct, e.SkSet)
				e.JudgeDecoded("decrypt.ntt", an, m, e.phRows(e.Ph("x", "A", "C"), l), l, scaleE(s40))
			}
		}))
	}
	for _, sh := range bs {
		L := lv(sh)
		us = append(us, envUnit("bfv", sh, "EncryptMsg", "encrypt", [3]string{"mkbfv", "Encryptor", "EncryptMsg"}, func(e *Env, an string) {
			for i, id := range []string{"A", "B", "A"} {
				e.Sfx = strings.Repeat("'", i)
				m, t := e.Msg("m")
				ct := e.Call("mkbfv", "Encryptor", "EncryptMsgNew", e.Enc, m, e.Pk[id])
				e.JudgeFresh("encrypt", an, ct, id, L, nil, t)
				e.Sfx += "+"
				m, t = e.Msg("m")
				e.Call("mkbfv", "Encryptor", "EncryptMsg", e.Enc, m, e.Pk[id], ct)
				e.JudgeFresh("encrypt.into", an, ct, id, L, nil, t)
				e.Sfx += "+"
				m, t = e.Msg("m")
				ct = e.Call("mkbfv", "", "NewCiphertextNTT", e.Params, e.IDSet(id))
				e.Call("mkbfv", "Encryptor", "EncryptMsg", e.Enc, m, e.Pk[id], ct)
				e.JudgeFresh("encrypt.ntt", an, ct, id, L, nil, t)
			}
		}))
		us = append(us, envUnit("bfv", sh, "messages of few entries", "encrypt", [3]string{"mkbfv", "Encryptor", "EncryptMsg"}, func(e *Env, an string) {
			for i, k := range []int{N / 2, N, 1, N/2 + 1, N - 1} {
				e.Sfx = fmt.Sprint(".", i)
				m, t := e.ShortMsg("m", k)
				ct := e.Call("mkbfv", "Encryptor", "EncryptMsgNew", e.Enc, m, e.Pk["B"])
				e.JudgeFresh("encrypt.short", an, ct, "B", L, nil, t)
			}
		}))
		us = append(us, envUnit("bfv", sh, "Decrypt", "decrypt", [3]string{"mkbfv", "Decryptor", "Decrypt"}, func(e *Env, an string) {
			for i, ids := range [][]string{A, ABC, BC, AC} {
				e.Sfx = strings.Repeat("'", i)
				ct := e.Ct("x", L, nil, ids...)
				m := e.Call("mkbfv", "Decryptor", "Decrypt", e.Dec, ct, e.SkSet)
				e.JudgeDecoded("decrypt", an, m, e.phRows(e.Ph("x", ids...), L), L, nil)
				ct = e.Ct("y", L, nil, ids...)
				e.storeField(ct, "Ciphertext", e.CtNTT("y", L, ids...))
				m = e.Call("mkbfv", "Decryptor", "Decrypt", e.Dec, ct, e.SkSet)
				e.JudgeDecoded("decrypt.ntt", an, m, e.phRows(e.Ph("y", ids...), L), L, nil)
			}
		}))
	}
	for _, sh := range rs {
		L := lv(sh)
		us = append(us, envUnit("rlwe", sh, "Encrypt", "encrypt", [3]string{"mkrlwe", "Encryptor", "Encrypt"}, func(e *Env, an string) {
			i := 0
			for _, lp := range []int{L, L - 1, 0} {
				for _, lc := range []int{L, 1} {
					for k := 0; k < 4; k++ {
						e.Sfx = fmt.Sprint(".", i)
						i++
						pt := e.Pt("m", lp, k&1 == 1)
						ct := e.Ct("old", lc, nil, "B")
						if k&2 == 2 {
							ct = e.CtNTT("old", lc, "B")
						}
						e.Call("mkrlwe", "Encryptor", "Encrypt", e.Enc, pt, e.Pk["B"], ct)
						r := fmt.Sprintf("encrypt.pt-ntt=%v.ct-ntt=%v", k&1 == 1, k&2 == 2)
						e.JudgeFresh(r, an, ct, "B", min(lp, lc), nil, sym.RAtom("m"+e.Sfx))
						e.judgeFlags(r, an, ct, k&2 == 2)
					}
				}
			}
		}))
		us = append(us, envUnit("rlwe", sh, "Decrypt", "decrypt", [3]string{"mkrlwe", "Decryptor", "Decrypt"}, func(e *Env, an string) {
			i := 0
			for _, lp := range []int{L, 0, L - 1} {
				for _, lc := range []int{L, 1} {
					for k := 0; k < 4; k++ {
						e.Sfx = fmt.Sprint(".", i)
						i++
						ids := [][]string{A, ABC, BC}[i%3]
						ct := e.Ct("x", lc, nil, ids...)
						if k&2 == 2 {
							ct = e.CtNTT("x", lc, ids...)
						}
						pt := e.Pt("old", lp, k&1 == 1)
						e.Call("mkrlwe", "Decryptor", "Decrypt", e.Dec, ct, e.SkSet, pt)
						e.judgePoly(fmt.Sprintf("decrypt.pt-ntt=%v.ct-ntt=%v", k&1 == 1, k&2 == 2), an, e.M.Get(pt, "Value"), e.phRows(e.Ph("x", ids...), min(lp, lc)), min(lp, lc), k&1 == 1)
					}
				}
			}
		}))
	}
	return us
}

// judgeFlags: every component of a ciphertext carries the expected domain flag.
func (e *Env) judgeFlags(rule, an string, ct ai.Value, ntt bool) {
	mv := e.M.Get(ct, "Value")
	for _, k := range e.Keys(mv) {
		p, _ := e.MapGet(mv, k)
		e.c.Ok(rule+".domain", an, e.M.Get(p, "IsNTT") == ai.B(ntt), "component %q has IsNTT %v", k, e.M.Get(p, "IsNTT"))
	}
}

// judgePoly decides that a polynomial at some level holds exactly the given rows in its flagged domain.
func (e *Env) judgePoly(rule, an string, pol ai.Value, want map[*sym.E]*sym.E, level int, ntt bool) bool {
	if !e.c.Ok(rule+".domain", an, e.M.Get(pol, "IsNTT") == ai.B(ntt), "the result has IsNTT %v", e.M.Get(pol, "IsNTT")) {
		return false
	}
	rows, err := e.PolyE(pol, e.Level(level))
	if err != "" {
		return e.c.Ok(rule, an, false, "%s", err)
	}
	for i, q := range e.Level(level) {
		if d := Lower(sym.Sub(rows[i], want[q]), q); d != sym.Zero {
			e.c.Ok(rule, an, false, "modulo %s the result differs from the expected value by %s", q, short(d))
			e.c.Writes(e.LastWrites(pol))
			return false
		}
	}
	return e.c.Ok(rule, an, true, "")
}

// partialUnits: decryption share by share.
func jointUnits(tier string) []Unit {
	var us []Unit
	type ks struct {
		kind string
		sh   Shape
	}
	list := []ks{{"ckks", cA1}, {"ckks", cA1.rev()}, {"bfv", bA1}, {"bfv", bA13.rev()}, {"rlwe", rA1}, {"rlwe", rA2.rev()}}
	if wide(tier) {
		list = append(list, ks{"ckks", cA2p.rev()}, ks{"bfv", bA24}, ks{"rlwe", rA3}, ks{"rlwe", rG3.rev()})
	}
	first := len(list)
	for _, kind := range []string{"ckks", "bfv", "rlwe"} {
		for _, sh := range otherShapes(kind, tier) {
			if sh.NQ > 1 {
				list = append(list, ks{kind, sh})
			}
		}
	}
	for i, x := range list {
		x := x
		pkg := pkgOf(x.kind)
		L := lv(x.sh)
		levels := []int{L, 0, 1}
		if i >= first {
			levels = []int{L}
		}
		if x.kind == "bfv" {
			levels = []int{L}
		}
		us = append(us, envUnit(x.kind, x.sh, "PartialDecrypt", "partial", [3]string{pkg, "Decryptor", "PartialDecrypt"}, func(e *Env, an string) {
			i := 0
			for _, l := range levels {
				for _, order := range [][]string{{"A", "B", "C"}, {"C", "A", "B"}, {"B", "C", "A"}} {
					for _, ntt := range []bool{false, true} {
						e.Sfx = fmt.Sprint(".", i)
						i++
						var ct ai.Value = e.Ct("x", l, scaleE(s40), ABC...)
						if ntt && e.Kind == "rlwe" {
							ct = e.CtNTT("x", l, ABC...)
						} else if ntt {
							e.storeField(ct, "Ciphertext", e.CtNTT("x", l, ABC...))
						}
						rest := ABC
						for _, id := range order {
							e.Call(pkg, "Decryptor", "PartialDecrypt", e.Dec, ct, e.Sk[id])
							rest = without(rest, id)
							r := "partial"
							if ntt {
								r = "partial.ntt"
							}
							e.judgeShare(r, an, ct, l, rest, e.Ph("x", ABC...))
						}
					}
				}
			}
		}))
		if x.kind == "rlwe" {
			continue
		}
		us = append(us, envUnit(x.kind, x.sh, "PartialDecrypt+Decrypt", "joint", [3]string{pkg, "Decryptor", "Decrypt"}, func(e *Env, an string) {
			for i, l := range append(levels, levels...) {
				e.Sfx = fmt.Sprint(".", i)
				ct := e.Ct("x", l, scaleE(s40), ABC...)
				if i >= len(levels) {
					e.storeField(ct, "Ciphertext", e.CtNTT("x", l, ABC...))
				}
				e.Call(pkg, "Decryptor", "PartialDecrypt", e.Dec, ct, e.Sk["B"])
				set := e.Call("mkrlwe", "", "NewSecretKeySet")
				for _, id := range AC {
					e.Call("mkrlwe", "SecretKeySet", "AddSecretKey", set, e.Sk[id])
				}
				m := e.Call(pkg, "Decryptor", "Decrypt", e.Dec, ct, set)
				e.JudgeDecoded("joint", an, m, e.phRows(e.Ph("x", ABC...), l), l, scaleE(s40))
			}
		}))
		us = append(us, envUnit(x.kind, x.sh, "Decrypt with more keys than parties", "joint", [3]string{pkg, "Decryptor", "Decrypt"}, func(e *Env, an string) {
			i := 0
			for _, l := range levels {
				for _, ids := range [][]string{A, B, AB, BC, AC, ABC, nil} {
					e.Sfx = fmt.Sprint(".", i)
					i++
					ct := e.Ct("x", l, scaleE(s40), ids...)
					m := e.Call(pkg, "Decryptor", "Decrypt", e.Dec, ct, e.SkSet)
					e.JudgeDecoded("joint", an, m, e.phRows(e.Ph("x", ids...), l), l, scaleE(s40))
				}
			}
		}))
	}
	return us
}

func without(ss []string, x string) []string {
	var r []string
	for _, s := range ss {
		if s != x {
			r = append(r, s)
		}
	}
	return r
}

func (e *Env) judgeShare(rule, an string, ct ai.Value, l int, rest []string, want *sym.E) {
	ph, err := e.Phase(ct, e.S, rest, e.Level(l))
	if err != "" {
		e.bad(rule, an, ct, "%s", err)
		return
	}
	for _, q := range e.Level(l) {
		if d := Lower(sym.Sub(ph[q], want), q); d != sym.Zero {
			e.bad(rule, an, ct, "modulo %s the remaining phase differs from the original one by %s", q, short(d))
			return
		}
	}
	e.c.Ok(rule, an, true, "")
}

func init() {
	register(&Prop{ID: "C01", Min: 40,
		Rule:  "The abstract ciphertext of an arbitrary message has only the encrypting party's component, the announced level, scale and domain, and its phase equals the scaled encoding of the message plus terms made of small noise only, the same ones modulo every prime; decrypting an arbitrary ciphertext at every level decodes exactly its phase with its scale.",
		Units: encUnits})
	register(&Prop{ID: "C02", Min: 40,
		Rule:  "Adding one party's share removes exactly that party's component and keeps the phase, in every order of the parties; decrypting with any superset of the parties' keys decodes exactly the phase of an arbitrary ciphertext.",
		Units: jointUnits})
}
