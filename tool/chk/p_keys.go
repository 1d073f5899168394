package chk

import (
	"fmt"
	"sort"
	"strings"

	"mkverif/ai"
	"mkverif/sym"
)

// qp reads a rlwe.PolyQP as ring elements modulo every prime of Q and P; the
// rows must be in the NTT domain.
func (e *Env) qp(p ai.Value) (map[*sym.E]*sym.E, string) {
	out := map[*sym.E]*sym.E{}
	for _, part := range []struct {
		f  string
		ms []*sym.E
	}{{"Q", e.Q}, {"P", e.PM}} {
		rows := e.M.PolyRows(e.M.Get(p, part.f))
		if len(rows) != len(part.ms) {
			return nil, fmt.Sprintf("has %d rows modulo %s, expected %d", len(rows), part.f, len(part.ms))
		}
		for i, s := range rows {
			r, _ := e.M.RowOf(s)
			r = e.M.Whole(r, part.ms[i])
			if r.Dom == 0 && r.E != sym.Zero {
				return nil, fmt.Sprintf("row modulo %s is not in the NTT domain", part.ms[i])
			}
			out[part.ms[i]] = r.E
		}
	}
	return out, ""
}

// digits reads a switching key: one PolyQP per gadget digit, without Montgomery factor.
func (e *Env) digits(swk ai.Value) ([]map[*sym.E]*sym.E, string) {
	sl, ok := e.M.Get(swk, "Value").(ai.Slice)
	if !ok {
		return nil, "has no value"
	}
	var out []map[*sym.E]*sym.E
	for i := 0; i < sl.Len; i++ {
		p := &ai.Ptr{O: sl.O, Path: append(append([]int{}, sl.Path...), sl.Off+i)}
		d, err := e.qp(p)
		if err != "" {
			return nil, fmt.Sprintf("digit %d %s", i, err)
		}
		for q, v := range d {
			d[q] = sym.Div(v, sym.R)
		}
		out = append(out, d)
	}
	return out, ""
}

func (e *Env) crs(idx int) ai.Value {
	c := e.MapC(e.M.Get(e.paramsPtr(), "CRS"))
	for k, v := range c.K {
		if i, ok := v.(ai.I); ok && int(i) == idx {
			return c.V[k]
		}
	}
	return nil
}

// isNoise: an expression that is one fresh error atom up to sign.
func noiseAtom(x *sym.E) *sym.Node {
	if len(x.M) != 1 {
		return nil
	}
	m := x.M[0]
	if len(m.F) != 1 || m.F[0].X != 1 || !ai.IsNoise(m.F[0].N) || !m.C.IsInt() || m.C.Num().CmpAbs(ratInt(1).Num()) != 0 {
		return nil
	}
	return m.F[0].N
}

// errTerm decides that the same single fresh error remains modulo every prime.
func (e *Env) errTerm(rule, an, what string, d map[*sym.E]*sym.E, seen map[*sym.Node]string) bool {
	var ref *sym.E
	for _, q := range append(append([]*sym.E{}, e.Q...), e.PM...) {
		x := Lower(d[q], q)
		n := noiseAtom(x)
		if n == nil {
			return e.c.Ok(rule, an, false, "%s: modulo %s the key differs from its defining equation by %s, which is not one fresh error", what, q, short(x))
		}
		if ref == nil {
			ref = x
			if o, dup := seen[n]; dup {
				return e.c.Ok(rule, an, false, "%s has the same error as %s", what, o)
			}
			seen[n] = what
		} else if ref != x {
			return e.c.Ok(rule, an, false, "%s: the errors modulo %s and %s differ: %s and %s", what, e.Q[0], q, short(ref), short(x))
		}
	}
	return e.c.Ok(rule, an, true, "")
}

// noCRS: the key carries no mask.
const noCRS = 1 << 20

// rnsGadget: the special primes' product modulo the primes of the digit's own group, zero elsewhere.
func (e *Env) rnsGadget(i int, q *sym.E) *sym.E {
	for j := 0; j < e.Sh.Alpha(); j++ {
		if k := i*e.Sh.Alpha() + j; k < len(e.Q) && e.Q[k] == q {
			return prod(e.PM)
		}
	}
	return sym.Zero
}

func neg(g func(i int, q *sym.E) *sym.E) func(i int, q *sym.E) *sym.E {
	return func(i int, q *sym.E) *sym.E { return sym.Neg(g(i, q)) }
}

// bfvGadget: T*P/QMul over the digit's own group (half 0), or what rounding down
// P*T*Q/QMul_i * (inverse) leaves modulo Q and P (half 1).
func (e *Env) bfvGadget(half int) func(i int, q *sym.E) *sym.E {
	return func(i int, q *sym.E) *sym.E {
		if half == 0 {
			return sym.Div(sym.Mul(e.T, e.rnsGadget(i, q)), prod(e.QMul))
		}
		al := e.Sh.Alpha()
		blk := prod(e.QMul[i*al : (i+1)*al])
		d := sym.Div(sym.Mul(prod(e.Q), prod(e.QMul)), blk)
		v := sym.Mul(d, e.T, sym.Raw("minv", "", sym.Strip(d, blk), blk), prod(e.PM))
		return sym.Neg(sym.App("frac", "", sym.Div(v, prod(e.QMul))))
	}
}

// JudgeGadget decides key_i + A_i*skMask = g_i*msg + fresh error for every digit,
// where A is the common reference string idx.
func (e *Env) JudgeGadget(rule, an, what string, swk ai.Value, crsIdx int, skMask *sym.E, g func(i int, q *sym.E) *sym.E, msg *sym.E, seen map[*sym.Node]string) bool {
	ds, err := e.digits(swk)
	if err != "" {
		return e.c.Ok(rule, an, false, "%s %s", what, err)
	}
	beta := (e.Sh.NQ + e.Sh.Alpha() - 1) / e.Sh.Alpha()
	if !e.c.Ok(rule+".digits", an, len(ds) == beta, "%s has %d digits, expected %d", what, len(ds), beta) {
		return false
	}
	var as []map[*sym.E]*sym.E
	if crsIdx != noCRS {
		v := e.crs(crsIdx)
		if v == nil {
			return e.c.Ok(rule, an, false, "there is no common reference string %d", crsIdx)
		}
		if as, err = e.digits(v); err != "" || len(as) != beta {
			return e.c.Ok(rule, an, false, "the common reference string %d has %d digits, expected %d %s", crsIdx, len(as), beta, err)
		}
	}
	good := true
	for i := range ds {
		d := map[*sym.E]*sym.E{}
		for q, v := range ds[i] {
			t := v
			if as != nil {
				t = sym.Add(v, sym.Mul(as[i][q], skMask))
			}
			d[q] = sym.Sub(t, sym.Mul(g(i, q), msg))
		}
		good = e.errTerm(rule, an, fmt.Sprintf("digit %d of %s", i, what), d, seen) && good
	}
	return good
}

// JudgeSecret decides that a secret key is one small sample, the same modulo
// every prime, in NTT and Montgomery form, of the wanted distribution.
func (e *Env) JudgeSecret(rule, an string, sk ai.Value, id, kind, param string, seen map[*sym.Node]string) bool {
	if !e.c.Ok(rule+".id", an, e.M.Get(sk, "ID") == e.id(id), "the key belongs to %v, expected %q", e.M.Get(sk, "ID"), id) {
		return false
	}
	d, err := e.qp(e.M.Sub(sk, "Value"))
	if err != "" {
		return e.c.Ok(rule, an, false, "the secret key %s", err)
	}
	var ref *sym.E
	for _, q := range append(append([]*sym.E{}, e.Q...), e.PM...) {
		x := sym.Div(d[q], sym.R)
		if ref == nil {
			ref = x
		} else if ref != x {
			return e.c.Ok(rule, an, false, "the secret keys modulo %s and %s differ: %s and %s", e.Q[0], q, short(ref), short(x))
		}
	}
	n := ref.Single()
	var smp *ai.Sample
	for i := range e.M.Samples {
		if n != nil && e.M.Samples[i].Atom == ref {
			smp = &e.M.Samples[i]
		}
	}
	if smp == nil {
		return e.c.Ok(rule, an, false, "the secret key is %s, which is not one random sample", short(ref))
	}
	if o, dup := seen[n]; dup {
		return e.c.Ok(rule, an, false, "the secret key equals %s", o)
	}
	seen[n] = "another secret key"
	if smp.Kind != kind || !strings.Contains(smp.Param, param) {
		return e.c.Ok(rule, an, false, "the secret key is drawn from %s(%s), expected %s(%s)", smp.Kind, smp.Param, kind, param)
	}
	return e.c.Ok(rule, an, true, "")
}

func (e *Env) JudgePk(rule, an string, pk ai.Value, id string, s *sym.E, seen map[*sym.Node]string) bool {
	if !e.c.Ok(rule+".id", an, e.M.Get(pk, "ID") == e.id(id), "the key belongs to %v, expected %q", e.M.Get(pk, "ID"), id) {
		return false
	}
	var v [2]map[*sym.E]*sym.E
	for i := range v {
		d, err := e.qp(elem(e.M.Sub(pk, "Value"), i))
		if err != "" {
			return e.c.Ok(rule, an, false, "component %d %s", i, err)
		}
		v[i] = d
	}
	as, _ := e.digits(e.crs(0))
	d := map[*sym.E]*sym.E{}
	for q := range v[0] {
		if v[1][q] != as[0][q] {
			return e.c.Ok(rule, an, false, "modulo %s the mask of the public key is %s, expected the common reference string", q, short(v[1][q]))
		}
		d[q] = sym.Add(v[0][q], sym.Mul(v[1][q], s))
	}
	return e.errTerm(rule, an, "the public key of "+id, d, seen)
}

func elem(arr *ai.Ptr, i int) *ai.Ptr {
	return &ai.Ptr{O: arr.O, Path: append(append([]int{}, arr.Path...), i)}
}

func (e *Env) elemOf(arr *ai.Ptr, i int) ai.Value { return e.M.Load(elem(arr, i)) }

// JudgeRlk: b = -s*a + e, d = -r*a + P*g*s + e, v = -(s*u + P*g*r) + e.
func (e *Env) JudgeRlk(rule, an string, rlk ai.Value, id string, s, r *sym.E, seen map[*sym.Node]string) bool {
	if !e.c.Ok(rule+".id", an, e.M.Get(rlk, "ID") == e.id(id), "the key belongs to %v, expected %q", e.M.Get(rlk, "ID"), id) {
		return false
	}
	v := e.M.Sub(rlk, "Value")
	if e.Kind == "bfv" {
		good := true
		for h := 0; h < 2; h++ {
			half := e.M.Sub(e.elemOf(v, h), "Value")
			crs := []int{0, -3}[h]
			good = e.JudgeGadget(rule, an, fmt.Sprintf("b%d of %s", h+1, id), e.elemOf(half, 0), crs, s, e.rnsGadget, sym.Zero, seen) && good
			good = e.JudgeGadget(rule, an, fmt.Sprintf("d%d of %s", h+1, id), e.elemOf(half, 1), crs, r, e.bfvGadget(h), s, seen) && good
			if h == 0 {
				good = e.JudgeGadget(rule, an, "v of "+id, e.elemOf(half, 2), -1, s, neg(e.rnsGadget), r, seen) && good
			}
		}
		return good
	}
	a := e.JudgeGadget(rule, an, "b of "+id, e.elemOf(v, 0), 0, s, e.rnsGadget, sym.Zero, seen)
	b := e.JudgeGadget(rule, an, "d of "+id, e.elemOf(v, 1), 0, r, e.rnsGadget, s, seen)
	c := e.JudgeGadget(rule, an, "v of "+id, e.elemOf(v, 2), -1, s, neg(e.rnsGadget), r, seen)
	return a && b && c
}

func (e *Env) JudgeRot(rule, an string, rk ai.Value, id string, k int, s *sym.E, seen map[*sym.Node]string) bool {
	if !e.c.Ok(rule+".id", an, e.M.Get(rk, "ID") == e.id(id) && e.M.Get(rk, "RotIdx") == ai.I(k), "the key is labelled %v, %v, expected %q, %d", e.M.Get(rk, "ID"), e.M.Get(rk, "RotIdx"), id, k) {
		return false
	}
	inv := 1
	for inv*gal(k)%(2*N) != 1 {
		inv += 2
	}
	return e.JudgeGadget(rule, an, fmt.Sprintf("the rotation key %d of %s", k, id), e.M.Get(rk, "Value"), k, sym.Perm(inv, s), e.rnsGadget, s, seen)
}

func (e *Env) JudgeConj(rule, an string, ck ai.Value, id string, s *sym.E, seen map[*sym.Node]string) bool {
	if !e.c.Ok(rule+".id", an, e.M.Get(ck, "ID") == e.id(id), "the key belongs to %v, expected %q", e.M.Get(ck, "ID"), id) {
		return false
	}
	return e.JudgeGadget(rule, an, "the conjugation key of "+id, e.M.Get(ck, "Value"), -2, s, e.rnsGadget, sym.Perm(2*N-1, s), seen)
}

type kindShape struct {
	kind string
	sh   Shape
}

func kgPkg(kind string) string {
	if kind == "bfv" {
		return "mkbfv"
	}
	return "mkrlwe"
}

// judgeAll judges every key of the environment.
func (e *Env) judgeAll(seen map[*sym.Node]string) {
	kg := func(n string) string { return e.c.Anchor("mkrlwe", "KeyGenerator", n) }
	for _, id := range e.IDs {
		s, r := e.S[id], e.RS[id]
		e.JudgeSecret("keys.secret", kg("GenSecretKey"), e.Sk[id], id, "ternary", "p=0.5", seen)
		e.JudgeSecret("keys.secret", kg("GenSecretKey"), e.R[id], id, "ternary", "p=0.5", seen)
		e.JudgePk("keys.public", kg("GenPublicKey"), e.Pk[id], id, s, seen)
		k, _ := e.MapGet(e.M.Get(e.RlSet, "Value"), id)
		e.JudgeRlk("keys.relinearization", e.c.Anchor(kgPkg(e.Kind), "KeyGenerator", "GenRelinearizationKey"), k, id, s, r, seen)
		k, _ = e.MapGet(e.M.Get(e.CkSet, "Value"), id)
		e.JudgeConj("keys.conjugation", kg("GenConjugationKey"), k, id, s, seen)
		ks, ok := e.MapGet(e.M.Get(e.RkSet, "Value"), id)
		var have, want []int
		if ok {
			c := e.MapC(ks)
			for i, v := range c.K {
				k := int(v.(ai.I))
				have = append(have, k)
				e.JudgeRot("keys.rotation", kg("GenRotationKey"), c.V[i], id, k, s, seen)
			}
		}
		for k := 1; k < N/2; k *= 2 {
			want = append(want, k)
		}
		sort.Ints(have)
		e.c.Ok("keys.rotation.default", kg("GenDefaultRotationKeys"), fmt.Sprint(have) == fmt.Sprint(want), "%s has default rotation keys for %v, expected %v", id, have, want)
	}
}

func keyShapes(tier string) []kindShape {
	r := []kindShape{{"rlwe", rA1}, {"rlwe", rA2}, {"rlwe", rA2p.rev()}, {"rlwe", rA3}, {"rlwe", rG3}, {"rlwe", rP5}, {"ckks", cA1}, {"ckks", cA2p}, {"bfv", bA1}, {"bfv", bA13}, {"bfv", bA2.rev()}, {"bfv", bA24}}
	for _, k := range []string{"rlwe", "ckks", "bfv"} {
		for _, sh := range otherShapes(k, tier) {
			r = append(r, kindShape{k, sh})
		}
	}
	return r
}

func keyUnits(tier string) []Unit {
	var us []Unit
	for _, x := range keyShapes(tier) {
		x := x
		us = append(us, envUnit(x.kind, x.sh, "keys of three parties", "keys", [3]string{"mkrlwe", "", "NewKeyGenerator"}, func(e *Env, an string) {
			e.judgeAll(map[*sym.Node]string{})
		}))
		us = append(us, envUnit(x.kind, x.sh, "key generators in other orders", "keys", [3]string{"mkrlwe", "", "NewKeyGenerator"}, func(e *Env, an string) {
			kg := func(n string) string { return e.c.Anchor("mkrlwe", "KeyGenerator", n) }
			seen := map[*sym.Node]string{}
			// the public key pair of a new party on the used generator, then its other keys in reverse order
			pair := e.Kgen("GenKeyPair", e.id("D")).(ai.Tup)
			sk := pair[0]
			e.JudgeSecret("keys.secret", kg("GenKeyPair"), sk, "D", "ternary", "p=0.5", seen)
			s := e.SecretE(sk)
			e.JudgePk("keys.public", kg("GenKeyPair"), pair[1], "D", s, seen)
			kinds := []struct {
				fn, kind, param string
				args            []ai.Value
			}{{"GenSecretKeyGaussian", "gauss", "sigma=3.2 bound=19", nil}, {"GenSecretKeyWithDistrib", "ternary", "p=0.25", []ai.Value{ai.F(0.25)}},
				{"GenSecretKeySparse", "sparse", "hw=5", []ai.Value{ai.I(5)}}, {"GenSecretKeyWithDistrib", "ternary", "p=0.75", []ai.Value{ai.F(0.75)}}}
			for _, t := range kinds {
				k := e.Kgen(t.fn, append(t.args, e.id("E"))...)
				e.JudgeSecret("keys.secret", kg(t.fn), k, "E", t.kind, t.param, seen)
				e.JudgePk("keys.public", kg("GenPublicKey"), e.Kgen("GenPublicKey", k), "E", e.SecretE(k), seen)
			}
			pair = e.Kgen("GenKeyPairSparse", ai.I(7), e.id("F")).(ai.Tup)
			e.JudgeSecret("keys.secret", kg("GenKeyPairSparse"), pair[0], "F", "sparse", "hw=7", seen)
			e.JudgePk("keys.public", kg("GenKeyPairSparse"), pair[1], "F", e.SecretE(pair[0]), seen)
			e.JudgeConj("keys.conjugation", kg("GenConjugationKey"), e.Kgen("GenConjugationKey", sk), "D", s, seen)
			for _, k := range []int{N / 4, 1 - N/2, 2, 2 - N} {
				m := ((k % (N / 2)) + N/2) % (N / 2)
				e.JudgeRot("keys.rotation", kg("GenRotationKey"), e.Kgen("GenRotationKey", ai.I(k), sk), "D", m, s, seen)
			}
			r := e.Kgen("GenSecretKey", e.id("D"))
			gr := func(sk, r ai.Value) ai.Value {
				if e.Kind == "bfv" {
					return e.Call("mkbfv", "KeyGenerator", "GenRelinearizationKey", e.Kg, sk, r)
				}
				return e.Kgen("GenRelinearizationKey", sk, r)
			}
			ra := e.c.Anchor(kgPkg(e.Kind), "KeyGenerator", "GenRelinearizationKey")
			e.JudgeRlk("keys.relinearization", ra, gr(sk, r), "D", s, e.SecretE(r), seen)
			e.JudgeRlk("keys.relinearization", ra, gr(e.Sk["A"], e.R["A"]), "A", e.S["A"], e.RS["A"], seen)
			// a common reference string added later
			for _, k := range []int{3, N/2 - 1} {
				e.Call("mkrlwe", "Parameters", "AddCRS", e.paramsPtr(), ai.I(k))
				e.JudgeRot("keys.rotation.added", kg("GenRotationKey"), e.Kgen("GenRotationKey", ai.I(k), e.Sk["B"]), "B", k, e.S["B"], seen)
				e.JudgeRot("keys.rotation.added", kg("GenRotationKey"), e.Kgen("GenRotationKey", ai.I(k-N/2), sk), "D", k, s, seen)
			}
			// gadget encryptions
			for _, id := range AB {
				swk := e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
				for i := 0; i < 2; i++ { // into new memory and again
					e.Kgen("GenSwitchingKey", e.Sk[id], swk)
					e.JudgeGadget("keys.gadget", kg("GenSwitchingKey"), "the gadget encryption of "+id, swk, noCRS, nil, e.rnsGadget, e.S[id], seen)
				}
			}
			e.judgeAll(map[*sym.Node]string{})
		}))
	}
	return us
}

// paramsPtr is the address of a copy of the generic parameters.
func (e *Env) paramsPtr() *ai.Ptr {
	return &ai.Ptr{O: e.M.New(e.P.Type("mkrlwe", "Parameters"), e.Rlwe(), "parameters")}
}

func init() {
	register(&Prop{ID: "C25", Min: 100,
		Rule:  "Every abstract key satisfies its defining equation modulo every prime of Q and P: key plus mask times secret equals the gadget multiple of the message plus one fresh error sample, the same modulo every prime, in NTT and Montgomery form; secret keys are one sample of the announced distribution; labels are those asked for.",
		Units: keyUnits})
}
