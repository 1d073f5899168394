package chk

import (
	"fmt"
	"sort"
	"strings"

	"mkverif/ai"
	"mkverif/sym"
)

func atomKind(n *sym.Node) byte {
	if n.Op == "perm" {
		if n = n.Args[0].Single(); n == nil {
			return 0
		}
	}
	if n.Op == "ra" && len(n.S) > 1 && n.S[1] >= '0' && n.S[1] <= '9' {
		return n.S[0]
	}
	return 0
}

// pub is one published polynomial taken apart.
type pub struct {
	what  string
	noise *sym.E            // the fresh error with its sign
	mask  map[*sym.E]*sym.E // reference polynomial times secret
	scale map[*sym.E]*sym.E // the constant the mask is multiplied by
	msg   map[*sym.E]*sym.E
}

// maskAtom: the reference polynomial a public polynomial consists of, up to a constant.
func maskAtom(x *sym.E) *sym.Node {
	if len(x.M) != 1 {
		return nil
	}
	var n *sym.Node
	for _, f := range x.M[0].F {
		if atomKind(f.N) == 'a' && n == nil && f.X == 1 {
			n = f.N
		} else if !constant(f.N) {
			return nil
		}
	}
	return n
}

// constant: a factor that is the same public number for every coefficient.
func constant(n *sym.Node) bool { return n.Op == "atom" || sym.R.Single() == n }

// split decides that a published polynomial is reference string times secret,
// plus one error sample, plus a message.
func (e *Env) split(what string, rows map[*sym.E]*sym.E) (*pub, string) {
	p := &pub{what: what, mask: map[*sym.E]*sym.E{}, scale: map[*sym.E]*sym.E{}, msg: map[*sym.E]*sym.E{}}
	for _, q := range append(append([]*sym.E{}, e.Q...), e.PM...) {
		x := Lower(rows[q], q)
		var noise, mask, scale *sym.E
		msg := sym.Zero
		for _, m := range x.M {
			t := monoE(m)
			uni, bare := 0, sym.One
			ok := true
			for _, f := range m.F {
				switch atomKind(f.N) {
				case 'a':
					uni += f.X
					bare = sym.Mul(bare, f.N.E())
				case 'e', 'u', 'w':
					bare = sym.Mul(bare, f.N.E())
				default:
					ok = ok && constant(f.N)
					continue
				}
				ok = ok && f.X == 1
			}
			switch {
			case uni == 1 && ok && len(bare.M[0].F) == 2:
				if mask != nil {
					return nil, fmt.Sprintf("modulo %s it has several masks: %s and %s", q, short(mask), short(t))
				}
				mask, scale = bare, sym.Div(t, bare)
			case uni != 0:
				return nil, fmt.Sprintf("modulo %s the term %s is neither a mask nor a message", q, short(t))
			case noiseAtom(t) != nil:
				if noise != nil {
					return nil, fmt.Sprintf("modulo %s there are several error terms: %s and %s", q, short(noise), short(t))
				}
				noise = t
			default:
				msg = sym.Add(msg, t)
			}
		}
		if mask == nil {
			return nil, fmt.Sprintf("modulo %s no reference polynomial times a secret masks %s", q, short(x))
		}
		if noise == nil {
			return nil, fmt.Sprintf("modulo %s it carries no error: the secret can be solved for", q)
		}
		if p.noise != nil && p.noise != noise {
			return nil, fmt.Sprintf("the errors modulo different primes differ: %s and %s", short(p.noise), short(noise))
		}
		p.noise = noise
		p.mask[q], p.scale[q], p.msg[q] = mask, scale, msg
	}
	return p, ""
}

// fresh collects published polynomials and decides that no error is used twice and
// that no mask hides two messages.
type fresh struct {
	e     *Env
	noise map[*sym.Node]string
	masks map[string]*pub
	n     int
}

func (e *Env) newFresh() *fresh {
	return &fresh{e: e, noise: map[*sym.Node]string{}, masks: map[string]*pub{}}
}

func (f *fresh) use(rule, an, what string, n *sym.Node) bool {
	if o, dup := f.noise[n]; dup {
		return f.e.c.Ok(rule, an, false, "%s uses the random sample %s of %s again", what, n.S, o)
	}
	f.noise[n] = what
	return true
}

func (f *fresh) add(rule, an, what string, rows map[*sym.E]*sym.E) bool {
	e := f.e
	f.n++
	p, err := e.split(what, rows)
	if err != "" {
		return e.c.Ok(rule, an, false, "%s: %s", what, err)
	}
	if !f.use(rule, an, what, noiseAtom(p.noise)) {
		return false
	}
	for _, q := range append(append([]*sym.E{}, e.Q...), e.PM...) {
		if p.scale[q].M[0].C.Sign() < 0 { // the sign of a public polynomial does not matter
			p.scale[q], p.msg[q] = sym.Neg(p.scale[q]), sym.Neg(p.msg[q])
		}
		k := q.String() + "|" + p.mask[q].String()
		o := f.masks[k]
		if o == nil {
			f.masks[k] = p
			continue
		}
		if o.scale[q] != p.scale[q] {
			return e.c.Ok(rule, an, false, "%s and %s use the mask %s modulo %s with different factors %s and %s: the two errors can be solved for from the public combination without mask", what, o.what, short(p.mask[q]), q, short(p.scale[q]), short(o.scale[q]))
		}
		if o.msg[q] != p.msg[q] {
			return e.c.Ok(rule, an, false, "%s and %s use the same mask for different messages modulo %s: their difference is %s", what, o.what, q, short(sym.Sub(p.msg[q], o.msg[q])))
		}
	}
	return e.c.Ok(rule, an, true, "")
}

// key adds every digit of a switching key.
func (f *fresh) key(rule, an, what string, swk ai.Value) {
	ds, err := f.e.digits(swk)
	if err != "" {
		f.e.c.Ok(rule, an, false, "%s %s", what, err)
		return
	}
	for i, d := range ds {
		f.add(rule, an, fmt.Sprintf("digit %d of %s", i, what), d)
	}
}

func (f *fresh) pk(rule, an, what string, pk ai.Value) {
	e := f.e
	var v [2]map[*sym.E]*sym.E
	for i := range v {
		d, err := e.qp(elem(e.M.Sub(pk, "Value"), i))
		if err != "" {
			e.c.Ok(rule, an, false, "%s: component %d %s", what, i, err)
			return
		}
		v[i] = d
	}
	for q, x := range v[1] {
		if n := maskAtom(x); n == nil || atomKind(n) != 'a' {
			e.c.Ok(rule, an, false, "%s: the second component modulo %s is %s, not a common reference polynomial", what, q, short(x))
			return
		}
	}
	f.add(rule, an, what, v[0])
}

func (f *fresh) rlk(rule, an, what string, rlk ai.Value) {
	e := f.e
	v := e.M.Sub(rlk, "Value")
	if e.Kind == "bfv" {
		for h := 0; h < 2; h++ {
			half := e.M.Sub(e.elemOf(v, h), "Value")
			for i := 0; i < 3; i++ {
				if h == 1 && i == 2 { // not generated
					d, _ := e.digits(e.elemOf(half, i))
					for _, x := range d {
						for q, y := range x {
							e.c.Ok(rule, an, y == sym.Zero, "the unused part of %s modulo %s is %s", what, q, short(y))
						}
					}
					continue
				}
				f.key(rule, an, fmt.Sprintf("part %d/%d of %s", h, i, what), e.elemOf(half, i))
			}
		}
		return
	}
	for i := 0; i < 3; i++ {
		f.key(rule, an, fmt.Sprintf("part %d of %s", i, what), e.elemOf(v, i))
	}
}

// all adds every public key of the environment.
func (f *fresh) all() {
	e := f.e
	kg := func(n string) string { return e.c.Anchor("mkrlwe", "KeyGenerator", n) }
	for _, id := range e.IDs {
		f.pk("fresh.public", kg("GenPublicKey"), "the public key of "+id, e.Pk[id])
		k, _ := e.MapGet(e.M.Get(e.RlSet, "Value"), id)
		f.rlk("fresh.relinearization", e.c.Anchor(kgPkg(e.Kind), "KeyGenerator", "GenRelinearizationKey"), "the relinearization key of "+id, k)
		k, _ = e.MapGet(e.M.Get(e.CkSet, "Value"), id)
		f.key("fresh.conjugation", kg("GenConjugationKey"), "the conjugation key of "+id, e.M.Get(k, "Value"))
		ks, ok := e.MapGet(e.M.Get(e.RkSet, "Value"), id)
		if ok {
			c := e.MapC(ks)
			for _, i := range c.Keys {
				f.key("fresh.rotation", kg("GenRotationKey"), fmt.Sprintf("the rotation key %v of %s", c.K[i], id), e.M.Get(c.V[i], "Value"))
			}
		}
	}
}

// ct adds a ciphertext: mask times one fresh ternary sample plus fresh errors.
func (f *fresh) ct(rule, an, what string, ct ai.Value, id string, level int, target *sym.E) bool {
	e := f.e
	c0, err0 := e.CtRows(ct, "0", e.Level(level))
	c1, err1 := e.CtRows(ct, id, e.Level(level))
	if err0+err1 != "" {
		return e.c.Ok(rule, an, false, "%s: %s %s", what, err0, err1)
	}
	var pk [2]map[*sym.E]*sym.E
	for i := range pk {
		d, err := e.qp(elem(e.M.Sub(e.Pk[id], "Value"), i))
		if err != "" {
			return e.c.Ok(rule, an, false, "%s", err)
		}
		pk[i] = d
	}
	var u, e0, e1 *sym.E
	for i, q := range e.Level(level) {
		// the second component: mask*u + e1
		a := pk[1][q]
		var n1, un *sym.E
		for _, m := range Lower(c1[i], q).M {
			t := monoE(m)
			if noiseAtom(t) != nil && n1 == nil {
				n1 = t
			} else if x := sym.Div(t, a); un == nil && len(x.M) == 1 && len(x.M[0].F) == 1 && x.M[0].F[0].X == 1 && atomKind(x.M[0].F[0].N) == 'u' && x.M[0].C.IsInt() && x.M[0].C.Num().CmpAbs(ratInt(1).Num()) == 0 {
				un = x
			} else {
				return e.c.Ok(rule, an, false, "%s: modulo %s the component of %s contains %s besides one mask and one error", what, q, id, short(t))
			}
		}
		if n1 == nil || un == nil {
			return e.c.Ok(rule, an, false, "%s: modulo %s the component of %s is %s, without a mask or without an error", what, q, id, short(c1[i]))
		}
		rest := Lower(sym.Sub(sym.Sub(c0[i], sym.Mul(un, pk[0][q])), target), q)
		if noiseAtom(rest) == nil {
			return e.c.Ok(rule, an, false, "%s: modulo %s the body minus mask and message is %s, not one error", what, q, short(rest))
		}
		if i == 0 {
			u, e0, e1 = un, rest, n1
		} else if u != un || e0 != rest || e1 != n1 {
			return e.c.Ok(rule, an, false, "%s: the randomness differs between the primes", what)
		}
	}
	if noiseAtom(e0) == noiseAtom(e1) {
		return e.c.Ok(rule, an, false, "%s: both components carry the same error %s", what, short(e0))
	}
	ok := true
	for _, n := range []*sym.Node{u.M[0].F[0].N, noiseAtom(e0), noiseAtom(e1)} {
		ok = f.use(rule, an, what, n) && ok
	}
	if ok {
		e.c.Ok(rule, an, true, "")
	}
	return ok
}

func secUnits(tier string) []Unit {
	var us []Unit
	for _, x := range keyShapes(tier) {
		x := x
		us = append(us, envUnit(x.kind, x.sh, "public material of all parties", "fresh", [3]string{"mkrlwe", "", "NewKeyGenerator"}, func(e *Env, an string) {
			f := e.newFresh()
			f.all()
			// further keys, regenerated keys and keys of another generator on the same parameters
			kg2 := e.Call("mkrlwe", "", "NewKeyGenerator", e.Rlwe())
			kg := func(n string) string { return e.c.Anchor("mkrlwe", "KeyGenerator", n) }
			gen := func(name string, args ...ai.Value) ai.Value {
				return e.Call("mkrlwe", "KeyGenerator", name, append([]ai.Value{kg2}, args...)...)
			}
			sk := e.Sk["A"]
			for i := 0; i < 2; i++ {
				f.pk("fresh.public", kg("GenPublicKey"), fmt.Sprint("public key of A, again ", i), gen("GenPublicKey", sk))
				f.key("fresh.conjugation", kg("GenConjugationKey"), fmt.Sprint("conjugation key of A, again ", i), e.M.Get(gen("GenConjugationKey", sk), "Value"))
				f.key("fresh.rotation", kg("GenRotationKey"), fmt.Sprint("rotation key 1 of A, again ", i), e.M.Get(gen("GenRotationKey", ai.I(1-i*N/2), sk), "Value"))
			}
			for _, k := range []int{3, 5, N/2 - 1} {
				e.Call("mkrlwe", "Parameters", "AddCRS", e.paramsPtr(), ai.I(k))
				f.key("fresh.rotation.added", kg("GenRotationKey"), fmt.Sprintf("rotation key %d of A", k), e.M.Get(gen("GenRotationKey", ai.I(k), sk), "Value"))
				f.key("fresh.rotation.added", kg("GenRotationKey"), fmt.Sprintf("rotation key %d of B", k), e.M.Get(e.Kgen("GenRotationKey", ai.I(k-N/2), e.Sk["B"]), "Value"))
			}
			// the same party again with new secrets
			sk2, r2 := gen("GenSecretKey", e.id("A")), gen("GenSecretKey", e.id("A"))
			f.pk("fresh.public", kg("GenPublicKey"), "second public key of A", gen("GenPublicKey", sk2))
			if e.Kind == "bfv" {
				f.rlk("fresh.relinearization", e.c.Anchor("mkbfv", "KeyGenerator", "GenRelinearizationKey"), "second relinearization key of A", e.Call("mkbfv", "KeyGenerator", "GenRelinearizationKey", e.Kg, sk2, r2))
			} else {
				f.rlk("fresh.relinearization", kg("GenRelinearizationKey"), "second relinearization key of A", gen("GenRelinearizationKey", sk2, r2))
			}
		}))
		us = append(us, envUnit(x.kind, x.sh, "ciphertexts of repeated encryptions", "fresh", [3]string{pkgOf(x.kind), "", "NewEncryptor"}, func(e *Env, an string) {
			f := e.newFresh()
			f.all()
			L := lv(e.Sh)
			pkg := pkgOf(e.Kind)
			enc2 := e.Call(pkg, "", "NewEncryptor", e.Params)
			m, t := ai.Value(nil), sym.Zero
			sc := sym.One
			if e.Kind != "rlwe" {
				m, t = e.Msg("m")
				if e.Kind == "ckks" {
					sc = scaleE(e.Sh.Scale)
				}
			}
			for i, id := range []string{"A", "B", "A", "A", "C", "B"} {
				for j, enc := range []ai.Value{e.Enc, enc2} {
					what := func(fn string) (string, string) {
						return e.c.Anchor(pkg, "Encryptor", fn), fmt.Sprintf("ciphertext %d of encryptor %d by %s", i, j, fn)
					}
					if e.Kind == "rlwe" {
						for k := 0; k < 4; k++ {
							lc := L
							if L > 0 {
								lc -= i % 2
							}
							pt := e.Pt("m", L, k&1 == 1)
							ct := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(id), ai.I(lc))
							if k&2 == 2 {
								ct = e.Call("mkrlwe", "", "NewCiphertextNTT", e.Rlwe(), e.IDSet(id), ai.I(lc))
							}
							e.Call(pkg, "Encryptor", "Encrypt", enc, pt, e.Pk[id], ct)
							a, w := what("Encrypt")
							f.ct("fresh.encrypt", a, w, ct, id, lc, sym.RAtom("m"))
						}
						continue
					}
					ct := e.Call(pkg, "Encryptor", "EncryptMsgNew", enc, m, e.Pk[id])
					a, w := what("EncryptMsgNew")
					f.ct("fresh.encrypt", a, w, ct, id, L, sym.Mul(sc, t))
					e.Call(pkg, "Encryptor", "EncryptMsg", enc, m, e.Pk[id], ct)
					a, w = what("EncryptMsg")
					f.ct("fresh.encrypt", a, w, ct, id, L, sym.Mul(sc, t))
					if e.Kind == "ckks" {
						pt := e.Call(pkg, "Encryptor", "EncodeMsgNew", enc, m)
						for k := 0; k < 2; k++ {
							ct := e.Ct("old", L, scaleE(5), id)
							e.Call(pkg, "Encryptor", "EncryptPtxt", enc, pt, e.Pk[id], ct)
							a, w = what("EncryptPtxt")
							f.ct("fresh.encrypt", a, w, ct, id, L, sym.Mul(sc, t))
						}
					}
				}
			}
		}))
	}
	return us
}

// ---- randomness ----

// sampleOf finds the draw an atom comes from.
func (e *Env) sampleOf(n *sym.Node) *ai.Sample {
	for i := range e.M.Samples {
		s := &e.M.Samples[i]
		if s.Atom != nil && s.Atom.Single() == n {
			return s
		}
	}
	return nil
}

// atomsOf collects the random samples some memory contains.
func (e *Env) atomsOf(set map[*sym.Node]bool, rows map[*sym.E]*sym.E) {
	for _, x := range rows {
		for _, m := range x.M {
			for _, f := range m.F {
				n := f.N
				if atomKind(n) == 0 {
					continue
				}
				if n.Op == "perm" {
					n = n.Args[0].Single()
				}
				set[n] = true
			}
		}
	}
}

func (e *Env) sigma() (string, string) {
	s := e.Sh.sigma()
	return ai.Show(ai.F(s)), fmt.Sprint(int(6 * s))
}

// judgeRandom decides that every draw made so far has the announced distribution and source.
func (e *Env) judgeRandom(rule, an string, from int, tern map[*sym.Node]string) {
	sg, bd := e.sigma()
	for _, s := range e.M.Samples[from:] {
		at := an
		if s.Pos != "" {
			at = "sample drawn at " + s.Pos
		}
		if !e.c.Ok(rule+".source", at, strings.HasPrefix(s.Src, "prng:secure"), "the %s sample comes from %s, expected the operating system's randomness", s.Kind, s.Src) {
			continue
		}
		switch s.Kind {
		case "gauss":
			w := "sigma=" + sg + " bound=" + bd
			e.c.Ok(rule+".gaussian", at, s.Param == w, "the error is drawn with %s, expected %s", s.Param, w)
		case "ternary":
			w := "p=0.5"
			if x, ok := tern[s.Atom.Single()]; ok {
				w = x
			}
			e.c.Ok(rule+".ternary", at, s.Param == w, "the ternary sample is drawn with %s, expected %s", s.Param, w)
		case "sparse":
			w, ok := tern[s.Atom.Single()]
			e.c.Ok(rule+".sparse", at, ok && s.Param == w, "a sparse sample is drawn with %s, expected %s", s.Param, w)
		}
	}
}

func randUnits(tier string) []Unit {
	var us []Unit
	shs := keyShapes(tier)
	for _, x := range []kindShape{{"rlwe", rA1}, {"ckks", cA1}, {"bfv", bA1}, {"ckks", cA2p}} {
		for _, s := range []float64{4.5, 1, 10.25} {
			y := x
			y.sh.Sigma = s
			y.sh.Name += fmt.Sprintf("-sigma%g", s)
			shs = append(shs, y)
		}
	}
	for _, x := range shs {
		x := x
		us = append(us, envUnit(x.kind, x.sh, "randomness of keys and ciphertexts", "random", [3]string{"mkrlwe", "", "NewKeyGenerator"}, func(e *Env, an string) {
			want := map[*sym.Node]string{}
			kg := e.Call("mkrlwe", "", "NewKeyGenerator", e.Rlwe())
			gen := func(name string, args ...ai.Value) ai.Value {
				return e.Call("mkrlwe", "KeyGenerator", name, append([]ai.Value{kg}, args...)...)
			}
			for _, p := range []float64{0.25, 0.75, 1.0 / 3} {
				k := gen("GenSecretKeyWithDistrib", ai.F(p), e.id("X"))
				want[e.SecretE(k).Single()] = "p=" + ai.Show(ai.F(p))
				gen("GenPublicKey", k)
			}
			for _, h := range []int{1, 5, N} {
				k := gen("GenSecretKeySparse", ai.I(h), e.id("X"))
				want[e.SecretE(k).Single()] = "hw=" + ai.Show(ai.I(h))
				pair := gen("GenKeyPairSparse", ai.I(h), e.id("Y")).(ai.Tup)
				want[e.SecretE(pair[0]).Single()] = "hw=" + ai.Show(ai.I(h))
			}
			gen("GenSecretKeyGaussian", e.id("X"))
			gen("GenKeyPair", e.id("Z"))
			e.Call("mkrlwe", "Parameters", "AddCRS", e.paramsPtr(), ai.I(3))
			pkg := pkgOf(e.Kind)
			enc := e.Call(pkg, "", "NewEncryptor", e.Params)
			L := lv(e.Sh)
			for _, id := range AB {
				switch e.Kind {
				case "rlwe":
					for k := 0; k < 4; k++ {
						ct := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(id), ai.I(L))
						if k&2 == 2 {
							ct = e.Call("mkrlwe", "", "NewCiphertextNTT", e.Rlwe(), e.IDSet(id), ai.I(L))
						}
						e.Call(pkg, "Encryptor", "Encrypt", enc, e.Pt("m", L, k&1 == 1), e.Pk[id], ct)
					}
				default:
					m, _ := e.Msg("m")
					ct := e.Call(pkg, "Encryptor", "EncryptMsgNew", enc, m, e.Pk[id])
					e.Call(pkg, "Encryptor", "EncryptMsg", enc, m, e.Pk[id], ct)
				}
			}
			e.judgeRandom("random", an, 0, e.keepWant(want))
			// secret keys: one sample of their own
			seen := map[*sym.Node]string{}
			for _, id := range e.IDs {
				e.JudgeSecret("random.secret", e.c.Anchor("mkrlwe", "KeyGenerator", "GenSecretKey"), e.Sk[id], id, "ternary", "p=0.5", seen)
				e.JudgeSecret("random.secret", e.c.Anchor("mkrlwe", "KeyGenerator", "GenSecretKey"), e.R[id], id, "ternary", "p=0.5", seen)
			}
			sg, bd := e.sigma()
			e.JudgeSecret("random.secret", e.c.Anchor("mkrlwe", "KeyGenerator", "GenSecretKeyGaussian"), gen("GenSecretKeyGaussian", e.id("X")), "X", "gauss", "sigma="+sg+" bound="+bd, seen)
		}))
	}
	return us
}

// keepWant remembers announced distributions across the scenarios of one environment.
func (e *Env) keepWant(w map[*sym.Node]string) map[*sym.Node]string {
	if e.want == nil {
		e.want = map[*sym.Node]string{}
	}
	for k, v := range w {
		e.want[k] = v
	}
	return e.want
}

// ---- common reference string ----

// crsMap reads the common reference strings of some parameters.
func (e *Env) crsOf(params ai.Value) map[int][]map[*sym.E]*sym.E {
	out := map[int][]map[*sym.E]*sym.E{}
	c := e.MapC(e.M.Get(&ai.Ptr{O: e.M.New(e.P.Type("mkrlwe", "Parameters"), params, "parameters")}, "CRS"))
	if c == nil {
		return out
	}
	for k, v := range c.K {
		d, err := e.digits(c.V[k])
		if err != "" {
			d = nil
		}
		out[int(v.(ai.I))] = d
	}
	return out
}

func (e *Env) judgeCRS(rule, an string, params ai.Value, want []int, seen map[*sym.Node]string) {
	cs := e.crsOf(params)
	var have []int
	for k := range cs {
		have = append(have, k)
	}
	sort.Ints(have)
	sort.Ints(want)
	missing := []int{}
	for _, k := range want {
		if _, ok := cs[k]; !ok && k != -4 { // nothing uses -4
			missing = append(missing, k)
		}
	}
	e.c.Ok(rule+".indices", an, len(missing) == 0, "there are reference strings for %v, none for %v", have, missing)
	beta := (e.Sh.NQ + e.Sh.Alpha() - 1) / e.Sh.Alpha()
	for _, k := range have {
		if !e.c.Ok(rule+".digits", an, len(cs[k]) == beta, "the reference string %d has %d digits, expected %d in the NTT domain", k, len(cs[k]), beta) {
			continue
		}
		good := true
		for i, d := range cs[k] {
			for _, part := range [][]*sym.E{e.Q, e.PM} {
				var ref *sym.E
				for _, q := range part {
					x := d[q]
					n := x.Single()
					if n == nil || atomKind(n) != 'a' || n.Op == "perm" || (ref != nil && ref != x) {
						good = e.c.Ok(rule, an, false, "digit %d of the reference string %d modulo %s is %s, which is not one uniform sample", i, k, q, short(x))
						break
					}
					if ref == nil {
						ref = x
						what := fmt.Sprintf("digit %d of the reference string %d modulo %s...", i, k, q)
						if o, dup := seen[n]; dup {
							good = e.c.Ok(rule, an, false, "%s is the same uniform sample as %s", what, o)
							break
						}
						seen[n] = what
						s := e.sampleOf(n)
						if s == nil || s.Kind != "uniform" || !strings.HasPrefix(s.Src, "prng:secure") {
							good = e.c.Ok(rule, an, false, "%s is drawn from %v", what, s)
						}
					}
				}
			}
		}
		if good {
			e.c.Ok(rule, an, true, "")
		}
	}
}

func defaultCRS() []int {
	w := []int{0, -1, -2, -3, -4}
	for i := 0; i < LogN-1; i++ {
		w = append(w, 1<<uint(i))
	}
	return w
}

func crsUnits(tier string) []Unit {
	var us []Unit
	for _, x := range keyShapes(tier) {
		x := x
		us = append(us, envUnit(x.kind, x.sh, "common reference strings", "crs", [3]string{"mkrlwe", "", "NewParameters"}, func(e *Env, an string) {
			seen := map[*sym.Node]string{}
			e.judgeCRS("crs", an, e.Rlwe(), defaultCRS(), seen)
			add := e.c.Anchor("mkrlwe", "Parameters", "AddCRS")
			copies := []ai.Value{e.Rlwe(), e.M.Get(e.Kgen0(), "params"), e.Rlwe()}
			want := defaultCRS()
			before := e.crsOf(e.Rlwe())
			for i, k := range []int{3, 1, 0, 5, -2, 3, N/2 - 1, N / 2, -7, 2} {
				via := copies[i%len(copies)]
				p := &ai.Ptr{O: e.M.New(e.P.Type("mkrlwe", "Parameters"), via, "parameters")}
				e.Call("mkrlwe", "Parameters", "AddCRS", p, ai.I(k))
				has := false
				for _, w := range want {
					has = has || w == k
				}
				if !has {
					want = append(want, k)
				}
				after := e.crsOf(e.Rlwe())
				for j, d := range before {
					e.c.Ok("crs.keep", add, sameDigits(d, after[j]), "adding the reference string %d changes the reference string %d", k, j)
				}
				for _, v := range copies {
					e.judgeCRS("crs.add", add, v, append([]int{}, want...), map[*sym.Node]string{})
				}
				before = after
			}
			// other parameters of the same shape have reference strings of their own
			e.judgeOtherCRS(an)
		}))
	}
	return us
}

func (e *Env) Kgen0() ai.Value {
	if e.Kind == "bfv" {
		return e.M.Get(e.Kg, "KeyGenerator")
	}
	return e.Kg
}

func (e *Env) judgeOtherCRS(an string) {
	seen := map[*sym.Node]string{}
	e.judgeCRS("crs.own", an, e.Rlwe(), keysOf(e.crsOf(e.Rlwe())), seen)
	for i := 0; i < 2; i++ {
		p := e.Call("mkrlwe", "", "NewParameters", e.Rlwe().(*ai.Agg).V[0], ai.I(e.Sh.Gamma))
		e.judgeCRS("crs.own", an, p, defaultCRS(), seen)
	}
}

func keysOf(m map[int][]map[*sym.E]*sym.E) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	return r
}

func sameDigits(a, b []map[*sym.E]*sym.E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for q, x := range a[i] {
			if b[i][q] != x {
				return false
			}
		}
	}
	return true
}

func (s Shape) sigma() float64 {
	if s.Sigma == 0 {
		return 3.2
	}
	return s.Sigma
}

func init() {
	register(&Prop{ID: "C14", Min: 100,
		Rule:  "Every published abstract polynomial (public, relinearization, rotation and conjugation keys, modulo every prime, digit and party, on reused and several generators) is one reference polynomial times one secret plus one error sample plus a message; no error sample occurs in two published polynomials or twice in one; two polynomials under one mask carry the same message. Every ciphertext uses one fresh ternary and two fresh error samples.",
		Units: secUnits})
	register(&Prop{ID: "C15", Min: 100,
		Rule:  "Every draw on every analysed path of key generation, parameter generation and encryption reads the operating system's generator; errors are drawn with the parameters' standard deviation truncated at six of them, ternary secrets and encryption randomness with density 1/2 or what the caller asks for.",
		Units: randUnits})
	register(&Prop{ID: "C16", Min: 100,
		Rule:  "The abstract reference strings exist for exactly the announced indices and those added since, have one digit per group of primes, in the NTT domain, every digit an independent uniform sample; adding one never changes another and is seen through every copy of the parameters; separately generated parameters share none.",
		Units: crsUnits})
}
