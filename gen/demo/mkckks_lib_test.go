package mkckks

import (
	"fmt"
	"math/cmplx"

	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
)

type dctx struct {
	p   Parameters
	kg  *mkrlwe.KeyGenerator
	sk  *mkrlwe.SecretKeySet
	pk  *mkrlwe.PublicKeySet
	rl  *mkrlwe.RelinearizationKeySet
	rk  *mkrlwe.RotationKeySet
	ck  *mkrlwe.ConjugationKeySet
	enc *Encryptor
	dec *Decryptor
	ev  *Evaluator
}


func dparams(np int) Parameters {
	lit := ckks.ParametersLiteral{LogN: 11, LogSlots: 10, LogQ: []int{55, 45, 45, 45, 45}, Scale: 1 << 45, Sigma: rlwe.DefaultSigma}
	for i := 0; i < np; i++ {
		lit.LogP = append(lit.LogP, 58)
	}
	cp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		panic(err)
	}
	return NewParameters(cp)
}

func dmk(np int, ids ...string) *dctx {
	c := new(dctx)
	c.p = dparams(np)
	c.kg = mkrlwe.NewKeyGenerator(c.p.Parameters)
	c.sk, c.pk, c.rl = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet(), mkrlwe.NewRelinearizationKeyKeySet(c.p.Parameters)
	c.rk, c.ck = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		s, p := c.kg.GenKeyPair(id)
		r := c.kg.GenSecretKey(id)
		c.sk.AddSecretKey(s)
		c.pk.AddPublicKey(p)
		c.rl.AddRelinearizationKey(c.kg.GenRelinearizationKey(s, r))
		c.kg.GenDefaultRotationKeys(s, c.rk)
		c.ck.AddConjugationKey(c.kg.GenConjugationKey(s))
	}
	c.enc, c.dec, c.ev = NewEncryptor(c.p), NewDecryptor(c.p), NewEvaluator(c.p)
	return c
}

func (c *dctx) msg(f func(i int) complex128) *Message {
	m := NewMessage(c.p)
	for i := range m.Value {
		m.Value[i] = f(i)
	}
	return m
}

func (c *dctx) ct(id string, f func(i int) complex128) *Ciphertext {
	return c.enc.EncryptMsgNew(c.msg(f), c.pk.GetPublicKey(id))
}

func ddiff(a *Message, f func(i int) complex128) float64 {
	d := 0.0
	for i := range a.Value {
		if x := cmplx.Abs(a.Value[i] - f(i)); !(x <= d) {
			d = x
		}
	}
	return d
}

// near fails unless the ciphertext decrypts to f.
func (c *dctx) near(what string, ct *Ciphertext, f func(i int) complex128) error {
	if d := ddiff(c.dec.Decrypt(ct, c.sk), f); !(d < 1e-4) {
		return fmt.Errorf("%s: decrypts with error %g", what, d)
	}
	return nil
}

func fx(i int) complex128 { return complex(float64(i%7)/7, float64(i%5)/5-0.3) }
func fy(i int) complex128 { return complex(0.4-float64(i%11)/13, float64(i%3)/4) }
