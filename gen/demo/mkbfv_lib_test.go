package mkbfv

import (
	"fmt"

	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"
)

type dctx struct {
	p   Parameters
	kg  *KeyGenerator
	sk  *mkrlwe.SecretKeySet
	pk  *mkrlwe.PublicKeySet
	rl  *RelinearizationKeySet
	rk  *mkrlwe.RotationKeySet
	ck  *mkrlwe.ConjugationKeySet
	enc *Encryptor
	dec *Decryptor
	ev  *Evaluator
}

func dmk(nq, np int, ids ...string) *dctx {
	c := new(dctx)
	qs, ms, ps := PN15QP880.Q, PN15QP880.QMul, []uint64{0xffffffffffc0001, 0xfffffffff840001, 0xfffffffff6a0001, 0xfffffffff5a0001}
	c.p = NewParametersFromLiteral(ParametersLiteral{LogN: 11, Q: qs[:nq:nq], QMul: ms[:nq:nq], P: ps[:np:np], T: 65537, Sigma: rlwe.DefaultSigma})
	c.kg = NewKeyGenerator(c.p)
	c.sk, c.pk, c.rl = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet(), NewRelinearizationKeyKeySet(c.p)
	c.rk, c.ck = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		s, p := c.kg.GenKeyPair(id)
		r := c.kg.GenSecretKey(id)
		c.sk.AddSecretKey(s)
		c.pk.AddPublicKey(p)
		c.rl.AddRelinearizationKey(c.kg.GenRelinearizationKey(s, r))
		c.kg.GenDefaultRotationKeys(s, c.rk)
		c.ck.AddConjugationKey(c.kg.GenConjugationKey(s))
	}
	c.enc, c.dec, c.ev = NewEncryptor(c.p), NewDecryptor(c.p), NewEvaluator(c.p)
	return c
}

func (c *dctx) msg(f func(i int) int64) *Message {
	m := NewMessage(c.p)
	for i := range m.Value {
		m.Value[i] = f(i)
	}
	return m
}

func (c *dctx) ct(id string, f func(i int) int64) *Ciphertext {
	return c.enc.EncryptMsgNew(c.msg(f), c.pk.GetPublicKey(id))
}

// same fails unless the ciphertext decrypts to f modulo the plaintext modulus.
func (c *dctx) same(what string, ct *Ciphertext, f func(i int) int64) error {
	m := c.dec.Decrypt(ct, c.sk)
	t := int64(c.p.T())
	for i, v := range m.Value {
		if (v-f(i))%t != 0 {
			return fmt.Errorf("%s: slot %d decrypts to %d, not %d", what, i, v, f(i))
		}
	}
	return nil
}

func fx(i int) int64 { return int64(i%97 + 3) }
func fy(i int) int64 { return int64(i%89) - 40 }
