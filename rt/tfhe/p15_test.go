package tfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/tfhe"
)

type gate15[T ti] struct {
	name string
	f    func(a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	to   func(o, a, b tfhe.LWECiphertext[T])
	tt   func(a, b bool) bool
}

func gates15[T ti](e *tfhe.BinaryEvaluator[T]) []gate15[T] {
	return []gate15[T]{
		{"AND", e.AND, e.ANDTo, func(a, b bool) bool { return a && b }},
		{"NAND", e.NAND, e.NANDTo, func(a, b bool) bool { return !(a && b) }},
		{"OR", e.OR, e.ORTo, func(a, b bool) bool { return a || b }},
		{"NOR", e.NOR, e.NORTo, func(a, b bool) bool { return !(a || b) }},
		{"XOR", e.XOR, e.XORTo, func(a, b bool) bool { return a != b }},
		{"XNOR", e.XNOR, e.XNORTo, func(a, b bool) bool { return a == b }},
	}
}

func gatesRun15[T ti](r *rt.R) {
	bits := bitsOf[T]()
	q := func(num, log int) T { return T(num) << (bits - log) }
	for _, c := range []struct{ n, k, N, ext, block int }{
		{2, 1, 256, 1, 1}, {2, 1, 256, 1, 2}, {2, 1, 64, 4, 1}, {4, 2, 256, 1, 4},
	} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			p := lit[T](c.n, c.k, c.N, c.ext, c.block, 0, order)
			p.MessageModulus = 2
			// the key switch must not use up the margin
			if bits == 64 {
				p.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 4, Level: 10}
			} else {
				p.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 3, Level: 10}
			}
			pp := p.Compile()
			enc := tfhe.NewBinaryEncryptor(pp)
			evk := enc.GenEvalKey()
			ev := tfhe.NewBinaryEvaluator(pp, evk)
			sk := dfltKey(enc.Encryptor)
			mk := func(ph T) tfhe.LWECiphertext[T] {
				ct := randLWE[T](r, len(sk))
				ct.Value[0] = 0
				ct.Value[0] = ph - phaseLWE(ct.Value, sk)
				return ct
			}
			sign := func(b bool) T {
				if b {
					return q(1, 3)
				}
				return -q(1, 3)
			}
			// just below a sixteenth, less the rounding of the modulus switch
			e := q(1, 4) - q(1, 8)
			nn := 2 + r.N(1)
			if nn > 4 {
				nn = 4
			}
			for v := 0; v < 4; v++ {
				a, b := v&1 == 1, v&2 == 2
				for _, n := range [][2]T{{e, e}, {-e, -e}, {e, -e}, {e / 2, 0}}[:nn] {
					for _, g := range gates15(ev) {
						r.Case("bits=%d %+v order=%v %s(%v,%v) noise=%d,%d", bits, c, order, g.name, a, b, sgn(n[0]), sgn(n[1]))
						r.Try(func() {
							x, y := mk(sign(a)+n[0]), mk(sign(b)+n[1])
							ix, iy := x.Copy(), y.Copy()
							o := g.f(x, y)
							if d := absf(sgn(phaseLWE(o.Value, sk) - sign(g.tt(a, b)))); d > float64(q(1, 7)) {
								r.Fail("output phase %g away from the encoding of %v", d, g.tt(a, b))
							}
							if enc.DecryptLWEBool(o) != g.tt(a, b) {
								r.Fail("decrypts to the wrong value")
							}
							if eqVec(x.Value, ix.Value) != -1 || eqVec(y.Value, iy.Value) != -1 {
								r.Fail("input modified")
							}
							z := randLWE[T](r, len(sk))
							g.to(z, x, y)
							if eqVec(z.Value, o.Value) != -1 {
								r.Fail("To variant differs")
							}
							g.to(x, x, y)
							if eqVec(x.Value, o.Value) != -1 {
								r.Fail("in place (first) differs")
							}
							g.to(y, ix, y)
							if eqVec(y.Value, o.Value) != -1 {
								r.Fail("in place (second) differs")
							}
						})
					}
				}
				r.Case("bits=%d %+v order=%v NOT(%v)", bits, c, order, a)
				r.Try(func() {
					x := mk(sign(a) + e)
					o := ev.NOT(x)
					if phaseLWE(o.Value, sk) != -phaseLWE(x.Value, sk) || enc.DecryptLWEBool(o) == a {
						r.Fail("NOT")
					}
					ev.NOTTo(x, x)
					if eqVec(x.Value, o.Value) != -1 {
						r.Fail("NOT in place")
					}
				})
			}
			var pub *tfhe.BinaryPublicEncryptor[T]
			if order == ksbr {
				pub = enc.PublicEncryptor()
			}
			ms := []int{0, 1, -1, 5, 0x1234, -77, 1 << 40, -1 << 63, 1<<63 - 1}
			for i := 0; i < r.N(10); i++ {
				ms = append(ms, int(r.Uint64()))
			}
			for i, m := range ms {
				nb := []int{0, 1, 3, 8, 16, 63, 64}[r.Intn(7)]
				if i < 7 {
					nb = []int{64, 1, 64, 2, 12, 8, 41}[i]
				}
				r.Case("bits=%d order=%v EncryptLWEBits(%d,%d)", bits, order, m, nb)
				r.Try(func() {
					want := m
					if nb < 64 {
						want = m & (1<<nb - 1)
					}
					ct := enc.EncryptLWEBits(m, nb)
					if len(ct) != nb {
						r.Fail("length %d", len(ct))
						return
					}
					for j := range ct {
						if enc.DecryptLWEBool(ct[j]) != (m>>j&1 == 1) {
							r.Fail("bit %d", j)
						}
					}
					if g := enc.DecryptLWEBits(ct); g != want {
						r.Fail("decrypts to %d", g)
					}
					enc.EncryptLWEBitsTo(ct, ^m)
					if g := enc.DecryptLWEBits(ct); g != want^enc.DecryptLWEBits(enc.EncryptLWEBits(-1, nb)) {
						r.Fail("EncryptLWEBitsTo decrypts to %d", g)
					}
					b := enc.EncryptLWEBool(m&1 == 1)
					enc.EncryptLWEBoolTo(b, m&1 == 0)
					if enc.DecryptLWEBool(b) != (m&1 == 0) {
						r.Fail("EncryptLWEBoolTo")
					}
					if pub != nil {
						ct = pub.EncryptLWEBits(m, nb)
						if len(ct) != nb || enc.DecryptLWEBits(ct) != want {
							r.Fail("public EncryptLWEBits")
						}
						pub.EncryptLWEBitsTo(ct, ^m)
						for j := range ct {
							if enc.DecryptLWEBool(ct[j]) == (m>>j&1 == 1) {
								r.Fail("public EncryptLWEBitsTo bit %d", j)
							}
						}
						b := pub.EncryptLWEBool(m&1 == 1)
						if enc.DecryptLWEBool(b) != (m&1 == 1) {
							r.Fail("public EncryptLWEBool")
						}
						pub.EncryptLWEBoolTo(b, m&1 == 0)
						if enc.DecryptLWEBool(b) != (m&1 == 0) {
							r.Fail("public EncryptLWEBoolTo")
						}
					}
				})
			}
		}
	}
}

func TestVerifP15(t *testing.T) {
	rt.Run(t, "P15", "gates64", gatesRun15[uint64])
	rt.Run(t, "P15", "gates32", gatesRun15[uint32])
}
