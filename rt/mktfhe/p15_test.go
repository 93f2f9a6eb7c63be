package mktfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

type gate15[T ti] struct {
	name string
	f    func(a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T]
	to   func(o, a, b mktfhe.LWECiphertext[T])
	pf   func(a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T]
	pto  func(o, a, b mktfhe.LWECiphertext[T])
	tt   func(a, b bool) bool
}

func gates15[T ti](e *mktfhe.BinaryEvaluator[T]) []gate15[T] {
	return []gate15[T]{
		{"AND", e.AND, e.ANDTo, e.ANDParallel, e.ANDParallelTo, func(a, b bool) bool { return a && b }},
		{"NAND", e.NAND, e.NANDTo, e.NANDParallel, e.NANDParallelTo, func(a, b bool) bool { return !(a && b) }},
		{"OR", e.OR, e.ORTo, e.ORParallel, e.ORParallelTo, func(a, b bool) bool { return a || b }},
		{"NOR", e.NOR, e.NORTo, e.NORParallel, e.NORParallelTo, func(a, b bool) bool { return !(a || b) }},
		{"XOR", e.XOR, e.XORTo, e.XORParallel, e.XORParallelTo, func(a, b bool) bool { return a != b }},
		{"XNOR", e.XNOR, e.XNORTo, e.XNORParallel, e.XNORParallelTo, func(a, b bool) bool { return a == b }},
	}
}

func gatesRun15[T ti](r *rt.R) {
	bits := bitsOf[T]()
	q := func(num, log int) T { return T(num) << (bits - log) }
	for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
		for _, n := range []int{2, 1, 3}[:2+(r.N(1)-1)%2] {
			p := mklit[T](n, 2, 256, 1+n%2, 2, order)
			if bits == 64 {
				p.SubParams.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 4, Level: 10}
			} else {
				p.SubParams.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 3, Level: 10}
				g := tfhe.GadgetParametersLiteral[T]{Base: 1 << 5, Level: 6}
				p.SubParams.BlindRotateParams, p.AccumulatorParams, p.RelinKeyParams = g, g, g
			}
			pp := p.Compile()
			w := newWorld(pp)
			all := subsets(n)[0]
			ev := mktfhe.NewBinaryEvaluator(pp, w.evks(all...))
			sks := map[int]tfhe.SecretKey[T]{}
			for i, e := range w.encs {
				sks[i] = e.SecretKey
			}
			dec := mktfhe.NewBinaryDecryptor(pp, sks)
			mk := func(ph T) mktfhe.LWECiphertext[T] {
				ct := mktfhe.NewLWECiphertext(pp)
				ops.RandVec(r, ct.Value)
				ct.Value[0] = 0
				ct.Value[0] = ph - w.phaseLWE(ct.Value)
				return ct
			}
			sign := func(b bool) T {
				if b {
					return q(1, 3)
				}
				return -q(1, 3)
			}
			e := q(1, 4) - q(3, 8)
			nn := 2 + r.N(1)
			if nn > 4 {
				nn = 4
			}
			for v := 0; v < 4; v++ {
				a, b := v&1 == 1, v&2 == 2
				for _, ns := range [][2]T{{e, e}, {-e, -e}, {e, -e}, {e / 2, 0}}[:nn] {
					for gi, g := range gates15(ev) {
						r.Case("bits=%d parties=%d order=%v %s(%v,%v) noise=%d,%d", bits, n, order, g.name, a, b, ops.Sgn(ns[0]), ops.Sgn(ns[1]))
						r.Try(func() {
							x, y := mk(sign(a)+ns[0]), mk(sign(b)+ns[1])
							ix, iy := x.Copy(), y.Copy()
							o := g.f(x, y)
							if d := ops.Abs(ops.Sgn(w.phaseLWE(o.Value) - sign(g.tt(a, b)))); d > float64(q(1, 5)) {
								r.Fail("output phase %g away from the encoding of %v", d, g.tt(a, b))
							}
							if dec.DecryptLWEBool(o) != g.tt(a, b) {
								r.Fail("decrypts to the wrong value")
							}
							if ops.Eq(x.Value, ix.Value) != -1 || ops.Eq(y.Value, iy.Value) != -1 {
								r.Fail("input modified")
							}
							z := mktfhe.NewLWECiphertext(pp)
							ops.RandVec(r, z.Value)
							g.pto(z, x, y)
							if ops.Eq(z.Value, o.Value) != -1 {
								r.Fail("ParallelTo variant differs")
							}
							if (v+gi)%2 == 0 {
								g.to(x, x, y)
								if ops.Eq(x.Value, o.Value) != -1 {
									r.Fail("in place (first) differs")
								}
							} else {
								g.to(y, ix, y)
								if ops.Eq(y.Value, o.Value) != -1 {
									r.Fail("in place (second) differs")
								}
								if q := g.pf(ix, iy); ops.Eq(q.Value, o.Value) != -1 {
									r.Fail("Parallel variant differs")
								}
							}
						})
					}
				}
				r.Case("bits=%d parties=%d order=%v NOT(%v)", bits, n, order, a)
				r.Try(func() {
					x := mk(sign(a) + e)
					o := ev.NOT(x)
					if w.phaseLWE(o.Value) != -w.phaseLWE(x.Value) || dec.DecryptLWEBool(o) == a {
						r.Fail("NOT")
					}
					ev.NOTTo(x, x)
					if ops.Eq(x.Value, o.Value) != -1 {
						r.Fail("NOT in place")
					}
				})
			}
			for i := 0; i < n; i++ {
				enc := mktfhe.NewBinaryEncryptorWithKey(pp, i, []byte("crs"), w.encs[i].SecretKey)
				for k, m := range []int{0, 1, -1, 5, 0x1234, -77, 1 << 40, -1 << 63, 1<<63 - 1} {
					nb := []int{64, 1, 64, 2, 12, 8, 41, 64, 63}[k]
					r.Case("bits=%d parties=%d order=%v party %d EncryptLWEBits(%d,%d)", bits, n, order, i, m, nb)
					r.Try(func() {
						want := m
						if nb < 64 {
							want = m & (1<<nb - 1)
						}
						cts := [][]mktfhe.LWECiphertext[T]{enc.EncryptLWEBits(m, nb)}
						if order == ksbr {
							cts = append(cts, enc.PublicEncryptor().EncryptLWEBits(m, nb))
						}
						for kind, ct := range cts {
							if len(ct) != nb {
								r.Fail("length %d", len(ct))
								return
							}
							for j := range ct {
								b := m>>j&1 == 1
								if d := ops.Abs(ops.Sgn(w.phaseLWE(ct[j].Value) - sign(b))); d > float64(q(1, 5)) || dec.DecryptLWEBool(ct[j]) != b {
									r.Fail("kind %d bit %d", kind, j)
									return
								}
							}
							if g := dec.DecryptLWEBits(ct); g != want {
								r.Fail("kind %d decrypts to %d", kind, g)
							}
						}
					})
				}
			}
		}
	}
}

func TestVerifP15(t *testing.T) {
	rt.Run(t, "P15", "gates64", gatesRun15[uint64])
	rt.Run(t, "P15", "gates32", gatesRun15[uint32])
}
