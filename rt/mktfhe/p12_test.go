package mktfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func gdist[T ti](a, b mktfhe.GLWECiphertext[T]) float64 {
	m := 0.0
	for i := range a.Value {
		if d := ops.MaxDist(a.Value[i].Coeffs, b.Value[i].Coeffs); d > m {
			m = d
		}
	}
	return m
}

func comb[T ti](a, b mktfhe.GLWECiphertext[T], s T) mktfhe.GLWECiphertext[T] {
	o := a.Copy()
	for i := range o.Value {
		for j := range o.Value[i].Coeffs {
			o.Value[i].Coeffs[j] += s * b.Value[i].Coeffs[j]
		}
	}
	return o
}

func flat[T ti](c mktfhe.GLWECiphertext[T]) []T {
	var o []T
	for i := range c.Value {
		o = append(o, c.Value[i].Coeffs...)
	}
	return o
}

type prod12[T ti] struct {
	name                string
	plain, to, add, sub func(in, out mktfhe.GLWECiphertext[T])
}

func prods12[T ti](r *rt.R) {
	for _, n := range []int{1, 2, 3} {
		for _, N := range []int{16, 32} {
			p := mklit[T](n, 6, N, 1, 4, ksbr).Compile()
			w := newWorld(p)
			for _, set := range subsets(n) {
				evk := map[int]mktfhe.EvaluationKey[T]{}
				for _, i := range set {
					evk[i] = mktfhe.EvaluationKey[T]{CRSPublicKey: w.encs[i].GenCRSPublicKey(), RelinKey: w.encs[i].GenRelinKey()}
				}
				ev := mktfhe.NewEvaluator(p, evk)
				tol := extTol(p)
				for _, idx := range set {
					m := poly.NewPoly[T](N)
					for i := range m.Coeffs {
						m.Coeffs[i] = T(r.Intn(3)) - 1
					}
					uni := w.encs[idx].FFTUniEncryptPoly(m, p.Literal().RelinKeyParams.Compile())
					lev := tfhe.NewFFTGLevCiphertext(p.SubParams(), p.Literal().AccumulatorParams.Compile())
					w.encs[idx].SubEncryptor.EncryptFFTGLevPolyTo(lev, m)
					var hold mktfhe.GLWECiphertext[T]
					for _, pr := range []prod12[T]{
						{"hybrid", func(in, out mktfhe.GLWECiphertext[T]) { hold = ev.HybridProdGLWE(idx, uni, in) },
							func(in, out mktfhe.GLWECiphertext[T]) { ev.HybridProdGLWETo(idx, uni, in, out) },
							func(in, out mktfhe.GLWECiphertext[T]) { ev.HybridProdAddGLWETo(idx, uni, in, out) },
							func(in, out mktfhe.GLWECiphertext[T]) { ev.HybridProdSubGLWETo(idx, uni, in, out) }},
						{"external", func(in, out mktfhe.GLWECiphertext[T]) { hold = ev.ExternalProdGLWE(idx, lev, in) },
							func(in, out mktfhe.GLWECiphertext[T]) { ev.ExternalProdGLWETo(idx, lev, in, out) },
							func(in, out mktfhe.GLWECiphertext[T]) { ev.ExternalProdAddGLWETo(idx, lev, in, out) },
							func(in, out mktfhe.GLWECiphertext[T]) { ev.ExternalProdSubGLWETo(idx, lev, in, out) }},
					} {
						r.Case("bits=%d parties=%d set=%v N=%d idx=%d %s", bitsOf[T](), n, set, N, idx, pr.name)
						r.Try(func() {
							ct := randGLWE(r, p)
							masked(ct, set)
							in := flat(ct)
							pr.plain(ct, ct)
							o := hold
							want := ops.Mul(m.Coeffs, w.phaseGLWE(ct))
							if d := ops.MaxDist(w.phaseGLWE(o), want); d > tol {
								r.Fail("phase off by %g > %g", d, tol)
							}
							d0 := randGLWE(r, p)
							d := d0.Copy()
							pr.to(ct, d)
							if gdist(d, o) != 0 {
								r.Fail("To variant depends on the destination")
							}
							masked(d0, set)
							d = d0.Copy()
							pr.add(ct, d)
							if e := gdist(d, comb(d0, o, 1)); e > 2 {
								r.Fail("Add variant off by %g", e)
							}
							d = d0.Copy()
							pr.sub(ct, d)
							if e := gdist(d, comb(d0, o, ^T(0))); e > 2 {
								r.Fail("Sub variant off by %g", e)
							}
							if ops.Eq(flat(ct), in) != -1 {
								r.Fail("input modified")
							}
							a := ct.Copy()
							pr.to(a, a)
							if gdist(a, o) != 0 {
								r.Fail("To variant in place")
							}
							a = ct.Copy()
							pr.add(a, a)
							if e := gdist(a, comb(ct, o, 1)); e > 2 {
								r.Fail("Add variant in place off by %g", e)
							}
							a = ct.Copy()
							pr.sub(a, a)
							if e := gdist(a, comb(ct, o, ^T(0))); e > 2 {
								r.Fail("Sub variant in place off by %g", e)
							}
						})
					}
				}
			}
		}
	}
}

func TestVerifP12(t *testing.T) {
	rt.Run(t, "P12", "products64", prods12[uint64])
	rt.Run(t, "P12", "products32", prods12[uint32])
}
