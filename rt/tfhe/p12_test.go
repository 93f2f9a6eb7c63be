package tfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

func smallPoly[T ti](r *rt.R, N int) poly.Poly[T] {
	p := poly.NewPoly[T](N)
	for i := range p.Coeffs {
		p.Coeffs[i] = T(r.Intn(7)) - 3
	}
	return p
}

func roundVec[T ti](x []T, lb, lv int) []T {
	o := make([]T, len(x))
	for i := range x {
		o[i] = roundGadget(x[i], lb, lv)
	}
	return o
}

// prodLWE12: gadget and external products of LWE ciphertexts are exact.
func prodLWE12[T ti](r *rt.R) {
	for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
		p := lit[T](6, 2, 16, 1, 1, 4, order).Compile()
		enc := tfhe.NewEncryptor(p)
		ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
		sk := dfltKey(enc)
		for _, g := range gadgetsFor[T](r) {
			gp := gad[T](g[0], g[1])
			for it := 0; it < 2; it++ {
				r.Case("lwe bits=%d order=%v gadget=%v it=%d", bitsOf[T](), order, g, it)
				r.Try(func() {
					m := T(r.Intn(5)) - 2
					lev := tfhe.NewLevCiphertext(p, gp)
					enc.EncryptLevScalarTo(lev, m)
					gsw := tfhe.NewGSWCiphertext(p, gp)
					enc.EncryptGSWScalarTo(gsw, m)
					kin := flatten(lev)
					kin2 := flatten(gsw)

					c := T(r.Word())
					o := ev.GadgetProdLWE(lev, c)
					if ph := phaseLWE(o.Value, sk); ph != roundGadget(c, g[0], g[1])*m {
						r.Fail("gadget product phase %d want %d (c=%d m=%d)", ph, roundGadget(c, g[0], g[1])*m, c, m)
					}
					d := randLWE[T](r, len(sk))
					d0 := d.Copy()
					ev.GadgetProdLWETo(d, lev, c)
					if eqVec(d.Value, o.Value) != -1 {
						r.Fail("GadgetProdLWETo depends on the destination")
					}
					d.CopyFrom(d0)
					ev.GadgetProdAddLWETo(d, lev, c)
					if eqVec(d.Value, addv(d0.Value, o.Value)) != -1 {
						r.Fail("GadgetProdAddLWETo")
					}
					d.CopyFrom(d0)
					ev.GadgetProdSubLWETo(d, lev, c)
					if eqVec(d.Value, subv(d0.Value, o.Value)) != -1 {
						r.Fail("GadgetProdSubLWETo")
					}

					ct := randLWE[T](r, len(sk))
					in := append([]T(nil), ct.Value...)
					o = ev.ExternalProdLWE(gsw, ct)
					want := phaseLWE(roundVec(ct.Value, g[0], g[1]), sk) * m
					if ph := phaseLWE(o.Value, sk); ph != want {
						r.Fail("external product phase %d want %d (m=%d)", ph, want, m)
					}
					d.CopyFrom(d0)
					ev.ExternalProdLWETo(d, gsw, ct)
					if eqVec(d.Value, o.Value) != -1 {
						r.Fail("ExternalProdLWETo depends on the destination")
					}
					d.CopyFrom(d0)
					ev.ExternalProdAddLWETo(d, gsw, ct)
					if eqVec(d.Value, addv(d0.Value, o.Value)) != -1 {
						r.Fail("ExternalProdAddLWETo")
					}
					d.CopyFrom(d0)
					ev.ExternalProdSubLWETo(d, gsw, ct)
					if eqVec(d.Value, subv(d0.Value, o.Value)) != -1 {
						r.Fail("ExternalProdSubLWETo")
					}
					if eqVec(ct.Value, in) != -1 || eqVec(flatten(lev), kin) != -1 || eqVec(flatten(gsw), kin2) != -1 {
						r.Fail("input modified")
					}
					// in place
					a := ct.Copy()
					ev.ExternalProdLWETo(a, gsw, a)
					if eqVec(a.Value, o.Value) != -1 {
						r.Fail("ExternalProdLWETo in place")
					}
					a = ct.Copy()
					ev.ExternalProdAddLWETo(a, gsw, a)
					if eqVec(a.Value, addv(ct.Value, o.Value)) != -1 {
						r.Fail("ExternalProdAddLWETo in place")
					}
					a = ct.Copy()
					ev.ExternalProdSubLWETo(a, gsw, a)
					if eqVec(a.Value, subv(ct.Value, o.Value)) != -1 {
						r.Fail("ExternalProdSubLWETo in place")
					}
				})
			}
		}
	}
}

func addG[T ti](a, b tfhe.GLWECiphertext[T], s T) tfhe.GLWECiphertext[T] {
	o := a.Copy()
	for i := range o.Value {
		for j := range o.Value[i].Coeffs {
			o.Value[i].Coeffs[j] += s * b.Value[i].Coeffs[j]
		}
	}
	return o
}

func gdist[T ti](a, b tfhe.GLWECiphertext[T]) float64 {
	m := 0.0
	for i := range a.Value {
		if d := maxDist(a.Value[i].Coeffs, b.Value[i].Coeffs); d > m {
			m = d
		}
	}
	return m
}

func prodGLWE12[T ti](r *rt.R) {
	for _, c := range [][2]int{{1, 16}, {2, 16}, {3, 32}, {1, 128}} {
		k, N := c[0], c[1]
		p := lit[T](6, k, N, 1, 1, 4, ksbr).Compile()
		enc := tfhe.NewEncryptor(p)
		ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
		sk := enc.SecretKey.GLWEKey
		for _, g := range [][2]int{{7, 3}, {4, 6}, {10, 2}, {12, 1}, {3, 1}} {
			gp := gad[T](g[0], g[1])
			for it := 0; it < r.N(2); it++ {
				r.Case("glwe bits=%d k=%d N=%d gadget=%v it=%d", bitsOf[T](), k, N, g, it)
				r.Try(func() {
					m := smallPoly[T](r, N)
					m1 := 0.0
					for _, x := range m.Coeffs {
						m1 += absf(sgn(x))
					}
					lev := tfhe.NewFFTGLevCiphertext(p, gp)
					enc.EncryptFFTGLevPolyTo(lev, m)
					gsw := tfhe.NewFFTGGSWCiphertext(p, gp)
					enc.EncryptFFTGGSWPolyTo(gsw, m)
					kin, kin2 := flatten(lev), flatten(gsw)
					x := poly.NewPoly[T](N)
					randVec(r, x.Coeffs)
					xin := append([]T(nil), x.Coeffs...)
					tol := prodTol[T](N, g[1]*(k+1)*N, g[0])
					xr := roundVec(x.Coeffs, g[0], g[1])

					o := ev.GadgetProdGLWE(lev, x)
					if d := maxDist(phaseGLWE(o, sk), refMul(xr, m.Coeffs)); d > tol {
						r.Fail("gadget product phase off by %g > %g", d, tol)
					}
					d0 := randGLWE[T](r, k, N)
					d := d0.Copy()
					ev.GadgetProdGLWETo(d, lev, x)
					if eqVec(flatten(d), flatten(o)) != -1 {
						r.Fail("GadgetProdGLWETo depends on the destination")
					}
					d.CopyFrom(d0)
					ev.GadgetProdAddGLWETo(d, lev, x)
					if gdist(d, addG(d0, o, 1)) > 0 {
						r.Fail("GadgetProdAddGLWETo")
					}
					d.CopyFrom(d0)
					ev.GadgetProdSubGLWETo(d, lev, x)
					if gdist(d, addG(d0, o, ^T(0))) > 1 {
						r.Fail("GadgetProdSubGLWETo")
					}
					// product with an input that is part of the destination
					d.CopyFrom(d0)
					ref := ev.GadgetProdGLWE(lev, d0.Value[0])
					ev.GadgetProdGLWETo(d, lev, d.Value[0])
					if gdist(d, ref) > 0 {
						r.Fail("GadgetProdGLWETo in place")
					}

					// Fourier variants
					fd := func(q poly.Poly[T]) []poly.FFTPoly {
						z := make([]poly.FFTPoly, g[1])
						for i := range z {
							z[i] = poly.NewFFTPoly(N)
						}
						ev.Decomposer.FourierDecomposePolyTo(z, q, gp)
						return z
					}
					xd := fd(x)
					fo := tfhe.NewFFTGLWECiphertext(p)
					fill(r, &fo)
					f0 := randGLWE[T](r, k, N)
					ev.GadgetProdFFTGLWETo(fo, lev, xd)
					if e := gdist(ev.InvFFTGLWECiphertext(fo), o); e > tol {
						r.Fail("GadgetProdFFTGLWETo off by %g", e)
					}
					ff := ev.FwdFFTGLWECiphertext(f0)
					ev.GadgetProdAddFFTGLWETo(ff, lev, xd)
					if e := gdist(ev.InvFFTGLWECiphertext(ff), addG(f0, o, 1)); e > 2*tol+fftTol[T](N, k) {
						r.Fail("GadgetProdAddFFTGLWETo off by %g", e)
					}
					ff = ev.FwdFFTGLWECiphertext(f0)
					ev.GadgetProdSubFFTGLWETo(ff, lev, xd)
					if e := gdist(ev.InvFFTGLWECiphertext(ff), addG(f0, o, ^T(0))); e > 2*tol+fftTol[T](N, k) {
						r.Fail("GadgetProdSubFFTGLWETo off by %g", e)
					}

					ct := randGLWE[T](r, k, N)
					cin := flatten(ct)
					cr := ct.Copy()
					for i := range cr.Value {
						cr.Value[i].Coeffs = roundVec(ct.Value[i].Coeffs, g[0], g[1])
					}
					want := refMul(phaseGLWE(cr, sk), m.Coeffs)
					o = ev.ExternalProdGLWE(gsw, ct)
					if e := maxDist(phaseGLWE(o, sk), want); e > tol {
						r.Fail("external product phase off by %g > %g", e, tol)
					}
					d.CopyFrom(d0)
					ev.ExternalProdGLWETo(d, gsw, ct)
					if gdist(d, o) > 0 {
						r.Fail("ExternalProdGLWETo depends on the destination")
					}
					d.CopyFrom(d0)
					ev.ExternalProdAddGLWETo(d, gsw, ct)
					if gdist(d, addG(d0, o, 1)) > 0 {
						r.Fail("ExternalProdAddGLWETo")
					}
					d.CopyFrom(d0)
					ev.ExternalProdSubGLWETo(d, gsw, ct)
					if gdist(d, addG(d0, o, ^T(0))) > 1 {
						r.Fail("ExternalProdSubGLWETo")
					}
					for v, f := range []func(a, b tfhe.GLWECiphertext[T]){
						func(a, b tfhe.GLWECiphertext[T]) { ev.ExternalProdGLWETo(a, gsw, b) },
						func(a, b tfhe.GLWECiphertext[T]) { ev.ExternalProdAddGLWETo(a, gsw, b) },
						func(a, b tfhe.GLWECiphertext[T]) { ev.ExternalProdSubGLWETo(a, gsw, b) },
					} {
						a, b := ct.Copy(), ct.Copy()
						f(a, a)
						f(b, ct)
						if gdist(a, b) > 0 {
							r.Fail("external product variant %d in place", v)
						}
					}
					var dc [][]poly.FFTPoly
					for i := range ct.Value {
						dc = append(dc, fd(ct.Value[i]))
					}
					fill(r, &fo)
					ev.ExternalProdFFTGLWETo(fo, gsw, dc)
					if e := gdist(ev.InvFFTGLWECiphertext(fo), o); e > tol {
						r.Fail("ExternalProdFFTGLWETo off by %g", e)
					}
					ff = ev.FwdFFTGLWECiphertext(f0)
					ev.ExternalProdAddFFTGLWETo(ff, gsw, dc)
					if e := gdist(ev.InvFFTGLWECiphertext(ff), addG(f0, o, 1)); e > 2*tol+fftTol[T](N, k) {
						r.Fail("ExternalProdAddFFTGLWETo off by %g", e)
					}
					ff = ev.FwdFFTGLWECiphertext(f0)
					ev.ExternalProdSubFFTGLWETo(ff, gsw, dc)
					if e := gdist(ev.InvFFTGLWECiphertext(ff), addG(f0, o, ^T(0))); e > 2*tol+fftTol[T](N, k) {
						r.Fail("ExternalProdSubFFTGLWETo off by %g", e)
					}
					if eqVec(flatten(ct), cin) != -1 || eqVec(x.Coeffs, xin) != -1 || eqVec(flatten(lev), kin) != -1 || eqVec(flatten(gsw), kin2) != -1 {
						r.Fail("input modified")
					}

					// CMux
					round := gadTol[T](g[0], g[1]) * float64(k*N+1)
					for bit := 0; bit < 2; bit++ {
						one := poly.NewPoly[T](N)
						one.Coeffs[0] = T(bit)
						sel := tfhe.NewFFTGGSWCiphertext(p, gp)
						enc.EncryptFFTGGSWPolyTo(sel, one)
						sin := flatten(sel)
						x0, x1 := randGLWE[T](r, k, N), randGLWE[T](r, k, N)
						i0, i1 := flatten(x0), flatten(x1)
						w := phaseGLWE(x0, sk)
						if bit == 1 {
							w = phaseGLWE(x1, sk)
						}
						o := ev.CMux(sel, x0, x1)
						if e := maxDist(phaseGLWE(o, sk), w); e > tol+float64(bit)*round {
							r.Fail("CMux(%d) phase off by %g", bit, e)
						}
						if eqVec(flatten(x0), i0) != -1 || eqVec(flatten(x1), i1) != -1 || eqVec(flatten(sel), sin) != -1 {
							r.Fail("CMux modified an input")
						}
						d.CopyFrom(d0)
						ev.CMuxTo(d, sel, x0, x1)
						if gdist(d, o) > 0 {
							r.Fail("CMuxTo depends on the destination")
						}
						a := x0.Copy()
						ev.CMuxTo(a, sel, a, x1)
						if gdist(a, o) > 0 {
							r.Fail("CMuxTo with the destination as first input differs")
						}
						a = x1.Copy()
						ev.CMuxTo(a, sel, x0, a)
						if gdist(a, o) > 0 {
							r.Fail("CMuxTo with the destination as second input differs")
						}
					}
				})
			}
		}
	}
}

func TestVerifP12(t *testing.T) {
	rt.Run(t, "P12", "lwe64", prodLWE12[uint64])
	rt.Run(t, "P12", "lwe32", prodLWE12[uint32])
	rt.Run(t, "P12", "glwe64", prodGLWE12[uint64])
	rt.Run(t, "P12", "glwe32", prodGLWE12[uint32])
}
