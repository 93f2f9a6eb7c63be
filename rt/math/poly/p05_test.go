package poly_test

import (
	"math"
	"math/cmplx"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

func p05Type[T num.Integer](r *rt.R, tn string, maxN int) {
	bits := num.SizeT[T]()
	for N := poly.MinRank; N <= maxN; N *= 2 {
		ev := poly.NewEvaluator[T](N)
		if ev.Rank() != N {
			r.Fail("Rank of evaluator")
		}
		sb := bits - 2 // exact range of the float transform
		if sb > 40 {
			sb = 40
		}
		eps := func(a, b float64) float64 { return a*b*float64(N)*math.Exp2(-49) + 0 }
		check := func(name string, g, want []T, tol float64) {
			if m, i := dist(g, want); m > tol {
				r.Fail("%s[%s] rank %d: coefficient %d is %v, ring operation gives %v", name, tn, N, i, g[i], want[i])
			}
		}
		add := func(a, b []T, s int) []T {
			o := make([]T, len(a))
			for i := range a {
				if s > 0 {
					o[i] = a[i] + b[i]
				} else {
					o[i] = a[i] - b[i]
				}
			}
			return o
		}
		reps := r.N(1)
		if N <= 256 {
			reps = r.N(4)
		}
		for rep := 0; rep < reps && r.More(); rep++ {
			// round trip
			r.Case("%s N=%d roundtrip %d", tn, N, rep)
			r.Try(func() {
				p := smallPoly[T](r, N, sb)
				p0 := p.Copy()
				f := ev.FwdFFT(p)
				f0 := f.Copy()
				check("InvFFT(FwdFFT(p))", ev.InvFFT(f).Coeffs, p.Coeffs, 0)
				if !p.Equals(p0) || !f.Equals(f0) {
					r.Fail("transform changed its input")
				}
				o := randPoly[T](r, N)
				o0 := o.Copy()
				ev.InvFFTAddTo(o, f)
				check("InvFFTAddTo", o.Coeffs, add(o0.Coeffs, p.Coeffs, 1), 0)
				o.CopyFrom(o0)
				ev.InvFFTSubTo(o, f)
				check("InvFFTSubTo", o.Coeffs, add(o0.Coeffs, p.Coeffs, -1), 0)
				if !f.Equals(f0) {
					r.Fail("InvFFTAddTo or InvFFTSubTo changed its input")
				}
				o.CopyFrom(o0)
				ev.InvFFTTo(o, f)
				check("InvFFTTo", o.Coeffs, p.Coeffs, 0)
				o.CopyFrom(o0)
				ev.InvFFTAddToUnsafe(o, f.Copy())
				check("InvFFTAddToUnsafe", o.Coeffs, add(o0.Coeffs, p.Coeffs, 1), 0)
				o.CopyFrom(o0)
				ev.InvFFTSubToUnsafe(o, f.Copy())
				check("InvFFTSubToUnsafe", o.Coeffs, add(o0.Coeffs, p.Coeffs, -1), 0)
				o.CopyFrom(o0)
				ev.InvFFTToUnsafe(o, f.Copy())
				check("InvFFTToUnsafe", o.Coeffs, p.Coeffs, 0)
				q := smallPoly[T](r, N, sb-1)
				p = smallPoly[T](r, N, sb-1)
				f = ev.FwdFFT(p)
				g := f.Copy()
				ev.FwdFFTAddTo(g, q)
				check("FwdFFTAddTo", ev.InvFFT(g).Coeffs, add(p.Coeffs, q.Coeffs, 1), 0)
				g = f.Copy()
				ev.FwdFFTSubTo(g, q)
				check("FwdFFTSubTo", ev.InvFFT(g).Coeffs, add(p.Coeffs, q.Coeffs, -1), 0)
				g = ev.NewFFTPoly()
				ev.FwdFFTTo(g, q)
				check("FwdFFTTo", ev.InvFFT(g).Coeffs, q.Coeffs, 0)
				check("AddFFTPoly", ev.InvFFT(ev.AddFFTPoly(f, g)).Coeffs, add(p.Coeffs, q.Coeffs, 1), 0)
				check("SubFFTPoly", ev.InvFFT(ev.SubFFTPoly(f, g)).Coeffs, add(p.Coeffs, q.Coeffs, -1), 0)
				check("NegFFTPoly", ev.InvFFT(ev.NegFFTPoly(f)).Coeffs, add(make([]T, N), p.Coeffs, -1), 0)
				// full-size coefficients
				p = randPoly[T](r, N)
				check("InvFFT(FwdFFT(p)) full range", ev.InvFFT(ev.FwdFFT(p)).Coeffs, p.Coeffs, math.Floor(math.Exp2(float64(bits)-48)))
			})
			// exact products
			r.Case("%s N=%d product %d", tn, N, rep)
			r.Try(func() {
				a, b, o := randPoly[T](r, N), randPoly[T](r, N), randPoly[T](r, N)
				if rep%3 == 1 { // extreme operands
					for i := range a.Coeffs {
						a.Coeffs[i], b.Coeffs[i] = ^T(0), ^T(0)
						if num.IsSigned[T]() {
							a.Coeffs[i] = T(num.MaxT[T]())
							b.Coeffs[i] = T(num.MinT[T]())
						}
					}
				}
				a0, b0, o0 := a.Copy(), b.Copy(), o.Copy()
				want := refMul(a.Coeffs, b.Coeffs)
				check("MulPoly", ev.MulPoly(a, b).Coeffs, want, 0)
				ev.MulPolyTo(o, a, b)
				check("MulPolyTo", o.Coeffs, want, 0)
				o.CopyFrom(o0)
				ev.MulAddPolyTo(o, a, b)
				check("MulAddPolyTo", o.Coeffs, add(o0.Coeffs, want, 1), 0)
				o.CopyFrom(o0)
				ev.MulSubPolyTo(o, a, b)
				check("MulSubPolyTo", o.Coeffs, add(o0.Coeffs, want, -1), 0)
				if !a.Equals(a0) || !b.Equals(b0) {
					r.Fail("product changed an input")
				}
				x := a.Copy()
				ev.MulPolyTo(x, x, b)
				check("MulPolyTo in place", x.Coeffs, want, 0)
				// short operand
				s := smallPoly[T](r, N, num.Min(poly.ShortLogBound-1, bits-2))
				fs := ev.FwdFFT(s)
				fs0 := fs.Copy()
				want = refMul(a.Coeffs, s.Coeffs)
				check("ShortFFTPolyMulPoly", ev.ShortFFTPolyMulPoly(a, fs).Coeffs, want, 0)
				o.CopyFrom(o0)
				ev.ShortFFTPolyMulPolyTo(o, a, fs)
				check("ShortFFTPolyMulPolyTo", o.Coeffs, want, 0)
				o.CopyFrom(o0)
				ev.ShortFFTPolyMulAddPolyTo(o, a, fs)
				check("ShortFFTPolyMulAddPolyTo", o.Coeffs, add(o0.Coeffs, want, 1), 0)
				o.CopyFrom(o0)
				ev.ShortFFTPolyMulSubPolyTo(o, a, fs)
				check("ShortFFTPolyMulSubPolyTo", o.Coeffs, add(o0.Coeffs, want, -1), 0)
				if !a.Equals(a0) || !fs.Equals(fs0) {
					r.Fail("short product changed an input")
				}
			})
			// Fourier products within the exact range
			r.Case("%s N=%d fourier product %d", tn, N, rep)
			r.Try(func() {
				ab := num.Min(bits-1, 22)
				a, b, c := smallPoly[T](r, N, ab-1), smallPoly[T](r, N, num.Min(bits-2, 8)), smallPoly[T](r, N, num.Min(bits-2, 8))
				fa, fb, fc := ev.FwdFFT(a), ev.FwdFFT(b), ev.FwdFFT(c)
				ab0, cb0 := refMul(a.Coeffs, b.Coeffs), refMul(c.Coeffs, b.Coeffs)
				tol := math.Floor(2 * eps(math.Exp2(float64(ab)), 256))
				o := randPoly[T](r, N)
				o0 := o.Copy()
				check("FFTPolyMulPoly", ev.FFTPolyMulPoly(a, fb).Coeffs, ab0, tol)
				ev.FFTPolyMulPolyTo(o, a, fb)
				check("FFTPolyMulPolyTo", o.Coeffs, ab0, tol)
				o.CopyFrom(o0)
				ev.FFTPolyMulAddPolyTo(o, a, fb)
				check("FFTPolyMulAddPolyTo", o.Coeffs, add(o0.Coeffs, ab0, 1), tol)
				o.CopyFrom(o0)
				ev.FFTPolyMulSubPolyTo(o, a, fb)
				check("FFTPolyMulSubPolyTo", o.Coeffs, add(o0.Coeffs, ab0, -1), tol)
				check("PolyMulFFTPoly", ev.InvFFT(ev.PolyMulFFTPoly(fb, a)).Coeffs, ab0, tol)
				g := ev.NewFFTPoly()
				ev.PolyMulFFTPolyTo(g, fb, a)
				check("PolyMulFFTPolyTo", ev.InvFFT(g).Coeffs, ab0, tol)
				g = fc.Copy()
				ev.PolyMulAddFFTPolyTo(g, fb, a)
				check("PolyMulAddFFTPolyTo", ev.InvFFT(g).Coeffs, add(c.Coeffs, ab0, 1), tol)
				g = fc.Copy()
				ev.PolyMulSubFFTPolyTo(g, fb, a)
				check("PolyMulSubFFTPolyTo", ev.InvFFT(g).Coeffs, add(c.Coeffs, ab0, -1), tol)
				check("MulFFTPoly", ev.InvFFT(ev.MulFFTPoly(fa, fb)).Coeffs, ab0, tol)
				g = fa.Copy()
				ev.MulAddFFTPolyTo(g, fb, fc)
				check("MulAddFFTPolyTo", ev.InvFFT(g).Coeffs, add(a.Coeffs, cb0, 1), tol)
				g = fa.Copy()
				ev.MulSubFFTPolyTo(g, fb, fc)
				check("MulSubFFTPolyTo", ev.InvFFT(g).Coeffs, add(a.Coeffs, cb0, -1), tol)
				k := int64(r.Intn(200) - 100)
				ka := make([]T, N)
				for i := range ka {
					ka[i] = T(k) * a.Coeffs[i]
				}
				check("FloatMulFFTPoly", ev.InvFFT(ev.FloatMulFFTPoly(fa, float64(k))).Coeffs, ka, tol)
				// multiplication by i is multiplication by X^(N/2)
				g = ev.NewFFTPoly()
				ev.CmplxMulFFTPolyTo(g, fa, complex(0, 1))
				ix := refMono(a.Coeffs, N/2)
				jx := refMono(a.Coeffs, -N/2)
				got := ev.InvFFT(g).Coeffs
				if m, _ := dist(got, ix); m > tol {
					check("CmplxMulFFTPolyTo by i", got, jx, tol)
				}
			})
			ds := []int{0, 1, -1, 3, N/2 + 1, N - 1, N, N + 1, 2*N - 1, 2 * N, 2*N + 1, -N, -N - 1, 4*N + 3, -5*N + 1}
			if N <= 64 && rep == 0 {
				for d := -2 * N; d < 4*N; d++ {
					ds = append(ds, d)
				}
			}
			for i := 0; i < 6; i++ {
				ds = append(ds, r.Intn(8*N)-4*N)
			}
			a, b := smallPoly[T](r, N, num.Min(sb-1, 20)), smallPoly[T](r, N, num.Min(sb-1, 20))
			fa, fb := ev.FwdFFT(a), ev.FwdFFT(b)
			for _, d := range ds {
				r.Case("%s N=%d exponent %d", tn, N, d)
				r.Try(func() {
					one := make([]T, N)
					one[0] = 1
					xd := refMono(one, d)
					check("MonomialFwdFFT", ev.InvFFT(ev.MonomialFwdFFT(d)).Coeffs, xd, 0)
					g := fa.Copy()
					ev.MonomialFwdFFTTo(g, d)
					check("MonomialFwdFFTTo", ev.InvFFT(g).Coeffs, xd, 0)
					m1 := add(xd, one, -1)
					check("MonomialSubOneFwdFFT", ev.InvFFT(ev.MonomialSubOneFwdFFT(d)).Coeffs, m1, 0)
					g = fa.Copy()
					ev.MonomialSubOneFwdFFTTo(g, d)
					check("MonomialSubOneFwdFFTTo", ev.InvFFT(g).Coeffs, m1, 0)
					h := ev.MulFFTPoly(fa, ev.MonomialFwdFFT(d))
					check("multiplication by MonomialFwdFFT", ev.InvFFT(h).Coeffs, refMono(a.Coeffs, d), 0)
					if d&1 == 0 {
						if !rt.Panics(func() { ev.PermuteFFTPoly(fa, d) }) || !rt.Panics(func() { ev.PermuteAddFFTPolyTo(fb.Copy(), fa, d) }) || !rt.Panics(func() { ev.PermuteSubFFTPolyTo(fb.Copy(), fa, d) }) || !rt.Panics(func() { ev.PermuteFFTPolyInPlace(fa.Copy(), d) }) {
							r.Fail("Fourier automorphism accepts even exponent %d", d)
						}
						return
					}
					w := refAuto(a.Coeffs, d)
					f0 := fa.Copy()
					check("PermuteFFTPoly", ev.InvFFT(ev.PermuteFFTPoly(fa, d)).Coeffs, w, 0)
					g = fb.Copy()
					ev.PermuteFFTPolyTo(g, fa, d)
					check("PermuteFFTPolyTo", ev.InvFFT(g).Coeffs, w, 0)
					g = fb.Copy()
					ev.PermuteAddFFTPolyTo(g, fa, d)
					check("PermuteAddFFTPolyTo", ev.InvFFT(g).Coeffs, add(b.Coeffs, w, 1), 0)
					g = fb.Copy()
					ev.PermuteSubFFTPolyTo(g, fa, d)
					check("PermuteSubFFTPolyTo", ev.InvFFT(g).Coeffs, add(b.Coeffs, w, -1), 0)
					if !fa.Equals(f0) {
						r.Fail("Fourier automorphism changed its input")
					}
					g = fa.Copy()
					ev.PermuteFFTPolyInPlace(g, d)
					check("PermuteFFTPolyInPlace", ev.InvFFT(g).Coeffs, w, 0)
				})
			}
		}
	}
	_ = cmplx.Abs
}

func TestVerifP05(t *testing.T) {
	rt.Run(t, "P05", "uint32", func(r *rt.R) { p05Type[uint32](r, "uint32", 4096) })
	rt.Run(t, "P05", "uint64", func(r *rt.R) { p05Type[uint64](r, "uint64", 4096) })
	rt.Run(t, "P05", "int64", func(r *rt.R) { p05Type[int64](r, "int64", 512) })
	rt.Run(t, "P05", "int32", func(r *rt.R) { p05Type[int32](r, "int32", 512) })
	rt.Run(t, "P05", "uint8", func(r *rt.R) { p05Type[uint8](r, "uint8", 256) })
	rt.Run(t, "P05", "int16", func(r *rt.R) { p05Type[int16](r, "int16", 256) })
}
