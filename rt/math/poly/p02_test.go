package poly_test

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
)

func p02Ops[T num.Integer](r *rt.R, tn string) {
	for N := poly.MinRank; N <= 2048; N *= 2 {
		ev := poly.NewEvaluator[T](N)
		mk := func() (poly.FFTPoly, []complex128) {
			c := make([]complex128, N/2)
			for i := range c {
				e := r.Intn(40)
				c[i] = complex(math.Ldexp(r.NormFloat64(), e), math.Ldexp(r.NormFloat64(), e))
			}
			f := ev.NewFFTPoly()
			vec.CmplxToFloat4To(f.Coeffs, c)
			return f, c
		}
		c0 := complex(r.NormFloat64(), r.NormFloat64())
		f0 := r.NormFloat64()
		type op struct {
			name string
			run  func(o, a, b poly.FFTPoly)
			ref  func(o, a, b complex128) complex128
		}
		for _, o := range []op{
			{"AddFFTPolyTo", ev.AddFFTPolyTo, func(o, a, b complex128) complex128 { return a + b }},
			{"SubFFTPolyTo", ev.SubFFTPolyTo, func(o, a, b complex128) complex128 { return a - b }},
			{"MulFFTPolyTo", ev.MulFFTPolyTo, func(o, a, b complex128) complex128 { return a * b }},
			{"MulAddFFTPolyTo", ev.MulAddFFTPolyTo, func(o, a, b complex128) complex128 { return o + a*b }},
			{"MulSubFFTPolyTo", ev.MulSubFFTPolyTo, func(o, a, b complex128) complex128 { return o - a*b }},
			{"NegFFTPolyTo", func(o, a, b poly.FFTPoly) { ev.NegFFTPolyTo(o, a) }, func(o, a, b complex128) complex128 { return -a }},
			{"FloatMulFFTPolyTo", func(o, a, b poly.FFTPoly) { ev.FloatMulFFTPolyTo(o, a, f0) }, func(o, a, b complex128) complex128 { return complex(f0, 0) * a }},
			{"FloatMulAddFFTPolyTo", func(o, a, b poly.FFTPoly) { ev.FloatMulAddFFTPolyTo(o, a, f0) }, func(o, a, b complex128) complex128 { return o + complex(f0, 0)*a }},
			{"FloatMulSubFFTPolyTo", func(o, a, b poly.FFTPoly) { ev.FloatMulSubFFTPolyTo(o, a, f0) }, func(o, a, b complex128) complex128 { return o - complex(f0, 0)*a }},
			{"CmplxMulFFTPolyTo", func(o, a, b poly.FFTPoly) { ev.CmplxMulFFTPolyTo(o, a, c0) }, func(o, a, b complex128) complex128 { return c0 * a }},
			{"CmplxMulAddFFTPolyTo", func(o, a, b poly.FFTPoly) { ev.CmplxMulAddFFTPolyTo(o, a, c0) }, func(o, a, b complex128) complex128 { return o + c0*a }},
			{"CmplxMulSubFFTPolyTo", func(o, a, b poly.FFTPoly) { ev.CmplxMulSubFFTPolyTo(o, a, c0) }, func(o, a, b complex128) complex128 { return o - c0*a }},
			{"AddFFTPoly", func(o, a, b poly.FFTPoly) { o.CopyFrom(ev.AddFFTPoly(a, b)) }, func(o, a, b complex128) complex128 { return a + b }},
			{"SubFFTPoly", func(o, a, b poly.FFTPoly) { o.CopyFrom(ev.SubFFTPoly(a, b)) }, func(o, a, b complex128) complex128 { return a - b }},
			{"MulFFTPoly", func(o, a, b poly.FFTPoly) { o.CopyFrom(ev.MulFFTPoly(a, b)) }, func(o, a, b complex128) complex128 { return a * b }},
			{"NegFFTPoly", func(o, a, b poly.FFTPoly) { o.CopyFrom(ev.NegFFTPoly(a)) }, func(o, a, b complex128) complex128 { return -a }},
			{"FloatMulFFTPoly", func(o, a, b poly.FFTPoly) { o.CopyFrom(ev.FloatMulFFTPoly(a, f0)) }, func(o, a, b complex128) complex128 { return complex(f0, 0) * a }},
			{"CmplxMulFFTPoly", func(o, a, b poly.FFTPoly) { o.CopyFrom(ev.CmplxMulFFTPoly(a, c0)) }, func(o, a, b complex128) complex128 { return c0 * a }},
		} {
			for alias := 0; alias < 4; alias++ {
				r.Case("%s %s N=%d alias=%d", tn, o.name, N, alias)
				fo, co := mk()
				fa, ca := mk()
				fb, cb := mk()
				switch alias {
				case 1:
					fa, ca = fo, co
				case 2:
					fb, cb = fo, co
				case 3:
					fa, ca, fb, cb = fo, co, fo, co
				}
				a0, b0 := fa.Copy(), fb.Copy()
				r.Try(func() {
					o.run(fo, fa, fb)
					g := vec.Float4ToCmplx(fo.Coeffs)
					for i := range g {
						w := o.ref(co[i], ca[i], cb[i])
						m := cmplx.Abs(ca[i])*(1+cmplx.Abs(cb[i])+cmplx.Abs(c0)+math.Abs(f0)) + cmplx.Abs(cb[i]) + cmplx.Abs(co[i])
						if cmplx.Abs(g[i]-w) > m*1e-14 {
							r.Fail("%s rank %d aliasing %d: entry %d is %v, complex arithmetic gives %v", o.name, N, alias, i, g[i], w)
							return
						}
					}
					if alias == 0 && (!fa.Equals(a0) || !fb.Equals(b0)) {
						r.Fail("%s changed an input", o.name)
					}
				})
			}
		}
	}
}

func TestVerifP02(t *testing.T) {
	rt.Run(t, "P02", fmt.Sprint("float-4 arithmetic uint64"), func(r *rt.R) { p02Ops[uint64](r, "uint64") })
	rt.Run(t, "P02", fmt.Sprint("float-4 arithmetic uint32"), func(r *rt.R) { p02Ops[uint32](r, "uint32") })
}
