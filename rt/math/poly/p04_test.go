package poly_test

import (
	"math"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

func p04Type[T num.Integer](r *rt.R, tn string) {
	for N := poly.MinRank; N <= 4096; N *= 2 {
		ev := poly.NewEvaluator[T](N)
		sc := func() T { return T(r.Word()) }
		zip := func(f func(o, a, b T) T, o, a, b []T) []T {
			w := make([]T, N)
			for i := range w {
				w[i] = f(o[i], a[i], b[i])
			}
			return w
		}
		type op struct {
			name string
			run  func(o, a, b poly.Poly[T], c T, d int)
			ref  func(o, a, b []T, c T, d int) []T
			deg  int // 0: no exponent, 1: any exponent, 2: odd exponent
			ali  bool
		}
		none := make([]T, N)
		ops := []op{
			{"AddPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.AddPolyTo(o, a, b) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return a + b }, o, a, b)
			}, 0, true},
			{"SubPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.SubPolyTo(o, a, b) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return a - b }, o, a, b)
			}, 0, true},
			{"NegPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.NegPolyTo(o, a) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return -a }, o, a, b)
			}, 0, true},
			{"ScalarMulPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.ScalarMulPolyTo(o, a, c) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return c * a }, o, a, b)
			}, 0, true},
			{"ScalarMulAddPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.ScalarMulAddPolyTo(o, a, c) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return o + c*a }, o, a, b)
			}, 0, true},
			{"ScalarMulSubPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.ScalarMulSubPolyTo(o, a, c) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return o - c*a }, o, a, b)
			}, 0, true},
			{"MonomialMulPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.MonomialMulPolyTo(o, a, d) }, func(o, a, b []T, c T, d int) []T { return refMono(a, d) }, 1, false},
			{"MonomialMulAddPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.MonomialMulAddPolyTo(o, a, d) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return o + a }, o, refMono(a, d), none)
			}, 1, false},
			{"MonomialMulSubPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.MonomialMulSubPolyTo(o, a, d) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return o - a }, o, refMono(a, d), none)
			}, 1, false},
			{"MonomialMulPolyInPlace", func(o, a, b poly.Poly[T], c T, d int) { ev.MonomialMulPolyInPlace(o, d) }, func(o, a, b []T, c T, d int) []T { return refMono(o, d) }, 1, false},
			{"PermutePolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.PermutePolyTo(o, a, d) }, func(o, a, b []T, c T, d int) []T { return refAuto(a, d) }, 2, false},
			{"PermuteAddPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.PermuteAddPolyTo(o, a, d) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return o + a }, o, refAuto(a, d), none)
			}, 2, false},
			{"PermuteSubPolyTo", func(o, a, b poly.Poly[T], c T, d int) { ev.PermuteSubPolyTo(o, a, d) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return o - a }, o, refAuto(a, d), none)
			}, 2, false},
			{"PermutePolyInPlace", func(o, a, b poly.Poly[T], c T, d int) { ev.PermutePolyInPlace(o, d) }, func(o, a, b []T, c T, d int) []T { return refAuto(o, d) }, 2, false},
			{"AddPoly", func(o, a, b poly.Poly[T], c T, d int) { o.CopyFrom(ev.AddPoly(a, b)) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return a + b }, o, a, b)
			}, 0, true},
			{"SubPoly", func(o, a, b poly.Poly[T], c T, d int) { o.CopyFrom(ev.SubPoly(a, b)) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return a - b }, o, a, b)
			}, 0, true},
			{"NegPoly", func(o, a, b poly.Poly[T], c T, d int) { o.CopyFrom(ev.NegPoly(a)) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return -a }, o, a, b)
			}, 0, true},
			{"ScalarMulPoly", func(o, a, b poly.Poly[T], c T, d int) { o.CopyFrom(ev.ScalarMulPoly(a, c)) }, func(o, a, b []T, c T, d int) []T {
				return zip(func(o, a, b T) T { return c * a }, o, a, b)
			}, 0, true},
			{"MonomialMulPoly", func(o, a, b poly.Poly[T], c T, d int) { o.CopyFrom(ev.MonomialMulPoly(a, d)) }, func(o, a, b []T, c T, d int) []T { return refMono(a, d) }, 1, true},
			{"PermutePoly", func(o, a, b poly.Poly[T], c T, d int) { o.CopyFrom(ev.PermutePoly(a, d)) }, func(o, a, b []T, c T, d int) []T { return refAuto(a, d) }, 2, true},
		}
		for _, o := range ops {
			ds := []int{0}
			if o.deg > 0 {
				ds = []int{0, 1, -1, 2, 3, -3, 5, N - 1, N, N + 1, -N, -N - 1, 1 - N, 2*N - 1, 2 * N, 2*N + 1, -2 * N, 1 - 2*N, -2*N - 1, 3*N + 1, 4*N - 1, 4 * N, N / 2, N/2 + 1, -N/2 - 1, math.MaxInt, math.MinInt, math.MinInt + 1}
				if N <= 32 {
					for d := -5 * N; d <= 5*N; d++ {
						ds = append(ds, d)
					}
				}
				for i := 0; i < r.N(4); i++ {
					ds = append(ds, int(r.Word()), r.Intn(4*N)-2*N)
				}
			}
			for _, d := range ds {
				if o.deg == 2 && d&1 == 0 {
					a := randPoly[T](r, N)
					r.Case("%s %s N=%d even d=%d", tn, o.name, N, d)
					if !rt.Panics(func() { o.run(a, a.Copy(), a, 0, d) }) {
						r.Fail("%s accepts the even exponent %d", o.name, d)
					}
					continue
				}
				for alias := 0; alias < 4; alias++ {
					if alias > 0 && !o.ali {
						continue
					}
					po, pa, pb := randPoly[T](r, N), randPoly[T](r, N), randPoly[T](r, N)
					switch alias {
					case 1:
						pa = po
					case 2:
						pb = po
					case 3:
						pa, pb = po, po
					}
					c := sc()
					a0, b0 := pa.Copy(), pb.Copy()
					want := o.ref(po.Copy().Coeffs, a0.Coeffs, b0.Coeffs, c, d)
					r.Case("%s %s N=%d d=%d alias=%d", tn, o.name, N, d, alias)
					r.Try(func() {
						o.run(po, pa, pb, c, d)
						if i := eq(po.Coeffs, want); i >= 0 {
							r.Fail("%s[%s] rank %d exponent %d aliasing %d: coefficient %d is %v, ring operation gives %v", o.name, tn, N, d, alias, i, po.Coeffs[i], want[i])
						}
						if alias == 0 && (!pa.Equals(a0) || !pb.Equals(b0)) {
							r.Fail("%s[%s] changed an input", o.name, tn)
						}
					})
				}
			}
		}
		// rank mismatch
		if N > poly.MinRank {
			r.Case("%s rank mismatch N=%d", tn, N)
			s, b := poly.NewPoly[T](N/2), poly.NewPoly[T](N)
			for i, f := range []func(){
				func() { ev.AddPolyTo(s, b, b) }, func() { ev.AddPolyTo(b, s, b) }, func() { ev.AddPolyTo(b, b, s) },
				func() { ev.SubPolyTo(s, b, b) }, func() { ev.SubPolyTo(b, s, b) }, func() { ev.SubPolyTo(b, b, s) },
				func() { ev.NegPolyTo(s, b) }, func() { ev.NegPolyTo(b, s) }, func() { ev.ScalarMulPolyTo(b, s, 1) }, func() { ev.ScalarMulPolyTo(s, b, 1) },
				func() { ev.AddPolyTo(s, s, s) }, func() { ev.MonomialMulPolyTo(b, s, 1) }, func() { ev.MonomialMulPolyTo(s, b, 1) },
			} {
				if !rt.Panics(f) {
					r.Fail("rank mismatch %d accepted", i)
				}
			}
		}
	}
}

func TestVerifP04(t *testing.T) {
	rt.Run(t, "P04", "uint32", func(r *rt.R) { p04Type[uint32](r, "uint32") })
	rt.Run(t, "P04", "uint64", func(r *rt.R) { p04Type[uint64](r, "uint64") })
	rt.Run(t, "P04", "int64", func(r *rt.R) { p04Type[int64](r, "int64") })
	rt.Run(t, "P04", "int8", func(r *rt.R) { p04Type[int8](r, "int8") })
	rt.Run(t, "P04", "uint16", func(r *rt.R) { p04Type[uint16](r, "uint16") })
}
