package xtfhe_test

import (
	"math"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func TestVerifP18(t *testing.T) {
	rt.Run(t, "P18", "discrete gaussian", func(r *rt.R) {
		p18cdt[uint64](r)
		p18cdt[int64](r)
		p18cdt[uint32](r)
	})
}

func p18cdt[T num.Integer](r *rt.R) {
	bits := num.SizeT[T]()
	signed := func(x T) float64 { return float64(int64(x) << uint(64-bits) >> uint(64-bits)) }
	for _, c := range []float64{0, 0.25, 0.5, 1, -0.3, 3.7, -5, 40.2, -77.9, 1000.5, -100000.25, 1e8} {
		for _, sd := range []float64{0.8, 1, 3.2, 20} {
			r.Case("%d bits centre=%v sd=%v", bits, c, sd)
			r.Try(func() {
				s := xtfhe.NewCDTSampler[T](c, sd)
				if s.Center() != c || s.StdDev() != sd {
					r.Fail("accessors")
				}
				n := 4096
				v := make([]T, n)
				for i := range v {
					v[i] = T(r.Word())
				}
				p := poly.Poly[T]{Coeffs: v}
				w := append([]T(nil), v...)
				switch r.Intn(5) {
				case 0:
					s.SampleVecTo(v)
				case 1:
					s.SamplePolyTo(p)
				case 2:
					s.SamplePolyAddTo(p)
					for i := range v {
						v[i] -= w[i]
					}
				case 3:
					s.SamplePolySubTo(p)
					for i := range v {
						v[i] = w[i] - v[i]
					}
				case 4:
					for i := range v {
						v[i] = s.Sample()
					}
				}
				sum, sq := 0.0, 0.0
				for _, x := range v {
					d := signed(x) - c
					if math.Abs(d) > 12*sd+2 {
						r.Fail("sample %v is %.1f standard deviations off", signed(x), d/sd)
						return
					}
					sum += d
					sq += d * d
				}
				fn := float64(n)
				if math.Abs(sum/fn) > 8*sd/math.Sqrt(fn) {
					r.Fail("mean is %v off", sum/fn)
				}
				if math.Abs(sq/fn-sd*sd) > 9*math.Sqrt(2/fn)*sd*sd+0.02 {
					r.Fail("variance %v", sq/fn)
				}
			})
		}
	}
}
