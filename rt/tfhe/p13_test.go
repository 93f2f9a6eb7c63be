package tfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP13(t *testing.T) {
	rt.Run(t, "P13", "lookup tables", func(r *rt.R) {
		p13[uint32](r)
		p13[uint64](r)
	})
}

func p13[T ti](r *rt.R) {
	w := bitsOf[T]()
	for _, N := range []int{16, 32, 128} {
		for _, ext := range []int{1, 2, 4, 3} {
			mms := []T{2, 3, 4, 5, 6, 7, 8, 10}
			if N == 128 {
				mms = append(mms, 16, 17, 32, 64)
			}
			for _, mm := range mms {
				params := lit[T](4, 1, N, ext, 1, mm, ksbr).Compile()
				e := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
				for it := 0; it < r.N(2); it++ {
					fv := make([]int, 2*N*ext+8)
					fw := make([]T, len(fv))
					for i := range fv {
						fv[i], fw[i] = int(int32(r.Uint32())), T(r.Word())
						if it == 0 {
							fv[i] = (i*5 + 1) % 7
						}
					}
					f := func(x int) int { return fv[x] }
					g := func(x int) T { return fw[x] }
					cm := mms[r.Intn(len(mms))]
					scale := T(1) << (w - 1 - r.Intn(12))
					if r.Intn(2) == 0 {
						scale = T(r.Word())
					}
					dirty := func() tfhe.LookUpTable[T] {
						l := tfhe.NewLUT(params)
						for i := range l.Value {
							randVec(r, l.Value[i].Coeffs)
						}
						return l
					}
					for k := 0; k < 8; k++ {
						r.Case("Q=2^%d N=%d lutSize=%d messageModulus=%d custom=%d scale=%d generator=%d f=%v g=%v", w, N, N*ext, mm, cm, scale, k, fv[:8], fw[:4])
						r.Try(func() {
							m, sc := mm, params.Scale()
							val := func(x int) T { return T(pmod(fv[x], uint64(m))) * sc }
							var lut tfhe.LookUpTable[T]
							switch k {
							case 0:
								lut = e.GenLUT(f)
							case 1:
								lut = dirty()
								e.GenLUTTo(lut, f)
							case 2:
								lut, val = e.GenLUTFull(g), g
							case 3:
								lut, val = dirty(), g
								e.GenLUTFullTo(lut, g)
							case 4:
								m, sc = cm, scale
								lut = e.GenLUTCustom(f, cm, scale)
							case 5:
								m, sc = cm, scale
								lut = dirty()
								e.GenLUTCustomTo(lut, f, cm, scale)
							case 6:
								m = cm
								lut, val = e.GenLUTCustomFull(g, cm), g
							case 7:
								m = cm
								lut, val = dirty(), g
								e.GenLUTCustomFullTo(lut, g, cm)
							}
							p13check(r, lut, N, ext, int(m), val)
						})
					}
				}
			}
		}
	}
}

func p13check[T ti](r *rt.R, lut tfhe.LookUpTable[T], N, ext, m int, val func(int) T) {
	L := N * ext
	if len(lut.Value) != ext {
		r.Fail("table has %d polynomials, want %d", len(lut.Value), ext)
		return
	}
	at := func(p int) T { // constant coefficient after rotation by phase p
		p = ((p % (2 * L)) + 2*L) % (2 * L)
		s := T(1)
		if p >= L {
			p, s = p-L, -s
		}
		return s * lut.Value[p%ext].Coeffs[p/ext]
	}
	hit := 0
	for x := 0; x < m; x++ {
		for p := -L; p < L; p++ {
			// twice m times the distance to the exact position
			d := 2*p*m - 2*x*L
			in := d >= -L && d < L
			if L%(2*m) != 0 {
				// the boundaries between messages are rounded to whole entries: the last
				// entry of a message's range may already belong to the next message
				in = d >= -L && d <= L-2*m
			}
			if !in {
				continue
			}
			hit++
			if got := at(p); got != val(x) {
				r.Fail("rotation by %d of the table for message %d gives %d, want %d", p, x, got, val(x))
				return
			}
		}
	}
	if L%(2*m) == 0 && hit != L {
		r.Fail("checker covers %d of %d positions", hit, L)
	}
}
