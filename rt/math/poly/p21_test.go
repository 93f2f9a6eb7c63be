package poly_test

import (
	"fmt"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

func TestVerifP21(t *testing.T) {
	rt.Run(t, "P21", "polynomials", func(r *rt.R) {
		p21poly[uint32](r)
		p21poly[uint64](r)
		p21poly[int64](r)
		for _, N := range []int{16, 32, 64, 1024} {
			mk := func() interface{} { p := poly.NewFFTPoly(N); return &p }
			ops.Object(r, fmt.Sprintf("FFTPoly N=%d", N), mk, mk, []int{N}, false)
			if poly.NewFFTPoly(N).Rank() != N {
				r.Fail("rank")
			}
		}
		for _, N := range []int{-1, 0, 1, 3, 8, 15, 17, 24, 48} {
			r.Case("N=%d", N)
			if N < poly.MinRank || !num.IsPowerOfTwo(N) {
				if !rt.Panics(func() { poly.NewFFTPoly(N) }) || !rt.Panics(func() { poly.NewPoly[uint32](N) }) {
					r.Fail("no panic for an invalid rank")
				}
			}
		}
	})
}

func p21poly[T num.Integer](r *rt.R) {
	var z T
	for _, N := range []int{16, 32, 64, 1024} {
		mk := func() interface{} { p := poly.NewPoly[T](N); return &p }
		ops.Object(r, fmt.Sprintf("Poly[%T] N=%d", z, N), mk, mk, []int{N}, false)
		for _, m := range []int{0, 1, N - 1, N, N + 3} {
			r.Case("From[%T] m=%d N=%d", z, m, N)
			src := make([]T, m)
			for i := range src {
				src[i] = T(r.Word())
			}
			p := poly.From(src, N)
			if len(p.Coeffs) != N || p.Rank() != N {
				r.Fail("length %d", len(p.Coeffs))
				continue
			}
			for i := range p.Coeffs {
				w := T(0)
				if i < m {
					w = src[i]
				}
				if p.Coeffs[i] != w {
					r.Fail("coefficient %d is %d, given %d", i, p.Coeffs[i], w)
					break
				}
			}
			if ops.Shared(&p, &src) {
				r.Fail("shares memory with the given slice")
			}
			q := p.Copy()
			if !q.Equals(p) || !p.Equals(q) {
				r.Fail("a copy is not Equals")
			}
			k := r.Intn(N)
			q.Coeffs[k]++
			if q.Equals(p) {
				r.Fail("Equals ignores coefficient %d", k)
			}
		}
	}
}
