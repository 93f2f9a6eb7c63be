package vec_test

import (
	"fmt"
	"math"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/vec"
)

func p02Rot[T comparable](r *rt.R, tn string, mk func(i int) T) {
	lens := []int{}
	for n := 0; n <= 33; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 64, 100, 128, 255, 256, 257, 1024)
	for _, n := range lens {
		v := make([]T, n)
		for i := range v {
			v[i] = mk(i)
		}
		ls := []int{0, 1, -1, 2, -2, n, -n, n + 1, -n - 1, 2 * n, -2 * n, 3*n + 1, -3*n - 1, n / 2, -n / 2, n - 1, 1 - n, math.MaxInt, math.MinInt, math.MinInt + 1, math.MaxInt - 1}
		if n < 12 {
			for l := -3 * n; l <= 3*n; l++ {
				ls = append(ls, l)
			}
		}
		for i := 0; i < r.N(3); i++ {
			ls = append(ls, int(r.Word()))
		}
		for _, l := range ls {
			r.Case("%s Rotate n=%d l=%d", tn, n, l)
			want := make([]T, n)
			if n > 0 {
				s := l % n
				if s < 0 {
					s += n
				}
				for i := range v {
					want[(i+s)%n] = v[i]
				}
			}
			chk := func(name string, g []T) {
				if !vec.Equals(g, want) {
					r.Fail("%s of %d elements by %d is not the rotation to the right", name, n, l)
				}
			}
			r.Try(func() {
				src := vec.Copy(v)
				chk("Rotate", vec.Rotate(src, l))
				out := make([]T, n)
				for i := range out {
					out[i] = mk(1000 + i)
				}
				vec.RotateTo(out, src, l)
				chk("RotateTo", out)
				if n > 0 && !vec.Equals(src, v) {
					r.Fail("rotation changed its input")
				}
				in := append(append([]T{mk(7)}, v...), mk(9))
				vec.RotateInPlace(in[1:n+1], l)
				chk("RotateInPlace", in[1:n+1])
				if in[0] != mk(7) || in[n+1] != mk(9) {
					r.Fail("RotateInPlace wrote outside its vector")
				}
			})
		}
		r.Case("%s Reverse n=%d", tn, n)
		want := make([]T, n)
		for i := range v {
			want[n-1-i] = v[i]
		}
		r.Try(func() {
			if g := vec.Reverse(v); !vec.Equals(g, want) {
				r.Fail("Reverse of %d elements is wrong", n)
			}
			g := make([]T, n)
			vec.ReverseTo(g, v)
			if !vec.Equals(g, want) {
				r.Fail("ReverseTo of %d elements is wrong", n)
			}
			g = append([]T{}, v...)
			vec.ReverseInPlace(g)
			if !vec.Equals(g, want) {
				r.Fail("ReverseInPlace of %d elements is wrong", n)
			}
			c := vec.Copy(v)
			if !vec.Equals(c, v) || len(c) != n {
				r.Fail("Copy differs")
			}
			if n > 0 {
				c[0] = mk(77)
				if v[0] == mk(77) {
					r.Fail("Copy shares storage")
				}
				d := vec.Copy(v)
				d[n-1] = mk(78)
				if vec.Equals(d, v) || vec.Equals(v[:n-1], v) {
					r.Fail("Equals of different vectors of length %d", n)
				}
			}
			f := append([]T{mk(1)}, append(vec.Copy(v), mk(2))...)
			vec.Fill(f[1:n+1], mk(55))
			for i := 1; i <= n; i++ {
				if f[i] != mk(55) {
					r.Fail("Fill left element %d", i-1)
				}
			}
			if f[0] != mk(1) || f[n+1] != mk(2) {
				r.Fail("Fill wrote outside")
			}
		})
	}
	for lg := 0; lg <= 13; lg++ {
		n := 1 << lg
		r.Case("%s BitReverse n=%d", tn, n)
		v := make([]T, n)
		for i := range v {
			v[i] = mk(i)
		}
		g := vec.Copy(v)
		r.Try(func() {
			vec.BitReverseInPlace(g)
			for i := range v {
				j := 0
				for b := 0; b < lg; b++ {
					if i>>b&1 == 1 {
						j |= 1 << (lg - 1 - b)
					}
				}
				if g[j] != v[i] {
					r.Fail("bit reversal of length %d puts element %d wrongly", n, i)
					return
				}
			}
		})
	}
}

func TestVerifP02(t *testing.T) {
	rt.Run(t, "P02", "permutations uint64", func(r *rt.R) { p02Rot(r, "uint64", func(i int) uint64 { return uint64(i)*0x9e3779b97f4a7c15 + 1 }) })
	rt.Run(t, "P02", "permutations uint32", func(r *rt.R) { p02Rot(r, "uint32", func(i int) uint32 { return uint32(i)*0x9e3779b9 + 1 }) })
	rt.Run(t, "P02", "permutations complex128", func(r *rt.R) {
		p02Rot(r, "complex128", func(i int) complex128 { return complex(float64(i), -float64(i)-1) })
	})
	rt.Run(t, "P02", "permutations struct", func(r *rt.R) {
		type s struct {
			a byte
			b string
		}
		p02Rot(r, "struct", func(i int) s { return s{byte(i), fmt.Sprint(i)} })
	})
	rt.Run(t, "P02", "casts", func(r *rt.R) {
		for n := 0; n < 40; n++ {
			r.Case("cast n=%d", n)
			u64 := make([]uint64, n)
			f64 := make([]float64, n)
			for i := range u64 {
				u64[i] = r.Word()
				f64[i] = math.Ldexp(r.NormFloat64(), r.Intn(20))
			}
			r.Try(func() {
				a, b, c, d := vec.Cast[uint32](u64), vec.Cast[int64](u64), vec.Cast[int8](u64), vec.Cast[float64](u64)
				e, g := vec.Cast[int32](f64), vec.Cast[float32](f64)
				h := vec.Cast[uint64](b)
				if len(a) != n || len(d) != n {
					r.Fail("length of cast")
				}
				for i := range u64 {
					if a[i] != uint32(u64[i]) || b[i] != int64(u64[i]) || c[i] != int8(u64[i]) || d[i] != float64(u64[i]) || h[i] != u64[i] || e[i] != int32(f64[i]) || g[i] != float32(f64[i]) {
						r.Fail("cast of %v / %v", u64[i], f64[i])
					}
				}
			})
			if n > 0 && !rt.Panics(func() { vec.CastTo(make([]uint32, n-1), u64) }) {
				r.Fail("CastTo accepted different lengths")
			}
		}
	})
	rt.Run(t, "P02", "complex layout", func(r *rt.R) {
		for n := 0; n <= 260; n++ {
			r.Case("layout n=%d", n)
			v := make([]complex128, n)
			for i := range v {
				v[i] = complex(r.NormFloat64(), r.NormFloat64())
			}
			if n%4 != 0 {
				if !rt.Panics(func() { vec.CmplxToFloat4(v) }) {
					r.Fail("CmplxToFloat4 accepted length %d", n)
				}
				continue
			}
			r.Try(func() {
				f := vec.CmplxToFloat4(v)
				if len(f) != 2*n {
					r.Fail("length")
					return
				}
				for i := range v {
					if f[i/4*8+i%4] != real(v[i]) || f[i/4*8+4+i%4] != imag(v[i]) {
						r.Fail("CmplxToFloat4 misplaces element %d of %d", i, n)
						return
					}
				}
				g := vec.Float4ToCmplx(f)
				for i := range v {
					if g[i] != v[i] {
						r.Fail("Float4ToCmplx(CmplxToFloat4(v)) differs at %d of %d", i, n)
						return
					}
				}
			})
		}
	})
}
