package tfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP06(t *testing.T) {
	rt.Run(t, "P06", "gadget decomposition", func(r *rt.R) {
		p06[uint32](r)
		p06[uint64](r)
	})
}

func p06[T ti](r *rt.R) {
	w := bitsOf[T]()
	d := tfhe.NewDecomposer[T](16)
	for lb := 1; lb < w; lb++ {
		for l := 1; lb*l <= w; l++ {
			g := gad[T](lb, l)
			r.Case("accessors Q=2^%d logBase=%d level=%d", w, lb, l)
			r.Try(func() {
				if g.Base() != T(1)<<lb || g.LogBase() != lb || g.Level() != l {
					r.Fail("Base/LogBase/Level = %d/%d/%d", g.Base(), g.LogBase(), g.Level())
				}
				for i := 0; i < l; i++ {
					if g.BaseQ(i) != T(1)<<(w-(i+1)*lb) || g.LogBaseQ(i) != w-(i+1)*lb {
						r.Fail("BaseQ(%d)=%d LogBaseQ=%d", i, g.BaseQ(i), g.LogBaseQ(i))
					}
				}
				if g.FirstBaseQ() != T(1)<<(w-lb) || g.LastBaseQ() != T(1)<<(w-l*lb) || g.LogFirstBaseQ() != w-lb || g.LogLastBaseQ() != w-l*lb {
					r.Fail("First/LastBaseQ wrong")
				}
			})
			for it := 0; it < r.N(3); it++ {
				N := []int{16, 32, 64}[r.Intn(3)]
				p := poly.NewPoly[T](N)
				randVec(r, p.Coeffs)
				// values on the rounding and carry boundaries
				s := w - l*lb
				for i := 0; i < N; i += 3 {
					v := T(r.Word())
					if s > 0 {
						v = v>>s<<s + T(1)<<(s-1) + T(r.Intn(3)) - 1
					}
					if r.Intn(2) == 0 {
						v = v&^(T(1)<<(w-lb)-1) | (T(1)<<(w-lb) - 1)
					}
					p.Coeffs[i] = v
				}
				r.Case("Q=2^%d logBase=%d level=%d N=%d p=%v", w, lb, l, N, p.Coeffs)
				r.Try(func() { p06one(r, d, g, p, lb, l) })
			}
		}
	}
	// the decomposer's growing buffers
	for it := 0; it < r.N(4); it++ {
		d := tfhe.NewDecomposer[T](16)
		for q := 0; q < 6; q++ {
			l := 1 + r.Intn(8)
			g := gad[T](2+r.Intn(2), l)
			r.Case("buffer level=%d", l)
			r.Try(func() {
				c, p, f := d.ScalarBuffer(g), d.PolyBuffer(g), d.FFTPolyBuffer(g)
				if len(c) != l || len(p) != l || len(f) != l {
					r.Fail("buffers of length %d/%d/%d for level %d", len(c), len(p), len(f), l)
					return
				}
				for i := range p {
					if p[i].Rank() != 16 || f[i].Rank() != 16 {
						r.Fail("buffer polynomial of rank %d/%d", p[i].Rank(), f[i].Rank())
					}
				}
			})
		}
	}
}

func p06one[T ti](r *rt.R, d *tfhe.Decomposer[T], g tfhe.GadgetParameters[T], p poly.Poly[T], lb, l int) {
	w := bitsOf[T]()
	in := p.Copy()
	dp := d.DecomposePoly(p, g)
	dp2 := make([]poly.Poly[T], l)
	for i := range dp2 {
		dp2[i] = poly.NewPoly[T](p.Rank())
		randVec(r, dp2[i].Coeffs)
	}
	d.DecomposePolyTo(dp2, p, g)
	if i := eqVec(in.Coeffs, p.Coeffs); i != -1 {
		r.Fail("input modified at %d", i)
	}
	s := w - l*lb
	half := int64(1) << (lb - 1)
	round := make([]T, p.Rank())
	for i := range p.Coeffs {
		x := p.Coeffs[i]
		ds := d.DecomposeScalar(x, g)
		ds2 := make([]T, l)
		randVec(r, ds2)
		d.DecomposeScalarTo(ds2, x, g)
		want := x
		if s > 0 {
			want = (x + T(1)<<(s-1)) >> s << s
		}
		round[i] = want
		var sum T
		for j := 0; j < l; j++ {
			v := sgn(ds[j])
			if v < -half || v > half {
				r.Fail("digit %d of %d is %d, outside [-B/2,B/2]", j, x, v)
			}
			if ds2[j] != ds[j] || dp[j].Coeffs[i] != ds[j] || dp2[j].Coeffs[i] != ds[j] {
				r.Fail("digit %d of coefficient %d (%d): scalar %d/%d, polynomial %d/%d", j, i, x, ds[j], ds2[j], dp[j].Coeffs[i], dp2[j].Coeffs[i])
				return
			}
			sum += ds[j] << (w - (j+1)*lb)
		}
		if sum != want {
			r.Fail("digits %v of %d recompose to %d, want %d", ds, x, sum, want)
		}
		if got := d.RecomposeScalar(ds, g); got != want {
			r.Fail("RecomposeScalar(%v)=%d want %d", ds, got, want)
		}
	}
	out := poly.NewPoly[T](p.Rank())
	randVec(r, out.Coeffs)
	d.RecomposePolyTo(out, dp, g)
	if i := eqVec(out.Coeffs, round); i != -1 {
		r.Fail("RecomposePolyTo differs at %d: %d want %d", i, out.Coeffs[i], round[i])
	}
	if i := eqVec(d.RecomposePoly(dp, g).Coeffs, round); i != -1 {
		r.Fail("RecomposePoly differs at %d", i)
	}
	if p.Rank() == 16 && lb < 30 {
		ev := poly.NewEvaluator[T](16)
		fd := d.FourierDecomposePoly(p, g)
		fd2 := make([]poly.FFTPoly, l)
		for i := range fd2 {
			fd2[i] = poly.NewFFTPoly(16)
		}
		d.FourierDecomposePolyTo(fd2, p, g)
		for j := range fd {
			if i := eqVec(ev.InvFFT(fd[j]).Coeffs, dp[j].Coeffs); i != -1 {
				r.Fail("FourierDecomposePoly level %d differs at %d", j, i)
			}
			if i := eqVec(fd[j].Coeffs, fd2[j].Coeffs); i != -1 {
				r.Fail("FourierDecomposePolyTo level %d differs at %d", j, i)
			}
		}
	}
}
