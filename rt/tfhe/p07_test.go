package tfhe_test

import (
	"math/big"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP07(t *testing.T) {
	rt.Run(t, "P07", "encode and decode", func(r *rt.R) {
		p07[uint32](r)
		p07[uint64](r)
	})
}

// errs lists errors strictly inside half a step.
func p07errs[T ti](r *rt.R, scale, slack T) []int64 {
	lim := int64((scale+1)/2) - 1 - int64(slack)
	if lim < 0 {
		lim = 0
	}
	o := []int64{0, lim, -lim, lim / 2, -lim / 2}
	if lim > 0 {
		o = append(o, r.Int63n(lim)+1, -r.Int63n(lim)-1)
	}
	return o
}

func p07[T ti](r *rt.R) {
	w := bitsOf[T]()
	mods := []T{2, 3, 4, 5, 6, 7, 8, 10, 16, 31, 32, 33, 64, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096}
	for _, d := range rt.DictInts(2, 1<<14) {
		mods = append(mods, T(d))
	}
	for _, mm := range mods {
		l := lit[T](8, 1, 16, 1, 1, mm, ksbr)
		params := l.Compile()
		e := tfhe.NewEncoder(params)
		q := new(big.Int).Lsh(big.NewInt(1), uint(w))
		// scale is 2^(w-1)/mm rounded
		half := new(big.Int).Rsh(q, 1)
		sc := new(big.Int).Add(new(big.Int).Mul(half, big.NewInt(2)), big.NewInt(int64(mm)))
		sc.Div(sc, big.NewInt(2*int64(mm)))
		r.Case("Q=2^%d messageModulus=%d", w, mm)
		if params.Scale() != T(sc.Uint64()) {
			r.Fail("scale %d want %d", params.Scale(), sc)
			continue
		}
		slack := T(0)
		if mm&(mm-1) != 0 {
			slack = 2*mm + 2
		}
		var ms []int
		for i := -3; i < 4; i++ {
			ms = append(ms, i, int(mm)+i, -int(mm)+i, int(mm)*7+i, int(mm)/2+i)
		}
		ms = append(ms, int(r.Word()), int(r.Word()), int(r.Uint64()), -1<<63, 1<<63-1)
		p07mod(r, e, params.Scale(), mm, slack, ms, false)
	}
	// custom modulus and scale, with scale dividing the modulus
	params := lit[T](8, 1, 16, 1, 1, 4, ksbr).Compile()
	e := tfhe.NewEncoder(params)
	for it := 0; it < r.N(60); it++ {
		ls := r.Intn(w)
		scale := T(1) << ls
		lmax := w - ls
		var mm T
		if lmax > 1 {
			lm := 1 + r.Intn(lmax)
			if lm >= 63 || (w == 32 && lm >= 32) {
				lm = 31
			}
			mm = T(1) << lm
		}
		ms := []int{0, 1, -1, int(r.Word()), int(r.Word()), int(r.Uint64()), 5, 1 << 20, -(1 << 33)}
		if mm == 0 {
			if ls == 0 || lmax > 62 {
				continue
			}
			// zero modulus: everything representable
			for i := range ms {
				ms[i] = pmod(ms[i], 1<<lmax)
			}
		}
		p07mod(r, e, scale, mm, 0, ms, true)
	}
	// binary
	be := tfhe.NewBinaryEncoder(params)
	r.Case("binary Q=2^%d", w)
	r.Try(func() {
		tr, fa := be.EncodeLWEBool(true).Value, be.EncodeLWEBool(false).Value
		if tr+fa != 0 || tr != T(1)<<(w-3) {
			r.Fail("true=%d false=%d", tr, fa)
		}
		for it := 0; it < r.N(200); it++ {
			v := T(r.Word())
			if be.DecodeLWEBool(tfhe.LWEPlaintext[T]{Value: v}) != (sgn(v) >= 0) {
				r.Fail("decoding of %d", v)
			}
		}
	})
}

func p07mod[T ti](r *rt.R, e *tfhe.Encoder[T], scale, mm, slack T, ms []int, custom bool) {
	N := e.Params.PolyRank()
	// with modulus zero messages are kept as they are
	expect := func(m int) int { return pmod(m, uint64(mm)) }
	for _, m := range ms {
		for _, x := range p07errs(r, scale, slack) {
			r.Case("Q=2^%d modulus=%d scale=%d custom=%v message=%d error=%d", bitsOf[T](), mm, scale, custom, m, x)
			r.Try(func() {
				var pt tfhe.LWEPlaintext[T]
				var got int
				if custom {
					pt = e.EncodeLWECustom(m, mm, scale)
				} else {
					pt = e.EncodeLWE(m)
				}
				want := expect(m)
				if pt.Value != T(want)*scale {
					r.Fail("encoded as %d want %d*%d", pt.Value, want, scale)
				}
				pt.Value += T(x)
				if custom {
					got = e.DecodeLWECustom(pt, mm, scale)
				} else {
					got = e.DecodeLWE(pt)
					if g := e.DecodeLWECustom(pt, mm, scale); g != got {
						r.Fail("custom decoding %d differs from %d", g, got)
					}
				}
				if got != want {
					r.Fail("decoded %d want %d", got, want)
				}
			})
		}
	}
	for _, cnt := range []int{0, 1, N - 1, N, N + 1, 2*N + 3, r.Intn(N)} {
		msg := make([]int, cnt)
		for i := range msg {
			msg[i] = ms[r.Intn(len(ms))]
		}
		out := tfhe.NewGLWEPlaintextCustom[T](N)
		randVec(r, out.Value.Coeffs)
		r.Case("Q=2^%d modulus=%d scale=%d custom=%v messages=%v", bitsOf[T](), mm, scale, custom, msg)
		r.Try(func() {
			var pt tfhe.GLWEPlaintext[T]
			if custom {
				pt = e.EncodeGLWECustom(msg, mm, scale)
				e.EncodeGLWECustomTo(out, msg, mm, scale)
			} else {
				pt = e.EncodeGLWE(msg)
				e.EncodeGLWETo(out, msg)
			}
			if i := eqVec(pt.Value.Coeffs, out.Value.Coeffs); i != -1 {
				r.Fail("in-place encoding differs at %d", i)
			}
			es := p07errs(r, scale, slack)
			want := make([]int, N)
			for i := 0; i < N; i++ {
				if i < cnt {
					want[i] = expect(msg[i])
				}
				if pt.Value.Coeffs[i] != T(want[i])*scale {
					r.Fail("coefficient %d encoded as %d, want %d*%d", i, pt.Value.Coeffs[i], want[i], scale)
				}
				pt.Value.Coeffs[i] += T(es[r.Intn(len(es))])
			}
			var got []int
			short := make([]int, r.Intn(N))
			long := make([]int, N+2)
			if custom {
				got = e.DecodeGLWECustom(pt, mm, scale)
				e.DecodeGLWECustomTo(short, pt, mm, scale)
				e.DecodeGLWECustomTo(long, pt, mm, scale)
			} else {
				got = e.DecodeGLWE(pt)
				e.DecodeGLWETo(short, pt)
				e.DecodeGLWETo(long, pt)
			}
			if i := eqVec(got, want); i != -1 {
				r.Fail("decoded %v want %v", got, want)
			}
			if i := eqVec(short, want[:len(short)]); i != -1 {
				r.Fail("short decoding %v want %v", short, want[:len(short)])
			}
			if i := eqVec(long[:N], want); i != -1 || long[N] != 0 {
				r.Fail("long decoding %v want %v", long, want)
			}
		})
	}
}
