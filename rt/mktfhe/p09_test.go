package mktfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func extract09[T ti](r *rt.R) {
	for _, c := range [][2]int{{1, 16}, {2, 16}, {3, 32}, {5, 16}} {
		k, N := c[0], c[1]
		for it := 0; it < r.N(2); it++ {
			sk := make([][]T, k)
			for i := range sk {
				sk[i] = make([]T, N)
				ops.RandVec(r, sk[i])
			}
			ct := mktfhe.NewGLWECiphertextCustom[T](k, N)
			for i := range ct.Value {
				ops.RandVec(r, ct.Value[i].Coeffs)
			}
			in := ct.Copy()
			ph := append([]T(nil), ct.Value[0].Coeffs...)
			for i := range sk {
				ph = ops.Add(ph, ops.Mul(sk[i], ct.Value[i+1].Coeffs))
			}
			dot := func(l []T) T {
				s := l[0]
				for i := range sk {
					for j := range sk[i] {
						s += l[1+i*N+j] * sk[i][j]
					}
				}
				return s
			}
			for idx := 0; idx < N; idx++ {
				r.Case("bits=%d parties=%d N=%d idx=%d", bitsOf[T](), k, N, idx)
				r.Try(func() {
					l := ct.AsLWECiphertext(idx)
					if len(l.Value) != k*N+1 {
						r.Fail("length %d", len(l.Value))
						return
					}
					if dot(l.Value) != ph[idx] {
						r.Fail("phase")
					}
					o := mktfhe.NewLWECiphertextCustom[T](k * N)
					ops.RandVec(r, o.Value)
					ct.AsLWECiphertextTo(o, idx)
					if ops.Eq(o.Value, l.Value) != -1 {
						r.Fail("AsLWECiphertextTo into used storage differs")
					}
				})
			}
			for i := range in.Value {
				if ops.Eq(in.Value[i].Coeffs, ct.Value[i].Coeffs) != -1 {
					r.Fail("input modified")
				}
			}
			// embedding of single-key ciphertexts
			for idx := 0; idx < k; idx++ {
				r.Case("bits=%d parties=%d N=%d embed idx=%d", bitsOf[T](), k, N, idx)
				r.Try(func() {
					s := tfhe.NewLWECiphertextCustom[T](N)
					ops.RandVec(r, s.Value)
					m := mktfhe.NewLWECiphertextCustom[T](k * N)
					ops.RandVec(r, m.Value)
					m.CopyFromSubKey(s, idx)
					w := make([]T, k*N+1)
					w[0] = s.Value[0]
					copy(w[1+idx*N:], s.Value[1:])
					if ops.Eq(w, m.Value) != -1 {
						r.Fail("LWE embedding")
					}
					g := tfhe.NewGLWECiphertextCustom[T](1, N)
					ops.RandVec(r, g.Value[0].Coeffs)
					ops.RandVec(r, g.Value[1].Coeffs)
					mg := mktfhe.NewGLWECiphertextCustom[T](k, N)
					for i := range mg.Value {
						ops.RandVec(r, mg.Value[i].Coeffs)
					}
					mg.CopyFromSubKey(g, idx)
					for i := range mg.Value {
						w := make([]T, N)
						if i == 0 {
							w = g.Value[0].Coeffs
						} else if i == idx+1 {
							w = g.Value[1].Coeffs
						}
						if ops.Eq(w, mg.Value[i].Coeffs) != -1 {
							r.Fail("GLWE embedding component %d", i)
						}
					}
					f := tfhe.NewFFTGLWECiphertextCustom[T](1, N)
					mf := mktfhe.NewFFTGLWECiphertextCustom[T](k, N)
					for i := range f.Value {
						f.Value[i] = poly.NewEvaluator[T](N).FwdFFT(g.Value[i])
					}
					for i := range mf.Value {
						for j := range mf.Value[i].Coeffs {
							mf.Value[i].Coeffs[j] = r.NormFloat64()
						}
					}
					mf.CopyFromSubKey(f, idx)
					for i := range mf.Value {
						w := make([]float64, N)
						if i == 0 {
							w = f.Value[0].Coeffs
						} else if i == idx+1 {
							w = f.Value[1].Coeffs
						}
						if ops.Eq(w, mf.Value[i].Coeffs) != -1 {
							r.Fail("FFTGLWE embedding component %d", i)
						}
					}
				})
			}
		}
	}
}

func TestVerifP09(t *testing.T) {
	rt.Run(t, "P09", "multi-key extraction and embedding", func(r *rt.R) {
		extract09[uint32](r)
		extract09[uint64](r)
	})
}
