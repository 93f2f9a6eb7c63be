package mktfhe_test

import (
	"fmt"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func encrypt10[T ti](r *rt.R) {
	type cfg struct {
		parties, n, N int
		mm            T
		order         tfhe.BootstrapOrder
	}
	for _, c := range []cfg{{1, 12, 16, 8, ksbr}, {2, 9, 32, 5, brks}, {3, 16, 16, 3, ksbr}} {
		p := mklit[T](c.parties, c.n, c.N, 1, c.mm, c.order).Compile()
		w := newWorld(p)
		tol := fftTol[T](c.N, 1)
		for it := 0; it < r.N(3); it++ {
			for i, enc := range w.encs {
				msg := msgs(r, 1, c.mm)[0]
				want := pmod(msg, uint64(c.mm))
				m := msgs(r, r.Intn(c.N+4), c.mm)
				wm := wantMsgs(m, c.N, c.mm)
				red := make([]T, c.N)
				for j := range red {
					red[j] = T(wm[j])
				}
				r.Case("bits=%d %+v party %d message=%d messages=%v", bitsOf[T](), c, i, msg, m)
				one := func(what string, enc interface {
					EncryptLWE(int) mktfhe.LWECiphertext[T]
					EncryptLWETo(mktfhe.LWECiphertext[T], int)
					EncryptLWEPlaintext(tfhe.LWEPlaintext[T]) mktfhe.LWECiphertext[T]
					EncryptLWEPlaintextTo(mktfhe.LWECiphertext[T], tfhe.LWEPlaintext[T])
					EncryptGLWE([]int) mktfhe.GLWECiphertext[T]
					EncryptGLWETo(mktfhe.GLWECiphertext[T], []int)
					EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]) mktfhe.GLWECiphertext[T]
					EncryptGLWEPlaintextTo(mktfhe.GLWECiphertext[T], tfhe.GLWEPlaintext[T])
					EncryptFFTGLWE([]int) mktfhe.FFTGLWECiphertext[T]
					EncryptFFTGLWETo(mktfhe.FFTGLWECiphertext[T], []int)
					EncryptFFTGLWEPlaintext(tfhe.GLWEPlaintext[T]) mktfhe.FFTGLWECiphertext[T]
				}) {
					ct := enc.EncryptLWE(msg)
					if g := w.dec.DecryptLWE(ct); g != want {
						r.Fail("%s EncryptLWE: %d, want %d", what, g, want)
					}
					for j := 1; j < len(ct.Value); j++ {
						if n := p.SubParams().DefaultLWEDimension(); (j-1)/n != i && ct.Value[j] != 0 {
							r.Fail("%s: mask of another party set", what)
							break
						}
					}
					o := ct.Copy()
					ops.RandVec(r, o.Value)
					enc.EncryptLWETo(o, msg)
					if g := w.dec.DecryptLWE(o); g != want {
						r.Fail("%s EncryptLWETo: %d, want %d", what, g, want)
					}
					if ops.Eq(o.Value[1:], ct.Value[1:]) == -1 {
						r.Fail("%s: mask repeated", what)
					}
					pt := tfhe.LWEPlaintext[T]{Value: T(r.Word())}
					if g := w.dec.DecryptLWEPlaintext(enc.EncryptLWEPlaintext(pt)).Value; g != pt.Value {
						r.Fail("%s LWE phase", what)
					}
					enc.EncryptLWEPlaintextTo(o, pt)
					if g := w.phaseLWE(o.Value); g != pt.Value {
						r.Fail("%s LWE phase in place", what)
					}
					g := enc.EncryptGLWE(m)
					if ops.Eq(w.dec.DecryptGLWE(g), wm) != -1 {
						r.Fail("%s EncryptGLWE", what)
					}
					go2 := randGLWE[T](r, p)
					enc.EncryptGLWETo(go2, m)
					res := make([]int, c.N)
					w.dec.DecryptGLWETo(res, go2)
					if ops.Eq(res, wm) != -1 {
						r.Fail("%s EncryptGLWETo", what)
					}
					gp := tfhe.NewGLWEPlaintext(p.SubParams())
					ops.RandVec(r, gp.Value.Coeffs)
					gc := gp.Copy()
					if ops.Eq(w.phaseGLWE(enc.EncryptGLWEPlaintext(gp)), gc.Value.Coeffs) != -1 {
						r.Fail("%s GLWE phase", what)
					}
					enc.EncryptGLWEPlaintextTo(go2, gp)
					if ops.Eq(w.dec.DecryptGLWEPhase(go2).Value.Coeffs, gc.Value.Coeffs) != -1 || ops.Eq(gp.Value.Coeffs, gc.Value.Coeffs) != -1 {
						r.Fail("%s GLWE phase in place", what)
					}
					for call := 0; call < 2; call++ {
						f := enc.EncryptFFTGLWE(m)
						if ops.Eq(w.dec.DecryptFFTGLWE(f), wm) != -1 {
							r.Fail("%s EncryptFFTGLWE call %d", what, call)
						}
						enc.EncryptFFTGLWETo(f, m)
						w.dec.DecryptFFTGLWETo(res, f)
						if ops.Eq(res, wm) != -1 {
							r.Fail("%s EncryptFFTGLWETo call %d", what, call)
						}
						f = enc.EncryptFFTGLWEPlaintext(gp)
						if d := ops.MaxDist(w.dec.DecryptFFTGLWEPhase(f).Value.Coeffs, gc.Value.Coeffs); d > tol {
							r.Fail("%s Fourier phase off by %g", what, d)
						}
					}
				}
				r.Try(func() { one("secret-key", enc) })
				if c.order == ksbr {
					r.Try(func() { one("public-key", mktfhe.NewPublicEncryptor(p, i, enc.GenPublicKey())) })
				}
				for gi, g := range []tfhe.GadgetParameters[T]{gad[T](8, 3), gad[T](6, 4), gad[T](4, 1)} {
					r.Case("bits=%d %+v party %d uni-encryption gadget %d messages=%v", bitsOf[T](), c, i, gi, m)
					r.Try(func() {
						pp := make([]T, c.N)
						for j := range pp {
							pp[j] = T(r.Uint64()) % g.Base()
						}
						chk := func(what string, u mktfhe.UniEncryption[T], m []T, tol float64) {
							sk := enc.SecretKey.GLWEKey.Value[0].Coeffs
							if len(u.Value) != 2 || len(u.Value[0].Value) != g.Level() || len(u.Value[1].Value) != g.Level() {
								r.Fail("%s shape", what)
								return
							}
							var aux []T
							for j := 0; j < g.Level(); j++ {
								c1 := u.Value[1].Value[j]
								ph := ops.Add(c1.Value[0].Coeffs, ops.Mul(sk, c1.Value[1].Coeffs))
								if j == 0 {
									aux = make([]T, c.N)
									for x := range aux {
										if ops.Abs(ops.Sgn(ph[x]-g.BaseQ(0))) < ops.Abs(ops.Sgn(ph[x])) {
											aux[x] = 1
										}
									}
								}
								if d := ops.MaxDist(ph, ops.Scal(aux, g.BaseQ(j))); d > tol {
									r.Fail("%s: row 1 level %d off by %g", what, j, d)
								}
								c0 := u.Value[0].Value[j]
								if d := ops.MaxDist(c0.Value[1].Coeffs, enc.CRS[j].Coeffs); d > tol {
									r.Fail("%s: row 0 level %d mask is not the CRS", what, j)
								}
								ph = ops.Sub(c0.Value[0].Coeffs, ops.Mul(aux, c0.Value[1].Coeffs))
								if d := ops.MaxDist(ph, ops.Scal(m, g.BaseQ(j))); d > tol {
									r.Fail("%s: row 0 level %d off by %g", what, j, d)
								}
							}
						}
						u := enc.UniEncrypt(m, g)
						chk("UniEncrypt", u, red, 0)
						res := enc.UniDecrypt(u)
						if ops.Eq(res, wm) != -1 {
							r.Fail("UniDecrypt = %v, want %v", res, wm)
						}
						enc.UniEncryptTo(u, m, g)
						chk("UniEncryptTo", u, red, 0)
						u = enc.UniEncryptPoly(polyOf(pp), g)
						chk("UniEncryptPoly", u, pp, 0)
						if q := enc.UniDecryptPoly(u); ops.Eq(q.Coeffs, pp) != -1 {
							r.Fail("UniDecryptPoly = %v, want %v", q.Coeffs, pp)
						}
						f := enc.FFTUniEncrypt(m, g)
						chk("FFTUniEncrypt", enc.InvFFTUniEncryption(f), red, tol)
						if ops.Eq(enc.FFTUniDecrypt(f), wm) != -1 {
							r.Fail("FFTUniDecrypt")
						}
						f = enc.FFTUniEncryptPoly(polyOf(pp), g)
						if q := enc.FFTUniDecryptPoly(f); ops.Eq(q.Coeffs, pp) != -1 {
							r.Fail("FFTUniDecryptPoly = %v, want %v", q.Coeffs, pp)
						}
						f2 := enc.FwdFFTUniEncryption(u)
						if q := enc.FFTUniDecryptPoly(f2); ops.Eq(q.Coeffs, pp) != -1 {
							r.Fail("FwdFFTUniEncryption")
						}
					})
				}
				_ = fmt.Sprint
			}
		}
	}
}

func TestVerifP10(t *testing.T) {
	rt.Run(t, "P10", "multi-key encryption round trip", func(r *rt.R) {
		encrypt10[uint32](r)
		encrypt10[uint64](r)
	})
}
