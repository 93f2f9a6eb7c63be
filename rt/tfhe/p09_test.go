package tfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/tfhe"
)

func extract09[T ti](r *rt.R) {
	for _, c := range [][3]int{{1, 16, 5}, {2, 16, 32}, {3, 32, 40}, {1, 64, 64}} {
		k, N, n := c[0], c[1], c[2]
		for it := 0; it < r.N(3); it++ {
			sk := tfhe.NewSecretKeyCustom[T](n, k, N)
			if it == 0 {
				for i := range sk.LWELargeKey.Value {
					sk.LWELargeKey.Value[i] = T(r.Intn(2))
				}
			} else {
				randVec(r, sk.LWELargeKey.Value)
			}
			r.Case("bits=%d k=%d N=%d n=%d it=%d keys", bitsOf[T](), k, N, n, it)
			if len(sk.LWEKey.Value) != n || len(sk.LWELargeKey.Value) != k*N || len(sk.GLWEKey.Value) != k {
				r.Fail("key shapes")
				continue
			}
			lk := sk.GLWEKey.AsLWEKey()
			if eqVec(lk.Value, sk.LWELargeKey.Value) != -1 {
				r.Fail("LWE view of the GLWE key differs from LWELargeKey")
			}
			if eqVec(sk.LWEKey.Value, sk.LWELargeKey.Value[:n]) != -1 {
				r.Fail("LWEKey is not the prefix of LWELargeKey")
			}
			lk2 := tfhe.NewLWESecretKeyCustom[T](k * N)
			randVec(r, lk2.Value)
			sk.GLWEKey.AsLWEKeyTo(lk2)
			if eqVec(lk2.Value, lk.Value) != -1 {
				r.Fail("AsLWEKeyTo")
			}
			lk.Value[0]++
			if lk.Value[0] == sk.LWELargeKey.Value[0] {
				r.Fail("AsLWEKey shares storage")
			}
			ct := randGLWE[T](r, k, N)
			in := flatten(ct)
			ph := phaseGLWE(ct, sk.GLWEKey)
			for idx := 0; idx < N; idx++ {
				r.Case("bits=%d k=%d N=%d it=%d idx=%d", bitsOf[T](), k, N, it, idx)
				r.Try(func() {
					l := ct.AsLWECiphertext(idx)
					if len(l.Value) != k*N+1 {
						r.Fail("length %d", len(l.Value))
						return
					}
					if p := phaseLWE(l.Value, sk.LWELargeKey.Value); p != ph[idx] {
						r.Fail("phase %d, want %d", p, ph[idx])
					}
					o := randLWE[T](r, k*N)
					ct.AsLWECiphertextTo(idx, o)
					if eqVec(o.Value, l.Value) != -1 {
						r.Fail("AsLWECiphertextTo into used storage differs")
					}
				})
			}
			if eqVec(in, flatten(ct)) != -1 {
				r.Fail("input modified")
			}
		}
	}
	// real keys
	for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
		for _, blk := range []int{1, 4} {
			p := lit[T](12, 2, 16, 1, blk, 8, order).Compile()
			enc := tfhe.NewEncryptor(p)
			sks := []tfhe.SecretKey[T]{enc.SecretKey, enc.GenSecretKey(), enc.SecretKey.Copy()}
			o := tfhe.NewSecretKey(p)
			o.CopyFrom(enc.SecretKey)
			sks = append(sks, o)
			for i, sk := range sks {
				r.Case("bits=%d order=%d block=%d generated key %d", bitsOf[T](), order, blk, i)
				if eqVec(sk.LWEKey.Value, sk.LWELargeKey.Value[:12]) != -1 || eqVec(sk.GLWEKey.AsLWEKey().Value, sk.LWELargeKey.Value) != -1 {
					r.Fail("key views inconsistent")
				}
				back := tfhe.NewGLWETransformer[T](16).InvFFTGLWESecretKey(sk.FFTGLWEKey)
				if eqVec(back.AsLWEKey().Value, sk.LWELargeKey.Value) != -1 {
					r.Fail("Fourier key inconsistent")
				}
				e := tfhe.NewEncryptorWithKey(p, sk)
				want := sk.LWELargeKey.Value
				if order == brks {
					want = sk.LWEKey.Value
				}
				if eqVec(e.DefaultLWESecretKey().Value, want) != -1 {
					r.Fail("default LWE key")
				}
				if order == ksbr {
					ct := randGLWE[T](r, 2, 16)
					ph := e.DecryptGLWEPhase(ct)
					for idx := 0; idx < 16; idx++ {
						if v := e.DecryptLWEPhase(ct.AsLWECiphertext(idx)).Value; v != ph.Value.Coeffs[idx] {
							r.Fail("coefficient %d: LWE phase %d, GLWE phase %d", idx, v, ph.Value.Coeffs[idx])
						}
					}
				}
			}
		}
	}
}

func TestVerifP09(t *testing.T) {
	rt.Run(t, "P09", "sample extraction and key views", func(r *rt.R) {
		extract09[uint32](r)
		extract09[uint64](r)
	})
}
