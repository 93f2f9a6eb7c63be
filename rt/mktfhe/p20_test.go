// needs: p08 p11 p12

package mktfhe_test

import (
	"math"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// index20: exactly the indices 0..count-1 are accepted.
func index20[T ti](r *rt.R) {
	for _, n := range []int{1, 2, 3, 5} {
		p := mklit[T](n, 6, 16, 1, 4, ksbr).Compile()
		e0 := mktfhe.NewEncryptor(p, 0, []byte("crs"))
		for _, idx := range []int{-1 << 63, -5, -1, 0, 1, 2, 3, 4, 5, 6, n - 1, n, n + 1, 1<<63 - 1} {
			valid := idx >= 0 && idx < n
			for name, f := range map[string]func(){
				"NewEncryptor":              func() { mktfhe.NewEncryptor(p, idx, []byte("crs")) },
				"NewEncryptorWithKey":       func() { mktfhe.NewEncryptorWithKey(p, idx, []byte("crs"), e0.SecretKey) },
				"NewPublicEncryptor":        func() { mktfhe.NewPublicEncryptor(p, idx, e0.GenPublicKey()) },
				"NewBinaryEncryptor":        func() { mktfhe.NewBinaryEncryptor(p, idx, []byte("crs")) },
				"NewBinaryEncryptorWithKey": func() { mktfhe.NewBinaryEncryptorWithKey(p, idx, []byte("crs"), e0.SecretKey) },
				"NewBinaryPublicEncryptor":  func() { mktfhe.NewBinaryPublicEncryptor(p, idx, e0.GenPublicKey()) },
				"NewDecryptor": func() {
					mktfhe.NewDecryptor(p, map[int]tfhe.SecretKey[T]{idx: e0.SecretKey})
				},
				"AddSecretKey": func() {
					mktfhe.NewDecryptor(p, map[int]tfhe.SecretKey[T]{}).AddSecretKey(idx, e0.SecretKey)
				},
				"NewEvaluator": func() {
					mktfhe.NewEvaluator(p, map[int]mktfhe.EvaluationKey[T]{idx: {}})
				},
				"AddEvaluationKey": func() {
					mktfhe.NewEvaluator(p, map[int]mktfhe.EvaluationKey[T]{}).AddEvaluationKey(idx, mktfhe.EvaluationKey[T]{})
				},
			} {
				r.Case("bits=%d count=%d index=%d %s", bitsOf[T](), n, idx, name)
				if got := !rt.Panics(f); got != valid {
					r.Fail("accepted=%v, want %v", got, valid)
				}
			}
		}
	}
}

// decrypt20: a decryptor with any set of keys decrypts ciphertexts of exactly those parties.
func decrypt20[T ti](r *rt.R) {
	for _, n := range []int{1, 2, 3, 4} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			p := mklit[T](n, 6, 16, 1, 4, order).Compile()
			w := newWorld(p)
			for _, set := range subsets(n) {
				for way := 0; way < 2; way++ {
					r.Case("bits=%d parties=%d set=%v order=%v way=%d", bitsOf[T](), n, set, order, way)
					r.Try(func() {
						var d *mktfhe.Decryptor[T]
						if way == 0 {
							sks := map[int]tfhe.SecretKey[T]{}
							for _, i := range set {
								sks[i] = w.encs[i].SecretKey
							}
							d = mktfhe.NewDecryptor(p, sks)
						} else {
							d = mktfhe.NewDecryptor(p, map[int]tfhe.SecretKey[T]{})
							for k := len(set) - 1; k >= 0; k-- {
								d.AddSecretKey(set[k], w.encs[set[k]].SecretKey)
							}
						}
						for i := 0; i < n; i++ {
							if d.PartyBitMap[i] != has(set, i) {
								r.Fail("PartyBitMap[%d]", i)
							}
						}
						for pass := 0; pass < 2; pass++ {
							sum := mktfhe.NewLWECiphertext(p)
							gsum := mktfhe.NewGLWECiphertext(p)
							tot := 0
							gtot := make([]int, p.PolyRank())
							for _, i := range set {
								m := r.Intn(100) - 50
								ct := w.encs[i].EncryptLWE(m)
								if g := d.DecryptLWE(ct); g != pmod(m, uint64(p.MessageModulus())) {
									r.Fail("party %d LWE decrypts to %d, want %d", i, g, m)
								}
								tot += m
								for j := range sum.Value {
									sum.Value[j] += ct.Value[j]
								}
								ms := msgs(r, p.PolyRank(), p.MessageModulus())
								gct := w.encs[i].EncryptGLWE(ms)
								got := d.DecryptGLWE(gct)
								for j := range ms {
									if got[j] != pmod(ms[j], uint64(p.MessageModulus())) {
										r.Fail("party %d GLWE message %d", i, j)
										break
									}
									gtot[j] += pmod(ms[j], uint64(p.MessageModulus()))
								}
								for a := range gsum.Value {
									for b := range gsum.Value[a].Coeffs {
										gsum.Value[a].Coeffs[b] += gct.Value[a].Coeffs[b]
									}
								}
							}
							if g := d.DecryptLWE(sum); g != pmod(tot, uint64(p.MessageModulus())) {
								r.Fail("joint LWE sum decrypts to %d, want %d", g, tot)
							}
							for j, g := range d.DecryptGLWE(gsum) {
								if g != pmod(gtot[j], uint64(p.MessageModulus())) {
									r.Fail("joint GLWE sum message %d", j)
									break
								}
							}
							// random masks: body plus every listed party's mask times its key
							l := mktfhe.NewLWECiphertext(p)
							ops.RandVec(r, l.Value)
							ln := (len(l.Value) - 1) / n
							for i := 0; i < n; i++ {
								if !has(set, i) {
									for j := 0; j < ln; j++ {
										l.Value[1+i*ln+j] = 0
									}
								}
							}
							if d.DecryptLWEPlaintext(l).Value != w.phaseLWE(l.Value) {
								r.Fail("LWE phase")
							}
							g := randGLWE(r, p)
							masked(g, set)
							if e := ops.MaxDist(d.DecryptGLWEPhase(g).Value.Coeffs, w.phaseGLWE(g)); e > 0 {
								r.Fail("GLWE phase off by %g", e)
							}
							d = d.SafeCopy()
						}
					})
				}
			}
		}
	}
}

// eval20: bootstrapping jointly for any set of parties.
func eval20[T ti](r *rt.R) {
	for _, n := range []int{1, 2, 3} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			N := 64
			p := mklit[T](n, 4, N, 1+n%2, 2, order).Compile()
			w := newWorld(p)
			for _, set := range subsets(n) {
				evk := w.evks(set...)
				ev := mktfhe.NewEvaluator(p, evk)
				if len(set) == 2 {
					ev = mktfhe.NewEvaluator(p, map[int]mktfhe.EvaluationKey[T]{})
					for k := len(set) - 1; k >= 0; k-- {
						ev.AddEvaluationKey(set[k], evk[set[k]])
					}
					ev = ev.SafeCopy()
				}
				for m := 0; m < 2; m++ {
					r.Case("bits=%d parties=%d set=%v order=%v m=%d", bitsOf[T](), n, set, order, m)
					r.Try(func() {
						ct := mktfhe.NewLWECiphertext(p)
						tot := 0
						for k, i := range set {
							mi := r.Intn(2)
							if k == len(set)-1 {
								mi = (m + tot) % 2
							}
							tot += mi
							c := w.encs[i].EncryptLWE(mi)
							for j := range ct.Value {
								ct.Value[j] += c.Value[j]
							}
						}
						// the padding bit must stay clear
						ct.Value[0] -= T(tot-tot%2) * ev.Params.Scale()
						in := append([]T(nil), ct.Value...)
						f := func(x int) int { return 1 - x }
						o := ev.BootstrapFunc(ct, f)
						want := ev.EncodeLWE(f(m)).Value
						if d := ops.Abs(ops.Sgn(w.phaseLWE(o.Value) - want)); d > math.Exp2(float64(bitsOf[T]()-6)) {
							r.Fail("phase off by %g", d)
						}
						if g := w.dec.DecryptLWE(o); g != f(m) {
							r.Fail("decrypts to %d, want %d", g, f(m))
						}
						for i := 0; i < n; i++ {
							ln := (len(o.Value) - 1) / n
							if !has(set, i) && ops.Eq(o.Value[1+i*ln:1+(i+1)*ln], make([]T, ln)) != -1 {
								r.Fail("mask of absent party %d is not zero", i)
							}
						}
						if ops.Eq(ct.Value, in) != -1 {
							r.Fail("input modified")
						}
						o2 := ev.BootstrapFuncParallel(ct, f)
						if ops.Eq(o2.Value, o.Value) != -1 {
							r.Fail("parallel bootstrapping differs")
						}
					})
				}
			}
		}
	}
}

func TestVerifP20(t *testing.T) {
	rt.Run(t, "P20", "index64", index20[uint64])
	rt.Run(t, "P20", "index32", index20[uint32])
	rt.Run(t, "P20", "decrypt64", decrypt20[uint64])
	rt.Run(t, "P20", "decrypt32", decrypt20[uint32])
	rt.Run(t, "P20", "eval64", eval20[uint64])
	rt.Run(t, "P20", "eval32", eval20[uint32])
	rt.Run(t, "P20", "linear64", linear08[uint64])
	rt.Run(t, "P20", "linear32", linear08[uint32])
	rt.Run(t, "P20", "switch64", switch11[uint64])
	rt.Run(t, "P20", "switch32", switch11[uint32])
	rt.Run(t, "P20", "products64", prods12[uint64])
	rt.Run(t, "P20", "products32", prods12[uint32])
}
