package tfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/tfhe"
)

func keySwitchLWE11[T ti](r *rt.R) {
	for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
		p := lit[T](6, 2, 16, 1, 1, 4, order).Compile()
		enc := tfhe.NewEncryptor(p)
		ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
		skOut := dfltKey(enc)
		for _, g := range gadgetsFor[T](r) {
			gp := gad[T](g[0], g[1])
			for _, nIn := range []int{1, 2, 7, 40} {
				skIn := tfhe.NewLWESecretKeyCustom[T](nIn)
				for i := range skIn.Value {
					skIn.Value[i] = T(r.Intn(2))
				}
				r.Case("bits=%d order=%v gadget=%v nIn=%d", bitsOf[T](), order, g, nIn)
				r.Try(func() {
					ksk := enc.GenLWEKeySwitchKey(skIn, gp)
					if ksk.InputLWEDimension() != nIn || ksk.GadgetParams.Level() != g[1] || ksk.GadgetParams.LogBase() != g[0] {
						r.Fail("key shape")
						return
					}
					for i := range ksk.Value {
						for j := range ksk.Value[i].Value {
							if ph := phaseLWE(ksk.Value[i].Value[j].Value, skOut); ph != skIn.Value[i]<<(bitsOf[T]()-g[0]*(j+1)) {
								r.Fail("key row %d level %d phase %d", i, j, ph)
								return
							}
						}
					}
					kin := flatten(ksk)
					for it := 0; it < 3; it++ {
						ct := randLWE[T](r, nIn)
						in := append([]T(nil), ct.Value...)
						want := ct.Value[0]
						for i, s := range skIn.Value {
							want += roundGadget(ct.Value[i+1], g[0], g[1]) * s
						}
						o := ev.KeySwitchLWE(ct, ksk)
						if len(o.Value) != len(skOut)+1 {
							r.Fail("length %d", len(o.Value))
							return
						}
						if ph := phaseLWE(o.Value, skOut); ph != want {
							r.Fail("phase %d, want %d (ct %v)", ph, want, ct.Value)
						}
						if d := absf(sgn(want - phaseLWE(in, skIn.Value))); d > gadTol[T](g[0], g[1])*float64(nIn) {
							r.Fail("oracle: distance %v", d)
						}
						// Body carried over exactly: a different body shifts the result by exactly that.
						c2 := ct.Copy()
						d := T(r.Uint64())
						c2.Value[0] += d
						o2 := randLWE[T](r, len(skOut))
						ev.KeySwitchLWETo(o2, c2, ksk)
						o2.Value[0] -= d
						if eqVec(o2.Value, o.Value) != -1 {
							r.Fail("body not carried over")
						}
						if eqVec(ct.Value, in) != -1 {
							r.Fail("input modified")
						}
						if nIn == len(skOut) {
							ev.KeySwitchLWETo(ct, ct, ksk)
							if eqVec(ct.Value, o.Value) != -1 {
								r.Fail("in place differs")
							}
						}
					}
					if eqVec(flatten(ksk), kin) != -1 {
						r.Fail("key modified")
					}
				})
			}
		}
		// input dimension equal to the output dimension: in-place switch
		n := len(skOut)
		skIn := tfhe.NewLWESecretKeyCustom[T](n)
		for i := range skIn.Value {
			skIn.Value[i] = T(r.Intn(2))
		}
		ksk := enc.GenLWEKeySwitchKey(skIn, gad[T](4, 5))
		ct := randLWE[T](r, n)
		r.Case("bits=%d order=%v in place", bitsOf[T](), order)
		r.Try(func() {
			o := ev.KeySwitchLWE(ct, ksk)
			ev.KeySwitchLWETo(ct, ct, ksk)
			if eqVec(ct.Value, o.Value) != -1 {
				r.Fail("in place differs")
			}
		})
	}
}

func keySwitchGLWE11[T ti](r *rt.R) {
	for _, c := range [][3]int{{1, 16, 1}, {1, 16, 3}, {2, 32, 1}, {2, 16, 2}, {3, 16, 2}, {1, 256, 1}} {
		k, N, kin := c[0], c[1], c[2]
		p := lit[T](6, k, N, 1, 1, 4, ksbr).Compile()
		enc := tfhe.NewEncryptor(p)
		ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
		for _, g := range [][2]int{{7, 3}, {4, 6}, {10, 2}, {12, 1}} {
			gp := gad[T](g[0], g[1])
			r.Case("bits=%d k=%d N=%d kin=%d gadget=%v", bitsOf[T](), k, N, kin, g)
			r.Try(func() {
				skIn := tfhe.NewGLWESecretKeyCustom[T](kin, N)
				for i := range skIn.Value {
					for j := range skIn.Value[i].Coeffs {
						skIn.Value[i].Coeffs[j] = T(r.Intn(2))
					}
				}
				ksk := enc.GenGLWEKeySwitchKey(skIn, gp)
				if ksk.InputGLWERank() != kin {
					r.Fail("key shape")
					return
				}
				for it := 0; it < 2; it++ {
					ct := randGLWE[T](r, kin, N)
					in := flatten(ct)
					// products are with digits below the base
					tol := prodTol[T](N, g[1]*kin, g[0]) + gadTol[T](g[0], g[1])*float64(N*kin)
					want := phaseGLWE(ct, skIn)
					o := ev.KeySwitchGLWE(ct, ksk)
					if len(o.Value) != k+1 {
						r.Fail("shape")
						return
					}
					if d := maxDist(phaseGLWE(o, enc.SecretKey.GLWEKey), want); d > tol {
						r.Fail("phase off by %g > %g", d, tol)
					}
					if eqVec(flatten(ct), in) != -1 {
						r.Fail("input modified")
					}
					o2 := randGLWE[T](r, k, N)
					ev.KeySwitchGLWETo(o2, ct, ksk)
					if eqVec(flatten(o2), flatten(o)) != -1 {
						r.Fail("result depends on the destination")
					}
					c2 := ct.Copy()
					dd := make([]T, N)
					randVec(r, dd)
					c2.Value[0].Coeffs = addv(c2.Value[0].Coeffs, dd)
					o3 := ev.KeySwitchGLWE(c2, ksk)
					o3.Value[0].Coeffs = subv(o3.Value[0].Coeffs, dd)
					if eqVec(flatten(o3), flatten(o)) != -1 {
						r.Fail("body not carried over exactly")
					}
					if kin == k {
						ev.KeySwitchGLWETo(ct, ct, ksk)
						if eqVec(flatten(ct), flatten(o)) != -1 {
							r.Fail("in place differs")
						}
					}
				}
			})
		}
	}
}

func defaultSwitch11[T ti](r *rt.R) {
	for _, c := range [][4]int{{6, 2, 16, 1}, {32, 2, 16, 2}, {16, 1, 16, 4}, {5, 1, 64, 1}} {
		n, k, N, block := c[0], c[1], c[2], c[3]
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			p := lit[T](n, k, N, 1, block, 4, order).Compile()
			enc := tfhe.NewEncryptor(p)
			for gen := 0; gen < 2; gen++ {
				r.Case("bits=%d n=%d k=%d N=%d block=%d order=%v parallel=%d", bitsOf[T](), n, k, N, block, order, gen)
				r.Try(func() {
					var ksk tfhe.LWEKeySwitchKey[T]
					if gen == 0 {
						ksk = enc.GenDefaultKeySwitchKey()
					} else {
						ksk = enc.GenDefaultKeySwitchKeyParallel()
					}
					if len(ksk.Value) != k*N-n {
						r.Fail("key rows %d", len(ksk.Value))
						return
					}
					sk, large := enc.SecretKey.LWEKey.Value, enc.SecretKey.LWELargeKey.Value
					for i := range ksk.Value {
						for j := range ksk.Value[i].Value {
							if len(ksk.Value[i].Value[j].Value) != n+1 {
								r.Fail("row length")
								return
							}
							lb := p.KeySwitchParams().LogBase()
							if ph := phaseLWE(ksk.Value[i].Value[j].Value, sk); ph != large[n+i]<<(bitsOf[T]()-lb*(j+1)) {
								r.Fail("key row %d level %d phase %d", i, j, ph)
								return
							}
						}
					}
					ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{KeySwitchKey: ksk})
					lb, lv := p.KeySwitchParams().LogBase(), p.KeySwitchParams().Level()
					for it := 0; it < r.N(3); it++ {
						ct := randLWE[T](r, k*N)
						in := append([]T(nil), ct.Value...)
						want := ct.Value[0]
						for i := range large {
							if i < n {
								want += ct.Value[i+1] * large[i]
							} else {
								want += roundGadget(ct.Value[i+1], lb, lv) * large[i]
							}
						}
						o := ev.DefaultKeySwitch(ct)
						if len(o.Value) != n+1 {
							r.Fail("length")
							return
						}
						if ph := phaseLWE(o.Value, sk); ph != want {
							r.Fail("phase %d want %d", ph, want)
						}
						if eqVec(ct.Value, in) != -1 {
							r.Fail("input modified")
						}
						o2 := randLWE[T](r, n)
						ev.DefaultKeySwitchTo(o2, ct)
						if eqVec(o2.Value, o.Value) != -1 {
							r.Fail("result depends on the destination")
						}
						// the unswitched prefix passes through unchanged
						c2 := ct.Copy()
						d := make([]T, n+1)
						randVec(r, d)
						for i := range d {
							c2.Value[i] += d[i]
						}
						o3 := ev.DefaultKeySwitch(c2)
						if eqVec(subv(o3.Value, d), o.Value) != -1 {
							r.Fail("prefix changed")
						}
					}
				})
			}
		}
	}
}

func TestVerifP11(t *testing.T) {
	rt.Run(t, "P11", "lwe64", keySwitchLWE11[uint64])
	rt.Run(t, "P11", "lwe32", keySwitchLWE11[uint32])
	rt.Run(t, "P11", "glwe64", keySwitchGLWE11[uint64])
	rt.Run(t, "P11", "glwe32", keySwitchGLWE11[uint32])
	rt.Run(t, "P11", "default64", defaultSwitch11[uint64])
	rt.Run(t, "P11", "default32", defaultSwitch11[uint32])
}
