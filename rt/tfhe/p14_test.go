// needs: p11

package tfhe_test

import (
	"math"
	"math/big"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/tfhe"
)

// modSwitchRef is round(2*size*x/Q) mod 2*size, ties upward.
func modSwitchRef(x *big.Int, bits, size int) int {
	z := new(big.Int).Mul(x, big.NewInt(int64(4*size)))
	z.Add(z, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	z.Rsh(z, uint(bits+1))
	return int(z.Mod(z, big.NewInt(int64(2*size))).Int64())
}

func modSwitch14[T ti](r *rt.R) {
	b := bitsOf[T]()
	for _, c := range [][2]int{{16, 1}, {16, 4}, {64, 1}, {256, 8}, {1024, 1}, {2048, 16}} {
		p := lit[T](4, 1, c[0], c[1], 1, 4, brks).Compile()
		ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
		size := c[0] * c[1]
		var xs []T
		for j := 0; j < 40; j++ {
			m := r.Intn(2 * size)
			if j < 4 {
				m = []int{0, 1, size, 2*size - 1}[j]
			}
			step := T(1) << (b - 1 - int(math.Round(math.Log2(float64(size)))))
			base := T(m) * step
			for _, d := range []int64{0, 1, -1} {
				xs = append(xs, base+T(d), base+step/2+T(d), base+step/2-step/4096+T(d))
			}
		}
		for i := 0; i < r.N(200); i++ {
			xs = append(xs, T(r.Word()), T(r.Uint64()))
		}
		for _, x := range xs {
			r.Case("bits=%d lutSize=%d x=%d", b, size, x)
			got := ev.ModSwitch(x)
			if got < 0 || got >= 2*size {
				r.Fail("ModSwitch out of range: %d", got)
				continue
			}
			w := modSwitchRef(new(big.Int).SetUint64(uint64(x)), b, size)
			f, _ := big.NewFloat(float64(x)).Int(nil)
			if wf := modSwitchRef(f, b, size); got != w && got != wf {
				r.Fail("ModSwitch(%d) = %d, want %d", x, got, w)
			}
		}
	}
}

type conf14 struct{ n, k, N, ext, block int }

func confs14(r *rt.R) []conf14 {
	c := []conf14{
		{4, 1, 64, 1, 1}, {1, 1, 16, 1, 1}, {5, 2, 32, 1, 1}, {2, 3, 16, 1, 1},
		{4, 1, 64, 1, 2}, {4, 1, 64, 1, 4}, {6, 2, 32, 1, 3}, {2, 1, 32, 1, 2},
		{4, 1, 32, 2, 1}, {4, 1, 32, 4, 1}, {6, 1, 32, 2, 2}, {4, 2, 16, 4, 2}, {9, 1, 32, 8, 3}, {2, 1, 16, 8, 1},
		{4, 1, 32, 2, 4}, {1, 1, 32, 2, 1}, {3, 2, 16, 4, 3},
	}
	if r.N(2) > 2 {
		c = append(c, conf14{12, 1, 256, 1, 1}, conf14{12, 1, 256, 2, 4}, conf14{12, 2, 128, 4, 3}, conf14{15, 1, 512, 1, 5})
	}
	return c
}

// rotTol bounds the noise of a blind rotation with noise-free keys.
func rotTol[T ti](p tfhe.Parameters[T], c conf14) float64 {
	g := p.BlindRotateParams()
	return float64(2*c.n) * (gadTol[T](g.LogBase(), g.Level())*float64(c.k*c.N+1) + prodTol[T](c.N, g.Level()*(c.k+1)*4, g.LogBase()))
}

func blindRotate14[T ti](r *rt.R) {
	for _, c := range confs14(r) {
		p := lit[T](c.n, c.k, c.N, c.ext, c.block, 4, brks).Compile()
		enc := tfhe.NewEncryptor(p)
		var evk tfhe.EvaluationKey[T]
		evk.BlindRotateKey = enc.GenBlindRotateKey()
		if r.Intn(2) == 0 {
			evk.BlindRotateKey = enc.GenBlindRotateKeyParallel()
		}
		ev := tfhe.NewEvaluator(p, evk)
		kin := flatten(evk.BlindRotateKey)
		size := c.N * c.ext
		sk := enc.SecretKey.LWEKey.Value
		tol := rotTol(p, c)
		for it := 0; it < r.N(6); it++ {
			r.Case("bits=%d %+v it=%d", bitsOf[T](), c, it)
			r.Try(func() {
				ct := randLWE[T](r, c.n)
				switch it % 3 {
				case 0: // aligned masks: monomial index a multiple of the extension factor
					for i := range ct.Value {
						ct.Value[i] = T(r.Intn(2*c.N)) << (bitsOf[T]() - 1 - int(math.Log2(float64(c.N))))
					}
				case 1:
					for i := range ct.Value {
						ct.Value[i] = T(r.Uint64())
					}
				}
				lut := tfhe.NewLUT(p)
				for i := range lut.Value {
					for j := range lut.Value[i].Coeffs {
						lut.Value[i].Coeffs[j] = T(r.Uint64())
					}
				}
				in, lin := append([]T(nil), ct.Value...), flatten(lut)
				rot := ev.ModSwitch(ct.Value[0])
				for i := range sk {
					rot += int(sk[i]) * ev.ModSwitch(ct.Value[i+1])
				}
				big := make([]T, size)
				for i := range lut.Value {
					for j, x := range lut.Value[i].Coeffs {
						big[j*c.ext+i] = x
					}
				}
				big = refMono(big, -rot)
				want := make([]T, c.N)
				for j := range want {
					want[j] = big[j*c.ext]
				}
				o := ev.BlindRotate(ct, lut)
				if d := maxDist(phaseGLWE(o, enc.SecretKey.GLWEKey), want); d > tol {
					r.Fail("phase off by %g > %g", d, tol)
				}
				o2 := randGLWE[T](r, c.k, c.N)
				ev.BlindRotateTo(o2, ct, lut)
				if eqVec(flatten(o2), flatten(o)) != -1 {
					r.Fail("result depends on the destination or on earlier calls")
				}
				if eqVec(ct.Value, in) != -1 || eqVec(flatten(lut), lin) != -1 {
					r.Fail("input modified")
				}
			})
		}
		r.Case("bits=%d %+v key", bitsOf[T](), c)
		if eqVec(flatten(evk.BlindRotateKey), kin) != -1 {
			r.Fail("evaluation key modified")
		}
	}
}

func bootstrap14[T ti](r *rt.R) {
	for _, c := range confs14(r) {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			if c.n >= c.k*c.N {
				continue
			}
			for _, mm := range []T{2, 4, 3} {
				p := lit[T](c.n, c.k, c.N, c.ext, c.block, mm, order).Compile()
				enc := tfhe.NewEncryptor(p)
				evk := enc.GenEvalKey()
				if r.Intn(2) == 0 {
					evk = enc.GenEvalKeyParallel()
				}
				ev := tfhe.NewEvaluator(p, evk)
				kin := flatten(evk)
				sk := dfltKey(enc)
				size := c.N * c.ext
				step := math.Exp2(float64(bitsOf[T]())) / float64(2*size)
				kg := p.KeySwitchParams()
				// rotation error + key switch error
				drift := step*float64(c.n+3)/2 + float64(c.k*c.N)*gadTol[T](kg.LogBase(), kg.Level())
				half := float64(p.Scale())/2 - drift - float64(mm)
				if half < 0 {
					continue
				}
				tol := rotTol(p, c) + float64(c.k*c.N)*gadTol[T](kg.LogBase(), kg.Level())
				if tol > float64(p.Scale())/4 {
					continue
				}
				f := func(x int) int { return (3*x + 1) * x }
				if r.Intn(2) == 0 {
					off := r.Intn(int(mm))
					f = func(x int) int { return x + off }
				}
				lut := ev.GenLUT(f)
				for m := 0; m < int(mm); m++ {
					for it := 0; it < 3; it++ {
						r.Case("bits=%d %+v order=%v mm=%d m=%d it=%d", bitsOf[T](), c, order, mm, m, it)
						r.Try(func() {
							e := []float64{0, half, -half}[it]
							ct := randLWE[T](r, len(sk))
							ct.Value[0] = 0
							ct.Value[0] = ev.EncodeLWE(m).Value + T(int64(e)) - phaseLWE(ct.Value, sk)
							in := append([]T(nil), ct.Value...)
							o := ev.BootstrapLUT(ct, lut)
							if len(o.Value) != len(sk)+1 {
								r.Fail("length")
								return
							}
							want := ev.EncodeLWE(f(m)).Value
							if d := absf(sgn(phaseLWE(o.Value, sk) - want)); d > tol {
								r.Fail("phase off by %g > %g", d, tol)
							}
							if g := enc.DecryptLWE(o); g != pmod(f(m), uint64(mm)) {
								r.Fail("decrypts to %d, want %d", g, pmod(f(m), uint64(mm)))
							}
							if eqVec(ct.Value, in) != -1 {
								r.Fail("input modified")
							}
							o2 := randLWE[T](r, len(sk))
							ev.BootstrapLUTTo(o2, ct, lut)
							if eqVec(o2.Value, o.Value) != -1 {
								r.Fail("BootstrapLUTTo differs")
							}
							if o3 := ev.BootstrapFunc(ct, f); eqVec(o3.Value, o.Value) != -1 {
								r.Fail("BootstrapFunc differs")
							}
							ev.BootstrapFuncTo(ct, ct, f)
							if eqVec(ct.Value, o.Value) != -1 {
								r.Fail("BootstrapFuncTo in place differs")
							}
						})
					}
				}
				r.Case("bits=%d %+v order=%v key", bitsOf[T](), c, order)
				if eqVec(flatten(evk), kin) != -1 {
					r.Fail("evaluation key modified")
				}
			}
		}
	}
}

func TestVerifP14(t *testing.T) {
	rt.Run(t, "P14", "modswitch64", modSwitch14[uint64])
	rt.Run(t, "P14", "modswitch32", modSwitch14[uint32])
	rt.Run(t, "P14", "rotate64", blindRotate14[uint64])
	rt.Run(t, "P14", "rotate32", blindRotate14[uint32])
	rt.Run(t, "P14", "bootstrap64", bootstrap14[uint64])
	rt.Run(t, "P14", "bootstrap32", bootstrap14[uint32])
	rt.Run(t, "P14", "keyswitch64", defaultSwitch11[uint64])
	rt.Run(t, "P14", "keyswitch32", defaultSwitch11[uint32])
}
