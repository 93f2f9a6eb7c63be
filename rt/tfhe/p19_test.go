package tfhe_test

import (
	"reflect"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP19(t *testing.T) {
	rt.Run(t, "P19", "tfhe copies", func(r *rt.R) { copies19[uint64](r); copies19[uint32](r) })
	rt.Run(t, "P19", "poly copies", func(r *rt.R) { poly19[uint64](r); poly19[uint32](r); poly19[int32](r) })
	rt.Run(t, "P19", "parallel keys", func(r *rt.R) { parallel19[uint64](r); parallel19[uint32](r) })
}

// args19 builds arguments of every type of the package for one parameter set.
func args19[T ti](r *rt.R, p tfhe.Parameters[T]) func(reflect.Type) (reflect.Value, bool) {
	N, g := p.PolyRank(), p.BlindRotateParams()
	mk := map[reflect.Type]func() interface{}{}
	put := func(f func() interface{}) {
		mk[reflect.TypeOf(f())] = func() interface{} {
			v := reflect.New(reflect.TypeOf(f()))
			v.Elem().Set(reflect.ValueOf(f()))
			ops.Fill(r, v.Interface())
			return v.Elem().Interface()
		}
	}
	put(func() interface{} { return tfhe.NewLWECiphertext(p) })
	put(func() interface{} { return tfhe.NewLevCiphertext(p, g) })
	put(func() interface{} { return tfhe.NewGSWCiphertext(p, g) })
	put(func() interface{} { return tfhe.NewGLWECiphertext(p) })
	put(func() interface{} { return tfhe.NewGLevCiphertext(p, g) })
	put(func() interface{} { return tfhe.NewGGSWCiphertext(p, g) })
	put(func() interface{} { return tfhe.NewFFTGLWECiphertext(p) })
	put(func() interface{} { return tfhe.NewFFTGLevCiphertext(p, g) })
	put(func() interface{} { return tfhe.NewFFTGGSWCiphertext(p, g) })
	put(func() interface{} { return tfhe.NewGLWEPlaintext(p) })
	put(func() interface{} { return tfhe.LWEPlaintext[T]{} })
	put(func() interface{} { return tfhe.NewLUT(p) })
	put(func() interface{} { return tfhe.NewLWESecretKey(p) })
	put(func() interface{} { return tfhe.NewGLWESecretKey(p) })
	put(func() interface{} { return tfhe.NewFFTGLWESecretKey(p) })
	put(func() interface{} { return tfhe.NewLWEKeySwitchKey(p, p.DefaultLWEDimension(), g) })
	put(func() interface{} { return tfhe.NewGLWEKeySwitchKey(p, p.GLWERank(), g) })
	put(func() interface{} { return poly.NewPoly[T](N) })
	put(func() interface{} { return poly.NewFFTPoly(N) })
	put(func() interface{} { return make([]T, g.Level()) })
	put(func() interface{} {
		o := make([]poly.Poly[T], g.Level())
		for i := range o {
			o[i] = poly.NewPoly[T](N)
		}
		return o
	})
	fftPolys := func() []poly.FFTPoly {
		o := make([]poly.FFTPoly, g.Level())
		for i := range o {
			o[i] = poly.NewFFTPoly(N)
		}
		return o
	}
	put(func() interface{} { return fftPolys() })
	put(func() interface{} {
		o := make([][]poly.FFTPoly, p.GLWERank()+1)
		for i := range o {
			o[i] = fftPolys()
		}
		return o
	})
	put(func() interface{} {
		o := make([]tfhe.LWECiphertext[T], 3)
		for i := range o {
			o[i] = tfhe.NewLWECiphertext(p)
		}
		return o
	})
	mk[reflect.TypeOf(g)] = func() interface{} { return g }
	return ops.Args(r, N, int(p.MessageModulus()), mk)
}

func copies19[T ti](r *rt.R) {
	for _, c := range []struct{ k, ext, block int }{{1, 1, 1}, {2, 1, 3}, {1, 2, 2}, {1, 1, 6}, {2, 4, 1}} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			p := lit[T](6, c.k, 16, c.ext, c.block, 4, order).Compile()
			gen := args19[T](r, p)
			e := tfhe.NewEncryptor(p)
			evk := e.GenEvalKey()
			ops.Isolated(r, "Encryptor", e, gen, ops.RandomMethods)
			ops.Isolated(r, "Evaluator", tfhe.NewEvaluator(p, evk), gen, ops.RandomMethods)
			ops.Isolated(r, "keyless Evaluator", tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{}), gen, ops.RandomMethods)
			ops.Isolated(r, "Decomposer", tfhe.NewDecomposer[T](p.PolyRank()), gen, nil)
			d := tfhe.NewDecomposer[T](p.PolyRank())
			d.ScalarBuffer(p.KeySwitchParams())
			d.PolyBuffer(p.KeySwitchParams())
			d.FFTPolyBuffer(p.KeySwitchParams())
			ops.Isolated(r, "Decomposer with buffers", d, gen, nil)
			ops.Isolated(r, "GLWETransformer", tfhe.NewGLWETransformer[T](p.PolyRank()), gen, nil)
			ops.Isolated(r, "BinaryEncryptor", tfhe.NewBinaryEncryptor(p), gen, ops.RandomMethods)
			ops.Isolated(r, "BinaryEvaluator", tfhe.NewBinaryEvaluator(p, evk), gen, ops.RandomMethods)
			if order == ksbr {
				pk := e.GenPublicKey()
				ops.Isolated(r, "PublicEncryptor", tfhe.NewPublicEncryptor(p, pk), gen, ops.RandomMethods)
				ops.Isolated(r, "BinaryPublicEncryptor", tfhe.NewBinaryPublicEncryptor(p, pk), gen, ops.RandomMethods)
			}
		}
	}
}

func poly19[T uint32 | uint64 | int32](r *rt.R) {
	for _, N := range []int{16, 32, 1024} {
		mk := map[reflect.Type]func() interface{}{}
		mk[reflect.TypeOf(poly.Poly[T]{})] = func() interface{} {
			p := poly.NewPoly[T](N)
			for i := range p.Coeffs {
				p.Coeffs[i] = T(r.Word())
			}
			return p
		}
		mk[reflect.TypeOf(poly.FFTPoly{})] = func() interface{} {
			p := poly.NewFFTPoly(N)
			for i := range p.Coeffs {
				p.Coeffs[i] = r.Float64() * 1000
			}
			return p
		}
		mk[reflect.TypeOf(T(0))] = func() interface{} { return T(r.Word()) }
		ops.Isolated(r, "poly.Evaluator", poly.NewEvaluator[T](N), ops.Args(r, N, 4, mk), nil)
	}
}

// parallel19: keys generated in parallel encrypt the same as keys generated sequentially.
func parallel19[T ti](r *rt.R) {
	for _, c := range []struct{ n, k, block int }{{1, 1, 1}, {7, 1, 1}, {6, 2, 3}, {30, 1, 2}} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			p := lit[T](c.n, c.k, 32, 1, c.block, 4, order).Compile()
			e := tfhe.NewEncryptor(p)
			r.Case("bits=%d %+v order=%v", bitsOf[T](), c, order)
			r.Try(func() {
				a, b := e.GenEvalKey(), e.GenEvalKeyParallel()
				glwe := func(what string, x, y tfhe.FFTGLWECiphertext[T]) {
					u := phaseGLWE(e.InvFFTGLWECiphertext(x), e.SecretKey.GLWEKey)
					v := phaseGLWE(e.InvFFTGLWECiphertext(y), e.SecretKey.GLWEKey)
					if d := maxDist(u, v); d > 1<<20 {
						r.Fail("%s: sequential and parallel differ by %g", what, d)
					}
				}
				if len(a.BlindRotateKey.Value) != len(b.BlindRotateKey.Value) {
					r.Fail("blind rotate key lengths differ")
					return
				}
				for i := range a.BlindRotateKey.Value {
					for j := range a.BlindRotateKey.Value[i].Value {
						for l := range a.BlindRotateKey.Value[i].Value[j].Value {
							glwe("blind rotate key", a.BlindRotateKey.Value[i].Value[j].Value[l], b.BlindRotateKey.Value[i].Value[j].Value[l])
						}
					}
				}
				if len(a.KeySwitchKey.Value) != len(b.KeySwitchKey.Value) {
					r.Fail("key-switch key lengths differ")
					return
				}
				for i := range a.KeySwitchKey.Value {
					for l := range a.KeySwitchKey.Value[i].Value {
						x, y := a.KeySwitchKey.Value[i].Value[l].Value, b.KeySwitchKey.Value[i].Value[l].Value
						if phaseLWE(x, e.SecretKey.LWEKey.Value) != phaseLWE(y, e.SecretKey.LWEKey.Value) {
							r.Fail("key-switch key: sequential and parallel differ at %d,%d", i, l)
						}
					}
				}
			})
		}
	}
}
