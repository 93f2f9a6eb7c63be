package mktfhe_test

import (
	"reflect"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP19(t *testing.T) {
	rt.Run(t, "P19", "mktfhe copies", func(r *rt.R) { copies19[uint64](r); copies19[uint32](r) })
	rt.Run(t, "P19", "mktfhe parallel", func(r *rt.R) { parallel19[uint64](r); parallel19[uint32](r) })
}

func args19[T ti](r *rt.R, p mktfhe.Parameters[T]) func(reflect.Type) (reflect.Value, bool) {
	N, g := p.PolyRank(), p.SubParams().BlindRotateParams()
	rg, ag := p.Literal().RelinKeyParams.Compile(), p.Literal().AccumulatorParams.Compile()
	sp := p.SubParams()
	mk := map[reflect.Type]func() interface{}{}
	put := func(f func() interface{}) {
		mk[reflect.TypeOf(f())] = func() interface{} {
			v := reflect.New(reflect.TypeOf(f()))
			v.Elem().Set(reflect.ValueOf(f()))
			ops.Fill(r, v.Interface())
			return v.Elem().Interface()
		}
	}
	put(func() interface{} { return mktfhe.NewLWECiphertext(p) })
	put(func() interface{} { return mktfhe.NewGLWECiphertext(p) })
	put(func() interface{} { return mktfhe.NewFFTGLWECiphertext(p) })
	put(func() interface{} { return mktfhe.NewUniEncryption(p, rg) })
	put(func() interface{} { return mktfhe.NewFFTUniEncryption(p, rg) })
	put(func() interface{} { return tfhe.NewLWECiphertext(sp) })
	put(func() interface{} { return tfhe.NewGLWECiphertext(sp) })
	put(func() interface{} { return tfhe.NewFFTGLWECiphertext(sp) })
	put(func() interface{} { return tfhe.NewGLevCiphertext(sp, ag) })
	put(func() interface{} { return tfhe.NewFFTGLevCiphertext(sp, ag) })
	put(func() interface{} { return tfhe.NewGLWEPlaintext(sp) })
	put(func() interface{} { return tfhe.LWEPlaintext[T]{} })
	put(func() interface{} { return tfhe.NewLUT(sp) })
	put(func() interface{} { return tfhe.NewGLWESecretKey(sp) })
	put(func() interface{} { return tfhe.NewFFTGLWESecretKey(sp) })
	put(func() interface{} { return poly.NewPoly[T](N) })
	put(func() interface{} { return poly.NewFFTPoly(N) })
	put(func() interface{} {
		o := make([]mktfhe.LWECiphertext[T], 3)
		for i := range o {
			o[i] = mktfhe.NewLWECiphertext(p)
		}
		return o
	})
	mk[reflect.TypeOf(g)] = func() interface{} { return rg }
	return ops.Args(r, N, int(p.MessageModulus()), mk)
}

func copies19[T ti](r *rt.R) {
	for _, n := range []int{1, 2, 3} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			p := mklit[T](n, 4, 16, 1+r.Intn(2), 4, order).Compile()
			gen := args19[T](r, p)
			w := newWorld(p)
			all := map[int]mktfhe.EvaluationKey[T]{}
			some := map[int]mktfhe.EvaluationKey[T]{}
			for i, e := range w.encs {
				all[i] = e.GenEvalKey()
				if i > 0 {
					some[i] = all[i]
				}
			}
			e := w.encs[n-1]
			ops.Isolated(r, "Encryptor", e, gen, append([]string{"UniEnc"}, ops.RandomMethods...))
			ops.Isolated(r, "Decryptor", w.dec, gen, nil)
			ops.Isolated(r, "partial Decryptor", mktfhe.NewDecryptor(p, map[int]tfhe.SecretKey[T]{n - 1: e.SecretKey}), gen, nil)
			ops.Isolated(r, "Evaluator", mktfhe.NewEvaluator(p, all), gen, ops.RandomMethods)
			ops.Isolated(r, "partial Evaluator", mktfhe.NewEvaluator(p, some), gen, ops.RandomMethods)
			ops.Isolated(r, "GLWETransformer", mktfhe.NewGLWETransformer[T](p.PolyRank()), gen, nil)
			ops.Isolated(r, "BinaryEncryptor", mktfhe.NewBinaryEncryptor(p, n-1, []byte("crs")), gen, append([]string{"UniEnc"}, ops.RandomMethods...))
			ops.Isolated(r, "BinaryDecryptor", mktfhe.NewBinaryDecryptor(p, map[int]tfhe.SecretKey[T]{n - 1: e.SecretKey}), gen, nil)
			ops.Isolated(r, "BinaryEvaluator", mktfhe.NewBinaryEvaluator(p, all), gen, ops.RandomMethods)
			if order == ksbr {
				pk := e.GenPublicKey()
				ops.Isolated(r, "PublicEncryptor", mktfhe.NewPublicEncryptor(p, n-1, pk), gen, ops.RandomMethods)
				ops.Isolated(r, "BinaryPublicEncryptor", mktfhe.NewBinaryPublicEncryptor(p, n-1, pk), gen, ops.RandomMethods)
			}
			// keys added to a copy or to the original stay there
			r.Case("bits=%d parties=%d AddEvaluationKey", bitsOf[T](), n)
			for way := 0; way < 2; way++ {
				a := mktfhe.NewEvaluator(p, some)
				b := a.SafeCopy()
				if way == 1 {
					a, b = b, a
				}
				d := ops.Dump(b)
				a.AddEvaluationKey(0, all[0])
				if x := ops.Dump(b); len(x) != len(d) || eqWords(x, d) >= 0 {
					r.Fail("adding an evaluation key to one of original and copy (way %d) changes the other", way)
				}
				if n > 1 {
					u := mktfhe.NewDecryptor(p, map[int]tfhe.SecretKey[T]{1: w.encs[1].SecretKey})
					v := u.SafeCopy()
					if way == 1 {
						u, v = v, u
					}
					d := ops.Dump(v)
					u.AddSecretKey(0, w.encs[0].SecretKey)
					if x := ops.Dump(v); len(x) != len(d) || eqWords(x, d) >= 0 {
						r.Fail("adding a secret key to one of original and copy (way %d) changes the other", way)
					}
				}
			}
		}
	}
}

func eqWords(a, b []uint64) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

// parallel19: parallel bootstrapping equals sequential bootstrapping bit by bit.
func parallel19[T ti](r *rt.R) {
	for _, n := range []int{1, 2, 3, 5} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			p := mklit[T](n, 4, 16, 1+r.Intn(2), 4, order).Compile()
			w := newWorld(p)
			keys := map[int]mktfhe.EvaluationKey[T]{}
			present := map[int]bool{}
			for i, e := range w.encs {
				if r.Intn(5) == 0 && i > 0 {
					continue
				}
				present[i] = true
				if r.Intn(2) == 0 {
					keys[i] = e.GenEvalKey()
				} else {
					keys[i] = e.GenEvalKeyParallel()
				}
			}
			ev := mktfhe.NewEvaluator(p, keys)
			N := p.PolyRank()
			for it := 0; it < r.N(6); it++ {
				ct := mktfhe.NewLWECiphertext(p)
				ops.Fill(r, &ct)
				one := (len(ct.Value) - 1) / n
				for i := 0; i < n; i++ {
					if !present[i] || r.Intn(3) == 0 {
						for j := 0; j < one; j++ {
							ct.Value[1+i*one+j] = 0
						}
					}
				}
				f := func(x int) int { return (3*x + it) % 4 }
				r.Case("bits=%d parties=%d present=%v order=%v ct=%v", bitsOf[T](), n, present, order, ct.Value)
				r.Try(func() {
					save := append([]T(nil), ct.Value...)
					want := ev.BootstrapFunc(ct, f)
					lut := tfhe.NewEvaluator(p.SubParams(), tfhe.EvaluationKey[T]{}).GenLUT(f)
					a := ev.BootstrapFuncParallel(ct, f)
					b := ev.BootstrapLUTParallel(ct, lut)
					c := mktfhe.NewLWECiphertext(p)
					ops.Fill(r, &c)
					ev.BootstrapFuncParallelTo(c, ct, f)
					d := ct.Copy()
					ev.BootstrapLUTParallelTo(d, d, lut)
					for k, x := range [][]T{a.Value, b.Value, c.Value, d.Value} {
						for i := range x {
							if x[i] != want.Value[i] {
								r.Fail("parallel variant %d differs from sequential at %d", k, i)
								break
							}
						}
					}
					for i := range save {
						if save[i] != ct.Value[i] {
							r.Fail("input modified")
							break
						}
					}
					in := mktfhe.NewLWECiphertextCustom[T](n * p.Literal().SubParams.LWEDimension)
					ops.Fill(r, &in)
					for i := 0; i < n; i++ {
						if !present[i] {
							for j := 0; j < len(in.Value)/n; j++ {
								in.Value[1+i*(len(in.Value)/n)+j] = 0
							}
						}
					}
					g, h := ev.BlindRotate(in, lut), ev.BlindRotateParallel(in, lut)
					o := mktfhe.NewGLWECiphertextCustom[T](n, N)
					ops.Fill(r, &o)
					ev.BlindRotateParallelTo(o, in, lut)
					if x, y, z := ops.Dump(g), ops.Dump(h), ops.Dump(o); eqWords(x, y) >= 0 || eqWords(x, z) >= 0 {
						r.Fail("parallel blind rotation differs from sequential")
					}
				})
			}
		}
	}
}
