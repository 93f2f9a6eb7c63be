package xtfhe_test

import (
	"reflect"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func TestVerifP19(t *testing.T) {
	rt.Run(t, "P19", "xtfhe copies", func(r *rt.R) { copies19[uint64](r); copies19[uint32](r) })
}

func args19[T ti](r *rt.R, p tfhe.Parameters[T], lutCount int, bfv bool) func(reflect.Type) (reflect.Value, bool) {
	N, g, k := p.PolyRank(), p.BlindRotateParams(), p.GLWERank()
	mk := map[reflect.Type]func() interface{}{}
	put := func(f func() interface{}) {
		mk[reflect.TypeOf(f())] = func() interface{} {
			v := reflect.New(reflect.TypeOf(f()))
			v.Elem().Set(reflect.ValueOf(f()))
			ops.Fill(r, v.Interface())
			return v.Elem().Interface()
		}
	}
	fftPolys := func() []poly.FFTPoly {
		o := make([]poly.FFTPoly, g.Level())
		for i := range o {
			o[i] = poly.NewFFTPoly(N)
		}
		return o
	}
	put(func() interface{} { return tfhe.NewLWECiphertextCustom[T](k * N) })
	put(func() interface{} { return tfhe.NewGLWECiphertext(p) })
	put(func() interface{} { return tfhe.NewFFTGLWECiphertext(p) })
	put(func() interface{} { return tfhe.NewFFTGLevCiphertext(p, g) })
	put(func() interface{} { return tfhe.NewFFTGGSWCiphertext(p, g) })
	put(func() interface{} { return tfhe.NewGLWEPlaintext(p) })
	put(func() interface{} { return tfhe.LWEPlaintext[T]{} })
	put(func() interface{} { return tfhe.NewLUT(p) })
	put(func() interface{} { return tfhe.NewGLWEKeySwitchKey(p, k, g) })
	put(func() interface{} { return poly.NewPoly[T](N) })
	put(func() interface{} { return poly.NewFFTPoly(N) })
	put(func() interface{} { return fftPolys() })
	put(func() interface{} {
		o := make([][]poly.FFTPoly, k+1)
		for i := range o {
			o[i] = fftPolys()
		}
		return o
	})
	put(func() interface{} {
		o := make([]tfhe.LWECiphertext[T], lutCount)
		for i := range o {
			o[i] = tfhe.NewLWECiphertext(p)
		}
		return o
	})
	mk[reflect.TypeOf(g)] = func() interface{} { return g }
	mk[reflect.TypeOf([]func(int) int{})] = func() interface{} {
		c := r.Intn(4)
		return []func(int) int{func(x int) int { return x ^ c&1 }}
	}
	mk[reflect.TypeOf([]func(int) T{})] = func() interface{} {
		c := r.Intn(4)
		return []func(int) T{func(x int) T { return T(x+c) << 20 }}
	}
	mk[reflect.TypeOf([]int{})] = func() interface{} { return []int{1, 3, 2*r.Intn(N) + 1} }
	mk[reflect.TypeOf(map[int]tfhe.GLWEKeySwitchKey[T]{})] = func() interface{} { return map[int]tfhe.GLWEKeySwitchKey[T]{} }
	tensor := mk[reflect.TypeOf(tfhe.GLWECiphertext[T]{})]
	mk[reflect.TypeOf(tfhe.GLWECiphertext[T]{})] = func() interface{} {
		if bfv && r.Intn(2) == 0 {
			ct := tfhe.NewGLWECiphertextCustom[T](k*(k+3)/2, N)
			ops.Fill(r, &ct)
			return ct
		}
		return tensor()
	}
	return ops.Args(r, N, int(p.MessageModulus()), mk)
}

func copies19[T ti](r *rt.R) {
	for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
		l := lit[T](4, 1, 16, 1+r.Intn(2), 2, order)
		p := l.Compile()
		e := tfhe.NewEncryptor(p)
		evk := e.GenEvalKey()
		gen := args19[T](r, p, 2, false)

		kg := xtfhe.NewBFVKeyGenerator(p, e.SecretKey)
		ops.Isolated(r, "BFVKeyGenerator", kg, gen, ops.RandomMethods)
		bk := kg.GenEvalKey([]int{1, 3, 5, 7}, p.BlindRotateParams())
		kg.GenGaloisKeysForPackTo(bk.GaloisKeys, p.BlindRotateParams())
		ops.Isolated(r, "BFVEvaluator", xtfhe.NewBFVEvaluator(p, bk), args19[T](r, p, 2, true), nil)

		mp := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: l, LUTCount: 2}
		ops.Isolated(r, "ManyLUTEvaluator", xtfhe.NewManyLUTEvaluator(mp.Compile(), evk), gen, ops.RandomMethods)

		cp := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: mp, SchemeSwitchParams: brg[T](), TraceKeySwitchParams: brg[T](), OutputParams: gl[T](4, 3)}.Compile()
		ck := xtfhe.NewCircuitBootstrapKeyGenerator(cp, e.SecretKey)
		ops.Isolated(r, "CircuitBootstrapKeyGenerator", ck, gen, ops.RandomMethods)
		cgen := func(t reflect.Type) (reflect.Value, bool) {
			if t == reflect.TypeOf(tfhe.FFTGGSWCiphertext[T]{}) {
				return reflect.ValueOf(tfhe.NewFFTGGSWCiphertext(p, cp.OutputParams())), true
			}
			return gen(t)
		}
		ops.Isolated(r, "CircuitBootstrapper", xtfhe.NewCircuitBootstrapper(cp, evk, ck.GenCircuitBootstrapKey()), cgen, ops.RandomMethods)

		sd := 0.5 / (1 << 32)
		if bitsOf[T]() == 64 {
			sd /= 1 << 32
		}
		l.BlockSize = 1
		fp := xtfhe.FHEWParametersLiteral[T]{BaseParams: l, SecretKeyStdDev: sd, WindowSize: 3}.Compile()
		fe := xtfhe.NewFHEWEncryptor(fp)
		ops.Isolated(r, "FHEWEncryptor", fe, gen, ops.RandomMethods)
		ops.Isolated(r, "FHEWEvaluator", xtfhe.NewFHEWEvaluator(fp, fe.GenEvalKey()), gen, ops.RandomMethods)

		if order == ksbr {
			q := 1.0 / (1 << 32) / (1 << 32)
			sp := xtfhe.SanitizationParametersLiteral[T]{BaseParams: l, RandSigma: 2 * q, RandTau: 8 * q, LinEvalSigma: 1.5 * q, LinEvalTau: 4 * q}
			if bitsOf[T]() == 32 {
				sp.RandSigma, sp.RandTau, sp.LinEvalSigma, sp.LinEvalTau = 2/float64(1<<32), 8/float64(1<<32), 1.5/float64(1<<32), 4/float64(1<<32)
			}
			ops.Isolated(r, "Sanitizer", xtfhe.NewSanitizer(sp.Compile(), e.GenPublicKey(), evk), gen, ops.RandomMethods)
		}
	}
}
