package tfhe_test

import (
	"fmt"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP16(t *testing.T) {
	rt.Run(t, "P16", "keys and ciphertexts", func(r *rt.R) {
		p16objects[uint32](r)
		p16objects[uint64](r)
	})
	rt.Run(t, "P16", "parameters", func(r *rt.R) {
		p16params[uint32](r)
		p16params[uint64](r)
	})
	rt.Run(t, "P16", "generated keys", func(r *rt.R) {
		p16gen[uint32](r)
		p16gen[uint64](r)
	})
}

// p16all builds one object of every serialisable kind.
func p16all[T ti](n, k, N int, g, h tfhe.GadgetParameters[T]) map[string]interface{} {
	o := map[string]interface{}{}
	put := func(name string, x interface{}) { o[name] = x }
	a := tfhe.NewLWESecretKeyCustom[T](n)
	put("LWESecretKey", &a)
	b := tfhe.NewLWEPublicKeyCustom[T](k, N)
	put("LWEPublicKey", &b)
	c := tfhe.NewLWEPlaintext[T]()
	put("LWEPlaintext", &c)
	d := tfhe.NewLWECiphertextCustom[T](n)
	put("LWECiphertext", &d)
	e := tfhe.NewLevCiphertextCustom[T](n, g)
	put("LevCiphertext", &e)
	f := tfhe.NewGSWCiphertextCustom[T](n, g)
	put("GSWCiphertext", &f)
	a2 := tfhe.NewGLWESecretKeyCustom[T](k, N)
	put("GLWESecretKey", &a2)
	b2 := tfhe.NewGLWEPublicKeyCustom[T](k, N)
	put("GLWEPublicKey", &b2)
	c2 := tfhe.NewGLWEPlaintextCustom[T](N)
	put("GLWEPlaintext", &c2)
	d2 := tfhe.NewGLWECiphertextCustom[T](k, N)
	put("GLWECiphertext", &d2)
	e2 := tfhe.NewGLevCiphertextCustom[T](k, N, g)
	put("GLevCiphertext", &e2)
	f2 := tfhe.NewGGSWCiphertextCustom[T](k, N, g)
	put("GGSWCiphertext", &f2)
	a3 := tfhe.NewFFTGLWESecretKeyCustom[T](k, N)
	put("FFTGLWESecretKey", &a3)
	d3 := tfhe.NewFFTGLWECiphertextCustom[T](k, N)
	put("FFTGLWECiphertext", &d3)
	e3 := tfhe.NewFFTGLevCiphertextCustom[T](k, N, g)
	put("FFTGLevCiphertext", &e3)
	f3 := tfhe.NewFFTGGSWCiphertextCustom[T](k, N, g)
	put("FFTGGSWCiphertext", &f3)
	s := tfhe.NewSecretKeyCustom[T](imin(n, k*N), k, N)
	put("SecretKey", &s)
	pk := tfhe.NewPublicKeyCustom[T](k, N)
	put("PublicKey", &pk)
	ks := tfhe.NewLWEKeySwitchKeyCustom[T](n+2, n, g)
	put("LWEKeySwitchKey", &ks)
	gk := tfhe.NewGLWEKeySwitchKeyCustom[T](k+1, k, N, g)
	put("GLWEKeySwitchKey", &gk)
	br := tfhe.NewBlindRotateKeyCustom[T](imin(n, 5), k, N, g)
	put("BlindRotateKey", &br)
	ev := tfhe.NewEvaluationKeyCustom[T](imin(n, 6), k, N, g, h)
	put("EvaluationKey", &ev)
	return o
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func p16objects[T ti](r *rt.R) {
	gs := gadgetsFor[T](r)
	for it := 0; it < r.N(4) && (it < 2 || r.More()); it++ {
		n, k, N := 1+r.Intn(9), 1+r.Intn(3), 16<<r.Intn(2)
		gp := func() tfhe.GadgetParameters[T] {
			x := gs[r.Intn(len(gs))]
			return gad[T](x[0], x[1])
		}
		g, h := gp(), gp()
		o := p16all[T](n, k, N, g, h)
		o2 := p16all[T](n+1+r.Intn(3), 1+k%3, 48-N, gp(), gp())
		// no keyswitching key at all
		ev := tfhe.NewEvaluationKeyCustom[T](16, 1, 16, g, h)
		o["EvaluationKey without keyswitching"] = &ev
		o2["EvaluationKey without keyswitching"] = o2["EvaluationKey"]
		for name := range o {
			ops.Fill(r, o[name])
			ops.Fill(r, o2[name])
			ops.Serial(r, fmt.Sprintf("%s bits=%d n=%d k=%d N=%d gadget=(2^%d,%d)", name, bitsOf[T](), n, k, N, g.LogBase(), g.Level()), o[name], o2[name])
		}
	}
}

func p16params[T ti](r *rt.R) {
	mk := func() tfhe.Parameters[T] {
		k, N := 1+r.Intn(3), 16<<r.Intn(3)
		ext := 1 << r.Intn(3)
		block := 1 + r.Intn(3)
		n := block * (1 + r.Intn(k*N/block))
		order := ksbr
		if r.Intn(2) == 0 {
			order = brks
		}
		l := lit[T](n, k, N, ext, block, T(2)<<r.Intn(4), order)
		gs := gadgetsFor[T](r)
		a, b := gs[r.Intn(len(gs))], gs[r.Intn(len(gs))]
		l.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << a[0], Level: a[1]}
		l.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << b[0], Level: b[1]}
		l.LWEStdDev, l.GLWEStdDev = 1e-3*r.Float64()+1e-9, 1e-9*r.Float64()+1e-15
		return l.Compile()
	}
	for it := 0; it < r.N(12); it++ {
		p, q := mk(), mk()
		ops.Serial(r, fmt.Sprintf("Parameters bits=%d %+v", bitsOf[T](), p), &p, &q)
		g, h := p.BlindRotateParams(), q.KeySwitchParams()
		ops.Serial(r, fmt.Sprintf("GadgetParameters bits=%d %+v", bitsOf[T](), g), &g, &h)
	}
}

func p16gen[T ti](r *rt.R) {
	for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
		p := lit[T](9, 1, 16, 1, 3, 4, order).Compile()
		e := tfhe.NewEncryptor(p)
		tag := fmt.Sprintf("bits=%d order=%v", bitsOf[T](), order)
		sk := e.SecretKey
		ops.Serial(r, "SecretKey "+tag, &sk, nil)
		evk := e.GenEvalKeyParallel()
		ops.Serial(r, "EvaluationKey "+tag, &evk, nil)
		brk := e.GenBlindRotateKey()
		ops.Serial(r, "BlindRotateKey "+tag, &brk, nil)
		ct := e.EncryptLWE(1)
		ops.Serial(r, "LWECiphertext "+tag, &ct, nil)
	}
}
