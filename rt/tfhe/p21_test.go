package tfhe_test

import (
	"fmt"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP21(t *testing.T) {
	rt.Run(t, "P21", "single-key objects", func(r *rt.R) {
		for it := 0; it < r.N(3) && (it < 2 || r.More()); it++ {
			p21objects[uint32](r)
			p21objects[uint64](r)
		}
	})
}

func ref[X any](x X) interface{} { return &x }

func p21objects[T ti](r *rt.R) {
	k, N := 1+r.Intn(3), 16<<r.Intn(2)
	block := 1 + r.Intn(2)
	n := block * (1 + r.Intn(8))
	ext := 1 << r.Intn(2)
	gs := gadgetsFor[T](r)
	x := gs[r.Intn(len(gs))]
	L := x[1]
	g := gad[T](x[0], L)
	// other gadget parameters with the same level
	g2 := gad[T](1, L)
	for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
		l := lit[T](n, k, N, ext, block, 4, order)
		l.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: g.Base(), Level: L}
		p := l.Compile()
		l.BlindRotateParams.Base = 2
		p2 := l.Compile()
		dl := n
		if order == ksbr {
			dl = k * N
		}
		ksL := p.KeySwitchParams().Level()
		tag := fmt.Sprintf(" bits=%d n=%d k=%d N=%d L=%d order=%v", bitsOf[T](), n, k, N, L, order)
		ob := func(name string, want []int, mk, mk2 func() interface{}) {
			if mk2 == nil {
				mk2 = mk
			}
			ops.Object(r, name+tag, mk, mk2, want, false)
		}
		ob("LWESecretKey", []int{dl}, func() interface{} { return ref(tfhe.NewLWESecretKey(p)) }, nil)
		ob("LWESecretKey custom", []int{n}, func() interface{} { return ref(tfhe.NewLWESecretKeyCustom[T](n)) }, nil)
		ob("LWEPlaintext", nil, func() interface{} { return ref(tfhe.NewLWEPlaintext[T]()) }, nil)
		ob("LWECiphertext", []int{dl + 1}, func() interface{} { return ref(tfhe.NewLWECiphertext(p)) }, nil)
		ob("LWECiphertext custom", []int{n + 1}, func() interface{} { return ref(tfhe.NewLWECiphertextCustom[T](n)) }, nil)
		ob("LevCiphertext", []int{L, dl + 1}, func() interface{} { return ref(tfhe.NewLevCiphertext(p, g)) }, func() interface{} { return ref(tfhe.NewLevCiphertext(p, g2)) })
		ob("LevCiphertext custom", []int{L, n + 1}, func() interface{} { return ref(tfhe.NewLevCiphertextCustom(n, g)) }, func() interface{} { return ref(tfhe.NewLevCiphertextCustom(n, g2)) })
		ob("GSWCiphertext", []int{dl + 1, L, dl + 1}, func() interface{} { return ref(tfhe.NewGSWCiphertext(p, g)) }, func() interface{} { return ref(tfhe.NewGSWCiphertext(p, g2)) })
		ob("GSWCiphertext custom", []int{n + 1, L, n + 1}, func() interface{} { return ref(tfhe.NewGSWCiphertextCustom(n, g)) }, func() interface{} { return ref(tfhe.NewGSWCiphertextCustom(n, g2)) })
		ob("GLWESecretKey", []int{k, N}, func() interface{} { return ref(tfhe.NewGLWESecretKey(p)) }, nil)
		ob("GLWESecretKey custom", []int{k, N}, func() interface{} { return ref(tfhe.NewGLWESecretKeyCustom[T](k, N)) }, nil)
		ob("GLWEPlaintext", []int{N}, func() interface{} { return ref(tfhe.NewGLWEPlaintext(p)) }, nil)
		ob("GLWEPlaintext custom", []int{N}, func() interface{} { return ref(tfhe.NewGLWEPlaintextCustom[T](N)) }, nil)
		ob("GLWECiphertext", []int{k + 1, N}, func() interface{} { return ref(tfhe.NewGLWECiphertext(p)) }, nil)
		ob("GLWECiphertext custom", []int{k + 1, N}, func() interface{} { return ref(tfhe.NewGLWECiphertextCustom[T](k, N)) }, nil)
		ob("GLevCiphertext", []int{L, k + 1, N}, func() interface{} { return ref(tfhe.NewGLevCiphertext(p, g)) }, func() interface{} { return ref(tfhe.NewGLevCiphertext(p, g2)) })
		ob("GLevCiphertext custom", []int{L, k + 1, N}, func() interface{} { return ref(tfhe.NewGLevCiphertextCustom(k, N, g)) }, func() interface{} { return ref(tfhe.NewGLevCiphertextCustom(k, N, g2)) })
		ob("GGSWCiphertext", []int{k + 1, L, k + 1, N}, func() interface{} { return ref(tfhe.NewGGSWCiphertext(p, g)) }, func() interface{} { return ref(tfhe.NewGGSWCiphertext(p, g2)) })
		ob("GGSWCiphertext custom", []int{k + 1, L, k + 1, N}, func() interface{} { return ref(tfhe.NewGGSWCiphertextCustom(k, N, g)) }, func() interface{} { return ref(tfhe.NewGGSWCiphertextCustom(k, N, g2)) })
		ob("FFTGLWESecretKey", []int{k, N}, func() interface{} { return ref(tfhe.NewFFTGLWESecretKey(p)) }, nil)
		ob("FFTGLWESecretKey custom", []int{k, N}, func() interface{} { return ref(tfhe.NewFFTGLWESecretKeyCustom[T](k, N)) }, nil)
		ob("FFTGLWECiphertext", []int{k + 1, N}, func() interface{} { return ref(tfhe.NewFFTGLWECiphertext(p)) }, nil)
		ob("FFTGLWECiphertext custom", []int{k + 1, N}, func() interface{} { return ref(tfhe.NewFFTGLWECiphertextCustom[T](k, N)) }, nil)
		ob("FFTGLevCiphertext", []int{L, k + 1, N}, func() interface{} { return ref(tfhe.NewFFTGLevCiphertext(p, g)) }, func() interface{} { return ref(tfhe.NewFFTGLevCiphertext(p, g2)) })
		ob("FFTGLevCiphertext custom", []int{L, k + 1, N}, func() interface{} { return ref(tfhe.NewFFTGLevCiphertextCustom(k, N, g)) }, func() interface{} { return ref(tfhe.NewFFTGLevCiphertextCustom(k, N, g2)) })
		ob("FFTGGSWCiphertext", []int{k + 1, L, k + 1, N}, func() interface{} { return ref(tfhe.NewFFTGGSWCiphertext(p, g)) }, func() interface{} { return ref(tfhe.NewFFTGGSWCiphertext(p, g2)) })
		ob("FFTGGSWCiphertext custom", []int{k + 1, L, k + 1, N}, func() interface{} { return ref(tfhe.NewFFTGGSWCiphertextCustom(k, N, g)) }, func() interface{} { return ref(tfhe.NewFFTGGSWCiphertextCustom(k, N, g2)) })
		if p.IsPublicKeyEncryptable() {
			ob("LWEPublicKey", []int{k, k + 1, N}, func() interface{} { return ref(tfhe.NewLWEPublicKey(p)) }, nil)
			ob("GLWEPublicKey", []int{k, k + 1, N}, func() interface{} { return ref(tfhe.NewGLWEPublicKey(p)) }, nil)
			ob("PublicKey", []int{k, k + 1, N}, func() interface{} { return ref(tfhe.NewPublicKey(p)) }, nil)
		}
		ob("LWEPublicKey custom", []int{k, k + 1, N}, func() interface{} { return ref(tfhe.NewLWEPublicKeyCustom[T](k, N)) }, nil)
		ob("GLWEPublicKey custom", []int{k, k + 1, N}, func() interface{} { return ref(tfhe.NewGLWEPublicKeyCustom[T](k, N)) }, nil)
		ob("PublicKey custom", []int{k, k + 1, N}, func() interface{} { return ref(tfhe.NewPublicKeyCustom[T](k, N)) }, nil)
		ob("LWEKeySwitchKey", []int{7, L, dl + 1}, func() interface{} { return ref(tfhe.NewLWEKeySwitchKey(p, 7, g)) }, func() interface{} { return ref(tfhe.NewLWEKeySwitchKey(p, 7, g2)) })
		ob("LWEKeySwitchKey custom", []int{7, L, n + 1}, func() interface{} { return ref(tfhe.NewLWEKeySwitchKeyCustom(7, n, g)) }, func() interface{} { return ref(tfhe.NewLWEKeySwitchKeyCustom(7, n, g2)) })
		if n < k*N {
			ob("KeySwitchKeyForBootstrap", []int{k*N - n, ksL, n + 1}, func() interface{} { return ref(tfhe.NewKeySwitchKeyForBootstrap(p)) }, nil)
			ob("KeySwitchKeyForBootstrap custom", []int{k*N - n, L, n + 1}, func() interface{} { return ref(tfhe.NewKeySwitchKeyForBootstrapCustom(n, k, N, g)) }, func() interface{} { return ref(tfhe.NewKeySwitchKeyForBootstrapCustom(n, k, N, g2)) })
		}
		ob("GLWEKeySwitchKey", []int{k + 2, L, k + 1, N}, func() interface{} { return ref(tfhe.NewGLWEKeySwitchKey(p, k+2, g)) }, func() interface{} { return ref(tfhe.NewGLWEKeySwitchKey(p, k+2, g2)) })
		ob("GLWEKeySwitchKey custom", []int{2, L, k + 1, N}, func() interface{} { return ref(tfhe.NewGLWEKeySwitchKeyCustom(2, k, N, g)) }, func() interface{} { return ref(tfhe.NewGLWEKeySwitchKeyCustom(2, k, N, g2)) })
		ob("BlindRotateKey", []int{n, k + 1, L, k + 1, N}, func() interface{} { return ref(tfhe.NewBlindRotateKey(p)) }, func() interface{} { return ref(tfhe.NewBlindRotateKey(p2)) })
		ob("BlindRotateKey custom", []int{3, k + 1, L, k + 1, N}, func() interface{} { return ref(tfhe.NewBlindRotateKeyCustom(3, k, N, g)) }, func() interface{} { return ref(tfhe.NewBlindRotateKeyCustom(3, k, N, g2)) })
		ob("EvaluationKey", nil, func() interface{} { return ref(tfhe.NewEvaluationKey(p)) }, func() interface{} { return ref(tfhe.NewEvaluationKey(p2)) })
		ob("EvaluationKey custom", nil, func() interface{} { return ref(tfhe.NewEvaluationKeyCustom(n, k, N, g, g2)) }, func() interface{} { return ref(tfhe.NewEvaluationKeyCustom(n, k, N, g2, g2)) })
		ob("LookUpTable", []int{p.LUTSize() / N, N}, func() interface{} { return ref(tfhe.NewLUT(p)) }, nil)
		ob("LookUpTable custom", []int{3, N}, func() interface{} { return ref(tfhe.NewLUTCustom[T](3, N)) }, nil)

		ev := tfhe.NewEvaluationKey(p)
		d, _ := ops.Depths(&ev.BlindRotateKey)
		d2, _ := ops.Depths(&ev.KeySwitchKey)
		if fmt.Sprint(d) != fmt.Sprint([]int{n, k + 1, L, k + 1, N}) || (n < k*N && fmt.Sprint(d2) != fmt.Sprint([]int{k*N - n, ksL, n + 1})) || ev.BlindRotateKey.GadgetParams != p.BlindRotateParams() || ev.KeySwitchKey.GadgetParams != p.KeySwitchParams() {
			r.Fail("EvaluationKey%s has shapes %v %v", tag, d, d2)
		}
		for i, mk := range []func() interface{}{
			func() interface{} { return ref(tfhe.NewSecretKey(p)) },
			func() interface{} { return ref(tfhe.NewSecretKeyCustom[T](n, k, N)) },
		} {
			ops.Object(r, fmt.Sprintf("SecretKey %d%s", i, tag), mk, mk, nil, true)
			s := mk().(*tfhe.SecretKey[T])
			fd, fok := ops.Depths(&s.FFTGLWEKey)
			if len(s.LWELargeKey.Value) != k*N || len(s.LWEKey.Value) != n || len(s.GLWEKey.Value) != k || !fok || fmt.Sprint(fd) != fmt.Sprint([]int{k, N}) {
				r.Fail("SecretKey shapes are wrong")
				continue
			}
			for j := 0; j < k*N; j++ {
				s.LWELargeKey.Value[j] = T(j + 1)
			}
			for j := 0; j < k*N; j++ {
				if s.GLWEKey.Value[j/N].Coeffs[j%N] != T(j+1) || (j < n && s.LWEKey.Value[j] != T(j+1)) {
					r.Fail("SecretKey views do not match at %d", j)
					break
				}
			}
		}
		for _, o := range []struct {
			name string
			got  tfhe.GadgetParameters[T]
		}{
			{"Lev", tfhe.NewLevCiphertext(p, g).GadgetParams}, {"Lev custom", tfhe.NewLevCiphertextCustom(n, g).GadgetParams},
			{"GSW", tfhe.NewGSWCiphertext(p, g).GadgetParams}, {"GSW custom", tfhe.NewGSWCiphertextCustom(n, g).GadgetParams},
			{"GSW inner", tfhe.NewGSWCiphertextCustom(n, g).Value[n].GadgetParams},
			{"GLev", tfhe.NewGLevCiphertext(p, g).GadgetParams}, {"GLev custom", tfhe.NewGLevCiphertextCustom(k, N, g).GadgetParams},
			{"GGSW", tfhe.NewGGSWCiphertext(p, g).GadgetParams}, {"GGSW custom", tfhe.NewGGSWCiphertextCustom(k, N, g).GadgetParams},
			{"GGSW inner", tfhe.NewGGSWCiphertextCustom(k, N, g).Value[k].GadgetParams},
			{"FFTGLev", tfhe.NewFFTGLevCiphertext(p, g).GadgetParams}, {"FFTGLev custom", tfhe.NewFFTGLevCiphertextCustom(k, N, g).GadgetParams},
			{"FFTGGSW", tfhe.NewFFTGGSWCiphertext(p, g).GadgetParams}, {"FFTGGSW custom", tfhe.NewFFTGGSWCiphertextCustom(k, N, g).GadgetParams},
			{"FFTGGSW inner", tfhe.NewFFTGGSWCiphertextCustom(k, N, g).Value[k].GadgetParams},
			{"LWEKeySwitchKey", tfhe.NewLWEKeySwitchKey(p, 3, g).GadgetParams}, {"GLWEKeySwitchKey", tfhe.NewGLWEKeySwitchKey(p, 3, g).GadgetParams},
			{"LWEKeySwitchKey inner", tfhe.NewLWEKeySwitchKey(p, 3, g).Value[2].GadgetParams}, {"GLWEKeySwitchKey inner", tfhe.NewGLWEKeySwitchKey(p, 3, g).Value[2].GadgetParams},
			{"BlindRotateKey", tfhe.NewBlindRotateKey(p).GadgetParams}, {"BlindRotateKey inner", tfhe.NewBlindRotateKey(p).Value[0].GadgetParams},
		} {
			if o.got != g {
				r.Fail("new %s%s does not record the gadget parameters", o.name, tag)
			}
		}
	}
}
