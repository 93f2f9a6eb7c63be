package mktfhe_test

import (
	"fmt"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP21(t *testing.T) {
	rt.Run(t, "P21", "multi-key objects", func(r *rt.R) {
		for it := 0; it < r.N(3) && (it < 2 || r.More()); it++ {
			p21objects[uint32](r)
			p21objects[uint64](r)
		}
	})
}

func ref[X any](x X) interface{} { return &x }

func p21objects[T ti](r *rt.R) {
	parties := 1 + r.Intn(4)
	N, block := 16<<r.Intn(2), 1+r.Intn(2)
	n := block * (1 + r.Intn(6))
	L := 1 + r.Intn(5)
	g, g2 := gad[T](2+r.Intn(5), L), gad[T](1, L)
	h := gad[T](1+r.Intn(3), 1+r.Intn(4))
	for _, order := range []tfhe.BootstrapOrder{tfhe.OrderKeySwitchBlindRotate, tfhe.OrderBlindRotateKeySwitch} {
		l := mklit[T](parties, n, N, block, 4, order)
		p := l.Compile()
		dl := n
		if order == tfhe.OrderKeySwitchBlindRotate {
			dl = N
		}
		tag := fmt.Sprintf(" bits=%d parties=%d n=%d N=%d L=%d order=%v", bitsOf[T](), parties, n, N, L, order)
		ob := func(name string, want []int, mk, mk2 func() interface{}) {
			if mk2 == nil {
				mk2 = mk
			}
			ops.Object(r, name+tag, mk, mk2, want, false)
		}
		ob("LWECiphertext", []int{dl*parties + 1}, func() interface{} { return ref(mktfhe.NewLWECiphertext(p)) }, nil)
		ob("LWECiphertext custom", []int{n + 1}, func() interface{} { return ref(mktfhe.NewLWECiphertextCustom[T](n)) }, nil)
		ob("GLWECiphertext", []int{parties + 1, N}, func() interface{} { return ref(mktfhe.NewGLWECiphertext(p)) }, nil)
		ob("GLWECiphertext custom", []int{4, N}, func() interface{} { return ref(mktfhe.NewGLWECiphertextCustom[T](3, N)) }, nil)
		ob("FFTGLWECiphertext", []int{parties + 1, N}, func() interface{} { return ref(mktfhe.NewFFTGLWECiphertext(p)) }, nil)
		ob("FFTGLWECiphertext custom", []int{4, N}, func() interface{} { return ref(mktfhe.NewFFTGLWECiphertextCustom[T](3, N)) }, nil)
		ob("UniEncryption", []int{2, L, 2, N}, func() interface{} { return ref(mktfhe.NewUniEncryption(p, g)) }, func() interface{} { return ref(mktfhe.NewUniEncryption(p, g2)) })
		ob("UniEncryption custom", []int{2, L, 2, N}, func() interface{} { return ref(mktfhe.NewUniEncryptionCustom(N, g)) }, func() interface{} { return ref(mktfhe.NewUniEncryptionCustom(N, g2)) })
		ob("FFTUniEncryption", []int{2, L, 2, N}, func() interface{} { return ref(mktfhe.NewFFTUniEncryption(p, g)) }, func() interface{} { return ref(mktfhe.NewFFTUniEncryption(p, g2)) })
		ob("FFTUniEncryption custom", []int{2, L, 2, N}, func() interface{} { return ref(mktfhe.NewFFTUniEncryptionCustom(N, g)) }, func() interface{} { return ref(mktfhe.NewFFTUniEncryptionCustom(N, g2)) })
		ob("EvaluationKey", nil, func() interface{} { return ref(mktfhe.NewEvaluationKey(p)) }, nil)
		ob("EvaluationKey custom", nil, func() interface{} { return ref(mktfhe.NewEvaluationKeyCustom(n, N, g, h, g)) }, func() interface{} { return ref(mktfhe.NewEvaluationKeyCustom(n, N, g2, h, g2)) })
		r.Case("shapes%s", tag)
		c := mktfhe.NewEvaluationKeyCustom(n, N, g, h, g2)
		d1, _ := ops.Depths(&c.BlindRotateKey)
		d2, _ := ops.Depths(&c.KeySwitchKey)
		d3, _ := ops.Depths(&c.CRSPublicKey)
		d4, _ := ops.Depths(&c.RelinKey)
		if got, want := fmt.Sprint(d1, d2, d3, d4), fmt.Sprint([]int{n, 2, L, 2, N}, []int{N - n, h.Level(), n + 1}, []int{L, 2, N}, []int{2, L, 2, N}); got != want && n < N {
			r.Fail("custom evaluation key has shapes %s, documented %s", got, want)
		}
		if c.BlindRotateKey.GadgetParams != g || c.KeySwitchKey.GadgetParams != h || c.CRSPublicKey.GadgetParams != g2 || c.RelinKey.GadgetParams != g2 {
			r.Fail("custom evaluation key has other gadget parameters")
		}
		e := mktfhe.NewEvaluationKey(p)
		rp := l.RelinKeyParams.Compile()
		if e.BlindRotateKey.GadgetParams != p.BlindRotateParams() || e.KeySwitchKey.GadgetParams != p.KeySwitchParams() || e.CRSPublicKey.GadgetParams != rp || e.RelinKey.GadgetParams != rp {
			r.Fail("evaluation key has other gadget parameters")
		}
		d1, _ = ops.Depths(&e.BlindRotateKey)
		d2, _ = ops.Depths(&e.KeySwitchKey)
		d3, _ = ops.Depths(&e.CRSPublicKey)
		d4, _ = ops.Depths(&e.RelinKey)
		if got, want := fmt.Sprint(d1, d2, d3, d4), fmt.Sprint([]int{n, 2, p.BlindRotateParams().Level(), 2, N}, []int{N - n, p.KeySwitchParams().Level(), n + 1}, []int{rp.Level(), 2, N}, []int{2, rp.Level(), 2, N}); got != want && n < N {
			r.Fail("evaluation key has shapes %s, documented %s", got, want)
		}
		for i, x := range []tfhe.GadgetParameters[T]{mktfhe.NewUniEncryption(p, g).GadgetParams, mktfhe.NewUniEncryptionCustom(N, g).GadgetParams, mktfhe.NewFFTUniEncryption(p, g).GadgetParams, mktfhe.NewFFTUniEncryptionCustom(N, g).GadgetParams, mktfhe.NewFFTUniEncryptionCustom(N, g).Value[1].GadgetParams} {
			if x != g {
				r.Fail("uni-encryption %d does not record the gadget parameters", i)
			}
		}
	}
}
