package mktfhe_test

import (
	"fmt"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP16(t *testing.T) {
	rt.Run(t, "P16", "multi-key objects", func(r *rt.R) {
		for it := 0; it < r.N(4) && (it < 2 || r.More()); it++ {
			p16objects[uint32](r)
			p16objects[uint64](r)
		}
	})
}

func rgad[T ti](r *rt.R) tfhe.GadgetParameters[T] {
	lb := 1 + r.Intn(7)
	return gad[T](lb, 1+r.Intn(bitsOf[T]()/lb)%5)
}

func p16objects[T ti](r *rt.R) {
	mk := func(n, k, N int, g, h, l tfhe.GadgetParameters[T]) map[string]interface{} {
		o := map[string]interface{}{}
		a := mktfhe.NewLWECiphertextCustom[T](n)
		o["LWECiphertext"] = &a
		b := mktfhe.NewGLWECiphertextCustom[T](k, N)
		o["GLWECiphertext"] = &b
		c := mktfhe.NewUniEncryptionCustom[T](N, g)
		o["UniEncryption"] = &c
		d := mktfhe.NewFFTGLWECiphertextCustom[T](k, N)
		o["FFTGLWECiphertext"] = &d
		e := mktfhe.NewFFTUniEncryptionCustom[T](N, g)
		o["FFTUniEncryption"] = &e
		f := mktfhe.NewEvaluationKeyCustom[T](n, N, g, h, l)
		o["EvaluationKey"] = &f
		pl := mklit[T](1+r.Intn(5), 4, N, 1+r.Intn(2), 4, tfhe.BootstrapOrder(r.Intn(2)))
		p := pl.Compile()
		o["Parameters"] = &p
		return o
	}
	n, k, N := 1+r.Intn(9), 1+r.Intn(4), 16<<r.Intn(2)
	g, h, l := rgad[T](r), rgad[T](r), rgad[T](r)
	o := mk(n, k, N, g, h, l)
	o2 := mk(n+1, 1+k%4, 48-N, rgad[T](r), rgad[T](r), rgad[T](r))
	for name := range o {
		ops.Fill(r, o[name])
		ops.Fill(r, o2[name])
		ops.Serial(r, fmt.Sprintf("%s bits=%d n=%d k=%d N=%d %v", name, bitsOf[T](), n, k, N, g), o[name], o2[name])
	}
	f := mktfhe.NewEvaluationKeyCustom[T](N, N, g, h, l)
	ops.Fill(r, &f)
	ops.Serial(r, fmt.Sprintf("EvaluationKey without keyswitching bits=%d N=%d", bitsOf[T](), N), &f, o["EvaluationKey"])
}
