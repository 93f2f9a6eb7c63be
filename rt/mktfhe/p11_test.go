package mktfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func switch11[T ti](r *rt.R) {
	for _, n := range []int{1, 2, 3} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			p := mklit[T](n, 6, 16, 1, 4, order).Compile()
			w := newWorld(p)
			for _, set := range subsets(n) {
				evk := map[int]mktfhe.EvaluationKey[T]{}
				for _, i := range set {
					ksk := w.encs[i].GenDefaultKeySwitchKey()
					if i%2 == 1 {
						ksk = w.encs[i].GenDefaultKeySwitchKeyParallel()
					}
					evk[i] = mktfhe.EvaluationKey[T]{EvaluationKey: tfhe.EvaluationKey[T]{KeySwitchKey: ksk}}
				}
				ev := mktfhe.NewEvaluator(p, evk)
				kp := p.KeySwitchParams()
				for it := 0; it < r.N(3); it++ {
					r.Case("bits=%d parties=%d set=%v order=%v it=%d", bitsOf[T](), n, set, order, it)
					r.Try(func() {
						sub := p.SubParams()
						gd, ld := sub.GLWEDimension(), sub.LWEDimension()
						ct := mktfhe.NewLWECiphertextCustom[T](n * gd)
						ops.RandVec(r, ct.Value)
						for i := 0; i < n; i++ {
							if !has(set, i) {
								for j := 0; j < gd; j++ {
									ct.Value[1+i*gd+j] = 0
								}
							}
						}
						in := append([]T(nil), ct.Value...)
						want := ct.Value[0]
						for i := 0; i < n; i++ {
							for j, s := range w.encs[i].SecretKey.LWELargeKey.Value {
								x := ct.Value[1+i*gd+j]
								if j >= ld {
									x = roundGadget(x, kp.LogBase(), kp.Level())
								}
								want += x * s
							}
						}
						ph := func(o mktfhe.LWECiphertext[T]) T {
							v := o.Value[0]
							for i := 0; i < n; i++ {
								for j, s := range w.encs[i].SecretKey.LWEKey.Value {
									v += o.Value[1+i*ld+j] * s
								}
							}
							return v
						}
						o := ev.DefaultKeySwitch(ct)
						if len(o.Value) != n*ld+1 {
							r.Fail("length %d", len(o.Value))
							return
						}
						if g := ph(o); g != want {
							r.Fail("phase %d want %d", g, want)
						}
						o2 := mktfhe.NewLWECiphertextCustom[T](n * ld)
						ops.RandVec(r, o2.Value)
						ev.DefaultKeySwitchTo(o2, ct)
						if ops.Eq(o2.Value, o.Value) != -1 {
							r.Fail("result depends on the destination")
						}
						if ops.Eq(ct.Value, in) != -1 {
							r.Fail("input modified")
						}
						c2 := ct.Copy()
						d := make([]T, len(o.Value))
						ops.RandVec(r, d)
						c2.Value[0] += d[0]
						for _, i := range set {
							for j := 0; j < ld; j++ {
								c2.Value[1+i*gd+j] += d[1+i*ld+j]
								o.Value[1+i*ld+j] += d[1+i*ld+j]
							}
						}
						o.Value[0] += d[0]
						ev.DefaultKeySwitchTo(o2, c2)
						if ops.Eq(o2.Value, o.Value) != -1 {
							r.Fail("body or prefix not carried over")
						}
					})
				}
			}
		}
	}
}

func TestVerifP11(t *testing.T) {
	rt.Run(t, "P11", "default64", switch11[uint64])
	rt.Run(t, "P11", "default32", switch11[uint32])
}
