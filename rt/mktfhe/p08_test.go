package mktfhe_test

import (
	"fmt"
	"reflect"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func linear08[T ti](r *rt.R) {
	for _, c := range [][3]int{{1, 7, 16}, {2, 13, 32}, {3, 16, 16}} {
		p := mklit[T](c[0], c[1], c[2], 1, 8, ksbr).Compile()
		ev := mktfhe.NewEvaluator(p, map[int]mktfhe.EvaluationKey[T]{})
		mk := func(kind string) reflect.Value {
			switch kind {
			case "LWE":
				return reflect.ValueOf(mktfhe.NewLWECiphertext(p))
			case "GLWE":
				return reflect.ValueOf(mktfhe.NewGLWECiphertext(p))
			}
			return reflect.ValueOf(mktfhe.NewFFTGLWECiphertext(p))
		}
		mkPT := func(kind string) reflect.Value {
			if kind == "LWE" {
				return reflect.New(reflect.TypeOf(tfhe.LWEPlaintext[T]{})).Elem()
			}
			return reflect.ValueOf(tfhe.NewGLWEPlaintext(p.SubParams()))
		}
		ops.Linear[T](r, ev, mk, mkPT, c[2], fmt.Sprintf("multi-key bits=%d parties=%d", bitsOf[T](), c[0]))
	}
}

func TestVerifP08(t *testing.T) {
	rt.Run(t, "P08", "mktfhe linear", func(r *rt.R) {
		linear08[uint32](r)
		linear08[uint64](r)
	})
}
