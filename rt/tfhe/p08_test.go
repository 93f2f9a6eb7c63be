package tfhe_test

import (
	"fmt"
	"reflect"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/tfhe"
)

func linear08[T ti](r *rt.R) {
	for _, c := range [][3]int{{7, 1, 16}, {13, 2, 32}, {0, 3, 16}} {
		n := c[0]
		if n == 0 {
			n = c[1] * c[2]
		}
		order := ksbr
		p := lit[T](n, c[1], c[2], 1, 1, 8, order).Compile()
		ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
		mk := func(kind string) reflect.Value {
			switch kind {
			case "LWE":
				return reflect.ValueOf(tfhe.NewLWECiphertext(p))
			case "GLWE":
				return reflect.ValueOf(tfhe.NewGLWECiphertext(p))
			}
			return reflect.ValueOf(tfhe.NewFFTGLWECiphertext(p))
		}
		mkPT := func(kind string) reflect.Value {
			if kind == "LWE" {
				return reflect.New(reflect.TypeOf(tfhe.LWEPlaintext[T]{})).Elem()
			}
			return reflect.ValueOf(tfhe.NewGLWEPlaintext(p))
		}
		ops.Linear[T](r, ev, mk, mkPT, c[2], fmt.Sprintf("bits=%d rank=%d", bitsOf[T](), c[1]))
	}
}

func TestVerifP08(t *testing.T) {
	rt.Run(t, "P08", "tfhe linear", func(r *rt.R) {
		linear08[uint32](r)
		linear08[uint64](r)
	})
}
