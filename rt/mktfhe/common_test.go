package mktfhe_test

import (
	"math"
	"math/big"
	"unsafe"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/internal/zzverif/ops"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

type ti interface{ uint32 | uint64 }

func bitsOf[T ti]() int { return int(unsafe.Sizeof(T(0))) * 8 }

// mklit is a small multi-key literal; the noise rounds to zero.
func mklit[T ti](parties, n, N, block int, mm T, order tfhe.BootstrapOrder) mktfhe.ParametersLiteral[T] {
	p := mktfhe.ParametersLiteral[T]{
		SubParams: tfhe.ParametersLiteral[T]{
			LWEDimension: n, GLWERank: 1, PolyRank: N, LUTSize: N,
			LWEStdDev: 1e-40, GLWEStdDev: 1e-40, BlockSize: block, MessageModulus: mm,
			BootstrapOrder: order,
		},
		PartyCount: parties,
	}
	g := func(b, l int) tfhe.GadgetParametersLiteral[T] {
		return tfhe.GadgetParametersLiteral[T]{Base: T(1) << b, Level: l}
	}
	if bitsOf[T]() == 64 {
		p.SubParams.BlindRotateParams = g(8, 4)
		p.SubParams.KeySwitchParams = g(5, 8)
		p.AccumulatorParams = g(8, 5)
		p.RelinKeyParams = g(8, 6)
	} else {
		p.SubParams.BlindRotateParams = g(6, 4)
		p.SubParams.KeySwitchParams = g(3, 8)
		p.AccumulatorParams = g(6, 4)
		p.RelinKeyParams = g(6, 4)
	}
	return p
}

const (
	ksbr = tfhe.OrderKeySwitchBlindRotate
	brks = tfhe.OrderBlindRotateKeySwitch
)

func pmod(m int, mod uint64) int {
	z := new(big.Int).Mod(big.NewInt(int64(m)), new(big.Int).SetUint64(mod))
	return int(z.Uint64())
}

func wantMsgs[T ti](m []int, N int, mm T) []int {
	o := make([]int, N)
	for i := range o {
		if i < len(m) {
			o[i] = pmod(m[i], uint64(mm))
		}
	}
	return o
}

func msgs[T ti](r *rt.R, n int, mm T) []int {
	m := make([]int, n)
	for i := range m {
		switch r.Intn(4) {
		case 0:
			m[i] = r.Intn(int(mm))
		case 1:
			m[i] = -r.Intn(3 * int(mm))
		case 2:
			m[i] = int(mm) + r.Intn(1000)
		default:
			m[i] = int(int32(r.Uint64()))
		}
	}
	return m
}

// world is a set of parties with all keys.
type world[T ti] struct {
	p    mktfhe.Parameters[T]
	encs []*mktfhe.Encryptor[T]
	dec  *mktfhe.Decryptor[T]
}

func newWorld[T ti](p mktfhe.Parameters[T]) *world[T] {
	w := &world[T]{p: p}
	sks := map[int]tfhe.SecretKey[T]{}
	for i := 0; i < p.PartyCount(); i++ {
		w.encs = append(w.encs, mktfhe.NewEncryptor(p, i, []byte("crs")))
		sks[i] = w.encs[i].SecretKey
	}
	w.dec = mktfhe.NewDecryptor(p, sks)
	return w
}

// phaseGLWE is the reference joint phase.
func (w *world[T]) phaseGLWE(ct mktfhe.GLWECiphertext[T]) []T {
	ph := append([]T(nil), ct.Value[0].Coeffs...)
	for i, e := range w.encs {
		ph = ops.Add(ph, ops.Mul(e.SecretKey.GLWEKey.Value[0].Coeffs, ct.Value[i+1].Coeffs))
	}
	return ph
}

func (w *world[T]) key(i int) []T {
	if w.p.BootstrapOrder() == ksbr {
		return w.encs[i].SecretKey.LWELargeKey.Value
	}
	return w.encs[i].SecretKey.LWEKey.Value
}

func (w *world[T]) phaseLWE(ct []T) T {
	ph := ct[0]
	j := 1
	for i := range w.encs {
		for _, s := range w.key(i) {
			ph += s * ct[j]
			j++
		}
	}
	return ph
}

func randGLWE[T ti](r *rt.R, p mktfhe.Parameters[T]) mktfhe.GLWECiphertext[T] {
	ct := mktfhe.NewGLWECiphertext(p)
	for i := range ct.Value {
		ops.RandVec(r, ct.Value[i].Coeffs)
	}
	return ct
}

func polyOf[T ti](c []T) poly.Poly[T] { return poly.Poly[T]{Coeffs: append([]T(nil), c...)} }

func fftTol[T ti](N, k int) float64 {
	return math.Exp2(float64(bitsOf[T]()-46)) * float64(N*(k+1))
}

func gad[T ti](logBase, level int) tfhe.GadgetParameters[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: T(1) << logBase, Level: level}.Compile()
}

// prodTol bounds the floating-point error of a sum of count products of a
// full-size polynomial with one whose coefficients are below 2^logBase.
func prodTol[T ti](N, count, logBase int) float64 {
	return math.Exp2(float64(bitsOf[T]()-51+logBase))*float64(N*count) + 4
}

// roundGadget rounds to the nearest multiple of the smallest gadget factor, ties upward.
func roundGadget[T ti](x T, logBase, level int) T {
	l := bitsOf[T]() - logBase*level
	if l == 0 {
		return x
	}
	return ((x >> l) + ((x >> (l - 1)) & 1)) << l
}

// gadTol bounds the rounding error of one gadget-decomposed value.
func gadTol[T ti](g tfhe.GadgetParameters[T]) float64 {
	l := bitsOf[T]() - g.LogBase()*g.Level()
	if l == 0 {
		return 0
	}
	return float64(uint64(1) << (l - 1))
}

// evks generates the evaluation keys of the given parties.
func (w *world[T]) evks(parties ...int) map[int]mktfhe.EvaluationKey[T] {
	m := map[int]mktfhe.EvaluationKey[T]{}
	for n, i := range parties {
		if n%2 == 0 {
			m[i] = w.encs[i].GenEvalKeyParallel()
		} else {
			m[i] = w.encs[i].GenEvalKey()
		}
	}
	return m
}

// extTol bounds the noise of one external product with noise-free keys and a
// small multiplier.
func extTol[T ti](p mktfhe.Parameters[T]) float64 {
	N, c := p.PolyRank(), p.PartyCount()+1
	g := p.Literal().RelinKeyParams.Compile()
	h := 4 * float64(c*N*N) * (gadTol(g)*float64(g.Level()) + prodTol[T](N, g.Level()*c, g.LogBase())/float64(N))
	a := p.Literal().AccumulatorParams.Compile()
	return h + 4*float64(c*N*N)*gadTol(a) + prodTol[T](N, a.Level()*c*N, a.LogBase())
}

// masked zeroes the mask of the parties that are not listed.
func masked[T ti](ct mktfhe.GLWECiphertext[T], parties []int) {
	for i := 1; i < len(ct.Value); i++ {
		if !has(parties, i-1) {
			ct.Value[i].Clear()
		}
	}
}

func has(s []int, x int) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// subsets lists a few sets of parties, some of them sparse.
func subsets(n int) [][]int {
	switch n {
	case 1:
		return [][]int{{0}}
	case 2:
		return [][]int{{0, 1}, {1}, {0}}
	case 3:
		return [][]int{{0, 1, 2}, {2}, {0, 2}, {1, 2}}
	}
	return [][]int{{0, 1, 2, 3}, {3}, {1, 3}, {0, 3}}
}
