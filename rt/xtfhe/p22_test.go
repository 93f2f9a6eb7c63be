package xtfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func TestVerifP22(t *testing.T) {
	rt.Run(t, "P22", "bfv", func(r *rt.R) { bfv22[uint64](r); bfv22[uint32](r) })
	rt.Run(t, "P22", "manylut", func(r *rt.R) { manylut22[uint64](r); manylut22[uint32](r) })
	rt.Run(t, "P22", "circuit", func(r *rt.R) { circuit22[uint64](r) })
	rt.Run(t, "P22", "fhew", func(r *rt.R) { fhew22[uint64](r); fhew22[uint32](r) })
	rt.Run(t, "P22", "sanitize", func(r *rt.R) { sanitize22[uint64](r) })
}

func bfv22[T ti](r *rt.R) {
	for _, k := range []int{1, 2, 3} {
		for _, N := range []int{16, 64} {
			mm := 16
			p := lit[T](4, k, N, 1, T(mm), ksbr).Compile()
			e := tfhe.NewEncryptor(p)
			kg := xtfhe.NewBFVKeyGenerator(p, e.SecretKey)
			ksp := brg[T]().Compile()
			ds := []int{1, 3, 5, 2*N - 1, N + 1, -1, -5, 2*N + 3}
			evk := kg.GenEvalKey(ds, ksp)
			kg.GenGaloisKeysForPackTo(evk.GaloisKeys, ksp)
			if r.Intn(2) == 0 {
				evk.RelinKey = kg.GenRelinKey(ksp)
				evk.GaloisKeys = kg.GenGaloisKeysForPack(ksp)
				kg.GenGaloisKeysTo(evk.GaloisKeys, ds, ksp)
			}
			ev := xtfhe.NewBFVEvaluator(p, evk)
			if r.Intn(2) == 0 {
				ev = ev.SafeCopy()
			}
			sk := e.SecretKey.GLWEKey.Value
			var prods []poly.Poly[T] // the tensored key
			for i := -1; i < k; i++ {
				for j := i; j < k; j++ {
					if j < 0 {
						continue
					}
					if i < 0 {
						prods = append(prods, sk[j])
					} else {
						prods = append(prods, poly.Poly[T]{Coeffs: mul(sk[i].Coeffs, sk[j].Coeffs)})
					}
				}
			}
			scale := p.Scale()
			tol := float64(scale) / 16
			tr := k * (k + 3) / 2
			mk := func() ([]T, tfhe.GLWECiphertext[T]) {
				m := randMsgs(r, N, mm)
				ct := e.EncryptGLWE(m)
				return ints[T](m), ct
			}
			for it := 0; it < r.N(6); it++ {
				a, ca := mk()
				b, cb := mk()
				c, cc := mk()
				ab, ac := scal(mul(a, b), scale), scal(mul(a, c), scale)
				r.Case("%d bits rank=%d N=%d a=%v b=%v", bitsOf[T](), k, N, a, b)
				check := func(what string, ct tfhe.GLWECiphertext[T], key []poly.Poly[T], want []T) {
					if d := dist(phaseGLWE(ct, key), want); !(d <= tol) {
						r.Fail("%s: phase off by %g of scale %d", what, d, scale)
					}
				}
				sa := ca.Copy()
				t1 := tfhe.NewGLWECiphertextCustom[T](tr, N)
				junk(r, t1)
				ev.TensorTo(t1, ca, cb)
				t2 := ev.Tensor(ca, cc)
				check("TensorTo", t1, prods, ab)
				check("Tensor", t2, prods, ac)
				m1 := tfhe.NewGLWECiphertext(p)
				junk(r, m1)
				ev.RelinearizeTo(m1, t1)
				check("RelinearizeTo", m1, sk, ab)
				check("Relinearize", ev.Relinearize(t2), sk, ac)
				check("Mul", ev.Mul(ca, cb), sk, ab)
				junk(r, m1)
				ev.MulTo(m1, ca, cb)
				check("MulTo", m1, sk, ab)
				if dist(phaseGLWE(ca, sk), phaseGLWE(sa, sk)) != 0 {
					r.Fail("input modified")
				}
				o := ca.Copy()
				ev.MulTo(o, o, cb)
				check("MulTo(out=ct0)", o, sk, ab)
				o = cb.Copy()
				ev.MulTo(o, ca, o)
				check("MulTo(out=ct1)", o, sk, ab)
				o = ca.Copy()
				ev.MulTo(o, o, o)
				check("MulTo(all equal)", o, sk, scal(mul(a, a), scale))
				d := ds[r.Intn(len(ds))]
				want := aut(scal(a, scale), d)
				r.Case("%d bits rank=%d N=%d d=%d a=%v", bitsOf[T](), k, N, d, a)
				check("Permute", ev.Permute(ca, d), sk, want)
				junk(r, m1)
				ev.PermuteTo(m1, ca, d)
				check("PermuteTo", m1, sk, want)
				o = ca.Copy()
				ev.PermuteTo(o, o, d)
				check("PermuteTo(in place)", o, sk, want)
				if !rt.Panics(func() { ev.Permute(ca, 7) }) {
					r.Fail("Permute without a Galois key does not panic")
				}
				m := r.Intn(mm)
				r.Case("%d bits rank=%d N=%d pack m=%d", bitsOf[T](), k, N, m)
				want = make([]T, N)
				want[0] = T(m) * scale
				ct := tfhe.NewLWECiphertextCustom[T](k * N)
				junkv(r, ct.Value[1:])
				ct.Value[0] = T(m)*scale - phaseLWE(append([]T{0}, ct.Value[1:]...), e.SecretKey.LWELargeKey.Value)
				check("Pack", ev.Pack(ct), sk, want)
				junk(r, m1)
				ev.PackTo(m1, ct)
				check("PackTo", m1, sk, want)
			}
		}
	}
}

func manylut22[T ti](r *rt.R) {
	type conf struct{ n, k, N, block, mm, lc int }
	for _, c := range []conf{{4, 1, 256, 1, 4, 4}, {1, 1, 64, 1, 2, 1}, {6, 2, 256, 3, 8, 2}, {3, 1, 128, 3, 4, 2}, {4, 1, 256, 2, 2, 8}, {5, 2, 64, 1, 2, 4}} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			mm := c.mm
			p := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: lit[T](c.n, c.k, c.N, c.block, T(mm), order), LUTCount: c.lc}.Compile()
			bp := p.BaseParams()
			e := tfhe.NewEncryptor(bp)
			evk := e.GenEvalKey()
			ev := xtfhe.NewManyLUTEvaluator(p, evk)
			if r.Intn(2) == 0 {
				ev = ev.SafeCopy()
			}
			for i := 0; i < r.N(40); i++ {
				x := T(r.Word())
				if i%2 == 0 {
					x = T(r.Uint64())
				}
				r.Case("%d bits N=%d count=%d x=%d", bitsOf[T](), c.N, c.lc, x)
				g := ev.ModSwitch(x)
				if g%c.lc != 0 || g < 0 || g > 2*c.N {
					r.Fail("ModSwitch = %d", g)
				} else if d := dist([]T{T(g) * (T(1) << (bitsOf[T]() - 1) / T(c.N))}, []T{x}); d > float64(T(1)<<(bitsOf[T]()-1)/T(c.N)*T(c.lc)/2) {
					r.Fail("ModSwitch = %d is not the nearest multiple", g)
				}
			}
			for it := 0; it < r.N(3); it++ {
				nf := c.lc
				if r.Intn(3) == 0 {
					nf = 1 + r.Intn(c.lc)
				}
				tab := make([][]int, nf)
				fs := make([]func(int) int, nf)
				ff := make([]func(int) T, nf)
				for i := range tab {
					tab[i] = randMsgs(r, mm, mm)
					row := tab[i]
					fs[i] = func(x int) int { return row[x] }
					ff[i] = func(x int) T { return T(row[x]) * bp.Scale() }
				}
				for m := 0; m < mm; m++ {
					r.Case("%d bits %+v order=%d tables=%v m=%d", bitsOf[T](), c, order, tab, m)
					ct := e.EncryptLWE(m)
					save := ct.Copy()
					key := e.DefaultLWESecretKey().Value
					check := func(what string, out []tfhe.LWECiphertext[T]) {
						if len(out) != c.lc {
							r.Fail("%s returns %d ciphertexts", what, len(out))
							return
						}
						for i := 0; i < nf; i++ {
							if d := dist([]T{phaseLWE(out[i].Value, key)}, []T{T(tab[i][m]) * bp.Scale()}); d > float64(bp.Scale())/4 {
								r.Fail("%s: table %d off by %g of scale %d", what, i, d, bp.Scale())
							}
							if g := e.DecryptLWE(out[i]); g != tab[i][m] {
								r.Fail("%s: table %d decrypts to %d", what, i, g)
							}
						}
						for i := range ct.Value {
							if ct.Value[i] != save.Value[i] {
								r.Fail("%s modified its input", what)
								return
							}
						}
					}
					check("BootstrapFunc", ev.BootstrapFunc(ct, fs))
					lut := ev.GenLUT(fs)
					if r.Intn(2) == 0 {
						lut = ev.GenLUTFull(ff)
					} else if r.Intn(2) == 0 {
						junkv(r, lut.Value[0].Coeffs)
						ev.GenLUTTo(lut, fs)
					}
					out := make([]tfhe.LWECiphertext[T], c.lc)
					for i := range out {
						out[i] = tfhe.NewLWECiphertext(bp)
						junkv(r, out[i].Value)
					}
					ev.BootstrapLUTTo(out, ct, lut)
					check("BootstrapLUTTo", out)
					check("BootstrapLUT", ev.BootstrapLUT(ct, lut))
					ev.BootstrapFuncTo(out, ct, fs)
					check("BootstrapFuncTo", out)
				}
				if !rt.Panics(func() { ev.GenLUT(make([]func(int) int, c.lc+1)) }) {
					r.Fail("more tables than LUTCount accepted")
				}
			}
		}
	}
}

func circuit22[T ti](r *rt.R) {
	type conf struct {
		n, k, N, block, mm, lc int
		out                    tfhe.GadgetParametersLiteral[T]
	}
	for _, c := range []conf{{4, 1, 256, 1, 2, 1, gl[T](4, 2)}, {4, 1, 256, 2, 4, 2, gl[T](6, 3)}, {3, 2, 128, 3, 2, 4, gl[T](5, 4)}, {4, 1, 256, 1, 2, 4, gl[T](3, 5)}} {
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			base := lit[T](c.n, c.k, c.N, c.block, T(c.mm), order)
			base.BlindRotateParams = gl[T](10, 4)
			p := xtfhe.CircuitBootstrapParametersLiteral[T]{
				ManyLUTParams:      xtfhe.ManyLUTParametersLiteral[T]{BaseParams: base, LUTCount: c.lc},
				SchemeSwitchParams: gl[T](9, 4), TraceKeySwitchParams: gl[T](11, 4), OutputParams: c.out,
			}.Compile()
			bp := p.BaseParams()
			e := tfhe.NewEncryptor(bp)
			kg := xtfhe.NewCircuitBootstrapKeyGenerator(p, e.SecretKey)
			ev := xtfhe.NewCircuitBootstrapper(p, e.GenEvalKey(), kg.GenCircuitBootstrapKey())
			if r.Intn(2) == 0 {
				ev = ev.SafeCopy()
			}
			sk := e.SecretKey.GLWEKey.Value
			og := p.OutputParams()
			for it := 0; it < r.N(2); it++ {
				for m := 0; m < c.mm; m++ {
					r.Case("%+v order=%d m=%d", c, order, m)
					ct := e.EncryptLWE(m)
					gg := ev.CircuitBootstrap(ct)
					if it%2 == 1 {
						ev.CircuitBootstrapTo(gg, e.EncryptLWE((m+1)%c.mm))
						ev.CircuitBootstrapTo(gg, ct)
					}
					// every row is the gadget encryption of m times (1, key)
					std := ev.Decomposer // keep the evaluator busy with its own buffers
					_ = std
					raw := tfhe.NewGGSWCiphertext(bp, og)
					ev.BFVEvaluator.Evaluator.InvFFTGGSWCiphertextTo(raw, gg)
					for i := 0; i <= c.k; i++ {
						base := make([]T, c.N)
						base[0] = 1
						if i > 0 {
							base = sk[i-1].Coeffs
						}
						for j := 0; j < og.Level(); j++ {
							want := scal(base, T(m)*og.BaseQ(j))
							d := dist(phaseGLWE(raw.Value[i].Value[j], sk), want)
							if !(d <= float64(T(1)<<40)) {
								r.Fail("row %d level %d: phase off by %g", i, j, d)
							}
						}
					}
					pt := randMsgs(r, c.N, c.mm)
					cg := e.EncryptGLWE(pt)
					got := phaseGLWE(ev.BFVEvaluator.Evaluator.ExternalProdGLWE(gg, cg), sk)
					// the gadget approximates the masks to base^-level
					lim := float64(bp.Scale())/4 + float64(m*(c.N*c.k+1))*float64(og.LastBaseQ())/2
					if d := dist(got, scal(ints[T](pt), T(m)*bp.Scale())); !(d <= lim) {
						r.Fail("external product off by %g of scale %d", d, bp.Scale())
					}
				}
			}
		}
	}
}

func fhew22[T ti](r *rt.R) {
	type conf struct{ n, k, N, mm, win int }
	for _, c := range []conf{{4, 1, 256, 2, 4}, {1, 1, 64, 2, 1}, {6, 1, 256, 2, 10}, {3, 2, 128, 2, 3}, {2, 1, 16, 2, 50}} {
		if c.N == 16 {
			c.n = 0
			continue
		}
		for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
			mm := c.mm
			sd := 0.5
			if bitsOf[T]() == 64 {
				sd /= 1 << 32
			}
			p := xtfhe.FHEWParametersLiteral[T]{BaseParams: lit[T](c.n, c.k, c.N, 1, T(mm), order), SecretKeyStdDev: sd / (1 << 32), WindowSize: c.win}.Compile()
			bp := p.BaseParams()
			e := xtfhe.NewFHEWEncryptor(p)
			if r.Intn(2) == 0 {
				e = e.SafeCopy()
			} else if r.Intn(2) == 0 {
				e = xtfhe.NewFHEWEncryptorWithKey(p, e.SecretKey)
			}
			evk := e.GenEvalKey()
			if r.Intn(2) == 0 {
				evk = e.GenEvalKeyParallel()
			}
			ev := xtfhe.NewFHEWEvaluator(p, evk)
			if r.Intn(2) == 0 {
				ev = ev.SafeCopy()
			}
			sk := e.SecretKey.GLWEKey.Value
			key := e.DefaultLWESecretKey().Value
			step := T(1) << (bitsOf[T]() - 1) / T(c.N)
			for it := 0; it < r.N(6); it++ {
				tab := randMsgs(r, mm, mm)
				f := func(x int) int { return tab[x] }
				// blind rotation of chosen masks: exact rotation of the table
				lut := ev.GenLUT(f)
				ct := tfhe.NewLWECiphertextCustom[T](c.n)
				exps := make([]int, c.n+1)
				rot := 0
				for i := range exps {
					switch r.Intn(4) {
					case 0:
						exps[i] = []int{1, 2*c.N - 1, 5, 2*c.N - 5, c.N + 1, c.N - 1}[r.Intn(6)]
					case 1:
						exps[i] = 1
						if i > 1 {
							exps[i] = exps[i-1]
						}
					default:
						exps[i] = 2*r.Intn(c.N) + 1
					}
					ct.Value[i] = -(T(exps[i]) * step)
					s := 1
					if i > 0 {
						sh := 64 - bitsOf[T]()
						s = int(int64(uint64(e.SecretKey.LWEKey.Value[i-1])<<sh) >> sh)
					}
					rot += exps[i] * s
				}
				r.Case("%d bits %+v order=%d exponents=%v key=%v", bitsOf[T](), c, order, exps, e.SecretKey.LWEKey.Value)
				want := make([]T, c.N)
				for i, v := range lut.Value[0].Coeffs {
					if j := ((i+rot)%(2*c.N) + 2*c.N) % (2 * c.N); j < c.N {
						want[j] = v
					} else {
						want[j-c.N] = -v
					}
				}
				out := tfhe.NewGLWECiphertext(bp)
				junk(r, out)
				ev.BlindRotateTo(out, ct, lut)
				if d := dist(phaseGLWE(out, sk), want); !(d <= float64(bp.Scale())/4) {
					r.Fail("blind rotation off by %g of scale %d", d, bp.Scale())
				}
				if g := ev.ModSwitch(ct.Value[0]); g%2 != 1 || g < 0 || g >= 2*c.N {
					r.Fail("ModSwitch=%d", g)
				}
				for m := 0; m < mm; m++ {
					r.Case("%d bits %+v order=%d table=%v m=%d", bitsOf[T](), c, order, tab, m)
					ct := e.EncryptLWE(m)
					// keep the rounding drift inside of a block
					drift := 0.0
					for i, s := range e.SecretKey.LWEKey.Value {
						_ = i
						sh := 64 - bitsOf[T]()
						v := float64(int64(uint64(s)<<sh) >> sh)
						if v < 0 {
							v = -v
						}
						drift += 1.5 * v
					}
					if drift+4 > float64(c.N)/float64(2*mm) {
						continue
					}
					check := func(what string, o tfhe.LWECiphertext[T]) {
						if d := dist([]T{phaseLWE(o.Value, key)}, []T{T(tab[m]) * bp.Scale()}); d > float64(bp.Scale())/4 {
							r.Fail("%s off by %g of scale %d", what, d, bp.Scale())
						}
					}
					check("BootstrapFunc", ev.BootstrapFunc(ct, f))
					o := tfhe.NewLWECiphertext(bp)
					junkv(r, o.Value)
					ev.BootstrapLUTTo(o, ct, ev.GenLUT(f))
					check("BootstrapLUTTo", o)
					o = ct.Copy()
					ev.BootstrapFuncTo(o, o, f)
					check("BootstrapFuncTo in place", o)
					if g := e.DecryptLWE(o); g != tab[m] {
						r.Fail("decrypts to %d", g)
					}
				}
			}
		}
	}
}

func sanitize22[T ti](r *rt.R) {
	for _, c := range []struct{ n, N, block, mm int }{{4, 256, 1, 2}, {6, 256, 3, 4}, {4, 128, 2, 2}} {
		base := lit[T](c.n, 1, c.N, c.block, T(c.mm), ksbr)
		base.BlindRotateParams = gl[T](10, 4)
		q := 1.0 / (1 << 32) / (1 << 32)
		p := xtfhe.SanitizationParametersLiteral[T]{BaseParams: base, RandSigma: 2 * q, RandTau: 8 * q, LinEvalSigma: 1.5 * q, LinEvalTau: 4 * q}.Compile()
		e := tfhe.NewEncryptor(p.BaseParams())
		s := xtfhe.NewSanitizer(p, e.GenPublicKey(), e.GenEvalKey())
		if r.Intn(2) == 0 {
			s = s.SafeCopy()
		}
		sk := e.SecretKey.GLWEKey.Value
		scale := p.BaseParams().Scale()
		tol := float64(scale) / 16
		for it := 0; it < r.N(3); it++ {
			tab := randMsgs(r, c.mm, c.mm)
			f := func(x int) int { return tab[x] }
			msgs := randMsgs(r, c.N, c.mm)
			r.Case("%+v messages %v", c, msgs)
			cg := e.EncryptGLWE(msgs)
			og := tfhe.NewGLWECiphertext(p.BaseParams())
			junk(r, og)
			s.ReRandGLWETo(og, cg)
			want := scal(ints[T](msgs), scale)
			if d := dist(phaseGLWE(og, sk), want); !(d <= tol) {
				r.Fail("ReRandGLWETo: off by %g", d)
			}
			if dist(og.Value[1].Coeffs, cg.Value[1].Coeffs) == 0 {
				r.Fail("ReRandGLWETo left the mask unchanged")
			}
			o := cg.Copy()
			s.ReRandGLWETo(o, o)
			if d := dist(phaseGLWE(o, sk), want); !(d <= tol) {
				r.Fail("ReRandGLWETo in place: off by %g", d)
			}
			for m := 0; m < c.mm; m++ {
				r.Case("%+v table=%v m=%d", c, tab, m)
				ct := e.EncryptLWE(m)
				save := ct.Copy()
				check := func(what string, o tfhe.LWECiphertext[T], m int) {
					if d := dist([]T{phaseLWE(o.Value, e.SecretKey.LWELargeKey.Value)}, []T{T(m) * scale}); d > tol {
						r.Fail("%s off by %g of scale %d", what, d, scale)
					}
				}
				o := tfhe.NewLWECiphertext(p.BaseParams())
				junkv(r, o.Value)
				s.ReRandLWETo(o, ct)
				check("ReRandLWETo", o, m)
				if dist(o.Value[1:], ct.Value[1:]) == 0 {
					r.Fail("ReRandLWETo left the mask unchanged")
				}
				check("SanitizeFunc", s.SanitizeFunc(ct, f), tab[m])
				junkv(r, o.Value)
				s.SanitizeLUTTo(o, ct, s.GenLUT(f))
				check("SanitizeLUTTo", o, tab[m])
				check("SanitizeLUT", s.SanitizeLUT(ct, s.GenLUT(f)), tab[m])
				if dist(ct.Value, save.Value) != 0 {
					r.Fail("input modified")
				}
				o = ct.Copy()
				s.SanitizeFuncTo(o, o, f)
				check("SanitizeFuncTo in place", o, tab[m])
			}
		}
	}
}
