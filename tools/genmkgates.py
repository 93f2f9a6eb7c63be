"""Writes contracts/mkgates.gowp: the multi-key gates (P15, P20)."""
import sys
out = '''Contracts for the multi-key binary gates (P15). Written by tools/genmkgates.py.

//@ package mktfhe
//@ deftypes uint32 uint64
//@ props P15
'''
out += '''
//@ template mkgate = use mkbt($1.Evaluator, $1.signLUT) ;; shape $1.Params.subParams.bootstrapOrder = $1.Evaluator.Params.subParams.bootstrapOrder ;; shape $1.Params.subParams.lweDimension = $1.Evaluator.Params.subParams.lweDimension
//@ | ;; shape $1.Params.subParams.glweDimension = $1.Evaluator.Params.subParams.glweDimension ;; shape $1.Params.partyCount = $1.Evaluator.Params.partyCount ;; shape $1.Params.subParams.logQ = sizeT(T)
//@ | ;; shape $2.Value = mkd($1.Evaluator) + 1 ;; shape $3.Value = mkd($1.Evaluator) + 1
//@ define mkgb(e, k, w) = uf(T, "mkboot", w, lam(c, mkr(e.Evaluator), e.signLUT.Value[0].Coeffs[c]), k)
'''
tt = {'AND': (1,0,0,0), 'NAND': (0,1,1,1), 'OR': (1,1,1,0), 'NOR': (0,0,0,1), 'XOR': (0,1,1,0), 'XNOR': (1,0,0,1)}
for n, rows in tt.items():
    lam = ("lam(a, mkd(e.Evaluator)+1, ite(a == 0, g%s(ct0.Value[0], ct1.Value[0], T(1) << (sizeT(T)-3), T(1) << (sizeT(T)-2)), g%s(ct0.Value[a], ct1.Value[a], T(0), T(0))))" % (n, n))
    for par in ('', 'Parallel'):
        out += '''
//@ func (*BinaryEvaluator).%s%sTo[T](e, ctOut, ct0, ct1)
//@ open
//@ use mkgate(e, ct0, ct1)
//@ shape ctOut.Value = mkd(e.Evaluator) + 1
//@ alias ctOut ct0 ct1
//@ sets ctOut.Value[k] for k < len(ctOut.Value) = mkgb(e, k, %s)
''' % (n, par, lam)
        for (p, q), r in zip((('T','T'),('T','F'),('F','T'),('F','F')), rows):
            out += '//@ lemma implies(near%s(ct0.Value[0]) && near%s(ct1.Value[0]), %spos(g%s(ct0.Value[0], ct1.Value[0], T(1) << (sizeT(T)-3), T(1) << (sizeT(T)-2))))\n' % (p, q, '' if r else '!', n)
        out += '''
//@ func (*BinaryEvaluator).%s%s[T](e, ct0, ct1)
//@ open
//@ use mkgate(e, ct0, ct1)
//@ ensures len(result.Value) == mkd(e.Evaluator) + 1
//@ ensures forall(k, 0, len(result.Value), result.Value[k] == mkgb(e, k, %s))
//@ fresh
''' % (n, par, lam)
out += '''
//@ func (*BinaryEvaluator).NOTTo[T](e, ctOut, ct)
//@ requires mparOK(e.Params) && parOK(e.Params.subParams) && orderOK(e.Params.subParams) && mkd(e) >= 1 && mkd(e) <= 1 << 38
//@ shape ctOut.Value = mkd(e) + 1
//@ shape ct.Value = mkd(e) + 1
//@ alias ctOut ct
//@ sets ctOut.Value[k] for k < len(ctOut.Value) = -ct.Value[k]

//@ func (*BinaryEvaluator).NOT[T](e, ct)
//@ requires mparOK(e.Params) && parOK(e.Params.subParams) && orderOK(e.Params.subParams) && mkd(e) >= 1 && mkd(e) <= 1 << 38
//@ shape ct.Value = mkd(e) + 1
//@ ensures len(result.Value) == len(ct.Value) && forall(k, 0, len(ct.Value), result.Value[k] == -ct.Value[k])
//@ fresh
'''
open(sys.argv[1] if len(sys.argv) > 1 else '/verif/contracts/mkgates.gowp', 'w').write(out)
