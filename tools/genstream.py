#!/usr/bin/env python3
"""Writes the generated part of contracts/stream.gowp: serialisation contracts of the nested objects (P16)."""
import os, sys
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "streamobj.gowp")

# type: (package, [header fields], [nesting with symbols], words per leaf element, leaf kind)
# header: list of (expression in the object, header name); dims: list of (path suffix, count expr)
K1 = "uf(int,\"K\")+1"
K, L, N, D, D2 = ('uf(int,"%s")' % s for s in "K L N D E".split())
WB = "wb()"
# name: recv, pkg, hdr[(object expr, uint64)], shapes [(path, size)], size of the body, and how the headers give the shape
T = [
 # (pkg, type, headers as object expressions, shape chain [(path,len)], body size, reader: list of (path,len in hdr terms), body size in hdr terms, constraints)
 ("tfhe", "LWESecretKey", [D], [("Value", D)], f"{D}*{WB}", ["D"]),
 ("tfhe", "LWEPublicKey", [K, N], [("Value", K), ("Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Coeffs", N)], f"{K}*({K}+1)*{N}*{WB}", ["K", "N"]),
 ("tfhe", "LevCiphertext", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", D], [("Value", L), ("Value[_].Value", f"{D}+1")], f"{L}*({D}+1)*{WB}", ["B", "L", "D"]),
 ("tfhe", "GSWCiphertext", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", D], [("Value", f"{D}+1"), ("Value[_].Value", L), ("Value[_].Value[_].Value", f"{D}+1")], f"({D}+1)*{L}*({D}+1)*{WB}", ["B", "L", "D"]),
 ("tfhe", "GLWESecretKey", [K, N], [("Value", K), ("Value[_].Coeffs", N)], f"{K}*{N}*{WB}", ["K", "N"]),
 ("tfhe", "GLWEPublicKey", [K, N], [("Value", K), ("Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Coeffs", N)], f"{K}*({K}+1)*{N}*{WB}", ["K", "N"]),
 ("tfhe", "GLWEPlaintext", [N], [("Value.Coeffs", N)], f"{N}*{WB}", ["N"]),
 ("tfhe", "GLWECiphertext", [K, N], [("Value", f"{K}+1"), ("Value[_].Coeffs", N)], f"({K}+1)*{N}*{WB}", ["K", "N"]),
 ("tfhe", "GLevCiphertext", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", K, N], [("Value", L), ("Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Coeffs", N)], f"{L}*({K}+1)*{N}*{WB}", ["B", "L", "K", "N"]),
 ("tfhe", "GGSWCiphertext", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", K, N], [("Value", f"{K}+1"), ("Value[_].Value", L), ("Value[_].Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Value[_].Coeffs", N)], f"({K}+1)*{L}*({K}+1)*{N}*{WB}", ["B", "L", "K", "N"]),
 ("tfhe", "FFTGLWESecretKey", [K, N], [("Value", K), ("Value[_].Coeffs", N)], f"{K}*{N}*8", ["K", "N"]),
 ("tfhe", "FFTGLWECiphertext", [K, N], [("Value", f"{K}+1"), ("Value[_].Coeffs", N)], f"({K}+1)*{N}*8", ["K", "N"]),
 ("tfhe", "FFTGLevCiphertext", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", K, N], [("Value", L), ("Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Coeffs", N)], f"{L}*({K}+1)*{N}*8", ["B", "L", "K", "N"]),
 ("tfhe", "FFTGGSWCiphertext", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", K, N], [("Value", f"{K}+1"), ("Value[_].Value", L), ("Value[_].Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Value[_].Coeffs", N)], f"({K}+1)*{L}*({K}+1)*{N}*8", ["B", "L", "K", "N"]),
 ("tfhe", "LWEKeySwitchKey", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", D2, D], [("Value", D2), ("Value[_].Value", L), ("Value[_].Value[_].Value", f"{D}+1")], f"{D2}*{L}*({D}+1)*{WB}", ["B", "L", "E", "D"]),
 ("tfhe", "GLWEKeySwitchKey", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", D2, K, N], [("Value", D2), ("Value[_].Value", L), ("Value[_].Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Value[_].Coeffs", N)], f"{D2}*{L}*({K}+1)*{N}*8", ["B", "L", "E", "K", "N"]),
 ("tfhe", "BlindRotateKey", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", D, K, N], [("Value", D), ("Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Value", L), ("Value[_].Value[_].Value[_].Value", f"{K}+1"), ("Value[_].Value[_].Value[_].Value[_].Coeffs", N)], f"{D}*({K}+1)*{L}*({K}+1)*{N}*8", ["B", "L", "D", "K", "N"]),
 ("mktfhe", "LWECiphertext", [D], [("Value", f"{D}+1")], f"({D}+1)*{WB}", ["D"]),
 ("mktfhe", "GLWECiphertext", [K, N], [("Value", f"{K}+1"), ("Value[_].Coeffs", N)], f"({K}+1)*{N}*{WB}", ["K", "N"]),
 ("mktfhe", "FFTGLWECiphertext", [K, N], [("Value", f"{K}+1"), ("Value[_].Coeffs", N)], f"({K}+1)*{N}*8", ["K", "N"]),
 ("mktfhe", "UniEncryption", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", N], [("Value", "2"), ("Value[_].Value", L), ("Value[_].Value[_].Value", "2"), ("Value[_].Value[_].Value[_].Coeffs", N)], f"4*{L}*{N}*{WB}", ["B", "L", "N"]),
 ("mktfhe", "FFTUniEncryption", ["uint64($.GadgetParams.base)", "uint64($.GadgetParams.level)", N], [("Value", "2"), ("Value[_].Value", L), ("Value[_].Value[_].Value", "2"), ("Value[_].Value[_].Value[_].Coeffs", N)], f"4*{L}*{N}*8", ["B", "L", "N"]),
]
RNG = {"K": "1<<10", "L": "65", "N": "1<<30", "D": "1<<14", "E": "1<<14"}

def main():
    out = ["Generated by tools/genstream.py: serialisation contracts of the nested objects (P16).", ""]
    pkg = None
    for p, t, hdr, shp, body, hn in T:
        if p != pkg:
            out += ["//@ package " + p, "//@ deftypes uint32 uint64", "//@ props P16"]
            pkg = p
        syms = [s for s in "K L N D E".split() if f'uf(int,"{s}")' in " ".join(x[1] for x in shp)]
        req = " && ".join(f'uf(int,"{s}") >= {16 if s == "N" else 1} && uf(int,"{s}") < {RNG[s]}' for s in syms)
        pre = ["//@ requires " + req] + [f"//@ shape $.{a} = {n}" for a, n in shp]
        if any("GadgetParams" in h for h in hdr):
            pre.append(f"//@ shape $.GadgetParams.level = {L}")
        r = "o"
        size = f"{8*len(hdr)} + {body}"
        put = lambda ls: out.extend(x.replace("$", r) for x in ls)
        put(["", f"//@ func ({t}).ByteSize[T](o)", "//@ open"] + pre + [f"//@ result {size}"])
        heavy = ["//@ thorough"] if t in ("GGSWCiphertext", "BlindRotateKey") else []
        put(["", f"//@ func ({t}).WriteTo[T](o, w)", *heavy, "//@ countonly", "//@ open"] + (["//@ unroll 0"] if "Uni" in t else []) + pre + ["//@ use acct()", f"//@ ensures implies(isnil(result1), result0 == {size})"])
        for i, h in enumerate(hdr):
            put([f"//@ ensures implies(isnil(result1), forall(j, 0, 8, wrec({i}, j) == uint8(uint64({h}) >> (56-8*j))))"])
        # reader
        if t == "BlindRotateKey":  # beyond the verifier's reach in the time there is; executed in rt
            continue
        rr = []
        sub = {}
        for i, s in enumerate(hn):
            if s == "B":
                rr.append(f"//@ requires T(be64({i}, 0)) >= 2 && pow2(T(be64({i}, 0))) && hdr({i+1}) >= 1 && sizeT(T) / lg(T(be64({i}, 0))) >= hdr({i+1})")
            else:
                rr.append(f"//@ requires hdr({i}) >= {16 if s == 'N' else 1} && hdr({i}) < {RNG[s]}")
                if s == "N":
                    rr.append(f"//@ requires pow2(hdr({i}))")
                sub[f'uf(int,"{s}")'] = f"hdr({i})"
        def S(e):
            for a, b in sub.items():
                e = e.replace(a, b)
            return e
        put(["", f"//@ func (*{t}).ReadFrom[T](o, r)", "//@ countonly", "//@ open"] + (["//@ unroll 0"] if "Uni" in t else []) + rr + ["//@ buffer o.Value" if t != "GLWEPlaintext" else "//@ buffer o.Value.Coeffs", *(["//@ buffer o.GadgetParams."+f for f in ("base", "logBase", "level", "sizeT")] if hn[0] == "B" else []), "//@ use acct()", f"//@ ensures implies(isnil(result1), result0 == {S(size)})"])
        idx = []
        for a, n in shp:
            e = a
            for q in range(a.count("[_]")):
                e = e.replace("[_]", f"[i{q}]", 1)
            body_ = f"len(o.{e}) == {S(n)}"
            for q in reversed(range(a.count("[_]"))):
                body_ = f"forall(i{q}, 0, {S(shp[q][1])}, {body_})"
            # slices of constant length: one clause for each element
            bs = [body_]
            for q in range(a.count("[_]")):
                if shp[q][1] == "2":
                    bs = [b.replace(f"forall(i{q}, 0, 2, ", "(").replace(f"[i{q}]", f"[{v}]") for b in bs for v in "01"]
            put([f"//@ ensures implies(isnil(result1), {b})" for b in bs])
        # contents: the words of the records that follow the headers
        fft = "FFT" in t or t in ("GLWEKeySwitchKey", "BlindRotateKey")
        a, n = shp[-1]
        if len(shp) <= 3 and (a.endswith("Coeffs") or a.endswith("Value")):
            leaf = "record"
            if t.startswith("LWES") or (t == "LWECiphertext"):
                leaf = "word"
            if t == "GLWEPlaintext":
                leaf = "word"
            dims = [S(x[1]) for x in shp]
            e = a
            for q in range(a.count("[_]")):
                e = e.replace("[_]", f"[i{q}]", 1)
            m = len(shp) - 1
            rec = str(len(hdr))
            for q in range(m if leaf == "record" else m + 1):
                st_ = "*".join(f"({d})" for d in dims[q+1:(m if leaf == "record" else m + 1)])
                v = f"i{q}" if q < m else "m"
                rec += f" + {v}" + (f"*{st_}" if st_ else "")
            w = "beF(%s, %s)" if fft else "rword(%s, %s)"
            off = ("8*m" if fft else "wb()*m") if leaf == "record" else "0"
            b = f"o.{e}[m] == " + w % (rec, off)
            b = f"forall(m, 0, {dims[-1]}, {b})"
            for q in reversed(range(m)):
                b = f"forall(i{q}, 0, {dims[q]}, {b})"
            put([f"//@ ensures implies(isnil(result1), {b})"])
        if hn[0] == "B":
            put(["//@ ensures implies(isnil(result1), o.GadgetParams.base == T(be64(0,0)) && o.GadgetParams.level == hdr(1))"])
    txt = "\n".join(out) + "\n"
    open(OUT, "w").write(txt)
main()
