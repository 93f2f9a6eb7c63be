From 92fd7d21e563d8f8832fdbbb2e4cd42e0f43c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 01/25] fix: vec kernels accept empty vectors without backing
 storage

The generic kernels take the address of the first element through v[:1],
which panics when a vector of length 0 also has capacity 0, while the AVX2
kernels accept it.
---
 math/vec/asm_vec.go       | 24 ++++++++++++++++++++++++
 math/vec/asm_vec_amd64.go | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/math/vec/asm_vec.go b/math/vec/asm_vec.go
index e8dce95..2d3c8a9 100644
--- a/math/vec/asm_vec.go
+++ b/math/vec/asm_vec.go
@@ -11,6 +11,9 @@ import (
 // AddTo computes vOut = v0 + v1.
 func AddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -43,6 +46,9 @@ func AddTo[T num.Number](vOut, v0, v1 []T) {
 // SubTo computes vOut = v0 - v1.
 func SubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -75,6 +81,9 @@ func SubTo[T num.Number](vOut, v0, v1 []T) {
 // ScalarMulTo computes vOut = c * v.
 func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -105,6 +114,9 @@ func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 // ScalarMulAddTo computes vOut += c * v.
 func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -135,6 +147,9 @@ func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 // ScalarMulSubTo computes vOut -= c * v0.
 func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -165,6 +180,9 @@ func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 // MulTo computes vOut = v0 * v1, where * is an elementwise multiplication.
 func MulTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -197,6 +215,9 @@ func MulTo[T num.Number](vOut, v0, v1 []T) {
 // MulAddTo computes vOut += v0 * v1, where * is an elementwise multiplication.
 func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -229,6 +250,9 @@ func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 // MulSubTo computes vOut -= v0 * v1, where * is an elementwise multiplication.
 func MulSubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
diff --git a/math/vec/asm_vec_amd64.go b/math/vec/asm_vec_amd64.go
index 16c79e9..5a8eef1 100644
--- a/math/vec/asm_vec_amd64.go
+++ b/math/vec/asm_vec_amd64.go
@@ -12,6 +12,9 @@ import (
 // AddTo computes vOut = v0 + v1.
 func AddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -65,6 +68,9 @@ func AddTo[T num.Number](vOut, v0, v1 []T) {
 // SubTo computes vOut = v0 - v1.
 func SubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -118,6 +124,9 @@ func SubTo[T num.Number](vOut, v0, v1 []T) {
 // ScalarMulTo computes vOut = c * v.
 func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -169,6 +178,9 @@ func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 // ScalarMulAddTo computes vOut += c * v.
 func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -220,6 +232,9 @@ func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 // ScalarMulSubTo computes vOut -= c * v0.
 func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -271,6 +286,9 @@ func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 // MulTo computes vOut = v0 * v1, where * is an elementwise multiplication.
 func MulTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -324,6 +342,9 @@ func MulTo[T num.Number](vOut, v0, v1 []T) {
 // MulAddTo computes vOut += v0 * v1, where * is an elementwise multiplication.
 func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -377,6 +398,9 @@ func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 // MulSubTo computes vOut -= v0 * v1, where * is an elementwise multiplication.
 func MulSubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
-- 
2.43.0


From b49596633aff08f8302cf433b6a2fff4d4929e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:59 +0000
Subject: [PATCH 02/25] fix: DivRound rounds exactly instead of through float64

Decoding a 64-bit phase just below half a step rounded up because the
quotient was computed in float64.
---
 math/num/num.go | 21 ++++++++++++++++++++-
 tfhe/params.go  |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index cf32f58..d88c078 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -126,7 +126,26 @@ func Log2[T Integer](x T) int {
 
 // DivRound returns round(x/y).
 func DivRound[T Integer](x, y T) T {
-	return T(math.Round(float64(x) / float64(y)))
+	q, r := x/y, x%y
+	switch {
+	case r > 0 && y > 0:
+		if r >= y-r {
+			q++
+		}
+	case r > 0 && y < 0:
+		if -r <= y+r {
+			q--
+		}
+	case r < 0 && y > 0:
+		if -r >= y+r {
+			q--
+		}
+	case r < 0 && y < 0:
+		if r <= y-r {
+			q++
+		}
+	}
+	return q
 }
 
 // DivRoundBits is a bit-optimzed version of RoundRatio: it returns round(x/2^bits).
diff --git a/tfhe/params.go b/tfhe/params.go
index da23e33..b9c14c2 100644
--- a/tfhe/params.go
+++ b/tfhe/params.go
@@ -424,7 +424,7 @@ func (p ParametersLiteral[T]) Compile() Parameters[T] {
 		blockCount: p.LWEDimension / p.BlockSize,
 
 		messageModulus: p.MessageModulus,
-		scale:          num.DivRound(1<<(num.SizeT[T]()-1), p.MessageModulus),
+		scale:          num.DivRound(1<<(num.SizeT[T]()-1), num.Max(p.MessageModulus, 1)),
 
 		logQ:   num.SizeT[T](),
 		floatQ: math.Exp2(float64(num.SizeT[T]())),
-- 
2.43.0


From 2c7bcc25cc3ee50820295952b8d815b7b0f72013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 03/25] fix: ModInverse for unsigned types

Negative Bezout coefficients wrapped around before the final reduction.
---
 math/num/num.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index d88c078..dceb130 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -245,12 +245,16 @@ func ModInverse[T Integer](x, m T) T {
 		x += m
 	}
 
+	// The coefficients of x alternate in sign, so only their absolute values
+	// are tracked. This also covers unsigned types.
 	a, b := x, m
 	u, v := T(1), T(0)
+	neg := false
 	for b != 0 {
 		q := a / b
 		a, b = b, a-q*b
-		u, v = v, u-q*v
+		u, v = v, u+q*v
+		neg = !neg
 	}
 
 	if a != 1 {
@@ -258,8 +262,8 @@ func ModInverse[T Integer](x, m T) T {
 	}
 
 	u %= m
-	if u < 0 {
-		u += m
+	if neg && u != 0 {
+		u = m - u
 	}
 	return u
 }
-- 
2.43.0


From e681368c8b3a51eaa9022b4cf631f98d61c3242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 04/25] fix: ModExp for large moduli, modulus one and the
 smallest exponent

---
 math/num/num.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index dceb130..474e559 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -279,12 +279,10 @@ func ModExp[T Integer](x, y, m T) T {
 		panic("modulus not positive")
 	}
 
-	switch {
-	case y < 0:
+	exp := uint64(y)
+	if y < 0 {
 		x = ModInverse(x, m)
-		y = -y
-	case y == 0:
-		return 1
+		exp = -exp
 	}
 
 	x %= m
@@ -292,17 +290,17 @@ func ModExp[T Integer](x, y, m T) T {
 		x += m
 	}
 
-	res := T(1)
-	for y > 0 {
-		if y&1 == 1 {
-			res = (res * x) % m
+	base, mod := uint64(x), uint64(m)
+	res := 1 % mod
+	for exp > 0 {
+		if exp&1 == 1 {
+			hi, lo := bits.Mul64(res, base)
+			res = bits.Rem64(hi, lo, mod)
 		}
-		x = (x * x) % m
-		y >>= 1
+		hi, lo := bits.Mul64(base, base)
+		base = bits.Rem64(hi, lo, mod)
+		exp >>= 1
 	}
 
-	if res < 0 {
-		res += m
-	}
-	return res
+	return T(res)
 }
-- 
2.43.0


From 0cf78549f428a0b1b5cfa540eeb63b5c3a013546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 05/25] fix: rotation of empty vectors and by the smallest
 integer

---
 math/vec/vec.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/math/vec/vec.go b/math/vec/vec.go
index b3fe8eb..ecd7762 100644
--- a/math/vec/vec.go
+++ b/math/vec/vec.go
@@ -80,10 +80,13 @@ func Rotate[T any](v []T, l int) []T {
 func RotateTo[T any](vOut, v []T, l int) {
 	checkLength(len(vOut), len(v))
 
+	if len(v) == 0 {
+		return
+	}
+
+	l %= len(v)
 	if l < 0 {
-		l = len(v) - ((-l) % len(v))
-	} else {
-		l %= len(v)
+		l += len(v)
 	}
 
 	copy(vOut[l:], v)
@@ -93,10 +96,13 @@ func RotateTo[T any](vOut, v []T, l int) {
 // RotateInPlace rotates v l times to the right in-place.
 // If l < 0, then it rotates the vector l times to the left.
 func RotateInPlace[T any](v []T, l int) {
+	if len(v) == 0 {
+		return
+	}
+
+	l %= len(v)
 	if l < 0 {
-		l = len(v) - ((-l) % len(v))
-	} else {
-		l %= len(v)
+		l += len(v)
 	}
 
 	ReverseInPlace(v)
-- 
2.43.0


From bfa7dc3912a8d39d562de3f2fc601873cf9df2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 06/25] fix: gadget level check cannot overflow

---
 tfhe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfhe/params.go b/tfhe/params.go
index b9c14c2..f1a82a1 100644
--- a/tfhe/params.go
+++ b/tfhe/params.go
@@ -46,7 +46,7 @@ func (p GadgetParametersLiteral[T]) Compile() GadgetParameters[T] {
 		panic("Base not power of two")
 	case p.Level <= 0:
 		panic("Level smaller than or equal to zero")
-	case num.SizeT[T]() < num.Log2(p.Base)*p.Level:
+	case num.SizeT[T]()/num.Log2(p.Base) < p.Level:
 		panic("Base^Level larger than Q")
 	}
 
-- 
2.43.0


From 1d48d6e1cf5e12e28be5f49f8f9fb8df7c26e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 07/25] fix: negative and large messages for moduli that are
 not powers of two

---
 tfhe/encoder.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index 13d6aa1..085f16b 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -24,6 +24,23 @@ func NewEncoder[T TorusInt](params Parameters[T]) *Encoder[T] {
 	}
 }
 
+// reduceMessage returns message mod messageModulus in [0, messageModulus).
+// If messageModulus = 0, then no modulus reduction is performed.
+func reduceMessage[T TorusInt](message int, messageModulus T) T {
+	switch {
+	case messageModulus == 0:
+		return T(message)
+	case message >= 0:
+		return T(uint64(message) % uint64(messageModulus))
+	}
+
+	r := T(-uint64(message) % uint64(messageModulus))
+	if r != 0 {
+		r = messageModulus - r
+	}
+	return r
+}
+
 // EncodeLWE encodes integer message to LWE plaintext.
 // Parameter's MessageModulus and Scale are used.
 func (e *Encoder[T]) EncodeLWE(message int) LWEPlaintext[T] {
@@ -35,11 +52,7 @@ func (e *Encoder[T]) EncodeLWE(message int) LWEPlaintext[T] {
 //
 // If MessageModulus = 0, then no modulus reduction is performed.
 func (e *Encoder[T]) EncodeLWECustom(message int, messageModulus, scale T) LWEPlaintext[T] {
-	encoded := T(message)
-	if messageModulus != 0 {
-		encoded %= messageModulus
-	}
-	return LWEPlaintext[T]{Value: encoded * scale}
+	return LWEPlaintext[T]{Value: reduceMessage(message, messageModulus) * scale}
 }
 
 // DecodeLWE decodes LWE plaintext to integer message.
@@ -101,11 +114,7 @@ func (e *Encoder[T]) EncodeGLWECustom(messages []int, messageModulus, scale T) G
 func (e *Encoder[T]) EncodeGLWECustomTo(ptOut GLWEPlaintext[T], messages []int, messageModulus, scale T) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		ptOut.Value.Coeffs[i] = T(messages[i])
-		if messageModulus != 0 {
-			ptOut.Value.Coeffs[i] %= messageModulus
-		}
-		ptOut.Value.Coeffs[i] *= scale
+		ptOut.Value.Coeffs[i] = reduceMessage(messages[i], messageModulus) * scale
 	}
 	vec.Fill(ptOut.Value.Coeffs[length:], 0)
 }
-- 
2.43.0


From cd04b94adbc370d7a15777d7559f041f06cf109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 08/25] fix: reject GLWE dimensions that overflow

---
 tfhe/params.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfhe/params.go b/tfhe/params.go
index f1a82a1..95d69e2 100644
--- a/tfhe/params.go
+++ b/tfhe/params.go
@@ -386,10 +386,12 @@ func (p ParametersLiteral[T]) Compile() Parameters[T] {
 	switch {
 	case p.LWEDimension <= 0:
 		panic("LWEDimension smaller than zero")
-	case p.LWEDimension > p.GLWERank*p.PolyRank:
-		panic("LWEDimension larger than GLWEDimension")
 	case p.GLWERank <= 0:
 		panic("GLWERank smaller than zero")
+	case p.PolyRank > 0 && p.GLWERank > math.MaxInt/p.PolyRank:
+		panic("GLWEDimension too large")
+	case p.LWEDimension > p.GLWERank*p.PolyRank:
+		panic("LWEDimension larger than GLWEDimension")
 	case p.LUTSize < p.PolyRank:
 		panic("LUTSize smaller than PolyRank")
 	case p.LWEStdDev <= 0:
-- 
2.43.0


From bc93b342144aca09f72f196e0fb9630c71c8a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 09/25] fix: decoding with scale one and automatic message
 modulus

---
 tfhe/encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index 085f16b..af26074 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -68,6 +68,9 @@ func (e *Encoder[T]) DecodeLWE(pt LWEPlaintext[T]) int {
 func (e *Encoder[T]) DecodeLWECustom(pt LWEPlaintext[T], messageModulus, scale T) int {
 	decoded := num.DivRound(pt.Value, scale)
 	if messageModulus == 0 {
+		if scale == 1 {
+			return int(decoded)
+		}
 		messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
 	}
 	return int(decoded % messageModulus)
@@ -159,6 +162,10 @@ func (e *Encoder[T]) DecodeGLWECustomTo(messagesOut []int, pt GLWEPlaintext[T],
 	for i := 0; i < length; i++ {
 		decoded := num.DivRound(pt.Value.Coeffs[i], scale)
 		if messageModulus == 0 {
+			if scale == 1 {
+				messagesOut[i] = int(decoded)
+				continue
+			}
 			messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
 		}
 		messagesOut[i] = int(decoded % messageModulus)
-- 
2.43.0


From 2897fb5fd57cb1e6f7f860b4e8731d096483c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 10/25] fix: public-key encryption overwrites the destination
 mask

---
 tfhe/glwe_enc_public.go | 2 +-
 tfhe/lwe_enc_public.go  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/tfhe/glwe_enc_public.go b/tfhe/glwe_enc_public.go
index 6ba876a..1ed2c67 100644
--- a/tfhe/glwe_enc_public.go
+++ b/tfhe/glwe_enc_public.go
@@ -36,7 +36,7 @@ func (e *PublicEncryptor[T]) EncryptGLWEBody(ct GLWECiphertext[T]) {
 
 	e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[0], e.PublicKey.GLWEKey.Value[0].Value[0], e.buf.auxFourierKey.Value[0])
 	for j := 1; j < e.Params.glweRank+1; j++ {
-		e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[j], e.PublicKey.GLWEKey.Value[0].Value[j], e.buf.auxFourierKey.Value[0])
+		e.PolyEvaluator.ShortFFTPolyMulPolyTo(ct.Value[j], e.PublicKey.GLWEKey.Value[0].Value[j], e.buf.auxFourierKey.Value[0])
 	}
 	for i := 1; i < e.Params.glweRank; i++ {
 		for j := 0; j < e.Params.glweRank+1; j++ {
diff --git a/tfhe/lwe_enc_public.go b/tfhe/lwe_enc_public.go
index 8e61e1f..e8b9524 100644
--- a/tfhe/lwe_enc_public.go
+++ b/tfhe/lwe_enc_public.go
@@ -47,6 +47,7 @@ func (e *PublicEncryptor[T]) EncryptLWEBody(ct LWECiphertext[T]) {
 		ctGLWE[i] = poly.Poly[T]{Coeffs: ct.Value[1+i*e.Params.polyRank : 1+(i+1)*e.Params.polyRank]}
 	}
 
+	vec.Fill(ct.Value[1:], 0)
 	for i := 0; i < e.Params.glweRank; i++ {
 		for j := 0; j < e.Params.glweRank; j++ {
 			e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ctGLWE[j], e.PublicKey.LWEKey.Value[i].Value[j+1], e.buf.auxFourierKey.Value[i])
-- 
2.43.0


From 98083a14da62c48e05ba360a78329f664cc3b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 11/25] fix: negative and large messages in gadget encryption
 for moduli that are not powers of two

---
 mktfhe/fft_glwe_enc.go |  7 +------
 mktfhe/glwe_enc.go     |  7 +------
 tfhe/fft_glwe_enc.go   | 13 ++-----------
 tfhe/glwe_enc.go       | 19 +++----------------
 tfhe/lwe_enc.go        |  8 ++++----
 5 files changed, 11 insertions(+), 43 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 298dc37..59d1434 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -3,7 +3,6 @@ package mktfhe
 import (
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/poly"
-	"github.com/sp301415/tfhe-go/math/vec"
 	"github.com/sp301415/tfhe-go/tfhe"
 )
 
@@ -16,11 +15,7 @@ func (e *Encryptor[T]) FFTUniEncrypt(messages []int, gadgetParams tfhe.GadgetPar
 
 // FFTUniEncryptTo encrypts integer messages to FFTUniEncryption and writes it to ctOut.
 func (e *Encryptor[T]) FFTUniEncryptTo(ctOut FFTUniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
-	length := num.Min(e.Params.PolyRank(), len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.MessageModulus(), 1)
 
 	e.FFTUniEncryptPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index 6186f5a..acf79f7 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -3,7 +3,6 @@ package mktfhe
 import (
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/poly"
-	"github.com/sp301415/tfhe-go/math/vec"
 	"github.com/sp301415/tfhe-go/tfhe"
 )
 
@@ -16,11 +15,7 @@ func (e *Encryptor[T]) UniEncrypt(messages []int, gadgetParams tfhe.GadgetParame
 
 // UniEncryptTo encrypts integer messages to UniEncryption and writes it to ctOut.
 func (e *Encryptor[T]) UniEncryptTo(ctOut UniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
-	length := num.Min(e.Params.PolyRank(), len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.MessageModulus(), 1)
 
 	e.UniEncryptPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
diff --git a/tfhe/fft_glwe_enc.go b/tfhe/fft_glwe_enc.go
index cbdabeb..e4cf8dd 100644
--- a/tfhe/fft_glwe_enc.go
+++ b/tfhe/fft_glwe_enc.go
@@ -3,7 +3,6 @@ package tfhe
 import (
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/poly"
-	"github.com/sp301415/tfhe-go/math/vec"
 )
 
 // EncryptFFTGLWE encodes and encrypts integer messages to FFTGLWE ciphertext.
@@ -61,11 +60,7 @@ func (e *Encryptor[T]) EncryptFFTGLev(messages []int, gadgetParams GadgetParamet
 
 // EncryptFFTGLevTo encrypts integer message to FFTGLev ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptFFTGLevTo(ctOut FFTGLevCiphertext[T], messages []int) {
-	length := num.Min(e.Params.polyRank, len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.messageModulus, 1)
 
 	e.EncryptFFTGLevPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
@@ -127,11 +122,7 @@ func (e *Encryptor[T]) EncryptFFTGGSW(messages []int, gadgetParams GadgetParamet
 
 // EncryptFFTGGSWTo encrypts integer message to FFTGGSW ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptFFTGGSWTo(ctOut FFTGGSWCiphertext[T], messages []int) {
-	length := num.Min(e.Params.polyRank, len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.messageModulus, 1)
 
 	e.EncryptFFTGGSWPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
diff --git a/tfhe/glwe_enc.go b/tfhe/glwe_enc.go
index 87fc490..6f74551 100644
--- a/tfhe/glwe_enc.go
+++ b/tfhe/glwe_enc.go
@@ -3,7 +3,6 @@ package tfhe
 import (
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/poly"
-	"github.com/sp301415/tfhe-go/math/vec"
 )
 
 // EncryptGLWE encodes and encrypts integer messages to GLWE ciphertext.
@@ -79,11 +78,7 @@ func (e *Encryptor[T]) EncryptGLev(messages []int, gadgetParams GadgetParameters
 
 // EncryptGLevTo encrypts integer message to GLev ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptGLevTo(ctOut GLevCiphertext[T], messages []int) {
-	length := num.Min(e.Params.polyRank, len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.messageModulus, 1)
 
 	e.EncryptGLevPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
@@ -137,22 +132,14 @@ func (e *Encryptor[T]) DecryptGLevPolyTo(pOut poly.Poly[T], ct GLevCiphertext[T]
 
 // EncryptGGSW encrypts integer message to GGSW ciphertext.
 func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters[T]) GGSWCiphertext[T] {
-	length := num.Min(e.Params.polyRank, len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.messageModulus, 1)
 
 	return e.EncryptGGSWPoly(e.buf.ptGLWE.Value, gadgetParams)
 }
 
 // EncryptGGSWTo encrypts integer message to GGSW ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptGGSWTo(ctOut GGSWCiphertext[T], messages []int) {
-	length := num.Min(e.Params.polyRank, len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.messageModulus, 1)
 
 	e.EncryptGGSWPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
diff --git a/tfhe/lwe_enc.go b/tfhe/lwe_enc.go
index d999dc7..9747a65 100644
--- a/tfhe/lwe_enc.go
+++ b/tfhe/lwe_enc.go
@@ -49,12 +49,12 @@ func (e *Encryptor[T]) DecryptLWEPhase(ct LWECiphertext[T]) LWEPlaintext[T] {
 
 // EncryptLev encrypts integer message to Lev ciphertext.
 func (e *Encryptor[T]) EncryptLev(message int, gadgetParams GadgetParameters[T]) LevCiphertext[T] {
-	return e.EncryptLevScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptLevScalar(reduceMessage(message, e.Params.messageModulus), gadgetParams)
 }
 
 // EncryptLevTo encrypts integer message to Lev ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptLevTo(ctOut LevCiphertext[T], message int) {
-	e.EncryptLevScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptLevScalarTo(ctOut, reduceMessage(message, e.Params.messageModulus))
 }
 
 // EncryptLevScalar encrypts scalar to Lev ciphertext.
@@ -85,12 +85,12 @@ func (e *Encryptor[T]) DecryptLevScalar(ct LevCiphertext[T]) T {
 
 // EncryptGSW encrypts integer message to GSW ciphertext.
 func (e *Encryptor[T]) EncryptGSW(message int, gadgetParams GadgetParameters[T]) GSWCiphertext[T] {
-	return e.EncryptGSWScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptGSWScalar(reduceMessage(message, e.Params.messageModulus), gadgetParams)
 }
 
 // EncryptGSWTo encrypts integer message to GSW ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptGSWTo(ctOut GSWCiphertext[T], message int) {
-	e.EncryptGSWScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptGSWScalarTo(ctOut, reduceMessage(message, e.Params.messageModulus))
 }
 
 // EncryptGSWScalar encrypts scalar to GSW ciphertext.
-- 
2.43.0


From 7991e571477a839e88530ac52fa37d38c9999fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:01 +0000
Subject: [PATCH 12/25] fix: uni-decryption reduces modulo the gadget base

---
 mktfhe/fft_glwe_enc.go | 2 +-
 mktfhe/glwe_enc.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 59d1434..bf88e15 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -82,6 +82,6 @@ func (e *Encryptor[T]) FFTUniDecryptPolyTo(pOut poly.Poly[T], ct FFTUniEncryptio
 	pOut.CopyFrom(e.buf.ctSubGLWE.Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, e.buf.ctSubGLWE.Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index acf79f7..70baefc 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -78,6 +78,6 @@ func (e *Encryptor[T]) UniDecryptPolyTo(pOut poly.Poly[T], ct UniEncryption[T])
 	pOut.CopyFrom(ct.Value[0].Value[0].Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, ct.Value[0].Value[0].Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
-- 
2.43.0


From 21308e1cf556ac08a4dfec9061ff61f46ac67a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 13/25] fix: CMux into a destination that aliases its second
 input

---
 tfhe/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfhe/product.go b/tfhe/product.go
index 9c74e78..7fd9990 100644
--- a/tfhe/product.go
+++ b/tfhe/product.go
@@ -315,7 +315,7 @@ func (e *Evaluator[T]) CMux(ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphert
 // CMuxTo computes the mux gate between ctFFTGGSW, ct0 and ct1: so ctOut = ct0 + ctFFTGGSW * (ct1 - ct0) and writes it to ctOut.
 // CMux essentially acts as an if clause; if ctFFTGGSW = 0, ct0 is returned, and if ctFFTGGSW = 1, ct1 is returned.
 func (e *Evaluator[T]) CMuxTo(ctOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphertext[T]) {
-	ctOut.CopyFrom(ct0)
 	e.SubGLWETo(e.buf.ctCMux, ct1, ct0)
+	ctOut.CopyFrom(ct0)
 	e.ExternalProdAddGLWETo(ctOut, ctFFTGGSW, e.buf.ctCMux)
 }
-- 
2.43.0


From 41d78196c73632c16b404d5d4e6c512f2bc3c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 14/25] fix: multi-key XOR and XNOR centre their inputs like
 the single-key gates

---
 mktfhe/binary_evaluator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mktfhe/binary_evaluator.go b/mktfhe/binary_evaluator.go
index c313063..f62aee7 100644
--- a/mktfhe/binary_evaluator.go
+++ b/mktfhe/binary_evaluator.go
@@ -224,7 +224,7 @@ func (e *BinaryEvaluator[T]) XORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -243,7 +243,7 @@ func (e *BinaryEvaluator[T]) XORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
@@ -262,7 +262,7 @@ func (e *BinaryEvaluator[T]) XNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -281,7 +281,7 @@ func (e *BinaryEvaluator[T]) XNORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
-- 
2.43.0


From e94d32b15b04f5bfee17550658d2cd1060501f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 15/25] fix: extended blind rotation starts from the table
 rotated by the body

---
 tfhe/bootstrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 16975b2..6686ec9 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -70,10 +70,10 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 	b2NMono, b2NIdx := b2N/e.Params.lutExtendFactor, b2N%e.Params.lutExtendFactor
 
 	for i, ii := 0, e.Params.lutExtendFactor-b2NIdx; i < b2NIdx; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono+1)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono+1)
 	}
 	for i, ii := b2NIdx, 0; i < e.Params.lutExtendFactor; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono)
 	}
 
 	for i := 0; i < e.Params.lutExtendFactor; i++ {
-- 
2.43.0


From fc8750e8026ea19282234fc4e41c027f79fec943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:04 +0000
Subject: [PATCH 16/25] fix: extended blind rotation with a single block
 applied the block twice

---
 tfhe/bootstrap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 6686ec9..c9217fb 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -147,6 +147,11 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 		}
 	}
 
+	if e.Params.blockCount == 1 {
+		ctOut.CopyFrom(e.buf.ctAcc[0])
+		return
+	}
+
 	for i := 1; i < e.Params.blockCount-1; i++ {
 		for j := 0; j < e.Params.lutExtendFactor; j++ {
 			for k := 0; k < e.Params.glweRank+1; k++ {
-- 
2.43.0


From 8c1b495a935332cfe02dee2ea6636b80fe8fddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 17/25] fix: multi-key external product with subtraction added
 the relinearised body

---
 mktfhe/product.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/product.go b/mktfhe/product.go
index 7b43079..d10e4f0 100644
--- a/mktfhe/product.go
+++ b/mktfhe/product.go
@@ -252,10 +252,10 @@ func (e *Evaluator[T]) ExternalProdSubGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiph
 
 	e.HybridProdSubGLWETo(idx, e.EvalKey[idx].RelinKey, e.buf.ctRelin, ctGLWEOut)
 
-	eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
+	eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
 	for i, ok := range e.PartyBitMap {
 		if ok {
-			eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
+			eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
 		}
 	}
 }
-- 
2.43.0


From f28973be40913c6a3cb9856804259a7ff3e36e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 18/25] fix: reject party indices outside of the party count

---
 mktfhe/encryptor.go        | 10 +++++-----
 mktfhe/encryptor_public.go |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mktfhe/encryptor.go b/mktfhe/encryptor.go
index c3b8a08..542e0fb 100644
--- a/mktfhe/encryptor.go
+++ b/mktfhe/encryptor.go
@@ -50,8 +50,8 @@ type encryptorBuffer[T tfhe.TorusInt] struct {
 
 // NewEncryptor creates a new [Encryptor].
 func NewEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte) *Encryptor[T] {
-	if idx > params.partyCount {
-		panic("index larger than PartyCount")
+	if idx < 0 || idx >= params.partyCount {
+		panic("index out of range of PartyCount")
 	}
 
 	s := csprng.NewUniformSamplerWithSeed[T](crsSeed)
@@ -81,10 +81,10 @@ func NewEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte
 
 // NewEncryptorWithKey creates a new [Encryptor] with a given key.
 //
-// Panics if the index is larger than PartyCount.
+// Panics if the index is not between 0 and PartyCount (exclusive).
 func NewEncryptorWithKey[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte, sk tfhe.SecretKey[T]) *Encryptor[T] {
-	if idx > params.partyCount {
-		panic("index larger than PartyCount")
+	if idx < 0 || idx >= params.partyCount {
+		panic("index out of range of PartyCount")
 	}
 
 	s := csprng.NewUniformSamplerWithSeed[T](crsSeed)
diff --git a/mktfhe/encryptor_public.go b/mktfhe/encryptor_public.go
index 4f54509..3030ed9 100644
--- a/mktfhe/encryptor_public.go
+++ b/mktfhe/encryptor_public.go
@@ -39,8 +39,8 @@ type publicEncryptorBuffer[T tfhe.TorusInt] struct {
 
 // NewPublicEncryptor creates a new [PublicEncryptor].
 func NewPublicEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, publicKey tfhe.PublicKey[T]) *PublicEncryptor[T] {
-	if idx > params.partyCount {
-		panic("index larger than PartyCount")
+	if idx < 0 || idx >= params.partyCount {
+		panic("index out of range of PartyCount")
 	}
 
 	return &PublicEncryptor[T]{
-- 
2.43.0


From 39af8fe671ba50322add8ed88e3ce606bec12d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 19/25] fix: multi-key decryptor with keys of only some of the
 parties

---
 mktfhe/decryptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index 4d04a9b..f02a7b9 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -53,8 +53,8 @@ type decryptorBuffer[T tfhe.TorusInt] struct {
 // NewDecryptor creates a new [Decryptor].
 // Only indices between 0 and params.PartyCount is valid for sk.
 func NewDecryptor[T tfhe.TorusInt](params Parameters[T], sk map[int]tfhe.SecretKey[T]) *Decryptor[T] {
-	subEncs := make([]*tfhe.Encryptor[T], len(sk))
-	subKeys := make([]tfhe.SecretKey[T], len(sk))
+	subEncs := make([]*tfhe.Encryptor[T], params.PartyCount())
+	subKeys := make([]tfhe.SecretKey[T], params.PartyCount())
 	partyBitMap := make([]bool, params.PartyCount())
 	for i := range sk {
 		subEncs[i] = tfhe.NewEncryptorWithKey(params.subParams, sk[i])
-- 
2.43.0


From 6a04cd0b4afbaf969b4a9e9571b790547252d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 20/25] fix: safe copies of the multi-key decryptor shared its
 buffer

---
 mktfhe/decryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index f02a7b9..6057692 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -114,7 +114,7 @@ func (d *Decryptor[T]) SafeCopy() *Decryptor[T] {
 
 		SecretKeys: vec.Copy(d.SecretKeys),
 
-		buf: d.buf,
+		buf: newDecryptorBuffer(d.Params),
 	}
 }
 
-- 
2.43.0


From 1ace4cf8b68935ad193e62da4cd71a01bc1c9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 21/25] fix: byte counts of failed reads and writes of Fourier
 objects

---
 mktfhe/fft_glwe_marshal.go | 10 +++++-----
 tfhe/fft_glwe_marshal.go   | 26 +++++++++++++-------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/mktfhe/fft_glwe_marshal.go b/mktfhe/fft_glwe_marshal.go
index a819001..5ae5b0d 100644
--- a/mktfhe/fft_glwe_marshal.go
+++ b/mktfhe/fft_glwe_marshal.go
@@ -28,7 +28,7 @@ func floatVecReadFromBuf(v []float64, buf []byte, r io.Reader) (n int64, err err
 	var nRead int
 
 	if nRead, err = io.ReadFull(r, buf); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 
@@ -55,14 +55,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -119,13 +119,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
diff --git a/tfhe/fft_glwe_marshal.go b/tfhe/fft_glwe_marshal.go
index 9523a50..05af299 100644
--- a/tfhe/fft_glwe_marshal.go
+++ b/tfhe/fft_glwe_marshal.go
@@ -26,7 +26,7 @@ func floatVecReadFromBuf(v []float64, buf []byte, r io.Reader) (n int64, err err
 	var nRead int
 
 	if nRead, err = io.ReadFull(r, buf); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 
@@ -53,14 +53,14 @@ func (sk FFTGLWESecretKey[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(sk.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := sk.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -117,13 +117,13 @@ func (sk *FFTGLWESecretKey[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -197,14 +197,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -261,13 +261,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -342,28 +342,28 @@ func (ct FFTGLevCiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	base := ct.GadgetParams.base
 	binary.BigEndian.PutUint64(buf[:], uint64(base))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	level := len(ct.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(level))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	glweRank := len(ct.Value[0].Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
-- 
2.43.0


From 2fd950080b7c3edc66ea159974c80dfe229c0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 22/25] fix: LWESecretKey.ReadFrom counts the bytes of the
 value

---
 tfhe/lwe_marshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/lwe_marshal.go b/tfhe/lwe_marshal.go
index f1dc101..ffe96a3 100644
--- a/tfhe/lwe_marshal.go
+++ b/tfhe/lwe_marshal.go
@@ -209,6 +209,7 @@ func (sk *LWESecretKey[T]) ReadFrom(r io.Reader) (n int64, err error) {
 	if nRead, err = sk.valueReadFrom(r); err != nil {
 		return n + nRead, err
 	}
+	n += nRead
 
 	return
 }
-- 
2.43.0


From 803b8aa708d9b52c2004d3fb6b8b7663c8856039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 23/25] fix: copying uni-encryptions copies the gadget
 parameters

---
 mktfhe/fft_glwe.go | 1 +
 mktfhe/glwe.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mktfhe/fft_glwe.go b/mktfhe/fft_glwe.go
index ffe7f6f..0493999 100644
--- a/mktfhe/fft_glwe.go
+++ b/mktfhe/fft_glwe.go
@@ -110,6 +110,7 @@ func (ct *FFTUniEncryption[T]) CopyFrom(ctIn FFTUniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
diff --git a/mktfhe/glwe.go b/mktfhe/glwe.go
index 6c76fb0..5c53564 100644
--- a/mktfhe/glwe.go
+++ b/mktfhe/glwe.go
@@ -137,6 +137,7 @@ func (ct *UniEncryption[T]) CopyFrom(ctIn UniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
-- 
2.43.0


From acf913b85382ac49c938413e14cf7910253f580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:02 +0000
Subject: [PATCH 24/25] fix: discrete Gaussian sampler with centres far from
 zero

---
 xtfhe/sanitization_sampler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtfhe/sanitization_sampler.go b/xtfhe/sanitization_sampler.go
index f8943c2..7fbc794 100644
--- a/xtfhe/sanitization_sampler.go
+++ b/xtfhe/sanitization_sampler.go
@@ -34,8 +34,8 @@ func NewCDTSampler[T num.Integer](center float64, stdDev float64) *CDTSampler[T]
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
 
-	tailLo := int64(math.Floor(center - GaussianTailCut*stdDev))
-	tailHi := int64(math.Ceil(center + GaussianTailCut*stdDev))
+	tailLo := int64(math.Floor(cFrac - GaussianTailCut*stdDev))
+	tailHi := int64(math.Ceil(cFrac + GaussianTailCut*stdDev))
 	tableSize := tailHi - tailLo + 1
 
 	table := make([]uint64, tableSize)
-- 
2.43.0


From 713389658f42bd400091c867eec7e499b999e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:36 +0000
Subject: [PATCH 25/25] fix: BFV tensor and relinearisation use their arguments

---
 xtfhe/bfv_evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtfhe/bfv_evaluator.go b/xtfhe/bfv_evaluator.go
index 24a8050..ee298ca 100644
--- a/xtfhe/bfv_evaluator.go
+++ b/xtfhe/bfv_evaluator.go
@@ -106,7 +106,7 @@ func (e *BFVEvaluator[T]) TensorTo(ctOut, ct0, ct1 tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < tensorRank+1; i++ {
 		e.PolyEvaluator.FloatMulFFTPolyTo(e.buf.ctFFTTensor.Value[i], e.buf.ctFFTTensor.Value[i], 1/float64(e.Params.Scale()))
-		e.PolyEvaluator.InvFFTToUnsafe(e.buf.ctTensor.Value[i], e.buf.ctFFTTensor.Value[i])
+		e.PolyEvaluator.InvFFTToUnsafe(ctOut.Value[i], e.buf.ctFFTTensor.Value[i])
 	}
 }
 
@@ -123,10 +123,10 @@ func (e *BFVEvaluator[T]) Relinearize(ct tfhe.GLWECiphertext[T]) tfhe.GLWECipher
 func (e *BFVEvaluator[T]) RelinearizeTo(ctOut, ct tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < e.Params.GLWERank()+1; i++ {
-		ctOut.Value[i].CopyFrom(e.buf.ctTensor.Value[i])
+		ctOut.Value[i].CopyFrom(ct.Value[i])
 	}
 	for i, ii := e.Params.GLWERank()+1, 0; i < tensorRank+1; i, ii = i+1, ii+1 {
-		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], e.buf.ctTensor.Value[i])
+		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], ct.Value[i])
 	}
 }
 
-- 
2.43.0

