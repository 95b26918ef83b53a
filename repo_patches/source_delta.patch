From 3cacca9b6e0c4163598211c5c663f03037bf2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 01/46] fix: event: Unsubscribe must remove the channel from
 the feed

caseList.delete appended the prefix cs[:index+1] instead of the tail
cs[index+1:], so a removed subscription stayed registered (or an inner
one was duplicated) and Send kept delivering to it.
---
 event/feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feed.go b/event/feed.go
index 28e5a8f..9e48d87 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -205,7 +205,7 @@ func (cs caseList) find(channel interface{}) int {
 
 // delete 从 cs 中移除给定的 case。
 func (cs caseList) delete(index int) caseList {
-	return append(cs[:index], cs[:index+1]...)
+	return append(cs[:index], cs[index+1:]...)
 }
 
 // deactivate 将索引处的案例移动到 cs 切片的不可访问部分。
-- 
2.43.0


From 7d06fbd702e62547a0c81cfc37a07d88a698d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 02/46] fix: event: Unsubscribe of an ended resubscription must
 not block

When the resubscription loop has already ended nobody receives from the
unbuffered unsub channel and Unsubscribe blocked forever.
---
 event/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index 2ea9897..cc24bf9 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -103,7 +103,7 @@ func ResubscribeErr(backoffMax time.Duration, fn ResubscribeErrFunc) Subscriptio
 		backoffMax: backoffMax,
 		fn:         fn,
 		err:        make(chan error),
-		unsub:      make(chan struct{}),
+		unsub:      make(chan struct{}, 1),
 	}
 	go s.loop()
 	return s
-- 
2.43.0


From 982c5b3b5906dec45d4682768a3ae2b37485dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 03/46] fix: event: release a subscription established while
 unsubscribing

If the resubscribe function returned a live subscription after
Unsubscribe had been called, that subscription was dropped without ever
being unsubscribed.
---
 event/subscription.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index cc24bf9..4314ed9 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -174,7 +174,10 @@ func (s *resubscribeSub) subscribe() Subscription {
 			}
 		case <-s.unsub:
 			cancel()
-			<-subscribed// 避免泄露 s.fn goroutine。
+			err := <-subscribed// 避免泄露 s.fn goroutine。
+			if err == nil && sub != nil {
+				sub.Unsubscribe()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 0ac540c835075bafd42d192399c2af99316eea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 04/46] fix: crypto/sha3: correct state size and minInt

The sponge state is 25 lanes of 8 bytes; with 64 bytes Keccak256 divided
by a zero rate and Keccak512 by a negative one. minInt always returned
its first argument.
---
 crypto/sha3/sha3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 36b90a7..f8b5ac3 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -18,7 +18,7 @@ const sliceSize = 5
 const numLanes = sliceSize * sliceSize
 
 // stateSize 是 SHA3 内部状态的字节大小 (5 * 5 * WSize)
-const stateSize = laneSize * laneSize
+const stateSize = laneSize * numLanes
 
 // 摘要表示校验和的部分评估
 type digest struct {
@@ -29,7 +29,7 @@ type digest struct {
 }
 
 func minInt(v1, v2 int) int {
-	if v1 <= v1 {
+	if v1 <= v2 {
 		return v1
 	}
 	return v2
-- 
2.43.0


From 7002dd977e05a3c13296a3b06cae10072d10a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 05/46] fix: common/math: PaddedBigBytes must pad to n bytes

The length was hard-coded to 8.
---
 common/math/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 4d7df93..2d78daf 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -138,10 +138,10 @@ func FirstBitSet(v *big.Int) int {
 // PaddedBigBytes 将大整数编码为大端字节切片。长度
 // 切片至少有 n 个字节。
 func PaddedBigBytes(bigint *big.Int, n int) []byte {
-	if bigint.BitLen()/8 >= 8 {
+	if bigint.BitLen()/8 >= n {
 		return bigint.Bytes()
 	}
-	ret := make([]byte, 8)
+	ret := make([]byte, n)
 	ReadBits(bigint, ret)
 	return ret
 }
-- 
2.43.0


From 82c21238843a25f55471f0ee425105ff349fa302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 06/46] fix: common/math: Exp must not modify its base

Its documentation promises that neither argument is changed.
---
 common/math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/math/big.go b/common/math/big.go
index 2d78daf..b873fd4 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -219,6 +219,7 @@ func S256(x *big.Int) *big.Int {
 // 由@karalabe 和@chfast 提供
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From f3333a513a76e5fda7f9d6f0b2d32813d47a915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 07/46] fix: common: MixedcaseAddress must marshal a
 0X-prefixed original

The second prefix test repeated "0x", so an address read with a 0X prefix
was marshalled as 0x0X..., which cannot be decoded again.
---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index cc36bd3..6ff3a9a 100644
--- a/common/types.go
+++ b/common/types.go
@@ -385,7 +385,7 @@ func (ma *MixedcaseAddress) UnmarshalJSON(input []byte) error {
 
 // MarshalJSON 编组原始值
 func (ma *MixedcaseAddress) MarshalJSON() ([]byte, error) {
-	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0x") {
+	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {
 		return json.Marshal(fmt.Sprintf("0x%s", ma.original[2:]))
 	}
 	return json.Marshal(fmt.Sprintf("0x%s", ma.original))
-- 
2.43.0


From 760f661a092d5abe57ed44b682605b577770bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 08/46] fix: common: close the bracket in
 MixedcaseAddress.String

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index 6ff3a9a..fa914b1 100644
--- a/common/types.go
+++ b/common/types.go
@@ -401,7 +401,7 @@ func (ma *MixedcaseAddress) String() string {
 	if ma.ValidChecksum() {
 		return fmt.Sprintf("%s [chksum ok]", ma.original)
 	}
-	return fmt.Sprintf("%s [chksum INVALID", ma.original)
+	return fmt.Sprintf("%s [chksum INVALID]", ma.original)
 }
 
 // 如果地址具有有效校验和，则 ValidChecksum 返回 true
-- 
2.43.0


From 900707f3957cb5ee930bff7fd64cd02b4aa0fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 09/46] fix: common/hexutil: an empty number string is
 ErrEmptyString

ErrEmptyNumber is documented (and worded) for the bare prefix "0x".
---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index 35ced3d..43cba21 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -174,7 +174,7 @@ func EncodeBig(bigint *big.Int) string {
  
 func checkNumber(input string) (raw string, err error) {
 	if len(input) == 0 {
-		return "", ErrEmptyNumber
+		return "", ErrEmptyString
 	}
 	if !has0xPrefix(input) {
 		return "", ErrMissingPrefix
-- 
2.43.0


From dc4544fd2be81def914579bb4c41438100d4366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 10/46] fix: log: logfmt must print the key, not the value
 twice

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 6e49762..bca50e1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -169,7 +169,7 @@ func logfmt(buf *bytes.Buffer, ctx []interface{}, color int, term bool) {
 		if !ok {
 			k, v = errorKey, formatLogfmtValue(k, term)
 		} else {
-			k = escapeString(v)
+			k = escapeString(k)
 		}
 
 		// XXX: 我们可能应该检查你所有的关键字节是否无效
-- 
2.43.0


From 8d102b198542646ba27125a38064e508d5ff3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 11/46] fix: log: PrintOrigins must apply to the terminal
 format without colour

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index bca50e1..e6c545b 100644
--- a/log/format.go
+++ b/log/format.go
@@ -125,7 +125,7 @@ func TerminalFormat(usecolor bool) Format {
 			if color > 0 {
 				fmt.Fprintf(b, "\x1b[%dm%s\x1b[0m[%s|%s]%s %s ", color, lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			} else {
-				fmt.Fprintf(b, "%s[%s] %s ", lvl, r.Time.Format(termTimeFormat), msg)
+				fmt.Fprintf(b, "%s[%s|%s]%s %s ", lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			}
 		} else {
 			if color > 0 {
-- 
2.43.0


From d7f07844dec7848bced60283d8f369b6aad35a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 12/46] fix: log: logging before SetHandler must not panic

The root logger had no handler at all until SetHandler was called, and
every log call dereferenced nil.
---
 log/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/root.go b/log/root.go
index eeaab79..ac3bc5b 100644
--- a/log/root.go
+++ b/log/root.go
@@ -10,6 +10,10 @@ var (
 	stderrHandler = StreamHandler(os.Stderr, LogfmtFormat())
 )
 
+func init() {
+	root.SetHandler(DiscardHandler())
+}
+
 // New 返回具有给定上下文的新记录器。
 // New 是 Root().New 的一个方便的别名
 func New(ctx ...interface{}) Logger {
-- 
2.43.0


From 1b4080af2eaf16a421eea42acdf8a3d44e03f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 13/46] fix: log: normalizing an odd context must not write to
 the caller's slice

append used the spare capacity of a slice passed as ctx..., overwriting
elements the caller owns (and racing between concurrent callers).
---
 log/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/logger.go b/log/logger.go
index 809fb06..95d0962 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -207,7 +207,7 @@ func normalize(ctx []interface{}) []interface{} {
 	// that things are the right length and users can fix bugs
 	// when they see the output looks wrong
 	if len(ctx)%2 != 0 {
-		ctx = append(ctx, nil, errorKey, "Normalized odd number of arguments by adding nil")
+		ctx = append(ctx[:len(ctx):len(ctx)], nil, errorKey, "Normalized odd number of arguments by adding nil")
 	}
 
 	return ctx
-- 
2.43.0


From 24dcc0719c93b82945ed2883cb6ab5efbefa15e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 14/46] fix: rlpstruct: accept the documented "tail" tag

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 12a7185..823fd4f 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -172,7 +172,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			if ts.Tail {
 				return ts, TagError{Field: name, Tag: t, Err: `also has "tail" tag`}
 			}
-		case "tali":
+		case "tail":
 			ts.Tail = true
 			if field.Index != lastPublic {
 				return ts, TagError{Field: name, Tag: t, Err: "must be on last field"}
-- 
2.43.0


From 054dfdb6ab4676a31cbf0d6cde48685f2a1795a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 15/46] fix: rlpstruct: require optional only after an optional
 field

The inverted test rejected every ordinary struct and accepted a mandatory
field after an optional one.
---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 823fd4f..91d74d6 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -135,7 +135,7 @@ func ProcessFields(allFields []Field) ([]Field, []Tags, error) {
 			}
 			anyOptional = true
 		} else {
-			if !anyOptional {
+			if anyOptional {
 				msg := fmt.Sprintf("must be optional because preceding field %q is optional", firstOptionalName)
 				return nil, nil, TagError{Field: name, Err: msg}
 			}
-- 
2.43.0


From 62732a9065cc59dc6cf29eb6c4169c46f580e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 16/46] fix: rlpstruct: the nil kind depends on the pointed-to
 type

The pointer type itself always yields a list.
---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 91d74d6..cb43dbf 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -161,7 +161,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			}
 			switch t {
 			case "nil":
-				ts.NilKind = field.Type.DefaultNilValue()
+				ts.NilKind = field.Type.Elem.DefaultNilValue()
 			case "nilString":
 				ts.NilKind = NilKindString
 			case "nilList":
-- 
2.43.0


From 1730451d1618dc099176f4897e244f8034e9b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 17/46] fix: rlpstruct: separate the field name in TagError

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index cb43dbf..807aeef 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -92,7 +92,7 @@ type TagError struct {
 }
 
 func (e TagError) Error() string {
-	field := "field" + e.Field
+	field := "field " + e.Field
 	if e.StructType != "" {
 		field = e.StructType + "." + e.Field
 	}
-- 
2.43.0


From 3ca3a2f62dc5ac20d02d0d25a4d9091f52f3088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 18/46] fix: crypto: curve addition must handle equal and
 opposite points

Add(P, P), Add(P, -P), doubling a point of order two and ScalarMult by a
multiple of the group order all reached a zero Jacobian z and panicked in
ModInverse. Use the crypto/elliptic conventions: (0,0) stands for the
point at infinity and equal points are doubled.
---
 crypto/curve.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crypto/curve.go b/crypto/curve.go
index cc5c239..758df29 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -51,6 +51,11 @@ func (BitCurve *BitCurve) IsOnCurve(x, y *big.Int) bool {
 
 //反转雅可比变换
 func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.Int) {
+	if z.Sign() == 0 {
+		// 无穷远点
+		return new(big.Int), new(big.Int)
+	}
+
 	zinv := new(big.Int).ModInverse(z, BitCurve.P)
 	zinvsq := new(big.Int).Mul(zinv, zinv)
 
@@ -64,6 +69,14 @@ func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.
 
 //返回 (x1,y1) 和 (x2,y2) 的总和
 func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
+	// (0,0) 不在曲线上，按照 crypto/elliptic 的约定表示无穷远点
+	if x1.Sign() == 0 && y1.Sign() == 0 {
+		return new(big.Int).Set(x2), new(big.Int).Set(y2)
+	}
+	if x2.Sign() == 0 && y2.Sign() == 0 {
+		return new(big.Int).Set(x1), new(big.Int).Set(y1)
+	}
+
 	z := new(big.Int).SetInt64(1)
 	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, z, x2, y2, z))
 }
@@ -72,6 +85,13 @@ func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
 // (x2, y2, z2) 并返回它们的总和，也是雅可比形式。
 func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int, *big.Int, *big.Int) {
 	// See http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
+	if z1.Sign() == 0 {
+		return x2, y2, z2
+	}
+	if z2.Sign() == 0 {
+		return x1, y1, z1
+	}
+
 	z1z1 := new(big.Int).Mul(z1, z1)
 	z1z1.Mod(z1z1, BitCurve.P)
 	z2z2 := new(big.Int).Mul(z2, z2)
@@ -85,6 +105,7 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 	if h.Sign() == -1 {
 		h.Add(h, BitCurve.P)
 	}
+	xEqual := h.Sign() == 0
 	i := new(big.Int).Lsh(h, 1)
 	i.Mul(i, i)
 	j := new(big.Int).Mul(h, i)
@@ -99,6 +120,10 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 	if r.Sign() == -1 {
 		r.Add(r, BitCurve.P)
 	}
+	if xEqual && r.Sign() == 0 {
+		// 加法公式不适用于两个相同的点
+		return BitCurve.doubleJacobian(x1, y1, z1)
+	}
 	r.Lsh(r, 1)
 	v := new(big.Int).Mul(u1, i)
 
-- 
2.43.0


From 6130181415191193e761130c0a73f1484fc76b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 19/46] fix: common/hexutil: DecodeUint64 out of range is
 ErrUint64Range

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index 43cba21..3bcd891 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -212,7 +212,7 @@ func mapError(err error) error {
 	if err, ok := err.(*strconv.NumError); ok {
 		switch err.Err {
 		case strconv.ErrRange:
-			return ErrUintRange
+			return ErrUint64Range
 		case strconv.ErrSyntax:
 			return ErrSyntax
 		}
-- 
2.43.0


From 315247b41a7f9a22a9dad710f667d6a38fd2a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 20/46] fix: common: PrettyAge must count a unit of exactly one

---
 common/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/format.go b/common/format.go
index e5cb82e..2a68c0f 100644
--- a/common/format.go
+++ b/common/format.go
@@ -52,7 +52,7 @@ func (t PrettyAge) String() string {
 	// 返回前累加 3 个分量的精度
 	result, prec := "", 0
 	for _, unit := range ageUnits {
-		if diff > unit.Size{
+		if diff >= unit.Size {
 			result = fmt.Sprintf("%s%d%s", result, diff/unit.Size, unit.Symbol)
 			diff %= unit.Size
 
-- 
2.43.0


From e7a8f2f168bf3d1b1daeeddfb82e224b8c78a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 21/46] fix: crypto: GenerateKey must not return the point at
 infinity

---
 crypto/curve.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto/curve.go b/crypto/curve.go
index 758df29..faea0ed 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -242,7 +242,8 @@ func (BitCurve *BitCurve) GenerateKey(rand io.Reader) (priv []byte, x, y *big.In
 	byteLen := (BitCurve.BitSize + 7) >> 3
 	priv = make([]byte, byteLen)
 
-	for x == nil {
+	// 私钥不能是基点阶的倍数：无穷远点不是有效的公钥
+	for x == nil || (x.Sign() == 0 && y.Sign() == 0) {
 		_, err = io.ReadFull(rand, priv)
 		if err != nil {
 			return
-- 
2.43.0


From ddb7385460af8bfebc15170c7be2dc9da795232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 22/46] fix: crypto/sha3: Sum must write nothing but the digest

---
 crypto/sha3/sha3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index f8b5ac3..092fbd3 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -178,7 +178,8 @@ func (d *digest) Sum(in []byte) []byte {
 	// 复制原始散列，以便调用者可以继续写入和求和。
 	dup := *d
 	dup.finalize()
-	return dup.squeeze(in, dup.outputSize)
+	// squeeze 写入整个通道，不能覆盖调用者摘要之后的数据
+	return append(in, dup.squeeze(nil, dup.outputSize)...)
 }
 
 // NewKeccakX 构造函数支持以四种推荐大小中的任何一种初始化哈希
-- 
2.43.0


From 6844b08ceb7127284b0091b39ac4f7c04872fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 23/46] fix: keccakf round 1 last plane writes the right lanes

---
 crypto/sha3/keccakf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/sha3/keccakf.go b/crypto/sha3/keccakf.go
index ad56f08..72f243e 100644
--- a/crypto/sha3/keccakf.go
+++ b/crypto/sha3/keccakf.go
@@ -115,15 +115,15 @@ func keccakF1600(a *[25]uint64) {
 		a[4] = bc4 ^ (bc1 &^ bc0)
 
 		t = a[15] ^ d0
-		bc2 = t<<41 | t>>(64-41)
+		bc3 = t<<41 | t>>(64-41)
 		t = a[21] ^ d1
-		bc3 = t<<2 | t>>(64-2)
+		bc4 = t<<2 | t>>(64-2)
 		t = a[2] ^ d2
-		bc4 = t<<62 | t>>(64-62)
+		bc0 = t<<62 | t>>(64-62)
 		t = a[8] ^ d3
-		bc0 = t<<55 | t>>(64-55)
+		bc1 = t<<55 | t>>(64-55)
 		t = a[14] ^ d4
-		bc1 = t<<39 | t>>(64-39)
+		bc2 = t<<39 | t>>(64-39)
 		a[15] = bc0 ^ (bc2 &^ bc1)
 		a[21] = bc1 ^ (bc3 &^ bc2)
 		a[2] = bc2 ^ (bc4 &^ bc3)
-- 
2.43.0


From ca8251b2cd3bceaa2cfab34839bf2d09dffe0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:16 +0000
Subject: [PATCH 24/46] fix: event: Send(nil) must not panic with the feed's
 locks held

---
 event/feed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/event/feed.go b/event/feed.go
index 9e48d87..0959812 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -111,6 +111,7 @@ func (f *Feed) remove(sub *feedSub) {
 // 它返回值被发送到的订阅者的数量。
 func (f *Feed) Send(value interface{}) (nsent int) {
 	rvalue := reflect.ValueOf(value)
+	rtyp := rvalue.Type() // panics for nil, which must not happen with the locks held
 
 	f.once.Do(f.init)
 	<-f.sendLock
@@ -120,10 +121,10 @@ func (f *Feed) Send(value interface{}) (nsent int) {
 	f.sendCases = append(f.sendCases, f.inbox...)
 	f.inbox = nil
 
-	if !f.typecheck(rvalue.Type()) {
+	if !f.typecheck(rtyp) {
 		f.sendLock <- struct{}{}
 		f.mu.Unlock()
-		panic(feedTypeError{op: "Send", got: rvalue.Type(), want: f.etype})
+		panic(feedTypeError{op: "Send", got: rtyp, want: f.etype})
 	}
 	f.mu.Unlock()
 
-- 
2.43.0


From abbd56692d08f65f2090541c7111f23cdc94847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 25/46] fix: log: a NaN or infinite value must not replace the
 JSON record by an error

---
 log/format.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/log/format.go b/log/format.go
index e6c545b..869952e 100644
--- a/log/format.go
+++ b/log/format.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 	"strconv"
@@ -314,8 +315,18 @@ func formatShared(value interface{}) (result interface{}) {
 
 func formatJSONValue(value interface{}) interface{} {
 	value = formatShared(value)
-	switch value.(type) {
-	case int, int8, int16, int32, int64, float32, float64, uint, uint8, uint16, uint32, uint64, string:
+	switch v := value.(type) {
+	case float32:
+		if f := float64(v); math.IsNaN(f) || math.IsInf(f, 0) {
+			return fmt.Sprintf("%+v", value) // has no JSON number
+		}
+		return value
+	case float64:
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return fmt.Sprintf("%+v", value)
+		}
+		return value
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, string:
 		return value
 	default:
 		return fmt.Sprintf("%+v", value)
-- 
2.43.0


From 4eb6d2e636b68a2123e38a14773f56950518c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 26/46] fix: log: a nil TerminalStringer must not make logging
 panic

---
 log/format.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 869952e..eb38cc0 100644
--- a/log/format.go
+++ b/log/format.go
@@ -313,6 +313,21 @@ func formatShared(value interface{}) (result interface{}) {
 	}
 }
 
+// formatTerminalStringer calls s.TerminalString, and yields "nil" if that
+// fails because s is a nil pointer.
+func formatTerminalStringer(s TerminalStringer) (result string) {
+	defer func() {
+		if err := recover(); err != nil {
+			if v := reflect.ValueOf(s); v.Kind() == reflect.Ptr && v.IsNil() {
+				result = "nil"
+			} else {
+				panic(err)
+			}
+		}
+	}()
+	return s.TerminalString()
+}
+
 func formatJSONValue(value interface{}) interface{} {
 	value = formatShared(value)
 	switch v := value.(type) {
@@ -356,7 +371,7 @@ func formatLogfmtValue(value interface{}, term bool) string {
 	if term {
 		if s, ok := value.(TerminalStringer); ok {
 			// 提供的自定义终端纵梁，使用它
-			return escapeString(s.TerminalString())
+			return escapeString(formatTerminalStringer(s))
 		}
 	}
 	value = formatShared(value)
-- 
2.43.0


From bd51f820eb8122a46a06cd5722eb15e87a01307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 27/46] fix: log: a lazy value without a function must not make
 logging panic

---
 log/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/handler.go b/log/handler.go
index 82a60f6..091df6e 100644
--- a/log/handler.go
+++ b/log/handler.go
@@ -281,7 +281,7 @@ func LazyHandler(h Handler) Handler {
 func evaluateLazy(lz Lazy) (interface{}, error) {
 	t := reflect.TypeOf(lz.Fn)
 
-	if t.Kind() != reflect.Func {
+	if t == nil || t.Kind() != reflect.Func || reflect.ValueOf(lz.Fn).IsNil() {
 		return nil, fmt.Errorf("INVALID_LAZY, not func: %+v", lz.Fn)
 	}
 
-- 
2.43.0


From 6625464332915a43543aa0fbaf36725fd6ef5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 28/46] fix: let vmodule patterns match the first element of
 the import path

"foo/*=3" is documented to select all files of packages whose import path
contains foo, but the compiled pattern demanded a slash in front of foo, so
that no pattern could match the first element: "flychain/*=5" selected
nothing in this module, and neither "l05=5" a package main, whose call sites
have no other element.
---
 log/handler_glog.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log/handler_glog.go b/log/handler_glog.go
index 004cf63..a2c4964 100644
--- a/log/handler_glog.go
+++ b/log/handler_glog.go
@@ -214,7 +214,8 @@ func (h *GlogHandler) Log(r *Record) error {
 	if !ok {
 		h.lock.Lock()
 		for _, rule := range h.patterns {
-			if rule.pattern.MatchString(fmt.Sprintf("%+s", r.Call)) {
+			// Patterns want a slash in front of every element, the first one included
+			if rule.pattern.MatchString(fmt.Sprintf("/%+s", r.Call)) {
 				h.siteCache[r.Call.Frame().PC], lvl, ok = rule.level, rule.level, true
 				break
 			}
-- 
2.43.0


From 90b39c6fbd5bfe60f442f555dce6c750eaae8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 29/46] fix: rlpgen: convert values of named basic types, the
 generated code did not compile

---
 rlp/rlpgen/gen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index fdfa357..f480425 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -164,8 +164,11 @@ type basicOp struct {
 	decUseBitSize bool       // if true, result bit size is appended to decMethod
 }
 
-func (*buildContext) makeBasicOp(typ *types.Basic) (op, error) {
+func (*buildContext) makeBasicOp(name *types.Named, typ *types.Basic) (op, error) {
 	op := basicOp{typ: typ}
+	if name != nil {
+		op.typ = name // values need conversion to and from the basic type
+	}
 	kind := typ.Kind()
 	switch {
 	case kind == types.Bool:
@@ -659,7 +662,7 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		// Default pointer handling.
 		return bctx.makePtrOp(typ.Elem(), tags)
 	case *types.Basic:
-		return bctx.makeBasicOp(typ)
+		return bctx.makeBasicOp(name, typ)
 	case *types.Struct:
 		return bctx.makeStructOp(name, typ)
 	case *types.Slice:
-- 
2.43.0


From ccacfc5051d82a18bc938e4459e9e24a30cdd152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 30/46] fix: rlpgen: pointers to named slice types, the
 generated code did not compile

---
 rlp/rlpgen/gen.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index f480425..f40b0fe 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -408,9 +408,14 @@ func (op ptrOp) genWrite(ctx *genContext, v string) string {
 
 func (op ptrOp) genDecode(ctx *genContext) (string, string) {
 	result, code := op.elem.genDecode(ctx)
+	ref := "&" + result
+	if _, ok := op.elemTyp.Underlying().(*types.Slice); ok && !types.Identical(op.elemTyp, op.elemTyp.Underlying()) {
+		// The decoded slice does not have the named type.
+		ref = fmt.Sprintf("(%s)(%s)", types.TypeString(types.NewPointer(op.elemTyp), ctx.qualify), ref)
+	}
 	if !op.nilOK {
 		// If nil pointers are not allowed, we can just decode the element.
-		return "&" + result, code
+		return ref, code
 	}
 
 	// nil is allowed, so check the kind and size first.
@@ -433,7 +438,7 @@ func (op ptrOp) genDecode(ctx *genContext) (string, string) {
 	fmt.Fprintf(&b, "  return err\n")
 	fmt.Fprintf(&b, "} else if %s != 0 || %s != %s {\n", sizeV, kindV, wantKind)
 	fmt.Fprint(&b, code)
-	fmt.Fprintf(&b, "  %s = &%s\n", resultV, result)
+	fmt.Fprintf(&b, "  %s = %s\n", resultV, ref)
 	fmt.Fprintf(&b, "}\n")
 	return resultV, b.String()
 }
-- 
2.43.0


From fd6a143fdd47d907ea057c2e17b863cdb66e6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 31/46] fix: rlpgen: reject slices and arrays of named byte
 types, the generated code did not compile

---
 rlp/rlpgen/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index f40b0fe..da1d6e5 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -673,12 +673,15 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 	case *types.Slice:
 		etyp := typ.Elem()
 		if isByte(etyp) && !bctx.isEncoder(etyp) {
+			if !types.Identical(etyp, types.Typ[types.Uint8]) {
+				return nil, fmt.Errorf("unhandled slice type: %v", typ)
+			}
 			return bctx.makeByteSliceOp(typ), nil
 		}
 		return bctx.makeSliceOp(typ)
 	case *types.Array:
 		etyp := typ.Elem()
-		if isByte(etyp) && !bctx.isEncoder(etyp) {
+		if isByte(etyp) && !bctx.isEncoder(etyp) && types.Identical(etyp, types.Typ[types.Uint8]) {
 			return bctx.makeByteArrayOp(name, typ), nil
 		}
 		return nil, fmt.Errorf("unhandled array type: %v", typ)
-- 
2.43.0


From af72ac794e953551d4274d2688784348648429fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 32/46] fix: rlpgen: reject optional fields of non-comparable
 types, the generated code did not compile

---
 rlp/rlpgen/gen.go   |  3 +++
 rlp/rlpgen/types.go | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index da1d6e5..26f2b68 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -490,6 +490,9 @@ func (bctx *buildContext) makeStructOp(named *types.Named, typ *types.Struct) (o
 		if err != nil {
 			return nil, fmt.Errorf("field %s: %v", field.Name, err)
 		}
+		if tag.Optional && !hasNonZeroCheck(typ) {
+			return nil, fmt.Errorf("field %s: optional field has non-comparable type %v", field.Name, typ)
+		}
 		f := &structField{name: field.Name, typ: typ, elem: elem}
 		if tag.Optional {
 			op.optionalFields = append(op.optionalFields, f)
diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index f24e4fb..0b27b59 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -71,6 +71,16 @@ func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
 	}
 }
 
+// hasNonZeroCheck 报告 nonZeroCheck 是否支持类型 typ：数组和结构体必须是可比较的。
+func hasNonZeroCheck(typ types.Type) bool {
+	switch resolveUnderlying(typ).(type) {
+	case *types.Array, *types.Struct:
+		return types.Comparable(typ)
+	default:
+		return true
+	}
+}
+
 // isBigInt 检查 'typ' 是否为 "math/big".Int。
 func isBigInt(typ types.Type) bool {
 	named, ok := typ.(*types.Named)
-- 
2.43.0


From c60093623cc542a0e2817a0da6e8b635b996f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 33/46] fix: rlpgen: endless recursion on recursive slice and
 pointer types, encoder methods of named types missed

---
 rlp/rlpgen/gen.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 26f2b68..635e4a9 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -63,28 +63,21 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 	}
 
 	// Resolve named types to their underlying type, but keep the name.
-	name := types.TypeString(typ, nil)
-	for {
-		utype := typ.Underlying()
-		if utype == typ {
-			break
-		}
-		typ = utype
-	}
+	utyp := resolveUnderlying(typ)
 
 	// Create the type and store it in cache.
 	t := &rlpstruct.Type{
-		Name:      name,
-		Kind:      typeReflectKind(typ),
+		Name:      types.TypeString(typ, nil),
+		Kind:      typeReflectKind(utyp),
 		IsEncoder: bctx.isEncoder(typ),
 		IsDecoder: bctx.isDecoder(typ),
 	}
 	bctx.typeToStructCache[typ] = t
 
 	// Assign element type.
-	switch typ.(type) {
+	switch utyp.(type) {
 	case *types.Array, *types.Slice, *types.Pointer:
-		etype := typ.(interface{ Elem() types.Type }).Elem()
+		etype := utyp.(interface{ Elem() types.Type }).Elem()
 		t.Elem = bctx.typeToStructType(etype)
 	}
 	return t
-- 
2.43.0


From cef2e71b5db09c445881b96274ceb04ffa6a663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 34/46] fix: rlpgen: reject recursive types instead of
 overflowing the stack

---
 rlp/rlpgen/gen.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 635e4a9..1a4ef0c 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -34,6 +34,8 @@ type buildContext struct {
 	rawValueType *types.Named
 
 	typeToStructCache map[types.Type]*rlpstruct.Type
+
+	pending map[*types.Named]bool // the named types makeOp is working on
 }
 
 func newBuildContext(packageRLP *types.Package) *buildContext {
@@ -45,6 +47,7 @@ func newBuildContext(packageRLP *types.Package) *buildContext {
 		encoderIface:      enc.(*types.Interface),
 		decoderIface:      dec.(*types.Interface),
 		rawValueType:      rawv.(*types.Named),
+		pending:           make(map[*types.Named]bool),
 	}
 }
 
@@ -645,6 +648,11 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 			return nil, fmt.Errorf("type %v implements rlp.Decoder with non-pointer receiver", typ)
 		}
 		// TODO: same check for encoder?
+		if bctx.pending[typ] {
+			return nil, fmt.Errorf("type %v is recursive", typ)
+		}
+		bctx.pending[typ] = true
+		defer delete(bctx.pending, typ)
 		return bctx.makeOp(typ, typ.Underlying(), tags)
 	case *types.Pointer:
 		if isBigInt(typ.Elem()) {
-- 
2.43.0


From e86c27f94e5d4def0b6b527bc75899ad34c3b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 35/46] fix: rlpgen: crash on fields of type error

---
 rlp/rlpgen/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index 0b27b59..0a75af7 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -88,7 +88,7 @@ func isBigInt(typ types.Type) bool {
 		return false
 	}
 	name := named.Obj()
-	return name.Pkg().Path() == "math/big" && name.Name() == "Int"
+	return name.Pkg() != nil && name.Pkg().Path() == "math/big" && name.Name() == "Int"
 }
 
 // isByte 检查 'typ' 的底层类型是否为 uint8。
-- 
2.43.0


From 9d2d6840d24842266863bb257a891660f7d20d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 36/46] fix: rlpgen: type aliases were rejected as fields and
 crashed the generator as type argument

---
 rlp/rlpgen/gen.go   |  2 +-
 rlp/rlpgen/main.go  |  9 ++++++++-
 rlp/rlpgen/types.go | 13 ++++++++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 1a4ef0c..29295d3 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -636,7 +636,7 @@ func (op sliceOp) genDecode(ctx *genContext) (string, string) {
 }
 
 func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstruct.Tags) (op, error) {
-	switch typ := typ.(type) {
+	switch typ := unalias(typ).(type) {
 	case *types.Named:
 		if isBigInt(typ) {
 			return bigIntOp{}, nil
diff --git a/rlp/rlpgen/main.go b/rlp/rlpgen/main.go
index e01dba7..fc07cba 100644
--- a/rlp/rlpgen/main.go
+++ b/rlp/rlpgen/main.go
@@ -143,5 +143,12 @@ func lookupType(scope *types.Scope, name string) (*types.Named, error) {
 	if !ok {
 		return nil, errors.New("not a type")
 	}
-	return typ.Type().(*types.Named), nil
+	named, ok := unalias(typ.Type()).(*types.Named)
+	if !ok {
+		return nil, errors.New("not a named type")
+	}
+	if named.TypeParams().Len() > 0 && named.TypeArgs().Len() == 0 {
+		return nil, errors.New("generic types are not supported")
+	}
+	return named, nil
 }
\ No newline at end of file
diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index 0a75af7..6763136 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -81,9 +81,20 @@ func hasNonZeroCheck(typ types.Type) bool {
 	}
 }
 
+// unalias 返回别名所代表的类型。自 Go 1.23 起 go/types 用单独的类型表示别名。
+func unalias(typ types.Type) types.Type {
+	for {
+		alias, ok := typ.(interface{ Rhs() types.Type })
+		if !ok {
+			return typ
+		}
+		typ = alias.Rhs()
+	}
+}
+
 // isBigInt 检查 'typ' 是否为 "math/big".Int。
 func isBigInt(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From bcae57a4098fdd80ad43f9bdfc20bc146a98a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 37/46] fix: rlpgen: generated decoders did not consume the
 empty value of a nil pointer and rejected every such input

---
 rlp/rlpgen/gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 29295d3..df590a9 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -435,6 +435,9 @@ func (op ptrOp) genDecode(ctx *genContext) (string, string) {
 	fmt.Fprintf(&b, "} else if %s != 0 || %s != %s {\n", sizeV, kindV, wantKind)
 	fmt.Fprint(&b, code)
 	fmt.Fprintf(&b, "  %s = %s\n", resultV, ref)
+	// The empty value that stands for nil must be consumed as well.
+	fmt.Fprintf(&b, "} else if _, err := dec.Raw(); err != nil {\n")
+	fmt.Fprintf(&b, "  return err\n")
 	fmt.Fprintf(&b, "}\n")
 	return resultV, b.String()
 }
-- 
2.43.0


From 47938f7048454e614a267eee20dfe06193c2ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 38/46] fix: rlpgen: slices of structs without fields, the
 generated code did not compile

---
 rlp/rlpgen/gen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index df590a9..719db5c 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -23,6 +23,7 @@ import (
 	"go/format"
 	"go/types"
 	"sort"
+	"strings"
 )
 
 // buildContext keeps the data needed for make*Op.
@@ -616,7 +617,12 @@ func (op sliceOp) genWrite(ctx *genContext, v string) string {
 
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%s := w.List()\n", listMarker)
-	fmt.Fprintf(&b, "for _, %s := range %s {\n", iterElemV, v)
+	if strings.Contains(elemCode, iterElemV) {
+		fmt.Fprintf(&b, "for _, %s := range %s {\n", iterElemV, v)
+	} else {
+		// Structs without fields have no use for the element.
+		fmt.Fprintf(&b, "for range %s {\n", v)
+	}
 	fmt.Fprint(&b, elemCode)
 	fmt.Fprintf(&b, "}\n")
 	fmt.Fprintf(&b, "w.ListEnd(%s)\n", listMarker)
-- 
2.43.0


From ec0e07a6497ab2484a0faff39206b22c1781ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 39/46] fix: FeedOf.Send of a nil interface value panicked with
 the send lock held

---
 event/feedof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feedof.go b/event/feedof.go
index 1d001a8..4149b97 100644
--- a/event/feedof.go
+++ b/event/feedof.go
@@ -72,7 +72,7 @@ func (f *FeedOf[T]) remove(sub *feedOfSub[T]) {
 // Send 同时传送到所有订阅的频道。
 // 它返回值被发送到的订阅者的数量。
 func (f *FeedOf[T]) Send(value T) (nsent int) {
-	rvalue := reflect.ValueOf(value)
+	rvalue := reflect.ValueOf(&value).Elem() // keeps the type of a nil interface value
 
 	f.once.Do(f.init)
 	<-f.sendLock
-- 
2.43.0


From 32b3f802b94cea821376a609061b7bff753953ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 40/46] fix: rpc: callback.call dropped the arguments of the
 call

---
 rpc/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpc/service.go b/rpc/service.go
index 83e80c0..427c04b 100644
--- a/rpc/service.go
+++ b/rpc/service.go
@@ -172,6 +172,7 @@ func (c *callback) call(ctx context.Context, method string, args []reflect.Value
 	if c.hasCtx {
 		fullargs = append(fullargs, reflect.ValueOf(ctx))
 	}
+	fullargs = append(fullargs, args...)
 
 	// 在运行回调时捕获 panic。
 	defer func() {
-- 
2.43.0


From 9a4be91cc146c5fa05896edab356e5beea148310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 41/46] fix: rpc: answers carried an empty method (space in the
 struct tag)

---
 rpc/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/json.go b/rpc/json.go
index ccd364e..f6d434c 100644
--- a/rpc/json.go
+++ b/rpc/json.go
@@ -31,7 +31,7 @@ type subscriptionResult struct {
 type jsonrpcMessage struct {
 	Version string          `json:"jsonrpc,omitempty"`
 	ID      json.RawMessage `json:"id,omitempty"`
-	Method  string          `json:"method, omitempty"`
+	Method  string          `json:"method,omitempty"`
 	Params  json.RawMessage `json:"params,omitempty"`
 	Error   *jsonError      `json:"error,omitempty"`
 	Result  json.RawMessage `json:"result,omitempty"`
-- 
2.43.0


From 7d903ea7378befb95efaf3d77729fdff8be46cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 42/46] fix: rpc: only two of the eight random bytes seeded the
 subscription ids

---
 rpc/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index 8c5a61d..ad10b12 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -37,7 +37,7 @@ func randomIDGenerator() func() ID {
 	var buf = make([]byte, 8)
 	var seed int64
 	if _, err := crand.Read(buf); err == nil {
-		seed = int64(binary.BigEndian.Uint16(buf))
+		seed = int64(binary.BigEndian.Uint64(buf))
 	} else {
 		seed = int64(time.Now().Nanosecond())
 	}
-- 
2.43.0


From 9c645b7fcb55977dbd63ae3ab6201dd1451900a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 43/46] fix: rpc: Unsubscribe deadlocked after a subscription
 had ended with an error

---
 rpc/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index ad10b12..4969070 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -220,7 +220,7 @@ func newClientSubscription(c *Client, namespace string, channel reflect.Value) *
 		quit:        make(chan error),
 		forwardDone: make(chan struct{}),
 		unsubDone:   make(chan struct{}),
-		err:         make(chan error),
+		err:         make(chan error, 1),
 	}
 	return sub
 }
-- 
2.43.0


From 17266d74ab21dcef363953364a0fefb877582346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 44/46] fix: rpc: a successful subscription was not started and
 a failed one was

---
 rpc/handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpc/handler.go b/rpc/handler.go
index 5577a11..7fc59d5 100644
--- a/rpc/handler.go
+++ b/rpc/handler.go
@@ -279,8 +279,9 @@ func (h *handler) handleResponse(msg *jsonrpcMessage) {
 	defer close(op.resp)
 	if msg.Error != nil {
 		op.err = msg.Error
+		return
 	}
-	if op.err = json.Unmarshal(msg.Result, &op.sub.subid); op.err != nil {
+	if op.err = json.Unmarshal(msg.Result, &op.sub.subid); op.err == nil {
 		go op.sub.run()
 		h.clientSubs[op.sub.subid] = op.sub
 	}
-- 
2.43.0


From e28acbcf5bdfed2c914603be4a536f8821441317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 45/46] fix: a null notification on a channel of interface type
 panicked

---
 rpc/subscription.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index 4969070..93e9fa6 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -314,6 +314,10 @@ func (sub *ClientSubscription) forward() (unsubscribeServer bool, err error) {
 		} else {
 			// 非空缓冲区，发送第一个排队的项目。
 			cases[2].Send = reflect.ValueOf(buffer.Front().Value)
+			if !cases[2].Send.IsValid() {
+				// 接口类型的 nil 值
+				cases[2].Send = reflect.Zero(sub.etype)
+			}
 			chosen, recv, _ = reflect.Select(cases)
 		}
 
-- 
2.43.0


From 887b7cf3ceb51866af25342fdc8edfb1c8c65f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 46/46] fix: MatchFilterHandler panicked on values that cannot
 be compared

---
 log/handler.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/log/handler.go b/log/handler.go
index 091df6e..4dfe265 100644
--- a/log/handler.go
+++ b/log/handler.go
@@ -160,13 +160,23 @@ func MatchFilterHandler(key string, value interface{}, h Handler) Handler {
 
 		for i := 0; i < len(r.Ctx); i += 2 {
 			if r.Ctx[i] == key {
-				return r.Ctx[i+1] == value
+				return matches(r.Ctx[i+1], value)
 			}
 		}
 		return false
 	}, h)
 }
 
+// matches 比较两个值，不可比较的值（例如切片）不匹配。
+func matches(a, b interface{}) (eq bool) {
+	defer func() {
+		if recover() != nil {
+			eq = false
+		}
+	}()
+	return a == b
+}
+
 // LvlFilterHandler 返回一个只写的 Handler
 // 小于给定详细程度的记录
 // 级别到包装的处理程序。例如，只
-- 
2.43.0

