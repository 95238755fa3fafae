From bccec51889ec8634dc107d2b30e4c9aa3af5a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 001/152] fix: stop the FSI direction lookup at the matching
 PDI

---
 fribidi/bidi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index a0f605f..89d11f8 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -359,7 +359,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				for fsiPp := pp.next; fsiPp.type_ != maskSentinel; fsiPp = fsiPp.next {
 					if fsiPp.type_ == PDI {
 						isolateCount--
-						if validIsolateCount < 0 {
+						if isolateCount < 0 {
 							break
 						}
 					} else if fsiPp.type_.IsIsolate() {
-- 
2.43.0


From dd608196db05ee42e30374c651a6f00e572ecd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 002/152] fix: handle isolates overflowing the maximum depth as
 UAX#9 X5/X6a/X7 require

---
 fribidi/bidi.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 89d11f8..4cdc5fb 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -303,7 +303,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				/*   X7. With each PDF, determine the matching embedding or
 				     override code. */
 				for i := pp.len; i != 0; i-- {
-					if stackSize != 0 && statusStack[stackSize-1].isolate != 0 {
+					if isolateOverflow > 0 || (overPushed == 0 && stackSize != 0 && statusStack[stackSize-1].isolate != 0) {
 						break
 					}
 					statusStack.popStatus(vars, &isolate, &isolateLevel)
@@ -321,6 +321,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			for i := pp.len; i != 0; i-- {
 				if isolateOverflow > 0 {
 					isolateOverflow--
+					/* this PDI does not close a directional isolate: it is a plain neutral */
+					pp.type_ = ON
 					pp.level = level
 				} else if validIsolateCount > 0 {
 					/* Pop away all LRE,RLE,LRO, RLO levels
@@ -380,15 +382,14 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 
 			pp.level = level
 			pp.isolateLevel = isolateLevel
-			if isolateLevel < maxExplicitLevel-1 {
-				isolateLevel++
-			}
-
 			if !override.isNeutral() {
 				pp.type_ = override
 			}
 
-			if newLevel <= maxExplicitLevel {
+			if newLevel <= maxExplicitLevel && isolateOverflow == 0 && overPushed == 0 {
+				if isolateLevel < maxExplicitLevel-1 {
+					isolateLevel++
+				}
 				validIsolateCount++
 				statusStack.pushStatus(isolateOverflow, isolate, isolateLevel, newLevel, newOverride, vars)
 				level = newLevel
-- 
2.43.0


From a4ccff7ea79356056a5e94698355e45760dba490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 003/152] fix: apply directional overrides to PDI (UAX#9 X6a)

---
 fribidi/bidi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 4cdc5fb..1796a3e 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -343,6 +343,10 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 					pp.level = level
 				}
 			}
+			/* the override status left after popping also applies to the PDI */
+			if !override.isNeutral() {
+				pp.type_ = override
+			}
 		} else if thisType.IsIsolate() {
 			/* TBD support RL_LEN > 1 */
 			newOverride = ON
-- 
2.43.0


From f6dc231ef44c6df8ff3d62e70fd504cc5da5bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 004/152] fix: do not merge bracket runs when resolving NSM
 (UAX#9 W1, BD16)

---
 fribidi/bidi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 1796a3e..fc1d164 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -524,7 +524,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				pp.type_ = prevType
 			}
 
-			if prevType == nextType && pp.level == pp.next.level {
+			if prevType == nextType && pp.level == pp.next.level &&
+				pp.bracketType == NoBracket && pp.next.bracketType == NoBracket /* Don't join brackets! */ {
 				if pppNext == pp.next {
 					pp = pp.next.mergeWithPrev()
 				}
-- 
2.43.0


From 34f3a503ca773b21f94b675ba1eafb1e2f5170ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 005/152] fix: do not pair brackets of two different isolates
 (UAX#9 BD16)

---
 fribidi/bidi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index fc1d164..056a1dc 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -680,6 +680,11 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		if level != lastLevel && lastIsoLevel == isoLevel {
 			bracketStackSize[lastIsoLevel] = 0
 		}
+		/* Entering a new isolate: it does not continue the previous
+		   isolates of the same depth. */
+		if isoLevel > lastIsoLevel {
+			bracketStackSize[isoLevel] = 0
+		}
 
 		if brackProp != NoBracket && pp.type_ == ON {
 			if brackProp.isOpen() {
-- 
2.43.0


From d56a55723e1a62e69aeb0624f462cfd74a398db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 006/152] fix: use the isolating run sequence as context of
 bracket pairs (UAX#9 N0c)

---
 fribidi/bidi.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 056a1dc..c40f294 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -752,11 +752,19 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		/* Search for any strong type preceding and within the bracket pair */
 		if !found {
 			/* Search for a preceding strong */
-			precStrongLevel := embeddingLevel /* TBDov! Extract from Isolate level in effect */
+			precStrongLevel := maxL(embeddingLevel, baseLevel)
 			isoLevel := ppairs.open.isolateLevel
 			for ppn = ppairs.open.prev; ppn.type_ != maskSentinel; ppn = ppn.prev {
+				if ppn.isolateLevel > isoLevel {
+					continue /* inside a nested isolate */
+				}
+				if ppn.isolateLevel < isoLevel || ppn.level != embeddingLevel {
+					/* start of the isolating run sequence: use sos */
+					precStrongLevel = maxL(embeddingLevel, ppn.level)
+					break
+				}
 				thisType := ppn.typeAnEnAsRTL()
-				if thisType.IsStrong() && ppn.isolateLevel == isoLevel {
+				if thisType.IsStrong() {
 					precStrongLevel = ppn.level + (ppn.level.isRtl() ^ dirToLevel(thisType))
 					break
 				}
-- 
2.43.0


From 777ee3dafd9e4c05229d2652517dee3b2ca15d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 007/152] fix: a bracket stack overflow only stops its own
 isolating run sequence (UAX#9 BD16)

---
 fribidi/bidi.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index c40f294..4f69aba 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -686,14 +686,14 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			bracketStackSize[isoLevel] = 0
 		}
 
-		if brackProp != NoBracket && pp.type_ == ON {
+		/* A size greater than maxNestedBracketPairs means that the stack has overflowed:
+		   the remainder of this isolating run sequence (only) is not processed. */
+		if brackProp != NoBracket && pp.type_ == ON && bracketStackSize[isoLevel] <= maxNestedBracketPairs {
 			if brackProp.isOpen() {
-				if bracketStackSize[isoLevel] == maxNestedBracketPairs {
-					break
-				}
-
 				/* push onto the pair stack */
-				bracketStack[isoLevel][bracketStackSize[isoLevel]] = pp
+				if bracketStackSize[isoLevel] < maxNestedBracketPairs {
+					bracketStack[isoLevel][bracketStackSize[isoLevel]] = pp
+				}
 				bracketStackSize[isoLevel]++
 			} else {
 				stackIdx := bracketStackSize[isoLevel] - 1
-- 
2.43.0


From 9527a55750cf894e885b455f948d5d8d27ff2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 008/152] fix: reset the level of isolate formatting characters
 at the end of a line (UAX#9 L1)

---
 fribidi/bidi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 4f69aba..4974d5c 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -1004,8 +1004,8 @@ func ReorderLine(
 	)
 
 	/* L1. Reset the embedding levels of some chars:
-	   4. any sequence of white space characters at the end of the line. */
-	for i := off + length - 1; i >= off && bidiTypes[i].isExplicitOrBnOrWs(); i-- {
+	   4. any sequence of white space and/or isolate formatting characters at the end of the line. */
+	for i := off + length - 1; i >= off && (bidiTypes[i].isExplicitOrBnOrWs() || bidiTypes[i].IsIsolate()); i-- {
 		embeddingLevels[i] = dirToLevel(baseDir)
 	}
 
-- 
2.43.0


From 577b6dc9da575ce69d5e3b87fc8be2ebd583b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 009/152] fix: mark removed characters as such in
 RemoveBidiMarks maps

---
 fribidi/fridibi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/fridibi.go b/fribidi/fridibi.go
index 7090d51..301ab85 100644
--- a/fribidi/fridibi.go
+++ b/fribidi/fridibi.go
@@ -511,7 +511,7 @@ func RemoveBidiMarks(str []rune, positionsToThis, positionFromThis []int, embedd
 		for i := range positionsToThis {
 			positionsToThis[i] = -1
 		}
-		for i, from := range positionFromThis {
+		for i, from := range positionFromThis[:j] {
 			positionsToThis[from] = i
 		}
 	}
-- 
2.43.0


From 8b6e6dcfce0c9fe1afb9ed98f3e6bd262dc0066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 010/152] fix: only identify canonically equivalent brackets
 (UAX#9 BD14-BD16)

---
 fribidi/brackets_table.go | 40 +++++++++++++++++++--------------------
 fribidi/unidata/gen.go    |  6 ++++--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/fribidi/brackets_table.go b/fribidi/brackets_table.go
index f9d66d8..c76e841 100644
--- a/fribidi/brackets_table.go
+++ b/fribidi/brackets_table.go
@@ -17,10 +17,10 @@ var bracketsTable = map[rune]rune{
 	0x169c: 5787,
 	0x2045: 8261,
 	0x2046: 8261,
-	0x207d: 40,
-	0x207e: 40,
-	0x208d: 40,
-	0x208e: 40,
+	0x207d: 8317,
+	0x207e: 8317,
+	0x208d: 8333,
+	0x208e: 8333,
 	0x2308: 8968,
 	0x2309: 8968,
 	0x230a: 8970,
@@ -107,20 +107,20 @@ var bracketsTable = map[rune]rune{
 	0x3019: 12312,
 	0x301a: 12314,
 	0x301b: 12314,
-	0xfe59: 40,
-	0xfe5a: 40,
-	0xfe5b: 123,
-	0xfe5c: 123,
-	0xfe5d: 12308,
-	0xfe5e: 12308,
-	0xff08: 40,
-	0xff09: 40,
-	0xff3b: 91,
-	0xff3d: 91,
-	0xff5b: 123,
-	0xff5d: 123,
-	0xff5f: 10629,
-	0xff60: 10629,
-	0xff62: 12300,
-	0xff63: 12300,
+	0xfe59: 65113,
+	0xfe5a: 65113,
+	0xfe5b: 65115,
+	0xfe5c: 65115,
+	0xfe5d: 65117,
+	0xfe5e: 65117,
+	0xff08: 65288,
+	0xff09: 65288,
+	0xff3b: 65339,
+	0xff3d: 65339,
+	0xff5b: 65371,
+	0xff5d: 65371,
+	0xff5f: 65375,
+	0xff60: 65375,
+	0xff62: 65378,
+	0xff63: 65378,
 }
diff --git a/fribidi/unidata/gen.go b/fribidi/unidata/gen.go
index 17d7ac7..51ab9aa 100644
--- a/fribidi/unidata/gen.go
+++ b/fribidi/unidata/gen.go
@@ -91,8 +91,10 @@ func parseUnicodeData() error {
 			}
 		}
 
-		// equiv table
-		equivTable[c] = unshaped
+		// equiv table: only canonical equivalents are considered
+		if tag == "" {
+			equivTable[c] = unshaped
+		}
 	}
 	shapingTable.min, shapingTable.max = min, max
 
-- 
2.43.0


From ccbe6d8d58fe66bc9c5fef6afe265181abd3e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 011/152] fix: charset: ignore the pages emptied by DelChar

---
 fontconfig/charset.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index 70c5c1e..f8d16f9 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -46,12 +46,17 @@ func (s Charset) String() string {
 
 func (s Charset) hash() []byte {
 	const size = 2 + 4*8
-	out := make([]byte, size*len(s.pageNumbers))
+	out := make([]byte, 0, size*len(s.pageNumbers))
+	var buf [size]byte
 	for i, p := range s.pageNumbers {
-		binary.BigEndian.PutUint16(out[size*i:], p)
+		if s.pages[i] == (charPage{}) { // left by DelChar
+			continue
+		}
+		binary.BigEndian.PutUint16(buf[:], p)
 		for j, u := range s.pages[i] {
-			binary.BigEndian.PutUint32(out[size*i+2+4*j:], u)
+			binary.BigEndian.PutUint32(buf[2+4*j:], u)
 		}
+		out = append(out, buf[:]...)
 	}
 	return out
 }
@@ -161,6 +166,8 @@ func charsetSubtractCount(a, b Charset) uint32 {
 // Returns whether `a` and `b` contain the same set of Unicode chars.
 func charsetEqual(a, b Charset) bool {
 	ai, bi := newCharsetIter(a), newCharsetIter(b)
+	ai.skipEmpty()
+	bi.skipEmpty()
 	for ai.leaf != nil && bi.leaf != nil {
 		if ai.page() != bi.page() {
 			return false
@@ -170,6 +177,8 @@ func charsetEqual(a, b Charset) bool {
 		}
 		ai.next()
 		bi.next()
+		ai.skipEmpty()
+		bi.skipEmpty()
 	}
 	return ai.leaf == bi.leaf
 }
@@ -177,7 +186,14 @@ func charsetEqual(a, b Charset) bool {
 // return true iff a is a subset of b
 func (a Charset) isSubset(b Charset) bool {
 	ai, bi := 0, 0
-	for ai < len(a.pageNumbers) && bi < len(b.pageNumbers) {
+	for ai < len(a.pageNumbers) {
+		if a.pages[ai] == (charPage{}) { // left by DelChar
+			ai++
+			continue
+		}
+		if bi >= len(b.pageNumbers) {
+			break
+		}
 		an := a.pageNumbers[ai]
 		bn := b.pageNumbers[bi]
 		// Check matching pages
@@ -441,3 +457,11 @@ func (iter *charsetIter) next() {
 	iter.pos += 1
 	iter.updateLeaf()
 }
+
+// skipEmpty moves to the next page which is not empty:
+// DelChar does not remove the pages it empties
+func (iter *charsetIter) skipEmpty() {
+	for iter.leaf != nil && *iter.leaf == (charPage{}) {
+		iter.next()
+	}
+}
-- 
2.43.0


From a6381dfac53431f6e9cd8a7e1ac0d381261684ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 012/152] fix: cache: reach the end of the compressed stream,
 so that its checksum is verified

---
 fontconfig/cache.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8294d47..8ed69b6 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -425,6 +425,14 @@ func LoadFontset(src io.Reader) (Fontset, error) {
 			return nil, fmt.Errorf("invalid fontset: %s", err)
 		}
 	}
+
+	// reach the end of the compressed stream, where its checksum is verified
+	if _, err := io.ReadFull(r, buf[:1]); err == nil {
+		return nil, errors.New("invalid fontset: unexpected content after the last pattern")
+	} else if err != io.EOF {
+		return nil, fmt.Errorf("invalid fontset: %s", err)
+	}
+
 	return fs, nil
 }
 
-- 
2.43.0


From 0d4e8510b8de8e7c52b81be68998a967c9c99162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 013/152] fix: strGlobMatch: out of range access and wrong
 handling of '*'

---
 fontconfig/match.go | 52 +++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9ed2872..4ec6092 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -308,44 +308,26 @@ func compareSize(v1, v2 Value) (Value, float32) {
 }
 
 func strGlobMatch(glob, st string) bool {
-	var str int // index in st
-	for i, c := range []byte(glob) {
-		switch c {
-		case '*':
-			// short circuit common case
-			if i == len(glob)-1 {
-				return true
-			}
-			// short circuit another common case
-			if i < len(glob)-1 && glob[i+1] == '*' {
-
-				l1 := len(st) - str
-				l2 := len(glob)
-				if l1 < l2 {
-					return false
-				}
-				str += (l1 - l2)
-			}
-			for str < len(st) {
-				if strGlobMatch(glob, st[str:]) {
-					return true
-				}
-				str++
-			}
-			return false
-		case '?':
-			if str == len(st) {
-				return false
-			}
-			str++
-		default:
-			if st[str] != c {
-				return false
-			}
+	var g, str int         // index in glob and st
+	star, restart := -1, 0 // last '*' seen, and where to resume in st
+	for str < len(st) {
+		if g < len(glob) && glob[g] == '*' {
+			star, restart = g, str
+			g++
+		} else if g < len(glob) && (glob[g] == '?' || glob[g] == st[str]) {
+			g++
 			str++
+		} else if star != -1 { // let the last '*' match one more byte
+			restart++
+			g, str = star+1, restart
+		} else {
+			return false
 		}
 	}
-	return str == len(st)
+	for g < len(glob) && glob[g] == '*' {
+		g++
+	}
+	return g == len(glob)
 }
 
 func compareFilename(v1, v2 Value) (Value, float32) {
-- 
2.43.0


From 02ff0fb1a143c0ca3016aacbb70f5b33786a04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 014/152] fix: match: do not crash on empty names, and give a
 zero distance to equal names

---
 fontconfig/match.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 4ec6092..98a9606 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -90,11 +90,6 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1String) != toLower(v2String) &&
-		v1String[0] != ' ' && v2String[0] != ' ' {
-		return bestValue, 1.0
-	}
-
 	if ignoreBlanksAndCase(v1String) == ignoreBlanksAndCase(v2String) {
 		return bestValue, 0
 	}
@@ -103,20 +98,19 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 
 var delimReplacer = strings.NewReplacer(" ", "", "-", "")
 
-func matchIgnoreCaseAndDelims(s1, s2 string) int {
+// returns the number of bytes of the common prefix of `s1` and `s2`, ignoring case and delimiters,
+// and the length of `s1` without its delimiters
+func matchIgnoreCaseAndDelims(s1, s2 string) (n, length int) {
 	s1, s2 = delimReplacer.Replace(s1), delimReplacer.Replace(s2)
 	s1, s2 = strings.ToLower(s1), strings.ToLower(s2)
 	l := len(s1)
 	if len(s2) < l {
 		l = len(s2)
 	}
-	i := 0
-	for ; i < l; i++ {
-		if s1[i] != s2[i] {
-			break
-		}
+	for n < l && s1[n] == s2[n] {
+		n++
 	}
-	return i
+	return n, len(s1)
 }
 
 func comparePostScript(v1, v2 Value) (Value, float32) {
@@ -125,14 +119,14 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1_string) != toLower(v2_string) &&
-		v1_string[0] != ' ' && v2_string[0] != ' ' {
-		return bestValue, 1.0
+	n, length := matchIgnoreCaseAndDelims(v1_string, v2_string)
+	if length == 0 {
+		if delimReplacer.Replace(v2_string) == "" {
+			return bestValue, 0
+		}
+		return bestValue, 1
 	}
 
-	n := matchIgnoreCaseAndDelims(v1_string, v2_string)
-	length := len(v1_string)
-
 	return bestValue, float32(length-n) / float32(length)
 }
 
-- 
2.43.0


From ce14e95e2d715bb183b087fd34e801ed54a15918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 015/152] fix: Pattern.Hash: include the type and the length of
 each value

---
 fontconfig/lang.go   |  6 ++++--
 fontconfig/match.go  |  3 ++-
 fontconfig/values.go | 13 +++++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a2adc44..166334a 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -44,13 +44,15 @@ func (l Langset) hash() []byte {
 	for i, v := range l.page {
 		binary.BigEndian.PutUint32(out[4*i:], v)
 	}
-	extra := make([]string, len(l.extra))
+	extra := make([]string, 0, len(l.extra))
 	for ex := range l.extra {
 		extra = append(extra, ex)
 	}
 	sort.Strings(extra)
 	for _, s := range extra {
-		out = append(out, s...)
+		var size [4]byte
+		binary.BigEndian.PutUint32(size[:], uint32(len(s)))
+		out = append(append(out, size[:]...), s...)
 	}
 	return out
 }
diff --git a/fontconfig/match.go b/fontconfig/match.go
index 98a9606..a3bf5fa 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -572,7 +572,8 @@ func (pat Pattern) newCompareData() compareData {
 
 	elt := pat.getVals(FAMILY)
 	for i, l := range elt {
-		key := string(l.hash()) // l must have type string, but we are cautious
+		str, _ := l.Value.(String) // should be string, but we are cautious
+		key := string(str)
 		e, ok := table.lookup(key)
 		if !ok {
 			e = new(familyEntry)
diff --git a/fontconfig/values.go b/fontconfig/values.go
index fe957ab..3d3320e 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -1,6 +1,7 @@
 package fontconfig
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -278,11 +279,19 @@ func (v valueElt) String() string {
 	return fmt.Sprintf("%v (%s)", v.Value, v.Binding)
 }
 
+// the type of the value and the length of its content are included, so that
+// the concatenation of several hashes is not ambiguous
 func (v valueElt) hash() []byte {
+	var content []byte
 	if withHash, ok := v.Value.(hasher); ok {
-		return withHash.hash()
+		content = withHash.hash()
+	} else {
+		content = []byte(fmt.Sprintf("%v", v.Value))
 	}
-	return []byte(fmt.Sprintf("%v", v.Value))
+	out := make([]byte, 5, 5+len(content))
+	out[0] = v.dataType()
+	binary.BigEndian.PutUint32(out[1:], uint32(len(content)))
+	return append(out, content...)
 }
 
 func (v valueElt) asGoSource() string {
-- 
2.43.0


From 1fef533cf2c1b6e89f20011a747fdd48bfa30485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 016/152] fix: cache: reject the values which are not valid

---
 fontconfig/cache.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8ed69b6..882ad74 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -199,6 +199,9 @@ func (v *Bool) deserializeBin(data []byte) (int, error) {
 		return 0, errors.New("invalid Bool (EOF)")
 	}
 	*v = Bool(data[0])
+	if *v > DontCare {
+		return 0, fmt.Errorf("invalid Bool (%d)", data[0])
+	}
 	return 1, nil
 }
 
@@ -217,6 +220,9 @@ func (v *Charset) deserializeBin(data []byte) (int, error) {
 
 	for i := range v.pageNumbers {
 		v.pageNumbers[i] = binary.BigEndian.Uint16(data[2+charsetRecordSize*i:])
+		if i != 0 && v.pageNumbers[i] <= v.pageNumbers[i-1] {
+			return 0, errors.New("invalid Charset (unsorted pages)")
+		}
 		slice := data[2+charsetRecordSize*i+2:]
 		for j := range v.pages[i] {
 			v.pages[i][j] = binary.BigEndian.Uint32(slice[4*j:])
@@ -235,6 +241,11 @@ func (v *Langset) deserializeBin(data []byte) (int, error) {
 	for j := range v.page {
 		v.page[j] = binary.BigEndian.Uint32(data[4*j:])
 	}
+	for id := len(fcLangCharSetIndicesInv); id < 32*langPageSize; id++ {
+		if v.page[id>>5]&(1<<(id&0x1f)) != 0 {
+			return 0, errors.New("invalid Langset (unknown language)")
+		}
+	}
 	return 4 * langPageSize, nil
 }
 
@@ -263,6 +274,9 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		return 0, errors.New("invalid value (EOF)")
 	}
 	v.Binding = valueBinding(data[0])
+	if v.Binding > vbSame {
+		return 0, fmt.Errorf("invalid value binding (%d)", v.Binding)
+	}
 	type_ := data[1]
 	var (
 		valueSize int
@@ -301,6 +315,8 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		var out Range
 		valueSize, err = out.deserializeBin(data[2:])
 		v.Value = out
+	default:
+		return 0, fmt.Errorf("invalid value type (%d)", type_)
 	}
 
 	return 2 + valueSize, err
@@ -344,6 +360,14 @@ func deserializePatternBin(data []byte) (Pattern, error) {
 		if err != nil {
 			return nil, fmt.Errorf("invalid pattern: %s", err)
 		}
+		if len(list) == 0 {
+			return nil, fmt.Errorf("invalid pattern: no value for object %s", obj)
+		}
+		for _, elt := range list {
+			if !obj.hasValidType(elt.Value) {
+				return nil, fmt.Errorf("invalid pattern: object %s does not accept value %v", obj, elt.Value)
+			}
+		}
 		(pat)[obj] = &list
 		offset += read
 	}
-- 
2.43.0


From 938b4e55d5aa868c15903801ec70e1cd21aa3e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 017/152] fix: Sort: return the coverage of the fonts even when
 they are not trimmed

---
 fontconfig/match.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index a3bf5fa..aeeea79 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -928,13 +928,11 @@ func sortWalk(n []*sortNode, trim bool) (Fontset, Charset) {
 	for i, node := range n {
 		addsChars := false
 
-		// Only fetch node charset if we'd need it
-		if trim {
-			ncs, ok := node.pattern.GetCharset(CHARSET)
-			if !ok {
-				continue
-			}
+		ncs, ok := node.pattern.GetCharset(CHARSET)
+		if ok {
 			addsChars = csp.merge(ncs)
+		} else if trim {
+			continue
 		}
 
 		// If this font isn't a subset of the previous fonts, add it to the list
-- 
2.43.0


From 38bb67f59d01fc6b245259a661f630aab8720b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 018/152] fix: Sort: keep the order of the set between fonts
 with the same score

---
 fontconfig/match.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index aeeea79..979be94 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -859,7 +859,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 		nodes[i] = newPtr
 	}
 
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	for _, node := range nodes {
 		satisfies := false
@@ -884,7 +884,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 	}
 
 	// re-sort once the language issues have been settled
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	return sortWalk(nodes, trim)
 }
-- 
2.43.0


From e4c87eb27465747b7ac4caf4426c390231587330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 019/152] fix: langset: languages outside of the orthography
 list and empty items

---
 fontconfig/lang.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 166334a..05b41b1 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -374,13 +374,12 @@ func (ls Langset) containsLang(lang string) bool {
 		}
 	}
 
-	var extra string
-	for extra = range ls.extra {
+	for extra := range ls.extra {
 		if langContains(extra, lang) {
-			break
+			return true
 		}
 	}
-	return extra != ""
+	return false
 }
 
 // return true if lsa contains every language in lsb
@@ -402,18 +401,14 @@ func (lsa Langset) includes(lsb Langset) bool {
 			}
 		}
 	}
-	var extra string
 	for extra := range lsb.extra {
 		if !lsa.containsLang(extra) {
 			if debugMode {
 				fmt.Printf("\tMissing string %s\n", extra)
 			}
-			break
+			return false
 		}
 	}
-	if extra != "" {
-		return false
-	}
 	return true
 }
 
@@ -423,6 +418,9 @@ func (lsa Langset) includes(lsb Langset) bool {
 func NewLangset(str string) Langset {
 	var ls Langset
 	for _, lang := range strings.Split(str, "|") {
+		if lang == "" {
+			continue
+		}
 		ls.add(lang)
 	}
 	return ls
-- 
2.43.0


From 06495859093acb8117b1bf311caf1627d868a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 020/152] fix: List keeps the order of the set and returns each
 projection once

---
 fontconfig/list.go | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/fontconfig/list.go b/fontconfig/list.go
index d7273d6..3e2ff13 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -48,15 +48,6 @@ func patternMatchAny(p, font Pattern) bool {
 	return true
 }
 
-// restrict the hash to the objects in `objs`
-func patternHash(font Pattern, objs []Object) string {
-	crible := make(Pattern, len(objs))
-	for _, obj := range objs {
-		crible[obj] = font[obj]
-	}
-	return crible.Hash()
-}
-
 func (font Pattern) getDefaultObjectLangIndex(object Object, lang string) int {
 	idx := -1
 	defidx := -1
@@ -90,17 +81,13 @@ func (font Pattern) getDefaultObjectLangIndex(object Object, lang string) int {
 	return 0
 }
 
-func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string) {
+// project the font on the objects `os`
+func listProject(font Pattern, os []Object, lang string) Pattern {
 	familyidx := -1
 	defidx := 0
 	fullnameidx := -1
 	styleidx := -1
 
-	hash := patternHash(font, os)
-	if _, has := table[hash]; has {
-		return
-	}
-
 	pattern := NewPattern()
 	for _, obj := range os {
 		switch obj {
@@ -128,7 +115,7 @@ func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string
 			pattern.Add(obj, v.Value, defidx != idx)
 		}
 	}
-	table[hash] = pattern
+	return pattern
 }
 
 func getDefaultLang() string {
@@ -143,29 +130,27 @@ func getDefaultLang() string {
 // only the objects in `objs` and returns the set of unique such patterns.
 // If no objects are specified, default to all builtin objects.
 func (set Fontset) List(p Pattern, objs ...Object) Fontset {
-	table := make(map[string]Pattern)
-
 	if len(objs) == 0 { // default to all objects
 		for i := Object(1); i < FirstCustomObject; i++ {
 			objs = append(objs, i)
 		}
 	}
 
-	// Walk all available fonts adding those that match to the hash table
+	// Walk all available fonts adding those that match, once, in the order of the set
+	ret := make(Fontset, 0, len(set))
+	seen := make(map[string]bool)
 	for _, font := range set {
 		if patternMatchAny(p, font) {
 			lang, res := p.getAtString(NAMELANG, 0)
 			if res != ResultMatch {
 				lang = getDefaultLang()
 			}
-			listAppend(table, font, objs, lang)
+			pattern := listProject(font, objs, lang)
+			if hash := pattern.Hash(); !seen[hash] {
+				seen[hash] = true
+				ret = append(ret, pattern)
+			}
 		}
 	}
-
-	// Walk the hash table and build a font set
-	ret := make(Fontset, 0, len(table))
-	for _, font := range table {
-		ret = append(ret, font)
-	}
 	return ret
 }
-- 
2.43.0


From 822c6a5914421fb97989268a353c1825593149e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 021/152] fix: expressions: numbers too large for an integer
 stay floats

---
 fontconfig/expr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index b623134..7320f20 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -365,7 +365,8 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 			case opDivide:
 				v = vle / vre
 			}
-			if vf, ok := v.(Float); ok && vf == Float(int(vf)) {
+			// use an integer when it is possible without changing the value
+			if vf, ok := v.(Float); ok && math.MinInt32 <= vf && vf < math.MaxInt32 && vf == Float(int32(vf)) {
 				v = Int(vf)
 			}
 		case Bool:
-- 
2.43.0


From 304a553d7707ac4ffc1da63813ccbc895ab99fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 022/152] fix: rules: keep the marked value after prepend,
 assign and delete edits

---
 fontconfig/pattern.go       |  4 ++--
 fontconfig/substitutions.go | 22 +++++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 681ce09..9167264 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -381,13 +381,13 @@ func BuildPattern(elements ...PatternElement) Pattern {
 	return p
 }
 
-func (p Pattern) addWithTable(object Object, list valueList, append bool, table *familyTable) {
+func (p Pattern) addWithTable(object Object, list valueList, append bool, table *familyTable) bool {
 	e := p[object]
 	if e == nil {
 		e = &valueList{}
 		p[object] = e
 	}
-	e.insert(-1, append, list, object, table)
+	return e.insert(-1, append, list, object, table)
 }
 
 // Delete all values associated with a field
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b44b32d..8fd62c2 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -116,14 +116,16 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			thisValue := valuePos[object]
 
 			// Append the newList list of values after the current value
-			targetList.insert(thisValue, true, l, object, table)
+			inserted := targetList.insert(thisValue, true, l, object, table)
 
-			//  Delete the marked value
-			if thisValue != -1 {
-				targetList.del(thisValue, object, table)
+			// without new value, there is nothing left to mark
+			if len(l) == 0 || !inserted {
+				valuePos[object] = -1
 			}
 
-			// Adjust a pointer into the value list to ensure future edits occur at the same place
+			// Delete the marked value: the position is now the one of the first
+			// new value, to ensure future edits occur at the same place
+			targetList.del(thisValue, object, table)
 			break
 		}
 		fallthrough
@@ -135,12 +137,16 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 		valuePos[object] = -1
 	case opPrepend:
 		if valuePos[object] != -1 {
-			targetList.insert(valuePos[object], false, l, object, table)
+			if targetList.insert(valuePos[object], false, l, object, table) {
+				valuePos[object] += len(l) // follow the marked value
+			}
 			break
 		}
 		fallthrough
 	case opPrependFirst:
-		p.addWithTable(object, l, false, table)
+		if p.addWithTable(object, l, false, table) && valuePos[object] != -1 {
+			valuePos[object] += len(l) // follow the marked value
+		}
 	case opAppend:
 		if valuePos[object] != -1 {
 			targetList.insert(valuePos[object], true, l, object, table)
@@ -152,11 +158,13 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	case opDelete:
 		if valuePos[object] != -1 {
 			targetList.del(valuePos[object], object, table)
+			valuePos[object] = -1
 			break
 		}
 		fallthrough
 	case opDeleteAll:
 		p.delWithTable(object, table)
+		valuePos[object] = -1
 	}
 	// Now go through the pattern and eliminate any properties without data
 	p.canon(object)
-- 
2.43.0


From 412d050388e8b8bea69d51431a3fb2ad4d4273a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 023/152] fix: tests of the family against a missing value do
 not panic

---
 fontconfig/substitutions.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 8fd62c2..2574128 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -363,17 +363,18 @@ func matchValueList(p, pPat Pattern, kind matchKind,
 			e = nil
 		}
 
-		if t.object == FAMILY && table != nil {
+		// values other than strings always take the general path
+		if family, isString := value.(String); isString && t.object == FAMILY && table != nil {
 			op := t.op.getOp()
 			if op == opEqual || op == opListing {
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = -1
 					continue
 				}
 			}
 			if op == opNotEqual && t.qual == qualAll {
 				ret = -1
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = 0
 				}
 				continue
-- 
2.43.0


From 8310a78599bd96cffd00279e808b93af64da9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 024/152] fix: boolean operators treat dont-care like the
 conditions do

---
 fontconfig/expr.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index 7320f20..7c887d6 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -278,6 +278,13 @@ func (expr expression) String() string {
 	}
 }
 
+func boolValue(b bool) Bool {
+	if b {
+		return True
+	}
+	return False
+}
+
 func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 	var v Value
 	op := e.op.getOp()
@@ -376,9 +383,9 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 			}
 			switch op {
 			case opOr:
-				v = vle | vre
+				v = boolValue(vle != False || vre != False)
 			case opAnd:
-				v = vle & vre
+				v = boolValue(vle != False && vre != False)
 			}
 		case String:
 			vre, sameType := vre.(String)
@@ -425,7 +432,7 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		tree := e.u.(exprTree)
 		vl := tree.left.evaluate(result, query, kind)
 		if b, ok := vl.(Bool); ok {
-			v = 1 - b&1
+			v = boolValue(b == False)
 		}
 	case opFloor, opCeil, opRound, opTrunc:
 		tree := e.u.(exprTree)
-- 
2.43.0


From 0a1cf1213c3a7818092eca2a8eb442560ddcf46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 025/152] fix: family edits keep the family table up to date
 after a test on the query

---
 fontconfig/substitutions.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 2574128..b5b46dd 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -44,10 +44,9 @@ func (test ruleTest) copyT() ruleTest {
 
 // Check the tests to see if they all match the pattern
 // if keep is false, the rule is not matched
-func (r ruleTest) match(selectedKind matchKind, p, pPat Pattern, data familyTable,
-	valuePos []int, targets []*valueList, tst []ruleTest) (table *familyTable, keep bool) {
+func (r ruleTest) match(selectedKind matchKind, p, pPat Pattern, table *familyTable,
+	valuePos []int, targets []*valueList, tst []ruleTest) (keep bool) {
 	m := p
-	table = &data
 	if selectedKind == MatchResult && r.kind == MatchQuery {
 		m = pPat
 		table = nil
@@ -63,9 +62,9 @@ func (r ruleTest) match(selectedKind matchKind, p, pPat Pattern, data familyTabl
 	if e == nil {
 		if r.qual == qualAll {
 			valuePos[object] = -1
-			return table, true
+			return true
 		}
-		return table, false
+		return false
 	}
 	// Check to see if there is a match, mark the location to apply match-relative edits
 	vlIndex := matchValueList(m, pPat, selectedKind, r, *e, table)
@@ -75,9 +74,9 @@ func (r ruleTest) match(selectedKind matchKind, p, pPat Pattern, data familyTabl
 	}
 	if vlIndex == -1 || (r.qual == qualFirst && vlIndex != 0) ||
 		(r.qual == qualNotFirst && vlIndex == 0) {
-		return table, false
+		return false
 	}
-	return table, true
+	return true
 }
 
 type ruleEdit struct {
@@ -481,9 +480,7 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 				if debugMode {
 					fmt.Println("\t\ttest for substitute", test)
 				}
-				var keep bool
-				table, keep = test.match(kind, p, testPattern, data, valuePos, targets, tst)
-				if !keep {
+				if !test.match(kind, p, testPattern, table, valuePos, targets, tst) {
 					if debugMode {
 						fmt.Println("\t\t-> dont pass")
 					}
-- 
2.43.0


From ef299b1abf473b545e41d07ad0c376a2907c6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 026/152] fix: normalize the languages with a territory and the
 C locale

---
 fontconfig/lang.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 05b41b1..d3906f1 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -85,7 +85,7 @@ func normalizeLang(lang string) string {
 
 	lang = strings.ToLower(lang)
 	switch lang {
-	case "c", "c.utf-8, c.utf8", "posix":
+	case "c", "c.utf-8", "c.utf8", "posix":
 		return "en"
 	}
 
@@ -146,9 +146,9 @@ func normalizeLang(lang string) string {
 		tm += "@" + modifier
 	}
 	if territory != "" {
-		if findLangIndex(lang+"_"+tm) < 0 {
+		if findLangIndex(lang+"-"+tm) < 0 {
 		} else {
-			return lang + "_" + tm
+			return lang + "-" + tm
 		}
 	}
 	if modifier != "" {
-- 
2.43.0


From abd756f416fe1698c65b3b8e2d5f333387bd3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:20 +0000
Subject: [PATCH 027/152] fix: read the default languages in the documented
 order

---
 fontconfig/fontconfig.go    | 20 +++++++-------------
 fontconfig/lang.go          | 22 +++++++++++-----------
 fontconfig/list.go          |  6 +-----
 fontconfig/substitutions.go |  2 +-
 4 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 41a1ad0..926954a 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -252,15 +252,15 @@ func WeightToOT(fcWeight float32) float32 {
 }
 
 var (
-	defaultLangs     strSet
+	defaultLangs     []string
 	defaultLangsLock sync.Mutex
 )
 
-// Returns a string set of the default languages according to the environment variables on the system.
+// Returns the list of the default languages according to the environment variables on the system.
 // This function looks for them in order of FC_LANG, LC_ALL, LC_CTYPE and LANG then.
 // If there are no valid values in those environment variables, "en" will be set as fallback.
 // Thus, it always returns at least one language.
-func getDefaultLangs() strSet {
+func getDefaultLangs() []string {
 	defaultLangsLock.Lock()
 	defer defaultLangsLock.Unlock()
 
@@ -268,9 +268,7 @@ func getDefaultLangs() strSet {
 		return defaultLangs
 	}
 
-	defaultLangs = make(strSet)
-
-	langs := os.Getenv("LANG")
+	langs := os.Getenv("FC_LANG")
 	if langs == "" {
 		langs = os.Getenv("LC_ALL")
 	}
@@ -280,13 +278,9 @@ func getDefaultLangs() strSet {
 	if langs == "" {
 		langs = os.Getenv("LANG")
 	}
-	if langs != "" {
-		ok := addLangs(defaultLangs, langs)
-		if !ok {
-			defaultLangs["en"] = true
-		}
-	} else {
-		defaultLangs["en"] = true
+	defaultLangs = normalizeLangs(langs)
+	if len(defaultLangs) == 0 {
+		defaultLangs = []string{"en"}
 	}
 
 	return defaultLangs
diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index d3906f1..1e431e2 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -437,22 +437,22 @@ func (ls Langset) Copy() Langset {
 	return new
 }
 
-// return true it at least one language has been added
-func addLangs(strs strSet, languages string) bool {
-	var ret bool
-	ls := strings.Split(languages, ":")
-	for _, lang := range ls {
+// return the normalized languages, without duplicates, in the order
+// of the given list
+func normalizeLangs(languages string) []string {
+	var out []string
+	seen := make(strSet)
+	for _, lang := range strings.Split(languages, ":") {
 		if lang == "" { // ignore an empty item
 			continue
 		}
-		normalizedLang := normalizeLang(lang)
-		if normalizedLang != "" {
-			strs[normalizedLang] = true
-			ret = true
+		lang = normalizeLang(lang)
+		if lang != "" && !seen[lang] {
+			seen[lang] = true
+			out = append(out, lang)
 		}
 	}
-
-	return ret
+	return out
 }
 
 // Keep Han languages separated by eliminating languages that the codePageRange bits says aren't supported
diff --git a/fontconfig/list.go b/fontconfig/list.go
index 3e2ff13..60122d6 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -119,11 +119,7 @@ func listProject(font Pattern, os []Object, lang string) Pattern {
 }
 
 func getDefaultLang() string {
-	langs := getDefaultLangs()
-	for s := range langs {
-		return s
-	}
-	return ""
+	return getDefaultLangs()[0]
 }
 
 // List selects fonts matching `p` (all if p is empty), creates patterns from those fonts containing
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b5b46dd..779e896 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -405,7 +405,7 @@ func substituteLang(p Pattern) {
 	var lsund Langset
 	lsund.add("und")
 
-	for lang := range strs {
+	for _, lang := range strs {
 		for _, ll := range p.getVals(LANG) {
 			vvL := ll.Value
 
-- 
2.43.0


From 5d205599201d7e21f2f8a40bf168adbecf91b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:31 +0000
Subject: [PATCH 028/152] fix: default substitution: accept an integer pixel
 size

---
 fontconfig/pattern.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 9167264..8e24770 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -471,7 +471,7 @@ func (pattern Pattern) SubstituteDefault() {
 		dpi = 75.0
 	}
 
-	if pixelSize := pattern.getVals(PIXEL_SIZE); len(pixelSize) == 0 {
+	if len(pattern.getVals(PIXEL_SIZE)) == 0 {
 		pattern.Del(SCALE)
 		pattern.AddFloat(SCALE, scale)
 		pixelsize := float32(size) * scale
@@ -480,8 +480,8 @@ func (pattern Pattern) SubstituteDefault() {
 		pixelsize *= dpi / 72.0
 		pattern.AddFloat(PIXEL_SIZE, pixelsize)
 	} else {
-		sizeF, _ := pixelSize[0].Value.(Float)
-		size = float32(sizeF) / dpi * 72.0 / scale
+		pixelSize, _ := pattern.GetFloat(PIXEL_SIZE)
+		size = pixelSize / dpi * 72.0 / scale
 	}
 	pattern.Del(SIZE)
 	pattern.AddFloat(SIZE, size)
-- 
2.43.0


From 8bf1fd1df29b49d066180a5b703a415b499c3adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 029/152] fix: a document which is not valid leaves the
 configuration unchanged

---
 fontconfig/xml.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index a18b6ab..ae2990e 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -17,14 +17,17 @@ func (config *Config) parseAndLoadFromMemory(filename string, content io.Reader)
 		fmt.Printf("Processing config file from %s", filename)
 	}
 
-	parser := newConfigParser(filename, config)
+	// work on a copy, so that an invalid document does not change the configuration
+	work := config.Copy()
+	parser := newConfigParser(filename, work)
 
 	err := xml.NewDecoder(content).Decode(parser)
 	if err != nil {
 		return fmt.Errorf("cannot process config file from %s: %s", filename, err)
 	}
 
-	config.subst = append(config.subst, parser.ruleset)
+	work.subst = append(work.subst, parser.ruleset)
+	*config = *work
 
 	return nil
 }
-- 
2.43.0


From 39ad6e851732b0ab12b5858aae611f6cae664358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 030/152] fix: reject the documents with content after the root
 element

---
 fontconfig/xml.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index ae2990e..f0fdb2f 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -21,7 +21,11 @@ func (config *Config) parseAndLoadFromMemory(filename string, content io.Reader)
 	work := config.Copy()
 	parser := newConfigParser(filename, work)
 
-	err := xml.NewDecoder(content).Decode(parser)
+	decoder := xml.NewDecoder(content)
+	err := decoder.Decode(parser)
+	if err == nil {
+		err = checkDocumentEnd(decoder)
+	}
 	if err != nil {
 		return fmt.Errorf("cannot process config file from %s: %s", filename, err)
 	}
@@ -32,6 +36,28 @@ func (config *Config) parseAndLoadFromMemory(filename string, content io.Reader)
 	return nil
 }
 
+// checks that the root element is only followed by spaces, comments,
+// directives and instructions
+func checkDocumentEnd(decoder *xml.Decoder) error {
+	for {
+		token, err := decoder.Token()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		switch token := token.(type) {
+		case xml.CharData:
+			if len(bytes.TrimSpace(token)) != 0 {
+				return errors.New("unexpected text after the root element")
+			}
+		case xml.StartElement:
+			return fmt.Errorf("unexpected element %s after the root element", token.Name.Local)
+		}
+	}
+}
+
 // compact form of a tag in xml file
 type elemTag uint8
 
-- 
2.43.0


From 851ec765889100180aa45d5bcfd1b3e6ac750bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:02 +0000
Subject: [PATCH 031/152] fix: only accept <fontconfig> as root element

---
 fontconfig/xml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index f0fdb2f..61374d9 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -342,6 +342,10 @@ func (parse *configParser) startElement(name xml.Name, attr []xml.Attr) error {
 		return parse.error("start element: %s", err)
 	}
 
+	if len(parse.pstack) == 0 && element != elementFontconfig {
+		return parse.error("unexpected root element %s", name.Local)
+	}
+
 	parse.pstackPush(element, attr)
 	return nil
 }
-- 
2.43.0


From 00814b6cd6c3ab9da2a78af1b6f89381dfdd1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 032/152] fix: reject the elements which are not expressions in
 <test>, <edit> and operators

---
 fontconfig/xml.go | 111 ++++++++++++++++++++++++++++------------------
 1 file changed, 68 insertions(+), 43 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 61374d9..32d8936 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -444,45 +444,45 @@ func (parser *configParser) endElement() error {
 	case elementConst:
 		parser.parseString(vstackConstant)
 	case elementOr:
-		parser.parseBinary(opOr)
+		err = parser.parseBinary(opOr)
 	case elementAnd:
-		parser.parseBinary(opAnd)
+		err = parser.parseBinary(opAnd)
 	case elementEq:
-		parser.parseBinary(opEqual)
+		err = parser.parseBinary(opEqual)
 	case elementNotEq:
-		parser.parseBinary(opNotEqual)
+		err = parser.parseBinary(opNotEqual)
 	case elementLess:
-		parser.parseBinary(opLess)
+		err = parser.parseBinary(opLess)
 	case elementLessEq:
-		parser.parseBinary(opLessEqual)
+		err = parser.parseBinary(opLessEqual)
 	case elementMore:
-		parser.parseBinary(opMore)
+		err = parser.parseBinary(opMore)
 	case elementMoreEq:
-		parser.parseBinary(opMoreEqual)
+		err = parser.parseBinary(opMoreEqual)
 	case elementContains:
-		parser.parseBinary(opContains)
+		err = parser.parseBinary(opContains)
 	case elementNotContains:
-		parser.parseBinary(opNotContains)
+		err = parser.parseBinary(opNotContains)
 	case elementPlus:
-		parser.parseBinary(opPlus)
+		err = parser.parseBinary(opPlus)
 	case elementMinus:
-		parser.parseBinary(opMinus)
+		err = parser.parseBinary(opMinus)
 	case elementTimes:
-		parser.parseBinary(opTimes)
+		err = parser.parseBinary(opTimes)
 	case elementDivide:
-		parser.parseBinary(opDivide)
+		err = parser.parseBinary(opDivide)
 	case elementIf:
-		parser.parseBinary(opQuest)
+		err = parser.parseBinary(opQuest)
 	case elementNot:
-		parser.parseUnary(opNot)
+		err = parser.parseUnary(opNot)
 	case elementFloor:
-		parser.parseUnary(opFloor)
+		err = parser.parseUnary(opFloor)
 	case elementCeil:
-		parser.parseUnary(opCeil)
+		err = parser.parseUnary(opCeil)
 	case elementRound:
-		parser.parseUnary(opRound)
+		err = parser.parseUnary(opRound)
 	case elementTrunc:
-		parser.parseUnary(opTrunc)
+		err = parser.parseUnary(opTrunc)
 	}
 	if err != nil {
 		return err
@@ -692,20 +692,21 @@ func (parser *configParser) newEdit(object Object, op opKind, expr *expression,
 	return e, err
 }
 
-func (parser *configParser) popExpr() *expression {
+// returns nil if there is no more values
+func (parser *configParser) popExpr() (*expression, error) {
 	var expr *expression
 	vstack := parser.v()
 	if vstack == nil {
-		return nil
+		return nil, nil
 	}
 	switch vstack.tag {
-	case vstackString, vstackFamily:
+	case vstackString:
 		expr = &expression{op: opString, u: vstack.u}
 	case vstackName:
 		expr = &expression{op: opField, u: vstack.u}
 	case vstackConstant:
 		expr = &expression{op: opConst, u: vstack.u}
-	case vstackPrefer, vstackAccept, vstackDefault:
+	case vstackFamily, vstackPrefer, vstackAccept, vstackDefault:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	case vstackInt:
@@ -722,12 +723,14 @@ func (parser *configParser) popExpr() *expression {
 		expr = &expression{op: opCharSet, u: vstack.u}
 	case vstackLangSet:
 		expr = &expression{op: opLangSet, u: vstack.u}
-	case vstackTest, vstackExpr:
+	case vstackExpr:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
+	default:
+		return nil, parser.error("invalid element in expression")
 	}
 	parser.vstackPop()
-	return expr
+	return expr, nil
 }
 
 // This builds a tree of binary operations. Note
@@ -737,17 +740,23 @@ func (parser *configParser) popExpr() *expression {
 //
 // This code reduces in that case to returning that
 // operand.
-func (parser *configParser) popBinary(op opKind) *expression {
+func (parser *configParser) popBinary(op opKind) (*expression, error) {
 	var expr *expression
 
-	for left := parser.popExpr(); left != nil; left = parser.popExpr() {
+	for {
+		left, err := parser.popExpr()
+		if err != nil {
+			return nil, err
+		}
+		if left == nil {
+			return expr, nil
+		}
 		if expr != nil {
 			expr = newExprOp(left, expr, op)
 		} else {
 			expr = left
 		}
 	}
-	return expr
 }
 
 func (parser *configParser) pushExpr(tag vstackTag, expr *expression) {
@@ -756,20 +765,28 @@ func (parser *configParser) pushExpr(tag vstackTag, expr *expression) {
 	vstack.tag = tag
 }
 
-func (parser *configParser) parseBinary(op opKind) {
-	expr := parser.popBinary(op)
+func (parser *configParser) parseBinary(op opKind) error {
+	expr, err := parser.popBinary(op)
+	if err != nil {
+		return err
+	}
 	if expr != nil {
 		parser.pushExpr(vstackExpr, expr)
 	}
+	return nil
 }
 
 // This builds a a unary operator, it consumes only a single operand
-func (parser *configParser) parseUnary(op opKind) {
-	operand := parser.popExpr()
+func (parser *configParser) parseUnary(op opKind) error {
+	operand, err := parser.popExpr()
+	if err != nil {
+		return err
+	}
 	if operand != nil {
 		expr := newExprOp(operand, nil, op)
 		parser.pushExpr(vstackExpr, expr)
 	}
+	return nil
 }
 
 func (parser *configParser) parseInt() error {
@@ -868,15 +885,17 @@ func (parser *configParser) parseName() error {
 func (parser *configParser) parseMatrix() error {
 	var m exprMatrix
 
-	m.yy = parser.popExpr()
-	m.yx = parser.popExpr()
-	m.xy = parser.popExpr()
-	m.xx = parser.popExpr()
-
-	if m.yy == nil || m.yx == nil || m.xy == nil || m.xx == nil {
-		return parser.error("Missing values in matrix element")
+	for _, elt := range [...]**expression{&m.yy, &m.yx, &m.xy, &m.xx} {
+		expr, err := parser.popExpr()
+		if err != nil {
+			return err
+		}
+		if expr == nil {
+			return parser.error("Missing values in matrix element")
+		}
+		*elt = expr
 	}
-	if parser.popExpr() != nil {
+	if parser.v() != nil {
 		return errors.New("wrong number of matrix elements")
 	}
 
@@ -1110,7 +1129,10 @@ func (parser *configParser) parseTest() error {
 			flags |= opFlagIgnoreBlanks
 		}
 	}
-	expr := parser.popBinary(opComma)
+	expr, err := parser.popBinary(opComma)
+	if err != nil {
+		return err
+	}
 	if expr == nil {
 		return parser.error("missing test expression")
 	}
@@ -1154,7 +1176,10 @@ func (parser *configParser) parseEdit() error {
 		return err
 	}
 
-	expr := parser.popBinary(opComma)
+	expr, err := parser.popBinary(opComma)
+	if err != nil {
+		return err
+	}
 	if (mode == opDelete || mode == opDeleteAll) && expr != nil {
 		return parser.error("Expression doesn't take any effects for delete and delete_all")
 	}
-- 
2.43.0


From f3b92e61da0adaa2d8ccfb49deeb3752fa8c8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 033/152] fix: <if> requires three expressions

---
 fontconfig/xml.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 32d8936..7d855dd 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -472,7 +472,7 @@ func (parser *configParser) endElement() error {
 	case elementDivide:
 		err = parser.parseBinary(opDivide)
 	case elementIf:
-		err = parser.parseBinary(opQuest)
+		err = parser.parseIf()
 	case elementNot:
 		err = parser.parseUnary(opNot)
 	case elementFloor:
@@ -776,6 +776,14 @@ func (parser *configParser) parseBinary(op opKind) error {
 	return nil
 }
 
+// <if> takes exactly three expressions
+func (parser *configParser) parseIf() error {
+	if n := len(parser.p().values); n != 3 {
+		return parser.error("wrong number %d of elements in if", n)
+	}
+	return parser.parseBinary(opQuest)
+}
+
 // This builds a a unary operator, it consumes only a single operand
 func (parser *configParser) parseUnary(op opKind) error {
 	operand, err := parser.popExpr()
-- 
2.43.0


From ebe1cc64f5a54508b6d2947f91a146f885fb46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 034/152] fix: ranges from an integer to a float keep their
 start

---
 fontconfig/xml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 7d855dd..2891091 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -932,8 +932,8 @@ func (parser *configParser) parseRange() error {
 				n[i] = int(vstack.u.(Int))
 			}
 		case vstackDouble:
-			if i == 0 && !dflag {
-				d[1] = float32(n[1])
+			if i == 1 && !dflag {
+				d[0] = float32(n[0])
 			}
 			d[i] = float32(vstack.u.(Float))
 			dflag = true
-- 
2.43.0


From 3a0af5d153d4729071ad04395f0491ed061cb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 035/152] fix: reject the integers out of range

---
 fontconfig/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 2891091..43c9897 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -805,7 +805,7 @@ func (parser *configParser) parseInt() error {
 	s := last.str.String()
 	last.str.Reset()
 
-	d, err := strconv.Atoi(s)
+	d, err := strconv.ParseInt(s, 10, 32)
 	if err != nil {
 		return fmt.Errorf("\"%s\": not a valid Int", s)
 	}
-- 
2.43.0


From 15eecb248c6ad0e6010d8a6de43430b989ca8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 036/152] fix: reject the invalid characters in <charset>

---
 fontconfig/xml.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 43c9897..e76d4c7 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -972,7 +972,7 @@ func (parser *configParser) parseCharSet() error {
 		switch vstack.tag {
 		case vstackInt:
 			r := rune(vstack.u.(Int))
-			if r > maxCharsetRune {
+			if r < 0 || r > maxCharsetRune {
 				return parser.error("invalid character: 0x%04x", r)
 			} else {
 				charset.AddChar(r)
@@ -980,15 +980,12 @@ func (parser *configParser) parseCharSet() error {
 			}
 		case vstackRange:
 			ra := vstack.u.(Range)
-			if ra.Begin <= ra.End {
-				for r := rune(ra.Begin); r <= rune(ra.End); r++ {
-					if r > maxCharsetRune {
-						return parser.error("invalid character: 0x%04x", r)
-					} else {
-						charset.AddChar(r)
-						n++
-					}
-				}
+			if !(0 <= ra.Begin && ra.End <= maxCharsetRune) {
+				return parser.error("invalid range of characters: %v", ra)
+			}
+			for r := rune(ra.Begin); r <= rune(ra.End); r++ {
+				charset.AddChar(r)
+				n++
 			}
 		default:
 			return errors.New("invalid element in charset")
-- 
2.43.0


From 354cc0fa6373ce462c95475a455bf26c9f475e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 037/152] fix: reject the invalid constants and types in
 <patelt>

---
 fontconfig/xml.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index e76d4c7..907b650 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -1248,6 +1248,9 @@ func (parser *configParser) parsePatelt() error {
 		if value == nil {
 			break
 		}
+		if !ot.object.hasValidType(value) {
+			return parser.error("pattern object %s does not accept value %v", name, value)
+		}
 		pattern.Add(ot.object, value, true)
 	}
 
@@ -1269,9 +1272,11 @@ func (parser *configParser) popValue() (Value, error) {
 		vstackCharSet, vstackLangSet, vstackRange:
 		value = vstack.u.(Value)
 	case vstackConstant:
-		if i, ok := nameConstant(vstack.u.(String)); ok {
-			value = Int(i)
+		i, ok := nameConstant(vstack.u.(String))
+		if !ok {
+			return nil, parser.error("invalid constant used : %s", vstack.u)
 		}
+		value = Int(i)
 	default:
 		return nil, parser.error("unknown pattern element %d", vstack.tag)
 	}
-- 
2.43.0


From 8d378af68bb72644b59a450b02a288cde1980527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 038/152] fix: ScanFontFile and ScanFontRessource apply the
 font selectors

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2b36b1a..772fe6f 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -193,7 +193,7 @@ func (config *Config) ScanFontRessource(content fonts.Resource, contentID string
 			out = append(out, f)
 		}
 	}
-	return fonts, nil
+	return out, nil
 }
 
 // Recursively scan a directory and build the font patterns,
-- 
2.43.0


From 7c611c500867ded51a629424589a0dbd5f53217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:07 +0000
Subject: [PATCH 039/152] fix: ignore the code points mapped to the missing
 glyph when scanning fonts

---
 fontconfig/scan.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index cc8369a..c822471 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1970,6 +1970,9 @@ func getSpacing(face fonts.Face) int32 {
 	iter := cmap.Iter()
 	for iter.Next() && len(advances) < 3 {
 		_, glyph := iter.Char()
+		if glyph == 0 { // not a mapped character, see getCharSet
+			continue
+		}
 		advance := int(face.HorizontalAdvance(glyph))
 		if advance != 0 {
 			// add if not already found
@@ -2010,7 +2013,10 @@ func getCharSet(face fonts.Face) (Charset, fonts.CmapEncoding) {
 	)
 	iter := cmap.Iter()
 	for iter.Next() {
-		ucs4, _ := iter.Char()
+		ucs4, glyph := iter.Char()
+		if glyph == 0 { // mapped to the missing glyph
+			continue
+		}
 
 		/* CID fonts built by Adobe used to make ASCII control chars to cid1
 		 * (space glyph). As such, always check contour for those characters. */
-- 
2.43.0


From ecc544132dd9bf56ef207ee7567c46c427f10b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 040/152] fix: do not read past the end of a style name when
 looking for words

---
 fontconfig/scan.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index c822471..d1a3d66 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1079,12 +1079,11 @@ func isPunct(c byte) bool {
 // Does s1 contain an instance of s2 on a word boundary (ignoring case)?
 func containsWord(s1, s2 []byte) bool {
 	wordStart := true
-	s1len := len(s1)
 	s2len := len(s2)
 
 	for len(s1) >= len(s2) {
 		if wordStart && bytes.HasPrefix(bytes.ToLower(s1), bytes.ToLower(s2)) &&
-			(s1len == s2len || isPunct(s1[s2len])) {
+			(len(s1) == s2len || isPunct(s1[s2len])) {
 			return true
 		}
 		wordStart = false
-- 
2.43.0


From 98a453718663ecc65e6fb181ab12c0b58c8d28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 041/152] fix: scan all the languages of the font names

---
 fontconfig/scan.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index d1a3d66..a5b3594 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1319,10 +1319,10 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 		varCoords             []float32 // in normalized coordinates
 		weightMult, widthMult float32   = 1., 1.
 
-		foundry                                                                       string
-		nameCount, nfamily, nfamilyLang, nstyle, nstyleLang, nfullname, nfullnameLang int
-		exclusiveLang                                                                 string
-		decorative                                                                    bool
+		foundry                                                            string
+		nfamily, nfamilyLang, nstyle, nstyleLang, nfullname, nfullnameLang int
+		exclusiveLang                                                      string
+		decorative                                                         bool
 	)
 
 	pat := NewPattern()
@@ -1487,10 +1487,11 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				lang       string
 			)
 
-			for do := true; do; {
+			for ; nameidx < len(nameMappings); nameidx++ {
 				sname = names[nameMappings[nameidx].idx]
-				do = nameidx < nameCount && platform == sname.PlatformID && lookupid == sname.NameID
-				nameidx++
+				if platform != sname.PlatformID || lookupid != sname.NameID {
+					break
+				}
 
 				switch nameid {
 				case truetype.NameWWSFamily, truetype.NamePreferredFamily, truetype.NameFontFamily:
-- 
2.43.0


From 21ff4a229590bcc6d2292aa36d5fd2523027753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 042/152] fix: use the base name of the file as family for
 fonts without name

---
 fontconfig/scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index a5b3594..88448fa 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1595,9 +1595,9 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 	}
 
 	if nfamily == 0 && file != "" {
-		start := strings.IndexByte(file, '/')
-		end := strings.IndexByte(file, '.')
-		if end == -1 {
+		start := strings.LastIndexByte(file, '/')
+		end := strings.LastIndexByte(file, '.')
+		if end <= start {
 			end = len(file)
 		}
 		family := file[start+1 : end]
-- 
2.43.0


From 8e1860baf1b574771077d0501add1bda9a7d20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:33 +0000
Subject: [PATCH 043/152] fix: decode the PRC names with the 8-bit encoding

---
 fontconfig/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 88448fa..62dc1aa 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -913,7 +913,7 @@ var fcFtEncoding = [...]struct {
 	{unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), truetype.PlatformMicrosoft, truetype.PEMicrosoftSymbolCs},
 	{unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), truetype.PlatformMicrosoft, truetype.PEMicrosoftUnicodeCs},
 	{japanese.ShiftJIS, truetype.PlatformMicrosoft, msIdSjis},
-	{simplifiedchinese.HZGB2312, truetype.PlatformMicrosoft, msIdPrc},
+	{simplifiedchinese.GBK, truetype.PlatformMicrosoft, msIdPrc},
 	{traditionalchinese.Big5, truetype.PlatformMicrosoft, msIdBig_5},
 	{korean.EUCKR, truetype.PlatformMicrosoft, msIdWansung},
 	// {truetype.PlatformMicrosoft, msIdJohab, "Johab"}, // Johab is not supported by golang.x/text/encoding
-- 
2.43.0


From 0c2c32dbea0fc53076a68d919d583f1ea03696d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 044/152] fix: use the subfamily name of the named instances as
 style

---
 fontconfig/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 62dc1aa..4d7bba0 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1473,7 +1473,7 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				}
 
 				if nameid == truetype.NameFontSubfamily {
-					lookupid = instance.PSStringID
+					lookupid = instance.Subfamily
 				}
 			}
 
-- 
2.43.0


From 98e71a876c8f57fe958e770d94fadba24741c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:35 +0000
Subject: [PATCH 045/152] fix: read the PostScript name of TrueType fonts in
 the right entry of the name table

---
 fontconfig/scan.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 4d7bba0..41baf33 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1278,6 +1278,35 @@ var (
 	opsz = truetype.MustNewTag("opsz")
 )
 
+// return the PostScript name, looking for Windows entries (preferably in English), then Apple ones
+func namePostscript(names truetype.TableName) string {
+	var windows, mac *truetype.NameEntry
+	for i := range names {
+		e := &names[i]
+		if e.NameID != truetype.NamePostscript {
+			continue
+		}
+		switch {
+		case e.PlatformID == truetype.PlatformMicrosoft &&
+			(e.EncodingID == truetype.PEMicrosoftUnicodeCs || e.EncodingID == truetype.PEMicrosoftSymbolCs):
+			if windows == nil || isEnglish(e.PlatformID, e.LanguageID) {
+				windows = e
+			}
+		case e.PlatformID == truetype.PlatformMac && e.EncodingID == truetype.PEMacRoman:
+			if mac == nil || isEnglish(e.PlatformID, e.LanguageID) {
+				mac = e
+			}
+		}
+	}
+	if windows != nil {
+		return nameTranscode(*windows)
+	}
+	if mac != nil {
+		return nameTranscode(*mac)
+	}
+	return ""
+}
+
 func hasHint(face *truetype.Font) bool { return face.HasHint }
 
 // see `loaders`
@@ -1612,6 +1641,9 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 	// Add the PostScript name into the cache
 	if !variable {
 		psname := face.PoscriptName()
+		if names != nil {
+			psname = namePostscript(names)
+		}
 		if psname == "" {
 			/* Workaround when PoscriptName didn't give any name.
 			* try to find out the English family name and convert. */
-- 
2.43.0


From fadc42b8dc5746eb98c39286583d50fe649cb0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:10 +0000
Subject: [PATCH 046/152] fix: look for the English style from the first one to
 build the full name

---
 fontconfig/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 8e24770..bc8b77d 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -336,7 +336,7 @@ func (pat Pattern) addFullname() bool {
 		return false
 	}
 	family = strings.TrimRightFunc(family, unicode.IsSpace)
-	lang = ""
+	n = 0
 	lang, res = pat.getAtString(STYLELANG, n)
 	for ; res == ResultMatch; lang, res = pat.getAtString(STYLELANG, n) {
 		if lang == "en" {
-- 
2.43.0


From e4afb0735e220385a752c79570c10cde4e50184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:57 +0000
Subject: [PATCH 047/152] fix: do not scan twice a directory given with a
 trailing slash

---
 fontconfig/config.go       | 1 +
 fontconfig/partial_scan.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 772fe6f..f5a0b36 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -212,6 +212,7 @@ func (config *Config) readDir(dir string, seen strSet) (Fontset, error) {
 			return fmt.Errorf("invalid font location: %s", err)
 		}
 		if info.IsDir() { // keep going
+			path = filepath.Clean(path) // the root is used as it is given
 			if seen[path] {
 				return filepath.SkipDir
 			}
diff --git a/fontconfig/partial_scan.go b/fontconfig/partial_scan.go
index a16d1ed..2d861c1 100644
--- a/fontconfig/partial_scan.go
+++ b/fontconfig/partial_scan.go
@@ -53,6 +53,7 @@ func partialReadDir(dir string, seen map[string]bool, dst []fonts.FaceDescriptio
 		}
 
 		if info.IsDir() { // keep going
+			path = filepath.Clean(path) // the root is used as it is given
 			if seen[path] {
 				return filepath.SkipDir
 			}
-- 
2.43.0


From 996efca08f911eb29364041a3f722d3103a3f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:09 +0000
Subject: [PATCH 048/152] fix: fontconfig: stop at invalid code points in the
 cmap of corrupted fonts

---
 fontconfig/scan.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 41baf33..26f0e7c 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/benoitkugler/textlayout/fonts"
 	"github.com/benoitkugler/textlayout/fonts/bitmap"
@@ -2001,7 +2002,10 @@ func getSpacing(face fonts.Face) int32 {
 	advances := make([]int, 0, 3)
 	iter := cmap.Iter()
 	for iter.Next() && len(advances) < 3 {
-		_, glyph := iter.Char()
+		ucs4, glyph := iter.Char()
+		if ucs4 < 0 || ucs4 > utf8.MaxRune { // invalid cmap, see getCharSet
+			break
+		}
 		if glyph == 0 { // not a mapped character, see getCharSet
 			continue
 		}
@@ -2046,6 +2050,10 @@ func getCharSet(face fonts.Face) (Charset, fonts.CmapEncoding) {
 	iter := cmap.Iter()
 	for iter.Next() {
 		ucs4, glyph := iter.Char()
+		if ucs4 < 0 || ucs4 > utf8.MaxRune {
+			// the table is corrupted: do not walk through its (maybe billions of) invalid entries
+			break
+		}
 		if glyph == 0 { // mapped to the missing glyph
 			continue
 		}
-- 
2.43.0


From ffc42478c14267398322315903a2c4035960196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:18 +0000
Subject: [PATCH 049/152] fix: fontconfig: ignore the corrupted font files
 which make the parsers panic

---
 fontconfig/scan.go | 51 ++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 26f0e7c..2a76769 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -62,13 +62,44 @@ func scanOneFontFile(file fonts.Resource, fileID string, config *Config) Fontset
 		fmt.Printf("Scanning file %s...\n", file)
 	}
 
+	set := queryFontFile(file, fileID)
+
+	for _, font := range set {
+		// Edit pattern with user-defined rules
+		config.Substitute(font, nil, MatchScan)
+
+		font.addFullname()
+
+		if debugMode {
+			fmt.Println("Final font pattern:", font)
+			fmt.Println()
+		}
+	}
+
+	if debugMode {
+		fmt.Printf("Done. (found %d faces)\n\n", len(set))
+	}
+
+	return set
+}
+
+// read the faces of `file`, and build their patterns.
+func queryFontFile(file fonts.Resource, fileID string) (set Fontset) {
+	// the font parsers do not detect every kind of corrupted file
+	defer func() {
+		if err := recover(); err != nil {
+			if debugMode {
+				fmt.Printf("invalid font file %s: %v\n", fileID, err)
+			}
+			set = nil
+		}
+	}()
+
 	faces, format := ReadFontFile(file)
 	if format == "" {
 		return nil
 	}
 
-	var set Fontset
-
 	for faceNum, face := range faces {
 		var pat Pattern
 
@@ -98,22 +129,6 @@ func scanOneFontFile(file fonts.Resource, fileID string, config *Config) Fontset
 		}
 	}
 
-	for _, font := range set {
-		// Edit pattern with user-defined rules
-		config.Substitute(font, nil, MatchScan)
-
-		font.addFullname()
-
-		if debugMode {
-			fmt.Println("Final font pattern:", font)
-			fmt.Println()
-		}
-	}
-
-	if debugMode {
-		fmt.Printf("Done. (found %d faces)\n\n", len(faces))
-	}
-
 	return set
 }
 
-- 
2.43.0


From e83460421f8b6e9461f3e609f0d8480428d10872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 050/152] fix: AttrList.Change replaces all the attributes of
 the same type on the segment

---
 pango/attributes.go | 106 +++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 66 deletions(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ea81b2..938a317 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -776,87 +776,61 @@ func (list *AttrList) Change(attr *Attribute) {
 		return
 	}
 
-	if len(*list) == 0 {
-		list.Insert(attr)
-		return
-	}
-
-	var i, p int
-	inserted := false
-	for i, p = 0, len(*list); i < p; i++ {
-		tmp_attr := (*list)[i]
-
-		if tmp_attr.StartIndex > startIndex {
-			list.insertAt(i, attr)
-			inserted = true
-			break
-		}
-
-		if tmp_attr.Kind != attr.Kind {
+	// Clear the segment from the attributes of the same type.
+	var kept, ends AttrList // `ends` are the parts after the segment
+	for _, tmpAttr := range *list {
+		if tmpAttr.Kind != attr.Kind || tmpAttr.EndIndex <= startIndex || tmpAttr.StartIndex >= endIndex {
+			kept = append(kept, tmpAttr) // this attr does not overlap with the new one
 			continue
 		}
 
-		if tmp_attr.EndIndex < startIndex {
-			continue /* This attr does not overlap with the new one */
+		if tmpAttr.EndIndex > endIndex {
+			endAttr := tmpAttr.copy()
+			endAttr.StartIndex = endIndex
+			ends = append(ends, endAttr)
 		}
 
-		// tmp_attr.StartIndex <= startIndex
-		// tmp_attr.EndIndex >= startIndex
-
-		if tmp_attr.equals(*attr) { // We can merge the new attribute with this attribute
-			if tmp_attr.EndIndex >= endIndex {
-				// We are totally overlapping the previous attribute.
-				// No action is needed.
-				return
-			}
-			tmp_attr.EndIndex = endIndex
-			attr = tmp_attr
-			inserted = true
+		if tmpAttr.StartIndex < startIndex {
+			tmpAttr.EndIndex = startIndex
+			kept = append(kept, tmpAttr)
+		}
+	}
+	*list = kept
+
+	// The attributes starting before the segment have a lower priority than
+	// the ones of the same type starting at its end.
+	pos := 0
+	for pos < len(*list) {
+		tmpAttr := (*list)[pos]
+		if tmpAttr.StartIndex > endIndex || (tmpAttr.StartIndex == endIndex && tmpAttr.Kind == attr.Kind) {
 			break
-		} else { // Split, truncate, or remove the old attribute
-			if tmp_attr.EndIndex > endIndex {
-				end_attr := tmp_attr.copy()
-				end_attr.StartIndex = endIndex
-				list.Insert(end_attr)
-			}
-
-			if tmp_attr.StartIndex == startIndex {
-				list.remove(i)
-				break
-			} else {
-				tmp_attr.EndIndex = startIndex
-			}
 		}
+		pos++
 	}
-
-	if !inserted { // we didn't insert attr yet
-		list.Insert(attr)
-		return
+	for i, endAttr := range ends {
+		list.insertAt(pos+i, endAttr)
 	}
 
-	/* We now have the range inserted into the list one way or the
-	* other. Fix up the remainder */
-	/* Attention: No i = 0 here. */
-	for i, p = i+1, len(*list); i < p; i++ {
-		tmp_attr := (*list)[i]
-
-		if tmp_attr.StartIndex > endIndex {
+	// Merge the new attribute with the one starting at its end.
+	for i, tmpAttr := range *list {
+		if tmpAttr.Kind == attr.Kind && tmpAttr.StartIndex == endIndex && tmpAttr.EndIndex > endIndex {
+			if tmpAttr.equals(*attr) {
+				attr.EndIndex = tmpAttr.EndIndex
+				list.remove(i)
+			}
 			break
 		}
+	}
 
-		if tmp_attr.Kind != attr.Kind {
-			continue
-		}
-
-		if tmp_attr.EndIndex <= attr.EndIndex || tmp_attr.equals(*attr) {
-			/* We can merge the new attribute with this attribute. */
-			attr.EndIndex = max(endIndex, tmp_attr.EndIndex)
-			list.remove(i)
-			i--
-			p--
-			continue
+	// Merge the new attribute with one ending at its start.
+	for _, tmpAttr := range *list {
+		if tmpAttr.EndIndex == startIndex && tmpAttr.StartIndex < startIndex && tmpAttr.equals(*attr) {
+			tmpAttr.EndIndex = attr.EndIndex
+			return
 		}
 	}
+
+	list.Insert(attr)
 }
 
 // Checks whether `list` and `otherList` contain the same attributes and
-- 
2.43.0


From a6c6818f94d921c14d64dacc63cd43cd285f2655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 051/152] fix: reject signs in hexadecimal colors

---
 pango/color.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/color.go b/pango/color.go
index 73c7ef0..eaabde4 100644
--- a/pango/color.go
+++ b/pango/color.go
@@ -43,21 +43,21 @@ func pango_color_parse_with_alpha(spec string, withAlpha bool) (AttrColor, uint1
 		}
 		spec = spec[1:]
 
-		r, err := strconv.ParseInt(spec[0:len], 16, 32)
+		r, err := strconv.ParseUint(spec[0:len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		g, err := strconv.ParseInt(spec[len:2*len], 16, 32)
+		g, err := strconv.ParseUint(spec[len:2*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		b, err := strconv.ParseInt(spec[2*len:3*len], 16, 32)
+		b, err := strconv.ParseUint(spec[2*len:3*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
 
 		if has_alpha {
-			a, err := strconv.ParseInt(spec[3*len:4*len], 16, 32)
+			a, err := strconv.ParseUint(spec[3*len:4*len], 16, 32)
 			if err != nil {
 				return AttrColor{}, 0, false
 			}
-- 
2.43.0


From c46fd0323bf5d80882d8a289612ac330ed126b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 052/152] fix: accept the documented numeric weights in markup

---
 pango/fonts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index f205fd4..01ce712 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -470,6 +470,11 @@ func pango_parse_variant(str string) (Variant, bool) {
 // and integers. Case variations are ignored.
 func pango_parse_weight(str string) (Weight, bool) {
 	i, b := weight_map.parse_field(str)
+	if !b {
+		var err error
+		i, err = strconv.Atoi(str)
+		b = err == nil
+	}
 	return Weight(i), b
 }
 
-- 
2.43.0


From c1d1aa858e9a405436d92a7b0cd746f79928f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 053/152] fix: read the value of the font_scale markup
 attribute

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 4668c94..3619234 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1227,7 +1227,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if fontScale != "" {
-		fs, err := spanParseEnum("font_scale", baselineShift, fontScaleMap)
+		fs, err := spanParseEnum("font_scale", fontScale, fontScaleMap)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 127ee22bd83cb1e9d52fb48ece82c0f84e065c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 054/152] fix: keep the tags which follow an accelerator in
 markup

---
 pango/markup.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 3619234..1bb0cfb 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -51,10 +51,6 @@ type markupData struct {
 }
 
 func (md *markupData) openTag() *openTag {
-	if len(md.attr_list) != 0 {
-		return nil
-	}
-
 	var parent *openTag
 	if len(md.tag_stack) != 0 {
 		parent = md.tag_stack[0]
-- 
2.43.0


From dd1839fe2e7b219e186ba0c3231ae672d2adccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 055/152] fix: understand all the documented gravity words in
 font descriptions

---
 pango/fonts.go   |  2 +-
 pango/gravity.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 01ce712..2bf5f57 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -442,7 +442,7 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetVariant(Variant(v))
 		return true
 	}
-	if v, ok := GravityMap.FromString(str); ok {
+	if v, ok := gravityWords.FromString(str); ok {
 		desc.SetGravity(Gravity(v))
 		return true
 	}
diff --git a/pango/gravity.go b/pango/gravity.go
index 799557b..d491af5 100644
--- a/pango/gravity.go
+++ b/pango/gravity.go
@@ -29,10 +29,18 @@ var GravityMap = enumMap{
 	{value: int(GRAVITY_NORTH), str: "north"},
 	{value: int(GRAVITY_WEST), str: "west"},
 	{value: int(GRAVITY_AUTO), str: "auto"},
-	// {value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
-	// {value: int(GRAVITY_NORTH), str: "Upside-Down"},
-	// {value: int(GRAVITY_EAST), str: "Rotated-Left"},
-	// {value: int(GRAVITY_WEST), str: "Rotated-Right"},
+}
+
+// gravityWords are the words accepted in the font descriptions
+var gravityWords = enumMap{
+	{value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
+	{value: int(GRAVITY_SOUTH), str: "South"},
+	{value: int(GRAVITY_NORTH), str: "Upside-Down"},
+	{value: int(GRAVITY_NORTH), str: "North"},
+	{value: int(GRAVITY_EAST), str: "Rotated-Left"},
+	{value: int(GRAVITY_EAST), str: "East"},
+	{value: int(GRAVITY_WEST), str: "Rotated-Right"},
+	{value: int(GRAVITY_WEST), str: "West"},
 }
 
 // IsVertical returns whether `g` represents vertical writing directions.
-- 
2.43.0


From e1c3f868c16656b94058b77063224b52e24c56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 056/152] fix: do not keep the comma terminating the families
 of a font description

---
 pango/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 2bf5f57..34f99fa 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -408,7 +408,7 @@ func NewFontDescriptionFrom(str string) FontDescription {
 
 	// Remainder is family list. Trim off trailing commas and leading and trailing white space
 	if len(fields) != 0 {
-		families := strings.Split(strings.Join(fields, " "), ",")
+		families := strings.Split(strings.TrimSuffix(strings.Join(fields, " "), ","), ",")
 		/* Now sanitize it to trim space from around individual family names.
 		* bug #499624 */
 		for i, f := range families {
-- 
2.43.0


From 05577f6a5f4c63a3e842abe0f3017437ecdcf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 057/152] fix: a font without size in markup does not change
 the base size

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 1bb0cfb..aebcd01 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -996,7 +996,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	if desc != "" {
 		parsed := NewFontDescriptionFrom(desc)
 		tag.addAttribute(NewAttrFontDescription(parsed))
-		if tag != nil {
+		if tag != nil && parsed.mask&FmSize != 0 {
 			tag.setAbsoluteFontSize(parsed.Size)
 		}
 	}
-- 
2.43.0


From 3e12b69f7d42ba4221fcd5ecadb5e49bb5e281fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 058/152] fix: markup sizes relative to a size in pixels are in
 pixels

---
 pango/markup.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango/markup.go b/pango/markup.go
index aebcd01..f421ad0 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -65,6 +65,7 @@ func (md *markupData) openTag() *openTag {
 		ot.baseScaleFactor = parent.baseScaleFactor
 		ot.baseFontSize = parent.baseFontSize
 		ot.hasBaseFontSize = parent.hasBaseFontSize
+		ot.inDeviceUnits = parent.inDeviceUnits
 		ot.scaleLevel = parent.scaleLevel
 	}
 
@@ -103,6 +104,9 @@ func (md *markupData) endElementHandler() {
 			// Create a font using the absolute point size
 			// as the base size to be scaled from
 			a = NewAttrSize(int(ot.scaleLevel.scaleFactor(1.0) * Fl(ot.baseFontSize)))
+			if ot.inDeviceUnits {
+				a.Kind = ATTR_ABSOLUTE_SIZE
+			}
 		} else {
 			// Create a font using the current scale factor
 			// as the base size to be scaled from
@@ -269,6 +273,7 @@ type openTag struct {
 	 */
 	scaleLevel      sizeLevel
 	hasBaseFontSize bool // = 1;
+	inDeviceUnits   bool // the base font size is not in points
 }
 
 func (ot *openTag) addAttribute(attr *Attribute) {
@@ -288,6 +293,7 @@ func (ot *openTag) setAbsoluteFontScale(scale Fl) {
 func (ot *openTag) setAbsoluteFontSize(fontSize int32) {
 	ot.baseFontSize = fontSize
 	ot.hasBaseFontSize = true
+	ot.inDeviceUnits = false
 	ot.scaleLevel = 0
 	ot.scaleLevelDelta = 0
 }
@@ -998,6 +1004,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 		tag.addAttribute(NewAttrFontDescription(parsed))
 		if tag != nil && parsed.mask&FmSize != 0 {
 			tag.setAbsoluteFontSize(parsed.Size)
+			tag.inDeviceUnits = parsed.SizeIsAbsolute
 		}
 	}
 
-- 
2.43.0


From f51105b8f4e9feea736bf9a736067cee1a914fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 059/152] fix: the size of a markup tag overrides its font
 description

---
 pango/markup.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index f421ad0..5a90840 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -116,7 +116,8 @@ func (md *markupData) endElementHandler() {
 		a.StartIndex = ot.startIndex
 		a.EndIndex = md.index
 
-		md.to_apply.insertAt(0, a)
+		// after the other attributes of the tag: it overrides its font description
+		md.to_apply.insertAt(L, a)
 	}
 }
 
-- 
2.43.0


From 99f0026ebfcf7b82de8c3fa3ff5d682defa45c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 060/152] fix: reject content after the end of the markup

---
 pango/markup.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 5a90840..19f1d76 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1,6 +1,7 @@
 package pango
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -508,10 +509,14 @@ func ParseMarkup(markupText []byte, accelMarker rune) (ParsedMarkup, error) {
 	nested := append(append([]byte("<markup>"), markupText...), "</markup>"...)
 
 	context := newParser(accelMarker)
-	err := xml.Unmarshal(nested, context)
+	decoder := xml.NewDecoder(bytes.NewReader(nested))
+	err := decoder.Decode(context)
 	if err != nil {
 		return ParsedMarkup{}, err
 	}
+	if decoder.InputOffset() != int64(len(nested)) {
+		return ParsedMarkup{}, fmt.Errorf("Unexpected content after the closing </markup> tag")
+	}
 
 	return markupParserFinish(context), nil
 }
-- 
2.43.0


From f8f5c43a266515d3b85a71c8e3cdc89d2f9925c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 061/152] fix: reject tags and attributes with a prefix in
 markup

---
 pango/markup.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 19f1d76..5ceee57 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -222,9 +222,20 @@ func (md *markupData) textHandler(text []rune) {
 	md.index += len(text) - rangeStart
 }
 
+// qualifiedName includes the prefix: the markup does not use name spaces
+func qualifiedName(name xml.Name) string {
+	if name.Space == "" {
+		return name.Local
+	}
+	return name.Space + ":" + name.Local
+}
+
 func (n *markupData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	// start by handling the new element
-	err := n.startElementHandler(start.Name.Local, start.Attr)
+	for i, attr := range start.Attr {
+		start.Attr[i].Name.Local = qualifiedName(attr.Name)
+	}
+	err := n.startElementHandler(qualifiedName(start.Name), start.Attr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 283a96f9dbd1876b9e300f8102d930ebec284335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 062/152] fix: reject empty values of the markup attributes

---
 pango/markup.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pango/markup.go b/pango/markup.go
index 5ceee57..9f1a435 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1013,6 +1013,15 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 		default:
 			return fmt.Errorf("Attribute '%s' is not allowed on the <span> tag on line %d char %d", newAttrName, lineColNumber, lineColNumber)
 		}
+
+		if attr.Value == "" {
+			switch newAttrName {
+			case "font", "font_desc", "face", "font_family", "font_features", "lang":
+				// the empty string is valid
+			default:
+				return fmt.Errorf("Value of '%s' attribute on <span> tag on line %d may not be empty", newAttrName, lineColNumber)
+			}
+		}
 	}
 
 	// Parse desc first, then modify it with other font-related attributes.
-- 
2.43.0


From a7b5f3ca859b2893e91fc79790f2e6e7ddf046e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 063/152] fix: reject sizes, lengths and line heights which are
 not finite or not positive in markup

---
 pango/markup.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 9f1a435..39ff2d3 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -602,7 +603,7 @@ func parsePercentage(input string) (Fl, bool) {
 	}
 	input = strings.TrimSuffix(input, "%")
 	out, err := strconv.ParseFloat(input, 32)
-	return Fl(out), err == nil
+	return Fl(out), err == nil && out > 0 && out <= math.MaxFloat32
 }
 
 func parseAbsoluteSize(tag *openTag, size string) bool {
@@ -653,6 +654,9 @@ func spanParseFloat(attrName, attrVal string) (Fl, error) {
 	if err != nil {
 		return 0, fmt.Errorf("Value of '%s' attribute on <span> tag should be a float, not '%s': %s", attrName, attrVal, err)
 	}
+	if math.IsNaN(out) || math.IsInf(out, 0) {
+		return 0, fmt.Errorf("Value of '%s' attribute on <span> tag should be a finite float, not '%s'", attrName, attrVal)
+	}
 	return Fl(out), nil
 }
 
@@ -739,16 +743,19 @@ func checkAttribute(value *string, newAttrName, newAttrValue string) error {
 }
 
 func parseLength(attrVal string) (int, bool) {
-	if v, err := strconv.Atoi(attrVal); err == nil {
-		return v, true
+	if v, err := strconv.ParseInt(attrVal, 10, 32); err == nil {
+		return int(v), true
 	}
 
 	if !strings.HasSuffix(attrVal, "pt") {
 		return 0, false
 	}
 	val, err := strconv.ParseFloat(strings.TrimSuffix(attrVal, "pt"), 32)
+	if err != nil || !(math.Abs(val) <= math.MaxInt32/Scale) { // also exclude NaN
+		return 0, false
+	}
 
-	return int(val * Scale), err == nil
+	return int(val * Scale), true
 }
 
 func span_parse_func(tag *openTag, attrs []xml.Attr) error {
@@ -1039,7 +1046,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if size != "" {
-		if n, ok := parseLength(size); ok {
+		if n, ok := parseLength(size); ok && n > 0 {
 			tag.addAttribute(NewAttrSize(n))
 			if tag != nil {
 				tag.setAbsoluteFontSize(int32(n))
-- 
2.43.0


From bc161ca23a3fa02bad102c9e9f2f22677effc133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 064/152] fix: only the hyphens of the known words may be
 omitted

---
 pango/fonts.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 34f99fa..ff8b024 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -488,10 +488,20 @@ func pango_parse_stretch(str string) (Stretch, bool) {
 	return Stretch(i), b
 }
 
-var hyphenStripper = strings.NewReplacer("-", "")
-
-func fieldMatches(s1, s2 string) bool {
-	return hyphenStripper.Replace(strings.ToLower(s1)) == hyphenStripper.Replace(strings.ToLower(s2))
+// fieldMatches compares `field` to `str`, ignoring the case.
+// The hyphens of `field` may be omitted in `str`.
+func fieldMatches(field, str string) bool {
+	field, str = strings.ToLower(field), strings.ToLower(str)
+	for len(field) != 0 {
+		if len(str) != 0 && field[0] == str[0] {
+			field, str = field[1:], str[1:]
+		} else if field[0] == '-' {
+			field = field[1:]
+		} else {
+			return false
+		}
+	}
+	return len(str) == 0
 }
 
 // Creates a string representation of a font description.
-- 
2.43.0


From 42be83a14ea8bc34a9ff8a48df0b0c9bb412a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 065/152] fix: check the range of alpha values in markup

---
 pango/markup.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 39ff2d3..6cb9b78 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -694,11 +694,14 @@ func spanParseAlpha(attrName, attrVal string) (uint16, error) {
 			attrName, lineColNumber, attrVal)
 	}
 
-	if !hasPercent {
+	if !hasPercent && intVal > 0 && intVal <= 65536 {
+		if intVal == 65536 { // fully opaque
+			intVal = 0xffff
+		}
 		return uint16(intVal), nil
 	}
 
-	if intVal > 0 && intVal <= 100 {
+	if hasPercent && intVal > 0 && intVal <= 100 {
 		return uint16(intVal * 0xffff / 100), nil
 	}
 	return 0, fmt.Errorf("Value of '%s' attribute on <span> tag on line %d could not be parsed; should be between 0 and 65536 or a percentage, not '%s'",
-- 
2.43.0


From ef5e44f406fb757af35eccdd2d18896839b4e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 066/152] fix: terminate by a comma the families which end like
 an option or a size

---
 pango/fonts.go | 52 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index ff8b024..49eba03 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -3,6 +3,7 @@ package pango
 import (
 	"fmt"
 	"log"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -376,18 +377,8 @@ func NewFontDescriptionFrom(str string) FontDescription {
 
 	/* Look for a size */
 	if len(fields) != 0 {
-		word := fields[len(fields)-1]
-		var sizeIsAbsolute bool
-		if strings.HasSuffix(word, "px") {
-			sizeIsAbsolute = true
-			word = strings.TrimSuffix(word, "px")
-		}
-		size, err := strconv.ParseFloat(word, 64)
-		if err != nil {
-			// just ignore invalid floats: they maybe do not refers to a size
-		} else if size < 0 || size > 1000000 {
-			log.Println("invalid size value:", size)
-		} else { // word is a valid float
+		size, sizeIsAbsolute, ok := parseSize(fields[len(fields)-1])
+		if ok { // word is a valid float
 			desc.Size = int32(size*Scale + 0.5)
 			desc.SizeIsAbsolute = sizeIsAbsolute
 			desc.mask |= FmSize
@@ -421,6 +412,24 @@ func NewFontDescriptionFrom(str string) FontDescription {
 	return desc
 }
 
+// parseSize reads a size, optionally followed by px
+func parseSize(word string) (size float64, sizeIsAbsolute, ok bool) {
+	if strings.HasSuffix(word, "px") {
+		sizeIsAbsolute = true
+		word = strings.TrimSuffix(word, "px")
+	}
+	size, err := strconv.ParseFloat(word, 64)
+	if err != nil || math.IsNaN(size) {
+		// just ignore invalid floats: they maybe do not refers to a size
+		return 0, false, false
+	}
+	if size < 0 || size > 1000000 {
+		log.Println("invalid size value:", size)
+		return 0, false, false
+	}
+	return size, sizeIsAbsolute, true
+}
+
 func (desc *FontDescription) find_field_any(str string) bool {
 	if fieldMatches("Normal", str) {
 		return true
@@ -516,12 +525,19 @@ func (desc FontDescription) String() string {
 		* in a keyword like "Bold", or if the family name ends in
 		* a number and no keywords will be added.
 		 */
-		if desc.Weight == WEIGHT_NORMAL &&
-			desc.Style == STYLE_NORMAL &&
-			desc.Stretch == STRETCH_NORMAL &&
-			desc.Variant == VARIANT_NORMAL &&
-			(desc.mask&(FmGravity|FmSize) == 0) {
-			fam += ","
+		words := strings.FieldsFunc(fam, func(r rune) bool { return r == ',' || unicode.IsSpace(r) })
+		if len(words) != 0 {
+			var tmp FontDescription
+			last := words[len(words)-1]
+			_, _, isSize := parseSize(last)
+			if tmp.find_field_any(last) || (isSize &&
+				desc.Weight == WEIGHT_NORMAL &&
+				desc.Style == STYLE_NORMAL &&
+				desc.Stretch == STRETCH_NORMAL &&
+				desc.Variant == VARIANT_NORMAL &&
+				(desc.mask&(FmGravity|FmSize) == 0)) {
+				fam += ","
+			}
 		}
 		chunks = append(chunks, fam)
 	}
-- 
2.43.0


From 6355785dea3e649a93c1baad43705de4fcbc5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 067/152] fix: parse the printed form of the font weights
 without name

---
 pango/fonts.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index 49eba03..80f3332 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -439,6 +439,13 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetWeight(Weight(v))
 		return true
 	}
+	// weights without name, see String()
+	if num := strings.TrimPrefix(str, "weight="); num != str {
+		if v, err := strconv.Atoi(num); err == nil {
+			desc.SetWeight(Weight(v))
+			return true
+		}
+	}
 	if v, ok := StyleMap.FromString(str); ok {
 		desc.SetStyle(Style(v))
 		return true
-- 
2.43.0


From 2e60a3131877dc62b351a9a205c4b95439da7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 068/152] fix: print the gravity of the font descriptions

---
 pango/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 80f3332..a0ca2b4 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -563,7 +563,7 @@ func (desc FontDescription) String() string {
 	}
 	if desc.mask&FmGravity != 0 {
 		if s := GravityMap.ToString("gravity", int(desc.Gravity)); s != "" {
-			chunks = append(chunks)
+			chunks = append(chunks, s)
 		}
 	}
 
-- 
2.43.0


From a8798bcd621d644596589e3c8da8e97c33870e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 069/152] fix: an empty family list does not set the family of
 a font description

---
 pango/fonts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index a0ca2b4..0cf235d 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -398,8 +398,8 @@ func NewFontDescriptionFrom(str string) FontDescription {
 	}
 
 	// Remainder is family list. Trim off trailing commas and leading and trailing white space
-	if len(fields) != 0 {
-		families := strings.Split(strings.TrimSuffix(strings.Join(fields, " "), ","), ",")
+	if list := strings.TrimSuffix(strings.Join(fields, " "), ","); list != "" {
+		families := strings.Split(list, ",")
 		/* Now sanitize it to trim space from around individual family names.
 		* bug #499624 */
 		for i, f := range families {
-- 
2.43.0


From 1b48b4acff1b973b596029d035bc451322e95908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 070/152] fix: fix: give the spaces before a font change to the
 better font

---
 pango/context.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 05a1feb..c3ffb48 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -866,6 +866,7 @@ func (state *itemizeState) fillFont(font Font) {
 
 // pos is the index into text
 func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak bool, pos int, isSpace bool) {
+	firstSpace := state.firstSpace // before `pos`
 	if isSpace {
 		if state.firstSpace == -1 {
 			state.firstSpace = pos
@@ -895,10 +896,10 @@ func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak
 		// the font is less "fallback".
 		//
 		// See https://gitlab.gnome.org/GNOME/pango/-/issues/249
-		if item.Offset < state.firstSpace && fontPosition < state.fontPosition {
-			nSpaces = pos - state.firstSpace
+		if item.Offset < firstSpace && fontPosition < state.fontPosition {
+			nSpaces = pos - firstSpace
 			item.Length -= nSpaces
-			pos = state.firstSpace
+			pos = firstSpace
 		}
 
 		item.Length = pos - item.Offset
-- 
2.43.0


From 6a846563a0297574efcc7fe43657843202aede10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 071/152] fix: fix: report all the scripts of languages with
 three scripts

---
 pango/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/language.go b/pango/language.go
index 249669a..a993ad8 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -366,7 +366,7 @@ func pango_language_get_scripts(lang Language) []Script {
 		}
 	}
 
-	return nil
+	return script_for_lang.scripts[:]
 }
 
 // pango_language_includes_script determines if `script` is one of the scripts used to
-- 
2.43.0


From 2d0a123e811fcd89d4d207e8eb7ae1cf0e3bb7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 072/152] fix: fix: FONT_SCALE_NONE leaves the font size
 unchanged

---
 pango/item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index db963aa..4b4e3f8 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -323,7 +323,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
 			if attr.StartIndex == item.Offset {
-				entry := &scaleItem{attr: attr}
+				entry := &scaleItem{attr: attr, scale: 1}
 				stack.PushFront(entry)
 
 				var (
-- 
2.43.0


From 0359162a95eb9e21d5a9364b2997d011f305dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 073/152] fix: fix: express superscript and subscript sizes in
 the same unit as the em

---
 pango/item.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index 4b4e3f8..566be31 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -328,11 +328,11 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 				var (
 					hbFont *harfbuzz.Font
-					yScale int32
+					upem   float32 // the metrics are in font units
 				)
 				if prev != nil {
 					hbFont = prev.Analysis.Font.GetHarfbuzzFont()
-					yScale = hbFont.YScale
+					upem = float32(hbFont.Face().Upem())
 				}
 
 				switch FontScale(attr.Data.(AttrInt)) {
@@ -342,14 +342,14 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 					entry.scale = 1 / 1.2
 					if hbFont != nil {
 						if y_size, ok := hbFont.Face().LineMetric(fonts.SuperscriptEmYSize); ok {
-							entry.scale = y_size / float32(yScale)
+							entry.scale = y_size / upem
 						}
 					}
 				case FONT_SCALE_SUBSCRIPT:
 					entry.scale = 1 / 1.2
 					if hbFont != nil {
 						if y_size, ok := hbFont.Face().LineMetric(fonts.SubscriptEmYSize); ok {
-							entry.scale = y_size / float32(yScale)
+							entry.scale = y_size / upem
 						}
 					}
 
-- 
2.43.0


From 966bc735b6d1eba1b4419f8bb008f7adde4025d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 074/152] fix: fix: do not read past the end of the upright
 table

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index c3ffb48..d2fd018 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -427,7 +427,7 @@ func isUpright(ch rune) bool {
 
 	const max = len(upright)
 	st := 0
-	ed := max
+	ed := max - 1
 
 	for st <= ed {
 		mid := (st + ed) / 2
-- 
2.43.0


From 64ef18fe214f654219fbfd5280c207a222ab5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 075/152] fix: fix: SetFontDescription takes the set fields
 into account

---
 pango/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index d2fd018..6245f83 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -230,7 +230,8 @@ func (context *Context) GetLanguage() Language { return context.setLanguage }
 // SetFontDescription sets the default font description for the context,
 // which is used during itemization when no other font information is available.
 func (context *Context) SetFontDescription(desc FontDescription) {
-	if !desc.pango_font_description_equal(context.fontDesc) {
+	// also compare the set fields, which change how the attributes apply
+	if desc != context.fontDesc {
 		context.contextChanged()
 		context.fontDesc = desc
 	}
-- 
2.43.0


From cc9a0a242c9fe009e5ab6d228c099a5d0b6a65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 076/152] fix: fix: itemize texts for which there is no font

---
 pango/context.go | 9 ++++++---
 pango/item.go    | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 6245f83..46874df 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -797,12 +797,12 @@ func (state *itemizeState) getFont(wc rune) (fontElement, bool) {
 
 	info := getFontInfo{lang: state.derivedLang, wc: wc}
 
-	if state.enableFallback {
+	if !state.enableFallback {
+		info.get_font_foreach(nil, state.get_base_font())
+	} else if state.currentFonts != nil {
 		state.currentFonts.Foreach(func(font Font) bool {
 			return info.get_font_foreach(state.currentFonts, font)
 		})
-	} else {
-		info.get_font_foreach(nil, state.get_base_font())
 	}
 
 	out := fontElement{font: info.font, position: info.position}
@@ -995,6 +995,9 @@ func (context *Context) itemizeWithFont(text []rune, startIndex int, desc *FontD
 func getBaseMetrics(fs Fontset) FontMetrics {
 	var metrics FontMetrics
 
+	if fs == nil { // no font was found
+		return FontGetMetrics(nil, "")
+	}
 	language := fs.GetLanguage()
 
 	// Initialize the metrics from the first font in the Fontset
diff --git a/pango/item.go b/pango/item.go
index 566be31..83a1c13 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -330,7 +330,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 					hbFont *harfbuzz.Font
 					upem   float32 // the metrics are in font units
 				)
-				if prev != nil {
+				if prev != nil && prev.Analysis.Font != nil {
 					hbFont = prev.Analysis.Font.GetHarfbuzzFont()
 					upem = float32(hbFont.Face().Upem())
 				}
@@ -410,7 +410,7 @@ func (context *Context) applyFontScale(items *ItemList) {
 
 	for l := items; l != nil; l = l.Next {
 		item := l.Data
-		if scale, ok := context.collectFontScale(&stack, item, prev); ok {
+		if scale, ok := context.collectFontScale(&stack, item, prev); ok && item.Analysis.Font != nil {
 			context.applyScaleToItem(item, scale)
 		}
 
@@ -469,6 +469,9 @@ func (item *Item) variantSupported(variant Variant) bool {
 }
 
 func (item *Item) getFontVariant() Variant {
+	if item.Analysis.Font == nil { // no font was found
+		return VARIANT_NORMAL
+	}
 	return item.Analysis.Font.Describe(false).Variant
 }
 
-- 
2.43.0


From fe428e671f6e94b8ba9ddbc943e29581ed8e42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 077/152] fix: a space separates Hangul jamos

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 2e6b18a..e8346e8 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1759,7 +1759,6 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevPrevBreakType = prevBreakType
 				prevBreakType = breakType
 			}
-			prevJamo = jamo
 		} else {
 			if prevBreakType != ucd.BreakSP {
 				prevPrevBreakType = prevBreakType
@@ -1767,6 +1766,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			}
 			/* else don't change the prevBreakType */
 		}
+		prevJamo = jamo
 
 		/* ---- Word breaks ---- */
 
-- 
2.43.0


From aa3dd30af1b20d4f2afb0f305a0a67328513832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 078/152] fix: grapheme clusters: Prepend letters and spacing
 marks

---
 pango/break.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index e8346e8..5b2379f 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -718,6 +718,24 @@ func labelAlphabetic(breakType *unicode.RangeTable, script Script, wbType *wordB
 	}
 }
 
+// isPrependLetter returns true for the letters with Grapheme_Cluster_Break = Prepend
+func isPrependLetter(wc rune) bool {
+	return wc == 0x0D4E || wc == 0x111C2 || wc == 0x111C3 ||
+		wc == 0x1193F || wc == 0x11941 ||
+		wc == 0x11A3A || (wc >= 0x11A84 && wc <= 0x11A89) || wc == 0x11D46
+}
+
+// notSpacingMark returns true for the spacing marks excluded
+// from Grapheme_Cluster_Break = SpacingMark
+func notSpacingMark(wc rune) bool {
+	return wc == 0x102B || wc == 0x102C || wc == 0x1038 ||
+		(wc >= 0x1062 && wc <= 0x1064) || (wc >= 0x1067 && wc <= 0x106D) ||
+		wc == 0x1083 || (wc >= 0x1087 && wc <= 0x108C) || wc == 0x108F ||
+		(wc >= 0x109A && wc <= 0x109C) ||
+		wc == 0x1A61 || wc == 0x1A63 || wc == 0x1A64 ||
+		wc == 0xAA7B || wc == 0xAA7D || wc == 0x11720 || wc == 0x11721
+}
+
 /* Types of Japanese characters */
 func japanese(wc rune) bool { return wc >= 0x2F00 && wc <= 0x30FF }
 func kanji(wc rune) bool    { return wc >= 0x2F00 && wc <= 0x2FDF }
@@ -938,9 +956,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					wc == 0x6DD ||
 					wc == 0x70F ||
 					wc == 0x8E2 ||
-					wc == 0xD4E ||
-					wc == 0x110BD ||
-					(wc >= 0x111C2 && wc <= 0x111C3) {
+					wc == 0x110BD || wc == 0x110CD {
 					gbType = gb_Prepend
 					break
 				}
@@ -962,6 +978,10 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			case unicode.Lo:
 				if makesHangulSyllable {
 					gbType = gb_InHangulSyllable
+				} else if isPrependLetter(wc) {
+					gbType = gb_Prepend
+				} else if wc == 0x0E33 || wc == 0x0EB3 {
+					gbType = gb_SpacingMark /* Thai and Lao AM */
 				}
 			case unicode.Lm:
 				if wc >= 0xFF9E && wc <= 0xFF9F {
@@ -969,7 +989,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				}
 			case unicode.Mc:
 				gbType = gb_SpacingMark /* SpacingMark */
-				if wc >= 0x0900 {
+				if notSpacingMark(wc) {
+					gbType = gb_Other
+				} else if wc >= 0x0900 {
 					if wc == 0x09BE || wc == 0x09D7 ||
 						wc == 0x0B3E || wc == 0x0B57 || wc == 0x0BBE || wc == 0x0BD7 ||
 						wc == 0x0CC2 || wc == 0x0CD5 || wc == 0x0CD6 ||
-- 
2.43.0


From a39be5598311705345d46b3382a39baabdd0b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 079/152] fix: no line break between a Hangul syllable and an
 ellipsis

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 5b2379f..dc42619 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1498,7 +1498,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevBreakType == ucd.BreakJT ||
 				prevBreakType == ucd.BreakH2 ||
 				prevBreakType == ucd.BreakH3) &&
-				breakType == ucd.BreakPO {
+				(breakType == ucd.BreakIN || breakType == ucd.BreakPO) {
 				breakOp = break_PROHIBITED
 			}
 			if prevBreakType == ucd.BreakPR &&
-- 
2.43.0


From aeba2db84c729617109b5d67a11361de2635a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 080/152] fix: characters inside graphemes count in the numbers
 of the line breaking rules

---
 pango/break.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index dc42619..cbaed9a 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1398,7 +1398,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		}
 
 		/* If it's not a grapheme boundary, it's not a line break either */
-		if attrs[i].IsCursorPosition() ||
+		canBreak := attrs[i].IsCursorPosition() ||
 			breakType == ucd.BreakEM ||
 			breakType == ucd.BreakZWJ ||
 			breakType == ucd.BreakCM ||
@@ -1407,8 +1407,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			breakType == ucd.BreakJT ||
 			breakType == ucd.BreakH2 ||
 			breakType == ucd.BreakH3 ||
-			breakType == ucd.BreakRI {
-
+			breakType == ucd.BreakRI
+		{
 			/* Find the LineBreakType of wc */
 			lbType := lb_Other
 
@@ -1747,6 +1747,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				attrs[i].setLineBreak(true)
 			case break_ALREADY_HANDLED:
 			}
+			if !canBreak {
+				attrs[i].setLineBreak(false)
+			}
 
 			/* Rule LB9 */
 			if !(breakType == ucd.BreakCM ||
-- 
2.43.0


From 5017961ed3a3c77ad227ad00c088f466bdef92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 081/152] fix: the general category of a character is
 deterministic

---
 pango/break.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index cbaed9a..4e81bb6 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -693,6 +693,28 @@ func breakAttrs(text []rune, attributes AttrList, offset int, logAttrs []CharAtt
 	return t1 || t2 || t3 || t4
 }
 
+// the general categories: unicode.Categories is not used
+// since it also contains unions of categories
+var generalCategories = [...]*unicode.RangeTable{
+	unicode.Ll, unicode.Lu, unicode.Lo, unicode.Lm, unicode.Lt,
+	unicode.Mn, unicode.Mc, unicode.Me,
+	unicode.Nd, unicode.Nl, unicode.No,
+	unicode.Zs, unicode.Zl, unicode.Zp,
+	unicode.Po, unicode.Pd, unicode.Ps, unicode.Pe, unicode.Pi, unicode.Pf, unicode.Pc,
+	unicode.Sc, unicode.Sk, unicode.Sm, unicode.So,
+	unicode.Cc, unicode.Cf, unicode.Co, unicode.Cs,
+}
+
+// lookupType returns the general category of the rune, or nil if it is unassigned.
+func lookupType(r rune) *unicode.RangeTable {
+	for _, table := range generalCategories {
+		if unicode.Is(table, r) {
+			return table
+		}
+	}
+	return nil
+}
+
 func backspaceDeleteCharacter(wc rune) bool {
 	return !((wc >= 0x0020 && wc <= 0x02AF) || (wc >= 0x1E00 && wc <= 0x1EFF)) &&
 		!(wc >= 0x0400 && wc <= 0x052F) &&
@@ -911,7 +933,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			nextBreakType = ucd.LookupLineBreakClass(nextWc)
 		}
 
-		type_ := ucd.LookupType(wc)
+		type_ := lookupType(wc)
 		jamo := ucd.Jamo(breakType)
 
 		/* Determine wheter this forms a Hangul syllable with prev. */
@@ -1474,7 +1496,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				breakOp = break_PROHIBITED
 			}
 
-			if unicode.Is(ucd.Extended_Pictographic, prevWc) && unicodedata.LookupType(prevWc) == nil &&
+			if unicode.Is(ucd.Extended_Pictographic, prevWc) && lookupType(prevWc) == nil &&
 				breakType == ucd.BreakEM {
 				breakOp = break_PROHIBITED
 			}
-- 
2.43.0


From 6b6c8992cd17d740e383ed00e816b89a1cdd6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 082/152] fix: characters inside graphemes count in the word
 boundaries

---
 pango/break.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 4e81bb6..293457b 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1103,7 +1103,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		/* ---- UAX#29 Word Boundaries ---- */
 		var isWordBoundary bool
 		{
-			if isGraphemeBoundary || (wc >= 0x1F1E6 && wc <= 0x1F1FF) { /* Rules WB3 and WB4 */
+			{
 				/* Find the WordBreakType of wc */
 				wbType := wb_Other
 
@@ -1159,6 +1159,10 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						wbType = wb_NewlineCRLF /* CR, LF, Newline */
 					case unicode.Cf, unicode.Mc, unicode.Me, unicode.Mn:
 						wbType = wb_ExtendFormat /* Extend, Format */
+					case unicode.Sk:
+						if wc >= 0x1F3FB && wc <= 0x1F3FF {
+							wbType = wb_ExtendFormat /* Fitzpatrick modifiers */
+						}
 					case unicode.Pc:
 						wbType = wb_ExtendNumLet /* ExtendNumLet */
 					case unicode.Pf, unicode.Pi:
@@ -1210,6 +1214,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				if wbType == wb_Other {
 					if type_ == unicode.Zs && breakType != ucd.BreakGL {
 						wbType = wb_WSegSpace
+					} else if wc == 0x202F {
+						wbType = wb_ExtendNumLet /* NNBSP */
 					}
 				}
 
@@ -1285,6 +1291,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevWbI = i
 				}
 			}
+			/* Rules WB3 and WB4: words do not end inside graphemes */
+			isWordBoundary = isWordBoundary && isGraphemeBoundary
 			attrs[i].setWordBoundary(isWordBoundary)
 		}
 
-- 
2.43.0


From 166817701671095b67ce3ca6f2ace2df0c645486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 083/152] fix: word boundaries: zero width space, ideographs
 and alphabetic symbols

---
 pango/break.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 293457b..54a1ebc 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -758,6 +758,15 @@ func notSpacingMark(wc rune) bool {
 		wc == 0xAA7B || wc == 0xAA7D || wc == 0x11720 || wc == 0x11721
 }
 
+// isALetterSymbol returns true for the modifier symbols with Word_Break = ALetter
+func isALetterSymbol(wc rune) bool {
+	return (wc >= 0x02C2 && wc <= 0x02C5) || (wc >= 0x02D2 && wc <= 0x02D7) ||
+		wc == 0x02DE || wc == 0x02DF || (wc >= 0x02E5 && wc <= 0x02EB) ||
+		wc == 0x02ED || (wc >= 0x02EF && wc <= 0x02FF) ||
+		(wc >= 0xA708 && wc <= 0xA716) || wc == 0xA720 || wc == 0xA721 ||
+		wc == 0xA789 || wc == 0xA78A || wc == 0xAB5B
+}
+
 /* Types of Japanese characters */
 func japanese(wc rune) bool { return wc >= 0x2F00 && wc <= 0x30FF }
 func kanji(wc rune) bool    { return wc >= 0x2F00 && wc <= 0x2FDF }
@@ -1158,10 +1167,15 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					case unicode.Zl, unicode.Zp:
 						wbType = wb_NewlineCRLF /* CR, LF, Newline */
 					case unicode.Cf, unicode.Mc, unicode.Me, unicode.Mn:
+						if wc == 0x200B {
+							break /* Format exception: zero width space */
+						}
 						wbType = wb_ExtendFormat /* Extend, Format */
 					case unicode.Sk:
 						if wc >= 0x1F3FB && wc <= 0x1F3FF {
 							wbType = wb_ExtendFormat /* Fitzpatrick modifiers */
+						} else if isALetterSymbol(wc) {
+							wbType = wb_ALetter
 						}
 					case unicode.Pc:
 						wbType = wb_ExtendNumLet /* ExtendNumLet */
@@ -1181,7 +1195,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 							wbType = wb_MidNum /* MidNum */
 						}
 					case unicode.So:
-						if wc >= 0x24B6 && wc <= 0x24E9 { /* Other_Alphabetic */
+						if unicode.Is(unicode.Other_Alphabetic, wc) {
 							labelAlphabetic(breakType, script, &wbType)
 						}
 						if wc >= 0x1F1E6 && wc <= 0x1F1FF {
@@ -1193,16 +1207,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						}
 
 					case unicode.Lo, unicode.Nl:
-						if wc == 0x3006 || wc == 0x3007 ||
-							(wc >= 0x3021 && wc <= 0x3029) ||
-							(wc >= 0x3038 && wc <= 0x303A) ||
-							(wc >= 0x3400 && wc <= 0x4DB5) ||
-							(wc >= 0x4E00 && wc <= 0x9FC3) ||
-							(wc >= 0xF900 && wc <= 0xFA2D) ||
-							(wc >= 0xFA30 && wc <= 0xFA6A) ||
-							(wc >= 0xFA70 && wc <= 0xFAD9) ||
-							(wc >= 0x20000 && wc <= 0x2A6D6) ||
-							(wc >= 0x2F800 && wc <= 0x2FA1D) {
+						if unicode.Is(unicode.Ideographic, wc) {
 							break /* ALetter exceptions: Ideographic */
 						}
 						labelAlphabetic(breakType, script, &wbType)
-- 
2.43.0


From 0d36d4da1a759500f13943e0d16ced20ac2de53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 084/152] fix: sentence boundaries look at all the characters

---
 pango/break.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 54a1ebc..ed1ff46 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -891,6 +891,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 
 		prevPrevSbType = sb_Other
 		prevSbType     = sb_Other
+		prevSbIsClose  = false
 		prevSbI        = -1
 
 		prevLbType = lb_Other
@@ -1304,7 +1305,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		/* ---- UAX#29 Sentence Boundaries ---- */
 		var isSentenceBoundary bool
 		{
-			if isWordBoundary || wc == '\r' || wc == '\n' { /* Rules SB3 and SB5 */
+			{
 				/* Find the SentenceBreakType of wc */
 				sbType := sb_Other
 
@@ -1314,6 +1315,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 
 				sbType = resolveSentenceBreakType(wc, sbType, type_, breakType)
 
+				isClose := false // Close* after ATerm
+
 				/* Sentence Boundary Rules */
 
 				/* We apply Rules SB1 and SB2 at the end of the function */
@@ -1330,7 +1333,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 
 				case sbType == sb_ExtendFormat:
 					isSentenceBoundary = false /* Rule SB5? */
-				case prevSbType == sb_ATerm && sbType == sb_Numeric:
+				case prevSbType == sb_ATerm && !prevSbIsClose && sbType == sb_Numeric:
 					isSentenceBoundary = false /* Rule SB6 */
 				case (prevPrevSbType == sb_Upper ||
 					prevPrevSbType == sb_Lower) &&
@@ -1339,6 +1342,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					isSentenceBoundary = false /* Rule SB7 */
 				case prevSbType == sb_ATerm && sbType == sb_Close:
 					sbType = sb_ATerm
+					isClose = true
 				case prevSbType == sb_STerm && sbType == sb_Close:
 					sbType = sb_STerm
 				case prevSbType == sb_ATerm && sbType == sb_Sp:
@@ -1380,6 +1384,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevSbType == sb_STerm_Close_Sp) &&
 					(sbType == sb_Sp || sbType == sb_ParaSep):
 					isSentenceBoundary = false /* Rule SB10 */
+					if sbType == sb_Sp { /* several spaces */
+						sbType = prevSbType
+					}
 				case (prevSbType == sb_ATerm ||
 					prevSbType == sb_ATerm_Close_Sp ||
 					prevSbType == sb_STerm ||
@@ -1396,10 +1403,14 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						isOtherTerm(sbType)) {
 					prevPrevSbType = prevSbType
 					prevSbType = sbType
+					prevSbIsClose = isClose
 					prevSbI = i
 				}
 			}
 
+			/* sentences do not end inside words */
+			isSentenceBoundary = isSentenceBoundary && isWordBoundary
+
 			if i == 0 || done {
 				isSentenceBoundary = true /* Rules SB1 and SB2 */
 			}
-- 
2.43.0


From 11b17724b544f7714478e9ef3cb6dbe8bfbee730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 085/152] fix: letters of the sentence boundaries

---
 pango/break.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index ed1ff46..f22a26c 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -841,13 +841,24 @@ func resolveSentenceBreakType(wc rune, sbType sentenceBreakType, type_, breakTyp
 	}
 
 	if sbType == sb_Other {
+		/* Georgian has no title case */
+		isGeorgian := wc >= 0x10D0 && wc <= 0x10FF && wc != 0x10FC
 		switch type_ {
 		case unicode.Ll:
 			sbType = sb_Lower
+			if isGeorgian {
+				sbType = sb_OLetter
+			}
 		case unicode.Lu:
 			sbType = sb_Upper
-		case unicode.Lt, unicode.Lm, unicode.Lo:
-			sbType = sb_OLetter
+		case unicode.Lt, unicode.Lm, unicode.Lo, unicode.Nl, unicode.So:
+			if unicode.Is(unicode.Other_Lowercase, wc) && !isGeorgian {
+				sbType = sb_Lower
+			} else if unicode.Is(unicode.Other_Uppercase, wc) {
+				sbType = sb_Upper
+			} else if type_ != unicode.So {
+				sbType = sb_OLetter
+			}
 		}
 
 		if type_ == unicode.Pe || type_ == unicode.Ps || breakType == ucd.BreakQU {
@@ -1384,7 +1395,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevSbType == sb_STerm_Close_Sp) &&
 					(sbType == sb_Sp || sbType == sb_ParaSep):
 					isSentenceBoundary = false /* Rule SB10 */
-					if sbType == sb_Sp { /* several spaces */
+					if sbType == sb_Sp {       /* several spaces */
 						sbType = prevSbType
 					}
 				case (prevSbType == sb_ATerm ||
-- 
2.43.0


From 37739b7adc4bc156854c02efca5e167f329cb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 086/152] fix: fix: mark the sentences of one character

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index f22a26c..27c5087 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1911,7 +1911,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			attrs[i].setSentenceEnd(false)
 
 			/* maybe start sentence */
-			if lastSentenceStart == -1 && !isSentenceBoundary {
+			if lastSentenceStart == -1 && i > 0 {
 				lastSentenceStart = i - 1
 			}
 			/* remember last non space character position */
-- 
2.43.0


From ccfb809d049c1bd22b794d25bae9e15df25c07d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 087/152] fix: fix: start a word after a Japanese word

---
 pango/break.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/break.go b/pango/break.go
index 27c5087..b961988 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1876,6 +1876,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 							(!japanese(lastWordLetter) &&
 								japanese(wc)) {
 							attrs[i].setWordEnd(true)
+							attrs[i].setWordStart(true) // of the next word
 						}
 					}
 				}
-- 
2.43.0


From 253c833fc499596f0855a7ff6f9a976b0c1dea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 088/152] fix: fix: restore the start of a sentence which goes
 on

---
 pango/break.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index b961988..404d80a 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1372,11 +1372,16 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					attrs[prevSbI].setSentenceEnd(false)
 					lastSentenceStart = -1
 					for j := prevSbI - 1; j >= 0; j-- {
-						attrs[j].setSentenceEnd(false)
+						attrs[j].setSentenceStart(false)
 						if attrs[j].IsSentenceBoundary() {
 							lastSentenceStart = j
 							break
 						}
+						attrs[j].setSentenceEnd(false)
+					}
+					/* the start of the sentence is not a space */
+					for lastSentenceStart != -1 && lastSentenceStart < i && attrs[lastSentenceStart].IsWhite() {
+						lastSentenceStart++
 					}
 				case (prevSbType == sb_ATerm ||
 					prevSbType == sb_ATerm_Close_Sp ||
-- 
2.43.0


From 0a02f7caa5e810a238a323805e98d4f21b53e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 089/152] fix: fix: apply rules WB6 and WB12 before a
 pictographic letter after a joiner

---
 pango/break.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 404d80a..f1424d3 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1247,8 +1247,6 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					isWordBoundary = true /* Rule WB3a */
 				} else if wbType == wb_NewlineCRLF {
 					isWordBoundary = true /* Rule WB3b */
-				} else if prevWc == 0x200D && isExtendedPictographic {
-					isWordBoundary = false /* Rule WB3c */
 				} else if prevWbType == wb_WSegSpace &&
 					wbType == wb_WSegSpace && prevWbI+1 == i {
 					isWordBoundary = false /* Rule WB3d */
@@ -1298,6 +1296,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB12 */
 				} else if prevWbType == wb_RI_Odd && wbType == wb_RI_Even {
 					isWordBoundary = false /* Rule WB15 and WB16 */
+				} else if prevWc == 0x200D && isExtendedPictographic {
+					isWordBoundary = false /* Rule WB3c, after the rules which also change the previous boundary */
 				} else {
 					isWordBoundary = true /* Rule WB999 */
 				}
-- 
2.43.0


From ac969f2599e32c19701196743441fbf7e70d9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 090/152] fix: fix: quotes followed by marks inside words

---
 pango/break.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index f1424d3..559323d 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1280,18 +1280,18 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						wbType == wb_Hebrew_Letter)) &&
 					(prevWbType == wb_MidLetter ||
 						prevWbType == wb_MidNumLet ||
-						prevWc == 0x0027) {
+						text[prevWbI] == 0x0027) {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB6 */
 					isWordBoundary = false                /* Rule WB7 */
 				} else if prevWbType == wb_Hebrew_Letter && wc == 0x0027 {
 					isWordBoundary = false /* Rule WB7a */
-				} else if prevPrevWbType == wb_Hebrew_Letter && prevWc == 0x0022 &&
+				} else if prevPrevWbType == wb_Hebrew_Letter && text[prevWbI] == 0x0022 &&
 					wbType == wb_Hebrew_Letter {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB7b */
 					isWordBoundary = false                /* Rule WB7c */
 				} else if (prevPrevWbType == wb_Numeric && wbType == wb_Numeric) &&
 					(prevWbType == wb_MidNum || prevWbType == wb_MidNumLet ||
-						prevWc == 0x0027) {
+						text[prevWbI] == 0x0027) {
 					isWordBoundary = false                /* Rule WB11 */
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB12 */
 				} else if prevWbType == wb_RI_Odd && wbType == wb_RI_Even {
-- 
2.43.0


From 8adfd2eb00a4ffba7fb0323ba0dc49a8ef9df2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 091/152] fix: fix: look for a number after the combining marks

---
 pango/break.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 559323d..27dccdd 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -715,6 +715,23 @@ func lookupType(r rune) *unicode.RangeTable {
 	return nil
 }
 
+// startsWithNumber returns true if the first character of text[start:],
+// after the combining marks (rule LB9), has line break class NU.
+func startsWithNumber(text []rune, start int) bool {
+	for ; start < len(text); start++ {
+		switch breakType := ucd.LookupLineBreakClass(text[start]); breakType {
+		case ucd.BreakCM, ucd.BreakZWJ:
+		case ucd.BreakSA:
+			if type_ := lookupType(text[start]); type_ != unicode.Mn && type_ != unicode.Mc {
+				return false
+			}
+		default:
+			return breakType == ucd.BreakNU
+		}
+	}
+	return false
+}
+
 func backspaceDeleteCharacter(wc rune) bool {
 	return !((wc >= 0x0020 && wc <= 0x02AF) || (wc >= 0x1E00 && wc <= 0x1EFF)) &&
 		!(wc >= 0x0400 && wc <= 0x052F) &&
@@ -1600,7 +1617,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevBreakType == ucd.BreakPO) &&
 				(breakType == ucd.BreakOP ||
 					breakType == ucd.BreakHY) &&
-				nextBreakType == ucd.BreakNU {
+				startsWithNumber(text, i+1) {
 				breakOp = break_PROHIBITED
 			}
 			if (prevBreakType == ucd.BreakOP ||
-- 
2.43.0


From 4a4e2ec0c3ba786faca5fbdf902ccc0068fb5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 092/152] fix: fix: a joiner is not an extending character for
 rule GB11

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 27dccdd..295ad7b 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1080,7 +1080,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			/* Rule GB11 */
 			if metExtendedPictographic {
 				if gbType == gb_Extend {
-					metExtendedPictographic = true
+					metExtendedPictographic = prevGbType != gb_ZWJ
 				} else if unicode.Is(ucd.Extended_Pictographic, prevWc) && gbType == gb_ZWJ {
 					metExtendedPictographic = true
 				} else if prevGbType == gb_Extend && gbType == gb_ZWJ {
-- 
2.43.0


From dd45242865dd7096eb7cff129d74bd03db686c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 093/152] fix: text without font is laid out with unknown glyph
 metrics

---
 pango/fonts.go       | 21 +++++++++++++++++++++
 pango/glyph_item.go  |  4 ++--
 pango/glyphs.go      |  6 +++---
 pango/item.go        |  3 +++
 pango/layout.go      |  2 +-
 pango/layout_line.go |  2 +-
 6 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 0cf235d..a9881cb 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -861,6 +861,27 @@ type FontMetrics struct {
 	StrikethroughThickness Unit
 }
 
+// glyphExtents returns the extents of `glyph` in `font`, falling back to
+// the ones of the unknown glyph box if `font` is nil
+func glyphExtents(font Font, glyph Glyph, inkRect, logicalRect *Rectangle) {
+	if font != nil {
+		font.GlyphExtents(glyph, inkRect, logicalRect)
+		return
+	}
+	if inkRect != nil {
+		inkRect.X = Scale
+		inkRect.Y = -(unknownGlyphHeight - 1) * Scale
+		inkRect.Width = (unknownGlyphWidth - 2) * Scale
+		inkRect.Height = (unknownGlyphHeight - 2) * Scale
+	}
+	if logicalRect != nil {
+		logicalRect.X = 0
+		logicalRect.Y = -unknownGlyphHeight * Scale
+		logicalRect.Width = unknownGlyphWidth * Scale
+		logicalRect.Height = unknownGlyphHeight * Scale
+	}
+}
+
 // FontGetMetrics gets overall metric information for a font.
 // Since the metrics may be substantially different for different scripts, a language tag can
 // be provided to indicate that the metrics should be retrieved that
diff --git a/pango/glyph_item.go b/pango/glyph_item.go
index a7cbd0b..0f25627 100644
--- a/pango/glyph_item.go
+++ b/pango/glyph_item.go
@@ -237,7 +237,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if runInk != nil && (hasUnderline || hasOverline || properties.strikethrough) {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 
@@ -283,7 +283,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if height != nil {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 		*height = metrics.Height
diff --git a/pango/glyphs.go b/pango/glyphs.go
index 56b9f1f..cffe7ba 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -210,7 +210,7 @@ func (glyphs *GlyphString) fallbackShape(text []rune, analysis *Analysis) {
 		}
 
 		var logicalRect Rectangle
-		analysis.Font.GlyphExtents(glyph, nil, &logicalRect)
+		glyphExtents(analysis.Font, glyph, nil, &logicalRect)
 
 		glyphs.Glyphs[i].Glyph = glyph
 
@@ -337,7 +337,7 @@ func (glyphs *GlyphString) extentsRange(start, end int, font Font, inkRect, logi
 
 		geometry := &glyphs.Glyphs[i].Geometry
 
-		font.GlyphExtents(glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
+		glyphExtents(font, glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
 
 		if inkRect != nil && glyphInk.Width != 0 && glyphInk.Height != 0 {
 			if inkRect.Width == 0 || inkRect.Height == 0 {
@@ -511,7 +511,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Try to get a ligature caret position for the glyph from the font.
 	// This only makes sense if the cluster contains a single spacing
 	// glyph, so we need to check that all but one of them are marks.
-	if clusterOffset > 0 && clusterOffset < clusterChars {
+	if analysis.Font != nil && clusterOffset > 0 && clusterOffset < clusterChars {
 		hbFont := analysis.Font.GetHarfbuzzFont()
 
 		var glyphPos int
diff --git a/pango/item.go b/pango/item.go
index 83a1c13..4372ba1 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -425,6 +425,9 @@ func (context *Context) applyFontScale(items *ItemList) {
 // Handling Casing variants
 
 func (item *Item) allFeaturesSupported(features []truetype.Tag) bool {
+	if item.Analysis.Font == nil {
+		return false
+	}
 	font := item.Analysis.Font.GetHarfbuzzFont()
 	tables := font.GetOTLayoutTables()
 	if tables == nil {
diff --git a/pango/layout.go b/pango/layout.go
index a1bdae2..5e6ced8 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1487,7 +1487,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// Add some safety margin here. If we are farther away from the end of the
 	// line than this, we don't look carefully at a break possibility.
-	metrics := item.Analysis.Font.GetMetrics(item.Analysis.Language)
+	metrics := FontGetMetrics(item.Analysis.Font, item.Analysis.Language)
 	safe_distance := metrics.ApproximateCharWidth * 3
 
 	if processingNewItem {
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 13297c0..536d6a4 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1347,7 +1347,7 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 				} else {
 					var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
 
-					if prev != nil {
+					if prev != nil && prev.Analysis.Font != nil {
 						face := prev.Analysis.Font.GetHarfbuzzFont().Face()
 						superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
 						superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
-- 
2.43.0


From 0a6aff95f1a59c82e5d4f4e68e4e000ce6378c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 094/152] fix: text transforms keep the clusters of the glyphs

---
 pango/shape.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pango/shape.go b/pango/shape.go
index 3a06880..590a808 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -164,7 +164,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 
 	hyphenIndex := itemOffset + itemLength - 1
 	if analysis.Flags&AFNeedHyphen != 0 {
-		if logAttrs[numChars].IsBreakRemovesPreceding() {
+		if logAttrs != nil && logAttrs[numChars].IsBreakRemovesPreceding() {
 			itemLength -= 1
 		}
 	}
@@ -182,11 +182,11 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 			case TEXT_TRANSFORM_UPPERCASE:
 				ch = unicode.ToUpper(ch)
 			case TEXT_TRANSFORM_CAPITALIZE:
-				if logAttrs[i].IsWordStart() {
+				if logAttrs != nil && logAttrs[i].IsWordStart() {
 					ch = unicode.ToTitle(ch)
 				}
 			}
-			cachedBuffer.AddRune(ch, i)
+			cachedBuffer.AddRune(ch, itemOffset+i)
 		}
 	}
 
-- 
2.43.0


From b7ef588b90d4715297f7cd2b4b2b03c6ad694d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 095/152] fix: break attributes are restricted to the paragraph

---
 pango/break.go  | 35 ++++++++++++++++++++++++-----------
 pango/layout.go |  2 +-
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 295ad7b..d1b86a6 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -476,17 +476,18 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 	}
 }
 
-func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (int, int) {
-	var startPos, endPos int
+// posFromOffset restricts the range to the text, and reports whether
+// they have a part in common
+func posFromOffset(start, end, offset int, text []rune) (startPos, endPos int, ok bool) {
 	if start >= offset {
 		startPos = start - offset
 	}
 	if end >= offset+len(text) {
-		endPos = len(logAttrs)
+		endPos = len(text)
 	} else {
 		endPos = end - offset
 	}
-	return startPos, endPos
+	return startPos, endPos, startPos < endPos
 }
 
 func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAttr) bool {
@@ -500,7 +501,10 @@ func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAt
 			continue
 		}
 		start, end := iter.StartIndex, iter.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setCharBreak(false)
@@ -525,7 +529,10 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setWordStart(false)
@@ -559,7 +566,7 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 			tailored = true
 		}
 
-		if end < offset+len(text) {
+		if end <= offset+len(text) {
 			inWord := false
 			for pos := endPos; pos < len(logAttrs); pos++ {
 				if logAttrs[pos].IsWordStart() {
@@ -598,7 +605,10 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setSentenceStart(false)
@@ -623,9 +633,9 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 
 			tailored = true
 		}
-		if end < offset+len(text) {
+		if end <= offset+len(text) {
 			inSentence := false
-			for pos := endPos + 1; endPos < len(logAttrs); pos++ {
+			for pos := endPos + 1; pos < len(logAttrs); pos++ {
 				if logAttrs[pos].IsSentenceStart() {
 					break
 				}
@@ -655,7 +665,10 @@ func handleHyphens(text []rune, attrs AttrList, offset int, logAttrs []CharAttr)
 			continue
 		}
 
-		startPos, endPos := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			if !logAttrs[pos].IsBreakRemovesPreceding() {
diff --git a/pango/layout.go b/pango/layout.go
index 5e6ced8..bdd41f6 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1835,7 +1835,7 @@ func getItemsLogAttrs(text []rune, start, length int, items *ItemList, logAttrs
 	}
 
 	if items != nil {
-		pango_attr_break(text[start:], attrs, items.Data.Offset, logAttrs)
+		pango_attr_break(text[start:start+length], attrs, items.Data.Offset, logAttrs[:length+1])
 	}
 }
 
-- 
2.43.0


From 26cfb59272341787281ecc5bde488e7ecc46dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 096/152] fix: glyph clusters are kept in order when graphemes
 are reversed

---
 pango/shape.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/pango/shape.go b/pango/shape.go
index 590a808..f33c5ef 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -251,6 +251,29 @@ func (item *Item) Shape(paragraphText []rune, logAttrs []CharAttr, glyphs *Glyph
 	glyphs.shapeInternal(paragraphText, item.Offset, item.Length, &item.Analysis, logAttrs, item.Length, flags)
 }
 
+// mergeUnorderedClusters makes sure that the clusters are in increasing order,
+// or in decreasing order for right to left text: when the direction is not
+// the native one, the shaper reverses the graphemes without merging their clusters
+func (glyphs *GlyphString) mergeUnorderedClusters(rtl bool) {
+	lc := glyphs.LogClusters
+	if rtl {
+		for i := 1; i < len(lc); i++ {
+			if lc[i] > lc[i-1] {
+				lc[i] = lc[i-1]
+			}
+		}
+	} else {
+		for i := len(lc) - 2; i >= 0; i-- {
+			if lc[i] > lc[i+1] {
+				lc[i] = lc[i+1]
+			}
+		}
+	}
+	for i, c := range lc {
+		glyphs.Glyphs[i].attr.isClusterStart = i == 0 || c != lc[i-1]
+	}
+}
+
 // shapeInternal is similar to shapeRange(), except it also takes
 // flags that can influence the shaping process.
 func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemLength int, analysis *Analysis,
@@ -278,17 +301,7 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 		}
 	}
 
-	// make sure last_cluster is invalid
-	lastCluster := glyphs.LogClusters[0] - 1
-	for i, lo := range glyphs.LogClusters {
-		// Set glyphs[i].attr.is_cluster_start based on logClusters[]
-		if lo != lastCluster {
-			glyphs.Glyphs[i].attr.isClusterStart = true
-			lastCluster = lo
-		} else {
-			glyphs.Glyphs[i].attr.isClusterStart = false
-		}
-
+	for i := range glyphs.Glyphs {
 		// Shift glyph if width is negative, and negate width.
 		// This is useful for rotated font matrices and shouldn't harm in normal cases.
 		if glyphs.Glyphs[i].Geometry.Width < 0 {
@@ -305,6 +318,8 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 		glyphs.reverse()
 	}
 
+	glyphs.mergeUnorderedClusters(analysis.Level&1 != 0)
+
 	if flags&shapeROUND_POSITIONS != 0 {
 		for i := range glyphs.Glyphs {
 			glyphs.Glyphs[i].Geometry.Width = glyphs.Glyphs[i].Geometry.Width.Round()
-- 
2.43.0


From c8b4fbe8e5eda8794be8e3aab9f88490d982681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 097/152] fix: imposed shapes are in visual order in right to
 left runs

---
 pango/layout_line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 536d6a4..ab80825 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -248,6 +248,9 @@ func (line *LayoutLine) shapeRun(state *paraBreakState, item *Item) *GlyphString
 		}
 		if state.properties.shape != nil {
 			glyphs._pango_shape_shape(layout.Text[item.Offset:item.Offset+item.Length], state.properties.shape.logical)
+			if item.Analysis.Level%2 != 0 {
+				glyphs.reverse()
+			}
 		} else {
 			item.Shape(layout.Text, layout.logAttrs[state.startOffset:], glyphs, shapeFlag)
 		}
-- 
2.43.0


From 1e41ebf40ef49d20720689ea9c2a8ee0053f14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 098/152] fix: justification terminates with clusters that
 can't be expanded

---
 pango/layout_line.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index ab80825..2ed5780 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -841,12 +841,14 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 				clusterIter GlyphItemIter
 				haveCluster bool
 			)
+			nextCluster := clusterIter.NextCluster
 			if dir > 0 {
 				haveCluster = clusterIter.InitStart(run, text)
 			} else {
 				haveCluster = clusterIter.InitEnd(run, text)
+				nextCluster = clusterIter.PrevCluster
 			}
-			for haveCluster {
+			for ; haveCluster; haveCluster = nextCluster() {
 				/* don't expand in the middle of graphemes */
 				if !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
 					continue
@@ -903,12 +905,6 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 						addedSoFar += spaceRight
 					}
 				}
-
-				if dir > 0 {
-					haveCluster = clusterIter.NextCluster()
-				} else {
-					haveCluster = clusterIter.PrevCluster()
-				}
 			}
 		}
 
-- 
2.43.0


From 2ee5b8a1e6d0a9659fa1d6332a6044f2a871349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 099/152] fix: the width of an item is known before looking for
 a way to break it

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index bdd41f6..3451c1d 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1471,7 +1471,6 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// From here on, we look for a way to break item
 
-	width = 0
 	var (
 		orig_width      = width
 		origExtraWidth  = extraWidth
@@ -1496,6 +1495,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 	}
 
 retryBreak:
+	width = 0
 	limit := item.Length + 1
 	if noBreakAtEnd {
 		limit--
-- 
2.43.0


From fd40147d67ad8dff3fca674f1ed66a59569f81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 100/152] fix: wrapping between characters also allows line
 breaks

---
 pango/layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 3451c1d..6bfd726 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1161,7 +1161,8 @@ func (layout *Layout) canBreakAt(offset int, wrap WrapMode) bool {
 	if offset == len(layout.Text) {
 		return true
 	} else if wrap == WRAP_CHAR {
-		return layout.logAttrs[offset].IsCharBreak()
+		// breaking between words is always allowed
+		return layout.logAttrs[offset].IsCharBreak() || layout.logAttrs[offset].IsLineBreak()
 	} else {
 		return layout.logAttrs[offset].IsLineBreak()
 	}
-- 
2.43.0


From acccfb3d8fd6b7d7ea5345d17fd01e35e9f7348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 101/152] fix: index to x conversion with graphemes over
 several runs

---
 pango/glyphs.go      |  6 ++++--
 pango/layout_line.go | 24 +++++++++++++-----------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index cffe7ba..7c02ab1 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -486,8 +486,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Calculate offset of character within cluster.
 	// To come up with accurate answers here, we need to know grapheme
 	// boundaries.
-	clusterChars := endIndex - startIndex
-	clusterOffset := index - startIndex
+	clusterChars, clusterOffset := 0, 0
 
 	for i := startIndex; i < endIndex; i++ {
 		if logAttrs != nil && !logAttrs[i].IsCursorPosition() {
@@ -505,6 +504,9 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	}
 
 	if clusterChars == 0 /* pedantic */ {
+		if trailing {
+			return endXpos
+		}
 		return startXpos
 	}
 
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 2ed5780..9b1c5f0 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1203,21 +1203,23 @@ func (line *LayoutLine) IndexToX(index int, trailing bool) Unit {
 	layout := line.layout
 	var width Unit
 
+	// go to the edge of the grapheme, which may be in another run
+	if index >= line.StartIndex && index < line.StartIndex+line.Length {
+		if trailing {
+			for index+1 < line.StartIndex+line.Length && !layout.logAttrs[index+1].IsCursorPosition() {
+				index++
+			}
+		} else {
+			for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
+				index--
+			}
+		}
+	}
+
 	for runList := line.Runs; runList != nil; runList = runList.Next {
 		run := runList.Data
 
 		if run.Item.Offset <= index && run.Item.Offset+run.Item.Length > index {
-			if trailing {
-				for index < line.StartIndex+line.Length && index+1 < len(layout.Text) &&
-					!layout.logAttrs[index+1].IsCursorPosition() {
-					index++
-				}
-			} else {
-				for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
-					index--
-				}
-			}
-
 			attrOffset := run.Item.Offset
 			xPos := run.Glyphs.indexToXFull(layout.Text[attrOffset:attrOffset+run.Item.Length],
 				&run.Item.Analysis, index-attrOffset, trailing, layout.logAttrs[attrOffset:])
-- 
2.43.0


From 7d053b405ec1e1aeab113c27ea5b3d9861ecf498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 102/152] fix: tab arrays are really copied

---
 pango/tabs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pango/tabs.go b/pango/tabs.go
index ff14e27..d8a7f73 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -40,10 +40,10 @@ func (tabs *TabArray) Copy() *TabArray {
 	if tabs == nil {
 		return nil
 	}
-	copy := tabs
+	copy := *tabs
 	copy.Tabs = append([]Tab(nil), tabs.Tabs...)
 
-	return copy
+	return &copy
 }
 
 // sort ensure that the tab stops are in increasing order.
@@ -52,7 +52,7 @@ func (tabs *TabArray) sort() {
 		return
 	}
 	s := tabs.Tabs
-	sort.Slice(s, func(i, j int) bool { return s[i].Location < s[j].Location })
+	sort.SliceStable(s, func(i, j int) bool { return s[i].Location < s[j].Location })
 }
 
 type lastTabState struct {
-- 
2.43.0


From 0c3476897f9f2a1290bbfd152ad32aca7a0e87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 103/152] fix: changing the ellipsization mode always updates
 lines of limited width

---
 pango/layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 6bfd726..6e30ef2 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -344,7 +344,8 @@ func (layout *Layout) SetEllipsize(ellipsize EllipsizeMode) {
 	if ellipsize != layout.ellipsize {
 		layout.ellipsize = ellipsize
 
-		if layout.isEllipsized || layout.isWrapped {
+		// a line may be too long without being wrapped
+		if layout.Width >= 0 {
 			layout.layoutChanged()
 		}
 	}
-- 
2.43.0


From f774290fb2611b2155dcfe4a931f5a71eee6e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 104/152] fix: attribute lists differing by the order of
 conflicting attributes are not equal

---
 pango/attributes.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 938a317..3ba886a 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -835,31 +835,25 @@ func (list *AttrList) Change(attr *Attribute) {
 
 // Checks whether `list` and `otherList` contain the same attributes and
 // whether those attributes apply to the same ranges.
-// Beware that this will return wrong values if any list contains duplicates.
 func (list AttrList) pango_attr_list_equal(otherList AttrList) bool {
 	if len(list) != len(otherList) {
 		return false
 	}
 
-	var skipBitmask uint64
+	matched := make([]bool, len(otherList))
 	for _, attr := range list {
 		attrEqual := false
 		for otherAttrIndex, otherAttr := range otherList {
-			var otherAttrBitmask uint64
-			if otherAttrIndex < 64 {
-				otherAttrBitmask = 1 << otherAttrIndex
-			}
-
-			if (skipBitmask & otherAttrBitmask) != 0 {
+			// the order of attributes of the same type matters,
+			// since the last one wins
+			if matched[otherAttrIndex] || attr.Kind != otherAttr.Kind {
 				continue
 			}
 
-			if attr.StartIndex == otherAttr.StartIndex &&
-				attr.EndIndex == otherAttr.EndIndex && attr.equals(*otherAttr) {
-				skipBitmask |= otherAttrBitmask
-				attrEqual = true
-				break
-			}
+			attrEqual = attr.StartIndex == otherAttr.StartIndex &&
+				attr.EndIndex == otherAttr.EndIndex && attr.equals(*otherAttr)
+			matched[otherAttrIndex] = true
+			break
 		}
 
 		if !attrEqual {
-- 
2.43.0


From f3d3106d86a84133b78710d8998882b8df6b632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 105/152] fix: the height only matters together with a width
 and an ellipsization mode

---
 pango/layout.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 6e30ef2..eb04016 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -295,12 +295,7 @@ func (layout *Layout) SetHeight(height Unit) {
 	if height != layout.Height {
 		layout.Height = height
 
-		/* Do not invalidate if the number of lines requested is
-		* larger than the total number of lines in layout.
-		* Bug 549003
-		 */
-		if layout.ellipsize != ELLIPSIZE_NONE &&
-			!(layout.isEllipsized == false && height < 0 && len(layout.lines) <= -int(height)) {
+		if layout.ellipsize != ELLIPSIZE_NONE && layout.Width >= 0 {
 			layout.layoutChanged()
 		}
 	}
@@ -1925,7 +1920,8 @@ func (layout *Layout) checkLines() {
 	// these are only used if layout.height >= 0
 	state.remainingHeight = layout.Height
 	state.lineHeight = -1
-	if layout.Height >= 0 {
+	limitedHeight := layout.Height >= 0 && layout.Width >= 0 && layout.ellipsize != ELLIPSIZE_NONE
+	if limitedHeight {
 		var logical Rectangle
 		height := layout.getEmptyExtentsAndHeightAt(0, &logical, true)
 		if layout.LineSpacing == 0 {
@@ -2044,7 +2040,7 @@ func (layout *Layout) checkLines() {
 			emptyLine.addLine(&state)
 		}
 
-		if layout.Height >= 0 && state.remainingHeight < state.lineHeight {
+		if limitedHeight && state.remainingHeight < state.lineHeight {
 			done = true
 		}
 
-- 
2.43.0


From e9e766e3cac73c2e9f07041f73f3e6320fccb90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 106/152] fix: character attributes of the previous text are
 not reused

---
 pango/layout.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index eb04016..eec6f4a 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1894,12 +1894,7 @@ func (layout *Layout) checkLines() {
 	}
 
 	if len(layout.logAttrs) == 0 {
-		L := len(layout.Text) + 1
-		if cap(layout.logAttrs) >= L {
-			layout.logAttrs = layout.logAttrs[:L]
-		} else {
-			layout.logAttrs = make([]CharAttr, L)
-		}
+		layout.logAttrs = make([]CharAttr, len(layout.Text)+1)
 		needLogAttrs = true
 	} else {
 		needLogAttrs = false
-- 
2.43.0


From d3c8bc3d4af0238b8cf58f541fe3ec8677378e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 107/152] fix: line extents take into account the attributes
 applied last

---
 pango/layout.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index eec6f4a..2f9dd2d 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1864,6 +1864,11 @@ func (layout *Layout) applyAttributesToRuns(attrs AttrList) {
 
 			line.Runs = new_runs.concat(line.Runs)
 		}
+
+		// the extents may have been computed to limit the height
+		if line.cacheStatus == cached {
+			line.cacheStatus = notCached
+		}
 	}
 }
 
-- 
2.43.0


From 07d41dfe47b78ec606b793fd6833432ae3ae22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 108/152] fix: ellipsizing does not change the ranges of the
 attributes

---
 pango/ellipsize.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index aa62b6a..ba06c7a 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -221,10 +221,11 @@ func (state *ellipsizeState) shapeEllipsis() {
 
 	// Create an attribute list
 	runAttrs := state.gapStartAttr.getAttributes()
-	for _, attr := range runAttrs {
+	for _, runAttr := range runAttrs {
+		attr := *runAttr // the attributes are shared with the layout: do not change them
 		attr.StartIndex = 0
 		attr.EndIndex = MaxInt
-		attrs.Insert(attr)
+		attrs.Insert(&attr)
 	}
 
 	fallback := NewAttrFallback(false)
-- 
2.43.0


From 89cfad465839ee45a5f2e90717871ff271c5e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 109/152] fix: attribute lists in a different order are not
 equal

---
 pango/attributes.go | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ba886a..9eb3dc9 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -833,30 +833,18 @@ func (list *AttrList) Change(attr *Attribute) {
 	list.Insert(attr)
 }
 
-// Checks whether `list` and `otherList` contain the same attributes and
-// whether those attributes apply to the same ranges.
+// Checks whether `list` and `otherList` contain the same attributes, in the same
+// order (the last attributes take precedence), and whether those attributes
+// apply to the same ranges.
 func (list AttrList) pango_attr_list_equal(otherList AttrList) bool {
 	if len(list) != len(otherList) {
 		return false
 	}
 
-	matched := make([]bool, len(otherList))
-	for _, attr := range list {
-		attrEqual := false
-		for otherAttrIndex, otherAttr := range otherList {
-			// the order of attributes of the same type matters,
-			// since the last one wins
-			if matched[otherAttrIndex] || attr.Kind != otherAttr.Kind {
-				continue
-			}
-
-			attrEqual = attr.StartIndex == otherAttr.StartIndex &&
-				attr.EndIndex == otherAttr.EndIndex && attr.equals(*otherAttr)
-			matched[otherAttrIndex] = true
-			break
-		}
-
-		if !attrEqual {
+	for i, attr := range list {
+		otherAttr := otherList[i]
+		if attr.StartIndex != otherAttr.StartIndex ||
+			attr.EndIndex != otherAttr.EndIndex || !attr.equals(*otherAttr) {
 			return false
 		}
 	}
-- 
2.43.0


From 33dd4fea2be251fa6f95fc69997dba8dcf9a9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 110/152] fix: the index at the end of a line is the end of the
 line, even with mixed directions

---
 pango/layout_iter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/layout_iter.go b/pango/layout_iter.go
index 422e298..78d11bf 100644
--- a/pango/layout_iter.go
+++ b/pango/layout_iter.go
@@ -258,7 +258,8 @@ func (iter *LayoutIter) NextRun() bool {
 	var nextRunStart int
 	if nextLink == nil {
 		// Moving on to the zero-width "virtual run" at the end of each line
-		nextRunStart = iter.run.Item.Offset + iter.run.Item.Length
+		// (the last visual run may not be the last one in the text)
+		nextRunStart = iter.line().StartIndex + iter.line().Length
 		iter.run = nil
 		iter.runs = nil
 	} else {
-- 
2.43.0


From b3f0ba709c06f343907e67f3cb1c898a0ad3d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 111/152] fix: the extents of a run with a shape take its
 letter spacing and tabs into account

---
 pango/glyph_item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/glyph_item.go b/pango/glyph_item.go
index 0f25627..548dfad 100644
--- a/pango/glyph_item.go
+++ b/pango/glyph_item.go
@@ -231,6 +231,10 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if properties.shape != nil {
 		properties.shape.getExtents(int32(run.Item.Length), runInk, runLogical)
+		if runLogical != nil {
+			// tabs, letter spacing and justification change the width of the glyphs
+			runLogical.Width = run.Glyphs.getWidth()
+		}
 	} else {
 		run.Glyphs.Extents(run.Item.Analysis.Font, runInk, runLogical)
 	}
-- 
2.43.0


From b4db817480cb5b15979e27af521ee87c4a7f4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 112/152] fix: hyphens are only drawn at the end of the lines

---
 pango/layout.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 2f9dd2d..669b903 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1614,15 +1614,18 @@ retryBreak:
 	}
 
 	if forceFit || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
+		if breakNumChars == item.Length {
+			// the line may go on after the item: the hyphen, if it is
+			// needed at the end of the line, is added later
+			breakExtraWidth = 0
+		}
+
 		if state.remainingWidth >= 0 {
 			state.remainingWidth -= breakWidth + breakExtraWidth
 			state.remainingWidth = maxG(state.remainingWidth, 0)
 		}
 
 		if breakNumChars == item.Length {
-			if layout.canBreakAt(state.startOffset+breakNumChars, wrap) && layout.breakNeedsHyphen(state, breakNumChars) {
-				item.Analysis.Flags |= AFNeedHyphen
-			}
 			line.insertRun(state, item, nil, true)
 
 			if debugMode {
-- 
2.43.0


From 2b1b5491e6ffb021f66e619f5b0e7395ff747a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 113/152] fix: the room taken by a hyphen depends on the font
 of the text before it

---
 pango/layout.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 669b903..8db26ac 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1218,6 +1218,7 @@ type paraBreakState struct {
 	remainingWidth Unit /* Amount of space remaining on line; < 0 is infinite */
 
 	hyphen_width Unit /* How much space a hyphen will take */
+	hyphen_font  Font /* The font used to compute hyphen_width */
 
 	baselineShifts list.List
 
@@ -1258,20 +1259,26 @@ func (state *paraBreakState) resizeLogicalWidths(newLen int) {
 	}
 }
 
-func (state *paraBreakState) ensure_hyphen_width() {
-	if state.hyphen_width < 0 {
-		item := state.items.Data
+// ensure_hyphen_width updates state.hyphen_width for an hyphen after the
+// given item
+func (state *paraBreakState) ensure_hyphen_width(item *Item) {
+	if state.hyphen_width < 0 || state.hyphen_font != item.Analysis.Font {
 		state.hyphen_width = item.find_hyphen_width()
+		state.hyphen_font = item.Analysis.Font
 	}
 }
 
-func (layout *Layout) find_break_extraWidth(state *paraBreakState, pos int) Unit {
+func (layout *Layout) find_break_extraWidth(line *LayoutLine, state *paraBreakState, pos int) Unit {
 	// Check whether to insert a hyphen
 	// or whether we are breaking after one of those
 	// characters that turn into a hyphen,
 	// or after a space.
 	if attr := layout.logAttrs[state.startOffset+pos]; attr.IsBreakInsertsHyphen() {
-		state.ensure_hyphen_width()
+		item := state.items.Data
+		if pos == 0 && line.Runs != nil { // the hyphen is added to the previous run
+			item = line.Runs.Data.Item
+		}
+		state.ensure_hyphen_width(item)
 
 		if attr.IsBreakRemovesPreceding() && pos > 0 {
 			return state.hyphen_width - state.logWidths[state.logWidthsOffset+pos-1]
@@ -1436,7 +1443,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 			layout.computeLogWidths(state)
 			processingNewItem = false
 		}
-		extraWidth = layout.find_break_extraWidth(state, item.Length)
+		extraWidth = layout.find_break_extraWidth(line, state, item.Length)
 	}
 
 	if (width+extraWidth <= state.remainingWidth || (item.Length == 1 && line.Runs == nil) ||
@@ -1498,7 +1505,7 @@ retryBreak:
 		limit--
 	}
 	for numChars = 0; numChars < limit; numChars++ {
-		extraWidth = layout.find_break_extraWidth(state, numChars)
+		extraWidth = layout.find_break_extraWidth(line, state, numChars)
 
 		// We don't want to walk the entire item if we can help it, but
 		// we need to keep going at least until we've found a breakpoint
-- 
2.43.0


From 3e210e58df8adce3ff8ddf63a5923e8731439c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 114/152] fix: when a hyphen does not fit, break the line
 earlier

---
 pango/layout.go | 98 +++++++++++++++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 35 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 8db26ac..f86856a 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1164,14 +1164,14 @@ func (layout *Layout) canBreakAt(offset int, wrap WrapMode) bool {
 	}
 }
 
-func (layout *Layout) canBreakIn(startOffset, Length int, allowBreakAtStart bool) bool {
+func (layout *Layout) canBreakIn(startOffset, Length int, allowBreakAtStart bool, wrap WrapMode) bool {
 	i := 1
 	if allowBreakAtStart {
 		i = 0
 	}
 
 	for ; i < Length; i++ {
-		if layout.canBreakAt(startOffset+i, layout.wrap) {
+		if layout.canBreakAt(startOffset+i, wrap) {
 			return true
 		}
 	}
@@ -1223,6 +1223,9 @@ type paraBreakState struct {
 	baselineShifts list.List
 
 	lastTab lastTabState
+
+	haveCharBreak bool /* WRAP_WORD_CHAR only: the previous items of the line have breaks inside their words */
+	useCharBreaks bool /* WRAP_WORD_CHAR only: words have to be broken */
 }
 
 func (item *Item) get_decimal_prefix_width(glyphs *GlyphString, text []rune, decimal rune) (width Unit, found bool) {
@@ -1488,6 +1491,11 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 		numChars    int
 	)
 
+	retryPrevious := false // go back to the words of the previous items instead of overflowing
+	if state.useCharBreaks {
+		wrap = WRAP_CHAR
+	}
+
 	// Add some safety margin here. If we are farther away from the end of the
 	// line than this, we don't look carefully at a break possibility.
 	metrics := FontGetMetrics(item.Analysis.Font, item.Analysis.Language)
@@ -1612,6 +1620,7 @@ retryBreak:
 			fmt.Printf("does not fit, try again with wrap-char\n")
 		}
 		wrap = WRAP_CHAR
+		retryPrevious = state.haveCharBreak
 		breakNumChars = item.Length
 		breakWidth = orig_width
 		breakExtraWidth = origExtraWidth
@@ -1620,7 +1629,7 @@ retryBreak:
 		goto retryBreak
 	}
 
-	if forceFit || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
+	if (forceFit && !retryPrevious) || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
 		if breakNumChars == item.Length {
 			// the line may go on after the item: the hyphen, if it is
 			// needed at the end of the line, is added later
@@ -1696,14 +1705,19 @@ func (layout *Layout) shouldEllipsizeCurrentLine(state *paraBreakState) bool {
 	}
 }
 
+// lineBreakItem is an item of a line with a possible break
+type lineBreakItem struct {
+	remainingWidth Unit     /* Remaining width before adding the item */
+	startOffset    int      /* Start offset before adding the item */
+	link           *RunList /* Link holding the run before the item */
+}
+
 // the hard work begins here !
 func (layout *Layout) processLine(state *paraBreakState) {
 	var (
-		haveBreak           = false  /* If we've seen a possible break yet */
-		breakRemainingWidth Unit     /* Remaining width before adding run with break */
-		breakStartOffset    = 0      /* Start offset before adding run with break */
-		breakLink           *RunList /* Link holding run before break */
-		wrapped             = false  /* If we had to wrap the line */
+		breaks     []lineBreakItem /* The items of the line with a possible break */
+		charBreaks []lineBreakItem /* The other items of the line whose words may be broken (WRAP_WORD_CHAR) */
+		wrapped    = false         /* If we had to wrap the line */
 	)
 
 	line := layout.newLine()
@@ -1745,19 +1759,23 @@ func (layout *Layout) processLine(state *paraBreakState) {
 		firstItemInLine := line.Runs == nil
 		lastItemInLine := state.items.Next == nil
 
-		result := layout.tryAddItemToLine(line, state, !haveBreak, false, lastItemInLine)
+		state.haveCharBreak = len(charBreaks) != 0
+		result := layout.tryAddItemToLine(line, state, len(breaks) == 0, false, lastItemInLine)
+		state.haveCharBreak = false
 
 		switch result {
 		case brALL_FIT:
-			if layout.Text[item.Offset] != '\t' &&
-				layout.canBreakIn(state.startOffset, oldNumChars, !firstItemInLine) {
-				haveBreak = true
-				breakRemainingWidth = oldRemainingWidth
-				breakStartOffset = state.startOffset
-				breakLink = line.Runs.Next
+			if layout.Text[item.Offset] != '\t' {
+				breakItem := lineBreakItem{oldRemainingWidth, state.startOffset, line.Runs.Next}
+				if layout.canBreakIn(state.startOffset, oldNumChars, !firstItemInLine, layout.wrap) {
+					breaks = append(breaks, breakItem)
 
-				if debugMode {
-					fmt.Println("all-fit, have break")
+					if debugMode {
+						fmt.Println("all-fit, have break")
+					}
+				} else if layout.wrap == WRAP_WORD_CHAR &&
+					layout.canBreakIn(state.startOffset, oldNumChars, !firstItemInLine, WRAP_CHAR) {
+					charBreaks = append(charBreaks, breakItem)
 				}
 			}
 			state.items = state.items.Next
@@ -1770,29 +1788,39 @@ func (layout *Layout) processLine(state *paraBreakState) {
 			wrapped = true
 			goto done
 		case brNONE_FIT:
-			// Back up over unused runs to run where there is a break
-			for line.Runs != nil && line.Runs != breakLink {
-				run := line.Runs.Data
-
-				// If we uninsert the current tab run,  we need to reset the tab state
-				if run.Glyphs == state.lastTab.glyphs {
-					state.lastTab.glyphs = nil
-					state.lastTab.index = 0
-					state.lastTab.tab.Alignment = TAB_LEFT
+			if len(breaks) == 0 {
+				breaks = charBreaks
+				state.useCharBreaks = true
+			}
+
+			// If a break does not fit (because of its hyphen), try the previous ones
+			for i := len(breaks) - 1; i >= 0 && result == brNONE_FIT; i-- {
+				// Back up over unused runs to run where there is a break
+				for line.Runs != nil && line.Runs != breaks[i].link {
+					run := line.Runs.Data
+
+					// If we uninsert the current tab run,  we need to reset the tab state
+					if run.Glyphs == state.lastTab.glyphs {
+						state.lastTab.glyphs = nil
+						state.lastTab.index = 0
+						state.lastTab.tab.Alignment = TAB_LEFT
+					}
+
+					state.items = &ItemList{Data: line.uninsert_run(), Next: state.items}
 				}
 
-				state.items = &ItemList{Data: line.uninsert_run(), Next: state.items}
-			}
+				state.startOffset = breaks[i].startOffset
+				state.remainingWidth = breaks[i].remainingWidth
+				lastItemInLine = state.items.Next == nil
 
-			state.startOffset = breakStartOffset
-			state.remainingWidth = breakRemainingWidth
-			lastItemInLine = state.items.Next == nil
+				/* Reshape run to break */
+				item = state.items.Data
 
-			/* Reshape run to break */
-			item = state.items.Data
+				oldNumChars = item.Length
+				result = layout.tryAddItemToLine(line, state, i == 0, true, lastItemInLine)
+			}
+			state.useCharBreaks = false
 
-			oldNumChars = item.Length
-			result = layout.tryAddItemToLine(line, state, true, true, lastItemInLine)
 			if debugMode {
 				assert(result == brSOME_FIT || result == brEMPTY_FIT, "processLines: break")
 			}
-- 
2.43.0


From 4067c2ee87bc0def7a173c35b643913ad11d0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 115/152] fix: imposed shapes have no hyphen

---
 pango/layout.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index f86856a..d35f25e 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1281,6 +1281,9 @@ func (layout *Layout) find_break_extraWidth(line *LayoutLine, state *paraBreakSt
 		if pos == 0 && line.Runs != nil { // the hyphen is added to the previous run
 			item = line.Runs.Data.Item
 		}
+		if item.getProperties().shape != nil { // imposed shapes have no hyphen
+			return 0
+		}
 		state.ensure_hyphen_width(item)
 
 		if attr.IsBreakRemovesPreceding() && pos > 0 {
@@ -1569,7 +1572,7 @@ retryBreak:
 					layout.logAttrs[state.startOffset+numChars-1].IsWhite() {
 					extraWidth = -state.logWidths[state.logWidthsOffset+numChars-1]
 				} else if item == newItem && !isLastItem && layout.breakNeedsHyphen(state, numChars) {
-					extraWidth = state.hyphen_width
+					extraWidth = layout.find_break_extraWidth(line, state, numChars)
 				} else {
 					extraWidth = 0
 				}
-- 
2.43.0


From 6a95e1de77efa3b30c13a86cecc46bb57789c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 116/152] fix: do not use the glyphs of another break

---
 pango/layout.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/layout.go b/pango/layout.go
index d35f25e..853020a 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1551,6 +1551,7 @@ retryBreak:
 				breakNumChars = numChars
 				breakWidth = width
 				breakExtraWidth = extraWidth
+				breakGlyphs = nil // shaped for another break
 			} else {
 				newItem := item
 				if numChars < item.Length {
-- 
2.43.0


From 261ddd348da568ea1cbf2da67463214d1457e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 117/152] fix: the hyphen added at the end of a line respects
 the attributes of its run

---
 pango/layout_line.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 9b1c5f0..5eb7fc9 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -524,13 +524,14 @@ func (line *LayoutLine) addMissingHyphen(state *paraBreakState, run *GlyphItem)
 		 * to the state before the run was inserted. Otherwise, we end up passing
 		 * the wrong log attrs to the shaping machinery.
 		 */
-		startOffset := state.startOffset
+		startOffset, properties := state.startOffset, state.properties
 		state.startOffset = state.lineStartIndex + lineChars - item.Length
+		state.properties = item.getProperties()
 
 		item.Analysis.Flags |= AFNeedHyphen
 		run.Glyphs = line.shapeRun(state, item)
 
-		state.startOffset = startOffset
+		state.startOffset, state.properties = startOffset, properties
 
 		state.remainingWidth += run.Glyphs.getWidth() - width
 	}
-- 
2.43.0


From a7cee9886e81e2d8350bee2ae23266733e70e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 118/152] fix: the lines are justified from their final width

---
 pango/layout_line.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 5eb7fc9..c616d90 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -483,10 +483,9 @@ func (line *LayoutLine) postprocess(state *paraBreakState, wrapped bool) {
 
 	// Distribute extra space between words if justifying and line was wrapped
 	if line.layout.Justify && (wrapped || ellipsized || line.layout.JustifyLastLine) {
-		/* if we ellipsized, we don't have remaining_width set */
-		if state.remainingWidth < 0 {
-			state.remainingWidth = state.lineWidth - line.getWidth()
-		}
+		/* if we ellipsized, we don't have remaining_width set, and the final
+		 * space, the hyphen and the letter spacing have changed the width */
+		state.remainingWidth = state.lineWidth - line.getWidth()
 
 		line.justifyWords(state)
 	}
-- 
2.43.0


From 9e335ff07ee9e94f4b15c5349bdb1a73155f64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 119/152] fix: the baseline shifts end with their attribute

---
 pango/layout.go      |   5 +-
 pango/layout_line.go | 132 ++++++++++++++++++-------------------------
 2 files changed, 57 insertions(+), 80 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 853020a..484e26d 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1,7 +1,6 @@
 package pango
 
 import (
-	"container/list"
 	"fmt"
 	"unicode/utf8"
 )
@@ -1220,7 +1219,7 @@ type paraBreakState struct {
 	hyphen_width Unit /* How much space a hyphen will take */
 	hyphen_font  Font /* The font used to compute hyphen_width */
 
-	baselineShifts list.List
+	baselineShifts []baselineItem
 
 	lastTab lastTabState
 
@@ -1974,7 +1973,7 @@ func (layout *Layout) checkLines() {
 	}
 
 	state.logWidths = state.logWidths[:0]
-	state.baselineShifts.Init()
+	state.baselineShifts = nil
 
 	if debugMode {
 		fmt.Printf("START layout for %s\n", string(layout.Text))
diff --git a/pango/layout_line.go b/pango/layout_line.go
index c616d90..107c31b 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1,9 +1,7 @@
 package pango
 
 import (
-	"container/list"
 	"fmt"
-	"log"
 	"math"
 
 	"github.com/benoitkugler/textlayout/fonts"
@@ -1329,76 +1327,67 @@ type baselineItem struct {
 	xOffset, yOffset Unit
 }
 
-func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffset, startYOffset, endXOffset, endYOffset Unit) {
-	for _, attr := range item.Analysis.ExtraAttrs {
-		if attr.Kind == ATTR_RISE {
-			value := Unit(attr.Data.(AttrInt))
-			startYOffset += value
-			endYOffset -= value
-		} else if attr.Kind == ATTR_BASELINE_SHIFT {
-			if attr.StartIndex == item.Offset {
-
-				entry := baselineItem{attr: attr}
-				state.baselineShifts.PushFront(entry)
-
-				value := Unit(attr.Data.(AttrInt))
+// baselineShift returns the offsets of a baseline shift, which are
+// computed from the run before its first one.
+func (state *paraBreakState) baselineShift(attr *Attribute, prev *Item) baselineItem {
+	value := Unit(attr.Data.(AttrInt))
+	for _, entry := range state.baselineShifts {
+		if attr.StartIndex == entry.attr.StartIndex && attr.EndIndex == entry.attr.EndIndex &&
+			value == Unit(entry.attr.Data.(AttrInt)) {
+			return entry
+		}
+	}
 
-				if value > 1024 || value < -1024 {
-					entry.yOffset = value
-				} else {
-					var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
+	entry := baselineItem{attr: attr}
+	if value > 1024 || value < -1024 {
+		entry.yOffset = value
+	} else {
+		var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
+
+		if prev != nil && prev.Analysis.Font != nil {
+			face := prev.Analysis.Font.GetHarfbuzzFont().Face()
+			superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
+			superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
+			subscriptYOffset, _ = face.LineMetric(fonts.SubscriptEmYOffset)
+			subscriptXOffset, _ = face.LineMetric(fonts.SubscriptEmXOffset)
+		}
 
-					if prev != nil && prev.Analysis.Font != nil {
-						face := prev.Analysis.Font.GetHarfbuzzFont().Face()
-						superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
-						superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
-						subscriptYOffset, _ = face.LineMetric(fonts.SubscriptEmYOffset)
-						subscriptXOffset, _ = face.LineMetric(fonts.SubscriptEmXOffset)
-					}
+		if superscriptYOffset == 0 {
+			superscriptYOffset = 5000
+		}
+		if subscriptYOffset == 0 {
+			subscriptYOffset = 5000
+		}
 
-					if superscriptYOffset == 0 {
-						superscriptYOffset = 5000
-					}
-					if subscriptYOffset == 0 {
-						subscriptYOffset = 5000
-					}
+		switch BaselineShift(value) {
+		case BASELINE_SHIFT_NONE:
+			entry.xOffset = 0
+			entry.yOffset = 0
+		case BASELINE_SHIFT_SUPERSCRIPT:
+			entry.xOffset = Unit(superscriptXOffset)
+			entry.yOffset = Unit(superscriptYOffset)
+		case BASELINE_SHIFT_SUBSCRIPT:
+			entry.xOffset = Unit(subscriptXOffset)
+			entry.yOffset = Unit(-subscriptYOffset)
+		}
+	}
+	state.baselineShifts = append(state.baselineShifts, entry)
+	return entry
+}
 
-					switch BaselineShift(value) {
-					case BASELINE_SHIFT_NONE:
-						entry.xOffset = 0
-						entry.yOffset = 0
-					case BASELINE_SHIFT_SUPERSCRIPT:
-						entry.xOffset = Unit(superscriptXOffset)
-						entry.yOffset = Unit(superscriptYOffset)
-					case BASELINE_SHIFT_SUBSCRIPT:
-						entry.xOffset = Unit(subscriptXOffset)
-						entry.yOffset = Unit(-subscriptYOffset)
-					}
-				}
+func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffset, yOffset, endXOffset Unit) {
+	for _, attr := range item.Analysis.ExtraAttrs {
+		if attr.Kind == ATTR_RISE {
+			yOffset += Unit(attr.Data.(AttrInt))
+		} else if attr.Kind == ATTR_BASELINE_SHIFT {
+			entry := state.baselineShift(attr, prev)
+			yOffset += entry.yOffset
 
+			if attr.StartIndex == item.Offset {
 				startXOffset += entry.xOffset
-				startYOffset += entry.yOffset
 			}
-
 			if attr.EndIndex == item.Offset+item.Length {
-				var t *list.Element
-
-				for t = state.baselineShifts.Front(); t != nil; t = t.Next() {
-					entry := t.Value.(baselineItem)
-
-					if attr.StartIndex == entry.attr.StartIndex &&
-						attr.EndIndex == entry.attr.EndIndex &&
-						attr.Data.(AttrInt) == entry.attr.Data.(AttrInt) {
-						endXOffset -= entry.xOffset
-						endYOffset -= entry.yOffset
-					}
-
-					state.baselineShifts.Remove(t)
-					break
-				}
-				if t == nil && debugMode {
-					log.Println("Baseline attributes mismatch")
-				}
+				endXOffset -= entry.xOffset
 			}
 		}
 	}
@@ -1406,23 +1395,12 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 }
 
 func (line *LayoutLine) applyBaselineShift(state *paraBreakState) {
-	var (
-		yOffset Unit
-		prev    *Item
-	)
+	var prev *Item
 	for l := line.Runs; l != nil; l = l.Next {
 		run := l.Data
 		item := run.Item
 
-		startXOffset, startYOffset, endXOffset, endYOffset := state.collectBaselineShift(item, prev)
-
-		yOffset += startYOffset
-
-		run.yOffset = yOffset
-		run.startXOffset = startXOffset
-		run.endXOffset = endXOffset
-
-		yOffset += endYOffset
+		run.startXOffset, run.yOffset, run.endXOffset = state.collectBaselineShift(item, prev)
 
 		prev = item
 	}
-- 
2.43.0


From 5ac382ea74d1bf0f5bef7603d3203d4e6118b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 120/152] fix: the offsets of superscripts and subscripts
 follow the metrics of the font

---
 pango/layout_line.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 107c31b..b1fa8bf 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -5,6 +5,7 @@ import (
 	"math"
 
 	"github.com/benoitkugler/textlayout/fonts"
+	"github.com/benoitkugler/textlayout/fonts/truetype"
 	"github.com/benoitkugler/textprocessing/fribidi"
 )
 
@@ -1345,11 +1346,21 @@ func (state *paraBreakState) baselineShift(attr *Attribute, prev *Item) baseline
 		var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
 
 		if prev != nil && prev.Analysis.Font != nil {
-			face := prev.Analysis.Font.GetHarfbuzzFont().Face()
-			superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
+			hbFont := prev.Analysis.Font.GetHarfbuzzFont()
+			face := hbFont.Face()
+			if tt, ok := face.(*truetype.Font); ok && tt.OS2 != nil { // not exposed by LineMetric
+				superscriptYOffset = float32(tt.OS2.YSuperscriptYOffset)
+			}
 			superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
 			subscriptYOffset, _ = face.LineMetric(fonts.SubscriptEmYOffset)
 			subscriptXOffset, _ = face.LineMetric(fonts.SubscriptEmXOffset)
+
+			// the metrics are in font units
+			upem := float32(face.Upem())
+			superscriptXOffset *= float32(hbFont.XScale) / upem
+			superscriptYOffset *= float32(hbFont.YScale) / upem
+			subscriptXOffset *= float32(hbFont.XScale) / upem
+			subscriptYOffset *= float32(hbFont.YScale) / upem
 		}
 
 		if superscriptYOffset == 0 {
-- 
2.43.0


From 641d1aee468a483c6599658cefe134bd6ceca60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 121/152] fix: lines stretched between their characters fill
 the width

---
 pango/layout_line.go | 47 ++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index b1fa8bf..5ee96ac 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -800,13 +800,17 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 	/* hint to full pixel if total remaining width was so */
 	isHinted := (totalRemainingWidth & (Scale - 1)) == 0
 
+	// width added between the clusters n and n+1
+	gapWidth := func(n Unit) Unit {
+		before := Unit(uint64(n-1) * uint64(totalRemainingWidth) / uint64(totalGaps))
+		after := Unit(uint64(n) * uint64(totalRemainingWidth) / uint64(totalGaps))
+		if isHinted {
+			before, after = before.Round(), after.Round()
+		}
+		return after - before
+	}
+
 	for mode := measure; mode <= adjust; mode++ {
-		var (
-			residual        Unit
-			leftedge        = true
-			rightmostGlyphs *GlyphString
-			rightmostSpace  Unit
-		)
 		addedSoFar = 0
 		gapsSoFar = 0
 
@@ -866,16 +870,6 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 				gapsSoFar++
 
 				if mode == adjust {
-
-					adjustment := totalRemainingWidth/totalGaps + residual
-					if isHinted {
-						old_adjustment := adjustment
-						adjustment = adjustment.Round()
-						residual = old_adjustment - adjustment
-					}
-					/* distribute to before/after */
-					spaceLeft, spaceRight := distributeLetterSpacing(adjustment)
-
 					var leftmost, rightmost int
 					if clusterIter.startGlyph < clusterIter.endGlyph {
 						/* LTR */
@@ -886,20 +880,18 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 						leftmost = clusterIter.endGlyph + 1
 						rightmost = clusterIter.startGlyph
 					}
+					/* distribute to before/after */
+
 					/* Don't add to left-side of left-most glyph of left-most non-zero run. */
-					if leftedge {
-						leftedge = false
-					} else {
+					if gapsSoFar > 1 {
+						spaceLeft, _ := distributeLetterSpacing(gapWidth(gapsSoFar - 1))
 						glyphs.Glyphs[leftmost].Geometry.Width += spaceLeft
 						glyphs.Glyphs[leftmost].Geometry.XOffset += spaceLeft
 						addedSoFar += spaceLeft
 					}
 					/* Don't add to right-side of right-most glyph of right-most non-zero run. */
-					{
-						/* Save so we can undo later. */
-						rightmostGlyphs = glyphs
-						rightmostSpace = spaceRight
-
+					if gapsSoFar <= totalGaps {
+						_, spaceRight := distributeLetterSpacing(gapWidth(gapsSoFar))
 						glyphs.Glyphs[rightmost].Geometry.Width += spaceRight
 						addedSoFar += spaceRight
 					}
@@ -910,15 +902,10 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 		if mode == measure {
 			totalGaps = gapsSoFar - 1
 
-			if totalGaps == 0 {
+			if totalGaps <= 0 {
 				/* a single cluster, can't really justify it */
 				return
 			}
-		} else /* mode == ADJUST */ {
-			if rightmostGlyphs != nil {
-				rightmostGlyphs.Glyphs[len(rightmostGlyphs.Glyphs)-1].Geometry.Width -= rightmostSpace
-				addedSoFar -= rightmostSpace
-			}
 		}
 	}
 
-- 
2.43.0


From dfa0c7f6006214ed86eedcfa5c66fc8e61b58acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 122/152] fix: end the ellipsis at the end of a character

---
 pango/ellipsize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index ba06c7a..26ddbd1 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -192,7 +192,7 @@ func (state ellipsizeState) endsAtEllipsizationBoundary(iter lineIter) bool {
 		return true
 	}
 
-	return state.layout.logAttrs[runInfo.startOffset+iter.runIter.EndChar+1].IsCursorPosition()
+	return state.layout.logAttrs[runInfo.startOffset+iter.runIter.EndChar].IsCursorPosition()
 }
 
 // helper function to re-itemize a string of text
-- 
2.43.0


From 03c5da6c59b51a3e01e728d904e0e86b823f42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 123/152] fix: remove one character at a time when ellipsizing

---
 pango/ellipsize.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index 26ddbd1..27c0f70 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -399,23 +399,20 @@ func (state *ellipsizeState) removeOneSpan() bool {
 	// Find one span backwards and forward from the gap
 	new_gap_start_iter := state.gapStartIter
 	new_gap_start_x := state.gapStartX
-	var width Unit
-	for do := true; do; do = !state.startsAtEllipsizationBoundary(new_gap_start_iter) || width == 0 {
+	for do := true; do; do = !state.startsAtEllipsizationBoundary(new_gap_start_iter) || new_gap_start_x == state.gapStartX {
 		if !state.lineIterPrevCluster(&new_gap_start_iter) {
 			break
 		}
-		width = new_gap_start_iter.getClusterWidth()
-		new_gap_start_x -= width
+		new_gap_start_x -= new_gap_start_iter.getClusterWidth()
 	}
 
 	new_gap_end_iter := state.gapEndIter
 	new_gap_end_x := state.gapEndX
-	for do := true; do; do = !state.endsAtEllipsizationBoundary(new_gap_end_iter) || width == 0 {
+	for do := true; do; do = !state.endsAtEllipsizationBoundary(new_gap_end_iter) || new_gap_end_x == state.gapEndX {
 		if !state.lineIterNextCluster(&new_gap_end_iter) {
 			break
 		}
-		width = new_gap_end_iter.getClusterWidth()
-		new_gap_end_x += width
+		new_gap_end_x += new_gap_end_iter.getClusterWidth()
 	}
 
 	if state.gapEndX == new_gap_end_x && state.gapStartX == new_gap_start_x {
-- 
2.43.0


From 5ff9bcc1c0462d3e34b8b7e9d643bed55d6c5bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 124/152] fix: apply the font scale attributes which start
 before the text

---
 pango/item.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index 4372ba1..19bcd46 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -322,7 +322,8 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
-			if attr.StartIndex == item.Offset {
+			// the first item may continue an attribute of the previous paragraph
+			if attr.StartIndex == item.Offset || prev == nil && attr.StartIndex < item.Offset {
 				entry := &scaleItem{attr: attr, scale: 1}
 				stack.PushFront(entry)
 
-- 
2.43.0


From dd78a5f30e9793752f3c156b4ac6fe6eec61a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 125/152] fix: shape text without font into a used glyph string

---
 pango/shape.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/shape.go b/pango/shape.go
index f33c5ef..d527737 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -281,6 +281,8 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 
 	itemText := paragraphText[itemOffset : itemOffset+itemLength]
 
+	glyphs.setSize(0) // remove the previous glyphs
+
 	if analysis.Font != nil {
 		glyphs.harfbuzzShape(analysis, paragraphText, itemOffset, itemLength, logAttrs, numChars)
 
-- 
2.43.0


From 4cb1ee495287eb8e50a41b6adc7eb162384c4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 126/152] fix: load the emoji fonts with the current gravity

---
 pango/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/context.go b/pango/context.go
index 46874df..a4b1835 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -716,6 +716,7 @@ func (state *itemizeState) updateForNewRun() {
 
 		if state.fontDescGravity != state.resolvedGravity {
 			state.fontDesc.SetGravity(state.resolvedGravity)
+			state.emojiFontDesc = nil // has the previous gravity
 			state.changed |= changedFONT
 		}
 	}
-- 
2.43.0


From f94cc270afcc45596be3b6d0e61edd26a02dc762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 127/152] fix: find the position of an index inside paragraph
 delimiters

---
 pango/layout.go | 52 +++----------------------------------------------
 1 file changed, 3 insertions(+), 49 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 484e26d..c000dfb 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -953,56 +953,10 @@ func (layout *Layout) IndexToPos(index int, pos *Rectangle) {
 		return
 	}
 
-	iter := layout.GetIter()
-	var (
-		line                            *LayoutLine
-		lineLogicalRect, runLogicalRect Rectangle
-	)
-	for {
-		tmpLine := iter.GetLine()
-
-		if tmpLine.StartIndex > index {
-			/* index is in the paragraph delimiters, move to
-			* end of previous line
-			*
-			* This shouldn’t occur in the first loop iteration as the first
-			* line’s StartIndex should always be 0.
-			 */
-			if debugMode {
-				assert(line != nil, "indexToPos")
-			}
-			index = line.StartIndex + line.Length
-			break
-		}
-
-		iter.GetLineExtents(nil, &lineLogicalRect)
-
-		line = tmpLine
-
-		if line.StartIndex+line.Length >= index {
-			for do := true; do; do = iter.NextRun() {
-				run := iter.GetRun()
-				iter.GetRunExtents(nil, &runLogicalRect)
+	line, lineLogicalRect, runLogicalRect := layout.indexToLineAndExtents(index)
 
-				if run == nil {
-					break
-				}
-
-				if run.Item.Offset <= index && index < run.Item.Offset+run.Item.Length {
-					break
-				}
-			}
-
-			if line.StartIndex+line.Length > index {
-				break
-			}
-		}
-
-		if !iter.NextLine() {
-			index = line.StartIndex + line.Length
-			break
-		}
-	}
+	// the index may be in the paragraph delimiters, or after the text
+	index = min(index, line.StartIndex+line.Length)
 
 	pos.Y = runLogicalRect.Y
 	pos.Height = runLogicalRect.Height
-- 
2.43.0


From e8534ceba034cc41ba1fa75b4ba7b33892ccb436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 128/152] fix: the end of a right to left line is on its left
 side

---
 pango/layout_line.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 5ee96ac..4ad5fc2 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1217,6 +1217,10 @@ func (line *LayoutLine) IndexToX(index int, trailing bool) Unit {
 		width += run.Glyphs.getWidth()
 	}
 
+	// the end of a right to left line is on its left
+	if (index < line.StartIndex) != (line.ResolvedDir == DIRECTION_RTL) {
+		return 0
+	}
 	return width
 }
 
-- 
2.43.0


From 736bad5ed304956d36517c8f61dbdc56c2f077ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 129/152] fix: count the graphemes of a cluster once for a
 trailing edge

---
 pango/glyphs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 7c02ab1..f5f10e1 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -499,7 +499,8 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 		clusterChars++
 	}
 
-	if trailing {
+	// the start of the grapheme may already be counted
+	if trailing && (logAttrs == nil || logAttrs[index].IsCursorPosition()) {
 		clusterOffset += 1
 	}
 
-- 
2.43.0


From 293289917953453628d08013a85c25e2beb01cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 130/152] fix: the ranges of a line use the edges of its
 graphemes

---
 pango/layout_line.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 4ad5fc2..144f0df 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1287,12 +1287,21 @@ func (line *LayoutLine) GetXRanges(startIndex, endIndex int) []Unit {
 			// back the endIndex off one since we want to find the trailing edge of the preceding character
 			runEndIndex--
 
-			runStartX := run.Glyphs.IndexToX(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
+			// go to the edges of the graphemes, as IndexToX does, inside the run
+			logAttrs := line.layout.logAttrs
+			for runStartIndex > run.Item.Offset && !logAttrs[runStartIndex].IsCursorPosition() {
+				runStartIndex--
+			}
+			for runEndIndex+1 < run.Item.Offset+run.Item.Length && !logAttrs[runEndIndex+1].IsCursorPosition() {
+				runEndIndex++
+			}
+
+			runStartX := run.Glyphs.indexToXFull(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
 				&run.Item.Analysis,
-				runStartIndex-run.Item.Offset, false)
-			runEndX := run.Glyphs.IndexToX(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
+				runStartIndex-run.Item.Offset, false, logAttrs[run.Item.Offset:])
+			runEndX := run.Glyphs.indexToXFull(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
 				&run.Item.Analysis,
-				runEndIndex-run.Item.Offset, true)
+				runEndIndex-run.Item.Offset, true, logAttrs[run.Item.Offset:])
 
 			ranges = append(ranges,
 				xOffset+accumulatedWidth+minG(runStartX, runEndX),
-- 
2.43.0


From 1298b047f34dd96ce5f7c818081b059840cb7bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 131/152] fix: extend the ranges of a line in a layout without
 width

---
 pango/layout_line.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 144f0df..05d5865 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1247,10 +1247,9 @@ func (line *LayoutLine) GetXRanges(startIndex, endIndex int) []Unit {
 	if line.layout == nil || startIndex > endIndex {
 		return nil
 	}
-	alignment := line.getAlignment()
 
 	width := line.layout.Width
-	if width == -1 && alignment != ALIGN_LEFT {
+	if width == -1 {
 		var logicalRect Rectangle
 		line.layout.GetExtents(nil, &logicalRect)
 		width = logicalRect.Width
@@ -1314,10 +1313,10 @@ func (line *LayoutLine) GetXRanges(startIndex, endIndex int) []Unit {
 		}
 	}
 
-	if xOffset+lineWidth < line.layout.Width &&
+	if xOffset+lineWidth < width &&
 		((line.ResolvedDir == DIRECTION_LTR && endIndex > lineStartIndex+line.Length) ||
 			(line.ResolvedDir == DIRECTION_RTL && startIndex < lineStartIndex)) {
-		ranges = append(ranges, xOffset+lineWidth, line.layout.Width)
+		ranges = append(ranges, xOffset+lineWidth, width)
 	}
 
 	return ranges
-- 
2.43.0


From a5e910ade22a5ab204274cc65e4eba7c2cfc866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 132/152] fix: the cursor inside paragraph delimiters is at the
 end of the line

---
 pango/layout_cursors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index b89d9eb..e743f2d 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -43,6 +43,9 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 
 	line, lineRect, runRect := layout.indexToLineAndExtents(index)
 
+	// use the end of the line if index is in the paragraph delimiters
+	index = min(index, line.StartIndex+line.Length)
+
 	if debugMode {
 		assert(index >= line.StartIndex, "getCursorPos")
 	}
-- 
2.43.0


From 97ecd97aad3cb69421287a44da2c7df67cd810e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 133/152] fix: move the cursor through all its positions, from
 line to line

---
 pango/layout_cursors.go | 208 ++++++++++++++--------------------------
 1 file changed, 71 insertions(+), 137 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index e743f2d..3212719 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -50,6 +50,20 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 		assert(index >= line.StartIndex, "getCursorPos")
 	}
 
+	strongX, weakX := line.getCursorX(index, lineRect.Width)
+
+	if strongPos != nil {
+		*strongPos = Rectangle{X: lineRect.X + strongX, Y: runRect.Y, Height: runRect.Height}
+	}
+
+	if weakPos != nil {
+		*weakPos = Rectangle{X: lineRect.X + weakX, Y: runRect.Y, Height: runRect.Height}
+	}
+}
+
+// getCursorX returns the positions of the cursors relative to the left edge of the line.
+// `index` may be the end of the line and `width` is the width of the line
+func (line *LayoutLine) getCursorX(index int, width Unit) (strong, weak Unit) {
 	var (
 		dir1, dir2     Direction
 		level1, level2 fribidi.Level
@@ -66,7 +80,7 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 		if line.ResolvedDir == DIRECTION_LTR {
 			x1Trailing = 0
 		} else {
-			x1Trailing = Unit(lineRect.Width)
+			x1Trailing = width
 		}
 	} else {
 		prevIndex := index - 1
@@ -86,7 +100,7 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 			level2 = 0
 		}
 		if line.ResolvedDir == DIRECTION_LTR {
-			x2 = Unit(lineRect.Width)
+			x2 = width
 		} else {
 			x2 = 0
 		}
@@ -100,68 +114,56 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 		}
 	}
 
-	if strongPos != nil {
-		strongPos.X = lineRect.X
-
-		if dir1 == line.ResolvedDir && (dir2 != dir1 || level1 < level2) {
-			strongPos.X += x1Trailing
-		} else {
-			strongPos.X += x2
-		}
-
-		strongPos.Y = runRect.Y
-		strongPos.Width = 0
-		strongPos.Height = runRect.Height
-	}
-
-	if weakPos != nil {
-		weakPos.X = lineRect.X
-
-		if dir1 == line.ResolvedDir && (dir2 != dir1 || level1 < level2) {
-			weakPos.X += x2
-		} else {
-			weakPos.X += x1Trailing
-		}
-
-		weakPos.Y = runRect.Y
-		weakPos.Width = 0
-		weakPos.Height = runRect.Height
+	if dir1 == line.ResolvedDir && (dir2 != dir1 || level1 < level2) {
+		return x1Trailing, x2
 	}
+	return x2, x1Trailing
 }
 
+// getCursors returns the positions of the cursors in the line, its end included,
+// from left to right
 func (line *LayoutLine) getCursors(strong bool) []CursorPos {
-	layout := line.layout
-
-	lineNo, _ := layout.indexToLineX(line.StartIndex+line.Length, false)
+	var logicalRect Rectangle
+	line.GetExtents(nil, &logicalRect)
 
 	end := line.StartIndex + line.Length
-	line2 := layout.GetLine(lineNo)
-	if line2 == line {
-		end++
-	}
-
-	var pos Rectangle
-	arg1, arg2 := (*Rectangle)(nil), &pos
-	if strong {
-		arg1, arg2 = &pos, (*Rectangle)(nil)
-	}
 	var cursors []CursorPos
-	for j := line.StartIndex; j < end; j++ {
-		if layout.logAttrs[j].IsCursorPosition() {
-			layout.GetCursorPos(j, arg1, arg2)
-
-			cursors = append(cursors, CursorPos{
-				pos: j,
-				x:   pos.X,
-			})
+	for j := line.StartIndex; j <= end; j++ {
+		if j < end && !line.layout.logAttrs[j].IsCursorPosition() {
+			continue
+		}
+		strongX, weakX := line.getCursorX(j, logicalRect.Width)
+		x := weakX
+		if strong {
+			x = strongX
 		}
+		cursors = append(cursors, CursorPos{pos: j, x: x})
 	}
 
-	sort.Slice(cursors, func(i, j int) bool { return cursors[i].x < cursors[j].x })
+	sort.SliceStable(cursors, func(i, j int) bool { return cursors[i].x < cursors[j].x })
 
 	return cursors
 }
 
+// nextCursor returns the index of the closest cursor on the right of `x`, or on its left
+// if direction is negative, or -1. The cursor at `skip` is ignored.
+func nextCursor(cursors []CursorPos, x Unit, direction, skip int) int {
+	if direction > 0 {
+		for j, cursor := range cursors {
+			if cursor.x > x && cursor.pos != skip {
+				return j
+			}
+		}
+	} else {
+		for j := len(cursors) - 1; j >= 0; j-- {
+			if cursors[j].x < x && cursors[j].pos != skip {
+				return j
+			}
+		}
+	}
+	return -1
+}
+
 // MoveCursorVisually computes a new cursor position from an old position (`oldIndex`) and a direction.
 //
 // `strong` indicates whether the moving cursor is the strong cursor or the
@@ -212,7 +214,7 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 	layout.checkLines()
 
 	/* Find the line the old cursor is on */
-	_, line, prevLine, nextLine := layout.indexToLine(oldIndex)
+	lineNo, line, _, _ := layout.indexToLine(oldIndex)
 
 	oldIndex += oldTrailing
 
@@ -221,103 +223,35 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 		oldIndex = line.StartIndex + line.Length
 	}
 
-	cursors := line.getCursors(strong)
-
-	var pos Rectangle
-	arg1, arg2 := (*Rectangle)(nil), &pos
+	var lineRect Rectangle
+	line.GetExtents(nil, &lineRect)
+	strongX, weakX := line.getCursorX(oldIndex, lineRect.Width)
+	x := weakX
 	if strong {
-		arg1, arg2 = &pos, (*Rectangle)(nil)
-	}
-	layout.GetCursorPos(oldIndex, arg1, arg2)
-
-	visPos := -1
-	for j, cursor := range cursors {
-		if cursor.x == pos.X {
-			visPos = j
-
-			/* If moving left, we pick the leftmost match, otherwise
-			 * the rightmost one. Without this, we can get stuck
-			 */
-			if direction < 0 {
-				break
-			}
-		}
+		x = strongX
 	}
 
-	if visPos == -1 &&
-		oldIndex == line.StartIndex+line.Length {
-		if line.ResolvedDir == DIRECTION_LTR {
-			visPos = len(cursors)
-		} else {
-			visPos = 0
-		}
-	}
+	cursors := line.getCursors(strong)
+	visPos := nextCursor(cursors, x, direction, -1)
 
 	/* Handling movement between lines */
-	var offStart, offEnd bool
-	if line.ResolvedDir == DIRECTION_LTR {
-		if oldIndex == line.StartIndex && direction < 0 {
-			offStart = true
+	for visPos == -1 {
+		lineNo += direction
+		if lineNo < 0 {
+			return -1, 0
 		}
-		if oldIndex == line.StartIndex+line.Length && direction > 0 {
-			offEnd = true
-		}
-	} else {
-		if oldIndex == line.StartIndex+line.Length && direction < 0 {
-			offStart = true
-		}
-		if oldIndex == line.StartIndex && direction > 0 {
-			offEnd = true
-		}
-	}
-
-	if offStart || offEnd {
-		// If we move over a paragraph boundary, count that as
-		// an extra position in the motion
-		var paragraphBoundary bool
-
-		if offStart {
-			if prevLine == nil {
-				return -1, 0
-			}
-			line = prevLine
-			paragraphBoundary = (line.StartIndex+line.Length != oldIndex)
-		} else {
-			if nextLine == nil {
-				return MaxInt, 0
-			}
-			line = nextLine
-			paragraphBoundary = (line.StartIndex != oldIndex)
+		if lineNo >= len(layout.lines) {
+			return MaxInt, 0
 		}
+		line = layout.lines[lineNo]
 
+		// The end of a wrapped line is also the start of the next one:
+		// it does not count as an extra position in the motion
 		cursors = line.getCursors(strong)
-
-		nVis := len(cursors)
-
-		if offStart && direction < 0 {
-			visPos = nVis
-			if paragraphBoundary {
-				visPos++
-			}
-		} else if offEnd && direction > 0 {
-			visPos = 0
-			if paragraphBoundary {
-				visPos--
-			}
-		}
+		visPos = nextCursor(cursors, Unit(-direction)*MaxInt, direction, oldIndex)
 	}
 
-	if direction < 0 {
-		visPos--
-	} else {
-		visPos++
-	}
-
-	if 0 <= visPos && visPos < len(cursors) {
-		newIndex = cursors[visPos].pos
-	} else if visPos >= len(cursors)-1 {
-		newIndex = line.StartIndex + line.Length
-	}
+	newIndex = cursors[visPos].pos
 
 	newTrailing = 0
 
-- 
2.43.0


From 6768bb752295218994ba2dfed5cbbbb69e824f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 134/152] fix: fcfonts: describe the stretch of scanned fonts

---
 pango/fcfonts/fonts.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index d08df5c..3e360dc 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -119,8 +119,8 @@ func newFontDescriptionFromPattern(pattern fc.Pattern, includeSize bool) pango.F
 	desc.SetFamily(fam)
 
 	style := pango.STYLE_NORMAL
-	if i, ok := pattern.GetInt(fc.SLANT); ok {
-		style = slantToPango(i)
+	if f, ok := pattern.GetFloat(fc.SLANT); ok {
+		style = slantToPango(int32(f))
 	}
 	desc.SetStyle(style)
 
@@ -131,8 +131,8 @@ func newFontDescriptionFromPattern(pattern fc.Pattern, includeSize bool) pango.F
 	desc.SetWeight(weight)
 
 	stretch := pango.STRETCH_NORMAL
-	if i, ok := pattern.GetInt(fc.WIDTH); ok {
-		stretch = widthToPango(i)
+	if f, ok := pattern.GetFloat(fc.WIDTH); ok { // scanned fonts use a Float
+		stretch = widthToPango(int32(f))
 	}
 	desc.SetStretch(stretch)
 
-- 
2.43.0


From 8375522b9198d1ddf4b5752d9ce841c71e52cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 135/152] fix: fcfonts: metrics in user space whatever the
 matrix

---
 pango/fcfonts/fonts.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 3e360dc..dfe3db7 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -508,16 +508,10 @@ func (font *Font) getFaceMetrics() pango.FontMetrics {
 
 	extents := hbFont.ExtentsForDirection(harfbuzz.LeftToRight)
 	var metrics pango.FontMetrics
-	fcMatrix, haveTransform := font.Pattern.GetMatrix(fc.MATRIX)
-	if haveTransform {
-		metrics.Descent = -pango.Unit(float32(extents.Descender) * fcMatrix.Yy)
-		metrics.Ascent = pango.Unit(float32(extents.Ascender) * fcMatrix.Yy)
-		metrics.Height = pango.Unit(float32(extents.Ascender-extents.Descender+extents.LineGap) * fcMatrix.Yy)
-	} else {
-		metrics.Descent = -pango.Unit(extents.Descender)
-		metrics.Ascent = pango.Unit(extents.Ascender)
-		metrics.Height = pango.Unit(extents.Ascender - extents.Descender + extents.LineGap)
-	}
+	// the scale of `hbFont` is already in user space
+	metrics.Descent = -pango.Unit(extents.Descender)
+	metrics.Ascent = pango.Unit(extents.Ascender)
+	metrics.Height = pango.Unit(extents.Ascender - extents.Descender + extents.LineGap)
 
 	metrics.UnderlineThickness = pango.Scale
 	metrics.UnderlinePosition = -pango.Scale
-- 
2.43.0


From df2a0301f0908cc1754c64ae1c3f662c771273c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 136/152] fix: fcfonts: accept a nil context

---
 pango/fcfonts/fontmap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 2e749d1..ab26410 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -267,7 +267,10 @@ func (fcfontmap *FontMap) getScaledSize(context *pango.Context, desc *pango.Font
 
 		size = size * dpi / 72.
 	}
-	_, scale := context.Matrix.GetFontScaleFactors()
+	var scale float32 = 1
+	if context != nil {
+		_, scale = context.Matrix.GetFontScaleFactors()
+	}
 	return int(.5 + scale*size)
 }
 
-- 
2.43.0


From 5c9b8f6bf9fa98cc2e45139b5b4d7a77ec5a0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 137/152] fix: fcfonts: describe each variation once

---
 pango/fcfonts/fonts.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index dfe3db7..1b6ac5d 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -198,13 +198,33 @@ func newFontDescriptionFromPattern(pattern fc.Pattern, includeSize bool) pango.F
 
 	if s, ok := pattern.GetString(fc.FONT_VARIATIONS); includeSize && ok {
 		if s != "" {
-			desc.SetVariations(s)
+			desc.SetVariations(uniqueVariations(s))
 		}
 	}
 
 	return desc
 }
 
+// uniqueVariations only keeps the last setting of each axis, the one
+// which is effective : since fontconfig always adds the default settings, the variations
+// of a font would otherwise grow each time its description is used to load another font.
+func uniqueVariations(variations string) string {
+	var (
+		out  []string
+		seen = map[string]bool{}
+	)
+	settings := strings.Split(variations, ",")
+	for i := len(settings) - 1; i >= 0; i-- {
+		axis := strings.TrimSpace(strings.SplitN(settings[i], "=", 2)[0])
+		if seen[axis] {
+			continue
+		}
+		seen[axis] = true
+		out = append([]string{settings[i]}, out...)
+	}
+	return strings.Join(out, ",")
+}
+
 type glyphInfo struct {
 	logicalRect, inkRect pango.Rectangle
 }
-- 
2.43.0


From d3d10edf729e1b2ff57427045d059d8c385ab87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 138/152] fix: fcfonts: ignore the fonts which can't be loaded

---
 pango/fcfonts/fonset.go  | 30 +++++++++++++++++-------------
 pango/fcfonts/fontmap.go | 10 +++++++---
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/pango/fcfonts/fonset.go b/pango/fcfonts/fonset.go
index 0c50be0..b0b2e86 100644
--- a/pango/fcfonts/fonset.go
+++ b/pango/fcfonts/fonset.go
@@ -28,24 +28,28 @@ func newFontset(key fontsetKey, patterns *cachedPattern) *Fontset {
 func (fs *Fontset) GetLanguage() pango.Language { return fs.key.language }
 
 // may return nil
+// the fonts which can't be loaded are ignored
 func (fs *Fontset) loadNextFont() *Font {
 	pattern := fs.patterns.pattern
-	fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
-	fs.currentPatternIndex++
-	if fontPattern == nil {
-		return nil
-	}
+	for {
+		fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
+		fs.currentPatternIndex++
+		if fontPattern == nil {
+			return nil
+		}
 
-	if prepare {
-		fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
-	}
+		if prepare {
+			fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
+		}
 
-	font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
-	if err != nil {
-		log.Println(err)
-	}
+		font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
+		if err != nil {
+			log.Println(err)
+			continue
+		}
 
-	return font
+		return font
+	}
 }
 
 // lazy loading
diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index ab26410..de33ceb 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -548,12 +548,16 @@ func (fontmap *FontMap) newFont(fsKey fontsetKey, match fc.Pattern) (*Font, erro
 
 	// fcfont.matrix = key.matrix
 
+	fcfont.key = &key
+
+	if err := fcfont.loadHBFont(); err != nil {
+		return nil, err
+	}
+
 	// cache it on fontmap
 	fontmap.fontHash.insert(key, fcfont)
 
-	err := fcfont.loadHBFont()
-
-	return fcfont, err
+	return fcfont, nil
 }
 
 func (key *fontsetKey) defaultSubstitute(fontmap *FontMap, pattern fc.Pattern) {
-- 
2.43.0


From 1a2858741ee82a25c491d2a0e0e5f173e8a0dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 139/152] fix: fcfonts: cache the complete metrics

---
 pango/fcfonts/fonts.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 1b6ac5d..43dfa2b 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -494,15 +494,15 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 
 	/* Note: we need to add info to the list before calling
 	* into PangoLayout below, to prevent recursion */
-	font.metricsByLang = append(font.metricsByLang, fcMetricsInfo{})
-	info := &font.metricsByLang[len(font.metricsByLang)-1]
-	info.sampleStr = sampleStr
+	index := len(font.metricsByLang)
+	font.metricsByLang = append(font.metricsByLang, fcMetricsInfo{
+		sampleStr: sampleStr,
+		metrics:   font.getFaceMetrics(),
+	})
 
 	context := pango.NewContext(fontmap)
 	context.SetLanguage(lang)
 
-	info.metrics = font.getFaceMetrics()
-
 	// Compute derived metrics
 	desc := font.Describe(true)
 
@@ -513,12 +513,16 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 	var extents pango.Rectangle
 	layout.GetExtents(nil, &extents)
 	sampleStrWidth := pango.Unit(len([]rune(sampleStr)))
-	info.metrics.ApproximateCharWidth = extents.Width / sampleStrWidth
+	metrics := font.getFaceMetrics()
+	metrics.ApproximateCharWidth = extents.Width / sampleStrWidth
 
 	layout.SetText("0123456789")
-	info.metrics.ApproximateDigitWidth = pango.Unit(maxGlyphWidth(layout))
+	metrics.ApproximateDigitWidth = pango.Unit(maxGlyphWidth(layout))
+
+	// the layout may have asked for other languages
+	font.metricsByLang[index].metrics = metrics
 
-	return info.metrics
+	return metrics
 }
 
 // The code in this function is partly based on code from Xft,
-- 
2.43.0


From 31db0e221bf6ccd88df662c0d6d50573b15599c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 140/152] fix: strip the non ASCII characters of the language
 tags instead of crashing

---
 pango/language.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pango/language.go b/pango/language.go
index a993ad8..428f0c2 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -4,6 +4,7 @@ import (
 	"os"
 	"strings"
 	"sync"
+	"unicode"
 
 	"github.com/benoitkugler/textlayout/language"
 )
@@ -139,6 +140,13 @@ func pango_language_from_string(l string) Language {
 	// using a map from language to pointer,
 	// which replace comparison and copies of string to comparison and copies of pointers
 
+	l = strings.Map(func(r rune) rune {
+		if r > unicode.MaxASCII { // not accepted by NewLanguage
+			return -1
+		}
+		return r
+	}, l)
+
 	return language.NewLanguage(l)
 
 	// hash := lang_hash(can)
-- 
2.43.0


From e893fc542c797e4a7855089b35a9efb57a9a9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 141/152] fix: read all the languages of PANGO_LANGUAGE and
 LANGUAGE

---
 pango/language.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/pango/language.go b/pango/language.go
index 428f0c2..6f4d587 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -430,24 +430,10 @@ func parse_default_languages() []Language {
 
 	var langs []Language
 
-	done := false
-	for !done {
-		end := strings.IndexAny(p, languageSeparators)
-		if end == -1 {
-			end = len(p)
-			done = true
-		} else {
-			p = p[:end]
-		}
-
-		/* skip empty languages, and skip the language 'C' */
-		if end != 0 && !(end == 1 && p[0] == 'C') {
-			l := pango_language_from_string(p)
-			langs = append(langs, l)
-		}
-
-		if !done {
-			p = p[end:]
+	for _, field := range strings.FieldsFunc(p, func(r rune) bool { return strings.ContainsRune(languageSeparators, r) }) {
+		/* skip the language 'C' */
+		if field != "C" {
+			langs = append(langs, pango_language_from_string(field))
 		}
 	}
 
-- 
2.43.0


From 7efecfe316b06ce4cd9cf39718c1da2a40c7633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 142/152] fix: deduce the automatic gravity from the current
 matrix of the context

---
 pango/context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index a4b1835..b582131 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -164,7 +164,10 @@ func (context *Context) SetBaseGravity(gravity Gravity) {
 
 	context.base_gravity = gravity
 
-	//  update_resolved_gravity
+	context.updateResolvedGravity()
+}
+
+func (context *Context) updateResolvedGravity() {
 	if context.base_gravity == GRAVITY_AUTO {
 		context.resolvedGravity = gravityFromMatrix(context.Matrix)
 	} else {
@@ -554,6 +557,7 @@ func (context *Context) newItemizeState(text []rune, baseDir Direction,
 	state.embeddingEnd = startIndex
 	state.updateEmbeddingEnd()
 
+	context.updateResolvedGravity() // the matrix may have changed
 	state.gravity = GRAVITY_AUTO
 	state.centeredBaseline = state.context.resolvedGravity.IsVertical()
 	state.gravityHint = state.context.gravityHint
-- 
2.43.0


From 31e1eaaad4fff39c564ebf86f841cccde4e765e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 143/152] fix: Old Hungarian is written from right to left

---
 pango/gravity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/gravity.go b/pango/gravity.go
index d491af5..cae1bfe 100644
--- a/pango/gravity.go
+++ b/pango/gravity.go
@@ -315,7 +315,7 @@ var scriptProperties = map[Script]scriptProps{ /* ISO 15924 code */
 	language.Anatolian_Hieroglyphs: {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Hluw */
 	language.Hatran:                {rtl, vectDirNone, GRAVITY_SOUTH, false}, /* Hatr */
 	language.Multani:               {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Mult */
-	language.Old_Hungarian:         {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Hung */
+	language.Old_Hungarian:         {rtl, vectDirNone, GRAVITY_SOUTH, false}, /* Hung */
 	language.SignWriting:           {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Sgnw */
 
 	/* Unicode-9.0 additions */
-- 
2.43.0


From ac4b189b3fd1c8a700902dc721e7db5b92c475b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 144/152] fix: words which follow each other around a word
 attribute

---
 pango/break.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index d1b86a6..85763d4 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -545,14 +545,14 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		if start >= offset {
 			inWord := false
 			for pos := startPos; pos >= 0; pos-- {
-				if logAttrs[pos].IsWordEnd() {
-					inWord = pos == startPos
-					break
-				}
 				if pos < startPos && logAttrs[pos].IsWordStart() {
 					inWord = true
 					break
 				}
+				if logAttrs[pos].IsWordEnd() {
+					inWord = pos == startPos
+					break
+				}
 			}
 			logAttrs[startPos].setWordStart(true)
 			logAttrs[startPos].setWordEnd(inWord)
@@ -569,14 +569,14 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		if end <= offset+len(text) {
 			inWord := false
 			for pos := endPos; pos < len(logAttrs); pos++ {
-				if logAttrs[pos].IsWordStart() {
-					inWord = pos == endPos
-					break
-				}
 				if pos > endPos && logAttrs[pos].IsWordEnd() {
 					inWord = true
 					break
 				}
+				if logAttrs[pos].IsWordStart() {
+					inWord = pos == endPos
+					break
+				}
 			}
 			logAttrs[endPos].setWordStart(inWord)
 			logAttrs[endPos].setWordEnd(true)
-- 
2.43.0


From 6be0b3f968d8206303ef42e2d1cdd3617f0c7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 145/152] fix: sentences which follow each other around a
 sentence attribute

---
 pango/break.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 85763d4..eab547f 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -619,13 +619,13 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		if start >= offset {
 			inSentence := false
 			for pos := startPos - 1; pos >= 0; pos-- {
-				if logAttrs[pos].IsSentenceEnd() {
-					break
-				}
 				if logAttrs[pos].IsSentenceStart() {
 					inSentence = true
 					break
 				}
+				if logAttrs[pos].IsSentenceEnd() {
+					break
+				}
 			}
 			logAttrs[startPos].setSentenceStart(true)
 			logAttrs[startPos].setSentenceEnd(inSentence)
@@ -636,13 +636,13 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		if end <= offset+len(text) {
 			inSentence := false
 			for pos := endPos + 1; pos < len(logAttrs); pos++ {
-				if logAttrs[pos].IsSentenceStart() {
-					break
-				}
 				if logAttrs[pos].IsSentenceEnd() {
 					inSentence = true
 					break
 				}
+				if logAttrs[pos].IsSentenceStart() {
+					break
+				}
 			}
 			logAttrs[endPos].setSentenceStart(inSentence)
 			logAttrs[endPos].setSentenceEnd(true)
-- 
2.43.0


From 5d5d3524d1896cbaed27322ddfea98f6718451df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 146/152] fix: round up the line height of an empty line, as
 for the other lines

---
 pango/layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index c000dfb..20d3c5e 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -2,6 +2,7 @@ package pango
 
 import (
 	"fmt"
+	"math"
 	"unicode/utf8"
 )
 
@@ -913,7 +914,7 @@ func (layout *Layout) getEmptyExtentsAndHeightAt(index int, logicalRect *Rectang
 		height = metrics.Height
 
 		if applyLineHeight && (absoluteLineHeight != 0 || lineHeightFactor != 0.0) {
-			lineHeight := maxG(absoluteLineHeight, Unit(lineHeightFactor*Fl(logicalRect.Height)))
+			lineHeight := maxG(absoluteLineHeight, Unit(math.Ceil(float64(lineHeightFactor*Fl(logicalRect.Height)))))
 			leading := lineHeight - logicalRect.Height
 			logicalRect.Y -= leading / 2
 			logicalRect.Height += leading
-- 
2.43.0


From 1f53ba70c02078dfa1815c1e72b2549f7f30e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 147/152] fix: use the attributes of its line for the extents
 of the run of an empty line

---
 pango/layout_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_iter.go b/pango/layout_iter.go
index 78d11bf..6707623 100644
--- a/pango/layout_iter.go
+++ b/pango/layout_iter.go
@@ -473,7 +473,7 @@ func (iter *LayoutIter) GetRunExtents(inkRect, logicalRect *Rectangle) {
 			run.getExtentsAndHeight(inkRect, logicalRect, nil, nil)
 		} else {
 			var r Rectangle
-			iter.layout.getEmptyExtentsAndHeightAt(0, &r, false)
+			iter.layout.getEmptyExtentsAndHeightAt(iter.line().StartIndex, &r, false)
 			if inkRect != nil {
 				*inkRect = r
 			}
-- 
2.43.0


From 70e5d9367bd1960571d0af3b4be962ef982a88dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 148/152] fix: count the removed character of the previous run
 in the width of a break with an hyphen

---
 pango/layout.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index 20d3c5e..8621dca 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1242,6 +1242,10 @@ func (layout *Layout) find_break_extraWidth(line *LayoutLine, state *paraBreakSt
 
 		if attr.IsBreakRemovesPreceding() && pos > 0 {
 			return state.hyphen_width - state.logWidths[state.logWidthsOffset+pos-1]
+		} else if attr.IsBreakRemovesPreceding() && line.Runs != nil { // removed from the previous run
+			logWidths := make([]Unit, item.Length)
+			line.Runs.Data.getLogicalWidths(layout.Text, logWidths)
+			return state.hyphen_width - logWidths[item.Length-1]
 		} else {
 			return state.hyphen_width
 		}
-- 
2.43.0


From 0c1270976a0bc69d6e342117fe0cc5f66eb58af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 149/152] fix: count the hyphen which is added at the end of
 the paragraph

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 8621dca..6552174 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1530,7 +1530,7 @@ retryBreak:
 					(item != newItem || !isLastItem) && // We don't collapse space at the very end
 					layout.logAttrs[state.startOffset+numChars-1].IsWhite() {
 					extraWidth = -state.logWidths[state.logWidthsOffset+numChars-1]
-				} else if item == newItem && !isLastItem && layout.breakNeedsHyphen(state, numChars) {
+				} else if item == newItem && layout.breakNeedsHyphen(state, numChars) {
 					extraWidth = layout.find_break_extraWidth(line, state, numChars)
 				} else {
 					extraWidth = 0
-- 
2.43.0


From a70247e92106786561e4afc4d63740cfc4ef014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:10 +0000
Subject: [PATCH 150/152] fix: do not apply to an item the attributes ending at
 its start

---
 pango/item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index 19bcd46..581920e 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -140,7 +140,7 @@ func (item *Item) pango_item_apply_attrs(iter *attrIterator) {
 			break
 		}
 
-		if end >= item.Offset {
+		if end > item.Offset {
 			list := iter.getAttributes()
 			for _, data := range list {
 				if !isInList(data) {
-- 
2.43.0


From 77b51d4640dc33db380a7bbd7d47b8051393c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:18 +0000
Subject: [PATCH 151/152] fix: update the contexts when the font map
 configuration changes

---
 pango/fcfonts/fontmap.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index de33ceb..497269d 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -185,6 +185,12 @@ func (fontmap *FontMap) SetConfig(config *fc.Config, database fc.Fontset) {
 	fontmap.Config = config
 	fontmap.Database = database
 	fontmap.clearCache()
+
+	// the contexts and layouts have to load their fonts again
+	fontmap.serial++
+	if fontmap.serial == 0 {
+		fontmap.serial++
+	}
 }
 
 // Clear all cached information and fontsets for this font map.
-- 
2.43.0


From b87609b31423696c3cb01528d157641aa3950078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 152/152] fix: correct the sets of languages sharing a language

---
 fontconfig/lang/fc-lang.go | 9 +++++++++
 fontconfig/lang_table.go   | 3 +--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fontconfig/lang/fc-lang.go b/fontconfig/lang/fc-lang.go
index a2730d2..477c8f7 100755
--- a/fontconfig/lang/fc-lang.go
+++ b/fontconfig/lang/fc-lang.go
@@ -254,6 +254,15 @@ func generateLangTable(output string) {
 		}
 	}
 
+	// an undefined language has no territory
+	delete(langCountrySets, "und")
+	// the set of a language includes its entry without territory, if any
+	for i, fn := range sortedKeys {
+		if family := langs[i]; len(langCountrySets[family]) != 0 {
+			langCountrySets[family] = append(langCountrySets[family], orthEntries[fn])
+		}
+	}
+
 	// ----------------------------------- output -----------------------------------
 
 	fmt.Fprintln(outputFile, "package fontconfig")
diff --git a/fontconfig/lang_table.go b/fontconfig/lang_table.go
index 59f9d86..81cfe0f 100644
--- a/fontconfig/lang_table.go
+++ b/fontconfig/lang_table.go
@@ -3645,11 +3645,10 @@ var fcLangCountrySets = [][langPageSize]uint32{
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000003, 0x00000000, 0x00000000}, /* ber */
 	{0x00000000, 0x00000000, 0x00c00000, 0x00000000, 0x00000000, 0x00000000, 0x000c0000, 0x00000000, 0x00000000}, /* ku */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000100, 0x00000000, 0x00000000, 0x01000000, 0x00000000, 0x00000000}, /* mn */
-	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x40000000, 0x00000000, 0x00000000}, /* pa */
+	{0x00000000, 0x00000000, 0x00000000, 0x04000000, 0x00000000, 0x00000000, 0x40000000, 0x00000000, 0x00000000}, /* pa */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x80000000, 0x00000001, 0x00000000}, /* pap */
 	{0x00000000, 0x00000000, 0x00000000, 0x30000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000}, /* ps */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x60000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000}, /* ti */
-	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00300000, 0x00000000}, /* und */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x1f000000, 0x00000000, 0x00000000, 0x00000000}, /* zh */
 }
 var fcLangCharSetRanges = []langCharsetRange{
-- 
2.43.0

