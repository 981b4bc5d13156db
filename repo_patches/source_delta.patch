From 2f3d7b3914e52b85892e2f8cccbd3b5ab2f46b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 01/13] fix: PadBits101 emits one whole block when a single
 byte of padding is needed

With 1080 bits (mod 1088) of input the two pad markers share the last byte;
the old code appended both as separate bytes, making the output one byte too
long and the padding wrong.
---
 circuits/gadgets/keccak/periphery.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 65f53f5..7a374b2 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -246,11 +246,16 @@ func PadBits101(api frontend.API, data []frontend.Variable, maxRound int) []fron
 	var missedLen = 1088 - len(data)%1088
 	var zeroBitLen = missedLen - 8*2
 
-	padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
-	for i := 0; i < zeroBitLen; i++ {
-		padBits = append(padBits, 0) //00...0000
+	if missedLen == 8 {
+		// only one byte is left in the block: both pad markers share it
+		padBits = append(padBits, api.ToBinary(129, 8)...) // 1000 0001
+	} else {
+		padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
+		for i := 0; i < zeroBitLen; i++ {
+			padBits = append(padBits, 0) //00...0000
+		}
+		padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 	}
-	padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 
 	padZeroLen := maxRound*1088 - len(padBits)
 
-- 
2.43.0


From 8606f653863af6380045e2ad65e985373e8db2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 02/13] fix: Pad101Bits and GetRoundIndex pad 1080-bit (mod
 1088) inputs within the same block

The minimal Keccak padding is a single byte (0x81). Both functions required two
bytes, so such inputs got a surplus block and a wrong digest.
---
 circuits/gadgets/keccak/pad.go       | 21 ++++++---------------
 circuits/gadgets/keccak/periphery.go |  2 +-
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/circuits/gadgets/keccak/pad.go b/circuits/gadgets/keccak/pad.go
index 57156e8..7021413 100644
--- a/circuits/gadgets/keccak/pad.go
+++ b/circuits/gadgets/keccak/pad.go
@@ -45,7 +45,7 @@ func Pad101Bits(
 		log.Fatalf("Invald input length for pad101. Input max length: %d, Input length: %d", inLenMax, len(in))
 	}
 
-	outBitsLen := ((inLenMax*inBits+8)/1088 + 1) * 1088
+	outBitsLen := (inLenMax*inBits/1088 + 1) * 1088
 	fmt.Println("pad: output bits length", outBitsLen)
 
 	checkLen("in", len(in), inBits)
@@ -75,24 +75,15 @@ func Pad101Bits(
 		}
 
 		actualLen := j
-		rounds := (actualLen+8)/1088 + 1
+		rounds := actualLen/1088 + 1
 
-		// insert the padding part
-		for ; j < actualLen+7; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
-		for ; j < rounds*1088-8; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
-
-		// populate the rest with dummy zeros
+		// zeros for both the padding part and the dummy part
 		for ; j < outBitsLen; j++ {
 			padded[i][j] = 0
 		}
+		// the pad markers. when only one byte is missing from the last block they share that byte
+		padded[i][actualLen+7] = 1
+		padded[i][rounds*1088-8] = 1
 	}
 	sel := api.Div(api.Sub(inLen, inLenMin), 8/inBits)
 	out := mux.Multiplex(api, sel, outBitsLen, rows, transpose(padded))
diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 7a374b2..e2f05b2 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -37,7 +37,7 @@ func GetKeccakRoundForPaddedBytes(data []byte) int {
 }
 
 func GetRoundIndex(bitsLen int) int {
-	return (bitsLen + 8) / 1088
+	return bitsLen / 1088
 }
 
 func Bytes2BlockBits(bytes []byte) (bits []uint8) {
-- 
2.43.0


From 183cd0c8f3e0c7a33b9964a61c35dee9fd644ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 03/13] fix: BitsToFrBigInt reduces a value equal to the
 modulus

---
 common/utils/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/binary.go b/common/utils/binary.go
index ba021f6..0b6ee43 100644
--- a/common/utils/binary.go
+++ b/common/utils/binary.go
@@ -59,7 +59,7 @@ func BitsToFrBigInt(b []uint, frModulus *big.Int) *big.Int {
 			var decimal = big.NewInt(1)
 			decimal.Lsh(decimal, uint(lens-i-1))
 			res.Add(res, decimal)
-			if res.Cmp(frModulus) > 0 {
+			if res.Cmp(frModulus) >= 0 {
 				res.Mod(res, frModulus)
 			}
 		}
-- 
2.43.0


From 5168520f398d713d4a95195a405c61a2c34ecabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 04/13] fix: Bits2Nibbles converts every group of four bits

It handed the whole group to FromBinary as a single variable and skipped every
other nibble.
---
 circuits/gadgets/conv/bits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/conv/bits.go b/circuits/gadgets/conv/bits.go
index 4e232ca..bc047f7 100644
--- a/circuits/gadgets/conv/bits.go
+++ b/circuits/gadgets/conv/bits.go
@@ -49,8 +49,8 @@ func Bits2Uint128s(api frontend.API, bits [256]frontend.Variable) [2]frontend.Va
 
 func Bits2Nibbles(api frontend.API, bits []frontend.Variable) []frontend.Variable {
 	bytes := []frontend.Variable{}
-	for i := 0; i < len(bits); i += 8 {
-		bytes = append(bytes, api.FromBinary(bits[i:i+4]))
+	for i := 0; i < len(bits); i += 4 {
+		bytes = append(bytes, api.FromBinary(bits[i:i+4]...))
 	}
 	return bytes
 }
-- 
2.43.0


From 892d064405ef4f35c6f15dd81b98eb25f54caf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 05/13] fix: RLP item prefix 0xc0 counted twice in the validity
 sum, so the list length went unchecked

---
 circuits/gadgets/rlp/rlp.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index afa2884..e141234 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -259,10 +259,8 @@ func RlpFieldPrefix(api frontend.API, in [2]frontend.Variable) (frontend.Variabl
 	//	    prefixOrTotalHexLen <== (1 - isEmptyList) * lenTemp2;
 	prefixOrTotalHexLen := api.Mul(lenTemp2, api.Sub(1, isEmptyList))
 
-	//	    isValid <== lt1.out + isEmptyList - lt1.out * isEmptyList;
-
-	isValid := api.Add(lt1, isEmptyList)
-	isValid = api.Sub(isValid, api.Mul(lt1, isEmptyList))
+	// string prefixes; lists, the empty one included, are accounted for by isArray below
+	isValid := lt1
 
 	prefixOrTotalHexLen = api.Add(api.Mul(isValid, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
 	isValid = api.Add(isValid, isArray)
@@ -474,7 +472,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, isEmptyList, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -517,7 +515,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Sub(lenSum, api.Mul(1, isEmptyList))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
-- 
2.43.0


From 29ee8044a317b44f87cc604ce00fd90db95e0635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 06/13] fix: an MPT proof of depth 1 must hash its last node to
 the root

---
 circuits/gadgets/mpt/mpt.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5663ed5..bac0c69 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -223,7 +223,12 @@ func CheckMPTInclusionFixedKeyLength(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// with depth 1 the last node itself is the root
+	var topHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		topHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], topHash[:], 64, 64)
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
@@ -433,7 +438,12 @@ func CheckMPTInclusionNoBranchTermination(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// with depth 1 the last node itself is the root
+	var topHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		topHash[i] = api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], topHash[:], 64, 64)
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From 155f263a2fecab249c7864f0462029b2c0f29859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 07/13] fix: the first key fragment of an MPT proof starts at
 nibble 0

---
 circuits/gadgets/mpt/mpt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index bac0c69..32207e1 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -71,6 +71,8 @@ func CheckMPTInclusionFixedKeyLength(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the path starts at the first nibble of the key
+	allFragmentsValid = api.And(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
@@ -310,6 +312,8 @@ func CheckMPTInclusionNoBranchTermination(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the path starts at the first nibble of the key
+	allFragmentsValid = api.And(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
-- 
2.43.0


From b515b04f506cf18f5dab6a1f63ced7b6b790e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 08/13] fix: an extension node proves non-existence only when
 it decodes and its path differs from the key

---
 circuits/gadgets/mpt/mpt_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index a3d3328..cf84514 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -232,11 +232,11 @@ func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 
 	// check key path part
 	keyNibblesMatched := rlp.ArrayEqual(api, keyNibbles, keyPathsArr, ec.maxKeyLength, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-	keyNibblesLengthMatched := rlp.Equal(api, keyNibbleLen, api.Sub(fieldsLength[0], nodeTypePrefixLength))
 
-	keyNotExistInPath := api.Sub(1, api.And(keyNibblesMatched, keyNibblesLengthMatched))
+	// the node path is shorter than the remaining key: the key leaves it iff some nibble of the path differs
+	keyNotExistInPath := api.Sub(1, keyNibblesMatched)
 
-	isNotExist := rlp.Equal(api, api.Add(prefixCheck, keyNotExistInPath), 2)
+	isNotExist := rlp.Equal(api, api.Add(rlpout, prefixCheck, keyNotExistInPath), 3)
 	return isNotExist
 
 }
-- 
2.43.0


From 5a46815df712d0fafe2e26af5e06c04d8f4c1088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 09/13] fix: branch non-existence looks at the key nibble of
 the last node, also below extensions

---
 circuits/gadgets/mpt/mpt.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 32207e1..35659c4 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -100,10 +100,9 @@ func CheckMPTInclusionFixedKeyLength(
 	// 1. the node is last node
 	// 2. in case of the node is branch node or an extension node, but the key path is not matched
 	if isStorageProof {
-		lastNodeLayer := api.Sub(depth, 1)
-		lastNodeKeySelector := selector.Mux(api, lastNodeLayer, key[:]...)
+		// the key nibble consumed by the last node
+		lastNodeKeySelector := selector.Mux(api, leafStartMultiplexer[0], key[:]...)
 
-		// layer index start at 0, last node layer = depth -1
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
 		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, lastNodeRlp)
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
-- 
2.43.0


From 9d6e7e97edebdb6bcb52478852c48bf1d66a26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 10/13] fix: branch and extension non-existence accept only the
 zero value

---
 circuits/gadgets/mpt/mpt.go      | 2 +-
 circuits/gadgets/mpt/mpt_util.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 35659c4..4d683ab 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -111,7 +111,7 @@ func CheckMPTInclusionFixedKeyLength(
 		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, leafSelectorLength, lastNodeRlp, leafPathPrefixLength)
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
-		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
+		isNotExist := api.And(lastNodeCheckResult.isZeroValue, api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence))
 		lastNodeCheckResult.result.output = api.Select(isNotExist, 4, lastNodeCheckResult.result.output)
 
 	}
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index cf84514..a1d903a 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -35,6 +35,7 @@ type MPTLeafCheck struct {
 type MPTLeafCheckResult struct {
 	result      MPTCheckResult
 	valueLength frontend.Variable
+	isZeroValue frontend.Variable
 }
 
 func (m *MPTLeafCheckResult) GetResult() MPTCheckResult {
@@ -109,6 +110,7 @@ func (leafCheck *MPTLeafCheck) CheckLeaf(
 			rlpTotalLength: totalRlpLength,
 		},
 		valueLength: fieldsLength[1],
+		isZeroValue: isZeroValue,
 	}
 }
 
-- 
2.43.0


From 3b052bb4f358202431cf447645e5ca67a756d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 11/13] fix: CheckMPTInclusionNoBranchTermination accepts
 exactly the proofs whose checks all hold

---
 circuits/gadgets/mpt/mpt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 4d683ab..563126c 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -290,7 +290,7 @@ func CheckMPTInclusionNoBranchTermination(
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
-		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], api.Sub(1, nodeTypes[index])))
+		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
@@ -474,7 +474,7 @@ func CheckMPTInclusionNoBranchTermination(
 	allCheckMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allCheckMultiplexerInput)
 
 	return CheckMPTInclusionFixedKeyLengthResult{
-		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 1)),
+		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 2)),
 		ValueLength: 0,
 	}
 }
-- 
2.43.0


From b1dab6772683e97ab36d6793028302096746e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:23 +0000
Subject: [PATCH 12/13] fix: limbs: range-check the parts of Split, the hint's
 values were only constrained by their sum

---
 circuits/gadgets/limbs/limbapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5dd8357..5995ad8 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -89,10 +89,13 @@ func (wa *API) Split(l Limb, newLimbSize int, nbLimbsOpt ...int) Limbs {
 	nbZeros := l.Size
 	for i := 0; i < nbLimbs; i++ {
 		nbZeros -= newLimbSize
+		// the hint is not trusted: every part has to fit its size
+		wa.api.ToBinary(out[i], newLimbSize)
 		acc = wa.api.MulAcc(acc, out[i], exp2(nbZeros))
 		ret = append(ret, Limb{Val: out[i], Size: newLimbSize})
 	}
 	if remSize > 0 {
+		wa.api.ToBinary(out[len(out)-1], remSize)
 		acc = wa.api.Add(acc, out[len(out)-1])
 		ret = append(ret, Limb{Val: out[len(out)-1], Size: remSize})
 	}
-- 
2.43.0


From e9a6100b12c8a1756bf3de4487263b42c3275d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:44 +0000
Subject: [PATCH 13/13] fix: limbs: Resplit ignored the limb size of a single
 limb, merged beyond the field and sliced past the last bit

---
 circuits/gadgets/limbs/limbapi.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5995ad8..a1286f5 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -128,12 +128,13 @@ func (wa *API) Merge(ws Limbs) Limb {
 
 // Resplit resplits limbs into new limb sizes
 func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
-	if len(ws) == 1 {
+	if len(ws) == 1 && ws[0].Size <= newLimbSize {
 		return ws
 	}
 	totalSize := ws.TotalSize()
 	f := wa.api.Compiler().FieldBitLen()
-	if totalSize <= f {
+	// a value of f bits may exceed the field modulus
+	if totalSize < f {
 		return wa.Split(wa.Merge(ws), newLimbSize)
 	}
 	// if the total limb size is greater than the field size, we cannot merge all the limbs together then
@@ -144,7 +145,7 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	var ret Limbs
 	for i := 0; i < totalSize; i += newLimbSize {
-		ret = append(ret, wa.Merge(bits[i:i+newLimbSize]))
+		ret = append(ret, wa.Merge(bits[i:min(i+newLimbSize, totalSize)]))
 	}
 	return ret
 }
-- 
2.43.0

