From b5bdf804cca31d0f15477dfc55a5755ad6cbb757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 01/30] fix: SplitScalar does not modify the given secret

---
 lib/crypto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 9b85049..0124e88 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -114,6 +114,7 @@ func GenKeys(n int) (kyber.Point, []kyber.Scalar, []kyber.Point) {
 // SplitScalar splits a given scalar into multiple n+1 scalars
 // The sum of the returned slice of scalars equals the given `rootScalar`
 func SplitScalar(rootScalar kyber.Scalar, nbrSplits int) []kyber.Scalar {
+	rootScalar = rootScalar.Clone() // the caller's scalar must not be modified
 	allScalars := make([]kyber.Scalar, nbrSplits)
 	for i := range allScalars {
 		allScalars[i] = RandomScalarSlice(1)[0]
-- 
2.43.0


From 1bf5f339fb74f650748ab712abed8944ba404a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 02/30] fix: signed decryption is right after unsigned ones
 extended the table

---
 lib/crypto.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 0124e88..74c499c 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -23,6 +23,7 @@ const MaxHomomorphicInt int64 = 100000
 var PointToInt = concurrent.NewConcurrentMap()
 var currentGreatestM kyber.Point
 var currentGreatestInt int64
+var currentNegSize int64 // the negatives of all the integers smaller than this are in the table
 var mutex = sync.Mutex{}
 
 // PublishedSimpleAdditionProof contains the two added ciphervectors and the resulting ciphervector
@@ -343,6 +344,17 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 	guessNeg := SuiTe.Point().Null()
 	guessIntMinus := int64(0)
 
+	// the table may have been extended without the negative values, these have to be added first
+	for ; checkNeg && !foundNeg && currentNegSize < currentGreatestInt; currentNegSize++ {
+		guessIntMinus = -currentNegSize
+		guessNeg = SuiTe.Point().Mul(SuiTe.Scalar().SetInt64(guessIntMinus), B)
+		if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
+			mutex.Unlock()
+			return -1, err
+		}
+		foundNeg = guessNeg.Equal(P)
+	}
+
 	start := true
 	for i := guessInt; i < MaxHomomorphicInt && !foundPos && !foundNeg; i = i + 1 {
 		// check for 0 first
@@ -362,6 +374,10 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 				return -1, err
 			}
 
+			if currentNegSize == guessInt {
+				currentNegSize++
+			}
+
 			if guessNeg.Equal(P) {
 				foundNeg = true
 			}
-- 
2.43.0


From b5aa7e9e9fb955d246cf5105b2ec90ebef0868f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 03/30] fix: decoders reject encodings of the wrong length
 instead of crashing

---
 lib/crypto.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 74c499c..ed25626 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -597,8 +597,11 @@ func (cv *CipherVector) ToBytes() ([]byte, int, error) {
 
 // FromBytes converts a byte array to a CipherVector. Note that you need to create the (empty) object beforehand.
 func (cv *CipherVector) FromBytes(data []byte, length int) error {
-	*cv = make(CipherVector, length)
 	cipherLength := 2 * SuiTe.PointLen()
+	if length < 0 || len(data)%cipherLength != 0 || len(data)/cipherLength != length {
+		return fmt.Errorf("invalid ciphervector: %v bytes for %v ciphertexts", len(data), length)
+	}
+	*cv = make(CipherVector, length)
 	for i, pos := 0, 0; i < length*cipherLength; i, pos = i+cipherLength, pos+1 {
 		ct := CipherText{}
 		if err := ct.FromBytes(data[i : i+cipherLength]); err != nil {
@@ -629,6 +632,9 @@ func (c *CipherText) FromBytes(data []byte) error {
 	(*c).K = SuiTe.Point()
 	(*c).C = SuiTe.Point()
 	pointLength := SuiTe.PointLen()
+	if len(data) != 2*pointLength {
+		return fmt.Errorf("invalid ciphertext: %v bytes instead of %v", len(data), 2*pointLength)
+	}
 	if err := (*c).K.UnmarshalBinary(data[:pointLength]); err != nil {
 		return err
 	}
@@ -733,6 +739,9 @@ func FromBytesToAbstractPoints(target []byte) ([]kyber.Point, error) {
 	var err error
 	aps := make([]kyber.Point, 0)
 	pointLength := SuiTe.PointLen()
+	if len(target)%pointLength != 0 {
+		return nil, fmt.Errorf("invalid list of points: %v bytes is not a multiple of %v", len(target), pointLength)
+	}
 	for i := 0; i < len(target); i += pointLength {
 		ap := SuiTe.Point()
 		if err = ap.UnmarshalBinary(target[i : i+pointLength]); err != nil {
@@ -786,10 +795,21 @@ func ArrayCipherVectorToBytes(data []CipherVector) ([]byte, []byte, error) {
 
 // FromBytesToArrayCipherVector converts bytes to an array of CipherVector
 func FromBytesToArrayCipherVector(data []byte, cvLengthsByte []byte) ([]CipherVector, error) {
+	if len(cvLengthsByte)%4 != 0 {
+		return nil, fmt.Errorf("invalid lengths of ciphervectors: %v bytes", len(cvLengthsByte))
+	}
 	cvLengths := libunlynxtools.UnsafeCastBytesToInts(cvLengthsByte)
 	dataConverted := make([]CipherVector, len(cvLengths))
 	elementSize := CipherTextByteSize()
 
+	totalLength := 0
+	for _, v := range cvLengths {
+		totalLength += v
+	}
+	if len(data)%elementSize != 0 || len(data)/elementSize != totalLength {
+		return nil, fmt.Errorf("invalid ciphervectors: %v bytes for %v ciphertexts", len(data), totalLength)
+	}
+
 	var err error
 	mutex := sync.Mutex{}
 	wg := StartParallelize(len(cvLengths))
-- 
2.43.0


From f7be827cacb0d8c095149fc4722f5fbcef71cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 04/30] fix: UnKey and ProcessResponseDet.FromBytes decode what
 their encoders wrote

---
 lib/structs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 0e1a733..2f96a51 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -212,7 +212,7 @@ func UnKey(gk GroupingKey) ([]int64, error) {
 	nbrString := make([]string, 1)
 	for _, a := range gk {
 		if a != ',' {
-			nbrString[0] = string(a)
+			nbrString[0] += string(a)
 		} else {
 			key, err := strconv.Atoi(strings.Join(nbrString, ""))
 			if err != nil {
@@ -412,11 +412,14 @@ func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pga
 	aab := data[gacbByteLength : gacbByteLength+aabByteLength]
 	pgaeb := data[gacbByteLength+aabByteLength : gacbByteLength+aabByteLength+pgaebByteLength]
 	dtbgb := data[gacbByteLength+aabByteLength+pgaebByteLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength]
-	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbgbLength+dtbwLength]
+	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbwLength]
 
 	(*crd).DetTagGroupBy = GroupingKey(string(dtbgb))
 	(*crd).DetTagWhere = make([]GroupingKey, 0)
 	for _, key := range strings.Split(string(dtbw), SEPARATOR) {
+		if dtbwLength == 0 {
+			break // no tag
+		}
 		(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
 	}
 	err := (*crd).PR.AggregatingAttributes.FromBytes(aab, aabLength)
-- 
2.43.0


From a266370c239c0478ff564b85572a2fd92af1efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:55 +0000
Subject: [PATCH 05/30] fix: message, response and proof decoders reject
 malformed encodings instead of crashing

---
 lib/key_switch/key_switch_proofs.go          |  3 ++
 lib/shuffle/shuffle_proofs.go                | 10 ++++++
 lib/shuffle/structs.go                       |  6 ++++
 lib/structs.go                               | 35 ++++++++++++++++++++
 protocols/collective_aggregation_protocol.go |  7 ++++
 protocols/deterministic_tagging_protocol.go  |  3 ++
 protocols/shuffling+ddt_protocol.go          |  3 ++
 7 files changed, 67 insertions(+)

diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index ff5ae54..cd963f7 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -184,6 +184,9 @@ func (pksp *PublishedKSProof) FromBytes(pkspb PublishedKSProofBytes) error {
 		return err
 	}
 	KVibKs2RbnegQ := data
+	if len(KVibKs2RbnegQ) != 5 {
+		return fmt.Errorf("invalid key switch proof: %v points instead of 5", len(KVibKs2RbnegQ))
+	}
 	pksp.K = KVibKs2RbnegQ[0]
 	pksp.ViB = KVibKs2RbnegQ[1]
 	pksp.Ks2 = KVibKs2RbnegQ[2]
diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e0873b0..d8c23ea 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -475,6 +475,10 @@ func (psp *PublishedShufflingProof) ToBytes() (PublishedShufflingProofBytes, err
 
 // FromBytes transforms bytes back to PublishedShufflingProof
 func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes) error {
+	if pspb.OriginalList == nil || pspb.OriginalListLength == nil || pspb.ShuffledList == nil || pspb.ShuffledListLength == nil || pspb.G == nil || pspb.H == nil {
+		return fmt.Errorf("invalid shuffle proof: missing component")
+	}
+
 	var err error
 	psp.OriginalList, err = libunlynx.FromBytesToArrayCipherVector(*pspb.OriginalList, *pspb.OriginalListLength)
 	if err != nil {
@@ -489,12 +493,18 @@ func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes)
 	if err != nil {
 		return err
 	}
+	if len(g) != 1 {
+		return fmt.Errorf("invalid shuffle proof: %v points instead of 1", len(g))
+	}
 	psp.G = g[0]
 
 	h, err := libunlynx.FromBytesToAbstractPoints(*pspb.H)
 	if err != nil {
 		return err
 	}
+	if len(h) != 1 {
+		return fmt.Errorf("invalid shuffle proof: %v points instead of 1", len(h))
+	}
 	psp.H = h[0]
 	psp.HashProof = pspb.HashProof
 
diff --git a/lib/shuffle/structs.go b/lib/shuffle/structs.go
index 695222f..237e0a1 100644
--- a/lib/shuffle/structs.go
+++ b/lib/shuffle/structs.go
@@ -1,6 +1,8 @@
 package libunlynxshuffle
 
 import (
+	"fmt"
+
 	"github.com/ldsec/unlynx/lib"
 	"go.dedis.ch/kyber/v3"
 )
@@ -84,6 +86,10 @@ func DecodeCipherVectorScalar(eCV []CipherVectorScalarBytes) ([]CipherVectorScal
 		}
 
 		for _, el := range v.CipherV {
+			if len(el) != 2 {
+				return slice, fmt.Errorf("invalid ciphertext: %v points instead of 2", len(el))
+			}
+
 			k := libunlynx.SuiTe.Point()
 			if err := k.UnmarshalBinary(el[0]); err != nil {
 				return slice, err
diff --git a/lib/structs.go b/lib/structs.go
index 2f96a51..0e52182 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -2,6 +2,7 @@
 package libunlynx
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 
@@ -229,6 +230,25 @@ func UnKey(gk GroupingKey) ([]int64, error) {
 // Marshal
 //______________________________________________________________________________________________________________________
 
+// checkEncodingLength checks that an encoded response has the size given by its tags and its numbers of ciphertexts
+func checkEncodingLength(data []byte, tagLength int, nbrCipherTexts ...int) error {
+	rest := len(data) - tagLength
+	if tagLength < 0 || rest < 0 || rest%CipherTextByteSize() != 0 {
+		return fmt.Errorf("invalid response: %v bytes with a tag of %v bytes", len(data), tagLength)
+	}
+	total := rest / CipherTextByteSize()
+	for _, n := range nbrCipherTexts {
+		if n < 0 || n > total {
+			return fmt.Errorf("invalid response: %v bytes for %v ciphertexts", len(data), nbrCipherTexts)
+		}
+		total -= n
+	}
+	if total != 0 {
+		return fmt.Errorf("invalid response: %v bytes for %v ciphertexts", len(data), nbrCipherTexts)
+	}
+	return nil
+}
+
 // ToBytes converts a Filtered to a byte array
 func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 	b := make([]byte, 0)
@@ -255,6 +275,9 @@ func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponse. Note that you need to create the (empty) object beforehand.
 func (cv *FilteredResponse) FromBytes(data []byte, aabLength, pgaebLength int) error {
+	if err := checkEncodingLength(data, 0, aabLength, pgaebLength); err != nil {
+		return err
+	}
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).GroupByEnc = make(CipherVector, pgaebLength)
 
@@ -293,6 +316,9 @@ func (crd *FilteredResponseDet) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *FilteredResponseDet) FromBytes(data []byte, gacbLength, aabLength, dtbgbLength int) error {
+	if err := checkEncodingLength(data, dtbgbLength, gacbLength, aabLength); err != nil {
+		return err
+	}
 	(*crd).Fr.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).Fr.GroupByEnc = make(CipherVector, gacbLength)
 
@@ -348,6 +374,9 @@ func (cv *ProcessResponse) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a ProcessResponse. Note that you need to create the (empty) object beforehand.
 func (cv *ProcessResponse) FromBytes(data []byte, gacbLength, aabLength, pgaebLength int) error {
+	if err := checkEncodingLength(data, 0, gacbLength, aabLength, pgaebLength); err != nil {
+		return err
+	}
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).WhereEnc = make(CipherVector, pgaebLength)
 	(*cv).GroupByEnc = make(CipherVector, gacbLength)
@@ -399,6 +428,12 @@ func (crd *ProcessResponseDet) ToBytes() ([]byte, int, int, int, int, int, error
 
 // FromBytes converts a byte array to a ProcessResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pgaebLength, dtbgbLength, dtbwLength int) error {
+	if dtbgbLength < 0 || dtbwLength < 0 || dtbgbLength > len(data) || dtbwLength > len(data) {
+		return fmt.Errorf("invalid response: tags of %v and %v bytes in %v bytes", dtbgbLength, dtbwLength, len(data))
+	}
+	if err := checkEncodingLength(data, dtbgbLength+dtbwLength, gacbLength, aabLength, pgaebLength); err != nil {
+		return err
+	}
 	(*crd).PR.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).PR.WhereEnc = make(CipherVector, pgaebLength)
 	(*crd).PR.GroupByEnc = make(CipherVector, gacbLength)
diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 12e184d..9b5e881 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -387,8 +387,15 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 // FromBytes converts a byte array to a ChildAggregatedDataMessage. Note that you need to create the (empty) object beforehand.
 func (sm *ChildAggregatedDataMessage) FromBytes(data []byte, gacbLength, aabLength, dtbLength int) error {
 	cipherTextSize := libunlynx.CipherTextByteSize()
+	if len(data) > 0 && (gacbLength < 0 || aabLength < 0 || dtbLength < 0 || gacbLength > len(data) || aabLength > len(data) || dtbLength > len(data)) {
+		return fmt.Errorf("invalid aggregated data: lengths %v, %v and %v in %v bytes", gacbLength, aabLength, dtbLength, len(data))
+	}
 	elementLength := gacbLength*cipherTextSize + aabLength*cipherTextSize + dtbLength
 
+	if len(data) > 0 && (elementLength == 0 || len(data)%elementLength != 0) {
+		return fmt.Errorf("invalid aggregated data: %v bytes is not a multiple of %v", len(data), elementLength)
+	}
+
 	if elementLength != 0 && len(data) > 0 {
 		var nbrChildData int
 		nbrChildData = len(data) / elementLength
diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index a457f8c..c040ef0 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -383,6 +383,9 @@ func (dtm *DeterministicTaggingMessage) ToBytes() ([]byte, error) {
 // FromBytes converts a byte array to a DeterministicTaggingMessage. Note that you need to create the (empty) object beforehand.
 func (dtm *DeterministicTaggingMessage) FromBytes(data []byte) error {
 	elementSize := libunlynx.CipherTextByteSize()
+	if len(data)%elementSize != 0 {
+		return fmt.Errorf("invalid ciphertexts: %v bytes is not a multiple of %v", len(data), elementSize)
+	}
 	(*dtm).Data = make([]libunlynx.CipherText, len(data)/elementSize)
 
 	// iter over each value in the flatten data byte array
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 369d0ac..1826f60 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -335,6 +335,9 @@ func (spddtm *ShufflingPlusDDTMessage) FromBytes(data []byte, shuffKey []byte, c
 	if err != nil {
 		return err
 	}
+	if len(dataP) != 1 {
+		return fmt.Errorf("invalid shuffling key: %v points instead of 1", len(dataP))
+	}
 	(*spddtm).ShuffKey = dataP[0]
 	return nil
 }
-- 
2.43.0


From fed89924410e064cb4278fb45f0b4276b175f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 06/30] fix: tag proofs of a list prove the statement of every
 element and verify after decoding

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 09bea34..b3841cf 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -3,7 +3,6 @@ package libunlynxdetertag
 import (
 	"fmt"
 	"math"
-	"reflect"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -102,7 +101,7 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(vBef)); j++ {
 				proofAux, tmpErr := DeterministicTagCrProofCreation(vBef[i+j], vAft[i+j], K, k, s)
-				if err != nil {
+				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
 					mutex.Unlock()
@@ -209,10 +208,10 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 	var wg sync.WaitGroup
 	for i := 0; i < nbrProofsToCreate; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
-		go func(i int, c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) {
+		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < nbrProofsToCreate); j++ {
-				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1, s, c2, r)
+				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1List[i+j], sList[i+j], c2List[i+j], rList[i+j])
 				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
@@ -221,8 +220,7 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 				}
 				listProofs.List[i+j] = proofAux
 			}
-		}(i, c1List[i], sList[i], c2List[i], rList[i])
-
+		}(i)
 	}
 	wg.Wait()
 
@@ -248,7 +246,7 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 	partProof = true
 
 	cv := libunlynx.SuiTe.Point().Add(psap.C1, psap.C2)
-	return partProof && reflect.DeepEqual(cv, psap.R)
+	return partProof && cv.Equal(psap.R)
 }
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
-- 
2.43.0


From 111dd4c36bbaddba055376beda72afb601230f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 07/30] fix: the tagging protocols create tag proofs with the
 keys in the right order

---
 protocols/deterministic_tagging_protocol.go | 2 +-
 protocols/shuffling+ddt_protocol.go         | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index c040ef0..a7a315e 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -310,7 +310,7 @@ func sendingDet(p DeterministicTaggingProtocol, detTarget DeterministicTaggingMe
 func TaggingDet(cv *libunlynx.CipherVector, privKey, secretContrib kyber.Scalar, pubKey kyber.Point, proofs bool) error {
 	switchedVect := libunlynxdetertag.DeterministicTagSequence(*cv, privKey, secretContrib)
 	if proofs {
-		_, err := libunlynxdetertag.DeterministicTagCrListProofCreation(*cv, switchedVect, pubKey, secretContrib, privKey)
+		_, err := libunlynxdetertag.DeterministicTagCrListProofCreation(*cv, switchedVect, pubKey, privKey, secretContrib)
 		if err != nil {
 			return err
 		}
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 1826f60..3cb9a6e 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -238,7 +238,7 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 				vBef := shuffledData[i+j]
 				vAft := libunlynxdetertag.DeterministicTagSequence(vBef, p.Private(), *p.SurveySecretKey)
 				if p.Proofs {
-					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), *p.SurveySecretKey, p.Private())
+					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), p.Private(), *p.SurveySecretKey)
 					if tmpErr != nil {
 						mutex.Lock()
 						err = tmpErr
@@ -251,6 +251,10 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 		}(i)
 	}
 	wg.Wait()
+
+	if err != nil {
+		return err
+	}
 	libunlynx.EndTimer(step3)
 
 	var taggedData []libunlynx.DeterministCipherVector
-- 
2.43.0


From 1f2c5f6a00fe90e87dc64ace1ca3fa83b385637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 08/30] fix: the sum of an empty ciphervector is the neutral
 ciphertext instead of a crash

---
 lib/crypto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index ed25626..c5d8b6c 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -477,6 +477,9 @@ func (cv *CipherVector) Equal(cv2 *CipherVector) bool {
 
 // Acum adds all elements in a ciphervector
 func (cv *CipherVector) Acum() CipherText {
+	if len(*cv) == 0 {
+		return *NewCipherText()
+	}
 	acum := (*cv)[0]
 	for i := 1; i < len(*cv); i++ {
 		acum.Add(acum, (*cv)[i])
-- 
2.43.0


From 7850f5fb9cb4e8dd416ee635816eb6fb050fea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 09/30] fix: key switch list proof creation reports a failure
 instead of waiting forever

---
 lib/key_switch/key_switch_proofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index cd963f7..2b3c20c 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -100,6 +100,7 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 	for i := 0; i < len(viBs); i += libunlynx.VPARALLELIZE {
 		wg2.Add(1)
 		go func(i int, Q kyber.Point, k kyber.Scalar) {
+			defer wg2.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(viBs)); j++ {
 				proofAux, tmpErr := KeySwitchProofCreation(K, Q, k, viBs[i+j], ks2s[i+j], rBNegs[i+j], vis[i+j])
 				if tmpErr != nil {
@@ -110,7 +111,6 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 				}
 				plop.List[i+j] = proofAux
 			}
-			defer wg2.Done()
 		}(i, Q, k)
 
 	}
-- 
2.43.0


From 670836b51d95d6087ab5a2cea10333aef3454bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 10/30] fix: server addition/removal proofs also cover the
 first part of the ciphertexts

---
 lib/add_rm/add_rm_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 817cafd..a943b07 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -108,6 +108,12 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	// only the second part of the ciphertext changes
+	if !cp.CtAft.K.Equal(cp.CtBef.K) || !cp.RB.Equal(cp.CtBef.K) {
+		log.Error("---------Verifier: the first part of the ciphertext was changed")
+		return false
+	}
+
 	predicate := createPredicateAddRm()
 	B := libunlynx.SuiTe.Point().Base()
 	c2 := libunlynx.SuiTe.Point()
-- 
2.43.0


From 330284aa97017d6601a287f9f9e481e23b71e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 11/30] fix: tag creation proofs with an arbitrary intermediate
 point are rejected

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index b3841cf..d57bbb1 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -133,6 +133,12 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 	ci2 := prf.CTaft.C
 	ciminus12 := prf.CTbef.C
 
+	// ciminus11Si is the opposite of the first part of the result (s * ciminus11)
+	if !prf.Ciminus11Si.Equal(libunlynx.SuiTe.Point().Neg(ci1)) {
+		log.Error("---------Verifier: ciminus11Si does not match the ciphertext")
+		return false
+	}
+
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": prf.Ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1, "SB": SB}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, prf.Proof); err != nil {
-- 
2.43.0


From 9573b1b8373ec0f46ac66fd27842d686ad7bec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 12/30] fix: shuffle proofs detect exchanged columns when the
 first row repeats a ciphertext

---
 lib/shuffle/shuffle_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index d8c23ea..da799a3 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -6,6 +6,7 @@ import (
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
+	"github.com/ldsec/unlynx/lib/tools"
 	"go.dedis.ch/kyber/v3"
 	"go.dedis.ch/kyber/v3/proof"
 	shuffleKyber "go.dedis.ch/kyber/v3/shuffle"
@@ -274,6 +275,11 @@ func computeE(index int, cv libunlynx.CipherVector, seed []byte) (kyber.Scalar,
 		return nil, err
 	}
 
+	// the position is part of the input: equal ciphertexts in different columns must not get the same e
+	position := libunlynxtools.UnsafeCastIntsToBytes([]int{index})
+	if _, err := randomCipher.Write(position); err != nil {
+		return nil, err
+	}
 	if _, err := randomCipher.Write(dataC); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ac55cb08a889fc4e2d0af31a69f65d364bd6e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 13/30] fix: shuffle proofs of malformed lists are an error
 instead of a crash

---
 lib/shuffle/shuffle_proofs.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index da799a3..0e97623 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -44,8 +44,28 @@ type PublishedShufflingListProof struct {
 // SHUFFLE proofs
 //______________________________________________________________________________________________________________________
 
+// checkShuffleShape checks that both lists have the same number (at least 2) of lines, all of the same length
+func checkShuffleShape(originalList, shuffledList []libunlynx.CipherVector) error {
+	if len(originalList) < 2 || len(originalList) != len(shuffledList) {
+		return fmt.Errorf("cannot prove the shuffling of %v lines into %v lines", len(originalList), len(shuffledList))
+	}
+	for i := range originalList {
+		if len(originalList[i]) != len(originalList[0]) || len(shuffledList[i]) != len(originalList[0]) {
+			return fmt.Errorf("the lines of a shuffling proof have different lengths")
+		}
+	}
+	return nil
+}
+
 // ShuffleProofCreation creates a shuffle proof
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
+	if err := checkShuffleShape(originalList, shuffledList); err != nil {
+		return PublishedShufflingProof{}, err
+	}
+	if len(beta) != len(originalList) || len(pi) != len(originalList) {
+		return PublishedShufflingProof{}, fmt.Errorf("%v permutation elements and %v random lines for %v lines", len(pi), len(beta), len(originalList))
+	}
+
 	e, err := CipherVectorComputeE(h, originalList[0])
 	if err != nil {
 		return PublishedShufflingProof{}, err
@@ -138,6 +158,11 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
+	if err := checkShuffleShape(psp.OriginalList, psp.ShuffledList); err != nil {
+		log.Error(err)
+		return false
+	}
+
 	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
-- 
2.43.0


From 30c3c1cb56c502be23c6d650a0fd5037f4f29915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 14/30] fix: list verification checks the requested share for
 any share without crashing

---
 lib/add_rm/add_rm_proofs.go                       |  5 +++--
 lib/aggregation/aggregation_proofs.go             |  1 +
 lib/constants.go                                  | 10 ++++++++++
 lib/deterministic_tag/deterministic_tag_proofs.go |  2 ++
 lib/key_switch/key_switch_proofs.go               |  1 +
 lib/shuffle/shuffle_proofs.go                     |  1 +
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index a943b07..f81a4df 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -135,15 +135,16 @@ func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) b
 
 // AddRmListProofVerification verifies multiple add/rm proofs
 func AddRmListProofVerification(parp PublishedAddRmListProof, percent float64) bool {
+	percent = libunlynx.BoundShare(percent)
 	nbrProofsToVerify := int(math.Ceil(percent * float64(len(parp.List))))
 	results := make([]bool, nbrProofsToVerify)
 
 	var wg sync.WaitGroup
-	for i := 0; i < len(parp.List); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < nbrProofsToVerify; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int, krm kyber.Point, toadd bool) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(parp.List); j++ {
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < nbrProofsToVerify; j++ {
 				results[i+j] = AddRmProofVerification(parp.List[i+j], krm, toadd)
 			}
 		}(i, parp.Krm, parp.ToAdd)
diff --git a/lib/aggregation/aggregation_proofs.go b/lib/aggregation/aggregation_proofs.go
index 3658644..92b0e06 100644
--- a/lib/aggregation/aggregation_proofs.go
+++ b/lib/aggregation/aggregation_proofs.go
@@ -67,6 +67,7 @@ func AggregationProofVerification(pap PublishedAggregationProof) bool {
 
 // AggregationListProofVerification verifies multiple aggregation proofs
 func AggregationListProofVerification(palp PublishedAggregationListProof, percent float64) bool {
+	percent = libunlynx.BoundShare(percent)
 	nbrProofsToVerify := int(math.Ceil(percent * float64(len(palp.List))))
 	results := make([]bool, nbrProofsToVerify)
 
diff --git a/lib/constants.go b/lib/constants.go
index a38df63..1b90ef9 100644
--- a/lib/constants.go
+++ b/lib/constants.go
@@ -59,3 +59,13 @@ func StartParallelize(nbrWg int) *sync.WaitGroup {
 func EndParallelize(wg *sync.WaitGroup) {
 	wg.Wait()
 }
+
+// BoundShare returns the share of a list of proofs to verify, brought into [0, 1]
+func BoundShare(share float64) float64 {
+	if share > 1 {
+		return 1
+	} else if share >= 0 {
+		return share
+	}
+	return 0
+}
diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index d57bbb1..b4c474b 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -151,6 +151,7 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 
 // DeterministicTagCrListProofVerification verifies a list of deterministic tag proofs, if one is wrong, returns false
 func DeterministicTagCrListProofVerification(pdclp PublishedDDTCreationListProof, percent float64) bool {
+	percent = libunlynx.BoundShare(percent)
 	nbrProofsToVerify := int(math.Ceil(percent * float64(len(pdclp.List))))
 	results := make([]bool, nbrProofsToVerify)
 
@@ -257,6 +258,7 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
 func DeterministicTagAdditionListProofVerification(pdalp PublishedDDTAdditionListProof, percent float64) bool {
+	percent = libunlynx.BoundShare(percent)
 	nbrProofsToVerify := int(math.Ceil(percent * float64(len(pdalp.List))))
 	results := make([]bool, nbrProofsToVerify)
 
diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index 2b3c20c..46639f6 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -139,6 +139,7 @@ func KeySwitchProofVerification(pop PublishedKSProof) bool {
 
 // KeySwitchListProofVerification verifies a list of key switch proofs, if one is wrong, returns false
 func KeySwitchListProofVerification(pkslp PublishedKSListProof, percent float64) bool {
+	percent = libunlynx.BoundShare(percent)
 	nbrProofsToVerify := int(math.Ceil(percent * float64(len(pkslp.List))))
 	results := make([]bool, nbrProofsToVerify)
 
diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 0e97623..730ae3e 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -220,6 +220,7 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 
 // ShuffleListProofVerification verifies a list of shuffle proofs
 func ShuffleListProofVerification(pslp PublishedShufflingListProof, seed kyber.Point, percent float64) bool {
+	percent = libunlynx.BoundShare(percent)
 	nbrProofsToVerify := int(math.Ceil(percent * float64(len(pslp.List))))
 
 	results := make([]bool, nbrProofsToVerify)
-- 
2.43.0


From 76e68ab7832ed4ecf3941a170905f3cc81b0c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 15/30] fix: the noise is added to the results that the store
 returns

---
 lib/store/store.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 98bdc10..af83fe6 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -273,16 +273,23 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 	s.GroupedDeterministicFilteredResponses = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 
 	if diffPri {
-		for _, v := range aggregatedResults {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
+		for i, v := range aggregatedResults {
+			aggregatedResults[i].AggregatingAttributes = addNoise(v.AggregatingAttributes, noise)
 		}
 	}
 
 	return aggregatedResults
 }
 
+// addNoise adds the same noise to all the elements of a vector and returns the result in a new vector
+func addNoise(cv libunlynx.CipherVector, noise libunlynx.CipherText) libunlynx.CipherVector {
+	result := *libunlynx.NewCipherVector(len(cv))
+	for i, aggr := range cv {
+		result[i].Add(aggr, noise)
+	}
+	return result
+}
+
 // PushQuerierKeyEncryptedResponses handles the reception of the key switched (for the querier) results.
 func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx.FilteredResponse) {
 	s.DeliverableResults = keySwitchedResponse
@@ -294,10 +301,9 @@ func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText)
 	s.DeliverableResults = s.DeliverableResults[:0]
 
 	if diffPri {
-		for _, v := range results {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
+		results = append([]libunlynx.FilteredResponse{}, results...)
+		for i, v := range results {
+			results[i].AggregatingAttributes = addNoise(v.AggregatingAttributes, noise)
 		}
 	}
 
-- 
2.43.0


From 1c6a35840a8d428b594154dab23e7000d6c6c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 16/30] fix: responses pulled from the store are handed out
 once and not overwritten by later insertions

---
 lib/store/store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index af83fe6..df304ef 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -113,7 +113,8 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
 	}
-	s.DpResponses = s.DpResponses[:0] //clear table
+	s.DpResponses = nil //clear table (without reusing the returned one)
+	s.DpResponsesAggr = make(map[GroupingKeyTuple]libunlynx.ProcessResponse)
 	return result
 }
 
@@ -125,7 +126,7 @@ func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libun
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
 	result := s.ShuffledProcessResponses
-	s.ShuffledProcessResponses = s.ShuffledProcessResponses[:0] //clear table
+	s.ShuffledProcessResponses = nil //clear table (without reusing the returned one)
 	return result
 }
 
-- 
2.43.0


From 12712dd3bde6956b45acb63296f3f1b457ff4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 17/30] fix: aggregation in clear looks at every where value
 and accepts responses without where and group by

---
 lib/store/store.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index df304ef..c8e46e4 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -173,6 +173,16 @@ func (s *Store) nextID() uint64 {
 	return uint64(s.lastID)
 }
 
+// hasZero tells whether one of the (where) values is 0, i.e. does not match
+func hasZero(values map[string]int64) bool {
+	for _, v := range values {
+		if v == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 // AddInClear permits to add non-encrypted DP responses
 func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 	dataMap := make(map[string][]int64)
@@ -186,14 +196,11 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 
 		//generate a unique tag and use it to aggregate the data
 		key := groupByClear + groupByEnc + whereClear + whereEnc
-		key = key[:len(key)-1]
 
 		// if the where matches (all 1s) -> filter responses
-		if len(elem.WhereClear) > 0 || len(elem.WhereEnc) > 0 {
-			if key[len(key)-1:] == "0" {
-				//discard these entries
-				continue
-			}
+		if hasZero(elem.WhereClear) || hasZero(elem.WhereEnc) {
+			//discard these entries
+			continue
 		}
 
 		cpy := make([]int64, 0)
-- 
2.43.0


From c479d2ed7822659e0581567c1863a199ea3b3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 18/30] fix: test data toolkit: all groups are generated,
 expected results leave the data unchanged, comparison is exact

---
 data/handle_data.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 913b07f..61448cb 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -82,6 +82,7 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 
 	testData := make(map[string][]libunlynx.DpClearResponse)
 
+	groups := make([][]int64, 0)
 	if !randomGroups {
 		numElem := 1
 		for _, el := range numType {
@@ -89,7 +90,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 
 		if int64(numElem) == numEntries {
-			groups := make([][]int64, 0)
 			group := make([]int64, 0)
 			AllPossibleGroups(numType[:], group, 0, &groups)
 		} else {
@@ -97,7 +97,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 	}
 
-	groups := make([][]int64, 0)
 	for i := int64(0); i < numDPs; i++ {
 		dpData := make([]libunlynx.DpClearResponse, numEntries)
 
@@ -273,7 +272,9 @@ func ReadDataFromFile(filename string) (map[string][]libunlynx.DpClearResponse,
 			})
 		}
 	}
-	testData[id] = container
+	if dataIn {
+		testData[id] = container
+	}
 
 	if err := scanner.Err(); err != nil {
 		return nil, err
@@ -323,6 +324,9 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 			//if we repeated data
 			if dataRepetitions > 1 {
+				// do not modify the given data
+				elem.AggregatingAttributesClear = joinMaps(elem.AggregatingAttributesClear, nil)
+				elem.AggregatingAttributesEnc = joinMaps(elem.AggregatingAttributesEnc, nil)
 				for k := range elem.AggregatingAttributesClear {
 					elem.AggregatingAttributesClear[k] = elem.AggregatingAttributesClear[k] * int64(dataRepetitions)
 				}
@@ -346,11 +350,16 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 // CompareClearResponses compares two DP ClearResponse arrays and returns true if they are the same or false otherwise
 func CompareClearResponses(x []libunlynx.DpClearResponse, y []libunlynx.DpClearResponse) bool {
-	var test bool
+	if len(x) != len(y) {
+		return false
+	}
+
+	test := true
+	matched := make([]bool, len(y))
 	for _, i := range x {
 		test = false
-		for _, j := range y {
-			if (reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
+		for idx, j := range y {
+			if !matched[idx] && (reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
 				(reflect.DeepEqual(i.GroupByEnc, j.GroupByEnc) || (len(i.GroupByEnc) == 0 && len(j.GroupByEnc) == 0)) &&
 				(reflect.DeepEqual(i.WhereClear, j.WhereClear) || (len(i.WhereClear) == 0 && len(j.WhereClear) == 0)) &&
 				(reflect.DeepEqual(i.WhereEnc, j.WhereEnc) || (len(i.WhereEnc) == 0 && len(j.WhereEnc) == 0)) &&
@@ -358,6 +367,7 @@ func CompareClearResponses(x []libunlynx.DpClearResponse, y []libunlynx.DpClearR
 				(reflect.DeepEqual(i.AggregatingAttributesEnc, j.AggregatingAttributesEnc) || (len(i.AggregatingAttributesEnc) == 0 && len(j.AggregatingAttributesEnc) == 0)) {
 
 				test = true
+				matched[idx] = true
 				break
 			}
 		}
-- 
2.43.0


From f11a90f62c5cbc2dd723c5644281b97cbdd67194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 19/30] fix: noise generation terminates when the density
 underflows or no quantum is given

---
 lib/differential_privacy/diff_privacy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/differential_privacy/diff_privacy.go b/lib/differential_privacy/diff_privacy.go
index 3c750e3..a741a9a 100644
--- a/lib/differential_privacy/diff_privacy.go
+++ b/lib/differential_privacy/diff_privacy.go
@@ -38,8 +38,11 @@ func GenerateNoiseValuesScale(n int64, mean, b, quanta, scale, limit float64) []
 	for int64(len(noise)) < n {
 		val := laplace.Pdf(float64(start))
 		rep := math.Ceil(val / quanta)
+		if !(rep >= 1) { // the density is too small to be represented but not null
+			rep = 1
+		}
 		count := 0
-		for i := 0; i < int(rep); i++ {
+		for i := 0; float64(i) < rep; i++ {
 			if start == 0 {
 				noise = append(noise, float64(start*scale))
 			} else {
-- 
2.43.0


From 07e86b5b7d517bf9697cf7b8f5f040080fe28997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 20/30] fix: local protocols keep the result of each instance
 in the instance

---
 protocols/utils/addrm_server_protocol.go            | 10 ++++++----
 protocols/utils/local_aggregation_protocol.go       | 10 ++++++----
 protocols/utils/local_clear_aggregation_protocol.go | 10 ++++++----
 protocols/utils/proofs_verification_protocol.go     | 10 ++++++----
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 9fbcc91..58192ac 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -34,6 +34,9 @@ type AddRmServerProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.CipherText
 
+	// channel between Start and Dispatch
+	finalResult chan []libunlynx.CipherText
+
 	// Protocol state data
 	TargetOfTransformation []libunlynx.CipherText
 	KeyToRm                kyber.Scalar
@@ -46,13 +49,12 @@ func NewAddRmProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
 	pvp := &AddRmServerProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.CipherText),
+		finalResult:      make(chan []libunlynx.CipherText),
 	}
 
 	return pvp, nil
 }
 
-var finalResultAddrm = make(chan []libunlynx.CipherText)
-
 // Start is called at the root to start the execution of the Add/Rm protocol.
 func (p *AddRmServerProtocol) Start() error {
 
@@ -85,7 +87,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAddrm <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -95,7 +97,7 @@ func (p *AddRmServerProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.CipherText
 	select {
-	case finalResultMessage = <-finalResultAddrm:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_aggregation_protocol.go b/protocols/utils/local_aggregation_protocol.go
index 665cb3b..635dfec 100644
--- a/protocols/utils/local_aggregation_protocol.go
+++ b/protocols/utils/local_aggregation_protocol.go
@@ -23,8 +23,6 @@ func init() {
 // Protocol
 //______________________________________________________________________________________________________________________
 
-var finalResultAggr = make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
-
 // LocalAggregationProtocol is a struct holding the state of a protocol instance.
 type LocalAggregationProtocol struct {
 	*onet.TreeNodeInstance
@@ -32,6 +30,9 @@ type LocalAggregationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 
+	// channel between Start and Dispatch
+	finalResult chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
+
 	// Protocol state data
 	TargetOfAggregation []libunlynx.FilteredResponseDet
 	Proofs              bool
@@ -42,6 +43,7 @@ func NewLocalAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstanc
 	pvp := &LocalAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
+		finalResult:      make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
 	}
 	return pvp, nil
 }
@@ -75,7 +77,7 @@ func (p *LocalAggregationProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAggr <- resultingMap
+	p.finalResult <- resultingMap
 
 	return nil
 }
@@ -86,7 +88,7 @@ func (p *LocalAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 	select {
-	case finalResultMessage = <-finalResultAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_clear_aggregation_protocol.go b/protocols/utils/local_clear_aggregation_protocol.go
index 9e73549..a49f077 100644
--- a/protocols/utils/local_clear_aggregation_protocol.go
+++ b/protocols/utils/local_clear_aggregation_protocol.go
@@ -29,6 +29,9 @@ type LocalClearAggregationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.DpClearResponse
 
+	// channel between Start and Dispatch
+	finalResult chan []libunlynx.DpClearResponse
+
 	// Protocol state data
 	TargetOfAggregation []libunlynx.DpClearResponse
 }
@@ -38,19 +41,18 @@ func NewLocalClearAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolIn
 	pvp := &LocalClearAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.DpClearResponse),
+		finalResult:      make(chan []libunlynx.DpClearResponse),
 	}
 	return pvp, nil
 }
 
-var finalResultClearAggr = make(chan []libunlynx.DpClearResponse)
-
 // Start is called at the root to start the execution of the local clear aggregation.
 func (p *LocalClearAggregationProtocol) Start() error {
 	log.Lvl1(p.ServerIdentity(), "started a local clear aggregation protocol")
 	roundComput := libunlynx.StartTimer(p.Name() + "_LocalClearAggregation(START)")
 	result := libunlynxstore.AddInClear(p.TargetOfAggregation)
 	libunlynx.EndTimer(roundComput)
-	finalResultClearAggr <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -60,7 +62,7 @@ func (p *LocalClearAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.DpClearResponse
 	select {
-	case finalResultMessage = <-finalResultClearAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/proofs_verification_protocol.go b/protocols/utils/proofs_verification_protocol.go
index 7cbf169..76df59d 100644
--- a/protocols/utils/proofs_verification_protocol.go
+++ b/protocols/utils/proofs_verification_protocol.go
@@ -45,6 +45,9 @@ type ProofsVerificationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []bool
 
+	// channel between Start and Dispatch
+	finalResult chan []bool
+
 	// Protocol state data
 	TargetOfVerification ProofsToVerify
 }
@@ -54,13 +57,12 @@ func NewProofsVerificationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInsta
 	pvp := &ProofsVerificationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []bool),
+		finalResult:      make(chan []bool),
 	}
 
 	return pvp, nil
 }
 
-var finalResult = make(chan []bool)
-
 // Start is called at the root to start the execution of the key switching.
 func (p *ProofsVerificationProtocol) Start() error {
 
@@ -101,7 +103,7 @@ func (p *ProofsVerificationProtocol) Start() error {
 	result[5] = libunlynxaggr.AggregationListProofVerification(p.TargetOfVerification.CollectiveAggregationProofs, 1.0)
 	libunlynx.EndTimer(collectiveAggrTime)
 
-	finalResult <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -111,7 +113,7 @@ func (p *ProofsVerificationProtocol) Dispatch() error {
 
 	var finalResultMessage []bool
 	select {
-	case finalResultMessage = <-finalResult:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
-- 
2.43.0


From 059ff70e4eb0f48866f66bcd9b9578ad3798b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 21/30] fix: the command line rejects malformed queries, and
 accepts count queries and queries without where and group by

---
 cmd/unlynx/client.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 7709fff..f3f80c3 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -61,6 +61,7 @@ func runUnLynx(c *cli.Context) {
 	log.ErrFatal(err, "Could not open group toml.")
 
 	sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal, err := parseQuery(el, sum, count, whereQueryValues, predicate, groupBy)
+	log.ErrFatal(err, "Could not parse the query.")
 
 	err = startQuery(el, proofs, sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal)
 	log.ErrFatal(err)
@@ -94,9 +95,9 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		return nil, false, nil, "", nil, fmt.Errorf("wrong query! please check the sum, where and the predicate parameters")
 	}
 
-	sumRegex := "{s[0-9]+(,\\s*s[0-9]+)*}"
-	whereRegex := "{(w[0-9]+(,\\s*[0-9]+))*(,\\s*w[0-9]+(,\\s*[0-9]+))*}"
-	groupByRegex := "{g[0-9]+(,\\s*g[0-9]+)*}"
+	sumRegex := "^{(s[0-9]+|count)(, *(s[0-9]+|count))*}$"
+	whereRegex := "^({(w[0-9]+, *[0-9]+(, *w[0-9]+, *[0-9]+)*)?})?$"
+	groupByRegex := "^({g[0-9]+(, *g[0-9]+)*})?$"
 
 	if !checkRegex(sum, sumRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the sum parameter(s)")
@@ -150,7 +151,10 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 	groupBy = strings.Replace(groupBy, " ", "", -1)
 	groupBy = strings.Replace(groupBy, "{", "", -1)
 	groupBy = strings.Replace(groupBy, "}", "", -1)
-	groupByFinal := strings.Split(groupBy, ",")
+	groupByFinal := make([]string, 0)
+	if groupBy != "" {
+		groupByFinal = strings.Split(groupBy, ",")
+	}
 
 	return sumFinal, count, whereFinal, predicate, groupByFinal, nil
 }
-- 
2.43.0


From d9968cb40c68b7198601846f855c38e7abf4cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 22/30] fix: an empty group file is an error instead of a crash

---
 cmd/unlynx/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index f3f80c3..62b222f 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -77,7 +77,7 @@ func openGroupToml(tomlFileName string) (*onet.Roster, error) {
 		return nil, err
 	}
 
-	if len(el.Roster.List) <= 0 {
+	if el == nil || el.Roster == nil || len(el.Roster.List) <= 0 {
 		return nil, fmt.Errorf("empty or invalid unlynx group file: %v", tomlFileName)
 	}
 
-- 
2.43.0


From c2807ad9ded6074b2ebe40a0f224f40830166637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 23/30] fix: precomputed shuffle randomness is for the
 requested key and size, and an interrupted write leaves no incomplete file

---
 lib/shuffle/shuffle.go | 52 ++++++++++++++++++++++++++++++++----------
 lib/tools/tools.go     | 17 +++++++++++---
 2 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/lib/shuffle/shuffle.go b/lib/shuffle/shuffle.go
index 2044f7a..7d75839 100644
--- a/lib/shuffle/shuffle.go
+++ b/lib/shuffle/shuffle.go
@@ -22,6 +22,10 @@ func ShuffleSequence(inputList []libunlynx.CipherVector, g, h kyber.Point, preco
 	NQ := len(inputList[0])
 	k := len(inputList) // number of clients
 
+	if !longEnough(precomputed, NQ) {
+		precomputed = nil
+	}
+
 	rand := libunlynx.SuiTe.RandomStream()
 	// Pick a fresh (or precomputed) ElGamal blinding factor for each pair
 	beta := make([][]kyber.Scalar, k)
@@ -154,22 +158,14 @@ func PrecomputationWritingForShuffling(appFlag bool, gobFile, serverName string,
 	log.Lvl1(serverName, " precomputes for shuffling")
 	var precomputeShuffle []CipherVectorScalar
 	if appFlag {
-		if _, err := os.Stat(gobFile); os.IsNotExist(err) {
+		var err error
+		precomputeShuffle, err = ReadPrecomputedFile(gobFile)
+		if err != nil || !isPrecomputedFor(precomputeShuffle, libunlynx.SuiTe.Point().Base(), collectiveKey, lineSize*2) {
+			// there is no file, or it was left by another survey or an interrupted writing
 			precomputeShuffle, err = PrecomputeForShuffling(serverName, gobFile, surveySecret, collectiveKey, lineSize)
 			if err != nil {
 				return nil, err
 			}
-		} else {
-			var encoded []CipherVectorScalarBytes
-			err := libunlynxtools.ReadFromGobFile(gobFile, &encoded)
-			if err != nil {
-				return nil, err
-			}
-
-			precomputeShuffle, err = DecodeCipherVectorScalar(encoded)
-			if err != nil {
-				return nil, err
-			}
 		}
 	} else {
 		scalarBytes, err := surveySecret.MarshalBinary()
@@ -181,6 +177,38 @@ func PrecomputationWritingForShuffling(appFlag bool, gobFile, serverName string,
 	return precomputeShuffle, nil
 }
 
+// longEnough tells if there are precomputed values and they are enough for vectors of size NQ
+func longEnough(precomputed []CipherVectorScalar, NQ int) bool {
+	for _, line := range precomputed {
+		if len(line.S) < NQ || len(line.CipherV) < NQ {
+			return false
+		}
+	}
+	return len(precomputed) > 0
+}
+
+// isPrecomputedFor tells if the precomputed values are for the generators g and h and if there are enough of them
+func isPrecomputedFor(precomputed []CipherVectorScalar, g, h kyber.Point, lineSize int) bool {
+	if !longEnough(precomputed, lineSize) {
+		return false
+	}
+	for _, line := range precomputed {
+		if len(line.S) != len(line.CipherV) {
+			return false
+		}
+		s := libunlynx.SuiTe.Scalar().Zero()
+		sum := libunlynx.NewCipherText()
+		for w := range line.S {
+			s.Add(s, line.S[w])
+			sum.Add(*sum, line.CipherV[w])
+		}
+		if !sum.K.Equal(libunlynx.SuiTe.Point().Mul(s, g)) || !sum.C.Equal(libunlynx.SuiTe.Point().Mul(s, h)) {
+			return false
+		}
+	}
+	return true
+}
+
 // ReadPrecomputedFile reads the precomputation data from a .gob file
 func ReadPrecomputedFile(fileName string) ([]CipherVectorScalar, error) {
 	if _, err := os.Stat(fileName); !os.IsNotExist(err) {
diff --git a/lib/tools/tools.go b/lib/tools/tools.go
index 0aa8f29..94c8b34 100644
--- a/lib/tools/tools.go
+++ b/lib/tools/tools.go
@@ -4,7 +4,9 @@ import (
 	"encoding/binary"
 	"encoding/gob"
 	"fmt"
+	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 
@@ -109,19 +111,28 @@ func ConvertMapToData(data map[string]int64, first string, start int) []int64 {
 
 // WriteToGobFile stores object (e.g. lib.Enc_CipherVectorScalar) in a gob file. Note that the object must contain serializable stuff, for example byte arrays.
 func WriteToGobFile(path string, object interface{}) error {
-	file, err := os.Create(path)
-	defer file.Close()
+	// write a temporary file first, so that path never holds an incomplete object
+	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")
 
 	if err == nil {
+		defer os.Remove(file.Name())
+		defer file.Close()
+
 		encoder := gob.NewEncoder(file)
 		if err := encoder.Encode(object); err != nil {
 			return err
 		}
+		if err := file.Sync(); err != nil {
+			return err
+		}
+		if err := file.Close(); err != nil {
+			return err
+		}
 	} else {
 		return fmt.Errorf("could not write Gob file: %v", err)
 	}
 
-	return nil
+	return os.Rename(file.Name(), path)
 }
 
 // ReadFromGobFile reads data from gob file to the object
-- 
2.43.0


From 7017823841a8f4b51a48911c81f67101430ce695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:05 +0000
Subject: [PATCH 24/30] fix: a predicate that cannot be evaluated is reported
 instead of crashing the server or silently dropping rows

---
 services/service.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/services/service.go b/services/service.go
index dddecc0..8af38f6 100644
--- a/services/service.go
+++ b/services/service.go
@@ -505,7 +505,12 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 
 		counter := len(tn.Roster().List) - 1
 		for counter > 0 {
-			counter = counter - (<-survey.DDTChannel)
+			select {
+			case finished := <-survey.DDTChannel:
+				counter = counter - finished
+			case <-time.After(libunlynx.TIMEOUT):
+				return nil, fmt.Errorf(tn.ServerIdentity().String() + " didn't get the <DDTfinished> of all servers on time")
+			}
 		}
 
 	case protocolsunlynx.DROProtocolName:
@@ -785,7 +790,10 @@ func (s *Service) TaggingPhase(targetSurvey SurveyID) error {
 	if survey.Query.Predicate == "" || len(queryWhereTag) == 0 {
 		filteredResponses = FilterNone(deterministicTaggingResult)
 	} else {
-		filteredResponses = FilterResponses(survey.Query.Predicate, queryWhereTag, deterministicTaggingResult)
+		filteredResponses, err = filterResponses(survey.Query.Predicate, queryWhereTag, deterministicTaggingResult)
+		if err != nil {
+			return err
+		}
 	}
 
 	survey.PushDeterministicFilteredResponses(filteredResponses, s.ServerIdentity().String(), survey.Query.Proofs)
@@ -872,13 +880,26 @@ func (s *Service) KeySwitchingPhase(targetSurvey SurveyID) error {
 // Support Functions
 //______________________________________________________________________________________________________________________
 
-// FilterResponses evaluates the predicate and keeps the entries that satisfy the conditions
+// FilterResponses evaluates the predicate and keeps the entries that satisfy the conditions (none if the predicate cannot be evaluated)
 func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) []libunlynx.FilteredResponseDet {
+	result, err := filterResponses(pred, whereQueryValues, responsesToFilter)
+	if err != nil {
+		log.Error(err)
+		return nil
+	}
+	return result
+}
+
+// filterResponses does the same as FilterResponses and tells why a predicate cannot be evaluated to true or false
+func filterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) ([]libunlynx.FilteredResponseDet, error) {
 	var result []libunlynx.FilteredResponseDet
 	for _, v := range responsesToFilter {
 		expression, err := govaluate.NewEvaluableExpression(pred)
 		if err != nil {
-			return result
+			return nil, fmt.Errorf("invalid predicate (%v): %v", pred, err)
+		}
+		if len(v.DetTagWhere) != len(whereQueryValues) {
+			return nil, fmt.Errorf("a response has %v where values instead of %v", len(v.DetTagWhere), len(whereQueryValues))
 		}
 		parameters := make(map[string]interface{}, len(whereQueryValues)+len(responsesToFilter[0].DetTagWhere))
 		counter := 0
@@ -892,12 +913,19 @@ func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttribu
 			}
 
 		}
-		keep, err := expression.Evaluate(parameters)
-		if keep.(bool) {
+		value, err := expression.Evaluate(parameters)
+		if err != nil {
+			return nil, fmt.Errorf("cannot evaluate the predicate (%v): %v", pred, err)
+		}
+		keep, ok := value.(bool)
+		if !ok {
+			return nil, fmt.Errorf("the predicate (%v) is neither true nor false: %v", pred, value)
+		}
+		if keep {
 			result = append(result, libunlynx.FilteredResponseDet{DetTagGroupBy: v.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: v.PR.GroupByEnc, AggregatingAttributes: v.PR.AggregatingAttributes}})
 		}
 	}
-	return result
+	return result, nil
 }
 
 // FilterNone skips the filtering of attributes when there is no predicate (the number of where attributes == 0)
-- 
2.43.0


From 5e1e8eaa8a5363b0677581cace0c5247747c6de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 25/30] fix: key switching on a single server waits for the
 start instead of crashing

---
 protocols/key_switching_protocol.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index a774605..1ef6305 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -102,6 +102,7 @@ type KeySwitchingProtocol struct {
 
 	// Protocol root data
 	NodeContribution *libunlynx.CipherVector
+	started          chan struct{} // tells the root's Dispatch that its own contribution is ready
 
 	// Protocol state data
 	TargetOfSwitch  *libunlynx.CipherVector
@@ -121,6 +122,7 @@ func NewKeySwitchingProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, e
 	pap := &KeySwitchingProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan libunlynx.CipherVector),
+		started:          make(chan struct{}, 1),
 	}
 
 	err := pap.RegisterChannel(&pap.DownChannel)
@@ -171,6 +173,7 @@ func (p *KeySwitchingProtocol) Start() error {
 		p.ProofFunc(p.Public(), *p.TargetPublicKey, p.Private(), ks2s, rBNegs, vis)
 	}
 	p.NodeContribution = &switchedCiphers
+	p.started <- struct{}{}
 
 	data, err := libunlynx.AbstractPointsToBytes(initialTab)
 	if err != nil {
@@ -204,6 +207,15 @@ func (p *KeySwitchingProtocol) Dispatch() error {
 		p.NodeContribution = &switchedCiphers
 	}
 
+	// the root's contribution comes from Start (a root without children receives no message that tells when)
+	if p.IsRoot() {
+		select {
+		case <-p.started:
+		case <-time.After(libunlynx.TIMEOUT):
+			return fmt.Errorf(p.ServerIdentity().String() + " was not started on time")
+		}
+	}
+
 	// 2. Ascending key switching phase
 	_, err := p.ascendingKSPhase()
 	if err != nil {
-- 
2.43.0


From eadabf5f2e3d733c4c64354b935b5854025b34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 26/30] fix: collective aggregation pairs the messages of a
 child whatever their order, and refuses to send data it cannot encode

---
 protocols/collective_aggregation_protocol.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 9b5e881..af82759 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -215,14 +215,15 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 		for _, v := range <-p.LengthNodeChannel {
 			length = append(length, v)
 		}
-		datas := make([]childAggregatedDataBytesStruct, 0)
+		// the children's messages of the two kinds can arrive in different orders
+		datas := make(map[onet.TreeNodeID]childAggregatedDataBytesStruct)
 		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+			datas[v.TreeNode.ID] = v
 		}
 
-		for i, v := range length {
+		for _, v := range length {
 			childrenContribution := ChildAggregatedDataMessage{}
-			err := childrenContribution.FromBytes(datas[i].Data, v.GacbLength, v.AabLength, v.DtbLength)
+			err := childrenContribution.FromBytes(datas[v.TreeNode.ID].Data, v.GacbLength, v.AabLength, v.DtbLength)
 			if err != nil {
 				return nil, err
 			}
@@ -343,6 +344,7 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 	var gacbLength int
 	var aabLength int
 	var dtbLength int
+	encoded := false
 
 	wg := libunlynx.StartParallelize(len((*sm).ChildData))
 	var mutexCD sync.Mutex
@@ -364,7 +366,11 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 			}
 
 			mutexCD.Lock()
-			bb[i] = aux
+			if bb[i] = aux; encoded && (gacbAux != gacbLength || aabAux != aabLength || dtbAux != dtbLength) {
+				// the decoder splits the bytes in elements of the same lengths
+				err = fmt.Errorf("cannot encode aggregated data of different lengths")
+			}
+			encoded = true
 			gacbLength = gacbAux
 			aabLength = aabAux
 			dtbLength = dtbAux
-- 
2.43.0


From 0a45db7b19f5bd2e9053ebd761fbdbc0640eb213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 27/30] fix: concurrent uploads are not lost and do not
 overwrite the querier's key, and a refused upload leaves nothing behind

---
 lib/store/store.go  |  7 +++++++
 services/service.go | 15 ++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index c8e46e4..21808c7 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -80,6 +80,10 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearWhr, newResp.WhereEnc = proccessParameters(whereStrings, cr.WhereClear, cr.WhereEnc, noEnc)
 	_, newResp.AggregatingAttributes = proccessParameters(sum, cr.AggregatingAttributesClear, cr.AggregatingAttributesEnc, false)
 
+	// several data providers can send their responses at the same time
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	if !noEnc {
 		s.DpResponses = append(s.DpResponses, newResp)
 	} else {
@@ -109,6 +113,9 @@ func (s *Store) HasNextDpResponse() bool {
 
 // PullDpResponses permits to get the received DP responses
 func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	result := s.DpResponses
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
diff --git a/services/service.go b/services/service.go
index 8af38f6..e19bac5 100644
--- a/services/service.go
+++ b/services/service.go
@@ -213,16 +213,17 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		return err
 	}
 
-	for _, v := range resp.Responses {
-		dr := libunlynx.DpResponse{}
-		if err := dr.FromDpResponseToSend(v); err != nil {
+	// all the responses or (if one is malformed) none of them
+	drs := make([]libunlynx.DpResponse, len(resp.Responses))
+	for i, v := range resp.Responses {
+		if err := drs[i].FromDpResponseToSend(v); err != nil {
 			return err
 		}
-		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-	err = s.putSurvey(resp.SurveyID, survey)
-	if err != nil {
-		return err
+	// the store is shared by all the copies of the survey: no need to put the survey back in the map (which would
+	// overwrite what other requests have changed in the meantime)
+	for _, dr := range drs {
+		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
 
 	log.Lvl1(s.ServerIdentity(), " uploaded response data for survey ", resp.SurveyID)
-- 
2.43.0


From 91c8b8affa470c979f937002d824b21767077a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 28/30] fix: more than 100 uploads to a server before the
 results request do not block

---
 services/service.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index e19bac5..ce9d26a 100644
--- a/services/service.go
+++ b/services/service.go
@@ -343,8 +343,11 @@ func (s *Service) HandleSurveyResponseQuery(resp *SurveyResponseQuery) (network.
 		return nil, err
 	}
 
-	//number of data providers who have already pushed the data
-	survey.DpChannel <- 1
+	//number of data providers who have already pushed the data (without waiting for the survey to be executed when there
+	//are many of them)
+	go func() {
+		survey.DpChannel <- 1
+	}()
 	return &ServiceState{"1"}, nil
 }
 
-- 
2.43.0


From 95d564f49825419acc57f89f9639088f5f0a954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 29/30] fix: an error in a protocol is logged instead of
 crashing the server

---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index ce9d26a..af1f91f 100644
--- a/services/service.go
+++ b/services/service.go
@@ -615,12 +615,12 @@ func (s *Service) StartProtocol(name string, targetSurvey SurveyID) (onet.Protoc
 
 	go func(pname string) {
 		if tmpErr := pi.Dispatch(); tmpErr != nil {
-			log.Error("Error running Dispatch ->" + name + " :" + err.Error())
+			log.Error("Error running Dispatch ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 	go func(pname string) {
 		if tmpErr := pi.Start(); tmpErr != nil {
-			log.Error("Error running Start ->" + name + " :" + err.Error())
+			log.Error("Error running Start ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 
-- 
2.43.0


From 49ec33a7700acaae0039507c5d4d118479f7ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 30/30] fix: surveys running at the same time do not block each
 other while waiting for the tagging phases

---
 services/service.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index af1f91f..d6f9ebb 100644
--- a/services/service.go
+++ b/services/service.go
@@ -492,7 +492,6 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			return nil, err
 		}
 
-		// waits for all other nodes to finish the tagging phase
 		groupedData := survey.PullLocallyAggregatedResponses()
 		err = s.putSurvey(target, survey)
 		if err != nil {
@@ -507,7 +506,12 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			return &proof
 		}
 
-		counter := len(tn.Roster().List) - 1
+		// the root waits for all other nodes to finish the tagging phase (the others are only asked to aggregate afterwards,
+		// and must not wait here: it would prevent this server from receiving any other protocol message)
+		counter := 0
+		if tn.IsRoot() {
+			counter = len(tn.Roster().List) - 1
+		}
 		for counter > 0 {
 			select {
 			case finished := <-survey.DDTChannel:
-- 
2.43.0

