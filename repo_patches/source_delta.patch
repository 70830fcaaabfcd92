From 3c65bedfd0759c45f7467e67b6b3e5e10ae4b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 01/23] fix: compare both coordinates in ECPoint.Equal

The Y coordinate of the argument was compared with itself, so a point
and its negation were reported as equal.
---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 26e8d07..a06b3e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -76,7 +76,7 @@ var Zero ECPoint // initialized in init()
 
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
-	if p.X.Cmp(p2.X) == 0 && p2.Y.Cmp(p2.Y) == 0 {
+	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From 3f84dc5f7d0637074ad3d42153455a896533684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 02/23] fix: use the base point of the precomputed H table as H

TestCurve.H was a publicly known multiple of G and different from the
base of the precomputed table behind Mult(H, s), so Mult(H, s) was not
s*H and commitments were neither binding nor consistent with CommitR.
---
 zksigma.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/zksigma.go b/zksigma.go
index 77ec75e..bff52fc 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -16,7 +16,6 @@ More info on Github
 package zksigma
 
 import (
-	"crypto/sha256"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/btcec"
@@ -47,9 +46,8 @@ func generateH2tothe() []ECPoint {
 }
 
 func init() {
-	s256 := sha256.New()
-	hashedString := s256.Sum([]byte("This is the new random point in zksigma"))
-	HX, HY := btcec.S256().ScalarMult(btcec.S256().Gx, btcec.S256().Gy, hashedString)
+	// H must be the base point of the precomputed table that Mult uses for it.
+	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-- 
2.43.0


From ac07b8613017f78fcf05574dd6144b9cd9c1ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:58 +0000
Subject: [PATCH 03/23] fix: reduce the disjunctive proof response modulo the
 group order

The unreduced response reveals the proven side and, divided by the
challenge share, the secret scalar.
---
 disjunctive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/disjunctive.go b/disjunctive.go
index a9e1a87..c695f77 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -128,6 +128,7 @@ func NewDisjunctiveProof(
 	deltaC.Mod(deltaC, zkpcp.C.Params().N)
 
 	s := new(big.Int).Add(u1, new(big.Int).Mul(deltaC, modValue))
+	s.Mod(s, zkpcp.C.Params().N)
 
 	// Look at mapping given in block comment above
 	if option == Left {
-- 
2.43.0


From 3979090771db151da44cd42f25387d012f7ce289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 04/23] fix: reduce the third ABC proof response modulo the
 group order

The unreduced response leaks the secrets it is meant to mask.
---
 abc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abc.go b/abc.go
index f39f5b5..c5fea04 100644
--- a/abc.go
+++ b/abc.go
@@ -157,6 +157,7 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// l = u3 + (uc - v * ub) * chal
 	temp1 := new(big.Int).Sub(uc, new(big.Int).Mul(value, ub))
 	l := new(big.Int).Add(u3, new(big.Int).Mul(temp1, Challenge))
+	l = new(big.Int).Mod(l, zkpcp.C.Params().N)
 
 	return &ABCProof{
 		B,
-- 
2.43.0


From 927bd9e0e2a26ac31916730890658ab644463c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 05/23] fix: reduce range proof responses modulo the group
 order

The size of the unreduced responses reveals the bits of the value.
---
 rangeproof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rangeproof.go b/rangeproof.go
index 4d7da9c..0a68ccf 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -139,12 +139,14 @@ func proofGenB(zkpcp ZKPCurveParams,
 		// s = k + (kValues[i] * e0) * inverse ei
 		data.kScalars[idx] = j.Add(
 			j, new(big.Int).Mul(data.kScalars[idx], new(big.Int).Mul(e0, inverseEI)))
+		data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 
 	} else { // bit is 1, don't do anything
 		// s is k + e0*v
 
 		data.kScalars[idx] = new(big.Int).Add(
 			data.kScalars[idx], new(big.Int).Mul(e0, data.vScalars[idx]))
+		data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 	}
 
 	return nil
-- 
2.43.0


From 1ca4957f642b578906d70fb0ad2e5ad32d6cb99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 06/23] fix: enforce the size limit in ReadVarBytes

The documented maxAllowed limit was ignored, so nine bytes of input could
request an arbitrarily large allocation. A serialized scalar has a sign
byte in front of its up to 32 bytes, so its limit is 33.
---
 crypto.go      | 2 +-
 wire/common.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index a06b3e7..ab87b31 100644
--- a/crypto.go
+++ b/crypto.go
@@ -187,7 +187,7 @@ func WriteBigInt(w io.Writer, b *big.Int) error {
 
 // ReadBigInt reads a big.Int from io.Reader r
 func ReadBigInt(r io.Reader) (*big.Int, error) {
-	bBytes, err := wire.ReadVarBytes(r, 32, "")
+	bBytes, err := wire.ReadVarBytes(r, 33, "") // sign byte and up to 32 bytes
 	if err != nil {
 		return nil, err
 	}
diff --git a/wire/common.go b/wire/common.go
index 94db5cb..659c075 100644
--- a/wire/common.go
+++ b/wire/common.go
@@ -294,6 +294,14 @@ func ReadVarBytes(r io.Reader, maxAllowed uint32,
 		return nil, err
 	}
 
+	// Prevent byte array larger than the max message size.  It would
+	// be possible to cause memory exhaustion and panics without a sane
+	// upper bound on this count.
+	if count > uint64(maxAllowed) {
+		return nil, fmt.Errorf("ReadVarBytes: %s is larger than the max allowed size "+
+			"[count %d, max %d]", fieldName, count, maxAllowed)
+	}
+
 	b := make([]byte, count)
 	_, err = io.ReadFull(r, b)
 	if err != nil {
-- 
2.43.0


From c4ca80f4482c683fe5d90261522318c0a04a1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 07/23] fix: return an error from ReadBigInt for an empty
 encoding

It panicked on the zero-length byte array.
---
 crypto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto.go b/crypto.go
index ab87b31..804cffc 100644
--- a/crypto.go
+++ b/crypto.go
@@ -191,6 +191,9 @@ func ReadBigInt(r io.Reader) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(bBytes) == 0 {
+		return nil, fmt.Errorf("ReadBigInt: missing sign byte")
+	}
 	newInt := big.NewInt(0).SetBytes(bBytes[1:])
 	if bBytes[0] == 0x01 {
 		newInt.Neg(newInt)
-- 
2.43.0


From a4ea39e4435d0b655e30595adb8a059d4d8bb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 08/23] fix: report errors when deserializing proofs

Read errors were discarded, so truncated input produced a proof with nil
fields and no error, and verifying it panicked.
---
 consistency.go | 26 +++++++++++++++++++++-----
 disjunctive.go | 36 +++++++++++++++++++++++++++++-------
 equivalence.go | 21 +++++++++++++++++----
 gspfs.go       | 21 +++++++++++++++++----
 rangeproof.go  | 26 +++++++++++++++++++++-----
 5 files changed, 105 insertions(+), 25 deletions(-)

diff --git a/consistency.go b/consistency.go
index f7a5b08..b751fac 100644
--- a/consistency.go
+++ b/consistency.go
@@ -150,10 +150,26 @@ func (proof *ConsistencyProof) Bytes() []byte {
 func NewConsistencyProofFromBytes(b []byte) (*ConsistencyProof, error) {
 	proof := new(ConsistencyProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	proof.T1, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.T2, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/disjunctive.go b/disjunctive.go
index c695f77..3a889d2 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -224,12 +224,34 @@ func (djProof *DisjunctiveProof) Bytes() []byte {
 func NewDisjunctiveProofFromBytes(b []byte) (*DisjunctiveProof, error) {
 	proof := new(DisjunctiveProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.C, _ = ReadBigInt(buf)
-	proof.C1, _ = ReadBigInt(buf)
-	proof.C2, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	proof.T1, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.T2, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/equivalence.go b/equivalence.go
index d56fdef..a488a70 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -138,9 +138,22 @@ func (proof *EquivalenceProof) Bytes() []byte {
 func NewEquivalenceProofFromBytes(b []byte) (*EquivalenceProof, error) {
 	proof := new(EquivalenceProof)
 	buf := bytes.NewBuffer(b)
-	proof.UG, _ = ReadECPoint(buf)
-	proof.UH, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
+	var err error
+	proof.UG, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.UH, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.HiddenValue, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/gspfs.go b/gspfs.go
index a0d27a3..d558b70 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -114,9 +114,22 @@ func (proof *GSPFSProof) Bytes() []byte {
 func NewGSPFSProofFromBytes(b []byte) (*GSPFSProof, error) {
 	proof := new(GSPFSProof)
 	buf := bytes.NewBuffer(b)
-	proof.Base, _ = ReadECPoint(buf)
-	proof.RandCommit, _ = ReadECPoint(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
+	var err error
+	proof.Base, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.RandCommit, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.HiddenValue, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/rangeproof.go b/rangeproof.go
index 0a68ccf..2191e9f 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -344,14 +344,30 @@ func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	proof := new(RangeProof)
 	buf := bytes.NewBuffer(b)
 
-	proof.ProofAggregate, _ = ReadECPoint(buf)
-	proof.ProofE, _ = ReadBigInt(buf)
-	numTuples, _ := wire.ReadVarInt(buf)
+	var err error
+	proof.ProofAggregate, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.ProofE, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	numTuples, err := wire.ReadVarInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	proof.ProofTuples = make([]rangeProofTuple, numTuples)
 	for i := uint64(0); i < numTuples; i++ {
 		proof.ProofTuples[i] = rangeProofTuple{}
-		proof.ProofTuples[i].C, _ = ReadECPoint(buf)
-		proof.ProofTuples[i].S, _ = ReadBigInt(buf)
+		proof.ProofTuples[i].C, err = ReadECPoint(buf)
+		if err != nil {
+			return nil, err
+		}
+		proof.ProofTuples[i].S, err = ReadBigInt(buf)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return proof, nil
-- 
2.43.0


From 36fcaaaf9f6a3980bc13247a1e065c84a33875bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 09/23] fix: bound the number of tuples read for a range proof
 by the input

The announced count was used for an allocation without any limit.
---
 rangeproof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rangeproof.go b/rangeproof.go
index 2191e9f..1b16cb1 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -357,6 +357,10 @@ func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	if err != nil {
 		return nil, err
 	}
+	// every tuple takes at least one byte, so there cannot be more than are left
+	if numTuples > uint64(buf.Len()) {
+		return nil, &errorProof{"NewRangeProofFromBytes", "more tuples announced than there is data"}
+	}
 	proof.ProofTuples = make([]rangeProofTuple, numTuples)
 	for i := uint64(0); i < numTuples; i++ {
 		proof.ProofTuples[i] = rangeProofTuple{}
-- 
2.43.0


From 261ae4ac5c4d6a899f6737183b57ec61874028c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 10/23] fix: reject range proofs with more entries than there
 are generators

The index was out of range in a goroutine, which ends the process.
---
 rangeproof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rangeproof.go b/rangeproof.go
index 1b16cb1..6f63763 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -270,6 +270,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	proofLength := len(proofs)
 
+	if proofLength > len(zkpcp.HPoints) {
+		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("%d entries, can only verify up to %d", proofLength, len(zkpcp.HPoints))}
+	}
+
 	Rpoints := make([]ECPoint, len(proofs))
 
 	totalPoint := ECPoint{big.NewInt(0), big.NewInt(0)}
-- 
2.43.0


From 4f11b999d09517604e2e6faf5af45effbd1fe020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 11/23] fix: refuse to make a range proof for 2^40

2^40 does not fit in the 40 bits of the proof, which came out as a valid
proof for a commitment to 0.
---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 6f63763..5951773 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -160,8 +160,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// If our value is in range, then sum of commitments would equal original commitment
 	// else, because of truncation, it will be deemed out of range not be equal
 
-	if value.Cmp(big.NewInt(1099511627776)) == 1 {
-		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627776\n", value.String())
+	if value.Cmp(big.NewInt(1099511627776)) >= 0 {
+		return nil, nil, fmt.Errorf("val %s too big, can only prove less than 1099511627776\n", value.String())
 	}
 
 	proofSize := 40
-- 
2.43.0


From baeb3a178a6569c38240c69b448b6be569b0ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 12/23] fix: report failures of the goroutines that make a
 range proof

Their errors were dropped, so a failing random source led to a nil pointer
dereference instead of an error.
---
 rangeproof.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 5951773..c45ac27 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -46,12 +46,11 @@ type proverInternalData struct {
 	vScalars []*big.Int
 }
 
-// proofGenA takes in a waitgroup, index and bit
+// proofGenA takes in an index and bit
 // returns an Rpoint and Cpoint, and the k value bigint
 func proofGenA(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, s *proverInternalData) error {
+	idx int, bit bool, s *proverInternalData) error {
 
-	defer wg.Done()
 	var err error
 
 	//	R := s.Rpoints[idx]
@@ -101,11 +100,9 @@ func proofGenA(zkpcp ZKPCurveParams,
 	return nil
 }
 
-// proofGenB takes waitgroup, index, bit, along with the data to operate on
+// proofGenB takes index, bit, along with the data to operate on
 func proofGenB(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
-
-	defer wg.Done()
+	idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
 
 	if !bit {
 		// choose a random value from the integers mod prime
@@ -130,6 +127,9 @@ func proofGenB(zkpcp ZKPCurveParams,
 		ei.Mod(ei, zkpcp.C.Params().N)
 
 		inverseEI := new(big.Int).ModInverse(ei, zkpcp.C.Params().N)
+		if inverseEI == nil {
+			return &errorProof{"RangeProve", "challenge has no inverse"}
+		}
 
 		data.vScalars[idx] = new(big.Int).Mul(inverseEI, data.kScalars[idx])
 
@@ -183,12 +183,20 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 
 	//	 do the loop bValue times
 	var wg sync.WaitGroup
+	errs := make([]error, proofSize)
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenA(zkpcp, &wg, i, value.Bit(i) == 1, stuff)
+		go func(idx int, bit bool) {
+			defer wg.Done()
+			errs[idx] = proofGenA(zkpcp, idx, bit, stuff)
+		}(i, value.Bit(i) == 1)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	// hash concat of all R values
 	rHash := sha256.New()
@@ -208,11 +216,17 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// go through all 64 part B
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenB(zkpcp,
-			&wg, i, value.Bit(i) == 1, e0, stuff)
+		go func(idx int, bit bool) {
+			defer wg.Done()
+			errs[idx] = proofGenB(zkpcp, idx, bit, e0, stuff)
+		}(i, value.Bit(i) == 1)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
-- 
2.43.0


From 2795aa79b717303403436f73aa1f8b973d30ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 13/23] fix: reduce the range proof challenge in the verifier
 like the prover does

A proof whose digest is not below the group order was rejected.
---
 rangeproof.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index c45ac27..c07f24c 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -324,9 +324,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 		rHash.Write(rpoint.X.Bytes())
 		rHash.Write(rpoint.Y.Bytes())
 	}
-	calculatedE0 := rHash.Sum(nil)
+	calculatedE0 := new(big.Int).SetBytes(rHash.Sum(nil))
+	calculatedE0.Mod(calculatedE0, zkpcp.C.Params().N)
 
-	if proof.ProofE.Cmp(new(big.Int).SetBytes(calculatedE0[:])) != 0 {
+	if proof.ProofE.Cmp(calculatedE0) != 0 {
 		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("calculatedE0 does not match")}
 	}
 
-- 
2.43.0


From 4f1ca3f593d0ab95789146fe021abc16e137c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 14/23] fix: handle values and keys that are multiples of the
 group order in ABC proofs

The modular inverse does not exist for them and its nil result was
dereferenced.
---
 abc.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/abc.go b/abc.go
index c5fea04..3df8e54 100644
--- a/abc.go
+++ b/abc.go
@@ -62,6 +62,15 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
+	// only the residue of the value matters, and only a nonzero residue has an inverse
+	value = new(big.Int).Mod(value, zkpcp.C.Params().N)
+
+	// inv(sk)
+	isk := new(big.Int).ModInverse(sk, zkpcp.C.Params().N)
+	if isk == nil {
+		return nil, &errorProof{"ABCProof", "secret key has no inverse"}
+	}
+
 	u1, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 	if err != nil {
 		return nil, err
@@ -149,8 +158,6 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	j = new(big.Int).Mod(j, zkpcp.C.Params().N)
 
 	// k = u2 + inv(sk) * chal
-	// inv(sk)
-	isk := new(big.Int).ModInverse(sk, zkpcp.C.Params().N)
 	k := new(big.Int).Add(u2, new(big.Int).Mul(isk, Challenge))
 	k = new(big.Int).Mod(k, zkpcp.C.Params().N)
 
-- 
2.43.0


From d3dd2123507715ab8857c575ba7b77b438d538d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 15/23] fix: reject a nil ABC proof with an error

As all other proofs do; it panicked.
---
 abc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abc.go b/abc.go
index 3df8e54..5496e1c 100644
--- a/abc.go
+++ b/abc.go
@@ -180,6 +180,10 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 // Verify checks if ABCProof aProof with appropriate commits CM and CMTok is correct
 func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, error) {
 
+	if aProof == nil {
+		return false, &errorProof{"ABCVerify", "passed proof is nil"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
-- 
2.43.0


From 6b8f316db9fe29dc2cf196f964450043c78dae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 16/23] fix: include the base point in the Schnorr proof
 challenge

The documented challenge is HASH(G, A, T1). Without the base, which is
part of the proof, a prover could choose it after the challenge and prove
knowledge for any A.
---
 gspfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gspfs.go b/gspfs.go
index d558b70..dd7cf94 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -59,7 +59,7 @@ func NewGSPFSProofBase(zkpcp ZKPCurveParams, base, A ECPoint, x *big.Int) (*GSPF
 	uG := zkpcp.Mult(base, u)
 
 	// generate hashed string challenge
-	c := GenerateChallenge(zkpcp, A.Bytes(), uG.Bytes())
+	c := GenerateChallenge(zkpcp, base.Bytes(), A.Bytes(), uG.Bytes())
 
 	// v = u - c * x
 	v := new(big.Int).Sub(u, new(big.Int).Mul(c, modValue))
@@ -76,7 +76,7 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 	}
 
 	// A = xG and RandCommit = uG
-	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
+	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
 	if testC.Cmp(proof.Challenge) != 0 {
 		return false, &errorProof{"GSPFSProof.Verify", "calculated challenge and proof's challenge do not agree!"}
-- 
2.43.0


From 76e8160e12de657c7016466b6828a9c8d00390be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 17/23] fix: truncate field values of more than 32 bytes as
 documented

The index was negative for them, so converting a coordinate of more than
32 bytes panicked.
---
 btcec/field.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/btcec/field.go b/btcec/field.go
index 0f2be74..c8761a6 100644
--- a/btcec/field.go
+++ b/btcec/field.go
@@ -221,10 +221,11 @@ func (f *fieldVal) SetBytes(b *[32]byte) *fieldVal {
 // f := new(fieldVal).SetByteSlice(byteSlice)
 func (f *fieldVal) SetByteSlice(b []byte) *fieldVal {
 	var b32 [32]byte
+	if len(b) > 32 {
+		b = b[:32]
+	}
 	for i := 0; i < len(b); i++ {
-		if i < 32 {
-			b32[i+(32-len(b))] = b[i]
-		}
+		b32[i+(32-len(b))] = b[i]
 	}
 	return f.SetBytes(&b32)
 }
-- 
2.43.0


From b8763e022e18f51eed3b00e0e45f2325708dc49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 18/23] fix: do arithmetic on the signature length in int

length+2 overflowed its byte, so parsing a signature that announces 254
or 255 bytes panicked, as did one that announces less than its header.
---
 btcec/signature.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/btcec/signature.go b/btcec/signature.go
index 6026c42..efd1687 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -110,9 +110,10 @@ func parseSig(sigStr []byte, curve elliptic.Curve, der bool) (*Signature, error)
 	}
 	index++
 	// length of remaining message
-	siglen := sigStr[index]
+	siglen := int(sigStr[index])
 	index++
-	if int(siglen+2) > len(sigStr) {
+	// it has to hold two ints of at least one byte each.
+	if siglen < 6 || siglen+2 > len(sigStr) {
 		return nil, errors.New("malformed signature: bad length")
 	}
 	// trim the slice we're working on so we only look at what matters.
-- 
2.43.0


From 38db9f7e722524f0a6239aad29b138634999f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 19/23] fix: do not decompress x coordinates that are not on
 the curve

Recovering a key from a compact signature with such an R returned a point
that is not on the curve.
---
 btcec/pubkey.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index b749177..1793fd5 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -39,6 +39,12 @@ func decompressPoint(curve *KoblitzCurve, x *big.Int, ybit bool) (*big.Int, erro
 	// https://bitcointalk.org/index.php?topic=162805.msg1712294#msg1712294
 	y := new(big.Int).Exp(x3, curve.QPlus1Div4(), curve.Params().P)
 
+	// x3 only has a square root if this is one
+	y2 := new(big.Int).Mul(y, y)
+	if y2.Sub(y2, x3).Mod(y2, curve.Params().P).Sign() != 0 {
+		return nil, fmt.Errorf("x coordinate is not on the curve")
+	}
+
 	if ybit != isOdd(y) {
 		y.Sub(curve.Params().P, y)
 	}
-- 
2.43.0


From a867470599094a9111ea495d5af98cbd944c9b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:39 +0000
Subject: [PATCH 20/23] fix: reject compact signatures with R or S out of range

R = 0 has no inverse and its recovery panicked.
---
 btcec/signature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btcec/signature.go b/btcec/signature.go
index efd1687..c03ea84 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -404,6 +404,10 @@ func RecoverCompact(curve *KoblitzCurve, signature,
 		R: new(big.Int).SetBytes(signature[1 : bitlen+1]),
 		S: new(big.Int).SetBytes(signature[bitlen+1:]),
 	}
+	if sig.R.Sign() == 0 || sig.R.Cmp(curve.Params().N) >= 0 ||
+		sig.S.Sign() == 0 || sig.S.Cmp(curve.Params().N) >= 0 {
+		return nil, false, errors.New("signature R or S is not in [1, N-1]")
+	}
 	// The iteration used here was encoded
 	key, err := recoverKeyFromSignature(curve, sig, hash, iteration, false)
 	if err != nil {
-- 
2.43.0


From 5bf5c57fa88f0859c869ef4a5adc84a8d993aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 21/23] fix: do not write padding into the caller's buffer

Appending to the input overwrote the bytes behind it when its capacity
allowed it.
---
 btcec/ciphering.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btcec/ciphering.go b/btcec/ciphering.go
index b18c9b7..0f9bfd1 100644
--- a/btcec/ciphering.go
+++ b/btcec/ciphering.go
@@ -201,7 +201,9 @@ func Decrypt(priv *PrivateKey, in []byte) ([]byte, error) {
 func addPKCSPadding(src []byte) []byte {
 	padding := aes.BlockSize - len(src)%aes.BlockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	padded := make([]byte, 0, len(src)+padding)
+	padded = append(padded, src...)
+	return append(padded, padtext...)
 }
 
 // removePKCSPadding removes padding from data that was added with addPKCSPadding
-- 
2.43.0


From ed8e35a341d24aeadab6c453dae4282e3aae1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 22/23] fix: reject uncompressed public keys with the undefined
 prefix 0x05

The low bit of the prefix has a meaning only in the compressed and hybrid
formats.
---
 btcec/pubkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index 1793fd5..8a2a520 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -86,7 +86,7 @@ func ParsePubKey(pubKeyStr []byte, curve *KoblitzCurve) (key *PublicKey, err err
 
 	switch len(pubKeyStr) {
 	case PubKeyBytesLenUncompressed:
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
+		if (format != pubkeyUncompressed || ybit) && format != pubkeyHybrid {
 			return nil, fmt.Errorf("invalid magic in pubkey str: "+
 				"%d", pubKeyStr[0])
 		}
-- 
2.43.0


From a73995751e22df9500b5ed1782ccc8037ca940c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:16 +0000
Subject: [PATCH 23/23] fix: recovering a key from a signature fails for the
 point at infinity

---
 btcec/signature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btcec/signature.go b/btcec/signature.go
index c03ea84..96e5852 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -328,6 +328,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	// TODO: this would be faster if we did a mult and add in one
 	// step to prevent the jacobian conversion back and forth.
 	Qx, Qy := curve.Add(sRx, sRy, minuseGx, minuseGy)
+	if Qx.Sign() == 0 && Qy.Sign() == 0 {
+		return nil, errors.New("recovered key is the point at infinity")
+	}
 
 	return &PublicKey{
 		Curve: curve,
-- 
2.43.0

