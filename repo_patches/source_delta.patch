From ce5fd2663262b2f14d4db817c4bbde47f8585566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 01/27] fix: reject proofs of work whose edge bits belong to
 neither algorithm

---
 src/PoW/PoWValidator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index dd2bd6e..d09eab1 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -11,6 +11,12 @@
 
 bool PoWValidator::IsPoWValid(const BlockHeader& header, const BlockHeader& previousHeader) const
 {
+    // Only Cuckatoo31+ (primary) and Cuckaroo29 variants (secondary) are acceptable.
+    if (!header.IsPrimaryPoW() && !header.IsSecondaryPoW()) {
+        LOG_WARNING_F("Invalid edge bits for block {}", header);
+        return false;
+    }
+
     // Validate Total Difficulty
     if (header.GetTotalDifficulty() <= previousHeader.GetTotalDifficulty()) {
         LOG_WARNING_F("Target difficulty too low for block {}", header);
-- 
2.43.0


From f827e6090171a8117a1c6323c0c8bdd8b1ae97af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 02/27] fix: weigh primary proofs of work by the
 height-dependent graph weight

---
 src/PoW/PoWValidator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index d09eab1..7b2ab12 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -70,7 +70,7 @@ uint64_t PoWValidator::GetMaximumDifficulty(const BlockHeader& header) const
     if (proofOfWork.GetEdgeBits() == Consensus::SECOND_POW_EDGE_BITS) {
         scalingDifficulty = header.GetScalingDifficulty();
     } else {
-        scalingDifficulty = Consensus::ScalingDifficulty(proofOfWork.GetEdgeBits());
+        scalingDifficulty = Consensus::GraphWeight(header.GetHeight(), proofOfWork.GetEdgeBits());
     }
 
     std::vector<uint8_t> temp;
-- 
2.43.0


From 6e0973da200c3c495b7d441d6fe979be910ec34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 03/27] fix: compare header timestamps with the future time
 limit in seconds

---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index 41ab9ee..f56e183 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -16,7 +16,8 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
     }
 
     // Validate Timestamp - Ensure timestamp not too far in the future
-    if (header.GetTimestamp() > Consensus::GetMaxBlockTime(std::chrono::system_clock::now())) {
+    const auto maxBlockTime = std::chrono::system_clock::now() + std::chrono::seconds(Consensus::DEFAULT_FUTURE_TIME_LIMIT_SEC);
+    if (header.GetTimestamp() > std::chrono::system_clock::to_time_t(maxBlockTime)) {
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Timestamp beyond maxBlockTime for header {}", header);
     }
 
-- 
2.43.0


From 46d235677d545a7b64bc9e3872eae99fd3b0a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 04/27] fix: require a header to name its parent's hash

---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index f56e183..10568bb 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -15,6 +15,11 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Invalid height for header {}", header);
     }
 
+    // Validate previous hash
+    if (header.GetPreviousHash() != prev_header.GetHash()) {
+        throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Invalid previous hash for header {}", header);
+    }
+
     // Validate Timestamp - Ensure timestamp not too far in the future
     const auto maxBlockTime = std::chrono::system_clock::now() + std::chrono::seconds(Consensus::DEFAULT_FUTURE_TIME_LIMIT_SEC);
     if (header.GetTimestamp() > std::chrono::system_clock::to_time_t(maxBlockTime)) {
-- 
2.43.0


From 79e12edbb95f4ed1931a9024ded3c23e6b38b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 05/27] fix: verify range proofs independently of earlier
 verifications and of the batch they come in

---
 src/Crypto/BulletProofsCache.h | 12 +++++++-----
 src/Crypto/Bulletproofs.cpp    | 20 +++++++++++++++++---
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/Crypto/BulletProofsCache.h b/src/Crypto/BulletProofsCache.h
index 81aa04b..49b63fc 100644
--- a/src/Crypto/BulletProofsCache.h
+++ b/src/Crypto/BulletProofsCache.h
@@ -2,7 +2,9 @@
 
 #include <caches/Cache.h>
 #include <Crypto/Models/Commitment.h>
+#include <Crypto/Models/RangeProof.h>
 #include <mutex>
+#include <vector>
 
 class BulletProofsCache
 {
@@ -13,20 +15,20 @@ public:
 
 	}
 
-	void AddToCache(const Commitment& commitment)
+	void AddToCache(const Commitment& commitment, const RangeProof& rangeProof)
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
-		m_bulletproofsCache.Put(commitment, commitment);
+		m_bulletproofsCache.Put(commitment, rangeProof.GetProofBytes());
 	}
 
-	bool WasAlreadyVerified(const Commitment& commitment) const
+	bool WasAlreadyVerified(const Commitment& commitment, const RangeProof& rangeProof) const
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
 		if (m_bulletproofsCache.Cached(commitment))
 		{
-			return m_bulletproofsCache.Get(commitment) == commitment;
+			return m_bulletproofsCache.Get(commitment) == rangeProof.GetProofBytes();
 		}
 
 		return false;
@@ -34,5 +36,5 @@ public:
 
 private:
 	mutable std::mutex m_mutex;
-	mutable LRUCache<Commitment, Commitment> m_bulletproofsCache;
+	mutable LRUCache<Commitment, std::vector<unsigned char>> m_bulletproofsCache;
 };
\ No newline at end of file
diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index 5088209..ee5c578 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -34,19 +34,33 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 {
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
+	if (rangeProofs.empty()) {
+		return true;
+	}
+
 	const size_t numBits = 64;
 	const size_t proofLength = rangeProofs.front().second.GetProofBytes().size();
 
 	std::vector<Commitment> commitments;
 	commitments.reserve(rangeProofs.size());
 
+	std::vector<const RangeProof*> unverifiedProofs;
+	unverifiedProofs.reserve(rangeProofs.size());
+
 	std::vector<const unsigned char*> bulletproofPointers;
 	bulletproofPointers.reserve(rangeProofs.size());
 	for (const std::pair<Commitment, RangeProof>& rangeProof : rangeProofs)
 	{
-		if (!m_cache.WasAlreadyVerified(rangeProof.first))
+		// All proofs of a batch are read with the length of the first one.
+		if (rangeProof.second.GetProofBytes().size() != proofLength) {
+			LOG_ERROR_F("Rangeproofs differ in size for commitment {}", rangeProof.first);
+			return false;
+		}
+
+		if (!m_cache.WasAlreadyVerified(rangeProof.first, rangeProof.second))
 		{
 			commitments.push_back(rangeProof.first);
+			unverifiedProofs.push_back(&rangeProof.second);
 			bulletproofPointers.emplace_back(rangeProof.second.GetProofBytes().data());
 		}
 	}
@@ -75,9 +89,9 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 		return false;
 	}
 
-	for (const Commitment& commitment : commitments)
+	for (size_t i = 0; i < commitments.size(); i++)
 	{
-		m_cache.AddToCache(commitment);
+		m_cache.AddToCache(commitments[i], *unverifiedProofs[i]);
 	}
 
 	return true;
-- 
2.43.0


From 1bbfe080f24c009505aa68ae1c3e11905a646810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 06/27] fix: reject bodies that spend, create or sign the same
 thing twice

---
 src/Core/Validation/TxBodyValidator.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Core/Validation/TxBodyValidator.cpp b/src/Core/Validation/TxBodyValidator.cpp
index 43be51d..47e9e7c 100644
--- a/src/Core/Validation/TxBodyValidator.cpp
+++ b/src/Core/Validation/TxBodyValidator.cpp
@@ -30,17 +30,26 @@ void TxBodyValidator::VerifySorted(const TransactionBody& body)
 		throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Inputs, outputs, and/or kernels not sorted.");
 	}
 
-	for (size_t i = 1; i < body.GetInputs().size(); i++) {
-		if (body.GetInput(i) == body.GetInput(i - 1)) {
+	// An output can only be spent or created once, whatever features are claimed for it.
+	std::set<Commitment> input_commits;
+	for (const TransactionInput& input : body.GetInputs()) {
+		if (!input_commits.insert(input.GetCommitment()).second) {
 			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate inputs.");
 		}
 	}
 
-	for (size_t i = 1; i < body.GetOutputs().size(); i++) {
-		if (body.GetOutput(i) == body.GetOutput(i - 1)) {
+	std::set<Commitment> output_commits;
+	for (const TransactionOutput& output : body.GetOutputs()) {
+		if (!output_commits.insert(output.GetCommitment()).second) {
 			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate outputs.");
 		}
 	}
+
+	for (size_t i = 1; i < body.GetKernels().size(); i++) {
+		if (body.GetKernel(i) == body.GetKernel(i - 1)) {
+			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate kernels.");
+		}
+	}
 }
 
 // Verify that no input is spending an output from the same block.
-- 
2.43.0


From 9838991ad7ed9e5a0a2570adf854f29cccec2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 07/27] fix: reject proofs of work whose unused trailing bits
 are set

---
 src/Core/Models/ProofOfWork.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Core/Models/ProofOfWork.cpp b/src/Core/Models/ProofOfWork.cpp
index 0149c79..7ed5035 100644
--- a/src/Core/Models/ProofOfWork.cpp
+++ b/src/Core/Models/ProofOfWork.cpp
@@ -56,6 +56,12 @@ ProofOfWork ProofOfWork::Deserialize(ByteBuffer& byteBuffer)
 
 	std::vector<uint64_t> proofNonces = DeserializeProofNonces(bits, edgeBits);
 
+	// The unused bits of the last byte must be zero, since they would not survive reserialization but are part of the hash.
+	const int used_bits = (edgeBits * Consensus::PROOFSIZE) % 8;
+	if (used_bits != 0 && (bits.back() >> used_bits) != 0) {
+		throw DESERIALIZATION_EXCEPTION("Unused proof bits are set.");
+	}
+
 	return ProofOfWork(edgeBits, std::move(proofNonces), std::move(hash));
 }
 
-- 
2.43.0


From fe844439ac7db818ae378a54aea52c0b1d4a42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 08/27] fix: reject unknown features and kernel fields that do
 not belong to the features

---
 include/Core/Models/Features.h        | 20 ++++++++++++++++++++
 src/Core/Models/OutputIdentifier.cpp  |  2 +-
 src/Core/Models/TransactionInput.cpp  |  2 +-
 src/Core/Models/TransactionKernel.cpp | 13 ++++++++++++-
 src/Core/Models/TransactionOutput.cpp |  2 +-
 5 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/Core/Models/Features.h b/include/Core/Models/Features.h
index 8d82edf..8dcdc90 100644
--- a/include/Core/Models/Features.h
+++ b/include/Core/Models/Features.h
@@ -46,6 +46,16 @@ namespace OutputFeatures
 
 		throw DESERIALIZATION_EXCEPTION_F("Failed to deserialize output feature: {}", string);
 	}
+
+	static EOutputFeatures FromByte(const uint8_t byte)
+	{
+		if (byte > EOutputFeatures::COINBASE_OUTPUT)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Unknown output feature: {}", byte);
+		}
+
+		return (EOutputFeatures)byte;
+	}
 }
 
 enum EKernelFeatures
@@ -103,4 +113,14 @@ namespace KernelFeatures
 
 		throw DESERIALIZATION_EXCEPTION_F("Failed to deserialize kernel feature: {}", string);
 	}
+
+	static EKernelFeatures FromByte(const uint8_t byte)
+	{
+		if (byte > EKernelFeatures::NO_RECENT_DUPLICATE)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Unknown kernel feature: {}", byte);
+		}
+
+		return (EKernelFeatures)byte;
+	}
 }
\ No newline at end of file
diff --git a/src/Core/Models/OutputIdentifier.cpp b/src/Core/Models/OutputIdentifier.cpp
index c3b5656..e116939 100644
--- a/src/Core/Models/OutputIdentifier.cpp
+++ b/src/Core/Models/OutputIdentifier.cpp
@@ -26,7 +26,7 @@ void OutputIdentifier::Serialize(Serializer& serializer) const
 OutputIdentifier OutputIdentifier::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
diff --git a/src/Core/Models/TransactionInput.cpp b/src/Core/Models/TransactionInput.cpp
index ddac512..35cbb81 100644
--- a/src/Core/Models/TransactionInput.cpp
+++ b/src/Core/Models/TransactionInput.cpp
@@ -30,7 +30,7 @@ TransactionInput TransactionInput::Deserialize(ByteBuffer& byteBuffer)
 		EOutputFeatures features = Global::GetCoinView()->GetOutputType(commitment);
 		return TransactionInput(features, std::move(commitment));
 	} else {
-		EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+		EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 		Commitment commitment = Commitment::Deserialize(byteBuffer);
 		return TransactionInput(features, std::move(commitment));
 	}
diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 71de1cd..7ba871f 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -60,7 +60,7 @@ void TransactionKernel::Serialize(Serializer& serializer) const
 TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read KernelFeatures (1 byte)
-	const EKernelFeatures features = (EKernelFeatures)byteBuffer.ReadU8();
+	const EKernelFeatures features = KernelFeatures::FromByte(byteBuffer.ReadU8());
 
 	Fee fee;
 	uint64_t lockHeight = 0;
@@ -84,6 +84,17 @@ TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 	{
 		fee = Fee::Deserialize(byteBuffer);
 		lockHeight = byteBuffer.ReadU64();
+
+		// Fields that do not belong to the kernel's features must be empty.
+		if (features == EKernelFeatures::COINBASE_KERNEL && fee != Fee())
+		{
+			throw DESERIALIZATION_EXCEPTION("Coinbase kernel with a fee");
+		}
+
+		if (lockHeight != 0 && (features == EKernelFeatures::DEFAULT_KERNEL || features == EKernelFeatures::COINBASE_KERNEL))
+		{
+			throw DESERIALIZATION_EXCEPTION("Lock height for a kernel that is not locked");
+		}
 	}
 
 	// Read ExcessCommitment (33 bytes)
diff --git a/src/Core/Models/TransactionOutput.cpp b/src/Core/Models/TransactionOutput.cpp
index b099183..949a96a 100644
--- a/src/Core/Models/TransactionOutput.cpp
+++ b/src/Core/Models/TransactionOutput.cpp
@@ -29,7 +29,7 @@ void TransactionOutput::Serialize(Serializer& serializer) const
 TransactionOutput TransactionOutput::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
-- 
2.43.0


From 3528eaeb261e27e8d79fdbaff4e46001a7fe1e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 09/27] fix: ByteBuffer bounds checks no longer wrap for huge
 lengths

---
 include/Core/Serialization/ByteBuffer.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/Core/Serialization/ByteBuffer.h b/include/Core/Serialization/ByteBuffer.h
index 17ae678..ecd356b 100644
--- a/include/Core/Serialization/ByteBuffer.h
+++ b/include/Core/Serialization/ByteBuffer.h
@@ -29,7 +29,7 @@ public:
     template<class T>
     void ReadBigEndian(T& t)
     {
-        if (m_index + sizeof(T) > m_bytes.size()) {
+        if (sizeof(T) > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -48,7 +48,7 @@ public:
     template<class T>
     void ReadLittleEndian(T& t)
     {
-        if (m_index + sizeof(T) > m_bytes.size()) {
+        if (sizeof(T) > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -157,7 +157,7 @@ public:
             return "";
         }
 
-        if (m_index + stringLength > m_bytes.size()) {
+        if (stringLength > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -169,7 +169,7 @@ public:
 
     std::string ReadString(const size_t size)
     {
-        if (m_index + size > m_bytes.size()) {
+        if (size > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -182,7 +182,7 @@ public:
     template<size_t NUM_BYTES>
     CBigInteger<NUM_BYTES> ReadBigInteger()
     {
-        if (m_index + NUM_BYTES > m_bytes.size()) {
+        if (NUM_BYTES > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -195,7 +195,7 @@ public:
 
     std::vector<uint8_t> ReadVector(const uint64_t numBytes)
     {
-        if (m_index + numBytes > m_bytes.size()) {
+        if (numBytes > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -208,7 +208,7 @@ public:
     template<size_t T>
     std::array<uint8_t, T> ReadArray()
     {
-        if (m_index + T > m_bytes.size()) {
+        if (T > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
-- 
2.43.0


From 9dff2a2aac20dcac1acd303c4ac821be8e2f4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 10/27] fix: bound segment hash, leaf and proof counts by the
 bytes received

---
 include/PMMR/Common/Segment.h      | 6 ++++++
 include/PMMR/Common/SegmentProof.h | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/include/PMMR/Common/Segment.h b/include/PMMR/Common/Segment.h
index 6d85823..c4a17ad 100644
--- a/include/PMMR/Common/Segment.h
+++ b/include/PMMR/Common/Segment.h
@@ -94,6 +94,9 @@ public:
     {
         SegmentIdentifier segmentId = SegmentIdentifier::Deserialize(byteBuffer);
         const uint64_t numHashes = byteBuffer.Read<uint64_t>();
+        if (numHashes > byteBuffer.GetRemainingSize() / (sizeof(uint64_t) + 32)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment can not contain {} hashes", numHashes);
+        }
         std::vector<uint64_t> hashPos(numHashes);
         for (uint64_t i = 0; i < numHashes; ++i) {
             hashPos[i] = byteBuffer.Read<uint64_t>();
@@ -104,6 +107,9 @@ public:
             hashes.push_back(byteBuffer.ReadBigInteger<32>());
         }
         const uint64_t numLeaves = byteBuffer.Read<uint64_t>();
+        if (numLeaves > byteBuffer.GetRemainingSize() / sizeof(uint64_t)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment can not contain {} leaves", numLeaves);
+        }
         std::vector<uint64_t> leafPos(numLeaves);
         for (uint64_t i = 0; i < numLeaves; ++i) {
             leafPos[i] = byteBuffer.Read<uint64_t>();
diff --git a/include/PMMR/Common/SegmentProof.h b/include/PMMR/Common/SegmentProof.h
index 6495ab7..899fbb8 100644
--- a/include/PMMR/Common/SegmentProof.h
+++ b/include/PMMR/Common/SegmentProof.h
@@ -51,6 +51,9 @@ public:
 	static SegmentProof Deserialize(ByteBuffer& byteBuffer)
 	{
 		const uint64_t size = byteBuffer.Read<uint64_t>();
+		if (size > byteBuffer.GetRemainingSize() / 32) {
+			throw DESERIALIZATION_EXCEPTION_F("Segment proof can not contain {} hashes", size);
+		}
 		std::vector<Hash> hashes;
 		hashes.reserve(size);
 		for (uint64_t i = 0; i < size; ++i) {
-- 
2.43.0


From 9daf0c75827afe28627df780f863da0853073d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 11/27] fix: ErrorMessage owns its text instead of referring to
 a dead temporary

---
 src/P2P/Messages/ErrorMessage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Messages/ErrorMessage.h b/src/P2P/Messages/ErrorMessage.h
index f0a92f5..b49189d 100644
--- a/src/P2P/Messages/ErrorMessage.h
+++ b/src/P2P/Messages/ErrorMessage.h
@@ -62,5 +62,5 @@ private:
 	const uint32_t m_errorCode; // TODO: Create EErrorType enum
 
 	// Error Message
-	const std::string& m_message;
+	const std::string m_message;
 };
\ No newline at end of file
-- 
2.43.0


From 6d3735902b2f5d4cb4c5fad4280bd362b41dc4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 12/27] fix: keep the reserved bits of a kernel fee, which its
 hash and signature cover

---
 include/Core/Models/Fee.h | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/Core/Models/Fee.h b/include/Core/Models/Fee.h
index b1a5ae2..607fcb0 100644
--- a/include/Core/Models/Fee.h
+++ b/include/Core/Models/Fee.h
@@ -12,21 +12,27 @@ public:
 	//
 	// Constructors
 	//
-	Fee() : m_shift(0), m_fee(0) { }
+	Fee() : m_reserved(0), m_shift(0), m_fee(0) { }
 	Fee(const Fee& fee) = default;
 	Fee(Fee&& fee) noexcept = default;
 	Fee(const uint8_t shift, const uint64_t fee)
-		: m_shift(shift), m_fee(fee) { }
-	
-	static Fee From(const uint64_t raw_fee) { return Fee(0, raw_fee); }
+		: m_reserved(0), m_shift(shift), m_fee(fee) { }
+
+	// Layout of the raw fee: 20 reserved bits, 4 bits of fee shift, 40 bits of fee.
+	static Fee From(const uint64_t raw_fee)
+	{
+		Fee fee((uint8_t)((raw_fee >> 40) & 0x0f), raw_fee & 0xffffffffffull);
+		fee.m_reserved = (uint32_t)(raw_fee >> 44);
+		return fee;
+	}
 
 	//
 	// Operators
 	//
 	Fee& operator=(const Fee& fee) = default;
 	Fee& operator=(Fee&& fee) noexcept = default;
-	bool operator==(const Fee& rhs) const { return m_fee == rhs.m_fee && m_shift == rhs.m_shift; }
-	bool operator!=(const Fee& rhs) const { return m_fee != rhs.m_fee || m_shift != rhs.m_shift; }
+	bool operator==(const Fee& rhs) const { return m_fee == rhs.m_fee && m_shift == rhs.m_shift && m_reserved == rhs.m_reserved; }
+	bool operator!=(const Fee& rhs) const { return !(*this == rhs); }
 
 	//
 	// Getters
@@ -39,19 +45,15 @@ public:
 	//
 	void Serialize(Serializer& serializer) const final
 	{
-		serializer.Append<uint16_t>(0);
-		serializer.Append<uint8_t>(m_shift);
+		serializer.Append<uint16_t>((uint16_t)(m_reserved >> 4));
+		serializer.Append<uint8_t>((uint8_t)(((m_reserved & 0x0f) << 4) | (m_shift & 0x0f)));
 		serializer.Append<uint8_t>((uint8_t)(m_fee >> 32));
 		serializer.Append<uint32_t>((uint32_t)(m_fee & 0xffffffff));
 	}
 
 	static Fee Deserialize(ByteBuffer& byteBuffer)
 	{
-		byteBuffer.ReadU16();
-		uint8_t shift = byteBuffer.ReadU8() & 0x0f;
-		uint64_t fee = ((uint64_t)byteBuffer.ReadU8()) << 32;
-		fee += byteBuffer.ReadU32();
-		return Fee(shift, fee);
+		return Fee::From(byteBuffer.ReadU64());
 	}
 
 	Json::Value ToJSON() const
@@ -66,6 +68,7 @@ public:
 	}
 
 private:
+	uint32_t m_reserved;
 	uint8_t m_shift;
 	uint64_t m_fee;
 };
\ No newline at end of file
-- 
2.43.0


From e6ae73b73a135e1d646e1d38e22f9be037dd7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 13/27] fix: refuse file reads and rewinds beyond the end
 instead of reading out of bounds

---
 include/Core/File/DataFile.h     | 4 ++--
 src/Core/File/AppendOnlyFile.cpp | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/Core/File/DataFile.h b/include/Core/File/DataFile.h
index 49efd9d..374f0d8 100644
--- a/include/Core/File/DataFile.h
+++ b/include/Core/File/DataFile.h
@@ -50,7 +50,7 @@ public:
 	void Rewind(const uint64_t size)
 	{
 		SetDirty(true);
-		if (!m_pFile->Rewind(size * NUM_BYTES))
+		if (size > GetSize() || !m_pFile->Rewind(size * NUM_BYTES))
 		{
 			throw FILE_EXCEPTION(StringUtil::Format("Failed to rewind to size {}", size));
 		}
@@ -64,7 +64,7 @@ public:
 	std::vector<unsigned char> GetDataAt(const uint64_t position) const
 	{
 		std::vector<unsigned char> data;
-		if (!m_pFile->Read(position * NUM_BYTES, NUM_BYTES, data))
+		if (position >= GetSize() || !m_pFile->Read(position * NUM_BYTES, NUM_BYTES, data))
 		{
 			throw FILE_EXCEPTION(StringUtil::Format("Failed to read data at position {}", position));
 		}
diff --git a/src/Core/File/AppendOnlyFile.cpp b/src/Core/File/AppendOnlyFile.cpp
index 6b77226..cd88ca8 100644
--- a/src/Core/File/AppendOnlyFile.cpp
+++ b/src/Core/File/AppendOnlyFile.cpp
@@ -77,6 +77,12 @@ uint64_t AppendOnlyFile::GetSize() const noexcept
 
 bool AppendOnlyFile::Read(const uint64_t position, const uint64_t numBytes, std::vector<unsigned char>& data) const
 {
+	// There's nothing to read beyond the end of the file.
+	if (numBytes > GetSize() || position > GetSize() - numBytes)
+	{
+		return false;
+	}
+
 	// TODO: Handle partial read from m_mmap and m_buffer
 	if (position < m_bufferIndex)
 	{
-- 
2.43.0


From 58d636f5651963024eaf7784490e1353a0549c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 14/27] fix: replace files atomically: don't remove the
 destination before renaming over it

---
 src/Common/Util/FileUtil.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index d6520fc..9bbc416 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -37,14 +37,8 @@ bool FileUtil::ReadFile(const fs::path& filePath, std::vector<uint8_t>& data)
 
 void FileUtil::RenameFile(const fs::path& source, const fs::path& destination)
 {
+	// Replaces any existing destination. Don't remove it first, or it would be lost if we die in between.
 	std::error_code ec;
-	fs::remove(destination, ec);
-	if (ec)
-	{
-		LOG_ERROR_F("Failed to remove {}. Error: {}", destination, ec.message());
-		throw FILE_EXCEPTION_F("Failed to remove {}. Error: {}", destination, ec.message());
-	}
-
 	fs::rename(source, destination, ec);
 	if (ec)
 	{
-- 
2.43.0


From d323186e827c69eed70a3630fbc8d8d6725f0c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 15/27] fix: commit the genesis leaves when the MMRs are
 created, so a rollback keeps them

---
 src/PMMR/KernelMMR.cpp    | 1 +
 src/PMMR/OutputPMMR.h     | 1 +
 src/PMMR/RangeProofPMMR.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/PMMR/KernelMMR.cpp b/src/PMMR/KernelMMR.cpp
index 637822d..516754e 100644
--- a/src/PMMR/KernelMMR.cpp
+++ b/src/PMMR/KernelMMR.cpp
@@ -23,6 +23,7 @@ std::shared_ptr<KernelMMR> KernelMMR::Load(const fs::path& txHashSetPath)
 
 	if (pHashFile->GetSize() == 0) {
 		pKernelMMR->ApplyKernel(Global::GetGenesisBlock().GetKernels().front());
+		pKernelMMR->Commit(); // Or a rollback would discard the genesis kernel
 	}
 
 	return pKernelMMR;
diff --git a/src/PMMR/OutputPMMR.h b/src/PMMR/OutputPMMR.h
index fc7b0fd..aaf5b65 100644
--- a/src/PMMR/OutputPMMR.h
+++ b/src/PMMR/OutputPMMR.h
@@ -36,6 +36,7 @@ public:
 		if (pHashFile->GetSize() == 0)
 		{
 			pOutputPMMR->Append(OutputIdentifier::FromOutput(Global::GetGenesisBlock().GetOutputs().front()));
+			pOutputPMMR->Commit(); // Or a rollback would discard the genesis output
 		}
 
 		return pOutputPMMR;
diff --git a/src/PMMR/RangeProofPMMR.h b/src/PMMR/RangeProofPMMR.h
index 58bd24d..0fcdf0a 100644
--- a/src/PMMR/RangeProofPMMR.h
+++ b/src/PMMR/RangeProofPMMR.h
@@ -34,6 +34,7 @@ public:
 		if (pHashFile->GetSize() == 0)
 		{
 			pPMMR->Append(Global::GetGenesisBlock().GetOutputs().front().GetRangeProof());
+			pPMMR->Commit(); // Or a rollback would discard the genesis range proof
 		}
 
 		return pPMMR;
-- 
2.43.0


From 9a7e99fdfeef6c06a1023ae6cde0b44c70c7b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 16/27] fix: refuse to spend outputs that are not in the
 TxHashSet and to rewind to headers that are no ancestors

---
 src/PMMR/TxHashSetImpl.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/PMMR/TxHashSetImpl.cpp b/src/PMMR/TxHashSetImpl.cpp
index 36048d8..ad09bf8 100644
--- a/src/PMMR/TxHashSetImpl.cpp
+++ b/src/PMMR/TxHashSetImpl.cpp
@@ -115,7 +115,11 @@ bool TxHashSet::ApplyBlock(std::shared_ptr<IBlockDB> pBlockDB, const FullBlock&
 		}
 
 		auto pOutput = m_pOutputPMMR->GetAt(pOutputPosition->GetLeafIndex());
-		assert(pOutput != nullptr);
+		if (pOutput == nullptr || pOutput->GetCommitment() != commitment) {
+			LOG_WARNING_F("Output {} not found at {}", commitment, pOutputPosition->GetLeafIndex());
+			return false;
+		}
+
 
 		if (pOutput->IsCoinbase() && pOutputPosition->GetBlockHeight() > maximumBlockHeight) {
 			LOG_WARNING_F("Coinbase {} not mature", input.GetCommitment());
@@ -359,7 +363,12 @@ void TxHashSet::Rewind(std::shared_ptr<IBlockDB> pBlockDB, const BlockHeader& he
 			leavesToAdd.push_back(iter->second.GetLeafIndex().Get());
 		}
 
-		m_pBlockHeader = pBlockDB->GetBlockHeader(m_pBlockHeader->GetPreviousHash());
+		auto pPreviousHeader = pBlockDB->GetBlockHeader(m_pBlockHeader->GetPreviousHash());
+		if (pPreviousHeader == nullptr) {
+			throw TXHASHSET_EXCEPTION_F("Previous header not found for {}", *m_pBlockHeader);
+		}
+
+		m_pBlockHeader = pPreviousHeader;
 	}
 
 	m_pKernelMMR->Rewind(header.GetNumKernels());
-- 
2.43.0


From e00df2794b22b079a99d195c05e02faf24e688cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 17/27] fix: check outputs, range proofs and kernels of a
 TxHashSet against the leaf hashes they were committed with

---
 src/PMMR/TxHashSetValidator.cpp | 20 ++++++++++++++++++++
 src/PMMR/TxHashSetValidator.h   |  7 +++++++
 2 files changed, 27 insertions(+)

diff --git a/src/PMMR/TxHashSetValidator.cpp b/src/PMMR/TxHashSetValidator.cpp
index 374e655..2ab192e 100644
--- a/src/PMMR/TxHashSetValidator.cpp
+++ b/src/PMMR/TxHashSetValidator.cpp
@@ -170,6 +170,12 @@ bool TxHashSetValidator::ValidateMMRHashes(std::shared_ptr<const MMR> pMMR) cons
 	return true;
 }
 
+bool TxHashSetValidator::ValidateLeafHash(const MMR& mmr, const LeafIndex& leafIndex, const std::vector<uint8_t>& serialized) const
+{
+	const std::unique_ptr<Hash> pHash = mmr.GetHashAt(leafIndex.GetIndex());
+	return pHash != nullptr && *pHash == MMRHashUtil::HashLeafWithIndex(serialized, leafIndex.GetPosition());
+}
+
 bool TxHashSetValidator::ValidateKernelHistory(const KernelMMR& kernelMMR, const BlockHeader& blockHeader, SyncStatus& syncStatus) const
 {
 	const uint64_t totalHeight = blockHeader.GetHeight();
@@ -251,6 +257,14 @@ bool TxHashSetValidator::ValidateRangeProofs(TxHashSet& txHashSet, SyncStatus& s
 				return false;
 			}
 
+			// The MMR roots only commit to the hashes, so make sure the data is what was hashed.
+			if (!ValidateLeafHash(*txHashSet.GetOutputPMMR(), leaf_idx, pOutput->Serialized())
+				|| !ValidateLeafHash(*txHashSet.GetRangeProofPMMR(), leaf_idx, pRangeProof->Serialized()))
+			{
+				LOG_ERROR_F("Output or rangeproof does not match leaf hash at ({})", leaf_idx);
+				return false;
+			}
+
 			rangeProofs.emplace_back(std::make_pair(pOutput->GetCommitment(), *pRangeProof));
 			++i;
 
@@ -291,6 +305,12 @@ bool TxHashSetValidator::ValidateKernelSignatures(const KernelMMR& kernelMMR, Sy
 			return false;
 		}
 
+		// The MMR root only commits to the hashes, so make sure the kernel is what was hashed.
+		if (!ValidateLeafHash(kernelMMR, leaf_idx, pKernel->Serialized())) {
+			LOG_ERROR_F("Kernel does not match leaf hash at ({})", leaf_idx);
+			return false;
+		}
+
 		kernels.push_back(*pKernel);
 
 		if (kernels.size() >= 2000) {
diff --git a/src/PMMR/TxHashSetValidator.h b/src/PMMR/TxHashSetValidator.h
index 46e6865..ddc9ce1 100644
--- a/src/PMMR/TxHashSetValidator.h
+++ b/src/PMMR/TxHashSetValidator.h
@@ -10,6 +10,7 @@ class TxHashSet;
 class KernelMMR;
 class IBlockChain;
 class MMR;
+class LeafIndex;
 class Commitment;
 
 class TxHashSetValidator
@@ -28,6 +29,12 @@ private:
 	bool ValidateSizes(TxHashSet& txHashSet, const BlockHeader& blockHeader) const;
 	bool ValidateMMRHashes(std::shared_ptr<const MMR> pMMR) const;
 
+	bool ValidateLeafHash(
+		const MMR& mmr,
+		const LeafIndex& leafIndex,
+		const std::vector<uint8_t>& serialized
+	) const;
+
 	bool ValidateKernelHistory(
 		const KernelMMR& kernelMMR,
 		const BlockHeader& blockHeader,
-- 
2.43.0


From 73b853f44a2fd674a9aa780dc5bc3e393f64c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:26 +0000
Subject: [PATCH 18/27] fix: never keep a block with an invalid header as an
 orphan

---
 src/BlockChain/Processors/BlockProcessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index d429276..5f4572a 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -25,7 +25,10 @@ EBlockChainStatus BlockProcessor::ProcessBlock(const FullBlock& block)
 	}
 
 	// Make sure header is processed and valid before processing block.
-	BlockHeaderProcessor(m_pChainState).ProcessSingleHeader(pHeader);
+	if (BlockHeaderProcessor(m_pChainState).ProcessSingleHeader(pHeader) == EBlockChainStatus::INVALID) {
+		// Must not become an orphan, because valid-looking children could bring it back.
+		throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlock, "Header {} is invalid.", *pHeader);
+	}
 
 	// Verify block is self-consistent before locking
 	BlockValidator::VerifySelfConsistent(block);
-- 
2.43.0


From c1984e8f51c639b4a712993c6307cf8bb64a4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 19/27] fix: keep orphans until their blocks are committed, so
 an invalid descendant does not lose them

---
 src/BlockChain/Processors/BlockProcessor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index 5f4572a..bbea2de 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -81,6 +81,7 @@ EBlockChainStatus BlockProcessor::ProcessBlockInternal(const FullBlock& block)
 		ValidateAndAddBlock(block, pBatch);
 		pConfirmedChain->AddBlock(block.GetHash(), block.GetHeight());
 		pBatch->Commit();
+		pOrphanPool->RemoveOrphan(block.GetHeight(), block.GetHash());
 	}
 
 	return EBlockChainStatus::SUCCESS;
@@ -182,11 +183,17 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 
 		pBlockDB->Commit();
 	}
+
+	// Only forget the orphans once their blocks are stored.
+	auto pOrphanPool = pBatch->GetOrphanPool();
+	for (const FullBlock::CPtr& pBlock : reorgBlocks)
+	{
+		pOrphanPool->RemoveOrphan(pBlock->GetHeight(), pBlock->GetHash());
+	}
 }
 
 void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainState> pBatch)
 {
-	auto pOrphanPool = pBatch->GetOrphanPool();
 	auto pBlockDB = pBatch->GetBlockDB();
 	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
 	auto pTxPool = pBatch->GetTransactionPool();
@@ -223,6 +230,5 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 
 	pBlockDB->AddBlockSums(block.GetHash(), blockSums);
 	pBlockDB->AddBlock(block);
-	pOrphanPool->RemoveOrphan(block.GetHeight(), block.GetHash());
 	pTxPool->ReconcileBlock(pBlockDB, pTxHashSet, block);
 }
\ No newline at end of file
-- 
2.43.0


From c7b7770c00da960d0c2c0bb78ceb6a5dbe328fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 20/27] fix: start a pooled transaction's embargo when it is
 added

---
 src/TxPool/Pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index b875915..50bde49 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -33,7 +33,7 @@ void Pool::AddTransaction(TransactionPtr pTransaction, const EDandelionStatus st
 {
 	LOG_DEBUG_F("Transaction added: {}", pTransaction->GetHash());
 
-	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time_t()));
+	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::chrono::system_clock::to_time_t(std::chrono::system_clock::now())));
 }
 
 bool Pool::ContainsTransaction(const Transaction& transaction) const
-- 
2.43.0


From e7aedaa93af6ad17da569bc6bf2bf5a171290525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 21/27] fix: keep transactions that conflict with the mempool
 out of it

---
 src/TxPool/Pool.cpp                | 35 ++++++++++++++++++++++++++++++
 src/TxPool/Pool.h                  |  1 +
 src/TxPool/TransactionPoolImpl.cpp |  7 ++++++
 3 files changed, 43 insertions(+)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index 50bde49..67f1dd0 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -49,6 +49,41 @@ bool Pool::ContainsTransaction(const Transaction& transaction) const
 	return false;
 }
 
+// True if a transaction in the pool spends one of the same inputs, or creates one of the same outputs or kernels.
+bool Pool::ConflictsWith(const Transaction& transaction) const
+{
+	std::set<Commitment> inputs, outputs;
+	std::set<Hash> kernels;
+	for (const TxPoolEntry& txPoolEntry : m_transactions)
+	{
+		for (const TransactionInput& input : txPoolEntry.GetTransaction()->GetInputs())
+		{
+			inputs.insert(input.GetCommitment());
+		}
+
+		for (const TransactionOutput& output : txPoolEntry.GetTransaction()->GetOutputs())
+		{
+			outputs.insert(output.GetCommitment());
+		}
+
+		for (const TransactionKernel& kernel : txPoolEntry.GetTransaction()->GetKernels())
+		{
+			kernels.insert(kernel.GetHash());
+		}
+	}
+
+	return std::any_of(
+		transaction.GetInputs().cbegin(), transaction.GetInputs().cend(),
+		[&inputs](const TransactionInput& input) { return inputs.count(input.GetCommitment()) > 0; }
+	) || std::any_of(
+		transaction.GetOutputs().cbegin(), transaction.GetOutputs().cend(),
+		[&outputs](const TransactionOutput& output) { return outputs.count(output.GetCommitment()) > 0; }
+	) || std::any_of(
+		transaction.GetKernels().cbegin(), transaction.GetKernels().cend(),
+		[&kernels](const TransactionKernel& kernel) { return kernels.count(kernel.GetHash()) > 0; }
+	);
+}
+
 std::vector<TransactionPtr> Pool::FindTransactionsByKernel(const std::set<TransactionKernel>& kernels) const
 {
 	std::set<TransactionPtr> transactionSet;
diff --git a/src/TxPool/Pool.h b/src/TxPool/Pool.h
index 8c1ce18..83a8d30 100644
--- a/src/TxPool/Pool.h
+++ b/src/TxPool/Pool.h
@@ -20,6 +20,7 @@ public:
 
 	void AddTransaction(TransactionPtr pTransaction, const EDandelionStatus status);
 	bool ContainsTransaction(const Transaction& transaction) const;
+	bool ConflictsWith(const Transaction& transaction) const;
 	void RemoveTransaction(const Transaction& transaction);
 	void ReconcileBlock(
 		std::shared_ptr<const IBlockDB> pBlockDB,
diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index a3a5529..dd8db32 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -67,6 +67,13 @@ EAddTransactionStatus TransactionPool::AddTransaction(
 		return EAddTransactionStatus::NOT_ADDED;
 	}
 
+	// Transactions in the mempool must be valid together, so no two of them can spend the same output.
+	if (poolType == EPoolType::MEMPOOL && m_memPool.ConflictsWith(*pTransaction))
+	{
+		LOG_WARNING_F("Transaction conflicts with the mempool ({})", *pTransaction);
+		return EAddTransactionStatus::NOT_ADDED;
+	}
+
 	if (poolType == EPoolType::MEMPOOL)
 	{
 		m_memPool.AddTransaction(pTransaction, EDandelionStatus::FLUFFED);
-- 
2.43.0


From 7cbb8b1cef3fdab495c2dc790ca05f2cfc234bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 22/27] fix: stop Cuckarood verification from following an
 endless path

---
 src/PoW/Cuckarood.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PoW/Cuckarood.cpp b/src/PoW/Cuckarood.cpp
index cea45b8..ce75257 100644
--- a/src/PoW/Cuckarood.cpp
+++ b/src/PoW/Cuckarood.cpp
@@ -51,7 +51,11 @@ int verify_cuckarood(const word_t edges[PROOFSIZE], siphash_keys& keys)
         if (j == i) return POW_DEAD_END;  // no matching endpoint
         i = j ^ 1;
         n++;
-    } while (i != 0);           // must cycle back to start or we would have found branch
+    } while (i != 0 && n < PROOFSIZE); // endpoints sharing a partner can lead into a cycle that never returns to start
+
+    if (i != 0) {
+        return POW_BRANCH;
+    }
     return n == PROOFSIZE ? POW_OK : POW_SHORT_CYCLE;
 }
 
-- 
2.43.0


From 3bd4d23968f7a3c1068f4140ac6e252e21f63950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 23/27] fix: refuse sends that the selected coins do not pay
 for

---
 src/Wallet/SlateBuilder/CoinSelection.cpp    | 14 ++++++++++----
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 16 ++++++++++++++--
 src/Wallet/Wallet.cpp                        |  2 +-
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index e1e7774..bb6b3b3 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -4,6 +4,12 @@
 #include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Common/Logger.h>
 
+// Whether the coins found pay for the amount and the fee. The sum of the two may exceed 64 bits.
+static bool IsCovered(const uint64_t amountFound, const uint64_t amount, const uint64_t fee)
+{
+	return amountFound >= fee && amountFound - fee >= amount;
+}
+
 // If strategy is "ALL", spend all available coins to reduce the fee.
 std::vector<OutputDataEntity> CoinSelection::SelectCoinsToSpend(
 	const std::vector<OutputDataEntity>& availableCoins, 
@@ -53,7 +59,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingSmallestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee))
+		if (IsCovered(amountFound, amount, fee))
 		{
 			return selectedCoins;
 		}
@@ -81,7 +87,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingFewestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee)) {
+		if (IsCovered(amountFound, amount, fee)) {
 			return selectedCoins;
 		}
 	}
@@ -105,7 +111,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingAllInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)availableCoins.size(), numOutputs, numKernels);
-	if (amount < amount + fee) {
+	if (IsCovered(amountFound, amount, fee)) {
 		return availableCoins;
 	}
 
@@ -134,7 +140,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingCustomInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-	if (amountFound >= (amount + fee))
+	if (IsCovered(amountFound, amount, fee))
 	{
 		return selectedCoins;
 	}
diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 31d4408..7cfe981 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -7,12 +7,16 @@
 #include <Consensus.h>
 #include <Core/Exceptions/WalletException.h>
 #include <Core/Util/FeeUtil.h>
+#include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Common/Util/FunctionalUtil.h>
 #include <Common/Logger.h>
 #include <Net/Tor/TorAddressParser.h>
 #include <Crypto/ED25519.h>
 #include <Wallet/Models/Slatepack/Armor.h>
 
+// Fees are encoded in 40 bits.
+static const uint64_t MAX_FEE = 0xffffffffffull;
+
 SendSlateBuilder::SendSlateBuilder(INodeClientConstPtr pNodeClient)
 	: m_pNodeClient(pNodeClient)
 {
@@ -32,7 +36,7 @@ Slate SendSlateBuilder::BuildSendSlate(
 	const std::vector<SlatepackAddress>& recipients) const
 {
 	const uint8_t numChangeOutputs = sendEntireBalance ? 0 : maxChangeOutputs;
-	const uint8_t totalNumOutputs = 1 + numChangeOutputs;
+	const uint64_t totalNumOutputs = 1 + (uint64_t)numChangeOutputs;
 	const uint64_t numKernels = 1;
 
 	// Select inputs using desired selection strategy.
@@ -66,13 +70,21 @@ Slate SendSlateBuilder::BuildSendSlate(
 		(int64_t)totalNumOutputs,
 		(int64_t)numKernels
 	);
+	if (inputTotal < fee) {
+		throw InsufficientFundsException();
+	}
+
 	uint64_t amountToSend = sendEntireBalance ? (inputTotal - fee) : amount;
 	if (numChangeOutputs == 0)
 	{
-		assert((inputTotal - amountToSend) >= fee); // TODO: Exception
+		assert((inputTotal - amountToSend) >= fee);
 		fee = inputTotal - amountToSend;
 	}
 
+	if (feeBase > MAX_FEE || fee > MAX_FEE) {
+		throw WALLET_EXCEPTION("The fee exceeds 40 bits");
+	}
+
 	return Build(
 		pWallet.GetShared(),
 		masterSeed,
diff --git a/src/Wallet/Wallet.cpp b/src/Wallet/Wallet.cpp
index 377d213..c06ce46 100644
--- a/src/Wallet/Wallet.cpp
+++ b/src/Wallet/Wallet.cpp
@@ -169,7 +169,7 @@ std::optional<TorAddress> Wallet::AddTorListener(const KeyChainPath& path, const
 FeeEstimateDTO Wallet::EstimateFee(const EstimateFeeCriteria& criteria) const
 {
 	// Select inputs using desired selection strategy.
-	const uint8_t totalNumOutputs = criteria.GetNumChangeOutputs() + 1;
+	const uint64_t totalNumOutputs = (uint64_t)criteria.GetNumChangeOutputs() + 1;
 	const uint64_t numKernels = 1;
 	std::vector<OutputDataEntity> all_outputs = m_walletDB.Read()->GetOutputs(m_master_seed);
     std::vector<OutputDataEntity> available_coins;
-- 
2.43.0


From 57b0f6a66fa092dc3a3ff95d1336df8dbbb04488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 24/27] fix: sign a payment once, not after it was canceled,
 and receive a slate once

---
 src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp |  4 ++--
 src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp  | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
index 65e3b6e..d4b1ee5 100644
--- a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
@@ -20,8 +20,8 @@ std::pair<Slate, Transaction> FinalizeSlateBuilder::Finalize(const Slate& rcvSla
 	// Load original send Slate
 	Slate sendSlate = m_pWallet->GetSlate(finalizeSlate.GetId(), ESlateStage::STANDARD_SENT);
 
-	// Load WalletTx
-	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId());
+	// Load WalletTx. The nonce in the context must sign only once, and payments that were canceled must not be signed.
+	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId(), EWalletTxType::SENDING_STARTED);
 
 	// Load private context
 	SlateContextEntity slateContext = m_pWallet->GetSlateContext(finalizeSlate.GetId());
diff --git a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
index 88c6502..cf32342 100644
--- a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
@@ -92,9 +92,13 @@ bool ReceiveSlateBuilder::VerifySlateStatus(
 	const Slate& slate) const
 {
 	// Slate was already received.
-	std::unique_ptr<WalletTx> pWalletTx = pWallet->GetTxBySlateId(masterSeed, slate.GetId());
-	if (pWalletTx != nullptr) {
-		const EWalletTxType status = pWalletTx->GetType();
+	const std::vector<WalletTx> transactions = pWallet->GetDatabase().Read()->GetTransactions(masterSeed);
+	for (const WalletTx& walletTx : transactions) {
+		if (!walletTx.GetSlateId().has_value() || walletTx.GetSlateId().value() != slate.GetId()) {
+			continue;
+		}
+
+		const EWalletTxType status = walletTx.GetType();
 		if (status != EWalletTxType::RECEIVED_CANCELED && status != EWalletTxType::SENDING_STARTED) {
 			WALLET_ERROR_F("Already received slate {}", uuids::to_string(slate.GetId()));
 			return false;
-- 
2.43.0


From b6ac98882c62d6e0a8c31281636d0dd8cfd12693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:16 +0000
Subject: [PATCH 25/27] fix: read a slate's lock height and only known
 features, compare every field

---
 include/Wallet/Models/Slate/Slate.h            |  3 ++-
 include/Wallet/Models/Slate/SlateCommitment.h  |  2 +-
 include/Wallet/Models/Slate/SlateFeatureArgs.h |  2 +-
 src/Wallet/Models/Slate/Slate.cpp              | 15 ++++++++++++---
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/Wallet/Models/Slate/Slate.h b/include/Wallet/Models/Slate/Slate.h
index 87dc0e9..1f01b2f 100644
--- a/include/Wallet/Models/Slate/Slate.h
+++ b/include/Wallet/Models/Slate/Slate.h
@@ -71,12 +71,13 @@ public:
 		return slateId == rhs.slateId &&
 			stage == rhs.stage &&
 			version == rhs.version &&
-			blockVersion && rhs.blockVersion &&
+			blockVersion == rhs.blockVersion &&
 			amount == rhs.amount &&
 			fee == rhs.fee &&
 			offset == rhs.offset &&
 			numParticipants == rhs.numParticipants &&
 			kernelFeatures == rhs.kernelFeatures &&
+			GetLockHeight() == rhs.GetLockHeight() &&
 			ttl == rhs.ttl &&
 			sigs == rhs.sigs &&
 			commitments == rhs.commitments &&
diff --git a/include/Wallet/Models/Slate/SlateCommitment.h b/include/Wallet/Models/Slate/SlateCommitment.h
index fad5a32..bfa1d81 100644
--- a/include/Wallet/Models/Slate/SlateCommitment.h
+++ b/include/Wallet/Models/Slate/SlateCommitment.h
@@ -41,7 +41,7 @@ struct SlateCommitment
         const uint8_t hasProof = byteBuffer.ReadU8();
 
         SlateCommitment ret;
-        ret.features = (EOutputFeatures)byteBuffer.ReadU8();
+        ret.features = OutputFeatures::FromByte(byteBuffer.ReadU8());
         ret.commitment = Commitment::Deserialize(byteBuffer);
 
         if (hasProof > 0) {
diff --git a/include/Wallet/Models/Slate/SlateFeatureArgs.h b/include/Wallet/Models/Slate/SlateFeatureArgs.h
index 9d35bd6..7535906 100644
--- a/include/Wallet/Models/Slate/SlateFeatureArgs.h
+++ b/include/Wallet/Models/Slate/SlateFeatureArgs.h
@@ -18,7 +18,7 @@ struct SlateFeatureArgs
         return json;
     }
 
-    SlateFeatureArgs FromJSON(const Json::Value& json)
+    static SlateFeatureArgs FromJSON(const Json::Value& json)
     {
         SlateFeatureArgs args;
         args.lockHeightOpt = JsonUtil::GetUInt64Opt(json, "lock_hgt");
diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index 9c9d62c..f93f186 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -262,7 +262,7 @@ Slate Slate::Deserialize(ByteBuffer& byteBuffer)
 	}
 
 	if (fieldStatus.include_feat) {
-		slate.kernelFeatures = (EKernelFeatures)byteBuffer.ReadU8();
+		slate.kernelFeatures = KernelFeatures::FromByte(byteBuffer.ReadU8());
 	}
 
 	if (fieldStatus.include_ttl) {
@@ -386,8 +386,17 @@ Slate Slate::FromJSON(const Json::Value& json)
 	}
 
 	slate.amount = JsonUtil::GetUInt64Opt(json, "amt").value_or(0);
-	slate.kernelFeatures = (EKernelFeatures)JsonUtil::GetUInt8Opt(json, "feat").value_or(0);
-	// TODO: Feat args
+	slate.kernelFeatures = KernelFeatures::FromByte(JsonUtil::GetUInt8Opt(json, "feat").value_or(0));
+
+	if (slate.kernelFeatures != EKernelFeatures::DEFAULT_KERNEL) {
+		auto feat_args_json_opt = JsonUtil::GetOptionalField(json, "feat_args");
+		slate.featureArgsOpt = feat_args_json_opt.has_value() ? SlateFeatureArgs::FromJSON(feat_args_json_opt.value()) : SlateFeatureArgs{};
+
+		if (slate.kernelFeatures == EKernelFeatures::HEIGHT_LOCKED && !slate.featureArgsOpt.value().lockHeightOpt.has_value()) {
+			throw DESERIALIZE_FIELD_EXCEPTION("feat_args");
+		}
+	}
+
 	slate.ttl = JsonUtil::GetUInt64Opt(json, "ttl").value_or(0);
 
 	std::vector<Json::Value> sigs = JsonUtil::GetRequiredArray(json, "sigs");
-- 
2.43.0


From 9c7156064bfb50417dde960eadc9d90c679a909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 26/27] fix: read back key paths with indices of 2^31 and above

---
 include/Wallet/KeyChainPath.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Wallet/KeyChainPath.h b/include/Wallet/KeyChainPath.h
index 4be5fd7..3489207 100644
--- a/include/Wallet/KeyChainPath.h
+++ b/include/Wallet/KeyChainPath.h
@@ -112,8 +112,13 @@ public:
 			remaining = remaining.substr(1);
 
 			size_t sz;
-			const uint32_t keyIndex = (uint32_t)std::stoi(remaining, &sz);
-			keyIndices.push_back(keyIndex);
+			const unsigned long long keyIndex = std::stoull(remaining, &sz);
+			if (keyIndex > UINT32_MAX)
+			{
+				throw DESERIALIZATION_EXCEPTION_F("Invalid path: \"{}\"", path);
+			}
+
+			keyIndices.push_back((uint32_t)keyIndex);
 			remaining = remaining.substr(sz);
 		}
 
-- 
2.43.0


From cf0eb51a0f2d326a33c229b7ac17f9c011d06d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:40 +0000
Subject: [PATCH 27/27] fix: refuse session tokens of another length

---
 src/Wallet/SessionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 3aed8df..2168d11 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -207,7 +207,11 @@ SecureVector SessionManager::GetSeed(const SessionToken& token) const
 	if (iter != m_sessionsById.end())
 	{
 		std::shared_ptr<const LoggedInSession> pSession = iter->second;
-		
+		if (token.GetTokenKey().size() != pSession->m_encryptedSeedWithCS.size())
+		{
+			throw SessionTokenException();
+		}
+
 		std::vector<unsigned char> seedWithCS(pSession->m_encryptedSeedWithCS.size());
 		for (size_t i = 0; i < seedWithCS.size(); i++)
 		{
-- 
2.43.0

