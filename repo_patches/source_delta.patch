From f793fc386d0d0c7fee7000d3134c9edcb9baa8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 01/11] fix: BatchProof::Unserialize kept the sorted targets of
 the previous content

Unserializing into a BatchProof that already held targets appended to
m_sorted_targets instead of replacing them, so GetSortedTargets and
CheckSanity disagreed with GetTargets.
---
 src/batchproof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 18718b2..42c0926 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -67,6 +67,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     m_targets.clear();
+    m_sorted_targets.clear();
     m_proof.clear();
     m_targets.reserve(num_targets);
     m_sorted_targets.reserve(num_targets);
-- 
2.43.0


From 8ffe7784b43d7b7c581e14ab23d5d102f873bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 02/11] fix: UndoBatch::Unserialize size check overflowed 32
 bits

A batch announcing 2^30 (or 2^31, 3*2^30) deletions has an expected size
that wraps to 8 bytes, so an 8 byte input was accepted and read out of
bounds. Compute the expected size in 64 bits like BatchProof does.
---
 src/batchproof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 42c0926..e789242 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -169,7 +169,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
 
-    if (bytes.size() != 4 + 4 + 4 * num_targets + 32 * num_targets) {
+    if (bytes.size() != 8ULL + num_targets * 4ULL + num_targets * 32ULL) {
         return false;
     }
 
-- 
2.43.0


From 957d218acb83f5e2696d4d55b97905d401034539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 03/11] fix: RamForest::Undo wrote past the rows of a restored
 forest

After a restart m_data only holds the rows of the restored forest. Undoing
a modification that had reduced the number of rows indexed m_data out of
bounds. Allocate the missing rows.
---
 src/ram_forest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 3927eef..5f25452 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -449,6 +449,9 @@ bool RamForest::Undo(const UndoBatch& undo)
     }
 
     for (uint8_t r = 1; r <= prev_state.NumRows(); ++r) {
+        // A forest that was restored from disk only has the rows of the restored
+        // state, the state before the modification can have more.
+        if (r >= m_data.size()) m_data.push_back(std::vector<Hash>());
         m_data[r].resize(m_num_leaves >> r);
         std::vector<NodePtr<RamForest::Node>> next_dirt;
 
-- 
2.43.0


From 0d4b4810d90bd9e0b067a8c6570a89b798d3fdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 04/11] fix: ComparePositionMap dereferenced the end iterator

A leaf hash that is missing from the other position map is a mismatch.
---
 src/accumulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index ea15b74..f1b7fc8 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -71,7 +71,7 @@ bool Accumulator::ComparePositionMap(Accumulator& other) const
 {
     for (auto [hash, pos] : m_posmap) {
         auto it_other = other.m_posmap.find(hash);
-        if (it_other->second != pos) {
+        if (it_other == other.m_posmap.end() || it_other->second != pos) {
             return false;
         }
     }
-- 
2.43.0


From feed39281c48a3629bb75197973c4bf6155f2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 05/11] fix: Pollard::Prune left pruned leaves in the position
 map

The positions of pruned leaves can not be kept up to date by later
modifications, so Prove could return true with a proof for a stale
position. Forget the positions together with the leaves.
---
 src/pollard.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index d72444a..c0b03a7 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -352,6 +352,8 @@ void Pollard::Prune()
     for (NodePtr<Accumulator::Node>& root : m_roots) {
         INTERNAL_NODE(root)->Chop();
     }
+    // None of the leaves are remembered anymore.
+    m_posmap.clear();
     assert(m_remember.use_count() == 1);
 }
 
-- 
2.43.0


From 267f34c02b570e16f2595d0afb766a14a1d0fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 06/11] fix: failed Pollard::Verify marked cached leaves as
 remembered

VerifyProofTree flagged every target leaf as remembered before it knew
whether the proof verifies. Leaves that were already cached kept the flag
when verification failed, so NumCachedLeaves counted leaves that were
never proven. Set the flags once the proof was verified.
---
 src/pollard.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index c0b03a7..1c12361 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -601,8 +601,6 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
                     proof_node->m_node->m_hash = *target_hash;
                 }
 
-                proof_node->m_sibling->m_nieces[0] = m_remember;
-
                 ++target_hash;
                 continue;
             }
@@ -703,6 +701,9 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
     }
 
     // All targets are now remembered.
+    for (NodePtr<Pollard::Node>& leaf : proof_tree) {
+        if (leaf->IsTargetOrAncestor()) leaf->m_sibling->m_nieces[0] = m_remember;
+    }
     for (int i = 0; i < target_hashes.size(); i++) {
         m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];
     }
-- 
2.43.0


From 832c84418f3819d92bf72337473cd2db2bc2923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 07/11] fix: Pollard::Verify consumed a missing hash for a
 cached zero hash

If a cached proof node has the all zero hash and the proof has no hashes
left, the node was compared with a zero placeholder and the iterator was
moved past the end, which rejected a valid proof.
---
 src/pollard.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 1c12361..4a4ff63 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -510,11 +510,9 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                 // Populate the proof hashses.
                 bool consume = true;
                 if (node->IsCached()) {
-                    Hash null_hash;
-                    null_hash.fill(0);
-                    const Hash& hash = proof_hash < proof.GetHashes().crend() ? *proof_hash : null_hash;
                     // If provided proof hash matches the cached hash, we consume the hash.
-                    consume = node->m_node->m_hash == hash;
+                    consume = proof_hash < proof.GetHashes().crend() &&
+                              node->m_node->m_hash == *proof_hash;
                 } else {
                     // This proof was not cached.
                     // We populate with the provided proof hash.
-- 
2.43.0


From d7f57d1de342b660404cd3c88683fec602aad198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 08/11] fix: Pollard dropped remembered leaves when rehashing
 their parent

Rehashing during a removal pruned a remembered leaf whose sibling is not
remembered, since the remember mark sits on the sibling. The leaf was no
longer found when the position map was updated for later swaps, so proving
it failed or returned a proof for a stale position, and its entry survived
its deletion. Keep both leaves if either is remembered, like MergeRoot.
---
 src/pollard.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 4a4ff63..91766e5 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -732,6 +732,15 @@ void Pollard::Node::ReHash()
     }
 
     Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);
+
+    // Both leaves are kept if one of them is remembered (see Pollard::MergeRoot). A remembered leaf
+    // only marks its sibling, so on its own it would look like a deadend.
+    bool children_are_leaves = ForestState(m_num_leaves).DetectRow(m_position) == 1;
+    if (children_are_leaves &&
+        (!m_sibling->m_nieces[0]->DeadEnd() || !m_sibling->m_nieces[1]->DeadEnd())) {
+        return;
+    }
+
     m_sibling->Prune();
 }
 
-- 
2.43.0


From 6f997626081e903ef5096adcfcdb1d5e20c19269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 09/11] fix: RamForest::Commit reported success before the
 forest was in the file

Commit left the data in the stream buffer until the forest was destroyed
and ignored write errors, so a process that ended after a successful
Commit lost the forest. Flush and return the state of the stream.
---
 src/ram_forest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 5f25452..aa172da 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -181,7 +181,9 @@ bool RamForest::Commit()
         num_hashes >>= 1;
     }
 
-    return true;
+    // The forest is only saved once it has left the stream buffer.
+    m_file.flush();
+    return m_file.good();
 }
 
 std::optional<const Hash> RamForest::Read(ForestState state, uint64_t pos) const
-- 
2.43.0


From 70c93055735d4eb24a98bc970bda015c267c762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 10/11] fix: removing remembered leaves from a pollard
 dereferenced null

A pollard prunes the computed nodes above its remembered leaves, and
removing such leaves without a preceding Verify followed the missing nodes.
Populate them from the cache before the removal.
---
 include/accumulator.h |  2 +-
 include/pollard.h     |  1 +
 src/pollard.cpp       | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/accumulator.h b/include/accumulator.h
index 83a53d5..79f7c70 100644
--- a/include/accumulator.h
+++ b/include/accumulator.h
@@ -118,7 +118,7 @@ protected:
     /* Add new leaves to the accumulator. */
     virtual bool Add(const std::vector<Leaf>& leaves);
     /* Remove target leaves from the accumulator. */
-    bool Remove(const std::vector<uint64_t>& targets);
+    virtual bool Remove(const std::vector<uint64_t>& targets);
 
     /* Compute the parent hash from two children. */
     static void ParentHash(Hash& parent, const Hash& left, const Hash& right);
diff --git a/include/pollard.h b/include/pollard.h
index cd40576..7cd2b67 100644
--- a/include/pollard.h
+++ b/include/pollard.h
@@ -32,6 +32,7 @@ private:
     NodePtr<Accumulator::Node> MergeRoot(uint64_t parent_pos, Hash parent_hash) override;
     NodePtr<Accumulator::Node> NewLeaf(const Leaf& hash) override;
     void FinalizeRemove(uint64_t next_num_leaves) override;
+    bool Remove(const std::vector<uint64_t>& targets) override;
 
     void InitChildrenOfComputed(NodePtr<Pollard::Node>& node,
                                 NodePtr<Pollard::Node>& left_child,
diff --git a/src/pollard.cpp b/src/pollard.cpp
index 91766e5..a002488 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -347,6 +347,22 @@ void Pollard::FinalizeRemove(uint64_t next_num_leaves)
     m_roots = new_roots;
 }
 
+bool Pollard::Remove(const std::vector<uint64_t>& targets)
+{
+    if (!ForestState(m_num_leaves).CheckTargetsSanity(targets)) return false;
+
+    // Removing leaves needs the nodes that are computed when verifying them, but those are pruned
+    // for remembered leaves. Verifying the cached hashes of the leaves populates them again.
+    std::vector<Hash> target_hashes;
+    for (const uint64_t& pos : targets) {
+        std::optional<const Hash> hash = Read(pos);
+        if (hash) target_hashes.push_back(hash.value());
+    }
+    Verify(BatchProof(targets, {}), target_hashes);
+
+    return Accumulator::Remove(targets);
+}
+
 void Pollard::Prune()
 {
     for (NodePtr<Accumulator::Node>& root : m_roots) {
-- 
2.43.0


From d654c00753741bd4d9de4ee8b7145bd7efb4cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:18 +0000
Subject: [PATCH 11/11] fix: CSHA512::Reset turned a SHA-512/256 hasher into a
 SHA-512 one

---
 src/crypto/sha512.cpp | 6 +++++-
 src/crypto/sha512.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crypto/sha512.cpp b/src/crypto/sha512.cpp
index aad76ca..7691744 100644
--- a/src/crypto/sha512.cpp
+++ b/src/crypto/sha512.cpp
@@ -172,6 +172,7 @@ CSHA512::CSHA512(int output_size) : bytes(0)
 {
     switch (output_size) {
     case OUTPUT_SIZE_256:
+        is_256 = true;
         sha512::Initialize256(s);
         break;
     default:
@@ -238,7 +239,10 @@ void CSHA512::Finalize256(unsigned char hash[OUTPUT_SIZE])
 CSHA512& CSHA512::Reset()
 {
     bytes = 0;
-    sha512::Initialize(s);
+    if (is_256)
+        sha512::Initialize256(s);
+    else
+        sha512::Initialize(s);
     return *this;
 }
 
diff --git a/src/crypto/sha512.h b/src/crypto/sha512.h
index 2c94116..9c828c3 100644
--- a/src/crypto/sha512.h
+++ b/src/crypto/sha512.h
@@ -17,6 +17,7 @@ private:
     uint64_t s[8];
     unsigned char buf[128];
     uint64_t bytes;
+    bool is_256{false};
 
 public:
     static constexpr size_t OUTPUT_SIZE = 64;
-- 
2.43.0

