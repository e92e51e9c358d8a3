From 83e1771c6a80c02f58b02bb588ccf6f75d3ff34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 01/48] fix: compare the bytes, not the array addresses, in
 bytes32 slt and sgt

---
 stdlib/chain_math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 2643626..0f53ebe 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -58,9 +58,9 @@ BOOL wrapper_bytes32_slt(const bytes32 *a, const bytes32 *b) {
   // If signs are the same, perform comparison based on magnitude
   // For signed comparison, the rest of the bytes are compared normally
   for (int i = 0; i < 32; i++) {
-    if (a[i] < b[i]) {
+    if (a_bytes[i] < b_bytes[i]) {
       return 1; // a is smaller
-    } else if (a[i] > b[i]) {
+    } else if (a_bytes[i] > b_bytes[i]) {
       return 0; // a is larger
     }
   }
@@ -81,9 +81,9 @@ BOOL wrapper_bytes32_sgt(const bytes32 *a, const bytes32 *b) {
 
   // If signs are the same, perform comparison based on magnitude
   for (int i = 0; i < 32; i++) {
-    if (a[i] > b[i]) {
+    if (a_bytes[i] > b_bytes[i]) {
       return 1; // a is larger
-    } else if (a[i] < b[i]) {
+    } else if (a_bytes[i] < b_bytes[i]) {
       return 0; // a is smaller
     }
   }
-- 
2.43.0


From 9065990b94bd43ab9809691b6903e888e094f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 02/48] fix: shift big endian words correctly in the short
 bytes32 shl path

---
 stdlib/chain_math.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 0f53ebe..3e53989 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -158,12 +158,14 @@ void wrapper_bytes32_shl(const bytes32 *value, int32_t shift, bytes32 *result) {
     if (shift <= 32 && value_as_u64_array[0] == 0 &&
         value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
         value_as_u32_array[6] == 0) {
-      uint64_t last_u64 = ((uint64_t)value_as_u32_array[7]) << shift;
+      // the bytes are big endian, so swap them around the native shift
+      uint64_t last_u64 =
+          ((uint64_t)__builtin_bswap32(value_as_u32_array[7])) << shift;
       uint64_t *result_as_u64_array = (uint64_t *)result;
       result_as_u64_array[0] = 0;
       result_as_u64_array[1] = 0;
       result_as_u64_array[2] = 0;
-      result_as_u64_array[3] = last_u64;
+      result_as_u64_array[3] = __builtin_bswap64(last_u64);
       return;
     } else {
       // TODO: optimize this
-- 
2.43.0


From 527837df6c2830d5957e87999376f0db1a2e3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 03/48] fix: sign extend bytes beyond the eighth and the full
 width word

---
 stdlib/chain.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 327c232..db2bc57 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -889,15 +889,15 @@ void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
   // the original value's sign bit, and extends the bits preceding the specified
   // byte count (b) according to the most significant bit's sign.
   uint256_t value = *value_ptr;
-  if (bits > 31) {
+  if (bits >= 31) {
     *result = value;
-    return; // If b is greater than 31, return the original value
+    return; // If b covers the whole word, return the original value
   }
   // Calculate the number of bits to extend
   unsigned int bits_to_extend = (bits + 1) * 8;
 
   // Create the mask for the sign bit
-  uint256_t sign_bit_mask = 1ULL << (bits_to_extend - 1);
+  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
   uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);
 
   // Check the sign bit
-- 
2.43.0


From 4a61a8dbef651593e5f1fd0b8c0f951d797ff45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 04/48] fix: copy overlapping regions correctly in mcopy

---
 stdlib/chain.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index db2bc57..d5e2262 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -389,6 +389,14 @@ void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
   uint8_t *src_memory = evm_get_memory_addr(evm_src);
+  if (evm_dst > evm_src) {
+    // The regions may overlap, so copy from the end
+    while (size > 0) {
+      size--;
+      dst_memory[size] = src_memory[size];
+    }
+    return;
+  }
   memcpy(dst_memory, src_memory, size);
 }
 
-- 
2.43.0


From ed8d6055d7ec8f460c0be47738f90405bec134d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 05/48] fix: expand EVM memory when it is read, so unwritten
 bytes read as zero

---
 stdlib/chain.c | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index d5e2262..a18a11b 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -67,6 +67,15 @@ static void u64_to_big_endian(const uint64_t value, uint8_t *memory_ptr) {
   }
 }
 
+// Reading expands the EVM memory just like writing does, bytes that were never
+// written read as zero
+static uint8_t *evm_get_readable_memory_addr(int32_t offset, uint32_t size) {
+  if (size > 0 && offset >= 0) {
+    evm_make_sure_memory((uint32_t)offset + size);
+  }
+  return evm_get_memory_addr(offset);
+}
+
 static int32_t cachedCallDataSize() {
   static int32_t cached = -1;
   if (cached < 0) {
@@ -229,7 +238,8 @@ void wrapper_self_balance(uint256_t *result) {
 }
 
 void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
-  uint8_t *error_msg_ptr = evm_get_memory_addr(error_msg_evm_mem);
+  uint8_t *error_msg_ptr =
+      evm_get_readable_memory_addr(error_msg_evm_mem, size);
   revert((ADDRESS_UINT)error_msg_ptr, size);
 }
 
@@ -355,12 +365,12 @@ void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
 }
 
 void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -370,7 +380,7 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
@@ -380,7 +390,7 @@ uint64_t wrapper_mload_u64(int32_t evm_mem) {
 }
 
 void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
   // Copy all 32 bytes directly
   memcpy(result, memory_ptr, 32);
 }
@@ -388,7 +398,7 @@ void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
-  uint8_t *src_memory = evm_get_memory_addr(evm_src);
+  uint8_t *src_memory = evm_get_readable_memory_addr(evm_src, size);
   if (evm_dst > evm_src) {
     // The regions may overlap, so copy from the end
     while (size > 0) {
@@ -501,12 +511,12 @@ void wrapper_loadimmutable(uint256_t *slot_ptr, uint256_t *result) {
 }
 
 void wrapper_keccak256(int32_t evm_mem, uint32_t size, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, size);
   keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
 }
 
 void wrapper_return(int32_t src_evm_mem, uint32_t size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(src_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(src_evm_mem, size);
   finish((ADDRESS_UINT)memory_ptr, size);
 }
 
@@ -516,14 +526,14 @@ void wrapper_decode_big_endian_i256_from_wasm_mem(uint8_t *wasm_mem,
 }
 
 void wrapper_log0(int32_t data_evm_mem, uint32_t data_size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
   uint32_t num_topics = 0;
   emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
 }
 
 void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
                   bytes32 *topic0_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
 
   uint32_t num_topics = 1;
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
@@ -534,7 +544,7 @@ void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
 
 void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -547,7 +557,7 @@ void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 
 void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -563,7 +573,7 @@ void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr,
                   bytes32 *topic3_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -582,7 +592,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_get_readable_memory_addr(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -610,7 +620,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_get_readable_memory_addr(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -695,7 +705,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_get_readable_memory_addr(in_evm_offset, in_length);
 
   int32_t retCode = callContract(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)&value_bytes,
@@ -712,7 +722,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
                          int32_t in_evm_offset, int32_t in_length,
                          int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_get_readable_memory_addr(in_evm_offset, in_length);
   int32_t retCode = callDelegate(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)in_offset, in_length);
 
@@ -727,7 +737,7 @@ int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_staticcall(uint64_t gas, bytes32 *callee_addr_ptr,
                        int32_t in_evm_offset, int32_t in_length,
                        int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_get_readable_memory_addr(in_evm_offset, in_length);
   int32_t retCode = callStatic(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                (ADDRESS_UINT)in_offset, in_length);
   if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
-- 
2.43.0


From ab79dc6e90bf1662f7b5f36348073640672c1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 06/48] fix: read zeros for calldata offsets past the end

---
 stdlib/chain.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index a18a11b..18ec85b 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -104,7 +104,10 @@ static void cachedCallDataCopy(int32_t /* uint8_t* */ memory_ptr,
 void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
   uint32_t calldata_size = cachedCallDataSize();
   uint8_t data[32] = {0};
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset > calldata_size) {
+    calldata_offset = calldata_size; // past the end there are only zeros
+  }
+  if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
@@ -116,7 +119,10 @@ void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
 }
 void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {
   uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset > calldata_size) {
+    calldata_offset = calldata_size; // past the end there are only zeros
+  }
+  if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
@@ -824,7 +830,7 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
   uint32_t calldata_size = cachedCallDataSize();
   if (calldata_offset >= calldata_size) {
     __memset(dst_memory_ptr, 0, len);
-  } else if (calldata_offset + len > calldata_size) {
+  } else if (len > calldata_size - calldata_offset) {
     uint32_t data_len = calldata_size - calldata_offset;
     cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, data_len);
     __memset(dst_memory_ptr + data_len, 0, len - data_len);
-- 
2.43.0


From 375ee39ebf77ce80eaab2c5984a23246747dc901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 07/48] fix: copy code up to its end and across it in codecopy

An offset and size ending exactly at the end of the code, crossing it, or
reading past the deployment arguments ran into undefined behaviour.
---
 stdlib/chain.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 18ec85b..f756e46 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -271,25 +271,30 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
     return;
   }
 
-  int32_t cur_code_size = getCodeSize();
+  uint32_t cur_code_size = getCodeSize();
+  uint32_t code_offset = evm_memory_offset;
+  uint32_t copied_size = 0;
 
-  if ((evm_memory_offset + size) < cur_code_size) {
+  if (code_offset < cur_code_size) {
     // Copy current WASM contract bytecode
-    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
-    return;
+    copied_size = cur_code_size - code_offset;
+    if (copied_size > size) {
+      copied_size = size;
+    }
+    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, copied_size);
   }
-  // Copy actual calldata, input parameter is wasm code size + calldata_offset
-  int32_t calldata_offset = evm_memory_offset - cur_code_size;
-
-  if (calldata_offset < 0) {
-    __builtin_unreachable();
+  if (copied_size == size) {
+    return;
   }
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + size) > calldata_size) {
-    // Only 4 bytes larger might be the input size
-    __builtin_unreachable();
+  if (!is_deploying_tx()) {
+    // past the end of the code there are only zeros
+    __memset(target_mem_ptr + copied_size, 0, size - copied_size);
+    return;
   }
-  cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, size);
+  // Copy actual calldata, input parameter is wasm code size + calldata_offset
+  wrapper_calldata_copy(target_evm_mem_offset + copied_size,
+                        code_offset + copied_size - cur_code_size,
+                        size - copied_size);
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
-- 
2.43.0


From 642a17f15a2cef67a6ad2b31627003d977cdf86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 08/48] fix: zero extend the address returned by create and
 create2

---
 stdlib/chain.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index f756e46..4e0153b 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -621,6 +621,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
                      wasm_code_length + 4, (ADDRESS_UINT)calldata_mem,
                      calldata_length, 0, 0, 12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create contract failed", 22);
@@ -652,6 +653,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
       (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)&salt_bytes, 1,
       12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create2 contract failed", 23);
-- 
2.43.0


From 8bfd3c5314c3635dd789c058409f20c6815f850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 09/48] fix: round up the size, not the end, in allocate_memory
 and panic on overflow

---
 stdlib/chain.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 4e0153b..fb98fab 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1030,10 +1030,15 @@ int32_t wrapper_allocate_memory(uint32_t size) {
   //     }
   //     mstore(64, newFreePtr)
   // }
-  int32_t mem_ptr = wrapper_get_memptr_global();
-  int32_t new_free_ptr = mem_ptr + (size + 31) & ~31;
-  if (new_free_ptr <= mem_ptr) {
-    __abort("allocate memory failed");
+  uint32_t mem_ptr = wrapper_get_memptr_global();
+  uint32_t alloc_size = (size + 31) & ~31;
+  uint32_t new_free_ptr = mem_ptr + alloc_size;
+  if (alloc_size < size || new_free_ptr < mem_ptr) {
+    // Panic(0x41)
+    uint8_t revert_msg[36] = {0x4e, 0x48, 0x7b, 0x71};
+    revert_msg[35] = 0x41;
+    revert((ADDRESS_UINT)revert_msg, 36);
+    return 0;
   }
   wrapper_set_memptr_global(new_free_ptr);
   return mem_ptr;
-- 
2.43.0


From 023fda7baf481f82f059f5e0f6b7c50ececa7964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 10/48] fix: mask the addresses in the optimized ERC20 transfer

---
 stdlib/chain.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index fb98fab..3690ea6 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1103,6 +1103,15 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
   //     0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _1,
   //     _3)
   // }
+  // _1 and _3 are the low 20 bytes of the arguments
+  bytes32 from_address;
+  bytes32 to_address;
+  memcpy(&from_address, from, 32);
+  memcpy(&to_address, to, 32);
+  clear_first_12_bytes(&from_address);
+  clear_first_12_bytes(&to_address);
+  from = &from_address;
+  to = &to_address;
   if (is_zero_address(((uint8_t *)from) + 12)) {
     // shl(225, 0x4b637e8f) ==
     // 0x96c6fd1e00000000000000000000000000000000000000000000000000000000
-- 
2.43.0


From 6dd792e3514fffadf006ce9b2d2ee01d0588bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 11/48] fix: do not end a string at an escaped quote in
 remove_comments

---
 src/yul2ir/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 559962d..97ecfd4 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -376,6 +376,11 @@ pub fn remove_comments(code: &str) -> String {
                 }
                 result.push(c);
             }
+            '\\' if in_string => {
+                // An escaped quote does not end the string
+                result.push(c);
+                result.extend(chars.next());
+            }
             '/' if !in_string => {
                 if let Some(next) = chars.next() {
                     match next {
-- 
2.43.0


From 466405537434462a85d6c04ed2811c9d046b70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 12/48] fix: end a block comment at its first terminator in
 remove_comments

---
 src/yul2ir/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 97ecfd4..8849710 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -396,13 +396,13 @@ pub fn remove_comments(code: &str) -> String {
                         '*' => {
                             in_multiline = true;
                             // Skip until matching */
-                            while let Some(c) = chars.next() {
-                                if c == '*' {
-                                    if let Some('/') = chars.next() {
-                                        in_multiline = false;
-                                        break;
-                                    }
+                            let mut prev_star = false;
+                            for c in chars.by_ref() {
+                                if prev_star && c == '/' {
+                                    in_multiline = false;
+                                    break;
                                 }
+                                prev_star = c == '*';
                             }
                         }
                         _ => {
-- 
2.43.0


From e5a05383614303da5078a878740cd00e13ff0a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 13/48] fix: look at the character after a lone slash in
 remove_comments

---
 src/yul2ir/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 8849710..aabb713 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -382,7 +382,7 @@ pub fn remove_comments(code: &str) -> String {
                 result.extend(chars.next());
             }
             '/' if !in_string => {
-                if let Some(next) = chars.next() {
+                if let Some(next) = chars.clone().next() {
                     match next {
                         '/' => {
                             // Skip until end of line and replace with empty line
@@ -395,6 +395,7 @@ pub fn remove_comments(code: &str) -> String {
                         }
                         '*' => {
                             in_multiline = true;
+                            chars.next();
                             // Skip until matching */
                             let mut prev_star = false;
                             for c in chars.by_ref() {
@@ -407,7 +408,6 @@ pub fn remove_comments(code: &str) -> String {
                         }
                         _ => {
                             result.push(c);
-                            result.push(next);
                         }
                     }
                 } else {
-- 
2.43.0


From d2bf4695db5facaae50a67511eeba6f00a693e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 14/48] fix: do not join the tokens around a block comment in
 remove_comments

---
 src/yul2ir/utils.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index aabb713..3515c90 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -405,6 +405,14 @@ pub fn remove_comments(code: &str) -> String {
                                 }
                                 prev_star = c == '*';
                             }
+                            // Do not join the tokens around the comment
+                            let before = result.chars().next_back();
+                            let after = chars.clone().next();
+                            if let (Some(before), Some(after)) = (before, after) {
+                                if !before.is_whitespace() && !after.is_whitespace() {
+                                    result.push(' ');
+                                }
+                            }
                         }
                         _ => {
                             result.push(c);
-- 
2.43.0


From b08e8eb1d8ec05ef6c3dde3b18b9f3c47aaafd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 15/48] fix: drop every whitespace escape of a string, reading
 escapes from left to right

---
 src/yul.lalrpop | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 8a85e8e..7be835a 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -236,8 +236,9 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
 pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
-    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-    let mut s = String::from(escape_ignore_reg.replace(s, ""));
+    // Take the escapes from left to right: an escaped backslash starts no other escape
+    let escape_ignore_reg = Regex::new(r"(\\[^ \n\t\r\f])|\\[ \n\t\r\f]+\\").unwrap();
+    let mut s = String::from(escape_ignore_reg.replace_all(s, "${1}"));
     s.remove(0);
     s.pop();
     utils::unescape_str_wrap_error(s.as_str())
-- 
2.43.0


From eb7e36bd8693e618e0584ce515a781297c9f5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 16/48] fix: reject strings with invalid escapes instead of
 replacing their text

---
 src/yul.lalrpop     |  6 ++++--
 src/yul2ir/utils.rs | 16 +++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 7be835a..ad6922d 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -235,13 +235,15 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
-pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
+pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
     // Take the escapes from left to right: an escaped backslash starts no other escape
     let escape_ignore_reg = Regex::new(r"(\\[^ \n\t\r\f])|\\[ \n\t\r\f]+\\").unwrap();
     let mut s = String::from(escape_ignore_reg.replace_all(s, "${1}"));
     s.remove(0);
     s.pop();
-    utils::unescape_str_wrap_error(s.as_str())
+    utils::unescape_str(s.as_str()).map_err(|_| lalrpop_util::ParseError::User {
+        error: "invalid escape sequence or character in string literal",
+    })
 };
 
 pub SingleLineComment: String = <s:r"//[^\n]*\n"> => String::from(s);
diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 3515c90..6b9f0e1 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -268,23 +268,25 @@ fn is_ascii(x: u32) -> bool {
     x <= 0x7F
 }
 
-/// Unescape string wrapping errors
-pub fn unescape_str_wrap_error(s: &str) -> String {
+/// Unescape string, or report its first error
+pub fn unescape_str(s: &str) -> Result<String, EscapeError> {
     if s.contains(&['\\', '\r'][..]) {
         let mut buf = String::with_capacity(s.len());
-        let mut error = false;
+        let mut error = None;
         unescape_str_or_byte_str(s, Mode::Str, &mut |_, unescaped_char| {
             match unescaped_char {
                 Ok(c) => buf.push(c),
                 Err(e) => {
-                    error = true;
-                    buf = format!("<Lexer error: string: {e:?}>");
+                    error.get_or_insert(e);
                 }
             };
         });
-        buf
+        match error {
+            Some(e) => Err(e),
+            None => Ok(buf),
+        }
     } else {
-        s.to_string()
+        Ok(s.to_string())
     }
 }
 
-- 
2.43.0


From c306c5f2d1f55cca166a1dd632d314a78803feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 17/48] fix: reject a number directly followed by a letter

---
 src/yul.lalrpop | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index ad6922d..81b9d8d 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -8,6 +8,13 @@ use regex::Regex;
 
 grammar;
 
+match {
+    _
+} else {
+    // A number directly followed by a letter is not two tokens
+    r"[0-9][a-zA-Z_0-9.$]*" => BadNumber
+}
+
 Comma<T>: Vec<T> = {
     => Vec::new(),
     CommaOne<T> => <>,
-- 
2.43.0


From 2c40c5e8822613bf2e44ac4892fa40caf490a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 18/48] fix: allow any whitespace between data and its name

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 81b9d8d..ca56cff 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -240,7 +240,7 @@ pub HexNumberInner: String = <s:r"0x[0-9a-fA-F]+"> => String::from(s);
 
 pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches("hex").trim_matches('\"').to_string();
 
-pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
+pub DataSegmentWithNameInner: String =  <s:r#"data[ \n\t\r\f]+"[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim().trim_matches('\"').to_string();
 
 pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
     // Take the escapes from left to right: an escaped backslash starts no other escape
-- 
2.43.0


From 22e35caf576b881d45ca8a43de114b55441ba541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 19/48] fix: reject a data segment without exactly one literal

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index ca56cff..821de8f 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -38,7 +38,7 @@ pub Object: ast::Object = {
 
 pub InnerSegment: ast::InnerSegment = {
     // data "name" hex"xxx"
-    <comment: Comment*> <name: DataSegmentWithNameInner> <data: DataLiteral*> => ast::InnerSegment::Data(name, data),
+    <comment: Comment*> <name: DataSegmentWithNameInner> <data: DataLiteral> => ast::InnerSegment::Data(name, vec![data]),
     <object: Object> => ast::InnerSegment::Object(Box::new(object)),
 }
 
-- 
2.43.0


From f79e06ba09ff7f9ba4dd4b7172701125e43bdfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 20/48] fix: reject hex data with an odd number of digits

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 821de8f..bda302e 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -238,7 +238,7 @@ pub DecimalNumberInner: String = <s:r"[0-9]+"> => String::from(s);
 
 pub HexNumberInner: String = <s:r"0x[0-9a-fA-F]+"> => String::from(s);
 
-pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches("hex").trim_matches('\"').to_string();
+pub HexDataInner: String =  <s:r#"hex"([0-9a-fA-F][0-9a-fA-F])+""#>  => s.trim_start_matches("hex").trim_matches('\"').to_string();
 
 pub DataSegmentWithNameInner: String =  <s:r#"data[ \n\t\r\f]+"[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim().trim_matches('\"').to_string();
 
-- 
2.43.0


From b7a2d6d2610e6fdc9738ec58ac2863d35c10175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 21/48] fix: accept identifiers that start with a dollar sign

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index bda302e..47be7b9 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -232,7 +232,7 @@ pub Identifier: ast::Identifier = {
     }
 }
 
-pub Name: String = <s:r"[a-zA-Z_][a-zA-Z_0-9.$]*"> => String::from(s);
+pub Name: String = <s:r"[a-zA-Z_$][a-zA-Z_0-9.$]*"> => String::from(s);
 
 pub DecimalNumberInner: String = <s:r"[0-9]+"> => String::from(s);
 
-- 
2.43.0


From e1851f2e8f679d00640105690253de680753ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 22/48] fix: give zero when dividing by zero, and divide signed
 words by their magnitudes

---
 src/yul2ir/context.rs     | 72 +++++++++++++++++++++++++++++++++++++++
 src/yul2ir/instruction.rs | 24 +++----------
 2 files changed, 76 insertions(+), 20 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index df88f63..9913a49 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1186,6 +1186,78 @@ impl<'ctx> Yul2IRContext<'ctx> {
             .map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
     }
 
+    /// Unsigned division (or remainder) where, as in the EVM, dividing by zero gives zero.
+    /// LLVM leaves a zero divisor undefined, so it is replaced before the division.
+    pub fn build_evm_div(
+        &self,
+        lhs: IntValue<'ctx>,
+        rhs: IntValue<'ctx>,
+        remainder: bool,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let ty = rhs.get_type();
+        let builder = self.builder.borrow_mut();
+        let rhs_is_zero =
+            builder.build_int_compare(IntPredicate::EQ, rhs, ty.const_zero(), "rhs_is_zero")?;
+        let divisor = builder
+            .build_select(rhs_is_zero, ty.const_int(1, false), rhs, "divisor")?
+            .into_int_value();
+        let result = if remainder {
+            builder.build_int_unsigned_rem(lhs, divisor, "rem_result")?
+        } else {
+            builder.build_int_unsigned_div(lhs, divisor, "div_result")?
+        };
+        Ok(builder
+            .build_select(rhs_is_zero, ty.const_zero(), result, "div_or_zero")?
+            .into_int_value())
+    }
+
+    /// Signed division (or remainder) of the EVM, done on the magnitudes, which also covers the
+    /// smallest integer divided by -1. The remainder takes the sign of the dividend.
+    pub fn build_evm_sdiv(
+        &self,
+        lhs: IntValue<'ctx>,
+        rhs: IntValue<'ctx>,
+        remainder: bool,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let lhs_neg = self.build_is_negative(lhs)?;
+        let rhs_neg = self.build_is_negative(rhs)?;
+        let lhs_abs = self.build_negate_if(lhs_neg, lhs)?;
+        let rhs_abs = self.build_negate_if(rhs_neg, rhs)?;
+        let result = self.build_evm_div(lhs_abs, rhs_abs, remainder)?;
+        let result_neg = if remainder {
+            lhs_neg
+        } else {
+            self.builder
+                .borrow_mut()
+                .build_xor(lhs_neg, rhs_neg, "result_neg")?
+        };
+        self.build_negate_if(result_neg, result)
+    }
+
+    fn build_is_negative(
+        &self,
+        value: IntValue<'ctx>,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        Ok(self.builder.borrow_mut().build_int_compare(
+            IntPredicate::SLT,
+            value,
+            value.get_type().const_zero(),
+            "is_negative",
+        )?)
+    }
+
+    fn build_negate_if(
+        &self,
+        cond: IntValue<'ctx>,
+        value: IntValue<'ctx>,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let builder = self.builder.borrow_mut();
+        let negated = builder.build_int_sub(value.get_type().const_zero(), value, "negated")?;
+        Ok(builder
+            .build_select(cond, negated, value, "magnitude")?
+            .into_int_value())
+    }
+
     #[allow(unused)]
     pub fn unify_ints3(
         &self,
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f848a75..81ac061 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -713,11 +713,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_div(arg0, arg1, "div_result")?
-                        .into(),
+                    value: self.build_evm_div(arg0, arg1, false)?.into(),
                 })
             }
             YulInstructionName::SDiv => {
@@ -729,11 +725,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_div(arg0, arg1, "sdiv_result")?
-                        .into(),
+                    value: self.build_evm_sdiv(arg0, arg1, false)?.into(),
                 })
             }
             YulInstructionName::Mod => {
@@ -745,11 +737,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_rem(arg0, arg1, "mod_result")?
-                        .into(),
+                    value: self.build_evm_div(arg0, arg1, true)?.into(),
                 })
             }
             YulInstructionName::SMod => {
@@ -761,11 +749,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_rem(arg0, arg1, "smod_result")?
-                        .into(),
+                    value: self.build_evm_sdiv(arg0, arg1, true)?.into(),
                 })
             }
             YulInstructionName::Exp => {
-- 
2.43.0


From 319490cf77840bb7bb75485dd706e01f9fcfe249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 23/48] fix: do not cut shift amounts and sign positions to
 their low 32 bits

---
 src/yul2ir/context.rs     | 21 +++++++++++++++++++++
 src/yul2ir/instruction.rs | 11 +++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 9913a49..4bc51d6 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -925,6 +925,27 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
+    /// The value as an i32 amount: a value that does not fit becomes i32::MAX instead of being
+    /// cut to its low bits.
+    pub fn try_into_saturated_i32(
+        &self,
+        value: &BasicValueEnum<'ctx>,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let value = self.try_into_int(value)?;
+        let ty = value.get_type();
+        if ty.get_bit_width() < 32 {
+            return self.int_as_i32(value);
+        }
+        let max = ty.const_int(i32::MAX as u64, false);
+        let builder = self.builder.borrow_mut();
+        let too_large = builder.build_int_compare(IntPredicate::UGT, value, max, "too_large")?;
+        let value = builder
+            .build_select(too_large, max, value, "saturated")?
+            .into_int_value();
+        drop(builder);
+        self.int_as_i32(value)
+    }
+
     pub fn try_into_u256(
         &self,
         value: &BasicValueEnum<'ctx>,
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 81ac061..3afba1a 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -689,8 +689,7 @@ impl<'a> Yul2IRContext<'a> {
                 // signextend(b, x) extends a smaller signed integer x to 256 bits while preserving its sign bit.
                 // The bits before the specified byte count (b) are extended according to the sign of the most significant bit.
                 check_args_count(&instr, &args, 2)?;
-                let b = self.try_into_int(args.first().unwrap())?;
-                let b = self.int_as_i32(b)?;
+                let b = self.try_into_saturated_i32(args.first().unwrap())?;
                 let x = self.try_into_u256(args.get(1).unwrap())?;
                 let x_ptr = self.get_value_pointer(x)?;
                 let tmp_result = self.fast_alloca(self.u256_type(), "")?;
@@ -1154,7 +1153,7 @@ impl<'a> Yul2IRContext<'a> {
                 // so we use bytes32 version
                 if self.is_bytes32_value(value) {
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.try_into_saturated_i32(shift)?;
                     let value = self.try_into_bytes32_pointer(value)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shl_result")?;
                     self.build_void_call(
@@ -1170,7 +1169,7 @@ impl<'a> Yul2IRContext<'a> {
                 // because llvm shl not work well for shift>=256, so we use c wrapper
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.try_into_saturated_i32(shift)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shl_result")?;
                 self.build_void_call(
@@ -1215,7 +1214,7 @@ impl<'a> Yul2IRContext<'a> {
                 if self.is_bytes32_value(value) {
                     let value = self.try_into_bytes32_pointer(value)?;
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.try_into_saturated_i32(shift)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shr_result")?;
                     self.build_void_call(
                         "wrapper_bytes32_shr",
@@ -1228,7 +1227,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.try_into_saturated_i32(shift)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shr_result")?;
                 self.build_void_call(
-- 
2.43.0


From 00adfbf13d6836cccf2b7ef8e6dd9a9606757cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 24/48] fix: byte gives zero for an index past the last byte

---
 src/yul2ir/instruction.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 3afba1a..201b27f 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1108,8 +1108,7 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::Byte => {
                 check_args_count(&instr, &args, 2)?;
-                let nth_byte_i32 =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
+                let nth_byte_i32 = self.try_into_saturated_i32(args.first().unwrap())?;
                 let value = self.try_into_int(args.get(1).unwrap())?;
                 let value = self.int_as_u256(value)?;
                 let shift_amount_tmp = self.builder.borrow_mut().build_int_sub(
@@ -1122,6 +1121,33 @@ impl<'a> Yul2IRContext<'a> {
                     shift_amount_tmp,
                     "shift_amount_mul",
                 )?;
+                // Bytes past the last one are zero
+                let out_of_range = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::UGT,
+                    nth_byte_i32,
+                    self.i32_type().const_int(31, false),
+                    "byte_out_of_range",
+                )?;
+                let shift_count = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(
+                        out_of_range,
+                        self.i32_type().const_zero(),
+                        shift_count,
+                        "byte_shift",
+                    )?
+                    .into_int_value();
+                let value = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(
+                        out_of_range,
+                        self.u256_type().const_zero(),
+                        value,
+                        "byte_value",
+                    )?
+                    .into_int_value();
                 let (value, shift_count) = self.unify_ints(value, shift_count)?;
                 let shifted_value = self.builder.borrow_mut().build_right_shift(
                     value,
-- 
2.43.0


From 4517c7d03adabdc1a84f47062b17994a82448fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 25/48] fix: sar by 256 or more keeps only the sign

---
 src/yul2ir/instruction.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 201b27f..a53cf06 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1216,6 +1216,19 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
+                // LLVM leaves shifts by the whole width undefined: they keep only the sign, as 255 does
+                let max_shift = self.u256_type().const_int(255, false);
+                let too_large = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::UGT,
+                    arg0,
+                    max_shift,
+                    "sar_too_large",
+                )?;
+                let arg0 = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(too_large, max_shift, arg0, "sar_amount")?
+                    .into_int_value();
                 let result = self
                     .builder
                     .borrow_mut()
-- 
2.43.0


From d97b096f9e7ae753b0e09aee5b90b4d75ed14f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 26/48] fix: compare whole words in slt and sgt

---
 src/yul2ir/instruction.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index a53cf06..9fc8db5 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -291,10 +291,16 @@ impl<'a> Yul2IRContext<'a> {
                         // else return negative result.
                         // Optimize by directly calling a specialized wrapper
                         if let Ok(result) = self.build_call("wrapper_calldata_size_minus_4", &[]) {
+                            // the result is signed, unlike the other i32 values
+                            let result = self
+                                .builder
+                                .borrow_mut()
+                                .build_int_s_extend(result.into_int_value(), self.u256_type(), "")
+                                .unwrap();
                             return (
                                 Some(YulLowLevelValue {
-                                    value_type: YulLowLevelValueType::I32,
-                                    value: result,
+                                    value_type: YulLowLevelValueType::U256,
+                                    value: result.into(),
                                 }),
                                 None,
                             );
@@ -899,7 +905,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // A narrow value is an unsigned one: compare the signs of whole words
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension,
                 // otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
@@ -934,7 +941,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // A narrow value is an unsigned one: compare the signs of whole words
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension, otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
                     IntPredicate::SGT,
-- 
2.43.0


From 2e38551e3836e9d039e98e720b48a74c6c961266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 27/48] fix: test the whole word of for and switch conditions

---
 src/yul2ir/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 203ba31..373ae4b 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -93,9 +93,9 @@ impl<'a> Yul2IRContext<'a> {
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
 
-        // For switch condition, we ideally want the type to match case values (typically u256)
+        // The switch compares whole words, so no part of the condition may be left out
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::I32)?;
+            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::Untyped)?;
         let cond_value = cond_value.get_value();
         let cond_value = if cond_value.is_int_value() {
             cond_value.into_int_value()
@@ -227,9 +227,9 @@ impl<'a> Yul2IRContext<'a> {
             .build_unconditional_branch(cond_block);
 
         self.builder.borrow_mut().position_at_end(cond_block);
-        // For conditions, we prefer boolean (i32) results
+        // Any bit of the condition counts, so the whole word is needed
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::I32)?;
+            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::Untyped)?;
         let cond_value = cond_value.get_value();
         let cond_value = if cond_value.is_int_value() {
             cond_value.into_int_value()
-- 
2.43.0


From 97b2344e480f10d02a93d44e19bdc2c26796d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 28/48] fix: give the body of an if its own scope

---
 src/yul2ir/transform.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 373ae4b..1214903 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -298,6 +298,7 @@ impl<'a> Yul2IRContext<'a> {
             self.i32_type().const_zero(),
             "nop",
         )?;
+        let _body_scope_guard = ScopeGuard::new(self);
         for stmt in &r#if.body.statements {
             self.walk_stmt(yul_func_name, stmt)?;
             unreachableflag = self.is_unreachable_node(stmt);
-- 
2.43.0


From f93cb16c88237d984f4ab71b121d0cb1ccc99e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 29/48] fix: compare switch cases as whole words and report the
 errors of case bodies

---
 src/yul2ir/transform.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 1214903..9cd3d1e 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -102,6 +102,8 @@ impl<'a> Yul2IRContext<'a> {
         } else {
             self.try_into_u256(&cond_value)?
         };
+        // Case values can be wider than the condition
+        let cond_value = self.int_as_u256(cond_value)?;
         let cond_value_ty = cond_value.get_type();
 
         // Determine the expected type for case values based on the condition value type
@@ -148,7 +150,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 for (_, bb) in jump_tbl {
                     self.builder.borrow_mut().position_at_end(bb.0);
-                    self.walk_block(yul_func_name, &bb.1);
+                    self.walk_block(yul_func_name, &bb.1)?;
                     self.builder
                         .borrow_mut()
                         .build_unconditional_branch(end_block);
@@ -156,7 +158,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 self.builder.borrow_mut().position_at_end(otherwise_block);
                 if let Some(default) = default {
-                    self.walk_block(yul_func_name, &default.body);
+                    self.walk_block(yul_func_name, &default.body)?;
                 }
                 self.builder
                     .borrow_mut()
-- 
2.43.0


From 52cf64613240d2c628e7a45e5d9cb30ba35be99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 30/48] fix: branch to the default of a switch without cases

---
 src/yul2ir/transform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 9cd3d1e..56bf6e6 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -169,8 +169,11 @@ impl<'a> Yul2IRContext<'a> {
                 let otherwise_block = self
                     .llvm_context
                     .append_basic_block(cur_func_value, "switch_otherwise");
+                self.builder
+                    .borrow_mut()
+                    .build_unconditional_branch(otherwise_block)?;
                 self.builder.borrow_mut().position_at_end(otherwise_block);
-                self.walk_block(yul_func_name, &default.body);
+                self.walk_block(yul_func_name, &default.body)?;
                 self.builder
                     .borrow_mut()
                     .build_unconditional_branch(end_block);
-- 
2.43.0


From c7545a6040f13f3a8da87d218c9bb4717ec22085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 31/48] fix: variables and return variables without a value
 start as zero

---
 src/yul2ir/transform.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 56bf6e6..b48c46b 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -609,6 +609,9 @@ impl<'a> Yul2IRContext<'a> {
                 .borrow_mut()
                 .build_store(llvm_var, init_val)
                 .unwrap();
+        } else {
+            // A variable declared without a value is zero
+            self.build_store(llvm_var, ty.const_zero())?;
         }
         self.ok_result()
     }
@@ -1800,7 +1803,13 @@ impl<'a> Yul2IRContext<'a> {
                     )
                 };
 
-            // TODO: Set initial value for the return variable
+            // Return variables start as zero
+            let initial_value = if ret_var_low_level_value_type == YulLowLevelValueType::Bytes32 {
+                self.bytes32_type().const_zero().as_basic_value_enum()
+            } else {
+                ret_ty.const_zero()
+            };
+            self.build_store(ret_var_pointer, initial_value)?;
             self.set_var(
                 ret_name,
                 ret_ty,
-- 
2.43.0


From ddba25be8fc450bcf1252d78cdb400e8103407c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:33 +0000
Subject: [PATCH 32/48] fix: untyped variables hold whole words whatever their
 first value is

---
 src/yul2ir/transform.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index b48c46b..9fa5cf6 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -519,6 +519,20 @@ impl<'a> Yul2IRContext<'a> {
             None => None,
         };
 
+        // A variable without a type holds a whole word, later values can be wider than the first one
+        let init_val_low_level = match init_val_low_level {
+            Some(val)
+                if var_decl.identifiers[0].type_name.is_none()
+                    && val.get_value().is_int_value() =>
+            {
+                Some(YulLowLevelValue {
+                    value_type: YulLowLevelValueType::U256,
+                    value: self.int_as_u256(val.get_value().into_int_value())?.into(),
+                })
+            }
+            val => val,
+        };
+
         // If the right-hand value is bytes32*, declare a bytes32* variable and copy the value
         if init_val_low_level.is_some()
             && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-- 
2.43.0


From 2037833fefdb5a3a79cdb0891a4e8aa691c67a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:33 +0000
Subject: [PATCH 33/48] fix: copy the value a variable is declared with instead
 of sharing its memory

---
 src/yul2ir/transform.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 9fa5cf6..1d902c8 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -533,18 +533,6 @@ impl<'a> Yul2IRContext<'a> {
             val => val,
         };
 
-        // If the right-hand value is bytes32*, declare a bytes32* variable and copy the value
-        if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            let var_low_level_value_type = YulLowLevelValueType::Bytes32Pointer;
-            let ty = self.bytes32_pointer_type().as_basic_type_enum();
-            let llvm_var = self.fast_alloca(ty, &format!("var_{name}"))?;
-            self.set_var(&name, ty, var_low_level_value_type, llvm_var, false)?;
-            self.build_store(llvm_var, init_val_low_level.unwrap().value)?;
-            return self.ok_result();
-        }
-
         // TODO: Simplify the following code
 
         // if init_val is bytes32 pointer, convert to bytes32 to store in variable pointer
@@ -553,8 +541,8 @@ impl<'a> Yul2IRContext<'a> {
         {
             // is bytes32 pointer
 
-            // now load bytes32 pointer target is to copy data to variable pointer
-            // TODO: (alloca bytes32*) in stack to store bytes32 pointer
+            // now load bytes32 pointer target is to copy data to variable pointer, so that no other
+            // variable or result shares its memory
             let init_val_content = self.build_load(
                 self.bytes32_type(),
                 init_val_low_level.unwrap().get_value().into_pointer_value(),
-- 
2.43.0


From 08f953d63a903846f2520428cf3acbbe37841064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:33 +0000
Subject: [PATCH 34/48] fix: evaluate arguments from right to left

---
 src/yul2ir/instruction.rs | 6 ++++--
 src/yul2ir/transform.rs   | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 9fc8db5..36f8a60 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -519,10 +519,11 @@ impl<'a> Yul2IRContext<'a> {
         args_exprs: &[Expression],
         arg_expected_types: &[ExpectedType],
     ) -> Vec<YulLowLevelValue<'a>> {
-        // Evaluate each argument with its expected type
-        let args: Vec<YulLowLevelValue<'a>> = args_exprs
+        // Evaluate each argument with its expected type, from right to left as Yul does
+        let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
             .iter()
             .enumerate()
+            .rev()
             .map(|(i, arg)| {
                 let arg_expected_type = if i < arg_expected_types.len() {
                     arg_expected_types[i]
@@ -533,6 +534,7 @@ impl<'a> Yul2IRContext<'a> {
                     .unwrap()
             })
             .collect();
+        args.reverse();
         args
     }
 
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 1d902c8..4aa335e 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -892,8 +892,9 @@ impl<'a> Yul2IRContext<'a> {
             })?
             .clone();
 
+        // Arguments are evaluated from right to left
         let mut call_args = vec![];
-        for (i, arg) in func_call.arguments.iter().enumerate() {
+        for (i, arg) in func_call.arguments.iter().enumerate().rev() {
             // Try to get the expected parameter type from function declaration
             let expected_param_type =
                 if let Some(func_decl) = self.current_func_decls.borrow().get(&func_name) {
@@ -921,6 +922,7 @@ impl<'a> Yul2IRContext<'a> {
                 e => return e,
             }
         }
+        call_args.reverse();
 
         let func_def = self.current_func_decls.borrow().get(&func_name).unwrap();
 
-- 
2.43.0


From fc0160a879995a97d2c0c1791a0bb3c2733f50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:33 +0000
Subject: [PATCH 35/48] fix: allocate stack slots once per function instead of
 once per iteration

---
 src/yul2ir/context.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 4bc51d6..ecc1f67 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1380,10 +1380,25 @@ impl<'ctx> Yul2IRContext<'ctx> {
         ty: T,
         name: &str,
     ) -> Result<PointerValue<'ctx>, ASTLoweringError> {
-        self.builder
-            .borrow_mut()
-            .build_alloca(ty, name)
-            .map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
+        // Allocate in the entry block: elsewhere every iteration of a loop would take more stack
+        let builder = self.builder.borrow_mut();
+        let current_bb = builder.get_insert_block();
+        let entry_bb = current_bb
+            .and_then(|bb| bb.get_parent())
+            .and_then(|func| func.get_first_basic_block());
+        match entry_bb.and_then(|bb| bb.get_first_instruction()) {
+            Some(first) => builder.position_before(&first),
+            None => {
+                if let Some(entry_bb) = entry_bb {
+                    builder.position_at_end(entry_bb);
+                }
+            }
+        }
+        let ptr = builder.build_alloca(ty, name);
+        if let Some(current_bb) = current_bb {
+            builder.position_at_end(current_bb);
+        }
+        ptr.map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
     }
 
     #[allow(dead_code)]
-- 
2.43.0


From fa584c688363933b6bf9643c85f061cbf9b61bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 36/48] fix: hash the whole name of an immutable

---
 src/yul2ir/instruction.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 36f8a60..6b91260 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1551,7 +1551,9 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                if data.len() < 32 {
+                    data.resize(32, 0u8);
+                }
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
@@ -1634,7 +1636,9 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                if data.len() < 32 {
+                    data.resize(32, 0u8);
+                }
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
-- 
2.43.0


From c2cba4c88d664c51459856d06a9154997c751be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 37/48] fix: embed data segments without a length prefix

---
 src/yul2ir/transform.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 4aa335e..ac7186b 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1513,19 +1513,16 @@ impl<'a> Yul2IRContext<'a> {
                                     bytes.push('0');
                                 }
                                 let data_bytes = hex::decode(bytes).unwrap();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(&data_bytes);
-
                                 let data_segment_qualified_name =
                                     &format!("{}.{}", object.name, data_segment_name);
                                 let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
+                                    &data_bytes,
                                     data_segment_qualified_name,
                                 );
 
                                 self.global_bytes_lengths.borrow_mut().insert(
                                     data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
+                                    data_bytes.len(),
                                 );
                                 self.global_bytes_values
                                     .borrow_mut()
@@ -1533,19 +1530,16 @@ impl<'a> Yul2IRContext<'a> {
                             }
                             ast::DataLiteral::StringLiteral(string_literal) => {
                                 let data_bytes = string_literal.as_bytes();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(data_bytes);
-
                                 let data_segment_qualified_name =
                                     &format!("{}.{}", object.name, data_segment_name);
                                 let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
+                                    data_bytes,
                                     data_segment_qualified_name,
                                 );
 
                                 self.global_bytes_lengths.borrow_mut().insert(
                                     data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
+                                    data_bytes.len(),
                                 );
                                 self.global_bytes_values
                                     .borrow_mut()
-- 
2.43.0


From b4185d9b90cca011a3628dbf2e86d3fb5f8a61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 38/48] fix: give the current object the code offset 0

---
 src/yul2ir/instruction.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 6b91260..823f128 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1821,10 +1821,11 @@ impl<'a> Yul2IRContext<'a> {
                 assert!(data_segment_name.is_some());
                 let data_segment_name = data_segment_name.unwrap();
                 if current_module_name == &data_segment_name {
-                    // Get the bytecode offset of the current contract. Since the current bytecode cannot appear in the current contract's data segment, this case is impossible
-                    unreachable!(
-                        "dataoffset param can't be the same object name as the current object"
-                    );
+                    // The bytecode of the current contract starts at offset 0 of the code
+                    return Ok(YulLowLevelValue {
+                        value_type: YulLowLevelValueType::I32,
+                        value: self.i32_type().const_zero().into(),
+                    });
                 }
                 // Otherwise get the starting address of the wasm bytecode constants generated by the child object/data segment
 
@@ -2005,7 +2006,7 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
 
                 self.build_void_call(
-                    "wrapper_data_copy",
+                    "wrapper_codecopy",
                     &[dst_evm.into(), src_evm.into(), len.into()],
                 )?;
                 Ok(YulLowLevelValue {
-- 
2.43.0


From aef69670596a81c626f423d6cd7888004d9f9471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 39/48] fix: report unsupported built-in functions and unknown
 libraries as errors

---
 src/yul2ir/instruction.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 823f128..dd05392 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -2303,9 +2303,9 @@ impl<'a> Yul2IRContext<'a> {
                     value: result,
                 })
             }
-            YulInstructionName::CallCode => {
-                unreachable!("callcode not supported, use delegatecall instead")
-            }
+            YulInstructionName::CallCode => Err(ASTLoweringError::BuilderError(
+                "callcode not supported, use delegatecall instead".to_string(),
+            )),
             YulInstructionName::DelegateCall => {
                 check_args_count(&instr, &args, 6)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
@@ -2447,9 +2447,9 @@ impl<'a> Yul2IRContext<'a> {
                     value: block_hash_ptr.into(),
                 })
             }
-            YulInstructionName::BlobHash => {
-                unreachable!("blobhash not supported in this chain")
-            }
+            YulInstructionName::BlobHash => Err(ASTLoweringError::BuilderError(
+                "blobhash not supported in this chain".to_string(),
+            )),
             YulInstructionName::CoinBase => {
                 let ret_ty = self.bytes32_type();
                 let result_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
@@ -2505,8 +2505,12 @@ impl<'a> Yul2IRContext<'a> {
                     println!("Warning: linker symbol {} not found, use address 0xffffffffffffffffffffffffffffffffffffffff", linkersymbol_name);
                     symbol_addr = Some("0xffffffffffffffffffffffffffffffffffffffff".to_string());
                 }
-                assert!(symbol_addr.is_some());
-                let symbol_addr = symbol_addr.unwrap();
+                let Some(symbol_addr) = symbol_addr else {
+                    return Err(ASTLoweringError::BuilderError(format!(
+                        "linker symbol {} not found",
+                        linkersymbol_name
+                    )));
+                };
                 let symbol_addr = self.hex_literal(&symbol_addr);
                 let ret_value_ty = YulLowLevelValueType::from_int_type(symbol_addr.get_type());
                 Ok(YulLowLevelValue {
-- 
2.43.0


From fa2db42b3e32a05ec0db0bb9f002d0e3b5509387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 40/48] fix: check the rules of Yul before translating

---
 src/yul2ir/checker.rs   | 406 ++++++++++++++++++++++++++++++++++++++++
 src/yul2ir/errors.rs    |   4 +
 src/yul2ir/mod.rs       |   1 +
 src/yul2ir/transform.rs |   2 +
 4 files changed, 413 insertions(+)
 create mode 100644 src/yul2ir/checker.rs

diff --git a/src/yul2ir/checker.rs b/src/yul2ir/checker.rs
new file mode 100644
index 0000000..13a035c
--- /dev/null
+++ b/src/yul2ir/checker.rs
@@ -0,0 +1,406 @@
+// Copyright (C) 2024-2025 the DTVM authors. All Rights Reserved.
+// SPDX-License-Identifier: Apache-2.0
+
+//! The static rules of Yul: every name is defined where it is used and only once where it is
+//! visible, every call has the arguments and gives the values its place needs, and jumps stand
+//! where they have a target. The translation relies on these rules.
+
+use crate::yul2ir::ast::{
+    Block, Expression, FunctionCall, FunctionDefinition, Identifier, InnerSegment, Literal, Object,
+    Statement, SwitchOptions, TypedIdentifier,
+};
+use crate::yul2ir::errors::ASTLoweringError;
+use crate::yul2ir::yul_instruction::{parse_intrinsic_func_name, YulInstructionName};
+use ethereum_types::U256;
+use std::collections::{HashMap, HashSet};
+
+type CheckResult<T = ()> = Result<T, ASTLoweringError>;
+
+fn fail<T>(msg: String) -> CheckResult<T> {
+    Err(ASTLoweringError::InvalidProgram(msg))
+}
+
+/// The number of arguments and values of a built-in function
+fn builtin_signature(instr: &YulInstructionName) -> (usize, usize) {
+    match instr {
+        YulInstructionName::Stop | YulInstructionName::Invalid => (0, 0),
+        YulInstructionName::Pop
+        | YulInstructionName::SelfDestruct
+        | YulInstructionName::DebugPrint => (1, 0),
+        YulInstructionName::MStore
+        | YulInstructionName::MStore8
+        | YulInstructionName::SStore
+        | YulInstructionName::TStore
+        | YulInstructionName::Return
+        | YulInstructionName::Revert
+        | YulInstructionName::Log0 => (2, 0),
+        YulInstructionName::MCopy
+        | YulInstructionName::CallDataCopy
+        | YulInstructionName::CodeCopy
+        | YulInstructionName::DataCopy
+        | YulInstructionName::ReturnDataCopy
+        | YulInstructionName::SetImmutable
+        | YulInstructionName::Log1 => (3, 0),
+        YulInstructionName::ExtCodeCopy | YulInstructionName::Log2 => (4, 0),
+        YulInstructionName::Log3 => (5, 0),
+        YulInstructionName::Log4 => (6, 0),
+        YulInstructionName::Not
+        | YulInstructionName::IsZero
+        | YulInstructionName::MLoad
+        | YulInstructionName::SLoad
+        | YulInstructionName::TLoad
+        | YulInstructionName::LoadImmutable
+        | YulInstructionName::Balance
+        | YulInstructionName::CallDataLoad
+        | YulInstructionName::ExtCodeSize
+        | YulInstructionName::ExtCodeHash
+        | YulInstructionName::DataOffset
+        | YulInstructionName::DataSize
+        | YulInstructionName::BlockHash
+        | YulInstructionName::BlobHash
+        | YulInstructionName::MemoryGuard
+        | YulInstructionName::LinkerSymbol => (1, 1),
+        YulInstructionName::Add
+        | YulInstructionName::Sub
+        | YulInstructionName::Mul
+        | YulInstructionName::Div
+        | YulInstructionName::SDiv
+        | YulInstructionName::Mod
+        | YulInstructionName::SMod
+        | YulInstructionName::Exp
+        | YulInstructionName::Lt
+        | YulInstructionName::Gt
+        | YulInstructionName::SLt
+        | YulInstructionName::SGt
+        | YulInstructionName::Eq
+        | YulInstructionName::And
+        | YulInstructionName::Or
+        | YulInstructionName::Xor
+        | YulInstructionName::Byte
+        | YulInstructionName::Shl
+        | YulInstructionName::Shr
+        | YulInstructionName::Sar
+        | YulInstructionName::SignExtend
+        | YulInstructionName::Keccak256 => (2, 1),
+        YulInstructionName::AddMod | YulInstructionName::MulMod | YulInstructionName::Create => {
+            (3, 1)
+        }
+        YulInstructionName::Create2 => (4, 1),
+        YulInstructionName::DelegateCall | YulInstructionName::StaticCall => (6, 1),
+        YulInstructionName::Call | YulInstructionName::CallCode => (7, 1),
+        YulInstructionName::MSize
+        | YulInstructionName::Gas
+        | YulInstructionName::Address
+        | YulInstructionName::SelfBalance
+        | YulInstructionName::Caller
+        | YulInstructionName::CallValue
+        | YulInstructionName::CallDataSize
+        | YulInstructionName::CodeSize
+        | YulInstructionName::ReturnDataSize
+        | YulInstructionName::ChainID
+        | YulInstructionName::BaseFee
+        | YulInstructionName::BlobBaseFee
+        | YulInstructionName::Origin
+        | YulInstructionName::GasPrice
+        | YulInstructionName::CoinBase
+        | YulInstructionName::TimeStamp
+        | YulInstructionName::Number
+        | YulInstructionName::Difficulty
+        | YulInstructionName::Prevrandao
+        | YulInstructionName::GasLimit => (0, 1),
+    }
+}
+
+/// The position of an argument that is a name in quotes, not a value
+fn name_argument(instr: &YulInstructionName) -> Option<usize> {
+    match instr {
+        YulInstructionName::DataOffset
+        | YulInstructionName::DataSize
+        | YulInstructionName::LoadImmutable
+        | YulInstructionName::LinkerSymbol => Some(0),
+        YulInstructionName::SetImmutable => Some(1),
+        _ => None,
+    }
+}
+
+#[derive(Default)]
+struct Checker {
+    // the names of the object itself, its sub objects and its data
+    data_names: HashSet<String>,
+    // innermost last; the functions of a block are visible in all of it
+    functions: Vec<HashMap<String, (usize, usize)>>,
+    // innermost last; the variables declared so far
+    variables: Vec<HashSet<String>>,
+    in_function: bool,
+    in_loop: bool,
+}
+
+/// Checks the code of the object and of all its sub objects.
+pub fn check_object(object: &Object) -> CheckResult {
+    let mut checker = Checker::default();
+    checker.data_names.insert(object.name.clone());
+    for segment in &object.inner_segments {
+        let name = match segment {
+            InnerSegment::Object(inner) => &inner.name,
+            InnerSegment::Data(name, _) => name,
+        };
+        checker.data_names.insert(name.clone());
+    }
+    checker.check_block(&object.code)?;
+    for segment in &object.inner_segments {
+        if let InnerSegment::Object(inner) = segment {
+            check_object(inner)?;
+        }
+    }
+    Ok(())
+}
+
+impl Checker {
+    fn is_variable(&self, name: &str) -> bool {
+        self.variables.iter().any(|scope| scope.contains(name))
+    }
+
+    fn function(&self, name: &str) -> Option<(usize, usize)> {
+        self.functions
+            .iter()
+            .rev()
+            .find_map(|scope| scope.get(name).copied())
+    }
+
+    fn declare(&mut self, identifiers: &[TypedIdentifier]) -> CheckResult {
+        for identifier in identifiers {
+            let name = &identifier.identifier.name;
+            if !self.variables.last_mut().unwrap().insert(name.clone()) {
+                return Err(ASTLoweringError::DuplicateVariableDefinition(format!(
+                    "Variable '{}' is already defined in this scope",
+                    name
+                )));
+            }
+            if parse_intrinsic_func_name(name).is_some() {
+                return fail(format!(
+                    "Variable '{}' has the name of a built-in function",
+                    name
+                ));
+            }
+            if self.function(name).is_some() {
+                return fail(format!("Variable '{}' has the name of a function", name));
+            }
+        }
+        Ok(())
+    }
+
+    fn check_block(&mut self, block: &Block) -> CheckResult {
+        self.open_scope(block)?;
+        self.check_statements(block)?;
+        self.close_scope();
+        Ok(())
+    }
+
+    fn open_scope(&mut self, block: &Block) -> CheckResult {
+        let mut functions = HashMap::new();
+        for stmt in &block.statements {
+            if let Statement::FunctionDefinition(function) = stmt {
+                let name = &function.name.name;
+                if parse_intrinsic_func_name(name).is_some() {
+                    return fail(format!(
+                        "Function '{}' has the name of a built-in function",
+                        name
+                    ));
+                }
+                let signature = (function.params.len(), function.returns.len());
+                if self.function(name).is_some()
+                    || functions.insert(name.clone(), signature).is_some()
+                {
+                    return fail(format!("Function '{}' is already defined", name));
+                }
+            }
+        }
+        self.functions.push(functions);
+        self.variables.push(HashSet::new());
+        Ok(())
+    }
+
+    fn close_scope(&mut self) {
+        self.functions.pop();
+        self.variables.pop();
+    }
+
+    fn check_statements(&mut self, block: &Block) -> CheckResult {
+        for stmt in &block.statements {
+            self.check_statement(stmt)?;
+        }
+        Ok(())
+    }
+
+    fn check_statement(&mut self, stmt: &Statement) -> CheckResult {
+        match stmt {
+            Statement::Assignment(assignment) => {
+                self.check_values(&assignment.value, assignment.identifiers.len())?;
+                let mut seen = HashSet::new();
+                for Identifier { name } in &assignment.identifiers {
+                    if !self.is_variable(name) {
+                        return fail(format!("Variable '{}' is not defined", name));
+                    }
+                    if !seen.insert(name) {
+                        return fail(format!("Variable '{}' is assigned twice", name));
+                    }
+                }
+                Ok(())
+            }
+            Statement::VariableDeclaration(declaration) => {
+                if let Some(value) = &declaration.value {
+                    self.check_values(value, declaration.identifiers.len())?;
+                }
+                self.declare(&declaration.identifiers)
+            }
+            Statement::If(if_stmt) => {
+                self.check_values(&if_stmt.cond, 1)?;
+                self.check_block(&if_stmt.body)
+            }
+            Statement::For(for_stmt) => {
+                // the scope of the init block extends over the whole loop
+                self.open_scope(&for_stmt.init_block)?;
+                let outer_loop = std::mem::replace(&mut self.in_loop, false);
+                self.check_statements(&for_stmt.init_block)?;
+                self.check_values(&for_stmt.condition, 1)?;
+                self.check_block(&for_stmt.post_block)?;
+                self.in_loop = true;
+                self.check_block(&for_stmt.execution_block)?;
+                self.in_loop = outer_loop;
+                self.close_scope();
+                Ok(())
+            }
+            Statement::Switch(switch) => {
+                self.check_values(&switch.condition, 1)?;
+                let (cases, default) = match &switch.opt {
+                    SwitchOptions::Cases(cases, default) => (cases.as_slice(), default.as_ref()),
+                    SwitchOptions::Default(default) => (&[][..], Some(default)),
+                };
+                let mut seen = HashSet::new();
+                for case in cases {
+                    if !seen.insert(self.check_literal(&case.case)?) {
+                        return fail("Two cases of a switch have the same value".to_string());
+                    }
+                    self.check_block(&case.body)?;
+                }
+                match default {
+                    Some(default) => self.check_block(&default.body),
+                    None => Ok(()),
+                }
+            }
+            Statement::Leave if !self.in_function => {
+                fail("'leave' is outside of a function".to_string())
+            }
+            Statement::Break if !self.in_loop => {
+                fail("'break' is outside of the body of a loop".to_string())
+            }
+            Statement::Continue if !self.in_loop => {
+                fail("'continue' is outside of the body of a loop".to_string())
+            }
+            Statement::Leave | Statement::Break | Statement::Continue | Statement::Comment => {
+                Ok(())
+            }
+            Statement::Block(block) => self.check_block(block),
+            Statement::FunctionDefinition(function) => self.check_function(function),
+            Statement::FunctionCall(call) => {
+                // values that nothing uses are dropped
+                self.check_call(call)?;
+                Ok(())
+            }
+        }
+    }
+
+    fn check_function(&mut self, function: &FunctionDefinition) -> CheckResult {
+        // a function sees no variables but its own
+        let variables = std::mem::replace(&mut self.variables, vec![HashSet::new()]);
+        let in_function = std::mem::replace(&mut self.in_function, true);
+        let in_loop = std::mem::replace(&mut self.in_loop, false);
+        self.declare(&function.params)?;
+        self.declare(&function.returns)?;
+        self.check_block(&function.body)?;
+        self.variables = variables;
+        self.in_function = in_function;
+        self.in_loop = in_loop;
+        Ok(())
+    }
+
+    /// The expression gives this many values.
+    fn check_values(&mut self, expr: &Expression, count: usize) -> CheckResult {
+        let (values, what) = match expr {
+            Expression::Identifier(Identifier { name }) => {
+                if !self.is_variable(name) {
+                    return fail(format!("Variable '{}' is not defined", name));
+                }
+                (1, name.as_str())
+            }
+            Expression::Literal(literal) => {
+                self.check_literal(literal)?;
+                (1, "literal")
+            }
+            Expression::FunctionCall(call) => (self.check_call(call)?, call.id.name.as_str()),
+        };
+        if values != count {
+            return fail(format!(
+                "'{}' gives {} value(s), but {} are needed",
+                what, values, count
+            ));
+        }
+        Ok(())
+    }
+
+    fn check_call(&mut self, call: &FunctionCall) -> CheckResult<usize> {
+        let name = &call.id.name;
+        let instr = parse_intrinsic_func_name(name);
+        let (params, returns) = match (&instr, self.function(name)) {
+            (Some(instr), _) => builtin_signature(instr),
+            (None, Some(signature)) => signature,
+            (None, None) => return fail(format!("Function '{}' is not defined", name)),
+        };
+        if call.arguments.len() != params {
+            return fail(format!(
+                "'{}' expects {} argument(s), but got {}",
+                name,
+                params,
+                call.arguments.len()
+            ));
+        }
+        let name_at = instr.as_ref().and_then(name_argument);
+        for (i, argument) in call.arguments.iter().enumerate() {
+            if name_at == Some(i) {
+                let Expression::Literal(Literal::StringLiteral(string, _)) = argument else {
+                    return fail(format!("'{}' expects a name in quotes", name));
+                };
+                let is_data = matches!(
+                    instr,
+                    Some(YulInstructionName::DataOffset | YulInstructionName::DataSize)
+                );
+                if is_data && !self.data_names.contains(&string.str) {
+                    return fail(format!("Data or object '{}' is not defined", string.str));
+                }
+            } else {
+                self.check_values(argument, 1)?;
+            }
+        }
+        Ok(returns)
+    }
+
+    /// The value of the literal
+    fn check_literal(&self, literal: &Literal) -> CheckResult<U256> {
+        match literal {
+            Literal::TrueLiteral(_) => Ok(U256::one()),
+            Literal::FalseLiteral(_) => Ok(U256::zero()),
+            Literal::HexNumberLiteral(number, _) => U256::from_str_radix(&number.hex, 16)
+                .or_else(|_| fail(format!("Number '{}' is too large", number.hex))),
+            Literal::DecimalNumberLiteral(number, _) => U256::from_str_radix(&number.dec, 10)
+                .or_else(|_| fail(format!("Number '{}' is too large", number.dec))),
+            Literal::StringLiteral(string, _) => {
+                let mut bytes = string.str.as_bytes().to_vec();
+                if bytes.len() > 32 {
+                    return fail(format!("String '{}' is longer than 32 bytes", string.str));
+                }
+                bytes.resize(32, 0);
+                Ok(U256::from_big_endian(&bytes))
+            }
+        }
+    }
+}
diff --git a/src/yul2ir/errors.rs b/src/yul2ir/errors.rs
index 091b767..5b7bfaa 100644
--- a/src/yul2ir/errors.rs
+++ b/src/yul2ir/errors.rs
@@ -9,6 +9,7 @@ pub enum ASTLoweringError {
     DuplicateVariableDefinition(String),
     UnsupportedType(String),
     FunctionReturnValueNotFound(String),
+    InvalidProgram(String),
 }
 
 impl From<inkwell::builder::BuilderError> for ASTLoweringError {
@@ -32,6 +33,9 @@ impl Display for ASTLoweringError {
             ASTLoweringError::FunctionReturnValueNotFound(msg) => {
                 write!(f, "Function return value not found: {}", msg)
             }
+            ASTLoweringError::InvalidProgram(msg) => {
+                write!(f, "Invalid program: {}", msg)
+            }
         }
     }
 }
diff --git a/src/yul2ir/mod.rs b/src/yul2ir/mod.rs
index ac2e212..35138d2 100644
--- a/src/yul2ir/mod.rs
+++ b/src/yul2ir/mod.rs
@@ -5,6 +5,7 @@ use lalrpop_util::lalrpop_mod;
 lalrpop_mod!(pub yul); // synthesized by LALRPOP
 
 pub mod ast;
+pub mod checker;
 pub mod config;
 pub mod context;
 pub mod errors;
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index ac7186b..eb6e732 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -4,6 +4,7 @@
 
 use std::rc::Rc;
 
+use crate::yul2ir::checker::check_object;
 use crate::yul2ir::context::CompileFunctionResult;
 use crate::yul2ir::utils::merge_sub_wasm_with_length_prefix;
 use crate::yul2ir::var_scope::ScopeGuard;
@@ -1104,6 +1105,7 @@ impl<'a> Yul2IRContext<'a> {
 
 impl<'a> Yul2IRContext<'a> {
     pub fn transform(&mut self) -> CompileResult<'a> {
+        check_object(self.yul_ast.as_ref().unwrap())?;
         self.scan_func_decls(&self.yul_ast.clone().unwrap())?;
         self.transform_object(&self.yul_ast.clone().unwrap(), true)?;
         self.ok_result()
-- 
2.43.0


From aeafc32bef31bc5806eac57c711ae45973d137fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:42 +0000
Subject: [PATCH 41/48] fix: declare only the functions of the objects compiled
 together

---
 src/yul2ir/transform.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index eb6e732..d70a1b6 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1432,7 +1432,12 @@ impl<'a> Yul2IRContext<'a> {
         // Recursively scan nested objects in inner_segments
         for inner_segment in object.inner_segments.iter() {
             if let InnerSegment::Object(inner_object) = inner_segment {
-                self.scan_func_decls(inner_object)?;
+                // Other objects are compiled in a context of their own
+                if object.name == inner_object.name
+                    || inner_object.name == format!("{}_deployed", &object.name)
+                {
+                    self.scan_func_decls(inner_object)?;
+                }
             }
         }
 
-- 
2.43.0


From 3633bf75d677e935182bb4790cde7b2672179e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 42/48] fix: pass on errors in arguments and inner objects
 instead of stopping

---
 src/yul2ir/instruction.rs | 100 +++++++++++++++++++-------------------
 src/yul2ir/transform.rs   |   4 +-
 2 files changed, 54 insertions(+), 50 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index dd05392..f872bf8 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -169,10 +169,13 @@ impl<'a> Yul2IRContext<'a> {
         instr: &YulInstructionName,
         args_exprs: &[Expression],
         _args_values: &[ExpectedType],
-    ) -> (
-        Option<YulLowLevelValue<'a>>,
-        Option<Vec<YulLowLevelValue<'a>>>,
-    ) {
+    ) -> Result<
+        (
+            Option<YulLowLevelValue<'a>>,
+            Option<Vec<YulLowLevelValue<'a>>>,
+        ),
+        ASTLoweringError,
+    > {
         // Special case optimization for function selector extraction: shr(224, calldataload(0))
         if matches!(instr, YulInstructionName::Shr) && args_exprs.len() == 2 {
             // shr 224 is special, it means read the last 4 bytes of second arg
@@ -190,13 +193,13 @@ impl<'a> Yul2IRContext<'a> {
                                     if let Ok(result) =
                                         self.build_call("wrapper_calldata_load_selector", &[])
                                     {
-                                        return (
+                                        return Ok((
                                             Some(YulLowLevelValue {
                                                 value_type: YulLowLevelValueType::I32,
                                                 value: result,
                                             }),
                                             None,
-                                        );
+                                        ));
                                     }
                                 }
                             }
@@ -242,24 +245,24 @@ impl<'a> Yul2IRContext<'a> {
                 };
                 if let Some(result) = result {
                     if result <= U256::from(i32::MAX) {
-                        return (
+                        return Ok((
                             Some(YulLowLevelValue {
                                 value_type: YulLowLevelValueType::I32,
                                 value: self.i32_type().const_int(result.as_u64(), false).into(),
                             }),
                             None,
-                        );
+                        ));
                     }
                     if result <= U256::from(i64::MAX) {
-                        return (
+                        return Ok((
                             Some(YulLowLevelValue {
                                 value_type: YulLowLevelValueType::I64,
                                 value: self.i64_type().const_int(result.as_u64(), false).into(),
                             }),
                             None,
-                        );
+                        ));
                     }
-                    return (
+                    return Ok((
                         Some(YulLowLevelValue {
                             value_type: YulLowLevelValueType::U256,
                             value: self
@@ -269,7 +272,7 @@ impl<'a> Yul2IRContext<'a> {
                                 .into(),
                         }),
                         None,
-                    );
+                    ));
                 }
             }
         }
@@ -297,13 +300,13 @@ impl<'a> Yul2IRContext<'a> {
                                 .borrow_mut()
                                 .build_int_s_extend(result.into_int_value(), self.u256_type(), "")
                                 .unwrap();
-                            return (
+                            return Ok((
                                 Some(YulLowLevelValue {
                                     value_type: YulLowLevelValueType::U256,
                                     value: result.into(),
                                 }),
                                 None,
-                            );
+                            ));
                         }
                     }
                 }
@@ -316,13 +319,12 @@ impl<'a> Yul2IRContext<'a> {
             let value = &args_exprs[1].clone();
 
             // Helper function to handle memory offset
-            let get_memory_offset = || -> BasicValueEnum<'a> {
-                let offset_val = self
-                    .walk_expr_with_type(yul_func_name, offset, ExpectedType::I32)
-                    .unwrap();
-                self.try_into_i32_across_int(&offset_val.get_value())
-                    .unwrap()
-                    .into()
+            let get_memory_offset = || -> Result<BasicValueEnum<'a>, ASTLoweringError> {
+                let offset_val =
+                    self.walk_expr_with_type(yul_func_name, offset, ExpectedType::I32)?;
+                Ok(self
+                    .try_into_i32_across_int(&offset_val.get_value())?
+                    .into())
             };
 
             // Helper function to handle constant value storage
@@ -352,15 +354,15 @@ impl<'a> Yul2IRContext<'a> {
             };
 
             if let Some(value) = self.fetch_not_string_literal_constant(value) {
-                let evm_mem = get_memory_offset();
+                let evm_mem = get_memory_offset()?;
                 store_constant_value(evm_mem, value);
-                return (
+                return Ok((
                     Some(YulLowLevelValue {
                         value_type: YulLowLevelValueType::I32,
                         value: self.i32_type().const_zero().into(),
                     }),
                     None,
-                );
+                ));
             }
         }
 
@@ -371,13 +373,13 @@ impl<'a> Yul2IRContext<'a> {
         {
             // TODO: Since abi_decode_address only uses the last 20 bytes of the address, we can simply return false for the iszero check
             if let YulInstructionName::IsZero = instr {
-                return (
+                return Ok((
                     Some(YulLowLevelValue {
                         value_type: YulLowLevelValueType::I32,
                         value: self.i32_type().const_zero().into(),
                     }),
                     None,
-                );
+                ));
             }
         }
 
@@ -398,8 +400,8 @@ impl<'a> Yul2IRContext<'a> {
                     })),
                 ) {
                     // Optimize by directly returning the address since only the last 20 bytes will be used
-                    let result = self.walk_identifier(&addr_iden).unwrap();
-                    return (Some(result), None);
+                    let result = self.walk_identifier(&addr_iden)?;
+                    return Ok((Some(result), None));
                 }
             }
         }
@@ -420,9 +422,8 @@ impl<'a> Yul2IRContext<'a> {
                     let lhs_bytes32_ptr = self.get_bytes32_identifier_pointer(id);
                     if let Some(lhs_bytes32_ptr) = lhs_bytes32_ptr {
                         // TODO: expect bytes32 pointer constant
-                        let rhs = self
-                            .walk_expr_with_type(yul_func_name, rhs, ExpectedType::Bytes32)
-                            .unwrap();
+                        let rhs =
+                            self.walk_expr_with_type(yul_func_name, rhs, ExpectedType::Bytes32)?;
                         let rhs = self.try_into_bytes32_pointer(&rhs.value).unwrap();
                         // call wrapper_bytes32_and
                         let result = self
@@ -433,13 +434,13 @@ impl<'a> Yul2IRContext<'a> {
                             &[lhs_bytes32_ptr.into(), rhs, result.into()],
                         )
                         .unwrap();
-                        return (
+                        return Ok((
                             Some(YulLowLevelValue {
                                 value_type: YulLowLevelValueType::Bytes32Pointer,
                                 value: result.into(),
                             }),
                             None,
-                        );
+                        ));
                     }
                 }
             }
@@ -447,8 +448,8 @@ impl<'a> Yul2IRContext<'a> {
         // In the fun_transfer function, the is_zero instruction is often used to check if an address is the zero address. Therefore, we prioritize parsing the argument as an address (bytes32) type to avoid unnecessary encoding and decoding.
         if yul_func_name.contains("fun_transfer") && matches!(instr, YulInstructionName::IsZero) {
             // Process the argument as expected bytes32 type and continue execution
-            let args = self.walk_args(yul_func_name, args_exprs, &[ExpectedType::Bytes32]);
-            return (None, Some(args));
+            let args = self.walk_args(yul_func_name, args_exprs, &[ExpectedType::Bytes32])?;
+            return Ok((None, Some(args)));
         }
 
         // Optimize mstore(64, value) and mload(64) operations to use wasm global variables
@@ -461,9 +462,11 @@ impl<'a> Yul2IRContext<'a> {
                         // mstore(64, value)
                         // call wrapper_set_memptr_global(value)
                         let value_expr = args_exprs[1].clone();
-                        let value = self
-                            .walk_expr_with_type(yul_func_name, &value_expr, ExpectedType::I32)
-                            .unwrap();
+                        let value = self.walk_expr_with_type(
+                            yul_func_name,
+                            &value_expr,
+                            ExpectedType::I32,
+                        )?;
                         let value = self.try_into_i32_value(&value.value, &value_expr).unwrap();
                         self.build_void_call("wrapper_set_memptr_global", &[value.into()])
                             .unwrap();
@@ -475,13 +478,13 @@ impl<'a> Yul2IRContext<'a> {
                         // )
                         // .unwrap();
 
-                        return (
+                        return Ok((
                             Some(YulLowLevelValue {
                                 value_type: YulLowLevelValueType::I32,
                                 value: self.i32_type().const_zero().into(),
                             }),
                             None,
-                        );
+                        ));
                     }
                 }
             }
@@ -498,19 +501,19 @@ impl<'a> Yul2IRContext<'a> {
                         // let result = self
                         //     .build_load(self.i32_type(), memptr_global.as_pointer_value(), "")
                         //     .unwrap();
-                        return (
+                        return Ok((
                             Some(YulLowLevelValue {
                                 value_type: YulLowLevelValueType::I32,
                                 value: result,
                             }),
                             None,
-                        );
+                        ));
                     }
                 }
             }
         }
 
-        (None, None)
+        Ok((None, None))
     }
 
     fn walk_args(
@@ -518,7 +521,7 @@ impl<'a> Yul2IRContext<'a> {
         yul_func_name: &str,
         args_exprs: &[Expression],
         arg_expected_types: &[ExpectedType],
-    ) -> Vec<YulLowLevelValue<'a>> {
+    ) -> Result<Vec<YulLowLevelValue<'a>>, ASTLoweringError> {
         // Evaluate each argument with its expected type, from right to left as Yul does
         let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
             .iter()
@@ -531,11 +534,10 @@ impl<'a> Yul2IRContext<'a> {
                     ExpectedType::Untyped
                 };
                 self.walk_expr_with_type(yul_func_name, arg, arg_expected_type)
-                    .unwrap()
             })
-            .collect();
+            .collect::<Result<_, _>>()?;
         args.reverse();
-        args
+        Ok(args)
     }
 
     pub(crate) fn walk_yul_instruction(
@@ -561,7 +563,7 @@ impl<'a> Yul2IRContext<'a> {
             &instr,
             args_exprs,
             &arg_expected_types,
-        );
+        )?;
 
         // First try to match and optimize common instruction patterns
         if let Some(optimized_result) = optimized_result {
@@ -571,7 +573,7 @@ impl<'a> Yul2IRContext<'a> {
         let args_low_level = if let Some(optimized_args) = optimized_args {
             optimized_args
         } else {
-            self.walk_args(yul_func_name, args_exprs, &arg_expected_types)
+            self.walk_args(yul_func_name, args_exprs, &arg_expected_types)?
         };
         let args = args_low_level
             .iter()
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index d70a1b6..e9869f4 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1473,7 +1473,9 @@ impl<'a> Yul2IRContext<'a> {
                             "{output_path}/{}_{}",
                             self.opts.main_contract_name, &inner_object.name
                         );
-                        let emited_sub_wasm = sub_ctx.emit(&inner_object.name).unwrap();
+                        let emited_sub_wasm = sub_ctx
+                            .emit(&inner_object.name)
+                            .map_err(|err| ASTLoweringError::BuilderError(err.to_string()))?;
                         // write sub contract to wasm path
                         std::fs::write(
                             format!("{}.wasm", sub_contract_base_path),
-- 
2.43.0


From 9b2c5ec919a7760819e9e408a186d4798cd0e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 43/48] fix: with all optimizers on, a constant stored at
 memory 64 must reach mload(64)

mstore(64, constant) wrote the EVM memory while mload(64) reads the wasm
global, so mstore(64, 128) p := mload(64) gave 0.
---
 src/yul2ir/instruction.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f872bf8..3f25865 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -353,7 +353,13 @@ impl<'a> Yul2IRContext<'a> {
                 }
             };
 
-            if let Some(value) = self.fetch_not_string_literal_constant(value) {
+            // with all optimizers on, the free memory pointer at 64 lives in a wasm global (see below)
+            let is_memptr_global = self.opts.enable_all_optimizers
+                && self.matches_constant_literal(offset, U256::from(64));
+            let value_constant = self
+                .fetch_not_string_literal_constant(value)
+                .filter(|_| !is_memptr_global);
+            if let Some(value) = value_constant {
                 let evm_mem = get_memory_offset()?;
                 store_constant_value(evm_mem, value);
                 return Ok((
-- 
2.43.0


From f579bf1f35ebb19112518bebbd7d1851e01547cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 44/48] fix: take the results of functions with several results
 as words whatever their annotation

With --default_ret_type bytes32 annotated results (-> a:u256, b:u256) brought the compiler down.
---
 src/yul2ir/transform.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index e9869f4..267c0e0 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -338,12 +338,7 @@ impl<'a> Yul2IRContext<'a> {
                     .returns
                     .clone()
                     .into_iter()
-                    .map(|x| {
-                        self.parse_ty_name_or_default(
-                            &x.type_name,
-                            self.default_func_return_element_type(),
-                        )
-                    })
+                    .map(|_x| self.default_func_return_element_type())
                     .collect::<Vec<BasicTypeEnum<'a>>>()
             }
             _ => {
@@ -636,12 +631,7 @@ impl<'a> Yul2IRContext<'a> {
                         .returns
                         .clone()
                         .into_iter()
-                        .map(|x| {
-                            self.parse_ty_name_or_default(
-                                &x.type_name,
-                                self.default_func_return_element_type(),
-                            )
-                        })
+                        .map(|_x| self.default_func_return_element_type())
                         .collect::<Vec<BasicTypeEnum<'a>>>()
                 }
                 _ => {
-- 
2.43.0


From e8522f93e17f7ff3aa4746f367558a2994ae84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 45/48] fix: hold whole words in variables of type u256

A variable declared as u256 from a narrow value, as let b:u256 := gas(), kept its width and cut later
values.
---
 src/yul2ir/transform.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 267c0e0..d4a914c 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -515,17 +515,14 @@ impl<'a> Yul2IRContext<'a> {
             None => None,
         };
 
-        // A variable without a type holds a whole word, later values can be wider than the first one
+        // A variable without a type or of type u256 holds a whole word, later values can be wider than
+        // the first one
+        let is_word = var_decl.identifiers[0].type_name.is_none() || ty == self.u256_type().into();
         let init_val_low_level = match init_val_low_level {
-            Some(val)
-                if var_decl.identifiers[0].type_name.is_none()
-                    && val.get_value().is_int_value() =>
-            {
-                Some(YulLowLevelValue {
-                    value_type: YulLowLevelValueType::U256,
-                    value: self.int_as_u256(val.get_value().into_int_value())?.into(),
-                })
-            }
+            Some(val) if is_word && val.get_value().is_int_value() => Some(YulLowLevelValue {
+                value_type: YulLowLevelValueType::U256,
+                value: self.int_as_u256(val.get_value().into_int_value())?.into(),
+            }),
             val => val,
         };
 
-- 
2.43.0


From 0e785d19ccc229d392b17e9a22719fb0b7c524ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 46/48] fix: unify only revert functions without parameters and
 results

The arguments of the others must be evaluated and their results have a type.
---
 src/yul2ir/function_deduplicator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yul2ir/function_deduplicator.rs b/src/yul2ir/function_deduplicator.rs
index e99c334..eb77fd2 100644
--- a/src/yul2ir/function_deduplicator.rs
+++ b/src/yul2ir/function_deduplicator.rs
@@ -11,6 +11,10 @@ use std::rc::Rc;
 
 impl<'a> Yul2IRContext<'a> {
     pub fn is_revert_zero_function(&self, function: &FunctionDefinition) -> bool {
+        // a call must still evaluate its arguments, and give results of the declared types
+        if !function.params.is_empty() || !function.returns.is_empty() {
+            return false;
+        }
         if function.body.statements.len() != 1 {
             return false;
         }
-- 
2.43.0


From 9b4b594f15b308a483100fb160eababb2fa4383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 47/48] fix: keep variables declared with linkersymbol that are
 used

Only functions were analysed, so that such variables of the main code were always dropped; variables
that are only assigned were dropped and the assignment then failed.
---
 src/yul2ir/transform.rs |  3 ++-
 src/yul2ir/usage.rs     | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index d4a914c..ab02240 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -494,7 +494,7 @@ impl<'a> Yul2IRContext<'a> {
                 .is_some()
             {
                 let usage_info = self.get_variable_usage(yul_func_name, &name);
-                if usage_info.is_none() || usage_info.unwrap().reads == 0 {
+                if usage_info.map_or(true, |info| info.reads == 0 && info.writes <= 1) {
                     // the variable not used, so we can optimize this variable declaration
                     return self.ok_result();
                 }
@@ -1695,6 +1695,7 @@ impl<'a> Yul2IRContext<'a> {
 
         let _scope_guard = ScopeGuard::new(self);
 
+        self.analyze_code_usage(&qualifier_func_name, &object.code);
         for stmt in &object.code.statements {
             if let Err(err) = self.walk_stmt(&qualifier_func_name, stmt) {
                 return (Err(err), qualifier_func_name);
diff --git a/src/yul2ir/usage.rs b/src/yul2ir/usage.rs
index 021500e..1fcb3d9 100644
--- a/src/yul2ir/usage.rs
+++ b/src/yul2ir/usage.rs
@@ -111,15 +111,20 @@ impl<'a> Yul2IRContext<'a> {
     #[allow(unused)]
     pub fn analyze_function_usage(&self, func_def: &FunctionDefinition) {
         let func_qualifier = self.get_func_decl_qualifier_name(func_def);
+        self.analyze_code_usage(&func_qualifier, &func_def.body);
+    }
+
+    /// Variable usage in the body of a function or in the main code of an object
+    pub fn analyze_code_usage(&self, func_qualifier: &str, code: &Block) {
         // Avoid re-analyzing if already done (e.g., if called multiple times)
-        if self.variable_usage.borrow().contains_key(&func_qualifier) {
+        if self.variable_usage.borrow().contains_key(func_qualifier) {
             return;
         }
         let mut usage_map = HashMap::new();
-        self.analyze_block_usage(&func_def.body, &mut usage_map);
+        self.analyze_block_usage(code, &mut usage_map);
         self.variable_usage
             .borrow_mut()
-            .insert(func_qualifier, usage_map.clone());
+            .insert(func_qualifier.to_string(), usage_map);
     }
 
     #[allow(unused)]
-- 
2.43.0


From 15f4793779cce9e9209a8dd25bfe7d3a79997b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 48/48] fix: give the main code a name no function can have

A function called init was mixed up with the main code of its object.
---
 src/yul2ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index ab02240..45bc04c 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1669,7 +1669,7 @@ impl<'a> Yul2IRContext<'a> {
     fn transform_init_func(&self, object: &Object) -> (CompileFunctionResult<'a>, String) {
         let module_name = self.current_module_name.borrow().clone();
         let contract_name = self.current_contract_name.borrow().clone();
-        let qualifier_func_name = format!("{}.{}.init", module_name, contract_name,);
+        let qualifier_func_name = format!("{}.{}.<init>", module_name, contract_name,);
 
         let params_meta_types: Vec<BasicMetadataTypeEnum<'a>> = vec![];
         let func_ty: FunctionType<'a> = self
-- 
2.43.0

