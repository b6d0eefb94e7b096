From f9dc6788e7849ae55dfa152d16f363f9dcc2163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:33 +0000
Subject: [PATCH 01/32] fix: reference never delegates traps raised in M-mode

An ECALL from M-mode with medeleg[8] set reported cause 0 instead of 11, and
a page fault of an M-mode access with MPRV set was delivered to S-mode when
the fault was delegated.
---
 diff/ref.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index e7e6fe1..92dbd34 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -305,7 +305,8 @@ void RefCpu::exception(uint32_t trap_val) {
 
   uint32_t mstatus = state.csr[csr_mstatus];
   uint32_t sstatus = state.csr[csr_sstatus];
-  uint32_t medeleg = state.csr[csr_medeleg];
+  // Traps raised in M-mode are never delegated to a less privileged mode.
+  uint32_t medeleg = privilege == 3 ? 0 : state.csr[csr_medeleg];
   uint32_t mtvec = state.csr[csr_mtvec];
   uint32_t stvec = state.csr[csr_stvec];
 
-- 
2.43.0


From ba8ea83c2da7940b607bb7802a42a9be38c522f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:33 +0000
Subject: [PATCH 02/32] fix: reference honours delegation of illegal
 instructions

Reading the time CSR from S or U mode trapped to M-mode even with medeleg[2]
set, unlike the core.
---
 diff/ref.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 92dbd34..ce4c4c6 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -314,6 +314,7 @@ void RefCpu::exception(uint32_t trap_val) {
   // STrap 处理)
   // 注意：为了代码复用，这里其实可以简化，但为了保持你原有逻辑结构：
 
+  bool medeleg_illegal = (medeleg >> 2) & 1;
   bool medeleg_U_ecall = (medeleg >> 8) & 1;
   bool medeleg_S_ecall = (medeleg >> 9) & 1;
   bool medeleg_page_fault_inst = (medeleg >> 12) & 1;
@@ -330,7 +331,8 @@ void RefCpu::exception(uint32_t trap_val) {
       (ecall && (privilege == 3)) ||
       (page_fault_inst && !medeleg_page_fault_inst) ||
       (page_fault_load && !medeleg_page_fault_load) ||
-      (page_fault_store && !medeleg_page_fault_store) || illegal_exception;
+      (page_fault_store && !medeleg_page_fault_store) ||
+      (illegal_exception && !medeleg_illegal);
 
   bool STrap = S_software_interrupt || S_timer_interrupt ||
                S_external_interrupt ||
@@ -338,7 +340,8 @@ void RefCpu::exception(uint32_t trap_val) {
                (ecall && (privilege == 1) && medeleg_S_ecall) ||
                (page_fault_inst && medeleg_page_fault_inst) ||
                (page_fault_load && medeleg_page_fault_load) ||
-               (page_fault_store && medeleg_page_fault_store);
+               (page_fault_store && medeleg_page_fault_store) ||
+               (illegal_exception && medeleg_illegal);
 
   if (MTrap) {
     state.csr[csr_mepc] = state.pc;
@@ -424,6 +427,8 @@ void RefCpu::exception(uint32_t trap_val) {
       exception_code = 13;
     else if (page_fault_store && medeleg_page_fault_store)
       exception_code = 15;
+    else if (illegal_exception && medeleg_illegal)
+      exception_code = 2;
 
     cause |= exception_code;
     state.csr[csr_scause] = cause;
-- 
2.43.0


From 59c67c42c40c2cce27c10438c0a38b0e5bbec688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:33 +0000
Subject: [PATCH 03/32] fix: reference reports the right cause when an
 interrupt meets an ECALL

A pending S-mode interrupt at a delegated ECALL was reported with the ECALL
code and the interrupt bit set, and an ECALL going to M-mode overrode it.
---
 diff/ref.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index ce4c4c6..72896c0 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -299,7 +299,16 @@ void RefCpu::exception(uint32_t trap_val) {
   uint32_t next_pc = state.pc + 4;
 
   // 重新获取当前状态（因为exec可能没传进来最新的）
-  bool ecall = (Instruction == INST_ECALL);
+  // An interrupt is taken before the current instruction, whose own trap must
+  // not influence target mode, cause or trap value.
+  const bool interrupt = M_software_interrupt || M_timer_interrupt ||
+                         M_external_interrupt || S_software_interrupt ||
+                         S_timer_interrupt || S_external_interrupt;
+  if (interrupt) {
+    page_fault_inst = false;
+    trap_val = 0;
+  }
+  bool ecall = !interrupt && (Instruction == INST_ECALL);
   bool mret = (Instruction == INST_MRET);
   bool sret = (Instruction == INST_SRET);
 
-- 
2.43.0


From e3d268a730e277e2b586fee4401fed3231fe8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:33 +0000
Subject: [PATCH 04/32] fix: reference uses fresh state for instruction page
 faults

A fetch fault right after an ECALL was reported as an ECALL, and one right
after an interrupt as that interrupt, because the previous instruction word
and interrupt flags were reused.
---
 diff/ref.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 72896c0..62f6e99 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -276,7 +276,10 @@ void RefCpu::exec() {
     page_fault_inst = !va2pa_fix(p_addr, state.pc, 0);
 
     if (page_fault_inst) {
-      exception(state.pc);
+      // No instruction was fetched: do not let the previous one, or interrupt
+      // flags computed for it, decide the trap.
+      Instruction = 0;
+      RISCV();
       return;
     } else {
       Instruction = load_word(p_addr);
-- 
2.43.0


From 328de94dcee4e49aeedccb69bc29bd77e42ff7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:33 +0000
Subject: [PATCH 05/32] fix: reference performs CSRRWI with a zero immediate

csrwi csr, 0 left the CSR unchanged.
---
 diff/ref.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 62f6e99..237d855 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -878,7 +878,7 @@ void RefCpu::RV32CSR() {
 
   uint32_t reg_rdata1 = state.gpr[rs1];
 
-  bool we = funct3 == 1 || rs1 != 0;
+  bool we = (funct3 & 0b11) == 1 || rs1 != 0;
   bool re = funct3 != 1 || rd != 0;
   uint32_t wcmd = funct3 & 0b11;
   uint32_t wdata;
-- 
2.43.0


From 589a99d9b818d97919bb51193857b5b336b6165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:33 +0000
Subject: [PATCH 06/32] fix: reference writes mip and sip through their masks

The CSR index was compared with CSR numbers, so writes to sip never reached
mip and were lost, and mip writes were not masked.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 237d855..6a8e5bb 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -954,13 +954,13 @@ void RefCpu::RV32CSR() {
         // sie 始终是 mie 的影子 (masked by 0x333)
         state.csr[csr_sie] = state.csr[csr_mie] & sie_mask;
 
-      } else if (csr_idx == number_mip || csr_idx == number_sip) {
+      } else if (csr_idx == csr_mip || csr_idx == csr_sip) {
         uint32_t mip_mask =
             0x00000bbb; // MEIP(11), SEIP(9), MTIP(7), STIP(5), MSIP(3), SSIP(1)
         uint32_t sip_mask =
             0x00000333; // SEIP(9), UEIP(8), STIP(5), UTIP(4), SSIP(1), USIP(0)
 
-        if (csr_idx == number_sip) {
+        if (csr_idx == csr_sip) {
           // sip: 0x333 (Include User-Level Interrupt bits)
           state.csr[csr_mip] =
               (state.csr[csr_mip] & ~sip_mask) | (csr_wdata & sip_mask);
-- 
2.43.0


From 9f15596aeb85b1bcdf1c545265e16dcbfd5627ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:33 +0000
Subject: [PATCH 07/32] fix: reference faults on S-mode fetch from a user
 superpage

The 4 KiB path already rejects it irrespective of SUM.
---
 diff/ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 6a8e5bb..f9c5e33 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1781,8 +1781,8 @@ bool RefCpu::va2pa(uint32_t &p_addr, uint32_t v_addr, uint32_t type) {
     bool is_user_page = (pte1 & PTE_U) != 0;
     if (eff_priv == 0 && !is_user_page)
       return false; // U-mode 访问 S-page -> Fault
-    if (eff_priv == 1 && is_user_page && !sum)
-      return false; // S-mode 访问 U-page 且 SUM=0 -> Fault
+    if (eff_priv == 1 && is_user_page && (type == 0 || !sum))
+      return false; // S-mode 取指 U-page, 或访问 U-page 且 SUM=0 -> Fault
 
     // 对齐检查 (Superpage 要求 PPN[0] 为 0)
     // PPN[0] 对应 PTE 的 [19:10] 位
-- 
2.43.0


From b4646865a7ea602884e93005734bdde1861a296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:15:13 +0000
Subject: [PATCH 08/32] fix: reference delivers RISC-V NaNs and saturated
 conversions

The bundled SoftFloat library follows x86: NaN results kept payloads or were
0xffc00000, and out-of-range conversions returned 0x80000000 or 0xffffffff.
---
 diff/ref.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index f9c5e33..4148621 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -103,13 +103,33 @@ static inline float32_t to_f32(uint32_t v) {
   return f;
 }
 
-static inline uint32_t from_f32(float32_t f) { return f.v; }
-
 static inline bool is_nan(uint32_t v) {
   // 指数全1 (0xFF)，尾数不为0
   return ((v & 0x7F800000) == 0x7F800000) && ((v & 0x007FFFFF) != 0);
 }
 
+// The bundled SoftFloat is built with x86 NaN and conversion rules; RISC-V
+// delivers the canonical NaN and saturates conversions.
+static inline uint32_t from_f32(float32_t f) {
+  return is_nan(f.v) ? 0x7fc00000u : f.v;
+}
+
+static inline uint32_t f32_to_i32_riscv(float32_t f) {
+  softfloat_exceptionFlags = 0;
+  const uint32_t res = (uint32_t)f32_to_i32(f, softfloat_roundingMode, true);
+  if (!(softfloat_exceptionFlags & softfloat_flag_invalid))
+    return res;
+  return (!is_nan(f.v) && (f.v >> 31)) ? 0x80000000u : 0x7fffffffu;
+}
+
+static inline uint32_t f32_to_ui32_riscv(float32_t f) {
+  softfloat_exceptionFlags = 0;
+  const uint32_t res = (uint32_t)f32_to_ui32(f, softfloat_roundingMode, true);
+  if (!(softfloat_exceptionFlags & softfloat_flag_invalid))
+    return res;
+  return (!is_nan(f.v) && (f.v >> 31)) ? 0u : 0xffffffffu;
+}
+
 static inline bool is_snan(uint32_t v) {
   // 是NaN，且尾数最高位(bit 22)为0
   return is_nan(v) && !((v >> 22) & 1);
@@ -183,7 +203,7 @@ uint32_t f32_max_riscv(uint32_t a, uint32_t b) {
 }
 
 uint32_t f32_classify(float32_t f) {
-  uint32_t bits = from_f32(f);
+  uint32_t bits = f.v;
   uint32_t sign = (bits >> 31) & 1;
   uint32_t exp = (bits >> 23) & 0xFF;
   uint32_t mant = bits & 0x7FFFFF;
@@ -770,9 +790,9 @@ void RefCpu::RV32Zfinx() {
     // 转换 (Convert)
     case 0x60: // FCVT.W.S (Float to Int32)
       if (rs2 == 0)
-        i_res = (uint32_t)f32_to_i32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_i32_riscv(f_rs1);
       else if (rs2 == 1)
-        i_res = f32_to_ui32(f_rs1, softfloat_roundingMode, true);
+        i_res = f32_to_ui32_riscv(f_rs1);
       else
         illegal_exception = true;
       break;
-- 
2.43.0


From 38177edb926a1e59da33d2fd1d27df87df41f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:15:13 +0000
Subject: [PATCH 09/32] fix: reference LR.W and failed SC.W have no store side
 effects

They re-ran the device side effects of the previous store, for instance
printing its character on the serial port again.
---
 diff/ref.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 4148621..3c86107 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1691,6 +1691,9 @@ void RefCpu::store_word(uint32_t addr, uint32_t data) {
 }
 
 void RefCpu::store_data() {
+  if (!state.store) {
+    return; // LR.W or failed SC.W: nothing is written
+  }
 
   uint32_t p_addr = state.store_addr;
   if (state.store && state.reserve_valid && state.reserve_addr == p_addr) {
-- 
2.43.0


From cf489f106a44813ee359b23dd778f37684bd4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:17:58 +0000
Subject: [PATCH 10/32] fix: floating-point unit delivers RISC-V NaNs and
 saturated conversions

The bundled SoftFloat library follows x86: NaN results kept payloads or were
0xffc00000, and out-of-range conversions returned 0x80000000 or 0xffffffff.
---
 back-end/Exu/include/FPU.h | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/back-end/Exu/include/FPU.h b/back-end/Exu/include/FPU.h
index 1157f1b..6c22c82 100644
--- a/back-end/Exu/include/FPU.h
+++ b/back-end/Exu/include/FPU.h
@@ -41,6 +41,32 @@ protected:
     return ((v & 0x7F800000u) == 0x7F800000u) && ((v & 0x007FFFFFu) != 0);
   }
 
+  // The bundled SoftFloat is built with x86 NaN and conversion rules; RISC-V
+  // delivers the canonical NaN and saturates conversions.
+  static inline uint32_t canonical(float32_t f) {
+    return is_nan_u32(f.v) ? 0x7fc00000u : f.v;
+  }
+
+  static inline uint32_t f32_to_i32_riscv(float32_t f) {
+    softfloat_exceptionFlags = 0;
+    const uint32_t res = static_cast<uint32_t>(
+        f32_to_i32(f, softfloat_roundingMode, true));
+    if (!(softfloat_exceptionFlags & softfloat_flag_invalid)) {
+      return res;
+    }
+    return (!is_nan_u32(f.v) && (f.v >> 31)) ? 0x80000000u : 0x7fffffffu;
+  }
+
+  static inline uint32_t f32_to_ui32_riscv(float32_t f) {
+    softfloat_exceptionFlags = 0;
+    const uint32_t res = static_cast<uint32_t>(
+        f32_to_ui32(f, softfloat_roundingMode, true));
+    if (!(softfloat_exceptionFlags & softfloat_flag_invalid)) {
+      return res;
+    }
+    return (!is_nan_u32(f.v) && (f.v >> 31)) ? 0u : 0xffffffffu;
+  }
+
   static inline uint32_t f32_classify(float32_t f) {
     uint32_t bits = f.v;
     uint32_t sign = (bits >> 31) & 1u;
@@ -147,9 +173,9 @@ protected:
         case FCVT_W_S: {
             uint32_t rs2_sel = inst.imm & 0x1F;
             if (rs2_sel == 0) {
-              inst.result = static_cast<uint32_t>(f32_to_i32(a, softfloat_roundingMode, true));
+              inst.result = f32_to_i32_riscv(a);
             } else if (rs2_sel == 1) {
-              inst.result = f32_to_ui32(a, softfloat_roundingMode, true);
+              inst.result = f32_to_ui32_riscv(a);
             } else {
               assert(0);
             }
@@ -169,17 +195,17 @@ protected:
         default:
           switch (inst.func7 >> 2) {
         case FADD:
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical(f32_add(a,b));
             break;
         case FSUB:
             b.v ^= 0x80000000;
-            inst.result = f32_add(a,b).v;
+            inst.result = canonical(f32_add(a,b));
             break;
         case FMUL:
-            inst.result = f32_mul(a,b).v;
+            inst.result = canonical(f32_mul(a,b));
             break;
         case FDIV:
-            inst.result = f32_div(a,b).v;
+            inst.result = canonical(f32_div(a,b));
             break;
         default:
             switch (inst.func7) {
@@ -188,7 +214,7 @@ protected:
               if (rs2_sel != 0) {
                 assert(0);
               }
-              inst.result = f32_sqrt(a).v;
+              inst.result = canonical(f32_sqrt(a));
               break;
             }
             case FSGNJ:
@@ -239,7 +265,7 @@ protected:
         break;
     }
     default: {
-        inst.result = f32_add(a,b).v;
+        inst.result = canonical(f32_add(a,b));
         break;
     }
     }
-- 
2.43.0


From e8faa5db1d10b120456b6e127e01a690e69d15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:59 +0000
Subject: [PATCH 11/32] fix: drop every in-flight operation of a functional
 unit on a full flush

The comparison with the all-ones mask was done after integer promotion, so
with a mask narrower than int it never matched and operations without a
pending branch survived a flush, completing later as somebody else's result.
---
 back-end/Exu/include/AbstractFU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/include/AbstractFU.h b/back-end/Exu/include/AbstractFU.h
index 6065305..8a2429f 100644
--- a/back-end/Exu/include/AbstractFU.h
+++ b/back-end/Exu/include/AbstractFU.h
@@ -117,7 +117,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush) {
-      if (in.flush_mask == ~wire<BR_MASK_WIDTH>(0)) {
+      if (in.flush_mask == static_cast<wire<BR_MASK_WIDTH>>(~wire<BR_MASK_WIDTH>(0))) {
         pipeline_1.clear();
       } else {
         auto it = pipeline_1.begin();
@@ -203,7 +203,7 @@ public:
 
   void comb_ctrl() override {
     if (in.flush && busy_1 &&
-        (in.flush_mask == ~wire<BR_MASK_WIDTH>(0) ||
+        (in.flush_mask == static_cast<wire<BR_MASK_WIDTH>>(~wire<BR_MASK_WIDTH>(0)) ||
          (current_inst_1.br_mask & in.flush_mask) != 0)) {
       busy_1 = false;
       done_cycle_1 = 0;
-- 
2.43.0


From d9bb8607ddce04b926b0122386ed6bfcd4fa383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:37 +0000
Subject: [PATCH 12/32] fix: delay an FP wakeup that collides with a divider
 wakeup on the same port

DIV and FP share one delayed wakeup channel. When both countdowns ended in the
same cycle one announcement overwrote the other, and instructions waiting for
the lost one never issued.
---
 back-end/Isu.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/back-end/Isu.cpp b/back-end/Isu.cpp
index 48ab793..c5cc1a7 100644
--- a/back-end/Isu.cpp
+++ b/back-end/Isu.cpp
@@ -242,7 +242,7 @@ void Isu::comb_calc_latency_next() {
     }
   }
 
-  // FP 槽位：与 DIV 相同。
+  // FP 槽位：与 DIV 相同；本拍因端口通道被 DIV 占用而未广播的条目保留到下一拍。
   for (int i = 0; i < ISU_FP_WAKE_SLOT_NUM; i++) {
     const auto &cur = fp_wake_slots[i];
     auto &nxt = fp_wake_slots_1[i];
@@ -254,7 +254,11 @@ void Isu::comb_calc_latency_next() {
       nxt = cur;
       nxt.countdown = cur.countdown - 1;
     } else {
-      nxt = {};
+      bool sent = false;
+      for (const auto &w : out.iss_awake->wake) {
+        sent |= w.valid && w.preg == cur.dest_preg;
+      }
+      nxt = sent ? IterWakeEntry{} : cur;
     }
   }
 
@@ -404,7 +408,9 @@ void Isu::comb_awake() {
       int port = get_port_for_unit(OP_MASK_FP, i);
       int ch = delayed_ch_map[port];
       Assert(ch != -1);
-      Assert(!out.iss_awake->wake[ch].valid && "Delayed writeback collision");
+      if (out.iss_awake->wake[ch].valid) {
+        continue; // 同端口 DIV 同拍唤醒，FP 推迟一拍
+      }
       out.iss_awake->wake[ch].valid = true;
       out.iss_awake->wake[ch].preg = slot.dest_preg;
     }
-- 
2.43.0


From 11ee64cbf21e4f090b9ec4841870d7a59d4e1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:30:22 +0000
Subject: [PATCH 13/32] fix: never delegate an exception taken in M-mode in the
 CSR unit

---
 back-end/Exu/Csr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index dc3ec4d..c3f3895 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -119,7 +119,9 @@ void Csr::comb_exception() {
   uint32_t mie_reg = CSR_RegFile[csr_mie];
   uint32_t mip_reg = CSR_RegFile[csr_mip];
   uint32_t mideleg = CSR_RegFile[csr_mideleg];
-  uint32_t medeleg = CSR_RegFile[csr_medeleg];
+  // M 态产生的异常从不委托给 S 态
+  uint32_t medeleg =
+      privilege == RISCV_MODE_M ? 0u : (uint32_t)CSR_RegFile[csr_medeleg];
   uint32_t mtvec = CSR_RegFile[csr_mtvec];
   uint32_t stvec = CSR_RegFile[csr_stvec];
 
-- 
2.43.0


From f9db032c4ad2b4930d80ce55d14c390b3ace5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:30:22 +0000
Subject: [PATCH 14/32] fix: mask the mode bits of the trap vector for
 exceptions in vectored mode

---
 back-end/Exu/Csr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index c3f3895..15fa3fd 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -196,7 +196,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_mtvec] & 0xfffffffc;
     }
 
     mstatus = (mstatus & ~MSTATUS_MPP) | ((privilege & 0x3) << 11);
@@ -249,7 +249,7 @@ void Csr::comb_exception() {
       out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
       out.csr2front->trap_pc += 4 * (cause & 0x7fffffff);
     } else {
-      out.csr2front->trap_pc = CSR_RegFile[csr_stvec];
+      out.csr2front->trap_pc = CSR_RegFile[csr_stvec] & 0xfffffffc;
     }
 
     // 更新 sstatus
-- 
2.43.0


From 320a551a5f277222b10bd427bea3298b3c79ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:30:22 +0000
Subject: [PATCH 15/32] fix: drop a pending CSR write when its instruction is
 flushed

---
 back-end/Exu/Csr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/back-end/Exu/Csr.cpp b/back-end/Exu/Csr.cpp
index 15fa3fd..d0605c5 100644
--- a/back-end/Exu/Csr.cpp
+++ b/back-end/Exu/Csr.cpp
@@ -394,6 +394,9 @@ void Csr::comb_csr_write() {
       CSR_RegFile_1[cvt_number_to_csr(csr_idx)] = csr_wdata;
     }
 
+    csr_we_1 = false;
+  } else if (in.rob_bcast->flush) {
+    // 已执行但未提交的 CSR 写随流水线冲刷一起丢弃
     csr_we_1 = false;
   }
 }
-- 
2.43.0


From a5592051585adde59dcc35fca601f85586c83fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:35:03 +0000
Subject: [PATCH 16/32] fix: keep a fence at the ROB head until committed
 stores have drained

---
 back-end/Rob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 2250455..5021e88 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -324,7 +324,7 @@ void Rob::comb_commit() {
         }
         const auto &uop = entry[i][deq_ptr].uop;
         const bool ready = rob_is_complete(uop);
-        if (ready && !rob_is_flush_inst(uop)) {
+        if (ready && !rob_is_flush_inst(uop) && !rob_is_fence_inst(uop)) {
           single_commit = true;
           single_idx = i;
           progress_single_commit = true;
-- 
2.43.0


From 6a434ee9ed8180d916c3c81e7e8c418b4c91b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:11:03 +0000
Subject: [PATCH 17/32] fix: keep stores merged into a waiting refill visible
 to forwarded loads

---
 MemSubSystem/RealDcache.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index 8186ada..c14d9c4 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -513,6 +513,17 @@ void RealDcache::stage2_comb() {
                 fill_req_merge_wires[i].word_off = f.word_off;
                 fill_req_merge_wires[i].data = slot.data;
                 fill_req_merge_wires[i].strb = slot.strb;
+                // Keep the MSHR entry in step: while the fill waits for a WB
+                // slot, loads are still forwarded from fill_req.
+                out.dcache2mshr->mshr_req[iidx].valid = true;
+                out.dcache2mshr->mshr_req[iidx].addr = slot.addr;
+                out.dcache2mshr->mshr_req[iidx].is_store = true;
+                out.dcache2mshr->mshr_req[iidx].data = slot.data;
+                out.dcache2mshr->mshr_req[iidx].strb = slot.strb;
+#if !BSD_CONFIG
+                out.dcache2mshr->mshr_req[iidx].lsu_origin =
+                    l1d_perf_is_lsu_req(slot.req_id);
+#endif
             }
 
             resp.valid  = true;
-- 
2.43.0


From 2687135158cd3714e7d20a244850634d4f0a98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:56 +0000
Subject: [PATCH 18/32] fix: keep earlier waiters when another routed request
 has to wait

The wait flags of the page-walk requesters were overwritten whenever a
different requester was told to wait, so the earlier one missed its
wake-up on the next refill.
---
 MemSubSystem/MemRouteBlock.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 256c7b3..8855959 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -73,9 +73,9 @@ void MemRouteBlock::comb_response() {
         out.wakeup->itlb = (owner == Owner::PTW_ITLB);
         out.wakeup->walk = (owner == Owner::PTW_WALK);
       } else {
-        nxt.ptw_wait.dtlb = (owner == Owner::PTW_DTLB);
-        nxt.ptw_wait.itlb = (owner == Owner::PTW_ITLB);
-        nxt.ptw_wait.walk = (owner == Owner::PTW_WALK);
+        nxt.ptw_wait.dtlb |= (owner == Owner::PTW_DTLB);
+        nxt.ptw_wait.itlb |= (owner == Owner::PTW_ITLB);
+        nxt.ptw_wait.walk |= (owner == Owner::PTW_WALK);
       }
     }
   }
-- 
2.43.0


From 4b56d165bc250388f0c16c0b358bbc0f5a3845e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:04:41 +0000
Subject: [PATCH 19/32] fix: keep the pending claim when another interrupt
 source is completed

The reference stored any other id written to the PLIC claim register as
its content, so a later claim returned an id that was never pending.
---
 diff/ref.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/diff/ref.cpp b/diff/ref.cpp
index 3c86107..fa464ad 100644
--- a/diff/ref.cpp
+++ b/diff/ref.cpp
@@ -1740,10 +1740,15 @@ void RefCpu::store_data() {
                (load_word(UART_ADDR_BASE) & 0xfff0ffffu) | 0x00030000u);
   }
 
-  if (p_addr == PLIC_CLAIM_ADDR && (state.store_data & 0x000000ff) == 0xa) {
-    store_word(PLIC_CLAIM_ADDR, 0x0);
-    state.csr[csr_mip] = state.csr[csr_mip] & ~MIP_MEIP;
-    state.csr[csr_sip] = state.csr[csr_mip] & 0x00000333u;
+  if (p_addr == PLIC_CLAIM_ADDR) {
+    if ((state.store_data & 0x000000ff) == 0xa) {
+      store_word(PLIC_CLAIM_ADDR, 0x0);
+      state.csr[csr_mip] = state.csr[csr_mip] & ~MIP_MEIP;
+      state.csr[csr_sip] = state.csr[csr_mip] & 0x00000333u;
+    } else {
+      // Completing another source leaves the pending one to be claimed.
+      store_word(PLIC_CLAIM_ADDR, old_data);
+    }
   }
 
   state.store_data = state.store_data << offset * 8;
-- 
2.43.0


From 950b18978baba017aa535198bd54b6338ba26b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:07:32 +0000
Subject: [PATCH 20/32] fix: reject unreadable images and checkpoints in
 release builds

The loaders reported missing, truncated, oversized or mismatching files
through Assert(), which the default build compiles out. A truncated
checkpoint then looped forever and an oversized image overran RAM.
---
 back-end/BackTop.cpp | 64 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/back-end/BackTop.cpp b/back-end/BackTop.cpp
index 03a44bd..b335508 100644
--- a/back-end/BackTop.cpp
+++ b/back-end/BackTop.cpp
@@ -11,8 +11,10 @@
 
 #include <array>
 #include <cstdint>
+#include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <iostream>
 #include <vector>
 #include <zlib.h>
 
@@ -419,11 +421,20 @@ template <typename T> void gz_write_pod(gzFile file, const T &data) {
   }
 }
 
-template <typename T> void gz_read_pod(gzFile file, T &data) {
-  if (gzread(file, &data, sizeof(T)) != sizeof(T)) {
-    Assert(0 && "Error reading data from gzip file.");
+namespace {
+// Loading must fail in release builds too, where Assert() is compiled out.
+void load_require(bool ok, const char *msg) {
+  if (!ok) {
+    std::cerr << msg << std::endl;
+    std::exit(1);
   }
 }
+} // namespace
+
+template <typename T> void gz_read_pod(gzFile file, T &data) {
+  load_require(gzread(file, &data, sizeof(T)) == sizeof(T),
+               "Error reading data from gzip file.");
+}
 
 namespace {
 constexpr uint64_t kCkptSimpointRamBytes = RAM_SIZE;
@@ -457,12 +468,10 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
     const unsigned int chunk = static_cast<unsigned int>(
         remain > kGzChunkSize ? kGzChunkSize : remain);
     const int read_bytes = gzread(file, dst, chunk);
-    if (read_bytes < 0) {
-      Assert(0 && "Error: gzread failed during checkpoint restore.");
-    }
-    if (read_bytes == 0) {
-      Assert(0 && "Error: Unexpected EOF during checkpoint restore.");
-    }
+    load_require(read_bytes >= 0,
+                 "Error: gzread failed during checkpoint restore.");
+    load_require(read_bytes > 0,
+                 "Error: Unexpected EOF during checkpoint restore.");
     dst += read_bytes;
     remain -= static_cast<uint64_t>(read_bytes);
   }
@@ -472,20 +481,16 @@ void gz_read_exact(gzFile file, uint8_t *dst, uint64_t total_bytes) {
 
 void BackTop::load_image(const std::string &filename) {
   std::ifstream inst_data(filename, std::ios::binary);
-  if (!inst_data.is_open()) {
-    Assert(0 && "Error: Image does not exist");
-  }
+  load_require(inst_data.is_open(), "Error: Image does not exist");
 
   inst_data.seekg(0, std::ios::end);
   std::streamsize size = inst_data.tellg();
   inst_data.seekg(0, std::ios::beg);
 
-  if (size < 0 || static_cast<uint64_t>(size) > RAM_SIZE) {
-    Assert(0 && "Image too large for configured RAM window.");
-  }
-  if (!inst_data.read(reinterpret_cast<char *>(pmem_ram_ptr()), size)) {
-    Assert(0 && "读取文件失败！");
-  }
+  load_require(size >= 0 && static_cast<uint64_t>(size) <= RAM_SIZE,
+               "Image too large for configured RAM window.");
+  inst_data.read(reinterpret_cast<char *>(pmem_ram_ptr()), size);
+  load_require(static_cast<bool>(inst_data), "读取文件失败！");
 
   inst_data.close();
 
@@ -556,9 +561,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
     file = gzopen(final_name.c_str(), "rb");
   }
 
-  if (!file) {
-    Assert(0 && "Error: Could not open checkpoint file");
-  }
+  load_require(file != nullptr, "Error: Could not open checkpoint file");
 
   // 与 SimpleSim/save_checkpoint 写入格式保持一致，确保反序列化对齐。
   // 注意：reserve_* 当前在本模拟器中暂未使用，但必须读取以避免流错位。
@@ -581,14 +584,15 @@ void BackTop::restore_checkpoint(const std::string &filename) {
 
   // 1. 恢复 header + 状态
   gz_read_pod(file, ckpt_header);
-  Assert(ckpt_header.magic == kCkptMagic &&
-         "Error: Invalid checkpoint magic.");
-  Assert(ckpt_header.format_ver == kCkptFormatVersion &&
-         "Error: Unsupported checkpoint version.");
-  Assert(ckpt_header.ram_size == static_cast<uint32_t>(kCkptSimpointRamBytes) &&
-         "Error: Checkpoint RAM size mismatch.");
-  Assert(ckpt_header.io_range_count == kExpectedIoLayout.size() &&
-         "Error: Checkpoint IO layout count mismatch.");
+  load_require(ckpt_header.magic == kCkptMagic,
+               "Error: Invalid checkpoint magic.");
+  load_require(ckpt_header.format_ver == kCkptFormatVersion,
+               "Error: Unsupported checkpoint version.");
+  load_require(ckpt_header.ram_size ==
+                   static_cast<uint32_t>(kCkptSimpointRamBytes),
+               "Error: Checkpoint RAM size mismatch.");
+  load_require(ckpt_header.io_range_count == kExpectedIoLayout.size(),
+               "Error: Checkpoint IO layout count mismatch.");
 
   gz_read_pod(file, ckpt_state);
   gz_read_pod(file, interval_inst_count);
@@ -665,7 +669,7 @@ void BackTop::restore_checkpoint(const std::string &filename) {
         is_timer_range ? (range.base == expected.base)
                        : (range.base == expected.base &&
                           range.size == expected.size);
-    Assert(layout_match && "Error: Checkpoint IO layout mismatch.");
+    load_require(layout_match, "Error: Checkpoint IO layout mismatch.");
 
     std::vector<uint8_t> io_bytes(range.size, 0);
     gz_read_exact(file, io_bytes.data(), io_bytes.size());
-- 
2.43.0


From e48a72c34893744b3a3598dbb5cce5a270106662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:21:12 +0000
Subject: [PATCH 21/32] fix: a failed store-conditional is invisible to younger
 loads

Store-to-load forwarding took the data of a store-conditional before its
outcome was known, and of one that had failed, so a younger load returned a
value that was never stored.
---
 back-end/Lsu/RealLsu.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index b4f124e..85d0d70 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -573,6 +573,14 @@ void RealLsu::comb_stlf() {
             entry.load_state = LoadState::CheckStlfRetry;
             break;
           }
+          if (stq_entry.is_lrsc && stq_entry.store_state < StoreState::WaitCommit) {
+            entry.load_state = LoadState::CheckStlfRetry; // SC 结果未定，不能前递也不能越过
+            break;
+          }
+          if (stq_entry.suppress_write) {
+            check_stlf_num++; // 失败的 SC 不写内存，对 load 不可见
+            continue;
+          }
           lsu_perf::count_stlf_check(ctx);
           STLFResult stlf_result = check_stlf(entry.p_addr, entry.func3, stq_entry.paddr, stq_entry.func3);
           if (stlf_result == STLFResult::Overlap) {
-- 
2.43.0


From cc4f71247e41699c4005a3cd0be527ad343a3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:22:05 +0000
Subject: [PATCH 22/32] fix: a store to the reserved address drops the
 reservation in the core as in the reference

lr / sw to the same address / sc succeeded on the core and failed on the
reference model, so the comparison reported a mismatch.
---
 back-end/Lsu/RealLsu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 85d0d70..1e75cc7 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -1078,6 +1078,9 @@ void RealLsu::comb_stq_commit() {
         commit_stq_entry();
       } else {
         nxt_entry.store_state = StoreState::Committed;
+        if (nxt.lrsc_unit.reserve_addr == nxt_entry.paddr) {
+          nxt.lrsc_unit.reserve_valid = false; // 与参考模型一致：store 覆盖保留地址则保留失效
+        }
         commit_stq_entry();
       }
     } else {
-- 
2.43.0


From 2258b34409f5a2f6dca7efccac9499bfe00f7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:46:02 +0000
Subject: [PATCH 23/32] fix: a device access is sent to the device once

The LSU kept presenting an uncached access until its response arrived, so
the peripheral port took it a second time whenever it was ready again
before the response was seen.  The second response was then handed to the
next uncached access.  The LSU now remembers that the request was sent,
ignores responses while nothing was sent, and the peripheral port is not
ready before it has delivered the response.
---
 MemSubSystem/PeripheralAxi.cpp | 4 ----
 back-end/Lsu/RealLsu.cpp       | 8 ++++++--
 back-end/Lsu/include/RealLsu.h | 1 +
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/MemSubSystem/PeripheralAxi.cpp b/MemSubSystem/PeripheralAxi.cpp
index 506c0cb..a91349d 100644
--- a/MemSubSystem/PeripheralAxi.cpp
+++ b/MemSubSystem/PeripheralAxi.cpp
@@ -169,10 +169,6 @@ void PeripheralAxi::comb_inputs() {
     nxt.resp_valid = true;
     nxt.rdata = extract_read_data(in.read.resp_data[0], cur.func3);
   }
-
-  if (peripheral_resp != nullptr) {
-    peripheral_resp->ready = !nxt.busy;
-  }
 }
 
 void PeripheralAxi::seq() {
diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 1e75cc7..cfb3ee5 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -284,7 +284,8 @@ void RealLsu::comb_exe2lsu() {
 void RealLsu::comb_mmio_out() {
   *out.peripheral_req = {};
   if (in.peripheral_resp->ready) {
-    if (nxt.uncached_unit.valid) {
+    if (nxt.uncached_unit.valid && !nxt.uncached_unit.sent) {
+      nxt.uncached_unit.sent = true;
       out.peripheral_req->is_mmio = true;
       out.peripheral_req->wen = !nxt.uncached_unit.is_load;
       out.peripheral_req->mmio_addr = nxt.uncached_unit.addr;
@@ -296,7 +297,8 @@ void RealLsu::comb_mmio_out() {
   }
 }
 void RealLsu::comb_mmio_in() {
-  if (in.peripheral_resp->is_mmio && cur.uncached_unit.valid) {
+  if (in.peripheral_resp->is_mmio && cur.uncached_unit.valid &&
+      cur.uncached_unit.sent) {
     if (cur.uncached_unit.is_load) {
       auto &entry = nxt.ldq[cur.uncached_unit.idx];
       if (nxt.finish_count < LDQ_SIZE) {
@@ -550,6 +552,7 @@ void RealLsu::comb_stlf() {
           entry.load_state = LoadState::WaitMmioResp;
           lsu_perf::start_mem_inst(ctx, entry);
           nxt.uncached_unit.valid = true;
+          nxt.uncached_unit.sent = false;
           nxt.uncached_unit.is_load = true;
           nxt.uncached_unit.addr = entry.p_addr;
           nxt.uncached_unit.func3 = entry.func3;
@@ -870,6 +873,7 @@ void RealLsu::comb_lsu2dcache_stq() {
       if (nxt_entry.is_mmio == true) {
         if (i == 0 && !nxt.uncached_unit.valid) {
           nxt.uncached_unit.valid = true;
+          nxt.uncached_unit.sent = false;
           nxt.uncached_unit.is_load = false;
           nxt.uncached_unit.addr = nxt_entry.paddr;
           nxt.uncached_unit.wdata = nxt_entry.data;
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index e32237a..1a1176e 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -98,6 +98,7 @@ struct LdqEntry {
 
 struct UncachedUnit {
   wire<1> valid;
+  wire<1> sent; // 请求已经发给外设，只等待响应
 
   wire<1> is_load;
 
-- 
2.43.0


From 2c01512990306794c59f8c5e3570fd4950486e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:46:38 +0000
Subject: [PATCH 24/32] fix: an interrupt does not squash a load that has read
 a device

The reorder buffer took a pending interrupt while the oldest load was
waiting for a device or had its data but was not retired yet.  The load
then ran again after the handler and the device was read twice.  The LSU
now tells the reorder buffer about such a load, and the interrupt waits
until it has retired.
---
 back-end/Lsu/RealLsu.cpp       | 12 ++++++++++++
 back-end/Lsu/include/RealLsu.h |  6 ++++++
 back-end/Rob.cpp               |  5 ++++-
 back-end/include/IO.h          |  2 ++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index cfb3ee5..19ecd1a 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -209,6 +209,7 @@ void RealLsu::comb_lsu2rob() {
   *out.lsu2rob = {};
 
   out.lsu2rob->committed_store_pending = cur.stq_commit_count != 0;
+  out.lsu2rob->mmio_load_unretired = cur.mmio_load.valid;
   uint64_t miss_mask = lsu_perf::load_miss_mask(cur);
   out.lsu2rob->tma.miss_mask = miss_mask;
 }
@@ -557,6 +558,9 @@ void RealLsu::comb_stlf() {
           nxt.uncached_unit.addr = entry.p_addr;
           nxt.uncached_unit.func3 = entry.func3;
           nxt.uncached_unit.idx = ldq_idx;
+          nxt.mmio_load.valid = true;
+          nxt.mmio_load.rob_idx = entry.rob_idx;
+          nxt.mmio_load.br_mask = entry.br_mask;
           lsu_perf::count_mmio_load_issue(ctx);
         } else {
           entry.load_state = LoadState::CheckStlfRetry;
@@ -1065,6 +1069,9 @@ void RealLsu::comb_stq_commit() {
       continue;
     }
     const auto &commit_uop = in.rob_commit->commit_entry[i].uop;
+    if (nxt.mmio_load.rob_idx == commit_uop.rob_idx) {
+      nxt.mmio_load.valid = false;
+    }
     if (!is_store(commit_uop)) {
       continue;
     }
@@ -1157,6 +1164,7 @@ void RealLsu::comb_flush() {
     if (!keep_uncached_store) {
       nxt.uncached_unit.valid = false;
     }
+    nxt.mmio_load.valid = false;
     // nxt.lrsc_unit.reserve_valid = false;
   }
 
@@ -1216,6 +1224,9 @@ void RealLsu::comb_flush() {
         nxt.uncached_unit.valid = false;                                                                                  // 将uncached unit无效化
       }
     }
+    if ((nxt.mmio_load.br_mask & in.dec_bcast->br_mask) != 0) {
+      nxt.mmio_load.valid = false;
+    }
     if (nxt.lrsc_unit.reserve_valid &&
         (nxt.lrsc_unit.reserve_br_mask & in.dec_bcast->br_mask) != 0) {
       nxt.lrsc_unit.reserve_valid = false;
@@ -1234,6 +1245,7 @@ void RealLsu::comb_flush() {
     for (int i = 0; i < cur.stq_count; i++) {
       nxt.stq[(cur.stq_head + i) % STQ_SIZE].br_mask &= ~in.dec_bcast->clear_mask; // 将需要清除的分支对应的br mask位清0
     }
+    nxt.mmio_load.br_mask &= ~in.dec_bcast->clear_mask;
     if (in.dec_bcast->clear_mask && nxt.lrsc_unit.reserve_valid) {
       nxt.lrsc_unit.reserve_br_mask &= ~in.dec_bcast->clear_mask;
     }
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index 1a1176e..77bbe45 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -108,6 +108,11 @@ struct UncachedUnit {
 
   wire<MAX_IDX_WIDTH> idx;
 };
+struct MmioLoadUnit {
+  wire<1> valid; // 已发出但尚未提交的 MMIO load
+  wire<ROB_IDX_WIDTH> rob_idx;
+  wire<BR_MASK_WIDTH> br_mask;
+};
 struct FenceUnit {
   wire<1> valid;
 
@@ -188,6 +193,7 @@ struct LsuState{
   wire<LDQ_IDX_WIDTH+1> wait_dcache_ldq_count;
 
   UncachedUnit uncached_unit;
+  MmioLoadUnit mmio_load;
   LrScUnit lrsc_unit;
 
   wire<31-LDQ_IDX_WIDTH> req_gen; // 用于区分不同轮次的重放，防止过期重放条目被误用
diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 5021e88..253f8a5 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -272,7 +272,10 @@ void Rob::comb_commit() {
   };
 
   if (!in.dec_bcast->mispred) {
-    const bool interrupt_pending = in.csr2rob->interrupt_req;
+    // 已经读过设备的 MMIO load 必须先提交，否则中断返回后会重复读设备。
+    const bool interrupt_pending =
+        in.csr2rob->interrupt_req &&
+        !(in.lsu2rob != nullptr && in.lsu2rob->mmio_load_unretired);
     for (int i = 0; i < ROB_BANK_NUM; i++) {
       if ((entry[i][deq_ptr].valid &&
            (rob_is_flush_inst(entry[i][deq_ptr].uop) ||
diff --git a/back-end/include/IO.h b/back-end/include/IO.h
index a336777..d68c4cb 100644
--- a/back-end/include/IO.h
+++ b/back-end/include/IO.h
@@ -1416,10 +1416,12 @@ struct LsuRobIO {
     std::bitset<ROB_NUM> miss_mask;
   } tma;
   wire<1> committed_store_pending;
+  wire<1> mmio_load_unretired; // 已发出但尚未提交的 MMIO load
 
   LsuRobIO() {
     tma.miss_mask.reset();
     committed_store_pending = 0;
+    mmio_load_unretired = 0;
   }
 };
 
-- 
2.43.0


From 839dc3ce01c4fe2ebe3d3ad65bcc5533a2aac12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:06:09 +0000
Subject: [PATCH 25/32] fix: only a retired LR or SC changes the reservation

LR and SC updated the reservation when they executed.  An SC squashed by
an interrupt had already consumed it and failed when it ran again, and a
load or store that took a page fault, even on a wrong path, dropped it.
The reservation now changes when the LR or SC retires, as in the
reference interpreter.
---
 back-end/Lsu/RealLsu.cpp       | 29 ++++++++++++++---------------
 back-end/Lsu/include/RealLsu.h |  5 ++---
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/back-end/Lsu/RealLsu.cpp b/back-end/Lsu/RealLsu.cpp
index 19ecd1a..a1d3afd 100644
--- a/back-end/Lsu/RealLsu.cpp
+++ b/back-end/Lsu/RealLsu.cpp
@@ -388,7 +388,6 @@ void RealLsu::comb_tlb_in_ldq() {
         ldq_entry.diag_val = ldq_entry.v_addr;
         ldq_entry.result = ldq_entry.v_addr;
         ldq_entry.load_state = LoadState::WaitFinish; // 页面错误的load进入WaitFinish状态，由后续逻辑处理异常
-        nxt.lrsc_unit.reserve_valid = false;
       } else if (resp.result == MMUResultType::MISS) {
         ldq_entry.load_state = LoadState::WaitTlbRetry;
       }
@@ -463,7 +462,6 @@ void RealLsu::comb_tlb_in_stq() {
         } else if (resp.result == MMUResultType::PAGE_FAULT) {
           stq_entry.page_fault = true;
           stq_entry.store_state = StoreState::WaitDone; // 进入页面错误状态，由后续逻辑处理异常
-          nxt.lrsc_unit.reserve_valid = false;          // 如果store发生页面错误，取消LRSC保留
         } else if (resp.result == MMUResultType::MISS) {
           stq_entry.store_state = StoreState::WaitTlbRetry; // TLB Miss的store重新进入等待TLB的状态等待重试
         }
@@ -953,7 +951,6 @@ void RealLsu::comb_lsu2exe() {
 
             stq_entry.sc_pass = sc_pass;
             stq_entry.suppress_write = !sc_pass;
-            nxt.lrsc_unit.reserve_valid = false;
 
             wb_uop.result = sc_pass ? 0 : 1;
             wb_uop.dest_preg = stq_entry.dest_preg;
@@ -1037,11 +1034,8 @@ void RealLsu::comb_lsu2exe() {
         nxt.finish[finish_idx].valid = false; // 无论如何都需要将完成的条目标记为无效
 
         if (ldq_entry.is_lrsc && !ldq_entry.page_fault) {
-          nxt.lrsc_unit.reserve_valid = true;
-          nxt.lrsc_unit.reserve_addr = ldq_entry.p_addr;
-          nxt.lrsc_unit.reserve_rob_idx = ldq_entry.rob_idx;
-          nxt.lrsc_unit.reserve_rob_flag = ldq_entry.rob_flag;
-          nxt.lrsc_unit.reserve_br_mask = ldq_entry.br_mask;
+          nxt.lrsc_unit.pending_valid = true;
+          nxt.lrsc_unit.pending_addr = ldq_entry.p_addr;
         }
       }
     }
@@ -1072,6 +1066,17 @@ void RealLsu::comb_stq_commit() {
     if (nxt.mmio_load.rob_idx == commit_uop.rob_idx) {
       nxt.mmio_load.valid = false;
     }
+    // 保留只由真正提交的 LR/SC 改变，被中断/异常冲掉的不算。
+    if (decode_inst_type(commit_uop.type) == AMO && !in.rob_bcast->flush) {
+      const uint32_t amo_op = commit_uop.func7 >> 2;
+      if (amo_op == AmoOp::LR) {
+        nxt.lrsc_unit.reserve_valid = nxt.lrsc_unit.pending_valid;
+        nxt.lrsc_unit.reserve_addr = nxt.lrsc_unit.pending_addr;
+        nxt.lrsc_unit.pending_valid = false;
+      } else if (amo_op == AmoOp::SC) {
+        nxt.lrsc_unit.reserve_valid = false;
+      }
+    }
     if (!is_store(commit_uop)) {
       continue;
     }
@@ -1165,6 +1170,7 @@ void RealLsu::comb_flush() {
       nxt.uncached_unit.valid = false;
     }
     nxt.mmio_load.valid = false;
+    nxt.lrsc_unit.pending_valid = false;
     // nxt.lrsc_unit.reserve_valid = false;
   }
 
@@ -1227,10 +1233,6 @@ void RealLsu::comb_flush() {
     if ((nxt.mmio_load.br_mask & in.dec_bcast->br_mask) != 0) {
       nxt.mmio_load.valid = false;
     }
-    if (nxt.lrsc_unit.reserve_valid &&
-        (nxt.lrsc_unit.reserve_br_mask & in.dec_bcast->br_mask) != 0) {
-      nxt.lrsc_unit.reserve_valid = false;
-    }
 
     nxt.stq_commit_count = std::min(nxt.stq_commit_count, nxt.stq_count);
     nxt.stq_commit = stq_idx_after(nxt.stq_head, nxt.stq_commit_count);
@@ -1246,9 +1248,6 @@ void RealLsu::comb_flush() {
       nxt.stq[(cur.stq_head + i) % STQ_SIZE].br_mask &= ~in.dec_bcast->clear_mask; // 将需要清除的分支对应的br mask位清0
     }
     nxt.mmio_load.br_mask &= ~in.dec_bcast->clear_mask;
-    if (in.dec_bcast->clear_mask && nxt.lrsc_unit.reserve_valid) {
-      nxt.lrsc_unit.reserve_br_mask &= ~in.dec_bcast->clear_mask;
-    }
   }
 }
 
diff --git a/back-end/Lsu/include/RealLsu.h b/back-end/Lsu/include/RealLsu.h
index 77bbe45..e500c10 100644
--- a/back-end/Lsu/include/RealLsu.h
+++ b/back-end/Lsu/include/RealLsu.h
@@ -124,11 +124,10 @@ struct FenceUnit {
   wire<1> rob_flag;
 };
 struct LrScUnit {
+  wire<1> pending_valid; // LR 已执行，提交时才建立保留
+  wire<32> pending_addr;
   wire<1> reserve_valid;
   wire<32> reserve_addr;
-  wire<ROB_IDX_WIDTH> reserve_rob_idx;
-  wire<1> reserve_rob_flag;
-  wire<BR_MASK_WIDTH> reserve_br_mask;
 };
 struct WaitMmuSTQEntry{
   wire<1> valid;
-- 
2.43.0


From e2f442a66325f74f46f962390de91233da2d5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:39:48 +0000
Subject: [PATCH 26/32] fix: repeat a fetch probe the data cache could not
 answer

The instruction cache asks the data cache for a line before it uses the copy in
memory. A bank conflict, or a line whose refill with merged stores was still
pending, was answered as 'not held', so code written before a fence.i could be
fetched from memory in its old form. The router now repeats such a probe until
the cache knows the answer.
---
 MemSubSystem/MemRouteBlock.cpp       | 47 +++++++++++++++++-----------
 MemSubSystem/RealDcache.cpp          | 10 ++++--
 MemSubSystem/include/MemRouteBlock.h |  3 ++
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/MemSubSystem/MemRouteBlock.cpp b/MemSubSystem/MemRouteBlock.cpp
index 8855959..fa5a1ca 100644
--- a/MemSubSystem/MemRouteBlock.cpp
+++ b/MemSubSystem/MemRouteBlock.cpp
@@ -46,28 +46,33 @@ void MemRouteBlock::comb_response() {
       ctx->perf.ptw_port_replay_count++;
     }
 #endif
-    if (replay == ReplayType::HIT) {
-      if (owner == Owner::ICACHE) {
-        out.icache_resp->resp_valid = true;
-        out.icache_resp->resp_miss = false;
-        out.icache_resp->resp_data = in.dcache_resp->resp_ports.load_resps[LSU_LDU_COUNT - 1].data;
-      } else {
-        out.ptw_events->valid = true;
-        out.ptw_events->owner = owner;
-        out.ptw_events->data = in.dcache_resp->resp_ports.load_resps[LSU_LDU_COUNT - 1].data;
-        out.ptw_events->replay = 0;
-        out.ptw_events->req_addr = cur.issued_tags.req_addr;
-        out.ptw_events->req_id = cur.issued_tags.req_id;
+    if (owner == Owner::ICACHE) {
+      // A newer probe supersedes this one: its answer must not be mistaken for
+      // the newer probe's.
+      if (!in.icache_req->req_valid) {
+        if (replay == ReplayType::HIT || replay == ReplayType::MSHR_FULL) {
+          out.icache_resp->resp_valid = true;
+          out.icache_resp->resp_miss = (replay != ReplayType::HIT);
+          out.icache_resp->resp_data = in.dcache_resp->resp_ports.load_resps[LSU_LDU_COUNT - 1].data;
+        } else {
+          // Bank conflict or pending refill: the DCache could not tell whether
+          // it holds the line, so repeat the probe.
+          nxt.icache_probe_valid = true;
+          nxt.icache_probe_addr = cur.issued_tags.req_addr;
+        }
       }
+    } else if (replay == ReplayType::HIT) {
+      out.ptw_events->valid = true;
+      out.ptw_events->owner = owner;
+      out.ptw_events->data = in.dcache_resp->resp_ports.load_resps[LSU_LDU_COUNT - 1].data;
+      out.ptw_events->replay = 0;
+      out.ptw_events->req_addr = cur.issued_tags.req_addr;
+      out.ptw_events->req_id = cur.issued_tags.req_id;
     } else if (replay == ReplayType::CONFLICT) {
-      out.icache_resp->resp_valid = (owner == Owner::ICACHE);
-      out.icache_resp->resp_miss = (owner == Owner::ICACHE);
       out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
       out.wakeup->itlb = (owner == Owner::PTW_ITLB);
       out.wakeup->walk = (owner == Owner::PTW_WALK);
     } else {
-      out.icache_resp->resp_valid = (owner == Owner::ICACHE);
-      out.icache_resp->resp_miss = (owner == Owner::ICACHE);
       if (in.dcache_resp->mshr_fill) {
         out.wakeup->dtlb = (owner == Owner::PTW_DTLB);
         out.wakeup->itlb = (owner == Owner::PTW_ITLB);
@@ -95,9 +100,15 @@ void MemRouteBlock::comb_request() {
 
   Owner ptw_owner = Owner::NONE;
   uint32_t ptw_addr = 0;
-  if (in.icache_req->req_valid && cur.issued_tags.owner != Owner::ICACHE) {
+  // The ICache presents a probe for one cycle only: keep it until it is issued.
+  if (in.icache_req->req_valid) {
+    nxt.icache_probe_valid = true;
+    nxt.icache_probe_addr = in.icache_req->req_addr;
+  }
+  if (nxt.icache_probe_valid && cur.issued_tags.owner != Owner::ICACHE) {
     ptw_owner = Owner::ICACHE;
-    ptw_addr = in.icache_req->req_addr;
+    ptw_addr = nxt.icache_probe_addr;
+    nxt.icache_probe_valid = false;
   } else if (in.ptw_walk_req->valid && cur.issued_tags.owner != Owner::PTW_WALK) {
     ptw_owner = Owner::PTW_WALK;
     ptw_addr = in.ptw_walk_req->addr;
diff --git a/MemSubSystem/RealDcache.cpp b/MemSubSystem/RealDcache.cpp
index c14d9c4..bf23706 100644
--- a/MemSubSystem/RealDcache.cpp
+++ b/MemSubSystem/RealDcache.cpp
@@ -435,10 +435,14 @@ void RealDcache::stage2_comb() {
         }
         else {
             if(s1s2_cur.icache_req==i){
-                // ICache coherent probes are lookup-only: report miss to the
-                // front-end route block without allocating an MSHR.
+                // ICache coherent probes are lookup-only and never allocate an
+                // MSHR. A line with a pending MSHR entry may carry merged stores
+                // that memory does not have yet, so that probe must be repeated;
+                // MSHR_FULL tells the route block that the line is not held here.
                 resp.valid = true;
-                resp.replay = ReplayType::CONFLICT;
+                resp.replay = in.mshr2dcache->find_resp[i].valid
+                                  ? ReplayType::MSHR_HIT
+                                  : ReplayType::MSHR_FULL;
                 resp.req_id = slot.req_id;
                 continue;
             }
diff --git a/MemSubSystem/include/MemRouteBlock.h b/MemSubSystem/include/MemRouteBlock.h
index b28fa4e..3e6be9c 100644
--- a/MemSubSystem/include/MemRouteBlock.h
+++ b/MemSubSystem/include/MemRouteBlock.h
@@ -81,6 +81,9 @@ struct MemRouteBlockState {
   IssueTag issued_tags;
   ReplayWakeup ptw_wait;
 
+  wire<1> icache_probe_valid;
+  uint32_t icache_probe_addr;
+
   wire<1> lsu_replay_valid;
   uint32_t lsu_replay_req_id;
 
-- 
2.43.0


From 2785c08162fb57bb05a6bb0174b3a86e0870378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:39:48 +0000
Subject: [PATCH 27/32] fix: read memory for an instruction line only after the
 data cache misses

The memory read ran in parallel with the probe of the data cache. A dirty line
written back between the two was found in neither: the memory data was already
old and the probe missed. Code changed before a fence.i was then executed in
its old form.
---
 front-end/icache/icache_module.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/front-end/icache/icache_module.cpp b/front-end/icache/icache_module.cpp
index 363c3d5..167679e 100644
--- a/front-end/icache/icache_module.cpp
+++ b/front-end/icache/icache_module.cpp
@@ -1321,9 +1321,13 @@ void ICache::eval_state_machine() {
   case SWAP_IN:
     {
     DcacheProbeStep dcache_step = step_dcache_probe();
+    // Memory is read only once the DCache has answered that it does not hold the
+    // line: a read sent earlier could miss a dirty line that is written back
+    // while the probe is under way.
+    const bool dcache_missed = dcache_step.done && !dcache_step.hit;
     const bool req_ready_seen_now =
         (mem_axi_state == AXI_IDLE) && io.in.mem_req_ready &&
-        io.regs.miss_txid_valid_r;
+        io.regs.miss_txid_valid_r && dcache_missed;
     if (req_ready_seen_now) {
       io.reg_write.miss_ready_seen_r = true;
     }
@@ -1389,6 +1393,19 @@ void ICache::eval_state_machine() {
       break;
     }
 
+    if (!dcache_missed) {
+      state_next = SWAP_IN;
+      if (dcache_step.done) {
+        capture_lookup_meta_result(io.regs.ppn_r & 0xFFFFF,
+                                   /*compare_valid=*/false);
+        replace_idx_next = lookup_has_invalid_way_w
+                               ? lookup_first_invalid_way_w
+                               : (io.regs.replace_idx + 1) % way_cnt;
+        finish_refill(dcache_step.line, replace_idx_next, "SWAP_DCACHE_ONLY");
+      }
+      break;
+    }
+
     if (mem_axi_state == AXI_IDLE) {
       io.out.mem_req_addr =
           (io.regs.ppn_r << 12) | (io.regs.req_index_r << offset_bits);
-- 
2.43.0


From 5a6d1715112c25bb44b421494a15d52dbced150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:42:55 +0000
Subject: [PATCH 28/32] fix: keep the faulting address of an atomic whose store
 part faults

The load part of the atomic completes after the store part and replaced the
faulting virtual address with its own physical address, which then appeared in
mtval or stval.
---
 back-end/Rob.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/back-end/Rob.cpp b/back-end/Rob.cpp
index 253f8a5..5384afa 100644
--- a/back-end/Rob.cpp
+++ b/back-end/Rob.cpp
@@ -583,8 +583,11 @@ void Rob::comb_complete() {
 
       for (int k = 0; k < LSU_LDU_COUNT; k++) {
         if (i == IQ_LD_PORT_BASE + k) {
-          // 保存物理地址，用于 Commit 时的对齐检查
-          entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          // 保存物理地址，用于 Commit 时的对齐检查；AMO 的 STA 已报缺页时保留其
+          // 故障虚拟地址。
+          if (!entry_1[bank_idx][line_idx].uop.page_fault_store) {
+            entry_1[bank_idx][line_idx].uop.diag_val = wb.diag_val;
+          }
 
           if (wb_has_page_fault) {
             entry_1[bank_idx][line_idx].uop.diag_val = wb.result;
-- 
2.43.0


From 1be89d160e642a5e38638c13173bb6abf604ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:06:39 +0000
Subject: [PATCH 29/32] fix: report a store only the core under test performs

---
 diff/diff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff/diff.cpp b/diff/diff.cpp
index d0c1d54..77213a9 100644
--- a/diff/diff.cpp
+++ b/diff/diff.cpp
@@ -232,10 +232,10 @@ static void checkregs() {
       goto fault;
   }
 
-  if (ref_state.store) {
-    if (dut_cpu.store != ref_state.store)
-      goto fault;
+  if (dut_cpu.store != ref_state.store)
+    goto fault;
 
+  if (ref_state.store) {
     if (dut_cpu.store_data != ref_state.store_data)
       goto fault;
 
-- 
2.43.0


From 6373c1402e29867b2a47109f20cd47daafaa7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:06:39 +0000
Subject: [PATCH 30/32] fix: keep the reference's reservation across a
 synchronised event

---
 diff/diff.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff/diff.cpp b/diff/diff.cpp
index 77213a9..70388d0 100644
--- a/diff/diff.cpp
+++ b/diff/diff.cpp
@@ -293,7 +293,11 @@ void difftest_sync_from_dut(uint8_t privilege) {
                                  dut_cpu.page_fault_load,
                                  dut_cpu.page_fault_store);
   refcpu_set_sim_time(ref_cpu_ctx, static_cast<uint64_t>(sim_time));
-  const RefCpuState ref_state = to_ref_state(dut_cpu, privilege);
+  RefCpuState ref_state = to_ref_state(dut_cpu, privilege);
+  // The core does not report its LR reservation: the reference keeps its own.
+  const RefCpuState before = current_ref_state();
+  ref_state.reserve_valid = before.reserve_valid;
+  ref_state.reserve_addr = before.reserve_addr;
   refcpu_set_state(ref_cpu_ctx, &ref_state);
 }
 
-- 
2.43.0


From fde0dd2e009972187faf6dabdb2904ddfc568aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:50 +0000
Subject: [PATCH 31/32] fix: a store displaced by an interrupt has no device
 effect

The reorder buffer passes the instruction an interrupt displaces through the
commit port.  The commit hook applied its device effects and counted it as a
branch, and did so again when the instruction was executed after the handler:
a character written to the console appeared twice.
---
 rv_simu_mmu_v2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rv_simu_mmu_v2.cpp b/rv_simu_mmu_v2.cpp
index 9565f56..65aee47 100644
--- a/rv_simu_mmu_v2.cpp
+++ b/rv_simu_mmu_v2.cpp
@@ -724,6 +724,10 @@ void SimCpu::commit_sync(InstInfo *inst, int commit_slot) {
   BackTop *back = &this->back;
   Assert(commit_slot >= 0 && commit_slot < COMMIT_WIDTH &&
          "SimCpu::commit_sync: invalid commit slot");
+  // 被中断打断的指令没有执行，返回后会重新执行。
+  if (static_cast<bool>(back->rob->out.rob_bcast->interrupt)) {
+    return;
+  }
   const auto &ftq_info = back->ftq_commit_info.resp[commit_slot];
   if (inst->type == JALR) {
     if (inst->is_ret) {
-- 
2.43.0


From a6a489f650e6dc0db2ae40a082ef7b4ba964ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:50 +0000
Subject: [PATCH 32/32] fix: count an instruction displaced by an interrupt
 only when it executes

The displaced instruction passes the commit port once with the interrupt and
once when it is executed, and was counted as committed both times.
---
 back-end/Ren.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/back-end/Ren.cpp b/back-end/Ren.cpp
index 2292dc8..a176a09 100644
--- a/back-end/Ren.cpp
+++ b/back-end/Ren.cpp
@@ -269,12 +269,15 @@ void Ren::comb_fire() {
   for (int i = 0; i < COMMIT_WIDTH; i++) {
     if (in.rob_commit->commit_entry[i].valid) {
       const auto &commit_uop = in.rob_commit->commit_entry[i].uop;
-      ctx->perf.commit_num++;
-      if (is_load(commit_uop)) {
-        ctx->perf.commit_load_num++;
-      }
-      if (is_store(commit_uop)) {
-        ctx->perf.commit_store_num++;
+      // 被中断打断的指令返回后会重新执行，只在真正执行时计数。
+      if (!in.rob_bcast->interrupt) {
+        ctx->perf.commit_num++;
+        if (is_load(commit_uop)) {
+          ctx->perf.commit_load_num++;
+        }
+        if (is_store(commit_uop)) {
+          ctx->perf.commit_store_num++;
+        }
       }
 
       if (ctx->is_ckpt) {
-- 
2.43.0

