From 9f76a201f11465a0c4a298ea157c48a292b275fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 01/55] fix: sources and the down mixer record the lifecycle
 state before running their hooks

---
 include/maec/source_module.hpp | 33 ++++++++++++++++++++++++++++++---
 src/module_mixer.cpp           |  4 ++++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/maec/source_module.hpp b/include/maec/source_module.hpp
index 819c0d7..ef9fe01 100644
--- a/include/maec/source_module.hpp
+++ b/include/maec/source_module.hpp
@@ -50,7 +50,16 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_start() override { this->start(); }
+    void meta_start() override {
+
+        // Set our state:
+
+        BaseModule::start();
+
+        // Call the user defined start method:
+
+        this->start();
+    }
 
     /**
      * @brief Meta stop method
@@ -59,7 +68,16 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_stop() override { this->stop(); }
+    void meta_stop() override {
+
+        // Set our state:
+
+        BaseModule::stop();
+
+        // Call the user defined stop method:
+
+        this->stop();
+    }
 
     /**
      * @brief Meta info sync method
@@ -77,5 +95,14 @@ public:
      * we do NOT preform any finishes on backwards modules
      *
      */
-    void meta_finish() override { this->finish(); }
+    void meta_finish() override {
+
+        // Set our state:
+
+        BaseModule::finish();
+
+        // Call the user defined finish method:
+
+        this->finish();
+    }
 };
diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index d62979b..60b5358 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -92,6 +92,10 @@ void ModuleMixDown::meta_finish() {
         mod->meta_finish();
     }
 
+    // Set our state
+
+    BaseModule::finish();
+
     // Call the user defined finish method
 
     this->finish();
-- 
2.43.0


From bce28ad62d4fd96f6513ff9893cfb62b0c54b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 02/55] fix: sinks restart the module count when a chain is
 synced

---
 include/maec/sink_module.hpp | 4 ++++
 src/io/alsa_module.cpp       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 9390465..a488ec3 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -87,6 +87,10 @@ public:
         // Configure the AudioInfo:
 
         this->get_info()->from_chain(this->chain_instance);
+
+        // We are the start of the chain, so modules are counted from us:
+
+        this->chain_instance.module_num = 1;
     }
 };
 
diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index dc336c5..4966221 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -445,6 +445,10 @@ void ALSASink::info_sync() {
 
     this->get_info()->out_buffer = bsize;
     this->get_info()->in_buffer = bsize;
+
+    // We are the start of the chain, so modules are counted from us:
+
+    this->get_chain_info()->module_num = 1;
 }
 
 #endif
-- 
2.43.0


From 879d3a40ec84619115b98b54149a2b4c3928ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 03/55] fix: up mixer copies every sample and the format of its
 buffer to each output

---
 src/module_mixer.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index 60b5358..a7e6640 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -177,14 +177,9 @@ void ModuleMixUp::forward(BaseModule* mod) {
 
 AudioBuffer&& ModuleMixUp::get_buffer() {
 
-    // Configure the temporary buffer
+    // Copy our buffer, each output gets all samples
 
-    tbuff.set_channels(this->get_info()->channels);
-    tbuff.set_samplerate(this->get_info()->sample_rate);
-
-    tbuff.resize(this->get_info()->out_buffer);
-
-    std::copy(this->buff.sbegin(), this->buff.send(), tbuff.sbegin());
+    tbuff = this->buff;
 
     // Finally, return the buffer:
 
-- 
2.43.0


From 8445af3b0fc0e8a288756e204d243784425fe522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 04/55] fix: up mixer keeps a forward module so that it can be
 synced

---
 src/module_mixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index a7e6640..5147d5e 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -173,6 +173,10 @@ void ModuleMixUp::forward(BaseModule* mod) {
     // Add the forward module to our vector:
 
     this->out.push_back(mod);
+
+    // Chain information is taken from this module when syncing
+
+    AudioModule<>::forward(mod);
 }
 
 AudioBuffer&& ModuleMixUp::get_buffer() {
-- 
2.43.0


From 131dfefd9fc964a882afa6a6d2476935462c43d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 05/55] fix: counter counts each sample of a buffer once

---
 src/meta_audio.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 45cb705..75297ca 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,8 +19,7 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples +=
-        static_cast<int>(this->buff.size()) * this->buff.channels();
+    this->m_samples += static_cast<int>(this->buff.size());
 }
 
 void LatencyModule::reset() {
-- 
2.43.0


From ddaf7306c188f0d39f3dd70f6afe2598adbb407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 06/55] fix: latency module measures expected time in frames

---
 src/meta_audio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 75297ca..43c4776 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -64,8 +64,7 @@ void LatencyModule::meta_process() {
 
     // Get size of buffer:
 
-    const int samples =
-        static_cast<int>(this->buff.size() * this->buff.channels());
+    const int samples = static_cast<int>(this->buff.size());
 
     // Update chain timer:
 
@@ -84,7 +83,8 @@ void LatencyModule::meta_process() {
     // Determine the latency:
 
     this->operation_latency =
-        this->operation_time - this->timer.get_time(samples);
+        this->operation_time -
+        this->timer.get_time(samples, this->buff.channels());
 
     // Add to total latency:
 
-- 
2.43.0


From d2a5136437f2d976998ac9ea46bde7749af36511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 07/55] fix: latency averages cover the operations since the
 last reset and need at least one

---
 include/maec/meta_audio.hpp | 8 ++++++++
 src/meta_audio.cpp          | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 05032fa..1b476ff 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -228,6 +228,10 @@ public:
      * @return int Average operation time in nanoseconds
      */
     int64_t average_time() const {
+        if (this->processed() == 0) {
+            return 0;
+        }
+
         return this->total_operation_time / this->processed();
     }
 
@@ -240,6 +244,10 @@ public:
      * @return int Average operation latency in nanoseconds
      */
     int64_t average_latency() const {
+        if (this->processed() == 0) {
+            return 0;
+        }
+
         return this->total_operation_latency / this->processed();
     }
 
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 43c4776..15bc39c 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -24,6 +24,10 @@ void Counter::process() {
 
 void LatencyModule::reset() {
 
+    // Reset the counts the averages are based on:
+
+    Counter::reset();
+
     // Clear values:
 
     this->operation_time = 0;
-- 
2.43.0


From 0030a715a1bfea42948bad29b83f262b85f9ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 08/55] fix: buffer module repeats its whole buffer whatever
 the configured size

---
 src/meta_audio.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 15bc39c..049b556 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -101,13 +101,9 @@ void LatencyModule::meta_process() {
 
 void BufferModule::process() {
 
-    // First, create a buffer to use:
+    // Copy the whole buffer, our size is the size of the repeated buffer:
 
-    this->reserve();
-
-    // Next, fill it using the contents of our old buffer:
-
-    std::copy(this->gbuff->ibegin(), this->gbuff->iend(), this->buff.ibegin());
+    this->buff = *(this->gbuff);
 }
 
 void UniformBuffer::process() {
-- 
2.43.0


From c9da37ca4edb524d424785052bfd69e8551e4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 09/55] fix: uniform buffer fills the samples of every channel

---
 src/meta_audio.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 049b556..ef5108c 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -112,7 +112,11 @@ void UniformBuffer::process() {
 
     this->reserve();
 
-    while (this->index < this->get_info()->out_buffer) {
+    // We fill the samples of every channel:
+
+    const int total = static_cast<int>(this->buff.size());
+
+    while (this->index < total) {
 
         // Determine if in buffer is out of values:
 
@@ -137,7 +141,7 @@ void UniformBuffer::process() {
         // Determine the number of samples yet to fill:
 
         int remaining =
-            std::min(this->get_info()->out_buffer - this->index,
+            std::min(total - this->index,
                      static_cast<int>(this->ibuff.size()) - this->iindex);
 
         // Fill the current buffer with this value:
-- 
2.43.0


From 6800d06d51fe6fff1c2d0cde7342c1df395fd5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 10/55] fix: uniform buffer ends its cycle when the module
 behind it has no samples

---
 src/meta_audio.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index ef5108c..22ba506 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -136,6 +136,12 @@ void UniformBuffer::process() {
             // Update the in index:
 
             this->iindex = 0;
+
+            // Nothing more to get, the rest stays silent:
+
+            if (this->ibuff.size() == 0) {
+                break;
+            }
         }
 
         // Determine the number of samples yet to fill:
-- 
2.43.0


From 5426eb74c4fbed1cee686db13acc4ed3c7dc98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 11/55] fix: a copied or moved sink shares its own chain
 information

---
 include/maec/sink_module.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index a488ec3..d4c6626 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -18,6 +18,8 @@
 
 #pragma once
 
+#include <utility>
+
 #include "audio_module.hpp"
 #include "base_module.hpp"
 
@@ -70,6 +72,34 @@ public:
         this->set_chain_info(&chain_instance);
     }
 
+    /// A copy shares its own ChainInfo instance, never the one it was copied from
+    SinkModule(const SinkModule& other)
+        : AudioModule<void, B>(other), chain_instance(other.chain_instance) {
+        this->set_chain_info(&chain_instance);
+    }
+
+    SinkModule(SinkModule&& other) noexcept
+        : AudioModule<void, B>(std::move(other)),
+          chain_instance(other.chain_instance) {
+        this->set_chain_info(&chain_instance);
+    }
+
+    SinkModule& operator=(const SinkModule& other) {
+        AudioModule<void, B>::operator=(other);
+        this->chain_instance = other.chain_instance;
+        this->set_chain_info(&chain_instance);
+        return *this;
+    }
+
+    SinkModule& operator=(SinkModule&& other) {
+        AudioModule<void, B>::operator=(std::move(other));
+        this->chain_instance = other.chain_instance;
+        this->set_chain_info(&chain_instance);
+        return *this;
+    }
+
+    ~SinkModule() override = default;
+
     // void meta_info_sync() override {
 
     //     // Preform the current info sync
-- 
2.43.0


From 994448e49f00b2ecc9e40e7831a96673e914a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 12/55] fix: set value envelope stays inside its buffer once
 its stop time has passed

---
 src/envelope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index be73435..fd8b7bd 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -11,6 +11,7 @@
 
 #include "envelope.hpp"
 
+#include <algorithm>
 #include <cmath>
 
 #include "audio_buffer.hpp"
@@ -71,7 +72,8 @@ void SetValue::process() {
     auto size = this->buff.size();
 
     int64_t initial =
-        std::min(this->remaining_samples(), static_cast<int64_t>(size));
+        std::clamp<int64_t>(this->remaining_samples(), 0,
+                            static_cast<int64_t>(size));
 
     // Determine the number of values to be final:
 
-- 
2.43.0


From c9b60fba9a3912b5edde72ef5beb5f58eb9d2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 13/55] fix: chain envelope always makes progress towards a
 stop time between two samples

---
 src/envelope.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index fd8b7bd..91d079d 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -272,6 +272,11 @@ void ChainEnvelope::process() {
 
             num = std::min(
                 num, static_cast<int>(this->current->remaining_samples()));
+
+            // The stop time may lie within the next sample,
+            // always make progress:
+
+            num = std::max(num, 1);
         }
 
         // Set size of current envelope to num value:
-- 
2.43.0


From c2e6c94091ff9044d2053f1991104b82a7933ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 14/55] fix: the decay of an ADSR envelope is a duration after
 the attack

---
 src/envelope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 91d079d..3e65727 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -336,7 +336,7 @@ void ADSREnvelope::start() {
     dec->set_start_value(1);
     dec->set_stop_value(this->sustain);
     dec->set_start_time(this->attack);
-    dec->set_stop_time(this->decay);
+    dec->set_stop_time(this->attack + this->decay);
 
     this->add_envelope(dec.get());
     this->envs.add_object(dec);
@@ -347,7 +347,7 @@ void ADSREnvelope::start() {
 
     sus->set_start_value(this->sustain);
     sus->set_stop_value(this->sustain);
-    sus->set_start_time(this->decay);
+    sus->set_start_time(this->attack + this->decay);
     sus->set_stop_time(-1);
 
     this->add_envelope(sus.get());
-- 
2.43.0


From 88a86fde151d35cda58c292d669fc87bec6b4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 15/55] fix: starting an ADSR envelope selects its first stage

---
 src/envelope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 3e65727..40f397b 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -353,7 +353,9 @@ void ADSREnvelope::start() {
     this->add_envelope(sus.get());
     this->envs.add_object(sus);
 
-    //
+    // Move to the first envelope:
+
+    ChainEnvelope::start();
 }
 
 void ADSREnvelope::finish() {
-- 
2.43.0


From 4069148abeb66efff5931b179ed1b2212a782d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 16/55] fix: every public header can be included more than once

---
 include/maec/chrono.hpp       | 2 ++
 include/maec/dsp/filt.hpp     | 2 ++
 include/maec/io/wav.hpp       | 2 ++
 include/maec/module_mixer.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 2e916ea..9f6a423 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -23,6 +23,8 @@
  * We measure time values in nanoseconds.
  */
 
+#pragma once
+
 #include "const.hpp"
 
 /**
diff --git a/include/maec/dsp/filt.hpp b/include/maec/dsp/filt.hpp
index aa849c0..e3d07b4 100644
--- a/include/maec/dsp/filt.hpp
+++ b/include/maec/dsp/filt.hpp
@@ -13,6 +13,8 @@
  * IIR filters) which are defined elsewhere in maec.
  */
 
+#pragma once
+
 #include "dsp/const.hpp"
 
 namespace dsp::filt {
diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 42dc25d..b72bc8a 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -12,6 +12,8 @@
  * so modules can read and write to wave files.
  */
 
+#pragma once
+
 #include "../sink_module.hpp"
 #include "../source_module.hpp"
 #include "audio_buffer.hpp"
diff --git a/include/maec/module_mixer.hpp b/include/maec/module_mixer.hpp
index f410fd2..69c7a7f 100644
--- a/include/maec/module_mixer.hpp
+++ b/include/maec/module_mixer.hpp
@@ -9,6 +9,8 @@
  *
  */
 
+#pragma once
+
 #include <vector>
 
 #include "audio_buffer.hpp"
-- 
2.43.0


From ccd256799ebc63c2dea03369442b5391b787edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 17/55] fix: freq_map can be used from several translation
 units

---
 include/maec/dsp/iir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index ac44a41..c49856a 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -43,7 +43,7 @@ namespace dsp::iir {
  * @param sra Sample rate in hertz
  * @return double Mapped frequency in radians from -pi to pi
  */
-double freq_map(double freq, double sra) {
+inline double freq_map(double freq, double sra) {
 
     return dsp::consts::pi_2 * (freq / sra);
 }
-- 
2.43.0


From 7ca6d4bdf618d12b9e529506179829ec6f77de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 18/55] fix: parallel module changes the conditions its threads
 wait for under the lock

---
 include/maec/parallel.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index cd63c04..3550e8e 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -129,7 +129,18 @@ public:
      *
      * @param size New queue size
      */
-    void max_size(std::size_t size) { qsize = size; }
+    void max_size(std::size_t size) {
+
+        {
+            // Grab the lock so a waiting thread can't miss this change
+            std::lock_guard<std::mutex> lock(qmut);
+
+            qsize = size;
+        }
+
+        // Notify the thread, there might be space available now
+        cv.notify_all();
+    }
 
     /**
      * @brief Gets the current size of the queue
@@ -197,9 +208,14 @@ public:
 
         AudioModule<>::stop();
 
-        // Set the done value to be true
+        {
+            // Grab the lock so a waiting thread can't miss this change
+            std::lock_guard<std::mutex> lock(qmut);
+
+            // Set the done value to be true
 
-        done = true;
+            done = true;
+        }
 
         // Notify all condition variables
 
-- 
2.43.0


From f74e1c371f9f0a98c8bfbe661c43bbb990b68972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 19/55] fix: the thread of a parallel module ends before it is
 restarted, its chain is stopped or it is destroyed

---
 include/maec/parallel.hpp | 51 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 3550e8e..5dd823d 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -109,6 +109,9 @@ private:
 public:
     ParallelModule() = default;
 
+    /// Destructor, a running thread must not outlive this module
+    ~ParallelModule() override { this->end_thread(); }
+
     /**
      * @brief Gets the maximum size of the queue
      *
@@ -169,6 +172,10 @@ public:
 
         AudioModule<>::start();
 
+        // End the thread of an earlier start, if any
+
+        this->end_thread();
+
         {
             // We grab the lock to ensure our next operation
             // on the queue is valid.
@@ -208,6 +215,21 @@ public:
 
         AudioModule<>::stop();
 
+        // End the running thread
+
+        this->end_thread();
+    }
+
+private:
+    /**
+     * @brief Ends the thread, if one is running
+     *
+     * Once this returns the backwards modules are no longer processed,
+     * unless this is called from the running thread.
+     *
+     */
+    void end_thread() {
+
         {
             // Grab the lock so a waiting thread can't miss this change
             std::lock_guard<std::mutex> lock(qmut);
@@ -234,6 +256,35 @@ public:
         }
     }
 
+public:
+    /**
+     * @brief Custom meta start operation
+     *
+     * A thread that is still running must end
+     * before the backwards modules are started again.
+     *
+     */
+    void meta_start() override {
+
+        this->end_thread();
+
+        AudioModule<>::meta_start();
+    }
+
+    /**
+     * @brief Custom meta stop operation
+     *
+     * The thread processes the backwards modules,
+     * so it must end before they are stopped.
+     *
+     */
+    void meta_stop() override {
+
+        this->end_thread();
+
+        AudioModule<>::meta_stop();
+    }
+
     /**
      * @brief Custom meta process operation
      *
-- 
2.43.0


From 1a5a5dce05b11cee6f3dc38c54b72f71e9c22ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 20/55] fix: memory input stream does not read past the end of
 its array

---
 src/io/mstream.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index c731d52..5cb6db3 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -16,13 +16,28 @@
 
 void CharIStream::read(char* byts, int num) {
 
+    // Determine how much we can read, the array may end early:
+
+    const std::size_t left =
+        this->index < this->arr.size() ? this->arr.size() - this->index : 0;
+    const std::size_t count =
+        std::min(static_cast<std::size_t>(std::max(num, 0)), left);
+
     // Copy the contents over:
 
-    std::copy_n(arr.begin() + this->index, num, byts);
+    std::copy_n(arr.begin() + static_cast<std::ptrdiff_t>(this->index), count,
+                byts);
 
     // Increment index:
 
-    this->index += num;
+    this->index += count;
+
+    // Nothing is left, stop like a file stream would:
+
+    if (count != static_cast<std::size_t>(num)) {
+
+        this->stop();
+    }
 }
 
 void CharOStream::write(char* byts, int num) {
-- 
2.43.0


From 5cf6632459b48719d70c6b07d810ef47f239ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 21/55] fix: memory output stream writes at its position after
 seeking past the end

---
 src/io/mstream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index 5cb6db3..daac46a 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -42,6 +42,13 @@ void CharIStream::read(char* byts, int num) {
 
 void CharOStream::write(char* byts, int num) {
 
+    // We may have been moved past the end, fill the gap first:
+
+    if (this->index > this->arr.size()) {
+
+        this->arr.resize(this->index);
+    }
+
     // Offset to use when determining back insertion:
 
     std::size_t offset = 0;
-- 
2.43.0


From a053915b69422be2c8be98bffcbd3834df8f94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 22/55] fix: wave reader skips the extension of a long format
 chunk

---
 include/maec/io/wav.hpp |  7 +++++++
 src/io/wav.cpp          | 26 ++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index b72bc8a..287473a 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -596,6 +596,13 @@ private:
      */
     void read_format_chunk(WavFormat& chunk);
 
+    /**
+     * @brief Skips bytes we are not interested in
+     *
+     * @param num Number of bytes to skip
+     */
+    void skip(uint32_t num);
+
     /// Size of buffer to output
     int buffer_size = 0;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index c8302b0..d15b49b 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -233,6 +233,14 @@ void WaveReader::start() {
 
     this->read_format_chunk(form);
 
+    // The chunk may hold more than the fields we use, skip the rest:
+
+    if (chead.chunk_size > WavFormat::size() - ChunkHeader::size()) {
+
+        this->skip(chead.chunk_size -
+                   (WavFormat::size() - ChunkHeader::size()));
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
@@ -275,6 +283,24 @@ void WaveReader::read_format_chunk(WavFormat& chunk) {
     this->total_read += 16;
 }
 
+void WaveReader::skip(uint32_t num) {
+
+    std::array<char, 512> data = {};
+
+    // Read in pieces until everything is skipped or the stream ends:
+
+    while (num > 0 && !this->stream->bad()) {
+
+        const uint32_t piece =
+            std::min(num, static_cast<uint32_t>(data.size()));
+
+        this->stream->read(data.data(), static_cast<int>(piece));
+
+        this->total_read += piece;
+        num -= piece;
+    }
+}
+
 BufferPointer WaveReader::get_data() {
 
     // Define the BufferPointer to return:
-- 
2.43.0


From fcebd9544ccd448fc58e98185f180bc827557b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 23/55] fix: wave reader skips unknown chunks of any size

---
 src/io/wav.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index d15b49b..7fb0486 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -329,23 +329,10 @@ BufferPointer WaveReader::get_data() {
 
             if (this->head.chunk_id != "data") {
 
-                // Create UnknownChunk:
-
-                UnknownChunk chunk(this->head.chunk_size);
-
-                // Not a data chunk, read data into an unknown chunk:
-
-                this->stream->read(chunk.data.data(), this->head.chunk_size);
-
-                // Also copy over other pieces of info:
-
-                chunk.chunk_id = head.chunk_id;
-                chunk.chunk_size = head.chunk_size;
-
-                // We are past this weird chunk! Continue
+                // Not a data chunk, skip its data
                 // TODO: Should we save these chunks somewhere?
 
-                this->total_read += this->head.chunk_size;
+                this->skip(this->head.chunk_size);
 
                 continue;
             }
-- 
2.43.0


From 301ba920d7b48df81655de3e86852f1ef9b9c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 24/55] fix: wave reader skips the pad byte of odd chunks

---
 src/io/wav.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 7fb0486..a528159 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -239,6 +239,7 @@ void WaveReader::start() {
 
         this->skip(chead.chunk_size -
                    (WavFormat::size() - ChunkHeader::size()));
+        this->skip(chead.chunk_size & 1U);
     }
 
     // Set the values from the format chunk:
@@ -334,6 +335,10 @@ BufferPointer WaveReader::get_data() {
 
                 this->skip(this->head.chunk_size);
 
+                // Chunks of odd size are padded:
+
+                this->skip(this->head.chunk_size & 1U);
+
                 continue;
             }
 
@@ -396,6 +401,13 @@ BufferPointer WaveReader::get_data() {
 
         this->chunk_read += to_read;
 
+        // Chunks of odd size are padded:
+
+        if (this->needs_chunk) {
+
+            this->skip(head.chunk_size & 1U);
+        }
+
         // Determine which type to read in:
 
         if (this->get_bits_per_sample() == 16) {
-- 
2.43.0


From a12ed029135f639d2c4858676268dfa9771c2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 25/55] fix: wave reader handles data chunks of two gigabytes
 and more

---
 include/maec/io/wav.hpp |  2 +-
 src/io/wav.cpp          | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 287473a..ee889ce 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -607,7 +607,7 @@ private:
     int buffer_size = 0;
 
     /// Number of bytes read from chunk
-    int chunk_read = 0;
+    int64_t chunk_read = 0;
 
     /// Total number of bytes read
     uint32_t total_read = 0;
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index a528159..08ba871 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -363,12 +363,13 @@ BufferPointer WaveReader::get_data() {
         // We either read the entire buffer size,
         // or the number of bytes left in this chunk, whichever is smallest
 
-        const int buffer_bytes =
-            (this->buffer_size * this->get_channels() - read) *
+        const int64_t buffer_bytes =
+            static_cast<int64_t>(this->buffer_size * this->get_channels() -
+                                 read) *
             this->get_bytes_per_sample();
 
-        const int chunk_bytes =
-            static_cast<int>(head.chunk_size - this->chunk_read);
+        const int64_t chunk_bytes =
+            static_cast<int64_t>(head.chunk_size) - this->chunk_read;
 
         int to_read = 0;
 
@@ -379,14 +380,14 @@ BufferPointer WaveReader::get_data() {
 
             this->needs_chunk = true;
 
-            to_read = chunk_bytes;
+            to_read = static_cast<int>(chunk_bytes);
         }
 
         else {
 
             // Chunk is big enough, read size of vector:
 
-            to_read = buffer_bytes;
+            to_read = static_cast<int>(buffer_bytes);
         }
 
         // Read data into vector:
-- 
2.43.0


From f52c4d1f4b46de059e2db8fda3cc355f409c3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 26/55] fix: reading and writing a 16 bit sample gives the same
 sample

---
 src/audio_buffer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/audio_buffer.cpp b/src/audio_buffer.cpp
index 6c487cd..3834a45 100644
--- a/src/audio_buffer.cpp
+++ b/src/audio_buffer.cpp
@@ -76,6 +76,13 @@ unsigned char mf_uchar(double val) {
 
 double int16_mf(int16_t val) {
 
+    if (val < 0) {
+
+        // Divide by largest negative value:
+
+        return static_cast<double>(val) / 32768.;
+    }
+
     // Divide by largest value:
 
     return static_cast<double>(val) / 32767.;
-- 
2.43.0


From 2aec3791a8d28bde4b4165ea84ae31f55c3626d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 27/55] fix: samples out of range saturate when converted to
 integers

---
 src/audio_buffer.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/audio_buffer.cpp b/src/audio_buffer.cpp
index 3834a45..6c15971 100644
--- a/src/audio_buffer.cpp
+++ b/src/audio_buffer.cpp
@@ -11,6 +11,7 @@
 
 #include "audio_buffer.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <memory>
@@ -36,6 +37,10 @@ double mf_null(double val) { return val; }
 
 int16_t mf_int16(double val) {
 
+    // Values out of range can not be represented, saturate:
+
+    val = std::clamp(val, -1., 1.);
+
     if (val < 0) {
 
         return static_cast<int16_t>(val * 32768);
@@ -48,6 +53,10 @@ int16_t mf_int16(double val) {
 
 uint16_t mf_uint16(double val) {
 
+    // Values out of range can not be represented, saturate:
+
+    val = std::clamp(val, -1., 1.);
+
     // Add, multiply, and return:
 
     return static_cast<uint16_t>(std::round(((val + 1) / 2) * 65535));
@@ -55,6 +64,10 @@ uint16_t mf_uint16(double val) {
 
 char mf_char(double val) {
 
+    // Values out of range can not be represented, saturate:
+
+    val = std::clamp(val, -1., 1.);
+
     if (val < 0) {
 
         // return special value:
@@ -69,6 +82,10 @@ char mf_char(double val) {
 
 unsigned char mf_uchar(double val) {
 
+    // Values out of range can not be represented, saturate:
+
+    val = std::clamp(val, -1., 1.);
+
     // Add, divide, multiply:
 
     return static_cast<unsigned char>(std::round(((val + 1.) / 2.) * 255.));
-- 
2.43.0


From ad97f5181abf46b4ea007983daf57895a3ba54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 28/55] fix: wave reader stops instead of looping when a sample
 has no bytes

---
 src/io/wav.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 08ba871..0dd1dd4 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -317,6 +317,13 @@ BufferPointer WaveReader::get_data() {
 
     int read = 0;
 
+    // Data with less than a byte for each sample can not be read:
+
+    if (this->get_bytes_per_sample() <= 0) {
+
+        this->stop();
+    }
+
     // Loop as long as our mstream is valid
     while (!this->done() && read < buffer_size * this->get_channels()) {
 
-- 
2.43.0


From 1f7bfef3b542fe7fc5f5be70f1e44e51039a23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 29/55] fix: wave readers and writers can be started again

---
 src/io/wav.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 0dd1dd4..27a95f6 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -177,6 +177,12 @@ void UnknownChunk::encode(BaseMOStream& stream) {
 
 void WaveReader::start() {
 
+    // Nothing has been read yet:
+
+    this->total_read = 0;
+    this->chunk_read = 0;
+    this->needs_chunk = true;
+
     // First, start the stream:
 
     stream->start();
@@ -472,6 +478,10 @@ BufferPointer WaveReader::get_data() {
 
 void WaveWriter::start() {
 
+    // Nothing has been written yet:
+
+    this->set_size(0);
+
     // First, create the wave header:
 
     WavHeader whead;
-- 
2.43.0


From c93a0b4e68e8de969810ff121689e896aa001a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 30/55] fix: wave source can be created

---
 include/maec/io/wav.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index ee889ce..3c25377 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -726,6 +726,7 @@ private:
  * 
  */
 class WaveSource : public SourceModule, public WaveReader {
+public:
 
     WaveSource() = default;
 
-- 
2.43.0


From fc3811e33efdbb8c842264d89e498cebcbd74e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 31/55] fix: let constant iterators be added, subtracted and
 subscripted

---
 include/maec/dsp/buffer.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 5862f6d..c2e50d2 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -281,7 +281,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const unsigned int& num) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -295,7 +295,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const int64_t& num) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -310,7 +310,7 @@ public:
      */
     iterator_type operator+(
         const long unsigned int& num) const {  // NOLINT(google-runtime-int)
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -325,7 +325,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const I& iter) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += iter.get_index();
         return tmp;
     }
@@ -359,7 +359,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator-(const iterator_type& iter) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp -= iter.get_index();
         return tmp;
     }
@@ -455,7 +455,7 @@ public:
      */
     reference operator[](int val) const {
 
-        return *(static_cast<iterator_type*>(this)->resolve_pointer(val));
+        return *(static_cast<const I*>(this)->resolve_pointer(val));
     }
 
     /**
@@ -1949,7 +1949,7 @@ public:
          * with. This method is called automatically where necessary.
          *
          */
-        T* resolve_pointer(int index) {
+        T* resolve_pointer(int index) const {
             return this->buff->buff.data() + this->buff->normalize_index(index);
         }
 
-- 
2.43.0


From 4006418f85ee330b22fd0993bab7a9c4baa5da7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 32/55] fix: return the pointer to the current sample from
 base() of iterators

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index c2e50d2..b0ef3ad 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -491,7 +491,7 @@ public:
      *
      * @return pointer
      */
-    pointer base() const { return &(this->point); }
+    pointer base() const { return this->point; }
 
 private:
     /// Current pointer we are on
-- 
2.43.0


From a848231245b64367996e91fe724c2feb92560a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 33/55] fix: make shrink() of buffers compile

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index b0ef3ad..c1e82a7 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1746,7 +1746,7 @@ public:
      * For more info.
      *
      */
-    constexpr void shrink() { this->buff.shrink_to_fit(); }
+    constexpr void shrink() { this->get_buff().shrink_to_fit(); }
 
     /**
      * @brief Removes all values from vector
-- 
2.43.0


From 1b3224c362788e95608175e10c78c48f11d733a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 34/55] fix: wrap negative indexes of a ring buffer around

---
 include/maec/dsp/buffer.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index c1e82a7..26fd3fd 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1895,7 +1895,13 @@ protected:
      * @param nindex Index to normalize
      * @return Normalized index
      */
-    int normalize_index(int nindex) const { return nindex % this->size(); }
+    int normalize_index(int nindex) const {
+
+        const int size = static_cast<int>(this->size());
+        const int rem = nindex % size;
+
+        return rem < 0 ? rem + size : rem;
+    }
 
 public:
     /**
-- 
2.43.0


From 1376a71b7387eb2e990f9ed9ecac00090285ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 35/55] fix: feed the most recent outputs back in an IIR filter

---
 include/maec/dsp/iir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index c49856a..35c2848 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -231,7 +231,7 @@ private:
             // We then multiply the output value by the B coefficient,
             // and add it to the final value:
 
-            final_value += outputs[index - i] * bcoes[i];
+            final_value += outputs[index - 1 - i] * bcoes[i];
         }
 
         // Add final value to container
-- 
2.43.0


From d72ee77b5286aa7e25f6885a1c27f85be76bb42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 36/55] fix: compute single pole coefficients from the cutoff
 fraction

---
 include/maec/dsp/iir.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 35c2848..09bd56e 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -642,7 +642,7 @@ public:
 
             // Determine the X value:
 
-            double xval = this->frac_to_x(this->get_freq_high());
+            double xval = this->frac_to_x(this->get_frac_high());
 
             // Generate A & B coefficients:
 
@@ -663,14 +663,14 @@ public:
 
             // Determine the x value:
 
-            double xval = this->frac_to_x(this->get_freq_low());
+            double xval = this->frac_to_x(this->get_frac_low());
 
             // Generate A & B coefficients:
 
             this->set_a(0, (1 + xval) / 2);
             this->set_a(1, -(1 + xval) / 2);
 
-            this->set_b(0, this->get_freq_low());
+            this->set_b(0, xval);
         }
     }
 };
-- 
2.43.0


From fc147d0b144fc46681f74172cb1be25b70fae077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 37/55] fix: size the history of an IIR filter for any number
 of coefficients

---
 include/maec/dsp/iir.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 09bd56e..01965cc 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -261,15 +261,18 @@ public:
      */
     void reserve() {
 
-        // Resize the input and output buffers to the size of the number of
-        // poles:
+        // Resize the input and output buffers to the max of the number of
+        // A and B poles, they share the index and are never empty:
 
-        this->inputs.resize(this->acoes.size());
-        this->outputs.resize(this->bcoes.size());
+        const std::size_t size = std::max<std::size_t>(
+            std::max(this->acoes.size(), this->bcoes.size()), 1);
 
-        // The index should be the max of the number of A and B poles:
+        this->inputs.resize(size);
+        this->outputs.resize(size);
 
-        this->index = std::max(this->acoes.size(), this->bcoes.size());
+        // The index should be the size of the buffers:
+
+        this->index = size;
     }
 
     /**
@@ -284,7 +287,10 @@ public:
      *
      * @param size New number of A coefficients
      */
-    void set_asize(int size) { this->acoes.resize(size); }
+    void set_asize(int size) {
+        this->acoes.resize(size);
+        this->reserve();
+    }
 
     /**
      * @brief Gets the number of B coefficients
@@ -298,7 +304,10 @@ public:
      *
      * @param size New number of B coefficients
      */
-    void set_bsize(int size) { this->bcoes.resize(size); }
+    void set_bsize(int size) {
+        this->bcoes.resize(size);
+        this->reserve();
+    }
 
     /**
      * @brief Retrieves a start iterator for the A coefficient vector
-- 
2.43.0


From 09067092b893e0bbbd1b81769274e57a60123631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 38/55] fix: keep the index of an IIR filter in range on long
 signals

---
 include/maec/dsp/iir.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 01965cc..ba19a96 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -239,6 +239,13 @@ private:
 
         outputs[index++] = final_value;
 
+        // Keep the index small, the buffers repeat after their size:
+
+        if (index == 2 * inputs.size()) {
+
+            index = inputs.size();
+        }
+
         // Finally, return final value:
 
         return final_value;
-- 
2.43.0


From 203a3445b6afc56f47c509e677d6d75fd534dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 39/55] fix: filter each channel of a signal on its own, and
 keep its channels and sample rate

---
 include/maec/filter_module.hpp | 78 +++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/include/maec/filter_module.hpp b/include/maec/filter_module.hpp
index dc7634c..579cafc 100644
--- a/include/maec/filter_module.hpp
+++ b/include/maec/filter_module.hpp
@@ -142,10 +142,10 @@ private:
     /// Size of the filter kernel
     int size = 51;
 
-    /// Overlap-add tail buffer: holds the last (kernel_size - 1) samples
-    /// from the previous block's convolution output that must be added
-    /// to the beginning of the next block's output.
-    std::vector<double> overlap_tail;
+    /// Overlap-add tail buffers, one for each channel: hold the last
+    /// (kernel_size - 1) samples from the previous block's convolution output
+    /// that must be added to the beginning of the next block's output.
+    std::vector<std::vector<double>> overlap_tail;
 
 public:
     /**
@@ -222,43 +222,63 @@ public:
         // Grab the input block:
 
         auto ibuff = this->get_buffer();
-        const std::size_t input_size = ibuff.size();
+        const std::size_t channels = ibuff.channels();
+        const std::size_t input_size = ibuff.size() / channels;
         const std::size_t kernel_size = this->kernel->size();
 
-        // Allocate a full convolution output buffer (N + M - 1 samples)
-        // zero-initialised so the overlap-add accumulation is correct:
+        this->overlap_tail.resize(channels);
 
-        std::vector<double> conv_out(dsp::conv::length_conv(input_size, kernel_size), 0.0);
+        // Each channel is a signal of its own:
 
-        // Run the convolution:
+        std::vector<double> signal(input_size);
 
-        dsp::conv::input_conv(ibuff.ibegin(), input_size, this->kernel->ibegin(),
-                   kernel_size, conv_out.begin());
+        for (std::size_t chan = 0; chan < channels; ++chan) {
 
-        // Overlap-add: fold the saved tail from the previous block
-        // The tail holds the last (M - 1) samples from the previous full
-        // convolution.  They overlap with the first (M - 1) samples of the
-        // current convolution output, so we add them in place:
+            auto& tail = this->overlap_tail[chan];
 
-        const std::size_t prev_tail = this->overlap_tail.size();
-        for (std::size_t i = 0; i < prev_tail; ++i) {
-            conv_out[i] += this->overlap_tail[i];
-        }
+            for (std::size_t i = 0; i < input_size; ++i) {
+                signal[i] = *(ibuff.ibegin() + (i * channels + chan));
+            }
+
+            // Allocate a full convolution output buffer (N + M - 1 samples,
+            // or more if a longer kernel left a longer tail)
+            // zero-initialised so the overlap-add accumulation is correct:
 
-        // Save new tail for the next block
+            std::vector<double> conv_out(
+                std::max<std::size_t>(
+                    dsp::conv::length_conv(input_size, kernel_size),
+                    tail.size()),
+                0.0);
 
-        this->overlap_tail.assign(conv_out.begin() + input_size,
-                                  conv_out.end());
+            // Run the convolution:
 
-        // Trim output to exactly N samples and set on the buffer
-        // Only the first input_size samples are forwarded downstream;
-        // the tail will be contributed to the next block via overlap_tail.
+            dsp::conv::input_conv(signal.begin(), input_size,
+                                  this->kernel->ibegin(), kernel_size,
+                                  conv_out.begin());
+
+            // Overlap-add: fold the saved tail from the previous block
+            // The tail holds the last (M - 1) samples from the previous full
+            // convolution.  They overlap with the first (M - 1) samples of the
+            // current convolution output, so we add them in place:
+
+            for (std::size_t i = 0; i < tail.size(); ++i) {
+                conv_out[i] += tail[i];
+            }
 
-        auto nbuff = AudioBuffer(input_size, 1);
-        std::copy(conv_out.begin(), conv_out.begin() + input_size,
-                  nbuff.ibegin());
+            // Save new tail for the next block
+
+            tail.assign(conv_out.begin() + input_size, conv_out.end());
+
+            // Trim output to exactly N samples and set on the buffer
+            // Only the first input_size samples are forwarded downstream;
+            // the tail will be contributed to the next block via overlap_tail.
+
+            for (std::size_t i = 0; i < input_size; ++i) {
+                *(ibuff.ibegin() + (i * channels + chan)) = conv_out[i];
+            }
+        }
 
-        this->set_buffer(std::move(nbuff));
+        this->set_buffer(std::move(ibuff));
     }
 };
 
-- 
2.43.0


From 3e29c888172f25f218eb6df2a1ab12c8937b9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 40/55] fix: sinc of zero is one, a filter with a cutoff of
 zero gave no numbers

---
 include/maec/dsp/util.hpp | 2 +-
 src/dsp/util.cpp          | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/util.hpp b/include/maec/dsp/util.hpp
index 5c07f50..3427564 100644
--- a/include/maec/dsp/util.hpp
+++ b/include/maec/dsp/util.hpp
@@ -75,7 +75,7 @@ void bit_reverse(int size, I iter) {
  *
  * Which produces a sine wave that decays in amplitude
  * as x becomes bigger.
- * Of course, 0 should never be provided to this function!
+ * The value at 0 is the limit, which is 1.
  *
  * @param x Current value to compute
  */
diff --git a/src/dsp/util.cpp b/src/dsp/util.cpp
index c7fce9e..cfef556 100644
--- a/src/dsp/util.cpp
+++ b/src/dsp/util.cpp
@@ -15,6 +15,12 @@
 
 double dsp::util::sinc(double x) {
 
+    // The limit at zero is one:
+
+    if (x == 0) {
+        return 1.;
+    }
+
     // Calculate and return:
 
     return std::sin(x) / x;
-- 
2.43.0


From cb6c2e69524f06241781502d0cc693cfaa3fbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 41/55] fix: add up a dot product in the type of its values

---
 include/maec/dsp/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index b28523b..1ff3b1d 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -56,7 +56,7 @@ namespace dsp::mat {
 template <typename A, typename B, typename T = typename std::iterator_traits<A>::value_type>
 T dot_product(const A& aiter, const B& biter, int num) {
 
-    int done = 0;
+    T done = 0;
 
     // Iterate over each value in the provided iterators:
 
-- 
2.43.0


From 00199029d5ac884c35037866f591d814a435a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 42/55] fix: give a matrix product the shape of its factors, it
 could not be instantiated

---
 include/maec/dsp/matrix.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index 1ff3b1d..47fcb85 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -53,7 +53,7 @@ namespace dsp::mat {
  * @param num Number of values to compute
  * @return Scalar result of dot product
  */
-template <typename A, typename B, typename T = typename std::iterator_traits<A>::value_type>
+template <typename A, typename B, typename T = std::remove_cv_t<typename std::iterator_traits<A>::value_type>>
 T dot_product(const A& aiter, const B& biter, int num) {
 
     T done = 0;
@@ -114,7 +114,7 @@ T dot_product(const A& aiter, const B& biter, int num) {
  * of the input matrixes.
  * Also, if the provided matrixes have a different number of rows and columns,
  * then this operation will fail!
- * The number of rows in A MUST equal the number of columns in B!
+ * The number of columns in A MUST equal the number of rows in B!
  * 
  * This operation is NOT communicative!
  * You may get very different results if you switch the order of A and B.
@@ -129,18 +129,23 @@ T dot_product(const A& aiter, const B& biter, int num) {
 template <typename T, typename U, typename V>
 void matrix_mult(const dsp::buff::Buffer<T>& buf1, const dsp::buff::Buffer<U>& buf2, dsp::buff::Buffer<V>& out) {
 
+    // Determine the size of the product:
+
+    const int rows = static_cast<int>(buf1.channels());
+    const int cols = static_cast<int>(buf2.channel_capacity());
+
     // Configure the out buffer to match our size:
 
-    out.set_channels(buf2.channels());
-    out.set_channel_capacity(buf1.channel_capacity());
+    out.set_channels(rows);
+    out.resize(rows * cols);
 
     // Iterate over the rows:
 
-    for (int row = 0; row < buf1.channel_capacity(); ++row) {
+    for (int row = 0; row < rows; ++row) {
 
         // Iterate over the cols:
 
-        for (int col = 0; col < buf2.channels(); ++col) {
+        for (int col = 0; col < cols; ++col) {
 
             // Grab the iterators:
 
-- 
2.43.0


From e67c59c177a194680fcb27ed46276cf8327bdd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 43/55] fix: convolve with the FFT at a power of two that holds
 the output, it could not be instantiated

---
 include/maec/dsp/conv.hpp | 40 ++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/include/maec/dsp/conv.hpp b/include/maec/dsp/conv.hpp
index d72b35a..9e9f9ac 100644
--- a/include/maec/dsp/conv.hpp
+++ b/include/maec/dsp/conv.hpp
@@ -27,6 +27,8 @@
 #pragma once
 
 #include "audio_buffer.hpp"
+#include "dsp/ft.hpp"
+#include "dsp/util.hpp"
 
 namespace dsp::conv {
 
@@ -289,39 +291,47 @@ void conv_fft(I input, int input_size, K kernel, int kernel_size, O output) {
 
     int output_size = length_conv(input_size, kernel_size);
 
+    // The FFT works on powers of two that hold the whole output:
+
+    int size = 2;
+
+    while (size < output_size) {
+        size *= 2;
+    }
+
+    const int bins = static_cast<int>(dsp::ft::length_ft(size));
+
     // Next, create new vectors for input and kernel
     // TODO: RESEARCH OTHER METHODS! This can take a lot of memory...
     // Not to mention being super slow in theory...
+    // Everything after the content is zero
 
-    std::vector<double> pinput(output_size);
-    std::vector<double> pkernel(output_size);
+    std::vector<double> pinput(size);
+    std::vector<double> pkernel(size);
 
     // Fill normal content:
 
     std::copy_n(input, input_size, pinput.begin());
     std::copy_n(kernel, kernel_size, pkernel.begin());
 
-    // Fill in zero components:
-
-    std::fill_n(pinput.begin() + input_size, output_size - input_size, 0.0);
-    std::fill_n(pkernel.begin() + kernel_size, output_size - kernel_size, 0.0);
-
     // For now, define array for output data:
 
-    std::vector<std::complex<double>> infp(output_size);
-    std::vector<std::complex<double>> kernfp(output_size);
-    std::vector<std::complex<double>> outf(output_size);
+    std::vector<std::complex<double>> infp(bins);
+    std::vector<std::complex<double>> kernfp(bins);
+    std::vector<std::complex<double>> outf(bins);
 
-    fft_r_radix2(input, input_size, infp.begin());
-    fft_r_radix2(kernel, kernel_size, kernfp.begin());
+    dsp::ft::fft_r_radix2(pinput.begin(), size, infp.begin());
+    dsp::ft::fft_r_radix2(pkernel.begin(), size, kernfp.begin());
 
     // Multiply signals:
 
-    util::multiply_signals(output_size, infp.begin(), kernfp.begin(), outf.begin());
+    util::multiply_signals(bins, infp.begin(), kernfp.begin(), outf.begin());
+
+    // Send the product back through inverse FFT:
 
-    // Send inputs back through inverse FFT:
+    dsp::ft::ifft_r_radix2(outf.begin(), bins, pinput.begin());
 
-    ifft_r_radix2(outf.begin(), output_size, output);
+    std::copy_n(pinput.begin(), output_size, output);
 }
 
 }  // namespace dsp::conv
-- 
2.43.0


From 0141b6884bd27294ea67c38ea2438340863a2f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 44/55] fix: open an ALSA device once when describing it, and
 accept devices without a name or description

---
 src/io/alsa_module.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 4966221..848258d 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -37,8 +37,10 @@ void DeviceInfo::create_device(void** hint, int id) {
 
     // Set name and description:
 
-    this->name = std::string(n);
-    this->description = std::string(descr);
+    // (a device may lack either of them)
+
+    this->name = n != nullptr ? std::string(n) : std::string();
+    this->description = descr != nullptr ? std::string(descr) : std::string();
 
     // Determine the IO type:
 
@@ -73,21 +75,7 @@ void DeviceInfo::create_device(void** hint, int id) {
     free(descr);
     free(io);
 
-    // Now, get our device:
-
-    snd_pcm_t* pcm = nullptr;
-
-    int err =
-        snd_pcm_open(&pcm, this->name.c_str(), SND_PCM_STREAM_PLAYBACK, 0);
-
-    if (err != 0) {
-
-        // We have encountered an error, DO NOT CONTINUE!
-
-        this->load_fail = true;
-
-        return;
-    }
+    // Now, query our device:
 
     this->update();
 }
-- 
2.43.0


From 9802a0cd5116026846196a39da88697cace7a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 45/55] fix: free the hardware of an ALSA device before closing
 it, and forget the closed device

---
 src/io/alsa_module.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 848258d..7e6753a 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -165,8 +165,8 @@ void DeviceInfo::update() {
 
     // Do some freeing:
 
-    snd_pcm_close(pcm);
     snd_pcm_hw_free(pcm);
+    snd_pcm_close(pcm);
 }
 
 int ALSABase::get_device_count() {
@@ -359,17 +359,25 @@ void ALSABase::alsa_start() {
 
 void ALSABase::alsa_stop() {
 
+    // Nothing to do if there is no open device:
+
+    if (this->pcm == nullptr) {
+        return;
+    }
+
     // Drain the device:
 
     snd_pcm_drain(this->pcm);
 
+    // Free the hardware:
+
+    snd_pcm_hw_free(this->pcm);
+
     // Close the PCM device:
 
     snd_pcm_close(this->pcm);
 
-    // Free the hardware:
-
-    snd_pcm_hw_free(this->pcm);
+    this->pcm = nullptr;
 }
 
 void ALSASink::process() {
-- 
2.43.0


From 6409a8a921eedb8531afb0bc28fd935cc5d2d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 46/55] fix: do not configure or write to an ALSA device that
 could not be opened

---
 src/io/alsa_module.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 7e6753a..25767db 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -298,6 +298,16 @@ void ALSABase::alsa_start() {
     int err = snd_pcm_open(&(this->pcm), this->device.name.c_str(),
                            SND_PCM_STREAM_PLAYBACK, 0);
 
+    if (err != 0) {
+
+        // The device could not be opened, there is nothing to configure:
+
+        this->pcm = nullptr;
+        this->device.load_fail = true;
+
+        return;
+    }
+
     // Allocate the hardware parameters:
 
     snd_pcm_hw_params_t* params = nullptr;
@@ -382,6 +392,12 @@ void ALSABase::alsa_stop() {
 
 void ALSASink::process() {
 
+    // Without an open device there is nowhere to send the data:
+
+    if (this->pcm == nullptr) {
+        return;
+    }
+
     // First, define our temporary vector:
 
     std::vector<int16_t> temp(buff.size() * buff.channels());
-- 
2.43.0


From 6d1c90dd613a3f2e4d19a4a5173cc966529fe744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 47/55] fix: send an ALSA device as many frames as the buffer
 holds, not as many as samples

---
 src/io/alsa_module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 25767db..168d3eb 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -400,7 +400,7 @@ void ALSASink::process() {
 
     // First, define our temporary vector:
 
-    std::vector<int16_t> temp(buff.size() * buff.channels());
+    std::vector<int16_t> temp(buff.size());
 
     // Next, squish it:
 
@@ -420,7 +420,7 @@ void ALSASink::process() {
 
     this->return_code =
         snd_pcm_writei(this->pcm, reinterpret_cast<int16_t*>(temp.data()),
-                       static_cast<snd_pcm_uframes_t>(temp.size()));
+                       static_cast<snd_pcm_uframes_t>(buff.channel_capacity()));
 
     if (this->return_code == -EPIPE) {
         // Underrun occurred
-- 
2.43.0


From 8048766d74c3da8a6548d54387340829463210db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 48/55] fix: check that a list of ALSA devices and the wanted
 device exist, and free the names

---
 src/io/alsa_module.cpp | 43 +++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 168d3eb..4b8b3a0 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -180,6 +180,13 @@ int ALSABase::get_device_count() {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
+    if (err != 0) {
+
+        // No list of devices:
+
+        return 0;
+    }
+
     n = hints;
 
     // Iterate until we reach the end:
@@ -207,17 +214,20 @@ DeviceInfo ALSABase::get_device_by_id(int index) {
     void** hints = nullptr;
     void** n = nullptr;
 
-    // Get specific device:
-
-    int err = snd_device_name_hint(-1, "pcm", &hints);
-
     // Ensure the given index is within our count:
     // Note: Using get_device_count() ensures we aren't repeating ourselves.
     // but is it the most efficient? Probably not...
 
-    if (index >= this->get_device_count()) {
-        // TODO: DO SOMETHING!
-        // NOT DOING SOMETHING WILL RESULT IN A SEG FAULT!!!!
+    if (index < 0 || index >= this->get_device_count() ||
+        snd_device_name_hint(-1, "pcm", &hints) != 0) {
+
+        // There is no such device:
+
+        DeviceInfo none;
+        none.id = index;
+        none.load_fail = true;
+
+        return none;
     }
 
     // Otherwise, seek n to the proper value:
@@ -248,18 +258,29 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
+    int id = 0;
+    DeviceInfo info;
+
+    if (err != 0) {
+
+        // No list of devices:
+
+        info.load_fail = true;
+
+        return info;
+    }
+
     n = hints;
 
     // Iterate over each device:
 
-    int id = 0;
-    DeviceInfo info;
-
     for (; *n != nullptr; ++n) {
 
         // Get the name from the hint:
 
-        std::string const hname(snd_device_name_get_hint(*n, "NAME"));
+        char* rname = snd_device_name_get_hint(*n, "NAME");
+        std::string const hname(rname != nullptr ? rname : "");
+        free(rname);
 
         // Determine if the name is our target:
 
-- 
2.43.0


From cd30cb747706df628c71f82c55259962ff72fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 49/55] fix: iterators compile in debug configurations

---
 include/maec/dsp/buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 26fd3fd..3b5325e 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -839,8 +839,8 @@ public:
             // causing broken functionality.
             // MSVC release mode and all other compilers don't have an issue
             // with this line
-            return static_cast<int>(index / this->buff.channel_capacity()) %
-                   this->buff.channels();
+            return static_cast<int>(index / this->buff->channel_capacity()) %
+                   static_cast<int>(this->buff->channels());
 #else
             return static_cast<int>(index / this->buff->channel_capacity());
 #endif
-- 
2.43.0


From 8873ec7105552b49028d21976c9472e52e1cf809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 50/55] fix: chunk size constants have a definition

---
 include/maec/io/wav.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 3c25377..d5001ef 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -55,7 +55,7 @@ struct ChunkHeader {
     uint32_t chunk_size = 0;
 
     /// Size of chunk data
-    static const uint32_t csize = 4 + 4;
+    static constexpr uint32_t csize = 4 + 4;
 
     /**
      * @brief Determines the size of this chunk
@@ -108,7 +108,7 @@ struct WavHeader : public ChunkHeader {
     std::string format = "WAVE";
 
     /// Size of this chunk
-    static const uint32_t csize = ChunkHeader::size() + 4;
+    static constexpr uint32_t csize = ChunkHeader::size() + 4;
 
     /**
      * @brief Returns the size of this chunk
@@ -169,7 +169,7 @@ struct WavFormat : public ChunkHeader {
     uint16_t bits_per_sample = 0;
 
     /// Size of this chunk
-    static const uint32_t csize = 2 + 2 + 4 + 4 + 2 + 2 + ChunkHeader::size();
+    static constexpr uint32_t csize = 2 + 2 + 4 + 4 + 2 + 2 + ChunkHeader::size();
 
     /**
      * @brief Returns the size of this chunk
-- 
2.43.0


From 232b62c010fd8538c0de1e6004cbb0cd13dc926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 51/55] fix: device ids, parameter lists, filter types and
 buffer iterators no longer start indeterminate

---
 include/maec/dsp/buffer.hpp     | 4 ++--
 include/maec/dsp/iir.hpp        | 2 +-
 include/maec/io/alsa_module.hpp | 2 +-
 include/maec/module_param.hpp   | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 3b5325e..e93188b 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -847,7 +847,7 @@ public:
         }
 
         /// Audio Buffer we are iterating over
-        BufferType* buff;
+        BufferType* buff = nullptr;
     };
 
     /**
@@ -1061,7 +1061,7 @@ public:
         }
 
         /// Buffer we are iterating over
-        BufferType* buff;
+        BufferType* buff = nullptr;
     };
 
     /**
diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index ba19a96..820f3c1 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -475,7 +475,7 @@ private:
     double freq_low = 0.;
 
     /// Filter type
-    dsp::consts::FilterType type;
+    dsp::consts::FilterType type = dsp::consts::FilterType::LowPass;
 
 public:
     /**
diff --git a/include/maec/io/alsa_module.hpp b/include/maec/io/alsa_module.hpp
index b9ef444..c66de7d 100644
--- a/include/maec/io/alsa_module.hpp
+++ b/include/maec/io/alsa_module.hpp
@@ -82,7 +82,7 @@
 struct DeviceInfo {
 
     /// The id of this device
-    int id;
+    int id = 0;
 
     /// The name of this device
     std::string name;
diff --git a/include/maec/module_param.hpp b/include/maec/module_param.hpp
index 2583f28..9667000 100644
--- a/include/maec/module_param.hpp
+++ b/include/maec/module_param.hpp
@@ -159,7 +159,7 @@ template <int num>
 class BaseParamModule {
 private:
     /// Array containing the module parameters
-    std::array<ModuleParam*, num> params;
+    std::array<ModuleParam*, num> params{};
 
 public:
     BaseParamModule() = default;
-- 
2.43.0


From effff50a98e8108f6bf82d56da9a249cfa9e31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 52/55] fix: streams are destroyed whole through a pointer to
 their base

---
 include/maec/io/mstream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/maec/io/mstream.hpp b/include/maec/io/mstream.hpp
index cc02a31..759123e 100644
--- a/include/maec/io/mstream.hpp
+++ b/include/maec/io/mstream.hpp
@@ -57,6 +57,9 @@ public:
     /// State definition
     enum mstate { init, started, stopped, err };
 
+    /// Streams can be destroyed through any of their bases
+    virtual ~BaseMStream() = default;
+
     /**
      * @brief Asks the mstream to seek to a position
      * 
-- 
2.43.0


From af78dbd4e6477be08ac2c4a77571e4baf2ac575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 53/55] fix: filter implementations are destroyed whole through
 a pointer to their base

---
 include/maec/dsp/iir.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 820f3c1..8dbcb38 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -478,6 +478,9 @@ private:
     dsp::consts::FilterType type = dsp::consts::FilterType::LowPass;
 
 public:
+    /// Filter implementations can be destroyed through their base
+    virtual ~BaseIIRImplementation() = default;
+
     /**
      * @brief Gets the high fraction cutoff
      *
-- 
2.43.0


From 34f40b65bb68c42e0560b71d3d343101f8a4033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 54/55] fix: a moved modulated oscillator manages its own
 parameter, not that of the object it was moved from

---
 include/maec/base_oscillator.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/maec/base_oscillator.hpp b/include/maec/base_oscillator.hpp
index a84902f..52a06cc 100644
--- a/include/maec/base_oscillator.hpp
+++ b/include/maec/base_oscillator.hpp
@@ -11,6 +11,8 @@
 
 #pragma once
 
+#include <utility>
+
 #include "module_param.hpp"
 #include "source_module.hpp"
 
@@ -132,6 +134,22 @@ public:
     BaseModulatedOscillator(double freqv)
         : ParamSource<1>(&freq), freq(freqv) {}
 
+    /// A moved oscillator manages its own parameter, never the one of the
+    /// oscillator it was moved from
+    BaseModulatedOscillator(BaseModulatedOscillator&& other) noexcept
+        : ParamSource<1>(static_cast<ParamSource<1>&&>(other)),
+          phase(other.phase), freq(std::move(other.freq)) {
+        this->get_array()->front() = &freq;
+    }
+
+    BaseModulatedOscillator& operator=(BaseModulatedOscillator&& other) {
+        ParamSource<1>::operator=(static_cast<ParamSource<1>&&>(other));
+        this->phase = other.phase;
+        this->freq = std::move(other.freq);
+        this->get_array()->front() = &freq;
+        return *this;
+    }
+
     /**
      * @brief Gets the frequency parameter
      *
-- 
2.43.0


From fdfcb48c323f0bb7950353cc9bfd74abbf696ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 55/55] fix: a moved parameter stands in front of the constant
 it takes over

---
 include/maec/module_param.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/maec/module_param.hpp b/include/maec/module_param.hpp
index 9667000..634ebec 100644
--- a/include/maec/module_param.hpp
+++ b/include/maec/module_param.hpp
@@ -75,6 +75,13 @@ private:
     /// Pointer to ConstModule
     std::unique_ptr<ConstModule> const_mod = nullptr;
 
+    /// Places us in front of the constant module we own, if any
+    void claim_constant() {
+        if (this->const_mod) {
+            this->const_mod->forward(this);
+        }
+    }
+
 public:
     ModuleParam() = default;
 
@@ -99,6 +106,21 @@ public:
      */
     ModuleParam(AudioModule<>* imod) { this->link(imod); }
 
+    /// A moved parameter is the one in front of the constant it now owns
+    ModuleParam(ModuleParam&& other) noexcept
+        : SinkModule<>(std::move(other)), value(other.value),
+          const_mod(std::move(other.const_mod)) {
+        this->claim_constant();
+    }
+
+    ModuleParam& operator=(ModuleParam&& other) {
+        SinkModule<>::operator=(std::move(other));
+        this->value = other.value;
+        this->const_mod = std::move(other.const_mod);
+        this->claim_constant();
+        return *this;
+    }
+
     /**
      * @brief Gets the current buffer
      *
-- 
2.43.0

