From f95d302d0fffff28640dbe3771c4fbb21eb7e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 01/31] fix: do not lose the wake-up of a parallel stage that
 is being stopped

---
 include/maec/parallel.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index cd63c04..d5018dc 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -197,9 +197,14 @@ public:
 
         AudioModule<>::stop();
 
-        // Set the done value to be true
+        // Set the done value to be true.
+        // This has to happen under the lock, otherwise a thread that has just
+        // checked for it and is about to wait would miss the notification.
 
-        done = true;
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+            done = true;
+        }
 
         // Notify all condition variables
 
-- 
2.43.0


From 50723cbf2dc33a371d21ee1e6612097fb45c37af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 02/31] fix: let a waiting parallel worker notice a raised
 queue limit

---
 include/maec/parallel.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index d5018dc..fe8e9ea 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -129,7 +129,17 @@ public:
      *
      * @param size New queue size
      */
-    void max_size(std::size_t size) { qsize = size; }
+    void max_size(std::size_t size) {
+
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+            qsize = size;
+        }
+
+        // There may be room for more buffers now, let the worker know
+
+        cv.notify_all();
+    }
 
     /**
      * @brief Gets the current size of the queue
-- 
2.43.0


From df4aab6cae7ef27f0b2329531a93e78c47ad659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 03/31] fix: end the worker of a parallel stage on destruction
 and restart

---
 include/maec/parallel.hpp | 67 ++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index fe8e9ea..cf1f408 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -106,9 +106,43 @@ private:
         }
     }
 
+    /**
+     * @brief Asks the running thread to end and waits for it
+     *
+     * If this is called from the running thread itself then we can't wait for
+     * it. The thread ends on it's own in this case,
+     * and is joined by the next call made from another thread.
+     */
+    void halt() {
+
+        // Set the done value to be true.
+        // This has to happen under the lock, otherwise a thread that has just
+        // checked for it and is about to wait would miss the notification.
+
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+            done = true;
+        }
+
+        // Notify all condition variables
+
+        this->cv.notify_all();
+
+        // Join the thread and wait for completion if possible.
+        // Joining from the thread itself would cause a resource deadlock.
+
+        if (this->thread.joinable() &&
+            this->thread.get_id() != std::this_thread::get_id()) {
+            this->thread.join();
+        }
+    }
+
 public:
     ParallelModule() = default;
 
+    /// Destructor, ends the running thread
+    ~ParallelModule() override { this->halt(); }
+
     /**
      * @brief Gets the maximum size of the queue
      *
@@ -168,6 +202,10 @@ public:
 
         AudioModule<>::start();
 
+        // A thread of an earlier start may still be around
+
+        this->halt();
+
         {
             // We grab the lock to ensure our next operation
             // on the queue is valid.
@@ -195,8 +233,8 @@ public:
      *
      * We also join the thread to enable a graceful shutdown,
      * so this method may block for some time.
-     * A check is in place to detatch the thread in case
-     * this is called from the running thread.
+     * A check is in place in case this is called from the running thread,
+     * which then ends once it is done with the current buffer.
      *
      * Please note, this will NOT clear the underlying queue!
      * Any values present will presist until this module has been started again.
@@ -207,30 +245,9 @@ public:
 
         AudioModule<>::stop();
 
-        // Set the done value to be true.
-        // This has to happen under the lock, otherwise a thread that has just
-        // checked for it and is about to wait would miss the notification.
-
-        {
-            std::lock_guard<std::mutex> lock(qmut);
-            done = true;
-        }
-
-        // Notify all condition variables
-
-        this->cv.notify_all();
+        // End the thread
 
-        // Join the thread and wait for completion if possible.
-        if (this->thread.joinable()) {
-            // If stop() is being called from the worker thread itself,
-            // attempting to join would cause a resource deadlock. In that
-            // case detach the std::thread object instead to avoid throwing.
-            if (this->thread.get_id() != std::this_thread::get_id()) {
-                this->thread.join();
-            } else {
-                this->thread.detach();
-            }
-        }
+        this->halt();
     }
 
     /**
-- 
2.43.0


From 0c9ec7408a4034ba2a5965d8957f4715846fabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 04/31] fix: never stop the modules behind a parallel stage
 while they are processing

---
 include/maec/parallel.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index cf1f408..4075098 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -250,6 +250,32 @@ public:
         this->halt();
     }
 
+    /**
+     * @brief Custom meta start operation
+     *
+     * State operations may not run while the thread processes the backward
+     * modules, so a thread that is still running is ended first.
+     */
+    void meta_start() override {
+
+        this->halt();
+
+        AudioModule<>::meta_start();
+    }
+
+    /**
+     * @brief Custom meta stop operation
+     *
+     * State operations may not run while the thread processes the backward
+     * modules, so we end the thread before we stop them.
+     */
+    void meta_stop() override {
+
+        this->halt();
+
+        AudioModule<>::meta_stop();
+    }
+
     /**
      * @brief Custom meta process operation
      *
-- 
2.43.0


From 03f9b663ac50c282f48c3fdfb8b7600326f6b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 05/31] fix: do not read past the end of an in-memory input
 stream

---
 src/io/mstream.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index c731d52..299e270 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -16,13 +16,29 @@
 
 void CharIStream::read(char* byts, int num) {
 
+    // Determine the number of bytes we can actually provide:
+
+    const std::size_t left =
+        this->index < this->arr.size() ? this->arr.size() - this->index : 0;
+    const std::size_t want = std::max(num, 0);
+    const std::size_t count = std::min(want, left);
+
     // Copy the contents over:
 
-    std::copy_n(arr.begin() + this->index, num, byts);
+    std::copy_n(arr.begin() + (this->arr.size() - left), count, byts);
 
     // Increment index:
 
-    this->index += num;
+    this->index += count;
+
+    // Determine if we ran out of data:
+
+    if (count < want) {
+
+        // Nothing left, same as the end of a file:
+
+        this->stop();
+    }
 }
 
 void CharOStream::write(char* byts, int num) {
-- 
2.43.0


From fa5594b27341e486ee7fa58140c4ea09434eb15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 06/31] fix: start wave readers and writers from scratch, and
 the writer's stream with it

---
 src/io/wav.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index c8302b0..d625c2b 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -177,7 +177,14 @@ void UnknownChunk::encode(BaseMOStream& stream) {
 
 void WaveReader::start() {
 
-    // First, start the stream:
+    // Forget anything about the file that was read before:
+
+    this->set_size(0);
+    this->total_read = 0;
+    this->chunk_read = 0;
+    this->needs_chunk = true;
+
+    // Next, start the stream:
 
     stream->start();
 
@@ -439,7 +446,18 @@ BufferPointer WaveReader::get_data() {
 
 void WaveWriter::start() {
 
-    // First, create the wave header:
+    // Nothing has been written to this file yet:
+
+    this->set_size(0);
+
+    // Start the stream, unless this has already been done:
+
+    if (this->stream->get_state() != BaseMOStream::started) {
+
+        this->stream->start();
+    }
+
+    // Next, create the wave header:
 
     WavHeader whead;
 
-- 
2.43.0


From 8f3cfd93953925931efbbb0f77ee25da870f991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 07/31] fix: locate the format chunk, skip its extensions and
 honour chunk padding in wave files

---
 include/maec/io/wav.hpp | 11 +++++++
 src/io/wav.cpp          | 63 +++++++++++++++++++++++++++--------------
 2 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 42dc25d..9156b13 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -594,6 +594,17 @@ private:
      */
     void read_format_chunk(WavFormat& chunk);
 
+    /**
+     * @brief Moves past the rest of a chunk
+     *
+     * We read the rest of the chunk, including the padding,
+     * and throw it away.
+     *
+     * @param chunk Header of the chunk
+     * @param used Number of bytes of the chunk that are already read
+     */
+    void skip_chunk(const ChunkHeader& chunk, uint32_t used);
+
     /// Size of buffer to output
     int buffer_size = 0;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index d625c2b..0d67042 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -219,19 +219,18 @@ void WaveReader::start() {
     this->set_size(head.chunk_size + 8);
 
     // Next, read the format chunk
-    // TODO: Is it always guaranteed that format will always be second chunk?
 
     ChunkHeader chead;
 
     this->read_chunk_header(chead);
 
-    // Determine this chunk is a format chunk:
+    // Other chunks may be present before the format chunk, ignore them:
 
-    if (chead.chunk_id != "fmt ") {
+    while (chead.chunk_id != "fmt " && !this->done()) {
 
-        // This chunk is not format chunk
-        // TODO: Gotta do something here
-        int dhd = 0;
+        this->skip_chunk(chead, 0);
+
+        this->read_chunk_header(chead);
     }
 
     // Read the wave format chunk
@@ -240,6 +239,10 @@ void WaveReader::start() {
 
     this->read_format_chunk(form);
 
+    // The format chunk may be larger than what we are interested in:
+
+    this->skip_chunk(chead, WavFormat::size() - ChunkHeader::size());
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
@@ -282,6 +285,30 @@ void WaveReader::read_format_chunk(WavFormat& chunk) {
     this->total_read += 16;
 }
 
+void WaveReader::skip_chunk(const ChunkHeader& chunk, uint32_t used) {
+
+    // Determine the number of bytes that are left,
+    // chunks are always padded to an even size:
+
+    uint64_t left = chunk.chunk_size;
+    left += left % 2;
+    left -= std::min<uint64_t>(left, used);
+
+    // Read in small steps, the chunk can claim to be of any size:
+
+    std::array<char, 4096> data = {};
+
+    while (left > 0 && !this->done()) {
+
+        const auto num = std::min<uint64_t>(left, data.size());
+
+        this->stream->read(data.data(), static_cast<int>(num));
+
+        this->total_read += num;
+        left -= num;
+    }
+}
+
 BufferPointer WaveReader::get_data() {
 
     // Define the BufferPointer to return:
@@ -310,23 +337,10 @@ BufferPointer WaveReader::get_data() {
 
             if (this->head.chunk_id != "data") {
 
-                // Create UnknownChunk:
-
-                UnknownChunk chunk(this->head.chunk_size);
-
-                // Not a data chunk, read data into an unknown chunk:
-
-                this->stream->read(chunk.data.data(), this->head.chunk_size);
-
-                // Also copy over other pieces of info:
-
-                chunk.chunk_id = head.chunk_id;
-                chunk.chunk_size = head.chunk_size;
-
-                // We are past this weird chunk! Continue
+                // Not a data chunk, move past it
                 // TODO: Should we save these chunks somewhere?
 
-                this->total_read += this->head.chunk_size;
+                this->skip_chunk(this->head, 0);
 
                 continue;
             }
@@ -390,6 +404,13 @@ BufferPointer WaveReader::get_data() {
 
         this->chunk_read += to_read;
 
+        // If this chunk is complete, then move past it's padding:
+
+        if (this->needs_chunk) {
+
+            this->skip_chunk(this->head, this->head.chunk_size);
+        }
+
         // Determine which type to read in:
 
         if (this->get_bits_per_sample() == 16) {
-- 
2.43.0


From eb1899f8245f0c97c0f52e56c96b7bd2179210ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 08/31] fix: handle wave chunks that claim to be larger than 2
 GB

---
 include/maec/io/wav.hpp |  4 ++--
 src/io/wav.cpp          | 25 +++++++++++++++----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 9156b13..d5c4a98 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -609,10 +609,10 @@ private:
     int buffer_size = 0;
 
     /// Number of bytes read from chunk
-    int chunk_read = 0;
+    int64_t chunk_read = 0;
 
     /// Total number of bytes read
-    uint32_t total_read = 0;
+    uint64_t total_read = 0;
 
     /// Stream we are reading from
     BaseMIStream* stream = nullptr;
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 0d67042..9d2bf5d 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -216,7 +216,10 @@ void WaveReader::start() {
 
     // Save the size of the file:
 
-    this->set_size(head.chunk_size + 8);
+    // (Files of unknown size report the largest size possible)
+
+    this->set_size(static_cast<int>(
+        std::min<uint64_t>(head.chunk_size + uint64_t{8}, UINT32_MAX)));
 
     // Next, read the format chunk
 
@@ -322,10 +325,13 @@ BufferPointer WaveReader::get_data() {
 
     // Define some variables:
 
-    int read = 0;
+    int64_t read = 0;
+
+    const int64_t samples =
+        static_cast<int64_t>(this->buffer_size) * this->get_channels();
 
     // Loop as long as our mstream is valid
-    while (!this->done() && read < buffer_size * this->get_channels()) {
+    while (!this->done() && read < samples) {
 
         // Read wave file header:
 
@@ -366,14 +372,13 @@ BufferPointer WaveReader::get_data() {
         // We either read the entire buffer size,
         // or the number of bytes left in this chunk, whichever is smallest
 
-        const int buffer_bytes =
-            (this->buffer_size * this->get_channels() - read) *
-            this->get_bytes_per_sample();
+        const int64_t buffer_bytes =
+            (samples - read) * this->get_bytes_per_sample();
 
-        const int chunk_bytes =
-            static_cast<int>(head.chunk_size - this->chunk_read);
+        const int64_t chunk_bytes =
+            static_cast<int64_t>(head.chunk_size) - this->chunk_read;
 
-        int to_read = 0;
+        int64_t to_read = 0;
 
         if (chunk_bytes <= buffer_bytes) {
 
@@ -396,7 +401,7 @@ BufferPointer WaveReader::get_data() {
 
         std::vector<char> tdata(to_read);
 
-        this->stream->read(tdata.data(), to_read);
+        this->stream->read(tdata.data(), static_cast<int>(to_read));
 
         this->total_read += to_read;
 
-- 
2.43.0


From dc1a1e124f637570ba09a149f79b125e567f2d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 09/31] fix: refuse wave files that can not be decoded instead
 of reading forever

---
 include/maec/io/wav.hpp |  8 ++++++++
 src/io/wav.cpp          | 40 +++++++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index d5c4a98..811df6e 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -565,6 +565,14 @@ public:
 
 private:
 
+    /**
+     * @brief Gives up on the stream, as we can't decode it's contents
+     *
+     * We stop the stream and put it into the error state,
+     * so this reader is done.
+     */
+    void refuse();
+
     /**
      * @brief Reads the header of the current chunk
      * 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 9d2bf5d..2ae4582 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -194,24 +194,13 @@ void WaveReader::start() {
 
     this->read_wave_header(head);
 
-    // Ensure we are in a format we expect:
+    // Ensure this is a file we support, if not there is nothing to read:
 
-    if (head.chunk_id != "RIFF") {
+    if (head.chunk_id != "RIFF" || head.format != "WAVE") {
 
-        // Invalid header!
-        // We do not support this file
-        // TODO: Do something here
-        int dhd = 0;
-    }
-
-    // Ensure the format is something we expect:
+        this->refuse();
 
-    if (head.format != "WAVE") {
-
-        // Invalid format type!
-        // We do not support this file
-        // TODO: Again, do something here
-        int dhd = 0;
+        return;
     }
 
     // Save the size of the file:
@@ -246,6 +235,16 @@ void WaveReader::start() {
 
     this->skip_chunk(chead, WavFormat::size() - ChunkHeader::size());
 
+    // Ensure we can decode this format, if not there is nothing to read:
+
+    if (form.channels == 0 ||
+        (form.bits_per_sample != 8 && form.bits_per_sample != 16)) {
+
+        this->refuse();
+
+        return;
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
@@ -263,6 +262,17 @@ void WaveReader::stop() {
     this->stream->stop();
 }
 
+void WaveReader::refuse() {
+
+    // Close the stream and let everyone know it is of no use:
+
+    this->stop();
+
+    this->stream->set_state(BaseMIStream::err);
+
+    this->set_size(0);
+}
+
 void WaveReader::read_chunk_header(ChunkHeader& chunk) {
 
     // Read the chunk header:
-- 
2.43.0


From be3ace42ff8310564271347e4c0b8cb493080dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 10/31] fix: read missing wave data as silence

---
 include/maec/io/mstream.hpp | 32 ++++++++++++++++++++++++++++++++
 src/io/mstream.cpp          |  7 +++++--
 src/io/wav.cpp              |  9 +++++++++
 3 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/include/maec/io/mstream.hpp b/include/maec/io/mstream.hpp
index cc02a31..e69c040 100644
--- a/include/maec/io/mstream.hpp
+++ b/include/maec/io/mstream.hpp
@@ -192,6 +192,16 @@ public:
      * @param num Number of bytes to read
      */
     virtual void read(char* byts, int num) =0;
+
+    /**
+     * @brief Gets the number of bytes provided by the last read
+     *
+     * This is smaller than the number asked for if the data has ended,
+     * or if it could not be read.
+     *
+     * @return Number of bytes, -1 if this stream is unable to tell
+     */
+    virtual int last_read() const { return -1; }
 };
 
 /**
@@ -239,6 +249,9 @@ private:
     /// Current index of character array
     std::size_t index = 0;
 
+    /// Number of bytes provided by the last read
+    int count = 0;
+
 public:
 
     CharIStream() = default;
@@ -264,6 +277,13 @@ public:
      */
     void read(char* byts, int num) final;
 
+    /**
+     * @brief Gets the number of bytes provided by the last read
+     *
+     * @return Number of bytes
+     */
+    int last_read() const final { return this->count; }
+
     /**
      * @brief Gets the array utilized by this mstream
      * 
@@ -438,6 +458,11 @@ public:
  * 
  */
 class FIStream : public BaseMIStream, public BaseFStream<std::ifstream, std::ifstream::in | std::ifstream::binary> {
+private:
+
+    /// Number of bytes provided by the last read
+    int count = 0;
+
 public:
 
     /**
@@ -455,6 +480,13 @@ public:
      */
     void read(char* byts, int num) final;
 
+    /**
+     * @brief Gets the number of bytes provided by the last read
+     *
+     * @return Number of bytes
+     */
+    int last_read() const final { return this->count; }
+
     /**
      * @brief Starts this mstream
      * 
diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index 299e270..79d31f8 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -21,7 +21,8 @@ void CharIStream::read(char* byts, int num) {
     const std::size_t left =
         this->index < this->arr.size() ? this->arr.size() - this->index : 0;
     const std::size_t want = std::max(num, 0);
-    const std::size_t count = std::min(want, left);
+
+    this->count = static_cast<int>(std::min(want, left));
 
     // Copy the contents over:
 
@@ -33,7 +34,7 @@ void CharIStream::read(char* byts, int num) {
 
     // Determine if we ran out of data:
 
-    if (count < want) {
+    if (static_cast<std::size_t>(this->count) < want) {
 
         // Nothing left, same as the end of a file:
 
@@ -82,6 +83,8 @@ void FIStream::read(char* byts, int num) {
     // Read the data:
     get_stream()->read(byts, num);
 
+    this->count = static_cast<int>(get_stream()->gcount());
+
     // Determine if we are in a bad state:
 
     if (!BaseFStream::good()) {
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 2ae4582..414d72f 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -419,6 +419,15 @@ BufferPointer WaveReader::get_data() {
 
         this->chunk_read += to_read;
 
+        // Only decode the data that is actually there:
+
+        const int count = this->stream->last_read();
+
+        if (count >= 0 && count < to_read) {
+
+            tdata.resize(count);
+        }
+
         // If this chunk is complete, then move past it's padding:
 
         if (this->needs_chunk) {
-- 
2.43.0


From a35c6ba13497b54a79d9b660498b520894c81d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 11/31] fix: correct the sizes of a wave file from the inside
 out

---
 src/io/wav.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 414d72f..a4eb950 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -555,36 +555,39 @@ void WaveWriter::stop() {
 
     std::array<char, 4> sout = {};
 
-    // Determine if we need to correct wave header size:
+    // Sizes are corrected from the inside out: the file only claims to have
+    // contents once everything inside it is in order.
 
-    if (this->get_size() >= 12) {
+    // Determine if we need to correct data header size:
 
-        // Set total size of file:
+    if (this->get_size() >= 36) {
 
-        this->stream->seek(4);
+        // Seek to final data chunk:
 
-        // Encode the total size:
+        this->stream->seek(40);
 
-        uint32_char(this->get_size() - 8, sout.begin());
+        // Encode data chunk size:
+
+        uint32_char(this->get_size() - WavHeader::size() - WavFormat::size() -
+                        ChunkHeader::size(),
+                    sout.begin());
 
         // Write to file:
 
         this->stream->write(sout.begin(), 4);
     }
 
-    // Determine if we need to correct data header size:
+    // Determine if we need to correct wave header size:
 
-    if (this->get_size() >= 36) {
+    if (this->get_size() >= 12) {
 
-        // Seek to final data chunk:
+        // Set total size of file:
 
-        this->stream->seek(40);
+        this->stream->seek(4);
 
-        // Encode data chunk size:
+        // Encode the total size:
 
-        uint32_char(this->get_size() - WavHeader::size() - WavFormat::size() -
-                        ChunkHeader::size(),
-                    sout.begin());
+        uint32_char(this->get_size() - 8, sout.begin());
 
         // Write to file:
 
-- 
2.43.0


From 93ff8581bbeed6e03b417a21d07b18bb1878b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 12/31] fix: make the wave source usable

---
 include/maec/io/wav.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 811df6e..71ffab9 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -736,6 +736,7 @@ private:
  * 
  */
 class WaveSource : public SourceModule, public WaveReader {
+public:
 
     WaveSource() = default;
 
-- 
2.43.0


From d850ac555558876224695de191ad36b39777e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 13/31] fix: do not use ALSA devices after they have been
 closed

---
 src/io/alsa_module.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index dc336c5..d409c23 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -175,10 +175,10 @@ void DeviceInfo::update() {
     snd_pcm_hw_params_get_buffer_size_max(params, &this->buffer_size_max);
     snd_pcm_hw_params_get_buffer_size_min(params, &this->buffer_size_min);
 
-    // Do some freeing:
+    // Do some freeing, closing must come last:
 
-    snd_pcm_close(pcm);
     snd_pcm_hw_free(pcm);
+    snd_pcm_close(pcm);
 }
 
 int ALSABase::get_device_count() {
@@ -375,13 +375,13 @@ void ALSABase::alsa_stop() {
 
     snd_pcm_drain(this->pcm);
 
-    // Close the PCM device:
-
-    snd_pcm_close(this->pcm);
-
     // Free the hardware:
 
     snd_pcm_hw_free(this->pcm);
+
+    // Close the PCM device:
+
+    snd_pcm_close(this->pcm);
 }
 
 void ALSASink::process() {
-- 
2.43.0


From fa88f265a26445b7458ff475eda8aa0617601960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 14/31] fix: do not leave the device open after loading its
 info

---
 src/io/alsa_module.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index d409c23..d9c263a 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -73,21 +73,7 @@ void DeviceInfo::create_device(void** hint, int id) {
     free(descr);
     free(io);
 
-    // Now, get our device:
-
-    snd_pcm_t* pcm = nullptr;
-
-    int err =
-        snd_pcm_open(&pcm, this->name.c_str(), SND_PCM_STREAM_PLAYBACK, 0);
-
-    if (err != 0) {
-
-        // We have encountered an error, DO NOT CONTINUE!
-
-        this->load_fail = true;
-
-        return;
-    }
+    // Now, ask the device for it's values:
 
     this->update();
 }
-- 
2.43.0


From 03efc4f211ce8d976a89fe8dfc708ff268f941f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 15/31] fix: survive missing ALSA devices and names, and free
 what is looked up

---
 include/maec/io/alsa_module.hpp | 10 +++---
 src/io/alsa_module.cpp          | 59 +++++++++++++++++++++++++--------
 2 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/include/maec/io/alsa_module.hpp b/include/maec/io/alsa_module.hpp
index b9ef444..a5f299a 100644
--- a/include/maec/io/alsa_module.hpp
+++ b/include/maec/io/alsa_module.hpp
@@ -82,7 +82,7 @@
 struct DeviceInfo {
 
     /// The id of this device
-    int id;
+    int id = 0;
 
     /// The name of this device
     std::string name;
@@ -331,8 +331,8 @@ class ALSABase {
      * 
      * We grab the device at the given id
      * and return it's info.
-     * If this index does not exist, then we do something!!!
-     * TODO: IMPLEMENT THIS!
+     * If this index does not exist, then we return
+     * default info that failed to load (load_fail is 'true').
      * 
      * @param index ID of the device
      * @return DeviceInfo Information about retrieved device
@@ -345,8 +345,8 @@ class ALSABase {
      * We search all devices until we find one
      * that has the given name.
      * If we are unable to find a device with the given name,
-     * then we DO STUFF.
-     * TODO: Yeah, you know
+     * then we return default info that failed to load
+     * (load_fail is 'true').
      * 
      * @param name name of the device to get
      * @return DeviceInfo Information about retrieved device
diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index d9c263a..2e33f12 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -17,6 +17,7 @@
 #include <alsa/pcm.h>
 
 #include <cstdint>
+#include <cstdlib>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -35,10 +36,10 @@ void DeviceInfo::create_device(void** hint, int id) {
     char* descr = snd_device_name_get_hint(*hint, "DESC");
     char* io = snd_device_name_get_hint(*hint, "IOID");
 
-    // Set name and description:
+    // Set name and description, ALSA may not provide them:
 
-    this->name = std::string(n);
-    this->description = std::string(descr);
+    this->name = n != nullptr ? std::string(n) : std::string();
+    this->description = descr != nullptr ? std::string(descr) : std::string();
 
     // Determine the IO type:
 
@@ -178,6 +179,13 @@ int ALSABase::get_device_count() {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
+    if (err != 0) {
+
+        // No device list available:
+
+        return 0;
+    }
+
     n = hints;
 
     // Iterate until we reach the end:
@@ -209,22 +217,31 @@ DeviceInfo ALSABase::get_device_by_id(int index) {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
+    DeviceInfo info;
+
+    // Until we find the device, it is not usable:
+
+    info.load_fail = true;
+
+    if (err != 0) {
+
+        return info;
+    }
+
     // Ensure the given index is within our count:
     // Note: Using get_device_count() ensures we aren't repeating ourselves.
     // but is it the most efficient? Probably not...
 
-    if (index >= this->get_device_count()) {
-        // TODO: DO SOMETHING!
-        // NOT DOING SOMETHING WILL RESULT IN A SEG FAULT!!!!
-    }
+    if (index >= 0 && index < this->get_device_count()) {
 
-    // Otherwise, seek n to the proper value:
+        // Seek n to the proper value:
 
-    n = hints + index;
+        n = hints + index;
 
-    // Create struct and initialize it:
+        // Create struct and initialize it:
 
-    DeviceInfo info(n, index);
+        info = DeviceInfo(n, index);
+    }
 
     // Free the hint:
 
@@ -246,22 +263,36 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
+    DeviceInfo info;
+
+    // Until we find the device, it is not usable:
+
+    info.load_fail = true;
+
+    if (err != 0) {
+
+        return info;
+    }
+
     n = hints;
 
     // Iterate over each device:
 
     int id = 0;
-    DeviceInfo info;
 
     for (; *n != nullptr; ++n) {
 
         // Get the name from the hint:
 
-        std::string const hname(snd_device_name_get_hint(*n, "NAME"));
+        char* hname = snd_device_name_get_hint(*n, "NAME");
 
         // Determine if the name is our target:
 
-        if (hname == name) {
+        const bool found = hname != nullptr && name == hname;
+
+        free(hname);
+
+        if (found) {
 
             // Found it, break
             // TODO: Implement some kind of error correction
-- 
2.43.0


From 18c5f4b98883d97b369a229039ccf924ba45384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 16/31] fix: open and release the ALSA device safely

---
 src/io/alsa_module.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 2e33f12..e185efa 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -320,12 +320,23 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
 void ALSABase::alsa_start() {
 
-    // TODO: Implement error checking and correction!
+    // Release the device if we are already started:
+
+    this->alsa_stop();
 
     // Create the PCM device:
 
-    int err = snd_pcm_open(&(this->pcm), this->device.name.c_str(),
-                           SND_PCM_STREAM_PLAYBACK, 0);
+    this->return_code = snd_pcm_open(&(this->pcm), this->device.name.c_str(),
+                                     SND_PCM_STREAM_PLAYBACK, 0);
+
+    if (this->return_code != 0) {
+
+        // Device is not available, there is nothing to configure:
+
+        this->pcm = nullptr;
+
+        return;
+    }
 
     // Allocate the hardware parameters:
 
@@ -361,7 +372,7 @@ void ALSABase::alsa_start() {
 
     // Commit the parameters:
 
-    int commit = snd_pcm_hw_params(pcm, params);
+    this->return_code = snd_pcm_hw_params(pcm, params);
 
     snd_pcm_hw_params_get_periods(params, &(this->device.period), 0);
 
@@ -388,6 +399,12 @@ void ALSABase::alsa_start() {
 
 void ALSABase::alsa_stop() {
 
+    // Determine if there is a device to stop:
+
+    if (this->pcm == nullptr) {
+        return;
+    }
+
     // Drain the device:
 
     snd_pcm_drain(this->pcm);
@@ -399,10 +416,18 @@ void ALSABase::alsa_stop() {
     // Close the PCM device:
 
     snd_pcm_close(this->pcm);
+
+    this->pcm = nullptr;
 }
 
 void ALSASink::process() {
 
+    // Determine if there is a device to send data to:
+
+    if (this->pcm == nullptr) {
+        return;
+    }
+
     // First, define our temporary vector:
 
     std::vector<int16_t> temp(buff.size() * buff.channels());
-- 
2.43.0


From f51fc53d3efda4da973264755c52dca504a27b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 17/31] fix: hand every sample to the ALSA device exactly once

---
 src/io/alsa_module.cpp | 48 ++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index e185efa..7d1ce25 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -16,9 +16,9 @@
 #include <alsa/control.h>
 #include <alsa/pcm.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <cstdlib>
-#include <iostream>
 #include <string>
 #include <vector>
 
@@ -430,33 +430,49 @@ void ALSASink::process() {
 
     // First, define our temporary vector:
 
-    std::vector<int16_t> temp(buff.size() * buff.channels());
+    std::vector<int16_t> temp(buff.size());
 
     // Next, squish it:
 
     squish_inter(&this->buff, temp.begin(), &mf_int16);
 
-    // Determine if we need to prepare the device again:
+    // Determine the number of frames to send:
 
-    if (this->return_code == -EPIPE) {
+    const auto channels =
+        std::max(this->get_device().channels, 1U);
 
-        // Underrun occurred, prepare the device again:
-        std::cout << "ALSA Underrun (Before)" << std::endl;
+    auto frames = static_cast<snd_pcm_uframes_t>(temp.size() / channels);
 
-        snd_pcm_prepare(this->pcm);
-    }
+    const int16_t* data = temp.data();
+
+    // Finally, send the data along until the device has taken all of it:
+
+    while (frames > 0) {
+
+        const snd_pcm_sframes_t written =
+            snd_pcm_writei(this->pcm, data, frames);
+
+        if (written < 0) {
 
-    // Finally, send the data along:
+            // Underrun or interruption occurred, prepare the device again:
 
-    this->return_code =
-        snd_pcm_writei(this->pcm, reinterpret_cast<int16_t*>(temp.data()),
-                       static_cast<snd_pcm_uframes_t>(temp.size()));
+            this->return_code =
+                snd_pcm_recover(this->pcm, static_cast<int>(written), 1);
+
+            if (this->return_code < 0) {
+
+                // Device is unable to recover, give up on this data
+
+                return;
+            }
+
+            continue;
+        }
 
-    if (this->return_code == -EPIPE) {
-        // Underrun occurred
+        this->return_code = static_cast<int>(written);
 
-        std::cout << "ALSA Underrun (After)" << std::endl;
-        snd_pcm_prepare(this->pcm);
+        data += static_cast<std::size_t>(written) * channels;
+        frames -= static_cast<snd_pcm_uframes_t>(written);
     }
 }
 
-- 
2.43.0


From 34b454461ab24c00e4d9b2710d8ef516c6e0f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 18/31] fix: let the chain reflect the channels and rate of the
 ALSA device

---
 src/io/alsa_module.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 7d1ce25..e914c76 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -378,6 +378,8 @@ void ALSABase::alsa_start() {
 
     int junk = 0;
 
+    snd_pcm_hw_params_get_channels(params, &(this->device.channels));
+
     int rret = snd_pcm_hw_params_get_period_size(
         params, &(this->device.period_size), &junk);
 
@@ -503,6 +505,15 @@ void ALSASink::info_sync() {
 
     this->get_info()->out_buffer = bsize;
     this->get_info()->in_buffer = bsize;
+
+    // Ensure the chain produces what the device expects:
+
+    this->get_info()->channels = std::max(this->get_device().channels, 1U);
+
+    if (this->get_device().sample_rate != 0) {
+
+        this->get_info()->sample_rate = this->get_device().sample_rate;
+    }
 }
 
 #endif
-- 
2.43.0


From d092462306bede31a088acbe10515339d71b975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:18 +0000
Subject: [PATCH 19/31] fix: allow every header to be included more than once

---
 include/maec/chrono.hpp       | 2 ++
 include/maec/io/wav.hpp       | 2 ++
 include/maec/module_mixer.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 2e916ea..9f6a423 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -23,6 +23,8 @@
  * We measure time values in nanoseconds.
  */
 
+#pragma once
+
 #include "const.hpp"
 
 /**
diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 71ffab9..382c4d6 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -12,6 +12,8 @@
  * so modules can read and write to wave files.
  */
 
+#pragma once
+
 #include "../sink_module.hpp"
 #include "../source_module.hpp"
 #include "audio_buffer.hpp"
diff --git a/include/maec/module_mixer.hpp b/include/maec/module_mixer.hpp
index f410fd2..69c7a7f 100644
--- a/include/maec/module_mixer.hpp
+++ b/include/maec/module_mixer.hpp
@@ -9,6 +9,8 @@
  *
  */
 
+#pragma once
+
 #include <vector>
 
 #include "audio_buffer.hpp"
-- 
2.43.0


From ea5c6b98525eb5313924c1c9f56f37976e34788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 20/31] fix: count chain time in 64 bits

---
 include/maec/chrono.hpp | 21 ++++++++++-----------
 src/envelope.cpp        |  4 ++--
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 9f6a423..82e742f 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -87,7 +87,7 @@ private:
     int channels = 1;
 
     /// Current sample
-    int sample = 0;
+    int64_t sample = 0;
 
     /// Nanoseconds per frame
     int64_t nano_frame = NANO / dsp::consts::SAMPLE_RATE;
@@ -177,8 +177,7 @@ public:
      * @return int64_t Current time in nanoseconds
      */
     int64_t get_time() const {
-        return static_cast<int64_t>((this->sample / this->channels) *
-                                    this->nano_frame);
+        return (this->sample / this->channels) * this->nano_frame;
     }
 
     /**
@@ -193,8 +192,8 @@ public:
      * @param channel Number of channels
      * @return int64_t Elapsed time in nanoseconds
      */
-    int64_t get_time(int sample, int channel) const {
-        return static_cast<int64_t>(sample / channel) * this->nano_frame;
+    int64_t get_time(int64_t sample, int channel) const {
+        return (sample / channel) * this->nano_frame;
     }
 
     /**
@@ -208,8 +207,8 @@ public:
      * @param sample Number of samples
      * @return int74_t Elapsed time in nanoseconds
      */
-    int64_t get_time(int sample) const {
-        return static_cast<int64_t>(sample) * this->nano_frame;
+    int64_t get_time(int64_t sample) const {
+        return sample * this->nano_frame;
     }
 
     /**
@@ -222,7 +221,7 @@ public:
      *
      * @param samp
      */
-    void set_sample(int samp) { this->sample = samp; }
+    void set_sample(int64_t samp) { this->sample = samp; }
 
     /**
      * @brief Increments the sample
@@ -242,14 +241,14 @@ public:
      *
      * @param val Value to add to sample number
      */
-    void add_sample(int val) { this->sample += val; }
+    void add_sample(int64_t val) { this->sample += val; }
 
     /**
      * @brief Gets the current sample
      *
      * We return the current sample in this timer.
      *
-     * @return int Current sample
+     * @return int64_t Current sample
      */
-    int get_sample() const { return this->sample; }
+    int64_t get_sample() const { return this->sample; }
 };
diff --git a/src/envelope.cpp b/src/envelope.cpp
index be73435..1ba9237 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -57,7 +57,7 @@ void ConstantEnvelope::process() {
 
     // Set the time:
 
-    this->get_timer()->add_sample(static_cast<int>(this->buff.size()));
+    this->get_timer()->add_sample(static_cast<int64_t>(this->buff.size()));
 }
 
 void SetValue::process() {
@@ -85,7 +85,7 @@ void SetValue::process() {
 
     // Set the time:
 
-    this->get_timer()->add_sample(static_cast<int>(size));
+    this->get_timer()->add_sample(static_cast<int64_t>(size));
 }
 
 void ExponentialRamp::process() {
-- 
2.43.0


From a494d71f83187ea8a28656888c06603063403f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:30 +0000
Subject: [PATCH 21/31] fix: measure latency per frame, over any duration and
 after a reset

---
 include/maec/meta_audio.hpp | 14 +++++++++-----
 src/meta_audio.cpp          | 11 ++++++-----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 05032fa..105b406 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -39,7 +39,7 @@ private:
     int m_processed = 0;
 
     /// Number of samples we have encountered
-    int m_samples = 0;
+    int64_t m_samples = 0;
 
 public:
     /**
@@ -64,9 +64,9 @@ public:
     /**
      * @brief Gets the number of samples we have encountered
      *
-     * @return int Number of samples encountered
+     * @return int64_t Number of samples encountered
      */
-    int samples() const { return this->m_samples; }
+    int64_t samples() const { return this->m_samples; }
 
     /**
      * @brief Counts how many samples we encounter, and how many times we have
@@ -228,7 +228,9 @@ public:
      * @return int Average operation time in nanoseconds
      */
     int64_t average_time() const {
-        return this->total_operation_time / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_time / this->processed();
     }
 
     /**
@@ -240,7 +242,9 @@ public:
      * @return int Average operation latency in nanoseconds
      */
     int64_t average_latency() const {
-        return this->total_operation_latency / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_latency / this->processed();
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 45cb705..0aa6845 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,14 +19,15 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples +=
-        static_cast<int>(this->buff.size()) * this->buff.channels();
+    this->m_samples += static_cast<int64_t>(this->buff.size());
 }
 
 void LatencyModule::reset() {
 
     // Clear values:
 
+    Counter::reset();
+
     this->operation_time = 0;
     this->operation_latency = 0;
     this->total_operation_latency = 0;
@@ -65,8 +66,7 @@ void LatencyModule::meta_process() {
 
     // Get size of buffer:
 
-    const int samples =
-        static_cast<int>(this->buff.size() * this->buff.channels());
+    const auto samples = static_cast<int64_t>(this->buff.size());
 
     // Update chain timer:
 
@@ -85,7 +85,8 @@ void LatencyModule::meta_process() {
     // Determine the latency:
 
     this->operation_latency =
-        this->operation_time - this->timer.get_time(samples);
+        this->operation_time -
+        this->timer.get_time(samples, this->timer.get_channels());
 
     // Add to total latency:
 
-- 
2.43.0


From ed48c6e714fdc3e8d185b2b8503bbaf0bbccaa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 22/31] fix: play envelopes whose times are not a multiple of
 the frame time, and start over after a restart

---
 include/maec/envelope.hpp |  8 +++++++-
 src/envelope.cpp          | 21 +++++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index bf4861a..9b270fd 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -521,8 +521,14 @@ public:
     /**
      * @brief Start method
      *
+     * We begin with the first envelope in the chain.
+     * Envelopes that are over at the current time will be skipped.
+     *
      */
-    void start() override { this->next_envelope(); }
+    void start() override {
+        this->env_index = -1;
+        this->next_envelope();
+    }
 
     /**
      * @brief Optimizes the internal structure of the ChainEnvelope
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 1ba9237..2169ce6 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -11,6 +11,7 @@
 
 #include "envelope.hpp"
 
+#include <algorithm>
 #include <cmath>
 
 #include "audio_buffer.hpp"
@@ -70,8 +71,10 @@ void SetValue::process() {
 
     auto size = this->buff.size();
 
-    int64_t initial =
-        std::min(this->remaining_samples(), static_cast<int64_t>(size));
+    // (None are left if we are already past the stop time)
+
+    int64_t initial = std::clamp<int64_t>(this->remaining_samples(), 0,
+                                          static_cast<int64_t>(size));
 
     // Determine the number of values to be final:
 
@@ -268,8 +271,18 @@ void ChainEnvelope::process() {
 
         if (this->current->get_stop_time() >= 0) {
 
-            num = std::min(
-                num, static_cast<int>(this->current->remaining_samples()));
+            const int64_t remaining = this->current->remaining_samples();
+
+            if (remaining <= 0) {
+
+                // Not a single frame left in this envelope, get a new one:
+
+                this->next_envelope();
+
+                continue;
+            }
+
+            num = static_cast<int>(std::min<int64_t>(num, remaining));
         }
 
         // Set size of current envelope to num value:
-- 
2.43.0


From ddedfe9931849b1f7112b90de01a16056e4b31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 23/31] fix: advance the phase of oscillators per frame instead
 of per sample

---
 src/fund_oscillator.cpp | 48 ++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index c88abdf..f646bfa 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -34,9 +34,11 @@ void SineOscillator::process() {
                                         this->get_phase() /
                                         this->buff.get_samplerate()));
 
-        // Increment the phase:
+        // Increment the phase once every channel of this frame is done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -64,9 +66,11 @@ void SquareOscillator::process() {
                     ? 1.0
                     : -1.0;
 
-        // Increment the phase:
+        // Increment the phase once every channel of this frame is done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -94,9 +98,11 @@ void SawtoothOscillator::process() {
                             &placeholder)) -
                 1.0;
 
-        // Increment the phase:
+        // Increment the phase once every channel of this frame is done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -136,9 +142,11 @@ void TriangleOscillator::process() {
 
         *iter = temp;
 
-        // Increment the phase:
+        // Increment the phase once every channel of this frame is done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -172,7 +180,11 @@ void ModSineOscillator::process() {
 
         // Determine the new phase:
 
-        this->inc_phase(freqv * (1 / sampler));
+        // (Only once every channel of this frame is done)
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -210,7 +222,11 @@ void ModSquareOscillator::process() {
 
         // Determine the new phase:
 
-        this->inc_phase(freqv * (1 / sampler));
+        // (Only once every channel of this frame is done)
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -248,7 +264,11 @@ void ModSawtoothOscillator::process() {
 
         // Determine the new phase:
 
-        this->inc_phase(freqv * (1 / sampler));
+        // (Only once every channel of this frame is done)
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -300,6 +320,10 @@ void ModTriangleOscillator::process() {
 
         // Determine the new phase:
 
-        this->inc_phase(freqv * (1 / sampler));
+        // (Only once every channel of this frame is done)
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
-- 
2.43.0


From 515f46f6984ae66eb93c8a19feb6b2ce2903e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 24/31] fix: fill every channel of a uniform buffer

---
 src/meta_audio.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 0aa6845..935a42b 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -114,7 +114,9 @@ void UniformBuffer::process() {
 
     this->reserve();
 
-    while (this->index < this->get_info()->out_buffer) {
+    const int size = static_cast<int>(this->buff.size());
+
+    while (this->index < size) {
 
         // Determine if in buffer is out of values:
 
@@ -139,7 +141,7 @@ void UniformBuffer::process() {
         // Determine the number of samples yet to fill:
 
         int remaining =
-            std::min(this->get_info()->out_buffer - this->index,
+            std::min(size - this->index,
                      static_cast<int>(this->ibuff.size()) - this->iindex);
 
         // Fill the current buffer with this value:
-- 
2.43.0


From b0e864d49b06278e8f71d6d60f5cc013ba9b543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 25/31] fix: repeat a buffer of any size without writing past
 the end

---
 src/meta_audio.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 935a42b..cf76959 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -99,13 +99,9 @@ void LatencyModule::meta_process() {
 
 void BufferModule::process() {
 
-    // First, create a buffer to use:
+    // Copy the buffer to repeat, whatever size the chain asks for:
 
-    this->reserve();
-
-    // Next, fill it using the contents of our old buffer:
-
-    std::copy(this->gbuff->ibegin(), this->gbuff->iend(), this->buff.ibegin());
+    this->set_buffer(AudioBuffer(*(this->gbuff)));
 }
 
 void UniformBuffer::process() {
-- 
2.43.0


From 7173be4824d8749b6e485919f229f7c67907baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 26/31] fix: hand out whole copies at a mix up, and let it take
 part in info syncs

---
 src/module_mixer.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index d62979b..2b9bcd5 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -169,18 +169,17 @@ void ModuleMixUp::forward(BaseModule* mod) {
     // Add the forward module to our vector:
 
     this->out.push_back(mod);
-}
 
-AudioBuffer&& ModuleMixUp::get_buffer() {
+    // Our info comes from the module that was added last:
 
-    // Configure the temporary buffer
+    AudioModule<>::forward(mod);
+}
 
-    tbuff.set_channels(this->get_info()->channels);
-    tbuff.set_samplerate(this->get_info()->sample_rate);
+AudioBuffer&& ModuleMixUp::get_buffer() {
 
-    tbuff.resize(this->get_info()->out_buffer);
+    // Copy our buffer, with its size, channels and sample rate
 
-    std::copy(this->buff.sbegin(), this->buff.send(), tbuff.sbegin());
+    tbuff = this->buff;
 
     // Finally, return the buffer:
 
-- 
2.43.0


From 34014f3ba88602d446d2f50df2fbd28c6c198af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 27/31] fix: filter every channel on its own and keep the shape
 of the audio

---
 include/maec/filter_module.hpp | 73 ++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/include/maec/filter_module.hpp b/include/maec/filter_module.hpp
index dc7634c..0974a87 100644
--- a/include/maec/filter_module.hpp
+++ b/include/maec/filter_module.hpp
@@ -145,7 +145,8 @@ private:
     /// Overlap-add tail buffer: holds the last (kernel_size - 1) samples
     /// from the previous block's convolution output that must be added
     /// to the beginning of the next block's output.
-    std::vector<double> overlap_tail;
+    /// There is one tail for every channel.
+    std::vector<std::vector<double>> overlap_tail;
 
 public:
     /**
@@ -222,41 +223,63 @@ public:
         // Grab the input block:
 
         auto ibuff = this->get_buffer();
-        const std::size_t input_size = ibuff.size();
+        const std::size_t channels =
+            std::max<std::size_t>(ibuff.channels(), 1);
+        const std::size_t input_size = ibuff.size() / channels;
         const std::size_t kernel_size = this->kernel->size();
 
-        // Allocate a full convolution output buffer (N + M - 1 samples)
-        // zero-initialised so the overlap-add accumulation is correct:
+        // Each channel has a tail of its own:
 
-        std::vector<double> conv_out(dsp::conv::length_conv(input_size, kernel_size), 0.0);
+        this->overlap_tail.resize(channels);
 
-        // Run the convolution:
+        auto nbuff = AudioBuffer(input_size, static_cast<int>(channels),
+                                 ibuff.get_samplerate());
 
-        dsp::conv::input_conv(ibuff.ibegin(), input_size, this->kernel->ibegin(),
-                   kernel_size, conv_out.begin());
+        std::vector<double> conv_in(input_size);
 
-        // Overlap-add: fold the saved tail from the previous block
-        // The tail holds the last (M - 1) samples from the previous full
-        // convolution.  They overlap with the first (M - 1) samples of the
-        // current convolution output, so we add them in place:
+        for (std::size_t chan = 0; chan < channels; ++chan) {
 
-        const std::size_t prev_tail = this->overlap_tail.size();
-        for (std::size_t i = 0; i < prev_tail; ++i) {
-            conv_out[i] += this->overlap_tail[i];
-        }
+            // Pick the samples of this channel:
+
+            for (std::size_t i = 0; i < input_size; ++i) {
+                conv_in[i] = ibuff.at((i * channels) + chan);
+            }
+
+            // Allocate a full convolution output buffer (N + M - 1 samples)
+            // zero-initialised so the overlap-add accumulation is correct:
+
+            std::vector<double> conv_out(
+                dsp::conv::length_conv(input_size, kernel_size), 0.0);
+
+            // Run the convolution:
 
-        // Save new tail for the next block
+            dsp::conv::input_conv(conv_in.begin(), input_size,
+                                  this->kernel->ibegin(), kernel_size,
+                                  conv_out.begin());
 
-        this->overlap_tail.assign(conv_out.begin() + input_size,
-                                  conv_out.end());
+            // Overlap-add: fold the saved tail from the previous block
+            // The tail holds the last (M - 1) samples from the previous full
+            // convolution.  They overlap with the first (M - 1) samples of the
+            // current convolution output, so we add them in place:
 
-        // Trim output to exactly N samples and set on the buffer
-        // Only the first input_size samples are forwarded downstream;
-        // the tail will be contributed to the next block via overlap_tail.
+            auto& tail = this->overlap_tail[chan];
+            const std::size_t prev_tail = tail.size();
+            for (std::size_t i = 0; i < prev_tail; ++i) {
+                conv_out[i] += tail[i];
+            }
+
+            // Save new tail for the next block
+
+            tail.assign(conv_out.begin() + input_size, conv_out.end());
 
-        auto nbuff = AudioBuffer(input_size, 1);
-        std::copy(conv_out.begin(), conv_out.begin() + input_size,
-                  nbuff.ibegin());
+            // Trim output to exactly N samples and set on the buffer
+            // Only the first input_size samples are forwarded downstream;
+            // the tail will be contributed to the next block via overlap_tail.
+
+            for (std::size_t i = 0; i < input_size; ++i) {
+                nbuff.at((i * channels) + chan) = conv_out[i];
+            }
+        }
 
         this->set_buffer(std::move(nbuff));
     }
-- 
2.43.0


From b0d57d5de72fa1e4f29ee331956e8d0127d778e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 28/31] fix: count the modules of a chain, and those that are
 done, exactly

---
 include/maec/sink_module.hpp | 17 +++++++++++++++++
 src/base_module.cpp          |  5 ++++-
 src/io/alsa_module.cpp       |  4 ++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 9390465..2c7762b 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -87,6 +87,23 @@ public:
         // Configure the AudioInfo:
 
         this->get_info()->from_chain(this->chain_instance);
+
+        // Every module behind us will be counted (again), start with ourselves:
+
+        this->chain_instance.module_num = 1;
+    }
+
+    /**
+     * @brief Starts the chain
+     *
+     * A chain that is started has no finished modules.
+     *
+     */
+    void meta_start() override {
+
+        this->chain_instance.module_finish = 0;
+
+        AudioModule<void, B>::meta_start();
     }
 };
 
diff --git a/src/base_module.cpp b/src/base_module.cpp
index 4418a1a..9b0e7e4 100644
--- a/src/base_module.cpp
+++ b/src/base_module.cpp
@@ -11,6 +11,8 @@
 
 #include "base_module.hpp"
 
+#include <atomic>
+
 #include "audio_buffer.hpp"
 
 void BaseModule::reserve() {
@@ -70,6 +72,7 @@ void BaseModule::done() {
     this->state_type = State::Finished;
 
     // Report to the chain that we are done:
+    // (Modules of one chain can be done on different threads)
 
-    ++(this->chain->module_finish);
+    std::atomic_ref<int>(this->chain->module_finish).fetch_add(1);
 }
diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index e914c76..f27bc5c 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -514,6 +514,10 @@ void ALSASink::info_sync() {
 
         this->get_info()->sample_rate = this->get_device().sample_rate;
     }
+
+    // Every module behind us will be counted (again), start with ourselves:
+
+    this->get_chain_info()->module_num = 1;
 }
 
 #endif
-- 
2.43.0


From 9bad917078a7ca161d83f2d54591f018dfc6f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 29/31] fix: let a parameter set to a constant while playing
 make blocks of the right size

---
 src/module_param.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module_param.cpp b/src/module_param.cpp
index 17000ce..72cab2b 100644
--- a/src/module_param.cpp
+++ b/src/module_param.cpp
@@ -39,6 +39,11 @@ void ModuleParam::set_constant(double val) {
     this->const_mod = std::make_unique<ConstModule>(val);
 
     this->link(this->const_mod.get());
+
+    // It has to make the blocks this parameter is configured for,
+    // the value may be set long after the last info sync:
+
+    *(this->const_mod->get_info()) = *(this->get_info());
 }
 
 void ModuleParam::conf_mod(BaseModule* mod) {
-- 
2.43.0


From 5579e68f97e6e26a0ebfb08bbf7b629c11d7a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 30/31] fix: let a chain of envelopes return its start value
 until the first one starts

---
 src/envelope.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 2169ce6..ce7bfee 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -153,6 +153,13 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
 
     this->envs.push_back(env);
 
+    // Determine if there is time to fill before the first envelope:
+
+    if (this->envs.size() == 1 && env->get_start_time() > 0) {
+
+        this->create_internal(0);
+    }
+
     // Optimize?
 
     this->optimize();
-- 
2.43.0


From dd14d98cf3d93c48ad3b279cdb448fd5abee03b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 31/31] fix: keep a chain of envelopes playable while another
 one is added at its end

---
 src/envelope.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index ce7bfee..a57d841 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -138,11 +138,17 @@ void LinearRamp::process() {
 
 void ChainEnvelope::add_envelope(BaseEnvelope* env) {
 
+    bool holding = false;
+
     // Determine if we are optimized
     // (Value exists at the end):
 
     if (!this->inter.empty()) {
 
+        // Determine if we are working with the last value:
+
+        holding = this->current == this->envs.back();
+
         // Remove last value:
 
         this->envs.pop_back();
@@ -163,6 +169,15 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
     // Optimize?
 
     this->optimize();
+
+    if (holding) {
+
+        // The value we worked with is gone, go on with what replaced it:
+
+        --(this->env_index);
+
+        this->next_envelope();
+    }
 }
 
 void ChainEnvelope::optimize() {
-- 
2.43.0

