From d48da447277e8766c7dca8f3b3454ec4dedf64b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 01/39] fix: Execute a task that a worker popped while the task
 manager is stopping

A worker that had already removed a task from the queue dropped it if stop()
was called in between. The task was lost, and the sequenced task runner it
belonged to never executed another task, not even after a restart.
---
 fly/task/task_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/task/task_manager.cpp b/fly/task/task_manager.cpp
index ce5925c..6915bee 100644
--- a/fly/task/task_manager.cpp
+++ b/fly/task/task_manager.cpp
@@ -120,7 +120,7 @@ void TaskManager::worker_thread()
 
     while (m_keep_running.load())
     {
-        if (m_tasks.pop(task_holder, s_delay) && m_keep_running.load())
+        if (m_tasks.pop(task_holder, s_delay))
         {
             if (auto task_runner = task_holder.m_weak_task_runner.lock(); task_runner)
             {
-- 
2.43.0


From 87e267a9a9bd76b28f63e8a8740a856e50ac5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 02/39] fix: Do not unregister a live logger when creating
 another logger of that name fails

---
 fly/logger/detail/registry.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/registry.cpp b/fly/logger/detail/registry.cpp
index 85ceb7f..dc2aef4 100644
--- a/fly/logger/detail/registry.cpp
+++ b/fly/logger/detail/registry.cpp
@@ -83,7 +83,13 @@ void Registry::unregister_logger(std::string const &name)
     }
 
     std::lock_guard<std::mutex> lock(m_registry_mutex);
-    m_registry.erase(name);
+
+    // A logger that failed to register because its name was taken must not unregister the logger
+    // which owns that name.
+    if (auto it = m_registry.find(name); (it != m_registry.end()) && it->second.expired())
+    {
+        m_registry.erase(it);
+    }
 }
 
 //==================================================================================================
-- 
2.43.0


From e034b7057c4d5020b68ac93fab4a7a26bcabf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 03/39] fix: Keep log indices unique and a failed sink stopped
 when logging from multiple threads

---
 fly/logger/logger.cpp | 8 ++++++--
 fly/logger/logger.hpp | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/fly/logger/logger.cpp b/fly/logger/logger.cpp
index b22eab6..d816dc8 100644
--- a/fly/logger/logger.cpp
+++ b/fly/logger/logger.cpp
@@ -215,8 +215,12 @@ void Logger::log_to_sink(
     log.m_level = level;
     log.m_time = elapsed.count();
 
-    bool const accepted = m_sink->stream(std::move(log));
-    m_last_task_failed.store(!accepted);
+    // A synchronous logger may be used from multiple threads. Once any log point has failed, another
+    // one that was already being streamed must not restart the logger.
+    if (!m_sink->stream(std::move(log)))
+    {
+        m_last_task_failed.store(true);
+    }
 }
 
 } // namespace fly::logger
diff --git a/fly/logger/logger.hpp b/fly/logger/logger.hpp
index 49d28d3..70fff8e 100644
--- a/fly/logger/logger.hpp
+++ b/fly/logger/logger.hpp
@@ -430,7 +430,7 @@ private:
     std::atomic_bool m_last_task_failed {true};
 
     std::chrono::steady_clock::time_point const m_start_time;
-    std::uintmax_t m_index {0};
+    std::atomic<std::uintmax_t> m_index {0};
 };
 
 //==================================================================================================
-- 
2.43.0


From 0e837f1fc7835e1e317e01a850ecc8d310f6830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 04/39] fix: Do not throw from the file logger when a
 compressed log file cannot be removed

---
 fly/logger/detail/file_sink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index b518296..7231771 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -65,7 +65,8 @@ bool FileSink::create_log_file()
 
             if (encoder.encode_file(m_log_file, compressed_log_file))
             {
-                std::filesystem::remove(m_log_file);
+                std::error_code error;
+                std::filesystem::remove(m_log_file, error);
             }
         }
     }
-- 
2.43.0


From d1da8aad0b28d97a643b504fdddfbf454527c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 05/39] fix: Report a log point that could not be written to
 the log file as failed

---
 fly/logger/detail/file_sink.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index 7231771..7fd32d0 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -35,7 +35,11 @@ bool FileSink::stream(fly::logger::Log &&log)
 {
     if (m_log_stream.good())
     {
-        m_log_stream << log << std::flush;
+        if (!(m_log_stream << log << std::flush))
+        {
+            return false;
+        }
+
         std::error_code error;
 
         if (std::filesystem::file_size(m_log_file, error) > m_logger_config->max_log_file_size())
-- 
2.43.0


From 63986d240d3bb41bb27faf0a1fa8aff239906372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 06/39] fix: Serialize the file logger and let it survive being
 the default logger while compressing

---
 fly/logger/detail/file_sink.cpp | 47 ++++++++++++++++++++++-----------
 fly/logger/detail/file_sink.hpp | 11 ++++++++
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index 7fd32d0..a3793f4 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -33,6 +33,10 @@ bool FileSink::initialize()
 //==================================================================================================
 bool FileSink::stream(fly::logger::Log &&log)
 {
+    // Synchronous loggers stream log points on whichever threads create them. And if this is the sink
+    // of the default logger, compressing a log file creates log points on this same thread.
+    std::lock_guard<std::recursive_mutex> lock(m_mutex);
+
     if (m_log_stream.good())
     {
         if (!(m_log_stream << log << std::flush))
@@ -42,7 +46,8 @@ bool FileSink::stream(fly::logger::Log &&log)
 
         std::error_code error;
 
-        if (std::filesystem::file_size(m_log_file, error) > m_logger_config->max_log_file_size())
+        if (!m_compressing &&
+            std::filesystem::file_size(m_log_file, error) > m_logger_config->max_log_file_size())
         {
             return create_log_file();
         }
@@ -56,23 +61,12 @@ bool FileSink::stream(fly::logger::Log &&log)
 //==================================================================================================
 bool FileSink::create_log_file()
 {
+    std::filesystem::path previous_log_file;
+
     if (m_log_stream.is_open())
     {
         m_log_stream.close();
-
-        if (m_logger_config->compress_log_files())
-        {
-            std::filesystem::path compressed_log_file = m_log_file;
-            compressed_log_file.replace_extension(".log.enc");
-
-            fly::coders::HuffmanEncoder encoder(m_coder_config);
-
-            if (encoder.encode_file(m_log_file, compressed_log_file))
-            {
-                std::error_code error;
-                std::filesystem::remove(m_log_file, error);
-            }
-        }
+        previous_log_file = m_log_file;
     }
 
     std::string const random = fly::String::generate_random_string(10);
@@ -85,7 +79,30 @@ bool FileSink::create_log_file()
     m_log_file = m_log_directory / std::move(file_name);
 
     m_log_stream.open(m_log_file, std::ios::out);
+
+    if (!previous_log_file.empty() && m_logger_config->compress_log_files())
+    {
+        m_compressing = true;
+        compress_log_file(previous_log_file);
+        m_compressing = false;
+    }
+
     return m_log_stream.good();
 }
 
+//==================================================================================================
+void FileSink::compress_log_file(std::filesystem::path const &log_file)
+{
+    std::filesystem::path compressed_log_file = log_file;
+    compressed_log_file.replace_extension(".log.enc");
+
+    fly::coders::HuffmanEncoder encoder(m_coder_config);
+
+    if (encoder.encode_file(log_file, compressed_log_file))
+    {
+        std::error_code error;
+        std::filesystem::remove(log_file, error);
+    }
+}
+
 } // namespace fly::logger::detail
diff --git a/fly/logger/detail/file_sink.hpp b/fly/logger/detail/file_sink.hpp
index 929ad86..a601eaa 100644
--- a/fly/logger/detail/file_sink.hpp
+++ b/fly/logger/detail/file_sink.hpp
@@ -6,6 +6,7 @@
 #include <filesystem>
 #include <fstream>
 #include <memory>
+#include <mutex>
 
 namespace fly::coders {
 class CoderConfig;
@@ -65,6 +66,13 @@ private:
      */
     bool create_log_file();
 
+    /**
+     * Compress a log file which has been closed, and remove the original file if successful.
+     *
+     * @param log_file Path to the log file to compress.
+     */
+    void compress_log_file(std::filesystem::path const &log_file);
+
     std::shared_ptr<fly::logger::LoggerConfig> m_logger_config;
     std::shared_ptr<fly::coders::CoderConfig> m_coder_config;
 
@@ -72,6 +80,9 @@ private:
     std::filesystem::path m_log_file;
     std::ofstream m_log_stream;
     std::uint32_t m_log_index {0};
+
+    std::recursive_mutex m_mutex;
+    bool m_compressing {false};
 };
 
 } // namespace fly::logger::detail
-- 
2.43.0


From 32da9659be30d6d5099b0e9285e5a2add3b4c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 07/39] fix: Report coders that could not write all of their
 output as failed

---
 fly/coders/coder.cpp                       | 8 ++++++++
 fly/types/bit_stream/bit_stream_writer.cpp | 5 ++++-
 fly/types/bit_stream/bit_stream_writer.hpp | 7 ++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index feb8304..f722813 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -86,6 +86,10 @@ bool Encoder::encode_file(
         if (input && output)
         {
             successful = encode_internal(input, output);
+
+            // Closing the file flushes any buffered output, which could fail.
+            output.close();
+            successful = successful && output.good();
         }
     }
 
@@ -144,6 +148,10 @@ bool Decoder::decode_file(
         if (input && output)
         {
             successful = decode_internal(input, output);
+
+            // Closing the file flushes any buffered output, which could fail.
+            output.close();
+            successful = successful && output.good();
         }
     }
 
diff --git a/fly/types/bit_stream/bit_stream_writer.cpp b/fly/types/bit_stream/bit_stream_writer.cpp
index 9482d70..86eaf98 100644
--- a/fly/types/bit_stream/bit_stream_writer.cpp
+++ b/fly/types/bit_stream/bit_stream_writer.cpp
@@ -48,7 +48,10 @@ bool BitStreamWriter::finish()
 //==================================================================================================
 void BitStreamWriter::flush_header(byte_type remainder)
 {
-    m_stream_buffer->pubseekpos(0);
+    if (m_stream && (m_stream_buffer->pubseekpos(0) == std::streampos(std::streamoff(-1))))
+    {
+        m_stream.setstate(std::ios::badbit);
+    }
 
     byte_type const header =
         (detail::s_magic << detail::s_magic_shift) | (remainder << detail::s_remainder_shift);
diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 26abf10..ef96c40 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -130,9 +130,14 @@ void BitStreamWriter::flush(DataType const &buffer, byte_type bytes)
     {
         DataType const data = endian_swap_if_non_native<std::endian::big>(buffer);
 
-        m_stream_buffer->sputn(
+        std::streamsize const bytes_written = m_stream_buffer->sputn(
             reinterpret_cast<std::ios::char_type const *>(&data),
             static_cast<std::streamsize>(bytes));
+
+        if (bytes_written != static_cast<std::streamsize>(bytes))
+        {
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 }
 
-- 
2.43.0


From c37f465ab76fcd532585fd0990b76254d885b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 08/39] fix: Report the Huffman encoder as failed when its
 input could not be read entirely

---
 fly/coders/huffman/huffman_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index 7b78b07..56d182e 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -51,7 +51,7 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         encode_symbols(chunk_size, encoded);
     }
 
-    return encoded.finish();
+    return encoded.finish() && !decoded.bad();
 }
 
 //==================================================================================================
-- 
2.43.0


From 4c793e859afdf76d466d8758000144c4f07cb16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 09/39] fix: Reject encoded Huffman codes which do not form a
 tree

---
 fly/coders/huffman/huffman_decoder.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_decoder.cpp b/fly/coders/huffman/huffman_decoder.cpp
index 998d32c..b5e1b79 100644
--- a/fly/coders/huffman/huffman_decoder.cpp
+++ b/fly/coders/huffman/huffman_decoder.cpp
@@ -198,6 +198,11 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
                 LOGW("Exceeded maximum number of codes: {}", m_huffman_codes_size);
                 return false;
             }
+            else if ((length == 0) || (code >= (1_u32 << length)))
+            {
+                LOGW("Decoded too many codes of length {} bits", length);
+                return false;
+            }
 
             m_huffman_codes[m_huffman_codes_size++] =
                 HuffmanCode(static_cast<symbol_type>(symbol), code, length);
@@ -211,6 +216,13 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
 //==================================================================================================
 void HuffmanDecoder::convert_to_prefix_table(length_type max_code_length)
 {
+    // Invalidate the prefixes which were set by the previous chunk, as the codes of this chunk might
+    // not form a complete tree.
+    for (std::uint32_t i = 0; i < (1_u32 << max_code_length); ++i)
+    {
+        m_prefix_table[i].m_length = 0;
+    }
+
     for (std::uint16_t i = 0; i < m_huffman_codes_size; ++i)
     {
         HuffmanCode const code = std::move(m_huffman_codes[i]);
@@ -233,12 +245,19 @@ bool HuffmanDecoder::decode_symbols(
     std::ostream &decoded) const
 {
     std::uint32_t bytes = 0;
+    byte_type peeked;
     code_type prefix;
 
-    while ((bytes < chunk_size) && (encoded.peek_bits(prefix, max_code_length) != 0))
+    while ((bytes < chunk_size) && ((peeked = encoded.peek_bits(prefix, max_code_length)) != 0))
     {
         HuffmanCode const &code = m_prefix_table[prefix];
 
+        if ((code.m_length == 0) || (code.m_length > peeked))
+        {
+            LOGW("Decoded invalid prefix {:x}", prefix);
+            return false;
+        }
+
         m_chunk_buffer[bytes++] = code.m_symbol;
         encoded.discard_bits(code.m_length);
     }
-- 
2.43.0


From 9271f25ebae381e4072a4231a6d4c27cd24d5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 10/39] fix: Do not throw from the bit stream reader when its
 input cannot be read

---
 fly/types/bit_stream/bit_stream_reader.cpp | 19 +++++++++++++++++--
 fly/types/bit_stream/bit_stream_reader.hpp | 22 +++++++++++++++++++---
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_reader.cpp b/fly/types/bit_stream/bit_stream_reader.cpp
index f0cc7db..c802da3 100644
--- a/fly/types/bit_stream/bit_stream_reader.cpp
+++ b/fly/types/bit_stream/bit_stream_reader.cpp
@@ -44,7 +44,7 @@ bool BitStreamReader::fully_consumed() const
 {
     if (m_position == 0)
     {
-        return m_stream_buffer->sgetc() == EOF;
+        return !m_stream.bad() && end_of_stream();
     }
 
     return false;
@@ -77,7 +77,7 @@ void BitStreamReader::refill_buffer()
 
         m_buffer |= buffer >> (detail::s_most_significant_bit_position - bits_read);
 
-        if (m_stream_buffer->sgetc() == EOF)
+        if (end_of_stream())
         {
             // At end-of-file, discard any encoded zero-filled bits.
             m_position -= m_remainder;
@@ -86,4 +86,19 @@ void BitStreamReader::refill_buffer()
     }
 }
 
+//==================================================================================================
+bool BitStreamReader::end_of_stream() const
+{
+    // Stream buffers may throw if the underlying device could not be read.
+    try
+    {
+        return m_stream_buffer->sgetc() == EOF;
+    }
+    catch (std::ios::failure const &)
+    {
+        m_stream.setstate(std::ios::badbit);
+        return false;
+    }
+}
+
 } // namespace fly
diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 048961b..e305b5a 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -124,6 +124,11 @@ private:
      */
     void refill_buffer();
 
+    /**
+     * @return True if there are no more bytes available in the input stream.
+     */
+    bool end_of_stream() const;
+
     /**
      * Read from the stream to fill a byte buffer.
      *
@@ -238,9 +243,20 @@ byte_type BitStreamReader::fill(DataType &buffer, byte_type bytes)
 {
     if (m_stream)
     {
-        std::streamsize const bytes_read = m_stream_buffer->sgetn(
-            reinterpret_cast<std::ios::char_type *>(&buffer),
-            static_cast<std::streamsize>(bytes));
+        std::streamsize bytes_read = 0;
+
+        // Stream buffers may throw if the underlying device could not be read.
+        try
+        {
+            bytes_read = m_stream_buffer->sgetn(
+                reinterpret_cast<std::ios::char_type *>(&buffer),
+                static_cast<std::streamsize>(bytes));
+        }
+        catch (std::ios::failure const &)
+        {
+            m_stream.setstate(std::ios::badbit);
+            return 0;
+        }
 
         buffer = endian_swap_if_non_native<std::endian::big>(buffer);
         return static_cast<byte_type>(bytes_read);
-- 
2.43.0


From 98b0c41f934657434b254036db4393a8635c8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 11/39] fix: Reject non-ASCII symbols when decoding Base64

---
 fly/coders/base64/base64_coder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 9dad34d..12d6660 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -83,10 +83,10 @@ namespace {
     std::conditional_t<AllowPadding::value, std::size_t, bool>
     decode_chunk(std::ios::char_type const *encoded, std::ios::char_type *decoded)
     {
-        auto const code0 = s_base64_codes[static_cast<std::size_t>(encoded[0])];
-        auto const code1 = s_base64_codes[static_cast<std::size_t>(encoded[1])];
-        auto const code2 = s_base64_codes[static_cast<std::size_t>(encoded[2])];
-        auto const code3 = s_base64_codes[static_cast<std::size_t>(encoded[3])];
+        auto const code0 = s_base64_codes[static_cast<std::uint8_t>(encoded[0])];
+        auto const code1 = s_base64_codes[static_cast<std::uint8_t>(encoded[1])];
+        auto const code2 = s_base64_codes[static_cast<std::uint8_t>(encoded[2])];
+        auto const code3 = s_base64_codes[static_cast<std::uint8_t>(encoded[3])];
 
         // All 6 bits of the first code, first 2 bits of the second code.
         decoded[0] = static_cast<std::ios::char_type>((code0 << 2) | ((code1 >> 4) & 0x03));
-- 
2.43.0


From 815a9f43ec21481cc19fbfc9a375205cba832d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 12/39] fix: Decode padded Base64 whose length is a multiple of
 the read size

---
 fly/coders/base64/base64_coder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 12d6660..34f18b0 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -177,6 +177,13 @@ bool Base64Coder::decode_internal(std::istream &encoded, std::ostream &decoded)
             break;
         }
 
+        if (encoded)
+        {
+            // The buffer was filled entirely. If there is nothing left to read, reach end-of-file now
+            // to handle the padding symbols of this last chunk.
+            encoded.peek();
+        }
+
         std::ios::char_type const *encoding = m_encoded.data();
         std::ios::char_type *decoding = m_decoded.data();
 
-- 
2.43.0


From 8ec43aab9036d9266e75f2c9e76c350aa2c88b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 13/39] fix: Keep registrations made while
 PathMonitor::remove_file prunes a directory

---
 fly/path/path_monitor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index 94dd82c..f07a96e 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -131,7 +131,6 @@ bool PathMonitor::add_file(std::filesystem::path const &file, PathEventCallback
 //==================================================================================================
 bool PathMonitor::remove_file(std::filesystem::path const &file)
 {
-    bool prune_path = false;
     {
         std::lock_guard<std::mutex> lock(m_mutex);
         auto path_it = m_path_info.find(file.parent_path());
@@ -154,10 +153,14 @@ bool PathMonitor::remove_file(std::filesystem::path const &file)
         LOGD("Stopped monitoring {}", file);
         info->m_file_handlers.erase(file_it);
 
-        prune_path = info->m_file_handlers.empty() && !(info->m_path_handler);
+        if (info->m_file_handlers.empty() && !(info->m_path_handler))
+        {
+            LOGI("Removed monitor for {}", file.parent_path());
+            m_path_info.erase(path_it);
+        }
     }
 
-    return prune_path ? remove_path(file.parent_path()) : true;
+    return true;
 }
 
 //==================================================================================================
-- 
2.43.0


From 405192bef76a530c55de728386845886bcdc7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 14/39] fix: Watch a directory that was replaced when it is
 added to a path monitor again

---
 fly/path/nix/path_monitor_impl.cpp | 22 ++++++++++++++++++++++
 fly/path/nix/path_monitor_impl.hpp |  9 +++++++++
 fly/path/path_monitor.cpp          |  8 +++++++-
 fly/path/path_monitor.hpp          | 10 ++++++++++
 4 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 571bf93..2cd15ee 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -209,4 +209,26 @@ bool PathMonitorImpl::PathInfoImpl::is_valid() const
     return m_watch_descriptor != -1;
 }
 
+//==================================================================================================
+bool PathMonitorImpl::PathInfoImpl::refresh(std::filesystem::path const &path)
+{
+    // This returns the existing watch unless the path now refers to another directory.
+    int const watch_descriptor =
+        ::inotify_add_watch(m_monitor_descriptor, path.string().c_str(), s_change_flags);
+
+    if (watch_descriptor == -1)
+    {
+        LOGS("Could not renew watcher for {}", path);
+        return false;
+    }
+
+    if (watch_descriptor != m_watch_descriptor)
+    {
+        ::inotify_rm_watch(m_monitor_descriptor, m_watch_descriptor);
+        m_watch_descriptor = watch_descriptor;
+    }
+
+    return true;
+}
+
 } // namespace fly::path
diff --git a/fly/path/nix/path_monitor_impl.hpp b/fly/path/nix/path_monitor_impl.hpp
index a9e27ad..d53bdaa 100644
--- a/fly/path/nix/path_monitor_impl.hpp
+++ b/fly/path/nix/path_monitor_impl.hpp
@@ -73,6 +73,15 @@ private:
          */
         bool is_valid() const override;
 
+        /**
+         * Renew the inotify watch if the monitored path has been replaced.
+         *
+         * @param path The monitored path.
+         *
+         * @return True if the path is watched.
+         */
+        bool refresh(std::filesystem::path const &path) override;
+
         int m_monitor_descriptor;
         int m_watch_descriptor;
     };
diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index f07a96e..74ceb9f 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -170,7 +170,7 @@ PathMonitor::PathInfo *PathMonitor::get_or_create_path_info(std::filesystem::pat
 
     if (auto it = m_path_info.find(path); it != m_path_info.end())
     {
-        info = it->second.get();
+        info = it->second->refresh(path) ? it->second.get() : nullptr;
     }
     else
     {
@@ -186,6 +186,12 @@ PathMonitor::PathInfo *PathMonitor::get_or_create_path_info(std::filesystem::pat
     return info;
 }
 
+//==================================================================================================
+bool PathMonitor::PathInfo::refresh(std::filesystem::path const &)
+{
+    return is_valid();
+}
+
 //==================================================================================================
 bool PathMonitor::poll_paths_later()
 {
diff --git a/fly/path/path_monitor.hpp b/fly/path/path_monitor.hpp
index aa0febb..8fe56a8 100644
--- a/fly/path/path_monitor.hpp
+++ b/fly/path/path_monitor.hpp
@@ -128,6 +128,16 @@ protected:
          */
         virtual bool is_valid() const = 0;
 
+        /**
+         * Make sure the path is still monitored. The path may have been replaced since monitoring
+         * began, e.g. if a directory was deleted and then created again.
+         *
+         * @param path The monitored path.
+         *
+         * @return True if the monitored path is healthy.
+         */
+        virtual bool refresh(std::filesystem::path const &path);
+
         PathEventCallback m_path_handler;
         std::map<std::filesystem::path, PathEventCallback> m_file_handlers;
     };
-- 
2.43.0


From dad05a50a39d4fb1cabcf254f3f686147ce5724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 15/39] fix: Remove inotify watches before closing the path
 monitor's descriptor

---
 fly/path/nix/path_monitor_impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 2cd15ee..3fa2d33 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -36,6 +36,10 @@ PathMonitorImpl::PathMonitorImpl(
 //==================================================================================================
 PathMonitorImpl::~PathMonitorImpl()
 {
+    // The watches must be removed while the descriptor is still open. Once closed, its number may
+    // already belong to another path monitor.
+    remove_all_paths();
+
     if (m_monitor_descriptor != -1)
     {
         ::close(m_monitor_descriptor);
-- 
2.43.0


From cf28eea2b04fcfe1c6ee97decae7ab76d7a1bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 16/39] fix: Do not throw from the parsers when a file cannot
 be read

---
 fly/parser/parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fly/parser/parser.cpp b/fly/parser/parser.cpp
index 52579ba..6b961eb 100644
--- a/fly/parser/parser.cpp
+++ b/fly/parser/parser.cpp
@@ -93,8 +93,18 @@ std::optional<fly::Json> Parser::parse_stream(std::istream &&stream)
     m_line = 1;
     m_column = 0;
 
+    std::optional<fly::Json> result;
     m_stream_buffer = stream.rdbuf();
-    auto result = parse_internal();
+
+    try
+    {
+        result = parse_internal();
+    }
+    catch (std::ios_base::failure const &)
+    {
+        // The stream buffer could not be read.
+    }
+
     m_stream_buffer = nullptr;
 
     return result;
-- 
2.43.0


From ddda2db086b1db3a65aa669356a653bf111edeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 17/39] fix: Reject UTF-16 and UTF-32 files that could not be
 read entirely

---
 fly/parser/parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fly/parser/parser.hpp b/fly/parser/parser.hpp
index 0df8bd5..bfab634 100644
--- a/fly/parser/parser.hpp
+++ b/fly/parser/parser.hpp
@@ -227,6 +227,11 @@ std::optional<std::string> Parser::ensure_utf8(std::istream &stream) const
         }
     }
 
+    if (stream.bad())
+    {
+        return std::nullopt;
+    }
+
     return fly::BasicString<char_type>::template convert<std::string>(contents);
 }
 
-- 
2.43.0


From adf3be331ea57518c2f2c691d6080b1e7fa6e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 18/39] fix: Do not destroy the configuration manager while its
 path monitor is locked

---
 fly/config/config_manager.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index da40c90..ed5e5ba 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -81,15 +81,17 @@ bool ConfigManager::start()
 
     std::weak_ptr<ConfigManager> weak_self = shared_from_this();
 
-    auto callback = [weak_self](std::filesystem::path, fly::path::PathEvent) {
-        if (auto self = weak_self.lock(); self)
-        {
-            auto task = [](std::shared_ptr<ConfigManager> nested_self) {
-                nested_self->update_config();
-            };
-
-            self->m_task_runner->post_task(FROM_HERE, std::move(weak_self), std::move(task));
-        }
+    // The callback must not hold a strong reference to the configuration manager. If that were the
+    // last one, the manager would be destroyed on, and remove its file from, the path monitor while
+    // the path monitor is locked.
+    auto callback = [weak_self, task_runner = m_task_runner](
+                        std::filesystem::path,
+                        fly::path::PathEvent) {
+        auto task = [](std::shared_ptr<ConfigManager> self) {
+            self->update_config();
+        };
+
+        task_runner->post_task(FROM_HERE, weak_self, std::move(task));
     };
 
     return m_monitor->add_file(m_path, callback);
-- 
2.43.0


From a8da84897290effeb530c048e579a3b0d62f06d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 19/39] fix: Do not corrupt consecutive 64-bit values written
 to a bit stream

---
 fly/types/bit_stream/bit_stream_writer.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index ef96c40..e4cd939 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -107,8 +107,13 @@ void BitStreamWriter::write_bits(DataType bits, byte_type size)
         byte_type const rshift = size - m_position;
 
         // Fill the remainder of the byte buffer with as many bits as are available, and flush it
-        // onto the stream.
-        m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        // onto the stream. It is undefined behavior to bit-shift by the size of the value being
+        // shifted, which would occur for buffer_type writes when no bits are available.
+        if (m_position > 0)
+        {
+            m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        }
+
         flush_buffer();
 
         // Then update the input bits to retain only those bits that have not been written yet.
-- 
2.43.0


From b304f3ef88bcba499056de79dec55bfb743af234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 20/39] fix: Do not return zero-filled bits when the end of a
 bit stream could not be read

---
 fly/types/bit_stream/bit_stream_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_reader.cpp b/fly/types/bit_stream/bit_stream_reader.cpp
index c802da3..fd0a862 100644
--- a/fly/types/bit_stream/bit_stream_reader.cpp
+++ b/fly/types/bit_stream/bit_stream_reader.cpp
@@ -77,9 +77,10 @@ void BitStreamReader::refill_buffer()
 
         m_buffer |= buffer >> (detail::s_most_significant_bit_position - bits_read);
 
-        if (end_of_stream())
+        if (end_of_stream() || m_stream.bad())
         {
-            // At end-of-file, discard any encoded zero-filled bits.
+            // At end-of-file, discard any encoded zero-filled bits. If it could not be determined
+            // whether this is end-of-file, those bits might be zero-filled.
             m_position -= m_remainder;
             m_buffer >>= m_remainder;
         }
-- 
2.43.0


From 69e8a84033613fcca410fbe092db2e33ac4c9a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 21/39] fix: Reject Huffman settings that cannot encode the
 input

---
 fly/coders/huffman/huffman_encoder.cpp | 24 ++++++++++++++++++++++--
 fly/coders/huffman/huffman_encoder.hpp |  4 +++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index 56d182e..5e714c1 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -36,6 +36,14 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         LOGW("Maximum Huffman code length {} is too large for code_type", m_max_code_length);
         return false;
     }
+    else if ((m_max_code_length == 0) || (m_chunk_size == 0))
+    {
+        LOGW(
+            "Maximum Huffman code length {} and chunk size {} must not be zero",
+            m_max_code_length,
+            m_chunk_size);
+        return false;
+    }
 
     encode_header(encoded);
 
@@ -45,7 +53,12 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
     while ((chunk_size = read_stream(decoded)) > 0)
     {
         create_tree(chunk_size);
-        create_codes();
+
+        if (!create_codes())
+        {
+            LOGW("Maximum Huffman code length {} is too small", m_max_code_length);
+            return false;
+        }
 
         encode_codes(encoded);
         encode_symbols(chunk_size, encoded);
@@ -112,7 +125,7 @@ void HuffmanEncoder::create_tree(std::uint32_t chunk_size)
 }
 
 //==================================================================================================
-void HuffmanEncoder::create_codes()
+bool HuffmanEncoder::create_codes()
 {
     std::stack<HuffmanNode const *> pending;
     std::stack<HuffmanNode const *> path;
@@ -160,10 +173,17 @@ void HuffmanEncoder::create_codes()
 
     if (max_code_length > m_max_code_length)
     {
+        // There must be a unique code of the maximum length for each symbol.
+        if (m_huffman_codes_size > (1_u32 << m_max_code_length))
+        {
+            return false;
+        }
+
         limit_code_lengths();
     }
 
     convert_to_canonical_form();
+    return true;
 }
 
 //==================================================================================================
diff --git a/fly/coders/huffman/huffman_encoder.hpp b/fly/coders/huffman/huffman_encoder.hpp
index 04ea766..66053d2 100644
--- a/fly/coders/huffman/huffman_encoder.hpp
+++ b/fly/coders/huffman/huffman_encoder.hpp
@@ -112,8 +112,10 @@ private:
     /**
      * Create a list of Huffman codes from the generated Huffman tree. The list of codes will be in
      * canonical form.
+     *
+     * @return True if all codes could be formed within the maximum code length.
      */
-    void create_codes();
+    bool create_codes();
 
     /**
      * Insert a new Huffman code into the list of already sorted codes.
-- 
2.43.0


From 1ff2d7c6c74730627b8f419124477b991bf03dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 22/39] fix: do not report a system CPU usage of NaN when the
 counters made no progress

---
 fly/system/nix/system_monitor_impl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fly/system/nix/system_monitor_impl.cpp b/fly/system/nix/system_monitor_impl.cpp
index a9ccbe8..579ccfa 100644
--- a/fly/system/nix/system_monitor_impl.cpp
+++ b/fly/system/nix/system_monitor_impl.cpp
@@ -93,7 +93,11 @@ void SystemMonitorImpl::update_system_cpu_usage()
             (system - m_prev_system_system_time);
         auto const total = active + (idle - m_prev_system_idle_time);
 
-        m_system_cpu_usage.store(100.0 * active / total);
+        // The usage is only defined if the counters have progressed since the last poll.
+        if (total > 0)
+        {
+            m_system_cpu_usage.store(100.0 * active / total);
+        }
     }
 
     m_prev_system_user_time = user;
-- 
2.43.0


From a92e88c4ab3253b87f58bfda54fa1bc53e4718d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 23/39] fix: limit the process CPU usage to 100 percent

---
 fly/system/nix/system_monitor_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fly/system/nix/system_monitor_impl.cpp b/fly/system/nix/system_monitor_impl.cpp
index 579ccfa..f73f23b 100644
--- a/fly/system/nix/system_monitor_impl.cpp
+++ b/fly/system/nix/system_monitor_impl.cpp
@@ -7,6 +7,7 @@
 #include <sys/sysinfo.h>
 #include <sys/times.h>
 
+#include <algorithm>
 #include <cinttypes>
 #include <cstring>
 #include <fstream>
@@ -125,7 +126,9 @@ void SystemMonitorImpl::update_process_cpu_usage()
             (sample.tms_utime - m_prev_process_user_time);
         auto const time = now - m_prev_time;
 
-        m_process_cpu_usage.store(100.0 * cpu / time / m_system_cpu_count.load());
+        // Clock ticks are coarse, and CPUs may have been removed since the last poll.
+        auto const usage = 100.0 * cpu / time / m_system_cpu_count.load();
+        m_process_cpu_usage.store(std::min(usage, 100.0));
     }
 
     m_prev_process_system_time = sample.tms_stime;
-- 
2.43.0


From e4278db3cc4982aa3fee29be0052eabadcdff033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 24/39] fix: do not store a partial CPU count when reading the
 CPU statistics fails

---
 fly/system/nix/system_monitor_impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/system/nix/system_monitor_impl.cpp b/fly/system/nix/system_monitor_impl.cpp
index f73f23b..3916e22 100644
--- a/fly/system/nix/system_monitor_impl.cpp
+++ b/fly/system/nix/system_monitor_impl.cpp
@@ -51,7 +51,8 @@ void SystemMonitorImpl::update_system_cpu_count()
         }
     }
 
-    if (cpu_count == 0)
+    // If the file could not be read to its end, not all CPUs may have been counted.
+    if ((cpu_count == 0) || stream.bad())
     {
         LOGS("Could not poll system CPU count ({})", contents);
     }
-- 
2.43.0


From 77a46a917d4412aa16fb8e952f83cc498bc9e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 25/39] fix: Do not report closed sockets as connected or
 listening

---
 fly/net/socket/listen_socket.cpp | 2 +-
 fly/net/socket/listen_socket.hpp | 1 +
 fly/net/socket/tcp_socket.cpp    | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 4351752..7f1f819 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -87,7 +87,7 @@ bool ListenSocket<EndpointType>::listen()
 template <IPEndpoint EndpointType>
 bool ListenSocket<EndpointType>::is_listening() const
 {
-    return m_is_listening;
+    return m_is_listening && is_open();
 }
 
 //==================================================================================================
diff --git a/fly/net/socket/listen_socket.hpp b/fly/net/socket/listen_socket.hpp
index 7a9ceb5..34ea682 100644
--- a/fly/net/socket/listen_socket.hpp
+++ b/fly/net/socket/listen_socket.hpp
@@ -100,6 +100,7 @@ public:
     using BaseSocket::close;
     using BaseSocket::handle;
     using BaseSocket::io_mode;
+    using BaseSocket::is_open;
 
 private:
     friend SocketService;
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 386bcaf..e697520 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -224,14 +224,14 @@ ConnectedState TcpSocket<EndpointType>::finish_connect()
 template <IPEndpoint EndpointType>
 bool TcpSocket<EndpointType>::is_connecting() const
 {
-    return m_connected_state.load() == ConnectedState::Connecting;
+    return is_open() && (m_connected_state.load() == ConnectedState::Connecting);
 }
 
 //==================================================================================================
 template <IPEndpoint EndpointType>
 bool TcpSocket<EndpointType>::is_connected() const
 {
-    return m_connected_state.load() == ConnectedState::Connected;
+    return is_open() && (m_connected_state.load() == ConnectedState::Connected);
 }
 
 //==================================================================================================
-- 
2.43.0


From ac74e57845f9eaae2b85e1d06959672a6cfb57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 26/39] fix: Do not race on the socket handle when a socket is
 closed by its service

---
 fly/net/socket/detail/base_socket.cpp | 18 +++++++++---------
 fly/net/socket/detail/base_socket.hpp |  3 ++-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 2ee43f4..78ca207 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -47,11 +47,10 @@ template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType>::BaseSocket(BaseSocket &&socket) noexcept :
     m_weak_socket_service(std::move(socket.m_weak_socket_service)),
     m_config(std::move(socket.m_config)),
-    m_socket_handle(socket.m_socket_handle),
+    m_socket_handle(socket.m_socket_handle.exchange(fly::net::detail::invalid_socket())),
     m_socket_id(socket.m_socket_id),
     m_mode(socket.m_mode)
 {
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
 }
 
 //==================================================================================================
@@ -67,12 +66,10 @@ BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socke
 {
     m_weak_socket_service = std::move(socket.m_weak_socket_service);
     m_config = std::move(socket.m_config);
-    m_socket_handle = socket.m_socket_handle;
+    m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
     m_socket_id = socket.m_socket_id;
     m_mode = socket.m_mode;
 
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
-
     return *this;
 }
 
@@ -145,15 +142,18 @@ std::optional<EndpointType> BaseSocket<EndpointType>::local_endpoint() const
 template <fly::net::IPEndpoint EndpointType>
 void BaseSocket<EndpointType>::close()
 {
-    if (is_open())
+    // The handle is invalidated before it is closed, so that other threads do not use it once the
+    // system may have assigned it to another socket.
+    socket_type const handle = m_socket_handle.exchange(fly::net::detail::invalid_socket());
+
+    if (handle != fly::net::detail::invalid_socket())
     {
         if (auto service = socket_service(); service)
         {
-            service->remove_socket(m_socket_handle);
+            service->remove_socket(handle);
         }
 
-        fly::net::detail::close(m_socket_handle);
-        m_socket_handle = fly::net::detail::invalid_socket();
+        fly::net::detail::close(handle);
     }
 }
 
diff --git a/fly/net/socket/detail/base_socket.hpp b/fly/net/socket/detail/base_socket.hpp
index a266482..e8b73db 100644
--- a/fly/net/socket/detail/base_socket.hpp
+++ b/fly/net/socket/detail/base_socket.hpp
@@ -3,6 +3,7 @@
 #include "fly/net/socket/concepts.hpp"
 #include "fly/net/socket/types.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <memory>
 #include <optional>
@@ -182,7 +183,7 @@ private:
 
     std::shared_ptr<fly::net::NetworkConfig> m_config;
 
-    socket_type m_socket_handle;
+    std::atomic<socket_type> m_socket_handle;
     std::uint64_t m_socket_id;
     fly::net::IOMode m_mode;
 };
-- 
2.43.0


From 235651627ba0a63cfcfe7dabe9472d21aec99675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 27/39] fix: Close the socket that is replaced by a move
 assignment

---
 fly/net/socket/detail/base_socket.cpp | 15 ++++++++++-----
 fly/net/socket/listen_socket.cpp      |  5 +++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 78ca207..34d4caa 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -64,11 +64,16 @@ BaseSocket<EndpointType>::~BaseSocket() noexcept
 template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socket) noexcept
 {
-    m_weak_socket_service = std::move(socket.m_weak_socket_service);
-    m_config = std::move(socket.m_config);
-    m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
-    m_socket_id = socket.m_socket_id;
-    m_mode = socket.m_mode;
+    if (this != &socket)
+    {
+        close();
+
+        m_weak_socket_service = std::move(socket.m_weak_socket_service);
+        m_config = std::move(socket.m_config);
+        m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
+        m_socket_id = socket.m_socket_id;
+        m_mode = socket.m_mode;
+    }
 
     return *this;
 }
diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 7f1f819..7440f2b 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -8,6 +8,8 @@
 #include "fly/net/socket/socket_service.hpp"
 #include "fly/net/socket/tcp_socket.hpp"
 
+#include <utility>
+
 namespace fly::net {
 
 //==================================================================================================
@@ -69,8 +71,7 @@ auto ListenSocket<EndpointType>::create_socket(
 template <IPEndpoint EndpointType>
 ListenSocket<EndpointType> &ListenSocket<EndpointType>::operator=(ListenSocket &&socket) noexcept
 {
-    m_is_listening = socket.m_is_listening;
-    socket.m_is_listening = false;
+    m_is_listening = std::exchange(socket.m_is_listening, false);
 
     return static_cast<ListenSocket &>(BaseSocket::operator=(std::move(socket)));
 }
-- 
2.43.0


From 5ed3af3b7609ee2ceb6919fb8bd675d33d659f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 28/39] fix: Do not monitor sockets that were closed before
 their request was queued

---
 fly/net/socket/socket_service.cpp | 30 +++++++++++++----
 fly/net/socket/socket_service.hpp | 54 ++++++++++++++++++++++++++-----
 2 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index a23f8f7..8f47e0f 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -61,11 +61,20 @@ void SocketService::remove_socket(socket_type handle)
 }
 
 //==================================================================================================
-void SocketService::notify_when_writable(socket_type handle, Notification &&callback)
+void SocketService::notify_when_writable(HandleGetter &&getter, Notification &&callback)
 {
-    auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
+    auto task = [getter = std::move(getter),
+                 callback = std::move(callback)](std::shared_ptr<SocketService> self) mutable {
+        auto const handle = std::invoke(getter);
+
+        if (!handle || (*handle == detail::invalid_socket()))
+        {
+            std::invoke(std::move(callback));
+            return;
+        }
+
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
-        self->m_write_requests.emplace_back(handle, std::move(callback));
+        self->m_write_requests.emplace_back(*handle, std::move(callback));
 
         if (should_poll)
         {
@@ -78,11 +87,20 @@ void SocketService::notify_when_writable(socket_type handle, Notification &&call
 }
 
 //==================================================================================================
-void SocketService::notify_when_readable(socket_type handle, Notification &&callback)
+void SocketService::notify_when_readable(HandleGetter &&getter, Notification &&callback)
 {
-    auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
+    auto task = [getter = std::move(getter),
+                 callback = std::move(callback)](std::shared_ptr<SocketService> self) mutable {
+        auto const handle = std::invoke(getter);
+
+        if (!handle || (*handle == detail::invalid_socket()))
+        {
+            std::invoke(std::move(callback));
+            return;
+        }
+
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
-        self->m_read_requests.emplace_back(handle, std::move(callback));
+        self->m_read_requests.emplace_back(*handle, std::move(callback));
 
         if (should_poll)
         {
diff --git a/fly/net/socket/socket_service.hpp b/fly/net/socket/socket_service.hpp
index edb7c49..7d4fab7 100644
--- a/fly/net/socket/socket_service.hpp
+++ b/fly/net/socket/socket_service.hpp
@@ -5,6 +5,7 @@
 
 #include <functional>
 #include <memory>
+#include <optional>
 #include <vector>
 
 namespace fly::task {
@@ -103,6 +104,7 @@ public:
 
 private:
     using Notification = std::function<void()>;
+    using HandleGetter = std::function<std::optional<socket_type>()>;
 
     struct Request
     {
@@ -123,27 +125,43 @@ private:
 
     /**
      * Monitor a socket handle for readiness to be written to. Once queued, if the polling task is
-     * not already armed, it will be triggered.
+     * not already armed, it will be triggered. If the socket has since been closed, the callback is
+     * triggered immediately, as its handle cannot be monitored.
      *
      * Note: The provided callback will be triggered directly on the sequence that is monitoring all
      * sockets. Thus, the callback should not perform any blocking operations.
      *
-     * @param handle The socket handle to monitor.
+     * @param getter Function to retrieve the socket handle to monitor.
      * @param callback The callback to invoke when the socket is ready for writing.
      */
-    void notify_when_writable(socket_type handle, Notification &&callback);
+    void notify_when_writable(HandleGetter &&getter, Notification &&callback);
 
     /**
      * Monitor a socket handle for readiness to be read from. Once queued, if the polling task is
-     * not already armed, it will be triggered.
+     * not already armed, it will be triggered. If the socket has since been closed, the callback is
+     * triggered immediately, as its handle cannot be monitored.
      *
      * Note: The provided callback will be triggered directly on the sequence that is monitoring all
      * sockets. Thus, the callback should not perform any blocking operations.
      *
-     * @param handle The socket handle to monitor.
+     * @param getter Function to retrieve the socket handle to monitor.
      * @param callback The callback to invoke when the socket is ready for reading.
      */
-    void notify_when_readable(socket_type handle, Notification &&callback);
+    void notify_when_readable(HandleGetter &&getter, Notification &&callback);
+
+    /**
+     * Create a function to retrieve the handle of a socket at the time the function is invoked. If
+     * the socket has since been destroyed, an uninitialized value is retrieved. If the socket has
+     * since been closed, the retrieved handle is invalid.
+     *
+     * @tparam SocketType Type of the socket to monitor.
+     *
+     * @param socket The socket to monitor.
+     *
+     * @return The function to retrieve the socket's handle.
+     */
+    template <Socket SocketType>
+    HandleGetter wrap_handle(std::shared_ptr<SocketType> const &socket);
 
     /**
      * Wrap a callback in a lambda to be protected by the provied strong socket pointer. The strong
@@ -188,7 +206,9 @@ void SocketService::notify_when_writable(
     std::shared_ptr<SocketType> const &socket,
     Callback &&callback)
 {
-    notify_when_writable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    notify_when_writable(
+        wrap_handle(socket),
+        wrap_callback(socket, std::forward<Callback>(callback)));
 }
 
 //==================================================================================================
@@ -197,7 +217,25 @@ void SocketService::notify_when_readable(
     std::shared_ptr<SocketType> const &socket,
     Callback &&callback)
 {
-    notify_when_readable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    notify_when_readable(
+        wrap_handle(socket),
+        wrap_callback(socket, std::forward<Callback>(callback)));
+}
+
+//==================================================================================================
+template <Socket SocketType>
+auto SocketService::wrap_handle(std::shared_ptr<SocketType> const &socket) -> HandleGetter
+{
+    std::weak_ptr<SocketType> weak_socket = socket;
+
+    return [weak_socket = std::move(weak_socket)]() -> std::optional<socket_type> {
+        if (std::shared_ptr<SocketType> strong_socket = weak_socket.lock(); strong_socket)
+        {
+            return strong_socket->handle();
+        }
+
+        return std::nullopt;
+    };
 }
 
 //==================================================================================================
-- 
2.43.0


From 3678fcc196b641444615eecabf7d24e42a821f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 29/39] fix: Complete socket operations that would block in the
 order of their requests

---
 fly/net/socket/listen_socket.cpp  |  7 ++++-
 fly/net/socket/socket_service.cpp |  5 ++-
 fly/net/socket/socket_service.hpp | 52 +++++++++++++++++++++++++++++++
 fly/net/socket/tcp_socket.cpp     |  4 +--
 fly/net/socket/udp_socket.cpp     |  4 +--
 5 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 7440f2b..282db10 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -146,7 +146,12 @@ void ListenSocket<EndpointType>::ready_to_accept(AcceptCompletion &&callback)
     else if (would_block)
     {
         SLOGD(handle(), "Accept would block - will try again later");
-        accept_async(std::move(callback));
+
+        socket_service()->retry_when_readable(
+            this->shared_from_this(),
+            [callback = std::move(callback)](std::shared_ptr<ListenSocket> self) mutable {
+                self->ready_to_accept(std::move(callback));
+            });
     }
     else
     {
diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index 8f47e0f..a2c7582 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -137,8 +137,11 @@ void SocketService::poll()
                     return handle == request.m_handle;
                 });
 
-            std::invoke(std::move(it->m_callback));
+            // The request is erased first because its callback may add requests.
+            Notification const callback = std::move(it->m_callback);
             pending.erase(it);
+
+            std::invoke(callback);
         }
     };
 
diff --git a/fly/net/socket/socket_service.hpp b/fly/net/socket/socket_service.hpp
index 7d4fab7..16fbb22 100644
--- a/fly/net/socket/socket_service.hpp
+++ b/fly/net/socket/socket_service.hpp
@@ -102,6 +102,38 @@ public:
     template <Socket SocketType, SocketNotification<SocketType> Callback>
     void notify_when_readable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
 
+    /**
+     * Continue to monitor a socket handle for readiness to be written to, for an operation which
+     * could not be completed when its callback was invoked. The request is ordered before all other
+     * such requests of the socket, thus operations complete in the order they were requested.
+     *
+     * Note: This may only be invoked from a callback provided to notify_when_writable.
+     *
+     * @tparam SocketType Type of the socket to monitor.
+     * @tparam Callback Type of the callback to invoke when the socket is ready for writing.
+     *
+     * @param socket The socket to monitor.
+     * @param callback The callback to invoke when the socket is ready for writing.
+     */
+    template <Socket SocketType, SocketNotification<SocketType> Callback>
+    void retry_when_writable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
+
+    /**
+     * Continue to monitor a socket handle for readiness to be read from, for an operation which
+     * could not be completed when its callback was invoked. The request is ordered before all other
+     * such requests of the socket, thus operations complete in the order they were requested.
+     *
+     * Note: This may only be invoked from a callback provided to notify_when_readable.
+     *
+     * @tparam SocketType Type of the socket to monitor.
+     * @tparam Callback Type of the callback to invoke when the socket is ready for reading.
+     *
+     * @param socket The socket to monitor.
+     * @param callback The callback to invoke when the socket is ready for reading.
+     */
+    template <Socket SocketType, SocketNotification<SocketType> Callback>
+    void retry_when_readable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
+
 private:
     using Notification = std::function<void()>;
     using HandleGetter = std::function<std::optional<socket_type>()>;
@@ -222,6 +254,26 @@ void SocketService::notify_when_readable(
         wrap_callback(socket, std::forward<Callback>(callback)));
 }
 
+//==================================================================================================
+template <Socket SocketType, SocketNotification<SocketType> Callback>
+void SocketService::retry_when_writable(
+    std::shared_ptr<SocketType> const &socket,
+    Callback &&callback)
+{
+    Request request(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    m_write_requests.insert(m_write_requests.begin(), std::move(request));
+}
+
+//==================================================================================================
+template <Socket SocketType, SocketNotification<SocketType> Callback>
+void SocketService::retry_when_readable(
+    std::shared_ptr<SocketType> const &socket,
+    Callback &&callback)
+{
+    Request request(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    m_read_requests.insert(m_read_requests.begin(), std::move(request));
+}
+
 //==================================================================================================
 template <Socket SocketType>
 auto SocketService::wrap_handle(std::shared_ptr<SocketType> const &socket) -> HandleGetter
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index e697520..cfbbb59 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -333,7 +333,7 @@ void TcpSocket<EndpointType>::ready_to_send(
         SLOGI(handle(), "Send would block - sent {} of {} bytes", bytes_sent, total_bytes);
         message = message.substr(current_sent);
 
-        socket_service()->notify_when_writable(
+        socket_service()->retry_when_writable(
             this->shared_from_this(),
             [message, callback = std::move(callback), bytes_sent, total_bytes](
                 std::shared_ptr<TcpSocket> self) mutable {
@@ -367,7 +367,7 @@ void TcpSocket<EndpointType>::ready_to_receive(ReceiveCompletion &&callback, std
     {
         SLOGI(handle(), "Receive would block - received {} bytes", received.length());
 
-        socket_service()->notify_when_readable(
+        socket_service()->retry_when_readable(
             this->shared_from_this(),
             [callback = std::move(callback),
              received = std::move(received)](std::shared_ptr<TcpSocket> self) mutable {
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index f5b1acb..779c775 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -209,7 +209,7 @@ void UdpSocket<EndpointType>::ready_to_send(
         SLOGI(handle(), "Send would block - sent {} of {} bytes", bytes_sent, total_bytes);
         message = message.substr(current_sent);
 
-        socket_service()->notify_when_writable(
+        socket_service()->retry_when_writable(
             this->shared_from_this(),
             [endpoint, message, callback = std::move(callback), bytes_sent, total_bytes](
                 std::shared_ptr<UdpSocket> self) mutable {
@@ -250,7 +250,7 @@ void UdpSocket<EndpointType>::ready_to_receive(ReceiveCompletion &&callback, std
     {
         SLOGI(handle(), "Receive would block - received {} bytes", received.length());
 
-        socket_service()->notify_when_readable(
+        socket_service()->retry_when_readable(
             this->shared_from_this(),
             [callback = std::move(callback),
              received = std::move(received)](std::shared_ptr<UdpSocket> self) mutable {
-- 
2.43.0


From 438a99dca2cfdbc582bb84261c2a61719e63d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 30/39] fix: Do not treat empty datagrams as errors

---
 .../socket/detail/nix/socket_operations.cpp   | 26 ++++++++-----------
 fly/net/socket/detail/socket_operations.hpp   |  4 +--
 .../socket/detail/win/socket_operations.cpp   | 26 ++++++++-----------
 fly/net/socket/udp_socket.cpp                 | 20 +++++++-------
 4 files changed, 34 insertions(+), 42 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index 37c8ad2..c3d00a2 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -479,7 +479,7 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
 
 //==================================================================================================
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
@@ -494,32 +494,28 @@ std::string recv_from(
     ssize_t const status =
         ::recvfrom(handle, result.data(), result.size(), 0, base(address), &address_size);
 
-    if (status > 0)
-    {
-        result.resize(static_cast<std::size_t>(status));
-        endpoint = address_to_endpoint(address);
-    }
-    else
+    if (status == -1)
     {
-        if (status == -1)
-        {
-            would_block = fly::system::get_error_code() == EWOULDBLOCK;
-            SLOGS(handle, "Error receiving");
-        }
+        would_block = fly::system::get_error_code() == EWOULDBLOCK;
+        SLOGS(handle, "Error receiving");
 
-        result.clear();
+        return std::nullopt;
     }
 
+    // Unlike a stream socket, receiving zero bytes is not an error - datagrams may be empty.
+    result.resize(static_cast<std::size_t>(status));
+    endpoint = address_to_endpoint(address);
+
     return result;
 }
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv4Endpoint &endpoint,
     std::size_t packet_size,
     bool &would_block);
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv6Endpoint &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/detail/socket_operations.hpp b/fly/net/socket/detail/socket_operations.hpp
index a3814d5..4bec1a0 100644
--- a/fly/net/socket/detail/socket_operations.hpp
+++ b/fly/net/socket/detail/socket_operations.hpp
@@ -190,10 +190,10 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
  * @param packet_size The maxiumum message size to receive.
  * @param would_block Location to store if the operation would have blocked.
  *
- * @return The message received.
+ * @return If successful, the (possibly empty) message received. Otherwise, an uninitialized value.
  */
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/detail/win/socket_operations.cpp b/fly/net/socket/detail/win/socket_operations.cpp
index 199b239..e7ba2f4 100644
--- a/fly/net/socket/detail/win/socket_operations.cpp
+++ b/fly/net/socket/detail/win/socket_operations.cpp
@@ -497,7 +497,7 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
 
 //==================================================================================================
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
@@ -512,32 +512,28 @@ std::string recv_from(
     int const size = static_cast<int>(packet_size);
     int const status = ::recvfrom(handle, result.data(), size, 0, base(address), &address_size);
 
-    if (status > 0)
+    if (status == SOCKET_ERROR)
     {
-        result.resize(static_cast<std::size_t>(status));
-        endpoint = address_to_endpoint(address);
-    }
-    else
-    {
-        if (status == SOCKET_ERROR)
-        {
-            would_block = fly::system::get_error_code() == WSAEWOULDBLOCK;
-            SLOGS(handle, "Error receiving");
-        }
+        would_block = fly::system::get_error_code() == WSAEWOULDBLOCK;
+        SLOGS(handle, "Error receiving");
 
-        result.clear();
+        return std::nullopt;
     }
 
+    // Unlike a stream socket, receiving zero bytes is not an error - datagrams may be empty.
+    result.resize(static_cast<std::size_t>(status));
+    endpoint = address_to_endpoint(address);
+
     return result;
 }
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv4Endpoint &endpoint,
     std::size_t packet_size,
     bool &would_block);
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv6Endpoint &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index 779c775..04b8456 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -151,19 +151,18 @@ std::string UdpSocket<EndpointType>::receive()
     EndpointType endpoint;
     bool would_block = false;
 
-    std::string const received = detail::recv_from(handle(), endpoint, packet_size(), would_block);
+    auto received = detail::recv_from(handle(), endpoint, packet_size(), would_block);
 
-    if (received.size() == 0)
+    if (!received)
     {
         SLOGW(handle(), "Error receiving, closing");
         close();
-    }
-    else
-    {
-        SLOGD(handle(), "Received {} bytes from {}", received.size(), endpoint);
+
+        return std::string();
     }
 
-    return received;
+    SLOGD(handle(), "Received {} bytes from {}", received->size(), endpoint);
+    return *std::move(received);
 }
 
 //==================================================================================================
@@ -237,12 +236,13 @@ void UdpSocket<EndpointType>::ready_to_receive(ReceiveCompletion &&callback, std
     EndpointType endpoint;
     bool would_block = false;
 
-    std::string const current_received =
+    auto const current_received =
         detail::recv_from(handle(), endpoint, packet_size(), would_block);
-    received += current_received;
 
-    if (!current_received.empty())
+    if (current_received)
     {
+        received += *current_received;
+
         SLOGD(handle(), "Received {} bytes from {}", received.size(), endpoint);
         std::invoke(std::move(callback), std::move(received));
     }
-- 
2.43.0


From 1d53fbc7be2d8eaf6fac839b6416982ea83798d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:58 +0000
Subject: [PATCH 31/39] fix: Do not write out of bounds when polling handles
 beyond FD_SETSIZE

---
 .../socket/detail/nix/socket_operations.cpp   | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index c3d00a2..3338c90 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -14,6 +14,7 @@
 
 #include <algorithm>
 #include <type_traits>
+#include <vector>
 
 namespace fly::net {
 
@@ -527,36 +528,41 @@ void select(
     std::set<fly::net::socket_type> &writing_handles,
     std::set<fly::net::socket_type> &reading_handles)
 {
-    fd_set write_set, read_set;
-    FD_ZERO(&write_set);
-    FD_ZERO(&read_set);
+    socket_type const max_handle = std::max(
+        writing_handles.empty() ? invalid_socket() : *writing_handles.rbegin(),
+        reading_handles.empty() ? invalid_socket() : *reading_handles.rbegin());
+
+    // A single fd_set cannot hold handles beyond FD_SETSIZE, thus use as many as are needed.
+    std::vector<fd_set> write_sets(static_cast<std::size_t>(max_handle / FD_SETSIZE) + 1);
+    std::vector<fd_set> read_sets(write_sets.size());
+
+    auto set_for_handle = [](std::vector<fd_set> &sets, socket_type handle) -> fd_set * {
+        return &sets[static_cast<std::size_t>(handle / FD_SETSIZE)];
+    };
 
     for (fly::net::socket_type handle : writing_handles)
     {
-        FD_SET(handle, &write_set);
+        FD_SET(handle % FD_SETSIZE, set_for_handle(write_sets, handle));
     }
     for (fly::net::socket_type handle : reading_handles)
     {
-        FD_SET(handle, &read_set);
+        FD_SET(handle % FD_SETSIZE, set_for_handle(read_sets, handle));
     }
 
-    socket_type const max_handle = std::max(
-        writing_handles.empty() ? invalid_socket() : *writing_handles.rbegin(),
-        reading_handles.empty() ? invalid_socket() : *reading_handles.rbegin());
-
     suseconds_t const usec = static_cast<suseconds_t>(timeout.count());
     timeval tv {0, usec};
 
-    int const status = ::select(max_handle + 1, &read_set, &write_set, nullptr, &tv);
+    int const status =
+        ::select(max_handle + 1, read_sets.data(), write_sets.data(), nullptr, &tv);
 
     if (status > 0)
     {
-        auto is_not_set = [](fd_set *set, socket_type handle) {
-            return !FD_ISSET(handle, set);
+        auto is_not_set = [&set_for_handle](std::vector<fd_set> &sets, socket_type handle) {
+            return !FD_ISSET(handle % FD_SETSIZE, set_for_handle(sets, handle));
         };
 
-        std::erase_if(writing_handles, std::bind(is_not_set, &write_set, std::placeholders::_1));
-        std::erase_if(reading_handles, std::bind(is_not_set, &read_set, std::placeholders::_1));
+        std::erase_if(writing_handles, [&](auto handle) { return is_not_set(write_sets, handle); });
+        std::erase_if(reading_handles, [&](auto handle) { return is_not_set(read_sets, handle); });
     }
     else
     {
-- 
2.43.0


From 1930a63352000abc6d412ad8b61991889ff59b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 32/39] fix: Do not run a signal handler that is being replaced
 or was removed

The handler was a std::function which was overwritten while it was installed for the signals. A signal arriving in the meantime, on
this or another thread, invoked a handler that was being modified, was already destroyed, or was null (std::bad_function_call).
---
 fly/system/system.cpp | 51 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/fly/system/system.cpp b/fly/system/system.cpp
index ba24550..f258b5c 100644
--- a/fly/system/system.cpp
+++ b/fly/system/system.cpp
@@ -4,18 +4,36 @@
 #include "fly/types/string/format.hpp"
 
 #include <array>
+#include <atomic>
 #include <csignal>
+#include <memory>
 #include <system_error>
+#include <utility>
+#include <vector>
 
 namespace fly::system {
 
 namespace {
 
-    SignalHandler s_signal_handler = nullptr;
+    // A signal may arrive on any thread at any time, including while the handler is being replaced.
+    std::atomic<SignalHandler const *> s_signal_handler {nullptr};
+    std::atomic<std::size_t> s_running_handlers {0};
 
     void handle_signal(int signal)
     {
-        std::invoke(s_signal_handler, signal);
+        ++s_running_handlers;
+
+        if (auto const *handler = s_signal_handler.load(); handler != nullptr)
+        {
+            std::invoke(*handler, signal);
+        }
+        else
+        {
+            // The handler was removed after this signal arrived; the default action is restored now.
+            std::raise(signal);
+        }
+
+        --s_running_handlers;
     }
 
 } // namespace
@@ -43,12 +61,35 @@ void set_signal_handler(SignalHandler handler)
         s_signals {SIGINT, SIGTERM, SIGILL, SIGFPE, SIGABRT, SIGSEGV, SIGSYS, SIGBUS};
 #endif
 
-    auto handler_or_default = handler ? handle_signal : SIG_DFL;
-    s_signal_handler = std::move(handler);
+    // Replaced handlers are retained while they may be running.
+    static auto &s_replaced_handlers = *new std::vector<std::unique_ptr<SignalHandler const>>();
+
+    auto const *new_handler = handler ? new SignalHandler(std::move(handler)) : nullptr;
+    auto const *old_handler = s_signal_handler.load();
+
+    // The handler must be set for as long as it is installed for any signal.
+    if (new_handler != nullptr)
+    {
+        s_signal_handler.store(new_handler);
+    }
 
     for (int signal : s_signals)
     {
-        std::signal(signal, handler_or_default);
+        std::signal(signal, (new_handler != nullptr) ? handle_signal : SIG_DFL);
+    }
+
+    if (new_handler == nullptr)
+    {
+        s_signal_handler.store(nullptr);
+    }
+
+    if (old_handler != nullptr)
+    {
+        s_replaced_handlers.emplace_back(old_handler);
+    }
+    if (s_running_handlers.load() == 0)
+    {
+        s_replaced_handlers.clear();
     }
 }
 
-- 
2.43.0


From aee1711c4508dc0d39a548d59581b55f3c2df69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 33/39] fix: Print each console log point uninterrupted when
 logging from multiple threads

---
 fly/logger/detail/console_sink.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/fly/logger/detail/console_sink.cpp b/fly/logger/detail/console_sink.cpp
index 7ac731a..3fd4c72 100644
--- a/fly/logger/detail/console_sink.cpp
+++ b/fly/logger/detail/console_sink.cpp
@@ -6,11 +6,20 @@
 #include "fly/types/string/format.hpp"
 
 #include <iostream>
+#include <mutex>
 #include <optional>
 #include <string>
 
 namespace fly::logger::detail {
 
+namespace {
+
+    // All console sinks share the standard output streams, and synchronous loggers may stream from
+    // any number of threads. Guard the streams so that each log point is written uninterrupted.
+    std::mutex s_console_mutex;
+
+} // namespace
+
 //==================================================================================================
 bool ConsoleSink::initialize()
 {
@@ -45,6 +54,8 @@ bool ConsoleSink::stream(fly::logger::Log &&log)
             break;
     }
 
+    std::lock_guard<std::mutex> lock(s_console_mutex);
+
     {
         auto styler = color ? fly::logger::Styler(std::move(style), *std::move(color)) :
                               fly::logger::Styler(std::move(style));
-- 
2.43.0


From 6f1d840bf9bedfdea890366b631f03e9bd1b34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 34/39] fix: Stay stopped when the threads of a task manager
 cannot be created

---
 fly/task/task_manager.cpp | 20 +++++++++++++++-----
 fly/task/task_manager.hpp |  5 +++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/fly/task/task_manager.cpp b/fly/task/task_manager.cpp
index 6915bee..8d1b91e 100644
--- a/fly/task/task_manager.cpp
+++ b/fly/task/task_manager.cpp
@@ -2,6 +2,7 @@
 
 #include "fly/task/task_runner.hpp"
 
+#include <system_error>
 #include <thread>
 
 namespace fly::task {
@@ -45,14 +46,23 @@ bool TaskManager::start()
     {
         std::shared_ptr<TaskManager> task_manager = shared_from_this();
 
-        for (std::uint32_t i = 0; i < m_thread_count; ++i)
+        try
         {
+            for (std::uint32_t i = 0; i < m_thread_count; ++i)
+            {
+                m_futures.push_back(
+                    std::async(std::launch::async, &TaskManager::worker_thread, task_manager));
+            }
+
             m_futures.push_back(
-                std::async(std::launch::async, &TaskManager::worker_thread, task_manager));
+                std::async(std::launch::async, &TaskManager::timer_thread, task_manager));
+        }
+        catch (std::system_error const &)
+        {
+            // Destroy the threads that were created before the system refused to create another.
+            stop();
+            return false;
         }
-
-        m_futures.push_back(
-            std::async(std::launch::async, &TaskManager::timer_thread, task_manager));
 
         return true;
     }
diff --git a/fly/task/task_manager.hpp b/fly/task/task_manager.hpp
index c6d7588..b429da5 100644
--- a/fly/task/task_manager.hpp
+++ b/fly/task/task_manager.hpp
@@ -36,14 +36,15 @@ public:
      *
      * @param thread_count Size of the thread pool for the task manager to own.
      *
-     * @return The created task manager.
+     * @return The created task manager, or null if its threads could not be created.
      */
     static std::shared_ptr<TaskManager> create(std::uint32_t thread_count);
 
     /**
      * Create the worker threads and timer thread.
      *
-     * @return True if the threads were created in this invocation.
+     * @return True if the threads were created in this invocation. If the threads could not all be
+     *         created, the task manager remains stopped.
      */
     bool start();
 
-- 
2.43.0


From a45c3d9494999a49ca296354d4511e49695a5245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 35/39] fix: Keep a copy of tasks and replies that are posted
 as lvalues

---
 fly/task/task_runner.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fly/task/task_runner.hpp b/fly/task/task_runner.hpp
index 7cb7c17..03fcd65 100644
--- a/fly/task/task_runner.hpp
+++ b/fly/task/task_runner.hpp
@@ -346,12 +346,14 @@ protected:
 
 private:
     /**
-     * Container to wrap around a generic callable type to allow perfect forwarding into lambdas.
+     * Container to wrap around a generic callable type to allow perfect forwarding into lambdas. The
+     * container holds its own copy of a task which was provided as an lvalue, because the task may be
+     * executed after the caller's object has been destroyed.
      */
     template <typename TaskType>
     struct TaskHolder
     {
-        TaskType m_task;
+        std::decay_t<TaskType> m_task;
     };
 
     /**
@@ -642,7 +644,10 @@ bool TaskRunner::post_task_with_delay_and_reply(
     return post_task_to_task_manager_with_delay(
         std::move(location),
         std::move(delay),
-        wrap_task(std::move(weak_owner), std::forward<TaskType>(task), std::move(reply)));
+        wrap_task(
+            std::move(weak_owner),
+            std::forward<TaskType>(task),
+            std::forward<ReplyType>(reply)));
 }
 
 //==================================================================================================
-- 
2.43.0


From ff690a1c1d7bc5ad3e4a7432968e4a6185261568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 36/39] fix: Format floating point values that need more digits
 than the conversion buffer holds

---
 fly/types/string/formatters.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 882fa6d..7dcb6bb 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -18,6 +18,7 @@
 #include <string>
 #include <system_error>
 #include <type_traits>
+#include <vector>
 
 #if !defined(FLY_COMPILER_SUPPORTS_FP_CHARCONV)
 #    include <iomanip>
@@ -772,10 +773,7 @@ private:
      */
     FloatConversionResult convert_value(T value, int precision)
     {
-        static thread_local std::array<char, std::numeric_limits<T>::digits> s_buffer;
-
-        char *begin = s_buffer.data();
-        char *end = begin + s_buffer.size();
+        static thread_local std::vector<char> s_buffer(std::numeric_limits<T>::digits);
 
         std::chars_format fmt = std::chars_format::general;
         char exponent = '\0';
@@ -798,7 +796,23 @@ private:
                 break;
         }
 
-        auto const to_chars_result = std::to_chars(begin, end, value, fmt, precision);
+        char *begin = nullptr;
+        std::to_chars_result to_chars_result {};
+
+        while (true)
+        {
+            begin = s_buffer.data();
+            char *end = begin + s_buffer.size();
+
+            to_chars_result = std::to_chars(begin, end, value, fmt, precision);
+
+            if (to_chars_result.ec != std::errc::value_too_large)
+            {
+                break;
+            }
+
+            s_buffer.resize(s_buffer.size() * 2);
+        }
 
         FloatConversionResult conversion_result;
         conversion_result.m_digits =
-- 
2.43.0


From e5c2937958ea21a10637286f5b2e0723f160cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 37/39] fix: Do not throw from the coder statistics when a file
 size is not available

---
 fly/coders/coder.cpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index f722813..7b3a2f1 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -7,6 +7,7 @@
 #include <chrono>
 #include <fstream>
 #include <sstream>
+#include <system_error>
 
 namespace fly::coders {
 
@@ -47,6 +48,27 @@ namespace {
             std::chrono::duration<double>(end - start).count());
     }
 
+    /**
+     * Log the sizes of the files which were encoded or decoded. The sizes are not available if the
+     * files have been removed meanwhile, or are not regular files.
+     */
+    template <typename LogStats>
+    void log_file_stats(
+        std::filesystem::path const &input,
+        std::filesystem::path const &output,
+        LogStats &&log_stats)
+    {
+        std::error_code input_error, output_error;
+
+        auto const input_size = std::filesystem::file_size(input, input_error);
+        auto const output_size = std::filesystem::file_size(output, output_error);
+
+        if (!input_error && !output_error)
+        {
+            log_stats(input_size, output_size);
+        }
+    }
+
 } // namespace
 
 //==================================================================================================
@@ -95,10 +117,9 @@ bool Encoder::encode_file(
 
     if (successful)
     {
-        log_encoder_stats(
-            start,
-            std::filesystem::file_size(decoded),
-            std::filesystem::file_size(encoded));
+        log_file_stats(decoded, encoded, [&start](auto decoded_size, auto encoded_size) {
+            log_encoder_stats(start, decoded_size, encoded_size);
+        });
     }
 
     return successful;
@@ -157,10 +178,9 @@ bool Decoder::decode_file(
 
     if (successful)
     {
-        log_decoder_stats(
-            start,
-            std::filesystem::file_size(encoded),
-            std::filesystem::file_size(decoded));
+        log_file_stats(encoded, decoded, [&start](auto encoded_size, auto decoded_size) {
+            log_decoder_stats(start, encoded_size, decoded_size);
+        });
     }
 
     return successful;
-- 
2.43.0


From ce7bfca6dd2cc06b4e18e349065c85c1434d59e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:08 +0000
Subject: [PATCH 38/39] fix: destroy dropped tasks without holding the task
 manager's locks

A task whose runner was destroyed before the task could be executed was kept by
the worker that dropped it until another task replaced it inside of the queue's
lock, and delayed ones were destroyed within the timer's lock. An object captured
by such a task deadlocked when its destructor posted a task, or acquired a lock
under which another thread was posting one, and was kept alive arbitrarily long.
---
 fly/task/task_manager.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/fly/task/task_manager.cpp b/fly/task/task_manager.cpp
index 8d1b91e..1107fd7 100644
--- a/fly/task/task_manager.cpp
+++ b/fly/task/task_manager.cpp
@@ -4,6 +4,7 @@
 
 #include <system_error>
 #include <thread>
+#include <vector>
 
 namespace fly::task {
 
@@ -126,10 +127,12 @@ void TaskManager::post_task_with_delay(
 //==================================================================================================
 void TaskManager::worker_thread()
 {
-    TaskHolder task_holder;
-
     while (m_keep_running.load())
     {
+        // A task whose runner is gone is destroyed here, rather than when the next one replaces it
+        // within the queue's lock. The objects captured by a task may post tasks upon destruction.
+        TaskHolder task_holder;
+
         if (m_tasks.pop(task_holder, s_delay))
         {
             if (auto task_runner = task_holder.m_weak_task_runner.lock(); task_runner)
@@ -149,6 +152,7 @@ void TaskManager::timer_thread()
     while (m_keep_running.load())
     {
         auto now = std::chrono::steady_clock::now();
+        std::vector<TaskHolder> due_tasks;
         {
             std::unique_lock<std::mutex> lock(m_delayed_tasks_mutex);
 
@@ -156,14 +160,7 @@ void TaskManager::timer_thread()
             {
                 if (it->m_schedule <= now)
                 {
-                    if (auto task_runner = it->m_weak_task_runner.lock(); task_runner)
-                    {
-                        TaskLocation location = std::move(it->m_location);
-                        Task task = std::move(it->m_task);
-
-                        task_runner->post_task_internal(std::move(location), std::move(task));
-                    }
-
+                    due_tasks.push_back(std::move(*it));
                     it = m_delayed_tasks.erase(it);
                 }
                 else
@@ -173,6 +170,19 @@ void TaskManager::timer_thread()
             }
         }
 
+        for (auto &due_task : due_tasks)
+        {
+            // The lock is not held here, because tasks and task runners may be destroyed.
+            if (auto task_runner = due_task.m_weak_task_runner.lock(); task_runner)
+            {
+                TaskLocation location = std::move(due_task.m_location);
+                Task task = std::move(due_task.m_task);
+
+                task_runner->post_task_internal(std::move(location), std::move(task));
+            }
+        }
+
+        due_tasks.clear();
         std::this_thread::sleep_for(s_delay);
     }
 }
-- 
2.43.0


From 15368c0db2be47a9ead71bd829aacb914d2ab035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:50 +0000
Subject: [PATCH 39/39] fix: do not destroy the task manager within a sequenced
 task runner's lock

A stopped task manager, the last reference to which was released while a task was
being posted to a sequenced task runner, was destroyed within that runner's lock.
An object captured by a task the manager still held deadlocked when its destructor
posted a task to the same task runner.
---
 fly/task/task_runner.cpp | 4 ++++
 fly/task/task_runner.hpp | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fly/task/task_runner.cpp b/fly/task/task_runner.cpp
index befbd4e..2cf11f7 100644
--- a/fly/task/task_runner.cpp
+++ b/fly/task/task_runner.cpp
@@ -123,6 +123,10 @@ bool SequencedTaskRunner::maybe_post_task(TaskLocation &&location, Task &&task)
 {
     bool posted_or_queued = false;
 
+    // Prevent the task manager from being destroyed within the lock below. The objects captured by
+    // tasks it still holds may post tasks to this task runner upon destruction.
+    std::shared_ptr<TaskManager> const task_manager = m_weak_task_manager.lock();
+
     std::lock_guard<std::mutex> lock(m_pending_tasks_mutex);
 
     if ((task == nullptr) || !m_has_running_task)
diff --git a/fly/task/task_runner.hpp b/fly/task/task_runner.hpp
index 03fcd65..d9e2ff5 100644
--- a/fly/task/task_runner.hpp
+++ b/fly/task/task_runner.hpp
@@ -344,6 +344,8 @@ protected:
         std::chrono::milliseconds delay,
         Task &&task);
 
+    std::weak_ptr<TaskManager> m_weak_task_manager;
+
 private:
     /**
      * Container to wrap around a generic callable type to allow perfect forwarding into lambdas. The
@@ -430,8 +432,6 @@ private:
      * @param task The task to be executed.
      */
     void execute(TaskLocation &&location, Task &&task);
-
-    std::weak_ptr<TaskManager> m_weak_task_manager;
 };
 
 /**
-- 
2.43.0

