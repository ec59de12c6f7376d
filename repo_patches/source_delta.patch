From 4aace4faf12d414c16e8c9e2f3ac75c3ea662f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 01/84] fix: WebVTT fractional seconds with leading zeros

".005" and ".050" were read as 500 ms because the magnitude of the
number was used in place of its digit count.
---
 webvtt/webvttparser.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index c79d642..d047be2 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -476,17 +476,22 @@ int Parser::ParseTime(const std::string& line, std::string::size_type* idx_ptr,
   } else {
     ++idx;  // consume FULL STOP
 
+    const std::string::size_type digits_start = idx;
+
     val = ParseNumber(line, &idx);
 
     if (val < 0)
       return val;
 
-    if (val >= 1000)
+    // The digits are a decimal fraction, so leading zeros are significant.
+    const std::string::size_type num_digits = idx - digits_start;
+
+    if (num_digits > 3)
       return -1;
 
-    if (val < 10)
+    if (num_digits == 1)
       t.milliseconds = val * 100;
-    else if (val < 100)
+    else if (num_digits == 2)
       t.milliseconds = val * 10;
     else
       t.milliseconds = val;
-- 
2.43.0


From aa9fadbe05336eca708b4937f721deb1f93c2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 02/84] fix: mask the middle PTS bits when building the PES
 header

Bits 22 to 29 of the PTS spilled into the following byte, corrupting every
time stamp from about 46 seconds on.
---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index a4169c0..4fdb751 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -59,7 +59,7 @@ void PesOptionalHeader::SetPtsBits(std::int64_t pts_90khz) {
 
   // bottom 7 bits of second PTS chunk.
   pts.bits <<= 8;
-  pts.bits |= (pts2 << 1);
+  pts.bits |= (pts2 << 1) & 0xff;
   // Marker.
   pts.bits |= 1;
 
-- 
2.43.0


From ad35ec73273484e14e83c112261aed8d7cfcee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 03/84] fix: compute the parsed PTS with 64 bit arithmetic

The top bits were shifted as int, losing or sign extending bits 31 and 32.
---
 m2ts/vpxpes_parser.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f6fe5c..a443a9e 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -176,9 +176,11 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
       return false;
     }
 
-    header->pts = (poh_buffer[offset] & 0xe) << 29 |
-                  ((ReadUint16(&poh_buffer[offset + 1]) & ~1) << 14) |
-                  (ReadUint16(&poh_buffer[offset + 3]) >> 1);
+    header->pts =
+        static_cast<std::uint64_t>(poh_buffer[offset] & 0xe) << 29 |
+        static_cast<std::uint64_t>(ReadUint16(&poh_buffer[offset + 1]) & ~1)
+            << 14 |
+        (ReadUint16(&poh_buffer[offset + 3]) >> 1);
     offset += 5;
     bytes_left -= 5;
   }
-- 
2.43.0


From 91dc6bfcfa0815e65a68b31b669a119f8d3b560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 04/84] fix: remove emulation prevention bytes after more than
 two zeros

The writer escapes after two or more zero bytes, but the parser removed the
inserted byte after exactly two.
---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index a443a9e..af3a535 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -320,7 +320,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
     const std::uint8_t byte = raw_data[i];
     if (byte == 0) {
       ++num_zeros;
-    } else if (byte == 0x3 && num_zeros == 2) {
+    } else if (byte == 0x3 && num_zeros >= 2) {
       skip = true;
       num_zeros = 0;
     } else {
-- 
2.43.0


From 8f1161648710fb35793ab3cc0b11c8191d6efe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 05/84] fix: keep the PES parser inside its input

The end-of-input checks were off by one, and a BCMV length shorter than the
BCMV header wrapped around.
---
 m2ts/vpxpes_parser.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index af3a535..8ce37b6 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -60,7 +60,7 @@ bool VpxPesParser::Open(const std::string& pes_file) {
 }
 
 bool VpxPesParser::VerifyPacketStartCode() const {
-  if (read_pos_ + 2 > pes_file_data_.size())
+  if (read_pos_ + 2 >= pes_file_data_.size())
     return false;
 
   // PES packets all start with the byte sequence 0x0 0x0 0x1.
@@ -312,7 +312,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
       &pes_file_data_[0] + pes_file_data_.size();
   std::size_t i;
   for (i = 0; bytes_copied < bytes_required; ++i) {
-    if (raw_data + i > end_of_input)
+    if (raw_data + i >= end_of_input)
       return false;
 
     bool skip = false;
@@ -363,6 +363,9 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
     return false;
   }
 
+  if (header->bcmv_header.length <= BcmvHeader::size())
+    return false;
+
   // BCMV header length includes the length of the BCMVHeader itself. Adjust:
   const std::size_t payload_length =
       header->bcmv_header.length - BcmvHeader::size();
-- 
2.43.0


From f5b576a42f8833e4d18d43e25eb81f4b4db83012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 06/84] fix: unescape the first fragment of a fragmented PES
 payload

It was copied with its emulation prevention bytes, and without checking that
it lies inside the input.
---
 m2ts/vpxpes_parser.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 8ce37b6..35d99a2 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -263,12 +263,18 @@ bool VpxPesParser::IsPayloadFragmented(const PesHeader& header) const {
 
 bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
+  if (pes_packet_length <= kPesOptionalHeaderSize + kBcmvHeaderSize)
+    return false;
+
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
-  for (std::size_t i = 0; i < first_fragment_length; ++i) {
-    payload_.push_back(pes_file_data_[read_pos_ + i]);
+  std::size_t first_consumed = 0;
+  if (!RemoveStartCodeEmulationPreventionBytes(
+          &pes_file_data_[read_pos_], first_fragment_length, &payload_,
+          &first_consumed)) {
+    return false;
   }
-  read_pos_ += first_fragment_length;
+  read_pos_ += first_consumed;
   parse_state_ = kFindStartCode;
 
   while (payload_.size() < payload_length) {
-- 
2.43.0


From a94bee22add92f45343bcfef2028b0a718589df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 07/84] fix: escape start codes formed by the BCMV padding and
 the payload

The BCMV header ends with two zero bytes, so a frame starting with 01 (or
00 01) produced an unescaped start code inside the packet.
---
 m2ts/vpxpes_parser.cc | 7 +++++++
 m2ts/webm2pes.cc      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 35d99a2..165cc92 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -312,7 +312,14 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
   if (bytes_required == 0 || !processed_data)
     return false;
 
+  // Zeros that precede |raw_data| count toward an escaped sequence.
   std::size_t num_zeros = 0;
+  for (const std::uint8_t* byte_ptr = raw_data;
+       byte_ptr > &pes_file_data_[0] && num_zeros < 2 && byte_ptr[-1] == 0;
+       --byte_ptr) {
+    ++num_zeros;
+  }
+
   std::size_t bytes_copied = 0;
   const std::uint8_t* const end_of_input =
       &pes_file_data_[0] + pes_file_data_.size();
diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 4fdb751..8657e0f 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -530,7 +530,14 @@ bool CopyAndEscapeStartCodes(const std::uint8_t* raw_input,
   if (raw_input == nullptr || raw_input_length < 1 || packet_buffer == nullptr)
     return false;
 
+  // Zeros already at the end of |packet_buffer| (e.g. the padding that ends the
+  // BCMV header) can form a start code together with |raw_input|.
   int num_zeros = 0;
+  for (std::size_t i = packet_buffer->size();
+       i > 0 && num_zeros < 2 && (*packet_buffer)[i - 1] == 0; --i) {
+    ++num_zeros;
+  }
+
   for (std::size_t i = 0; i < raw_input_length; ++i) {
     const uint8_t byte = raw_input[i];
 
-- 
2.43.0


From a507a4ba62144a07e5fb1af29017ce6f5c441ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 08/84] fix: select the PES video track by its track number

The position of the track entry was compared with the blocks' track numbers.
---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 8657e0f..50aebf7 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -400,7 +400,7 @@ bool Webm2Pes::InitWebmParser() {
         fprintf(stderr, "Webm2Pes: Codec must be VP8 or VP9.\n");
         return false;
       }
-      video_track_num_ = track_index + 1;
+      video_track_num_ = static_cast<int>(track->GetNumber());
       break;
     }
   }
-- 
2.43.0


From 0a982d29d0d582220b9ed3b29c083250580ded1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 09/84] fix: keep the TS continuity counter running across
 frames

It restarted at 0 for every frame, which demuxers treat as packet loss.
---
 m2ts/vpxpes2ts.cc | 9 ++++-----
 m2ts/vpxpes2ts.h  | 4 ++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 21d4038..bd8be99 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -147,14 +147,13 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   const int kTsPayloadSize = 184;
   const int kTsPacketSize = kTsHeaderSize + kTsPayloadSize;
   int bytes_to_packetize = static_cast<int>(packet_data.size());
-  std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
   ts_buffer_.reserve(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
-    if (continuity_counter > 0xf)
-      continuity_counter = 0;
+    if (continuity_counter_ > 0xf)
+      continuity_counter_ = 0;
 
     // Calculate payload size (need to know if we'll have to pad with an empty
     // adaptation field).
@@ -163,7 +162,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     // Write the TS header.
     const TsHeader header(
         bytes_to_packetize == static_cast<int>(packet_data.size()),
-        payload_size != kTsPayloadSize, continuity_counter);
+        payload_size != kTsPayloadSize, continuity_counter_);
     header.Write(&ts_buffer_);
     int write_pos = kTsHeaderSize;
 
@@ -195,7 +194,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     }
 
     bytes_to_packetize -= payload_size;
-    continuity_counter++;
+    continuity_counter_++;
 
     if (write_pos != kTsPacketSize) {
       fprintf(stderr, "VpxPes2Ts: Invalid packet length.\n");
diff --git a/m2ts/vpxpes2ts.h b/m2ts/vpxpes2ts.h
index 2609a1f..0ef8166 100644
--- a/m2ts/vpxpes2ts.h
+++ b/m2ts/vpxpes2ts.h
@@ -8,6 +8,7 @@
 #ifndef LIBWEBM_M2TS_VPXPES2TS_H_
 #define LIBWEBM_M2TS_VPXPES2TS_H_
 
+#include <cstdint>
 #include <memory>
 #include <string>
 
@@ -38,6 +39,9 @@ class VpxPes2Ts : public PacketReceiverInterface {
   FilePtr output_file_;
   std::unique_ptr<Webm2Pes> pes_converter_;
   PacketDataBuffer ts_buffer_;
+
+  // Counts the packets of the (only) stream, across frames.
+  std::uint8_t continuity_counter_ = 0;
 };
 
 }  // namespace libwebm
-- 
2.43.0


From 4238e436f3536c3c65e719a5c82c2aab58d356c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 10/84] fix: refuse invalid frames before changing the session

---
 mkvmuxer/mkvmuxer.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f9eb9c6..da2adeb 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3504,8 +3504,11 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (!frame)
     return false;
 
-  if (!CheckHeaderInfo())
+  // Refuse a frame that could not be written before anything is changed.
+  if (!frame->frame() || frame->length() == 0 ||
+      (frame->additional() != NULL) != (frame->additional_length() != 0)) {
     return false;
+  }
 
   // Check for non-monotonically increasing timestamps.
   if (frame->timestamp() < last_timestamp_)
@@ -3515,6 +3518,9 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (!tracks_.GetTrackByNumber(frame->track_number()))
     return false;
 
+  if (!CheckHeaderInfo())
+    return false;
+
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
@@ -3541,6 +3547,11 @@ bool Segment::AddGenericFrame(const Frame* frame) {
       delete new_frame;
       return false;
     }
+    if (!new_frame->CanBeSimpleBlock() && !new_frame->is_key() &&
+        !new_frame->reference_block_timestamp_set()) {
+      new_frame->set_reference_block_timestamp(
+          last_track_timestamp_[frame->track_number() - 1]);
+    }
     if (!QueueFrame(new_frame)) {
       delete new_frame;
       return false;
-- 
2.43.0


From 9b4e5773e57e747ef9773628f44c37ca02bb71dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 11/84] fix: report queued frames that could not be written

---
 mkvmuxer/mkvmuxer.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index da2adeb..2084e16 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4094,6 +4094,7 @@ int Segment::WriteFramesAll() {
   if (!cluster)
     return -1;
 
+  bool wrote_all = true;
   for (int32_t i = 0; i < frames_size_; ++i) {
     Frame*& frame = frames_[i];
     // TODO(jzern/vigneshv): using Segment::AddGenericFrame here would limit the
@@ -4101,13 +4102,17 @@ int Segment::WriteFramesAll() {
     if (frame->discard_padding() != 0)
       doc_type_version_ = 4;
     if (!cluster->AddFrame(frame)) {
+      wrote_all = false;
       delete frame;
+      frame = NULL;
       continue;
     }
 
     if (new_cuepoint_ && cues_track_ == frame->track_number()) {
       if (!AddCuePoint(frame->timestamp(), cues_track_)) {
+        wrote_all = false;
         delete frame;
+        frame = NULL;
         continue;
       }
     }
@@ -4124,7 +4129,7 @@ int Segment::WriteFramesAll() {
   const int result = frames_size_;
   frames_size_ = 0;
 
-  return result;
+  return wrote_all ? result : -1;
 }
 
 bool Segment::WriteFramesLessThan(uint64_t timestamp) {
@@ -4140,6 +4145,7 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       return false;
 
     int32_t shift_left = 0;
+    bool wrote_all = true;
 
     // TODO(fgalligan): Change this to use the durations of frames instead of
     // the next frame's start time if the duration is accurate.
@@ -4152,19 +4158,21 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       const Frame* const frame_prev = frames_[i - 1];
       if (frame_prev->discard_padding() != 0)
         doc_type_version_ = 4;
+      ++shift_left;
       if (!cluster->AddFrame(frame_prev)) {
+        wrote_all = false;
         delete frame_prev;
         continue;
       }
 
       if (new_cuepoint_ && cues_track_ == frame_prev->track_number()) {
         if (!AddCuePoint(frame_prev->timestamp(), cues_track_)) {
+          wrote_all = false;
           delete frame_prev;
           continue;
         }
       }
 
-      ++shift_left;
       if (frame_prev->timestamp() > last_timestamp_) {
         last_timestamp_ = frame_prev->timestamp();
         last_track_timestamp_[frame_prev->track_number() - 1] =
@@ -4185,6 +4193,9 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
 
       frames_size_ = new_frames_size;
     }
+
+    if (!wrote_all)
+      return false;
   }
 
   return true;
-- 
2.43.0


From b27e4e7f2209e7d5bf6e2bc4ff110f4e6e707a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 12/84] fix: do not keep a deleted frame in the cluster after a
 failed write

---
 mkvmuxer/mkvmuxer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 2084e16..f142466 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2688,6 +2688,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   // Iterate through all queued frames in the current track except the last one
   // and write it if it is okay to do so (i.e.) no other track has an held back
   // frame with timestamp <= the timestamp of the frame in question.
+  bool wrote_frames = true;
   std::vector<std::list<Frame*>::iterator> frames_to_erase;
   for (std::list<Frame*>::iterator
            current_track_iterator = stored_frames_[track_number].begin(),
@@ -2707,11 +2708,11 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
       }
     }
     if (okay_to_write) {
-      const bool wrote_frame = DoWriteFrame(frame_to_write);
+      wrote_frames = DoWriteFrame(frame_to_write);
       delete frame_to_write;
-      if (!wrote_frame)
-        return false;
       frames_to_erase.push_back(current_track_iterator);
+      if (!wrote_frames)
+        break;
     } else {
       break;
     }
@@ -2721,7 +2722,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
        iterator != frames_to_erase.end(); ++iterator) {
     stored_frames_[track_number].erase(*iterator);
   }
-  return true;
+  return wrote_frames;
 }
 
 bool Cluster::WriteClusterHeader() {
-- 
2.43.0


From 5ae5372faa349e690c65dac7eff8cae3317df428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 13/84] fix: start a cluster that can hold the frame and all
 queued frames

---
 mkvmuxer/mkvmuxer.cc | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f142466..d63071c 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3525,10 +3525,9 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
+  const uint64_t timecode_scale = segment_info_.timecode_scale();
+  const uint64_t frame_timecode = frame->timestamp() / timecode_scale;
   if (cluster_list_size_ > 0) {
-    const uint64_t timecode_scale = segment_info_.timecode_scale();
-    const uint64_t frame_timecode = frame->timestamp() / timecode_scale;
-
     const Cluster* const last_cluster = cluster_list_[cluster_list_size_ - 1];
     const uint64_t last_cluster_timecode = last_cluster->timecode();
 
@@ -3536,6 +3535,15 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     if (rel_timecode > kMaxBlockTimecode) {
       force_new_cluster_ = true;
     }
+  } else {
+    // All queued frames will be written to the first cluster.
+    for (int32_t i = 0; i < frames_size_; ++i) {
+      const uint64_t queued_timecode = frames_[i]->timestamp() / timecode_scale;
+      if (queued_timecode > frame_timecode + kMaxBlockTimecode)
+        return false;
+      if (frame_timecode > queued_timecode + kMaxBlockTimecode)
+        force_new_cluster_ = true;
+    }
   }
 
   // If the segment has a video track hold onto audio frames to make sure the
@@ -3905,8 +3913,8 @@ bool Segment::MakeNewCluster(uint64_t frame_timestamp_ns) {
 
   uint64_t cluster_timecode = frame_timecode;
 
-  if (frames_size_ > 0) {
-    const Frame* const f = frames_[0];  // earliest queued frame
+  for (int32_t i = 0; i < frames_size_; ++i) {
+    const Frame* const f = frames_[i];
     const uint64_t ns = f->timestamp();
     const uint64_t tc = ns / timecode_scale;
 
@@ -3951,13 +3959,17 @@ bool Segment::DoNewClusterProcessing(uint64_t track_number,
       return false;
 
     // Write the current frame to the current cluster (if TestFrame
-    // returns 0) or to a newly created cluster (TestFrame returns 1).
-    if (result <= 1)
+    // returns 0) or to a newly created cluster that can hold it.
+    const uint64_t frame_timecode =
+        frame_timestamp_ns / segment_info_.timecode_scale();
+    const Cluster* const last_cluster = cluster_list_[cluster_list_size_ - 1];
+    if (result == 0 ||
+        frame_timecode - last_cluster->timecode() <= kMaxBlockTimecode) {
       return true;
+    }
 
-    // TestFrame returned 2, which means there was a large time
-    // difference between the cluster and the frame itself.  Do the
-    // test again, comparing the frame to the new cluster.
+    // The queued frames made the new cluster start too early for the frame
+    // itself. Do the test again, comparing the frame to the new cluster.
   }
 }
 
-- 
2.43.0


From 539ebbbc061c6a0857ebb4edb464d101c1d187a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 14/84] fix: no negative durations for the last frames of a
 cluster

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index d63071c..ff31e5e 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2574,7 +2574,7 @@ bool Cluster::Finalize(bool set_last_frame_duration, uint64_t duration) {
       // Set the duration if it's the last frame for the track.
       if (set_last_frame_duration &&
           stored_frames_[frame->track_number()].size() == 1 &&
-          !frame->duration_set()) {
+          !frame->duration_set() && duration > frame->timestamp()) {
         frame->set_duration(duration - frame->timestamp());
         if (!frame->is_key() && !frame->reference_block_timestamp_set()) {
           frame->set_reference_block_timestamp(
-- 
2.43.0


From 99d03c143901af9e57c12fc20eb95700db943995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 15/84] fix: use the duration of the last queued frame for the
 segment duration

---
 mkvmuxer/mkvmuxer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index ff31e5e..ef48da2 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4133,6 +4133,7 @@ int Segment::WriteFramesAll() {
     if (frame->timestamp() > last_timestamp_) {
       last_timestamp_ = frame->timestamp();
       last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
+      last_block_duration_ = frame->duration();
     }
 
     delete frame;
@@ -4190,6 +4191,7 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
         last_timestamp_ = frame_prev->timestamp();
         last_track_timestamp_[frame_prev->track_number() - 1] =
             frame_prev->timestamp();
+        last_block_duration_ = frame_prev->duration();
       }
 
       delete frame_prev;
-- 
2.43.0


From 6c80658d2ef39805a1e3286c76addff0fbd17c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 16/84] fix: estimate the duration by track number

---
 mkvmuxer/mkvmuxer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index ef48da2..2e9614b 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3258,7 +3258,9 @@ bool Segment::Finalize() {
     } else {
       if (last_block_duration_ == 0 && estimate_file_duration_) {
         const int num_tracks = static_cast<int>(tracks_.track_entries_size());
-        for (int i = 0; i < num_tracks; ++i) {
+        for (int index = 0; index < num_tracks; ++index) {
+          const Track* const track = tracks_.GetTrackByIndex(index);
+          const uint64_t i = track->number() - 1;
           if (track_frames_written_[i] < 2)
             continue;
 
-- 
2.43.0


From d26bd6b0240d3a19ac4040823e849edcd5a334c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 17/84] fix: do not finalize a file that was never started

---
 mkvmuxer/mkvmuxer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 2e9614b..01a2a66 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3228,6 +3228,10 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
 }
 
 bool Segment::Finalize() {
+  // Nothing can be finalized in a file that was never started.
+  if (mode_ == kFile && !header_written_)
+    return false;
+
   if (WriteFramesAll() < 0)
     return false;
 
-- 
2.43.0


From e0ec9b51ab264162e9cc1c1220091daacb39ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 18/84] fix: treat every nonzero writer status as a failure

---
 mkvmuxer/mkvmuxerutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index d1e835c..8276577 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -335,7 +335,7 @@ int32 SerializeInt(IMkvWriter* writer, int64 value, int32 size) {
 
     const int32 status = writer->Write(&b, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
@@ -363,7 +363,7 @@ int32 SerializeFloat(IMkvWriter* writer, float f) {
 
     const int32 status = writer->Write(&byte, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
-- 
2.43.0


From e6924064ae5ea9b4c0cd873b404f91e6bdc0e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 19/84] fix: report failed writes of copied data and of the
 date

---
 mkvmuxer/mkvmuxer.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 01a2a66..a8be387 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -163,7 +163,10 @@ bool ChunkedCopy(mkvparser::IMkvReader* source, mkvmuxer::IMkvWriter* dst,
       delete[] buf;
       return false;
     }
-    dst->Write(buf, static_cast<uint32_t>(read_len));
+    if (dst->Write(buf, static_cast<uint32_t>(read_len))) {
+      delete[] buf;
+      return false;
+    }
     offset += read_len;
     size -= read_len;
   }
@@ -2995,8 +2998,10 @@ bool SegmentInfo::Write(IMkvWriter* writer) {
       return false;
   }
 
-  if (date_utc_ != INT64_MIN)
-    WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_);
+  if (date_utc_ != INT64_MIN &&
+      !WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_)) {
+    return false;
+  }
 
   if (!WriteEbmlElement(writer, libwebm::kMkvMuxingApp, muxing_app_))
     return false;
-- 
2.43.0


From 07c42f5821930b1c2ffe93581e8e78aa824287bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:52 +0000
Subject: [PATCH 20/84] fix: write chapters that have no string identifier

The identifier is optional, but a chapter without one made writing the
header, and with it every frame, fail.
---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index a8be387..85ba674 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2010,7 +2010,7 @@ uint64_t Chapter::WriteAtom(IMkvWriter* writer) const {
   if (!WriteEbmlMasterElement(writer, libwebm::kMkvChapterAtom, payload_size))
     return 0;
 
-  if (!WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
+  if (id_ && !WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
     return 0;
 
   if (!WriteEbmlElement(writer, libwebm::kMkvChapterUID,
-- 
2.43.0


From 6ce32dd72ddc442f40d2b2de5e53b0142e355bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:52 +0000
Subject: [PATCH 21/84] fix: number cue blocks by the position the held back
 frame gets

With accurate cluster durations a cue point was given the number of
blocks written so far, not the number of the block it refers to, which
is still being held back.
---
 mkvmuxer/mkvmuxer.cc | 20 ++++++++++++++++++--
 mkvmuxer/mkvmuxer.h  | 10 ++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 85ba674..355706f 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2465,6 +2465,7 @@ Cluster::Cluster(uint64_t timecode, int64_t cues_pos, uint64_t timecode_scale,
       timecode_(timecode),
       timecode_scale_(timecode_scale),
       write_last_frame_with_duration_(write_last_frame_with_duration),
+      last_stored_frame_(NULL),
       writer_(NULL) {}
 
 Cluster::~Cluster() {
@@ -2666,9 +2667,23 @@ bool Cluster::DoWriteFrame(const Frame* const frame) {
 
   PostWriteBlock(element_size);
   last_block_timestamp_[frame->track_number()] = frame->timestamp();
+
+  std::multimap<const Frame*, CuePoint*>::iterator cue;
+  while ((cue = pending_cues_.find(frame)) != pending_cues_.end()) {
+    cue->second->set_block_number(blocks_added_);
+    pending_cues_.erase(cue);
+  }
+  if (last_stored_frame_ == frame)
+    last_stored_frame_ = NULL;
   return true;
 }
 
+void Cluster::SetCueBlockNumber(CuePoint* cue) {
+  cue->set_block_number(blocks_added_);
+  if (last_stored_frame_)
+    pending_cues_.insert(std::make_pair(last_stored_frame_, cue));
+}
+
 bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   if (!frame || !frame->IsValid())
     return false;
@@ -2687,6 +2702,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   }
   frame_to_store->CopyFrom(*frame);
   stored_frames_[track_number].push_back(frame_to_store);
+  last_stored_frame_ = frame_to_store;
 
   // Iterate through all queued frames in the current track except the last one
   // and write it if it is okay to do so (i.e.) no other track has an held back
@@ -3406,7 +3422,7 @@ bool Segment::AddCuePoint(uint64_t timestamp, uint64_t track) {
   if (cluster_list_size_ < 1)
     return false;
 
-  const Cluster* const cluster = cluster_list_[cluster_list_size_ - 1];
+  Cluster* const cluster = cluster_list_[cluster_list_size_ - 1];
   if (!cluster)
     return false;
 
@@ -3415,13 +3431,13 @@ bool Segment::AddCuePoint(uint64_t timestamp, uint64_t track) {
     return false;
 
   cue->set_time(timestamp / segment_info_.timecode_scale());
-  cue->set_block_number(cluster->blocks_added());
   cue->set_cluster_pos(cluster->position_for_cues());
   cue->set_track(track);
   if (!cues_.AddCue(cue)) {
     delete cue;
     return false;
   }
+  cluster->SetCueBlockNumber(cue);
 
   new_cuepoint_ = false;
   return true;
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 2c4bb9e..cf33aab 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1307,6 +1307,10 @@ class Cluster {
   // Returns -1 on failure, or a relative timecode.
   int64_t GetRelativeTimecode(int64_t abs_timecode) const;
 
+  // Sets the block number of |cue| to the number of the most recently added
+  // frame, as soon as that frame is written if it is being held back.
+  void SetCueBlockNumber(CuePoint* cue);
+
   int64_t size_position() const { return size_position_; }
   int32_t blocks_added() const { return blocks_added_; }
   uint64_t payload_size() const { return payload_size_; }
@@ -1384,6 +1388,12 @@ class Cluster {
   // track.
   std::map<uint64_t, uint64_t> last_block_timestamp_;
 
+  // The most recently added frame if it is being held back, NULL otherwise.
+  const Frame* last_stored_frame_;
+
+  // Cue points waiting for the block number of a frame being held back.
+  std::multimap<const Frame*, CuePoint*> pending_cues_;
+
   // Pointer to the writer object. Not owned by this class.
   IMkvWriter* writer_;
 
-- 
2.43.0


From 2ced3ac2fe1c9bba777403736cf6fff2758c628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:52 +0000
Subject: [PATCH 22/84] fix: allow seek entries for chapters, tags and cues
 together

Info, Tracks, Chapters, Tags, Cluster and Cues are six entries; with
five, Finalize() failed for a file with chapters, tags and cues.
---
 mkvmuxer/mkvmuxer.cc | 17 ++++++++++++-----
 mkvmuxer/mkvmuxer.h  |  5 ++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 355706f..45ab50a 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2808,6 +2808,17 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
     if (payload_size == 0)
       return true;
 
+    const uint64_t total_entry_size = kReservedEntryCount * MaxEntrySize();
+    const uint64_t total_size =
+        EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
+        total_entry_size;
+
+    // The entries and the Void element after them must fit.
+    if (EbmlMasterElementSize(libwebm::kMkvSeekHead, payload_size) +
+            payload_size + 2 >
+        total_size)
+      return false;
+
     const int64_t pos = writer->Position();
     if (writer->Position(start_pos_))
       return false;
@@ -2830,10 +2841,6 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
       }
     }
 
-    const uint64_t total_entry_size = kSeekEntryCount * MaxEntrySize();
-    const uint64_t total_size =
-        EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
-        total_entry_size;
     const int64_t size_left = total_size - (writer->Position() - start_pos_);
 
     const uint64_t bytes_written = WriteVoidElement(writer, size_left);
@@ -2848,7 +2855,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
 }
 
 bool SeekHead::Write(IMkvWriter* writer) {
-  const uint64_t entry_size = kSeekEntryCount * MaxEntrySize();
+  const uint64_t entry_size = kReservedEntryCount * MaxEntrySize();
   const uint64_t size =
       EbmlMasterElementSize(libwebm::kMkvSeekHead, entry_size);
 
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index cf33aab..4594473 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1435,7 +1435,10 @@ class SeekHead {
   bool Write(IMkvWriter* writer);
 
   // We are going to put a cap on the number of Seek Entries.
-  constexpr static int32_t kSeekEntryCount = 5;
+  constexpr static int32_t kSeekEntryCount = 6;
+
+  // Number of entries of maximum size that space is reserved for.
+  constexpr static int32_t kReservedEntryCount = 5;
 
  private:
   // Returns the maximum size in bytes of one seek entry.
-- 
2.43.0


From ebd4597e606cae1eee82f48de353e106a5947f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 23/84] fix: refuse to move cues that do not exist

Without clusters, in live mode, without cues, before Finalize() or when
the file was written without seek entries, the rewritten file was
corrupt or the call crashed.
---
 mkvmuxer/mkvmuxer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 45ab50a..3e1c2fe 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3081,6 +3081,7 @@ Segment::Segment()
       chunk_writer_header_(NULL),
       chunking_(false),
       chunking_base_name_(NULL),
+      cluster_end_offset_(-1),
       cluster_list_(NULL),
       cluster_list_capacity_(0),
       cluster_list_size_(0),
@@ -3223,6 +3224,9 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
                                             IMkvWriter* writer) {
   if (!writer->Seekable() || chunking_)
     return false;
+  // Only a finalized file with seek entries and cues can be rewritten.
+  if (cluster_end_offset_ < 0 || cluster_list_size_ < 1 || !output_cues_)
+    return false;
   const int64_t cluster_offset =
       cluster_list_[0]->size_position() - GetUIntSize(libwebm::kMkvCluster);
 
@@ -3330,7 +3334,8 @@ bool Segment::Finalize() {
         return false;
     }
 
-    cluster_end_offset_ = writer_cluster_->Position();
+    if (writer_header_->Seekable())
+      cluster_end_offset_ = writer_cluster_->Position();
 
     // Write the seek headers and cues
     if (output_cues_)
-- 
2.43.0


From 274fb08dd24af6c1557ead428cf563b4a15af61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 24/84] fix: move the cue positions only once

A second copy, for example after a failed one, shifted the cue points
again.
---
 mkvmuxer/mkvmuxer.cc | 7 +++++--
 mkvmuxer/mkvmuxer.h  | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 3e1c2fe..a5558f9 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3085,6 +3085,7 @@ Segment::Segment()
       cluster_list_(NULL),
       cluster_list_capacity_(0),
       cluster_list_size_(0),
+      cues_moved_(false),
       cues_position_(kAfterClusters),
       cues_track_(0),
       force_new_cluster_(false),
@@ -3234,8 +3235,10 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
   if (!ChunkedCopy(reader, writer, 0, cluster_offset))
     return false;
 
-  // Recompute cue positions and seek entries.
-  MoveCuesBeforeClusters();
+  // Recompute cue positions and seek entries, unless an earlier copy did.
+  if (!cues_moved_)
+    MoveCuesBeforeClusters();
+  cues_moved_ = true;
 
   // Write cues and seek entries.
   // TODO(vigneshv): As of now, it's safe to call seek_head_.Finalize() for the
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 4594473..cfd05f4 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1837,6 +1837,10 @@ class Segment {
   // Indicates whether Cues should be written before or after Clusters
   CuesPosition cues_position_;
 
+  // Flag telling if the cue points have the positions for cues written before
+  // the clusters.
+  bool cues_moved_;
+
   // Track number that is associated with the cues element for this segment.
   uint64_t cues_track_;
 
-- 
2.43.0


From bda9f97d6ea19007d483378246b5a5fe308d31d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:40 +0000
Subject: [PATCH 25/84] fix: keep automatic track numbers within the supported
 range

---
 mkvmuxer/mkvmuxer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index a5558f9..0c16225 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1773,6 +1773,10 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
 
   const uint32_t count = track_entries_size_ + 1;
 
+  // Every supported track number is already in use.
+  if (count > 0x7E)
+    return false;
+
   Track** const track_entries = new (std::nothrow) Track*[count];  // NOLINT
   if (!track_entries)
     return false;
@@ -1793,7 +1797,7 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
       exit = true;
       for (uint32_t i = 0; i < track_entries_size_; ++i) {
         if (track_entries[i]->number() == track_num) {
-          track_num++;
+          track_num = (track_num < 0x7E) ? track_num + 1 : 1;
           exit = false;
           break;
         }
-- 
2.43.0


From e4a2e5c7edc59eb6286fb36f44b949edfbe4496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:40 +0000
Subject: [PATCH 26/84] fix: do not dereference a missing codec id when
 choosing the doc type

---
 mkvmuxer/mkvmuxer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 0c16225..bf21205 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4276,6 +4276,8 @@ bool Segment::DocTypeIsWebm() const {
   const int num_tracks = static_cast<int>(tracks_.track_entries_size());
   for (int track_index = 0; track_index < num_tracks; ++track_index) {
     const Track* const track = tracks_.GetTrackByIndex(track_index);
+    if (!track->codec_id())
+      return false;
     const std::string codec_id = track->codec_id();
 
     bool id_is_webm = false;
-- 
2.43.0


From e9d40a93b77d3bcd8eb29843bf3750169bff014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:09 +0000
Subject: [PATCH 27/84] fix: read chapter UIDs as unsigned integers

---
 mkvparser/mkvparser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9bb6c96..d0ce8d5 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3535,6 +3535,9 @@ long Chapters::Atom::Parse(IMkvReader* pReader, long long pos, long long size) {
         return status;
 
       m_uid = static_cast<unsigned long long>(val);
+
+      if (size < 8)  // the UID is unsigned, undo the sign extension
+        m_uid &= (1ULL << (8 * size)) - 1;
     } else if (id == libwebm::kMkvChapterTimeStart) {
       const long long val = UnserializeUInt(pReader, pos, size);
 
-- 
2.43.0


From d736689757b8094e344b676e8419e94a593b44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:49 +0000
Subject: [PATCH 28/84] fix: accept the largest luminance the muxer writes

---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index d0ce8d5..4b3c4fe 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5072,7 +5072,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
       mm_ptr->luminance_max = static_cast<float>(value);
       if (value_parse_status < 0 || mm_ptr->luminance_max < 0.0 ||
-          mm_ptr->luminance_max > 9999.99) {
+          mm_ptr->luminance_max > 9999.99f) {
         return false;
       }
     } else if (child_id == libwebm::kMkvLuminanceMin) {
-- 
2.43.0


From 2c6aaabd08666c08360d0ff43173bd35622508f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:16 +0000
Subject: [PATCH 29/84] fix: keep the position of an element that ends an
 unknown-size element

---
 webm_parser/src/webm_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index cf8bc94..2655d00 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -167,11 +167,11 @@ class WebmParser::DocumentParser {
             state_ = State::kValidatingChildSize;
           } else {
             child_metadata_.header_size = 0;
+            child_metadata_.position = reader->Position();
             state_ = State::kReadingChildId;
           }
           PrepareForNextChild();
           callback = original_callback;
-          child_metadata_.position = reader->Position();
           continue;
         }
 
-- 
2.43.0


From 4fe3097e82a03d86575bb246c68e33e66b1260ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:05 +0000
Subject: [PATCH 30/84] fix: count the block header in the position of
 fixed-size laced frames

---
 webm_parser/src/block_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index b851f51..6a64330 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -216,7 +216,8 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
         }
         lace_sizes_.resize(value_.num_frames, frame_size);
         frame_metadata_.position =
-            frame_metadata_.parent_element.position + header_bytes_read_;
+            frame_metadata_.parent_element.position +
+            frame_metadata_.parent_element.header_size + header_bytes_read_;
         frame_metadata_.size = frame_size;
         state_ = State::kReadingFrames;
         continue;
-- 
2.43.0


From c02a52a9aa383fe2b5948cfe7bdf2e5c2a16d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:05 +0000
Subject: [PATCH 31/84] fix: refuse EBML laced frame sizes that are negative or
 do not fit the block

---
 webm_parser/src/block_parser.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 6a64330..caa70c7 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -195,6 +195,10 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           constexpr std::uint64_t one = 1;  // Prettier than a static_cast.
           std::uint64_t offset =
               (one << (uint_parser_.encoded_length() * 7 - 1)) - 1;
+          if (uint_parser_.value() < offset &&
+              offset - uint_parser_.value() > lace_sizes_.back()) {
+            return Status(Status::kInvalidElementValue);
+          }
           lace_sizes_.push_back(lace_sizes_.back() + uint_parser_.value() -
                                 offset);
           uint_parser_ = {};
@@ -224,8 +228,14 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kValidatingSize: {
-        std::uint64_t sum = std::accumulate(
-            lace_sizes_.begin(), lace_sizes_.end(), header_bytes_read_);
+        std::uint64_t sum = header_bytes_read_;
+        for (std::uint64_t lace_size : lace_sizes_) {
+          // Stop before adding a huge size makes the sum wrap around.
+          if (lace_size >= frame_metadata_.parent_element.size) {
+            return Status(Status::kInvalidElementValue);
+          }
+          sum += lace_size;
+        }
         if (sum >= frame_metadata_.parent_element.size) {
           return Status(Status::kInvalidElementValue);
         }
-- 
2.43.0


From 9f806b2ebe79f2fe221ef7a6040e34e59c38ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:05 +0000
Subject: [PATCH 32/84] fix: do not skip past a block whose header fills or
 exceeds it

---
 webm_parser/src/block_parser.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index caa70c7..cba87e7 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -128,6 +128,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kGettingAction: {
+        if (header_bytes_read_ > frame_metadata_.parent_element.size) {
+          return Status(Status::kInvalidElementValue);
+        }
         Action action = Action::kRead;
         status = BasicBlockBegin(frame_metadata_.parent_element, value_,
                                  callback, &action);
@@ -249,14 +252,18 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kSkipping:
-        do {
+        status = Status(Status::kOkCompleted);
+        while (header_bytes_read_ < frame_metadata_.parent_element.size) {
           // Skip the remaining part of the header and all of the frames.
           status = reader->Skip(
               frame_metadata_.parent_element.size - header_bytes_read_,
               &local_num_bytes_read);
           *num_bytes_read += local_num_bytes_read;
           header_bytes_read_ += local_num_bytes_read;
-        } while (status.code == Status::kOkPartial);
+          if (status.code != Status::kOkPartial) {
+            break;
+          }
+        }
         return status;
 
       case State::kReadingFrames:
-- 
2.43.0


From bd3dab4bc913c14f7ce99e58cd6bb88168b4e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 33/84] fix: refuse a virtual block that does not end with its
 header

---
 webm_parser/src/virtual_block_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/virtual_block_parser.cc b/webm_parser/src/virtual_block_parser.cc
index 712c77f..3a9a099 100644
--- a/webm_parser/src/virtual_block_parser.cc
+++ b/webm_parser/src/virtual_block_parser.cc
@@ -55,7 +55,7 @@ Status VirtualBlockParser::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kValidatingSize: {
-        if (my_size_ < total_bytes_read_) {
+        if (my_size_ != total_bytes_read_) {
           return Status(Status::kInvalidElementValue);
         }
         state_ = State::kDone;
-- 
2.43.0


From ae6741464d86337ef969a43cf0d9080febe71083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 34/84] fix: end an unknown-size element that has no room in
 its parent

---
 webm_parser/src/master_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index d8c3dba..8a90507 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -35,7 +35,7 @@ Status MasterParser::Init(const ElementMetadata& metadata,
     max_size_ = max_size;
   }
 
-  if (metadata.size == 0) {
+  if (max_size_ == 0) {
     state_ = State::kEndReached;
   } else {
     state_ = State::kFirstReadOfChildId;
-- 
2.43.0


From 1f7afe1224611c35c9163d49884cfe23e33d6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 35/84] fix: report an empty element at the very end of its
 parent after an unknown-size element

---
 webm_parser/src/master_parser.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 8a90507..bf0937f 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -245,13 +245,13 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
         if (total_bytes_read_ > byte_cap) {
           return Status(Status::kElementOverflow);
-        } else if (total_bytes_read_ == byte_cap) {
-          state_ = State::kEndReached;
-          continue;
         }
 
         if (child_parser_->GetCachedMetadata(&child_metadata_)) {
           state_ = State::kValidatingChildSize;
+        } else if (total_bytes_read_ == byte_cap) {
+          state_ = State::kEndReached;
+          continue;
         } else {
           state_ = State::kFirstReadOfChildId;
         }
-- 
2.43.0


From a42eb93be45c2b8a3e2a6a6361184d73e9c9a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 36/84] fix: do not assert when a child ID straddles the end of
 its parent

---
 webm_parser/src/master_parser.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index bf0937f..d6230d9 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -123,7 +123,6 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kFinishingReadingChildId: {
         assert(child_parser_ == nullptr);
-        assert(my_size_ == kUnknownElementSize || total_bytes_read_ < my_size_);
         status = id_parser_.Feed(callback, reader, &local_num_bytes_read);
         *num_bytes_read += local_num_bytes_read;
         total_bytes_read_ += local_num_bytes_read;
-- 
2.43.0


From 27624fdde26b55c8db97643f7ceb4d15a3f05d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 37/84] fix: do not lose the element that ends an unknown-size
 nested tag or chapter

---
 webm_parser/src/recursive_parser.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/webm_parser/src/recursive_parser.h b/webm_parser/src/recursive_parser.h
index 1646f2f..333decb 100644
--- a/webm_parser/src/recursive_parser.h
+++ b/webm_parser/src/recursive_parser.h
@@ -71,6 +71,18 @@ class RecursiveParser : public ElementParser {
     return impl_->Feed(callback, reader, num_bytes_read);
   }
 
+  bool GetCachedMetadata(ElementMetadata* metadata) override {
+    assert(impl_ != nullptr);
+
+    return impl_->GetCachedMetadata(metadata);
+  }
+
+  bool WasSkipped() const override {
+    assert(impl_ != nullptr);
+
+    return impl_->WasSkipped();
+  }
+
   decltype(std::declval<T>().value()) value() const {
     assert(impl_ != nullptr);
 
-- 
2.43.0


From b6f7153e899ac9cd7b975e66193c89a06b3ec066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:04 +0000
Subject: [PATCH 38/84] fix: take the action of a begin callback only once it
 has completed

---
 webm_parser/src/master_parser.cc      | 4 +++-
 webm_parser/src/master_value_parser.h | 9 ++++++---
 webm_parser/src/segment_parser.cc     | 4 +++-
 webm_parser/src/webm_parser.cc        | 4 +++-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index d6230d9..b228d19 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -196,10 +196,12 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kGettingAction: {
         assert(child_parser_ != nullptr);
-        status = callback->OnElementBegin(child_metadata_, &action_);
+        Action action = Action::kRead;
+        status = callback->OnElementBegin(child_metadata_, &action);
         if (!status.completed_ok()) {
           return status;
         }
+        action_ = action;
 
         if (action_ == Action::kSkip) {
           callback = &skip_callback;
diff --git a/webm_parser/src/master_value_parser.h b/webm_parser/src/master_value_parser.h
index 2a02a3f..29c4cda 100644
--- a/webm_parser/src/master_value_parser.h
+++ b/webm_parser/src/master_value_parser.h
@@ -117,10 +117,12 @@ class MasterValueParser : public ElementParser {
     }
 
     if (!started_done_) {
-      Status status = OnParseStarted(callback, &action_);
+      Action action = Action::kRead;
+      Status status = OnParseStarted(callback, &action);
       if (!status.completed_ok()) {
         return status;
       }
+      action_ = action;
       started_done_ = true;
     }
 
@@ -463,11 +465,12 @@ class MasterValueParser : public ElementParser {
 
     Status Prepare(Callback* callback) {
       if (has_tag<TagUseAsStart>() && !parent_->started_done_) {
-        const Status status =
-            parent_->OnParseStarted(callback, &parent_->action_);
+        Action action = Action::kRead;
+        const Status status = parent_->OnParseStarted(callback, &action);
         if (!status.completed_ok()) {
           return status;
         }
+        parent_->action_ = action;
         parent_->started_done_ = true;
         if (parent_->action_ == Action::kSkip) {
           return Status(Status::kSwitchToSkip);
diff --git a/webm_parser/src/segment_parser.cc b/webm_parser/src/segment_parser.cc
index 9b2e7d5..1edf7ba 100644
--- a/webm_parser/src/segment_parser.cc
+++ b/webm_parser/src/segment_parser.cc
@@ -57,10 +57,12 @@ Status SegmentParser::Feed(Callback* callback, Reader* reader,
   if (!begin_done_) {
     const ElementMetadata metadata{Id::kSegment, header_size(), size(),
                                    position()};
-    const Status status = callback->OnSegmentBegin(metadata, &action_);
+    Action action = Action::kRead;
+    const Status status = callback->OnSegmentBegin(metadata, &action);
     if (!status.completed_ok()) {
       return status;
     }
+    action_ = action;
     begin_done_ = true;
   }
 
diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index 2655d00..f1198fd 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -132,10 +132,12 @@ class WebmParser::DocumentParser {
 
         case State::kGettingAction: {
           assert(child_parser_ != nullptr);
-          status = callback->OnElementBegin(child_metadata_, &action_);
+          Action action = Action::kRead;
+          status = callback->OnElementBegin(child_metadata_, &action);
           if (!status.completed_ok()) {
             return status;
           }
+          action_ = action;
 
           if (action_ == Action::kSkip) {
             callback = &skip_callback_;
-- 
2.43.0


From 62e85f583ece2cc93c8183b27c97e1fc1400b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:04 +0000
Subject: [PATCH 39/84] fix: skipping an unknown-size child neither skips nor
 fills its parent

---
 webm_parser/src/master_parser.h       | 3 +++
 webm_parser/src/master_value_parser.h | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/master_parser.h b/webm_parser/src/master_parser.h
index d3ca7c7..e29c174 100644
--- a/webm_parser/src/master_parser.h
+++ b/webm_parser/src/master_parser.h
@@ -103,6 +103,9 @@ class MasterParser : public ElementParser {
   // already been called and successfully returned).
   std::uint64_t position() const { return my_position_; }
 
+  // Returns true if the child that is currently being parsed is being skipped.
+  bool skipping_child() const { return action_ == Action::kSkip; }
+
   // Gets the metadata for the child that is currently being parsed. This may
   // only be called while the child's body (not its header information like ID
   // and size) is being parsed.
diff --git a/webm_parser/src/master_value_parser.h b/webm_parser/src/master_value_parser.h
index 29c4cda..8423f23 100644
--- a/webm_parser/src/master_value_parser.h
+++ b/webm_parser/src/master_value_parser.h
@@ -450,7 +450,7 @@ class MasterValueParser : public ElementParser {
 
       status = Base::Feed(callback, reader, num_bytes_read);
       if (status.completed_ok() && parent_->action_ != Action::kSkip &&
-          !WasSkipped()) {
+          !parent_->master_parser_.skipping_child() && !WasSkipped()) {
         consume_element_value_(this);
         if (has_tag<TagNotifyOnParseComplete>()) {
           parent_->OnChildParsed(parent_->child_metadata());
@@ -464,7 +464,8 @@ class MasterValueParser : public ElementParser {
     F consume_element_value_;
 
     Status Prepare(Callback* callback) {
-      if (has_tag<TagUseAsStart>() && !parent_->started_done_) {
+      if (has_tag<TagUseAsStart>() && !parent_->started_done_ &&
+          !parent_->master_parser_.skipping_child()) {
         Action action = Action::kRead;
         const Status status = parent_->OnParseStarted(callback, &action);
         if (!status.completed_ok()) {
-- 
2.43.0


From 1f0dff90fec393f9baebfd8af1354967d5fd3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:04 +0000
Subject: [PATCH 40/84] fix: know the ancestors of colour and projection
 elements

---
 webm_parser/src/ancestory.cc | 57 +++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/webm_parser/src/ancestory.cc b/webm_parser/src/ancestory.cc
index 9860a28..3b8a374 100644
--- a/webm_parser/src/ancestory.cc
+++ b/webm_parser/src/ancestory.cc
@@ -69,11 +69,12 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
   static constexpr Id kTimeSliceAncestory[] = {
       Id::kSegment, Id::kCluster, Id::kBlockGroup, Id::kSlices, Id::kTimeSlice,
   };
-  static constexpr Id kVideoAncestory[] = {
-      Id::kSegment,
-      Id::kTracks,
-      Id::kTrackEntry,
-      Id::kVideo,
+  static constexpr Id kMasteringMetadataAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry,
+      Id::kVideo,   Id::kColour, Id::kMasteringMetadata,
+  };
+  static constexpr Id kProjectionAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry, Id::kVideo, Id::kProjection,
   };
   static constexpr Id kAudioAncestory[] = {
       Id::kSegment,
@@ -187,7 +188,7 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
       return true;
 
     case Id::kTrackEntry:
-      *ancestory = Ancestory(kVideoAncestory, 2);
+      *ancestory = Ancestory(kProjectionAncestory, 2);
       return true;
 
     case Id::kTrackNumber:
@@ -208,7 +209,7 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kVideo:
     case Id::kAudio:
     case Id::kContentEncodings:
-      *ancestory = Ancestory(kVideoAncestory, 3);
+      *ancestory = Ancestory(kProjectionAncestory, 3);
       return true;
 
     case Id::kFlagInterlaced:
@@ -225,7 +226,47 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kDisplayUnit:
     case Id::kAspectRatioType:
     case Id::kFrameRate:
-      *ancestory = Ancestory(kVideoAncestory, 4);
+    case Id::kColour:
+    case Id::kProjection:
+      *ancestory = Ancestory(kProjectionAncestory, 4);
+      return true;
+
+    case Id::kMatrixCoefficients:
+    case Id::kBitsPerChannel:
+    case Id::kChromaSubsamplingHorz:
+    case Id::kChromaSubsamplingVert:
+    case Id::kCbSubsamplingHorz:
+    case Id::kCbSubsamplingVert:
+    case Id::kChromaSitingHorz:
+    case Id::kChromaSitingVert:
+    case Id::kRange:
+    case Id::kTransferCharacteristics:
+    case Id::kPrimaries:
+    case Id::kMaxCll:
+    case Id::kMaxFall:
+    case Id::kMasteringMetadata:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 5);
+      return true;
+
+    case Id::kPrimaryRChromaticityX:
+    case Id::kPrimaryRChromaticityY:
+    case Id::kPrimaryGChromaticityX:
+    case Id::kPrimaryGChromaticityY:
+    case Id::kPrimaryBChromaticityX:
+    case Id::kPrimaryBChromaticityY:
+    case Id::kWhitePointChromaticityX:
+    case Id::kWhitePointChromaticityY:
+    case Id::kLuminanceMax:
+    case Id::kLuminanceMin:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 6);
+      return true;
+
+    case Id::kProjectionType:
+    case Id::kProjectionPrivate:
+    case Id::kProjectionPoseYaw:
+    case Id::kProjectionPosePitch:
+    case Id::kProjectionPoseRoll:
+      *ancestory = Ancestory(kProjectionAncestory, 5);
       return true;
 
     case Id::kSamplingFrequency:
-- 
2.43.0


From 234cfaa987d42fabb8496ee6c520913830602beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:38 +0000
Subject: [PATCH 41/84] fix: do not allocate the claimed size of a string or
 binary element up front

---
 webm_parser/src/byte_parser.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/webm_parser/src/byte_parser.h b/webm_parser/src/byte_parser.h
index f2ed3cb..ebf925a 100644
--- a/webm_parser/src/byte_parser.h
+++ b/webm_parser/src/byte_parser.h
@@ -8,6 +8,7 @@
 #ifndef SRC_BYTE_PARSER_H_
 #define SRC_BYTE_PARSER_H_
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <string>
@@ -70,9 +71,10 @@ class ByteParser : public ElementParser {
 
     if (metadata.size == 0) {
       value_ = default_value_;
-      total_read_ = default_value_.size();
+      my_size_ = total_read_ = default_value_.size();
     } else {
-      value_.resize(static_cast<std::size_t>(metadata.size));
+      value_.clear();
+      my_size_ = static_cast<std::size_t>(metadata.size);
       total_read_ = 0;
     }
 
@@ -87,13 +89,19 @@ class ByteParser : public ElementParser {
 
     *num_bytes_read = 0;
 
-    if (total_read_ == value_.size()) {
+    if (total_read_ == my_size_) {
       return Status(Status::kOkCompleted);
     }
 
     Status status;
     do {
       std::uint64_t local_num_bytes_read = 0;
+      // The size has not been backed by any data yet, so don't trust it with
+      // more than a limited allocation at a time.
+      if (total_read_ == value_.size()) {
+        value_.resize(total_read_ + std::min(my_size_ - total_read_,
+                                             std::size_t{1} << 20));
+      }
       std::uint8_t* buffer =
           reinterpret_cast<std::uint8_t*>(&value_.front()) + total_read_;
       std::size_t buffer_size = value_.size() - total_read_;
@@ -103,7 +111,8 @@ class ByteParser : public ElementParser {
              (!status.ok() && local_num_bytes_read == 0));
       *num_bytes_read += local_num_bytes_read;
       total_read_ += static_cast<std::size_t>(local_num_bytes_read);
-    } while (status.code == Status::kOkPartial);
+    } while (status.code == Status::kOkPartial ||
+             (status.completed_ok() && total_read_ < my_size_));
 
     // UTF-8 and ASCII string elements can be padded with NUL characters at the
     // end, which should be ignored.
@@ -119,20 +128,21 @@ class ByteParser : public ElementParser {
   // Gets the parsed value. This must not be called until the parse has been
   // successfully completed.
   const T& value() const {
-    assert(total_read_ >= value_.size());
+    assert(total_read_ >= my_size_);
     return value_;
   }
 
   // Gets the parsed value. This must not be called until the parse has been
   // successfully completed.
   T* mutable_value() {
-    assert(total_read_ >= value_.size());
+    assert(total_read_ >= my_size_);
     return &value_;
   }
 
  private:
   T value_;
   T default_value_;
+  std::size_t my_size_;
   std::size_t total_read_;
 };
 
-- 
2.43.0


From a94156ac2e5b0f4d9b887e27ba2adb80dbe611b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:27 +0000
Subject: [PATCH 42/84] fix: wait for the EBML header's identifier instead of
 reading past the available data

---
 mkvparser/mkvparser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 4b3c4fe..1c31a46 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -540,6 +540,14 @@ long long EBMLHeader::Parse(IMkvReader* pReader, long long& pos) {
     ++pos;
   }
 
+  // The ID of the EBML header is four bytes long; wait until they are available.
+  if ((available - pos) < 4) {
+    if ((total >= 0) && ((total - pos) < 4))
+      return E_FILE_FORMAT_INVALID;
+
+    return E_BUFFER_NOT_FULL;
+  }
+
   long len = 0;
   const long long ebml_id = ReadID(pReader, pos, len);
 
-- 
2.43.0


From a5669972e3f081c2ff402a73b45417ed5e76d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:27 +0000
Subject: [PATCH 43/84] fix: end a cluster of unknown size with its segment or
 the file when looking for blocks

---
 mkvparser/mkvparser.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 1c31a46..a07a93a 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6155,11 +6155,20 @@ long Cluster::Load(long long& pos, long& len) const {
   bool bBlock = false;
 
   long long cluster_stop = (cluster_size < 0) ? -1 : pos + cluster_size;
+  const long long segment_stop =
+      (m_pSegment->m_size < 0) ? -1 : m_pSegment->m_start + m_pSegment->m_size;
 
   for (;;) {
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
       break;
 
+    // A cluster of unknown size ends with its segment, or with the file.
+    if ((cluster_stop < 0) &&
+        (((segment_stop >= 0) && (pos >= segment_stop)) ||
+         ((total >= 0) && (pos >= total)))) {
+      break;
+    }
+
     // Parse ID
 
     if ((pos + 1) > avail) {
@@ -6302,6 +6311,8 @@ long Cluster::Parse(long long& pos, long& len) const {
 
   const long long cluster_stop =
       (m_element_size < 0) ? -1 : m_element_start + m_element_size;
+  const long long segment_stop =
+      (m_pSegment->m_size < 0) ? -1 : m_pSegment->m_start + m_pSegment->m_size;
 
   if ((cluster_stop >= 0) && (m_pos >= cluster_stop))
     return 1;  // nothing else to do
@@ -6324,7 +6335,9 @@ long Cluster::Parse(long long& pos, long& len) const {
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
       break;
 
-    if ((total >= 0) && (pos >= total)) {
+    // A cluster of unknown size ends with its segment, or with the file.
+    if (((total >= 0) && (pos >= total)) ||
+        ((cluster_stop < 0) && (segment_stop >= 0) && (pos >= segment_stop))) {
       if (m_element_size < 0)
         m_element_size = pos - m_element_start;
 
@@ -7006,6 +7019,13 @@ long Cluster::HasBlockEntries(
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
       return 0;  // no entries detected
 
+    // A cluster of unknown size ends with its segment, or with the file.
+    if ((cluster_stop < 0) &&
+        (((segment_stop >= 0) && (pos >= segment_stop)) ||
+         ((total >= 0) && (pos >= total)))) {
+      return 0;  // no entries detected
+    }
+
     if ((pos + 1) > avail) {
       len = 1;
       return E_BUFFER_NOT_FULL;
-- 
2.43.0


From 3afa7b94ab0bb62c0ff29ff4c1dacde3b4cccdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:27 +0000
Subject: [PATCH 44/84] fix: read an EBML-laced block of one frame, whose size
 is not coded

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index a07a93a..b84ef66 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7914,6 +7914,18 @@ long Block::Parse(const Cluster* pCluster) {
     if (pos >= stop)
       return E_FILE_FORMAT_INVALID;
 
+    if (m_frame_count == 1) {  // the size of the last frame is not coded
+      const long long frame_size = stop - pos;
+
+      if (frame_size > LONG_MAX)
+        return E_FILE_FORMAT_INVALID;
+
+      m_frames[0].pos = pos;
+      m_frames[0].len = static_cast<long>(frame_size);
+
+      return 0;  // success
+    }
+
     long long size = 0;
     int frame_count = m_frame_count;
 
-- 
2.43.0


From e49772a0d2d3bd643029a8d8a26693f3b7c98a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:27 +0000
Subject: [PATCH 45/84] fix: do not create the cue table before its payload is
 available

---
 mkvparser/mkvparser.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index b84ef66..ae127e3 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1147,6 +1147,12 @@ long Segment::DoLoadCluster(long long& pos, long& len) {
       }
 
       if (m_pCues == NULL) {
+        // Cue points are read in total or not at all.
+        if ((pos + size > avail) && (total < 0 || pos + size <= total)) {
+          len = static_cast<long>(size);
+          return E_BUFFER_NOT_FULL;
+        }
+
         const long long element_size = (pos - idpos) + size;
 
         m_pCues = new (std::nothrow) Cues(this, pos, size, idpos, element_size);
@@ -2957,10 +2963,16 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
       const long long element_size = element_stop - element_start;
 
       if (m_pCues == NULL) {
+        // Cue points are read in total or not at all.
+        if ((element_stop > avail) && (total < 0 || element_stop <= total)) {
+          len = static_cast<long>(size);
+          return E_BUFFER_NOT_FULL;
+        }
+
         m_pCues = new (std::nothrow)
             Cues(this, pos, size, element_start, element_size);
         if (m_pCues == NULL)
-          return false;
+          return -1;
       }
 
       pos += size;  // consume payload
-- 
2.43.0


From a1066b47193a2764b33b41b2aa025246cfcd25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 46/84] fix: read the identifier of a preloaded cluster with
 its marker bits

---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index ae127e3..9b13df7 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2783,7 +2783,7 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     if ((pos + len) > avail)
       return E_BUFFER_NOT_FULL;
 
-    const long long id = ReadUInt(m_pReader, pos, len);
+    const long long id = ReadID(m_pReader, pos, len);
 
     if (id != libwebm::kMkvCluster)
       return -1;
-- 
2.43.0


From 702f75b87c8d24f03413704b580107a39a3c0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 47/84] fix: find the end of a preloaded cluster of unknown
 size by parsing it

---
 mkvparser/mkvparser.cc | 169 +++++------------------------------------
 1 file changed, 20 insertions(+), 149 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9b13df7..072a032 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2561,150 +2561,13 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
     return pNext;
   }
 
-  assert(m_clusterPreloadCount > 0);
-
-  long long pos = pCurr->m_element_start;
-
-  assert(m_size >= 0);  // TODO
-  const long long stop = m_start + m_size;  // end of segment
-
-  {
-    long len;
-
-    long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
-      return NULL;
-
-    const long long id = ReadID(m_pReader, pos, len);
-    if (id != libwebm::kMkvCluster)
-      return NULL;
-
-    pos += len;  // consume ID
-
-    // Read Size
-    result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
-
-    const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size > 0);  // TODO
-    // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
-
-    pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
-
-    // Pos now points to start of payload
-
-    pos += size;  // consume payload
-  }
-
-  long long off_next = 0;
-
-  while (pos < stop) {
-    long len;
-
-    long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
-      return NULL;
-
-    const long long idpos = pos;  // pos of next (potential) cluster
-
-    const long long id = ReadID(m_pReader, idpos, len);
-    if (id < 0)
-      return NULL;
-
-    pos += len;  // consume ID
-
-    // Read Size
-    result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
-
-    const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size >= 0);  // TODO
-
-    pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
-
-    // Pos now points to start of payload
-
-    if (size == 0)  // weird
-      continue;
-
-    if (id == libwebm::kMkvCluster) {
-      const long long off_next_ = idpos - m_start;
-
-      long long pos_;
-      long len_;
-
-      const long status = Cluster::HasBlockEntries(this, off_next_, pos_, len_);
-
-      assert(status >= 0);
-
-      if (status > 0) {
-        off_next = off_next_;
-        break;
-      }
-    }
-
-    pos += size;  // consume payload
-  }
-
-  if (off_next <= 0)
-    return 0;
-
-  Cluster** const ii = m_clusters + m_clusterCount;
-  Cluster** i = ii;
-
-  Cluster** const jj = ii + m_clusterPreloadCount;
-  Cluster** j = jj;
-
-  while (i < j) {
-    // INVARIANT:
-    //[0, i) < pos_next
-    //[i, j) ?
-    //[j, jj)  > pos_next
-
-    Cluster** const k = i + (j - i) / 2;
-    assert(k < jj);
-
-    Cluster* const pNext = *k;
-    assert(pNext);
-    assert(pNext->m_index < 0);
-
-    // const long long pos_ = pNext->m_pos;
-    // assert(pos_);
-    // pos = pos_ * ((pos_ < 0) ? -1 : 1);
-
-    pos = pNext->GetPosition();
-
-    if (pos < off_next)
-      i = k + 1;
-    else if (pos > off_next)
-      j = k;
-    else
-      return pNext;
-  }
-
-  assert(i == j);
-
-  Cluster* const pNext = Cluster::Create(this, -1, off_next);
-  if (pNext == NULL)
-    return NULL;
-
-  const ptrdiff_t idx_next = i - m_clusters;  // insertion position
+  // The cluster is merely preloaded: find the one that follows it in the file.
+  const Cluster* pNext = NULL;
+  long long pos;
+  long len;
 
-  if (!PreloadCluster(pNext, idx_next)) {
-    delete pNext;
+  if (ParseNext(pCurr, pNext, pos, len) != 0)
     return NULL;
-  }
-  assert(m_clusters);
-  assert(idx_next < m_clusterSize);
-  assert(m_clusters[idx_next] == pNext);
 
   return pNext;
 }
@@ -2820,17 +2683,25 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
 
     const long long unknown_size = (1LL << (7 * len)) - 1;
 
-    if (size == unknown_size)  // TODO: should never happen
-      return E_FILE_FORMAT_INVALID;  // TODO: resolve this
+    if (size == unknown_size) {
+      // The end of the cluster is known once its payload has been parsed.
+      do {
+        status = pCurr->Parse(pos, len);
+      } while (status == 0);
+
+      if (status < 0)  // error or underflow
+        return status;
 
-    // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
+      pos = pCurr->m_element_start + pCurr->m_element_size;
+    } else {
+      if ((segment_stop >= 0) && ((pos + size) > segment_stop))
+        return E_FILE_FORMAT_INVALID;
 
-    if ((segment_stop >= 0) && ((pos + size) > segment_stop))
-      return E_FILE_FORMAT_INVALID;
+      // Pos now points to start of payload
 
-    // Pos now points to start of payload
+      pos += size;  // consume payload (that is, the current cluster)
+    }
 
-    pos += size;  // consume payload (that is, the current cluster)
     if (segment_stop >= 0 && pos > segment_stop)
       return E_FILE_FORMAT_INVALID;
 
-- 
2.43.0


From 6900514c87ba69be67c6d5d75982e7040f05d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 48/84] fix: keep the parse position while searching the
 preloaded clusters

---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 072a032..9c37713 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2900,12 +2900,12 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
     assert(pNext);
     assert(pNext->m_index < 0);
 
-    pos = pNext->GetPosition();
-    assert(pos >= 0);
+    const long long next_off = pNext->GetPosition();
+    assert(next_off >= 0);
 
-    if (pos < off_next)
+    if (next_off < off_next)
       i = k + 1;
-    else if (pos > off_next)
+    else if (next_off > off_next)
       j = k;
     else {
       pResult = pNext;
-- 
2.43.0


From 6f7d62d91cb81d857b77a16ae7da04c07f6b5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 49/84] fix: load a preloaded cluster of unknown size like any
 other

---
 mkvparser/mkvparser.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9c37713..c8d8f90 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1254,8 +1254,16 @@ long Segment::DoLoadCluster(long long& pos, long& len) {
       else {
         const long long element_size = pCluster->GetElementSize();
 
-        if (element_size <= 0)
-          return E_FILE_FORMAT_INVALID;  // TODO: handle this case
+        if (element_size <= 0) {  // its end has not been found yet
+          pCluster->m_index = idx;  // move from preloaded to loaded
+          ++m_clusterCount;
+          --m_clusterPreloadCount;
+
+          m_pUnknownSize = pCluster;
+          m_pos = -pos;
+
+          return 0;  // partial success, as for a new cluster
+        }
 
         pos = pCluster->m_element_start + element_size;
       }
-- 
2.43.0


From b97d5b419bb37c4151856250bac03abfefffc844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 50/84] fix: follow a preloaded cluster when the clusters start
 with the segment

---
 mkvparser/mkvparser.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index c8d8f90..80cf732 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2615,8 +2615,6 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     return 0;  // success
   }
 
-  assert(m_pos > 0);
-
   long long total, avail;
 
   long status = m_pReader->Length(&total, &avail);
-- 
2.43.0


From 18d007442da3922ccb5eaed9c88b63d2d4f55952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 51/84] fix: seek in a track whose first block precedes the
 time of its cluster

---
 mkvparser/mkvparser.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 80cf732..5c74e64 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4758,7 +4758,6 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -4790,13 +4789,16 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  // A block may precede the time of its cluster, so the cluster of the first
+  // block is a candidate whatever its time.
+  if (lo == i)
+    ++lo;
+
   while (lo > i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this);
 
@@ -5386,7 +5388,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -5418,12 +5419,15 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  // A block may precede the time of its cluster, so the cluster of the first
+  // block is a candidate whatever its time.
+  if (lo == i)
+    ++lo;
+
   pCluster = *--lo;
   assert(pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   pResult = pCluster->GetEntry(this, time_ns);
 
@@ -5433,7 +5437,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   while (lo != i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this, time_ns);
 
-- 
2.43.0


From acfff7b289febf58f3d27c27feb31a980fe89529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 52/84] fix: report an underflow in Cluster::GetEntry instead
 of asserting

---
 mkvparser/mkvparser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 5c74e64..8130b07 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7377,12 +7377,11 @@ const BlockEntry* Cluster::GetEntry(const Track* pTrack,
       long len;
 
       const long status = Parse(pos, len);
-      assert(status >= 0);
 
       if (status > 0)  // completely parsed, and no more entries
         return pResult;
 
-      if (status < 0)  // should never happen
+      if (status < 0)  // error or underflow
         return 0;
 
       assert(m_entries);
-- 
2.43.0


From 8d7b861bd913b0d0ad08eb9bef546f772f9b1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 53/84] fix: do not overflow when converting timecodes to
 nanoseconds

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 8130b07..7790f99 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2495,6 +2495,10 @@ long long CuePoint::GetTime(const Segment* pSegment) const {
   const long long scale = pInfo->GetTimeCodeScale();
   assert(scale >= 1);
 
+  // Check if scale * m_timecode could overflow.
+  if (m_timecode != 0 && scale > LLONG_MAX / m_timecode)
+    return -1;
+
   const long long time = scale * m_timecode;
 
   return time;
@@ -3484,6 +3488,10 @@ long long Chapters::Atom::GetTime(const Chapters* pChapters,
   if (timecode < 0)
     return -1;
 
+  // Check if timecode_scale * timecode could overflow.
+  if (timecode != 0 && timecode_scale > LLONG_MAX / timecode)
+    return -1;
+
   const long long result = timecode_scale * timecode;
 
   return result;
@@ -7037,6 +7045,10 @@ long long Cluster::GetTime() const {
   const long long scale = pInfo->GetTimeCodeScale();
   assert(scale >= 1);
 
+  // Check if m_timecode * scale could overflow.
+  if (m_timecode != 0 && scale > LLONG_MAX / m_timecode)
+    return -1;
+
   const long long t = m_timecode * scale;
 
   return t;
-- 
2.43.0


From beda62e91b0714e2063b2bd1ae03162caa093d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 54/84] fix: report read errors in cue points and block groups
 instead of asserting

---
 mkvparser/mkvparser.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 7790f99..97ac692 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2316,7 +2316,8 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos_ += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos_, len);
-    assert(size >= 0);
+    if (size < 0)
+      return false;
 
     pos_ += len;  // consume Size field
     // pos_ now points to start of payload
@@ -2391,11 +2392,12 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return false;
 
     pos += len;  // consume Size field
-    assert((pos + size) <= stop);
+    if ((pos + size) > stop)
+      return false;
 
     if (id == libwebm::kMkvCueTrackPositions) {
       TrackPosition& tp = *p++;
@@ -7171,8 +7173,8 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);  // TODO
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return E_FILE_FORMAT_INVALID;
 
     pos += len;  // consume size
 
@@ -7197,7 +7199,6 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
       long long time;
 
       long status = UnserializeInt(pReader, pos, size_, time);
-      assert(status == 0);
       if (status != 0)
         return -1;
 
-- 
2.43.0


From 24393c3b1984a7027588ab30c68b29f459e924bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 55/84] fix: treat a positive read status as an underflow in
 values too

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 97ac692..106cb83 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -220,6 +220,9 @@ long long UnserializeUInt(IMkvReader* pReader, long long pos, long long size) {
     if (status < 0)
       return status;
 
+    if (status > 0)  // interpreted as "underflow"
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
@@ -243,6 +246,9 @@ long UnserializeFloat(IMkvReader* pReader, long long pos, long long size_,
   if (status < 0)  // error
     return status;
 
+  if (status > 0)  // interpreted as "underflow"
+    return E_BUFFER_NOT_FULL;
+
   if (size == 4) {
     union {
       float f;
@@ -300,6 +306,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
   if (status < 0)
     return status;
 
+  if (status > 0)  // interpreted as "underflow"
+    return E_BUFFER_NOT_FULL;
+
   unsigned long long result = static_cast<unsigned long long>(first_byte);
   ++pos;
 
@@ -311,6 +320,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
     if (status < 0)
       return status;
 
+    if (status > 0)  // interpreted as "underflow"
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
-- 
2.43.0


From 615ad1de5b08f7375db5ca6148ba8f769c4e2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:12 +0000
Subject: [PATCH 56/84] fix: do not report a simple block that ends beyond the
 file

A cluster reached through the cues is not checked against the length of the
file, so a simple block cut off by the end of a truncated file was reported
with a frame that lies outside the file.  Block groups were already refused.
---
 mkvparser/mkvparser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 106cb83..d01040d 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6424,6 +6424,9 @@ long Cluster::ParseSimpleBlock(long long block_size, long long& pos,
 
   assert((total < 0) || (avail <= total));
 
+  if ((total >= 0) && (block_stop > total))
+    return E_FILE_FORMAT_INVALID;
+
   // parse track number
 
   if ((pos + 1) > avail) {
-- 
2.43.0


From 0a6d3459411929efe680f78dccf9342123618f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:10 +0000
Subject: [PATCH 57/84] fix: refuse values that no coded size can hold

WriteUIntSize with a size of zero returned success for values above 2^56 - 2
without writing anything, after shifting past the width of its type.
---
 mkvmuxer/mkvmuxerutil.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 8276577..2230791 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -391,21 +391,17 @@ int32 WriteUIntSize(IMkvWriter* writer, uint64 value, int32 size) {
 
     value |= bit;
   } else {
-    size = 1;
-    int64 bit;
+    uint64 bit = 0;
 
-    for (;;) {
-      bit = 1LL << (size * 7);
-      const uint64 max = bit - 2;
+    for (size = 1; size <= 8; ++size) {
+      bit = 1ULL << (size * 7);
 
-      if (value <= max)
+      if (value <= bit - 2)
         break;
-
-      ++size;
     }
 
     if (size > 8)
-      return false;
+      return -1;
 
     value |= bit;
   }
-- 
2.43.0


From 56f5b4c9b597f8a2dc8ddb3aeae0f37e8b43ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:21 +0000
Subject: [PATCH 58/84] fix: write void elements of every size

WriteVoidElement refused sizes such as 128 and 129, for which a void element
exists, and wrote a stray ID for a size of zero.
---
 mkvmuxer/mkvmuxerutil.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 2230791..a42390e 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -568,14 +568,15 @@ uint64 WriteVoidElement(IMkvWriter* writer, uint64 size) {
   if (!writer)
     return false;
 
-  // Subtract one for the void ID and the coded size.
-  uint64 void_entry_size = size - 1 - GetCodedUIntSize(size - 1);
-  uint64 void_size = EbmlMasterElementSize(libwebm::kMkvVoid, void_entry_size) +
-                     void_entry_size;
-
-  if (void_size != size)
+  // The smallest void element is its ID and a coded size of one byte.
+  if (size < 2)
     return 0;
 
+  // Subtract one for the void ID and the coded size. The coded size may have
+  // to be one byte longer than necessary to fill |size| exactly.
+  const int32 coded_size = GetCodedUIntSize(size - 2);
+  const uint64 void_entry_size = size - 1 - coded_size;
+
   const int64 payload_position = writer->Position();
   if (payload_position < 0)
     return 0;
@@ -583,7 +584,7 @@ uint64 WriteVoidElement(IMkvWriter* writer, uint64 size) {
   if (WriteID(writer, libwebm::kMkvVoid))
     return 0;
 
-  if (WriteUInt(writer, void_entry_size))
+  if (WriteUIntSize(writer, void_entry_size, coded_size))
     return 0;
 
   const uint8 value = 0;
@@ -594,10 +595,10 @@ uint64 WriteVoidElement(IMkvWriter* writer, uint64 size) {
 
   const int64 stop_position = writer->Position();
   if (stop_position < 0 ||
-      stop_position - payload_position != static_cast<int64>(void_size))
+      stop_position - payload_position != static_cast<int64>(size))
     return 0;
 
-  return void_size;
+  return size;
 }
 
 void GetVersion(int32* major, int32* minor, int32* build, int32* revision) {
-- 
2.43.0


From 9c3a754db44d81966077c8e3387e882036994e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:06 +0000
Subject: [PATCH 59/84] fix: do not skip past the end of a file

FileReader and IstreamReader reported a skip beyond the end of a seekable file
as completed and advanced their position past it.
---
 webm_parser/src/file_reader.cc    | 34 +++++++++++++++++++++--------
 webm_parser/src/istream_reader.cc | 36 +++++++++++++++++++------------
 2 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index a2a397b..ddaacdc 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -18,15 +18,19 @@
 
 #ifdef _MSC_VER
 #define FSEEK_(stream, offset, whence) _fseeki64(stream, offset, whence)
+#define FTELL_(stream) _ftelli64(stream)
 #elif defined(_WIN32)
 #define FSEEK_(stream, offset, whence) \
   fseeko64(stream, static_cast<off_t>(offset), whence)
+#define FTELL_(stream) ftello64(stream)
 #elif _POSIX_C_SOURCE >= 200112L
 #define FSEEK_(stream, offset, whence) \
   fseeko(stream, static_cast<off_t>(offset), whence)
+#define FTELL_(stream) ftello(stream)
 #else
 #define FSEEK_(stream, offset, whence) \
   std::fseek(stream, static_cast<long>(offset), whence)
+#define FTELL_(stream) std::ftell(stream)
 #endif
 
 namespace webm {
@@ -85,15 +89,27 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
     return Status(Status::kEndOfFile);
   }
 
-  // Try seeking forward first.
-  long seek_offset = std::numeric_limits<long>::max();  // NOLINT
-  if (num_to_skip < static_cast<unsigned long>(seek_offset)) {  // NOLINT
-    seek_offset = static_cast<long>(num_to_skip);  // NOLINT
-  }
-  if (!FSEEK_(file_.get(), seek_offset, SEEK_CUR)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
+  // Try seeking forward first. Seeking past the end of a file succeeds, so the
+  // number of bytes that can be skipped has to be limited to what the file has.
+  const std::int64_t current = static_cast<std::int64_t>(FTELL_(file_.get()));
+  if (current >= 0 && !FSEEK_(file_.get(), 0, SEEK_END)) {
+    const std::int64_t end = static_cast<std::int64_t>(FTELL_(file_.get()));
+    std::uint64_t seek_offset = 0;
+    if (end > current) {
+      seek_offset = static_cast<std::uint64_t>(end - current);
+    }
+    if (seek_offset > num_to_skip) {
+      seek_offset = num_to_skip;
+    }
+    if (FSEEK_(file_.get(), current + static_cast<std::int64_t>(seek_offset),
+               SEEK_SET)) {
+      return Status(Status::kSeekFailed);
+    }
+    *num_actually_skipped = seek_offset;
+    position_ += seek_offset;
+    if (seek_offset == 0) {
+      return Status(Status::kEndOfFile);
+    } else if (seek_offset == num_to_skip) {
       return Status(Status::kOkCompleted);
     } else {
       return Status(Status::kOkPartial);
diff --git a/webm_parser/src/istream_reader.cc b/webm_parser/src/istream_reader.cc
index 6993fc0..fada00d 100644
--- a/webm_parser/src/istream_reader.cc
+++ b/webm_parser/src/istream_reader.cc
@@ -79,20 +79,28 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
     return Status(Status::kEndOfFile);
   }
 
-  // Try seeking forward first.
-  using unsigned_streamsize = std::make_unsigned<std::streamsize>::type;
-  constexpr std::streamsize streamsize_max =
-      std::numeric_limits<std::streamsize>::max();
-  std::streamsize seek_offset;
-  if (num_to_skip > static_cast<unsigned_streamsize>(streamsize_max)) {
-    seek_offset = streamsize_max;
-  } else {
-    seek_offset = static_cast<std::streamsize>(num_to_skip);
-  }
-  if (istream_->seekg(seek_offset, std::ios_base::cur)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
+  // Try seeking forward first. Seeking past the end of a file succeeds, so the
+  // number of bytes that can be skipped has to be limited to what there is.
+  const std::streamoff current = istream_->tellg();
+  if (current >= 0 && istream_->seekg(0, std::ios_base::end)) {
+    const std::streamoff end = istream_->tellg();
+    std::uint64_t seek_offset = 0;
+    if (end > current) {
+      seek_offset = static_cast<std::uint64_t>(end - current);
+    }
+    if (seek_offset > num_to_skip) {
+      seek_offset = num_to_skip;
+    }
+    istream_->seekg(current + static_cast<std::streamoff>(seek_offset),
+                    std::ios_base::beg);
+    if (istream_->fail()) {
+      return Status(Status::kSeekFailed);
+    }
+    *num_actually_skipped = seek_offset;
+    position_ += seek_offset;
+    if (seek_offset == 0) {
+      return Status(Status::kEndOfFile);
+    } else if (seek_offset == num_to_skip) {
       return Status(Status::kOkCompleted);
     } else {
       return Status(Status::kOkPartial);
-- 
2.43.0


From a610559cf3b252fe8d0d6ff1a8de5e8462b59e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:46 +0000
Subject: [PATCH 60/84] fix: report a failed seek on a file reader without a
 file

---
 webm_parser/src/file_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index ddaacdc..0c0df00 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -146,7 +146,7 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
 }
 
 Status FileReader::Seek(std::uint64_t seek_position) {
-  if (FSEEK_(file_.get(), seek_position, SEEK_SET)) {
+  if (file_ == nullptr || FSEEK_(file_.get(), seek_position, SEEK_SET)) {
     return Status(Status::kSeekFailed);
   }
   position_ = seek_position;
-- 
2.43.0


From fcc059b067f4c844d146689c761c37df12406824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 61/84] fix: skip the sign of quantizer deltas in VP9 headers

---
 common/vp9_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index c017d7f..6edfee6 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -259,7 +259,7 @@ void Vp9HeaderParser::ParseTileInfo() {
 
 void Vp9HeaderParser::SkipDeltaQ() {
   if (ReadBit())
-    VpxReadLiteral(4);
+    VpxReadLiteral(5);  // Consume delta_q + sign
 }
 
 int Vp9HeaderParser::AlignPowerOfTwo(int value, int n) {
-- 
2.43.0


From 9b5a8d50af5d686822205c8e0216b1a7a82b6204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 62/84] fix: refuse VP9 headers with a reserved profile

---
 common/vp9_header_parser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index 6edfee6..fd756a1 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -45,8 +45,10 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
 
   profile_ = ReadBit();
   profile_ |= ReadBit() << 1;
-  if (profile_ > 2)
-    profile_ += ReadBit();
+  if (profile_ > 2 && ReadBit()) {
+    fprintf(stderr, "Invalid VP9 profile\n");
+    return false;
+  }
 
   // TODO(fgalligan): Decide how to handle show existing frames.
   show_existing_frame_ = ReadBit();
-- 
2.43.0


From 1c1b6b3e6e78bf6eab20a3010bc3fa401a99f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 63/84] fix: read the tile counts of VP9 frames with
 segmentation

---
 common/vp9_header_parser.cc | 100 +++++++++++++++++++++++++-----------
 common/vp9_header_parser.h  |   1 +
 2 files changed, 70 insertions(+), 31 deletions(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index fd756a1..7b74bc9 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -220,42 +220,80 @@ void Vp9HeaderParser::ParseTileInfo() {
   SkipDeltaQ();  // uv ac
   SkipDeltaQ();  // uv dc
 
-  // segmentation
+  SkipSegmentation();
+
+  // tiles
+  const int aligned_width = AlignPowerOfTwo(width_, kMiSizeLog2);
+  const int mi_cols = aligned_width >> kMiSizeLog2;
+  const int aligned_mi_cols = AlignPowerOfTwo(mi_cols, kMiSizeLog2);
+  const int sb_cols = aligned_mi_cols >> 3;  // to_sbs(mi_cols);
+  int min_log2_n_tiles, max_log2_n_tiles;
+
+  for (max_log2_n_tiles = 0;
+       (sb_cols >> max_log2_n_tiles) >= kMinTileWidthB64;
+       max_log2_n_tiles++) {
+  }
+  max_log2_n_tiles--;
+  if (max_log2_n_tiles < 0)
+    max_log2_n_tiles = 0;
+
+  for (min_log2_n_tiles = 0; (kMaxTileWidthB64 << min_log2_n_tiles) < sb_cols;
+       min_log2_n_tiles++) {
+  }
+
+  // columns
+  const int max_log2_tile_cols = max_log2_n_tiles;
+  const int min_log2_tile_cols = min_log2_n_tiles;
+  int max_ones = max_log2_tile_cols - min_log2_tile_cols;
+  int log2_tile_cols = min_log2_tile_cols;
+  while (max_ones-- && ReadBit())
+    log2_tile_cols++;
+
+  // rows
+  int log2_tile_rows = ReadBit();
+  if (log2_tile_rows)
+    log2_tile_rows += ReadBit();
+
+  row_tiles_ = 1 << log2_tile_rows;
+  column_tiles_ = 1 << log2_tile_cols;
+}
+
+void Vp9HeaderParser::SkipSegmentation() {
   const bool segmentation_enabled = ReadBit();
-  if (!segmentation_enabled) {
-    const int aligned_width = AlignPowerOfTwo(width_, kMiSizeLog2);
-    const int mi_cols = aligned_width >> kMiSizeLog2;
-    const int aligned_mi_cols = AlignPowerOfTwo(mi_cols, kMiSizeLog2);
-    const int sb_cols = aligned_mi_cols >> 3;  // to_sbs(mi_cols);
-    int min_log2_n_tiles, max_log2_n_tiles;
-
-    for (max_log2_n_tiles = 0;
-         (sb_cols >> max_log2_n_tiles) >= kMinTileWidthB64;
-         max_log2_n_tiles++) {
+  if (!segmentation_enabled)
+    return;
+
+  const bool update_map = ReadBit();
+  if (update_map) {
+    const int kSegmentationTreeProbs = 7;
+    for (int i = 0; i < kSegmentationTreeProbs; ++i) {
+      if (ReadBit())
+        VpxReadLiteral(8);  // Consume tree prob
     }
-    max_log2_n_tiles--;
-    if (max_log2_n_tiles < 0)
-      max_log2_n_tiles = 0;
 
-    for (min_log2_n_tiles = 0; (kMaxTileWidthB64 << min_log2_n_tiles) < sb_cols;
-         min_log2_n_tiles++) {
+    const bool temporal_update = ReadBit();
+    if (temporal_update) {
+      const int kSegmentationPredProbs = 3;
+      for (int i = 0; i < kSegmentationPredProbs; ++i) {
+        if (ReadBit())
+          VpxReadLiteral(8);  // Consume pred prob
+      }
     }
+  }
 
-    // columns
-    const int max_log2_tile_cols = max_log2_n_tiles;
-    const int min_log2_tile_cols = min_log2_n_tiles;
-    int max_ones = max_log2_tile_cols - min_log2_tile_cols;
-    int log2_tile_cols = min_log2_tile_cols;
-    while (max_ones-- && ReadBit())
-      log2_tile_cols++;
-
-    // rows
-    int log2_tile_rows = ReadBit();
-    if (log2_tile_rows)
-      log2_tile_rows += ReadBit();
-
-    row_tiles_ = 1 << log2_tile_rows;
-    column_tiles_ = 1 << log2_tile_cols;
+  const bool update_data = ReadBit();
+  if (update_data) {
+    ReadBit();  // Consume abs delta
+    const int kMaxSegments = 8;
+    const int kSegmentationFeatures = 4;
+    // Bits of the feature data and its sign.
+    const int kFeatureBits[kSegmentationFeatures] = {9, 7, 2, 0};
+    for (int i = 0; i < kMaxSegments; ++i) {
+      for (int j = 0; j < kSegmentationFeatures; ++j) {
+        if (ReadBit())
+          VpxReadLiteral(kFeatureBits[j]);
+      }
+    }
   }
 }
 
diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index 3e57514..83b6bb4 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -96,6 +96,7 @@ class Vp9HeaderParser {
 
   // Parses row and column tiles. This function skips over some features.
   void ParseTileInfo();
+  void SkipSegmentation();
   void SkipDeltaQ();
   int AlignPowerOfTwo(int value, int n);
 
-- 
2.43.0


From f247a806af0762ada133b76c22859ce153f1a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 64/84] fix: decode the tiles and frame parallel mode of every
 VP9 frame

---
 common/vp9_header_parser.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index 7b74bc9..91e5f22 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -66,8 +66,6 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
 
     ParseColorSpace();
     ParseFrameResolution();
-    ParseFrameParallelMode();
-    ParseTileInfo();
   } else {
     intra_only_ = altref_ ? ReadBit() : 0;
     reset_frame_context_ = error_resilient_mode_ ? 0 : VpxReadLiteral(2);
@@ -111,8 +109,15 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
 
       if (!found)
         ParseFrameResolution();
+
+      ReadBit();  // Consume allow_high_precision_mv.
+      if (!ReadBit())
+        VpxReadLiteral(2);  // Consume interpolation filter.
     }
   }
+
+  ParseFrameParallelMode();
+  ParseTileInfo();
   return true;
 }
 
-- 
2.43.0


From 42820da59f72195dd99ed38bd6a62f59c62e732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 65/84] fix: take the size of VP9 inter frames from their
 reference

---
 common/vp9_header_parser.cc | 23 ++++++++++++++++++++---
 common/vp9_header_parser.h  | 13 ++++++++++++-
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index 91e5f22..270709b 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -92,16 +92,22 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
       ParseFrameResolution();
     } else {
       refresh_frame_flags_ = VpxReadLiteral(kRefFrames);
+      int refs[kRefsPerFrame];
       for (int i = 0; i < kRefsPerFrame; ++i) {
-        VpxReadLiteral(kRefFrames_LOG2);  // Consume ref.
+        refs[i] = VpxReadLiteral(kRefFrames_LOG2);
         ReadBit();  // Consume ref sign bias.
       }
 
       bool found = false;
       for (int i = 0; i < kRefsPerFrame; ++i) {
         if (ReadBit()) {
-          // Found previous reference, width and height did not change since
-          // last frame.
+          // Found previous reference, width and height are those of the
+          // reference.
+          if (ref_width_[refs[i]] > 0) {
+            width_ = ref_width_[refs[i]];
+            height_ = ref_height_[refs[i]];
+          }
+          ParseDisplayResolution();
           found = true;
           break;
         }
@@ -118,6 +124,13 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
 
   ParseFrameParallelMode();
   ParseTileInfo();
+
+  for (int i = 0; i < kRefFrames; ++i) {
+    if (key_ || (refresh_frame_flags_ >> i) & 1) {
+      ref_width_[i] = width_;
+      ref_height_[i] = height_;
+    }
+  }
   return true;
 }
 
@@ -176,6 +189,10 @@ void Vp9HeaderParser::ParseColorSpace() {
 void Vp9HeaderParser::ParseFrameResolution() {
   width_ = VpxReadLiteral(16) + 1;
   height_ = VpxReadLiteral(16) + 1;
+  ParseDisplayResolution();
+}
+
+void Vp9HeaderParser::ParseDisplayResolution() {
   if (ReadBit()) {
     display_width_ = VpxReadLiteral(16) + 1;
     display_height_ = VpxReadLiteral(16) + 1;
diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index 83b6bb4..9416ad2 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -47,9 +47,14 @@ class Vp9HeaderParser {
         refresh_frame_flags_(0),
         width_(0),
         height_(0),
+        display_width_(0),
+        display_height_(0),
         row_tiles_(0),
         column_tiles_(0),
-        frame_parallel_mode_(0) {}
+        frame_parallel_mode_(0) {
+    for (int i = 0; i < kRefFrames; ++i)
+      ref_width_[i] = ref_height_[i] = 0;
+  }
 
   // Parse the VP9 uncompressed header. The return values of the remaining
   // functions are only valid on success.
@@ -91,6 +96,9 @@ class Vp9HeaderParser {
   // Parses width and height of the frame.
   void ParseFrameResolution();
 
+  // Parses display width and display height of the frame.
+  void ParseDisplayResolution();
+
   // Parses frame_parallel_mode_. This function skips over some features.
   void ParseFrameParallelMode();
 
@@ -120,6 +128,9 @@ class Vp9HeaderParser {
   int height_;
   int display_width_;
   int display_height_;
+  // Sizes of the reference frames, 0 when unknown.
+  int ref_width_[kRefFrames];
+  int ref_height_[kRefFrames];
   int row_tiles_;
   int column_tiles_;
   int frame_parallel_mode_;
-- 
2.43.0


From 607458635c89c6703e6dad7db0d642b6c95b2386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 66/84] fix: refuse truncated VP9 headers

---
 common/vp9_header_parser.cc | 13 +++++++++++--
 common/vp9_header_parser.h  |  5 ++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index 270709b..5d8bd85 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -18,6 +18,7 @@ bool Vp9HeaderParser::SetFrame(const uint8_t* frame, size_t length) {
   frame_ = frame;
   frame_size_ = length;
   bit_offset_ = 0;
+  truncated_ = false;
   profile_ = -1;
   show_existing_frame_ = 0;
   key_ = 0;
@@ -52,8 +53,10 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
 
   // TODO(fgalligan): Decide how to handle show existing frames.
   show_existing_frame_ = ReadBit();
-  if (show_existing_frame_)
-    return true;
+  if (show_existing_frame_) {
+    VpxReadLiteral(kRefFrames_LOG2);  // Consume frame to show.
+    return !truncated_;
+  }
 
   key_ = !ReadBit();
   altref_ = !ReadBit();
@@ -125,6 +128,11 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
   ParseFrameParallelMode();
   ParseTileInfo();
 
+  if (truncated_) {
+    fprintf(stderr, "Truncated VP9 header!\n");
+    return false;
+  }
+
   for (int i = 0; i < kRefFrames; ++i) {
     if (key_ || (refresh_frame_flags_ >> i) & 1) {
       ref_width_[i] = width_;
@@ -143,6 +151,7 @@ int Vp9HeaderParser::ReadBit() {
     bit_offset_++;
     return bit;
   } else {
+    truncated_ = true;
     return 0;
   }
 }
diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index 9416ad2..e071a9e 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -32,6 +32,7 @@ class Vp9HeaderParser {
       : frame_(NULL),
         frame_size_(0),
         bit_offset_(0),
+        truncated_(false),
         profile_(-1),
         show_existing_frame_(0),
         key_(0),
@@ -80,7 +81,7 @@ class Vp9HeaderParser {
   // Set the compressed VP9 frame.
   bool SetFrame(const uint8_t* frame, size_t length);
 
-  // Returns the next bit of the frame.
+  // Returns the next bit of the frame, 0 past its end.
   int ReadBit();
 
   // Returns the next |bits| of the frame.
@@ -111,6 +112,8 @@ class Vp9HeaderParser {
   const uint8_t* frame_;
   size_t frame_size_;
   size_t bit_offset_;
+  // True if the header needs more bits than the frame has.
+  bool truncated_;
   int profile_;
   int show_existing_frame_;
   int key_;
-- 
2.43.0


From d7f108ba41d63567b9527f9cd43b5d67752bef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 67/84] fix: compute VP9 picture sizes with 64 bits

---
 common/vp9_level_stats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index 96a4bcc..b06bbe6 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -41,7 +41,7 @@ void Vp9LevelStats::AddFrame(const Vp9HeaderParser& parser, int64_t time_ns) {
 
   const int width = parser.width();
   const int height = parser.height();
-  const int64_t luma_picture_size = width * height;
+  const int64_t luma_picture_size = static_cast<int64_t>(width) * height;
   const int64_t luma_picture_breadth = (width > height) ? width : height;
   if (luma_picture_size > max_luma_picture_size_)
     max_luma_picture_size_ = luma_picture_size;
-- 
2.43.0


From e13f2d3f962246061e8b41b568bed6c13c0edfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 68/84] fix: report the smallest VP9 level whose limits all
 hold

---
 common/vp9_level_stats.cc | 104 +++++++++-----------------------------
 1 file changed, 25 insertions(+), 79 deletions(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index b06bbe6..7e9beb1 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -134,90 +134,36 @@ Vp9Level Vp9LevelStats::GetLevel() const {
   const int min_altref_distance = GetMinimumAltrefDistance();
   const int max_ref_frames = GetMaxReferenceFrames();
 
-  int level_index = 0;
-  Vp9Level max_level = LEVEL_UNKNOWN;
   const double grace_multiplier =
       max_luma_sample_rate_grace_percent_ / 100.0 + 1.0;
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_luma_sample_rate <=
-        Vp9LevelTable[i].max_luma_sample_rate * grace_multiplier) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_luma_picture_size <= Vp9LevelTable[i].max_luma_picture_size) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_luma_picture_breadth <= Vp9LevelTable[i].max_luma_picture_breadth) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (average_bitrate <= Vp9LevelTable[i].average_bitrate) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    // Only check CPB size for levels that are defined.
-    if (Vp9LevelTable[i].max_cpb_size > 0 &&
-        max_cpb_size <= Vp9LevelTable[i].max_cpb_size) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_column_tiles <= Vp9LevelTable[i].max_tiles) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
 
+  // Return the first level that meets all of the requirements.
   for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_ref_frames <= Vp9LevelTable[i].max_ref_frames) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
+    const Vp9LevelRow& level = Vp9LevelTable[i];
+    if (max_luma_sample_rate > level.max_luma_sample_rate * grace_multiplier)
+      continue;
+    if (max_luma_picture_size > level.max_luma_picture_size)
+      continue;
+    if (max_luma_picture_breadth > level.max_luma_picture_breadth)
+      continue;
+    if (average_bitrate > level.average_bitrate)
+      continue;
+    // Only check CPB size for levels that are defined.
+    if (level.max_cpb_size > 0 && max_cpb_size > level.max_cpb_size)
+      continue;
+    if (max_column_tiles > level.max_tiles)
+      continue;
+    if (max_ref_frames > level.max_ref_frames)
+      continue;
+    // The distance is -1 if there are less than two altref frames.
+    if (min_altref_distance != -1 &&
+        min_altref_distance < level.min_altref_distance)
+      continue;
+    if (compression_ratio < level.compression_ratio)
+      continue;
+    return level.level;
   }
-
-  // Check if the current level meets the minimum altref distance requirement.
-  // If not, set to unknown level as we can't move up a level as the minimum
-  // altref distance get farther apart and we can't move down a level as we are
-  // already at the minimum level for all the other requirements.
-  if (min_altref_distance < Vp9LevelTable[level_index].min_altref_distance)
-    max_level = LEVEL_UNKNOWN;
-
-  // The minimum compression ratio has the same behavior as minimum altref
-  // distance.
-  if (compression_ratio < Vp9LevelTable[level_index].compression_ratio)
-    max_level = LEVEL_UNKNOWN;
-  return max_level;
+  return LEVEL_UNKNOWN;
 }
 
 int64_t Vp9LevelStats::GetMaxLumaSampleRate() const { return max_luma_size_; }
-- 
2.43.0


From 8adb467a0f71c8f6356d86e2751972db2cb65c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 69/84] fix: refuse a VP9 codec private with a second, invalid
 level

---
 common/hdr_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index 7381958..f98f7c0 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -179,6 +179,7 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
       const int levels[kNumLevels] = {10, 11, 20, 21, 30, 31, 40,
                                       41, 50, 51, 52, 60, 61, 62};
 
+      bool found = false;
       for (int i = 0; i < kNumLevels; ++i) {
         if (priv_level == levels[i]) {
           if (features->level != Vp9CodecFeatures::kValueNotPresent &&
@@ -186,10 +187,11 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
             return false;
           }
           features->level = priv_level;
+          found = true;
           break;
         }
       }
-      if (features->level == Vp9CodecFeatures::kValueNotPresent)
+      if (!found)
         return false;
     } else if (id_byte == kVp9BitDepthId) {
       const int priv_profile = static_cast<int>(private_data[offset++]);
-- 
2.43.0


From 7652be3287733a2482b00227e93be49f0cbd3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 70/84] fix: refuse a VP9 codec private whose last feature is
 cut short

---
 common/hdr_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index f98f7c0..064d7ff 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -218,6 +218,7 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
     }
   } while (offset + kVpxCodecPrivateMinLength <= length);
 
-  return true;
+  // A feature that is cut short is an error.
+  return offset == length;
 }
 }  // namespace libwebm
-- 
2.43.0


From 126adc22fb7468b5cbd4403d3c2e2ea7db7269a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:44 +0000
Subject: [PATCH 71/84] fix: accept superframes whose frames are shorter than
 their index

---
 common/libwebm_util.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/libwebm_util.cc b/common/libwebm_util.cc
index d158250..4177b45 100644
--- a/common/libwebm_util.cc
+++ b/common/libwebm_util.cc
@@ -54,8 +54,7 @@ bool ParseVP9SuperFrameIndex(const std::uint8_t* frame,
     // Consume the super frame index. Note: it's at the end of the super frame.
     const std::size_t length = frame_length - index_length;
 
-    if (length >= index_length &&
-        frame[frame_length - index_length] == marker) {
+    if (frame[frame_length - index_length] == marker) {
       // Found a valid superframe index.
       const std::uint8_t* byte = frame + length + 1;
 
-- 
2.43.0


From 15b41f7ae6358ef8c483921554a2591e4681eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:23 +0000
Subject: [PATCH 72/84] fix: convert WebVTT presentation times beyond 596 hours

The number of milliseconds in the seconds of the time was computed with
int, which overflows from 2147483 seconds on.
---
 webvtt/webvttparser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index d047be2..b45f58e 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -674,14 +674,14 @@ Time& Time::presentation(presentation_t d) {
     return *this;
   }
 
-  seconds = static_cast<int>(d / 1000);
-  milliseconds = static_cast<int>(d - 1000 * seconds);
+  milliseconds = static_cast<int>(d % 1000);
+  d /= 1000;
 
-  minutes = seconds / 60;
-  seconds -= 60 * minutes;
+  seconds = static_cast<int>(d % 60);
+  d /= 60;
 
-  hours = minutes / 60;
-  minutes -= 60 * hours;
+  minutes = static_cast<int>(d % 60);
+  hours = static_cast<int>(d / 60);
 
   return *this;
 }
-- 
2.43.0


From de1fbdb916a58e62c68a96c1e3807c57923e8346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:29 +0000
Subject: [PATCH 73/84] fix: report converted output that could not be written

The result of the final flush was ignored, so a conversion reported success when the last bytes could not be written.
---
 m2ts/vpxpes2ts.cc | 9 ++++++++-
 m2ts/webm2pes.cc  | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index bd8be99..d214a7b 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -139,7 +139,14 @@ bool VpxPes2Ts::ConvertToFile() {
     std::fprintf(stderr, "VpxPes2Ts: Out of memory.\n");
     return false;
   }
-  return pes_converter_->ConvertToPacketReceiver();
+  if (pes_converter_->ConvertToPacketReceiver() != true)
+    return false;
+
+  if (std::fflush(output_file_.get()) != 0) {
+    std::fprintf(stderr, "VpxPes2Ts: output file write failed.\n");
+    return false;
+  }
+  return true;
 }
 
 bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 50aebf7..0c4d1d0 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -284,7 +284,10 @@ bool Webm2Pes::ConvertToFile() {
     cluster = webm_parser_->GetNext(cluster);
   }
 
-  std::fflush(output_file_.get());
+  if (std::fflush(output_file_.get()) != 0) {
+    std::fprintf(stderr, "Webm2Pes: output file write failed.\n");
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 0e9f0679b3d80612591c8a2053a6962fbad44b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:59 +0000
Subject: [PATCH 74/84] fix: do not complete a PES frame with the data of the
 next one

When a continuation packet was lost or its length damaged, the parser took the
next frame's packet for it and returned a frame longer than its BCMV header
declares.
---
 m2ts/vpxpes_parser.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 165cc92..14579ab 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -293,6 +293,11 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
       return false;
     }
 
+    // A packet with a PTS is the first one of the next frame: the rest of this
+    // frame is missing.
+    if (header.opt_header.has_pts)
+      return false;
+
     const std::size_t fragment_length =
         header.packet_length - kPesOptionalHeaderSize;
     std::size_t consumed = 0;
@@ -303,7 +308,9 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
     }
     read_pos_ += consumed;
   }
-  return true;
+
+  // The packets must hold the frame and nothing else.
+  return payload_.size() == payload_length;
 }
 
 bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
-- 
2.43.0


From e320a24d5a25e334dd9c9521eaaec74f2290cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:47 +0000
Subject: [PATCH 75/84] fix: let a PES parser open another stream

The data of the stream opened before was kept, so every later Open() failed.
---
 m2ts/vpxpes_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 14579ab..218c2fb 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -41,6 +41,8 @@ bool VpxPesParser::Open(const std::string& pes_file) {
   pes_file_size_ = static_cast<size_t>(libwebm::GetFileSize(pes_file));
   if (pes_file_size_ <= 0)
     return false;
+  pes_file_data_.clear();
+  payload_.clear();
   pes_file_data_.reserve(static_cast<size_t>(pes_file_size_));
   libwebm::FilePtr file = libwebm::FilePtr(std::fopen(pes_file.c_str(), "rb"),
                                            libwebm::FILEDeleter());
-- 
2.43.0


From 3ce97453524669b2ddc0755f4c32013dde63c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:32 +0000
Subject: [PATCH 76/84] fix: extract WebVTT cues that stop when they start

The muxer writes a cue without duration as a SimpleBlock, which vttdemux
refused, so every later cue of the file was lost.
---
 vttdemux.cc | 52 ++++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/vttdemux.cc b/vttdemux.cc
index 186783b..cc37734 100644
--- a/vttdemux.cc
+++ b/vttdemux.cc
@@ -48,12 +48,12 @@ enum { kChaptersKey = 0 };
 class FrameParser : public libwebvtt::LineReader {
  public:
   //  Bind the FrameParser instance to a WebM block.
-  explicit FrameParser(const mkvparser::BlockGroup* block_group);
+  explicit FrameParser(const mkvparser::BlockEntry* block_entry);
   virtual ~FrameParser();
 
-  // The Webm block (group) to which this instance is bound.  We
+  // The Webm block (entry) to which this instance is bound.  We
   // treat the payload of the block as a stream of characters.
-  const mkvparser::BlockGroup* const block_group_;
+  const mkvparser::BlockEntry* const block_entry_;
 
  protected:
   // Read the next character from the character stream (the payload
@@ -189,10 +189,10 @@ bool ProcessCluster(const metadata_map_t& metadata_map,
 bool ProcessBlockEntry(const metadata_map_t& metadata_map,
                        const mkvparser::BlockEntry* block_entry);
 
-// Parse the lines of text from the |block_group| to reconstruct the
+// Parse the lines of text from the |block_entry| to reconstruct the
 // original WebVTT cue, and write it to the associated output |file|.
 // Returns false if there was an error writing to the output file.
-bool WriteCue(FILE* file, const mkvparser::BlockGroup* block_group);
+bool WriteCue(FILE* file, const mkvparser::BlockEntry* block_entry);
 
 // Consume a line of text from the character stream, and if the line
 // is not empty write the cue identifier to the associated output
@@ -219,9 +219,9 @@ bool WriteCuePayload(FILE* f, FrameParser* parser);
 
 namespace vttdemux {
 
-FrameParser::FrameParser(const mkvparser::BlockGroup* block_group)
-    : block_group_(block_group) {
-  const mkvparser::Block* const block = block_group->GetBlock();
+FrameParser::FrameParser(const mkvparser::BlockEntry* block_entry)
+    : block_entry_(block_entry) {
+  const mkvparser::Block* const block = block_entry->GetBlock();
   const mkvparser::Block::Frame& f = block->GetFrame(0);
 
   // The beginning and end of the character stream corresponds to the
@@ -237,7 +237,7 @@ int FrameParser::GetChar(char* c) {
   if (pos_ >= pos_end_)  // end-of-stream
     return 1;  // per the semantics of libwebvtt::Reader::GetChar
 
-  const mkvparser::Cluster* const cluster = block_group_->GetCluster();
+  const mkvparser::Cluster* const cluster = block_entry_->GetCluster();
   const mkvparser::Segment* const segment = cluster->m_pSegment;
   mkvparser::IMkvReader* const reader = segment->m_pReader;
 
@@ -781,22 +781,16 @@ bool vttdemux::ProcessBlockEntry(const metadata_map_t& m,
   if (i == m.end())  // not a metadata track
     return true;  // nothing else to do
 
-  if (block_entry->GetKind() != mkvparser::BlockEntry::kBlockGroup)
-    return false;  // weird
-
-  typedef mkvparser::BlockGroup BG;
-  const BG* const block_group = static_cast<const BG*>(block_entry);
-
   const MetadataInfo& info = i->second;
   FILE* const f = info.file;
 
-  return WriteCue(f, block_group);
+  return WriteCue(f, block_entry);
 }
 
-bool vttdemux::WriteCue(FILE* f, const mkvparser::BlockGroup* block_group) {
+bool vttdemux::WriteCue(FILE* f, const mkvparser::BlockEntry* block_entry) {
   // Bind a FrameParser object to the block, which allows us to
   // extract each line of text from the payload of the block.
-  FrameParser parser(block_group);
+  FrameParser parser(block_entry);
 
   // We start a new cue by writing a cue separator (an empty line)
   // into the stream.
@@ -844,9 +838,9 @@ bool vttdemux::WriteCueIdentifier(FILE* f, FrameParser* parser) {
 }
 
 bool vttdemux::WriteCueTimings(FILE* f, FrameParser* parser) {
-  const mkvparser::BlockGroup* const block_group = parser->block_group_;
-  const mkvparser::Cluster* const cluster = block_group->GetCluster();
-  const mkvparser::Block* const block = block_group->GetBlock();
+  const mkvparser::BlockEntry* const block_entry = parser->block_entry_;
+  const mkvparser::Cluster* const cluster = block_entry->GetCluster();
+  const mkvparser::Block* const block = block_entry->GetBlock();
 
   // A WebVTT Cue "timings" line comprises two parts: the start and
   // stop time for this cue, followed by the (optional) cue settings,
@@ -863,10 +857,20 @@ bool vttdemux::WriteCueTimings(FILE* f, FrameParser* parser) {
   if (fputs(" --> ", f) < 0)
     return false;
 
-  const mkvtime_t duration_timecode = block_group->GetDurationTimeCode();
+  // A cue that stops when it starts has no duration, and the muxer writes
+  // it as a SimpleBlock.
 
-  if (duration_timecode < 0)
-    return false;
+  mkvtime_t duration_timecode = 0;
+
+  if (block_entry->GetKind() == mkvparser::BlockEntry::kBlockGroup) {
+    typedef mkvparser::BlockGroup BG;
+    const BG* const block_group = static_cast<const BG*>(block_entry);
+
+    duration_timecode = block_group->GetDurationTimeCode();
+
+    if (duration_timecode < 0)
+      return false;
+  }
 
   const mkvparser::Segment* const segment = cluster->m_pSegment;
   const mkvparser::SegmentInfo* const info = segment->GetInfo();
-- 
2.43.0


From 4d8af5615e7e81d708891b29bf3748ae7c1189dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 77/84] fix: report WebVTT output that could not be written

The results of writing the file headers and of closing the files were
ignored, so vttdemux succeeded when its output was cut short.
---
 vttdemux.cc | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/vttdemux.cc b/vttdemux.cc
index cc37734..7a2afe0 100644
--- a/vttdemux.cc
+++ b/vttdemux.cc
@@ -164,8 +164,9 @@ void BuildMap(const mkvparser::Segment* segment, metadata_map_t* metadata_map);
 // Returns false if we were unable to open an output file for a track.
 bool OpenFiles(metadata_map_t* metadata_map, const char* filename);
 
-// Close the file handle for each track in the cache.
-void CloseFiles(metadata_map_t* metadata_map);
+// Close the file handle for each track in the cache.  Returns false
+// if some output could not be written.
+bool CloseFiles(metadata_map_t* metadata_map);
 
 // Iterate over the clusters of the input file, and write a WebVTT cue
 // for each metadata block.  Returns false if processing of a cluster
@@ -505,9 +506,9 @@ bool vttdemux::OpenFiles(metadata_map_t* metadata_map, const char* filename) {
   return true;
 }
 
-void vttdemux::CloseFiles(metadata_map_t* metadata_map) {
+bool vttdemux::CloseFiles(metadata_map_t* metadata_map) {
   if (metadata_map == NULL)
-    return;
+    return true;
 
   metadata_map_t& m = *metadata_map;
 
@@ -519,21 +520,31 @@ void vttdemux::CloseFiles(metadata_map_t* metadata_map) {
   // Gracefully close each output file, to ensure all output gets
   // propertly flushed.
 
+  bool success = true;
+
   while (i != j) {
     metadata_map_t::value_type& v = *i++;
     MetadataInfo& info = v.second;
 
     if (info.file != NULL) {
-      fclose(info.file);
+      if (ferror(info.file))
+        success = false;
+
+      if (fclose(info.file) != 0)
+        success = false;
+
       info.file = NULL;
     }
   }
+
+  return success;
 }
 
 bool vttdemux::WriteFiles(const metadata_map_t& m, mkvparser::Segment* s) {
   // First write the WebVTT header.
 
-  InitializeFiles(m);
+  if (!InitializeFiles(m))
+    return false;
 
   if (!WriteChaptersFile(m, s))
     return false;
@@ -1002,7 +1013,10 @@ int main(int argc, const char* argv[]) {
     return EXIT_FAILURE;
   }
 
-  CloseFiles(&metadata_map);
+  if (!CloseFiles(&metadata_map)) {
+    printf("unable to write output file\n");
+    return EXIT_FAILURE;
+  }
 
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From fd96f894122923d55810e12662eef97114017da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:12 +0000
Subject: [PATCH 78/84] fix: extract WebVTT cues that are shorter than a tick

A cue whose duration is less than the timecode scale of the file is stored in
a block group without a duration; vttdemux gave up on it and the rest of the file.
---
 vttdemux.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vttdemux.cc b/vttdemux.cc
index 7a2afe0..16318f1 100644
--- a/vttdemux.cc
+++ b/vttdemux.cc
@@ -879,8 +879,9 @@ bool vttdemux::WriteCueTimings(FILE* f, FrameParser* parser) {
 
     duration_timecode = block_group->GetDurationTimeCode();
 
+    // A duration of less than one tick of the file is not stored.
     if (duration_timecode < 0)
-      return false;
+      duration_timecode = 0;
   }
 
   const mkvparser::Segment* const segment = cluster->m_pSegment;
-- 
2.43.0


From fc1792e385545169d1fca451f35d45fc6bd15f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:48 +0000
Subject: [PATCH 79/84] fix: webm_info: do not print VP9 features the codec
 private data lacks

The value of a feature that is not present is kValueNotPresent, not -1.
---
 webm_info.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index e0ac153..a91b31e 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -387,16 +387,20 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
             fprintf(stderr, "Error parsing VpxCodecPrivate.\n");
             return false;
           }
-          if (features.profile != -1)
+          if (features.profile !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 profile            : %d\n",
                     indent->indent_str().c_str(), features.profile);
-          if (features.level != -1)
+          if (features.level !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 level              : %d\n",
                     indent->indent_str().c_str(), features.level);
-          if (features.bit_depth != -1)
+          if (features.bit_depth !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 bit_depth          : %d\n",
                     indent->indent_str().c_str(), features.bit_depth);
-          if (features.chroma_subsampling != -1)
+          if (features.chroma_subsampling !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 chroma subsampling : %d\n",
                     indent->indent_str().c_str(), features.chroma_subsampling);
         }
-- 
2.43.0


From 5dbfaec32bac40cdae142730a48b3568e5d9dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:48 +0000
Subject: [PATCH 80/84] fix: webm_info: print every digit of signatures and
 signature key ids

---
 webm_info.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index a91b31e..aeda263 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -452,7 +452,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
           fprintf(o, "%sContentSignature     : 0x",
                   indent->indent_str().c_str());
           for (int k = 0; k < encryption->signature_len; ++k) {
-            fprintf(o, "%x", encryption->signature[k]);
+            fprintf(o, "%02x", encryption->signature[k]);
           }
           fprintf(o, "\n");
         }
@@ -461,7 +461,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
           fprintf(o, "%sContentSigKeyID      : 0x",
                   indent->indent_str().c_str());
           for (int k = 0; k < encryption->sig_key_id_len; ++k) {
-            fprintf(o, "%x", encryption->sig_key_id[k]);
+            fprintf(o, "%02x", encryption->sig_key_id[k]);
           }
           fprintf(o, "\n");
         }
-- 
2.43.0


From 836258e4ee96c3165d8c43050ab9b7382ed5945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:48 +0000
Subject: [PATCH 81/84] fix: webm_info: let -all enable the output of the
 SeekHead

---
 webm_info.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/webm_info.cc b/webm_info.cc
index aeda263..630adfa 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -93,6 +93,7 @@ void Options::SetAll(bool value) {
   output_ebml_header = value;
   output_seconds = value;
   output_segment = value;
+  output_seekhead = value;
   output_segment_info = value;
   output_tracks = value;
   output_clusters = value;
-- 
2.43.0


From 93799e8a46d821bc2e74fc92971dfdf1ea3ea00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:34 +0000
Subject: [PATCH 82/84] fix: webm_info: accept the signature of VP9 profile 3
 key frames

---
 webm_info.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/webm_info.cc b/webm_info.cc
index 630adfa..705cd25 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -734,7 +734,9 @@ void PrintVP9Info(const uint8_t* data, int size, FILE* o, int64_t time_ns,
     const int column_tiles = parser->column_tiles();
     const int frame_parallel_mode = parser->frame_parallel_mode();
 
-    if (key &&
+    // The signature follows a one byte header, but for the reserved bit of
+    // profile 3, where the parser has checked it.
+    if (key && version < 3 &&
         !(size >= 4 && data[1] == 0x49 && data[2] == 0x83 && data[3] == 0x42)) {
       fprintf(o, " invalid VP9 signature");
       return;
-- 
2.43.0


From ce52564703772e2c5ae76251cf329e7577eef956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:34 +0000
Subject: [PATCH 83/84] fix: webm_info: do not print the IV of a frame too
 short to hold one

---
 webm_info.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index 705cd25..fce90a2 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -978,8 +978,9 @@ bool OutputCluster(const mkvparser::Cluster& cluster,
             fprintf(o, " enc: %d", encrypted_frame ? 1 : 0);
             fprintf(o, " sub: %d", sub_sample_encrypt ? 1 : 0);
 
-            if (encrypted_frame) {
-              uint64_t iv;
+            uint64_t iv;
+            const int iv_end = kSignalByteSize + static_cast<int>(sizeof(iv));
+            if (encrypted_frame && frame.len >= iv_end) {
               memcpy(&iv, data + kSignalByteSize, sizeof(iv));
               fprintf(o, " iv: %" PRIx64, iv);
             }
-- 
2.43.0


From c2c4f31779e16f9d7e89b244d390829eecd0b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 84/84] fix: convert 32 bit values between host and big endian
 byte order

The masks of the two middle bytes were exchanged.
---
 common/webm_endian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/webm_endian.cc b/common/webm_endian.cc
index b1ef7ca..6cf6afd 100644
--- a/common/webm_endian.cc
+++ b/common/webm_endian.cc
@@ -31,8 +31,8 @@ uint32_t swap32_check_little_endian(uint32_t value) {
   if (check.c[0] != 0x67)
     return 0;
 
-  return value << 24 | ((value << 8) & 0x0000FF00U) |
-         ((value >> 8) & 0x00FF0000U) | value >> 24;
+  return value << 24 | ((value << 8) & 0x00FF0000U) |
+         ((value >> 8) & 0x0000FF00U) | value >> 24;
 }
 
 // Swaps unsigned 64 bit values to big endian if needed. Returns |value|
-- 
2.43.0

