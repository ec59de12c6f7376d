// Drives webm::WebmParser over a document with scripted interruptions, skips and seeks and
// records every callback and every return of Feed.
#include "h.h"
#include "webm/callback.h"
#include "webm/reader.h"
#include "webm/status.h"
#include "webm/webm_parser.h"
#include <new>
#include <stdexcept>
using namespace webm;

static const long long kCap = 1073741824;
static long long Cap(uint64_t v) { return v >= (uint64_t)kCap - 65536 ? kCap : (long long)v; }

static void U64(J& j, uint64_t v) {  // without leading zeros
  std::string s;
  for (int i = 7; i >= 0; --i) { unsigned char c = v >> (8 * i); if (c || !s.empty()) s.push_back((char)c); }
  j.bytes(s);
}
static void B8(J& j, uint64_t v) {
  std::string s;
  for (int i = 7; i >= 0; --i) s.push_back((char)(v >> (8 * i)));
  j.bytes(s);
}
static void V(J& j, uint64_t v) { U64(j, v); }
static void V(J& j, int64_t v) { B8(j, (uint64_t)v); }
static void V(J& j, double v) { uint64_t b; memcpy(&b, &v, 8); B8(j, b); }
static void V(J& j, bool v) { j.boolean(v); }
static void V(J& j, const std::string& v) { j.bytes(v); }
static void V(J& j, const std::vector<uint8_t>& v) { j.bytes(std::string(v.begin(), v.end())); }
template <typename T> static typename std::enable_if<std::is_enum<T>::value>::type V(J& j, T v) { U64(j, (uint64_t)v); }

template <typename T> static void F(J& j, const char* n, const Element<T>& e);
template <typename T> static void F(J& j, const char* n, const std::vector<Element<T>>& e);

static void V(J& j, const Block& b) {
  j.obj().kn("track", Cap(b.track_number)).kn("frames", b.num_frames).kn("tc", b.timecode).kn("lacing", (int)b.lacing);
  j.key("visible").boolean(b.is_visible); j.end();
}
static void V(J& j, const SimpleBlock& b) {
  j.obj().kn("track", Cap(b.track_number)).kn("frames", b.num_frames).kn("tc", b.timecode).kn("lacing", (int)b.lacing);
  j.key("visible").boolean(b.is_visible); j.key("key").boolean(b.is_key_frame);
  j.key("discardable").boolean(b.is_discardable); j.end();
}
static void V(J& j, const VirtualBlock& b) { j.obj().kn("track", Cap(b.track_number)).kn("tc", b.timecode).end(); }
#define S(T, ...) static void V(J& j, const T& x) { j.obj(); __VA_ARGS__; j.end(); }
#define f(n) F(j, #n, x.n)
static void V(J& j, const BlockMore& x);
static void V(J& j, const TimeSlice& x);
static void V(J& j, const BlockAdditions& x);
static void V(J& j, const Slices& x);
static void V(J& j, const BlockGroup& x);
static void V(J& j, const MasteringMetadata& x);
static void V(J& j, const Colour& x);
static void V(J& j, const Projection& x);
static void V(J& j, const Video& x);
static void V(J& j, const Audio& x);
static void V(J& j, const ContentEncAesSettings& x);
static void V(J& j, const ContentEncryption& x);
static void V(J& j, const ContentEncoding& x);
static void V(J& j, const ContentEncodings& x);
static void V(J& j, const CueTrackPositions& x);
static void V(J& j, const ChapterDisplay& x);
static void V(J& j, const ChapterAtom& x);
static void V(J& j, const SimpleTag& x);
static void V(J& j, const Targets& x);
template <typename T> static void F(J& j, const char* n, const Element<T>& e) {
  j.key(n).arr().boolean(e.is_present()); V(j, e.value()); j.end();
}
template <typename T> static void F(J& j, const char* n, const std::vector<Element<T>>& v) {
  j.key(n).arr();
  for (auto& e : v) { j.arr().boolean(e.is_present()); V(j, e.value()); j.end(); }
  j.end();
}
S(BlockMore, f(id), f(data))
S(BlockAdditions, f(block_mores))
S(TimeSlice, f(lace_number))
S(Slices, f(slices))
S(BlockGroup, f(block), f(virtual_block), f(additions), f(duration), f(references), f(discard_padding), f(slices))
S(Cluster, f(timecode), f(previous_size), f(simple_blocks), f(block_groups))
S(Ebml, f(ebml_version), f(ebml_read_version), f(ebml_max_id_length), f(ebml_max_size_length), f(doc_type), f(doc_type_version), f(doc_type_read_version))
S(Info, f(timecode_scale), f(duration), f(date_utc), f(title), f(muxing_app), f(writing_app))
S(Seek, f(id), f(position))
S(Audio, f(sampling_frequency), f(output_frequency), f(channels), f(bit_depth))
S(MasteringMetadata, f(primary_r_chromaticity_x), f(primary_r_chromaticity_y), f(primary_g_chromaticity_x), f(primary_g_chromaticity_y), f(primary_b_chromaticity_x), f(primary_b_chromaticity_y), f(white_point_chromaticity_x), f(white_point_chromaticity_y), f(luminance_max), f(luminance_min))
S(Colour, f(matrix_coefficients), f(bits_per_channel), f(chroma_subsampling_x), f(chroma_subsampling_y), f(cb_subsampling_x), f(cb_subsampling_y), f(chroma_siting_x), f(chroma_siting_y), f(range), f(transfer_characteristics), f(primaries), f(max_cll), f(max_fall), f(mastering_metadata))
S(Projection, f(type), f(projection_private), f(pose_yaw), f(pose_pitch), f(pose_roll))
S(Video, f(interlaced), f(stereo_mode), f(alpha_mode), f(pixel_width), f(pixel_height), f(pixel_crop_bottom), f(pixel_crop_top), f(pixel_crop_left), f(pixel_crop_right), f(display_width), f(display_height), f(display_unit), f(aspect_ratio_type), f(frame_rate), f(colour), f(projection))
S(ContentEncAesSettings, f(aes_settings_cipher_mode))
S(ContentEncryption, f(algorithm), f(key_id), f(aes_settings))
S(ContentEncoding, f(order), f(scope), f(type), f(encryption))
S(ContentEncodings, f(encodings))
S(TrackEntry, f(track_number), f(track_uid), f(track_type), f(is_enabled), f(is_default), f(is_forced), f(uses_lacing), f(default_duration), f(name), f(language), f(codec_id), f(codec_private), f(codec_name), f(codec_delay), f(seek_pre_roll), f(video), f(audio), f(content_encodings))
S(CueTrackPositions, f(track), f(cluster_position), f(relative_position), f(duration), f(block_number))
S(CuePoint, f(time), f(cue_track_positions))
S(ChapterDisplay, f(string), f(languages), f(countries))
S(ChapterAtom, f(uid), f(string_uid), f(time_start), f(time_end), f(displays), f(atoms))
S(EditionEntry, f(atoms))
S(SimpleTag, f(name), f(language), f(is_default), f(string), f(binary), f(tags))
S(Targets, f(type_value), f(type), f(track_uids))
S(Tag, f(targets), f(tags))
#undef f
#undef S

static J* out;
static long events;
static const long kMaxEvents = 4000;

struct Rd : Reader {
  std::string d;
  uint64_t pos = 0;
  std::vector<long> sched;  // bytes granted per call, 0 = would block once
  size_t i = 0;
  long blk = 0;
  bool user = false;  // the callback itself is reading
  Status Get(uint64_t n, uint8_t* b, uint64_t* got) {
    *got = 0;
    if (n == 0) {
      out->obj().ks("c", "bad").ks("what", b ? "zero length read" : "zero length skip").end();
      return Status(Status::kOkCompleted);
    }
    uint64_t lim = n;
    if (!sched.empty()) {
      long g = sched[i++ % sched.size()];
      if (g == 0) { ++blk; return Status(Status::kWouldBlock); }
      if ((uint64_t)g < lim) lim = g;
    }
    if (pos >= d.size()) return Status(Status::kEndOfFile);
    uint64_t a = d.size() - pos;
    if (a < lim) lim = a;
    if (b) memcpy(b, d.data() + pos, lim);
    pos += lim;
    *got = lim;
    return Status(lim == n ? Status::kOkCompleted : Status::kOkPartial);
  }
  Status Read(std::size_t n, std::uint8_t* b, std::uint64_t* got) override { return Get(n, b, got); }
  Status Skip(std::uint64_t n, std::uint64_t* got) override { return Get(n, nullptr, got); }
  std::uint64_t Position() const override { return pos; }
};

struct Cb : Callback {
  long n = 0;                               // callback counter
  std::map<long, int> skip;                 // answer skip
  std::map<long, int> ret;                  // answer with this status
  std::map<long, long> part;                // consume only that many bytes
  std::map<long, int> keep;                 // leave *action untouched
  void Begin(const char* c, const ElementMetadata& m) {
    out->obj().ks("c", c).key("m").arr();
    out->num((long long)(uint32_t)m.id);
    out->num(m.header_size == (uint32_t)kUnknownHeaderSize ? -1 : (long long)m.header_size);
    out->num(m.size == kUnknownElementSize ? -1 : Cap(m.size));
    out->num(m.position == kUnknownElementPosition ? -1 : Cap(m.position));
    out->end();
    if (++events > kMaxEvents) throw std::runtime_error("too many events");
  }
  Status End(Action* action) {
    int a = skip.count(n) ? 1 : 0;
    int r = ret.count(n) ? ret[n] : 0;
    if (action && !keep.count(n)) *action = a ? Action::kSkip : Action::kRead;
    if (keep.count(n)) a = 0;
    out->kn("a", action ? a : 0).kn("r", r).end();
    ++n;
    return Status(r);
  }
  Status Data(Reader* reader, uint64_t* rem) {
    out->kn("rem", Cap(*rem));
    uint64_t want = *rem;
    int r = ret.count(n) ? ret[n] : 0;
    bool cut = r != 0;
    if (part.count(n) && cut && (uint64_t)part[n] < want) want = part[n];
    if (cut && !part.count(n)) want = 0;
    std::string got;
    Status st(Status::kOkCompleted);
    while (want > 0) {
      uint8_t b[64];
      uint64_t g = 0;
      st = reader->Read(want < sizeof b ? (size_t)want : sizeof b, b, &g);
      got.append((char*)b, g);
      want -= g;
      *rem -= g;
      if (!st.ok()) break;
    }
    if (st.ok()) st = Status(cut ? r : 0);
    out->key("d").bytes(got).kn("rem1", Cap(*rem)).kn("a", 0).kn("r", st.code).end();
    ++n;
    return st;
  }
  template <typename T> void Val(const T& x) { out->key("v"); V(*out, x); }
  Status OnElementBegin(const ElementMetadata& m, Action* a) override { Begin("ElementBegin", m); return End(a); }
  Status OnUnknownElement(const ElementMetadata& m, Reader* r, std::uint64_t* b) override { Begin("UnknownElement", m); return Data(r, b); }
  Status OnVoid(const ElementMetadata& m, Reader* r, std::uint64_t* b) override { Begin("Void", m); return Data(r, b); }
  Status OnSegmentBegin(const ElementMetadata& m, Action* a) override { Begin("SegmentBegin", m); return End(a); }
  Status OnSegmentEnd(const ElementMetadata& m) override { Begin("SegmentEnd", m); return End(0); }
  Status OnBlockGroupBegin(const ElementMetadata& m, Action* a) override { Begin("BlockGroupBegin", m); return End(a); }
#define O(T) Status On##T(const ElementMetadata& m, const T& x) override { Begin(#T, m); Val(x); return End(0); }
  O(Ebml) O(Seek) O(Info) O(TrackEntry) O(CuePoint) O(EditionEntry) O(Tag)
  Status OnClusterBegin(const ElementMetadata& m, const Cluster& x, Action* a) override { Begin("ClusterBegin", m); Val(x); return End(a); }
  Status OnClusterEnd(const ElementMetadata& m, const Cluster& x) override { Begin("ClusterEnd", m); Val(x); return End(0); }
  Status OnSimpleBlockBegin(const ElementMetadata& m, const SimpleBlock& x, Action* a) override { Begin("SimpleBlockBegin", m); Val(x); return End(a); }
  Status OnSimpleBlockEnd(const ElementMetadata& m, const SimpleBlock& x) override { Begin("SimpleBlockEnd", m); Val(x); return End(0); }
  Status OnBlockBegin(const ElementMetadata& m, const Block& x, Action* a) override { Begin("BlockBegin", m); Val(x); return End(a); }
  Status OnBlockEnd(const ElementMetadata& m, const Block& x) override { Begin("BlockEnd", m); Val(x); return End(0); }
  Status OnBlockGroupEnd(const ElementMetadata& m, const BlockGroup& x) override { Begin("BlockGroupEnd", m); Val(x); return End(0); }
  Status OnFrame(const FrameMetadata& fm, Reader* r, std::uint64_t* b) override {
    Begin("Frame", fm.parent_element);
    out->key("fm").arr().num(Cap(fm.position)).num(Cap(fm.size)).end();
    return Data(r, b);
  }
};

int main() {
  std::vector<Line> sc;
  while (NextScript(&sc)) {
    J j;
    out = &j;
    events = 0;
    j.obj();
    Rd rd;
    Cb cb;
    std::unique_ptr<WebmParser> p(new WebmParser);
    j.key("ev").arr();
    auto feed = [&]() -> int {
      rd.blk = 0;
      int st;
      try {
        st = p->Feed(&cb, &rd).code;
      } catch (std::exception& e) {
        while (j.st.size() > 2) j.end();
        st = 99999;
      }
      j.obj().ks("c", "ret").kn("st", st).kn("blk", rd.blk).kn("pos", Cap(rd.pos)).end();
      return st;
    };
    for (auto& l : sc) {
      if (l[0] == "doc") rd.d = UnHex(l[1]);
      else if (l[0] == "at") { rd.pos = l.u(1); p->DidSeek(); }
      else if (l[0] == "sched") { rd.sched.clear(); for (size_t i = 1; i < l.size(); ++i) rd.sched.push_back(l.i(i)); }
      else if (l[0] == "skip") for (size_t i = 1; i < l.size(); ++i) cb.skip[l.i(i)] = 1;
      else if (l[0] == "keep") for (size_t i = 1; i < l.size(); ++i) cb.keep[l.i(i)] = 1;
      else if (l[0] == "ret") for (size_t i = 1; i + 1 < l.size(); i += 2) cb.ret[l.i(i)] = l.i(i + 1);
      else if (l[0] == "part") for (size_t i = 1; i + 1 < l.size(); i += 2) cb.part[l.i(i)] = l.i(i + 1);
      else if (l[0] == "feed") feed();
      else if (l[0] == "seek") {
        rd.pos = l.u(1);
        p->DidSeek();
        j.obj().ks("c", "seek").kn("p", l.i(1)).end();
      } else if (l[0] == "swap") {  // continue with another parser object
        std::unique_ptr<WebmParser> q(new WebmParser);
        swap(*p, *q);
        p.swap(q);
      } else if (l[0] == "run") {
        int idle = 0;
        long last = -1;
        for (int i = 0; i < 3000; ++i) {
          int st = feed();
          bool final = st == 0 || st == Status::kEndOfFile || Status(st).is_parsing_error() || st == 99999;
          if (final) { feed(); break; }
        }
      }
    }
    j.end();
    j.end();
    Emit(j);
  }
}
