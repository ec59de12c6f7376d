// Executes muxer sessions given as scripts of public API calls and reports every return
// value together with the bytes produced.
#include <unistd.h>
#include <memory>
#include "h.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxertypes.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvparser.h"
using namespace mkvmuxer;

// In-memory writer; can be non-seekable and can be told to fail its k-th operation.
struct W : IMkvWriter {
  std::string b;
  int64_t pos = 0;
  bool seekable = true;
  long long failop = -1, ops = 0;
  char mode = 'n';  // n none, t transient, p persistent, + transient with a positive status
  bool failed = false;
  bool moved = false;  // repositioned although not seekable
  bool Fail() {
    long long k = ops++;
    if (mode == 'n') return false;
    bool f = mode == 'p' ? k >= failop : k == failop;
    if (f) failed = true;
    return f;
  }
  int32 Status() const { return mode == '+' ? 1 : -1; }
  int32 Write(const void* p, uint32 n) override {
    if (Fail()) return Status();
    if (pos + (int64_t)n > (int64_t)b.size()) b.resize(pos + n);
    memcpy(&b[0] + pos, p, n);
    pos += n;
    return 0;
  }
  int64 Position() const override { return pos; }
  int32 Position(int64 p) override {
    if (Fail()) return Status();
    if (!seekable) { moved = true; return -1; }
    pos = p;
    return 0;
  }
  bool Seekable() const override { return seekable; }
  void ElementStartNotify(uint64, int64) override {}
};

struct R : mkvparser::IMkvReader {
  const std::string* b;
  int Read(long long p, long n, unsigned char* o) override {
    if (p < 0 || n < 0 || p + n > (long long)b->size()) return -1;
    memcpy(o, b->data() + p, n);
    return 0;
  }
  int Length(long long* t, long long* a) override {
    if (t) *t = b->size();
    if (a) *a = b->size();
    return 0;
  }
};

static std::string ReadFile(const std::string& n, bool* ok) {
  std::string r;
  FILE* f = fopen(n.c_str(), "rb");
  *ok = f != 0;
  if (!f) return r;
  char buf[65536];
  size_t k;
  while ((k = fread(buf, 1, sizeof buf, f)) > 0) r.append(buf, k);
  fclose(f);
  return r;
}

int main(int argc, char** argv) {
  std::string dir = argc > 1 ? argv[1] : "/nonexistent";
  std::vector<Line> sc;
  while (NextScript(&sc)) {
    W w, w2;
    std::unique_ptr<Segment> seg(new Segment);
    bool inited = false, chunk = false, copied = false;
    std::string base;
    std::vector<long long> rets;
    std::vector<int> fails;
    uint64_t uid = 1;  // UIDs are random: fix them so that sessions can be compared
    for (const Line& l : sc) {
      const std::string& c = l[0];
      long long r = 1;
      if (c == "W") {
        w.seekable = l.i(1) != 0;
        w.failop = l.i(2);
        w.mode = l.size() > 3 ? l[3][0] : 'n';
        continue;
      }
      if (!inited) { inited = true; if (!seg->Init(&w)) r = 0; }
      SegmentInfo* info = seg->GetSegmentInfo();
      if (c == "MODE") seg->set_mode(l[1] == "live" ? Segment::kLive : Segment::kFile);
      else if (c == "CUES") seg->OutputCues(l.i(1) != 0);
      else if (c == "MAXDUR") seg->set_max_cluster_duration(l.u(1));
      else if (c == "MAXSIZE") seg->set_max_cluster_size(l.u(1));
      else if (c == "ACC") seg->AccurateClusterDuration(l.i(1) != 0);
      else if (c == "FIX") seg->UseFixedSizeClusterTimecode(l.i(1) != 0);
      else if (c == "EST") seg->set_estimate_file_duration(l.i(1) != 0);
      else if (c == "SCALE") info->set_timecode_scale(l.u(1));
      else if (c == "DUR") seg->set_duration(l.d(1));
      else if (c == "DATE") info->set_date_utc(l.i(1));
      else if (c == "MAPP") info->set_muxing_app(UnHex(l[1]).c_str());
      else if (c == "WAPP") info->set_writing_app(UnHex(l[1]).c_str());
      else if (c == "CBN") seg->GetCues()->set_output_block_number(l.i(1) != 0);
      else if (c == "VT" || c == "AT") {
        r = (long long)(c == "VT" ? seg->AddVideoTrack(l.i(1), l.i(2), l.i(3))
                                  : seg->AddAudioTrack(l.i(1), l.i(2), l.i(3)));
        Track* t = r ? seg->GetTrackByNumber(r) : 0;
        if (t) t->set_uid(uid++);
      }
      else if (c == "GT") {
        Track* t = seg->AddTrack(l.i(1));
        r = t ? (long long)t->number() : 0;
        if (t) { t->set_uid(uid++); t->set_type(l.u(2)); t->set_codec_id(l[3].c_str()); }
      } else if (c == "CODEC") {
        Track* t = seg->GetTrackByNumber(l.u(1));
        r = t != 0;
        if (t) t->set_codec_id(l[2].c_str());
      } else if (c == "DELAY") {
        Track* t = seg->GetTrackByNumber(l.u(1));
        r = t != 0;
        if (t) { t->set_codec_delay(l.u(2)); t->set_seek_pre_roll(l.u(3)); }
      } else if (c == "CT") r = seg->CuesTrack(l.u(1));
      else if (c == "CHAP") {
        Chapter* ch = seg->AddChapter();
        r = ch != 0;
        if (ch) {
          ch->set_time(*seg, l.u(1), l.u(2));
          ch->set_uid(1000 + uid++);
          if (l.size() > 4) ch->set_id(l[4].c_str());
          ch->add_string(l[3].c_str(), "eng", "us");
        }
      } else if (c == "TAG") {
        Tag* t = seg->AddTag();
        r = t != 0 && t->add_simple_tag(l[1].c_str(), l[2].c_str());
      } else if (c == "FC") seg->ForceNewClusterOnNextFrame();
      else if (c == "CP") r = seg->AddCuePoint(l.u(1), l.u(2));
      else if (c == "CHUNK") {
        base = dir + "/" + l[1];
        r = seg->SetChunking(true, base.c_str());
        chunk = chunk || r;
      } else if (c == "F") {
        // F api trk ts key len seed dur dp addlen addid addseed ref
        const char api = l[1][0];
        const uint64_t trk = l.u(2), ts = l.u(3), len = l.u(5);
        const bool key = l.i(4) != 0;
        std::string pl = Payload(l.u(6), len);
        const uint8_t* d = (const uint8_t*)pl.data();
        std::string ad = Payload(l.u(11), l.u(9));
        if (api == 'f') r = seg->AddFrame(d, len, trk, ts, key);
        else if (api == 'n') r = seg->AddFrame(0, len, trk, ts, key);
        else if (api == 'N') r = seg->AddGenericFrame(0);
        else if (api == 'm') r = seg->AddMetadata(d, len, trk, ts, l.u(7));
        else if (api == 'd') r = seg->AddFrameWithDiscardPadding(d, len, l.i(8), trk, ts, key);
        else if (api == 'a')
          r = seg->AddFrameWithAdditional(d, len, (const uint8_t*)ad.data(), ad.size(), l.u(10), trk, ts, key);
        else {
          Frame f;
          bool ok = true;
          if (api != 'e') ok = f.Init(d, len);
          if (l.u(9) || api == 'z') ok = ok && f.AddAdditionalData((const uint8_t*)ad.data(), ad.size(), l.u(10));
          f.set_track_number(trk);
          f.set_timestamp(ts);
          f.set_is_key(key);
          if (l[7] != "-" && !l[7].empty()) f.set_duration(l.u(7));
          if (l.i(8)) f.set_discard_padding(l.i(8));
          if (l[12] != "-" && !l[12].empty()) f.set_reference_block_timestamp(l.i(12));
          r = ok && seg->AddGenericFrame(&f);
        }
      } else if (c == "FIN") r = seg->Finalize();
      else if (c == "COPY") {
        w2.b.clear();
        w2.pos = 0;
        w2.ops = 0;
        w2.seekable = l.size() < 2 || l.i(1) != 0;
        w2.failop = l.size() > 2 ? l.i(2) : -1;
        w2.mode = l.size() > 3 ? l[3][0] : 'n';
        std::string snap = w.b;
        R rd;
        rd.b = &snap;
        r = seg->CopyAndMoveCuesBeforeClusters(&rd, &w2);
        copied = true;
      }
      rets.push_back(r);
      fails.push_back(w.failed || w2.failed);
    }
    seg.reset();
    J j;
    j.obj().key("r").arr();
    for (long long r : rets) j.num(r);
    j.end().key("f").arr();
    for (int f : fails) j.num(f);
    j.end().kn("ops", w.ops).kn("ops2", w2.ops).kn("moved", w.moved);
    if (chunk) {
      j.key("chunks").arr();
      bool ok;
      std::string h = ReadFile(base + ".hdr", &ok);
      j.str(ok ? Hex(h) : "none");
      unlink((base + ".hdr").c_str());
      for (int i = 0; i < 10000; ++i) {
        char nm[32];
        snprintf(nm, sizeof nm, "_%06d.chk", i);
        std::string s = ReadFile(base + nm, &ok);
        if (!ok) break;
        j.str(Hex(s));
        unlink((base + nm).c_str());
      }
      j.end();
      j.key("ccues").arr();
      for (int i = 0; i < 10000; ++i) {
        char nm[32];
        snprintf(nm, sizeof nm, "_%06d.cues", i);
        std::string s = ReadFile(base + nm, &ok);
        if (ok) { j.str(Hex(s)); unlink((base + nm).c_str()); }
        if (i > 200) break;
      }
      j.end();
    }
    j.ks("out", Hex(w.b));
    if (copied) j.ks("out2", Hex(w2.b));
    j.end();
    Emit(j);
  }
}
