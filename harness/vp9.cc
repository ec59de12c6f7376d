// VP9 header parser and level statistics.  Script lines:
//   new                        a fresh parser and fresh statistics
//   hdr <hex>                  parse one frame header (exact-size heap copy)
//   frame <hex> <size> <ns>    parse the header of a frame of <size> bytes and add it
//   set <dur_ns|-1> <est> <grace tenths of percent>
//   get                        report every statistic
#include <math.h>
#include <memory>
#include "h.h"
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
using namespace vp9_parser;

static void Real(J& j, const char* k, double d) {
  char b[64];
  if (!std::isfinite(d)) { j.ks(k, "nan"); return; }
  snprintf(b, sizeof(b), "%a", d);
  j.ks(k, b);
}
static void Fields(J& j, const char* k, const Vp9HeaderParser& p) {
  j.key(k).obj().kn("size", p.frame_size()).kn("prof", p.profile()).kn("key", p.key()).kn("alt", p.altref()).kn("er", p.error_resilient_mode())
      .kn("depth", p.bit_depth()).kn("cs", p.color_space()).kn("w", p.width()).kn("h", p.height()).kn("dw", p.display_width())
      .kn("dh", p.display_height()).kn("refresh", p.refresh_frame_flags()).kn("rows", p.row_tiles()).kn("cols", p.column_tiles())
      .kn("fpm", p.frame_parallel_mode()).end();
}
int main() {
  std::vector<Line> s;
  std::vector<uint8_t> big;
  while (NextScript(&s)) {
    J j; j.obj(); j.key("ev").arr();
    std::unique_ptr<Vp9HeaderParser> p(new Vp9HeaderParser);
    std::unique_ptr<Vp9LevelStats> st(new Vp9LevelStats);
    for (const Line& l : s) {
      const std::string op = l[0];
      if (op == "new") {
        p.reset(new Vp9HeaderParser); st.reset(new Vp9LevelStats);
        j.obj().ks("op", "new").end();
      } else if (op == "hdr") {
        std::string b = UnHex(l[1]);
        uint8_t* c = (uint8_t*)malloc(b.size() ? b.size() : 1);
        memcpy(c, b.data(), b.size());
        bool ok = p->ParseUncompressedHeader(c, b.size());
        free(c);
        j.obj().ks("op", "hdr").ks("b", l[1]).kn("ok", ok);
        Fields(j, "g", *p);
        j.end();
      } else if (op == "frame") {
        std::string b = UnHex(l[1]);
        size_t n = std::max<size_t>(l.u(2), b.size());
        if (big.size() < n) big.resize(n);
        memset(big.data(), 0, std::min<size_t>(n, 4096));
        memcpy(big.data(), b.data(), b.size());
        bool ok = p->ParseUncompressedHeader(big.data(), n);
        j.obj().ks("op", "frame").kn("ok", ok).kn("sz", n).ks("t", l[2].empty() ? "0" : l[3]);
        Fields(j, "f", *p);
        j.end();
        if (ok) st->AddFrame(*p, l.i(3));
      } else if (op == "set") {
        if (l.i(1) >= 0) st->set_duration(l.i(1));
        st->set_estimate_last_frame_duration(l.i(2));
        st->set_max_luma_sample_rate_grace_percent(l.i(3) / 10.0);
        j.obj().ks("op", "set").ks("dur", l[1]).kn("est", l.i(2)).kn("grace", l.i(3)).end();
      } else if (op == "get") {
        j.obj().ks("op", "get").key("s").obj().ks("rate", std::to_string(st->GetMaxLumaSampleRate())).ks("size", std::to_string(st->GetMaxLumaPictureSize()))
            .kn("breadth", st->GetMaxLumaPictureBreadth());
        Real(j, "kbps", st->GetAverageBitRate()); Real(j, "peak", st->GetMaxCpbSize()); Real(j, "ratio", st->GetCompressionRatio());
        j.kn("cols", st->GetMaxColumnTiles()).kn("alt", st->GetMinimumAltrefDistance()).kn("refs", st->GetMaxReferenceFrames()).kn("level", st->GetLevel());
        j.end().end();
      }
    }
    j.end(); j.end();
    Emit(j);
  }
}
