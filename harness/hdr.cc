// Codec private features and colour metadata.  Script lines:
//   priv <hex>                       ParseVpxCodecPrivate on an exact-size heap copy
//   null                             null data / null features / zero length
//   colour f1..f13 lmax lmin r g b w CopyColour: integers or "none", floats as hex bits,
//                                    chromaticities "x,y" in hex bits; the file route too
//   mm lmax lmin r g b w             CopyMasteringMetadata
#include <memory>
#include "h.h"
#include "common/hdr_util.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvparser/mkvparser.h"
using namespace libwebm;

static float FB(const std::string& s) { uint32_t u = strtoul(s.c_str(), 0, 16); float f; memcpy(&f, &u, 4); return f; }
static std::string BF(float f) { uint32_t u; memcpy(&u, &f, 4); char b[16]; snprintf(b, 16, "%08x", u); return b; }
static mkvparser::PrimaryChromaticity* PC(const std::string& s) {
  if (s == "none") return 0;
  auto* p = new mkvparser::PrimaryChromaticity; size_t c = s.find(',');
  p->x = FB(s.substr(0, c)); p->y = FB(s.substr(c + 1));
  return p;
}
static void FillMM(mkvparser::MasteringMetadata* m, const Line& l, size_t k) {
  if (l[k] != "none") m->luminance_max = FB(l[k]);
  if (l[k + 1] != "none") m->luminance_min = FB(l[k + 1]);
  m->r = PC(l[k + 2]); m->g = PC(l[k + 3]); m->b = PC(l[k + 4]); m->white_point = PC(l[k + 5]);
}
static std::string SPC(const mkvmuxer::PrimaryChromaticity* p) { return p ? BF(p->x()) + "," + BF(p->y()) : "none"; }
static std::string SL(float f) { return f == mkvmuxer::MasteringMetadata::kValueNotPresent ? "none" : BF(f); }
static void ShowMM(J& j, const mkvmuxer::MasteringMetadata* m) {
  if (!m) { for (int i = 0; i < 6; ++i) j.str("none"); return; }
  j.str(SL(m->luminance_max())).str(SL(m->luminance_min())).str(SPC(m->r())).str(SPC(m->g())).str(SPC(m->b())).str(SPC(m->white_point()));
}
static std::string SU(uint64_t v) { return v == mkvmuxer::Colour::kValueNotPresent ? "none" : std::to_string(v); }
static void ShowColour(J& j, const mkvmuxer::Colour& c) {
  for (uint64_t v : {c.matrix_coefficients(), c.bits_per_channel(), c.chroma_subsampling_horz(), c.chroma_subsampling_vert(), c.cb_subsampling_horz(),
                     c.cb_subsampling_vert(), c.chroma_siting_horz(), c.chroma_siting_vert(), c.range(), c.transfer_characteristics(), c.primaries(),
                     c.max_cll(), c.max_fall()}) j.str(SU(v));
  j.str(c.mastering_metadata() ? "mm" : "none");
  ShowMM(j, c.mastering_metadata());
}
int main() {
  std::vector<Line> s;
  while (NextScript(&s)) {
    J j; j.obj().key("ev").arr();
    for (const Line& l : s) {
      if (l[0] == "priv") {
        std::string b = UnHex(l[1]);
        uint8_t* c = (uint8_t*)malloc(b.size() ? b.size() : 1); memcpy(c, b.data(), b.size());
        Vp9CodecFeatures f; f.profile = f.level = f.bit_depth = f.chroma_subsampling = 77;
        bool ok = ParseVpxCodecPrivate(c, (int32_t)b.size(), &f);
        free(c);
        j.obj().ks("op", "priv").key("b").bytes(b).kn("ok", ok).key("f").arr().num(f.profile).num(f.level).num(f.bit_depth).num(f.chroma_subsampling).end().end();
      } else if (l[0] == "null") {
        Vp9CodecFeatures f; const uint8_t d[3] = {1, 1, 1};
        bool ok = ParseVpxCodecPrivate(0, 3, &f) || ParseVpxCodecPrivate(d, 3, 0) || ParseVpxCodecPrivate(d, 0, &f) || ParseVpxCodecPrivate(d, -3, &f);
        j.obj().ks("op", "null").kn("ok", ok).end();
      } else if (l[0] == "colour") {
        mkvparser::Colour c;
        long long* f[] = {&c.matrix_coefficients, &c.bits_per_channel, &c.chroma_subsampling_horz, &c.chroma_subsampling_vert, &c.cb_subsampling_horz,
                          &c.cb_subsampling_vert, &c.chroma_siting_horz, &c.chroma_siting_vert, &c.range, &c.transfer_characteristics, &c.primaries,
                          &c.max_cll, &c.max_fall};
        for (int i = 0; i < 13; ++i) if (l[1 + i] != "none") *f[i] = l.i(1 + i);
        if (l[14] == "mm") { c.mastering_metadata = new mkvparser::MasteringMetadata; FillMM(c.mastering_metadata, l, 15); }
        mkvmuxer::Colour m;
        bool ok = CopyColour(c, &m);
        j.obj().ks("op", "colour").kn("ok", ok).key("want").arr();
        for (size_t i = 1; i <= 20; ++i) j.str(l[i]);
        j.end().key("got").arr(); ShowColour(j, m); j.end().end();
      } else if (l[0] == "mm") {
        mkvparser::MasteringMetadata p; FillMM(&p, l, 1);
        mkvmuxer::MasteringMetadata m;
        bool ok = CopyMasteringMetadata(p, &m);
        j.obj().ks("op", "mm").kn("ok", ok).key("want").arr();
        for (size_t i = 1; i <= 6; ++i) j.str(l[i]);
        j.end().key("got").arr(); ShowMM(j, &m); j.end().end();
      }
    }
    j.end().end(); Emit(j);
  }
}
