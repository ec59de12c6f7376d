// Sets metadata through the muxer API, finalizes, and reads it back through both parsers.
#include <math.h>
#include <memory>
#include "h.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxertypes.h"
#include "mkvparser/mkvparser.h"
#include "webm/buffer_reader.h"
#include "webm/callback.h"
#include "webm/webm_parser.h"

struct W : mkvmuxer::IMkvWriter {
  std::string b;
  int64_t pos = 0;
  mkvmuxer::int32 Write(const void* p, mkvmuxer::uint32 n) override {
    if (pos + (int64_t)n > (int64_t)b.size()) b.resize(pos + n);
    memcpy(&b[0] + pos, p, n);
    pos += n;
    return 0;
  }
  mkvmuxer::int64 Position() const override { return pos; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override { pos = p; return 0; }
  bool Seekable() const override { return true; }
  void ElementStartNotify(mkvmuxer::uint64, mkvmuxer::int64) override {}
};

struct R : mkvparser::IMkvReader {
  const std::string* b;
  int Read(long long p, long n, unsigned char* o) override {
    if (p < 0 || n < 0 || p + n > (long long)b->size()) return -1;
    memcpy(o, b->data() + p, n);
    return 0;
  }
  int Length(long long* t, long long* a) override {
    if (t) *t = b->size();
    if (a) *a = b->size();
    return 0;
  }
};

static std::string U(uint64_t v) { return std::to_string((unsigned long long)v); }
static std::string I(int64_t v) { return std::to_string((long long)v); }
// Real numbers travel as 1024ths.
static std::string F(double v) {
  double n = v * 1024.0;
  if (n == floor(n) && fabs(n) < 4e15) return I((int64_t)n);
  char b[40];
  snprintf(b, 40, "x%a", v);
  return b;
}
static std::string S(const char* p) { return p ? "s" + Hex(std::string(p)) : std::string("none"); }
static std::string S(const std::string& p) { return "s" + Hex(p); }
static double FromN(const std::string& s) { return strtod(s.c_str(), 0) / 1024.0; }

// ---------------------------------------------------------------- mkvparser dump
static const char* kCol[] = {"matrix", "bits", "csx", "csy", "cbx", "cby", "sitx", "sity", "range", "transfer", "primaries", "cll", "fall"};

static void DumpMkv(const std::string& b, J* j) {
  R r;
  r.b = &b;
  j->obj();
  mkvparser::EBMLHeader h;
  long long pos = 0;
  bool ok = h.Parse(&r, pos) == 0;
  mkvparser::Segment* sp = NULL;
  if (ok) ok = mkvparser::Segment::CreateInstance(&r, pos, sp) == 0;
  std::unique_ptr<mkvparser::Segment> seg(sp);
  if (ok) ok = seg->Load() >= 0;
  j->kn("ok", ok);
  j->key("info").obj();
  const mkvparser::SegmentInfo* in = ok ? seg->GetInfo() : NULL;
  if (in) {
    j->ks("scale", I(in->GetTimeCodeScale())).ks("mux", S(in->GetMuxingAppAsUTF8())).ks("wri", S(in->GetWritingAppAsUTF8()));
    j->ks("doctype", S(h.m_docType));
  }
  j->end();
  j->key("tracks").arr();
  const mkvparser::Tracks* ts = ok ? seg->GetTracks() : NULL;
  for (unsigned long i = 0; ts && i < ts->GetTracksCount(); ++i) {
    const mkvparser::Track* t = ts->GetTrackByIndex(i);
    j->obj();
    j->ks("number", I(t->GetNumber())).ks("uid", U(t->GetUid())).ks("type", I(t->GetType()));
    j->ks("codec_id", S(t->GetCodecId())).ks("language", S(t->GetLanguage())).ks("name", S(t->GetNameAsUTF8()));
    size_t n = 0;
    const unsigned char* p = t->GetCodecPrivate(n);
    j->ks("codec_private", p ? "s" + Hex(p, n) : "none");
    j->ks("codec_delay", U(t->GetCodecDelay())).ks("seek_pre_roll", U(t->GetSeekPreRoll()));
    j->ks("default_duration", U(t->GetDefaultDuration()));
    j->key("enc").arr();
    for (unsigned long k = 0; k < t->GetContentEncodingCount(); ++k) {
      const mkvparser::ContentEncoding* e = t->GetContentEncodingByIndex(k);
      j->obj().ks("order", U(e->encoding_order())).ks("scope", U(e->encoding_scope())).ks("type", U(e->encoding_type()));
      j->ks("nenc", U(e->GetEncryptionCount())).ks("ncomp", U(e->GetCompressionCount()));
      const mkvparser::ContentEncoding::ContentEncryption* c = e->GetEncryptionCount() ? e->GetEncryptionByIndex(0) : NULL;
      if (c) j->ks("algo", U(c->algo)).ks("key", "s" + Hex(c->key_id, c->key_id_len)).ks("cipher", U(c->aes_settings.cipher_mode));
      j->end();
    }
    j->end();
    if (t->GetType() == mkvparser::Track::kVideo) {
      const mkvparser::VideoTrack* v = static_cast<const mkvparser::VideoTrack*>(t);
      j->key("v").obj();
      j->ks("width", I(v->GetWidth())).ks("height", I(v->GetHeight())).ks("display_width", I(v->GetDisplayWidth()));
      j->ks("display_height", I(v->GetDisplayHeight())).ks("stereo", I(v->GetStereoMode())).ks("frame_rate", F(v->GetFrameRate()));
      j->ks("colour_space", S(v->GetColourSpace()));
      j->end();
      j->key("c").obj();
      if (const mkvparser::Colour* c = v->GetColour()) {
        long long f[13] = {c->matrix_coefficients, c->bits_per_channel, c->chroma_subsampling_horz, c->chroma_subsampling_vert,
                           c->cb_subsampling_horz, c->cb_subsampling_vert, c->chroma_siting_horz, c->chroma_siting_vert, c->range,
                           c->transfer_characteristics, c->primaries, c->max_cll, c->max_fall};
        for (int k = 0; k < 13; ++k) j->ks(kCol[k], f[k] == mkvparser::Colour::kValueNotPresent ? "none" : I(f[k]));
        if (const mkvparser::MasteringMetadata* m = c->mastering_metadata) {
          float np = mkvparser::MasteringMetadata::kValueNotPresent;
          j->ks("lmax", m->luminance_max == np ? "none" : F(m->luminance_max)).ks("lmin", m->luminance_min == np ? "none" : F(m->luminance_min));
          const mkvparser::PrimaryChromaticity* q[4] = {m->r, m->g, m->b, m->white_point};
          const char* qn[8] = {"rx", "ry", "gx", "gy", "bx", "by", "wx", "wy"};
          for (int k = 0; k < 4; ++k) {
            j->ks(qn[2 * k], q[k] ? F(q[k]->x) : "none");
            j->ks(qn[2 * k + 1], q[k] ? F(q[k]->y) : "none");
          }
        }
      }
      j->end();
      j->key("p").obj();
      if (const mkvparser::Projection* p = v->GetProjection()) {
        j->ks("type", I(p->type)).ks("yaw", F(p->pose_yaw)).ks("pitch", F(p->pose_pitch)).ks("roll", F(p->pose_roll));
        j->ks("priv", p->private_data ? "s" + Hex(p->private_data, p->private_data_length) : "none");
      }
      j->end();
    }
    if (t->GetType() == mkvparser::Track::kAudio) {
      const mkvparser::AudioTrack* a = static_cast<const mkvparser::AudioTrack*>(t);
      j->key("a").obj().ks("rate", F(a->GetSamplingRate())).ks("channels", I(a->GetChannels())).ks("bit_depth", I(a->GetBitDepth())).end();
    }
    j->end();
  }
  j->end();
  j->key("chapters").arr();
  const mkvparser::Chapters* ch = ok ? seg->GetChapters() : NULL;
  for (int e = 0; ch && e < ch->GetEditionCount(); ++e)
    for (int k = 0; k < ch->GetEdition(e)->GetAtomCount(); ++k) {
      const mkvparser::Chapters::Atom* a = ch->GetEdition(e)->GetAtom(k);
      long long sc = in ? in->GetTimeCodeScale() : 1;
      bool exact = a->GetStartTime(ch) == a->GetStartTimecode() * sc && a->GetStopTime(ch) == a->GetStopTimecode() * sc;
      j->obj().ks("ed", I(e)).ks("uid", U(a->GetUID())).ks("id", S(a->GetStringUID())).ks("start", I(a->GetStartTimecode())).ks("stop", I(a->GetStopTimecode()));
      j->ks("exact", I(exact));
      j->key("disp").arr();
      for (int d = 0; d < a->GetDisplayCount(); ++d)
        j->arr().str(S(a->GetDisplay(d)->GetString())).str(S(a->GetDisplay(d)->GetLanguage())).str(S(a->GetDisplay(d)->GetCountry())).end();
      j->end().end();
    }
  j->end();
  j->key("tags").arr();
  const mkvparser::Tags* tg = ok ? seg->GetTags() : NULL;
  for (int k = 0; tg && k < tg->GetTagCount(); ++k) {
    j->arr();
    for (int s = 0; s < tg->GetTag(k)->GetSimpleTagCount(); ++s)
      j->arr().str(S(tg->GetTag(k)->GetSimpleTag(s)->GetTagName())).str(S(tg->GetTag(k)->GetSimpleTag(s)->GetTagString())).end();
    j->end();
  }
  j->end().end();
}

// ---------------------------------------------------------------- webm_parser dump
template <class T> std::string EU(const webm::Element<T>& e) { return e.is_present() ? U((uint64_t)e.value()) : "none"; }
static std::string EF(const webm::Element<double>& e) { return e.is_present() ? F(e.value()) : "none"; }
static std::string ES(const webm::Element<std::string>& e) { return e.is_present() ? S(e.value()) : "none"; }
static std::string EB(const webm::Element<std::vector<uint8_t>>& e) { return e.is_present() ? "s" + Hex(e.value().data(), e.value().size()) : "none"; }

struct Cb : webm::Callback {
  J ebml, info, tracks, chapters, tags;
  int editions = 0;
  webm::Status Ok() { return webm::Status(webm::Status::kOkCompleted); }
  Cb() { tracks.arr(); chapters.arr(); tags.arr(); }
  std::string doctype;
  webm::Status OnEbml(const webm::ElementMetadata&, const webm::Ebml& e) override { doctype = ES(e.doc_type); return Ok(); }
  webm::Status OnInfo(const webm::ElementMetadata&, const webm::Info& i) override {
    info.obj().ks("scale", EU(i.timecode_scale)).ks("mux", ES(i.muxing_app)).ks("wri", ES(i.writing_app));
    info.ks("date", i.date_utc.is_present() ? I(i.date_utc.value()) : "none").ks("doctype", doctype).end();
    return Ok();
  }
  webm::Status OnTrackEntry(const webm::ElementMetadata&, const webm::TrackEntry& t) override {
    J* j = &tracks;
    j->obj();
    j->ks("number", EU(t.track_number)).ks("uid", EU(t.track_uid)).ks("type", EU(t.track_type));
    j->ks("codec_id", ES(t.codec_id)).ks("language", ES(t.language)).ks("name", ES(t.name));
    j->ks("codec_private", EB(t.codec_private));
    j->ks("codec_delay", EU(t.codec_delay)).ks("seek_pre_roll", EU(t.seek_pre_roll)).ks("default_duration", EU(t.default_duration));
    j->key("enc").arr();
    for (const auto& ee : t.content_encodings.value().encodings) {
      const webm::ContentEncoding& e = ee.value();
      j->obj().ks("order", EU(e.order)).ks("scope", EU(e.scope)).ks("type", EU(e.type));
      j->ks("nenc", e.encryption.is_present() ? "1" : "0").ks("ncomp", "0");
      j->ks("algo", EU(e.encryption.value().algorithm)).ks("key", EB(e.encryption.value().key_id));
      j->ks("cipher", EU(e.encryption.value().aes_settings.value().aes_settings_cipher_mode));
      j->end();
    }
    j->end();
    if (t.video.is_present()) {
      const webm::Video& v = t.video.value();
      j->key("v").obj();
      j->ks("width", EU(v.pixel_width)).ks("height", EU(v.pixel_height)).ks("display_width", U(v.display_width.value()));
      j->ks("display_height", U(v.display_height.value())).ks("stereo", U((uint64_t)v.stereo_mode.value())).ks("frame_rate", F(v.frame_rate.value()));
      j->ks("alpha", U(v.alpha_mode.value())).ks("cl", U(v.pixel_crop_left.value())).ks("cr", U(v.pixel_crop_right.value()));
      j->ks("ct", U(v.pixel_crop_top.value())).ks("cb", U(v.pixel_crop_bottom.value()));
      j->end();
      j->key("c").obj();
      if (v.colour.is_present()) {
        const webm::Colour& c = v.colour.value();
        std::string f[13] = {EU(c.matrix_coefficients), EU(c.bits_per_channel), EU(c.chroma_subsampling_x), EU(c.chroma_subsampling_y),
                             EU(c.cb_subsampling_x), EU(c.cb_subsampling_y), EU(c.chroma_siting_x), EU(c.chroma_siting_y), EU(c.range),
                             EU(c.transfer_characteristics), EU(c.primaries), EU(c.max_cll), EU(c.max_fall)};
        for (int k = 0; k < 13; ++k) j->ks(kCol[k], f[k]);
        if (c.mastering_metadata.is_present()) {
          const webm::MasteringMetadata& m = c.mastering_metadata.value();
          j->ks("lmax", EF(m.luminance_max)).ks("lmin", EF(m.luminance_min));
          j->ks("rx", EF(m.primary_r_chromaticity_x)).ks("ry", EF(m.primary_r_chromaticity_y));
          j->ks("gx", EF(m.primary_g_chromaticity_x)).ks("gy", EF(m.primary_g_chromaticity_y));
          j->ks("bx", EF(m.primary_b_chromaticity_x)).ks("by", EF(m.primary_b_chromaticity_y));
          j->ks("wx", EF(m.white_point_chromaticity_x)).ks("wy", EF(m.white_point_chromaticity_y));
        }
      }
      j->end();
      j->key("p").obj();
      if (v.projection.is_present()) {
        const webm::Projection& p = v.projection.value();
        j->ks("type", EU(p.type)).ks("yaw", EF(p.pose_yaw)).ks("pitch", EF(p.pose_pitch)).ks("roll", EF(p.pose_roll)).ks("priv", EB(p.projection_private));
      }
      j->end();
    }
    if (t.audio.is_present()) {
      const webm::Audio& a = t.audio.value();
      j->key("a").obj().ks("rate", F(a.sampling_frequency.value())).ks("channels", U(a.channels.value())).ks("bit_depth", U(a.bit_depth.value())).end();
    }
    j->end();
    return Ok();
  }
  webm::Status OnEditionEntry(const webm::ElementMetadata&, const webm::EditionEntry& e) override {
    for (const auto& ae : e.atoms) {
      const webm::ChapterAtom& a = ae.value();
      chapters.obj().ks("ed", I(editions)).ks("uid", EU(a.uid)).ks("id", ES(a.string_uid)).ks("start", EU(a.time_start)).ks("stop", EU(a.time_end));
      chapters.ks("exact", "1");
      chapters.key("disp").arr();
      for (const auto& de : a.displays) {
        const webm::ChapterDisplay& d = de.value();
        chapters.arr().str(ES(d.string));
        std::string l, c;
        for (const auto& x : d.languages) l += ES(x);
        for (const auto& x : d.countries) c += ES(x);
        chapters.str(l).str(c.empty() ? "none" : c).end();
      }
      chapters.end().end();
    }
    ++editions;
    return Ok();
  }
  webm::Status OnTag(const webm::ElementMetadata&, const webm::Tag& t) override {
    tags.arr();
    for (const auto& s : t.tags) tags.arr().str(ES(s.value().name)).str(ES(s.value().string)).end();
    tags.end();
    return Ok();
  }
};

static void DumpWp(const std::string& b, J* j) {
  Cb cb;
  std::vector<uint8_t> v(b.begin(), b.end());
  webm::BufferReader r(v);
  webm::WebmParser p;
  webm::Status st = p.Feed(&cb, &r);
  cb.tracks.end(); cb.chapters.end(); cb.tags.end();
  j->obj().kn("ok", st.completed_ok()).key("info").raw(cb.info.s.empty() ? "{}" : cb.info.s);
  j->key("tracks").raw(cb.tracks.s).key("chapters").raw(cb.chapters.s).key("tags").raw(cb.tags.s).end();
}

int main() {
  std::vector<Line> sc;
  while (NextScript(&sc)) {
    W w;
    std::unique_ptr<mkvmuxer::Segment> seg(new mkvmuxer::Segment);
    J ret;
    ret.arr();
    bool ok = seg->Init(&w);
    seg->OutputCues(true);
    std::vector<mkvmuxer::Track*> ts;
    mkvmuxer::Chapter* ch = NULL;
    mkvmuxer::Tag* tag = NULL;
    bool wrote = false;
    mkvmuxer::Track* frame_track = NULL;  // audio alone waits for video that never comes
    J out;
    out.obj();
    auto T = [&](const Line& l) -> mkvmuxer::Track* { return ts.at(l.i(1) - 1); };
    auto VT = [&](const Line& l) { return static_cast<mkvmuxer::VideoTrack*>(T(l)); };
    auto AT = [&](const Line& l) { return static_cast<mkvmuxer::AudioTrack*>(T(l)); };
    auto Nul = [](const std::string& s, std::string* t) -> const char* { if (s == "-") return NULL; *t = UnHex(s == "=" ? "" : s); return t->c_str(); };
    for (const Line& l : sc) {
      const std::string& o = l[0];
      std::string r = "1", ta, tb, tc;
      if (o == "scale") seg->GetSegmentInfo()->set_timecode_scale(l.u(1));
      else if (o == "mux") seg->GetSegmentInfo()->set_muxing_app(UnHex(l[1]).c_str());
      else if (o == "wri") seg->GetSegmentInfo()->set_writing_app(UnHex(l[1]).c_str());
      else if (o == "date") seg->GetSegmentInfo()->set_date_utc(l.i(1));
      else if (o == "video" || o == "audio" || o == "track") {
        mkvmuxer::Track* t = NULL;
        if (o == "track") { t = seg->AddTrack((int32_t)l.i(1)); }
        else {
          uint64_t n = o == "video" ? seg->AddVideoTrack((int32_t)l.i(1), (int32_t)l.i(2), (int32_t)l.i(3)) : seg->AddAudioTrack((int32_t)l.i(1), (int32_t)l.i(2), (int32_t)l.i(3));
          if (n) t = seg->GetTrackByNumber(n);
        }
        if (t && o == "video" && !frame_track) frame_track = t;
        if (t) ts.push_back(t);
        ret.obj().ks("n", t ? U(t->number()) : "0").ks("uid", t ? U(t->uid()) : "0").end();
        continue;
      } else if (o == "set") {
        const std::string& f = l[2];
        const std::string& v = l[3];
        if (f == "codec_id") T(l)->set_codec_id(Nul(v, &ta));
        else if (f == "language") T(l)->set_language(Nul(v, &ta));
        else if (f == "name") T(l)->set_name(Nul(v, &ta));
        else if (f == "uid") T(l)->set_uid(l.u(3));
        else if (f == "type") T(l)->set_type(l.u(3));
        else if (f == "codec_delay") T(l)->set_codec_delay(l.u(3));
        else if (f == "seek_pre_roll") T(l)->set_seek_pre_roll(l.u(3));
        else if (f == "default_duration") T(l)->set_default_duration(l.u(3));
        else if (f == "mbai") T(l)->set_max_block_additional_id(l.u(3));
        else if (f == "codec_private") { ta = UnHex(v); r = T(l)->SetCodecPrivate((const uint8_t*)ta.data(), ta.size()) ? "1" : "0"; }
        else if (f == "display_width") VT(l)->set_display_width(l.u(3));
        else if (f == "display_height") VT(l)->set_display_height(l.u(3));
        else if (f == "pixel_width") VT(l)->set_pixel_width(l.u(3));
        else if (f == "pixel_height") VT(l)->set_pixel_height(l.u(3));
        else if (f == "width") VT(l)->set_width(l.u(3));
        else if (f == "height") VT(l)->set_height(l.u(3));
        else if (f == "cl") VT(l)->set_crop_left(l.u(3));
        else if (f == "cr") VT(l)->set_crop_right(l.u(3));
        else if (f == "ct") VT(l)->set_crop_top(l.u(3));
        else if (f == "cb") VT(l)->set_crop_bottom(l.u(3));
        else if (f == "frame_rate") VT(l)->set_frame_rate(FromN(v));
        else if (f == "colour_space") VT(l)->set_colour_space(Nul(v, &ta));
        else if (f == "stereo") r = VT(l)->SetStereoMode(l.u(3)) ? "1" : "0";
        else if (f == "alpha") r = VT(l)->SetAlphaMode(l.u(3)) ? "1" : "0";
        else if (f == "bit_depth") AT(l)->set_bit_depth(l.u(3));
        else if (f == "channels") AT(l)->set_channels(l.u(3));
        else if (f == "rate") AT(l)->set_sample_rate(FromN(v));
        else r = "?";
      } else if (o == "enc") {
        r = T(l)->AddContentEncoding() ? "1" : "0";
        if (l[2] != "-") {
          ta = UnHex(l[2] == "=" ? "" : l[2]);
          r = T(l)->GetContentEncodingByIndex(T(l)->content_encoding_entries_size() - 1)->SetEncryptionID((const uint8_t*)ta.data(), ta.size()) ? "1" : "0";
        }
      } else if (o == "colour") {
        mkvmuxer::Colour c;
        mkvmuxer::MasteringMetadata m;
        bool mm = false;
        std::unique_ptr<mkvmuxer::PrimaryChromaticity> q[4];
        for (size_t k = 2; k < l.size(); ++k) {
          std::string f = l[k].substr(0, l[k].find('='));
          std::string v = l[k].substr(l[k].find('=') + 1);
          uint64_t u = strtoull(v.c_str(), 0, 10);
          if (f == "matrix") c.set_matrix_coefficients(u);
          else if (f == "bits") c.set_bits_per_channel(u);
          else if (f == "csx") c.set_chroma_subsampling_horz(u);
          else if (f == "csy") c.set_chroma_subsampling_vert(u);
          else if (f == "cbx") c.set_cb_subsampling_horz(u);
          else if (f == "cby") c.set_cb_subsampling_vert(u);
          else if (f == "sitx") c.set_chroma_siting_horz(u);
          else if (f == "sity") c.set_chroma_siting_vert(u);
          else if (f == "range") c.set_range(u);
          else if (f == "transfer") c.set_transfer_characteristics(u);
          else if (f == "primaries") c.set_primaries(u);
          else if (f == "cll") c.set_max_cll(u);
          else if (f == "fall") c.set_max_fall(u);
          else if (f == "mm") mm = true;
          else if (f == "lmax") { mm = true; m.set_luminance_max((float)FromN(v)); }
          else if (f == "lmin") { mm = true; m.set_luminance_min((float)FromN(v)); }
          else {
            mm = true;
            int i = f[0] == 'r' ? 0 : f[0] == 'g' ? 1 : f[0] == 'b' ? 2 : 3;
            q[i].reset(new mkvmuxer::PrimaryChromaticity((float)FromN(v.substr(0, v.find(','))), (float)FromN(v.substr(v.find(',') + 1))));
          }
        }
        bool k = true;
        if (mm) {
          k = m.SetChromaticity(q[0].get(), q[1].get(), q[2].get(), q[3].get()) && c.SetMasteringMetadata(m);
        }
        r = k && VT(l)->SetColour(c) ? "1" : "0";
      } else if (o == "proj") {
        mkvmuxer::Projection p;
        p.set_type((mkvmuxer::Projection::ProjectionType)l.i(2));
        p.set_pose_yaw((float)FromN(l[3]));
        p.set_pose_pitch((float)FromN(l[4]));
        p.set_pose_roll((float)FromN(l[5]));
        bool k = true;
        if (l[6] != "-") { ta = UnHex(l[6]); k = p.SetProjectionPrivate((const uint8_t*)ta.data(), ta.size()); }
        std::string bad;
        if (l[7] != "-") {
          uint8_t x[2] = {7, 8};
          bad = (l[7] == "null" ? p.SetProjectionPrivate(nullptr, 3) : p.SetProjectionPrivate(x, 0)) ? "accepted" : "";
        }
        r = VT(l)->SetProjection(p) && k ? "1" + bad : "0";
      } else if (o == "chapter") {
        ch = seg->AddChapter();
        if (!ch) r = "0";
      } else if (o == "ch") {
        if (l[1] == "id") r = ch->set_id(Nul(l[2], &ta)) ? "1" : "0";
        else if (l[1] == "time") ch->set_time(*seg, l.u(2), l.u(3));
        else if (l[1] == "uid") ch->set_uid(l.u(2));
        else r = ch->add_string(Nul(l[2], &ta), Nul(l[3], &tb), Nul(l[4], &tc)) ? "1" : "0";
      } else if (o == "tag") {
        tag = seg->AddTag();
        if (!tag) r = "0";
      } else if (o == "st") {
        r = tag->add_simple_tag(Nul(l[1], &ta), Nul(l[2], &tb)) ? "1" : "0";
      } else if (o == "go") {
        wrote = true;
        uint8_t d[3] = {1, 2, 3};
        ok = ok && !ts.empty() && seg->AddFrame(d, 3, (frame_track ? frame_track : ts[0])->number(), 0, true);
        ok = seg->Finalize() && ok;
        r = ok ? "1" : "0";
      }
      ret.str(r);
    }
    ret.end();
    out.key("ret").raw(ret.s);
    if (wrote && ok) {
      out.key("mkv");
      J a; DumpMkv(w.b, &a); out.raw(a.s);
      out.key("wp");
      J b; DumpWp(w.b, &b); out.raw(b.s);
      out.kn("size", w.b.size());
    }
    out.end();
    Emit(out);
  }
}
