// Drives the seeking parser over documents that become available bit by bit, and the streaming
// parser over a prefix; prints what they report.
#include <memory>
#include <set>
#include "h.h"
#include "mkvparser/mkvparser.h"
#include "webm/buffer_reader.h"
#include "webm/webm_parser.h"

using namespace mkvparser;

static long long Cap(long long v) {
  const long long m = 1 << 30;
  return v > m ? m : v < -m ? -m : v;
}

struct Rd : public IMkvReader {
  std::string d;
  long long avail = 0, total = 0;
  bool known = true;
  long long reads = 0, fail_at = -1, fail_ret = -1, under = -1;
  bool fail_len = false, out = false, once = false, failed = false;
  long long opos = 0, olen = 0;
  int Read(long long pos, long len, unsigned char* buf) override {
    if (fail_at >= 0 && reads++ >= fail_at && (!once || reads == fail_at + 1)) {
      failed = true;
      if (len > 0) memset(buf, 0xA5, len);
      return (int)fail_ret;
    }
    if (pos < 0 || len < 0) { out = true; opos = Cap(pos); olen = Cap(len); return -1; }
    if (pos > avail || len > avail - pos) {
      out = true; opos = Cap(pos); olen = Cap(len);
      return (int)under;
    }
    if (len) memcpy(buf, d.data() + pos, len);
    return 0;
  }
  int Length(long long* t, long long* a) override {
    if (fail_len && fail_at >= 0 && reads >= fail_at) return -1;
    if (t) *t = known || avail >= (long long)d.size() ? total : -1;
    if (a) *a = avail;
    return 0;
  }
};

// Collects blocks from the streaming parser.
struct Cb : public webm::Callback {
  J* j;
  long long avail;
  uint64_t ct = 0;
  webm::Block cur;
  std::vector<std::pair<uint64_t, uint64_t>> fr;
  std::vector<std::string> data;
  webm::Status OnClusterBegin(const webm::ElementMetadata&, const webm::Cluster& c, webm::Action* a) override {
    ct = c.timecode.value();
    *a = webm::Action::kRead;
    return webm::Status(webm::Status::kOkCompleted);
  }
  void Begin(const webm::Block& b) { cur = b; fr.clear(); data.clear(); }
  void End() {
    j->obj().ks("c", "sb").kn("a", avail).kn("track", Cap(cur.track_number)).kn("rel", cur.timecode).kn("ct", Cap(ct));
    j->key("fr").arr();
    for (auto& f : fr) j->arr().num(Cap(f.first)).num(Cap(f.second)).end();
    j->end();
    j->key("d").arr();
    for (auto& s : data) j->bytes(s);
    j->end().end();
  }
  webm::Status OnSimpleBlockBegin(const webm::ElementMetadata&, const webm::SimpleBlock& b, webm::Action* a) override {
    Begin(b); *a = webm::Action::kRead; return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnSimpleBlockEnd(const webm::ElementMetadata&, const webm::SimpleBlock&) override {
    End(); return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnBlockBegin(const webm::ElementMetadata&, const webm::Block& b, webm::Action* a) override {
    Begin(b); *a = webm::Action::kRead; return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnBlockEnd(const webm::ElementMetadata&, const webm::Block&) override {
    End(); return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnFrame(const webm::FrameMetadata& m, webm::Reader* r, std::uint64_t* rem) override {
    if (fr.empty() || fr.back().first != m.position || fr.back().second != m.size) {
      fr.push_back(std::make_pair(m.position, m.size));
      data.push_back("");
    }
    while (*rem) {
      uint8_t b[256];
      uint64_t g = 0;
      webm::Status st = r->Read(*rem < sizeof b ? *rem : sizeof b, b, &g);
      data.back().append((char*)b, g);
      *rem -= g;
      if (!st.ok()) return st;
    }
    return webm::Status(webm::Status::kOkCompleted);
  }
};

static void Be8(J& j, const char* k, long long v) {
  std::string s;
  for (int i = 7; i >= 0; --i) s.push_back((char)((unsigned long long)v >> (8 * i)));
  j.key(k).bytes(s);
}

struct Ses {
  Rd rd;
  J j;
  EBMLHeader eb;
  long long pos = 0;
  int phase = 0;
  bool free_mode = false;
  std::unique_ptr<Segment> seg;
  std::map<const Cluster*, std::pair<const BlockEntry*, long>> it;  // last entry, its number
  std::set<const Cluster*> ended;
  std::map<long, const BlockEntry*> tit;
  std::set<long> tdone;
  const Cluster* cur = 0;
  long n_events = 0;

  J& ev(const char* c) {
    ++n_events;
    long long tot = rd.known || rd.avail >= (long long)rd.d.size() ? rd.total : -1;
    return j.obj().ks("c", c).kn("a", rd.avail).kn("tot", tot);
  }
  void bad(const char* where) {
    if (!rd.out) return;
    rd.out = false;
    j.obj().ks("c", "bad").ks("in", where).kn("a", rd.avail).kn("pos", rd.opos).kn("len", rd.olen).end();
  }
  long long scale() { long long s = seg->GetInfo() ? seg->GetInfo()->GetTimeCodeScale() : 1; return s < 1 ? 1 : s; }
  void split(const char* a, const char* b, long long ns) {
    if (ns < 0) { j.kn(a, Cap(ns)).kn(b, 0); return; }
    j.kn(a, Cap(ns / scale())).kn(b, Cap(ns % scale()));
  }
  void where(const BlockEntry* e) {  // got, at, j
    bool got = e && !e->EOS();
    j.key("got").boolean(got).kn("at", got ? Cap(e->GetCluster()->GetPosition()) : -1).kn("j", got ? e->GetIndex() + 1 : 0);
  }
  void block(const BlockEntry* e) {
    const Block* b = e->GetBlock();
    const Cluster* c = e->GetCluster();
    bool grp = e->GetKind() == BlockEntry::kBlockGroup;
    j.key("b").obj();
    j.key("group").boolean(grp);
    j.kn("track", Cap(b->GetTrackNumber())).kn("rel", b->GetTimeCode(0)).kn("tc", Cap(b->GetTimeCode(c)));
    split("tq", "tr", b->GetTime(c));
    j.key("key").boolean(b->IsKey()).key("inv").boolean(b->IsInvisible()).kn("lac", (int)b->GetLacing());
    Be8(j, "disc", b->GetDiscardPadding());
    const BlockGroup* g = grp ? static_cast<const BlockGroup*>(e) : 0;
    if (g) { Be8(j, "dur", g->GetDurationTimeCode()); Be8(j, "prev", g->GetPrevTimeCode()); Be8(j, "next", g->GetNextTimeCode()); }
    j.key("fr").arr();
    std::vector<std::string> data;
    for (int i = 0; i < b->GetFrameCount(); ++i) {
      const Block::Frame& f = b->GetFrame(i);
      j.arr().num(Cap(f.pos)).num(Cap(f.len)).end();
      if (f.pos >= 0 && f.pos + f.len <= rd.avail && rd.fail_at < 0) {
        std::string s(f.len, 0);
        if (f.Read(&rd, (unsigned char*)&s[0])) s = "read failed";
        data.push_back(s);
      }
    }
    j.end();
    j.key("d").arr();
    if ((int)data.size() == b->GetFrameCount()) for (auto& s : data) j.bytes(s);
    j.end();
    j.end();
  }
  void ctime(const Cluster* c) {
    long long t = c->GetTime();
    split("ct", "cr", t);
  }
  // One step of the iteration over a cluster; false when it cannot go on.
  bool Step(const Cluster* c) {
    if (ended.count(c)) return false;
    auto& p = it[c];
    const BlockEntry* e = 0;
    long r = p.first ? c->GetNext(p.first, e) : c->GetFirst(e);
    ev("en").kn("at", Cap(c->GetPosition())).kn("j", p.second + 1).kn("r", Cap(r)).key("got").boolean(r == 0 && e);
    if (r == 0 && e) { block(e); if (e->GetIndex() != p.second) j.kn("wrongindex", 1); }
    ctime(c);
    j.end();
    bad("entries");
    if (r == 0 && e) { p.first = e; ++p.second; return n_events < 4000; }
    if (r == 0) ended.insert(c);
    return false;
  }
  void Lc() {
    long long p = -1;
    long l = -1;
    long r = seg->LoadCluster(p, l);
    const Cluster* c = seg->GetLast();
    ev("lc").kn("r", Cap(r)).kn("n", seg->GetCount()).kn("at", c && !c->EOS() ? Cap(c->GetPosition()) : -1).kn("p", Cap(p)).kn("l", Cap(l)).end();
    bad("LoadCluster");
    last_lc = r;
  }
  long last_lc = 0;
  void Dump() {
    std::ostringstream o;
    const SegmentInfo* i = seg->GetInfo();
    auto S = [](const char* s) { return s ? std::string(s) : std::string("~"); };
    o << eb.m_version << "," << eb.m_readVersion << "," << eb.m_maxIdLength << "," << eb.m_maxSizeLength << "," << S(eb.m_docType) << ","
      << eb.m_docTypeVersion << "," << eb.m_docTypeReadVersion << ";";
    if (i) o << i->GetTimeCodeScale() << "," << i->GetDuration() << "," << Hex(S(i->GetMuxingAppAsUTF8())) << "," << Hex(S(i->GetWritingAppAsUTF8()))
             << "," << Hex(S(i->GetTitleAsUTF8())) << ";";
    const Tracks* t = seg->GetTracks();
    std::vector<std::pair<long, long>> tr;
    for (unsigned long k = 0; t && k < t->GetTracksCount(); ++k) {
      const Track* x = t->GetTrackByIndex(k);
      if (!x) { o << "none;"; continue; }
      tr.push_back(std::make_pair(x->GetNumber(), x->GetType()));
      size_t ps = 0;
      const unsigned char* pv = x->GetCodecPrivate(ps);
      o << x->GetNumber() << "," << x->GetType() << "," << x->GetUid() << "," << Hex(S(x->GetNameAsUTF8())) << "," << Hex(S(x->GetLanguage())) << ","
        << Hex(S(x->GetCodecId())) << "," << Hex(S(x->GetCodecNameAsUTF8())) << "," << (pv ? Hex(pv, ps) : "~") << "," << x->GetLacing() << ","
        << x->GetDefaultDuration() << "," << x->GetCodecDelay() << "," << x->GetSeekPreRoll() << "," << x->GetContentEncodingCount();
      if (x->GetType() == Track::kVideo) {
        const VideoTrack* v = static_cast<const VideoTrack*>(x);
        o << "," << v->GetWidth() << "," << v->GetHeight() << "," << v->GetDisplayWidth() << "," << v->GetDisplayHeight() << "," << v->GetDisplayUnit()
          << "," << v->GetStereoMode() << "," << v->GetFrameRate() << "," << (v->GetColour() != 0) << "," << (v->GetProjection() != 0);
      } else if (x->GetType() == Track::kAudio) {
        const AudioTrack* a = static_cast<const AudioTrack*>(x);
        o << "," << a->GetSamplingRate() << "," << a->GetChannels() << "," << a->GetBitDepth();
      }
      o << ";";
    }
    const SeekHead* sh = seg->GetSeekHead();
    for (int k = 0; sh && k < sh->GetCount(); ++k) o << "seek" << sh->GetEntry(k)->id << "@" << sh->GetEntry(k)->pos << ";";
    const Chapters* ch = seg->GetChapters();
    for (int k = 0; ch && k < ch->GetEditionCount(); ++k) {
      const Chapters::Edition* e = ch->GetEdition(k);
      o << "ed";
      for (int m = 0; m < e->GetAtomCount(); ++m) {
        const Chapters::Atom* a = e->GetAtom(m);
        o << "(" << a->GetUID() << "," << Hex(S(a->GetStringUID())) << "," << a->GetStartTime(ch) << "," << a->GetStopTime(ch);
        for (int y = 0; y < a->GetDisplayCount(); ++y)
          o << "," << Hex(S(a->GetDisplay(y)->GetString())) << "/" << Hex(S(a->GetDisplay(y)->GetLanguage())) << "/" << Hex(S(a->GetDisplay(y)->GetCountry()));
        o << ")";
      }
      o << ";";
    }
    const Tags* tg = seg->GetTags();
    for (int k = 0; tg && k < tg->GetTagCount(); ++k) {
      const Tags::Tag* e = tg->GetTag(k);
      o << "tag";
      for (int m = 0; m < e->GetSimpleTagCount(); ++m)
        o << "(" << Hex(S(e->GetSimpleTag(m)->GetTagName())) << "," << Hex(S(e->GetSimpleTag(m)->GetTagString())) << ")";
      o << ";";
    }
    ev("hd").kn("scale", Cap(scale())).ks("dump", o.str()).key("tr").arr();
    for (auto& x : tr) j.arr().num(x.first).num(x.second).end();
    j.end().end();
  }
  const Track* TrackNo(long tn) { return seg->GetTracks() ? seg->GetTracks()->GetTrackByNumber(tn) : 0; }
  void Tracks1(long tn, bool all) {
    const Track* t = TrackNo(tn);
    if (!t) return;
    do {
      if (tdone.count(tn)) return;
      const BlockEntry* e = 0;
      const BlockEntry* from = tit[tn];
      bool done = seg->DoneParsing();
      long r = from ? t->GetNext(from, e) : t->GetFirst(e);
      ev(from ? "tn" : "tf").kn("tn", tn).kn("r", Cap(r)).key("done").boolean(done);
      if (from) j.kn("fat", Cap(from->GetCluster()->GetPosition())).kn("fj", from->GetIndex() + 1);
      where(e);
      j.end();
      bad("track iteration");
      if (r != 0 || !e || e->EOS()) { if (r == 1) tdone.insert(tn); return; }
      tit[tn] = e;
    } while (all && n_events < 4000);
  }
  long long Ns(const Line& l, int k) {
    __int128 v = (__int128)l.i(k) * scale() + l.i(k + 1);
    return v > (1LL << 62) ? (1LL << 62) : (long long)v;
  }
  void T2(const Line& l, int k) { j.key("t").arr().num(l.i(k)).num(l.i(k + 1)).end(); }

  void Do(const Line& l) {
    const std::string& op = l[0];
    if (op == "doc") { rd.d = UnHex(l[1]); rd.total = rd.d.size(); rd.avail = rd.total; }
    else if (op == "cut") { rd.d.resize(l.i(1)); rd.total = rd.avail = rd.d.size(); }
    else if (op == "free") free_mode = true;
    else if (op == "unknown") rd.known = false;
    else if (op == "under") rd.under = l.i(1);
    else if (op == "fail") { rd.fail_at = l.i(1); rd.fail_ret = l.i(2); rd.fail_len = l.i(3); }
    else if (op == "fail1") { rd.fail_at = l.i(1); rd.fail_ret = l.i(2); rd.once = true; }
    else if (op == "avail") rd.avail = std::min<long long>(l.i(1), rd.d.size());
    else if (op == "eb") {
      if (phase != 0) return;
      long long p = 0;
      long long r = eb.Parse(&rd, p);
      ev("eb").kn("r", Cap(r)).kn("pos", Cap(p)).end();
      bad("EBMLHeader");
      if (r == 0) { phase = 1; pos = p; }
    } else if (op == "sg") {
      if (phase != 1) return;
      Segment* s = 0;
      long long r = Segment::CreateInstance(&rd, pos, s);
      ev("sg").kn("r", Cap(r)).kn("pos", s ? Cap(s->m_start) : -1).end();
      bad("CreateInstance");
      if (r == 0 && s) { seg.reset(s); phase = 2; }
    } else if (op == "ph") {
      if (phase != 2) return;
      long long r = seg->ParseHeaders();
      ev("ph").kn("r", Cap(r)).end();
      bad("ParseHeaders");
      if (r == 0) { phase = 3; Dump(); }
      if (r < 0 && !free_mode && r != E_BUFFER_NOT_FULL) phase = 9;
    } else if (op == "stream") {
      Cb cb;
      cb.j = &j;
      cb.avail = rd.avail;
      webm::BufferReader br(std::vector<uint8_t>(rd.d.begin(), rd.d.begin() + rd.avail));
      webm::WebmParser p;
      webm::Status st = p.Feed(&cb, &br);
      ev("se").kn("st", st.code).end();
    } else if (phase != 3) {
      return;
    } else if (op == "lc") { Lc(); }
    else if (op == "la") { do Lc(); while (last_lc == 0); }
    else if (op == "e1") {
      long n = seg->GetCount();
      if (!n) return;
      const Cluster* c = seg->GetFirst();
      for (long k = l.i(1) % n; k > 0; --k) c = seg->GetNext(c);
      Step(c);
    } else if (op == "ea") {
      long n = seg->GetCount();
      const Cluster* c = n ? seg->GetFirst() : 0;
      for (long k = 0; k < n && c && !c->EOS(); ++k) { while (Step(c)) {} c = seg->GetNext(c); }
    } else if (op == "gl") {
      long n = seg->GetCount();
      if (!n) return;
      const Cluster* c = seg->GetFirst();
      for (long k = l.i(1) % n; k > 0; --k) c = seg->GetNext(c);
      const BlockEntry* e = 0;
      long r = c->GetLast(e);
      ev("gl").kn("cat", Cap(c->GetPosition())).kn("r", Cap(r));
      where(e);
      long long a = c->GetFirstTime(), b = c->GetLastTime();
      split("fq", "frr", a); split("lq", "lr", b);
      j.end();
      bad("GetLast");
    } else if (op == "tf" || op == "tn") Tracks1(l.i(1), false);
    else if (op == "ta") Tracks1(l.i(1), true);
    else if (op == "cu" || op == "ca") {
      const Cues* c = seg->GetCues();
      if (!c) return;
      for (;;) {
        bool r = c->LoadCuePoint();
        ev("cu").kn("r", r).end();
        bad("LoadCuePoint");
        if (!r || op == "cu") break;
      }
    } else if (op == "pc") {
      long long p = -1; long ln = -1;
      long r = seg->ParseCues(l.i(1), p, ln);
      ev("pc").kn("off", l.i(1)).kn("r", Cap(r)).kn("p", Cap(p)).kn("l", Cap(ln)).end();
      bad("ParseCues");
    } else if (op == "fi") {
      const Cues* c = seg->GetCues();
      const Track* t = TrackNo(l.i(1));
      if (!c || !t) return;
      const CuePoint* cp = 0;
      const CuePoint::TrackPosition* tp = 0;
      bool r = c->Find(Ns(l, 2), t, cp, tp);
      const BlockEntry* e = r ? c->GetBlock(cp, tp) : 0;
      ev("fi").kn("tn", l.i(1)).key("got").boolean(r);
      T2(l, 2);
      if (r) {
        j.kn("tc", Cap(cp->GetTimeCode())).key("tp").obj().kn("track", Cap(tp->m_track)).kn("at", Cap(tp->m_pos)).kn("block", Cap(tp->m_block)).end();
        j.key("blk").obj();
        where(e);
        j.end();
      }
      j.end();
      bad("Cues");
      if (e && !e->EOS()) cur = e->GetCluster();
    } else if (op == "fc") {
      const Cluster* c = seg->FindCluster(Ns(l, 1));
      bool got = c && !c->EOS();
      ev("fc").key("got").boolean(got).kn("at", got ? Cap(c->GetPosition()) : -1);
      T2(l, 1);
      j.end();
      bad("FindCluster");
    } else if (op == "sk") {
      const Track* t = TrackNo(l.i(1));
      if (!t) return;
      const BlockEntry* e = 0;
      bool done = seg->DoneParsing();
      long r = t->Seek(Ns(l, 2), e);
      ev("sk").kn("tn", l.i(1)).kn("r", Cap(r)).key("done").boolean(done);
      T2(l, 2);
      where(e);
      j.end();
      bad("Seek");
    } else if (op == "first") { const Cluster* c = seg->GetFirst(); cur = c && !c->EOS() ? c : 0; }
    else if (op == "pre") {
      const Cluster* c = seg->FindOrPreloadCluster(l.i(1));
      if (c && !c->EOS()) cur = c;
      bool got = c && !c->EOS();
      ev("pr").kn("off", Cap(l.i(1))).key("got").boolean(got).kn("at", got ? Cap(c->GetPosition()) : -1).kn("ix", got ? Cap(c->GetIndex()) : -1).end();
      bad("FindOrPreloadCluster");
    } else if (op == "cen") { if (cur) while (Step(cur)) {} }
    else if (op == "pn") {
      if (!cur || cur->EOS()) return;
      const Cluster* c = 0;
      long long p = -1; long ln = -1;
      long r = seg->ParseNext(cur, c, p, ln);
      bool got = c && !c->EOS();
      ev("pn").kn("fat", Cap(cur->GetPosition())).kn("r", Cap(r)).kn("n", seg->GetCount()).kn("at", got ? Cap(c->GetPosition()) : -1).kn("p", Cap(p)).kn("l", Cap(ln)).end();
      bad("ParseNext");
      if (r == 0 && got) cur = c;
    } else if (op == "gn") {
      if (!cur || cur->EOS()) return;
      const Cluster* c = seg->GetNext(cur);
      bool got = c && !c->EOS();
      ev("gn").kn("fat", Cap(cur->GetPosition())).kn("ix", Cap(cur->GetIndex())).key("got").boolean(got).kn("at", got ? Cap(c->GetPosition()) : -1).end();
      bad("GetNext");
      if (got) cur = c;
    }
  }
};

int main() {
  std::vector<Line> sc;
  while (NextScript(&sc)) {
    std::unique_ptr<Ses> s(new Ses);
    s->j.obj().key("ev").arr();
    for (auto& l : sc) { if (s->n_events > 6000) break; s->Do(l); }
    s->j.end().end();
    Emit(s->j);
  }
}
