// EBML number coding.  Script lines:
//   VAL <u64>                     every way of writing and re-reading one value
//   ELU <idhex> <u64> <n>         WriteEbmlElement(uint64, fixed size n)
//   ELI <idhex> <i64>             WriteEbmlElement(int64)          ELD date, ELM master (size)
//   ELF <idhex> <float bits>      ELS <idhex> <len> <seed> (string)   ELB <idhex> <len> <seed> (bytes)
//   VOID <n>                      WriteVoidElement
//   DEC <hex> <stop>              every decoder on arbitrary bytes
//   NUM <hex> <n>                 fixed-size value decoders: n bytes from the given (maybe shorter) data
#include <memory>
#include "h.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvparser.h"
#include "src/bool_parser.h"
#include "src/byte_parser.h"
#include "src/date_parser.h"
#include "src/float_parser.h"
#include "src/id_parser.h"
#include "src/int_parser.h"
#include "src/size_parser.h"
#include "src/var_int_parser.h"
#include "webm/buffer_reader.h"
using namespace mkvmuxer;

struct W : IMkvWriter {
  std::string b; std::vector<std::pair<uint64, int64>> notes;
  int32 Write(const void* p, uint32 n) override { b.append((const char*)p, n); return 0; }
  int64 Position() const override { return b.size(); }
  int32 Position(int64) override { return -1; }
  bool Seekable() const override { return false; }
  void ElementStartNotify(uint64 id, int64 pos) override { notes.push_back({id, pos}); }
};
struct R : mkvparser::IMkvReader {
  std::string b;
  int Read(long long pos, long len, unsigned char* buf) override {
    if (pos < 0 || len < 0 || pos > (long long)b.size() || len > (long long)b.size() - pos) return -1;
    memcpy(buf, b.data() + pos, len); return 0;
  }
  int Length(long long* t, long long* a) override { if (t) *t = b.size(); if (a) *a = b.size(); return 0; }
};
static void V8(J& j, const char* k, uint64_t v) {
  j.key(k).arr(); for (int i = 7; i >= 0; --i) j.num((v >> (8 * i)) & 255); j.end();
}
static void D8(J& j, const char* k, double d) { uint64_t u; memcpy(&u, &d, 8); V8(j, k, u); }

// Both parsers on a coded number.
static void DecCoded(J& j, const std::string& b) {
  R r; r.b = b;
  long len = -7; long long v = mkvparser::ReadUInt(&r, 0, len);
  j.key("mk").obj().kn("ok", v >= 0).kn("len", len); V8(j, "v", v); j.end();
  std::vector<uint8_t> d(b.begin(), b.end());
  webm::Callback cb; uint64_t n;
  {
    webm::BufferReader br(d); webm::VarIntParser p;
    webm::Status s = p.Feed(&cb, &br, &n);
    j.key("wp").obj().kn("st", s.code).kn("n", n);
    if (s.completed_ok()) { j.kn("len", p.encoded_length()); V8(j, "v", p.value()); }
    j.end();
  }
  {
    webm::BufferReader br(d); webm::SizeParser p;
    webm::Status s = p.Feed(&cb, &br, &n);
    j.key("ws").obj().kn("st", s.code).kn("n", n);
    if (s.completed_ok()) { j.kn("unk", p.size() == webm::kUnknownElementSize); V8(j, "v", p.size()); }
    j.end();
  }
}
static void DecId(J& j, const std::string& b) {
  R r; r.b = b; long len = -7; long long v = mkvparser::ReadID(&r, 0, len);
  j.key("mi").obj().kn("ok", v >= 0).kn("len", len); V8(j, "v", v); j.end();
  std::vector<uint8_t> d(b.begin(), b.end());
  webm::Callback cb; uint64_t n; webm::BufferReader br(d); webm::IdParser p;
  webm::Status s = p.Feed(&cb, &br, &n);
  j.key("wi").obj().kn("st", s.code).kn("n", n);
  if (s.completed_ok()) V8(j, "v", (uint64_t)p.id());
  j.end();
}
static void DecHead(J& j, const std::string& b, long long stop) {
  R r; r.b = b; long long pos = 0, id = 0, size = 0;
  long s = mkvparser::ParseElementHeader(&r, pos, stop, id, size);
  j.key("mh").obj().kn("ok", s == 0).kn("pos", pos); V8(j, "id", id); V8(j, "size", size); j.end();
}
// Decoders of values of n bytes.
template <class P> static void WpNum(J& j, const char* k, P p, const std::string& b, uint64_t n) {
  std::vector<uint8_t> d(b.begin(), b.end());
  webm::BufferReader br(d); webm::Callback cb; webm::ElementMetadata m{webm::Id::kVoid, 2, n, 0};
  j.key(k).obj();
  webm::Status s = p.Init(m, n);
  if (s.completed_ok() && n > 0) { uint64_t c; s = p.Feed(&cb, &br, &c); }
  j.kn("st", s.code);
  if (s.completed_ok()) V8(j, "v", (uint64_t)p.value());
  j.end();
}
static void DecNum(J& j, const std::string& b, long long n) {
  R r; r.b = b;
  long long v = mkvparser::UnserializeUInt(&r, 0, n);
  j.key("mu").obj().kn("ok", v >= 0); V8(j, "v", v); j.end();
  long long sv = 77; long s = mkvparser::UnserializeInt(&r, 0, n, sv);
  j.key("ms").obj().kn("ok", s == 0); V8(j, "v", sv); j.end();
  double dv = 77; s = mkvparser::UnserializeFloat(&r, 0, n, dv);
  j.key("mf").obj().kn("ok", s == 0); D8(j, "v", dv); j.end();
  char* str = 0; s = mkvparser::UnserializeString(&r, 0, n, str);
  j.key("mt").obj().kn("ok", s == 0).kn("null", str == 0).key("b");
  if (s == 0) j.bytes(std::string(str, n + 1)); else j.arr().end();
  j.end(); delete[] str;
  WpNum(j, "wu", webm::UnsignedIntParser(9), b, n);
  WpNum(j, "wi", webm::SignedIntParser(-9), b, n);
  WpNum(j, "wd", webm::DateParser(-9), b, n);
  WpNum(j, "wb", webm::BoolParser(true), b, n);
  {
    std::vector<uint8_t> d(b.begin(), b.end());
    webm::BufferReader br(d); webm::Callback cb; webm::ElementMetadata m{webm::Id::kVoid, 2, (uint64_t)n, 0};
    webm::FloatParser p(-9.0);
    webm::Status st = p.Init(m, n);
    if (st.completed_ok() && n > 0) { uint64_t c; st = p.Feed(&cb, &br, &c); }
    j.key("wf").obj().kn("st", st.code);
    if (st.completed_ok()) D8(j, "v", p.value());
    j.end();
  }
}
static void Elem(J& j, W& w, bool ok, uint64_t predicted, uint64_t id) {
  j.kn("ok", ok).kn("pred", predicted).key("b").bytes(w.b);
  j.kn("note", w.notes.size() == 1 && w.notes[0].first == id && w.notes[0].second == 0);
  if (ok) { DecHead(j, w.b, -1); }
}

int main() {
  std::vector<Line> sc;
  while (NextScript(&sc)) {
    J j; j.obj().key("ev").arr();
    for (auto& l : sc) {
      j.obj().ks("op", l[0]);
      if (l[0] == "VAL") {
        uint64_t v = l.u(1);
        V8(j, "v", v);
        j.kn("cs", GetCodedUIntSize(v)).kn("us", GetUIntSize(v)).kn("is", GetIntSize((int64)v));
        j.key("c").arr();                     // coded: WriteUInt (w = -1) and every width
        for (int w = -1; w <= 9; ++w) {
          W x; int rc = w < 0 ? WriteUInt(&x, v) : WriteUIntSize(&x, v, w);
          j.obj().kn("w", w).kn("ok", rc == 0).key("b").bytes(x.b);
          if (rc == 0) DecCoded(j, x.b);
          j.end();
        }
        j.end();
        j.key("s").arr();
        for (int n = 0; n <= 9; ++n) {
          W x; int rc = SerializeInt(&x, (int64)v, n);
          j.obj().kn("n", n).kn("ok", rc == 0).key("b").bytes(x.b);
          if (rc == 0) DecNum(j, x.b, n);
          j.end();
        }
        j.end();
      } else if (l[0] == "ELU") {
        uint64_t id = strtoull(l[1].c_str(), 0, 16), v = l.u(2), n = l.u(3);
        W x; bool ok = WriteEbmlElement(&x, id, (uint64)v, (uint64)n);
        j.key("id").bytes(UnHex(l[1])); V8(j, "v", v); j.kn("n", n);
        Elem(j, x, ok, EbmlElementSize(id, (uint64)v, (uint64)n), id);
        if (n == 0) { W y; bool k2 = WriteEbmlElement(&y, id, (uint64)v);
          j.kn("same", k2 == ok && y.b == x.b && EbmlElementSize(id, (uint64)v) == EbmlElementSize(id, (uint64)v, (uint64)0)); }
        else j.kn("same", 1);
      } else if (l[0] == "ELI") {
        uint64_t id = strtoull(l[1].c_str(), 0, 16); long long v = l.i(2);
        W x; bool ok = WriteEbmlElement(&x, id, (int64)v);
        j.key("id").bytes(UnHex(l[1])); V8(j, "v", v);
        Elem(j, x, ok, EbmlElementSize(id, (int64)v), id);
      } else if (l[0] == "ELD") {
        uint64_t id = strtoull(l[1].c_str(), 0, 16); long long v = l.i(2);
        W x; bool ok = WriteEbmlDateElement(&x, id, (int64)v);
        j.key("id").bytes(UnHex(l[1])); V8(j, "v", v);
        Elem(j, x, ok, EbmlDateElementSize(id), id);
      } else if (l[0] == "ELM") {
        uint64_t id = strtoull(l[1].c_str(), 0, 16), v = l.u(2);
        W x; bool ok = WriteEbmlMasterElement(&x, id, v);
        j.key("id").bytes(UnHex(l[1])); V8(j, "v", v);
        Elem(j, x, ok, EbmlMasterElementSize(id, v), id);
      } else if (l[0] == "ELF") {
        uint64_t id = strtoull(l[1].c_str(), 0, 16); uint32_t u = l.u(2); float f; memcpy(&f, &u, 4);
        W x; bool ok = WriteEbmlElement(&x, id, f);
        j.key("id").bytes(UnHex(l[1])); V8(j, "v", u);
        Elem(j, x, ok, EbmlElementSize(id, f), id);
      } else if (l[0] == "ELS" || l[0] == "ELB") {
        uint64_t id = strtoull(l[1].c_str(), 0, 16);
        std::string p = Payload(l.u(3), l.u(2));
        if (l[0] == "ELS") for (auto& c : p) if (!c) c = 1;
        W x; bool ok = l[0] == "ELS" ? WriteEbmlElement(&x, id, p.c_str())
                                      : WriteEbmlElement(&x, id, (const uint8*)p.data(), (uint64)p.size());
        j.key("id").bytes(UnHex(l[1])); j.kn("n", p.size());
        uint64_t pred = l[0] == "ELS" ? EbmlElementSize(id, p.c_str()) : EbmlElementSize(id, (const uint8*)p.data(), (uint64)p.size());
        // the payload is compared here, its length and header by the specification
        size_t h = x.b.size() >= p.size() ? x.b.size() - p.size() : 0;
        bool same = x.b.size() >= p.size() && x.b.compare(h, std::string::npos, p) == 0;
        size_t total = x.b.size();
        if (ok) x.b.resize(h);
        j.kn("total", total).kn("same", same);
        Elem(j, x, ok, pred, id);
      } else if (l[0] == "VOID") {
        W x; uint64_t n = l.u(1); uint64_t r = WriteVoidElement(&x, n);
        j.kn("n", n).kn("ret", r).key("b").bytes(x.b);
      } else if (l[0] == "DEC") {
        std::string b = UnHex(l[1]);
        j.key("b").bytes(b).kn("stop", l.i(2));
        DecCoded(j, b); DecId(j, b); DecHead(j, b, l.i(2));
        R r; r.b = b; long len = -7; long long s = mkvparser::GetUIntLength(&r, 0, len);
        j.key("ml").obj().kn("r", s == 0 ? 0 : s < 0 ? -1 : 1).kn("len", len).end();
      } else if (l[0] == "NUM") {
        std::string b = UnHex(l[1]);
        j.key("b").bytes(b).kn("n", l.i(2));
        DecNum(j, b, l.i(2));
      }
      j.end();
    }
    j.end().end();
    Emit(j);
  }
}
