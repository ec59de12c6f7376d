// Readers and the file writer.  First script line: "<what> <length> <seed> <extra>"; what:
//   buffer file pipe sstring fstream raw null     webm::Reader implementations (raw: stream that cannot seek)
//   mkvreader mkvreaderfp                         MkvReader, opening by name or borrowing a FILE
//   mkvwriter mkvwriterfp                         MkvWriter
// Following lines are calls: read n | skip n | seek n | pos | move | assign | open x | close | length | at off n |
//   write n seed | writenull n | goto n
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <memory>
#include <sstream>
#include "h.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvreader.h"
#include "webm/buffer_reader.h"
#include "webm/file_reader.h"
#include "webm/istream_reader.h"

static std::string g_dir;
static std::string Tmp(const char* n) { return g_dir + "/" + n; }
static void WriteF(const std::string& p, const std::string& d) { FILE* f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
static std::string ReadF(const std::string& p) {
  std::string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r;
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r;
}
// a stream buffer that hands out small chunks and cannot seek
struct Raw : std::streambuf {
  std::string d; size_t at = 0, chunk; char b[64];
  Raw(const std::string& s, size_t c) : d(s), chunk(c) {}
  int_type underflow() override {
    if (at >= d.size()) return traits_type::eof();
    size_t n = std::min(std::min(chunk, sizeof b), d.size() - at);
    memcpy(b, d.data() + at, n); at += n; setg(b, b, b + n);
    return traits_type::to_int_type(b[0]);
  }
};
struct RawStream : std::istream {
  Raw r;
  RawStream(const std::string& s, size_t c) : std::istream(nullptr), r(s, c) { rdbuf(&r); }
};
template <class T> static int DoSeek(T&, long long) { return 1; }
static int DoSeek(webm::FileReader& r, long long n) { return r.Seek(n < 0 ? ~0ull - 5 : (uint64_t)n).code; }

template <class T> static void Stream(J& j, T r, const std::vector<Line>& sc) {
  T other;
  for (size_t i = 1; i < sc.size(); ++i) {
    const Line& l = sc[i];
    if (l[0] == "read") {
      size_t n = l.u(1); uint64_t k = 12345678;
      std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
      webm::Status s = r.Read(n, b.get(), &k);
      j.obj().ks("op", "read").kn("n", n).kn("st", s.code).kn("k", k).key("b").bytes(std::string((char*)b.get(), k <= n ? k : 0));
      j.kn("pos", r.Position()).end();
    } else if (l[0] == "skip") {
      uint64_t n = l.u(1), k = 12345678;
      webm::Status s = r.Skip(n, &k);
      j.obj().ks("op", "skip").kn("n", n).kn("st", s.code).kn("k", k).kn("pos", r.Position()).end();
    } else if (l[0] == "seek") {
      int st = DoSeek(r, l.i(1));
      if (st != 1) j.obj().ks("op", "seek").kn("n", l.i(1)).kn("st", st).kn("pos", r.Position()).end();
    } else if (l[0] == "pos") j.obj().ks("op", "pos").kn("pos", r.Position()).end();
    else if (l[0] == "move" || l[0] == "assign") {
      uint8_t c; uint64_t k = 99; webm::Status s; uint64_t op;
      if (l[0] == "move") {
        T moved(std::move(r));
        op = r.Position(); s = r.Read(1, &c, &k);
        r = std::move(moved);
      } else {
        other = std::move(r);
        op = r.Position(); s = r.Read(1, &c, &k);
        r = std::move(other);
      }
      j.obj().ks("op", "move").kn("oldpos", op).kn("oldst", s.code).kn("oldk", k).kn("pos", r.Position()).end();
    }
  }
}

int main() {
  char dd[] = "/tmp/vio-XXXXXX"; g_dir = mkdtemp(dd);
  std::vector<Line> sc;
  while (NextScript(&sc)) {
    J j; j.obj();
    const std::string what = sc[0][0];
    std::string data = Payload(sc[0].u(2), sc[0].u(1));
    bool seekable = what == "file", borrowed = what == "mkvreaderfp" || what == "mkvwriterfp";
    bool isr = what.compare(0, 9, "mkvreader") == 0, isw = what.compare(0, 9, "mkvwriter") == 0;
    j.ks("what", what).ks("kind", isr ? "random" : isw ? "write" : "stream").kn("seekable", seekable).kn("borrowed", borrowed);
    j.key("data").bytes(data).key("ev").arr();
    std::string f = Tmp("d");
    if (!isw) WriteF(f, data);
    if (what == "buffer") Stream(j, webm::BufferReader(std::vector<uint8_t>(data.begin(), data.end())), sc);
    else if (what == "null") Stream(j, webm::FileReader(), sc);
    else if (what == "nulls") Stream(j, webm::IstreamReader(), sc);
    else if (what == "file") Stream(j, webm::FileReader(fopen(f.c_str(), "rb")), sc);
    else if (what == "pipe") {
      int p[2]; if (pipe(p)) abort();
      fcntl(p[1], F_SETPIPE_SZ, 1 << 18);
      size_t w = 0; while (w < data.size()) { ssize_t n = write(p[1], data.data() + w, data.size() - w); if (n <= 0) abort(); w += n; }
      close(p[1]);
      Stream(j, webm::FileReader(fdopen(p[0], "rb")), sc);
    } else if (what == "sstring") Stream(j, webm::IstreamReader::Emplace<std::istringstream>(data), sc);
    else if (what == "fstream") Stream(j, webm::IstreamReader::Emplace<std::ifstream>(f, std::ios::binary), sc);
    else if (what == "raw") Stream(j, webm::IstreamReader::Emplace<RawStream>(data, std::max(1ull, sc[0].u(3))), sc);
    else if (isr) {
      FILE* fp = borrowed ? fopen(f.c_str(), "rb") : nullptr;
      std::unique_ptr<mkvparser::MkvReader> r(borrowed ? new mkvparser::MkvReader(fp) : new mkvparser::MkvReader());
      bool closed = false;
      for (size_t i = 1; i < sc.size(); ++i) {
        const Line& l = sc[i];
        if (l[0] == "open") {
          const char* n = l[1] == "null" ? nullptr : l[1] == "none" ? "/nonexistent/x" : f.c_str();
          if (borrowed && closed) continue;   // reopening a reader that borrowed its first file is not specified
          int st = r->Open(n);
          j.obj().ks("op", "open").kn("exists", l[1] == "file").kn("st", st).end();
        } else if (l[0] == "close") { r->Close(); closed = true; j.obj().ks("op", "close").end(); }
        else if (l[0] == "length") {
          long long t = -5, a = -6; int st = l[1] == "t" ? r->Length(&t, nullptr) : l[1] == "a" ? r->Length(nullptr, &a) : r->Length(&t, &a);
          if (l[1] == "t") a = t;
          if (l[1] == "a") t = a;
          j.obj().ks("op", "length").kn("st", st).kn("total", t).kn("avail", a).end();
        } else if (l[0] == "at") {
          long long off = l.i(1); long n = l.i(2);
          std::unique_ptr<unsigned char[]> b(new unsigned char[n > 0 ? n : 1]);
          int st = r->Read(off, n, b.get());
          j.obj().ks("op", "read").kn("off", off).kn("n", n).kn("st", st).key("b").bytes(std::string((char*)b.get(), st == 0 && n > 0 ? n : 0)).end();
        }
      }
      r.reset();
      if (fp && !closed) fclose(fp);
    } else if (isw) {
      remove(f.c_str());
      FILE* fp = borrowed ? fopen(f.c_str(), "wb") : nullptr;
      std::unique_ptr<mkvmuxer::MkvWriter> w(borrowed ? new mkvmuxer::MkvWriter(fp) : new mkvmuxer::MkvWriter());
      bool closed = false;
      for (size_t i = 1; i < sc.size(); ++i) {
        const Line& l = sc[i];
        if (l[0] == "open") {
          if (borrowed && closed) continue;
          const char* n = l[1] == "null" ? nullptr : l[1] == "none" ? "/nonexistent/x" : f.c_str();
          bool st = w->Open(n);
          j.obj().ks("op", "open").kn("exists", l[1] == "file").kn("st", st).end();
        } else if (l[0] == "close") { w->Close(); closed = true; j.obj().ks("op", "close").end(); }
        else if (l[0] == "write") {
          std::string b = Payload(l.u(2), l.u(1));
          int st = w->Write(b.data(), b.size());
          j.obj().ks("op", "write").kn("n", b.size()).kn("null", 0).kn("st", st).key("b").bytes(b).end();
        } else if (l[0] == "writenull") {
          int st = w->Write(nullptr, l.u(1));
          j.obj().ks("op", "write").kn("n", l.u(1)).kn("null", 1).kn("st", st).key("b").arr().end().end();
        } else if (l[0] == "pos") j.obj().ks("op", "pos").kn("pos", w->Position()).end();
        else if (l[0] == "goto") { int st = w->Position(l.i(1)); j.obj().ks("op", "goto").kn("n", l.i(1)).kn("st", st).end(); }
      }
      w.reset();
      if (fp) fclose(fp);     // a borrowed file stays open for its owner
      j.obj().ks("op", "file").key("b").bytes(ReadF(f)).end();
    }
    j.end().end();
    Emit(j);
    remove(f.c_str());
  }
  rmdir(g_dir.c_str());
}
