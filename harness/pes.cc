// m2ts harness.  Script lines:
//   F <codec 8|9> <ns> <hex>          queue a frame
//   PES <file>                        write queued frames with WritePesPacket, parse the stream back
//   SF <hex>                          ParseVP9SuperFrameIndex on the bytes
//   W2P <hex of webm> / W2T <hex>     convert a WebM file with Webm2Pes / VpxPes2Ts, dump output
//   RAW <hex> [<hex>]                 parse arbitrary bytes (with a parser that read the second stream before)
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>
#include <memory>
#include "h.h"
#include "common/libwebm_util.h"
#include "common/video_frame.h"
#include "m2ts/vpxpes2ts.h"
#include "m2ts/vpxpes_parser.h"
#include "m2ts/webm2pes.h"
using namespace libwebm;

static std::string g_dir;
static std::string Tmp(const char* n) { return g_dir + "/" + n; }
static void WriteF(const std::string& p, const std::string& d) {
  FILE* f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f);
}
static std::string ReadF(const std::string& p) {
  std::string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r;
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r;
}
static void Parse(J& j, const std::string& stream, int maxn, const std::string& before = "") {
  std::unique_ptr<VpxPesParser> p(new VpxPesParser);
  if (!before.empty()) {   // the parser object has been used for another stream
    VpxPesParser::PesHeader h; VideoFrame f;
    WriteF(Tmp("s.pes"), before);
    if (p->Open(Tmp("s.pes"))) while (maxn-- > 97 && p->ParseNextPacket(&h, &f)) {}
    maxn = 100;
  }
  WriteF(Tmp("s.pes"), stream);
  bool op = p->Open(Tmp("s.pes"));
  j.kn("open", op);
  j.key("p").arr();
  if (op) {
    VpxPesParser::PesHeader h;
    VideoFrame f;
    for (int n = 0; n < maxn; ++n) {
      bool ok = p->ParseNextPacket(&h, &f);
      if (!ok) break;
      long long ns = f.nanosecond_pts();
      uint64_t t = h.opt_header.pts;
      j.obj().kn("ms", ns / 1000000).kn("rem", ns % 1000000);
      j.key("pts").arr().num((t >> 30) & 0xffff).num((t >> 15) & 0x7fff).num(t & 0x7fff).end();
      j.ks("b", Hex(f.buffer().data.get(), f.buffer().length)).end();
    }
  }
  j.end();
  j.kn("left", p->BytesAvailable());
}

int main() {
  char d[] = "/tmp/vpes-XXXXXX";
  g_dir = mkdtemp(d);
  signal(SIGXFSZ, SIG_IGN);
  fclose(stderr); stderr = fopen("/dev/null", "w");
  int realout = dup(1);
  FILE* out = fdopen(realout, "w");
  freopen("/dev/null", "w", stdout);   // the parser prints diagnostics
  std::vector<Line> sc;
  while (NextScript(&sc)) {
    J j;
    j.obj();
    struct Fr { int c; long long ns; std::string b; };
    std::vector<Fr> fr;
    for (auto& l : sc) {
      if (l[0] == "F") fr.push_back({(int)l.i(1), l.i(2), UnHex(l[3])});
      else if (l[0] == "PES") {
        std::string stream;
        j.key("w").arr();
        for (auto& f : fr) {
          VideoFrame vf(f.ns, f.c == 8 ? VideoFrame::kVP8 : VideoFrame::kVP9);
          bool ok = true;
          if (!f.b.empty()) { vf.Init(f.b.size()); memcpy(vf.buffer().data.get(), f.b.data(), f.b.size()); vf.SetBufferLength(f.b.size()); }
          PacketDataBuffer buf;
          ok = Webm2Pes::WritePesPacket(vf, &buf);
          std::string o((const char*)buf.data(), buf.size());
          if (ok) stream += o;
          j.obj().kn("ok", ok).ks("out", ok ? Hex(o) : std::string()).end();
        }
        j.end();
        Parse(j, stream, (int)fr.size() * 9 + 2);
      } else if (l[0] == "SF") {
        std::string b = UnHex(l[1]);
        std::unique_ptr<uint8_t[]> m(new uint8_t[b.size()]);
        memcpy(m.get(), b.data(), b.size());
        Ranges r; bool err = false;
        bool ok = ParseVP9SuperFrameIndex(m.get(), b.size(), &r, &err);
        j.kn("ok", ok).kn("err", err).key("r").arr();
        for (auto& x : r) j.arr().num(x.offset).num(x.length).end();
        j.end();
      } else if (l[0] == "W2P" || l[0] == "W2T") {
        WriteF(Tmp("i.webm"), UnHex(l[1]));
        remove(Tmp("o").c_str());
        bool ok;
        unsigned long long bw = 0;
        if (l[0] == "W2P") { Webm2Pes c(Tmp("i.webm"), Tmp("o")); ok = c.ConvertToFile(); bw = c.bytes_written(); }
        else { VpxPes2Ts c(Tmp("i.webm"), Tmp("o")); ok = c.ConvertToFile(); }
        std::string o = ReadF(Tmp("o"));
        j.kn("ok", ok).ks("out", Hex(o)).kn("bw", bw);
        if (l[0] == "W2P") Parse(j, o, 1000);
      } else if (l[0] == "CONV") {   // CONV p|t <hex of input or none> <output opens> then limits L<n>, refusing sinks S<k>
        remove(Tmp("i.webm").c_str()); remove(Tmp("o").c_str());
        if (l[2] != "none") WriteF(Tmp("i.webm"), UnHex(l[2]));
        std::string o = l.i(3) ? Tmp("o") : Tmp("missing/o");
        auto conv = [&]() {
          if (l[1] == "p") { Webm2Pes c(Tmp("i.webm"), o); return c.ConvertToFile(); }
          VpxPes2Ts c(Tmp("i.webm"), o); return c.ConvertToFile();
        };
        bool ok = conv();
        std::string full = ReadF(o);
        j.kn("ok", ok).kn("size", full.size()).key("lim").arr();
        for (size_t q = 4; q < l.size(); ++q) {
          if (l[q][0] != 'L') continue;
          long n = atol(l[q].c_str() + 1);
          if (n < 0) n = (long)full.size() + n < 0 ? 0 : full.size() + n;   // counted from the end
          struct rlimit old, lim;
          getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = n;
          setrlimit(RLIMIT_FSIZE, &lim);
          bool k = conv();
          setrlimit(RLIMIT_FSIZE, &old);
          std::string got = ReadF(o);
          j.obj().kn("n", n).kn("ok", k).kn("size", got.size()).kn("prefix", got.size() <= full.size() && full.compare(0, got.size(), got) == 0).end();
        }
        j.end().key("sink").arr();
        for (size_t q = 4; q < l.size(); ++q) {
          if (l[q][0] != 'S') continue;
          struct Sink : PacketReceiverInterface {
            int k, n = 0;
            bool ReceivePacket(const PacketDataBuffer&) override { return ++n != k; }
          } s;
          s.k = atoi(l[q].c_str() + 1);
          Webm2Pes c(Tmp("i.webm"), &s);
          bool k = c.ConvertToPacketReceiver();
          j.obj().kn("k", s.k).kn("ok", k).kn("got", s.n).end();
        }
        j.end();
      } else if (l[0] == "RAW") {
        Parse(j, UnHex(l[1]), 100, l.size() > 2 ? UnHex(l[2]) : std::string());
      }
    }
    j.end();
    fputs(j.s.c_str(), out); fputc('\n', out); fflush(out);
  }
  remove(Tmp("i.webm").c_str()); remove(Tmp("o").c_str()); remove(Tmp("s.pes").c_str()); rmdir(g_dir.c_str());
}
