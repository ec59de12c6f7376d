// WebVTT harness.  Scripts:
//   DOC <hex> <errAt or 0>      parse the text; reader fails (-5) instead of delivering char number errAt (1-based)
//   VTIME h m s ms d h2 m2 s2 ms2   time arithmetic
#include "h.h"
#include "webvtt/webvttparser.h"
using namespace libwebvtt;

class MemReader : public Reader {
 public:
  MemReader(const std::string& s, long long e) : s_(s), p_(0), e_(e) {}
  int GetChar(char* c) override {
    ++calls;
    if (e_ && (long long)p_ + 1 == e_) return -5;
    if (p_ >= s_.size()) return 1;
    *c = s_[p_++];
    return 0;
  }
  long long calls = 0;
  std::string s_; size_t p_; long long e_;
};
static int Sign(long long r) { return r < 0 ? -1 : r > 0 ? 1 : 0; }
static void TimeJ(J& j, const Time& t) { j.arr().num(t.hours).num(t.minutes).num(t.seconds).num(t.milliseconds).end(); }

int main() {
  std::vector<Line> sc;
  while (NextScript(&sc)) {
    J j;
    j.obj();
    for (auto& l : sc) {
      if (l[0] == "DOC") {
        std::string doc = UnHex(l[1]);
        MemReader r(doc, l.i(2));
        Parser p(&r);
        j.key("doc").bytes(doc);
        j.kn("err", l.i(2));
        j.key("ev").arr();
        int e = p.Init();
        j.obj().kn("r", Sign(e)).end();
        Cue cue;  // deliberately reused
        for (int n = 0; e == 0 && n < 200; ++n) {
          e = p.Parse(&cue);
          j.obj().kn("r", Sign(e));
          if (e == 0) {
            j.key("id").bytes(cue.identifier);
            j.key("a"); TimeJ(j, cue.start_time);
            j.key("b"); TimeJ(j, cue.stop_time);
            j.key("set").arr();
            for (auto& s : cue.settings) { j.arr().bytes(s.name).bytes(s.value).end(); }
            j.end();
            j.key("pay").arr();
            for (auto& s : cue.payload) j.bytes(s);
            j.end();
          }
          j.end();
        }
        j.end();
      } else if (l[0] == "VTIME") {
        Time t = {(int)l.i(1), (int)l.i(2), (int)l.i(3), (int)l.i(4)};
        long long d = l.i(5);
        Time u = {(int)l.i(6), (int)l.i(7), (int)l.i(8), (int)l.i(9)};
        j.key("t"); TimeJ(j, t);
        j.ks("d", std::to_string(d));
        j.key("u"); TimeJ(j, u);
        j.ks("pt", std::to_string(t.presentation())).ks("pu", std::to_string(u.presentation()));
        Time x; x.presentation(t.presentation());
        j.key("rt"); TimeJ(j, x);
        j.kn("lt", t < u).kn("gt", t > u).kn("le", t <= u).kn("ge", t >= u).kn("eq", t == u);
        j.key("add"); TimeJ(j, t + d);
        Time y(t); y += d; j.key("addeq"); TimeJ(j, y);
        Time z(t); z -= d; j.key("subeq"); TimeJ(j, z);
        j.ks("diff", std::to_string(t - u));
      }
    }
    j.end();
    Emit(j);
  }
}
