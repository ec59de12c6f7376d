-------------------------------- MODULE Pes --------------------------------
(* Packetized elementary stream carrying VPx frames, and its transport-stream packets.

   A frame (or each part of a VP9 superframe) is sent as one PES packet with time stamp and
   BCMV header, followed, when longer than MaxPay bytes, by continuation packets without.
   Packet = 00 00 01 E0, 16-bit length, then the escaped body: 9 header bytes, [10 BCMV
   bytes,] payload.  Escaping inserts 03 before a 01 or 03 that follows two zero bytes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT MaxPay            \* 32768 in the implementation
MinOf(S) == CHOOSE i \in S : \A k \in S : i <= k
Sorted(S) == SetToSortSeq(S, <)

\* ------------------------------------------------------------ escaping
EscPoints(s) == {i \in 3..Len(s) : s[i] \in {1, 3} /\ s[i-1] = 0 /\ s[i-2] = 0}
\* cut s before each index in the sorted sequence es, joining the pieces with a 03
Escape(s) ==
  LET es == Sorted(EscPoints(s))
      piece(k) == SubSeq(s, IF k = 0 THEN 1 ELSE es[k], IF k = Len(es) THEN Len(s) ELSE es[k+1] - 1)
  IN FoldLeft(LAMBDA acc, k : acc \o <<3>> \o piece(k), piece(0), [k \in 1..Len(es) |-> k])
\* indices of inserted bytes in an escaped body
RECURSIVE DropPoints(_, _, _)
DropPoints(cands, i, acc) ==   \* cands: sorted indices of 03 preceded by two zeros
  IF i > Len(cands) THEN acc ELSE DropPoints(cands, i + 1, acc \union {cands[i]})
Unescape(s) ==
  LET ds == Sorted({i \in 3..Len(s) : s[i] = 3 /\ s[i-1] = 0 /\ s[i-2] = 0})
      piece(k) == SubSeq(s, IF k = 0 THEN 1 ELSE ds[k] + 1, IF k = Len(ds) THEN Len(s) ELSE ds[k+1] - 1)
  IN FoldLeft(LAMBDA acc, k : acc \o piece(k), piece(0), [k \in 1..Len(ds) |-> k])
StartCodes(s) == {i \in 1..Len(s)-2 : s[i] = 0 /\ s[i+1] = 0 /\ s[i+2] = 1}

\* ------------------------------------------------------------ time stamps
\* nanoseconds given as <<ms, rem>>; 33-bit tick count as <<3 bits, 15 bits, 15 bits>>
Ticks(ms, rem) ==
  LET a == ms \div 32768  b == ms % 32768
      lo == b * 90 + (rem * 9) \div 100000
      mid == a * 90 + lo \div 32768
  IN <<(mid \div 32768) % 8, mid % 32768, lo % 32768>>
Dec1(p) == IF p[3] > 0 THEN <<p[1], p[2], p[3] - 1>>
           ELSE IF p[2] > 0 THEN <<p[1], p[2] - 1, 32767>> ELSE <<(p[1] + 7) % 8, 32767, 32767>>
Inc1(p) == IF p[3] < 32767 THEN <<p[1], p[2], p[3] + 1>>
           ELSE IF p[2] < 32767 THEN <<p[1], p[2] + 1, 0>> ELSE <<(p[1] + 1) % 8, 0, 0>>
TickOk(p, ms, rem) == LET t == Ticks(ms, rem) IN p = t \/ p = Dec1(t) \/ p = Inc1(t)   \* rounding: within one tick
PtsBytes(p) == << 32 + p[1] * 2 + 1, p[2] \div 128, (p[2] % 128) * 2 + 1, p[3] \div 128, (p[3] % 128) * 2 + 1>>
PtsOf(b) == << (b[1] \div 2) % 8, b[2] * 128 + b[3] \div 2, b[4] * 128 + b[5] \div 2 >>
PtsMarkersOk(b) == b[1] \div 16 = 2 /\ b[1] % 2 = 1 /\ b[3] % 2 = 1 /\ b[5] % 2 = 1

\* ------------------------------------------------------------ superframes
\* sequence of <<offset, length>> of the frames in b; [err] for a malformed index
Super(b) ==
  LET n == Len(b)
      m == IF n = 0 THEN 0 ELSE b[n]
      isIdx == m \div 32 = 6
      cnt == (m % 8) + 1
      w == ((m \div 8) % 4) + 1
      il == 2 + w * cnt
      body == n - il
      byte(i, j) == b[body + 1 + (i - 1) * w + j]      \* j-th length byte (1-based) of frame i
      \* lengths above 2^24 never fit the frames used here: saturate
      flen(i) == FoldLeft(LAMBDA a, j : IF j = 4 /\ byte(i, j) # 0 THEN 999999999
                                         ELSE a + byte(i, j) * (IF j = 1 THEN 1 ELSE IF j = 2 THEN 256 ELSE IF j = 3 THEN 65536 ELSE 0),
                          0, [j \in 1..w |-> j])
      offs == FoldLeft(LAMBDA a, i : IF a.bad \/ flen(i) > body - a.o THEN [a EXCEPT !.bad = TRUE]
                                     ELSE [bad |-> FALSE, o |-> a.o + flen(i), r |-> Append(a.r, <<a.o, flen(i)>>)],
                       [bad |-> FALSE, o |-> 0, r |-> <<>>], [i \in 1..cnt |-> i])
  IN IF ~isIdx THEN [idx |-> FALSE, err |-> FALSE, r |-> <<>>]
     ELSE IF n < il THEN [idx |-> TRUE, err |-> TRUE, r |-> <<>>]
     ELSE IF b[body + 1] # m THEN [idx |-> TRUE, err |-> TRUE, r |-> <<>>]
     ELSE [idx |-> TRUE, err |-> offs.bad, r |-> offs.r]

Parts(codec, b) == IF codec = 9 /\ Super(b).idx THEN Super(b).r ELSE <<<<0, Len(b)>>>>
Refused(codec, b) == \/ Len(b) = 0
                     \/ codec = 9 /\ Super(b).err
                     \/ codec = 9 /\ Super(b).idx /\ \E i \in 1..Len(Super(b).r) : Super(b).r[i][2] = 0

\* ------------------------------------------------------------ packets
OptHdr(pts) == <<128, 128, 6>> \o PtsBytes(pts) \o <<255>>
OptHdrFrag == <<128, 0, 6, 255, 255, 255, 255, 255, 255>>
Be4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Bcmv(n) == <<66, 67, 77, 86>> \o Be4(n + 10) \o <<0, 0>>
Pkt(body, len) == <<0, 0, 1, 224, len \div 256, len % 256>> \o Escape(body)
\* pieces of payload b: lengths
Min2(a, b) == IF a < b THEN a ELSE b
NPk(n) == IF n <= MaxPay THEN 1 ELSE (n + MaxPay - 1) \div MaxPay
Piece(b, k) == SubSeq(b, (k - 1) * MaxPay + 1, Min2(Len(b), k * MaxPay))
PacketsOf(b, pts) ==
  FoldLeft(LAMBDA acc, k : acc \o LET q == Piece(b, k) IN
             IF k = 1 THEN Pkt(OptHdr(pts) \o Bcmv(Len(b)) \o q, 19 + Len(q)) ELSE Pkt(OptHdrFrag \o q, 9 + Len(q)),
           <<>>, [k \in 1..NPk(Len(b)) |-> k])

(* Decoding a stream: split at start codes, unescape each body, check its header and length.
   Result: sequence of [pts, first, b], or error text. *)
Decode(s) ==
  LET sc == Sorted(StartCodes(s))
      n == Len(sc)
      raw(k) == SubSeq(s, sc[k], IF k = n THEN Len(s) ELSE sc[k+1] - 1)
      pk(k) == LET q == raw(k)
                   body == Unescape(SubSeq(q, 7, Len(q)))
                   hasPts == Len(body) >= 9 /\ body[2] = 128
                   plen == IF Len(q) < 6 THEN -1 ELSE q[5] * 256 + q[6]
                   okHdr == /\ Len(q) >= 6 /\ q[4] = 224 /\ Len(body) >= 9
                            /\ body[1] = 128 /\ body[3] = 6 /\ body[9] = 255
                            /\ IF hasPts THEN PtsMarkersOk(SubSeq(body, 4, 8)) ELSE SubSeq(body, 1, 9) = OptHdrFrag
                   okB == hasPts => Len(body) > 19 /\ SubSeq(body, 10, 13) = <<66, 67, 77, 86>> /\ SubSeq(body, 18, 19) = <<0, 0>>
               IN IF ~okHdr THEN [bad |-> "malformed packet header"]
                  ELSE IF ~okB THEN [bad |-> "malformed BCMV header"]
                  ELSE IF plen # Len(body) THEN [bad |-> "packet length"]
                  ELSE IF hasPts THEN [bad |-> "", first |-> TRUE, pts |-> PtsOf(SubSeq(body, 4, 8)), len |-> SubSeq(body, 14, 17), b |-> SubSeq(body, 20, Len(body))]
                  ELSE [bad |-> "", first |-> FALSE, pts |-> <<>>, len |-> <<>>, b |-> SubSeq(body, 10, Len(body))]
  IN IF n = 0 \/ sc[1] # 1 THEN <<[bad |-> "no start code at the beginning"]>>
     ELSE [k \in 1..n |-> pk(k)]

\* Group decoded packets into frames: sequence of [bad, pts, b]
Frames(s) ==
  LET ps == Decode(s)
      anybad == {k \in 1..Len(ps) : ps[k].bad # ""}
      step(acc, k) == IF ps[k].first THEN Append(acc, [bad |-> "", pts |-> ps[k].pts, len |-> ps[k].len, b |-> ps[k].b])
                      ELSE IF acc = <<>> THEN <<[bad |-> "continuation without start"]>>
                      ELSE [acc EXCEPT ![Len(acc)].b = @ \o ps[k].b]
  IN IF anybad # {} THEN <<[bad |-> ps[MinOf(anybad)].bad]>>
     ELSE FoldLeft(step, <<>>, [k \in 1..Len(ps) |-> k])

(* Reading a stream of any origin: the frame that starts at or after index pos.
   st: "ok"  a frame made of canonical packets: it must be returned
       "may" a frame whose packets set header bits the writer never sets: it may be returned
       "no"  no frame: the bytes before a start code are skipped, then stream id, header fields,
             marker, stuffing and padding must be right, and exactly the declared payload must
             follow, either in this packet or completed by packets without time stamp.
   A returned frame has the payload b and the time stamp pts (<<>> = not stated), and the next
   frame is looked for from index next on. *)
\* the first n bytes of the escaped text from p on: [ok, b, next]
Take(s, p, n) ==
  LET kept == SelectSeq([i \in 1..(Len(s) - p + 1) |-> p + i - 1],
                        LAMBDA i : ~(i > 2 /\ s[i] = 3 /\ s[i-1] = 0 /\ s[i-2] = 0))
  IN IF n = 0 \/ n > Len(kept) THEN [ok |-> FALSE, b |-> <<>>, next |-> 0]
     ELSE [ok |-> TRUE, b |-> [i \in 1..n |-> s[kept[i]]], next |-> kept[n] + 1]
NoFrame == [st |-> "no", b |-> <<>>, pts |-> <<>>, next |-> 0]
\* packet header at or after pos: [ok, strict, sid, len, pts, next], next = first index after the 9 header bytes
Header(s, pos) ==
  LET sc == {i \in pos..(Len(s) - 5) : s[i] = 0 /\ s[i+1] = 0 /\ s[i+2] = 1}
      i == MinOf(sc)
      t == Take(s, i + 6, 9)
      o == t.b
      has == o[2] >= 128
      okPts == o[4] % 2 = 1 /\ o[6] % 2 = 1 /\ o[8] % 2 = 1
      bad == [ok |-> FALSE, strict |-> FALSE, sid |-> 0, len |-> 0, pts |-> <<>>, has |-> FALSE, next |-> 0]
  IN IF sc = {} THEN bad
     ELSE IF s[i+3] \notin 224..239 \/ ~t.ok THEN bad
     ELSE IF o[3] # 6 \/ (has /\ (~okPts \/ o[9] # 255)) \/ (~has /\ \E q \in 4..9 : o[q] # 255) THEN bad
     ELSE [ok |-> TRUE, strict |-> o[1] = 128 /\ o[2] \in {0, 128} /\ (has => o[4] \div 16 = 2),
           sid |-> s[i+3], len |-> s[i+4] * 256 + s[i+5], has |-> has,
           pts |-> IF has THEN PtsOf(SubSeq(o, 4, 8)) ELSE <<>>, next |-> t.next]
RECURSIVE Continue(_, _, _, _, _)
Continue(s, pos, need, acc, first) ==   \* need bytes are still missing
  IF need = 0 THEN [first EXCEPT !.b = acc, !.next = pos]
  ELSE LET h == Header(s, pos)
           t == Take(s, h.next, h.len - 9)
       IN IF ~h.ok THEN NoFrame
          ELSE IF h.has \/ h.len <= 9 \/ h.len - 9 > need THEN NoFrame
          ELSE IF ~t.ok THEN NoFrame
          ELSE Continue(s, t.next, need - (h.len - 9), acc \o t.b,
                        IF h.strict /\ h.sid = s[MinOf({i \in 1..(Len(s) - 2) : s[i] = 0 /\ s[i+1] = 0 /\ s[i+2] = 1}) + 3]
                        THEN first ELSE [first EXCEPT !.st = "may"])
ParseNext(s, pos) ==
  LET h == Header(s, pos)
      c == Take(s, h.next, 10)
      m == c.b
      n == m[6] * 65536 + m[7] * 256 + m[8] - 10
      whole == Take(s, c.next, n)
      part == Take(s, c.next, h.len - 19)
      f == [st |-> IF h.strict /\ h.has THEN "ok" ELSE "may", b |-> <<>>, pts |-> h.pts, next |-> 0]
  IN IF ~h.ok THEN NoFrame
     ELSE IF ~c.ok THEN NoFrame
     ELSE IF SubSeq(m, 1, 4) # <<66, 67, 77, 86>> \/ m[9] # 0 \/ m[10] # 0 \/ m[5] # 0 \/ n <= 0 THEN NoFrame
     ELSE IF h.len = 0 \/ h.len = n + 19
          THEN IF whole.ok THEN [f EXCEPT !.b = whole.b, !.next = whole.next] ELSE NoFrame
     ELSE IF h.len <= 19 \/ h.len - 19 > n THEN NoFrame
     ELSE IF ~part.ok THEN NoFrame
     ELSE Continue(s, part.next, n - (h.len - 19), part.b, f)

\* ------------------------------------------------------------ transport stream
\* the packets for one unit of data, starting with continuity counter cc
TsPackets(data, cc0) ==
  LET size(left) == IF left >= 184 THEN 184 ELSE IF left = 183 THEN 182 ELSE left
      RECURSIVE go(_, _, _, _)
      go(pos, cc, first, acc) ==
        IF pos > Len(data) THEN [pk |-> acc, cc |-> cc]
        ELSE LET n == size(Len(data) - pos + 1)
                 full == n = 184
                 hdr == <<71, IF first THEN 64 ELSE 0, 32, (IF full THEN 16 ELSE 48) + cc>>
                 adapt == IF full THEN <<>> ELSE <<183 - n, 0>> \o [i \in 1..(182 - n) |-> 255]
             IN go(pos + n, (cc + 1) % 16, FALSE, Append(acc, hdr \o adapt \o SubSeq(data, pos, pos + n - 1)))
  IN go(1, cc0, TRUE, <<>>)
\* decoding one 188-byte packet
TsDecode(p) ==
  LET ad == (p[4] \div 32) % 2 = 1
      al == IF ad THEN p[5] + 1 ELSE 0
  IN [ok |-> /\ p[1] = 71 /\ p[2] \in {0, 64} /\ p[3] = 32 /\ p[4] \div 64 = 0 /\ (p[4] \div 16) % 2 = 1
             /\ 4 + al <= 188
             /\ (ad => al >= 2 /\ p[6] = 0 /\ \A i \in 7..(4 + al) : p[i] = 255),
      start |-> p[2] = 64, cc |-> p[4] % 16,
      pay |-> SubSeq(p, 5 + al, 188)]
=============================================================================
