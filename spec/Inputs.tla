-------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Inputs written from the specification: for every part of the format the *)
(* values at which its behaviour changes, enumerated.  Jobs(topic) is a    *)
(* sequence of [b, cp, atb]; what has to come out of each is decided by    *)
(* LnkParse like for any other input.                                      *)
(***************************************************************************)
EXTENDS Build, Json, IOUtils

Deep == IOEnv.TIER = "thorough"
J(b) == [b |-> b, cp |-> "cp1252", atb |-> TRUE]
Jcp(b, cp) == [b |-> b, cp |-> cp, atb |-> TRUE]
Jat(b, atb) == [b |-> b, cp |-> "cp1252", atb |-> atb]
SetSeq(S0) == SetToSeq(S0)
Seq2(f(_, _), m, n) == AsSeq([k \in 1..(m * n) |-> f(1 + (k - 1) \div n, 1 + ((k - 1) % n))])
Chunk(s, n) == AsSeq([k \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, n * (k - 1) + 1, Min2(Len(s), n * k))])

V4 == << <<0,0,0,0>>, <<1,0,0,0>>, <<2,0,0,0>>, <<127,0,0,0>>, <<128,0,0,0>>, <<255,0,0,0>>, <<0,1,0,0>>,
         <<255,127,0,0>>, <<0,128,0,0>>, <<255,255,0,0>>, <<0,0,1,0>>, <<255,255,255,127>>, <<0,0,0,128>>,
         <<1,0,0,128>>, <<255,255,255,255>>, <<254,255,255,255>>, <<18,52,86,120>>, <<154,188,222,240>>,
         <<0,0,255,255>>, <<0,0,0,1>>, <<0,0,1,128>> >>
V2 == << <<0,0>>, <<1,0>>, <<2,0>>, <<127,0>>, <<128,0>>, <<255,0>>, <<0,1>>, <<255,127>>, <<0,128>>, <<1,128>>,
         <<255,255>>, <<254,255>>, <<18,52>> >>

WithHdr(h) == Link([Doc0 EXCEPT !.hdr = h])
WithExtra(e) == Link([Doc0 EXCEPT !.extra = e])
WithList(l) == Link([Doc0 EXCEPT !.list = l])
WithInfo(i) == Link([Doc0 EXCEPT !.info = i, !.strs[1] = StrA(A("after"))])
OneExtra(blk) == WithExtra(blk \o L4(0))

(* a link with something of everything, to stand around what is varied *)
FILE1 == FileIt(50, L4(1234), DosOf(2020, 2, 29, 23, 59, 58), L2(32), Z(A("a.txt")))
FILE2 == FileIt(53, L4(0), DosOf(1999, 12, 31, 0, 0, 2), L2(16), ZW(<<8364, 65>>))
ROOT1 == RootIt(31, 80, G(224))
VOL1 == VolNameIt(47, Pad(A("C:\\"), 22))
INFO1 == InfoOf(L4(1), 28, << Part("vol", VolAnsi(L4(3), L4(305419896), Z(A("disk")))),
                              Part("base", Z(A("C:\\dir\\a.txt"))), Part("suffix", <<0>>) >>)
INFON == InfoOf(L4(2), 28, << Part("net", NetAnsi(L4(3), <<0, 0, 26, 0>>, Z(A("\\\\srv\\share")), Z(A("Z:")))),
                              Part("suffix", Z(A("dir\\a.txt"))) >>)
STRS == << StrA(A("name")), StrA(A(".\\a.txt")), StrA(A("C:\\dir")), StrA(A("-x 1")), StrA(A("icon.dll")) >>
STRSW == << StrW(A("name")), StrW(A(".\\a.txt")), StrW(A("C:\\dir")), StrW(A("-x 1")), StrW(A("icon.dll")) >>
TRACK1 == Tracker(L4(88), L4(0), A("host"), G(1), G(2), G(3), G(4))
STRS0(uni) == IF uni THEN STRSW ELSE STRS
UNK1 == Block(SIG(13), <<1, 2, 3>>)
RICH == [hdr |-> [Hdr0 EXCEPT !.times = FileTimeOf(2008, 9, 12, 73637, 1010000) \o FileTimeOf(2020, 2, 29, 1, 5)
                                        \o FileTimeOf(1999, 12, 31, 86399, 9999999)],
         list |-> IdListOf(<<ROOT1, VOL1, FILE1, FILE2>>), info |-> INFO1, strs |-> STRS, uni |-> FALSE,
         extra |-> SpecialFolder(L4(37), L4(40)) \o UNK1 \o TRACK1 \o L4(0)]
RICHW == [RICH EXCEPT !.info = INFON, !.strs = STRSW, !.uni = TRUE, !.list = IdListOf(<<ROOT1, FILE2>>),
          !.extra = Meta(<<PStore(G(9), <<PVal(L4(4), Typed(31, WStr(ZW(A("wide")))))>>)>>)
                    \o KnownFolder(G(7), L4(20)) \o Shim(ZW(A("layer"))) \o L4(0)]

(***************************************************************************)
(* C01 *)
HeaderJobs ==
  LET bit(k) == WithHdr([Hdr0 EXCEPT !.flags = {k}, !.attrs = {31 - k}])
      nbit(k) == WithHdr([Hdr0 EXCEPT !.flags = (0..31) \ {k}, !.attrs = (0..31) \ {k}])
      num(i) == WithHdr([Hdr0 EXCEPT !.fsize = V4[i], !.icon = V4[1 + (i % Len(V4))],
                                     !.res = SubSeq(V4[i], 1, 2) \o V4[1 + ((i + 3) % Len(V4))] \o V4[1 + ((i + 5) % Len(V4))]])
      show(n) == WithHdr([Hdr0 EXCEPT !.show = L4(n)])
      show4(i) == WithHdr([Hdr0 EXCEPT !.show = V4[i]])
      hs(n) == Link([RICH EXCEPT !.hdr.size = L4(n), !.hdr.pad = Fill(Max2(0, n - 76), 7)])
      hs0(n) == Link([RICH EXCEPT !.hdr.size = L4(n)])
      cls(i) == WithHdr([Hdr0 EXCEPT !.clsid = [CLSID EXCEPT ![i] = (CLSID[i] + 1) % 256]])
      clsg(i) == WithHdr([Hdr0 EXCEPT !.clsid = G(i)])
      res(i) == WithHdr([Hdr0 EXCEPT !.res = [Zeros(10) EXCEPT ![i] = i]])
  IN  AsSeq([k \in 1..32 |-> J(bit(k - 1))]) \o AsSeq([k \in 1..32 |-> J(nbit(k - 1))])
      \o AsSeq([i \in 1..Len(V4) |-> J(num(i))]) \o AsSeq([n \in 1..20 |-> J(show(n - 1))])
      \o << J(show(259)), J(show(263)), J(show(65539)), J(show(65543)), J(show(50331648)), J(show(117440512)) >>
      \o AsSeq([i \in 1..Len(V4) |-> J(show4(i))])
      \o AsSeq([k \in 1..12 |-> J(hs(<<76, 77, 78, 79, 80, 84, 92, 100, 128, 152, 256, 300>>[k]))])
      \o AsSeq([k \in 1..12 |-> J(hs0(<<0, 1, 2, 4, 20, 40, 75, 77, 100, 300, 65536, 2147483647>>[k]))])
      \o AsSeq([i \in 1..16 |-> J(cls(i))]) \o AsSeq([i \in 1..16 |-> J(clsg(i * 15))])
      \o AsSeq([i \in 1..10 |-> J(res(i))])
HotkeyJobs ==
  LET hot(lo, hi) == WithHdr([Hdr0 EXCEPT !.hot = <<lo, hi>>])
      mods == <<0, 1, 2, 4>>
      keys == <<0, 48, 90, 112, 145>>
  IN  IF Deep THEN Seq2(LAMBDA x, y : J(hot(x - 1, y - 1)), 256, 256)
      ELSE Seq2(LAMBDA x, y : J(hot(x - 1, mods[y])), 256, 4)
           \o Seq2(LAMBDA x, y : J(hot(keys[x], y - 1)), 5, 256)

(***************************************************************************)
(* C02: three instants per header, a hundred per ID list                   *)
Years == <<1, 4, 100, 400, 1000, 1500, 1582, 1600, 1601, 1602, 1604, 1700, 1800, 1899, 1900, 1904, 1969, 1970, 1971,
           1972, 1979, 1980, 1981, 1984, 1999, 2000, 2001, 2004, 2008, 2015, 2016, 2024, 2037, 2038, 2039, 2100,
           2106, 2107, 2108, 2400, 3000, 4000, 9999>>
Days == <<<<1, 1>>, <<1, 31>>, <<2, 28>>, <<2, 29>>, <<3, 1>>, <<4, 30>>, <<5, 31>>, <<6, 30>>, <<7, 1>>, <<8, 31>>,
          <<9, 30>>, <<10, 1>>, <<11, 30>>, <<12, 1>>, <<12, 31>>>>
Secs == <<0, 1, 59, 60, 3599, 3600, 43200, 86399>>
Subs == <<0, 1, 9, 10, 15, 1000, 9999, 10000, 5000000, 9999989, 9999990, 9999999>>
FileTimes ==
  LET one(y, d) == LET h == (y * 7 + d * 3)
                   IN  IF Days[d][2] > MonthLen(Years[y], Days[d][1]) THEN Zeros(8)
                       ELSE FileTimeOf(Years[y], Days[d][1], Days[d][2], Secs[1 + (h % 8)], Subs[1 + (h % 12)])
      sub(i, j) == FileTimeOf(2009, 6, 15, Secs[i], Subs[j])
      neg(i, j) == FileTimeOf(1599, 6, 15, Secs[i], Subs[j])
      bit(k) == AsSeq([i \in 1..8 |-> IF (k - 1) \div 8 = i - 1 THEN 2 ^ ((k - 1) % 8) ELSE 0])
      raw == << Fill(8, 255), Fill(7, 255) \o <<127>>, Zeros(7) \o <<128>>, <<1, 0, 0, 0, 0, 0, 0, 128>>,
                <<254>> \o Fill(7, 255), <<246>> \o Fill(7, 255), Zeros(4) \o Fill(4, 255), Fill(4, 255) \o Zeros(4),
                \* around 10000-01-01 and 0001-01-01
                FileTimeOf(10000, 1, 1, 5, 0), FileTimeOf(10000, 1, 2, 0, 0), FileTimeOf(9999, 12, 31, 86000, 0),
                FileTimeOf(9999, 12, 31, 86399, 9999999), FileTimeOf(1, 1, 1, 10, 0), FileTimeOf(0, 12, 31, 80000, 0),
                FileTimeOf(1600, 12, 31, 86399, 9999999), FileTimeOf(1601, 1, 1, 0, 1) >>
  IN  Seq2(one, Len(Years), Len(Days)) \o Seq2(sub, 8, 12) \o Seq2(neg, 8, 12)
      \o AsSeq([k \in 1..64 |-> bit(k)]) \o raw
DosDates ==
  LET ys == IF Deep THEN AsSeq([i \in 1..128 |-> i - 1]) ELSE <<0, 1, 4, 20, 21, 44, 100, 120, 127>>
      date(y, m, d) == L2(y * 512 + m * 32 + d) \o L2(((y + m + d) % 24) * 2048 + ((m * d) % 60) * 32 + ((y + d) % 30))
  IN  AsSeq([k \in 1..(Len(ys) * 16 * 32) |->
         date(ys[1 + (k - 1) \div 512], ((k - 1) \div 32) % 16, (k - 1) % 32)])
DosTimes ==
  LET hs == IF Deep THEN AsSeq([i \in 1..32 |-> i - 1]) ELSE <<0, 1, 11, 12, 22, 23, 24, 25, 31>>
      ms == IF Deep THEN AsSeq([i \in 1..64 |-> i - 1]) ELSE <<0, 1, 30, 58, 59, 60, 61, 63>>
      ss == IF Deep THEN AsSeq([i \in 1..32 |-> i - 1]) ELSE <<0, 1, 15, 28, 29, 30, 31>>
      t(i, j, k) == L2(20 * 512 + 2 * 32 + 29) \o L2(hs[i] * 2048 + ms[j] * 32 + ss[k])
      n == Len(ms) * Len(ss)
  IN  AsSeq([x \in 1..(Len(hs) * n) |->
         t(1 + (x - 1) \div n, 1 + ((x - 1) % n) \div Len(ss), 1 + ((x - 1) % Len(ss)))])
TimeJobs ==
  LET ft(ts) == WithHdr([Hdr0 EXCEPT !.times = Pad(Cat(ts), 24)])
      fs == Chunk(FileTimes, 3)
      dos(ts) == WithList(IdListOf([i \in 1..Len(ts) |-> FileIt(49, L4(i), ts[i], L2(16), Z(A("d")))]))
      ds == Chunk(DosDates \o DosTimes \o << <<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 255, 255>>, <<255, 255, 0, 0>>, Zeros(4) >>, 60)
  IN  AsSeq([i \in 1..Len(fs) |-> J(ft(fs[i]))]) \o AsSeq([i \in 1..Len(ds) |-> J(dos(ds[i]))])

(***************************************************************************)
(* C03: all combinations of the nine flags that decide the layout          *)
LayoutDoc(n, infos, hsize, listpad) ==
  LET f(k) == (n \div (2 ^ k)) % 2 = 1
      ss == IF f(7) THEN STRSW ELSE STRS
      lst == IF listpad >= 0 THEN LET l == Listed(<<ROOT1, FILE1>>) IN L2(Len(l) + listpad) \o l \o Fill(listpad, 77)
             ELSE LET l == Listed(<<ROOT1, FILE1>>) IN L2(Len(l) + listpad) \o SubSeq(l, 1, Len(l) + listpad)
  IN  Link([hdr |-> [Hdr0 EXCEPT !.flags = IF f(8) THEN {8} ELSE {}, !.size = L4(hsize), !.pad = Fill(hsize - 76, 9)],
            list |-> IF f(0) THEN lst ELSE <<>>, info |-> IF f(1) THEN infos ELSE <<>>,
            strs |-> AsSeq([i \in 1..5 |-> IF f(i + 1) THEN ss[i] ELSE <<>>]), uni |-> f(7),
            extra |-> SpecialFolder(L4(5), L4(6)) \o UNK1 \o L4(0)])
OddInfos ==
  << INFO1, INFON, InfoOf(L4(0), 28, << Part("gap", A("nothing of this kind")) >>),
     InfoOf(L4(4), 28, <<>>), InfoOf(L4(3), 36, << Part("vol", VolAnsi(L4(3), L4(1), <<0>>)), Part("base", <<0>>),
        Part("net", NetAnsi(L4(1), L4(0), Z(A("n")), <<>>)), Part("suffix", <<0>>), Part("basew", ZW(A("w"))), Part("suffixw", ZW(<<>>)) >>),
     INFO1 \o <<>>,
     \* padding inside of the declared size
     LET i == InfoOf(L4(1), 28, << Part("vol", VolAnsi(L4(3), L4(1), <<0>>)), Part("base", <<0>>), Part("gap", Fill(50, 66)) >>) IN i,
     \* a volume far outside, flags of a share
     L4(60) \o L4(28) \o L4(1) \o <<0, 0, 0, 64>> \o Zeros(12) \o Fill(32, 65),
     L4(60) \o L4(28) \o L4(2) \o Zeros(8) \o <<255, 255, 255, 255>> \o Zeros(4) \o Fill(32, 65),
     \* smaller than any LinkInfo
     L4(4), L4(5) \o <<9>>, L4(12) \o L4(28) \o L4(0), L4(12) \o L4(28) \o L4(1) >>
LayoutJobs ==
  LET few(n) == AsSeq([k \in 1..Len(OddInfos) |-> Jat(LayoutDoc(n, OddInfos[k], 76, 0), k % 2 = 0)])
      ns == IF Deep THEN AsSeq([i \in 1..256 |-> 2 * i - 2 + 2 * (((i - 1)) % 2)])
            ELSE <<2, 3, 7, 130, 131, 135, 258, 259, 14, 34, 254, 255, 383, 511>>
  IN  AsSeq([n \in 1..512 |-> J(LayoutDoc(n - 1, IF n % 3 = 0 THEN INFON ELSE INFO1, 76, 0))])
      \o Cat([i \in 1..Len(ns) |-> few(ns[i])])
      \o Seq2(LAMBDA x, y : J(LayoutDoc(<<1, 3, 131, 255>>[x], INFO1, 76, y - 6)), 4, 40)
      \o Seq2(LAMBDA x, y : J(LayoutDoc(<<0, 3, 131, 255>>[x], INFO1, 75 + y, 0)), 4, 8)

(***************************************************************************)
(* C04: how lists are walked                                               *)
Body(t) == <<t>> \o Fill(34, 0)
ItemJobs ==
  LET types == AsSeq([i \in 1..256 |-> i - 1])
      byType(b(_)) == AsSeq([k \in 1..16 |-> WithList(IdListOf([i \in 1..16 |-> b(16 * (k - 1) + i - 1)]))])
      many(n) == WithList(IdListOf([i \in 1..n |-> IF i % 5 = 0 THEN <<114>> ELSE FileIt(49, L4(i), Zeros(4), L2(i % 50), Z(A("n")))]))
      \* the text of an item without an end, then another item
      runon(d) == WithList(IdListOf(<<d, FILE1, ROOT1>>))
      \* bytes behind the terminal of the list, which would be items
      behind(ds, more) == LET l == Listed(ds) \o Items0(more) \o <<0, 0>> IN WithList(L2(Len(l)) \o l)
      \* a list without a terminal: the next section must not be taken for items
      open(ds) == LET l == Items0(ds) IN Link([Doc0 EXCEPT !.list = L2(Len(l)) \o l, !.strs[1] = StrA(A("next"))])
      \* an item that claims to be longer than the list
      long(d, by) == LET l == It(FILE1) \o L2(Len(d) + 2 + by) \o d IN
                     Link([Doc0 EXCEPT !.list = L2(Len(l)) \o l, !.strs[1] = StrA(A("behind the list"))])
      cutItem(d, n) == WithList(IdListOf(<<ROOT1, SubSeq(d, 1, n), FILE2>>))
      kinds == << FILE1, FILE2, VOL1, VolIdIt(46, G(5)), ROOT1, NetIt(65, 192, Z(A("s")) \o Z(A("d")) \o Z(A("c"))),
                  ControlIt(113, G(6)), CategoryIt(L4(3)), CplWideIt(V4[17], ZW(A("p")), ZW(A("n")), ZW(A("c"))),
                  CplAnsiIt(V4[17], Z(A("p")), Z(A("n")), Z(A("c"))), UsersIt(A("CFSF"), FILE1, <<0, 0>>, G(7), G(8)),
                  <<114>>, <<82, 0>>, <<97, 1>>, <<115>>, <<80, 1, 2>> >>
      cuts == Cat([k \in 1..Len(kinds) |-> AsSeq([n \in 1..Min2(Len(kinds[k]), 64) |-> J(cutItem(kinds[k], n))])])
      pairs == Seq2(LAMBDA x, y : J(WithList(IdListOf(<<kinds[x], kinds[y]>>))), Len(kinds), Len(kinds))
  IN  AsSeq([k \in 1..16 |-> J(byType(LAMBDA t : Body(t))[k])])
      \o AsSeq([k \in 1..16 |-> J(byType(LAMBDA t : <<t>> \o Fill(34, 65))[k])])
      \o AsSeq([k \in 1..16 |-> J(byType(LAMBDA t : <<t>>)[k])])
      \o AsSeq([k \in 1..16 |-> J(byType(LAMBDA t : <<t>> \o G(t) \o G(t) \o G(t))[k])])
      \o AsSeq([n \in 1..13 |-> J(many(<<0, 1, 2, 3, 9, 10, 11, 12, 16, 17, 64, 100, 257>>[n]))])
      \o << J(runon(FileIt(49, L4(1), Zeros(4), L2(16), A("noend")))), J(runon(FileIt(53, L4(1), Zeros(4), L2(16), W16(A("noend"))))),
            J(runon(VolNameIt(47, A("noend")))), J(runon(NetIt(65, 192, A("noend")))), J(runon(NetIt(65, 192, Z(A("a")) \o A("noend")))),
            J(runon(CplWideIt(L4(0), W16(A("noend")), <<>>, <<>>))), J(runon(CplAnsiIt(L4(0), A("noend"), <<>>, <<>>))),
            J(runon(<<114>>)), J(runon(<<47>>)), J(runon(<<82>>)), J(runon(VolNameIt(47, A("averyverylongvolumename!"))))>>
      \o << J(behind(<<>>, <<FILE1>>)), J(behind(<<FILE1>>, <<ROOT1>>)), J(behind(<<ROOT1, FILE1>>, <<FILE2, VOL1>>)) >>
      \o << J(open(<<FILE1>>)), J(open(<<ROOT1, FILE2>>)), J(open(<<<<114>>>>)), J(open(<<<<49>>>>)) >>
      \o Seq2(LAMBDA x, y : J(long(kinds[x], <<1, 2, 5, 16, 200>>[y])), Len(kinds), 5)
      \o cuts \o pairs

(***************************************************************************)
(* C05: contents of items                                                  *)
ContentJobs ==
  LET L(d) == J(WithList(IdListOf(d)))
      Lk(d, k) == L(AsSeq(d))
      n == Len(V4)
      files == [i \in 1..16 |-> FileIt(48 + i - 1, V4[1 + (i % n)], DosOf(1980 + i * 7, 1 + (i % 12), i, i, i, 2 * i), V2[1 + (i % Len(V2))],
                                       IF ((i - 1) \div 4) % 2 = 1 THEN ZW(<<64 + i, 8364, 233>>) ELSE Z(<<64 + i, 128, 233>>))]
      hi == [i \in 1..16 |-> [files[i] EXCEPT ![1] = @ + 128]]
      sizes == [i \in 1..n |-> FileIt(50, V4[i], Zeros(4), V2[1 + (i % Len(V2))], Z(A("f")))]
      attrs == [i \in 1..Len(V2) |-> FileIt(50, L4(i), Zeros(4), V2[i], Z(A("f")))]
      tails == [i \in 1..8 |-> FileIt(50 + 4 * (i % 2), L4(1), Zeros(4), L2(0), (IF i % 2 = 1 THEN ZW(A("name")) ELSE Z(A("name"))) \o Fill(i, i))]
      bare == << FileIt(50, L4(1), Zeros(4), L2(0), <<>>), FileIt(54, L4(1), Zeros(4), L2(0), <<>>),
                 FileIt(54, L4(1), Zeros(4), L2(0), <<65>>), FileIt(54, L4(1), Zeros(4), L2(0), <<65, 0>>),
                 FileIt(54, L4(1), Zeros(4), L2(0), <<65, 0, 66>>), FileIt(50, L4(1), Zeros(4), L2(0), <<65>>),
                 FileIt(54, L4(1), Zeros(4), L2(0), <<0, 65, 0, 0>>), FileIt(54, L4(1), Zeros(4), L2(0), <<0, 0, 65, 0>>) >>
      vols == [i \in 1..16 |-> IF (i - 1) % 2 = 1 THEN VolNameIt(32 + i - 1, Pad(Z(<<64 + i>> \o A(":\\")), 22)) ELSE VolIdIt(32 + i - 1, G(i))]
      volnames == [i \in 1..26 |-> VolNameIt(47, Fill(i - 1, 65))]
      volnul == [i \in 1..22 |-> VolNameIt(41, [Fill(24, 66) EXCEPT ![i] = 0])]
      nets == [i \in 1..256 |-> NetIt(64 + (i % 16), i - 1, Z(A("\\\\s\\x")) \o Z(A("d")) \o Z(A("c")))]
      texts == << <<>>, Z(<<>>), Z(A("a")), A("a"), Z(<<>>) \o Z(<<>>), Z(A("a")) \o Z(<<>>), Z(A("a")) \o Z(A("b")), Z(A("a")) \o A("b"),
                  Z(<<>>) \o Z(A("b")) \o Z(A("c")), Z(A("a")) \o Z(A("b")) \o A("c"), Z(A("a")) \o Z(<<>>) \o Z(A("c")) \o Z(A("e")) >>
      nett == [k \in 1..(4 * Len(texts)) |-> NetIt(66, <<0, 64, 128, 192>>[1 + ((k - 1) % 4)], texts[1 + (k - 1) \div 4])]
      roots == [i \in 1..256 |-> RootIt(30 + (i % 2), i - 1, G(i % 256))]
      cats == [i \in 1..16 |-> CategoryIt(L4(i - 1))]
      catv == [i \in 1..n |-> CategoryIt(V4[i])]
      ctl == [i \in 1..8 |-> ControlIt(112 + (i % 2), G(i * 31))]
      w(t) == ZW(A(t))
      z(t) == Z(A(t))
      cpl == << CplWideIt(V4[17], w("C:\\x.cpl"), w("Name"), w("Comment")), CplWideIt(V4[18], w(""), w(""), w("")),
                CplWideIt(V4[15], w("p"), w(""), w("c")), CplAnsiIt(V4[17], z("C:\\x.cpl"), z("Name"), z("Comment")),
                CplAnsiIt(V4[18], z("p"), z(""), z("c")), CplAnsiIt(V4[14], z("p"), z("n"), <<>>),
                \* no comment; offsets outside
                <<0, 0>> \o V4[3] \o Zeros(12) \o L2(2) \o L2(0) \o w("p") \o w("n"),
                <<0, 0>> \o V4[3] \o Zeros(12) \o L2(500) \o L2(600) \o w("p") \o w("n"),
                <<0, 0>> \o V4[3] \o L2(2) \o L2(0) \o z("p") \o z("n"),
                <<0, 0>> \o V4[3] \o L2(300) \o L2(65535) \o z("p") \o z("n"),
                \* around the smallest Unicode form
                <<0, 0>> \o V4[3] \o Zeros(14), <<0, 0>> \o V4[3] \o Zeros(15), <<0, 0>> \o V4[3] \o Zeros(16), <<0, 0>> \o V4[3] \o Zeros(17),
                <<0, 0>> \o V4[3] \o Zeros(4), <<0, 0>> \o V4[3] \o L2(0) \o L2(1) \o z("pq") >>
      users == << UsersIt(A("CFSF"), FILE1, <<>>, G(7), G(8)), UsersIt(A("CFSF"), FILE2, <<0, 0>>, G(9), G(10)),
                  UsersIt(<<0, 255, 128, 65>>, FILE1, Fill(5, 3), G(11), G(12)),
                  UsersIt(A("ABCD"), files[8], <<1>>, G(13), G(14)) \o Fill(6, 1),
                  UsersIt(A("ABCD"), files[1], <<1>>, Zeros(16), Fill(16, 255)) >>
  IN  << L(files), L(hi), L(sizes), L(attrs), L(tails), L(bare), L(vols), L(cats), L(catv), L(ctl), L(cpl), L(users) >>
      \o AsSeq([k \in 1..3 |-> L(SubSeq(volnames, 9 * k - 8, Min2(26, 9 * k)))]) \o << L(volnul) >>
      \o AsSeq([k \in 1..8 |-> L(SubSeq(nets, 32 * k - 31, 32 * k))])
      \o << L(nett) >>
      \o AsSeq([k \in 1..8 |-> L(SubSeq(roots, 32 * k - 31, 32 * k))])
      \o AsSeq([k \in 1..Len(cpl) |-> L(<<ROOT1, cpl[k], FILE1>>)])
      \o AsSeq([k \in 1..Len(users) |-> L(<<ROOT1, users[k], FILE1>>)])

(***************************************************************************)
(* C06, C07: LinkInfo                                                      *)
Perms4 == << <<1,2,3,4>>, <<1,2,4,3>>, <<1,3,2,4>>, <<1,3,4,2>>, <<1,4,2,3>>, <<1,4,3,2>>, <<2,1,3,4>>, <<2,1,4,3>>,
             <<2,3,1,4>>, <<2,3,4,1>>, <<2,4,1,3>>, <<2,4,3,1>>, <<3,1,2,4>>, <<3,1,4,2>>, <<3,2,1,4>>, <<3,2,4,1>>,
             <<3,4,1,2>>, <<3,4,2,1>>, <<4,1,2,3>>, <<4,1,3,2>>, <<4,2,1,3>>, <<4,2,3,1>>, <<4,3,1,2>>, <<4,3,2,1>> >>
LocalJobs ==
  LET v(i) == Part("vol", VolAnsi(V4[1 + (i % Len(V4))], V4[1 + ((i + 7) % Len(V4))], Z(A("label"))))
      vw(i) == Part("vol", VolWide(L4(i % 8), V4[1 + (i % Len(V4))], ZW(<<76, 8364, 127866>>)))
      base == Part("base", Z(A("C:\\base")))
      suf == Part("suffix", Z(A("suffix.txt")))
      bw == Part("basew", ZW(<<67, 58, 92, 1078>>))
      sw == Part("suffixw", ZW(<<115, 8364>>))
      gap == Part("gap", Fill(7, 88))
      perm(k, i) == LET ps == <<v(i), base, suf, gap>> IN [j \in 1..4 |-> ps[Perms4[k][j]]]
      permw(k, i) == LET ps == <<vw(i), bw, base, sw>> IN [j \in 1..4 |-> ps[Perms4[k][j]]] \o <<suf>>
      net == Part("net", NetAnsi(L4(2), <<0, 0, 2, 0>>, Z(A("\\\\s")), Z(A("D:"))))
      I(f, hs, ps) == J(WithInfo(InfoOf(f, hs, ps)))
      subset(n, hs) == I(L4(1), hs, <<v(4)>> \o (IF n % 2 = 1 THEN <<base>> ELSE <<>>) \o (IF (n \div 2) % 2 = 1 THEN <<suf>> ELSE <<>>)
                                   \o (IF (n \div 4) % 2 = 1 THEN <<bw>> ELSE <<>>) \o (IF (n \div 8) % 2 = 1 THEN <<sw>> ELSE <<>>))
      lens(n) == I(L4(1), 28, <<Part("vol", VolAnsi(L4(3), L4(n), Z(Fill(n, 76)))), Part("base", Z(Fill(n + 1, 66))), Part("suffix", Z(Fill(n + 2, 67)))>>)
      \* a volume header whose label offset is near the one that means Unicode
      laboff(o) == I(L4(1), 28, <<Part("vol", L4(40) \o L4(3) \o L4(7) \o L4(o) \o A("abcdefghijklmno") \o <<0>> \o ZW(A("wide"))), base, suf>>)
      volsz(i) == I(L4(1), 28, <<Part("vol", V4[i] \o L4(3) \o L4(7) \o L4(16) \o Z(A("l"))), base, suf>>)
      volszw(i) == I(L4(1), 36, <<Part("vol", V4[i] \o L4(3) \o L4(7) \o L4(20) \o L4(24) \o A("none") \o ZW(<<76, 8364>>)), bw, base, suf, sw>>)
      \* the Unicode label near, at and behind the offsets of the header
      laboffw(o) == I(L4(1), 28, <<Part("vol", L4(60) \o L4(3) \o L4(7) \o L4(20) \o L4(o) \o ZW(A("abcdefghijklmno"))), base, suf>>)
      flag(i) == I(V4[i], 28, <<v(4), base, suf, net>>)
      flagw(i) == I(V4[i], 36, <<vw(4), base, suf, net, bw, sw>>)
      hdr(n) == I(L4(1), n, <<v(3), base, suf, bw, sw>>)
  IN  Seq2(LAMBDA k, i : I(L4(1), 28, perm(k, i)), 24, 2) \o Seq2(LAMBDA k, i : I(L4(1), 36, permw(k, i)), 24, 2)
      \o AsSeq([i \in 1..Len(V4) |-> I(L4(1), 28, <<v(i), base, suf>>)]) \o AsSeq([i \in 1..9 |-> I(L4(1), 36, <<vw(i), base, suf>>)])
      \o AsSeq([i \in 1..9 |-> I(L4(1), 28, <<Part("vol", VolAnsi(L4(i - 1), L4(i), Z(A("x")))), base, suf>>)])
      \o AsSeq([n \in 1..16 |-> subset(n - 1, 36)]) \o AsSeq([n \in 1..4 |-> subset(n - 1, 28)])
      \o AsSeq([n \in 1..10 |-> lens(<<0, 1, 2, 3, 4, 15, 16, 17, 100, 300>>[n])])
      \o AsSeq([o \in 1..10 |-> laboff(15 + o)]) \o AsSeq([i \in 1..Len(V4) |-> volsz(i)])
      \o AsSeq([i \in 1..Len(V4) |-> volszw(i)]) \o AsSeq([o \in 1..14 |-> laboffw(15 + o)])
      \o AsSeq([i \in 1..Len(V4) |-> flag(i)]) \o AsSeq([i \in 1..Len(V4) |-> flagw(i)])
      \o AsSeq([n \in 1..12 |-> hdr(<<28, 29, 30, 32, 35, 36, 37, 38, 40, 44, 64, 100>>[n])])
NetworkJobs ==
  LET pr(x) == <<0, 0, x, 0>>
      suf == Part("suffix", Z(A("x\\y.txt")))
      n1 == Z(A("\\\\server\\share"))
      d1 == Z(A("Z:"))
      I(n) == J(WithInfo(InfoOf(L4(2), 28, <<Part("net", n), suf>>)))
      Iw(n) == J(WithInfo(InfoOf(L4(2), 36, <<Part("net", n), suf, Part("basew", ZW(A("b"))), Part("suffixw", ZW(A("s")))>>)))
      prov(x) == I(NetAnsi(L4(2), pr(x), n1, <<>>))
      flag(i) == I(NetAnsi(V4[i], pr(46), n1, d1))
      raw(i) == I(NetAnsi(L4(2), V4[i], n1, d1))
      wide(m) == Iw(NetWide(L4(3), pr(46), n1, IF m % 2 = 1 THEN d1 ELSE <<>>, IF (m \div 2) % 2 = 1 THEN ZW(<<92, 1078, 8364>>) ELSE <<>>,
                            IF (m \div 4) % 2 = 1 THEN ZW(<<90, 58>>) ELSE <<>>))
      size(i) == I(LET n == NetAnsi(L4(3), pr(46), n1, d1) IN V4[i] \o SubSeq(n, 5, Len(n)))
      \* the offsets of the names the other way round, at the same place, empty names
      odd == << L4(40) \o L4(3) \o L4(20 + 3) \o L4(20) \o pr(46) \o Z(A("Z:")) \o Z(A("\\\\a")),
                L4(40) \o L4(3) \o L4(20) \o L4(20) \o pr(46) \o Z(A("same")),
                L4(22) \o L4(3) \o L4(20) \o L4(21) \o pr(46) \o Z(<<>>) \o Z(<<>>),
                L4(40) \o L4(3) \o L4(0) \o L4(0) \o pr(46) \o Z(A("none")),
                L4(40) \o L4(3) \o L4(19) \o L4(20) \o pr(46) \o Z(A("none")),
                L4(40) \o L4(3) \o L4(21) \o L4(0) \o pr(46) \o Zeros(8) \o Z(A("none")),
                L4(60) \o L4(3) \o L4(28) \o L4(0) \o pr(46) \o L4(33) \o L4(33) \o Z(A("ansi")) \o ZW(A("w")) >>
      \* with the offset of the name around the end of the short and of the long header
      around(n) == I(L4(60) \o L4(3) \o L4(n) \o L4(44) \o pr(46) \o L4(28) \o L4(34) \o ZW(<<119, 1078>>) \o ZW(<<90, 58, 8364, 97>>) \o Z(A("z")))
      lens(n) == I(NetAnsi(L4(3), pr(46), Z(Fill(n, 78)), Z(Fill(n + 1, 68))))
      \* the share between a gap and other parts
      place(k) == J(WithInfo(InfoOf(L4(2), 28, LET ps == <<Part("net", NetAnsi(L4(3), pr(46), n1, d1)), suf, Part("base", Z(A("b"))), Part("gap", Fill(5, 71))>>
                                              IN [j \in 1..4 |-> ps[Perms4[k][j]]])))
  IN  AsSeq([x \in 1..256 |-> prov(x - 1)]) \o AsSeq([i \in 1..Len(V4) |-> flag(i)]) \o AsSeq([i \in 1..Len(V4) |-> raw(i)])
      \o AsSeq([m \in 1..8 |-> wide(m - 1)]) \o AsSeq([i \in 1..Len(V4) |-> size(i)]) \o AsSeq([i \in 1..Len(odd) |-> I(odd[i])])
      \o AsSeq([n \in 1..13 |-> around(16 + n)])
      \o AsSeq([n \in 1..8 |-> lens(<<0, 1, 2, 3, 15, 16, 100, 300>>[n])]) \o AsSeq([k \in 1..24 |-> place(k)])

(***************************************************************************)
(* C08: the five strings                                                   *)
StringJobs ==
  LET doc(uni, ss) == Link([Doc0 EXCEPT !.uni = uni, !.strs = ss, !.extra = CodePageB(L4(932)) \o L4(0)])
      combo(n, uni) == doc(uni, AsSeq([i \in 1..5 |-> IF (n \div (2 ^ (i - 1))) % 2 = 1 THEN (IF uni THEN STRSW[i] ELSE STRS[i]) ELSE <<>>]))
      str(uni, n) == L2(n) \o Cat([k \in 1..n |-> IF uni THEN <<97 + (k % 26), k % 3>> ELSE <<97 + (k % 26)>>])
      lens == IF Deep THEN <<0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 258, 259, 260, 261, 262, 300, 511, 512, 513, 519, 520, 521, 1000, 4096, 32767, 32768, 65535>>
              ELSE <<0, 1, 2, 127, 128, 129, 255, 256, 257, 259, 260, 261, 262, 519, 520, 521, 1000>>
      \* what stands behind a string of more than 260 characters: the rest of it, or (as written by some) the next string at once
      one(uni, i, n) == doc(uni, [STRS0(uni) EXCEPT ![i] = str(uni, n)])
      atLimit(uni, i, n) == doc(uni, [STRS0(uni) EXCEPT ![i] = L2(n) \o SubSeq(str(uni, 260), 3, IF uni THEN 522 ELSE 262)])
      nul(uni, i, k) == doc(uni, [STRS0(uni) EXCEPT ![i] = IF uni THEN StrW([A("abcdefgh") EXCEPT ![k] = 0]) ELSE StrA([A("abcdefgh") EXCEPT ![k] = 0])])
      all(uni, n) == doc(uni, AsSeq([i \in 1..5 |-> str(uni, n)]))
  IN  Seq2(LAMBDA n, u : J(combo(n - 1, u = 2)), 32, 2)
      \o Cat([u \in 1..2 |-> Seq2(LAMBDA i, n : J(one(u = 2, i, lens[n])), 5, Len(lens))])
      \o Cat([u \in 1..2 |-> Seq2(LAMBDA i, n : J(atLimit(u = 2, i, <<261, 300, 1000, 65535>>[n])), 3, 4)])
      \o Cat([u \in 1..2 |-> Seq2(LAMBDA i, k : J(nul(u = 2, i, k)), 5, 8)])
      \o Seq2(LAMBDA u, n : J(all(u = 2, <<0, 1, 260>>[n])), 2, 3)

(***************************************************************************)
(* C09: how extra data is walked                                           *)
BlocksOf == <<Target(1, Z(A("%windir%")), ZW(A("%windir%"))), Console(Zeros(16), Zeros(12), ZW(A("Font")), Zeros(32)), TRACK1,
              CodePageB(L4(1252)), SpecialFolder(L4(1), L4(2)),
              Block(SIG(6), Pad(Z(A("w")), 260) \o Pad(ZW(A("abc")), 520)), Target(7, Z(A("i")), ZW(A("i"))), Shim(ZW(A("shim"))),
              Meta(<<>>), KnownFolder(G(3), L4(9)), ShellItems(<<FILE1>>), UNK1, Block(<<9, 9, 9, 9>>, <<>>)>>
ExtraJobs ==
  LET n == Len(BlocksOf)
      two(i, j) == WithExtra(BlocksOf[i] \o BlocksOf[j] \o L4(0))
      sig(lo, hi) == OneExtra(Block(<<lo, 0, 0, 160>>, Zeros(8)) \o Block(<<lo, hi, 0, 160>>, Zeros(800)))
      near(s) == OneExtra(Block(s, Zeros(800)))
      rot(k) == WithExtra(Cat([i \in 1..n |-> BlocksOf[1 + ((i * k) % n)]]) \o L4(0))
      many(m) == WithExtra(Cat([i \in 1..m |-> Block(<<i % 256, 1, 1, 1>>, Fill(i % 70, i))]) \o L4(0))
      tiny(m) == WithExtra(UNK1 \o L4(m) \o SIG(5) \o Zeros(8) \o UNK1 \o L4(0))
      appended(t, m, atb) == Jat(WithExtra(UNK1 \o L4(t) \o Fill(m, 90)), atb)
      app0(t, m, atb) == Jat(WithExtra(L4(t) \o Fill(m, 90)), atb)
      repeated(a, b) == WithExtra(SpecialFolder(L4(a), L4(1)) \o UNK1 \o SpecialFolder(L4(b), L4(2)) \o L4(0))
      lastBad == << WithExtra(SpecialFolder(L4(1), L4(2)) \o Block(SIG(5), L4(3)) \o L4(0)),
                    WithExtra(Block(SIG(5), L4(3)) \o SpecialFolder(L4(1), L4(2)) \o L4(0)),
                    WithExtra(KnownFolder(G(1), L4(2)) \o KnownFolder(G(2), L4(3)) \o KnownFolder(G(4), L4(5)) \o Block(SIG(11), G(9)) \o L4(0)),
                    WithExtra(ShellItems(<<FILE1>>) \o ShellItems(<<ROOT1, FILE2>>) \o L4(0)) >>
      noend(i) == WithExtra(BlocksOf[i])
      hash(m) == OneExtra(Block(<<1, 2, 3, 4>>, Fill(m, m % 256)))
  IN  Seq2(LAMBDA i, j : J(two(i, j)), n, n) \o Seq2(LAMBDA lo, hi : J(sig(lo - 1, hi)), 16, 1)
      \o AsSeq([i \in 1..12 |-> J(near(<<i, 0, 0, 161>>))]) \o AsSeq([i \in 1..12 |-> J(near(<<i, 0, 0, 32>>))])
      \o AsSeq([i \in 1..12 |-> J(near(<<i, 0, 1, 160>>))]) \o AsSeq([i \in 1..12 |-> J(near(<<160, 0, 0, i>>))])
      \o AsSeq([k \in 1..(n - 1) |-> J(rot(k))]) \o AsSeq([m \in 1..8 |-> J(many(<<0, 1, 2, 9, 10, 11, 40, 130>>[m]))])
      \o AsSeq([m \in 1..14 |-> J(tiny(m))])
      \o Cat([a \in 1..2 |-> Seq2(LAMBDA t, m : appended(t - 1, m - 1, a = 1), 4, 12)])
      \o Cat([a \in 1..2 |-> Seq2(LAMBDA t, m : app0(t - 1, <<0, 1, 4, 8, 63, 64, 65, 200>>[m], a = 1), 4, 8)])
      \o Seq2(LAMBDA a, b : J(repeated(a, b)), 3, 3) \o AsSeq([i \in 1..4 |-> J(lastBad[i])]) \o AsSeq([i \in 1..n |-> J(noend(i))])
      \o AsSeq([m \in 1..12 |-> J(hash(<<0, 1, 47, 48, 51, 52, 55, 56, 60, 64, 115, 116>>[m]))])

(***************************************************************************)
(* C10: contents of blocks                                                 *)
BlockJobs ==
  LET E1(blk) == J(OneExtra(blk))
      n == Len(V4)
      m == Len(V2)
      v4(i) == V4[1 + (i % n)]
      v2(i) == V2[1 + (i % m)]
      con(i) == Console(Cat([k \in 1..8 |-> v2(i + k)]), Cat([k \in 1..3 |-> v4(i + k)]), ZW(<<65 + i, 8364>>), Cat([k \in 1..8 |-> v4(i + 3 * k)]))
      conT(i) == LET b == con(i) IN L4(Len(b)) \o SIG(2) \o SubSeq(b, 9, 108 + 32) \o Cat([k \in 1..16 |-> v4(i + k)])
      face(k) == Console(Zeros(16), Zeros(12), IF k = 33 THEN Cat([x \in 1..32 |-> <<70, 0>>]) ELSE ZW(Fill(k - 1, 70)), Fill(32, 255))
      trk(i) == Tracker(IF i % 3 = 0 THEN L4(88) ELSE v4(i), IF i % 2 = 0 THEN L4(0) ELSE v4(i), Fill(i % 18, 77), G(i), G(i + 60), G(i + 120), G(i + 180))
      txt(s, a, w) == E1(Target(s, a, w))
      tlen(s, k) == txt(s, IF k < 260 THEN Z(Fill(k, 84)) ELSE Fill(260, 84), IF k < 260 THEN ZW(Fill(k, 87)) ELSE Cat([x \in 1..260 |-> <<87, 0>>]))
      junk(s) == txt(s, Z(A("short")) \o Fill(254, 71), ZW(A("wide")) \o Fill(510, 72))
      cut(i, k) == LET b == BlocksOf[i] IN E1(L4(Max2(8, Len(b) - k)) \o SubSeq(b, 5, Max2(8, Len(b) - k)))
      longer(i, k) == LET b == BlocksOf[i] IN E1(L4(Len(b) + k) \o SubSeq(b, 5, Len(b)) \o Fill(k, 66))
      dar(t) == E1(Block(SIG(6), Pad(Z(t), 260) \o Pad(ZW(t), 520)))
      P1 == A("w_1^VX!!!!!!!!!MKKSk")
      P2 == A("!!!!!!!!!!!!!!!!!!!!")
      P3 == A("@7]L@Mt%&AY9BI^ZHtY9")
      \* both texts without an end, and more behind them
      full(s, k) == E1(Block(SIG(s), (IF s = 6 THEN SubSeq(P1 \o Fill(260, 90), 1, 260) \o SubSeq(W16(P1 \o A("F>") \o P3 \o Fill(260, 91)), 1, 520) ELSE Fill(260, 65) \o Fill(520, 66)) \o Fill(k, 67)))
      darwins == << P1 \o A("EXCELFiles>") \o P3, P1 \o A(">") \o P3, P1 \o A("Feat") \o A("<"), P1 \o A("<"), P1, A("short"), <<>>,
                    P1 \o A("F>short"), P1 \o A("F>"), A(">") \o P3, A("ab>") \o P3, P2 \o A("x y>") \o P2, P1 \o A("F<G>") \o P3, P1 \o A("F>") \o P3 \o A("more"),
                    P1 \o A("F>") \o SubSeq(P3, 1, 19), SubSeq(P1, 1, 19) \o A(">") \o P3, P1 \o A("Feature without end"), P3 \o A("A>") \o P1,
                    P1 \o A("F>") \o P3 \o A(">") \o P2, P1 \o A("F>") \o P3 \o A("<") \o P2, P1 \o A("F<") \o P3 \o A("<") \o P2, P1 \o A("F<G<"), P1 \o A("F>>") \o P3,
                    P1 \o A("<>") \o P3, P1 \o A("><") \o P3, P1 \o A("F>") \o P3 \o A(">"), P1 \o A("F>") \o P3 \o <<62, 62, 62>> >>
      shims == << ZW(A("WIN95")), W16(A("noend")), ZW(<<>>), <<>>, <<65>>, ZW(<<8364, 1078>>), ZW(A("a")) \o ZW(A("b")), W16(A("ab")) \o <<0>>, Zeros(2) \o ZW(A("x")), ZW(Fill(300, 83)) >>
      sh(ds) == E1(ShellItems(ds))
      shx(body) == E1(Block(SIG(12), body))
  IN  AsSeq([i \in 1..n |-> E1(con(i))]) \o AsSeq([i \in 1..6 |-> E1(conT(i))]) \o AsSeq([k \in 1..33 |-> E1(face(k))]) \o AsSeq([i \in 1..40 |-> E1(trk(i))])
      \o AsSeq([i \in 1..n |-> E1(CodePageB(V4[i]))]) \o AsSeq([i \in 1..n |-> E1(SpecialFolder(V4[i], v4(i)))])
      \o AsSeq([i \in 1..n |-> E1(KnownFolder(G(i * 11), V4[i]))])
      \o Cat([s \in 1..2 |-> AsSeq([k \in 1..8 |-> tlen(<<1, 7>>[s], <<0, 1, 2, 100, 255, 258, 259, 260>>[k])])])
      \o << junk(1), junk(7), txt(1, Fill(260, 65), Zeros(520)), txt(7, Zeros(260), Fill(520, 65)),
            txt(1, Fill(260, 65), Fill(520, 66)), txt(7, Fill(260, 65), Fill(520, 66)), full(1, 12), full(6, 12), full(7, 12), full(1, 1), full(6, 2), full(7, 3),
            txt(1, Z(<<128, 233>>), ZW(<<8364, 127866>>)), txt(7, Z(<<129>>), Units(<<55296, 65, 0>>)) >>
      \o Seq2(LAMBDA i, k : cut(i, <<1, 2, 3, 4, 5, 8, 16, 60, 520, 521, 600, 780>>[k]), 11, 12)
      \o Seq2(LAMBDA i, k : longer(i, <<1, 2, 8, 600>>[k]), 11, 4)
      \o AsSeq([i \in 1..Len(darwins) |-> dar(darwins[i])]) \o AsSeq([i \in 1..Len(shims) |-> E1(Shim(shims[i]))])
      \o << sh(<<>>), sh(<<FILE1>>), sh(<<ROOT1, VOL1, FILE1, FILE2>>), sh(<<<<114>>, <<80>>, <<49>>>>), sh(<<ROOT1, <<31, 1>>, FILE1>>),
            shx(<<>>), shx(<<0>>), shx(<<0, 0, 5>>), shx(It(FILE1)), shx(It(FILE1) \o <<5>>), shx(It(FILE1) \o <<5, 0>>), shx(L2(80) \o FILE1),
            sh(AsSeq([i \in 1..40 |-> RootIt(31, i, G(i))])) >>

(***************************************************************************)
(* C11: property stores                                                    *)
StoreJobs ==
  LET M(ss) == J(OneExtra(Meta(ss)))
      raw(b) == J(OneExtra(Block(SIG(9), b)))
      w(t) == WStr(ZW(A(t)))
      num(ty, body) == PVal(L4(ty), Typed(ty, body))
      types(from, to) == PStore(G(1), [i \in 1..(to - from + 1) |-> num(from + i - 1, Fill(8, 1))])
      known == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 14, 16, 17, 18, 19, 20, 21, 22, 23, 30, 31, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73>>
      vec == <<4098, 4099, 4100, 4101, 4102, 4103, 4104, 4106, 4107, 4108, 4112, 4113, 4114, 4115, 4116, 4117, 4126, 4127, 4160, 4167, 4168>>
      arr == <<8194, 8195, 8196, 8197, 8198, 8199, 8200, 8202, 8203, 8204, 8206, 8208, 8209, 8210, 8211, 8214, 8215>>
      listed(ts) == PStore(G(2), [i \in 1..Len(ts) |-> num(ts[i], IF ts[i] = 31 THEN w("t") ELSE Fill(8, 3))])
      bad(ty) == M(<<PStore(G(3), <<num(ty, Fill(8, 1))>>)>>)
      i2(i) == PVal(V4[1 + (i % Len(V4))], Typed(2, V2[i] \o <<9, 9>>))
      str(cps, len) == PVal(L4(3), Typed(31, L4(len) \o ZW(cps)))
      nm(t, ty, body) == PNamed(ZW(A(t)), Typed(ty, body))
      resized(v, by) == LET s == Len(v) + by IN L4(Max2(1, s)) \o SubSeq(v, 5, Len(v))
      S0 == PStore(G(4), <<num(31, w("x")), num(2, <<1, 0, 0, 0>>)>>)
      \* names of every number of bytes, odd ones too, and without an end
      sized(k) == << PNamed(Pad(ZW(A("abc")), k), Typed(31, w("after"))), PNamed(SubSeq(W16(A("longer name")), 1, k), Typed(2, <<k, 1, 0, 0>>)), nm("z", 31, w("z")) >>
      pad(ty, p) == PVal(L4(8), L2(ty) \o L2(p) \o w("padded"))
  IN  << M(<<>>), M(<<PStore(G(1), <<>>)>>), M(<<PStore(NAMED, <<>>)>>), M(<<S0>>), M(<<S0, S0>>), M(<<S0, PStore(NAMED, <<nm("n", 31, w("v"))>>), S0>>),
         M(<<listed(known)>>), M(<<listed(vec)>>), M(<<listed(arr)>>), M(<<PStore(G(5), [i \in 1..Len(V2) |-> i2(i)])>>),
         M(<<PStore(G(6), [i \in 1..12 |-> str(Fill(i - 1, 65), i)])>>), M(<<PStore(G(6), [i \in 1..12 |-> str(A("abcdefgh"), i)])>>),
         M(<<PStore(G(7), <<str(A("abc"), 0), str(A("abc"), 200), str(<<>>, 1), str(<<8364, 127866>>, 4), PVal(L4(1), Typed(31, L4(3) \o W16(A("abc"))))>>)>>),
         M(<<PStore(NAMED, <<nm("one", 31, w("1")), nm("", 31, w("2")), nm("two", 2, <<255, 255, 0, 0>>), nm("three", 19, Zeros(4)),
                            PNamed(W16(A("noend")), Typed(31, w("q"))), PNamed(ZW(A("a")) \o ZW(A("b")), Typed(31, w("r"))), PNamed(<<>>, Typed(2, <<1, 0, 0, 0>>))>>)>>),
         M([i \in 1..30 |-> PStore(G(i), <<num(31, w("many"))>>)]), M(<<PStore(G(8), [i \in 1..60 |-> PVal(L4(i), Typed(31, w("v")))])>>),
         M(<<PStore(G(9), <<pad(31, 1), pad(2, 7), pad(31, 256)>>)>>), M(<<PStore(NAMED, Cat([k \in 1..22 |-> sized(k - 1)]))>>),
         raw(<<>>), raw(<<0>>), raw(<<0, 0, 0>>), raw(L4(0)), raw(L4(0) \o S0), raw(S0), raw(S0 \o <<0, 0, 0>>), raw(L4(3)), raw(L4(24) \o Zeros(20)),
         raw(L4(200) \o SubSeq(S0, 5, Len(S0)) \o L4(0)), raw(<<255, 255, 255, 255>> \o SubSeq(S0, 5, Len(S0)) \o L4(0)),
         M(<<SubSeq(NAMED, 1, 0) \o PStore([NAMED EXCEPT ![16] = 175], <<num(31, w("x"))>>)>>), M(<<PStore([NAMED EXCEPT ![1] = 4], <<num(31, w("x"))>>)>>) >>
      \o AsSeq([i \in 1..12 |-> bad(<<9, 12, 13, 15, 24, 29, 32, 74, 4096, 4105, 8192, 65535>>[i])])
      \o Seq2(LAMBDA x, k : M(<<PStore(G(10), <<resized(num(31, w("value")), <<-12, -8, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 10, 1000>>[k]), num(2, <<7, 0, 0, 0>>)>>)>>), 1, 14)
      \o AsSeq([k \in 1..22 |-> M(<<PStore(NAMED, sized(k - 1))>>)])
      \o Seq2(LAMBDA x, k : M(<<LET s == S0 IN resized(s, <<-12, -8, -5, -4, -3, -2, -1, 1, 2, 4, 50>>[k]), S0>>), 1, 11)
      \o AsSeq([i \in 1..Len(V4) |-> M(<<PStore(G(i), <<PVal(V4[i], Typed(31, w("id")))>>)>>)])
      \o AsSeq([i \in 1..Len(V4) |-> M(<<LET s == S0 IN SubSeq(s, 1, 4) \o V4[i] \o SubSeq(s, 9, Len(s))>>)])

(***************************************************************************)
(* C12: texts.  The code pages to use are named by the caller.             *)
CPS == JsonDeserialize(IOEnv.CODEPAGES)
CpNames == SetSeq(DOMAIN CPS)
TextJobs ==
  LET \* 8-bit texts at several places at once
      eight(t, cp) == Jcp(Link([Doc0 EXCEPT !.list = IdListOf(<<FileIt(50, L4(0), Zeros(4), L2(0), Z(t)), VolNameIt(47, Pad(Z(t), 24))>>),
                             !.info = InfoOf(L4(1), 28, <<Part("vol", VolAnsi(L4(3), L4(1), Z(t))), Part("base", Z(t)), Part("suffix", Z(t))>>),
                             !.strs = <<StrA(t), StrA(t), <<>>, StrA(t), <<>>>>, !.extra = Target(1, Z(t), <<>>) \o L4(0)]), cp)
      strs(t, cp) == Jcp(Link([Doc0 EXCEPT !.strs[1] = StrA(t), !.strs[4] = StrA(t)]), cp)
      all(cp) == Jcp(Link([Doc0 EXCEPT !.strs = AsSeq([i \in 1..5 |-> StrA([k \in 1..51 |-> 51 * (i - 1) + k])])]), cp)
      single(x, cp) == strs(<<65, x, 66>>, cp)
      u8 == << <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<65, 195, 169, 66>>, <<195>>, <<195, 65>>, <<226, 130>>, <<226, 130, 65>>, <<240, 159, 152>>,
               <<192, 128>>, <<193, 191>>, <<194, 128>>, <<194, 129>>, <<223, 191>>, <<224, 128, 128>>, <<224, 159, 191>>, <<224, 160, 128>>, <<237, 159, 191>>,
               <<237, 160, 128>>, <<237, 191, 191>>, <<238, 128, 128>>, <<239, 191, 189>>, <<239, 187, 191, 65>>, <<239, 191, 191>>, <<240, 128, 128, 128>>, <<240, 143, 191, 191>>,
               <<240, 144, 128, 128>>, <<240, 144, 128, 129>>, <<244, 143, 191, 191>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<248, 136, 128, 128, 128>>, <<255>>, <<254>>, <<128>>, <<129>>,
               <<191>>, <<129, 195, 169>>, <<195, 169, 129>>, <<195, 129>>, <<226, 129, 129>>, <<240, 144, 129, 141>>, <<195, 143>>, <<195, 144>>, <<195, 157>> >>
      \* units of UTF-16
      wide(us) == Jcp(Link([Doc0 EXCEPT !.uni = TRUE, !.list = IdListOf(<<FileIt(54, L4(0), Zeros(4), L2(0), Units(us) \o <<0, 0>>)>>),
                        !.strs = <<L2(Len(us)) \o Units(us), <<>>, <<>>, L2(Len(us)) \o Units(us), <<>>>>,
                        !.extra = Target(1, <<0>>, Units(us) \o <<0, 0>>) \o Shim(Units(us)) \o L4(0)]), "cp1252")
      units == <<65, 55296, 56320, 57343, 56319, 8364, 0>>
      tri(k) == <<units[1 + ((k - 1) \div 49)], units[1 + (((k - 1) \div 7) % 7)], units[1 + ((k - 1) % 7)]>>
      ws == << <<55357, 56832>>, <<55296, 56320>>, <<56319, 57343>>, <<55295>>, <<57344>>, <<65533>>, <<65534>>, <<65535>>, <<65279, 65>>, <<65534, 65>>, <<1, 2, 3>>, <<133>>, <<8232>>, <<160>>,
               <<256, 512>>, <<65, 256>>, <<256, 65>>, <<255, 65280>>, <<55357, 55357, 56832>>, <<55357, 56832, 56832>> >>
      spaces == << A(" a"), A("a "), A("  "), <<9, 65, 9>>, <<10, 65>>, <<65, 10>>, <<13, 10>>, <<32>>, <<1>>, <<127>> >>
      \* an odd number of bytes, with and without an end
      odd == << Jcp(WithList(IdListOf(<<FileIt(54, L4(0), Zeros(4), L2(0), <<65, 0, 66>>), FileIt(54, L4(0), Zeros(4), L2(0), <<0, 65, 0, 0, 0>>),
                                        FileIt(54, L4(0), Zeros(4), L2(0), <<65, 0, 0, 216, 66>>), FileIt(54, L4(0), Zeros(4), L2(0), <<65, 0, 0>>)>>)), "cp1252") >>
      \* double-byte code pages: all pairs of a lead byte, pairs torn apart
      Doubles == SelectSeq(CpNames, LAMBDA c : CPS[c].kind = "double")
      leads(cp) == SelectSeq(AsSeq([x \in 1..256 |-> x - 1]), LAMBDA x : ToString(x) \in DOMAIN CPS[cp].two)
      some(cp) == LET l == leads(cp) IN IF Deep THEN l ELSE AsSeq([k \in 1..9 |-> l[1 + ((k * k * 7) % Len(l))]])
      pairs(cp, x) == LET t == CPS[cp].two[ToString(x)]
                          ok == SelectSeq(AsSeq([y \in 1..255 |-> y]), LAMBDA y : t[y + 1] # -1)
                      IN  Cat([k \in 1..Len(ok) |-> <<x, ok[k]>>])
      every(cp, x) == Cat([y \in 1..255 |-> <<x, y, 65>>])
      torn(cp, x) == << <<x>>, <<65, x>>, <<x, x>>, <<x, 64>>, <<x, 128, x>>, <<x, 32, 65>>, <<129, 64, x>>, <<x, 161, 161, 65>>, <<195, 169, x>>, <<x, 92>>, <<x, 255>>, <<x, 127, 128>> >>
      arg(t, cp) == Jcp(Link([Doc0 EXCEPT !.strs[1] = StrA(SubSeq(t, 1, 7)), !.strs[4] = StrA(t), !.strs[5] = StrA(A("after"))]), cp)
      double(cp) == LET l == some(cp) IN
                    AsSeq([k \in 1..Len(l) |-> arg(pairs(cp, l[k]), cp)]) \o AsSeq([k \in 1..Len(l) |-> arg(every(cp, l[k]), cp)])
                    \o Cat([k \in 1..Min2(5, Len(l)) |-> LET t == torn(cp, l[k]) IN AsSeq([i \in 1..Len(t) |-> eight(t[i], cp)])])
  IN  Cat([i \in 1..Len(Doubles) |-> double(Doubles[i])])
      \o AsSeq([i \in 1..Len(u8) |-> eight(u8[i], "utf-8")]) \o AsSeq([i \in 1..Len(u8) |-> strs(u8[i] \o u8[1 + ((i * 5) % Len(u8))], "utf-8")])
      \o AsSeq([i \in 1..Len(u8) |-> strs(u8[i], Doubles[1 + (i % Len(Doubles))])])
      \o AsSeq([i \in 1..Len(CpNames) |-> all(CpNames[i])])
      \o Cat([i \in 1..Len(CpNames) |-> Cat([x \in 1..256 |-> IF x > 1 /\ (Deep \/ (CPS[CpNames[i]].one[x] = -1 /\ CPS[CpNames[i]].kind # "utf8")) THEN <<single(x - 1, CpNames[i])>> ELSE <<>>])])
      \o AsSeq([i \in 1..Len(u8) |-> eight(u8[i], "ascii")]) \o AsSeq([i \in 1..Len(u8) |-> eight(u8[i], "cp1252")])
      \o AsSeq([i \in 1..Len(u8) |-> strs(u8[i], CpNames[1 + (i % Len(CpNames))])])
      \o AsSeq([k \in 1..343 |-> wide(tri(k))]) \o AsSeq([i \in 1..Len(ws) |-> wide(ws[i])])
      \o AsSeq([i \in 1..Len(spaces) |-> eight(spaces[i], "cp1252")]) \o AsSeq([i \in 1..Len(spaces) |-> wide(spaces[i])]) \o odd

(***************************************************************************)
(* C13, C14: one number of a whole link replaced, everywhere               *)
PokeJobs ==
  LET b == Link(RICH)
      c == Link(RICHW)
      poke(l, i, v) == Jat([k \in 1..Len(l) |-> IF k >= i /\ k < i + Len(v) THEN v[k - i + 1] ELSE l[k]], (i % 2) = 0)
      vals == << <<255>>, <<0>>, <<128>> >>
      wides == << <<255, 255, 255, 255>>, <<255, 255, 255, 127>>, <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<3, 0, 0, 0>>, <<0, 0, 1, 0>> >>
      at(l, v, step) == AsSeq([k \in 1..((Len(l) - 76 - Len(v)) \div step) |-> poke(l, 77 + step * (k - 1), v)])
      step == IF Deep THEN 1 ELSE 2
  IN  Cat([i \in 1..Len(vals) |-> at(b, vals[i], step) \o at(c, vals[i], step)])
      \o Cat([i \in 1..Len(wides) |-> at(b, wides[i], IF Deep THEN 1 ELSE 4) \o at(c, wides[i], IF Deep THEN 1 ELSE 4)])

(***************************************************************************)
(* C14: a defect in each part, and in every two parts                      *)
DefectParts ==
  [list |-> << IdListOf(<<ROOT1, <<31, 1>>, FILE1>>), IdListOf(<<<<49, 0, 0>>, ROOT1, VolIdIt(46, <<1>>), FILE2>>), IdListOf(<<ROOT1, <<80, 1>>, FILE1>>),
               LET l == Items0(<<FILE1>>) \o <<9>> IN L2(Len(l)) \o l, LET l == Items0(<<FILE1>>) \o <<9, 0>> IN L2(Len(l)) \o l >>,
   info |-> << L4(60) \o L4(28) \o L4(1) \o <<0, 0, 0, 64>> \o Zeros(12) \o Fill(32, 65), L4(60) \o L4(28) \o L4(2) \o Zeros(8) \o <<255, 255, 255, 255>> \o Zeros(4) \o Fill(32, 65),
               InfoOf(L4(1), 28, <<Part("vol", VolAnsi(L4(3), L4(1), Z(<<129>>))), Part("base", Z(<<129, 65>>)), Part("suffix", Z(<<141>>))>>) >>,
   str |-> << StrA(<<129, 65>>), StrA(<<65, 143, 195>>) >>,
   extra |-> << Block(SIG(5), L4(1)) \o UNK1 \o KnownFolder(G(1), L4(2)), TRACK1 \o Block(SIG(3), Zeros(20)) \o Block(SIG(2), Zeros(99)) \o CodePageB(L4(7)),
                Block(SIG(9), L4(30) \o Zeros(30)) \o SpecialFolder(L4(1), L4(1)), Shim(Units(<<55296, 65>>)) \o UNK1,
                Block(SIG(6), Pad(A("short"), 260) \o Pad(ZW(A("short")), 520)) \o CodePageB(L4(8)), Block(SIG(12), L2(3) \o <<31>>) \o CodePageB(L4(9)),
                Tracker(L4(87), L4(0), A("m"), G(1), G(2), G(3), G(4)), Tracker(L4(88), L4(1), A("m"), G(1), G(2), G(3), G(4)), Tracker(L4(88), L4(0), <<129>>, G(1), G(2), G(3), G(4)) >>,
   hdr |-> << [RICH.hdr EXCEPT !.clsid = G(1)], [RICH.hdr EXCEPT !.res = [Zeros(10) EXCEPT ![1] = 1]], [RICH.hdr EXCEPT !.res = [Zeros(10) EXCEPT ![3] = 1]],
              [RICH.hdr EXCEPT !.res = [Zeros(10) EXCEPT ![10] = 1]], [RICH.hdr EXCEPT !.times = Fill(7, 255) \o <<127>> \o Zeros(16)],
              [RICH.hdr EXCEPT !.times = Zeros(8) \o Fill(7, 255) \o <<127>> \o Zeros(7) \o <<128>>], [RICH.hdr EXCEPT !.size = L4(77), !.pad = <<1>>] >>]
DefectJobs ==
  LET D == DefectParts
      n(k) == Len(D[k])
      put(d, k, i) == CASE k = "list" -> [d EXCEPT !.list = D.list[i]] [] k = "info" -> [d EXCEPT !.info = D.info[i]]
                        [] k = "str" -> [d EXCEPT !.strs[1 + (i % 2)] = D.str[i]]
                        [] k = "extra" -> [d EXCEPT !.extra = D.extra[i] \o L4(0)] [] OTHER -> [d EXCEPT !.hdr = D.hdr[i]]
      ks == <<"list", "info", "str", "extra", "hdr">>
      one == Cat([x \in 1..5 |-> AsSeq([i \in 1..n(ks[x]) |-> J(Link(put(RICH, ks[x], i)))])])
      two == Cat([x \in 1..5 |-> Cat([y \in 1..5 |-> IF x >= y THEN <<>> ELSE
               Seq2(LAMBDA i, j : J(Link(put(put(RICH, ks[x], i), ks[y], j))), n(ks[x]), n(ks[y]))])])
      clean == << J(Link(RICH)), J(Link(RICHW)), J(Link(Doc0)) >>
  IN  clean \o one \o two

(***************************************************************************)
(* C16: every prefix                                                       *)
PrefixJobs ==
  LET docs == << Link(RICH), Link(RICHW),
                 Link([Doc0 EXCEPT !.list = IdListOf(<<UsersIt(A("CFSF"), FILE1, <<0, 0>>, G(7), G(8)), NetIt(65, 192, Z(A("s")) \o Z(A("d")) \o Z(A("c")))>>),
                       !.info = InfoOf(L4(1), 36, <<Part("vol", VolWide(L4(3), L4(9), ZW(A("lbl")))), Part("base", Z(A("b"))), Part("suffix", Z(A("s"))),
                                Part("basew", ZW(A("bw"))), Part("suffixw", ZW(A("sw")))>>), !.extra = ShellItems(<<FILE1>>) \o TRACK1 \o UNK1 \o L4(0) \o Fill(9, 5)]),
                 Link([Doc0 EXCEPT !.info = InfoOf(L4(2), 36, <<Part("net", NetWide(L4(3), <<0, 0, 46, 0>>, Z(A("n")), Z(A("d")), ZW(A("nw")), ZW(A("dw")))), Part("suffix", Z(A("s")))>>)]),
                 Link([Doc0 EXCEPT !.extra = Console(Fill(16, 1), Fill(12, 2), ZW(A("Font")), Fill(32, 3)) \o L4(0)]) >>
      pre(d, atb) == AsSeq([k \in 1..(Len(d) - 75) |-> Jat(SubSeq(d, 1, 75 + k), atb)])
      big == Link([RICH EXCEPT !.extra = Target(1, Z(A("%windir%")), ZW(A("%windir%"))) \o Target(7, Z(A("i")), ZW(A("i"))) \o L4(0)])
      some(d) == LET n == (Len(d) - 76) \div 3 IN AsSeq([k \in 1..n |-> J(SubSeq(d, 1, Len(d) - 3 * (k - 1)))])
  IN  Cat([i \in 1..Len(docs) |-> pre(docs[i], i % 2 = 1)]) \o (IF Deep THEN pre(big, TRUE) ELSE some(big))

(***************************************************************************)
(* C18: commands: all paths over a small alphabet                          *)
Alphabet == <<97, 32, 9, 34, 92>>
RECURSIVE Words5(_)
Words5(n) == IF n = 0 THEN << <<>> >>
             ELSE LET w == Words5(n - 1) IN Cat([i \in 1..5 |-> AsSeq([k \in 1..Len(w) |-> <<Alphabet[i]>> \o w[k]])])
CommandJobs ==
  LET doc(r, a) == Link([Doc0 EXCEPT !.strs[2] = r, !.strs[4] = a])
      full == Cat([n \in 1..(IF Deep THEN 6 ELSE 5) |-> Words5(n - 1)])
      args == << <<>>, StrA(A("-x")), StrA(A("a \"b c\" \\")), StrA(<<>>), StrA(A(" lead")), StrA(A("trail ")) >>
      paths == << <<>>, StrA(<<>>), StrA(A("a b.exe")), StrA(A("a.exe")), StrA(A("dir\\")), StrA(A("my dir\\")), StrA(A("a\"b")), StrA(A("a\\\\\"b")), StrA(A("a \\\\")), StrA(<<97, 10, 98>>), StrA(<<97, 160, 98>>), StrA(<<97, 11, 98>>) >>
      \* the file ends before the string
      lost(fl, s) == Hdr([Hdr0 EXCEPT !.flags = fl]) \o s
  IN  AsSeq([i \in 1..Len(full) |-> J(doc(StrA(full[i]), IF i % 4 = 0 THEN StrA(full[i]) ELSE IF i % 4 = 1 THEN <<>> ELSE StrA(A("-x"))))])
      \o Seq2(LAMBDA p, a : J(doc(paths[p], args[a])), Len(paths), Len(args))
      \o << J(lost({3}, <<>>)), J(lost({3, 5}, <<>>)), J(lost({5}, <<1>>)), J(lost({3, 5}, StrA(A("a b")))), J(lost({3, 5}, StrA(A("a b")) \o <<3>>)),
            J(lost({3, 5}, StrA(A("a b")) \o <<3, 0>>)), J(lost({3, 5}, StrA(A("a b")) \o <<3, 0, 65>>)), J(lost({3, 5}, <<9, 0, 65>>)) >>

(***************************************************************************)
(* C17: texts that need care when printed                                  *)
Awkward ==
  << A(""), A(" "), A("a: b"), A("- a"), A("#a"), A("a #b"), A("'"), A("\""), A("'a'"), A("\"a\""), A("{a}"), A("[a]"), A("&a"), A("*a"), A("!a"), A("|"), A(">"), A("%a"), A("@a"), A("`a"),
     A("?"), A("? a"), A(":"), A("a:"), A("a,b"), A("null"), A("~"), A("true"), A("yes"), A("No"), A("1"), A("1.5"), A("0x10"), A("1e3"), A("2020-01-01"), A("12:30:00"), A("<<"), A("="), A("---"), A("..."),
     A("\\n"), A("C:\\new"), <<97, 10, 98>>, <<10>>, <<97, 10, 10, 98>>, <<97, 13, 98>>, <<9>>, <<97, 9, 98>>, <<1, 2>>, <<127>>, <<160>>, <<233>>, <<8364>>, <<8232>>, <<97, 8233, 98>>, <<65279>>, <<127866>>,
     A("EMPTY_LINE_PLACEHOLDER"), A("a EMPTY_LINE_PLACEHOLDERDATA"), <<10>> \o A("EMPTY_LINE_PLACEHOLDER: x"), A("Windows Shortcut Information:"), A("HEADER"), A("class"), A("r_x"),
     Cat([i \in 1..40 |-> A("word ")]), Cat([i \in 1..40 |-> A("longword")]), A("  lead"), A("trail  "), <<32, 10, 32>>, <<97, 10>>, <<10, 97>>, <<97, 32, 10, 98>> >>
OutputJobs ==
  LET W5(t) == Link([Doc0 EXCEPT !.uni = TRUE, !.strs = AsSeq([i \in 1..5 |-> StrW(t)]),
                    !.list = IdListOf(<<FileIt(54, L4(0), Zeros(4), L2(0), ZW(t)), ROOT1>>), !.extra = Target(1, <<0>>, ZW(t)) \o Shim(ZW(t)) \o Meta(<<PStore(NAMED, <<PNamed(ZW(t), Typed(31, WStr(ZW(t))))>>)>>) \o L4(0)])
      bit(k) == WithHdr([Hdr0 EXCEPT !.flags = {k}, !.attrs = {k}, !.times = FileTimeOf(2000 + k, 1 + (k % 12), 1 + (k % 28), 3600 * (k % 24) + k, 1234567) \o Zeros(8) \o FileTimeOf(1 + k * 300, 2, 3, 4, 5)])
      hot(k) == WithHdr([Hdr0 EXCEPT !.hot = <<64 + k, k % 5>>])
      docs == << Link(Doc0), Link(RICH), Link(RICHW), WithHdr([Hdr0 EXCEPT !.attrs = {}]), WithHdr([Hdr0 EXCEPT !.flags = 9..31, !.attrs = 0..31]) >>
      listed == LocalJobs \o NetworkJobs \o ContentJobs \o StoreJobs
      every(k) == SelectSeq([i \in 1..Len(listed) |-> IF i % k = 1 THEN listed[i] ELSE listed[1]], LAMBDA x : x # listed[1])
  IN  AsSeq([i \in 1..Len(Awkward) |-> J(W5(Awkward[i]))]) \o AsSeq([k \in 1..32 |-> J(bit(k - 1))]) \o AsSeq([k \in 1..10 |-> J(hot(k))])
      \o AsSeq([i \in 1..5 |-> J(docs[i])]) \o AsSeq([i \in 1..Len(BlocksOf) |-> J(OneExtra(BlocksOf[i]))])
      \o (IF Deep THEN listed ELSE every(9))
      \o SubSeq(DefectJobs, 1, 30)

(***************************************************************************)
(* C15: sizes, and links stored back to back (see Chain)                   *)
SizeJobs ==
  LET ext == << <<>>, L4(0), L4(1), L4(2), L4(3), <<0>>, <<0, 0>>, <<0, 0, 0>>, UNK1, UNK1 \o L4(0), UNK1 \o <<4>>, UNK1 \o <<4, 0, 0, 0>>, UNK1 \o <<9, 0, 0, 0, 1, 2, 3>>,
                TRACK1 \o L4(0) \o <<7>>, L4(0) \o <<7>>, L4(0) \o L4(0), L4(2) \o L4(0), L4(0) \o Fill(100, 1), Block(SIG(5), <<>>) \o L4(0), L4(5000) \o SIG(9) \o Zeros(30),
                L4(50) \o SIG(13) \o Zeros(3), <<255, 255, 255, 255>> \o SIG(13) \o Zeros(3), <<4, 0, 0, 0, 0, 0, 0, 0>>, <<7, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0>> >>
      doc(n, e) == LET f(k) == (n \div (2 ^ k)) % 2 = 1 IN
                   Link([RICH EXCEPT !.list = IF f(0) THEN @ ELSE <<>>, !.info = IF f(1) THEN @ ELSE <<>>, !.strs = IF f(2) THEN @ ELSE Doc0.strs, !.extra = e])
  IN  Cat([n \in 1..8 |-> Cat([k \in 1..Len(ext) |-> << Jat(doc(n - 1, ext[k]), TRUE), Jat(doc(n - 1, ext[k]), FALSE) >>])])

(* one of every kind of structure *)
ItemKinds ==
  << FILE1, FILE2, VOL1, VolIdIt(46, G(5)), ROOT1, NetIt(65, 192, Z(A("s")) \o Z(A("d")) \o Z(A("c"))), ControlIt(113, G(6)), CategoryIt(L4(3)),
     CplWideIt(V4[17], ZW(A("p")), ZW(A("n")), ZW(A("c"))), CplAnsiIt(V4[17], Z(A("p")), Z(A("n")), Z(A("c"))),
     UsersIt(A("CFSF"), FILE1, <<0, 0>>, G(7), G(8)), <<114, 1, 2, 3>> >>
InfoKinds ==
  << INFO1, INFON,
     InfoOf(L4(1), 36, <<Part("vol", VolWide(L4(3), L4(9), ZW(A("lbl")))), Part("base", Z(A("b"))), Part("suffix", Z(A("s"))),
                         Part("basew", ZW(A("bw"))), Part("suffixw", ZW(A("sw")))>>),
     InfoOf(L4(2), 36, <<Part("net", NetWide(L4(3), <<0, 0, 46, 0>>, Z(A("n")), Z(A("d")), ZW(A("nw")), ZW(A("dw")))), Part("suffix", Z(A("s")))>>),
     InfoOf(L4(3), 28, <<Part("suffix", Z(A("s"))), Part("net", NetAnsi(L4(3), <<0, 0, 26, 0>>, Z(A("n")), Z(A("d")))), Part("base", Z(A("b"))),
                         Part("vol", VolAnsi(L4(3), L4(9), Z(A("l"))))>>) >>
TypedKinds ==
  LET w(t) == WStr(ZW(A(t)))
  IN  << Typed(31, w("text")), Typed(2, <<1, 0, 0, 0>>), Typed(3, L4(9)), Typed(19, L4(9)), Typed(20, G(1)), Typed(11, <<255, 255, 0, 0>>), Typed(64, FileTimeOf(2010, 1, 2, 3, 4)),
         Typed(72, G(4)), Typed(65, L4(3) \o <<1, 2, 3, 0>>), Typed(30, L4(4) \o Z(A("abc"))), Typed(4127, L4(2) \o w("a") \o w("b")), Typed(8194, G(3)) >>
BlockKinds == SubSeq(BlocksOf, 1, 12) \o << ShellItems(<<ROOT1, FILE2, VOL1>>),
  Meta(<<PStore(G(9), <<PVal(L4(4), TypedKinds[1]), PVal(L4(5), TypedKinds[2])>>), PStore(NAMED, <<PNamed(ZW(A("nm")), TypedKinds[1]), PNamed(ZW(A("b")), TypedKinds[3])>>)>>),
  Block(SIG(6), Pad(Z(A("w_1^VX!!!!!!!!!MKKSkEXCELFiles>tW{~$4Q]c@@Qp(Yc=(-f")), 260) \o Zeros(520)) >>

(* documents for histories and for the command line: each one twice, with different options that matter *)
HIGH == <<67, 58, 92, 128, 233, 129, 126>>
DocJobs ==
  LET two(b) == << [b |-> b, cp |-> "cp1252", atb |-> TRUE], [b |-> b, cp |-> "cp437", atb |-> FALSE] >>
      rich == Link([RICH EXCEPT !.strs = <<StrA(HIGH), StrA(<<46, 92>> \o A("my dir\\") \o HIGH), StrA(A("C:\\")), StrA(A("-x \"") \o HIGH), StrA(HIGH)>>,
                                !.list = IdListOf(<<ROOT1, VOL1, FileIt(50, L4(7), DosOf(2001, 9, 9, 1, 46, 40), L2(33), Z(HIGH)), FILE2, FileIt(49, L4(0), Zeros(4), L2(16), Z(A("d")))>>),
                                !.extra = Target(1, Z(HIGH), ZW(A("%windir%"))) \o UNK1 \o TRACK1 \o UNK1 \o CodePageB(L4(437)) \o L4(0) \o A("appended")])
      richw == Link([RICHW EXCEPT !.info = INFON, !.extra = @ \o Fill(70, 3)])
      bad == Link([RICH EXCEPT !.list = IdListOf(<<ROOT1, <<31, 1>>, FILE1, <<114>>, <<80, 1, 2>>>>), !.hdr.clsid = G(3),
                               !.extra = Block(SIG(5), L4(3)) \o Block(SIG(9), L4(30) \o Zeros(30)) \o Shim(Units(<<55296, 65>>)) \o UNK1 \o L4(2) \o <<1>>])
      cut == SubSeq(Link(RICH), 1, 300)
      meta == Link([RICHW EXCEPT !.extra = Meta(<<PStore(G(9), <<PVal(L4(4), Typed(31, WStr(ZW(A("wide"))))), PVal(L4(5), Typed(2, L4(65535)))>>),
                     PStore(NAMED, <<PNamed(ZW(A("nm")), Typed(3, L4(1)))>>)>>) \o ShellItems(<<ROOT1, FILE1>>)
                     \o Block(SIG(6), Pad(Z(A("w_1^VX!!!!!!!!!MKKSkEXCELFiles>tW{~$4Q]c@@Qp(Yc=(-f")), 260) \o Zeros(520)) \o Console(Fill(16, 1), Fill(12, 2), ZW(A("Font")), Fill(32, 3)) \o L4(0)])
      \* the same length and header, one byte different
      at(b, i) == [b EXCEPT ![i] = IF @ = 65 THEN 66 ELSE 65]
      find(b, t) == MinOf({i \in 1..(Len(b) - Len(t) + 1) : SubSeq(b, i, i + Len(t) - 1) = t})
      twin(t) == at(rich, find(rich, t))
      \* everything there is; the same kinds with other contents; the same kinds with nothing in them
      all1 == Link([RICHW EXCEPT !.list = IdListOf(ItemKinds), !.extra = Cat(SubSeq(BlockKinds, 1, 14)) \o L4(0)])
      all2 == Link([RICH EXCEPT !.list = IdListOf(<<FileIt(49, L4(9), DosOf(2010, 1, 2, 3, 4, 6), L2(16), Z(A("other"))), VolNameIt(47, Pad(A("Q:\\"), 22)), VolIdIt(46, G(99)), RootIt(31, 72, G(98)),
                     NetIt(66, 128, Z(A("t")) \o Z(A("u"))), ControlIt(112, G(97)), CategoryIt(L4(5)), CplWideIt(V4[4], ZW(A("e")), ZW(A("f")), ZW(A("g"))),
                     UsersIt(A("ABCD"), FILE2, <<>>, G(95), G(94))>>),
                     !.extra = Target(7, Z(A("j")), ZW(A("k"))) \o Console(Fill(16, 4), Fill(12, 5), ZW(A("Other")), Fill(32, 6)) \o Tracker(L4(88), L4(0), A("pc"), G(5), G(6), G(7), G(8))
                               \o CodePageB(L4(850)) \o SpecialFolder(L4(8), L4(9)) \o Target(1, Z(A("l")), ZW(A("m"))) \o Shim(ZW(A("none"))) \o KnownFolder(G(93), L4(4))
                               \o ShellItems(<<ROOT1>>) \o Meta(<<PStore(G(9), [i \in 1..Len(TypedKinds) |-> PVal(L4(i + 3), TypedKinds[i])])>>) \o L4(0)])
      none == Link([Doc0 EXCEPT !.list = IdListOf(<<FileIt(48, L4(0), Zeros(4), L2(0), Z(<<>>)), VolNameIt(47, Zeros(22)), RootIt(31, 0, Zeros(16)), NetIt(65, 0, Z(<<>>)), CplAnsiIt(L4(0), Z(<<>>), Z(<<>>), Z(<<>>))>>),
                     !.info = InfoOf(L4(2), 28, <<Part("net", NetAnsi(L4(0), Zeros(4), Z(<<>>), <<>>)), Part("suffix", <<0>>)>>), !.strs = [i \in 1..5 |-> StrA(<<>>)],
                     !.extra = Target(1, <<>>, <<>>) \o Target(7, <<>>, <<>>) \o Shim(ZW(<<>>)) \o ShellItems(<<>>) \o Meta(<<>>) \o Block(SIG(6), Zeros(780)) \o L4(0)])
  IN  two(rich) \o two(twin(A("disk"))) \o two(twin(A("x \""))) \o two(twin(A("host"))) \o two(twin(A("appended"))) \o two(twin(W16(A("%windir%")))) \o two(richw) \o two(bad) \o two(cut) \o two(meta) \o two(Link(Doc0) \o A("appended"))
      \o two(all1) \o two(all2) \o two(none)
      \o Cat([i \in 1..3 |-> two(Link([Doc0 EXCEPT !.info = InfoKinds[i + 2], !.strs[2] = StrA(A("after"))]))])
      \o two(Link([Doc0 EXCEPT !.uni = TRUE, !.strs = <<StrW(A("name")), <<>>, <<>>, StrW(Fill(34000, 65)), <<>>>>, !.extra = UNK1 \o Shim(ZW(A("behind"))) \o L4(0)]))

(* links stored back to back: all pairs of some twenty, and longer chains *)
ChainLinks ==
  LET put(d, e) == Link([d EXCEPT !.extra = e]) IN
  << Link(Doc0), Link(RICH), Link(RICHW), put(Doc0, L4(1)), put(Doc0, L4(2)), put(Doc0, L4(3)), put(RICH, L4(0)), put(RICHW, L4(3)),
     put(Doc0, UNK1 \o L4(0)), put(Doc0, TRACK1 \o UNK1 \o UNK1 \o L4(2)), put(Doc0, Meta(<<PStore(G(9), <<PVal(L4(4), Typed(31, WStr(ZW(A("wide")))))>>)>>) \o L4(0)),
     Link([RICH EXCEPT !.list = IdListOf(<<>>)]), Link([RICH EXCEPT !.info = InfoOf(L4(0), 28, <<>>)]), Link([RICH EXCEPT !.hdr.flags = {8}]),
     Link([Doc0 EXCEPT !.strs[5] = StrA(<<>>)]), Link([Doc0 EXCEPT !.strs[4] = StrA(A("-arg")), !.hdr.flags = {8}]),
     Link([Doc0 EXCEPT !.uni = TRUE, !.strs[1] = StrW(<<>>), !.strs[2] = StrW(Fill(260, 65))]), Link([Doc0 EXCEPT !.hdr.size = L4(80), !.hdr.pad = L4(0)]),
     Link([Doc0 EXCEPT !.list = IdListOf(<<ROOT1>>)]), Link([Doc0 EXCEPT !.info = INFO1]), Link([Doc0 EXCEPT !.info = INFON, !.extra = Shim(ZW(A("s"))) \o L4(0)]),
     put(Doc0, ShellItems(<<FILE1>>) \o L4(0)), put(Doc0, Target(1, Z(A("%a%")), ZW(A("%a%"))) \o L4(0)) >>
ChainJobs ==
  LET n == Len(ChainLinks)
      c(ls) == [chain |-> ls, cp |-> "cp1252", atb |-> FALSE]
      triple(k) == c(<<ChainLinks[1 + ((k * 5) % n)], ChainLinks[1 + ((k * 7) % n)], ChainLinks[1 + ((k * 11) % n)]>>)
  IN  Seq2(LAMBDA i, j : c(<<ChainLinks[i], ChainLinks[j]>>), IF Deep THEN n ELSE 9, n)
      \o AsSeq([k \in 1..(IF Deep THEN 200 ELSE 30) |-> triple(k)])
      \o << c(ChainLinks), c(AsSeq([i \in 1..n |-> ChainLinks[n + 1 - i]])) >>

(***************************************************************************)
(* C21: identifiers everywhere; packed ones; digests of every length       *)
IdJobs ==
  LET gs == << Zeros(16), Fill(16, 255), G(0), G(1), G(200), [Zeros(16) EXCEPT ![1] = 1], Fill(16, 10), Fill(16, 160), Fill(16, 15) >>
             \o AsSeq([i \in 1..16 |-> [Zeros(16) EXCEPT ![i] = 171]])
      everywhere(g, h) == Link([Doc0 EXCEPT !.hdr.clsid = g, !.list = IdListOf(<<RootIt(31, 80, g), VolIdIt(46, h), ControlIt(113, g), UsersIt(A("CFSF"), FILE1, <<>>, g, h)>>),
                            !.extra = Tracker(L4(88), L4(0), A("m"), g, h, h, g) \o KnownFolder(h, L4(0)) \o Meta(<<PStore(g, <<>>), PStore(h, <<>>)>>) \o L4(0)])
      B85 == A("!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~")
      dar(t) == OneExtra(Block(SIG(6), Pad(Z(t), 260) \o Pad(ZW(t), 520)))
      code(f(_)) == AsSeq([i \in 1..20 |-> f(i)])
      d1(k) == code(LAMBDA i : B85[1 + ((k + 7 * i) % 82)])
      d2(k) == code(LAMBDA i : IF i = k THEN B85[2] ELSE B85[1])
      d3(k) == code(LAMBDA i : IF i % 5 = 0 THEN B85[1 + (k % 80)] ELSE B85[85 - ((k + i) % 85)])
      hash(m) == OneExtra(Block(<<1, 2, 3, 4>>, AsSeq([i \in 1..m |-> (i * 7 + m) % 256])))
      app(m) == WithExtra(L4(0) \o AsSeq([i \in 1..m |-> (i * 5 + m) % 256]))
      nums(i) == Link([Doc0 EXCEPT !.info = InfoOf(L4(1), 28, <<Part("vol", VolAnsi(L4(3), V4[i], Z(A("l")))), Part("base", Z(A("b")))>>)])
      bit4(k) == AsSeq([i \in 1..4 |-> IF (k - 1) \div 8 = i - 1 THEN 2 ^ ((k - 1) % 8) ELSE 0])
      prov(v) == Link([Doc0 EXCEPT !.info = InfoOf(L4(2), 28, <<Part("net", NetAnsi(L4(0), v, Z(A("n")), <<>>))>>)])
      ser(v) == Link([Doc0 EXCEPT !.info = InfoOf(L4(1), 28, <<Part("vol", VolAnsi(L4(3), v, Z(A("l")))), Part("base", Z(A("b")))>>),
                      !.list = IdListOf(<<CplWideIt(v, ZW(A("p")), ZW(A("n")), ZW(A("c")))>>)])
  IN  AsSeq([i \in 1..Len(gs) |-> J(everywhere(gs[i], gs[1 + (i % Len(gs))]))])
      \o AsSeq([k \in 1..40 |-> J(dar(d1(k) \o A("Feat>") \o d1(k + 41)))]) \o AsSeq([k \in 1..20 |-> J(dar(d2(k) \o A(">") \o d2(21 - k)))])
      \o AsSeq([k \in 1..80 |-> J(dar(d3(k) \o A("F>") \o d3(k + 3)))])
      \o AsSeq([n \in 1..20 |-> J(dar(SubSeq(d1(1), 1, n)))]) \o AsSeq([n \in 1..21 |-> J(dar(d1(1) \o A(">") \o SubSeq(d1(2), 1, n - 1)))])
      \o AsSeq([m \in 1..(IF Deep THEN 300 ELSE 135) |-> J(hash(m - 1))]) \o AsSeq([m \in 1..70 |-> J(app(m))])
      \o AsSeq([i \in 1..Len(V4) |-> J(nums(i))]) \o AsSeq([i \in 1..Len(V4) |-> J(prov(V4[i]))])
      \o AsSeq([k \in 1..32 |-> J(ser(bit4(k)))]) \o AsSeq([k \in 1..32 |-> J(prov(bit4(k)))])

(***************************************************************************)
(* Structures as large as their size fields allow                          *)
Ramp(n) == AsSeq([k \in 1..n |-> 97 + (k % 26)])
RampW(n) == AsSeq([k \in 1..(2 * n) |-> IF k % 2 = 0 THEN (k \div 2) % 3 ELSE 97 + ((k \div 2) % 26)])
BigStringJobs ==
  LET str(uni, n) == L2(n) \o (IF uni THEN RampW(n) ELSE Ramp(n))
      doc(uni, i, n, e) == J(Link([Doc0 EXCEPT !.uni = uni, !.strs = [STRS0(uni) EXCEPT ![i] = str(uni, n)], !.extra = e]))
      lens == IF Deep THEN <<4095, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 49152, 65534, 65535>>
              ELSE <<8192, 16384, 32767, 32768, 65535>>
      tail == UNK1 \o L4(0)
  IN  Cat([u \in 1..2 |-> Seq2(LAMBDA i, n : doc(u = 2, i, lens[n], tail), 5, Len(lens))])
      \o << doc(TRUE, 5, 65535, <<>>), doc(FALSE, 5, 65535, <<>>), doc(TRUE, 4, 40000, <<1>>) >>
BigListJobs ==
  LET after == [Doc0 EXCEPT !.info = INFO1, !.strs[1] = StrA(A("after")), !.extra = UNK1 \o L4(0)]
      doc(l) == J(Link([after EXCEPT !.list = l]))
      wide(n) == FileIt(53, L4(7), Zeros(4), L2(16), RampW(n) \o <<0, 0>>)
      long(n) == FileIt(50, L4(7), Zeros(4), L2(16), Ramp(n) \o <<0>>)
      many(n) == IdListOf(AsSeq([i \in 1..n |-> IF i % 8 # 0 THEN RootIt(31, 80, G(i % 256)) ELSE FileIt(49, L4(i), Zeros(4), L2(16), Z(<<65 + (i % 26)>>))]))
      padded(n) == LET l == Listed(<<ROOT1, FILE1>>) IN L2(n) \o l \o Fill(n - Len(l), 77)
  IN  << doc(IdListOf(<<ROOT1, wide(16000), FILE1>>)), doc(IdListOf(<<ROOT1, wide(16400), FILE1>>)), doc(IdListOf(<<long(32768), FILE2>>)), doc(IdListOf(<<wide(32700)>>)),
         doc(IdListOf(<<long(20000), ROOT1, wide(10000), VOL1, FILE1>>)), doc(padded(32767)), doc(padded(32768)), doc(padded(65535)),
         doc(many(300)), doc(many(IF Deep THEN 2500 ELSE 1700)), doc(IdListOf(<<<<114>> \o Fill(40000, 9), FILE1>>)) >>
BigBlockJobs ==
  LET bytes(m) == AsSeq([i \in 1..m |-> (i * 7 + m) % 256])
      unk(m) == WithExtra(UNK1 \o Block(<<1, 2, 3, 4>>, bytes(m)) \o SpecialFolder(L4(5), L4(6)) \o L4(0))
      app(m, atb) == Jat(WithExtra(UNK1 \o L4(0) \o bytes(m)), atb)
      known(i, m) == LET b == BlocksOf[i] IN WithExtra(L4(Len(b) + m) \o SubSeq(b, 5, Len(b)) \o bytes(m) \o UNK1 \o L4(0))
      sizes == <<4096, 16384, 32757, 32767, 32768, 65527, 65528, 65529, 65535, 65536, 100001>>
      more == <<131072, 200003, 262144, 300000>>
      few == <<4096, 65535, 65536, 131072, 200003>>
  IN  AsSeq([k \in 1..Len(sizes) |-> J(unk(sizes[k]))]) \o (IF Deep THEN AsSeq([k \in 1..Len(more) |-> J(unk(more[k]))]) ELSE <<J(unk(200003))>>)
      \o Seq2(LAMBDA k, a : app(few[k], a = 1), Len(few), 2)
      \o AsSeq([i \in 1..11 |-> J(known(i, <<65529, 70000>>[1 + (i % 2)]))])
      \o << J(WithExtra(Cat([i \in 1..2000 |-> Block(<<i % 256, 1, 1, 1>>, <<>>)]) \o L4(0))),
            J(WithExtra(Cat([i \in 1..300 |-> Block(<<i % 256, 1, 1, 1>>, bytes(i))]) \o L4(3))) >>
(* C13: more of everything than a call stack holds *)
ManyJobs ==
  LET rep(n, f(_)) == AsSeq([i \in 1..n |-> f(i)])
      good(i) == IF i % 16 = 0 THEN FileIt(50, L4(i), Zeros(4), L2(16), Z(<<65 + (i % 26)>>)) ELSE RootIt(31, 80, G(i % 256))
      odd(i) == <<153, i % 256>>
      short(i) == <<50, i % 256>>
      items(f(_), n) == J(Link([Doc0 EXCEPT !.list = IdListOf(rep(n, f)), !.strs[1] = StrA(A("after"))]))
      block(i) == Block(<<i % 256, 1, 1, 1>>, L2(i))
      bad(i) == Block(SIG(1 + (i % 8)), <<>>)
      val(i) == PVal(L4(i), Typed(2, L2(i) \o <<0, 0>>))
      named(i) == PNamed(ZW(<<65 + (i % 26)>>), Typed(3, L4(i)))
      store(i) == PStore(G(i % 256), <<>>)
      lines(n) == rep(n, LAMBDA i : IF i % 2 = 0 THEN 10 ELSE 65)
      N == IF Deep THEN 2000 ELSE 1100
  IN  << items(good, N), items(odd, N), items(short, N), J(OneExtra(ShellItems(rep(N, good)))),
         J(WithExtra(Cat(rep(N, block)) \o L4(0))), J(WithExtra(Cat(rep(N, bad)) \o UNK1 \o L4(0))), J(WithExtra(Cat(rep(N, LAMBDA i : SpecialFolder(L4(i), L4(1)))) \o L4(0))),
         J(OneExtra(Meta(<<PStore(G(1), rep(N, val))>>))), J(OneExtra(Meta(<<PStore(NAMED, rep(N, named))>>))), J(OneExtra(Meta(rep(N, store)))),
         J(Link([Doc0 EXCEPT !.strs[4] = StrA(lines(4000)), !.strs[5] = StrA(rep(4000, LAMBDA i : 32))])) >>
BigInfoJobs ==
  LET vol(n) == Part("vol", VolAnsi(L4(3), L4(9), Z(Ramp(n))))
      I(f, hs, ps) == J(Link([Doc0 EXCEPT !.info = InfoOf(f, hs, ps), !.strs[1] = StrA(A("after"))]))
      base(n) == Part("base", Z(Ramp(n)))
      suf == Part("suffix", Z(A("s")))
      net(n, m) == Part("net", NetAnsi(L4(3), <<0, 0, 46, 0>>, Z(Ramp(n)), Z(Ramp(m))))
      netw(n) == Part("net", NetWide(L4(3), <<0, 0, 46, 0>>, Z(A("n")), Z(A("d")), RampW(n) \o <<0, 0>>, ZW(A("dw"))))
  IN  << I(L4(1), 28, <<vol(1000), base(40000), suf>>), I(L4(1), 28, <<vol(40000), base(3), suf>>), I(L4(1), 28, <<vol(70000), base(70000), suf>>),
         I(L4(1), 28, <<Part("gap", Fill(70000, 65)), vol(5), base(3), suf>>), I(L4(1), 36, <<vol(5), base(3), suf, Part("basew", RampW(35000) \o <<0, 0>>), Part("suffixw", ZW(A("w")))>>),
         I(L4(2), 28, <<net(300, 40000), suf>>), I(L4(2), 28, <<net(70000, 3), suf>>), I(L4(2), 36, <<netw(35000), suf, Part("basew", ZW(A("b"))), Part("suffixw", ZW(A("w")))>>),
         I(L4(2), 28, <<Part("gap", Fill(66000, 65)), net(3, 4), suf>>), I(L4(1), 40000, <<vol(5), base(3), suf, Part("basew", ZW(A("b"))), Part("suffixw", ZW(A("w")))>>) >>
BigStoreJobs ==
  LET M(ss) == J(WithExtra(Meta(ss) \o UNK1 \o L4(0)))
      str(n) == PVal(L4(3), Typed(31, L4(n + 1) \o RampW(n) \o <<0, 0>>))
      two == PVal(L4(9), Typed(2, <<7, 0, 0, 0>>))
      sized(v, s4) == s4 \o SubSeq(v, 5, Len(v))
      big4 == << <<0, 0, 0, 1>>, <<0, 0, 1, 0>>, <<0, 1, 0, 0>>, <<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<0, 0, 0, 2>>, <<5, 0, 0, 1>>, <<5, 0, 1, 0>>, <<0, 0, 1, 1>> >>
      nm(n) == PNamed(RampW(n) \o <<0, 0>>, Typed(31, WStr(ZW(A("v")))))
  IN  << M(<<PStore(G(1), <<str(3000), two>>)>>), M(<<PStore(G(1), <<str(32767), two>>)>>), M(<<PStore(G(1), <<str(32768), two>>)>>),
         M(<<PStore(G(1), <<str(65535), two>>)>>), M(<<PStore(G(1), <<str(65536), two>>), PStore(G(2), <<two>>)>>), M(<<PStore(G(1), <<str(70001), str(3), two>>)>>),
         M(<<PStore(NAMED, <<nm(300), nm(33000), nm(5)>>)>>), M(<<PStore(G(1), AsSeq([i \in 1..300 |-> PVal(L4(i), Typed(31, WStr(ZW(A("v")))))]))>>),
         M(AsSeq([i \in 1..200 |-> PStore(G(i), <<two>>)])) >>
      \o AsSeq([i \in 1..Len(big4) |-> M(<<PStore(G(1), <<two, sized(str(4), big4[i]), two>>)>>)])
      \o AsSeq([i \in 1..Len(big4) |-> M(<<PStore(G(1), <<two>>), sized(PStore(G(1), <<two>>), big4[i])>>)])
      \o AsSeq([i \in 1..Len(big4) |-> M(<<PStore(NAMED, <<sized(nm(3), big4[i]), nm(4)>>)>>)])

(***************************************************************************)
(* Whole links for the models of the specification (Twice)                 *)
WholeJobs ==
  << J(Link(RICH)), J(Link(RICHW)),
     J(Link([Doc0 EXCEPT !.strs = STRS, !.extra = ShellItems(<<FILE1>>) \o UNK1 \o UNK1 \o L4(0) \o Fill(9, 5)])),
     J(Link([RICH EXCEPT !.extra = Console(Fill(16, 1), Fill(12, 2), ZW(<<65, 8364>>), Fill(32, 3)) \o L4(0)])),
     J(Link([RICHW EXCEPT !.list = IdListOf(<<UsersIt(A("CFSF"), FILE1, <<0, 0>>, G(7), G(8)), VOL1, <<114>>>>),
             !.extra = Target(7, Z(A("i")), ZW(A("i"))) \o KnownFolder(G(1), L4(2)) \o CodePageB(L4(932)) \o L4(0)])),
     J(Link([Doc0 EXCEPT !.list = IdListOf(<<NetIt(65, 192, Z(A("s")) \o Z(A("d")) \o Z(A("c"))), ControlIt(113, G(6)), CplWideIt(V4[17], ZW(A("p")), ZW(A("n")), ZW(A("c")))>>),
             !.info = InfoOf(L4(1), 36, <<Part("vol", VolWide(L4(3), L4(9), ZW(A("lbl")))), Part("base", Z(A("b"))), Part("suffix", Z(A("s"))),
                              Part("basew", ZW(A("bw"))), Part("suffixw", ZW(A("sw")))>>), !.strs[1] = StrA(A("n")), !.extra = Shim(ZW(A("s"))) \o UNK1 \o L4(0)])),
     \* a name without its end; the next item begins with two bytes that are not zero
     J(Link([Doc0 EXCEPT !.list = IdListOf(<<FileIt(50, L4(3), DosOf(2001, 1, 1, 0, 0, 0), L2(32), A("bc")),
                                             FileIt(50, L4(3), DosOf(2001, 1, 1, 0, 0, 0), L2(32), Fill(250, 66) \o <<0>>)>>)])) >>

ApartBlocks == << SpecialFolder(L4(1), L4(2)), SpecialFolder(L4(3), L4(4)), UNK1, Block(<<7, 7, 7, 7>>, <<9>>), CodePageB(L4(437)),
                  CodePageB(L4(1252)) \o <<>>, Shim(ZW(A("layer"))), KnownFolder(G(3), L4(9)) >>
(* every short end of a file, over the bytes at which something changes *)
Over(A0, n) ==                           \* all sequences over A0 of length n
  LET m == Len(A0) IN AsSeq([k \in 1..(m ^ n) |-> AsSeq([i \in 1..n |-> A0[1 + (((k - 1) \div (m ^ (i - 1))) % m)]])])
UpTo(A0, n) == Cat([k \in 1..(n + 1) |-> Over(A0, k - 1)])
EndJobs ==
  LET after(flags, ends) == AsSeq([k \in 1..Len(ends) |-> Jat(Hdr([Hdr0 EXCEPT !.flags = flags]) \o ends[k], k % 2 = 0)])
      d == IF Deep THEN 1 ELSE 0
  IN  after({0}, UpTo(<<0, 1, 2, 3, 4, 49, 31, 255>>, 3 + d)) \o after({0, 2}, UpTo(<<0, 1, 2, 3, 114>>, 4 + d))
      \o after({0}, AsSeq([k \in 1..(5 ^ (3 + d)) |-> <<7, 0>> \o Over(<<0, 1, 2, 5, 82>>, 3 + d)[k] \o <<3, 0, 114>>]))
      \o after({1}, UpTo(<<0, 4, 255>>, 4 + d)) \o after({1, 2}, UpTo(<<0, 4, 5>>, 5 + d))
      \o after({2}, UpTo(<<0, 1, 2, 65, 255>>, 3 + d)) \o after({2, 7}, UpTo(<<0, 1, 65, 216>>, 4 + d)) \o after({3, 5}, UpTo(<<0, 1, 32>>, 5 + d))
      \o after({2, 3, 4, 5, 6}, UpTo(<<0, 1>>, 7 + 2 * d))
      \o after({}, UpTo(<<0, 1, 3, 4, 8, 255>>, 3 + d))
      \o after({}, AsSeq([k \in 1..(4 ^ (3 + d)) |-> <<9, 0, 0, 0, 5, 0, 0, 160, 1>> \o Over(<<0, 3, 4, 8>>, 3 + d)[k] \o <<0, 0, 160>>]))

(* links that are in order, to be stored back to back *)
LinkJobs == WholeJobs \o AsSeq([i \in 1..Len(ChainLinks) |-> J(ChainLinks[i])])
(* blocks by themselves, for the model of their order: two of a kind next to each other *)
ApartJobs == AsSeq([i \in 1..Len(ApartBlocks) |-> J(ApartBlocks[i])])

(* sections by themselves, for the model of their composition: k says which, u for Unicode strings *)
SectionJobs ==
  LET sec(k, bs) == AsSeq([i \in 1..Len(bs) |-> [k |-> k, b |-> bs[i]]])
      list(s) == IdListOf(s)
      texts(uni, pick) == Cat([i \in 1..5 |-> IF i \in pick THEN STRS0(uni)[i] ELSE <<>>])
      long == IF Deep THEN Fill(300, 88) ELSE Fill(261, 88)
      picks == << {1}, {2, 4}, {3, 5}, {1, 2, 3, 4, 5} >>
      docs(uni) == AsSeq([i \in 1..4 |-> [k |-> "strs", b |-> texts(uni, picks[i]), u |-> uni, on |-> SetToSeq(picks[i])]])
  IN  sec("list", << <<>>, list(<<>>), list(<<FILE1>>), list(<<ROOT1, VOL1, FILE1, FILE2>>), list(<<FILE1, <<50>>, FILE2>>),
                     list(<<Fill(200, 66)>>), L2(6) \o It(Fill(2, 66)) \o L2(9), L2(0) >>)
      \o sec("info", << <<>>, INFO1, INFON, InfoOf(L4(0), 28, <<>>), InfoOf(L4(1), 32, <<Part("gap", <<9, 9, 9>>), Part("base", <<0>>), Part("vol", VolAnsi(L4(9), V4[14], Z(A("x"))))>>),
                        InfoOf(L4(1), 36, <<Part("vol", VolWide(L4(3), L4(9), ZW(A("lbl")))), Part("base", Z(A("b"))), Part("suffix", Z(A("s"))),
                              Part("basew", ZW(A("bw"))), Part("suffixw", ZW(A("sw")))>>) >>)
      \o << [k |-> "info", b |-> INFO1, f |-> TRUE] >>          \* to be ignored
      \o docs(FALSE) \o docs(TRUE) \o << [k |-> "strs", b |-> <<>>, u |-> FALSE, on |-> <<>>],
            [k |-> "strs", b |-> StrA(<<>>) \o StrA(<<0, 65, 0>>), u |-> FALSE, on |-> <<2, 4>>] >>
      \o sec("extra", << <<>>, L4(0), UNK1 \o TRACK1 \o L4(0), Block(SIG(3), <<1>>) \o UNK1 \o L4(0),
                         SpecialFolder(L4(1), L4(2)) \o CodePageB(L4(437)) \o L4(0) \o Fill(3, 9), ShellItems(<<FILE1, <<50>>>>) \o L4(0) >>)

(***************************************************************************)
(* Every kind of structure: cut short inside of its frame, cut by the end  *)
(* of the file, and with each byte overwritten, between sound neighbours.   *)
(* Edges: the places of a long structure at which something begins or ends *)
Edges(n) == SelectSeq(AsSeq([k \in 1..n |-> k]),
                      LAMBDA k : Deep \/ n <= 150 \/ k <= 40 \/ k >= n - 2 \/ \E e \in {76, 84, 108, 140, 204, 268, 788} : k >= e - 2 /\ k <= e + 2)
Between(mid) == Link([Doc0 EXCEPT !.strs[1] = StrA(A("before")), !.extra = UNK1 \o mid \o SpecialFolder(L4(7), L4(8)) \o L4(0)])
InList(mid) == Link([Doc0 EXCEPT !.list = IdListOf(<<ROOT1, mid, FILE2>>), !.strs[1] = StrA(A("behind")), !.extra = UNK1 \o L4(0)])
InInfo(i) == Link([Doc0 EXCEPT !.list = IdListOf(<<ROOT1>>), !.info = i, !.strs[1] = StrA(A("behind")), !.extra = UNK1 \o L4(0)])
Resized(s, n) == L4(n) \o SubSeq(s, 5, n)          \* the first n bytes, with this size in front
Kinds(f(_, _), ks, from) == Cat([k \in 1..Len(ks) |-> LET e == SelectSeq(Edges(Len(ks[k])), LAMBDA n : n >= from)
                                                       IN  AsSeq([i \in 1..Len(e) |-> Jat(f(ks[k], e[i]), e[i] % 2 = 0)])])
ShrunkJobs ==
  LET stored(t, n) == Between(Meta(<<PStore(G(9), <<PVal(L4(4), SubSeq(t, 1, n)), PVal(L4(5), TypedKinds[2])>>), PStore(G(8), <<PVal(L4(6), TypedKinds[1])>>)>>))
      named(t, n) == Between(Meta(<<PStore(NAMED, <<PNamed(ZW(A("nm")), SubSeq(t, 1, n)), PNamed(ZW(A("x")), TypedKinds[2])>>), PStore(G(8), <<PVal(L4(6), TypedKinds[1])>>)>>))
      pstore == PStore(G(9), <<PVal(L4(4), TypedKinds[1]), PVal(L4(5), TypedKinds[2])>>)
      nstore == PStore(NAMED, <<PNamed(ZW(A("nm")), TypedKinds[1]), PNamed(ZW(A("x")), TypedKinds[2])>>)
  IN  Kinds(LAMBDA d, n : InList(SubSeq(d, 1, n)), ItemKinds, 1)
      \o Kinds(LAMBDA d, n : Between(ShellItems(<<ROOT1, SubSeq(d, 1, n), FILE2>>)), ItemKinds, 1)
      \o Kinds(LAMBDA b, n : Between(Resized(b, n)), BlockKinds, 8)
      \o Kinds(LAMBDA i, n : InInfo(Resized(i, n)), InfoKinds, 4)
      \o Kinds(stored, TypedKinds, 1) \o Kinds(named, TypedKinds, 1)
      \o Kinds(LAMBDA s, n : Between(Meta(<<Resized(s, n), pstore>>)), <<pstore, nstore>>, 5)
CutJobs ==
  LET after(d, at, n) == SubSeq(d, 1, Min2(Len(d), at + n))
      \* one byte more than the structure at most
      plus(ks) == AsSeq([k \in 1..Len(ks) |-> ks[k] \o <<0>>])
      inList(k, n) == after(Link([Doc0 EXCEPT !.list = IdListOf(<<ROOT1, SubSeq(k, 1, Len(k) - 1), FILE2>>)]), 76 + 2 + 2 + Len(ROOT1) + 2, n)
      inShell(k, n) == after(Between(ShellItems(<<ROOT1, SubSeq(k, 1, Len(k) - 1), FILE2>>)), 76 + 8 + 8 + Len(UNK1) + 2 + Len(ROOT1) + 2, n)
      inExtra(k, n) == after(Between(SubSeq(k, 1, Len(k) - 1)), 76 + 8 + Len(UNK1), n)
      inInfo(k, n) == after(Link([Doc0 EXCEPT !.info = SubSeq(k, 1, Len(k) - 1), !.strs[1] = StrA(A("behind"))]), 76, n)
      value(k, n) == after(Between(Meta(<<PStore(G(9), <<PVal(L4(4), SubSeq(k, 1, Len(k) - 1)), PVal(L4(5), TypedKinds[2])>>)>>)), 76 + 8 + Len(UNK1) + 8 + 24 + 9, n)
      text(uni, i, n) == after(Link([Doc0 EXCEPT !.uni = uni, !.strs = AsSeq([k \in 1..5 |-> IF k = i \/ k = 5 THEN STRS0(uni)[k] ELSE <<>>])]), 76, n)
  IN  Kinds(inList, plus(ItemKinds), 1) \o Kinds(inShell, plus(ItemKinds), 1) \o Kinds(inExtra, plus(BlockKinds), 1)
      \o Kinds(inInfo, plus(InfoKinds), 1) \o Kinds(value, plus(TypedKinds), 1)
      \o Cat([u \in 1..2 |-> Seq2(LAMBDA i, n : Jat(text(u = 2, i, n), n % 2 = 0), 5, IF u = 2 THEN 24 ELSE 14)])
PokedJobs ==
  LET put(s, n) == [s EXCEPT ![n] = IF @ = 255 THEN 0 ELSE 255]
      low(s, n) == [s EXCEPT ![n] = IF @ = 0 THEN 1 ELSE 0]
      one(s, n) == [s EXCEPT ![n] = (@ + 1) % 256]
      all(g(_, _)) == Kinds(LAMBDA d, n : InList(g(d, n)), ItemKinds, 1) \o Kinds(LAMBDA b, n : Between(g(b, n)), BlockKinds, 1)
                      \o Kinds(LAMBDA i, n : InInfo(g(i, n)), InfoKinds, 1)
      half(js) == IF Deep THEN js ELSE AsSeq([i \in 1..(Len(js) \div 2) |-> js[2 * i]])
  IN  all(put) \o all(low) \o half(all(one))

Jobs(topic) ==
  CASE topic = "sections" -> SectionJobs [] topic = "whole" -> WholeJobs [] topic = "ends" -> EndJobs [] topic = "links" -> LinkJobs [] topic = "apart" -> ApartJobs [] topic = "header" -> HeaderJobs [] topic = "hotkey" -> HotkeyJobs [] topic = "times" -> TimeJobs
    [] topic = "layout" -> LayoutJobs [] topic = "items" -> ItemJobs [] topic = "contents" -> ContentJobs
    [] topic = "local" -> LocalJobs [] topic = "network" -> NetworkJobs [] topic = "strings" -> StringJobs
    [] topic = "extra" -> ExtraJobs [] topic = "blocks" -> BlockJobs [] topic = "store" -> StoreJobs
    [] topic = "texts" -> TextJobs [] topic = "poke" -> PokeJobs [] topic = "defects" -> DefectJobs
    [] topic = "prefixes" -> PrefixJobs [] topic = "commands" -> CommandJobs [] topic = "outputs" -> OutputJobs
    [] topic = "chains" -> ChainJobs [] topic = "docs" -> DocJobs
    [] topic = "sizes" -> SizeJobs [] topic = "ids" -> IdJobs
    [] topic = "bigstrings" -> BigStringJobs [] topic = "biglist" -> BigListJobs [] topic = "bigblocks" -> BigBlockJobs
    [] topic = "biginfo" -> BigInfoJobs [] topic = "bigstore" -> BigStoreJobs [] topic = "many" -> ManyJobs
    [] topic = "shrunk" -> ShrunkJobs [] topic = "cuts" -> CutJobs [] topic = "poked" -> PokedJobs
=============================================================================
