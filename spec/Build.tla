-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Writing shell links: the structures of [MS-SHLLINK] as bytes, from the  *)
(* values of their fields.  32-bit fields are given as four bytes (L4 makes*)
(* them from a number below 2^31).                                         *)
(***************************************************************************)
EXTENDS Bytes, Times, SequencesExt

L2(n) == <<n % 256, (n \div 256) % 256>>
L4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Zeros(n) == AsSeq([i \in 1..n |-> 0])
Fill(n, x) == AsSeq([i \in 1..n |-> x])
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN <<>>
           ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET m == Len(ss) \div 2
                IN  Cat(SubSeq(ss, 1, m)) \o Cat(SubSeq(ss, m + 1, Len(ss)))
Pad(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))

(* texts: code points (or bytes) to bytes *)
W16(cps) == Cat([i \in 1..Len(cps) |->
              IF cps[i] < 65536 THEN L2(cps[i])
              ELSE L2(55296 + (cps[i] - 65536) \div 1024) \o L2(56320 + ((cps[i] - 65536) % 1024))])
Units(us) == Cat([i \in 1..Len(us) |-> L2(us[i])])
Z(s) == s \o <<0>>                   \* NUL-terminated
ZW(cps) == W16(cps) \o <<0, 0>>
A(s) == Cps(s)

(* little-endian digits: x * m + a *)
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, m, a) ==
  IF ds = <<>> THEN <<>>
  ELSE LET t == Head(ds) * m + a IN <<t % 256>> \o MulAdd(Tail(ds), m, t \div 256)
(* FILETIME of days since 1601, seconds of the day, ticks of the second *)
TicksOf(days, secs, ticks) ==
  LET m(d, s, t) == MulAdd(MulAdd(MulAdd(L4(d) \o Zeros(4), 86400, s), 10000, t \div 1000), 1000, t % 1000)
  IN  IF days >= 0 THEN m(days, secs, ticks)
      ELSE \* -(|days| days - secs - ticks)
        LET total == IF ticks = 0 THEN [s |-> secs, t |-> 0] ELSE [s |-> secs + 1, t |-> 10000000 - ticks]
            mag == IF total.s = 0 THEN m(-days, 0, total.t) ELSE m(-days - 1, 86400 - total.s, total.t)
        IN  Negate(mag, 1)
FileTimeOf(y, mo, d, secs, ticks) == TicksOf(DaysFromCivil(y, mo, d), secs, ticks)
DosOf(y, mo, d, h, mi, s) == L2((y - 1980) * 512 + mo * 32 + d) \o L2(h * 2048 + mi * 32 + s \div 2)

(***************************************************************************)
(* Header                                                                  *)
(***************************************************************************)
Bits(on) == LET byte(k) == LET Z0 == {i \in 0..7 : 8 * k + i \in on}
                              RECURSIVE sum(_)
                              sum(i) == IF i > 7 THEN 0 ELSE (IF i \in Z0 THEN 2 ^ i ELSE 0) + sum(i + 1)
                          IN sum(0)
           IN  <<byte(0), byte(1), byte(2), byte(3)>>
CLSID == <<1, 20, 2, 0, 0, 0, 0, 0, 192, 0, 0, 0, 0, 0, 0, 70>>
Hdr0 == [size |-> L4(76), clsid |-> CLSID, flags |-> {}, attrs |-> {5}, times |-> Zeros(24),
         fsize |-> L4(0), icon |-> L4(0), show |-> L4(1), hot |-> <<0, 0>>, res |-> Zeros(10),
         pad |-> <<>>]
Hdr(h) == h.size \o h.clsid \o Bits(h.flags) \o Bits(h.attrs) \o h.times \o h.fsize \o h.icon
          \o h.show \o h.hot \o h.res \o h.pad

(***************************************************************************)
(* ID list: items are given by their data                                  *)
(***************************************************************************)
It(data) == L2(Len(data) + 2) \o data
Items0(ds) == Cat([i \in 1..Len(ds) |-> It(ds[i])])
Listed(ds) == Items0(ds) \o <<0, 0>>
IdListOf(ds) == L2(Len(Listed(ds))) \o Listed(ds)

FileIt(type, size4, dos4, attr2, name) == <<type, 0>> \o size4 \o dos4 \o attr2 \o name
VolNameIt(type, name) == <<type>> \o name
VolIdIt(type, guid) == <<type, 0>> \o guid
NetIt(type, content, texts) == <<type, 0, content>> \o texts
RootIt(type, sort, guid) == <<type, sort>> \o guid
ControlIt(type, guid) == <<type, 0>> \o Zeros(12) \o guid
CategoryIt(id4) == <<1, 0>> \o <<132, 33, 222, 57>> \o id4
CplWideIt(sig4, path, name, comment) ==
  <<0, 0>> \o sig4 \o Zeros(12) \o L2((Len(path) \div 2)) \o L2((Len(path) + Len(name)) \div 2) \o path \o name \o comment
CplAnsiIt(sig4, path, name, comment) ==
  <<0, 0>> \o sig4 \o L2(Len(path)) \o L2(Len(path) + Len(name)) \o path \o name \o comment
UsersIt(sig4, file, pad, g1, g2) ==
  LET f == It(file) \o pad IN <<116, 0>> \o L2(Len(f) + 4) \o sig4 \o f \o g1 \o g2

G(x) == AsSeq([i \in 1..16 |-> (x + 17 * (i - 1)) % 256])     \* sixteen different bytes

(***************************************************************************)
(* LinkInfo.  Parts are laid out in the order given, each [k, b]: kind     *)
(* ("vol", "base", "net", "suffix", "basew", "suffixw", "gap") and bytes.  *)
(***************************************************************************)
InfoOf(flags4, hsize, parts) ==
  LET at(i) == hsize + Len(Cat([j \in 1..(i - 1) |-> parts[j].b]))
      off(k) == LET Q == {i \in 1..Len(parts) : parts[i].k = k} IN IF Q = {} THEN 0 ELSE at(MinOf(Q))
      body == Cat([j \in 1..Len(parts) |-> parts[j].b])
      hd == flags4 \o L4(off("vol")) \o L4(off("base")) \o L4(off("net")) \o L4(off("suffix"))
            \o (IF hsize >= 36 THEN L4(off("basew")) \o L4(off("suffixw")) ELSE <<>>)
            \o Zeros(hsize - (IF hsize >= 36 THEN 36 ELSE 28))
  IN  L4(hsize + Len(body)) \o L4(hsize) \o hd \o body
Part(k, b) == [k |-> k, b |-> b]
VolAnsi(drive4, serial4, label) == L4(16 + Len(label)) \o drive4 \o serial4 \o L4(16) \o label
VolWide(drive4, serial4, label) == L4(20 + Len(label)) \o drive4 \o serial4 \o L4(20) \o L4(20) \o label
NetAnsi(flags4, provider4, net, dev) ==       \* dev: <<>> if there is none
  L4(20 + Len(net) + Len(dev)) \o flags4 \o L4(20) \o (IF dev = <<>> THEN L4(0) ELSE L4(20 + Len(net)))
  \o provider4 \o net \o dev
NetWide(flags4, provider4, net, dev, netw, devw) ==
  LET o1 == 28 + Len(net)
      o2 == o1 + Len(dev)
      o3 == o2 + Len(netw) IN
  L4(o3 + Len(devw)) \o flags4 \o L4(28) \o (IF dev = <<>> THEN L4(0) ELSE L4(o1)) \o provider4
  \o (IF netw = <<>> THEN L4(0) ELSE L4(o2)) \o (IF devw = <<>> THEN L4(0) ELSE L4(o3))
  \o net \o dev \o netw \o devw

(***************************************************************************)
(* Strings and extra data                                                  *)
(***************************************************************************)
StrA(bytes) == L2(Len(bytes)) \o bytes
StrW(cps) == LET w == W16(cps) IN L2(Len(w) \div 2) \o w
SIG(n) == <<n, 0, 0, 160>>
Block(sig4, body) == L4(8 + Len(body)) \o sig4 \o body
Target(n, ansi, wide) == Block(SIG(n), Pad(ansi, 260) \o Pad(wide, 520))
Console(shorts, longs1, face, longs2) == Block(SIG(2), shorts \o Zeros(8) \o longs1 \o Pad(face, 64) \o longs2 \o Zeros(64))
Tracker(len4, ver4, machine, g1, g2, g3, g4) == Block(SIG(3), len4 \o ver4 \o Pad(machine, 16) \o g1 \o g2 \o g3 \o g4)
KnownFolder(g, off4) == Block(SIG(11), g \o off4)
SpecialFolder(id4, off4) == Block(SIG(5), id4 \o off4)
CodePageB(id4) == Block(SIG(4), id4)
Shim(w) == Block(SIG(8), w)
ShellItems(ds) == Block(SIG(12), Listed(ds))
Typed(type, body) == L2(type) \o L2(0) \o body
PVal(id4, typed) == LET b == id4 \o <<0>> \o typed IN L4(Len(b) + 4) \o b
PNamed(name, typed) == LET b == L4(Len(name)) \o <<0>> \o name \o typed IN L4(Len(b) + 4) \o b
PStore(fmt, vals) == LET b == <<49, 83, 80, 83>> \o fmt \o Cat(vals) \o L4(0) IN L4(Len(b) + 4) \o b
Meta(stores) == Block(SIG(9), Cat(stores) \o L4(0))
NAMED == <<5, 213, 205, 213, 156, 46, 27, 16, 147, 151, 8, 0, 43, 44, 249, 174>>
WStr(w) == L4(Len(w) \div 2) \o w              \* VT_LPWSTR: number of characters, text

(***************************************************************************)
(* A link: [hdr, list, info, strs, uni, extra]; list, info: <<>> if absent,*)
(* strs: five sequences, <<>> if absent, else the bytes with their length. *)
(***************************************************************************)
Doc0 == [hdr |-> Hdr0, list |-> <<>>, info |-> <<>>, strs |-> << <<>>, <<>>, <<>>, <<>>, <<>> >>,
         uni |-> FALSE, extra |-> L4(0)]
DocFlags(d) == d.hdr.flags \cup (IF d.list # <<>> THEN {0} ELSE {}) \cup (IF d.info # <<>> THEN {1} ELSE {})
               \cup {i + 1 : i \in {j \in 1..5 : d.strs[j] # <<>>}} \cup (IF d.uni THEN {7} ELSE {})
Link(d) == Hdr([d.hdr EXCEPT !.flags = DocFlags(d)]) \o d.list \o d.info \o Cat(d.strs) \o d.extra
=============================================================================
