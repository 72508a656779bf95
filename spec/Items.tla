-------------------------------- MODULE Items --------------------------------
(***************************************************************************)
(* Shell items: the elements of an ID list.                                *)
(*                                                                         *)
(* An item occupies the window [lo, hi): two bytes of size, then its data, *)
(* whose first byte tells its kind.  hi is lo + size, or the end of the    *)
(* list if that comes first.  Item(b, lo, hi, tab, path) is what has to be *)
(* reported under path; an item too short for its fixed fields is Damaged: *)
(* it is left out, with a warning.                                         *)
(***************************************************************************)
EXTENDS Bytes, Text, Times

Kind(t) ==
  LET m == (t % 128) \div 16
  IN  CASE m = 2 -> "volume"
        [] m = 3 -> "file"
        [] m = 4 -> "network"
        [] t = 0 -> "cpl"
        [] t = 1 -> "category"
        [] t \in {30, 31} -> "root"
        [] t = 82 -> "compressed"
        [] t = 97 -> "internet"
        [] t \in {112, 113} -> "control"
        [] t = 114 -> "printers"
        [] t = 115 -> "common"
        [] t = 116 -> "users"
        [] OTHER -> "unknown"
ClassName ==
  [volume |-> "Volume Item", file |-> "File entry", network |-> "Network location",
   cpl |-> "Control panel CPL file", category |-> "Control panel category",
   root |-> "Root Folder", compressed |-> "Compressed folder", internet |-> "Internet",
   control |-> "Control panel", printers |-> "Printers", common |-> "Common places folder",
   users |-> "Users files folder", unknown |-> "Unknown"]
ClassText == [k \in DOMAIN ClassName |-> S(ClassName[k])]

(* what the low bits of the kind of a file or network item say *)
FsFlags(n) == CASE (n % 8) = 5 -> "Is Unicode directory"
                [] (n % 8) = 6 -> "Is Unicode file"
                [] (n % 8) = 7 -> "Is Unicode directory"
                [] (n % 8) = 3 -> "Is share"
                [] (n % 8) = 1 -> "Is directory"
                [] (n % 8) = 2 -> "Is file"
                [] (n % 8) = 4 -> "Has Unicode strings"
                [] OTHER -> "Unknown"

SortIndexName(x) ==
  CASE x = 0 -> "Internet Explorer" [] x = 66 -> "Libraries" [] x = 68 -> "Users"
    [] x = 76 -> "Public Folder" [] x = 72 -> "My Documents" [] x = 80 -> "My Computer"
    [] x = 84 -> "UsersLibraries" [] x = 88 -> "My Networs Places/Network"
    [] x = 96 -> "Recycle Bin" [] x = 104 -> "Internet Explorer" [] x = 120 -> "Recycle Bin"
    [] x = 128 -> "My Games" [] OTHER -> "Unknown"

CategoryName == <<
  "All Control Panel Items", "Appearance and Personalization", "Hardware and Sound",
  "Network and Internet", "Sounds, Speech, and Audio Devices", "System and Security",
  "Clock, Language, and Region", "Ease of Access", "Programs", "User Accounts",
  "Security Center", "Mobile PC" >>

HexNib(n) == Text(<<48, 120, HexLo(n)>>)

(* d: offset of the data, hi: end of the item *)
FileItem(b, d, hi, tab, path) ==
  IF d + 12 > hi THEN Damaged
  ELSE LET t == At(b, d)
           m == DosTime(b, d + 6)
           f == FsFlags(t % 16)
           n == IF Bit(t, 2) = 1 THEN Wide(b, d + 12, hi) ELSE Ansi(b, d + 12, hi, tab)
       IN  Res({P(path \o <<"class">>, ClassText.file), P(path \o <<"flags">>, S(f)),
                P(path \o <<"file_size">>, U32V(b, d + 2)),
                P(path \o <<"modification_time">>, m.v),
                P(path \o <<"file_attribute_flags">>, U16V(b, d + 10)),
                P(path \o <<"primary_name">>, Text(n.cps))},
               (IF m.k = "bad" THEN 1 ELSE 0) + (IF f = "Unknown" THEN 1 ELSE 0) + n.warns)

VolumeItem(b, d, hi, tab, path) ==
  LET t == At(b, d) % 16
      base == {P(path \o <<"class">>, ClassText.volume), P(path \o <<"flags">>, HexNib(t))}
  IN  IF Bit(t, 0) = 1
        THEN LET n == Ansi(b, d + 1, Min2(d + 21, hi), tab)
             IN  Res(base \cup {P(path \o <<"volume_name">>, Text(n.cps))}, n.warns)
      ELSE IF d + 18 > hi THEN Damaged
      ELSE Res(base \cup {P(path \o <<"volume_identifier">>, GuidV(b, d + 2))}, 0)

NetworkItem(b, d, hi, tab, path) ==
  IF d + 3 > hi THEN Damaged
  ELSE LET c == At(b, d + 2)
           f == FsFlags(At(b, d) % 16)
           segs == Segments(b, d + 3, hi)
           hasD == Bit(c, 7) = 1
           hasC == Bit(c, 6) = 1
           seg(k) == Decode(b, segs[k].lo, segs[k].hi, tab)
           kd == 2
           kc == IF hasD THEN 3 ELSE 2
           opt(has, k) == IF has /\ k <= Len(segs) THEN Text(seg(k).cps) ELSE None
           wopt(has, k) == IF has /\ k <= Len(segs) THEN seg(k).warns ELSE 0
       IN  Res({P(path \o <<"class">>, ClassText.network), P(path \o <<"flags">>, S(f)),
                P(path \o <<"content_flags">>, IntV(c)),
                P(path \o <<"location">>, Text(seg(1).cps)),
                P(path \o <<"description">>, opt(hasD, kd)),
                P(path \o <<"comments">>, opt(hasC, kc))},
               (IF f = "Unknown" THEN 1 ELSE 0) + seg(1).warns + wopt(hasD, kd) + wopt(hasC, kc))

RootItem(b, d, hi, tab, path) ==
  IF d + 18 > hi THEN Damaged
  ELSE LET x == At(b, d + 1) IN
       Res({P(path \o <<"class">>, ClassText.root), P(path \o <<"sort_index">>, S(SortIndexName(x))),
            P(path \o <<"sort_index_value">>, IntV(x)), P(path \o <<"guid">>, GuidV(b, d + 2))},
           IF SortIndexName(x) = "Unknown" THEN 1 ELSE 0)

ControlItem(b, d, hi, tab, path) ==
  IF d + 30 > hi THEN Damaged
  ELSE Res({P(path \o <<"class">>, ClassText.control),
            P(path \o <<"item_identifier">>, GuidV(b, d + 14))}, 0)

CategoryItem(b, d, hi, tab, path) ==
  IF d + 10 > hi THEN Damaged
  ELSE LET n == U32(b, d + 6) IN
       Res({P(path \o <<"class">>, ClassText.category), P(path \o <<"category_id">>, U32V(b, d + 6)),
            P(path \o <<"category">>, IF n < 12 THEN S(CategoryName[n + 1]) ELSE S("Unknown"))},
           IF n < 12 THEN 0 ELSE 1)

(* A CPL item is in the Unicode form if it has room for its fixed part and *)
(* the byte where the older form has the first character of a path is NUL. *)
CplItem(b, d, hi, tab, path) ==
  LET uni == hi - d >= 22 /\ At(b, d + 10) = 0
      start == IF uni THEN d + 22 ELSE d + 10
      no == IF uni THEN d + 18 ELSE d + 6
      co == IF uni THEN d + 20 ELSE d + 8
      txt(off) == IF uni THEN Wide(b, start + 2 * off, hi) ELSE Ansi(b, start + off, hi, tab)
  IN  IF d + 10 > hi THEN Damaged
      ELSE LET p == txt(0)
               n == txt(U16(b, no))
               c == IF U16(b, co) = 0 THEN [cps |-> <<>>, warns |-> 0] ELSE txt(U16(b, co))
           IN  Res({P(path \o <<"class">>, ClassText.cpl), P(path \o <<"signature">>, Text(Hex8(b, d + 2))),
                    P(path \o <<"cpl_file_path">>, Text(p.cps)), P(path \o <<"name">>, Text(n.cps)),
                    P(path \o <<"comments">>, Text(c.cps))}, p.warns + n.warns + c.warns)

AsciiLossy(b, lo, hi) == AsSeq([k \in 1..Max2(0, hi - lo) |->
                            IF At(b, lo + k - 1) < 128 THEN At(b, lo + k - 1) ELSE FFFD])

(* A delegate: a file entry in an item of its own (its size at d+8), then  *)
(* two class identifiers behind the declared length of the inner data.     *)
UsersItem(b, d, hi, tab, path) ==
  IF d + 10 > hi THEN Damaged
  ELSE LET fe == d + 8
           off == d + 4 + U16(b, d + 2)
           inner == FileItem(b, fe + 2, Min2(hi, fe + U16(b, fe)), tab, path \o <<"file_entry">>)
       IN  IF ~inner.ok \/ off + 32 > hi THEN Damaged
           ELSE Res(inner.must \cup
                    {P(path \o <<"class">>, ClassText.users),
                     P(path \o <<"signature">>, Text(AsciiLossy(b, d + 4, d + 8))),
                     P(path \o <<"delegate_class_id">>, GuidV(b, off)),
                     P(path \o <<"delegate_folder_id">>, GuidV(b, off + 16))}, inner.warns)

PlainItem(k, path) == Res({P(path \o <<"class">>, ClassText[k])}, 0)

(* lo < hi; an item of size 1 or 2 has no kind of its own *)
Item(b, lo, hi, tab, path) ==
  LET d == lo + 2
      k == Kind(At(b, d))
  IN  CASE k = "file" -> FileItem(b, d, hi, tab, path)
        [] k = "volume" -> VolumeItem(b, d, hi, tab, path)
        [] k = "network" -> NetworkItem(b, d, hi, tab, path)
        [] k = "root" -> RootItem(b, d, hi, tab, path)
        [] k = "control" -> ControlItem(b, d, hi, tab, path)
        [] k = "category" -> CategoryItem(b, d, hi, tab, path)
        [] k = "cpl" -> CplItem(b, d, hi, tab, path)
        [] k = "users" -> UsersItem(b, d, hi, tab, path)
        [] k = "unknown" -> Res({P(path \o <<"class">>, ClassText.unknown),
                                 P(path \o <<"size">>, IntV(U16(b, lo)))}, 1)
        [] OTHER -> PlainItem(k, path)

(***************************************************************************)
(* A whole ID list in the window [lo, hi), for the block that carries one. *)
(* Damaged items are left out, as in the ID list of the link; the list may *)
(* end in the middle of an item's first three bytes.                       *)
(***************************************************************************)
IdList(b, lo, hi, tab, path) ==
  LET c == FoldLeft(LAMBDA d, k :
                      IF d.st # "on" THEN d
                      ELSE IF d.at >= hi THEN [d EXCEPT !.st = "end"]
                      ELSE IF d.at + 2 > hi THEN [d EXCEPT !.st = "cut"]
                      ELSE IF U16(b, d.at) = 0 THEN [d EXCEPT !.st = "end"]
                      ELSE IF d.at + 3 > hi THEN [d EXCEPT !.st = "cut"]
                      ELSE IF U16(b, d.at) < 3 THEN [d EXCEPT !.st = "tiny"]
                      ELSE [st |-> "on", at |-> d.at + U16(b, d.at), list |-> Append(d.list, d.at)],
                    [st |-> "on", at |-> lo, list |-> <<>>], AsSeq([k \in 1..((Max2(hi - lo, 0) \div 3) + 2) |-> k]))
      good == SelectSeq(c.list, LAMBDA x : Item(b, x, Min2(hi, x + U16(b, x)), tab, path).ok)
      n == Len(good)
      xs == AsSeq([k \in 1..n |-> Item(b, good[k], Min2(hi, good[k] + U16(b, good[k])), tab, path \o <<Idx(k - 1)>>)])
  IN  [n |-> n, must |-> UNION {xs[k].must : k \in 1..n}, free |-> IF c.st = "tiny" THEN {path} ELSE {},
       warns |-> Total([k \in 1..n |-> xs[k].warns]) + (Len(c.list) - n) + (IF c.st = "cut" THEN 1 ELSE 0)]
=============================================================================
