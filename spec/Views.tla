-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* What the other outputs of a link look like, given its full report (a    *)
(* set of <<path, value>> pairs, see Bytes) and its command.               *)
(***************************************************************************)
EXTENDS Bytes, Times

(***************************************************************************)
(* The default report: the full one without offsets, sizes of structures,  *)
(* reserved fields and modification times of items.                        *)
(***************************************************************************)
HiddenHeader == {"header_size", "reserved0", "reserved1", "reserved2"}
HiddenInfo == {"link_info_size", "link_info_header_size", "volume_id_offset",
  "local_base_path_offset", "common_network_relative_link_offset", "common_path_suffix_offset"}
HiddenLocal == {"volume_id_size", "volume_label_offset"}
HiddenNetwork == {"common_network_relative_link_size", "net_name_offset", "device_name_offset"}
HiddenTarget == {"index", "size"}

HasLocation(r, where) == <<<<"link_info", "location">>, S(where)>> \in r
Hidden(p, r) ==
  LET n == Len(p) IN
  \/ n = 2 /\ p[1] = "header" /\ p[2] \in HiddenHeader
  \/ n = 2 /\ p[1] = "link_info" /\ p[2] \in HiddenInfo
  \/ n = 3 /\ p[1] = "link_info" /\ p[2] = "location_info"
       /\ \/ p[3] \in HiddenLocal /\ HasLocation(r, "Local")
          \/ p[3] \in HiddenNetwork /\ HasLocation(r, "Network")
  \/ n = 2 /\ p[1] = "target" /\ p[2] \in HiddenTarget
  \/ n = 4 /\ p[1] = "target" /\ p[2] = "items" /\ p[4] = "modification_time"
DefaultView(r) == {x \in r : ~Hidden(x[1], r)}

(***************************************************************************)
(* JSON: the same; instants are written YYYY-MM-DDTHH:MM:SS+00:00.         *)
(***************************************************************************)
Two(n) == <<48 + n \div 10, 48 + (n % 10)>>
Four(n) == Two(n \div 100) \o Two(n % 100)
IsoCps(days, secs) ==
  LET c == CivilFromDays(days) IN
  Four(c.y) \o <<45>> \o Two(c.m) \o <<45>> \o Two(c.d) \o <<84>>
  \o Two(secs \div 3600) \o <<58>> \o Two((secs \div 60) % 60) \o <<58>> \o Two(secs % 60)
  \o <<43, 48, 48, 58, 48, 48>>
JsonValue(v) == IF v[1] = "d" THEN Text(IsoCps(v[2], v[3])) ELSE v
JsonView(r) == {<<x[1], JsonValue(x[2])>> : x \in r}

(***************************************************************************)
(* The readable report.  Header fields and sections stand side by side.    *)
(* Names are in words, capitalised; sections, and names all in capitals,   *)
(* are in capitals.  A raw value r_x gives way to its decoded value x.     *)
(* Flags are joined to one line, with their raw value; the raw hotkey is   *)
(* left out; what has a class stands under the name of its class.          *)
(***************************************************************************)
LOWER == "abcdefghijklmnopqrstuvwxyz"
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Ch(s, i) == SubSeq(s, i, i)
UpTab == [c \in {Ch(LOWER, i) : i \in 1..26} |-> Ch(UPPER, CHOOSE i \in 1..26 : Ch(LOWER, i) = c)]
LoTab == [c \in {Ch(UPPER, i) : i \in 1..26} |-> Ch(LOWER, CHOOSE i \in 1..26 : Ch(UPPER, i) = c)]
Up(c) == IF c \in DOMAIN UpTab THEN UpTab[c] ELSE c
Lo(c) == IF c \in DOMAIN LoTab THEN LoTab[c] ELSE c
Spaced(c) == IF c = "_" THEN " " ELSE c
RECURSIVE MapFrom(_, _, _)
MapFrom(f(_), s, i) == IF i > Len(s) THEN "" ELSE f(Ch(s, i)) \o MapFrom(f, s, i + 1)
Upper(s) == MapFrom(Up, s, 1)
Lower(s) == MapFrom(Lo, s, 1)
Words(s) == MapFrom(Spaced, s, 1)
IsRaw(k) == Len(k) > 2 /\ SubSeq(k, 1, 2) = "r_"
Cooked(k) == IF IsRaw(k) THEN SubSeq(k, 3, Len(k)) ELSE k
NiceName(k) ==
  LET c == Cooked(k) IN
  IF Ch(k, 1) = "#" THEN k
  ELSE IF Upper(c) = c THEN Words(c)
  ELSE Words(Up(Ch(c, 1)) \o Lower(SubSeq(c, 2, Len(c))))
SectionName(k) == Words(Upper(k))

RECURSIVE StringOf(_)
StringOf(cps) == IF cps = <<>> THEN "" ELSE Ch(ASCII, Head(cps) - 31) \o StringOf(Tail(cps))

(* decimal digits of l1 * 65536 + l0 *)
RECURSIVE Dec(_, _)
Dec(l1, l0) ==
  LET q1 == l1 \div 10
      m == (l1 % 10) * 65536 + l0
  IN  (IF q1 = 0 /\ m \div 10 = 0 THEN <<>> ELSE Dec(q1 + (m \div 10) \div 65536, (m \div 10) % 65536))
      \o <<48 + (m % 10)>>

ValueAt(r, p) == (CHOOSE x \in r : x[1] = p)[2]
HasPath(r, p) == \E x \in r : x[1] = p
Below(r, p) == \E x \in r : HasPrefix(x[1], p)

BAR == <<32, 124, 32>>
FlagLine(r, key, raw) ==
  LET v == ValueAt(r, <<"header", raw>>)
      at(i) == <<"header", key, Idx(i)>>
      RECURSIVE join(_)
      join(i) == IF ~HasPath(r, at(i)) THEN <<>>
                 ELSE (IF i = 0 THEN <<>> ELSE BAR) \o ValueAt(r, at(i))[2] \o join(i + 1)
      zero == v[4] = 0 /\ v[5] = 0
  IN  Text(join(0) \o (IF zero THEN <<40>> ELSE <<32, 45, 32, 40>>) \o Dec(v[4], v[5]) \o <<41>>)

(* nice(k): the readable name of k *)
YamlPath(r, p, nice) ==
  LET cls(i) == SubSeq(p, 1, i - 1) \o <<"class">>    \* the class of what holds the i-th key
      key(i) == IF i > 1 /\ HasPath(r, cls(i)) /\ p[i] # "class"
                  THEN <<StringOf(ValueAt(r, cls(i))[2]), nice[p[i]]>>
                  ELSE <<nice[p[i]]>>
      RECURSIVE keys(_)
      keys(i) == IF i > Len(p) THEN <<>> ELSE key(i) \o keys(i + 1)
  IN  IF p[1] = "header" THEN keys(2) ELSE <<SectionName(p[1])>> \o keys(2)

YamlView(r, nice) ==
  LET flags == {"link_flags", "file_flags"}
      gone(p) == \/ p = <<"header", "r_hotkey">>
                 \/ Len(p) >= 2 /\ p[1] = "header" /\ p[2] \in flags
                 \/ LET k == p[Len(p)] IN
                      IsRaw(k) /\ Below(r, SubSeq(p, 1, Len(p) - 1) \o <<Cooked(k)>>)
                 \/ Len(p) > 1 /\ p[Len(p)] = "class"
      \* the class is all there is
      lonely == {x \in r : Len(x[1]) > 1 /\ x[1][Len(x[1])] = "class"
                           /\ ~\E y \in r : y # x /\ HasPrefix(y[1], SubSeq(x[1], 1, Len(x[1]) - 1))}
  IN  {<<YamlPath(r, x[1], nice), x[2]>> : x \in {y \in r : ~gone(y[1])}}
      \cup {<<YamlPath(r, SubSeq(x[1], 1, Len(x[1]) - 1), nice) \o <<StringOf(x[2][2])>>, <<"o">>>> : x \in lonely}
      \cup {<<<<"Link flags">>, FlagLine(r, "link_flags", "r_link_flags")>>,
            <<<<"File flags">>, FlagLine(r, "file_flags", "r_file_flags")>>}

(***************************************************************************)
(* The parts of a link, asked one by one: what the full report says; a     *)
(* string that is not there is nothing; a question for a flag is answered  *)
(* by whether its name is reported.                                        *)
(***************************************************************************)
FlagQuestion == [has_target_id_list |-> "HasTargetIDList", has_link_info |-> "HasLinkInfo", has_name |-> "HasName",
  has_relative_path |-> "HasRelativePath", has_working_dir |-> "HasWorkingDir", has_arguments |-> "HasArguments",
  has_icon_location |-> "HasIconLocation", is_unicode |-> "IsUnicode", force_no_link_info |-> "ForceNoLinkInfo"]
DataKeys == {"description", "relative_path", "working_directory", "command_line_arguments", "icon_location"}
ApiView(r, asked) ==
  {x \in r : x[1] # <<"data">>}
  \* the items and the blocks, got by going through the ID list and the extra data
  \cup {<<<<"walked">> \o x[1], x[2]>> : x \in {y \in r : y[1][1] = "extra" \/ HasPrefix(y[1], <<"target", "items">>)}}
  \cup {<<<<"data", k>>, None>> : k \in {d \in DataKeys : ~HasPath(r, <<"data", d>>)}}
  \cup {<<<<"flags", q>>, <<"b", \E x \in r : Len(x[1]) = 3 /\ SubSeq(x[1], 1, 2) = <<"header", "link_flags">> /\ x[2] = S(FlagQuestion[q])>>>> : q \in asked}

TargetText(cmd) == cmd \o <<10>>
TargetJson(cmd) == {<<<<"shortcut_target">>, Text(cmd)>>}
=============================================================================
