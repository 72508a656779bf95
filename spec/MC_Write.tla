------------------------------- MODULE MC_Write -------------------------------
(***************************************************************************)
(* Writing and reading are inverse: of a structure written from plain      *)
(* values (numbers, names, dates), reading finds those values, nothing     *)
(* else, and no defect.  The values are given twice: as the bytes the      *)
(* writer (Build) makes of them, and as what has to be reported.           *)
(***************************************************************************)
EXTENDS LnkParse, Build, Json, IOUtils

CodePageFile == JsonDeserialize(IOEnv.CODEPAGES)
Deep == IOEnv.TIER = "thorough"

VARIABLES want, under, total
tvars == <<vars, want, under, total>>

Nums == IF Deep THEN {0, 1, 2, 127, 128, 255, 256, 4660, 32767, 32768, 65535, 65536, 305419896, 16777215, 16777216, 268435455, 268435456, 2147483647}
        ELSE {0, 1, 255, 256, 65535, 65536, 305419896, 2147483647}
Shorts == {x \in Nums : x < 65536}
Names == IF Deep THEN {"", "a", "name.txt", "two words", "C:\\dir\\file", "x\"y'z", "0123456789012345678901234567890123456789"} ELSE {"", "a", "two words", "C:\\dir\\file"}
Uni == {<<>>, <<97>>, <<8364, 65, 1078>>, <<127866, 55>>, <<255, 256, 32767>>}
Dates == {<<2000, 2, 29>>, <<1980, 1, 1>>, <<2107, 12, 31>>, <<1999, 12, 31>>}
Days1601(d) == DaysFromCivil(d[1], d[2], d[3])
(* the text form of G(x): bytes of the first three fields reversed *)
GuidText(x) ==
  LET g == G(x)
      order == <<4, 3, 2, 1, 0, 6, 5, 0, 8, 7, 0, 9, 10, 0, 11, 12, 13, 14, 15, 16>>
  IN  Text(Cat([i \in 1..20 |-> IF order[i] = 0 THEN <<45>> ELSE Byte2Up(g[order[i]])]))
Case(b, w, u) == [b |-> b, w |-> w, u |-> u]
Pairs(path, f) == {P(path \o <<k>>, f[k]) : k \in DOMAIN f}

(* header *)
WithH(h) == Link([Doc0 EXCEPT !.hdr = h])
NumberCases ==
  {Case(WithH([Hdr0 EXCEPT !.fsize = L4(num)]), {P(<<"header", "file_size">>, IntV(num))}, <<"header", "file_size">>) : num \in Nums}
  \cup {Case(WithH([Hdr0 EXCEPT !.icon = L4(num)]), {P(<<"header", "icon_index">>, IntV(num))}, <<"header", "icon_index">>) : num \in Nums}
  \cup {Case(WithH([Hdr0 EXCEPT !.icon = Negate(L4(num), 1)]), {P(<<"header", "icon_index">>, IntV(-num))}, <<"header", "icon_index">>) : num \in Nums \ {0}}
TimeCases ==
  {Case(WithH([Hdr0 EXCEPT !.times = Cat([i \in 1..3 |-> IF i = k THEN FileTimeOf(d[1], d[2], d[3], s, 0) ELSE Zeros(8)])]),
        {P(<<"header", <<"creation_time", "accessed_time", "modified_time">>[k]>>, <<"d", Days1601(d), s, 0>>)},
        <<"header", <<"creation_time", "accessed_time", "modified_time">>[k]>>) : k \in 1..3, d \in Dates, s \in {0, 1, 43200, 86399}}
FlagCases ==        \* flags that decide nothing else
  {Case(WithH([Hdr0 EXCEPT !.flags = {9, 18, k}]),
        LET on == SelectSeq(<<9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26>>, LAMBDA x : x \in {9, 18, k})
        IN  {P(<<"header", "link_flags", Idx(i - 1)>>, S(LinkFlagName[on[i] + 1])) : i \in 1..Len(on)},
        <<"header", "link_flags">>) : k \in 9..26}
  \cup {Case(WithH([Hdr0 EXCEPT !.attrs = {k}]), {P(<<"header", "file_flags", "#0">>, S(FileFlagName[k + 1]))}, <<"header", "file_flags">>) : k \in 0..17}
HeaderCases == NumberCases \cup TimeCases \cup FlagCases

(* items *)
ITEM0 == <<"target", "items", "#0">>
ITEM1 == <<"target", "items", "#1">>
AlsoThere == [class |-> S("Root Folder"), sort_index |-> S("My Computer"), sort_index_value |-> IntV(80), guid |-> GuidText(9)]
Listing(data, f) ==    \* the item between two others
  Case(Link([Doc0 EXCEPT !.list = IdListOf(<<RootIt(31, 80, G(9)), data, RootIt(31, 80, G(9))>>)]), Pairs(ITEM1, f), ITEM1)
FileCases ==
  {Listing(FileIt(48 + (IF u THEN 4 ELSE 0) + (IF d THEN 1 ELSE 2), L4(num), DosOf(dt[1], dt[2], dt[3], 13, 59, 58), L2(16), IF u THEN ZW(Cps(t)) ELSE Z(Cps(t))),
     [class |-> S("File entry"), flags |-> S(IF u THEN (IF d THEN "Is Unicode directory" ELSE "Is Unicode file") ELSE IF d THEN "Is directory" ELSE "Is file"),
      file_size |-> IntV(num), modification_time |-> <<"d", Days1601(dt), 50398, 0>>, file_attribute_flags |-> IntV(16), primary_name |-> S(t)])
   : u \in BOOLEAN, d \in BOOLEAN, num \in Nums, dt \in Dates, t \in Names}
OtherItemCases ==
  {Listing(VolNameIt(47, Pad(Cps(t), 20)), [class |-> S("Volume Item"), flags |-> S("0xf"), volume_name |-> S(t)]) : t \in {x \in Names : Len(x) < 20}}
  \cup {Listing(VolIdIt(46, G(x)), [class |-> S("Volume Item"), flags |-> S("0xe"), volume_identifier |-> GuidText(x)]) : x \in {0, 1, 100, 255}}
  \cup {Listing(RootIt(31, 68, G(x)), [class |-> S("Root Folder"), sort_index |-> S("Users"), sort_index_value |-> IntV(68), guid |-> GuidText(x)]) : x \in {0, 200}}
  \cup {Listing(ControlIt(113, G(x)), [class |-> S("Control panel"), item_identifier |-> GuidText(x)]) : x \in {0, 200}}
  \cup {Listing(CategoryIt(L4(num)), [class |-> S("Control panel category"), category_id |-> IntV(num), category |-> S(CategoryName[num + 1])]) : num \in 0..11}
  \cup {Listing(NetIt(65, 192, Z(Cps(t)) \o Z(Cps("d")) \o Z(Cps(c))),
          [class |-> S("Network location"), flags |-> S("Is directory"), content_flags |-> IntV(192), location |-> S(t), description |-> S("d"), comments |-> S(c)]) : t \in Names, c \in Names}
  \cup {Listing(NetIt(66, 64, Z(Cps(t)) \o Z(Cps(c))),
          [class |-> S("Network location"), flags |-> S("Is file"), content_flags |-> IntV(64), location |-> S(t), description |-> None, comments |-> S(c)]) : t \in Names, c \in Names}
  \cup {Listing(CplWideIt(L4(19088743), ZW(t), ZW(num), ZW(c)),
          [class |-> S("Control panel CPL file"), signature |-> S("0x01234567"), cpl_file_path |-> Text(t), name |-> Text(num), comments |-> Text(c)]) : t \in Uni, num \in Uni, c \in Uni}
  \cup {Listing(CplAnsiIt(L4(19088743), Z(Cps(t)), Z(Cps(num)), Z(Cps(c))),
          [class |-> S("Control panel CPL file"), signature |-> S("0x01234567"), cpl_file_path |-> S(t), name |-> S(num), comments |-> S(c)])
        : t \in Names \ {""}, num \in Names, c \in Names}
  \cup {Listing(<<x, 0>>, [class |-> S(CASE x = 82 -> "Compressed folder" [] x = 97 -> "Internet" [] x = 114 -> "Printers" [] OTHER -> "Common places folder")]) : x \in {82, 97, 114, 115}}
UsersCases ==
  {LET r == Listing(UsersIt(Cps("CFSF"), FileIt(50, L4(7), DosOf(2001, 2, 3, 0, 0, 0), L2(32), Z(Cps(t))), p, G(1), G(2)),
                    [class |-> S("Users files folder"), signature |-> S("CFSF"), delegate_class_id |-> GuidText(1), delegate_folder_id |-> GuidText(2)])
   IN  [r EXCEPT !.w = @ \cup Pairs(ITEM1 \o <<"file_entry">>, [class |-> S("File entry"), flags |-> S("Is file"), file_size |-> IntV(7),
          modification_time |-> <<"d", DaysFromCivil(2001, 2, 3), 0, 0>>, file_attribute_flags |-> IntV(32), primary_name |-> S(t)])]
   : t \in Names, p \in {<<>>, <<0, 0>>, <<1, 2, 3, 4>>}}
ItemCases == FileCases \cup OtherItemCases \cup UsersCases

(* LinkInfo *)
INFO == <<"link_info">>
LocalCase(long, lab, d, num, t, x) ==
  LET vol == IF lab THEN VolWide(L4(d), L4(num), ZW(x)) ELSE VolAnsi(L4(d), L4(num), Z(Cps("label")))
      v == Part("vol", vol)  b == Part("base", Z(Cps(t)))  s == Part("suffix", Z(Cps("suf")))
      bw == Part("basew", ZW(x))  sw == Part("suffixw", ZW(<<8364>>))
      ps == IF long THEN <<bw, s, v, sw, b>> ELSE <<s, b, v>>
      hs == IF long THEN 36 ELSE 28
      at(k) == LET i == CHOOSE j \in 1..Len(ps) : ps[j].k = k IN hs + Len(Cat([j \in 1..(i - 1) |-> ps[j].b]))
      f == [link_info_size |-> IntV(hs + Len(Cat([j \in 1..Len(ps) |-> ps[j].b]))), link_info_header_size |-> IntV(hs), link_info_flags |-> IntV(1),
            volume_id_offset |-> IntV(at("vol")), local_base_path_offset |-> IntV(at("base")), common_network_relative_link_offset |-> IntV(0),
            common_path_suffix_offset |-> IntV(at("suffix")), local_base_path |-> S(t), common_path_suffix |-> S("suf"), location |-> S("Local")]
      g == [local_base_path_offset_unicode |-> IntV(at("basew")), local_base_path_unicode |-> Text(x),
            common_path_suffix_offset_unicode |-> IntV(at("suffixw")), common_path_suffix_unicode |-> Text(<<8364>>)]
      l == [volume_id_size |-> IntV(Len(vol)), r_drive_type |-> IntV(d), drive_type |-> S(DriveTypeName[d + 1]),
            drive_serial_number |-> S(CASE num = 0 -> "0x0" [] num = 305419896 -> "0x12345678" [] OTHER -> "0x7fffffff"),
            volume_label_offset |-> IntV(IF lab THEN 20 ELSE 16), volume_label |-> IF lab THEN None ELSE S("label")]
      u == [volume_label_unicode_offset |-> IntV(20), volume_label_unicode |-> Text(x)]
  IN  Case(Link([Doc0 EXCEPT !.info = InfoOf(L4(1), hs, ps), !.strs[1] = StrA(<<97>>)]),
           Pairs(INFO, f) \cup (IF long THEN Pairs(INFO, g) ELSE {}) \cup Pairs(INFO \o <<"location_info">>, l)
             \cup (IF lab THEN Pairs(INFO \o <<"location_info">>, u) ELSE {}), INFO)
NetCase(fl, prov, wide, t, x) ==
  LET dev == IF fl % 2 = 1 THEN Z(Cps("Z:")) ELSE <<>>
      p4 == <<0, 0, prov[1], 0>>
      link == IF wide THEN NetWide(L4(fl), p4, Z(Cps(t)), dev, ZW(x), ZW(<<90, 58>>)) ELSE NetAnsi(L4(fl), p4, Z(Cps(t)), dev)
      f == [link_info_size |-> IntV(32 + Len(link)), link_info_header_size |-> IntV(28), link_info_flags |-> IntV(2), volume_id_offset |-> IntV(0),
            local_base_path_offset |-> IntV(0), common_network_relative_link_offset |-> IntV(28),
            common_path_suffix_offset |-> IntV(28 + Len(link)), common_path_suffix |-> S("suf"), location |-> S("Network")]
      n0 == IF wide THEN 28 ELSE 20
      d0 == n0 + Len(t) + 1
      l == [common_network_relative_link_size |-> IntV(Len(link)), common_network_relative_link_flags |-> IntV(fl), net_name_offset |-> IntV(n0),
            device_name_offset |-> IntV(IF dev = <<>> THEN 0 ELSE d0), r_network_provider_type |-> Text(Cps("0x") \o Byte2Lo(prov[1]) \o Cps("0000"))]
      w0 == d0 + Len(dev)
      w == [net_name_offset_unicode |-> IntV(w0), net_name_unicode |-> Text(x), device_name_offset_unicode |-> IntV(w0 + Len(ZW(x))), device_name_unicode |-> S("Z:")]
      LX == INFO \o <<"location_info">>
  IN  Case(Link([Doc0 EXCEPT !.info = InfoOf(L4(2), 28, <<Part("net", link), Part("suffix", Z(Cps("suf")))>>)]),
           Pairs(INFO, f) \cup Pairs(LX, l)
             \cup (IF fl \div 2 = 1 THEN {P(LX \o <<"network_provider_type">>, S(prov[2]))} ELSE {})
             \cup (IF wide THEN Pairs(LX, w)
                   ELSE (IF t = "" THEN {} ELSE {P(LX \o <<"net_name">>, S(t))}) \cup (IF dev = <<>> THEN {} ELSE {P(LX \o <<"device_name">>, S("Z:"))})), INFO)
LocalCases ==
  {LocalCase(long, lab, d, num, t, x) : long \in BOOLEAN, lab \in BOOLEAN, d \in IF Deep THEN 0..6 ELSE {0, 3, 6}, num \in {0, 305419896, 2147483647}, t \in Names, x \in Uni}
NetCases ==
  {NetCase(fl, p, w, t, x) : fl \in 0..3, p \in {<<26, "WNNC_NET_AVID">>, <<46, "WNNC_NET_DAV">>, <<67, "WNNC_NET_GOOGLE">>}, w \in BOOLEAN, t \in Names, x \in Uni}

(* strings *)
StringCases ==
  {Case(Link([Doc0 EXCEPT !.uni = u, !.strs = AsSeq([i \in 1..5 |-> IF i \in on THEN (IF u THEN StrW(Cps(t) \o <<48 + i>>) ELSE StrA(Cps(t) \o <<48 + i>>)) ELSE <<>>])]),
        IF on = {} THEN {P(<<"data">>, <<"o">>)}
        ELSE {P(<<"data", <<"description", "relative_path", "working_directory", "command_line_arguments", "icon_location">>[i]>>, Text(Cps(t) \o <<48 + i>>)) : i \in on},
        <<"data">>) : u \in BOOLEAN, on \in SUBSET (1..5), t \in Names}

(* extra blocks, between two others *)
Between(name, bl, f) ==
  Case(Link([Doc0 EXCEPT !.extra = SpecialFolder(L4(1), L4(2)) \o bl \o Shim(ZW(<<97>>)) \o L4(0)]),
       Pairs(<<"extra", name>>, f) \cup {P(<<"extra", name, "size">>, IntV(Len(bl)))}, <<"extra", name>>)
PACKED == Cps("w_1^VX!!!!!!!!!MKKSk")
Word(i) == 257 * i
BlockCases ==
  {Between("KNOWN_FOLDER_LOCATION_BLOCK", KnownFolder(G(x), L4(num)), [known_folder_id |-> GuidText(x), offset |-> IntV(num)]) : x \in {0, 77}, num \in Nums}
  \cup {Between("CONSOLE_CODEPAGE_BLOCK", CodePageB(L4(num)), [code_page |-> IntV(num)]) : num \in Nums}
  \cup {Between("DISTRIBUTED_LINK_TRACKER_BLOCK", Tracker(L4(88), L4(0), Cps(t), G(1), G(2), G(3), G(4)),
          [length |-> IntV(88), version |-> IntV(0), machine_identifier |-> S(t), droid_volume_identifier |-> GuidText(1), droid_file_identifier |-> GuidText(2),
           birth_droid_volume_identifier |-> GuidText(3), birth_droid_file_identifier |-> GuidText(4)]) : t \in {x \in Names : Len(x) <= 16}}
  \cup {Between(IF k = 1 THEN "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK" ELSE "ICON_LOCATION_BLOCK", Target(k, Z(Cps(t)), ZW(x)), [target_ansi |-> S(t), target_unicode |-> Text(x)])
        : k \in {1, 7}, t \in Names, x \in Uni}
  \cup {Between("CONSOLE_PROPERTIES_BLOCK",
          Console(Cat([i \in 1..8 |-> L2(Word(i))]), Cat([i \in 1..3 |-> L4(num - 8 - i)]), ZW(x), Cat([i \in 1..8 |-> L4(num - 11 - i)])),
          [fill_attributes |-> IntV(257), popup_fill_attributes |-> IntV(514), screen_buffer_size_x |-> IntV(771), screen_buffer_size_y |-> IntV(1028),
           window_size_x |-> IntV(1285), window_size_y |-> IntV(1542), window_origin_x |-> IntV(1799), window_origin_y |-> IntV(2056),
           font_size |-> IntV(num - 9), font_family |-> IntV(num - 10), font_weight |-> IntV(num - 11), face_name |-> Text(x),
           cursor_size |-> IntV(num - 12), full_screen |-> IntV(num - 13), quick_edit |-> IntV(num - 14), insert_mode |-> IntV(num - 15), auto_position |-> IntV(num - 16),
           history_buffer_size |-> IntV(num - 17), number_of_history_buffers |-> IntV(num - 18), history_no_dup |-> IntV(num - 19), color_table |-> IntV(0)])
        : num \in {x \in Nums : x > 100}, x \in Uni}
OneMore(bl) == Link([Doc0 EXCEPT !.extra = bl \o L4(0)])
PropCases ==
  {LET v1 == PVal(L4(num), Typed(31, WStr(ZW(x))))
            v2 == PVal(L4(2), Typed(2, L2(7) \o <<0, 0>>))
            nm == PNamed(ZW(x), Typed(31, WStr(ZW(Cps(t)))))
            s1 == PStore(G(3), <<v1, v2>>)
            s2 == PStore(NAMED, <<nm>>)
            bl == Meta(<<s1, s2>>)
            M(i) == <<"extra", "METADATA_PROPERTIES_BLOCK", "property_store", Idx(i)>>
            V(i, j) == M(i) \o <<"serialized_property_values", Idx(j)>>
        IN  Case(OneMore(bl),
              {P(<<"extra", "METADATA_PROPERTIES_BLOCK", "size">>, IntV(Len(bl)))}
              \cup Pairs(M(0), [storage_size |-> IntV(Len(s1)), version |-> S("0x53505331"), format_id |-> GuidText(3)])
              \cup Pairs(M(1), [storage_size |-> IntV(Len(s2)), version |-> S("0x53505331"), format_id |-> S("D5CDD505-2E9C-101B-9397-08002B2CF9AE")])
              \cup Pairs(V(0, 0), [value_size |-> IntV(Len(v1)), id |-> IntV(num), value |-> Text(x), value_type |-> S("VT_LPWSTR")])
              \cup Pairs(V(0, 1), [value_size |-> IntV(Len(v2)), id |-> IntV(2), value |-> IntV(7), value_type |-> S("VT_I2")])
              \cup Pairs(V(1, 0), [value_size |-> IntV(Len(nm)), name_size |-> IntV(Len(ZW(x))), name |-> Text(x), value |-> S(t), value_type |-> S("VT_LPWSTR")]),
              <<"extra", "METADATA_PROPERTIES_BLOCK">>) : num \in Nums, x \in Uni, t \in Names}
Cases == CASE IOEnv.PART = "header" -> HeaderCases [] IOEnv.PART = "items" -> ItemCases [] IOEnv.PART = "local" -> LocalCases
           [] IOEnv.PART = "network" -> NetCases [] IOEnv.PART = "strings" -> StringCases [] IOEnv.PART = "blocks" -> BlockCases
           [] IOEnv.PART = "store" -> PropCases

Init == \E c \in Cases :
          /\ StartWith([b |-> c.b, cp |-> "cp1252", atb |-> TRUE])
          /\ want = c.w /\ under = c.u /\ total = Len(c.b)
Rest == phase = "done" /\ UNCHANGED tvars
Spec == Init /\ [][(Next /\ UNCHANGED <<want, under, total>>) \/ Rest]_tvars

ReadsBack == phase = "done" => {x \in must : HasPrefix(x[1], under)} = want
Sound == phase = "done" => warns = 0 /\ may = {} /\ free = {} /\ szlo = total /\ szhi = total
View == <<job, phase, pos, n>>
=============================================================================
