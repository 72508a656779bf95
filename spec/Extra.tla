-------------------------------- MODULE Extra --------------------------------
(***************************************************************************)
(* ExtraData blocks ([MS-SHLLINK] 2.5).  A block occupies [lo, hi): size,  *)
(* signature, contents.  A known block too short for its fixed fields is   *)
(* Damaged (left out, with a warning); texts inside a block are confined   *)
(* to their own field and to the block.                                    *)
(***************************************************************************)
EXTENDS Bytes, Text, Items, Props, Sha256

BlockName(b, o) ==            \* o: offset of the signature
  IF At(b, o + 3) = 160 /\ At(b, o + 2) = 0 /\ At(b, o + 1) = 0
    THEN LET n == At(b, o) IN
         CASE n = 1 -> "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK"
           [] n = 2 -> "CONSOLE_PROPERTIES_BLOCK"
           [] n = 3 -> "DISTRIBUTED_LINK_TRACKER_BLOCK"
           [] n = 4 -> "CONSOLE_CODEPAGE_BLOCK"
           [] n = 5 -> "SPECIAL_FOLDER_LOCATION_BLOCK"
           [] n = 6 -> "DARWIN_BLOCK"
           [] n = 7 -> "ICON_LOCATION_BLOCK"
           [] n = 8 -> "SHIM_LAYER_BLOCK"
           [] n = 9 -> "METADATA_PROPERTIES_BLOCK"
           [] n = 11 -> "KNOWN_FOLDER_LOCATION_BLOCK"
           [] n = 12 -> "SHELL_ITEM_IDENTIFIER_BLOCK"
           [] OTHER -> "UNKNOWN_BLOCK"
    ELSE "UNKNOWN_BLOCK"
KnownBlocks == {"ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK", "CONSOLE_PROPERTIES_BLOCK",
  "DISTRIBUTED_LINK_TRACKER_BLOCK", "CONSOLE_CODEPAGE_BLOCK", "SPECIAL_FOLDER_LOCATION_BLOCK",
  "DARWIN_BLOCK", "ICON_LOCATION_BLOCK", "SHIM_LAYER_BLOCK", "METADATA_PROPERTIES_BLOCK",
  "KNOWN_FOLDER_LOCATION_BLOCK", "SHELL_ITEM_IDENTIFIER_BLOCK"}

E(n) == <<"extra", n>>
EF(n, k) == <<"extra", n, k>>

TargetPair(b, lo, hi, tab, name, ka, ku) ==
  LET a == Ansi(b, lo + 8, Min2(lo + 268, hi), tab)
      u == Wide(b, lo + 268, Min2(lo + 788, hi))
  IN  Res({P(EF(name, ka), Text(a.cps)), P(EF(name, ku), Text(u.cps))}, a.warns + u.warns)

ConsoleShorts == <<"fill_attributes", "popup_fill_attributes", "screen_buffer_size_x",
  "screen_buffer_size_y", "window_size_x", "window_size_y", "window_origin_x", "window_origin_y">>
ConsoleLongs1 == <<"font_size", "font_family", "font_weight">>
ConsoleLongs2 == <<"cursor_size", "full_screen", "quick_edit", "insert_mode", "auto_position",
  "history_buffer_size", "number_of_history_buffers", "history_no_dup", "color_table">>
ConsoleRes(b, lo, hi, tab) ==
  LET nm == "CONSOLE_PROPERTIES_BLOCK"
      f == Wide(b, lo + 44, lo + 108)
  IN  IF lo + 144 > hi THEN Damaged
      ELSE Res({P(EF(nm, ConsoleShorts[i]), IF i <= 2 THEN U16V(b, lo + 6 + 2*i) ELSE I16V(b, lo + 6 + 2*i)) : i \in 1..8}
               \cup {P(EF(nm, ConsoleLongs1[i]), U32V(b, lo + 28 + 4*i)) : i \in 1..3}
               \cup {P(EF(nm, "face_name"), Text(f.cps))}
               \cup {P(EF(nm, ConsoleLongs2[i]), U32V(b, lo + 104 + 4*i)) : i \in 1..9}, f.warns)

TrackerRes(b, lo, hi, tab) ==
  LET nm == "DISTRIBUTED_LINK_TRACKER_BLOCK"
      m == Ansi(b, lo + 16, lo + 32, tab)
  IN  IF lo + 96 > hi THEN Damaged
      ELSE Res({P(EF(nm, "length"), U32V(b, lo + 8)), P(EF(nm, "version"), U32V(b, lo + 12)),
                P(EF(nm, "machine_identifier"), Text(m.cps)),
                P(EF(nm, "droid_volume_identifier"), GuidV(b, lo + 32)),
                P(EF(nm, "droid_file_identifier"), GuidV(b, lo + 48)),
                P(EF(nm, "birth_droid_volume_identifier"), GuidV(b, lo + 64)),
                P(EF(nm, "birth_droid_file_identifier"), GuidV(b, lo + 80))},
               m.warns + (IF U32(b, lo + 8) = 88 THEN 0 ELSE 1) + (IF IsZero32(b, lo + 12) THEN 0 ELSE 1))

(***************************************************************************)
(* Darwin descriptors: a packed product code (20 characters, base 85), a   *)
(* feature name, and after '>' the packed component code ('<': none).      *)
(***************************************************************************)
BASE85 == Cps("!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~")
Digit85 == [c \in 0..127 |-> IF \E i \in 1..85 : BASE85[i] = c
                             THEN (CHOOSE i \in 1..85 : BASE85[i] = c) - 1 ELSE -1]
Dig(c) == IF c < 128 THEN Digit85[c] ELSE -1
(* five characters, least significant first -> [ok, hi, lo] *)
Quad(t, k) ==
  LET d(i) == Dig(t[k + i])
      step(v, x) == LET l == v.lo * 85 + x
                        h == v.hi * 85 + l \div 65536
                    IN [ok |-> v.ok /\ x >= 0 /\ h < 65536,
                        hi |-> h % 65536, lo |-> l % 65536]
      s0 == [ok |-> TRUE, hi |-> 0, lo |-> 0]
  IN  step(step(step(step(step(s0, d(5)), d(4)), d(3)), d(2)), d(1))
Nib4(n) == <<HexUp(n \div 4096), HexUp((n \div 256) % 16), HexUp((n \div 16) % 16), HexUp(n % 16)>>
(* [k |-> "ok"|"short"|"free", v] *)
PackedGuid(t) ==
  IF Len(t) < 20 THEN [k |-> "short", v |-> None]
  ELSE LET q == [i \in 1..4 |-> Quad(t, 5 * (i - 1))]
           x(i) == Nib4(q[i].hi) \o Nib4(q[i].lo)
           sw(i) == LET h == x(i) IN <<h[7], h[8], h[5], h[6], h[3], h[4], h[1], h[2]>>
       IN  IF \E i \in 1..4 : ~q[i].ok THEN [k |-> "free", v |-> None]
           ELSE [k |-> "ok",
                 v |-> Text(x(1) \o <<DASH>> \o SubSeq(x(2), 5, 8) \o <<DASH>> \o SubSeq(x(2), 1, 4) \o <<DASH>>
                            \o SubSeq(sw(3), 1, 4) \o <<DASH>> \o SubSeq(sw(3), 5, 8) \o sw(4))]
Find(t, c) == LET Z == {i \in 1..Len(t) : t[i] = c} IN IF Z = {} THEN 0 ELSE MinOf(Z)

DarwinRes(b, lo, hi, tab) ==
  LET nm == "DARWIN_BLOCK"
      base == TargetPair(b, lo, hi, tab, nm, "darwin_data_ansi", "darwin_data_unicode")
      u == Wide(b, lo + 268, Min2(lo + 788, hi))
      t == u.cps
      gt == Find(t, 62)
      term == Max2(gt, Find(t, 60))
      prod == PackedGuid(t)
      comp == IF gt = 0 THEN [k |-> "ok", v |-> None]
              ELSE PackedGuid(SubSeq(t, gt + 1, Len(t)))
      one(k, g) == IF g.k = "free" THEN {} ELSE {P(EF(nm, k), g.v)}
      feat == IF term = 21 THEN {P(EF(nm, "feature_name"), None)}
              ELSE IF term > 21 THEN {P(EF(nm, "feature_name"), Text(SubSeq(t, 21, term - 1)))}
              ELSE {}
  IN  [must |-> base.must \cup one("product_code_id", prod) \cup one("component_id", comp) \cup feat,
       may |-> {},
       free |-> (IF prod.k = "free" THEN {EF(nm, "product_code_id")} ELSE {})
                \cup (IF comp.k = "free" THEN {EF(nm, "component_id")} ELSE {})
                \cup (IF feat = {} THEN {EF(nm, "feature_name")} ELSE {}),
       warns |-> base.warns + (IF prod.k = "short" THEN 1 ELSE 0) + (IF comp.k = "short" THEN 1 ELSE 0),
       ok |-> TRUE]

(* the contents of a known block *)
KnownRes(b, lo, hi, tab, name) ==
  CASE name = "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK"
         -> TargetPair(b, lo, hi, tab, name, "target_ansi", "target_unicode")
    [] name = "ICON_LOCATION_BLOCK"
         -> TargetPair(b, lo, hi, tab, name, "target_ansi", "target_unicode")
    [] name = "CONSOLE_PROPERTIES_BLOCK" -> ConsoleRes(b, lo, hi, tab)
    [] name = "DISTRIBUTED_LINK_TRACKER_BLOCK" -> TrackerRes(b, lo, hi, tab)
    [] name = "CONSOLE_CODEPAGE_BLOCK"
         -> IF lo + 12 > hi THEN Damaged ELSE Res({P(EF(name, "code_page"), U32V(b, lo + 8))}, 0)
    [] name = "SPECIAL_FOLDER_LOCATION_BLOCK"
         -> IF lo + 16 > hi THEN Damaged
            ELSE Res({P(EF(name, "special_folder_id"), U32V(b, lo + 8)), P(EF(name, "offset"), U32V(b, lo + 12))}, 0)
    [] name = "KNOWN_FOLDER_LOCATION_BLOCK"
         -> IF lo + 28 > hi THEN Damaged
            ELSE Res({P(EF(name, "known_folder_id"), GuidV(b, lo + 8)), P(EF(name, "offset"), U32V(b, lo + 24))}, 0)
    [] name = "SHIM_LAYER_BLOCK"
         -> LET w == Wide(b, lo + 8, hi) IN Res({P(EF(name, "layer_name"), Text(w.cps))}, w.warns)
    [] name = "DARWIN_BLOCK" -> DarwinRes(b, lo, hi, tab)
    [] name = "METADATA_PROPERTIES_BLOCK" -> Store(b, lo + 8, hi, EF(name, "property_store"))
    [] name = "SHELL_ITEM_IDENTIFIER_BLOCK"
         -> LET l == IdList(b, lo + 8, hi, tab, EF(name, "id_list"))
            IN  [must |-> IF l.free # {} THEN {}
                          ELSE l.must \cup (IF l.n = 0 THEN {P(EF(name, "id_list"), <<"l">>)} ELSE {}),
                 may |-> {}, free |-> IF l.free # {} THEN {E(name)} ELSE {},
                 warns |-> l.warns, ok |-> TRUE]

(* the block in [lo, hi) under its name (known blocks only) *)
BlockRes(b, lo, hi, tab, name) ==
  LET r == KnownRes(b, lo, hi, tab, name) IN
  IF ~r.ok \/ (\E p \in r.free : p = E(name)) THEN r
  ELSE [r EXCEPT !.must = @ \cup {P(EF(name, "size"), U32V(b, lo))}]

UnknownPairs(b, lo, hi, n) ==
  LET path == <<"extra", "UNKNOWN_BLOCK", Idx(n)>> IN
  {P(path \o <<"size">>, U32V(b, lo)),
   P(path \o <<"extra_data_sha256">>, Text(ShaCps(b, lo + 4, hi)))}

TerminalPairs(b, lo, hi) ==
  {P(EF("TERMINAL_BLOCK", "size"), IntV(hi - lo)),
   P(EF("TERMINAL_BLOCK", "appended_data_sha256"), Text(ShaCps(b, lo + 4, hi)))}
=============================================================================
