-------------------------------- MODULE Info --------------------------------
(***************************************************************************)
(* LinkInfo ([MS-SHLLINK] 2.3): where the target was, on a local volume or *)
(* on a network share.  The structure starts at lo; the file ends at hi.   *)
(*                                                                         *)
(* All offsets count from the start of LinkInfo, those inside the volume   *)
(* and network parts from the start of that part.  A part whose fields do  *)
(* not lie in the file is damaged: what could be read is reported (may),   *)
(* with a warning, and the seven fields of the LinkInfo header are         *)
(* reported whenever they lie in the file (must).                          *)
(***************************************************************************)
EXTENDS Bytes, Text

DriveTypeName == <<"DRIVE_UNKNOWN", "DRIVE_NO_ROOT_DIR", "DRIVE_REMOVABLE", "DRIVE_FIXED",
                   "DRIVE_REMOTE", "DRIVE_CDROM", "DRIVE_RAMDISK">>

(* NetworkProviderType: 0x00XX0000 for XX = 1A.. *)
ProviderName ==
  [x \in 0..255 |->
   CASE x = 26 -> "WNNC_NET_AVID" [] x = 27 -> "WNNC_NET_DOCUSPACE" [] x = 28 -> "WNNC_NET_MANGOSOFT"
     [] x = 29 -> "WNNC_NET_SERNET" [] x = 30 -> "WNNC_NET_RIVERFRONT1" [] x = 31 -> "WNNC_NET_RIVERFRONT2"
     [] x = 32 -> "WNNC_NET_DECORB" [] x = 33 -> "WNNC_NET_PROTSTOR" [] x = 34 -> "WNNC_NET_FJ_REDIR"
     [] x = 35 -> "WNNC_NET_DISTINCT" [] x = 36 -> "WNNC_NET_TWINS" [] x = 37 -> "WNNC_NET_RDR2SAMPLE"
     [] x = 38 -> "WNNC_NET_CSC" [] x = 39 -> "WNNC_NET_3IN1" [] x = 41 -> "WNNC_NET_EXTENDNET"
     [] x = 42 -> "WNNC_NET_STAC" [] x = 43 -> "WNNC_NET_FOXBAT" [] x = 44 -> "WNNC_NET_YAHOO"
     [] x = 45 -> "WNNC_NET_EXIFS" [] x = 46 -> "WNNC_NET_DAV" [] x = 47 -> "WNNC_NET_KNOWARE"
     [] x = 48 -> "WNNC_NET_OBJECT_DIRE" [] x = 49 -> "WNNC_NET_MASFAX" [] x = 50 -> "WNNC_NET_HOB_NFS"
     [] x = 51 -> "WNNC_NET_SHIVA" [] x = 52 -> "WNNC_NET_IBMAL" [] x = 53 -> "WNNC_NET_LOCK"
     [] x = 54 -> "WNNC_NET_TERMSRV" [] x = 55 -> "WNNC_NET_SRT" [] x = 56 -> "WNNC_NET_QUINCY"
     [] x = 57 -> "WNNC_NET_OPENAFS" [] x = 58 -> "WNNC_NET_AVID1" [] x = 59 -> "WNNC_NET_DFS"
     [] x = 60 -> "WNNC_NET_KWNP" [] x = 61 -> "WNNC_NET_ZENWORKS" [] x = 62 -> "WNNC_NET_DRIVEONWEB"
     [] x = 63 -> "WNNC_NET_VMWARE" [] x = 64 -> "WNNC_NET_RSFX" [] x = 65 -> "WNNC_NET_MFILES"
     [] x = 66 -> "WNNC_NET_MS_NFS" [] x = 67 -> "WNNC_NET_GOOGLE" [] OTHER -> ""]
Provider(b, o) == IF At(b, o) = 0 /\ At(b, o + 1) = 0 /\ At(b, o + 3) = 0
                  THEN ProviderName[At(b, o + 2)] ELSE ""

LI(k) == <<"link_info", k>>
LL(k) == <<"link_info", "location_info", k>>

InfoKind(b, lo, hi) ==
  IF lo + 12 > hi THEN "short"
  ELSE IF BitOf(b, lo + 8, 0) = 1 THEN "Local"
  ELSE IF BitOf(b, lo + 8, 1) = 1 THEN "Network"
  ELSE "none"

(* A text at an offset.  Where it has no end inside of [lo, send) - send:  *)
(* the declared end of LinkInfo - its value is not determined.             *)
TextAt(b, at, send, hi, tab, wide, path) ==
  LET t == IF at >= hi THEN [cps |-> <<>>, warns |-> 0]
           ELSE IF wide THEN Wide(b, at, hi) ELSE Ansi(b, at, hi, tab)
      inside == IF wide
                  THEN \E i \in 0..((send - at) \div 2 - 1) : b[at + 2*i + 1] = 0 /\ b[at + 2*i + 2] = 0
                  ELSE at < send /\ CutAt(b, at, send) < send
  IN  IF at <= send /\ inside
        THEN [must |-> {P(path, Text(t.cps))}, free |-> {}, warns |-> t.warns, empty |-> t.cps = <<>>]
        ELSE [must |-> {}, free |-> {path}, warns |-> 0, empty |-> FALSE]

TNone == [must |-> {}, free |-> {}, warns |-> 0, empty |-> FALSE]

(* the volume part, at offset v *)
LocalPart(b, lo, send, hi, tab) ==
  LET v == Min2(BIG, lo + U32(b, lo + 12)) IN
  IF v + 16 > hi THEN Damaged
  ELSE
  LET dt == U32(b, v + 4)
      lab == U32(b, v + 12)
      uni == lab = 20
      base == {P(LI("location"), S("Local")),
               P(LL("volume_id_size"), U32V(b, v)), P(LL("r_drive_type"), U32V(b, v + 4)),
               P(LL("volume_label_offset"), U32V(b, v + 12)),
               P(LL("drive_serial_number"), Text(HexMin32(b, v + 8))),
               P(LL("drive_type"), IF dt < 7 THEN S(DriveTypeName[dt + 1]) ELSE None)}
      t == IF uni THEN TNone ELSE TextAt(b, v + lab, send, hi, tab, FALSE, LL("volume_label"))
      uoff == IF uni /\ v + 20 <= hi THEN U32(b, v + 16) ELSE 0
      w == IF uoff # 0 THEN TextAt(b, v + uoff, send, hi, tab, TRUE, LL("volume_label_unicode")) ELSE TNone
  IN  IF uni /\ v + 20 > hi
        THEN [must |-> {}, may |-> base \cup {P(LL("volume_label"), None)}, free |-> {}, warns |-> 1, ok |-> FALSE]
      ELSE [must |-> base \cup t.must \cup w.must
                     \cup (IF uni THEN {P(LL("volume_label"), None)} ELSE {})
                     \cup (IF uoff # 0 THEN {P(LL("volume_label_unicode_offset"), U32V(b, v + 16))} ELSE {}),
            may |-> {}, free |-> t.free \cup w.free, warns |-> t.warns + w.warns, ok |-> TRUE]

(* the network part, at offset c *)
NetworkPart(b, lo, send, hi, tab) ==
  LET c == Min2(BIG, lo + U32(b, lo + 20)) IN
  IF c + 20 > hi THEN Damaged
  ELSE
  LET net == U32(b, c + 8)
      dev == U32(b, c + 12)
      uni == net > 20
      prov == IF BitOf(b, c + 4, 1) = 1 THEN Provider(b, c + 16) ELSE ""
      base == {P(LI("location"), S("Network")),
               P(LL("common_network_relative_link_size"), U32V(b, c)),
               P(LL("common_network_relative_link_flags"), U32V(b, c + 4)),
               P(LL("net_name_offset"), U32V(b, c + 8)), P(LL("device_name_offset"), U32V(b, c + 12)),
               P(LL("r_network_provider_type"), Text(HexMin32(b, c + 16)))}
      pp == IF prov = "" THEN {} ELSE {P(LL("network_provider_type"), S(prov))}
      an == IF uni THEN TNone ELSE TextAt(b, c + net, send, hi, tab, FALSE, LL("net_name"))
      ad == IF uni \/ dev = 0 THEN TNone ELSE TextAt(b, c + dev, send, hi, tab, FALSE, LL("device_name"))
      nou == IF uni /\ c + 28 <= hi THEN U32(b, c + 20) ELSE 0
      dou == IF uni /\ c + 28 <= hi THEN U32(b, c + 24) ELSE 0
      wn == IF nou # 0 THEN TextAt(b, c + nou, send, hi, tab, TRUE, LL("net_name_unicode")) ELSE TNone
      wd == IF dou # 0 THEN TextAt(b, c + dou, send, hi, tab, TRUE, LL("device_name_unicode")) ELSE TNone
      nonEmpty(t) == IF t.empty THEN {} ELSE t.must
  IN  IF uni /\ c + 28 > hi
        THEN [must |-> {}, may |-> base \cup pp,
              free |-> {LL("net_name_offset_unicode"), LL("net_name_unicode")}, warns |-> 1, ok |-> FALSE]
      ELSE [must |-> base \cup pp \cup nonEmpty(an) \cup nonEmpty(ad) \cup wn.must \cup wd.must
                     \cup (IF nou # 0 THEN {P(LL("net_name_offset_unicode"), U32V(b, c + 20))} ELSE {})
                     \cup (IF dou # 0 THEN {P(LL("device_name_offset_unicode"), U32V(b, c + 24))} ELSE {}),
            may |-> {}, free |-> an.free \cup ad.free \cup wn.free \cup wd.free,
            warns |-> an.warns + ad.warns + wn.warns + wd.warns, ok |-> TRUE]

(* base path and suffix, in the code page and (with a long header) in Unicode *)
PathsPart(b, lo, send, hi, tab) ==
  LET long == U32(b, lo + 4) >= 36
      cut == long /\ lo + 36 > hi
      txt(o, wide, k) == IF U32(b, lo + o) = 0 THEN TNone
                         ELSE TextAt(b, lo + U32(b, lo + o), send, hi, tab, wide, LI(k))
      p == txt(16, FALSE, "local_base_path")
      s == txt(24, FALSE, "common_path_suffix")
      pw == IF long /\ ~cut THEN txt(28, TRUE, "local_base_path_unicode") ELSE TNone
      sw == IF long /\ ~cut THEN txt(32, TRUE, "common_path_suffix_unicode") ELSE TNone
      off(o, k) == IF long /\ ~cut /\ U32(b, lo + o) # 0 THEN {P(LI(k), U32V(b, lo + o))} ELSE {}
  IN  IF cut
        THEN [must |-> {}, may |-> p.must \cup s.must,
              free |-> p.free \cup s.free \cup {LI("local_base_path_offset_unicode"),
                                                LI("local_base_path_unicode")},
              warns |-> 1, ok |-> FALSE]
      ELSE [must |-> p.must \cup s.must \cup pw.must \cup sw.must
                     \cup off(28, "local_base_path_offset_unicode")
                     \cup off(32, "common_path_suffix_offset_unicode"),
            may |-> {}, free |-> p.free \cup s.free \cup pw.free \cup sw.free,
            warns |-> p.warns + s.warns + pw.warns + sw.warns, ok |-> TRUE]

InfoHeader(b, lo) ==
  {P(LI("link_info_size"), U32V(b, lo)), P(LI("link_info_header_size"), U32V(b, lo + 4)),
   P(LI("link_info_flags"), U32V(b, lo + 8)), P(LI("volume_id_offset"), U32V(b, lo + 12)),
   P(LI("local_base_path_offset"), U32V(b, lo + 16)),
   P(LI("common_network_relative_link_offset"), U32V(b, lo + 20)),
   P(LI("common_path_suffix_offset"), U32V(b, lo + 24))}

EmptyInfo == Res({P(<<"link_info">>, <<"o">>)}, 0)

InfoRes(b, lo, hi, tab) ==
  LET k == InfoKind(b, lo, hi) IN
  IF k = "none" THEN EmptyInfo
  ELSE IF k = "short" THEN [EmptyInfo EXCEPT !.warns = 1]
  ELSE IF lo + 28 > hi
    THEN [must |-> {}, may |-> {P(<<"link_info">>, <<"o">>)}, free |-> {}, warns |-> 1, ok |-> FALSE]
  ELSE
  LET send == Min2(hi, lo + U32(b, lo))
      p == PathsPart(b, lo, send, hi, tab)
      l == IF k = "Local" THEN LocalPart(b, lo, send, hi, tab) ELSE NetworkPart(b, lo, send, hi, tab)
      full == p.ok /\ l.ok
      loc == {P(LI("location"), S(k)), P(<<"link_info", "location_info">>, <<"o">>)}
  IN  IF full
        THEN [must |-> InfoHeader(b, lo) \cup p.must \cup l.must, may |-> {},
              free |-> p.free \cup l.free, warns |-> p.warns + l.warns, ok |-> TRUE]
      ELSE [must |-> InfoHeader(b, lo),
            may |-> p.must \cup p.may \cup l.must \cup l.may \cup loc,
            free |-> p.free \cup l.free, warns |-> 1, ok |-> FALSE]
=============================================================================
