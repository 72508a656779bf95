------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* ShellLinkHeader ([MS-SHLLINK] 2.1): the 76 bytes every link starts with.*)
(***************************************************************************)
EXTENDS Bytes, Times

HEADER == 76

LinkFlagName == <<
  "HasTargetIDList", "HasLinkInfo", "HasName", "HasRelativePath", "HasWorkingDir",
  "HasArguments", "HasIconLocation", "IsUnicode", "ForceNoLinkInfo", "HasExpString",
  "RunInSeparateProcess", "Reserved0", "HasDarwinID", "RunAsUser", "HasExpIcon",
  "NoPidlAlias", "Reserved1", "RunWithShimLayer", "ForceNoLinkTrack", "EnableTargetMetadata",
  "DisableLinkPathTracking", "DisableKnownFolderTracking", "DisableKnownFolderAlias",
  "AllowLinkToLink", "UnaliasOnSave", "PreferEnvironmentPath", "KeepLocalIDListForUNCTarget" >>
FileFlagName == <<
  "FILE_ATTRIBUTE_READONLY", "FILE_ATTRIBUTE_HIDDEN", "FILE_ATTRIBUTE_SYSTEM",
  "Reserved, not used by the LNK format", "FILE_ATTRIBUTE_DIRECTORY", "FILE_ATTRIBUTE_ARCHIVE",
  "FILE_ATTRIBUTE_DEVICE", "FILE_ATTRIBUTE_NORMAL", "FILE_ATTRIBUTE_TEMPORARY",
  "FILE_ATTRIBUTE_SPARSE_FILE", "FILE_ATTRIBUTE_REPARSE_POINT", "FILE_ATTRIBUTE_COMPRESSED",
  "FILE_ATTRIBUTE_OFFLINE", "FILE_ATTRIBUTE_NOT_CONTENT_INDEXED", "FILE_ATTRIBUTE_ENCRYPTED",
  "FILE_ATTRIBUTE_INTEGRITY_STREAM", "FILE_ATTRIBUTE_VIRTUAL", "FILE_ATTRIBUTE_NO_SCRUB_DATA" >>
LinkFlagText == [i \in 1..Len(LinkFlagName) |-> S(LinkFlagName[i])]
FileFlagText == [i \in 1..Len(FileFlagName) |-> S(FileFlagName[i])]

(* flag bits that decide what follows the header *)
BHasIdList == 0   BHasLinkInfo == 1  BHasName == 2      BHasRelPath == 3  BHasWorkDir == 4
BHasArgs == 5     BHasIcon == 6      BIsUnicode == 7    BForceNoInfo == 8
LinkFlag(b, k) == BitOf(b, 20, k) = 1

FlagPairs(path, b, o, texts) ==
  LET has(k) == BitOf(b, o, k - 1) = 1
      on == SelectSeq(AsSeq([k \in 1..Len(texts) |-> k]), has)
  IN  IF on = <<>> THEN {P(path, <<"l">>)}
      ELSE {P(path \o <<Idx(i - 1)>>, texts[on[i]]) : i \in 1..Len(on)}

(* Window: 3 and 7 have names of their own, everything else is shown normal *)
WindowStyle(b) ==
  IF b[62] = 0 /\ b[63] = 0 /\ b[64] = 0 /\ b[61] = 3 THEN S("SW_SHOWMAXIMIZED")
  ELSE IF b[62] = 0 /\ b[63] = 0 /\ b[64] = 0 /\ b[61] = 7 THEN S("SW_SHOWMINNOACTIVE")
  ELSE S("SW_SHOWNORMAL")

KeyName(x) ==
  CASE x = 0 -> "UNSET"
    [] x \in 48..57  -> SubSeq(ASCII, x - 31, x - 31)
    [] x \in 65..90  -> SubSeq(ASCII, x - 31, x - 31)
    [] x \in 112..135 -> "F" \o ToString(x - 111)
    [] x = 144 -> "NUM_LOCK"
    [] x = 145 -> "SCROLL_LOCK"
    [] OTHER -> ""
ModName(x) == CASE x = 0 -> "UNSET" [] x = 1 -> "SHIFT" [] x = 2 -> "CONTROL" [] x = 4 -> "ALT"
                [] OTHER -> ""
HotKey(b) ==
  LET lo == b[65]
      hi == b[66]
      raw == Byte2Lo(lo) \o Byte2Lo(hi)
  IN  IF KeyName(lo) # "" /\ ModName(hi) # ""
        THEN Text(Cps(ModName(hi) \o " - " \o KeyName(lo) \o " {0x") \o raw \o Cps("}"))
        ELSE Text(raw)

LNK_CLSID == <<1, 20, 2, 0, 0, 0, 0, 0, 192, 0, 0, 0, 0, 0, 0, 70>>

H(k) == <<"header", k>>
TimePair(path, t) == IF t.k = "edge" THEN {} ELSE {P(path, t.v)}

HeaderRes(b) ==
  LET c == FileTime(b, 28)
      a == FileTime(b, 36)
      w == FileTime(b, 44)
      ts == <<c, a, w>>
      names == <<"creation_time", "accessed_time", "modified_time">>
      bads == {i \in 1..3 : ts[i].k = "bad"}
  IN [ must |->
         { P(H("guid"), GuidV(b, 4)), P(H("r_link_flags"), U32V(b, 20)),
           P(H("r_file_flags"), U32V(b, 24)), P(H("file_size"), U32V(b, 52)),
           P(H("icon_index"), I32V(b, 56)), P(H("windowstyle"), WindowStyle(b)),
           P(H("hotkey"), HotKey(b)), P(H("r_hotkey"), U16V(b, 64)),
           P(H("header_size"), U32V(b, 0)), P(H("reserved0"), U16V(b, 66)),
           P(H("reserved1"), U32V(b, 68)), P(H("reserved2"), U32V(b, 72)) }
         \cup FlagPairs(H("link_flags"), b, 20, LinkFlagText)
         \cup FlagPairs(H("file_flags"), b, 24, FileFlagText)
         \cup UNION {TimePair(H(names[i]), ts[i]) : i \in 1..3},
       may |-> {},
       free |-> {H(names[i]) : i \in {j \in 1..3 : ts[j].k = "edge"}},
       warns |-> Cardinality(bads)
                 + (IF U32(b, 0) # HEADER THEN 1 ELSE 0)
                 + (IF SubSeq(b, 5, 20) # LNK_CLSID THEN 1 ELSE 0)
                 + (IF U16(b, 66) # 0 THEN 1 ELSE 0)
                 + (IF ~IsZero32(b, 68) THEN 1 ELSE 0)
                 + (IF ~IsZero32(b, 72) THEN 1 ELSE 0),
       ok |-> TRUE ]
=============================================================================
