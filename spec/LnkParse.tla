------------------------------ MODULE LnkParse ------------------------------
(***************************************************************************)
(* Reading a shell link, as a state machine.                               *)
(*                                                                         *)
(* The file is read from front to back: header, ID list, LinkInfo, string  *)
(* data, extra data.  Every action takes one structure at pos and moves    *)
(* pos behind it; what is wrong with a structure never changes where the   *)
(* next one is looked for, except where its size itself is lost.           *)
(*                                                                         *)
(* A job is [b: bytes, cp: code page, atb: report appended data?].  What   *)
(* the machine has established so far:                                     *)
(*   must   pairs that have to be in the report                            *)
(*   blk    pairs of the last intact block of each known kind              *)
(*   may    pairs that may be there (readable parts of a damaged LinkInfo) *)
(*   free   path prefixes under which the format determines nothing        *)
(*   warns  number of separate defects, each of which is warned about      *)
(*   cmd    the relative path and the arguments, as far as present         *)
(***************************************************************************)
EXTENDS Bytes, Text, Times, Header, Items, Info, Strings, Extra

CONSTANT CodePages

VARIABLES job, phase, pos, lim, after, n, must, blk, may, free, warns, cmd, szlo, szhi

vars == <<job, phase, pos, lim, after, n, must, blk, may, free, warns, cmd, szlo, szhi>>

B == job.b
L == Len(job.b)
Tab == CodePages[job.cp]

NoCmd == [rel |-> <<>>, args |-> <<>>]

(* the domain: all bytes of the header are there *)
InDomain(j) == Len(j.b) >= HEADER

StartWith(j) ==
  /\ job = j
  /\ phase = "header" /\ pos = 0 /\ lim = 0 /\ after = 0 /\ n = 0
  /\ must = {} /\ blk = <<>> /\ may = {} /\ free = {} /\ warns = 0
  /\ cmd = NoCmd /\ szlo = 0 /\ szhi = 0

Keep(vs) == UNCHANGED vs

ReadHeader ==
  /\ phase = "header"
  /\ LET r == HeaderRes(B) IN
     /\ must' = must \cup r.must
     /\ free' = free \cup r.free
     /\ warns' = warns + r.warns
  /\ pos' = U32(B, 0)
  /\ phase' = "idlist"
  /\ UNCHANGED <<job, lim, after, n, blk, may, cmd, szlo, szhi>>

(***************************************************************************)
(* ID list                                                                 *)
(***************************************************************************)
SkipIdList ==
  /\ phase = "idlist" /\ ~LinkFlag(B, BHasIdList)
  /\ phase' = "linkinfo"
  /\ UNCHANGED <<job, pos, lim, after, n, must, blk, may, free, warns, cmd, szlo, szhi>>

LostIdList ==                            \* the file ends before the size of the list
  /\ phase = "idlist" /\ LinkFlag(B, BHasIdList) /\ pos + 2 > L
  /\ warns' = warns + 1
  /\ pos' = L
  /\ phase' = "linkinfo"
  /\ UNCHANGED <<job, lim, after, n, must, blk, may, free, cmd, szlo, szhi>>

OpenIdList ==
  /\ phase = "idlist" /\ LinkFlag(B, BHasIdList) /\ pos + 2 <= L
  /\ must' = must \cup {P(<<"target", "size">>, U16V(B, pos)),
                        P(<<"target", "index">>, IntV(pos + 2))}
  /\ after' = pos + 2 + U16(B, pos)
  /\ lim' = Min2(L, pos + 2 + U16(B, pos))
  /\ pos' = pos + 2
  /\ n' = 0
  /\ phase' = "items"
  /\ UNCHANGED <<job, blk, may, free, warns, cmd, szlo, szhi>>

ITEMS == <<"target", "items">>
ItemsGoOn == phase = "items" /\ pos + 3 <= lim /\ U16(B, pos) >= 3
ItemHere == Item(B, pos, Min2(lim, pos + U16(B, pos)), Tab, ITEMS \o <<Idx(n)>>)

TakeItem ==
  /\ ItemsGoOn /\ ItemHere.ok
  /\ LET r == ItemHere IN
     /\ must' = must \cup r.must
     /\ warns' = warns + r.warns
  /\ n' = n + 1
  /\ pos' = pos + U16(B, pos)
  /\ UNCHANGED <<job, phase, lim, after, blk, may, free, cmd, szlo, szhi>>

SkipBadItem ==                           \* left out; the next ones move up
  /\ ItemsGoOn /\ ~ItemHere.ok
  /\ warns' = warns + 1
  /\ pos' = pos + U16(B, pos)
  /\ UNCHANGED <<job, phase, lim, after, n, must, blk, may, free, cmd, szlo, szhi>>

EndItems ==                              \* at the terminal or at the end of the list
  /\ phase = "items"
  /\ IF pos >= lim THEN TRUE ELSE pos + 2 <= lim /\ U16(B, pos) = 0
  /\ must' = must \cup (IF n = 0 /\ ITEMS \notin free THEN {P(ITEMS, <<"l">>)} ELSE {})
  /\ pos' = after
  /\ phase' = "linkinfo"
  /\ UNCHANGED <<job, lim, after, n, blk, may, free, warns, cmd, szlo, szhi>>

CutItems ==                              \* too few bytes left for an item
  /\ phase = "items" /\ pos < lim
  /\ IF pos + 2 > lim THEN TRUE ELSE U16(B, pos) # 0 /\ pos + 3 > lim
  /\ warns' = warns + 1
  /\ must' = must \cup (IF n = 0 THEN {P(ITEMS, <<"l">>)} ELSE {})
  /\ pos' = after
  /\ phase' = "linkinfo"
  /\ UNCHANGED <<job, lim, after, n, blk, may, free, cmd, szlo, szhi>>

OddItem ==                               \* an item without room for its kind: not determined
  /\ phase = "items" /\ pos + 3 <= lim /\ U16(B, pos) \in {1, 2}
  /\ must' = {p \in must : ~HasPrefix(p[1], ITEMS)}
  /\ free' = free \cup {ITEMS}
  /\ pos' = after
  /\ phase' = "linkinfo"
  /\ UNCHANGED <<job, lim, after, n, blk, may, warns, cmd, szlo, szhi>>

(***************************************************************************)
(* LinkInfo                                                                *)
(***************************************************************************)
NoLinkInfo ==
  /\ phase = "linkinfo" /\ ~LinkFlag(B, BHasLinkInfo)
  /\ must' = must \cup EmptyInfo.must
  /\ phase' = "strings" /\ n' = 1
  /\ UNCHANGED <<job, pos, lim, after, blk, may, free, warns, cmd, szlo, szhi>>

LostLinkInfo ==                          \* the file ends before the size of LinkInfo
  /\ phase = "linkinfo" /\ LinkFlag(B, BHasLinkInfo) /\ pos + 4 > L
  /\ must' = must \cup EmptyInfo.must
  /\ warns' = warns + 1
  /\ pos' = Max2(L, pos)
  /\ phase' = "strings" /\ n' = 1
  /\ UNCHANGED <<job, lim, after, blk, may, free, cmd, szlo, szhi>>

IgnoreLinkInfo ==                        \* present, but not to be used
  /\ phase = "linkinfo" /\ LinkFlag(B, BHasLinkInfo) /\ pos + 4 <= L
  /\ LinkFlag(B, BForceNoInfo)
  /\ must' = must \cup EmptyInfo.must
  /\ pos' = pos + U32(B, pos)
  /\ phase' = "strings" /\ n' = 1
  /\ UNCHANGED <<job, lim, after, blk, may, free, warns, cmd, szlo, szhi>>

TakeLinkInfo ==
  /\ phase = "linkinfo" /\ LinkFlag(B, BHasLinkInfo) /\ pos + 4 <= L
  /\ ~LinkFlag(B, BForceNoInfo)
  /\ LET r == InfoRes(B, pos, L, Tab) IN
     /\ must' = must \cup r.must
     /\ may' = may \cup r.may
     /\ free' = free \cup r.free
     /\ warns' = warns + r.warns
  /\ pos' = pos + U32(B, pos)
  /\ phase' = "strings" /\ n' = 1
  /\ UNCHANGED <<job, lim, after, blk, cmd, szlo, szhi>>

(***************************************************************************)
(* String data: n is the number of the next string, 1..5                   *)
(***************************************************************************)
DataPairs == {p \in must : p[1][1] = "data"}
ToExtra == phase' = "extra" /\ n' = 0

SkipString ==
  /\ phase = "strings" /\ n <= 5 /\ ~LinkFlag(B, StringFlag[n])
  /\ n' = n + 1
  /\ UNCHANGED <<job, phase, pos, lim, after, must, blk, may, free, warns, cmd, szlo, szhi>>

TakeString ==
  /\ phase = "strings" /\ n <= 5 /\ LinkFlag(B, StringFlag[n])
  /\ LET r == StringAt(B, n, pos, L, Tab) IN
     /\ r.ok
     /\ must' = must \cup {P(<<"data", StringKey[n]>>, Text(r.cps))}
     /\ cmd' = CASE n = 2 -> [cmd EXCEPT !.rel = <<r.cps>>]
                 [] n = 4 -> [cmd EXCEPT !.args = <<r.cps>>]
                 [] OTHER -> cmd
     /\ warns' = warns + r.warns
     /\ pos' = r.next
  /\ n' = n + 1
  /\ UNCHANGED <<job, phase, lim, after, blk, may, free, szlo, szhi>>

LostString ==                            \* the file ends before its length: so do all strings
  /\ phase = "strings" /\ n <= 5 /\ LinkFlag(B, StringFlag[n])
  /\ pos + 2 > L
  /\ warns' = warns + 1
  /\ n' = 6
  /\ UNCHANGED <<job, phase, pos, lim, after, must, blk, may, free, cmd, szlo, szhi>>

EndStrings ==
  /\ phase = "strings" /\ n = 6
  /\ must' = must \cup (IF DataPairs = {} THEN {P(<<"data">>, <<"o">>)} ELSE {})
  /\ ToExtra
  /\ UNCHANGED <<job, pos, lim, after, blk, may, free, warns, cmd, szlo, szhi>>

(***************************************************************************)
(* Extra data: n is the number of blocks of unknown kind so far            *)
(***************************************************************************)
BlockGoesOn == phase = "extra" /\ pos + 8 <= L /\ U32(B, pos) >= 4
BlockEnd == Min2(L, pos + U32(B, pos))

TakeUnknownBlock ==
  /\ BlockGoesOn /\ BlockName(B, pos + 4) = "UNKNOWN_BLOCK"
  /\ must' = must \cup UnknownPairs(B, pos, BlockEnd, n)
  /\ n' = n + 1
  /\ pos' = pos + U32(B, pos)
  /\ UNCHANGED <<job, phase, lim, after, blk, may, free, warns, cmd, szlo, szhi>>

KnownHere == BlockRes(B, pos, BlockEnd, Tab, BlockName(B, pos + 4))

TakeBlock ==                             \* replaces an earlier block of the same kind
  /\ BlockGoesOn /\ BlockName(B, pos + 4) # "UNKNOWN_BLOCK"
  /\ KnownHere.ok
  /\ LET r == KnownHere
         nm == BlockName(B, pos + 4) IN
     /\ blk' = [x \in DOMAIN blk \cup {nm} |-> IF x = nm THEN r.must ELSE blk[x]]
     /\ free' = {f \in free : ~HasPrefix(f, E(nm))} \cup r.free
     /\ warns' = warns + r.warns
  /\ pos' = pos + U32(B, pos)
  /\ UNCHANGED <<job, phase, lim, after, n, must, may, cmd, szlo, szhi>>

SkipBadBlock ==
  /\ BlockGoesOn /\ BlockName(B, pos + 4) # "UNKNOWN_BLOCK"
  /\ ~KnownHere.ok
  /\ warns' = warns + 1
  /\ pos' = pos + U32(B, pos)
  /\ UNCHANGED <<job, phase, lim, after, n, must, blk, may, free, cmd, szlo, szhi>>

Finish(lo, hi) ==
  /\ szlo' = Min2(lo, L) /\ szhi' = Min2(hi, L)
  /\ phase' = "report"

CutBlock ==                              \* the file ends before a size, or before a signature
  /\ phase = "extra" /\ pos < L
  /\ IF pos + 4 > L THEN TRUE ELSE pos + 8 > L /\ U32(B, pos) >= 4
  /\ warns' = warns + 1
  /\ Finish(pos, L)
  /\ UNCHANGED <<job, pos, lim, after, n, must, blk, may, free, cmd>>

EndExtra ==                              \* nothing left: there is no terminal
  /\ phase = "extra" /\ pos >= L
  /\ Finish(pos, pos)
  /\ UNCHANGED <<job, pos, lim, after, n, must, blk, may, free, warns, cmd>>

AtTerminal == phase = "extra" /\ pos + 4 <= L /\ U32(B, pos) < 4

TerminalBlock ==
  /\ AtTerminal /\ IF job.atb THEN pos + 4 = L ELSE TRUE
  /\ Finish(pos + 4, pos + 4)
  /\ UNCHANGED <<job, pos, lim, after, n, must, blk, may, free, warns, cmd>>

AppendedData ==
  /\ AtTerminal /\ job.atb /\ pos + 4 < L
  /\ must' = must \cup TerminalPairs(B, pos, L)
  /\ Finish(L, L)
  /\ UNCHANGED <<job, pos, lim, after, n, blk, may, free, warns, cmd>>

Report ==
  /\ phase = "report"
  /\ LET all == must \cup UNION {blk[x] : x \in DOMAIN blk} IN
     must' = all
        \cup (IF \E p \in all : p[1][1] = "extra" THEN {}
              ELSE IF \E f \in free : f[1] = "extra" THEN {}
              ELSE {P(<<"extra">>, <<"o">>)})
        \cup (IF szlo = szhi THEN {P(<<"size">>, IntV(szlo))} ELSE {})
  /\ free' = free \cup (IF szlo = szhi THEN {} ELSE {<<"size">>})
  /\ may' = may \cup (IF \E f \in free : f[1] = "extra" THEN {P(<<"extra">>, <<"o">>)} ELSE {})
  /\ phase' = "done"
  /\ UNCHANGED <<job, pos, lim, after, n, blk, warns, cmd, szlo, szhi>>

Next ==
  \/ ReadHeader
  \/ SkipIdList \/ LostIdList \/ OpenIdList
  \/ TakeItem \/ SkipBadItem \/ EndItems \/ CutItems \/ OddItem
  \/ NoLinkInfo \/ LostLinkInfo \/ IgnoreLinkInfo \/ TakeLinkInfo
  \/ SkipString \/ TakeString \/ LostString \/ EndStrings
  \/ TakeUnknownBlock \/ TakeBlock \/ SkipBadBlock \/ CutBlock \/ EndExtra
  \/ TerminalBlock \/ AppendedData
  \/ Report

(***************************************************************************)
(* What holds in every state of every run (checked by the MC_* models).    *)
(***************************************************************************)
Phases == {"header", "idlist", "items", "linkinfo", "strings", "extra", "report", "done"}
TypeOK == /\ phase \in Phases
          /\ pos \in Nat /\ lim \in 0..L /\ n \in Nat /\ warns \in Nat
PathsUnique ==           \* no path is reported twice with different values
  phase = "done" => Cardinality({p[1] : p \in must}) = Cardinality(must)
SizeBounded == phase = "done" => /\ szlo <= szhi /\ szhi <= L
                                 /\ szlo >= Min2(L, U32(B, 0))
(* every action gets on: to a later part of the file, or further within its part *)
Rank(p) == CASE p = "header" -> 1 [] p = "idlist" -> 2 [] p = "items" -> 3 [] p = "linkinfo" -> 4
             [] p = "strings" -> 5 [] p = "extra" -> 6 [] p = "report" -> 7 [] OTHER -> 8
Advances == [][Rank(phase') > Rank(phase) \/ (phase' = phase /\ (pos' > pos \/ n' > n))]_vars
=============================================================================
