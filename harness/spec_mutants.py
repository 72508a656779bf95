"""Do the models of the specification say anything?  Every line: a change to the specification and
the model that has to notice it.  Not a check: for whoever works on the models.
  spec_mutants.py [MODEL ...]"""
import os
import shutil
import sys

import pipe
import plans

M = [
    ("MC_Local", "LnkParse.tla", "Item(B, pos, Min2(lim, pos + U16(B, pos)), Tab", "Item(B, pos, lim, Tab"),
    ("MC_Local", "LnkParse.tla", "SkipBadItem ==                           \\* left out; the next ones move up\n  /\\ ItemsGoOn /\\ ~ItemHere.ok\n  /\\ warns' = warns + 1",
     "SkipBadItem ==\n  /\\ ItemsGoOn /\\ ~ItemHere.ok\n  /\\ warns' = warns"),
    ("MC_Local", "LnkParse.tla", "  /\\ ~KnownHere.ok\n  /\\ warns' = warns + 1", "  /\\ ~KnownHere.ok\n  /\\ warns' = warns"),
    ("MC_Prefix", "LnkParse.tla", "  /\\ pos + 2 > L\n  /\\ warns' = warns + 1\n  /\\ n' = 6", "  /\\ pos + 2 > L\n  /\\ warns' = warns\n  /\\ n' = 6"),
    ("MC_Prefix", "LnkParse.tla", "  /\\ pos + 2 > L\n  /\\ warns' = warns + 1\n  /\\ n' = 6\n  /\\ UNCHANGED <<job, phase, pos, lim, after, must,",
     "  /\\ pos + 2 > L\n  /\\ warns' = warns + 1\n  /\\ n' = 6 /\\ must' = {x \\in must : x[1][1] # \"data\"}\n  /\\ UNCHANGED <<job, phase, pos, lim, after,"),
    ("MC_Order", "LnkParse.tla", "IF x = nm THEN r.must ELSE blk[x]", "IF x \\in DOMAIN blk THEN blk[x] ELSE r.must"),
    ("MC_Chain", "LnkParse.tla", "  /\\ AtTerminal /\\ job.atb /\\ pos + 4 < L", "  /\\ AtTerminal /\\ pos + 4 < L"),
    ("MC_Chain", "LnkParse.tla", "  /\\ Finish(pos + 4, pos + 4)", "  /\\ Finish(L, L)"),
    ("MC_Machine", "LnkParse.tla", "  /\\ phase = \"items\" /\\ pos < lim\n", "  /\\ phase = \"items\"\n"),
    ("MC_Machine", "LnkParse.tla", "U16(B, pos) \\in {1, 2}", "U16(B, pos) \\in {1}"),
    ("MC_Machine", "LnkParse.tla", "ItemsGoOn == phase = \"items\" /\\ pos + 3 <= lim /\\ U16(B, pos) >= 3", "ItemsGoOn == phase = \"items\" /\\ pos + 3 <= lim"),
    ("MC_Compose", "LnkParse.tla", "LinkFlag(B, BForceNoInfo)\n  /\\ must' = must \\cup EmptyInfo.must\n  /\\ pos' = pos + U32(B, pos)", "LinkFlag(B, BForceNoInfo)\n  /\\ must' = must \\cup EmptyInfo.must\n  /\\ pos' = pos"),
    ("MC_Compose", "LnkParse.tla", "  /\\ IF pos >= lim THEN TRUE ELSE pos + 2 <= lim /\\ U16(B, pos) = 0\n  /\\ must' = must \\cup (IF n = 0 /\\ ITEMS \\notin free THEN {P(ITEMS, <<\"l\">>)} ELSE {})\n  /\\ pos' = after",
     "  /\\ IF pos >= lim THEN TRUE ELSE pos + 2 <= lim /\\ U16(B, pos) = 0\n  /\\ must' = must \\cup (IF n = 0 /\\ ITEMS \\notin free THEN {P(ITEMS, <<\"l\">>)} ELSE {})\n  /\\ pos' = pos"),
    ("MC_Times", "Times.tla", "(y % 4 = 0 /\\ y % 100 # 0) \\/ y % 400 = 0", "y % 4 = 0"),
    ("MC_Text", "Text.tla", "l = 237 -> x >= 128 /\\ x < 160", "l = 237 -> x >= 128 /\\ x < 192"),
    ("MC_Text", "Text.tla", "IF x < 194 THEN 0", "IF x < 193 THEN 0"),
    ("MC_Command", "Strings.tla", "AsSeq([k \\in 1..run(Len(s) + 1) |-> BSL]) \\o <<QUOTE>>\n", "<<QUOTE>>\n"),
    ("MC_Write", "Items.tla", "P(path \\o <<\"file_size\">>, U32V(b, d + 2))", "P(path \\o <<\"file_size\">>, U32V(b, d + 3))", "items"),
    ("MC_Write", "Info.tla", "Text(HexMin32(b, v + 8))", "Text(HexMin32(b, v + 4))", "local"),
    ("MC_Write", "Extra.tla", "<<\"fill_attributes\", \"popup_fill_attributes\"", "<<\"popup_fill_attributes\", \"fill_attributes\"", "blocks"),
    ("MC_Write", "Props.tla", "<<2, \"VT_I2\">>, <<3, \"VT_I4\">>", "<<3, \"VT_I2\">>, <<2, \"VT_I4\">>", "store"),
    ("MC_Ids", "Sha256.tla", "<<10167,2693>>", "<<10167,2692>>"),
]


def main(names):
    good = pipe.SPEC
    silent = 0
    for model, name, old, new, *part in M:
        if names and model not in names:
            continue
        how = next(m for p in plans.P.values() for m in p.get("models", ()) if m["name"] == model and part in ([], [m.get("part")]))
        p = pipe.Pipe("spec", "quick", 1)
        try:
            spec = p.path("spec")
            shutil.copytree(good, spec)
            with open(os.path.join(spec, name)) as f:
                s = f.read()
            if old not in s:
                raise SystemExit("%s: not in %s: %s" % (model, name, old))
            with open(os.path.join(spec, name), "w") as f:
                f.write(s.replace(old, new))
            pipe.SPEC = spec
            try:
                p.extra_model(**dict(how, workers=3))
                said = "SILENT"
                silent += 1
            except pipe.Broken as e:
                t = str(e)
                said = next((x for x in t.splitlines() if "rror" in x), t[:200])
            print("%-11s %-60.60s %s" % (model, new.replace("\n", " "), said), flush=True)
        finally:
            pipe.SPEC = good
            p.close()
    return 1 if silent else 0


sys.exit(main(sys.argv[1:]))
