#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that `vp list` knows; the others become not_applicable."""
import json, os, subprocess
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
have = {l.split()[0] for l in subprocess.run([V + "/target/release/vp", "list"], capture_output=True, text=True, check=True).stdout.splitlines()}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
BASE = "Randomised search with shrinking, no proof: what is claimed is that no counterexample was found among the counted cases. "
note = dict(
 C01="Oracle: independent arithmetic in the harness's reference interpreter; every opcode/register form enumerated, byte-operand space covered densely.",
 C02="Oracle: independent register-file model, compared after every write of a random history through instructions and register accessors.",
 C03="Oracle: host integer comparison; all flag combinations and all pairs of boundary values enumerated.",
 C04="Oracle: independent decoding table; all opcode x first-operand-byte pairs enumerated.",
 C05="Oracle: reference interpreter with whole-memory comparison, plus pop-what-was-pushed relation.",
 C06="Oracle: reference page walk; a fault may name any violated condition. Page tables in I/O ports are outside the domain.",
 C07="Oracles: invariant over privileged state, write confinement, and lock-step of two runs differing in inaccessible memory.",
 C08="Oracle: the saved state must be restored by reth after handler bodies preserving the frame; layout of the frame is not assumed beyond the documented stack use.",
 C09="Oracle: no panic (overflow checks on) and equal results of two runs.",
 C10="Oracle: reference interpreter in lock-step over whole programs.",
 M01="Oracle: map from address to last byte written; port log.",
 M02="Oracle: independent page walk of the loaded image for each of the 65536 addresses.",
 M03="Oracle: history model of the system calls over the real kernel and a scripted I/O device.",
 M04="Oracle: reference interpreter plus kernel model against the real `t` binary.",
 M05="Oracle: independent walk of the page tables, line by line; for programs run by the real `t`, the pages and permissions the object asks for.",
 F01="Oracle: independent serializer and parser of the file format, both directions.",
 F02="Oracle: no panic, truncations and listed damages rejected, accepted files re-read equal.",
 F03="Oracle: the list of objects put in.",
 F04="Faults: file-size limit at every byte offset of small outputs, random offsets of larger ones. Other kinds of I/O error are not injected.",
 F05="Oracle: independent layout of the format, and the list of sections put in; sections of the harness's own types.",
 A01="Oracle: independent encoding table of the grammar; ill-formed lines from mutations judged by the same table.",
 A02="Oracle: the value the generator started from.",
 A03="Oracle: model of the source (segments, labels, uses); placement is judged by invariants, not exact addresses.",
 A04="Oracle: the generator knows which lines are wrong; arbitrary bytes only checked for crashes, hangs and a consistent exit status.",
 L01="Oracle: link model over an independent parse of inputs and output; placement judged by invariants.",
 L02="Oracle: the generator plants the defect; unplanted links must succeed.",
 L03="Metamorphic: staged link against one-step link.",
 L04="Oracle: closure computed by a model, and link of the explicit member list.",
 L05="Metamorphic: object before and after, link of stripped against unstripped.",
 T01="Oracles: independent instruction printer and decoding table; re-assembly by the real assembler.",
 T02="Oracle: independent parse of the object and reachability over the decoding table.",
 T03="Oracle: reference interpreter plus kernel model stepped alongside the transcript.",
 T04="Oracle: program model executed by the generator against tc, tl, tar, tstrip and t in sequence.",
 T05="Metamorphic: two executions of the same commands in different surroundings.",
)
checks, na = [], []
for i in ids:
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} --thorough",
            technique="property-based testing (proptest-driven choice tapes with shrinking) against an explicit oracle",
            level="exploration", level_note=BASE + note[i]))
    else:
        na.append(dict(property=i, reason="no check for this property has been built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: everything is reached through the library's public interface and the command line tools. "
          "Replay a violation with ./check.sh --replay FILE. Recorded findings: known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
