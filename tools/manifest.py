#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over recorded histories, faults and schedules on the real library, judged by a reference model"
L = "exploration"
TRUST = " Trusts the frozen class and attribute tables, the recorder and the reference readers in sim/harness as the statement of the format; search, not proof."
N = {
 "C01": ("", "Damaged, hostile and deeply nested files in every option combination, read and then used, in supervised processes on a 2 MiB stack; panic, abort, stack overflow and hang are caught from outside."),
 "C02": ("", "A logical clock counts executed control-flow edges and bulk moves of the real code per read; bounded per byte and under doubling of recorded material."),
 "C03": ("", "The allocator seam accounts live, peak and largest request per read; bounded per byte, under doubling, and back to zero after drop."),
 "C04": ("", "Bursts of up to 32 bits and other damage in either section with stored checksums computed by an independent CRC."),
 "C05": ("", "All option combinations on the same damaged file, judged against an independent reader of header and body and an independent CRC."),
 "C06": ("", "Recordings with damaged network streams closed over by the writer; the three network modes compared with each other and with what was recorded."),
 "C07": ("", "Every or many cut points of each recording (sizes up to the whole content section), and slack after it."),
 "C08": ("", "Streams cut at any bit or byte and damaged at any bit, judged against the recorded frames and a reference decoder."),
 "C09": ("", "Recorded actor histories with id recycling, replacement and channel limits, compared event for event."),
 "C10": ("", "Recorded payloads of every attribute kind, version and bit offset, compared value for value, bit for bit."),
 "C11": ("", "Recorded headers and footers compared field for field for all layouts."),
 "C12": ("", "Recorded class tables with odd orders, ancestry and duplicates, compared with a reference resolution."),
 "C13": ("", "Caller threads serialised by a seeded scheduler that preempts at control-flow edges of the real code; every result compared with the result alone."),
 "C14": ("", "A fresh process against one with a seeded past, under other entropy, clock, allocator and buffer placements."),
 "C15": ("", "Recorded histories with one impossible event, diagnosed by a reference decoder; fields and rendering compared."),
 "C16": ("", "An independent strict JSON reader compares the document with the replay; sinks with short, interrupted, full and failing writes."),
 "C17": ("", "Saves in JSON and a positional format restored through torn, short, interrupted and failing readers."),
 "C22": ("", "The library interpreted (Miri) on simulated 32-bit little-endian, 32-bit big-endian and 64-bit big-endian machines and run on this one over the same recorded and damaged files; everything observable compared."),
 "C23": ("", "Damaged headers and bodies at any distance into the file; the part, offset and reason in the error are compared with where and why an independent reader stops."),
 "C24": ("", "Errors rendered and copied, replays copied, written and loaded again, saves damaged first: logical clock and allocator bound each per byte and under doubling of recorded material."),
 "C25": ("", "The same recording with other network streams, slack and stale checksums in it, read by callers who ask for none of it: logical clock and allocator must show no difference beyond a constant."),
 "C26": ("", "Results of a file and of its altered or damaged twin, and saved frames with one fact altered, moved or repeated: copies and comparisons of every part judged against the facts taken from the public fields one by one."),
 "C27": ("", "Every use of the library on recorded and damaged files in a simulated operating system that notes each call for a file, terminal, socket, thread, process, signal or sleep and answers it with success or refusal; none may come."),
}
claimed = [c for c in sys.argv[1:]] or list(N)
NA = {
 "C18": "calc_crc is a pure function of one byte string: no schedule, time, I/O or fault for it to depend on, so simulation has nothing to decide. The simulator's recorder carries an independent CRC and C04/C05 would notice most deviations.",
 "C19": "Pure accessors over one enum value: no history, fault or schedule is involved.",
 "C20": "Depends on the game vendor's current class list, which is outside the repository and this sandbox; no execution can decide it.",
 "C21": "Wall-clock speed on given hardware is a benchmark, not something a simulated clock can judge; the machine-independent part is C02.",
}
checks = [{
  "property": c,
  "quick_cmd": f"bash sim/check.sh {c}",
  "thorough_cmd": f"bash sim/check.sh --thorough {c}",
  "evidence_file": f"evidence/{c}.json",
  "technique": TECH,
  "level": L,
  "level_note": N[c][1] + TRUST,
} for c in N if c in claimed]
na = [{"property": c, "reason": r} for c, r in NA.items()]
na += [{"property": c, "reason": "check under construction"} for c in N if c not in claimed]
m = {
 "version": 1,
 "setup_cmd": "bash sim/build.sh",
 "hooks": {"guard": "none", "enable": "no hook in /repo: the checks build the unchanged crate with the compiler's coverage callbacks (-Cpasses=sancov-module, and tsan for atomic operations only) through sim/sancov-rustc.sh", "source_commits": []},
 "checks": checks,
 "not_applicable": na,
 "notes": "See DESIGN.md. The fix: commits in /repo are listed in KNOWN_FINDINGS.jsonl.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
