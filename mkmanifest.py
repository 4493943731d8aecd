#!/usr/bin/env python3
# writes MANIFEST.json
import json
T = "deterministic simulation with fault injection: seeded search over schedules and faults, "
N = {
 "C01": ("two real endpoints over a lossy, fragmenting transport with crashes; end-to-end ledger oracle", "Seeded exploration of client+server histories with transport loss at any byte, fragmentation, crash/restart of either process, early and offline sends; not a proof. Trusts the ledger oracle and the application stub. Negotiated limits are constant per run, as the property says."),
 "C04": ("frames damaged by wire, disk or a byzantine sender; self-consistency, reference codec and builder oracles", "Seeded mutation of encodings of every packet kind, both versions and id widths, plus noise; bodies of up to two bytes are swept completely for every kind; longer inputs are sampled. Trusts the reference codec where it judges builder rules."),
 "C05": ("byzantine peer and misusing application; panics, runaway and unaccounted frames", "Built with overflow checks; every call guarded; finite event lists and recovery after close checked. Seeded exploration."),
 "C06": ("crashes, losses and resumptions against a store shadow model", "Seeded exploration against a reference model of the retransmission store (content, order, DUP form, truth of every acceptance)."),
 "C07": ("losses, duplicates and refusals against an inbound QoS 2 shadow model", "Seeded exploration against a reference model of the receive half."),
 "C08": ("identifier ledger with probing through the public API, exhaustion included", "Seeded exploration; the ledger is a reference model; full-range exhaustion is sampled for u16."),
 "C09": ("differential twin fed the same bytes in other chunks", "Seeded exploration of chunkings and garbage against whole-frame delivery and a reference framer."),
 "C10": ("differential twin: reused object against a fresh one from the start of each new session", "Seeded exploration over histories before the new session; compares event lists and exported state."),
 "C11": ("differential twin without the refused calls, and a reference send table", "Seeded exploration over states x packets; send and checked_send both exercised."),
 "C12": ("flow-control shadow model in both directions", "Seeded exploration of Receive Maximum values and histories including resumption."),
 "C13": ("reference receiver and sender alias tables", "Seeded exploration of alias limits, manual/automatic modes, retransmission and refusals."),
 "C14": ("boundary-biased limits against the reference encoding sizes", "Seeded exploration of limits at and around the sizes of packets."),
 "C15": ("simulated clock with armed-timer model", "Seeded exploration of timer firings, re-arming and expiry in every status."),
 "C16": ("crash twin: restored object against the survivor of the same loss", "Seeded exploration of crash points; compares all later events and exports."),
 "C17": ("reference role table and undetermined-version twin", "Seeded exploration of role x version x status x kind."),
 "C19": ("every event list of every run is checked for order and finality of close", "Seeded exploration of every error path reached by the solo world."),
 "C20": ("interleaved holders, exhaustion and mass release against a set model", "Seeded exploration for ten integer types including their extreme bounds."),
}
na = {
 "C02": "A pure function of one packet value (encode, decode, compare): no schedule, clock, I/O, fault or multi-party behaviour it could depend on. Encoding faults that reach the wire are found as a by-product in the pair and corrupt worlds, but the property is not claimed.",
 "C03": "A pure function of one byte string or packet value (agreement with the OASIS wire format): nothing a scheduler or fault injector could vary.",
 "C18": "A pure function of builder arguments / one property list: no time, concurrency, I/O, fault or history is involved.",
}
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [
  {
   "property": p,
   "quick_cmd": f"bash check.sh {p} quick",
   "thorough_cmd": f"bash check.sh {p} thorough",
   "technique": T + t,
   "level": "exploration",
   "level_note": n,
  }
  for p, (t, n) in N.items()
 ],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
 "notes": "No hooks in /repo: the library is Sans-I/O and the simulator owns every seam. Replay a violation with: dst/target/release/dst replay <path>.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
