#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
checks = {
 "C01": ("seeded search over segmentation, delay, stall and reader schedules of packet streams; delivered history compared with the sent one", "reference: the sent packets themselves"),
 "C02": ("seeded search over prefixes, arrival schedules and readers that wait for the reported count; invariant at every read against an independent frame parser, and bounded progress", "reference: independent fixed-header parser; liveness as a step bound"),
 "C03": ("seeded search over byte damage inside frames and segmentation; invariant on the bytes removed by each read, undamaged neighbours checked in the history", "reference: independent frame parser; damaged frames judged only on removal"),
 "C04": ("seeded search over hostile and damaged streams and arbitrary packet values; panic, abort, hang and memory exhaustion detected by the supervising runner", "a hang is 60 s without progress of a worker"),
 "C05": ("seeded search over announced lengths, limits that change between reads and arrival schedules; invariant at every read", "reference: independent fixed-header parser"),
 "C06": ("seeded search over histories of writes, drains and splits of an outgoing buffer; invariant at every write", "reference: the same write into an empty buffer"),
 "C07": ("seeded search over streams of writes with unencodable packets at any position; invariant at every write and delivery check of the neighbours", "reference: independent encodability rules"),
 "C08": ("seeded search over packets and segmentation; every frame sent is decoded by an independent strict MQTT 5 peer in the simulation", "reference: independent strict MQTT 5 decoder"),
 "C09": ("seeded search over packets encoded by an independent MQTT 5 peer in random legal forms, segmented and delayed; delivered history compared", "reference: independent MQTT 5 encoder with random legal forms"),
 "C10": ("seeded search over transport damage and forged frames; every delivered or rejected frame judged by an independent decoder", "reference: independent decoder with three verdicts (valid, must be rejected, left open)"),
 "C11": ("seeded search over histories of reuse, clearing, reallocation and dropping of buffers around held packets and queued segments; re-checked through the run", "reference: content recorded at delivery / at write"),
 "C12": ("seeded baton scheduler interleaves scripted connections over threads; every result compared with the connection run alone in a fresh thread and in a fresh process", "interleaving at operation granularity: one operation runs at a time, so races inside one call are not explored"),
 "C13": ("the four string builds run one simulated schedule of streams, damage and limits in lock step; results compared after every operation", "reference: the builds against one another"),
 "C14": ("seeded search over stream contents and moments; at every read the frame check and the per-packet readers are compared with the combined read", "reference: the crate's own combined read, judged itself by C01-C10"),
 "C15": ("seeded search over relay topologies, builds and segmentation; ends compared with the first sender and re-encoded bytes for stability", "reference: the sent packets; bytes of the first relay"),
 "C16": ("seeded search with a counting allocator: allocation bound and retained memory checked at every read, leak check at the end of runs", "bound: constant plus a fixed factor of the frame's received bytes"),
 "C17": ("seeded search over cut points, repeated cuts, reconnects and buffer reuse; history checked against the packets whose last byte arrived", "reference: arrival record of the simulated network"),
 "C18": ("a simulated broker and clients run the QoS 0/1/2 handshakes over the codec through cuts at any byte, stalls, crashes with durable session state, clock skew and jumps; histories checked for exactly-once / at-least-once / at-most-once and content, and for completion within bounded simulated time after the faults", "broker, clients and storage are the simulator's own; session state is stored atomically per event"),
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
   "evidence_file": f"evidence/{p}.json", "technique": T + t, "level": "exploration",
   "level_note": "No violation in the seeded runs reported in the evidence; not exhaustive. Trusted: the simulator and its independent MQTT 5 codec (sim/src/refcodec.rs). " + n[0].upper() + n[1:] + "."}
  for p, (t, n) in checks.items()],
 "not_applicable": [
  {"property": "N01", "reason": "mod.rs is not compiled into the crate (src/lib.rs is the root and does not include it), so no execution of the codebase, simulated or not, can reach it; it is also a pure function of two strings."},
  {"property": "N02", "reason": "Pure total functions of one small argument without time, order, I/O or faults: no schedule or fault changes their result, so simulation decides nothing about them."}],
 "notes": "No hooks: the crate takes its buffers and limit as arguments, which is the seam the simulator drives. See DESIGN.md and known-findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
