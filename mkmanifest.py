#!/usr/bin/env python3
"""Writes MANIFEST.json; run by hand when checks change."""
import json
T = {
 "C01": ("simulated replicas against a join-semilattice reference model: reordered, duplicated, re-chunked delivery; state exchange; adversarial histories with per-step refinement check", "Every record change in every simulated history is compared with an executable model of SWIM's precedence order, and final views with the model's join."),
 "C02": ("deterministic cluster simulation on a discrete-event network, fault-free schedules; bounded-progress and no-false-suspicion oracles", "Bound used: last join + (6n+20) probe periods (+ periodic-announce allowance), n up to 10 (quick) / 16 (thorough). One recorded finding (exhausted dissemination) is excused narrowly."),
 "C03": ("deterministic cluster simulation with crashes (including in the middle of a call) and departures; bounded-detection oracle", "Strict (2n+1) periods + suspect_to_down_after for formed clusters; twice that for failures while still forming."),
 "C04": ("deterministic cluster simulation with exactly one lost datagram per run; recovery and no-false-death oracle", "Domain: suspect_to_down_after >= 3 periods, probe_period >= 2 probe_rtt, latency < probe_rtt/4."),
 "C05": ("deterministic cluster simulation of partitions and heals with renewable identities; bounded-convergence oracle", "Bound: detection + (14+4n) announce-to-down periods."),
 "C06": ("deterministic simulation with adversarial inputs, timers and configurations, in release and overflow-checked builds, under a supervisor that catches panics, aborts and hangs", "Includes memberships beyond 65535, items beyond 65535 bytes, extreme configurations, every kind of malformed input."),
 "C07": ("deterministic simulation with a datagram grammar checker and peer acceptance oracle on every datagram sent", "Every emitted datagram is parsed byte by byte by an independent grammar and offered to a fresh peer."),
 "C08": ("deterministic simulation with a notification-replay reference model and a runtime-equivalence oracle", "Also runs with AccumulatingRuntime side by side."),
 "C09": ("deterministic simulation with per-step record/identity invariants and a history model of superseded identities", ""),
 "C10": ("deterministic simulation with an incarnation reference model over complete histories", ""),
 "C11": ("deterministic simulation with simulated clock: late, stale, duplicated and reordered suspicion timers against a reference model", ""),
 "C12": ("deterministic simulation of probe rounds with genuine, forged, late and misrouted acks against a probe reference model", ""),
 "C13": ("deterministic simulation of timers on a simulated clock with an outstanding-timer ledger per epoch", ""),
 "C14": ("deterministic simulation of stable-membership probing over many RNG seeds; sliding-window oracle", ""),
 "C15": ("deterministic simulation with a dissemination-backlog reference model", "Domain: max_transmissions unchanged during a history, packets large enough for any single update."),
 "C16": ("deterministic simulation with a custom-broadcast reference model over handlers with different invalidation relations", ""),
 "C17": ("deterministic simulation of twins: same history with and without inputs that must be rejected; replays in a second process", ""),
 "C18": ("deterministic simulation of reply cascades among instances with arbitrary histories, timers held, random delivery order; bounded-silence oracle", ""),
 "C19": ("deterministic simulation with a destination oracle on every datagram", ""),
 "C20": ("deterministic simulation of codecs behind faulty buffers: short, truncated, corrupted, trailing and random data; plus simulated histories with bundled codecs and tight packets", "One recorded finding (bincode without limit)."),
}
checks = [{
    "property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
    "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration",
    "level_note": ("Seeded search over simulated executions of the real code; a pass means no violation in the runs counted in the evidence, not a proof. " + n).strip(),
} for p, (t, n) in sorted(T.items())]
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": [],
  "notes": "Replay a violation: target/release/sim replay FILE. No hooks in /repo are needed: foca is sans-IO, every seam (Runtime, Codec, RNG, Identity, BroadcastHandler) is a public trait."},
  open("MANIFEST.json", "w"), indent=1)
