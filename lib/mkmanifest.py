#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with an executable check in checks/ is claimed."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
VOLK = " VOLK kernels are replaced by C kernels of the same definition so that the sanitizers see their accesses."
T = {
 "Q": ("linearizability checker over recorded concurrent histories, under ASan/UBSan and TSan", "exploration",
       "Holds on every recorded history of the run (seeded schedules with injected lock delays and spurious wake-ups); the sequential model of the queue in the harness is trusted."),
 "D": ("online monitor comparing every output sample with an independent double-precision reference, under ASan/UBSan", "exploration",
       "Holds on every seeded case of the run; tolerances cover single-precision rounding; the reference in the harness is trusted." + VOLK),
 "S": ("trace monitors over client, upstream and device event logs of the real server under ASan/UBSan", "exploration",
       "Holds on every seeded session mix of the run; timing-dependent outcomes are retried before they are reported."),
}
SPEC = {
 "D09": ("differential monitor against an independent SGP4 and physical invariants, corruption of element sets, under ASan/UBSan and TSan", "exploration",
         "Near-earth orbits are compared with an independent implementation, deep-space orbits with the published vectors, a frozen copy of the algorithm and conservation laws, which are trusted."),
 "D11": ("ASan/UBSan over hostile samples and parameters, with output-bound and termination monitors", "exploration",
         "No sanitizer report, hang or bound violation on any seeded parameter set and sample sequence of the run." + VOLK),
 "S13": ("fault injection at every resource operation of a session, observed by ASan/UBSan/LSan and liveness monitors", "fault_enumeration",
         "Every resource operation (allocation, thread, socket, file, device) that the listed sessions and constructors perform is failed once, single failures only."),
 "S14": ("ThreadSanitizer and AddressSanitizer over the real server with injected delays and session churn", "exploration",
         "No race or use-after-free in any schedule observed in the run; unobserved schedules may differ."),
 "P01": ("monitor at the device library boundary (recording stand-in for libiio), under ASan/UBSan", "exploration", "Every value in every push and refill of the run is compared with the documented conversion; the stand-in library is trusted."),
 "P02": ("fault enumeration at the device library boundary with an acquire/release monitor, under ASan/UBSan/LSan", "fault_enumeration", "Every device call of receive and transmit set-up is failed once for every configuration class of the run; the stand-in library is trusted."),
 "F01": ("monitor comparing every sample read or written with the file and a double-precision carrier, under ASan/UBSan", "exploration", "Holds on every seeded file and configuration of the run."),
 "C01": ("differential monitor against a model of the configuration format, under ASan/UBSan/LSan", "exploration", "Holds on every generated configuration file of the run; libconfig itself is trusted."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        t, l, n = SPEC.get(i) or T[i[0]]
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "the check of this property is not finished yet, so it is not claimed"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: harnesses build /repo/src with sanitizers and interpose at link time (ld --wrap, libiio.so and VOLK stand-ins). Repairs in /repo are the 'fix:' commits listed in known_findings.jsonl."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
