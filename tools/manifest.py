#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of implemented checks."""
import json, os, subprocess
MODEL = "runtime monitoring: the real library's output compared with an independently written reference model on generated, hostile and enumerated inputs"
T = {
 "C01": ("runtime monitoring: overflow-checked build driven by hostile workloads in child processes; panics, aborts, stack exhaustion and hangs are attributed per case",
         "held on the executed inputs; every public entry point is called on every case"),
 "C03": (MODEL, "all 65,536 short frames enumerated, every single-byte corruption of sampled long frames, otherwise held on the executed frames"),
 "C04": ("runtime monitoring: the same telegram decoded in three framings and compared with each other and with a reference CRC and framing model", "held on the executed frames and CRC corruptions"),
 "C05": (MODEL, "every CI byte in both link layers, header contents sampled"),
 "C06": ("runtime monitoring: conservation monitor that rebuilds the record area from the reported records, and a reference segmentation", "held on the executed areas, including every prefix of half of them"),
 "C07": (MODEL, "all 256 DIF bytes with 0 to 11 extension bytes, extension contents sampled"),
 "C08": ("runtime monitoring: reported decimals compared with a digit-string reference and a second 128-bit integer evaluation", "held on the executed records; edge values of every width and scale"),
 "C09": (MODEL, "every primary, FD, FB and second-level code and each with every single extension byte enumerated; longer chains sampled"),
 "C10": (MODEL, "all 65,536 type G values enumerated; types F, I and J sampled with edge fields"),
 "C11": (MODEL, "every text length and every byte value, plaintext units of every length; contents sampled"),
 "C12": ("runtime monitoring: records before a planted defect compared with the same records decoded alone, and a reference for the defect offset", "ten defect classes and every cut position of sampled areas"),
}
EXTRA = os.path.join(os.path.dirname(__file__), "manifest_extra.json")
NA = []
if os.path.exists(EXTRA):
    x = json.load(open(EXTRA))
    for k, v in x.get("checks", {}).items():
        T[k] = tuple(v)
    NA = x.get("not_applicable", [])
checks = []
for k in sorted(T):
    t, n = T[k]
    checks.append({"property": k, "quick_cmd": f"bash /verif/check.sh {k}", "thorough_cmd": f"bash /verif/check.sh {k}",
                   "technique": t.replace("MODEL", "reference model"), "level": "exploration", "level_note": n, "evidence_file": f"evidence/{k}.json"})
m = {"version": 1, "setup_cmd": "bash /verif/check.sh --build", "checks": checks, "not_applicable": NA}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
p = "/verif/harness/src/props/mod.rs"
s = open(p).read()
i = s.index("pub const IDS"); j = s.index("];", i)
s = s[:i] + "pub const IDS: &[&str] = &[\n" + "".join(f'    "{k}",\n' for k in sorted(T)) + s[j:]
open(p, "w").write(s)
