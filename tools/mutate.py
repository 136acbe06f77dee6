#!/usr/bin/env python3
"""Measures the checks with small automatic edits of the repository's sources.

usage: mutate.py LANE COUNT SEED [FILE...]
Works on its own copies under /tmp/mut/LANE (never on /repo or /verif). An edit that
builds and passes the existing tests is given to the checks, most related first, until
one reports a violation. Results are appended to /verif/work/mutants.jsonl.
"""
import glob, json, os, random, re, shutil, subprocess, sys, time

LANE, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4:]
BASE = f"/tmp/mut/{LANE}"
REPO, VERIF, VP = BASE + "/repo", BASE + "/verif", BASE + "/vp"
LOG = "/verif/work/mutants.jsonl"
FILES = (
    ["src/annotate.rs", "src/mbus_data.rs", "src/output.rs", "src/rscada_xml.rs", "src/lib.rs", "cli/src/main.rs", "python/src/lib.rs",
     "wasm/src/highlight.rs", "wasm/src/lib.rs"]
    + [f"crates/m-bus-application-layer/src/{n}.rs" for n in
       ["data_information", "data_record", "extended_link_layer", "lib", "value_information", "variable_user_data"]]
    + ["crates/m-bus-core/src/decryption.rs", "crates/m-bus-core/src/lib.rs", "crates/wired-mbus-link-layer/src/lib.rs",
       "crates/wireless-mbus-link-layer/src/lib.rs"]
)
FIRST = {
    "src/annotate.rs": ["C21"], "src/mbus_data.rs": ["C28"], "src/rscada_xml.rs": ["C20"],
    "src/output.rs": ["C16", "C17", "C18", "C19", "C15", "C23", "C13", "C12"],
    "cli/src/main.rs": ["C24"], "python/src/lib.rs": ["C24"], "wasm/src/lib.rs": ["C24"], "wasm/src/highlight.rs": ["C27"],
    "crates/m-bus-application-layer/src/value_information.rs": ["C09", "C20", "C28"],
    "crates/m-bus-application-layer/src/data_information.rs": ["C08", "C10", "C11", "C07", "C28", "C20"],
    "crates/m-bus-application-layer/src/lib.rs": ["C05", "C06", "C29", "C12", "C28", "C26"],
    "crates/m-bus-core/src/decryption.rs": ["C14"], "crates/m-bus-core/src/lib.rs": ["C26", "C03", "C05"],
    "crates/wired-mbus-link-layer/src/lib.rs": ["C03"], "crates/wireless-mbus-link-layer/src/lib.rs": ["C04"],
}
REST = ["C16", "C28", "C21", "C20", "C26", "C09", "C08", "C05", "C29", "C13", "C17", "C18", "C12", "C06", "C31", "C32", "C33", "C34"]


def sh(cmd, timeout=900, **k):
    try:
        return subprocess.run(cmd, shell=isinstance(cmd, str), text=True, capture_output=True, timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def prepare():
    os.makedirs(VP, exist_ok=True)
    if not os.path.isdir(REPO):
        sh(["cp", "-a", "/repo", REPO])
    sh(["git", "-C", REPO, "checkout", "-q", "--", "."])
    sh(["git", "-C", REPO, "fetch", "-q", "/repo"])
    sh(["git", "-C", REPO, "checkout", "-q", sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()])
    for f in ["common.sh", "build.sh", "test.sh"]:
        s = open("/opt/vp/" + f).read().replace("/repo", REPO).replace(". /opt/vp/common.sh", f". {VP}/common.sh")
        open(f"{VP}/{f}", "w").write(s)
    os.makedirs(VERIF, exist_ok=True)
    tracked = sh("git -C /verif ls-files; git -C /verif ls-files -o --exclude-standard").stdout.split("\n")
    for f in tracked:
        if not f or f.startswith("seeded/") or not os.path.isfile("/verif/" + f):
            continue
        d = f"{VERIF}/{f}"
        os.makedirs(os.path.dirname(d), exist_ok=True)
        b = open("/verif/" + f, "rb").read()
        b = b.replace(b"/verif", VERIF.encode()).replace(b"/repo", REPO.encode())
        if not os.path.exists(d) or open(d, "rb").read() != b:
            open(d, "wb").write(b)
            shutil.copymode("/verif/" + f, d)


def code_lines(path):
    """Numbers of the lines that are neither tests nor comments."""
    lines = open(path).read().split("\n")
    out, depth, test = [], 0, None
    for i, l in enumerate(lines):
        if test is None and re.match(r"\s*#\[cfg\((test|all\(test)", l):
            test = "pending"
        if test == "pending" and "{" in l:
            test = depth
        depth += l.count("{") - l.count("}")
        if isinstance(test, int):
            if depth <= test:
                test = None
            continue
        s = l.strip()
        if test is None and s and not s.startswith(("//", "#", "use ", "pub use", "/*", "*", "mod ", "pub mod")):
            out.append(i)
    return lines, out


def edits(l):
    """Every small edit of one line."""
    code = l.split(" //")[0]
    r = []
    text = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
    inside = lambda p: any(a <= p < b for a, b in text)
    swap = {"<=": "<", ">=": ">", " < ": " <= ", " > ": " >= ", "==": "!=", "!=": "==", "&&": "||", "||": "&&", " + ": " - ", " - ": " + ",
            " & ": " | ", " | ": " & ", "<<": ">>", ">>": "<<", "true": "false", "false": "true", "..=": "..", ".min(": ".max(", ".max(": ".min(",
            "is_some()": "is_none()", "is_none()": "is_some()", " * ": " + ", "continue": "break", "from_le_bytes": "from_be_bytes",
            ".rev()": "", "is_empty()": "is_empty() == false", "saturating_sub": "wrapping_sub", "first()": "last()"}
    for a, b in swap.items():
        for m in re.finditer(re.escape(a), code):
            if inside(m.start()):
                continue
            if a in ("<<", ">>") and re.search(r"<\w|'_", code):
                continue
            if a in ("||",) and re.search(r"\(\|\||move \|\|", code):
                continue
            r.append(("swap", code[: m.start()] + b + code[m.end():]))
    for m in re.finditer(r"\b0x[0-9A-Fa-f]{1,4}\b", code):
        if not inside(m.start()):
            v = int(m.group(), 16)
            for w in (v ^ 1, v ^ 0x10 if v > 15 else v + 2):
                r.append(("hex", code[: m.start()] + f"0x{w:0{len(m.group())-2}X}" + code[m.end():]))
    for m in re.finditer(r"(?<![\w.\"x])-?\d+(?![\w.x])", code):
        if not inside(m.start()):
            v = int(m.group())
            for w in (v + 1, v - 1):
                r.append(("int", code[: m.start()] + str(w) + code[m.end():]))
    for m in re.finditer(r"(?<=[ (|&])!(?=[a-z(])", code):
        if not inside(m.start()):
            r.append(("not", code[: m.start()] + code[m.end():]))
    for a, b in text:
        t = code[a + 1: b - 1]
        if re.search(r"write!\(f,|feature:|expect\(|Err\(|error", code):
            continue
        if t and "{" not in t and "\\" not in t:
            k = len(t) // 2
            r.append(("text", code[: a + 1] + t[:k] + ("e" if t[k] != "e" else "a") + t[k + 1:] + code[b - 1:]))
    if re.match(r"\s*[\w.]+(\.|::)\w+\(.*\);\s*$", code) or re.match(r"\s*[\w.\[\]]+ (\+|-|\||&|<<|>>)?= .*;\s*$", code):
        r.append(("drop", ""))
    if re.match(r"\s*(\w+::)*\w+( \{ \.\. \}|\(.*\))? (if .* )?=> (?!\{).*,\s*$", code) and "_ =>" not in code:
        r.append(("arm", ""))
    return [x for x in r if x[1] != code]


def tests_pass():
    out = BASE + "/t.json"
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ)
    # quick refusals first
    r = sh(f". {VP}/common.sh >/dev/null 2>&1; cd {REPO}; cargo test --workspace --offline -q 2>&1 | grep -cE '^error|FAILED|could not compile'", executable="/bin/bash", env=env)
    if r.stdout.strip() != "0":
        return False
    sh(["bash", VP + "/test.sh", out], env=env)
    if not os.path.exists(out):
        return False
    t = json.load(open(out))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return stable <= set(t["passed"])


def check(p, seed):
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER="quick")
    r = sh(["bash", VERIF + "/check.sh", p], env=env)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    return r.returncode, (v[0] if v else r.stdout[-300:])


def main():
    prepare()
    rng = random.Random(SEED)
    pool = []
    for f in ONLY or FILES:
        lines, code = code_lines(f"{REPO}/{f}")
        for i in code:
            for kind, new in edits(lines[i]):
                pool.append((f, i, kind, new))
    rng.shuffle(pool)
    # no more than one edit per line, files in proportion to the square root of their size
    seen, per = set(), {}
    picked = []
    for f, i, kind, new in pool:
        if (f, i) in seen:
            continue
        seen.add((f, i))
        per.setdefault(f, []).append((f, i, kind, new))
    order = [f for f in per for _ in range(max(1, int(len(per[f]) ** 0.5)))]
    rng.shuffle(order)
    while len(picked) < COUNT and any(per.values()):
        for f in order:
            if per[f]:
                picked.append(per[f].pop())
    for f, i, kind, new in picked[:COUNT]:
        path = f"{REPO}/{f}"
        src = open(path).read()
        lines = src.split("\n")
        old = lines[i]
        lines[i] = new
        open(path, "w").write("\n".join(lines))
        t0 = time.time()
        rec = dict(file=f, line=i + 1, kind=kind, old=old.strip(), new=new.strip())
        try:
            c = sh(f". {VP}/common.sh >/dev/null 2>&1; cd {REPO}; cargo check --workspace --offline -q", executable="/bin/bash")
            if c.returncode != 0:
                rec["result"] = "does not build"
            elif not tests_pass():
                rec["result"] = "tests fail"
            else:
                rec["result"] = "SURVIVED"
                rec["errors"] = []
                for p in dict.fromkeys(FIRST.get(f, []) + REST):
                    code, what = check(p, 1)
                    if code == 1 and what.startswith("VIOLATION"):
                        rec["result"] = "caught " + p
                        break
                    if code != 0:
                        rec["errors"].append((p, code, what))
        finally:
            open(path, "w").write(src)
        rec["s"] = round(time.time() - t0)
        if rec["result"] != "does not build":
            with open(LOG, "a") as h:
                h.write(json.dumps(rec) + "\n")
        print(rec["result"], f, i + 1, kind, "|", old.strip(), "->", new.strip(), flush=True)


if __name__ != "tool":
    main()
