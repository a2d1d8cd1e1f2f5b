#!/usr/bin/env python3
"""Development aid: mutation sampling. mutate.py list | run <slot> <slots> [every] [offset]
Makes small token-level changes to a copy of the sources, keeps those the
existing tests accept, and runs the quick checks on them until one reports.
What no check reports is listed as a survivor, to be judged by hand."""
import re, os, subprocess, sys, json, glob, hashlib, time
BASE = os.environ.get("MUT", "/tmp/mut")
SRC = "/repo"
FILES = ["bits", "core_parser", "crc", "data", "errors", "header", "lib", "models", "parser", "parsing_utils", "serde_utils",
         "network/attributes", "network/frame_decoder", "network/mod", "network/models", "network/object_index"]
OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"),
    (r"\bbreak;", "continue;"), (r"\bif !", "if "), (r" << ", " >> "), (r" & ", " | "),
    (r"\bsaturating_sub\b", "wrapping_sub"), (r"\bwrapping_sub\b", "wrapping_add"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
    (r"\.unwrap_or\((\d+)\)", r".unwrap_or(\1 + 1)"), (r"\bas u16\b", "as u8 as u16"), (r"\bas i32\b", "as i16 as i32"),
    (r"\bNone\b", None), (r"\bread_i32\b", "read_u32_as_i32__"), (r"\.then\(\|\|", ".then(||"),
    (r"\.rev\(\)", ""), (r"\.skip\((\d+)\)", ""), (r"\.take\(", ".take(1 + "), (r"\.enumerate\(\)", ".enumerate().skip(1)"),
    (r"\.or_else\(", ".and(None).or_else("), (r"\bprefix\b", "&[]"),
]
def code_lines(text):
    """(index, line) of lines outside tests, comments and attributes."""
    out = []; depth_test = None
    for i, l in enumerate(text.split("\n")):
        if l.startswith("#[cfg(test)]"): break
        s = l.strip()
        if s.startswith(("//", "#[", "#!", "use ", "pub use ", "mod ", "pub mod ")): continue
        out.append((i, l))
    return out
def mutants():
    ms = []
    for f in FILES:
        path = f"src/{f}.rs"; text = open(f"{SRC}/{path}").read(); lines = text.split("\n")
        for i, l in code_lines(text):
            if f == "data" and re.match(r'\s*"', l): continue
            code = l.split(" //")[0]
            for a, b in OPS:
                if b is None or b.endswith("__") or (a.startswith(r"\.then")): continue
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():] + l[len(code):]
                    if new != l: ms.append((path, i, l, new))
            for m in re.finditer(r"(?<![\w.\"'])(\d[\d_]*)(?![\w.\"'])", code):
                if code.count('"', 0, m.start()) % 2: continue
                v = int(m.group(1).replace("_", ""))
                for w in {v + 1, v - 1} if v > 0 else {1}:
                    ms.append((path, i, l, code[:m.start()] + str(w) + code[m.end():] + l[len(code):]))
            for m in re.finditer(r"\b0x([0-9a-fA-F_]+)\b", code):
                v = int(m.group(1).replace("_", ""), 16)
                ms.append((path, i, l, code[:m.start()] + hex(v ^ 1) + code[m.end():] + l[len(code):]))
            s = code.strip()
            # statements whose removal still compiles
            if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "static ", "type ", "}", ")", ".")) and lines[i - 1].strip().endswith((";", "{", "}")):
                ms.append((path, i, l, ""))
            # a condition that always or never holds
            m = re.match(r"^(\s*)(\}? ?(?:else )?if )(?!let )(.+) \{$", code)
            if m:
                for c in ("true", "false"):
                    ms.append((path, i, l, f"{m.group(1)}{m.group(2)}{c} || ({m.group(3)}) {{" if c == "true" else f"{m.group(1)}{m.group(2)}false && ({m.group(3)}) {{"))
            # swapped arguments
            m = re.search(r"\((\w+), (\w+)\)", code)
            if m and m.group(1) != m.group(2):
                ms.append((path, i, l, code[:m.start()] + f"({m.group(2)}, {m.group(1)})" + code[m.end():] + l[len(code):]))
    seen = set(); out = []
    for m in ms:
        if m in seen: continue
        seen.add(m); out.append(m)
    out.sort(key=lambda m: hashlib.sha1(repr(m).encode()).hexdigest())
    return out
ORDER = {
    "crc": "C04 C05", "errors": "C15 C01 C14 C05 C13", "serde_utils": "C17 C16", "models": "C16 C11 C17 C14", "header": "C11 C01 C05 C03 C07",
    "core_parser": "C11 C01 C07 C03 C04", "parser": "C11 C05 C06 C07 C04 C12 C09", "data": "C10 C12 C09", "lib": "C05", "bits": "C10 C08 C09",
    "parsing_utils": "C11 C05", "network/attributes": "C10 C16 C17 C08 C15", "network/frame_decoder": "C09 C15 C08 C12 C10",
    "network/mod": "C12 C09 C10 C06 C15", "network/models": "C10 C16 C17 C09", "network/object_index": "C12 C15 C10",
}
ALL = [f"C{i:02}" for i in (23, 11, 10, 12, 9, 15, 8, 5, 4, 6, 7, 16, 17, 24, 1, 2, 3, 14, 13)]
QUICK = {}
def sh(c, cwd, t, log):
    try:
        with open(log, "w") as f:
            return subprocess.call(["bash", "-c", c], cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=t, start_new_session=True)
    except subprocess.TimeoutExpired:
        subprocess.call(["pkill", "-9", "-f", cwd]); return 124
def run(slot, slots, every, offset):
    D = f"{BASE}/s{slot}"
    if not os.path.exists(D + "/repo"):
        os.makedirs(D + "/verif", exist_ok=True)
        subprocess.check_call(f"cp -a /repo {D}/repo; cd /verif && tar cf - --exclude=sim/target sim KNOWN_FINDINGS.jsonl | (cd {D}/verif && tar xf -)", shell=True)
    W = os.environ.get("MUT_WORKERS", "3"); DIV = int(os.environ.get("MUT_DIV", "3"))
    env = f". /opt/vp/env.sh; export CARGO_BUILD_JOBS={W}; "
    res = open(f"{BASE}/res{slot}.jsonl", "a")
    done = set()
    for f in glob.glob(f"{BASE}/res*.jsonl"):
        for l in open(f): done.add(json.loads(l)["k"])
    ms = mutants()
    for n, (path, i, old, new) in enumerate(ms):
        if n % every != offset % every or (n // every) % slots != slot: continue
        k = hashlib.sha1(repr((path, i, old, new)).encode()).hexdigest()[:12]
        if k in done: continue
        t0 = time.time()
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=D + "/repo")
        p = f"{D}/repo/{path}"; ls = open(p).read().split("\n"); assert ls[i] == old; ls[i] = new; open(p, "w").write("\n".join(ls))
        out = {"k": k, "n": n, "at": f"{path}:{i+1}", "old": old.strip(), "new": new.strip()}
        rc = sh(env + "cargo check --offline -q --lib", D + "/repo", 200, D + "/log")
        if rc: out["r"] = "build"
        else:
            rc = sh(env + f"timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads {W}", D + "/repo", 200, D + "/log")
            if rc: out["r"] = "tests"
        if "r" not in out:
            f = path[4:-3]; order = ORDER.get(f, "").split(); order += [c for c in ALL if c not in order]
            if sh("bash sim/build.sh", D + "/verif", 400, D + "/log"): out["r"] = "simbuild"
            else:
                if not QUICK:
                    for l in subprocess.check_output([D + "/verif/sim/target/x86_64-unknown-linux-gnu/release/boxsim", "list"], text=True).splitlines():
                        a, b = l.split()[:2]; QUICK[a] = int(b)
                for c in order:
                    rc = sh(f"timeout 300 bash sim/check.sh {c} --workers {W} --runs {QUICK[c] // DIV}", D + "/verif", 320, D + "/log")
                    if rc:
                        out["r"] = c if rc == 1 else f"{c}?{rc}"
                        out["v"] = next((l for l in open(D + "/log") if " violated in " in l), open(D + "/log").read()[-300:])[:300]
                        break
                else: out["r"] = "SURVIVED"
        out["t"] = round(time.time() - t0); res.write(json.dumps(out) + "\n"); res.flush()
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=D + "/repo")
if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = mutants(); from collections import Counter
        print(len(ms), Counter(m[0] for m in ms))
        for m in ms[:20]: print(m)
    else:
        a = list(map(int, sys.argv[2:])) + [1, 0]
        run(a[0], a[1], *( [a[2], a[3]] if len(sys.argv) > 5 else ([a[2], 0] if len(sys.argv) > 4 else [1, 0])))
