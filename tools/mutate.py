#!/usr/bin/env python3
"""Mutation campaign against the checks: applies small changes to files of a private copy of /repo (bind-mounted over /repo in a
user namespace of its own), rebuilds the harness and runs the checks that concern the file.
mutate.py gen FILE...                  list mutants
mutate.py run LANE OUT.jsonl SEED N FILE...  run a sample of N mutants in lane LANE (directory /tmp/mut/LANE is prepared on first use)
"""
import json, os, random, re, subprocess, sys, time, difflib
CHECKS = {
    "src/repository/": ["C01", "C03", "C04", "C05", "C06", "C02", "C07", "C08"],
    "migrations/": ["C01", "C03", "C04", "C05", "C06", "C02"],
    "src/version.rs": ["T01", "T02"], "src/datafusion/parser.rs": ["P01", "P02"], "src/datafusion/utils.rs": ["P03", "P02"],
    "datafusion_remote_tables/src/filter_pushdown.rs": ["F01", "F02"], "src/wasm_udf/wasm.rs": ["W02", "W01"],
    "src/wasm_udf/data_types.rs": ["W03", "P02", "W02", "W01"], "src/nodes.rs": ["N01"], "src/memory_pool.rs": ["M01"],
    "src/frontend/http_utils.rs": ["H01"], "object_store_factory/src/": ["O02", "O03"], "src/cli/": ["L01"], "src/object_store/utils.rs": ["O01"],
}
SWAPS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?! *[{|])", "&&"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"\bis_ok\(\)", "is_err()"),
         (r"\bis_empty\(\)", "len() == 1"), (r" \+ ", " - "), (r" - ", " + "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b(\d\d+)\b", lambda m: str(int(m[1]) + 1)),
         (r"\bif (?!let)(.*) \{$", r"if !(\1) {"), (r"\bif (?!let)(.*) \{$", r"if true || (\1) {"), (r"\bif (?!let)(.*) \{$", r"if false && (\1) {"),
         (r"(?<![=!<>])!(?=[a-z(])", ""), (r"\.rev\(\)", ""), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\.to_lowercase\(\)", ".to_string()"),
         (r"\.to_ascii_(upper|lower)case\(\)", ".to_string()"), (r"\.trim(_end|_start)?\(\)", ""), (r"\.ok\(\)", ".ok().filter(|_| false)"),
         (r"\bOk\(\(\)\)", "Err(Default::default())"), (r"\.filter\(.*\)", ""), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
         # SQL
         (r"\bASC\b", "DESC"), (r"\bDESC\b", "ASC"), (r"\bAND\b", "OR"), (r"\bOR\b(?! REPLACE)", "AND"), (r"\bMAX\(", "MIN("), (r"\bmax\(", "min("), (r"\bIS NULL\b", "IS NOT NULL"),
         (r"\bIS NOT NULL\b", "IS NULL"), (r"\bINNER JOIN\b", "LEFT JOIN"), (r"\bLEFT JOIN\b", "INNER JOIN"), (r"\bWHERE\b", "WHERE 1 = 1 OR"), (r"\bON CONFLICT\b.*", ""),
         (r"\bCASCADE\b", "SET NULL"), (r" (=) ", " <> "), (r"\bNOT\b ", ""), (r"\bUNIQUE\b", ""), (r"\bDISTINCT\b", ""),
         (r"\bi64\b", "i32"), (r"\bu64\b", "u32"), (r"\bu8\b", "i8"), (r"\bInt64\b", "Int32"), (r"\bFloat64\b", "Float32"), (r"\bMicrosecond\b", "Millisecond"), (r"\bNanosecond\b", "Microsecond"),
         (r'"([A-Za-z ]{2,})"', r'"\1 "'), (r"\bJune\b", "July"), (r"\?;$", ".ok();"), (r"\.chars\(\)", ".chars().rev()"), (r"\.begin\(\)", ".acquire()"),
         ]
def mutants(path):
    text = open(os.path.join("/repo", path)).read().split("\n")
    end = next((i for i, l in enumerate(text) if "#[cfg(test)]" in l and i > 20), len(text))
    out = []
    for i in range(end):
        l = text[i]
        st = l.strip()
        if not st or st.startswith(("//", "use ", "#[", "pub use", "mod ", "pub mod")):
            continue
        for pat, rep in SWAPS:
            for m in re.finditer(pat, l):
                new = l[:m.start()] + m.expand(rep) + l[m.end():] if isinstance(rep, str) else l[:m.start()] + rep(m) + l[m.end():]
                if new != l:
                    out.append((i, [new]))
        # statement deletion
        if st.endswith(";") and not st.startswith(("let ", "return", "}", "type ", "const ", "pub const", "static ")) and st.count("(") == st.count(")") and "(" in st:
            out.append((i, []))
        # match arm deletion (single line)
        if re.match(r"^[\w:|\"'( ){}.,&]+ => .*,$", st) and not st.startswith("_ "):
            out.append((i, []))
        # swapped neighbours
        if i + 1 < end and text[i+1].strip().endswith(",") and st.endswith(",") and text[i+1].strip() != st and re.match(r"^[\w.&:()?]+,$", st):
            out.append((i, [text[i+1], l, None]))
    seen, res = set(), []
    for i, new in out:
        key = (i, tuple(new))
        if key not in seen:
            seen.add(key)
            res.append({"file": path, "line": i + 1, "old": text[i], "new": new})
    return res
def apply(m):
    t = open(os.path.join("/repo", m["file"])).read().split("\n")
    i = m["line"] - 1
    assert t[i] == m["old"]
    if m["new"] and m["new"][-1] is None:
        t[i:i+2] = m["new"][:2]
    else:
        t[i:i+1] = m["new"]
    return "\n".join(t)
def run(lane, out, seed, n, files):
    d = f"/tmp/mut/{lane}"
    if not os.path.isdir(d + "/verif"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["rm", "-rf", d + "/repo"])
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
    if os.environ.get("MUT_INNER") != "1":
        os.environ["MUT_INNER"] = "1"
        inner = f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && exec python3 /verif/tools/mutate.py " + " ".join(["run", lane, out, seed, n, *files])
        os.execvp("unshare", ["unshare", "-Urm", "sh", "-c", inner])
    ms = [m for f in files for m in mutants(f)]
    random.Random(int(seed)).shuffle(ms)
    if ":" in n:   # k:of:total  - share k of the first total mutants
        k, of, total = map(int, n.split(":"))
        ms = ms[:total][k::of]
    else:
        ms = ms[:int(n)]
    for m in ms:
        p = os.path.join("/repo", m["file"])
        orig = open(p).read()
        t0 = time.time()
        m["verdict"] = "?"
        try:
            text = apply(m)
            open(p, "w").write(text)
            crates = ["h_cli"] if "/cli/" in m["file"] else ["h_core"]
            b = subprocess.run(["/verif/harness/build.sh", crates[0]], capture_output=True, text=True)
            if b.returncode:
                m["verdict"] = "nobuild"
            else:
                checks = next(v for k, v in CHECKS.items() if m["file"].startswith(k))
                m["verdict"], m["runs"] = "survived", {}
                for c in checks:
                    if not os.path.exists("/verif/lib/checks.py") or f'@check("{c}"' not in open("/verif/lib/checks.py").read():
                        continue
                    try:
                        r = subprocess.run(["python3", "check.py", c], cwd="/verif", capture_output=True, text=True, timeout=400)
                        rc = r.returncode
                        tail = (r.stdout + r.stderr)[-300:]
                    except subprocess.TimeoutExpired:
                        rc, tail = -1, "timeout"
                    m["runs"][c] = rc
                    if rc == 1:
                        m["verdict"] = "killed"
                        break
                    if rc != 0:
                        m["verdict"] = "error"
                        m["tail"] = tail
        finally:
            open(p, "w").write(orig)
        m["s"] = round(time.time() - t0)
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")
if __name__ == "__main__":
    if sys.argv[1] == "gen":
        for f in sys.argv[2:]:
            ms = mutants(f)
            print(f, len(ms))
    else:
        run(*sys.argv[2:6], sys.argv[6:])
