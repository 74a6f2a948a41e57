#!/usr/bin/env python3
"""Mutation campaign (development tool; no registered check uses it).

mutate.py list [files]             print the mutants
mutate.py run OUT.jsonl W K [pattern]   run every W-th... worker K of W over the mutants

Each mutant is tried in /tmp/mut<K>/ (a copy of /repo and of mc/): it has to build and pass
the repository's tests; then the checks listed for its file run until one reports a violation.
"""
import json, os, re, subprocess, sys
SRC = "/repo/src"
CHECKS = {
 "portgraph.rs": "C01 C02 C03 C04 C05 C13 C28",
 "portgraph/iter.rs": "C01 C30 C07",
 "multiportgraph.rs": "C07 C08 C03 C05 C13 C28",
 "multiportgraph/iter.rs": "C07 C08",
 "hierarchy.rs": "C10 C11 C28",
 "secondary.rs": "C12 C13", "unmanaged.rs": "C12 C13", "weights.rs": "C13 C12 C28",
 "index.rs": "C06 C05 C28",
 "view.rs": "C01 C07 C03 C18 C30 C15", "view/refs.rs": "C30",
 "view/filter.rs": "C15 C14 C18", "view/region.rs": "C14 C17 C15", "view/flat_region.rs": "C14 C15",
 "view/subgraph.rs": "C16 C18 C24 C25", "boundary.rs": "C19 C16",
 "view/petgraph.rs": "C27",
 "algorithms/toposort.rs": "C20 C24", "algorithms/post_order.rs": "C21", "algorithms/dominators.rs": "C22", "algorithms/lca.rs": "C23",
 "algorithms/convex.rs": "C24 C25", "algorithms/convex/topo_convex_checker.rs": "C24", "algorithms/convex/line_convex_checker.rs": "C25 C26",
 "algorithms/dynamic.rs": "C26 C25",
 "render.rs": "C29", "render/dot.rs": "C29", "render/mermaid.rs": "C29",
}
RULES = [
 (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
 (r"&&", "||"), (r"\|\|(?! )|(?<= )\|\|(?= )", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ (?!1\b)", " - "), (r"(?<!-) - (?!1\b)", " + "),
 (r" \+= ", " -= "), (r" -= ", " += "),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if !", "if "), (r"(?<=[( ])!(?=[a-z])", ""),
 (r"Direction::Incoming", "Direction::Outgoing"), (r"Direction::Outgoing", "Direction::Incoming"),
 (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.skip\(1\)", ".skip(2)"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
 (r"\bnext\b(?!\()", "prev"), (r"\bprev\b", "next"), (r"\.next_back\(\)", ".next()"), (r"(?<!back)\.next\(\)", ".next_back()"),
 (r"\bincoming\b", "outgoing"), (r"\boutgoing\b", "incoming"), (r"\binputs\b", "outputs"), (r"\boutputs\b", "inputs"),
 (r"\binput_", "output_"), (r"\boutput_", "input_"), (r"\bfirst\b", "last"), (r"\blast\b", "first"),
 (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\bSome\(true\)", "Some(false)"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
 (r"is_some_and\(", "is_none_or("), (r"is_none_or\(", "is_some_and("), (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"\.reverse\(\)", ""), (r"\.opposite\(\)", ""),
 (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"),
 (r"\.\.=", ".."), (r"(?<=[\w)])\.\.(?=[\w(])", "..="), (r"push_front", "push_back"), (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"pop_back", "pop_front"),
 (r"\.max_by_key|\.max_by", ".min_by_key"), (r"continue;", "{}"), (r"break;", "{}"),
 (r"if (?!let)(.+) \{$", r"if false && (\1) {"), (r"if (?!let)(.+) \{$", r"if true || (\1) {"),
 (r"\bport_capacity\b", "port_count"), (r"from\b", "to"), (r"\bto\b(?!_)", "from"), (r"\ba\b", "b"), (r"\bb\b", "a"),
 (r"\.retain\(", ".clone().retain("), (r"\.clear\(\)", ".clone()"), (r"\.filter\((.*)\)$", ""), (r"\?;", ".ok();"), (r"return (None|Err.*|false|true);", "{}"),
]
def mutants(only=None):
    for f in CHECKS:
        if only and f not in only: continue
        text = open(f"{SRC}/{f}").read()
        cut = re.search(r"^#\[cfg\(test\)\]", text, re.M)
        end = text[:cut.start()].count("\n") if cut else 10**9
        lines = text.split("\n")
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "impl", "where", "pub trait", "pub struct", "type ", "mod ", "pub mod", "assert", "debug_assert", "panic")): continue
            code = l.split(" // ")[0]
            if re.match(r"\s*(pub(\(\w+\))? )?(const )?fn ", l): continue
            seen = set()
            for n, (pat, rep) in enumerate(RULES):
                for m in re.finditer(pat, code):
                    try: new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    except re.error: continue
                    if "<" in pat and ("<'" in code or "::<" in code or "->" in code): continue
                    if new != code and new not in seen:
                        seen.add(new); yield f, i, l, new
            # deleted statement
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".", "type", "const", "pub", "fn ", "break", "continue")) and re.match(r"[\w.*&]+", s) and (lines[i-1].strip().endswith((";", "{", "}")) or lines[i-1].strip().startswith("//")):
                yield f, i, l, re.match(r"\s*", l).group(0) + "{}"
def sh(c, t, env=None, cwd=None):
    try:
        r = subprocess.run(["bash", "-c", c], capture_output=True, text=True, timeout=t, env=env, cwd=cwd, start_new_session=True)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", cwd or "nothing-at-all"]); return 124, "timeout"
def setup(w):
    d = f"/tmp/mut{w}"
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(f"cp -a /repo {d}/repo && rm -rf {d}/repo/target/debug/incremental; mkdir {d}/mc && cp -a /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock /verif/mc/.cargo {d}/mc/ ; cp /verif/known_findings.json {d}/", shell=True)
        p = f"{d}/mc/Cargo.toml"; s = open(p).read().replace('path = "/repo"', f'path = "{d}/repo"').replace("incremental = false", "incremental = true").replace("opt-level = 2", "opt-level = 1"); open(p, "w").write(s)
    return d
def main():
    if sys.argv[1] == "list":
        n = {}
        for f, i, l, new in mutants(set(sys.argv[2:]) or None):
            n[f] = n.get(f, 0) + 1
            if sys.argv[2:]: print(f"{f}:{i+1}: {l.strip()}  =>  {new.strip()}")
        print(n, sum(n.values())); return
    out, W, K = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); only = set(sys.argv[5:]) or None
    d = setup(K); done = set()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l); done.add((j["f"], j["line"], j["new"]))
    env = {k: v for k, v in os.environ.items()}
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", PYO3_PYTHON="/usr/bin/python3", PROPTEST_RNG_SEED="1", PROPTEST_DISABLE_FAILURE_PERSISTENCE="true", INSTA_UPDATE="no", CARGO_TARGET_DIR=f"{d}/target")
    cpus = f"taskset -c {2*K},{2*K+1} "
    ms = list(mutants(only))
    import random; random.Random(7).shuffle(ms)
    fs = list(CHECKS); random.Random(3).shuffle(fs)
    ms.sort(key=lambda m: fs.index(m[0])); cur = None
    for n, (f, i, l, new) in enumerate(ms):
        if n % W != K: continue
        if (f, i + 1, new.strip()) in done: continue
        if os.path.exists("/tmp/mut.stop"): break
        if f != cur:
            # only the checks of this file, to keep the build short
            subprocess.run(f"rsync -a --delete /verif/mc/src/ {d}/mc/src/ 2>/dev/null || (rm -rf {d}/mc/src && cp -a /verif/mc/src {d}/mc/src)", shell=True)
            cur = f; fun = dict(re.findall(r'\("(C\d\d)", (\w+::c\d\d)', open("/verif/mc/src/main.rs").read()))
            m = open("/verif/mc/src/main.rs").read(); t = ", ".join(f'("{c}", {fun[c]} as Check)' for c in CHECKS[f].split())
            open(f"{d}/mc/src/main.rs", "w").write(re.sub(r"    vec!\[.*?\]\n\}", lambda _: f"    vec![{t}]\n}}", m, flags=re.S, count=1))
        p = f"{d}/repo/src/{f}"; orig = open(p).read(); ls = orig.split("\n")
        if ls[i] != l: print("mismatch", f, i); continue
        ls[i] = new; open(p, "w").write("\n".join(ls))
        res, by, det = None, None, ""
        try:
            rc, o = sh(f"{cpus} timeout 60 cargo check --lib --all-features --offline -q", 90, env, d + "/repo")
            if rc: res = "nobuild"
            else:
                rc, o = sh(f"{cpus} timeout 170 cargo test --workspace --all-features --offline --lib --tests -q -- --test-threads 2", 180, env, d + "/repo")
                if rc: res = "tests"
                else:
                    e2 = dict(env); e2.pop("CARGO_TARGET_DIR")
                    rc, o = sh(f"{cpus} timeout 280 cargo build --release --offline -q", 300, e2, d + "/mc")
                    if rc: res, det = "mc-nobuild", o[-300:]
                    else:
                        res = "SURVIVED"
                        for c in CHECKS[f].split():
                            rc, o = sh(f"{cpus} timeout 400 target/release/mc {c} quick", 420, e2, d + "/mc")
                            if rc == 1 and "VIOLATION property=" in o: res, by = "caught", c; break
                            if rc != 0: res, by, det = f"rc{rc}", c, o[-200:]; break
        finally:
            open(p, "w").write(orig)
        j = dict(f=f, line=i + 1, old=l.strip(), new=new.strip(), res=res, by=by, det=det)
        open(out, "a").write(json.dumps(j) + "\n")
main()
