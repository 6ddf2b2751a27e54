#!/usr/bin/env python3
"""Mutation audit: small automatic changes to the library, which the existing tests pass, against
all checks. Everything happens in scratch copies.

  mutate.py list                         the mutants
  mutate.py run WORKERS RUNS OUT [PART]  audit them (PART i/n: every n-th), one JSON line each

Outcomes: nobuild, tests (an existing test fails), killed (a check reports it), survived.
"""
import json, os, re, subprocess, sys, shutil, multiprocessing as mp

BASE = "/tmp/w/mut"
REPO = BASE + "/base"  # a snapshot of /repo's HEAD
IDS = [f"C{i:02d}" for i in range(1, 20)] + ["C22"]
ORDER = {
    "pgs": ["C01", "C02", "C06", "C04", "C05", "C07", "C03"],
    "vobsub": ["C08", "C09", "C10", "C11", "C12", "C13", "C16"],
    "srt": ["C14", "C18"], "webvtt": ["C14"], "time": ["C14", "C01", "C08"],
    "image": ["C02", "C09", "C15"], "content": ["C08", "C12", "C09"], "util": ["C09", "C12"],
    "errors": ["C16"], "lib": ["C01"],
}

def mutants():
    out = []
    for f in subprocess.check_output(["git", "-C", REPO, "ls-files", "src/*.rs"], text=True).split():
        lines = open(f"{REPO}/{f}").read().split("\n")
        depth = None
        in_attr = False
        in_test = False
        for n, line in enumerate(lines):
            s = line.strip()
            if s.startswith("#[cfg(test)]"):
                in_test = True
            if in_test:
                continue
            if in_attr:
                if s.endswith("]"):
                    in_attr = False
                continue
            if s.startswith("#[") or s.startswith("#!["):
                if not s.endswith("]"):
                    in_attr = True
                continue
            if not s or s.startswith("//") or s.startswith("use ") or s.startswith("pub use") \
               or s.startswith("mod ") or s.startswith("pub mod "):
                continue
            code = re.sub(r'\s*//.*$', '', line)
            muts = set()
            # mask strings
            masked = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '\0' * (len(m.group(0)) - 2) + '"', code)
            def sub(a, b, text):
                if masked[a:b] == code[a:b]:
                    muts.add(code[:a] + text + code[b:])
            for pat, reps in [
                (r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ', ' >= ']), (r' <= ', [' < ']),
                (r' > ', [' >= ', ' <= ']), (r' >= ', [' > ', ' < ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
                (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
                (r' << ', [' >> ']), (r' >> ', [' << ']), (r' \| ', [' & ']), (r' & ', [' | ']),
                (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
                (r'\.\.=', ['..']), (r'\.\.(?=[\w(])', ['..=']), (r'from_be_bytes', ['from_le_bytes']),
                (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\bif (?!let)', ['if !']),
                (r'is_some\b', ['is_none']), (r'is_none\b', ['is_some']), (r'is_empty', ['len() == 7 && !String::new().is_empty']),
                (r'saturating_sub', ['wrapping_sub']), (r'saturating_add', ['wrapping_add']), (r'saturating_mul', ['wrapping_mul']),
                (r'SeekFrom::Current', ['SeekFrom::Start']), (r'\bSome\((\w+)\)$', ['None']),
                (r'read_exact', ['read']), (r'\.rev\(\)', ['']), (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break']),
                (r'write_all', ['write']), (r'\.flush\(\)', ['.by_ref().flush().and(Ok(()))']),
                (r'be_u16', ['le_u16']), (r'be_u32', ['le_u32']),
            ]:
                for m in re.finditer(pat, masked):
                    for r in reps:
                        sub(m.start(), m.end(), r)
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?=(?:_?[ui](?:8|16|32|64|size))?\b)(?!\.\d)', masked):
                t = m.group(1)
                v = int(t.replace("_", ""), 0)
                fmt = (lambda x: hex(x)) if t.startswith("0x") else str
                sub(m.start(1), m.end(1), fmt(v + 1))
                if v > 0:
                    sub(m.start(1), m.end(1), fmt(v - 1))
            if re.search(r'\?;$', s) and not s.startswith("let") and not s.startswith("}") and not s.startswith("."):
                ind = code[:len(code) - len(code.lstrip())]
                e = s[:-2]
                e = e[7:] if e.startswith("return ") else e
                muts.add(f"{ind}let _ = {e};")
            if s.endswith(";") and not re.match(r'(let|return|\}|\.|\)|const|static|pub|type|break|continue|use)', s):
                muts.add("")
            if re.match(r'return ', s) and s.endswith(";"):
                muts.add("")
            for mt in sorted(muts):
                if mt != code:
                    out.append((f, n, line, mt))
    return out

def sh(cmd, env=None, timeout=300, cwd=None):
    e = dict(os.environ)
    e.update({"PATH": "/root/.cargo/bin:" + e["PATH"], "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "",
              "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu"})
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        subprocess.run(["pkill", "-f", (cwd or "/nonexistent/") + "/"], check=False)
        return 124, (x.stdout or b"").decode("utf8", "replace")

def setup(w):
    d = f"{BASE}/{w}"
    os.makedirs(d, exist_ok=True)
    sh(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "target", REPO + "/", d + "/repo/"]) if shutil.which("rsync") else None
    if not os.path.exists(d + "/repo"):
        subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True)
    if not os.path.exists(d + "/verif"):
        os.makedirs(d + "/verif")
        subprocess.run(["cp", "-a", "/verif/sim", "/verif/KNOWN_FINDINGS.txt", d + "/verif/"], check=True)
        shutil.rmtree(d + "/verif/sim/target-fine", ignore_errors=True)
    return d

def audit(d, m, runs):
    f, n, old, new = m
    path = f"{d}/repo/{f}"
    text = open(f"{REPO}/{f}").read().split("\n")
    assert text[n] == old
    text[n] = new
    open(path, "w").write("\n".join(text))
    try:
        rc, o = sh(["cargo", "test", "--offline", "--no-run"], {"CARGO_TARGET_DIR": d + "/repo/target", "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}, cwd=d + "/repo")
        if rc:
            return "nobuild", ""
        rc, o = sh(["cargo", "test", "--offline"], {"CARGO_TARGET_DIR": d + "/repo/target", "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}, timeout=60, cwd=d + "/repo")
        if rc:
            return "tests", ""
        rc, o = sh(["cargo", "build", "--release", "--offline", "--locked"], {"CARGO_TARGET_DIR": d + "/verif/sim/target"}, cwd=d + "/verif/sim")
        if rc:
            return "nobuild", "release"
        mod = f.split("/")[1].replace(".rs", "")
        first = ORDER.get(mod, [])
        wd = d + "/verif"
        for i in first + [i for i in IDS if i not in first]:
            r = {"C19": max(runs // 40, 30), "C17": max(runs // 5, 100), "C18": max(runs // 4, 100)}.get(i, runs)
            rc, o = sh([d + "/verif/sim/target/release/simcheck", "check", i, "quick"],
                       {"SIMCHECK_RUNS": str(r), "SIMCHECK_WORKERS": "1", "SIMCHECK_DIR": wd, "VERIF_SEED": "1", "SIMCHECK_CAP_S": "60"}, timeout=400, cwd=wd)
            if rc != 0:
                return "killed", i if rc == 1 else f"{i} rc={rc}"
        return "survived", ""
    finally:
        shutil.copyfile(f"{REPO}/{f}", path)

def worker(w, q, runs, out, lock):
    d = setup(w)
    while True:
        m = q.get()
        if m is None:
            return
        try:
            res, by = audit(d, m, runs)
        except Exception as x:
            res, by = "failed", repr(x)
        with lock, open(out, "a") as fh:
            fh.write(json.dumps({"file": m[0], "line": m[1] + 1, "old": m[2].strip(), "new": m[3].strip(), "result": res, "by": by}) + "\n")

if __name__ == "__main__":
    os.makedirs(BASE, exist_ok=True)
    if not os.path.exists(REPO):
        subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
    ms = mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(m[0], m[1] + 1, "|", m[2].strip(), "=>", m[3].strip() or "(deleted)")
        print(len(ms))
        sys.exit()
    workers, runs, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    if len(sys.argv) > 5:
        i, k = map(int, sys.argv[5].split("/"))
        ms = ms[i::k]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l)
            done.add((j["file"], j["line"], j["new"]))
    q, lock = mp.Queue(), mp.Lock()
    for m in ms:
        if (m[0], m[1] + 1, m[3].strip()) not in done:
            q.put(m)
    for _ in range(workers):
        q.put(None)
    ps = [mp.Process(target=worker, args=(i, q, runs, out, lock)) for i in range(workers)]
    [p.start() for p in ps]
    [p.join() for p in ps]
