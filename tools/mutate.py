#!/usr/bin/env python3
"""Calibration only, never part of a check: small mutations of /repo/src in a scratch copy; which ones pass the
repository's tests and yet no monitor notices?   mutate.py OUT.jsonl WORKERS LIMIT [SEED] [FILE ...]"""
import json, os, random, re, shutil, subprocess, sys, threading, signal
out, workers, limit = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
files = sys.argv[5:] or ["src/node/cnode.rs", "src/node/lnode.rs", "src/node/snode.rs", "src/node/mnode.rs", "src/transformations.rs", "src/results.rs", "src/bit_indexed_array.rs", "src/hash_trie.rs", "src/map.rs", "src/set.rs", "src/flag.rs", "src/traits.rs"]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C19","C20","C21","C22","C24","C26","C27","C28","C29","C30","C31"]
R = [(r"reduce_op\(&(\w+), &(\w+)\)", r"\1"), (r"reduce_op\(&(\w+), &(\w+)\)", r"\2"), (r"reduce_op\(&(\w+), &(\w+)\)", r"reduce_op(&\1, &\1)"),
 (r"\bright_op, left_op\b", "left_op, right_op"), (r"\bleft_op, right_op\b", "right_op, left_op"), (r"\bleft_op\.call\b", "right_op.call"), (r"\bright_op\.call\b", "left_op.call"), (r"\bleft_op\b(?=\)|\.clone)", "right_op"), (r"\bright_op\b(?=\)|\.clone)", "left_op"),
 (r"\.flip\(\)", ""), (r"\.await\.flip\(\)", ".await"), (r"\+ 1\b", "+ 0"), (r"\bdepth\(\)", "depth() + 1"), (r"== ", "!= "), (r"!= ", "== "), (r"&& ", "|| "), (r"\bunchanged(l|r)? = false;", ""), (r"size \+= [^;]+;", "size += 1;"), (r"size \+= [^;]+;", "size += 2;"), (r"size \+= 1;", ""),
 (r"\bUnchangedL\(", "UnchangedR("), (r"\bUnchangedR\(", "UnchangedL("), (r"\bUnchangedLR\(", "UnchangedL("), (r"\bUnchangedL\(", "UnchangedLR("), (r"\bUnchangedR\(", "UnchangedLR("), (r"\bUnchangedLR\(", "UnchangedR("), (r"\bUnchanged\(", "Removed("), (r"\bRemoved\(", "Unchanged("),
 (r"\bLNodeNext::[LS]\((lnode|snode)\)", "this.next.clone()"), (r"this\.next\.clone\(\)", "this.next.clone()"), (r"\bthis\.clone\(\)\.into\(\)", "right.clone().into()"), (r"right\.clone\(\)\.into\(\)", "this.clone().into()"), (r"\blv\b", "this.value().clone()"), (r"this\.value\.clone\(\)", "that.value().clone()"), (r"this\.key\.clone\(\)", "that.key().clone()"),
 (r"self\.size\(\) - 1", "self.size()"), (r"self\.size\(\) \+ 1", "self.size()"), (r"\bsize\)", "size + 1)"), (r"this_flag, ((?:\w|\.|\(|\))+), right_flag", r"right_flag, \1, this_flag"), (r"left\.unwrap\(\)\.clone\(\)", "left.unwrap().clone()"), (r"right_node\.unwrap\(\)\.clone\(\)", "left.unwrap().clone()"), (r"\blsnode\.into\(\)", "right.clone().into()"), (r"rsnode\.into\(\)", "this.clone().into()"),
 (r"\bthis_flag, (\w+)", r"right_flag, \1"), (r"/2", "/2 + 1"), (r"\b0\.\.", "1.."), (r"swap_remove\(index\)", "remove(index)"), (r"swap_remove\(index\)", "pop().unwrap()"), (r"\bnext\(\)", "next().and_then(|f| f.next())"), (r"Some\(\(k, v\)\)", "None"), (r"MapTransform::Unchanged\(_\)", "MapTransform::Removed(_)"), (r"MapTransform::Removed\(_\)", "MapTransform::Unchanged(_)"), (r"MapJointTransform::Unchanged(L|R|LR)\(", r"MapJointTransform::Removed("),
 (r"(\w+)\.append\(&mut \w+\)", ""), (r"\bparams?\b", "params"), (r"< ", "<= "), (r">= ", "> "), (r"<< ", ">> "), (r"\|\| ", "&& "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" - 1\b", ""), (r" - 1\b", " - 2"), (r"\b& ", "| "), (r"\| ", "^ "), (r"break;", ""), (r"self\.(left|right)", lambda m: "self." + ("right" if m.group(1) == "left" else "left"))]
KW = set("let mut match fn if else for in loop return break async await move self Self ref as use pub impl where unsafe usize true false unwrap clone call into Some None Ok Err Arc Box Vec MNode LNode SNode CNode".split())
def exchanges(f, lines):
    """Names exchanged for names near by, and answers of neighbouring match arms exchanged (MUT=names)."""
    ids = [set(x for x in re.findall(r"\b[a-z_]\w*\b", l) if x not in KW) for l in lines]
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("//", "use ", "fn ", "pub", "impl", "where", "#[", "unsafe fn", "async fn", "unsafe impl")) or re.match(r"^[\w:]+: [A-Z]", s) or not s: continue
        near = set().union(*ids[max(0, i - 3):i + 4])
        body = l.find("=>") + 2 if "=>" in l else 0
        for m in re.finditer(r"(?<![\w.:|])[a-z_]\w*\b(?!\s*[(!:|])", l):
            if m.start() < body or m.group() in KW: continue
            for o in sorted(near):
                if o != m.group() and (o[0] == m.group()[0] or o[-1] == m.group()[-1] or len(o) <= 3): yield {"file": f, "line": i + 1, "old": l, "new": l[:m.start()] + o + l[m.end():]}
        a = re.match(r"^(\s*[^=]*=> )(.*),$", l)
        for j in range(i + 1, min(i + 4, len(lines))):
            b = re.match(r"^(\s*[^=]*=> )(.*),$", lines[j])
            if a and b and a.group(2) != b.group(2): yield {"file": f, "line": i + 1, "old": l, "new": a.group(1) + b.group(2) + ","}; yield {"file": f, "line": j + 1, "old": lines[j], "new": b.group(1) + a.group(2) + ","}
def mutants():
    if os.environ.get("MUT") == "names":
        u = {}
        for f in files:
            t = open("/repo/" + f).read(); end = t.find("#[cfg(test)]")
            for x in exchanges(f, t[:end if end >= 0 else len(t)].split("\n")): u[(x["file"], x["line"], x["new"])] = x
        return list(u.values())
    ms = []
    for f in files:
        t = open("/repo/" + f).read()
        end = t.find("#[cfg(test)]"); end = len(t) if end < 0 else end
        pos = 0
        for ln, l in enumerate(t[:end].split("\n")):
            s = l.strip()
            if not (s.startswith(("//", "use ", "fn ", "pub", "impl", "where", "#[", "unsafe fn", "async fn")) or re.match(r"^[\w:]+: [A-Z]", s)):
                for i, (p, r) in enumerate(R):
                    for m in re.finditer(p, l):
                        n = l[:m.start()] + m.expand(r) + l[m.end():] if isinstance(r, str) else l[:m.start()] + r(m) + l[m.end():]
                        if n != l: ms.append({"file": f, "line": ln + 1, "old": l, "new": n})
                if re.match(r"^\s*(\w+) = .*;$", l) or re.match(r"^\s*\w+\.\w+\(.*\);$", l): ms.append({"file": f, "line": ln + 1, "old": l, "new": ""})
            pos += len(l) + 1
    u = {}
    for x in ms: u[(x["file"], x["line"], x["new"])] = x
    return list(u.values())
ms = mutants(); random.Random(seed).shuffle(ms)
done = set()
if os.path.exists(out):
    for l in open(out): x = json.loads(l); done.add((x["file"], x["line"], x["new"]))
ms = [x for x in ms if (x["file"], x["line"], x["new"]) not in done]
print(len(ms), "mutants to go", flush=True); ms = ms[:limit]
lock = threading.Lock()
def sh(cmd, cwd, env=None, t=600):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings", **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 124, ""
def work(i):
    d = "/tmp/mw%d" % i; os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/repo"): sh(["cp", "-a", "/repo", d + "/repo"], "/")
    sh(["cp", "-a", VERIF + "/harness", d + "/"], "/")
    c = open(d + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % d).replace("[profile.dev]\n", "[profile.dev]\n"); open(d + "/harness/Cargo.toml", "w").write(c)
    while True:
        with lock:
            if not ms: return
            x = ms.pop()
        for f in files: shutil.copy("/repo/" + f, d + "/repo/" + f)
        t = open("/repo/" + x["file"]).read().split("\n"); assert t[x["line"] - 1] == x["old"]
        t[x["line"] - 1] = x["new"]; open(d + "/repo/" + x["file"], "w").write("\n".join(t))
        rc, o = sh(["cargo", "test", "--offline", "-q", "--workspace", "--no-fail-fast"], d + "/repo", t=120)
        if rc != 0: x["state"] = "invalid" if "error" in o and "test result" not in o else ("tests-hang" if rc == 124 else "tests")
        else:
            rc, o = sh(["cargo", "build", "--offline", "-q", "--bin", "m_64_32", "--bin", "m_8_8", "--bin", "misc"], d + "/harness", {"CARGO_TARGET_DIR": d + "/ht"})
            if rc != 0: x["state"] = "invalid"; x["o"] = o[-300:]
            else:
                x["by"] = []
                jobs = [(p, b) for p in PROPS for b in ("m_64_32", "m_8_8")] + [("C18", "misc"), ("C25", "misc"), ("C20", "misc"), ("C32", "misc")]
                q = list(jobs); th = []
                def runq():
                    while True:
                        with lock:
                            if not q: return
                            p, b = q.pop()
                        rc, o = sh(["bash", "-c", "ulimit -v 3000000; exec %s/ht/debug/%s --prop %s --seed 1 --to 1000000000 --secs 4" % (d, b, p)], "/tmp", t=40)
                        if rc != 0: x["by"].append("%s/%s%s" % (p, b, "" if rc == 1 else "(rc %d)" % rc))
                for _ in range(8 // workers + 1): k = threading.Thread(target=runq); k.start(); th.append(k)
                for k in th: k.join()
                x["by"].sort(); x["state"] = "caught" if x["by"] else "SURVIVED"
        with lock:
            open(out, "a").write(json.dumps(x) + "\n")
ths = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
for t in ths: t.start()
for t in ths: t.join()
