#!/usr/bin/env python3
"""Mutation testing: mutate.py OUT JOBS FILE...  (files relative to /repo)

Applies every change that tools/mutator lists to a copy of /repo, keeps those
that build and pass the stable tests (and the root package's), runs the checks of
the file's properties and appends a line per mutant to OUT."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue, time

ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off")
PROPS = [  # file pattern -> cmd:props
    (r"core/indexer", ["core:C01,C02,C03,C04,C05", "engine:C09,C11,C21,C25"]),
    (r"core/ranker", ["core:C06", "engine:C09,C11,C21"]),
    (r"core/", ["core:C01,C02,C06", "engine:C09"]),
    (r"types/", ["core:C04,C06,C19", "engine:C09,C11,C24"]),
    (r"utils/", ["core:C06", "engine:C11,C21"]),
    (r"^store/|store_", ["store:C07,C08", "engine:C12,C13,C24,C25"]),
    (r"net/grpc/riot-pb", ["net:C22,C18"]),
    (r"net/heartb", ["net:C26"]),
    (r"net/http", ["net:C17,C23"]),
    (r"net/grpc", ["net:C18,C23"]),
    (r"net/", ["net:C17,C18,C23"]),
    (r"pinyin|segment|stop", ["engine:C15,C28,C20,C09,C12,C25,C21"]),
    (r"", ["engine:C09,C28,C11,C21,C24,C25,C12,C10,C15,C20"]),
]


def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def setup(root):
    os.makedirs(root)
    subprocess.run(["cp", "-a", "/repo", root + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/repo", root + "/up"], check=True)
    os.makedirs(root + "/verif")
    for x in ("harness", "corpus", "findings", "KNOWN_FINDINGS.txt", "run.sh"):
        subprocess.run(["cp", "-a", "/verif/" + x, root + "/verif/"], check=True)
    g = root + "/verif/harness/go.mod"
    s = open(g).read().replace("=> /repo", "=> " + root + "/repo")
    open(g, "w").write(s)
    subprocess.run(["cp", "-a", "/verif/harness/stub/gtinfo", root + "/gtinfo"], check=True)
    subprocess.run(["go", "mod", "edit", "-require", "github.com/go-vgo/gt/info@v0.0.0", "-replace", "github.com/go-vgo/gt/info=" + root + "/gtinfo"],
                   cwd=root + "/up", env=ENV, check=True)


def judge(root, m):
    f = m["file"]
    src = open("/repo/" + f, "rb").read()
    new = src[:m["from"]] + m["new"].encode() + src[m["to"]:]
    for d in ("/repo/", "/up/"):
        open(root + d + f, "wb").write(new)
    try:
        env = dict(ENV, GOFLAGS="-mod=mod")
        rc, out = sh(["go", "build", "./" + os.path.dirname(f)], root + "/up", 120, env)
        if rc:
            return "nobuild", out[-200:]
        rc, out = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./core", "./store"], root + "/up", 200, env)
        if rc:
            return "stable", ""
        groups = next(g for p, g in PROPS if re.search(p, f))
        venv = dict(ENV, GOFLAGS="-mod=readonly", VERIF_DIR=root + "/verif", GORACE="exitcode=0 halt_on_error=0", TMPDIR=root + "/tmp")
        shutil.rmtree(root + "/tmp", ignore_errors=True)
        os.makedirs(root + "/tmp")
        notes = []
        for full, g in [(f, g) for f in (0, 1) for g in groups]:
            cmd, props = g.split(":")
            bin = root + "/" + cmd
            flags = ["-race"] if cmd == "net" else []
            if not full:
              rc, out = sh(["go", "build", "-o", bin] + flags + ["./cmd/" + cmd], root + "/verif/harness", 300, venv)
              if rc:
                return "nobuild", out[-200:]
            if True:
                for p in props.split(","):
                    if p in ("C14", "C16"):
                        if not full:
                            continue
                        rc, out = sh([root + "/verif/run.sh", p, "quick"], root, 600, venv)
                    else:
                        rc, out = sh([bin, "-prop", p, "-tier", "quick", "-seed", "1"] + ["-checks", {"core": "300 4000", "engine": "40 400", "store": "10 60", "net": "4 15"}[cmd].split()[full]], root, 600, venv)
                    if rc == 1 and "VIOLATION property=" + p in out:
                        return "caught", p
                    if rc != 0:
                        notes.append(f"{p} rc={rc} {out[-150:]}")
        rc, out = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "100s", "-skip", "TestMem|TestDisk|TestCPU|TestPlatform", "."], root + "/up", 200, env)
        return "SURVIVED", ("roottests fail; " if rc else "") + " ".join(notes)
    finally:
        for d in ("/repo/", "/up/"):
            open(root + d + f, "wb").write(src)


def main():
    out, jobs, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    tool = "/tmp/w/mutator"
    subprocess.run(["go", "build", "-o", tool, "main.go"], cwd="/verif/tools/mutator", env=ENV, check=True)
    ms = [json.loads(l) for l in subprocess.run([tool] + files, cwd="/repo", capture_output=True, text=True, check=True).stdout.splitlines()]
    ms = [m for m in ms if not (m["kind"] == "negate" and m["old"].startswith("!"))]
    skip = os.environ.get("SKIP")  # functions that nothing uses
    ms = [m for m in ms if not (skip and re.fullmatch(skip, m["func"] or ""))]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["from"], d["to"], d["new"]))
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["from"], m["to"], m["new"]) not in done:
            q.put(m)
    if os.environ.get("SHUFFLE"):
        l = list(q.queue)
        random.Random(int(os.environ["SHUFFLE"])).shuffle(l)
        q.queue.clear()
        q.queue.extend(l)
    print(len(ms), "mutants", q.qsize(), "to do", flush=True)
    lock = threading.Lock()

    def work(i):
        root = f"/tmp/w/mt/{os.getpid()}-{i}"
        setup(root)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            t = time.time()
            try:
                m["result"], m["by"] = judge(root, m)
            except Exception as e:
                m["result"], m["by"] = "error", str(e)
            m["s"] = round(time.time() - t, 1)
            with lock:
                open(out, "a").write(json.dumps(m, ensure_ascii=False) + "\n")
        shutil.rmtree(root, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
