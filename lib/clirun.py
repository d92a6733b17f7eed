"""Runs the command line tool in scratch directories and records what each run
left behind. It decides nothing."""
import os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

import vlib

CLI = os.path.join(vlib.HARNESS, "target-cli", "debug", "layout")


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & 0xFFFFFFFFFFFFFFFF
    return "%016x-%d" % (h, len(b))


def look(p):
    if os.path.isdir(p):
        return ["directory"]
    try:
        return [fnv(open(p, "rb").read())]
    except OSError:
        return []


# No text in any of them.
NOTEXT = [b"digraph { \xff\xfe }", b"digraph { a [label=\"\xe9\"] }", b"digraph { a }\xc3", b"digraph { a // \xff\n }",
          b"\xff\xfed\x00i\x00", b"digraph { \"\xed\xa0\x80\" }", b"digraph { /* \xc0\x80 */ a }"]


def spelled(w, src, dst):
    """The word of a command line with the real names of the files."""
    if w == "IN":
        return src
    return w[:-3] + dst if w.endswith("OUT") else w


def listing(d):
    return {os.path.relpath(os.path.join(at, f), d) for at, ds, fs in os.walk(d) for f in ds + fs}


def one(root, case):
    d = tempfile.mkdtemp(dir=root)
    try:
        os.mkdir(os.path.join(d, "sub"))
        names = case["names"]
        src, dst = os.path.join(d, names["IN"]), os.path.join(d, names["OUT"])
        if case["in"] == "text":
            open(src, "wb").write("".join(case["text"]).encode())
        elif case["in"] == "dir":
            os.mkdir(src)
        elif case["in"] == "bytes":
            open(src, "wb").write(NOTEXT[case["id"] % len(NOTEXT)])
        if case["dst"] == "old":
            open(dst, "wb").write(b"old content " * 4000)
        elif case["dst"] == "dir":
            os.mkdir(dst)
        before, there = look(dst), listing(d)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("RUST_", "CLAP"))}
        spell = [os.path.join(d, n) if case["abs"] else n for n in (names["IN"], names["OUT"])]
        try:
            p = subprocess.run([CLI] + [spelled(w, *spell) for w in case["args"]], cwd=d, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            code, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            code, out, err = -1000, b"", b""
        others = (listing(d) ^ there) - {os.path.relpath(dst, d)}
        msg = case["lib"].get("err", "")
        return {"code": code, "before": before, "after": look(dst), "stdout": out.decode(errors="replace"),
                "said": bool(out or err), "named": bool(msg) and msg.encode() in err + out, "others": bool(others)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(cases):
    root = tempfile.mkdtemp(prefix="lv-cli-")
    try:
        with ThreadPoolExecutor(vlib.NCPU) as ex:
            return list(ex.map(lambda c: one(root, c), cases))
    finally:
        shutil.rmtree(root, ignore_errors=True)
