#!/usr/bin/env python3
"""Confirm planted bugs (seeded/<id>) in scratch copies of /repo; never touches /repo.

  seedtool.py <id>... [--check C01,C02] [--nocheck]   confirm (applies, builds, stable tests, demo), then run the
                                                     property's check (or those given) against the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def stable():
    t = BASE.get("stable") or BASE.get("passed") or BASE.get("tests")
    return set(t)


def run_tests(exe):
    p = sh([exe, "--gtest_color=no"], timeout=600)
    ok = set(re.findall(r"^\[       OK \] (\S+)", p.stdout, re.M))
    return ok


def one(sid, checks):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed-%s-" % sid, dir="/tmp")
    out = {"id": sid, "property": meta["property"]}
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("_build", ".git"))
        dd = os.path.join(w, "demo")
        shutil.copytree(d, dd)
        for f in os.listdir(dd):
            if f.endswith(".diff") or f == "meta.json":
                os.unlink(os.path.join(dd, f))
        p = sh(["bash", os.path.join(dd, "demo.sh")], cwd=r, timeout=300)
        out["demo_clean"] = p.returncode
        if p.returncode:
            out["demo_clean_out"] = p.stdout[-1500:]
        p = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=r)
        out["apply"] = p.returncode
        if p.returncode:
            out["err"] = p.stdout
            return out
        b = os.path.join(w, "b")
        p = sh(["cmake", "-S", r, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_FLAGS=-Wno-error"])
        p = sh(["ninja", "-C", b, "-j4"])
        out["build"] = p.returncode
        if p.returncode:
            out["err"] = p.stdout[-3000:]
            return out
        lines = ["#include <fstream>", '#include "sdd/sdd.hh"']
        for top in ("sdd/tools", "sdd/order/strategies"):
            for root, _, fs in os.walk(os.path.join(r, top)):
                for f in sorted(fs):
                    q = os.path.relpath(os.path.join(root, f), r)
                    if f.endswith(".hh") and q not in ("sdd/tools/js.hh", "sdd/tools/order.hh"):
                        lines.append('#include "%s"' % q)
        open(os.path.join(b, "all.cc"), "w").write("\n".join(lines) + "\n")
        p = sh(["g++", "-std=c++1y", "-I.", "-w", "-fsyntax-only", os.path.join(b, "all.cc")], cwd=r)
        out["headers"] = p.returncode
        try:
            ok = run_tests(os.path.join(b, "tests", "tests"))
        except subprocess.TimeoutExpired:
            ok = set()
        out["tests_missing"] = sorted(stable() - ok)[:5]
        p = sh(["bash", os.path.join(dd, "demo.sh")], cwd=r, timeout=300)
        out["demo_patched"] = p.returncode
        out["demo_out"] = p.stdout[-300:]
        out["confirmed"] = (out["demo_clean"] == 0 and out["demo_patched"] != 0 and not out["tests_missing"]
                            and out["headers"] == 0)
        shutil.rmtree(b, ignore_errors=True)
        for c in (checks if checks is not None else [meta["property"]]):
            env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=os.path.join(w, "vb"), VERIF_SEED="1",
                       VERIF_EVIDENCE=os.path.join(w, "ev"))
            p = sh([sys.executable, os.path.join(V, "check.py"), c, "quick"], env=env)
            what = p.stdout.strip().splitlines()
            out["check_" + c] = {"exit": p.returncode, "head": what[0][:200] if what else "",
                                 "what": " | ".join(what[1:6])[:500]}
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = None
    for a in sys.argv[1:]:
        if a.startswith("--check="):
            checks = a.split("=")[1].split(",")
        if a == "--nocheck":
            checks = []
    if args == ["all"]:
        args = sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(3) as ex:
        for o in ex.map(lambda s: one(s, checks), args):
            c = {k: v for k, v in o.items() if k.startswith("check_")}
            flag = "CONFIRMED" if o.get("confirmed") else "NOT-CONFIRMED"
            print("==", o["id"], flag, " ".join("%s:%s" % (k[6:], {0: "MISSED", 1: "caught"}.get(v["exit"], "ERR")) for k, v in c.items()))
            print(json.dumps(o, indent=1)[:2500] if ("-v" in sys.argv or not o.get("confirmed") or any(v["exit"] != 1 for v in c.values())) else "", flush=True)


main()
