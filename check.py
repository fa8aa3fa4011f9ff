#!/usr/bin/env python3
"""Driver of the checks: check.py <property id> [--replay FILE]

Builds the monitored harness from /repo's current working tree, runs the workloads of one
property, interprets what the monitors saw, writes evidence/<id>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not decide.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plans  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
WORK = os.path.join(HERE, "work")
TARGET = os.path.join(HERE, "target")
HOST = "x86_64-unknown-linux-gnu"
CFG = "--cfg dcp_verif"
T32 = "i686-unknown-linux-gnu"
# 32-bit programs: standard library built from source, linked against the run-time libraries
FLAGS32 = CFG + " -C relocation-model=static -C linker=" + os.path.join(HERE, "lib", "m32", "ld32.sh")


class Fault(Exception):
    pass


class Undecided(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


def log(*a):
    print("[check]", *a, flush=True)


# ------------------------------------------------------------------------------ builds
VARIANTS = {
    # name: (toolchain args, cargo args, RUSTFLAGS, binary directory)
    "rel": ([], ["--release"], CFG, "release"),
    "chk": ([], ["--profile", "checked"], CFG, "checked"),
    "capi": ([], ["--release", "--features", "capi"], CFG, "release"),
    "capichk": ([], ["--profile", "checked", "--features", "capi"], CFG, "checked"),
    "plain": ([], ["--release"], "", "release"),
    # compiled for this very processor, or for size: other code for the same source
    "native": ([], ["--release"], CFG + " -Ctarget-cpu=native", "release"),
    "small": ([], ["--release", "--config", 'profile.release.opt-level="z"'], CFG, "release"),
    "asan": (["+nightly"], ["--release", "--target", HOST], "-Zsanitizer=address " + CFG, HOST + "/release"),
    "capiasan": (["+nightly"], ["--release", "--features", "capi", "--target", HOST],
                 "-Zsanitizer=address " + CFG, HOST + "/release"),
    "tsan": (["+nightly"], ["--release", "--target", HOST, "-Zbuild-std"],
             "-Zsanitizer=thread " + CFG, HOST + "/release"),
    "rel32": ([], ["--release", "--target", T32, "-Zbuild-std"], FLAGS32, T32 + "/release"),
    "chk32": ([], ["--profile", "checked", "--target", T32, "-Zbuild-std"], FLAGS32, T32 + "/checked"),
    "capi32": ([], ["--release", "--features", "capi", "--target", T32, "-Zbuild-std"], FLAGS32, T32 + "/release"),
    # the aarch64 side of the crate on this machine, its intrinsics in plain Rust (lib/neon)
    "neon": ([], ["--release"], CFG, "release"),
    "neonchk": ([], ["--profile", "checked"], CFG, "checked"),
    # a WebAssembly module for Node (lib/wasm)
    "wasm": ([], ["--release", "--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_abort"], CFG, "wasm32-unknown-unknown/release"),
    # used only when the hooked crate no longer compiles
    "isets": ([], ["--release", "--features", "isets"], "", "release"),
    "isetschk": ([], ["--profile", "checked", "--features", "isets"], "", "checked"),
    "plaincapi": ([], ["--release", "--features", "capi"], "", "release"),
    "plaincapichk": ([], ["--profile", "checked", "--features", "capi"], "", "checked"),
    "plainasan": (["+nightly"], ["--release", "--target", HOST], "-Zsanitizer=address", HOST + "/release"),
    "plaincapiasan": (["+nightly"], ["--release", "--features", "capi", "--target", HOST],
                      "-Zsanitizer=address", HOST + "/release"),
    "plaintsan": (["+nightly"], ["--release", "--target", HOST, "-Zbuild-std"],
                  "-Zsanitizer=thread", HOST + "/release"),
}


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/src", REPO + "/include", HARNESS + "/src", os.path.join(HERE, "lib")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for p in (REPO + "/Cargo.toml", HARNESS + "/Cargo.toml", HARNESS + "/build.rs"):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:12]


def neon_crate(tdir):
    """A copy of the crate that takes this machine for an aarch64 one"""
    crate, har = os.path.join(tdir, "crate"), os.path.join(tdir, "harness")
    for d in (crate, har):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(har)
    shutil.copytree(REPO + "/src", crate + "/src")
    with open(REPO + "/Cargo.toml") as fh:
        t = fh.read()
    with open(crate + "/Cargo.toml", "w") as fh:
        fh.write(re.sub(r"(?ms)^\[\[(bench|test|example|bin)\]\].*?(?=^\[|\Z)", "", t))
    for d, _, fs in os.walk(crate + "/src"):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                with open(p) as fh:
                    t = fh.read()
                t = re.sub(r'target_arch\s*=\s*"aarch64"', "not(dcp_never)", t)
                t = re.sub(r'target_arch\s*=\s*"x86(_64)?"', "dcp_never", t)
                t = re.sub(r"\b(core|std)::arch::(aarch64|is_aarch64_feature_detected)\b",
                           lambda m: "crate::emu" + ("" if m[2] == "aarch64" else "::" + m[2]), t)
                t = re.sub(r'#\[target_feature\(enable\s*=\s*"neon"\)\]', "", t)
                if p == crate + "/src/lib.rs":
                    t += "\nmod emu;\n"
                with open(p, "w") as fh:
                    fh.write(t)
    shutil.copy(os.path.join(HERE, "lib", "neon", "emu.rs"), crate + "/src/emu.rs")
    for f in ("src", "build.rs"):
        os.symlink(os.path.join(HARNESS, f), os.path.join(har, f))
    shutil.copy(HARNESS + "/Cargo.lock", har)
    with open(HARNESS + "/Cargo.toml") as fh:
        t = fh.read()
    with open(har + "/Cargo.toml", "w") as fh:
        fh.write(t.replace('path = "/repo"', 'path = "../crate"'))
    return har


def wasm_crate(tdir):
    """The harness as a library, its dependencies all at hand: vendored by the standard library, or patched"""
    har = os.path.join(tdir, "harness")
    shutil.rmtree(har, ignore_errors=True)
    os.makedirs(har + "/bindgen/src")
    with open(har + "/bindgen/Cargo.toml", "w") as fh:
        fh.write('[package]\nname = "wasm-bindgen"\nversion = "0.2.130"\n')
    open(har + "/bindgen/src/lib.rs", "w").close()
    cargo = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    paste = sorted(glob.glob(cargo + "/registry/src/*/paste-1.*"))
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    vendor = sysroot + "/lib/rustlib/src/rust/library/vendor"
    if not paste or not os.path.isdir(vendor):
        raise Undecided("no sources to build for WebAssembly")
    os.symlink(os.path.join(HARNESS, "src"), har + "/src")
    for f in ("lib.rs", "fault.rs"):
        shutil.copy(os.path.join(HERE, "lib", "wasm", f), har)
    with open(har + "/Cargo.toml", "w") as fh:
        fh.write("""[package]
name = "dcpv"
version = "0.1.0"
edition = "2021"
autobins = false
[workspace]
[lib]
crate-type = ["cdylib"]
path = "lib.rs"
[dependencies]
dcv-color-primitives = { path = "%s" }
[patch.crates-io]
wasm-bindgen = { path = "bindgen" }
paste = { path = "%s" }
[profile.release]
opt-level = 3
""" % (REPO, paste[-1]))
    return har, ["--config", 'source.crates-io.replace-with="std"', "--config", 'source.std.directory="%s"' % vendor]


def build(variant):
    tc, args, flags, sub = VARIANTS[variant]
    tdir = os.path.join(TARGET, variant)
    stamp = os.path.join(tdir, "tree-hash")
    h = tree_hash()
    binary = os.path.join(tdir, sub, "dcpv" + (".wasm" if variant == "wasm" else ""))
    if os.path.exists(stamp) and os.path.exists(binary):
        if open(stamp).read() == h:
            return binary
    # modification times are not trusted: forget what was compiled from the tree
    if os.path.exists(stamp):
        os.remove(stamp)
    for d, _, _ in list(os.walk(tdir)):
        if os.path.basename(d) == ".fingerprint":
            for n in os.listdir(d):
                if n.startswith("dcv-color-primitives") or n.startswith("dcpv"):
                    shutil.rmtree(os.path.join(d, n))
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    if variant.endswith("32"):
        env.update(RUSTC_BOOTSTRAP="1", LD32_DIR=os.path.join(tdir, "l32"))
    cwd = neon_crate(tdir) if variant.startswith("neon") else HARNESS
    if variant == "wasm":
        env.update(RUSTC_BOOTSTRAP="1")
        cwd, more = wasm_crate(tdir)
        args = args + more
    t = time.time()
    r = subprocess.run(["cargo"] + tc + ["build", "--offline"] + args, cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        tail = "\n".join(r.stdout.splitlines()[-40:])
        raise Undecided("build of variant %s failed:\n%s" % (variant, tail))
    with open(stamp, "w") as f:
        f.write(h)
    log("built %s in %.1fs" % (variant, time.time() - t))
    return binary


# ------------------------------------------------------------------------------ runs
def read_page(path):
    try:
        d = open(path, "rb").read()
    except OSError:
        return None
    if len(d) < 64 + 32 * 64:
        return None
    sig, addr, slot, in_call, pc = struct.unpack("<5Q", d[:40])
    slots = [struct.unpack("<4Q", d[64 + 32 * i:96 + 32 * i]) for i in range(64)]
    return {"signal": sig, "addr": addr, "slot": slot, "in_call": in_call, "pc": pc, "slots": slots}


SIGS = {4: "SIGILL", 5: "a trap", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV"}


VALGRIND = ["valgrind", "-q", "--tool=memcheck", "--partial-loads-ok=no", "--error-limit=no"]


def command(binary, variant):
    if variant == "wasm":
        return ["node", os.path.join(HERE, "lib", "wasm", "run.mjs"), binary]
    return VALGRIND + [binary] if variant == "memcheck" else [binary]


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "runs": []}
        self.fallback = None
        os.makedirs(WORK, exist_ok=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    def binary(self, variant):
        if not self.fallback:
            try:
                return build(variant), variant
            except Undecided as e:
                # a tree where only the hook is broken is still judged through the crate's own
                # process-wide instruction set switch (and the default set elsewhere)
                log(str(e).splitlines()[0], "- trying without the hook")
                self.fallback = str(e)
        variant = {"rel": "isets", "chk": "isetschk"}.get(variant, "plain" + variant)
        return build(variant), variant

    def run(self, variant, cmd, args=(), env=None, timeout=600, seed=None):
        """Run one harness workload, merge its report, raise on a violation"""
        binary, v = self.binary(variant)
        if cmd in ("c13", "c14", "c16", "c21"):
            return self.run1(binary, v, cmd, args, env, timeout, seed)
        if v.startswith("isets") and "--sets" not in args and "--threads" not in args:
            args = list(args)
            if "--scale" in args:
                i = args.index("--scale") + 1
                args[i] = args[i] / 8
            if cmd == "c08":
                return self.run1(binary, v, cmd, args + ["--threads", 1], env, timeout, seed)
            for k in ("default", "x86", "sse2", "avx2"):
                rep = self.run1(binary, v, cmd, args + ["--sets", k], env, timeout, seed)
            return rep
        return self.run1(binary, v, cmd, args, env, timeout, seed)

    def run_other(self, variant, cmd, args=(), timeout=600, seed=None):
        """The same workload for another target, where a program for it can be built and started"""
        if self.fallback:
            return
        try:
            binary = build(variant)
            p = subprocess.run(command(binary, variant) + ["none", "--seed", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode != 2:
                raise Undecided("a program for it ends with status %d" % p.returncode)
        except (Undecided, OSError) as e:
            log("no run of %s:" % variant, str(e)[-600:])
            self.cov.setdefault("skipped", []).append("%s with %s: %s" % (cmd, variant, str(e).splitlines()[0]))
            return
        self.run1(binary, variant, cmd, args, None, timeout, seed)

    def run_memcheck(self, want, args, timeout=600, seed=None):
        """The release harness under Valgrind's memcheck, where that works"""
        if self.fallback:
            return
        binary = build("rel")
        try:
            p = subprocess.run(VALGRIND + [binary, "none"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode != 2:
                raise OSError("ends with status %d" % p.returncode)
        except OSError as e:
            log("no run under Valgrind:", str(e))
            self.cov.setdefault("skipped", []).append("Valgrind: %s" % e)
            return
        self.run1(binary, "memcheck", "vg", ["--want", want, "--threads", 1] + list(args), None, timeout, seed)

    def run1(self, binary, variant, cmd, args, env, timeout, seed):
        try:
            return self.run2(binary, variant, cmd, args, env, timeout, seed)
        except Fault as f:
            log("retrying: %s" % f)
        # Memory of the harness itself is damaged, again and again, by something: calls are all
        # that can write beyond what the harness owns (or release it twice)
        try:
            return self.run2(binary, variant, cmd, args, env, timeout, seed)
        except Fault as f:
            self.fail("memory was corrupted by earlier calls: %s" % f, variant, cmd, args, seed, None)

    def run2(self, binary, variant, cmd, args, env, timeout, seed):
        tag = "%s-%s-%s" % (self.pid, cmd, variant)
        crash, out = os.path.join(WORK, tag + ".crash"), os.path.join(WORK, tag + ".json")
        for p in (crash, out):
            if os.path.exists(p):
                os.remove(p)
        seed = self.seed if seed is None else seed
        argv = command(binary, variant) + [cmd, "--seed", str(seed), "--crash", crash, "--out", out] + [str(a) for a in args]
        e = dict(os.environ)
        e.update(env or {})
        if variant.endswith("asan"):
            e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=4096"
            argv += ["--handlers", "0"]
        if variant.endswith("tsan"):
            e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:abort_on_error=0:history_size=4"
            argv += ["--handlers", "0"]
        t = time.time()
        logf = os.path.join(WORK, tag + ".log")
        with open(logf, "w") as lf:
            p = subprocess.Popen(argv, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=WORK)
            stuck, since = None, None
            while True:
                try:
                    rc = p.wait(timeout=5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                page = read_page(crash)
                cur = [(i, s) for i, s in enumerate(page["slots"]) if s[0]] if page else []
                # a call (bounded work by construction) that lasts minutes does not return
                if stuck is not None:
                    stuck = [x for x in stuck if x in cur]
                if not stuck:
                    stuck, since = cur, time.time()
                hang = stuck and cmd != "c15" and time.time() - since > 150
                if hang or time.time() - t > timeout:
                    p.kill()
                    p.wait()
                    if hang:
                        i, s = stuck[0]
                        self.fail("a call does not return", variant, cmd, args, seed, (s[1], s[2]))
                    raise Undecided("workload %s did not finish in %d s" % (tag, timeout))
        text = open(logf, errors="replace").read()
        secs = time.time() - t
        if variant == "memcheck":
            if "unhandled instruction" in text or "nimplemented functionality" in text:
                log("Valgrind does not know an instruction")
                self.cov.setdefault("skipped", []).append("Valgrind: unknown instruction")
                return None
            m = re.search(r"(?s)(Invalid (?:read|write) of size \d+|points to unaddressable).*?ERRORS-IN (\d+):(\d+) ([^\n]*)", text)
            if m:
                self.fail("%s: %s" % (m[1], m[4]), variant, cmd, args, seed, (int(m[2]), int(m[3])))
        if rc in (0, 1):
            try:
                rep = json.load(open(out))
            except (OSError, ValueError):
                raise Undecided("workload %s left no report: %s" % (tag, text[-2000:]))
            self.merge(tag, rep, secs, args)
            if rep["violations"]:
                v = rep["violations"][0]
                self.fail(v["msg"], variant, cmd, args, seed, (v["phase"], v["idx"]))
            if rc == 1:
                raise Undecided("exit 1 without a violation from " + tag)
            return rep
        page = read_page(crash)
        if rc == 77 and page and page["signal"]:
            what = SIGS.get(page["signal"], "signal %d" % page["signal"])
            where = None
            if page["slot"] < 64:
                s = page["slots"][page["slot"]]
                where = (s[1], s[2])
            msg = "%s at address %#x (pc %#x)" % (what, page["addr"], page["pc"])
            if page["in_call"]:
                self.fail(msg + " inside the library", variant, cmd, args, seed, where)
            raise Fault(msg + " outside of any call " + text[-500:].strip())
        busy = [s for s in page["slots"] if s[0]] if page else []
        if variant.endswith("asan") and "ERROR: AddressSanitizer" in text:
            line = [x for x in text.splitlines() if "ERROR: AddressSanitizer" in x][0]
            where = (busy[0][1], busy[0][2]) if busy else None
            if busy or "dcv_color_primitives" in text:
                self.fail(line.strip() + self.frames(text), variant, cmd, args, seed, where)
        if variant.endswith("asan") and "LeakSanitizer" in text:
            self.fail("LeakSanitizer: memory leaked" + self.frames(text), variant, cmd, args, seed, None)
        if variant.endswith("tsan") and "WARNING: ThreadSanitizer" in text:
            line = [x for x in text.splitlines() if "WARNING: ThreadSanitizer" in x][0]
            if "dcv_color_primitives" in text:
                self.fail(line.strip() + self.frames(text), variant, cmd, args, seed, None)
        if rc < 0 and busy and rc != -9:
            self.fail("process ended by signal %d inside the library" % -rc, variant, cmd, args, seed,
                      (busy[0][1], busy[0][2]))
        raise Undecided("workload %s ended with status %d: %s" % (tag, rc, text[-3000:]))

    @staticmethod
    def frames(text):
        fr = [x.strip() for x in text.splitlines() if x.strip().startswith("#") and "dcv_color_primitives" in x]
        return " | " + " ".join(fr[:2]) if fr else ""

    def merge(self, tag, rep, secs, args=()):
        c = self.cov
        c["evaluations"] += rep["evaluations"]
        c["distinct_nontrivial"] += rep["distinct"]
        for s in rep["samples"]:
            if len(c["samples"]) < 8:
                c["samples"].append(s)
        c["runs"].append({"workload": tag, "seconds": round(secs, 1), "arguments": " ".join(map(str, args)),
                          "evaluations": rep["evaluations"], "distinct": rep["distinct"],
                          "truncated": rep.get("truncated", False), "monitored": rep["counters"],
                          "notes": rep.get("notes", [])})
        log("%s: %d evaluations, %d distinct, %.1fs" % (tag, rep["evaluations"], rep["distinct"], secs))

    def fail_at(self, msg, variant, cmd, args, at):
        self.fail(msg, variant, cmd, args, self.seed, at)

    def case_of(self, variant, cmd, args, at):
        """What the workload calls its trial `at`"""
        argv = command(build(variant), variant) + [cmd, "--seed", str(self.seed), "--only", "%d:%d" % at] + [str(a) for a in args]
        p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=WORK)
        return ([x[6:] for x in p.stdout.splitlines() if x.startswith("=case ")] or ["?"])[0]

    def fail_plan(self, msg, tier):
        raise Violation(msg, {"property": self.pid, "variant": tier, "command": "plan", "seed": self.seed,
                              "arguments": [], "trial": None, "what": msg})

    def fail(self, msg, variant, cmd, args, seed, where):
        replay = {"property": self.pid, "variant": variant, "command": cmd, "seed": seed,
                  "arguments": [str(a) for a in args], "trial": where, "what": msg}
        raise Violation(msg, replay)


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                body = line.split(" ", 2)[2]
                key, _, what = body.partition(" :: ")
                out.append((key.replace("key=", "", 1), what))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        r = Runner(pid, tier, rp["seed"])
        args = list(rp["arguments"])
        if rp["command"] == "plan":
            try:
                plans.PLANS[pid]["run"](r, rp["variant"])
            except Violation as v:
                print("reproduced:", v)
                return 1
            print("not reproduced")
            return 0
        if rp["trial"] and rp["trial"][1] < 1 << 62:
            args += ["--only", "%d:%d" % tuple(rp["trial"]), "--threads", "1"]
        try:
            if rp["variant"] == "memcheck":
                i = args.index("--want")
                r.run_memcheck(args[i + 1], args[:i] + args[i + 4:], seed=rp["seed"])
            else:
                (r.run_other if rp["variant"].endswith("32") or rp["variant"].startswith(("neon", "wasm", "native", "small")) else r.run)(rp["variant"], rp["command"], args, seed=rp["seed"])
        except Violation as v:
            print(open(os.path.join(WORK, "%s-%s-%s.log" % (pid, rp["command"], rp["variant"]))).read()[-3000:])
            print("reproduced:", v)
            return 1
        print("not reproduced")
        return 0
    t = time.time()
    r = Runner(pid, tier, seed)
    plan = plans.PLANS[pid]
    status, violations = 0, 0
    for key, what in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    try:
        plan["run"](r, tier)
    except Violation as v:
        if any(k and k in str(v) for k, _ in known_findings(pid)):
            log("known finding met:", str(v))
        else:
            path = os.path.join(WORK, "replay-%s.json" % pid)
            with open(path, "w") as f:
                json.dump(v.replay, f, indent=1)
            log(str(v))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            status, violations = 1, 1
    except Undecided as u:
        log("UNDECIDED:", str(u))
        status = 2
    cov = r.cov
    cov["rule"] = plan["rule"]
    if r.fallback:
        cov["hook"] = "not available in this tree: instruction sets switched process-wide instead"
    if not cov["samples"]:
        cov["samples"] = ["none"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t, 2), "violations": violations}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: exit %d in %.1fs" % (pid, tier, status, time.time() - t))
    return status


if __name__ == "__main__":
    sys.exit(main())
