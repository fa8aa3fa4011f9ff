"""What each check runs. Scales are multiples of the harness' base trial counts."""

HW = ("x86 (64-bit; some workloads also 32-bit) with SSE2 and AVX2; the NEON code, in some workloads, with its intrinsics "
      "in plain Rust, or as WebAssembly")
HW64 = "64-bit x86 with SSE2 and AVX2: the NEON, 32-bit and wasm32 paths are not executed"
HARN = "the harness' own format, layout and colour model (written from the documentation and ITU-R BT.601/709)"


def simple(cmd, quick, thorough, variant="rel", extra=(), w32=None, neon=None, wasm=None):
    """w32, neon, wasm: scale of the quick tier's run of the same workload in a 32-bit process, with NEON, as
    WebAssembly, if any"""
    def f(r, tier):
        q = tier == "quick"
        if q:
            r.run(variant, cmd, ["--scale", quick, "--max-secs", 240] + list(extra))
        else:
            r.run(variant, cmd, ["--scale", thorough, "--max-secs", 2400] + list(extra), timeout=3600)
        for variant2, k in (("rel32", w32), ("neon", neon), ("wasm", wasm), ("native", None), ("small", None), ("chk", None)):
            if not q or k:
                k = k or quick
                r.run_other(variant2, cmd, ["--scale", k if q else k * 10, "--max-secs", 150 if q else 1200] + list(extra),
                            timeout=600 if q else 2400, seed=r.seed + 2000003)
    return f


def c01(r, tier):
    q = tier == "quick"
    r.run("rel", "c01", ["--scale", 8 if q else 400, "--max-secs", 240 if q else 2400], timeout=600 if q else 3600)
    if r.fallback:
        return
    r.run("asan", "c01", ["--scale", 0.5 if q else 40, "--heap", 1, "--max-secs", 200 if q else 2400], timeout=600 if q else 3600,
          seed=r.seed + 1000003)
    for v in ("rel32", "neon") if q else ("rel32", "neon", "native", "small", "chk"):
        r.run_other(v, "c01", ["--scale", 3 if q else 60, "--max-secs", 150 if q else 1200], timeout=600 if q else 2400,
                    seed=r.seed + 2000003)
    r.run_memcheck("acc", ["--scale", 16 if q else 200, "--max-secs", 100 if q else 1200], timeout=600 if q else 2400)


def c02(r, tier):
    q = tier == "quick"
    simple("c02", 8, 300, neon=4)(r, tier)
    r.run_memcheck("def", ["--scale", 16 if q else 200, "--max-secs", 100 if q else 1200], timeout=600 if q else 2400)


def c04(r, tier):
    q = tier == "quick"
    r.run("chk", "c04", ["--scale", 6 if q else 300, "--max-secs", 200 if q else 1500], timeout=600 if q else 3600)
    r.run("rel", "c04", ["--scale", 4 if q else 300, "--max-secs", 200 if q else 1500], timeout=600 if q else 3600,
          seed=r.seed + 1000003)
    for v in ("chk32",) if q else ("chk32", "neonchk", "native", "small"):
        r.run_other(v, "c04", ["--scale", 3 if q else 60, "--max-secs", 150 if q else 1200], timeout=600 if q else 2400,
                    seed=r.seed + 2000003)


def c12(r, tier):
    q = tier == "quick"
    for v, k, extra in (("capi", 5, []), ("capichk", 2, []), ("capiasan", 0.5, ["--heap", 1])):
        r.run(v, "c12", ["--scale", k if q else k * 60, "--max-secs", 150 if q else 1200] + extra,
              timeout=600 if q else 2400, seed=r.seed + int(1000003 * k))
    r.run_other("capi32", "c12", ["--scale", 1 if q else 60, "--max-secs", 100 if q else 1200], timeout=600 if q else 2400,
            seed=r.seed + 2000003)


def c21(r, tier):
    q = tier == "quick"
    r.run("capi", "c21", ["--children", 2500 if q else 60000, "--max-secs", 200 if q else 2000], timeout=600 if q else 3600)
    r.run("capichk", "c21", ["--children", 500 if q else 10000, "--max-secs", 100 if q else 1000], timeout=600 if q else 3600,
          seed=r.seed + 1000003)


def c13(r, tier):
    q = tier == "quick"
    r.run("rel", "c13", ["--scale", 1.5, "--max-secs", 240] if q else ["--scale", 60, "--deep", 1, "--max-secs", 2400],
          timeout=600 if q else 3600)
    r.run("tsan", "c13", ["--races", 1, "--scale", 4 if q else 400, "--max-secs", 120 if q else 1200],
          timeout=600 if q else 3600)


def c14(r, tier):
    """Histories in several processes; equal keys must have equal outcomes in all of them"""
    import os
    q = tier == "quick"
    work = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "work")
    seen, records, merged = {}, 0, 0
    envs = [{}, {"LANG": "tr_TR.UTF-8", "TZ": "Asia/Tokyo"}, {"RUST_BACKTRACE": "1", "MALLOC_PERTURB_": "165"},
            {"OMP_NUM_THREADS": "1", "GLIBC_TUNABLES": "glibc.malloc.arena_max=1"}]
    n = 6 if q else 60
    for i in range(n):
        log = os.path.join(work, "c14-%d.log" % i)
        keys = ["--keys-seed", r.seed * 1000 + i // 3, "--keys", 1000 if q else 3000]
        r.run("rel", "c14", keys + ["--log", log, "--threads", [8, 1, 5][i % 3], "--scale", 5 if q else 20,
                                    "--max-secs", 60 if q else 900]
              # very many tiny calls: 2^24 on one thread and 2^27 in a process, thorough 2^29 and 2^32
              + (["--dense", 17_000_000 if q else 540_000_000, "--returns", [900, 400][i] if q else 6000] if i < 2 else [])
              + ([] if q else ["--deep", 1]),
              env=envs[i % 4], seed=r.seed * 100 + i, timeout=600 if q else 1200)
        for line in open(log):
            k, d, times, at = line.split()
            records += int(times)
            old = seen.setdefault((i // 3, int(k)), (d, i, at))
            if old[1] != i:
                merged += 1
            if old[0] != d:
                r.fail_plan("call %s (keys %d) had outcome %s in process %d (at %s) and %s in process %d (at %s)"
                            % (k, r.seed * 1000 + i // 3, old[0], old[1], old[2], d, i, at), tier)
        os.remove(log)
    # counters that overflow panic in this build
    r.run("chk", "c14", ["--keys-seed", r.seed, "--keys", 100, "--firsts", 0, "--scale", 0.05, "--max-secs", 60 if q else 600,
                         "--dense", 2_000_000 if q else 100_000_000], timeout=600 if q else 1200)
    r.cov["offline_checker"] = {"log_records": records, "keys": len(seen), "cross_process_comparisons": merged}


def c15(r, tier):
    q = tier == "quick"
    # a conversion of a few billion samples may take long on a slow machine: not a hang
    r.run("rel", "c15", ["--scale", 3, "--max-secs", 400] if q else ["--scale", 200, "--deep", 1, "--max-secs", 6000],
          timeout=780 if q else 7200)


def c16(r, tier):
    q = tier == "quick"
    r.run("rel", "c16", ["--scale", 2, "--max-secs", 300] if q else ["--scale", 100, "--deep", 1, "--max-secs", 2400],
          timeout=780 if q else 3600)


def c22(r, tier):
    """The same calls in programs built for several targets and in several ways; equal calls must have equal outcomes"""
    import os
    q = tier == "quick"
    work = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "work")
    first = ["chk", "rel32", "neon", "wasm"]
    seen, compared, builds = {}, {}, []
    for v in ["rel"] + first + ([] if q else ["small", "native", "chk32", "neonchk"]):
        args = ["--scale", 5 if q else 100, "--max-secs", 60 if q else 900]
        actual = r.binary(v)[1] if v in ("rel", "chk") else v
        if actual.startswith("isets"):
            args += ["--sets", "default"]
        log = os.path.join(work, "C22-c22-%s.log" % actual)
        if os.path.exists(log):
            os.remove(log)
        (r.run if v in ("rel", "chk") else r.run_other)(v, "c22", args)
        if not os.path.exists(log):
            continue
        builds.append(v)
        for line in open(log):
            if not line.startswith("=c22 "):
                continue
            phase, idx, key, a, b = line.split()[1:]
            at = (int(phase), int(idx))
            if a != b:
                r.fail_at("default and portable code differ in build %s" % v, v, "c22", args, at)
            old = seen.setdefault((at, key), (a, v))
            if old[1] != v:
                compared[v] = compared.get(v, 0) + 1
            if old[0] != a:
                r.fail_plan("call %d of phase %d, the same in both, had outcome %s in build %s and %s in build %s: %s"
                            % (at[1], at[0], old[0], old[1], a, v, r.case_of(v, "c22", args, at)), tier)
        os.remove(log)
    r.cov["offline_checker"] = {"builds": builds, "calls": len(seen), "comparisons": compared}


LAYOUT = ("random cases over all documented format pairs, plane counts, sizes, strides, buffer placements and contents; "
          "distinct = signature of (instruction set, formats, color spaces, plane counts, width up to 200, height up to 9, "
          "stride padding classes, end-of-buffer placement)")

PLANS = {
    "C01": {"run": c01, "rule": LAYOUT + "; each slice ends (or starts) at an inaccessible page or is an exact heap block "
            "under AddressSanitizer; sources are read-only mappings", "assumptions": [HW]},
    "C02": {"run": c02, "rule": LAYOUT, "assumptions": [HW, HARN]},
    "C03": {"run": simple("c03", 8, 300, w32=2, wasm=1), "rule": LAYOUT + "; valid cases with one to three rules broken, and arbitrary tuples",
            "assumptions": [HW, HARN]},
    "C04": {"run": c04, "rule": LAYOUT + "; hostile values for every argument", "assumptions": [HW]},
    "C05": {"run": simple("c05", 6, 200), "rule": "every 24-bit color, in scrambled order and varying image shapes, for each source "
            "layout, color space and instruction set, plus random layouts; distinct = image/configuration pairs",
            "assumptions": [HW, HARN]},
    "C06": {"run": simple("c06", 6, 200), "rule": "every (Y,Cb,Cr) triple for each color space, destination and instruction set in "
            "scrambled order, plus random layouts; distinct = image/configuration pairs", "assumptions": [HW, HARN]},
    "C07": {"run": simple("c07", 8, 300), "rule": LAYOUT, "assumptions": [HW, HARN]},
    "C08": {"run": simple("c08", 8, 300, w32=2, neon=3), "rule": LAYOUT + "; each case runs on every instruction set and the outcomes are compared; "
            "all colors compared as well", "assumptions": [HW]},
    "C09": {"run": simple("c09", 8, 300, neon=3), "rule": LAYOUT + "; each case is converted in several layouts and cropped at random and "
            "exhaustive positions", "assumptions": [HW, HARN]},
    "C10": {"run": simple("c10", 6, 200, w32=4), "rule": "all formats x plane counts x small sizes, random and extreme sizes and strides; "
            "distinct = (format, planes, width class, stride class)", "assumptions": [HW, HARN]},
    "C11": {"run": simple("c11", 5, 200, wasm=0.5), "rule": LAYOUT + "; each picture is converted through every equivalent format",
            "assumptions": [HW, HARN]},
    "C12": {"run": c12, "rule": LAYOUT + "; each call made through a shim compiled against the public C header; hostile calls: "
            "distinct = (kind, enum values, plane counts, error pointer)", "assumptions": [HW]},
    "C13": {"run": c13, "rule": "one schedule per process: first calls suspended before every instruction, pairs of suspensions, conversions "
            "suspended at many instructions, free-running races; distinct = (suspension address, outcome of the other thread, calls)",
            "assumptions": [HW64, "suspensions are sequentially consistent: reorderings by the processor only appear in free-running races and ThreadSanitizer"]},
    "C14": {"run": c14, "rule": "random histories biased to calls that differ in one attribute, very many repetitions of tiny calls, calls in thread-local destructors, "
            "during unwinding and at exit; distinct = ordered pairs of successive calls",
            "assumptions": [HW64]},
    "C15": {"run": c15, "rule": "random conversions with rows at distances up to 2^40 bytes; every conversion on every set with rows of more "
            "than 2^32 bytes and images with more than 2^30 rows; distinct = (set, formats, size class of the strides, width)",
            "assumptions": [HW64, HARN, "compact conversions are right (C05, C06, C17, C19)"]},
    "C16": {"run": c16, "rule": "one process per machine: all combinations of vendor, last leaf, SSE2, AVX2 and operating system support, "
            "and random machines; distinct = feature combinations", "assumptions": [HW64, "answering CPUID and XGETBV under single-stepping "
            "stands for running on that machine"]},
    "C17": {"run": simple("c17", 3, 100, neon=1), "rule": "block sums and random pictures for every 4:2:0 conversion; distinct = case signatures",
            "assumptions": [HW, HARN]},
    "C18": {"run": simple("c18", 1, 20), "rule": "every 24-bit color through each color space and layout triple on every instruction set; "
            "distinct = (chunk of 65536 colors, configuration)", "assumptions": [HW]},
    "C19": {"run": simple("c19", 10, 300, wasm=1), "rule": LAYOUT, "assumptions": [HW, HARN]},
    "C20": {"run": simple("c20", 4, 100), "rule": "all colors and their upper neighbours, all (Y,Cb,Cr) triples and their upper luma "
            "neighbours, random grey pictures; distinct = (slice of the color cube, configuration)", "assumptions": [HW]},
    "C22": {"run": c22, "rule": LAYOUT + "; hostile calls and size queries; compared: calls whose description is the same in several builds",
            "assumptions": ["the NEON intrinsics in plain Rust stand for aarch64, WebAssembly in Node for wasm32"]},
    "C21": {"run": c21, "rule": "processes making rounds of the same calls, on one thread, a new one for each round or four, with random "
            "rounding modes; distinct = case signatures", "assumptions": [HW64, "what first uses keep is allowed: only growth in "
            "every later round is reported"]},
}

_MON = "Exploration: holds on every execution observed. "
META = {
    "C01": ("runtime monitoring: guard pages, canaries, AddressSanitizer and Valgrind memcheck around every slice", _MON +
            "Any access past a fenced slice end or start, or to a read-only source, faults in the very execution; accesses that jump "
            "over the fences into other mappings would be missed."),
    "C02": ("runtime monitoring: byte-exact before/after snapshots of all buffers, write-protected sources and padding, Valgrind memcheck", _MON +
            "Every byte of every destination buffer is compared with a documented-layout oracle of visible bytes; stores of the value "
            "already there are only seen where padding fills whole (write-protected) pages."),
    "C03": ("runtime monitoring: online oracle of documented result codes plus no-trace snapshot monitor", _MON +
            "Trusts the harness' reading of the documented rules; strides narrower than a row are unspecified."),
    "C04": ("runtime monitoring: panic, signal and watchdog monitors, overflow- and debug-checked build, hostile argument fuzzing", _MON +
            "Covers arithmetic overflow in optimised and checked builds."),
    "C05": ("runtime monitoring: exact-arithmetic oracle over all 2^24 colors", _MON +
            "All colors are enumerated per configuration; image positions and layouts are sampled."),
    "C06": ("runtime monitoring: exact-arithmetic oracle over all 2^24 YUV triples", _MON +
            "All triples are enumerated per configuration; image positions and layouts are sampled."),
    "C07": ("runtime monitoring: alpha monitor and differential executions with varied alpha", _MON),
    "C08": ("runtime monitoring: differential executions of every instruction set (forced by hook)", _MON +
            "x86, SSE2, AVX2 and default selection; NEON is not executable here."),
    "C09": ("runtime monitoring: metamorphic monitor over layouts (near, far, adjacent and shared planes) and crops", _MON),
    "C10": ("runtime monitoring: 128-bit size oracle and fenced conversions with exactly the reported sizes", _MON),
    "C11": ("runtime monitoring: differential executions across equivalent formats", _MON),
    "C12": ("runtime monitoring: differential executions of the C and Rust interfaces, fenced argument arrays, allocation ledger, AddressSanitizer and LeakSanitizer", _MON +
            "Argument arrays end at inaccessible pages; refused calls get plane pointers into inaccessible memory."),
    "C13": ("runtime monitoring: schedules controlled by single-stepping (suspension before every instruction of a first call), race stress in fresh processes, ThreadSanitizer", _MON +
            "All single suspensions of the chosen first calls are enumerated; other schedules are sampled. ThreadSanitizer does not see 32-byte vector accesses."),
    "C14": ("runtime monitoring: event log of call outcomes under random histories, offline equal-key checker across processes", _MON),
    "C15": ("runtime monitoring: differential executions in sparse and repeated mappings of up to 2^41 bytes with inaccessible gaps", _MON +
            "Samples are compared at chosen places around powers of two and ends, and through the repeated memory elsewhere."),
    "C16": ("runtime monitoring: single-stepped processes with CPUID/XGETBV answered from a table, instruction-trace monitor, differential bytes", _MON +
            "The table of feature combinations is enumerated, other machines are sampled. Instructions of the conversions are classified on samples."),
    "C17": ("runtime monitoring: exact block-mean oracle and replicated-chroma differential monitor", _MON),
    "C18": ("runtime monitoring: round-trip monitor over all 2^24 colors", _MON),
    "C19": ("runtime monitoring: byte-permutation oracle", _MON),
    "C20": ("runtime monitoring: order and range monitors over all colors and triples", _MON),
    "C22": ("runtime monitoring: event logs of the same calls in programs for several targets (x86-64, i686, NEON, WebAssembly), offline equal-call checker", _MON +
            "Calls whose arguments depend on the word size are not compared."),
    "C21": ("runtime monitoring: processor control registers compared around each call; ledgers of memory, files, threads and mappings over "
            "rounds of calls; process state and output compared at the end", _MON),
}
