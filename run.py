#!/usr/bin/env python3
"""Runs the check of one property:  python3 run.py C01   (VERIF_SEED, VERIF_TIER from the environment)

Compiles the property's monitor programs against /repo's working tree, runs them under
their sanitizers, judges what they observed and writes evidence/<id>.json.
Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken. Exit 2: no answer.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import checks  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1

BASE = ["g++", "-std=gnu++20", "-w", "-fmax-errors=3", "-ftemplate-depth=4000", "-fconstexpr-depth=4000", "-include", f"{HERE}/harness/prelude.h", f"-I{HERE}/harness", f"-I{REPO}/src"]
SAN = {
    "plain": [],
    "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"],
    "asan+ubsan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=97:detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:allocator_may_return_null=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="exitcode=66:halt_on_error=1:history_size=4:second_deadlock_stack=0")
COMPILE_TIMEOUT, RUN_TIMEOUT = 400, 240


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def call(cmd, timeout, pre=None, cwd=None):
    """(exit status or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, preexec_fn=pre, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", ""


def short(e):
    """the telling line of a compiler's output, which can be gigantic"""
    for line in e.splitlines():
        if re.search(r"\berror:|multiple definition of|undefined reference to", line):
            return re.sub(r"\s+", " ", line)[:400]
    return re.sub(r"\s+", " ", e[-400:])


class Problem(Exception):
    pass


class Run:
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.dir = tempfile.mkdtemp(prefix=f"{prop}-", dir=self.builddir())
        self.violations, self.stats, self.samples, self.notes = [], {}, [], []
        self.programs = []

    @staticmethod
    def builddir():
        d = os.path.join(HERE, "build")
        os.makedirs(d, exist_ok=True)
        return d

    def compile(self, p):
        src = os.path.join(self.dir, p.name + ".cpp")
        out = os.path.join(self.dir, p.name)
        with open(src, "w") as f:
            f.write(p.code)
        cmd = BASE + SAN[p.san] + p.flags + [src, "-o", out] + (["-pthread"] if p.san == "tsan" else [])
        if p.units:
            objects, err = self.compile_units(p)
            if err:
                return p, None, err
            cmd = [x for x in cmd if x != "-include" and not x.endswith("prelude.h")] + objects
        key = None
        if os.environ.get("VERIF_CACHE"):  # development only
            h = hashlib.sha256(" ".join(BASE + SAN[p.san] + p.flags).encode() + p.code.encode())
            for f in sorted(glob.glob(f"{REPO}/src/**/*", recursive=True) + glob.glob(f"{HERE}/harness/*")):
                if os.path.isfile(f):
                    h.update(f.replace(REPO, "").encode() + open(f, "rb").read())
            key = os.path.join(self.builddir(), "cache", h.hexdigest())
            if os.path.exists(key):
                return p, out if shutil.copy(key, out) else out, None
        for attempt in (1, 2) if not p.optional else (1,):
            rc, o, e = call(cmd, COMPILE_TIMEOUT if not p.optional else 150 if TIER == "quick" else COMPILE_TIMEOUT, limits(14), self.dir)
            if rc == 0:
                if key:
                    os.makedirs(os.path.dirname(key), exist_ok=True)
                    shutil.copy(out, key)
                return p, out, None
            if rc is not None and rc > 0 and re.search(r"\berror:|multiple definition of|undefined reference to", e) and not re.search(r"out of memory|Cannot allocate|virtual memory exhausted|fatal error: Killed|No space left|internal compiler error", e):
                if not p.optional or not re.search(r"depth|recursively required", e):
                    return p, None, short(e)
        if p.optional:  # too wide for the compiler here: not explored, and said so in the evidence
            self.notes.append(p.name)
            return p, None, None
        raise Problem(f"compiling {p.name} did not finish (status {rc}): {e[-300:]}")

    def compile_units(self, p):
        def one(unit):
            name, code, flags = unit
            src = os.path.join(self.dir, f"{p.name}_{name}.cpp")
            with open(src, "w") as f:
                f.write(code)
            cmd = ["g++", "-w", "-fmax-errors=3", f"-I{HERE}/harness", f"-I{REPO}/src"] + SAN[p.san] + flags + ["-c", src, "-o", src[:-4] + ".o"]
            for attempt in (1, 2):
                rc, o, e = call(cmd, COMPILE_TIMEOUT, limits(14), self.dir)
                if rc == 0:
                    return src[:-4] + ".o", None
                if rc is not None and rc > 0 and re.search(r"\berror:", e) and "internal compiler error" not in e and "out of memory" not in e:
                    return None, f"unit {name}: {short(e)}"
            raise Problem(f"compiling {p.name}_{name} did not finish (status {rc}): {e[-300:]}")
        with cf.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, p.units))
        return [o for o, _ in res], next((e for _, e in res if e), None)

    def execute(self, p, out):
        for attempt in (1, 2):
            rc, o, e = call(p.wrapper + [out, self.prop, str(p.seed), str(p.scale)], RUN_TIMEOUT * p.slow, None, self.dir)
            if rc is not None and "FATAL: ThreadSanitizer: unexpected memory mapping" in e:
                rc, o, e = call(["setarch", "-R"] + p.wrapper + [out, self.prop, str(p.seed), str(p.scale)], RUN_TIMEOUT * p.slow, None, self.dir)
                if "FATAL: ThreadSanitizer" in e or "DONE" not in o:
                    raise Problem("ThreadSanitizer cannot run here")
            if rc is not None:
                break
        return p, rc, o, e

    def judge(self, p, rc, o, e):
        done = False
        for line in o.splitlines():
            if line.startswith("V "):
                self.violations.append(f"[{p.name}] {line[2:]}")
            elif line.startswith("STAT "):
                _, k, n = line.split()
                self.stats[k] = self.stats.get(k, 0) + int(n)
            elif line.startswith("SAMPLE "):
                self.samples.append(line[7:])
            elif line.startswith("MODEL-ERROR"):
                raise Problem(f"{p.name}: {line}")
            elif line == "DONE":
                done = True
        if rc is None:
            self.violations.append(f"[{p.name}] hangs: not finished after {RUN_TIMEOUT * p.slow} s, twice")
            return
        report = None
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|==\d+== (?:Invalid|Conditional|Use of uninit|Syscall param|Mismatched|Source and dest)[^\n]*|==\d+==\s+definitely lost: [1-9][^\n]*|ERROR SUMMARY: [1-9][^\n]*)", e)
        if m:
            frames = re.findall(r"#\d+ [^\n]*?(?:/repo/|pigro/)[^\n]*", e)
            report = re.sub(r"\s+", " ", m.group(1))[:300] + (" at " + re.sub(r"\s+", " ", frames[0])[-200:] if frames else "")
        if report:
            self.violations.append(f"[{p.name}] sanitizer: {report}")
            self.log = e[-20000:]
        elif not done or rc != 0:
            self.violations.append(f"[{p.name}] the program ended with status {rc} before its workload was done: {re.sub(chr(10), ' ', e[-300:])}")

    def sanity(self):
        """the tool chain and the harness themselves work"""
        f = os.path.join(self.dir, "sanity.cpp")
        with open(f, "w") as h:
            h.write('#include "types.h"\nint main(int c, char **v) { mon::begin(c, v); return lm::dec(lm::make<std::string>(3, 0)) == 3 ? mon::end() : 1; }\n')
        rc, o, e = call(BASE + SAN["asan"] + [f, "-o", f[:-4]], COMPILE_TIMEOUT, limits(14))
        if rc != 0:
            raise Problem("the harness does not compile on its own: " + short(e))
        rc, o, e = call([f[:-4], self.prop, "1", "1"], 60)
        if rc != 0 or "DONE" not in o:
            raise Problem("the harness does not run on its own: " + e[-300:])

    def go(self):
        self.programs = checks.programs(self.prop, SEED, TIER)
        if not os.path.isdir(f"{REPO}/src/pigro"):
            raise Problem(f"{REPO}/src/pigro is not there")
        rejected, built = [], []
        with cf.ThreadPoolExecutor(8) as ex:
            for fut in cf.as_completed([ex.submit(self.compile, p) for p in self.programs]):
                p, out, err = fut.result()
                if out or err:
                    (built if out else rejected).append((p, out, err))
        if rejected:
            self.sanity()
            for p, _, err in rejected:
                self.violations.append(f"[{p.name}] a program the property covers is rejected by the compiler: {err}")
        with cf.ThreadPoolExecutor(4 if any(p.san == "tsan" for p in self.programs) else 8) as ex:
            for fut in cf.as_completed([ex.submit(self.execute, p, out) for p, out, _ in built]):
                self.judge(*fut.result())
        if not self.violations:
            for k in checks.REQUIRED.get(self.prop, []) + ["evaluations", "distinct"]:
                if not self.stats.get(k):
                    raise Problem(f"nothing observed: no {k}")

    def known(self):
        """findings recorded as not repaired: lines  'finding: property=<id> match=<text> :: <what fails>'"""
        res = []
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3)))
        return res

    def evidence(self, nviol):
        st = dict(self.stats)
        ev = st.pop("evaluations", 0)
        di = st.pop("distinct", 0)
        rng = sorted(self.samples)
        cov = dict(evaluations=ev, distinct_nontrivial=di, rule=checks.RULES[self.prop],
                   samples=rng[:: max(1, len(rng) // 8)][:8] or ["none"],
                   monitor_programs=len(self.programs), builds=sorted({p.san + ("" if not p.wrapper else "+" + os.path.basename(p.wrapper[0])) for p in self.programs}),
                   observed=st, not_compiled_in_time=self.notes)
        d = dict(property=self.prop, tier=TIER, seed=SEED, level="exploration", coverage=cov,
                 assumptions=checks.ASSUMPTIONS, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)

    def main(self):
        try:
            try:
                self.go()
            except Problem as e:
                if not self.violations:
                    print(f"NO ANSWER property={self.prop}: {e}")
                    self.evidence(0)
                    return 2
            fresh, seen = [], set()
            for v in self.violations:
                hit = next((t for k, t in self.known() if k in v), None)
                if hit is None:
                    fresh.append(v)
                elif hit not in seen:
                    seen.add(hit)
                    print(f"KNOWN-FINDING: property={self.prop} {hit}")
            self.evidence(len(fresh))
            if fresh:
                d = os.path.join(HERE, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, f"{self.prop}-{TIER}-{SEED}.txt")
                names = {m.group(1) for m in (re.match(r"\[(\w+)\]", v) for v in fresh) if m}
                with open(path, "w") as f:
                    f.write(f"property {self.prop}, tier {TIER}, seed {SEED}\nreplay: VERIF_SEED={SEED} VERIF_TIER={TIER} python3 {HERE}/run.py {self.prop}\n\n")
                    f.write("\n".join(fresh[:60]) + "\n\n" + getattr(self, "log", "") + "\n")
                    for p in self.programs:
                        if p.name in names:
                            f.write(f"\n==== {p.name} ({p.san}), arguments: {self.prop} {p.seed} {p.scale}\n{p.code}\n")
                            for name, code, flags in p.units:
                                f.write(f"\n==== {p.name}, unit {name} ({' '.join(flags)})\n{code}\n")
                for v in fresh[:5]:
                    print(v[:600])
                print(f"VIOLATION property={self.prop} replay={path}")
                return 1
            print(f"held property={self.prop}: {self.stats.get('evaluations', 0)} evaluations, {self.stats.get('distinct', 0)} distinct non-trivial, {len(self.programs)} programs, {time.time() - self.t0:.0f} s")
            return 0
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(Run(sys.argv[1]).main())
