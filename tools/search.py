"""The bounded stand-in: differential histories against the real crate, in child processes."""
import os, re, subprocess, threading, time
from pathlib import Path
import shrink

VERIF = Path(__file__).resolve().parent.parent
TARGET = VERIF / "build" / "target"


class BuildError(Exception):
    pass


def build():
    """Build the harness against /repo's working tree in both profiles -> {profile: binary}."""
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = str(TARGET)
    env["RUSTFLAGS"] = "-Awarnings"
    env["CARGO_NET_OFFLINE"] = "true"
    out, errs = {}, []

    def one(profile):
        e = dict(env)
        e["CARGO_TARGET_DIR"] = str(TARGET / profile)
        cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", str(VERIF / "harness/Cargo.toml")]
        if profile == "release":
            cmd.append("--release")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        if p.returncode:
            errs.append(p.stdout.decode(errors="replace")[-3000:])
        else:
            out[profile] = str(TARGET / profile / ("release" if profile == "release" else "debug") / "palmcheck")

    ts = [threading.Thread(target=one, args=(p,)) for p in ("debug", "release")]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise BuildError(errs[0])
    return out


class Search:
    """Runs workers until the budget is used up or one finds a failure of the property."""

    def __init__(self, binaries, prop, seed, budget, workers=6, count=10 ** 9, offset=0):
        self.bins, self.prop, self.seed, self.budget = binaries, prop, seed, budget
        self.workers, self.count, self.offset = workers, count, offset
        self.found = None          # (profile, index, message)
        self.lock = threading.Lock()
        self.totals = dict(histories=0, ops=0, checks=0, distinct_states=0, abandoned=0, max_keys=0)
        self.stop = threading.Event()
        self.unblamed = 0

    def run(self):
        deadline = time.time() + self.budget
        ts = [threading.Thread(target=self.worker, args=(w, deadline)) for w in range(self.workers)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return self.found

    def worker(self, w, deadline):
        profile = ("debug", "release")[w % 2]
        binary = self.bins[profile]
        span = 400
        progress = VERIF / "build" / ("progress.%s.%d.%d" % (self.prop, os.getpid(), w))
        block = 0
        per_profile = (self.workers + 1) // 2
        while not self.stop.is_set() and time.time() < deadline:
            start = self.offset + (block * per_profile + w // 2) * span
            if start >= self.offset + self.count:
                break
            self.span(binary, profile, start, span, progress, deadline)
            block += 1
        try:
            os.unlink(progress)
        except OSError:
            pass

    def span(self, binary, profile, start, n, progress, deadline):
        end = start + n
        while start < end and not self.stop.is_set() and time.time() < deadline:
            left = max(200, int((deadline - time.time()) * 1000))
            p = subprocess.Popen([binary, "run", self.prop, str(self.seed), str(start), str(end - start),
                                  str(progress), str(left)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            seen, since, hung = None, time.time(), False
            while True:
                try:
                    out, _ = p.communicate(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    if self.stop.is_set():
                        p.kill()
                    try:
                        cur = progress.read_bytes()
                    except OSError:
                        cur = None
                    if cur != seen:
                        seen, since = cur, time.time()
                    elif time.time() - since > 15:
                        hung = True
                        p.kill()
            if self.stop.is_set():
                return
            out = out.decode(errors="replace")
            m = re.search(r"^OK (.*)$", out, re.M)
            if p.returncode == 0 and m:
                with self.lock:
                    for kv in m.group(1).split():
                        k, v = kv.split("=")
                        self.totals[k] = max(self.totals[k], int(v)) if k == "max_keys" else self.totals[k] + int(v)
                return
            try:
                index = int(progress.read_bytes())
            except (OSError, ValueError):
                return
            f = re.search(r"^FAIL index=(\d+) (.*)$", out, re.M)
            with self.lock:
                self.totals["histories"] += index - start + 1
            if p.returncode == 1 and f:
                self.report(profile, int(f.group(1)), f.group(2))
                return
            # crash or hang: decide whether this property answers for it
            text = self.history(binary, index)
            msg = shrink.blamed(binary, self.prop, text, 10)
            if msg:
                self.report(profile, index, msg)
                return
            with self.lock:
                self.unblamed += 1
            start = index + 1

    def history(self, binary, index):
        return subprocess.run([binary, "gen", self.prop, str(self.seed), str(index)],
                              stdout=subprocess.PIPE).stdout.decode()

    def report(self, profile, index, msg):
        with self.lock:
            if self.found is None:
                self.found = (profile, index, msg)
        self.stop.set()
