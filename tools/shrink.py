"""Shorten a failing history by replaying it with operations (and bulk counts) taken out."""
import os, re, subprocess, tempfile, time


def replay(binary, prop, text, timeout=10, trace=False):
    """-> (status, line): status in ok / fail / hang / crash."""
    fd, path = tempfile.mkstemp(suffix=".hist")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        env = dict(os.environ)
        env.pop("PALMCHECK_TRACE", None)
        if trace:
            env["PALMCHECK_TRACE"] = "1"
        try:
            p = subprocess.run([binary, "replay", prop, path], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, env=env)
        except subprocess.TimeoutExpired as e:
            return "hang", (e.stdout or b"").decode(errors="replace")
        out = p.stdout.decode(errors="replace")
        if p.returncode == 0:
            return "ok", out
        if p.returncode == 1:
            return "fail", out
        if p.returncode == 3:
            return "usage", out + p.stderr.decode(errors="replace")
        return "crash", out + "\n[exit status %d] " % p.returncode + p.stderr.decode(errors="replace")[-500:]
    finally:
        os.unlink(path)


def blamed(binary, prop, text, timeout=10):
    """The description of the property's failure in this history, or None."""
    st, out = replay(binary, prop, text, timeout)
    if st == "fail":
        return [l for l in out.splitlines() if l.startswith("FAIL")][-1][5:]
    if st in ("hang", "crash"):
        st2, out2 = replay(binary, prop, text, timeout, trace=True)
        tr = [l for l in out2.splitlines() if l.startswith("TRACE")]
        if not tr:
            return None
        m = re.match(r"TRACE \[([0-9, ]*)\] (.*)", tr[-1])
        cls = {int(x) for x in m.group(1).split(",") if x.strip()}
        if st == "crash":
            cls.add(13)
        if prop == "C12" and cls != {12}:
            return None
        if int(prop[1:]) in cls:
            return "`%s` %s" % (m.group(2), "never returns" if st == "hang" else
                                "ends the process: " + out2.strip().splitlines()[-1][:300])
    return None


def shrink(binary, prop, text, budget=60, timeout=5):
    deadline = time.time() + budget
    lines = [l for l in text.splitlines() if l.strip()]
    head, ops = lines[0], lines[1:]

    def bad(o, h=None):
        if time.time() > deadline:
            return False
        return blamed(binary, prop, "\n".join([h or head] + o) + "\n", timeout) is not None

    size = max(1, len(ops) // 2)
    while size >= 1 and time.time() < deadline:
        i, changed = 0, False
        while i < len(ops):
            cand = ops[:i] + ops[i + size:]
            if bad(cand):
                ops, changed = cand, True
            else:
                i += size
        if size == 1 and not changed:
            break
        size = max(1, size // 2) if size > 1 else 1
    # smaller numbers
    for i in range(len(ops)):
        w = ops[i].split(" ")
        for j in range(2, len(w)):
            if not re.fullmatch(r"-?\d+", w[j]):
                continue
            for _ in range(40):
                n = int(w[j])
                done = True
                for c in (0, n // 2, n - 8, n - 1):
                    if 0 <= c < n and time.time() < deadline:
                        cand = ops[:i] + [" ".join(w[:j] + [str(c)] + w[j + 1:])] + ops[i + 1:]
                        if bad(cand):
                            w[j], ops, done = str(c), cand, False
                            break
                if done:
                    break
    for h in ("config u4x4", "config cu4x4"):
        if h != head and prop != "C12" and bad(ops, h):
            head = h
            break
    return "\n".join([head] + ops) + "\n"


if __name__ == "__main__":
    import sys
    binary, prop, path = sys.argv[1:4]
    t = open(path).read()
    print(blamed(binary, prop, t))
    s = shrink(binary, prop, t)
    print(s, blamed(binary, prop, s))
