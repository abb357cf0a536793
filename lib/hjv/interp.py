"""Running the abstract interpreter over probe entries."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build


class Run:
    """Result of the abstract interpretation of one entry.  When joining the
    branches lost too much, status is "undecided" and parts holds one Run per
    trace partition, each valid under its guard."""
    __slots__ = ("entry", "status", "msg", "at", "atloc", "terms", "outs", "findings", "exits", "locs", "fns", "steps", "calls", "joins", "allocs", "leaks", "guard", "parts", "meta")

    def __init__(self, d, part=None):
        self.entry = d["entry"]
        for k in ("terms", "locs", "fns", "steps", "calls", "joins"): setattr(self, k, d[k])
        p = part or d["parts"][0]
        for k in ("status", "msg", "outs", "findings", "exits", "allocs", "leaks", "guard"): setattr(self, k, p[k])
        self.at = p.get("at", "")
        self.atloc = p.get("atloc")
        self.parts = [] if part else [Run(d, q) for q in d["parts"][1:]]
        if not part: self.guard = []
        self.meta = None

    def out(self, tag):
        return [o for o in self.outs if o[0] == tag]

    def outi(self, tag):
        o = self.out(tag)
        if len(o) != 1 or o[0][2] != "i":
            return None
        return o[0][3]

    def loc(self, i):
        return self.locs[i] if i is not None and 0 <= i < len(self.locs) else ""


def run(bc, entries, nproc=8, prelude=None):
    """entries: list of 'name arg arg ...'.  Yields Run objects in order."""
    exe = build.engine()
    if not entries:
        return []
    n = max(1, min(nproc, len(entries)))
    # interleave: expensive entries spread over the processes
    chunks = [entries[i::n] for i in range(n)]

    def go(ix):
        f = os.path.join(build.work(), "runs-%s-%d" % (os.path.basename(bc), ix))
        with open(f, "w") as h:
            if prelude: h.write("!%s\n" % prelude)
            h.write("\n".join(chunks[ix]) + "\n")
        p = subprocess.run([exe, bc, f, build.REPO.rstrip("/") + "/"], capture_output=True, text=True)
        lines = p.stdout.splitlines()
        if os.environ.get("HJ_DEBUG"): print(p.stderr[-3000:])
        if p.returncode != 0 or len(lines) != len(chunks[ix]):
            raise build.Broken("engine failed (rc %d) after %d of %d entries of %s: %s" % (p.returncode, len(lines), len(chunks[ix]), bc, p.stderr[-500:]))
        return [Run(json.loads(l)) for l in lines]
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(go, range(n)))
    res = [None] * len(entries)
    for i in range(n):
        for j, r in enumerate(parts[i]):
            res[i + j * n] = r
    return res
