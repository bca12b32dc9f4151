#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--part NAME]

Decides one property of /verif/properties.jsonl on /repo's working tree by
generated-input search (see DESIGN.md). Exit 0: it held on everything explored.
Exit 1 and a VIOLATION line: it is broken. Exit 2: no verdict.
"""
import argparse, copy, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
KNOWN = os.path.join(VERIF, "known-findings.txt")

GOENV = {"GOPROXY": "off", "GOSUMDB": "off", "GONOSUMDB": "*", "GOTOOLCHAIN": "local",
         "GOFLAGS": "-mod=readonly", "GOWORK": "off", "CGO_ENABLED": "0", "GO111MODULE": "on"}

# seconds of search (quick, thorough), shards
SOFT = {"quick": 45, "thorough": 420}
SHARDS = 7


def say(*a):
    print(*a, flush=True)


class NoVerdict(Exception):
    pass


def env(extra):
    e = dict(os.environ)
    e.update(GOENV)
    e.update(extra)
    e.setdefault("HOME", "/root")
    return e


def run(cmd, timeout, extra=None, cwd=HARNESS):
    """Runs cmd in its own process group; returns (rc, output), rc None on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(extra or {}), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def build(tmp, race=False):
    binary = os.path.join(tmp, "checks.race" if race else "checks.test")
    rc, out = run(["go", "test", "-c", "-vet=off", "-o", binary] + (["-race"] if race else []) + ["./checks"], 700,
                  {"CGO_ENABLED": "1"} if race else {})
    if rc != 0 or not os.path.exists(binary):
        raise NoVerdict("the check binary does not build:\n" + out[-6000:])
    return binary


# C26 is decided with the race detector, on cases of its own and on those of these
# properties: (percent of their number of cases in the quick tier, in the thorough tier)
RACE = "C26"
GORACE = "halt_on_error=1 exitcode=66 history_size=%d"
RACE_ALSO = {"C01": (12, 150), "C02": (12, 150), "C03": (12, 150), "C04": (4, 40), "C05": (12, 150), "C06": (12, 150),
             "C07": (12, 100), "C08": (12, 150), "C09": (12, 150), "C10": (8, 50), "C11": (12, 100), "C12": (12, 100),
             "C13": (12, 150), "C14": (12, 100), "C15": (12, 100), "C16": (12, 100), "C17": (12, 100), "C18": (12, 100),
             "C19": (8, 100), "C21": (12, 150), "C23": (12, 150), "C24": (8, 50), "C25": (12, 100)}

# what the checks of the code generator need, see GenTools in checks/c20_gen.go
GENERATOR = ("C20", "C22")
EXPORTS = """github.com/livekit/psrpc github.com/livekit/psrpc/pkg/client github.com/livekit/psrpc/pkg/server
github.com/livekit/psrpc/pkg/info github.com/livekit/psrpc/pkg/rand github.com/livekit/psrpc/version
github.com/livekit/psrpc/protoc-gen-psrpc/options google.golang.org/protobuf/runtime/protoimpl
google.golang.org/protobuf/types/known/emptypb google.golang.org/protobuf/types/known/timestamppb
google.golang.org/protobuf/types/known/wrapperspb google.golang.org/protobuf/types/descriptorpb
context reflect sync unsafe""".split()


def build_generator(tmp):
    """Builds the plugin and the export data of what generated code imports."""
    d = os.path.join(tmp, "gen")
    os.makedirs(d)
    rc, out = run(["go", "build", "-o", os.path.join(d, "protoc-gen-psrpc"),
                   "github.com/livekit/psrpc/protoc-gen-psrpc"], 600)
    if rc != 0:
        raise NoVerdict("the plugin does not build:\n" + out[-6000:])
    rc, out = run(["go", "list", "-deps", "-export", "-f", "{{.ImportPath}}\t{{.Export}}"] + EXPORTS, 600)
    if rc != 0:
        raise NoVerdict("the packages generated code imports do not build:\n" + out[-6000:])
    with open(os.path.join(d, "exports"), "w") as f:
        f.write(out)
    os.environ["CHK_GEN"] = d


class Shard:
    def __init__(self, binary, tmp, prop, tier, seed, i, soft, part, scale=None):
        self.prop, self.args = prop, (binary, tmp, prop, tier, seed, i, soft, part, scale)
        self.i, self.dir = i, os.path.join(tmp, "s%d" % i)
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "out.json")
        self.journal = os.path.join(self.dir, "journal-%d.json" % i)
        self.logf = open(os.path.join(self.dir, "log"), "wb")
        extra = {"CHK_PROP": prop, "CHK_TIER": tier, "CHK_SEED": str(seed), "CHK_SHARD": str(i),
                 "CHK_OUT": self.out, "CHK_SOFT_S": str(soft), "CHK_PART": part or "",
                 "CHK_SCALE_PCT": str(scale or os.environ.get("CHK_SCALE_PCT", "100")),
                 "CHK_TMP": os.path.join(self.dir, "tmp"),
                 # a mix of schedules: really parallel and single-threaded ones
                 "GOMAXPROCS": "1" if i % 3 == 2 else "4"}
        os.makedirs(extra["CHK_TMP"])
        self.p = subprocess.Popen([binary, "-test.run", "TestCheck", "-test.timeout", "0"], cwd=HARNESS,
                                  env=env(extra), stdout=self.logf, stderr=subprocess.STDOUT,
                                  start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def log(self):
        self.logf.close()
        with open(self.logf.name, errors="replace") as f:
            return f.read()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None


def replay(binary, path, n, timeout=200):
    """Returns (verdict, text): 'fails', 'passes', 'crash', 'hang' or 'error'."""
    rc, out = run([binary, "-test.run", "TestCheck", "-test.timeout", "0"], timeout,
                  {"CHK_REPLAY": os.path.abspath(path), "CHK_REPLAY_N": str(n)})
    if rc is None or rc == 77:
        return "hang", out
    if "ENGINE-ERROR" in out:
        return "error", out
    if "WARNING: DATA RACE" in out:
        return ("crash" if race_in_library(out, path_part(path)) else "passes"), out
    if "REPLAY-RESULT" in out:
        bad = int(out.split("REPLAY-RESULT ")[1].split("/")[0])
        return ("fails" if bad else "passes"), out
    if rc < 0 and -rc in (signal.SIGKILL, signal.SIGTERM):
        return "error", out
    if crashed_text(out):
        return "crash", out
    return "error", out


def crashed_text(log):
    if any(s in log for s in ("out of memory", "cannot allocate memory", "pthread_create failed")):
        return None
    for mark in ("panic: ", "fatal error: ", "SIGSEGV", "WARNING: DATA RACE"):
        i = log.find(mark)
        if i >= 0:
            return log[i:i + 4000]
    return None


def path_part(path):
    with open(path) as f:
        return json.load(f).get("property")


def race_in_library(log, prop):
    """Judges the first report of the race detector in log: its text when the two accesses are
    the library's, None when one is the check's own doing or cannot be told."""
    i = log.find("WARNING: DATA RACE")
    if i < 0:
        return None
    text = log[i:]
    j = text.find("\n==================")
    text = text[:j if j > 0 else 8000]
    sides = []
    for sec in text.split("\n\n")[:2]:
        lines = [x for x in sec.splitlines() if x.startswith("  ")]
        head = [x for x in sec.splitlines() if " by " in x and not x.startswith("  ")]
        frame = ""
        for x in lines:
            # the first function which is the library's or the check's own; below it are only
            # the standard library and third parties, who act for it
            if x.startswith("  github.com/livekit/psrpc") and not x.startswith("   "):
                frame = x.strip()
                break
        if not frame or not head:
            return None
        sides.append(("rite" in head[0], "/psrpc/verif" not in frame, ".c26Use" in frame))
    if len(sides) < 2:
        return None
    (w1, lib1, use1), (w2, lib2, use2) = sides
    if lib1 and lib2:
        return text
    if prop == RACE:
        # a value that was handed out for good is still in use, or handed out twice
        if (lib1 or use1) and (lib2 or use2):
            return text
        # a value that the caller shares was written to
        if (lib1 and w1) or (lib2 and w2):
            return text
    return None


def smaller(v):
    """Yields variants of a JSON value with one thing removed or reduced."""
    if isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i, x in enumerate(v):
            for y in smaller(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, dict):
        for k, x in v.items():
            for y in smaller(x):
                w = dict(v)
                w[k] = y
                yield w
    elif isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        if v > 0:
            yield 0
            if v > 1:
                yield v // 2
    elif isinstance(v, str) and len(v) > 8:
        yield v[:len(v) // 2]


def shrink(binary, tmp, case, want, budget):
    """Greedy reduction of a case that takes the process down."""
    end = time.time() + budget
    path = os.path.join(tmp, "shrink.json")
    changed = True
    while changed and time.time() < end:
        changed = False
        for v in smaller(case["case"]):
            if time.time() > end:
                break
            c = dict(case, case=v)
            with open(path, "w") as f:
                json.dump(c, f)
            verdict, out = replay(binary, path, 3, 30)
            if verdict == want and (want != "crash" or "psrpc/verif/checks" not in top_frame(out)):
                case, changed = c, True
                break
    return case


def top_frame(out):
    """The first frame of the panicking goroutine that is not the runtime's."""
    i = out.find("goroutine ")
    for line in out[i:].splitlines()[1:]:
        line = line.strip()
        if not line or line.startswith("/") or line.startswith("panic(") or line.startswith("runtime"):
            continue
        return line
    return ""


def save_replay(prop, case):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps([case["part"], case["case"]], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(case, f, indent=1)
    return path


def known_findings(prop):
    """Lines "known: property=<id> part=<part> case=<name> :: <what fails>"."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known:") and "property=%s " % prop in line:
                head, what = line[6:].strip().split(" :: ", 1)
                kv = dict(x.split("=", 1) for x in head.split())
                kv["what"] = what.strip()
                out.append(kv)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build the check binary, to fill the build cache")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--shards", type=int, default=SHARDS)
    a = ap.parse_args()
    if not a.prop and not a.setup:
        ap.error("which property?")
    if a.tier not in SOFT:
        a.tier = "quick"
    tmp = tempfile.mkdtemp(prefix="psrpc-check-")
    start = time.time()
    shards = []
    try:
        if a.setup or a.prop == RACE:
            os.environ["GORACE"] = GORACE % (5 if a.tier == "thorough" else 3)
            binary = build(tmp, race=True)
        if a.setup or a.prop != RACE:
            binary = build(tmp)
        if a.setup or a.prop in GENERATOR:
            build_generator(tmp)
        if a.setup:
            return 0
        if a.replay:
            verdict, out = replay(binary, a.replay, 20)
            say(out[-8000:])
            say("replay:", verdict)
            if verdict in ("fails", "crash", "hang"):
                say("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1
            return 0 if verdict == "passes" else 2
        return (check_race if a.prop == RACE else check)(a, tmp, binary, start, shards)
    except NoVerdict as e:
        say("NO VERDICT:", e)
        return 2
    finally:
        for s in shards:
            if s.p.poll() is None:
                s.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, tmp, binary, start, shards):
    prop = a.prop
    known = []
    for k in known_findings(prop):
        path = os.path.join(VERIF, "known", k["case"])
        verdict, out = replay(binary, path, 1)
        if verdict in ("fails", "crash", "hang"):
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            known.append(k["what"])
        elif verdict == "passes":
            say("note: the listed finding no longer shows: %s" % k["what"])
        else:
            raise NoVerdict("known finding cannot be replayed:\n" + out[-3000:])

    soft = SOFT[a.tier]
    seed = a.seed if a.seed != 0 else 0x5eed
    for i in range(a.shards):
        shards.append(Shard(binary, tmp, prop, a.tier, seed, i, soft, a.part))
    deadline = time.time() + soft + 120
    violation = None
    errors, reruns, hangs = [], 0, []
    pending = list(shards)
    while pending and violation is None:
        time.sleep(0.05)
        for s in list(pending):
            if s.p.poll() is None:
                if time.time() > deadline:
                    s.kill()
                    pending.remove(s)
                    errors.append("shard %d did not end in time\n%s" % (s.i, s.log()[-3000:]))
                continue
            pending.remove(s)
            log = s.log()
            res = s.result()
            if s.p.returncode == 0 and res and res.get("done"):
                if res.get("violation"):
                    violation = res["violation"]
                    violation["note"] = "found by shard %d, seed %d; shrunk by rapid" % (s.i, seed)
                    break
                continue
            # the process went down in the middle of a case
            try:
                with open(s.journal) as f:
                    case = json.load(f)
            except (OSError, ValueError):
                case = None
            if "synctest channel from outside bubble" in log or "synctest timer from outside bubble" in log:
                # a library's process-wide pool carried something across bubbles: no fault of the code under test
                reruns += 1
                if reruns <= 5:
                    n = Shard(binary, tmp, prop, a.tier, seed + 7919 * reruns, s.i + 100 * reruns, soft, a.part)
                    shards.append(n)
                    pending.append(n)
                    deadline = time.time() + soft + 120
                    continue
            crash = crashed_text(log)
            if s.p.returncode == 77 and case:
                path = os.path.join(tmp, "hang.json")
                with open(path, "w") as f:
                    json.dump(case, f)
                verdict, out = replay(binary, path, 1000)
                hangs.append(case)
                # schedules differ, so that a case which hung does not always hang; code that keeps
                # the clock from going on at least twice does not do so by accident
                if verdict in ("hang", "crash", "fails") or len(hangs) > 1:
                    case["failures"] = ["the case never ends (replay: %s): %s" % (verdict, log[log.find("ENGINE-HANG"):][:6000])]
                    violation = case
                    break
                reruns += 1
                n = Shard(binary, tmp, prop, a.tier, seed + 7919 * reruns, s.i + 100 * reruns, soft, a.part)
                shards.append(n)
                pending.append(n)
                deadline = time.time() + soft + 120
            elif s.p.returncode > 0 and crash and case and "ENGINE-ERROR" not in log:
                path = os.path.join(tmp, "crash.json")
                with open(path, "w") as f:
                    json.dump(case, f)
                verdict, out = replay(binary, path, 30)
                case["failures"] = [crash]
                case["note"] = "the process crashed; replay: " + verdict
                if verdict == "crash":
                    case = shrink(binary, tmp, case, "crash", 25)
                violation = case
                break
            else:
                errors.append("shard %d ended with %s\n%s" % (s.i, s.p.returncode, log[-4000:]))
    for s in shards:
        if s.p.poll() is None:
            s.kill()

    return report(a, start, shards, known, violation, errors)


def check_race(a, tmp, binary, start, shards):
    """Runs cases under the race detector, several properties' at once."""
    seed = a.seed if a.seed != 0 else 0x5eed
    thorough = a.tier == "thorough"
    soft = 240 if thorough else 40
    todo = [(binary, tmp, p, "quick", seed, i, soft, None, RACE_ALSO[p][thorough])
            for i, p in enumerate(sorted(RACE_ALSO), 100)]
    own = [(binary, tmp, RACE, a.tier, seed, i, soft, a.part, None) for i in range(a.shards)]
    todo = own if a.part else todo[:4] + own + todo[4:]
    deadline = time.time() + (840 if thorough else 420)
    violation, errors, other, gone, reruns = None, [], 0, 0, 0
    running = []
    while (todo or running) and violation is None:
        while todo and len(running) < 8:
            s = Shard(*todo.pop(0))
            s.started = time.time()
            shards.append(s)
            running.append(s)
        time.sleep(0.05)
        for s in list(running):
            if s.p.poll() is None:
                if time.time() > min(deadline, s.started + soft + 150):
                    s.kill()
                    running.remove(s)
                    gone += 1
                    if s.prop == RACE:
                        errors.append("shard %d did not end in time\n%s" % (s.i, s.log()[-3000:]))
                continue
            running.remove(s)
            log, res = s.log(), s.result()
            if s.p.returncode == 0 and res and res.get("done"):
                if res.get("violation") and s.prop == RACE:
                    violation = res["violation"]
                    violation["note"] = "found by shard %d, seed %d; shrunk by rapid" % (s.i, seed)
                    break
                continue # what other properties' checks say of their own is theirs to say
            try:
                with open(s.journal) as f:
                    case = json.load(f)
            except (OSError, ValueError):
                case = None
            again = list(s.args)
            again[4], again[5] = again[4] + 7919, again[5] + 1000
            crash = None
            if case and "ENGINE-ERROR" not in log:
                if "WARNING: DATA RACE" in log:
                    crash = race_in_library(log, s.prop)
                elif "fatal error: concurrent map" in log and "psrpc/verif/checks" not in top_frame(log):
                    crash = crashed_text(log)
                elif s.prop == RACE and "synctest " not in log.split("panic: ")[-1][:40] and "simultaneously alive" not in log:
                    if s.p.returncode == 77:
                        path = os.path.join(tmp, "hang.json")
                        with open(path, "w") as f:
                            json.dump(case, f)
                        if replay(binary, path, 200)[0] in ("hang", "crash", "fails"):
                            case["failures"] = ["the case never ends: " + log[log.find("ENGINE-HANG"):][:6000]]
                            violation = case
                            break
                    elif s.p.returncode > 0:
                        crash = crashed_text(log)
            if crash:
                path = os.path.join(tmp, "crash.json")
                with open(path, "w") as f:
                    json.dump(case, f)
                verdict, out = replay(binary, path, 30)
                case["failures"] = [crash]
                case["note"] = "found with the race detector; replay: " + verdict
                if verdict == "crash":
                    case = shrink(binary, tmp, case, "crash", 25)
                violation = case
                break
            other += 1
            if reruns < 12:
                reruns += 1
                todo.append(tuple(again))
            elif s.prop == RACE:
                errors.append("shard %d ended with %s\n%s" % (s.i, s.p.returncode, log[-4000:]))
    for s in shards:
        if s.p.poll() is None:
            s.kill()
    if other or gone:
        say("note: %d runs ended early without a verdict on this property, %d ran out of time" % (other, gone))
    return report(a, start, shards, [], violation, errors)


def report(a, start, shards, known, violation, errors):
    prop = a.prop
    # evidence
    parts, evaluations, nontrivial = {}, 0, 0
    samples = []
    for s in shards:
        res = s.result()
        if not res:
            continue
        for name, p in res["parts"].items():
            if s.prop != prop:
                name = s.prop + "/" + name
            q = parts.setdefault(name, {"rule": p["rule"], "executed": 0, "nt": set(), "classes": {},
                                        "cut_short": 0, "samples": []})
            q["executed"] += p["executed"]
            q["nt"].update(p["nontrivial"] or [])
            q["cut_short"] += bool(p["cut_short"])
            for k, v in p["classes"].items():
                q["classes"][k] = q["classes"].get(k, 0) + v
            if len(q["samples"]) < 2:
                q["samples"] += (p["samples"] or [])[-1:]
    for name, q in sorted(parts.items()):
        evaluations += q["executed"]
        q["distinct_nontrivial"] = len(q.pop("nt"))
        nontrivial += q["distinct_nontrivial"]
        samples += [{"part": name, "case": x} for x in q.pop("samples")]
        q["classes"] = dict(sorted(q["classes"].items()))
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": nontrivial,
                       "rule": "; ".join("%s: %s" % (n, q["rule"]) for n, q in sorted(parts.items())),
                       "samples": samples, "parts": parts, "shards": len(shards),
                       "known_findings": known},
          "wall_s": round(time.time() - start, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for name, q in sorted(parts.items()):
        say("part %s: %d cases, %d distinct non-trivial%s" % (name, q["executed"], q["distinct_nontrivial"],
            " (cut short by the time limit)" if q["cut_short"] else ""))
        for k, v in q["classes"].items():
            say("    %-40s %d" % (k, v))
    if violation:
        for f in violation.get("failures", [])[:3]:
            say("  ", f[:3000])
        say("   case:", json.dumps(violation["case"])[:3000])
        say("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, violation)))
        return 1
    if errors:
        raise NoVerdict("\n".join(errors))
    if evaluations == 0:
        raise NoVerdict("nothing was executed")
    say("%s held on %d cases (%d distinct non-trivial) in %.1fs" % (prop, evaluations, nontrivial, time.time() - start))
    return 0


if __name__ == "__main__":
    sys.exit(main())
