#!/usr/bin/env python3
"""Runs one check:  run.py <property id> [quick|thorough]

compile the drivers from /repo's working tree -> check the specification itself with TLC ->
(optionally) let TLC generate behaviours -> run the real code, recording traces ->
TLC decides whether every recorded trace is a behaviour of the specification.
exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check itself."""
import json, os, re, shutil, subprocess, sys, tempfile, time, collections
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = ROOT + "/spec"
CP = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
sys.path.insert(0, ROOT + "/lib")
from props import PROPS


class CheckError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return -9, "TIMEOUT " + " ".join(cmd)
    return p.returncode, out.decode("utf-8", "replace")


def compiler():
    return "g++-10" if shutil.which("g++-10") else "g++"


def compile_driver(d, work):
    out = work + "/bin_" + d["name"]
    flags = d.get("flags", [])
    opt = d.get("opt", ["-O1"])
    san = ["-fsanitize=address", "-fsanitize=builtin", "-fno-sanitize-recover=builtin", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"] if d.get("asan", True) else []
    cmd = [compiler(), "-std=gnu++17", "-w", "-g1", *opt, *san, "-I", REPO, "-I", ROOT + "/drivers", "-I", ROOT + "/shim", *flags, "-o", out, ROOT + "/drivers/" + d["src"]]
    rc, o = sh(cmd, 600)
    if rc:
        raise CheckError("driver %s does not compile:\n%s" % (d["src"], o[-3000:]))
    return out


def java_build(work):
    """Java evaluation of the wide-integer module (semantics: spec/Big.tla); compiled into the work dir."""
    if not os.path.isdir(ROOT + "/java/tlc2"):
        return None
    jd = work + "/java"
    os.makedirs(jd, exist_ok=True)
    srcs = [os.path.join(a, f) for a, _, fs in os.walk(ROOT + "/java") for f in fs if f.endswith(".java")]
    rc, o = sh(["javac", "-cp", CP, "-d", jd, *srcs], 300)
    if rc:
        raise CheckError("javac: " + o)
    return jd


def tlc(module, cfg, work, tag, env_extra=None, workers="8", extra=(), timeout=840, mem="6g"):
    env = dict(os.environ)
    env.update(env_extra or {})
    env.pop("JAVA_TOOL_OPTIONS", None)
    md = work + "/md_" + tag
    cp = CP + ((":" + work + "/java") if os.path.isdir(work + "/java") else "")
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC", "-workers", workers, "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg, *extra, module + ".tla"]
    rc, o = sh(cmd, timeout, env, SPEC)
    shutil.rmtree(md, ignore_errors=True)
    return rc, o


def stats(o):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def last_loc(o):
    """(sid, pos) of the last state TLC printed in an error trace."""
    s = re.findall(r"^/\\ sid = (\d+)", o, re.M)
    p = re.findall(r"^/\\ pos = (\d+)", o, re.M)
    return (int(s[-1]), int(p[-1])) if s and p else None


def last_state(o):
    i = o.rfind("\nState ")
    j = o.find("\n\n", i)
    return o[i:j][:4000] if i >= 0 else ""


def load_known():
    f = ROOT + "/known_findings.json"
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    evdir = ROOT + "/evidence"
    os.makedirs(evdir, exist_ok=True)
    verbose = os.environ.get("VERIF_VERBOSE")

    def log(*a):
        if verbose:
            print("[%6.1f]" % (time.time() - t0), *a, file=sys.stderr, flush=True)

    states = trans = 0
    viol = []
    try:
        ex = ThreadPoolExecutor(8)
        only = os.environ.get("VERIF_DRIVER")
        drivers = [d for d in cfg["drivers"] if not only or d["name"] in only.split(",")]
        comp = {d["name"]: ex.submit(compile_driver, d, work) for d in drivers}
        java_build(work)
        mcs = [] if os.environ.get("VERIF_NOMC") else [m for m in cfg.get("mc", []) if tier == "thorough" or not m.get("thorough_only")]

        def do_mc(m):
            return m, tlc(m["module"], m.get("cfg", m["module"] + ".cfg") if tier == "quick" else m.get("tcfg", m.get("cfg", m["module"] + ".cfg")), work, "mc_" + m["module"], workers="4", extra=m.get("extra", ()))
        mcf = [ex.submit(do_mc, m) for m in mcs]
        gens = {}
        for g in cfg.get("gen", []):
            gens[g["name"]] = ex.submit(lambda g=g: tlc(g["module"], g.get("cfg", g["module"] + ".cfg") if tier == "quick" else g.get("tcfg", g.get("cfg", g["module"] + ".cfg")), work, "gen_" + g["name"], workers="1"))
        scripts = {}
        genstat = {}
        for g in cfg.get("gen", []):
            rc, o = gens[g["name"]].result()
            if rc != 0:
                raise CheckError("generator %s rc=%d\n%s" % (g["module"], rc, o[-3000:]))
            path = work + "/script_" + g["name"]
            n = 0
            with open(path, "w") as f:
                for line in o.splitlines():
                    if line.startswith('"GEN '):
                        f.write(line[5:-1].replace('\\"', '"') + "\n")
                        n += 1
            scripts[g["name"]] = path
            genstat[g["name"]] = n
            a, b = stats(o)
            trans += a
            states += b
            log("gen", g["name"], n, "behaviours")
        bins = {}
        for d in drivers:
            bins[d["name"]] = comp[d["name"]].result()
        log("compiled")

        def run_driver(d):
            out = work + "/trace_" + d["name"]
            cmd = [bins[d["name"]], out, str(seed), tier] + ([scripts[d["script"]]] if d.get("script") else [])
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=0:detect_stack_use_after_return=0:print_summary=1:hard_rss_limit_mb=6000"
            rc, o = sh(cmd, 800, env)
            if rc == 71:    # the code under test crashed outside a recorded session (while an object was being set up or destroyed)
                return out, "CRASH"
            if rc != 0:
                raise CheckError("driver %s rc=%s\n%s" % (d["name"], rc, o[-2000:]))
            return out, o
        traces = list(ex.map(lambda d: (d, run_driver(d)), drivers))
        log("recorded")
        groups = collections.OrderedDict()
        ops = collections.Counter()
        sessions = 0
        samples = []
        for d, (path, o) in traces:
            if o == "CRASH":
                n = sum(1 for _ in open(path)) if os.path.exists(path) else 0
                rp = "%s/replay_%s_%s_crash.json" % (evdir, pid, d["name"])
                json.dump({"property": pid, "driver": d["name"], "seed": seed, "tier": tier, "crash_after_session": n, "how_to_replay": "run the driver: it crashes after recording this many sessions"}, open(rp, "w"))
                viol.append((rp, d["name"], ["crash", "outside a session, after session %d" % n], ""))
                if not n:
                    continue
            mod = d.get("trace", cfg.get("trace"))
            groups.setdefault(mod, [])
            with open(path) as f:
                for i, line in enumerate(f):
                    groups[mod].append((d["name"], i, line))
        kinds = collections.Counter()
        for mod, ls in groups.items():
            for (dn, i, line) in ls:
                j = json.loads(line)
                kinds[j["k"]] += 1
                for e in j["ev"]:
                    ops[j["k"] + "." + e[0]] += 1
            samples += [json.loads(x[2]) for x in sorted(ls, key=lambda x: abs(len(x[2]) - 300))[:2]]
        for f in mcf:
            m, (rc, o) = f.result()
            if rc != 0:
                raise CheckError("the specification's own model check %s fails (rc=%d):\n%s" % (m["module"], rc, o[-3000:]))
            a, b = stats(o)
            trans += a
            states += b
            log("mc", m["module"], a, b)
        events = sum(ops.values())
        for mod, ls in groups.items():
            active = list(ls)
            # big sessions first: better use of the workers
            active.sort(key=lambda x: -len(x[2]))
            tf = work + "/all_" + mod
            with open(tf, "w") as f:
                f.writelines(x[2] for x in active)
            ccfg = mod + ".cfg"
            rc, o = tlc(mod, ccfg, work, "tr_" + mod, {"TRACE_FILE": tf})
            a, b = stats(o)
            log("trace", mod, "rc", rc, "sessions", len(active), "gen", a, "distinct", b)
            trans += a
            states += b
            if rc == 0:
                want = sum(len(json.loads(x[2])["ev"]) + 1 for x in active)
                if b != want:
                    raise CheckError("trace run %s visited %d states, expected %d" % (mod, b, want))
                sessions += len(active)
                continue
            # rc 11: the session is stuck at an event; otherwise an event whose recorded values the specification cannot even be evaluated on
            stuck = lambda rc, o: last_loc(o) and (rc == 11 or (rc > 0 and ("Attempted to" in o or "evaluating" in o) and "OutOfMemory" not in o and "StackOverflow" not in o))
            if stuck(rc, o):
                s, p = last_loc(o)
                dn, idx, line = active[s - 1]
                # confirm: TLC alone on this one recorded session
                tf2 = work + "/one_" + mod
                open(tf2, "w").write(line)
                rc2, o2 = tlc(mod, ccfg, work, "one_" + mod, {"TRACE_FILE": tf2}, workers="1")
                if not stuck(rc2, o2):
                    raise CheckError("rejection of %s session %d did not repeat (rc=%d)\n%s" % (dn, idx, rc2, o2[-2000:]))
                s2, p2 = last_loc(o2)
                sess = json.loads(line)
                rp = "%s/replay_%s_%s_%d.json" % (evdir, pid, dn, idx)
                json.dump({"property": pid, "driver": dn, "seed": seed, "tier": tier, "session_index": idx, "trace_module": mod,
                           "rejected_event_index": p2, "rejected_event": sess["ev"][p2 - 1], "spec_state_before": last_state(o2),
                           "how_to_replay": "TRACE_FILE=<file with the session on one line> tlc -config %s.cfg %s.tla in /verif/spec" % (mod, mod),
                           "session": {"k": sess["k"], "p": sess["p"], "ev": sess["ev"][:p2]}}, open(rp, "w"))
                viol.append((rp, sess["k"], sess["ev"][p2 - 1], last_state(o2)))
                sessions += s - 1
                continue
            raise CheckError("trace validation %s failed to run (rc=%d)\n%s" % (mod, rc, o[-4000:]))
        known = [k for k in load_known()["findings"] if k["property"] == pid]
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"),
              "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": sessions, "events_recorded": events,
                           "sessions_per_machine": dict(kinds), "events_per_operation": dict(sorted(ops.items())),
                           "generated_behaviours": genstat, "spec_models_checked": [m["module"] for m in mcs], "samples": samples[:3]},
              "assumptions": cfg.get("assumptions", []) + ["TLC evaluates the specification correctly; the driver records arguments and results faithfully"],
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        json.dump(ev, open("%s/%s.json" % (evdir, pid), "w"), indent=1)
        for rp, k, e, stt in viol:
            print("rejected: machine %s event %s" % (k, json.dumps(e)[:600]))
            if verbose:
                print(stt[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        if not viol:
            print("OK property=%s tier=%s sessions=%d events=%d states=%d wall=%.1fs" % (pid, tier, sessions, events, states, time.time() - t0))
        return 1 if viol else 0
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (pid, e))
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)


if __name__ == "__main__":
    sys.exit(main())
