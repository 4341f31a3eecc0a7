"""Checks of the language bindings: the package is built from /repo's working tree with AddressSanitizer, files are
generated, and worker processes run every case of every section; a crash, a hang or a difference is a violation."""
import os, sys, json, mmap, struct, subprocess, tempfile, time, shutil, hashlib
import driver


def generate(scratch, nformats):
    """The files and what they hold; returns (manifest, error)."""
    d, exe = driver.build("asan", "files")
    out = os.path.join(scratch, "manifest.jsonl")
    os.makedirs(os.path.join(scratch, "files"))
    with open(out, "w") as o:
        p = subprocess.run([exe, os.path.join(scratch, "files"), str(nformats)], stdout=o, stderr=subprocess.PIPE, env=driver.env_for_run(), timeout=300)
    if p.returncode in (2, 3):
        raise driver.CheckError("files: " + p.stderr.decode(errors="replace"))
    if p.returncode:
        return out, "the C++ reader failed on the generated files (%d): %s" % (p.returncode, p.stderr.decode(errors="replace")[-600:])
    return out, None


class Worker(object):
    def __init__(self, cmd, env, opts, scratch, n):
        self.opts = dict(opts, cur=os.path.join(scratch, "cur-%d" % n), out=os.path.join(scratch, "out-%d" % n))
        with open(self.opts["cur"], "wb") as f:
            f.write(b"\0" * 4096)
        self.err = open(os.path.join(scratch, "err-%d" % n), "w+b")
        if opts["section"] == "held":  # what was freed is not held
            env = dict(env, ASAN_OPTIONS=env["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
        self.p = subprocess.Popen(cmd + [json.dumps(self.opts)], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, cwd=scratch)
        self.count, self.since = -1, time.time()

    def current(self):
        with open(self.opts["cur"], "rb") as f:
            b = f.read()
        n, l = struct.unpack("<qi", b[:12])
        return n, b[12:12 + l].decode(errors="replace")

    def poll(self, hang):
        """None while running; else a result"""
        rc = self.p.poll()
        n, case = self.current()
        if rc is None:
            if n != self.count:
                self.count, self.since = n, time.time()
            elif time.time() - self.since > hang:
                self.p.kill()
                self.p.wait()
                return dict(section=self.opts["section"], violation="no progress for %d seconds" % hang, case=case, raw=True)
            return None
        if os.path.exists(self.opts["out"]):
            with open(self.opts["out"]) as f:
                return json.load(f)
        self.err.seek(0)
        t = self.err.read().decode(errors="replace")
        keep = [l for l in t.splitlines() if "ERROR" in l or "SUMMARY" in l or "#0" in l or "#1 " in l or "rror" in l]
        if n == 0 and not keep:
            raise driver.CheckError("worker did not start (%s): %s" % (rc, t[-2000:]))
        return dict(section=self.opts["section"], violation="the process ended with %s: %s" % (rc, " / ".join(keep)[:1500] or t[-800:]), case=case, raw=True)


def run(prop, spec, tier, seed, args, build, command, sections, assumptions):
    """build() -> (environment, options); command: how to start a worker; sections: [(name, shards)]"""
    t0 = time.time()
    thorough = tier == "thorough"
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        replay = None
        if args.get("replay"):
            replay = json.load(open(args["replay"]))
            thorough = replay["thorough"]
        env, base = build()
        manifest, err = generate(scratch, 8 if thorough else 2)
        tb = time.time() - t0
        base = dict(base, manifest=manifest, scratch=scratch, thorough=thorough)
        e = dict(driver.env_for_run(prop))
        e.update(env)
        e["PYTHONHASHSEED"] = "0"
        found, results = None, []
        if err:
            found = dict(section="files", violation=err, case=None)
        else:
            todo, n = [], 0
            if replay:
                todo = [dict(base, section=replay["section"], case=replay["case"])]
            else:
                for name, shards in sections:
                    if args.get("only") in (None, name):
                        todo += [dict(base, section=name, shard=[k, shards]) for k in range(shards)]
            jobs = int(args.get("jobs") or os.cpu_count() or 4)
            running = []
            while (todo or running) and not found:
                while todo and len(running) < jobs:
                    running.append(Worker(command, e, todo.pop(0), scratch, n))
                    n += 1
                time.sleep(0.02)
                for w in list(running):
                    r = w.poll(120)
                    if r is not None:
                        running.remove(w)
                        results.append(r)
                        if "violation" in r:
                            found = r
            for w in running:
                w.p.kill()
                w.p.wait()
        secs = {}
        for r in results:
            s = secs.setdefault(r["section"], dict(section=r["section"], executions=0, transitions=0, oracle_comparisons=0, distinct=0, states=set(), samples=[]))
            s["executions"] += r.get("cases", 0)
            s["transitions"] += r.get("transitions", 0)
            s["oracle_comparisons"] += r.get("comparisons", 0)
            s["distinct"] += r.get("distinct", 0)
            s["states"] |= set(r.get("states", []))
            s["samples"] += r.get("samples", [])[:1]
        for s in secs.values():
            print("[%s] %s: %d executions, %d transitions, %d states, %d comparisons" % (prop, s["section"], s["executions"], s["transitions"], len(s["states"]), s["oracle_comparisons"]), flush=True)
        print("[%s] build %.1fs, total %.1fs" % (prop, tb, time.time() - t0), flush=True)
        if found:
            case = found["case"]
            if found.get("raw"):
                try:
                    case = json.loads(case)
                except Exception:
                    case = None
            os.makedirs(driver.REPLAY, exist_ok=True)
            t = json.dumps(dict(property=prop, section=found["section"], case=case, thorough=thorough, message=found["violation"]), indent=1)
            path = os.path.join(driver.REPLAY, "%s-%s.json" % (prop, hashlib.sha256(t.encode()).hexdigest()[:10]))
            if not replay:
                with open(path, "w") as f:
                    f.write(t + "\n")
            else:
                path = args["replay"]
            print("%s %s" % (found["section"], found["violation"]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            if not replay:
                driver.write_evidence(prop, tier, seed, spec["level"], {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "states": 0, "transitions": 0,
                                      "traces_validated_against_impl": 0, "samples": [found["violation"][:500]], "explanation": "stopped at the first violation"}, time.time() - t0, 1, assumptions)
            return 1
        if replay:
            print("no violation")
            return 0
        cov = dict(states=sum(len(s["states"]) for s in secs.values()), transitions=sum(s["transitions"] for s in secs.values()),
                   traces_validated_against_impl=sum(s["executions"] for s in secs.values()), oracle_comparisons=sum(s["oracle_comparisons"] for s in secs.values()),
                   exhaustive=not args.get("only"), samples=[x for s in secs.values() for x in s["samples"][:2]][:12] or ["(none)"],
                   sections=[dict({k: v for k, v in s.items() if k != "samples"}, states=len(s["states"])) for s in secs.values()])
        driver.write_evidence(prop, tier, seed, spec["level"], cov, time.time() - t0, 0, assumptions)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
