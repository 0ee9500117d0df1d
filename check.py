#!/usr/bin/env python3
"""Decides one property of layered-nlp.

  python3 check.py C07               tier and seed from VERIF_TIER and VERIF_SEED
  python3 check.py --replay FILE     repeats a reported violation
  python3 check.py --build           only builds the harness

Steps of a check (see DESIGN.md):
  1. build the harness against /repo's working tree
  2. TLC explores the property's bounded model of spec/LayeredNLP.tla, checks its invariants, and prints every
     completed history with everything that may be observed
  3. the harness carries those histories out with the real library and compares
  4. the harness makes random programs, carries them out and records traces, which TLC validates against spec/LNTrace.tla
  5. a trace and a history are falsified, and must be rejected (the binding is alive)
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the machinery failed.
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
BIN = os.path.join(BUILD, "debug", "lnverif")
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIMIT_S = 20
CRATES = ["layered-nlp", "layered-amount", "layered-clauses", "layered-part-of-speech"]

# model: module, invariants, action properties; traces: how many random ones (quick, thorough)
OPS = ["C07_Denotation", "C09_OpsExact", "Shift_Ops"]
PROPS = {
    "C01": ("MC_Tok", ["C01_Lossless"], [], (4000, 60000)),
    "C02": ("MC_Tok", ["C01_Lossless", "C02_Words"], [], (4000, 50000)),
    "C03": ("MC_Pos", ["C01_Lossless", "C03_Tiled", "Shift_Create"], [], (4000, 50000)),
    "C04": ("MC_Pos", ["C04_InputAttrs", "C05_NoDoubles", "Shift_Create"], [], (4000, 50000)),
    "C05": ("MC_Run", ["C05_NoDoubles", "Shift_Run"], ["C05_AppendOnly", "C05_Immutable"], (3000, 40000)),
    "C06": ("MC_Run", ["C05_NoDoubles", "C06_PathsAgree", "Shift_Ops"], ["C05_AppendOnly"], (3000, 40000)),
    "C07": ("MC_Sel", OPS, [], (3000, 40000)),
    "C08": ("MC_Sel", OPS, [], (3000, 40000)),
    "C09": ("MC_Sel", OPS, [], (3000, 40000)),
    "C10": ("MC_Sel", OPS, [], (3000, 40000)),
    "C11": ("MC_Sel", OPS, [], (3000, 40000)),
    "C12": ("MC_Sel", OPS, [], (3000, 40000)),
    "C13": ("MC_Disp", ["C13_Display", "Shift_Ops"], [], (3000, 40000)),
    "C14": ("MC_Res", ["C14_Runs", "Shift_Run"], ["C05_AppendOnly"], (4000, 60000)),
    "C15": ("MC_Res", ["C14_Runs", "Shift_Run"], ["C05_AppendOnly"], (4000, 60000)),
    "C16": ("MC_Res", ["C14_Runs", "Shift_Run"], ["C05_AppendOnly"], (4000, 60000)),
    "C17": ("MC_Res", ["C14_Runs", "Shift_Run"], ["C05_AppendOnly"], (4000, 60000)),
    "C18": ("MC_Res", ["C14_Runs", "Shift_Run"], ["C05_AppendOnly"], (4000, 60000)),
    "C19": ("MC_Order", ["C19_Commute", "Shift_Run"], ["C05_AppendOnly"], (1500, 25000)),
}
DEFAULTS = {"Prepare": "MCPrepare", "Ready": "MCReady", "SizeFns": "OneSize", "Vias": "Plain", "RunChoices": "NoRuns",
            "Complete": "Always2", "OpsFor": "NoOps", "Own": "MCOwn"}
NAMES = {"SizeFns": "MCSizes", "Vias": "MCVias", "RunChoices": "MCRuns", "Complete": "MCComplete", "OpsFor": "MCOps"}


def errs(text):
    """the error messages of TLC's output (without the states)"""
    i = max(text.find('Error:'), 0)
    return text[i:i + 1500] + '\n...\n' + text[-500:]


class Broken(Exception):
    """the machinery does not work"""


class Violation(Exception):
    def __init__(self, kind, data, what):
        super().__init__(what)
        self.kind, self.data, self.what = kind, data, what


def say(*a):
    print(*a, flush=True)


# ---- building -------------------------------------------------------------------------------------------------------
def build():
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    h = os.path.join(HERE, "harness")
    # never trust file times for the code under test
    subprocess.run(["cargo", "clean", "--offline", "-q"] + [x for c in CRATES for x in ("-p", c)], cwd=h, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("the harness does not build against /repo:\n" + p.stdout[-4000:])


# ---- running TLC ------------------------------------------------------------------------------------------------------
def tlc(work, name, module, cfg, timeout, stack="400m"):
    d = os.path.join(work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write(cfg)
    out = os.path.join(d, "out")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss" + stack, "-Xmx10g", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-workers", "8",
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", os.path.join(d, "M.cfg"), os.path.join(SPEC, module + ".tla")]
    try:
        with open(out, "w") as f:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC on {module} ran out of time")
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    msgs = []
    with open(out, errors="replace") as f:
        for l in f:
            if not l.startswith('"{'):
                msgs.append(l)
    text = "".join(msgs)
    if "StackOverflowError" in text and stack == "400m":
        return tlc(work, name, module, cfg, timeout, "1900m")
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
    return {"rc": p.returncode, "out": out, "text": text, "generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0,
            "ok": "Model checking completed. No error has been found." in text}


def model_cfg(prop, tier):
    module, invs, props, _ = PROPS[prop]
    defined = open(os.path.join(SPEC, module + ".tla")).read()
    lines = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS", f'  Tier = "{tier}"', f'  Prop = "{prop}"', "  Emit = TRUE"]
    for c, d in DEFAULTS.items():
        n = NAMES.get(c)
        lines.append(f"  {c} <- {n if n and re.search('^' + n + '[( ]', defined, re.M) else d}")
    lines += ["INVARIANTS " + " ".join(invs)] if invs else []
    lines += ["PROPERTIES " + " ".join(props)] if props else []
    return module, "\n".join(lines) + "\n"


# ---- running the harness ------------------------------------------------------------------------------------------------
def once(args, out, timeout, env):
    for f in (out, out + ".hang"):
        if os.path.exists(f):
            os.remove(f)
    try:
        p = subprocess.run([BIN] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, **env))
    except subprocess.TimeoutExpired:
        raise Broken("the harness ran out of time")
    return p, p.returncode == 3 and os.path.exists(out + ".hang")


def harness(args, out, timeout=3000):
    """Runs the harness; a program that never ends or ends the process is a violation."""
    p, hangs = once(args, out, timeout, {})
    if hangs:
        # being slow is no violation: without very long lines, and with much more time, the program has to end
        hung = json.load(open(out + ".hang"))
        if not ends(hung, out):
            raise Violation("hang", hung, "the library does not return, or uses memory without end")
        say(f"slow: a program took more than {LIMIT_S} s; going on without very long lines and with more time")
        p, hangs = once(args, out, timeout, {"LNVERIF_PREMAX": "300", "LNVERIF_LIMIT": "100"})
        if hangs:
            raise Violation("hang", json.load(open(out + ".hang")), "the library does not return, or uses memory without end")
    if p.returncode < 0:
        prog = find_crash(args, out)
        if prog is not None:
            raise Violation("crash", prog, f"the library ends the process with signal {-p.returncode}")
    if p.returncode != 0:
        raise Broken(f"the harness failed ({p.returncode}): " + p.stderr.decode(errors="replace")[-2000:])
    return p.stdout.decode()


def ends(hung, out):
    """does a program that took too long end by itself, given time and lines of ordinary length ?"""
    lines = hung["lines"] if "lines" in hung else [hung["prog"]] if "prog" in hung else None
    if lines is None:
        return False
    lines = [dict(l, pre=min(l["pre"], 300)) if "pre" in l else l for l in lines]
    one, res = out + ".slow", out + ".slowres"
    with open(one, "w") as f:
        f.write(json.dumps({"lines": lines}) + "\n")
    p, hangs = once(["record", one, res], res, 300, {"LNVERIF_LIMIT": "100"})
    return p.returncode == 0 and not hangs


def find_crash(args, out):
    j = out + ".journal"
    subprocess.run([BIN] + args, env=dict(os.environ, LNVERIF_JOURNAL=j), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for w in range(8):
        f = f"{j}.{w}"
        if not os.path.exists(f):
            continue
        try:
            d = json.load(open(f))
        except ValueError:
            continue
        lines = d["lines"] if "lines" in d else [d["prog"]] if "prog" in d else None
        if lines is None:
            continue
        one = f + ".one"
        with open(one, "w") as g:
            g.write(json.dumps({"lines": lines}) + "\n")
        if subprocess.run([BIN, "record", one, one + ".out"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode < 0:
            return {"lines": lines}
    return None


# ---- the two directions ---------------------------------------------------------------------------------------------------
def run_model(prop, tier, work):
    module, cfg = model_cfg(prop, tier)
    r = tlc(work, "model", module, cfg, 3000)
    if not r["ok"]:
        raise Broken(f"the model {module} does not satisfy its own properties, or TLC failed:\n" + errs(r["text"]))
    return r


def replay(cases, out):
    r = json.loads(harness(["replay", cases, out], out))
    if r["violations"]:
        bad = [json.loads(l) for l in open(out)]
        bad = [b for b in bad if not known(b["case"]["prog"])]
        if bad:
            b = min(bad, key=lambda b: len(json.dumps(b["case"]["prog"])))
            raise Violation("case", b, f"{r['violations']} of {r['cases']} histories of the model go another way in the real code; {b['at']}: expected "
                            f"{json.dumps(b['expected'])[:400]}, got {json.dumps(b['got'])[:400]}")
    return r


def trace_cfg(prop, path):
    return f'SPECIFICATION TraceSpec\nCONSTANTS\n  TraceFile = "{path}"\n  Prop = "{prop}"\n'


def validate(prop, work, name, path, timeout=2400):
    """-> (states, None) when all traces are accepted, else (states, index of a rejected trace, line, event)"""
    r = tlc(work, name, "LNTrace", trace_cfg(prop, path), timeout)
    if r["ok"]:
        return r["distinct"], None
    if "Error: Deadlock reached." in r["text"]:
        at = {k: int(re.findall(r"/\\ " + k + r" = (\d+)", r["text"])[-1]) for k in ("tid", "ln", "l")}
        return r["distinct"], (at["tid"] - 1, at["ln"] - 1, at["l"])
    raise Broken("TLC failed on traces:\n" + errs(r["text"]))


def event(line, l):
    if l == 0:
        return "creation", line["cr"]
    if l <= len(line["rs"]):
        return f"run {json.dumps(line['runs'][l - 1])}", line["rs"][l - 1]
    k = l - len(line["rs"]) - 1
    return f"operation {json.dumps(line['ops'][k])}", line["res"][k]


def program(line):
    return {k: line[k] for k in ("input", "szf", "via", "mul", "pre", "fresh", "thr", "nest", "boom", "blind", "peek", "runs", "ops") if k in line}


def judge_traces(prop, work, path, chunk, stats):
    """validates recorded traces, in chunks"""
    with open(path) as f:
        lines = f.readlines()
    stats["traces"] += len(lines)
    for c in range(0, len(lines), chunk):
        part = path + ".part"
        with open(part, "w") as f:
            f.writelines(lines[c:c + chunk])
        states, bad = validate(prop, work, "trace", part)
        stats["trace_states"] += states
        if bad:
            t = json.loads(lines[c + bad[0]])
            ln = t["lines"][bad[1]]
            what, seen = event(ln, bad[2])
            if known(program(ln)):
                continue
            raise Violation("trace", {"lines": [program(x) for x in t["lines"]], "observed": t},
                            f"trace {c + bad[0]}, line {bad[1]}, {what}: the specification does not allow {json.dumps(seen)[:600]}")
    return lines


def c19_groups(model_out, out, seed):
    """the model's orders of runs, as traces of several lines with the same input"""
    by = {}
    for l in open(model_out):
        if l.startswith('"{'):
            p = json.loads(json.loads(l))["prog"]
            by.setdefault(json.dumps(p["input"]), []).append(p)
    rnd = random.Random(seed)
    n = 0
    with open(out, "w") as f:
        for k in sorted(by):
            ps = sorted(by[k], key=json.dumps)
            rnd.shuffle(ps)
            for i in range(0, len(ps), 6):
                g = ps[i:i + 6]
                f.write(json.dumps({"lines": g + [dict(g[0], fresh=1)]}) + "\n")
                n += 1
    return n


# ---- the binding is alive ---------------------------------------------------------------------------------------------------
def falsify(prop, trace):
    """A trace in which one observation the property is about is changed; None when there is nothing to change."""
    t = json.loads(json.dumps(trace))
    for ln in t["lines"]:
        if ln["cr"]["p"] != 0:
            continue
        texts = [k for k, x in enumerate(ln["cr"]["toks"]) if x[0] == 1]
        if prop == "C01":
            if texts:
                ln["cr"]["toks"][texts[-1]][2].append(33)
                return t
        elif prop == "C02":
            if texts and ln["cr"]["st"][1]:
                x = ln["cr"]["st"][1][0][2][0]
                x[1][0] = x[1][0] % 5 + 1
                return t
        elif prop == "C04":
            for ty in (2, 3, 4):
                if ln["cr"]["st"][ty]:
                    ln["cr"]["st"][ty].pop()
                    return t
        elif prop in ("C05", "C14", "C15", "C16", "C17", "C18", "C19"):
            want = {"C14": ["text"], "C15": ["amount"], "C16": ["kw"], "C17": ["clause"], "C18": ["pos"], "C05": ["assign"]}.get(prop)
            ty = {"C14": None, "C15": 7, "C16": 5, "C17": 6, "C18": 8, "C05": None, "C19": None}[prop]
            if prop == "C19":
                a, b = t["lines"][0], t["lines"][1]
                if a["rs"] and a["runs"] == b["runs"] and len(a["rs"]) == len(b["rs"]) and a["rs"][-1]["p"] == 0:
                    for cells in b["rs"][-1]["st"]:
                        if cells:
                            cells[-1][2][-1][1][0] += 1
                            return t
                return None
            k = next((k for k, r in enumerate(ln["runs"]) if r["r"] in want and k < len(ln["rs"]) and ln["rs"][k]["p"] == 0 and not ln["rs"][k]["skip"]), None)
            if k is None:
                continue
            types = [ty] if ty is not None else [2, 3]
            for ty in types:
                cells = ln["rs"][k]["st"][ty]
                before = (ln["rs"][k - 1] if k else ln["cr"])["st"][ty]
                if len(cells) > len(before):
                    cells.pop()
                    return t
        elif ln["res"]:
            for o, r in zip(ln["ops"], ln["res"]):
                if r["p"] == 0 and r["r"] and "wf" not in o:
                    r["r"].pop()
                    return t
    return None


def binding(prop, work, lines, model_out, stats):
    tries = 0
    for l in lines[:400]:
        t = falsify(prop, json.loads(l))
        if t is None:
            continue
        f = os.path.join(work, "false.json")
        with open(f, "w") as g:
            g.write(json.dumps(t) + "\n")
        _, bad = validate(prop, work, "false", f)
        if not bad:
            tries += 1
            if tries < 3:
                continue
            raise Broken("a falsified trace was accepted")
        stats["falsified_trace_rejected"] = True
        break
    if prop == "C19":
        return
    for l in open(model_out):
        if not l.startswith('"{'):
            continue
        c = json.loads(json.loads(l))
        own = c["own"]
        if "ops" in own and c["exp"]["res"]:
            r = next((r for r in c["exp"]["res"] if r["p"] == 0 and r["r"]), None)
            if r is None:
                continue
            r["r"].pop()
        elif any(o.startswith("run:") for o in own):
            kind = c["prog"]["runs"][-1]["r"] if c["prog"]["runs"] else None
            if "run:" + str(kind) not in own or not any(c["exp"]["rs"][-1]["st"]):
                continue
            next(x for x in c["exp"]["rs"][-1]["st"] if x).pop()
        elif "create" in own:
            if not any(c["exp"]["cr"]["st"]):
                continue
            next(x for x in c["exp"]["cr"]["st"] if x).pop()
        elif "joined" in own:
            if not c["exp"]["cr"]["toks"]:
                continue
            c["exp"]["cr"]["toks"].pop()
        f = os.path.join(work, "falsecase.json")
        with open(f, "w") as g:
            g.write(json.dumps(c) + "\n")
        r = json.loads(harness(["replay", f, f + ".out"], f + ".out"))
        if not r["violations"]:
            raise Broken("a falsified history was accepted")
        stats["falsified_history_rejected"] = True
        break


# ---- findings --------------------------------------------------------------------------------------------------------------
KNOWN = []


def load_known(prop):
    """lines `known: property=<id> prog=<json of the exact program> :: <what fails>`; `fixed:` lines suppress nothing"""
    f = os.path.join(HERE, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) prog=(.*) :: (.*)", l)
        if m and m.group(1) == prop:
            KNOWN.append([json.loads(m.group(2)), m.group(3), False])


def known(prog):
    for k in KNOWN:
        if k[0] == prog:
            k[2] = True
            return True
    return False


# ---- one check -----------------------------------------------------------------------------------------------------------------
def report(prop, v):
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    body = {"property": prop, "kind": v.kind, "what": v.what, "data": v.data}
    text = json.dumps(body, indent=1)
    path = os.path.join(HERE, "out", f"{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(text)
    say(f"{prop}: {v.what}")
    say(f"VIOLATION property={prop} replay={path}")
    return 1


def describe(prog):
    s = lambda cp: "".join(map(chr, cp))
    inp = [s(i["cp"]) if i["k"] == "T" else f"<custom {i['sz']}>" for i in prog["input"]]
    return {"inputs": inp, "runs": [r["r"] + (":" + r["ty"] if "ty" in r else "") for r in prog.get("runs", [])],
            "operations": len(prog.get("ops", [])), "first_operation": (prog.get("ops") or [None])[0]}


def samples_of(model_out, lines, seed):
    rnd = random.Random(seed)
    out = []
    n = 0
    pick = None
    for l in open(model_out):
        if l.startswith('"{'):
            n += 1
            if rnd.randrange(n) == 0:
                pick = l
    if pick:
        c = json.loads(json.loads(pick))
        out.append({"from": "model history", "program": describe(c["prog"]), "expected": {"tokens": len(c["exp"]["cr"]["toks"]), "last": (c["exp"]["res"] or [None])[-1]}})
    for l in rnd.sample(lines, min(2, len(lines))):
        t = json.loads(l)["lines"][0]
        out.append({"from": "random program", "program": describe(t), "observed": {"tokens": len(t["cr"]["toks"]), "last": (t["res"] or [None])[-1]}})
    return out


def check(prop, tier, seed):
    t0 = time.time()
    deep = tier == "thorough"
    work = os.path.join(HERE, ".work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    load_known(prop)
    stats = {"traces": 0, "trace_states": 0}
    marks = []

    def lap(name):
        marks.append((name, round(time.time() - t0, 1)))

    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}, "wall_s": 0, "violations": 0,
          "assumptions": ["the bounded model covers the choices listed in spec/" + PROPS[prop][0] + ".tla; beyond it, random programs are judged",
                          "facts about characters outside the specification's table, Unicode lower-casing outside it, dictionary entries and display widths "
                          "are taken from the libraries /repo uses"]}
    status = 0
    try:
        build()
        lap("build")
        m = run_model(prop, "deep" if deep else "quick", work)
        lap("model")
        cov = ev["coverage"]
        cov["states"], cov["transitions"] = m["distinct"], m["generated"]
        out = os.path.join(work, "replay.out")
        if prop == "C19":
            g = os.path.join(work, "orders.json")
            n = c19_groups(m["out"], g, seed)
            harness(["record", g, g + ".out"], g + ".out")
            judge_traces(prop, work, g + ".out", 300, stats)
            cov["model_order_groups_validated"] = n
            done = 0
        else:
            r = replay(m["out"], out)
            done = r["cases"] - r["inconclusive"]
            cov["model_histories_replayed"] = r["cases"]
            cov["model_histories_inconclusive"] = r["inconclusive"]
            cov["model_operations_compared"] = r["ops"] - r["nobase"]
            if done == 0:
                say(f"{prop}: no history of the model could be carried out: the code is not in the states the property is about")
        lap("replay")
        count = PROPS[prop][3][1 if deep else 0]
        step = 5000
        lines = []
        for k in range(0, count, step):
            tr = os.path.join(work, "traces.json")
            harness(["gen", prop, str(seed * 1000 + k // step), str(min(step, count - k)), tr], tr)
            lines = judge_traces(prop, work, tr, 1000 if prop != "C19" else 300, stats)
        lap("traces")
        if prop in ("C01", "C02"):
            before = stats["traces"]
            tr = os.path.join(work, "sweep.json")
            harness(["sweep", str(seed), "7" if deep else "499", tr], tr)
            judge_traces(prop, work, tr, 600, stats)
            cov["character_sweep_traces"] = stats["traces"] - before
            lap("sweep")
        binding(prop, work, lines, m["out"], stats)
        lap("binding")
        cov["traces_validated_against_impl"] = done + stats["traces"]
        cov["random_traces_validated"] = stats["traces"]
        cov["trace_validation_states"] = stats["trace_states"]
        cov["falsified_trace_rejected"] = stats.get("falsified_trace_rejected", False)
        cov["falsified_history_rejected"] = stats.get("falsified_history_rejected", False)
        cov["samples"] = samples_of(m["out"], lines, seed)
        for k in KNOWN:
            if k[2]:
                say(f"KNOWN-FINDING: property={prop} {k[1]}")
        say(f"{prop}: held; {cov['states']} states, {done} histories replayed, {stats['traces']} traces validated; " + ", ".join(f"{n} {t}s" for n, t in marks))
    except Violation as v:
        ev["violations"] = 1
        ev["coverage"]["samples"] = [{"violation": v.what[:2000]}]
        status = report(prop, v)
    except Broken as b:
        say(f"{prop}: the check itself failed: {b}")
        status = 2
    ev["wall_s"] = round(time.time() - t0, 2)
    if status != 2:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    shutil.rmtree(work, ignore_errors=True)
    return status


def replay_file(path):
    b = json.load(open(path))
    prop = b["property"]
    work = os.path.join(HERE, ".work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        build()
        f = os.path.join(work, "in.json")
        if b["kind"] == "case":
            with open(f, "w") as g:
                g.write(json.dumps(b["data"]["case"]) + "\n")
            replay(f, f + ".out")
        else:
            lines = b["data"]["lines"] if "lines" in b["data"] else [b["data"]["prog"]]
            with open(f, "w") as g:
                g.write(json.dumps({"lines": lines}) + "\n")
            harness(["record", f, f + ".out"], f + ".out")
            judge_traces(prop, work, f + ".out", 10, {"traces": 0, "trace_states": 0})
        say("not reproduced")
        return 0
    except Violation as v:
        say(f"{prop}: {v.what}")
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    except Broken as e:
        say(str(e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        try:
            build()
        except Broken as b:
            say(str(b))
            return 2
        return 0
    if a and a[0] == "--replay":
        return replay_file(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier if tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
