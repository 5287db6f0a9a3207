"""P15: parameter files"""
import glob, json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import vt

SEP = "\x1f"
WORDS = ["true", "false", "yes", "no", "on", "off", "1", "0", "True", "YES", "On", "hllc", "kelvin_helmholtz", "out put/dir", "-", "", "0x1F", "-17", "64", "1000000",
         "0.5", "1.4", "-2.5e-3", "1e-2", ".25", "3.", "+7", "0.333333", "12.125", "a;b", "x=y", "a#b", "[v]", "0xaB"]


def queries(doc, rng, k):
    """every section and key a document may define, asked for in any letter case, and some it does not"""
    secs, keys = {"", "none"}, {"none"}
    for l in doc:
        for m in re.findall(r"\[([^\]]*)\]", l):
            secs.add(m)
        if "=" in l:
            keys.add(l.split("=")[0].strip(" \t\r\f"))
            keys.add(l.split("=")[0].split(";")[0].strip(" \t\r\f"))
    keys.discard("")
    ok = lambda s: len(s) < 48 and all(32 <= ord(c) < 127 for c in s)
    P = [(s, q) for s in secs for q in keys if ok(s) and ok(q)]
    sw = lambda s: "".join(rng.choice([c.lower(), c.upper()]) for c in s)
    Q = []
    for s, q in rng.sample(P, min(len(P), k)):
        for t in ["string"] + rng.sample(["int", "float", "bool"], 2):
            d = {"string": "dflt", "int": rng.choice(["0", "-3", "12"]), "float": rng.choice(["0", "-0.25", "1.5"]), "bool": rng.choice(["0", "1"])}[t]
            Q.append((t, sw(s), sw(q), d))
    return Q


def blank(rng):
    return rng.choice(["", "", " ", "  ", "\t", " \t "])


def meant(rng):
    """a document a user might write"""
    L = []
    secs = rng.sample(["run", "Mesh", "HYDRO", "output", "s2_x", "a b"], rng.randrange(1, 4))
    keys = rng.sample(["nx", "tEnd", "Gamma0", "solver_name", "vtk-enabled", "k.1", "n x", "a" * 30], 4)
    if rng.random() < .2:
        L.append("%s = %s" % (rng.choice(keys), rng.choice(WORDS)))
    for _ in range(rng.randrange(2, 12)):
        u = rng.random()
        long = " " + "".join(rng.choice("abc =;[]#12 ") for _ in range(rng.randrange(150, 420)))
        if u < .2:
            L.append("[%s]%s" % (rng.choice(secs), rng.choice(["", " ", " ; comment = 3", "\r"])))
        elif u < .7:
            w = rng.choice(WORDS) if rng.random() < .7 else ("%%.%dg" % rng.randrange(1, 7)) % (rng.uniform(-3, 3) * 10 ** rng.randrange(-3, 3))
            if rng.random() < .06:
                w += long
            L.append("%s%s%s=%s%s%s" % ("" if rng.random() < .9 else " ", rng.choice(keys), blank(rng), blank(rng), w,
                                         rng.choice(["", "", blank(rng), " ; %s=9" % rng.choice(keys), "\t;", " ;" + long, "\r"])))
        elif u < .85:
            L.append(blank(rng) + rng.choice([";", "#", "# [x]", "; n=1", "", "#" + long, ";" + long.replace(" ", "="), ""]))
        elif u < .93:
            L.append(" " + blank(rng) + rng.choice(["more", "64", "; no", "[x]", "nx = 3 ; c"]))
        else:
            L.append(rng.choice(["junk", "[open", "a b c ; = 3", "[x ; ]", "nx 3", "=5", "]", "[]"]))
    return L


def soup(rng):
    return ["".join(rng.choice("aB=[]; #1.-\t\re") for _ in range(rng.randrange(0, 12))) for _ in range(rng.randrange(1, 7))]


def corrupt(e):
    e["ans"][-1]["err"] += 1


def check(run, t0):
    rng = random.Random(vt.SEED + 15)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    B = vt.build("drv", "drv_mpi")
    mc = pool.submit(vt.model, run, "MCIni", "MCIniT" if full else "MCIni")
    gen = run.path("docs.json")
    vt.model(run, "IniGen", "IniGen", out_env=dict(OUT=gen))
    docs = [["".join(l) for l in d] for d in json.load(open(gen))["docs"] if d]
    made = len(docs)
    if not full:
        docs = rng.sample(docs, 2400)
    docs = [("gen", d) for d in docs]
    docs += [("meant", meant(rng)) for _ in range(12000 if full else 1500)]
    docs += [("soup", soup(rng)) for _ in range(12000 if full else 1200)]
    for f in sorted(glob.glob(vt.REPO + "/settings/*.ini") + glob.glob(vt.REPO + "/test/**/*.ini", recursive=True)) if os.path.isdir(vt.REPO + "/settings") else []:
        t = open(f, "rb").read()
        if all(c < 127 for c in t):
            docs.append(("shipped", t.decode().split("\n")))
    d0 = run.sub("docs")
    D = []
    for i, (kind, d) in enumerate(docs):
        text = "\n".join(d) + ("\n" if rng.random() < .8 and d and d[-1] else "")
        lines = text.split("\n")
        if lines[-1] == "":
            lines.pop()
        D.append(dict(id="%s_%d" % (kind, i), text=text, lines=lines, q=queries(lines, rng, 40 if kind == "shipped" else 6), missing=False, mpi=kind == "shipped" or rng.random() < .35))
    D.append(dict(id="missing_0", text=None, lines=[], q=queries(["[run]", "nx=1"], rng, 4), missing=True, mpi=False))
    for e in D:
        if e["text"] is not None:
            open("%s/%s.ini" % (d0, e["id"]), "w", newline="").write(e["text"])
        open("%s/%s.q" % (d0, e["id"]), "w").write("".join(SEP.join(q) + "\n" for q in e["q"]))

    def cases(name, sel, ways):
        K = 8
        C = []
        for k in range(K):
            mine = sel[k::K]
            c = vt.Case("%s%d" % (name, k), {"run": {"solver_name": "Hydro_Muscl_2D"}}, [], dict(docs=mine, ways=ways))
            for e in mine:
                for w in (["iniread"] if e["missing"] else ways):
                    c.cmds += ["%s %s/%s.ini" % (w, d0, e["id"]), "gets %s/%s.q %s" % (d0, e["id"], w)]
            C.append(c)
        return C
    S = cases("ser", D, ["iniread", "inibuf", "inibcast"])
    M = cases("mpi", [e for e in D if e["mpi"]], ["iniread", "inibcast"])
    fs = [pool.submit(vt.run_cases, run, B["drv"], S, 1, 1, 300, "ser", 8), pool.submit(vt.run_cases, run, B["drv_mpi"], M, 3, 1, 300, "mpi", 4)]
    for f in fs:
        f.result()
    bad = []
    ans = {e["id"]: [] for e in D}
    for c in S + M:
        if not c.ok:
            bad.append(dict(id=c.id, why="the reader failed: %s" % c.err[-300:], cmds=c.cmds[:4]))
            continue
        for r, evs in enumerate(c.ev):
            g = [e for e in evs if e["ev"] == "gets"]
            it = iter(g)
            for e in c.meta["docs"]:
                for w in (["iniread"] if e["missing"] else c.meta["ways"]):
                    x = next(it)
                    a = [list(v) if q[0] == "string" else int(round(float(v) * 1e6)) if q[0] == "float" and abs(float(v)) < 2000 else 2000000000 if q[0] == "float"
                         else max(-2 * 10**9, min(2 * 10**9, int(v))) for q, v in zip(e["q"], x["a"])]
                    ans[e["id"]].append(dict(how="%s.%s" % (c.id[:3], w), rank=r, err=x["err"], a=a))
    dq = lambda t, d: list(d) if t == "string" else int(round(float(d) * 1e6)) if t == "float" else int(d)
    evs = []
    for e in D:
        if ans[e["id"]]:
            evs.append(dict(id=e["id"], doc=[list(l) for l in e["lines"]], missing=e["missing"], ans=ans[e["id"]],
                            q=[dict(t=t, sec=list(s), key=list(k), d=dq(t, d)) for t, s, k, d in e["q"]]))
    byid = {e["id"]: e for e in D}
    K = 7
    for f in [pool.submit(vt.validate, run, "TraceIni", "TraceIni", evs[i::K], "t%d" % i, 800, canary=corrupt) for i in range(K)]:
        for i, why in f.result():
            bad.append(dict(id=i, why=why, document=byid[i]["text"], queries=byid[i]["q"]))
    mc.result()
    pool.shutdown()
    run.samples = [dict(id=e["id"], document=byid[e["id"]]["text"][:200] if byid[e["id"]]["text"] else None) for e in evs[::max(1, len(evs) // 8)]]
    return vt.finish(run, bad, t0, rule="documents generated by the specification, documents a user might write, random characters and the shipped files; read from the file, from a "
                     "buffer, read on one process and broadcast to three; every answer and the reported line",
                     extra=dict(documents=len(evs), generated=made, answers=sum(len(a["a"]) for e in evs for a in e["ans"])))
