"""Builds the model checking executables from /repo's current working tree (everything goes to a directory
given by the caller; nothing is written to /repo or /verif)."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
LIB = os.path.join(REPO, "PTN_Engine")
INC = [REPO, LIB, LIB + "/include", LIB + "/ImportExport", LIB + "/ImportExport/include",
       LIB + "/ImportExport/XML/src"]
EXAMPLES = REPO if os.path.isdir(REPO + "/Examples") else "/repo"
INC += [EXAMPLES, EXAMPLES + "/Examples/PhoneMenu", EXAMPLES + "/Examples/Elevator"]
INSTR = ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-fno-pie", "-pthread", "-w", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def sources():
    r = []
    for d, dirs, files in os.walk(LIB):
        dirs[:] = [x for x in dirs if x.lower() not in ("tests", "test", "build")]
        for f in files:
            if f.endswith((".cpp", ".cc", ".cxx")):
                r.append(os.path.join(d, f))
    return sorted(r)


def build(out, harnesses, jobs=8):
    """Returns {harness: executable}."""
    os.makedirs(out, exist_ok=True)
    inc = [a for i in INC for a in ("-I", i)] + ["-I", VERIF + "/mc", "-I", VERIF + "/harness", '-DMC_EXAMPLES="%s"' % EXAMPLES]
    srcs = sources()
    objs, tasks = {}, []
    for i, s in enumerate(srcs):
        o = os.path.join(out, "lib%d_%s.o" % (i, os.path.basename(s)))
        objs[s] = o
        tasks.append(["g++"] + INSTR + inc + ["-c", s, "-o", o])
    first, rts = [], {}
    for h in harnesses:
        first.append(["g++"] + INSTR + inc + ["-c", VERIF + "/harness/%s.cpp" % h, "-o", out + "/h_%s.o" % h])
        m = re.search(r"^// MC_MAXF: (\d+)$", open(VERIF + "/harness/%s.cpp" % h).read(), re.M)
        maxf = m.group(1) if m else "32"
        rts[h] = os.path.join(out, "mcrt_%s.o" % maxf)
        cmd = ["g++", "-std=c++20", "-O2", "-g1", "-fno-pie", "-w", "-fno-tree-loop-distribute-patterns", "-DMC_MAXF=" + maxf,
               "-I", VERIF + "/mc", "-c", VERIF + "/mc/mcrt.cpp", "-o", rts[h]]
        if cmd not in first:
            first.append(cmd)
    if harnesses == ["selftest"]:
        tasks, objs = [], {}
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(_run, first + tasks))
    res = {}
    links = []
    for h in harnesses:
        exe = os.path.join(out, h)
        res[h] = exe
        links.append(["g++", "-no-pie", "-rdynamic", "-o", exe, out + "/h_%s.o" % h] + [objs[s] for s in srcs if s in objs] +
                     [rts[h], "-lpugixml", "-pthread"])
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(_run, links))
    return res


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
