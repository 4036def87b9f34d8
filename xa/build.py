"""Compiles witness translation units against /repo's current headers and loads their IR."""
import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys
import time

from .ir import Module, AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XMEM_REPO", "/repo")
INC = os.path.join(REPO, "code")
BUILD = os.path.join(HERE, "build")
CLANG = "clang++"

CONFIGS = {
    "17": ["-std=c++17"],
    "20": ["-std=c++20"],
    "17n": ["-std=c++17", "-DNDEBUG"],
    "20n": ["-std=c++20", "-DNDEBUG"],
    "17g": ["-std=c++17", "-include", os.path.join(HERE, "witness", "gccview.hpp")],
    "17o": ["-std=c++17", "-D__OPTIMIZE__"],
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def repo_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(INC)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, INC).encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def source_lines(path):
    with open(path, errors="replace") as f:
        return f.read().split("\n")


def active(cmd):
    """{header: its text which the preprocessor leaves}, or None."""
    hdrs = sorted(os.path.join(d, f) for d, _, fs in os.walk(INC) for f in fs if f.endswith((".hpp", ".h")))
    r = subprocess.run(cmd + ["-w", "-E", "-I" + INC, "-x", "c++", "-"], input="".join('#include "%s"\n' % h for h in hdrs), capture_output=True, text=True)
    if r.returncode:
        return None
    out, cur = {h: [] for h in hdrs}, None
    for l in r.stdout.split("\n"):
        m = re.match(r'# \d+ "(.*?)"', l)
        if m:
            cur = out.get(os.path.normpath(m.group(1)))
        elif cur is not None and not l.startswith("#"):
            cur.append("".join(l.split()))
    return {h: "".join(x) for h, x in out.items()}


def variants():
    """{configuration: headers which are another program there than in C++17 with assertions}"""
    out = os.path.join(BUILD, "variants-" + sha(repo_hash(), json.dumps(CONFIGS, sort_keys=True)))
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    cmds = {c: [CLANG] + CONFIGS[c] for c in CONFIGS}
    cmds["17g"] = ["g++"] + CONFIGS["17"]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        txt = dict(zip(cmds, ex.map(active, cmds.values())))
    ref = txt["17"]
    res = {}
    for c, t in txt.items():
        if ref and t and c != "17":
            d = sorted(h for h in t if t[h] != ref[h])
            if d:
                res[c] = [os.path.relpath(h, INC) for h in d]
    os.makedirs(BUILD, exist_ok=True)
    with open(out + ".%d" % os.getpid(), "w") as f:
        json.dump(res, f)
    os.replace(out + ".%d" % os.getpid(), out)
    return res


def irdump():
    src = os.path.join(HERE, "irdump", "irdump.cpp")
    with open(src, "rb") as f:
        key = sha(f.read())
    out = os.path.join(BUILD, "irdump-" + key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([CLANG, "-std=c++17", "-O1", "-fno-rtti", src, "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
                            "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                            "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib", "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build irdump:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
    return out


def module(name, source, defs=(), config="17"):
    """source: C++ text. Returns the loaded IR module."""
    tool = irdump()
    wdir = os.path.join(HERE, "witness")
    hdrs = b"".join(open(os.path.join(wdir, f), "rb").read() for f in sorted(os.listdir(wdir)))
    key = sha(repo_hash(), source, defs, config, hdrs, tool)
    os.makedirs(BUILD, exist_ok=True)
    base = os.path.join(BUILD, "%s-%s" % (name, key))
    js = base + ".json"
    if not (os.path.exists(js) and os.path.exists(base + ".dropped")):
        cpp = base + ".cpp"
        with open(cpp, "w") as f:
            f.write(source)
        bc = base + ".%d.bc" % os.getpid()
        cmd = [CLANG] + CONFIGS[config] + list(defs) + ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w",
                                                        "-I" + INC, "-I" + wdir, "-emit-llvm", "-c", cpp, "-o", bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        bad = {}
        if r.returncode:
            bad, rest = without_broken(base, source, CONFIGS[config] + list(defs) + ["-I" + INC, "-I" + wdir])
            if bad:
                with open(cpp, "w") as f:
                    f.write(rest)
                r2 = subprocess.run(cmd, capture_output=True, text=True)
            if not bad or r2.returncode:
                raise AnalysisError("witness %s does not compile (%s):\n%s" % (name, config, r.stderr[-4000:]))
        with open(base + ".dropped", "w") as f:
            json.dump(bad, f)
        r = subprocess.run([tool, bc, js + ".tmp%d" % os.getpid()], capture_output=True, text=True)
        os.remove(bc)
        if r.returncode:
            raise AnalysisError("irdump failed: " + r.stderr[-2000:])
        os.replace(js + ".tmp%d" % os.getpid(), js)
    m = Module(js)
    with open(base + ".dropped") as f:
        m.dropped = json.load(f)
    return m


WDEF = re.compile(r"^W .*?\b(\w+)\(.*\) \{.*\}$")


def without_broken(base, source, flags):
    """Finds the witness functions which do not compile on their own: {name: error}, and the source without them."""
    lines = source.split("\n")
    cand = {}
    pre = []
    for i, l in enumerate(lines):
        m = WDEF.match(l)
        if m:
            head = l[:l.index(" {")]
            name = re.match(r"^W .*?\b(\w+)\(", l).group(1)
            cand[i] = (name, l)
            pre.append(head + ";" if not l.startswith("W auto") else "")
        else:
            pre.append(l)
    hdr = base + ".%d.pre.hpp" % os.getpid()
    with open(hdr, "w") as f:
        f.write("\n".join(pre))
    pch = hdr + ".pch"
    try:
        r = subprocess.run([CLANG] + flags + ["-w", "-x", "c++-header", hdr, "-o", pch], capture_output=True, text=True)
        if r.returncode:
            return {}, source

        def one(i):
            q = subprocess.run([CLANG] + flags + ["-w", "-fsyntax-only", "-include-pch", pch, "-x", "c++", "-"], input=cand[i][1] + "\n",
                               capture_output=True, text=True)
            if not q.returncode:
                return None
            e = [x for x in q.stderr.split("\n") if "error:" in x]
            return e[0] if e else q.stderr[-300:]
        bad = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for i, e in zip(cand, ex.map(one, list(cand))):
                if e:
                    bad[cand[i][0]] = e
                    lines[i] = ""
        return bad, "\n".join(lines)
    finally:
        for f in (hdr, pch):
            if os.path.exists(f):
                os.remove(f)


def dropped(m, name):
    """The compiler's complaint about a function of the witness program, if there is one: (construct, text)."""
    e = m.dropped.get(name)
    if e is None:
        return None
    g = re.match(r"^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$", e)
    if g:
        return ((name, os.path.realpath(g.group(1)) if g.group(1).startswith("/") else "?", int(g.group(2))),), g.group(3)
    return ((name, "?", 0),), e
