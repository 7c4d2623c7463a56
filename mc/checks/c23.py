"""The environment of the process makes no difference."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import envjob
from mc.lib import REPO, need

RULE = ("every environment (locale and standard-output encodings, closed or missing standard streams, hash seeds, -O, -OO, -X dev, -bb, -E, "
        "working directories, umask-free temporary folders) x every job (documents from UTF-8 files and from memory, with names of many scripts, "
        "every history up to the bound, every kind of rejected document, version, tag, call and graph edit): results, rejections, "
        "documents, image references and saved files equal those of the plain environment; non-trivial: names are not ASCII and output is written")
ASSUMPTIONS = ["rejections are compared by built-in exception family and by what they leave; files by their JSON content read as UTF-8"]
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

ASCII = {"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}
ENVS = {
    "plain": ([], {}),
    "ascii locale": ([], ASCII),
    "ascii locale, -O": (["-O"], ASCII),
    "ascii output": ([], {"PYTHONIOENCODING": "ascii:strict"}),
    "latin output": ([], {"PYTHONIOENCODING": "iso8859-1:strict"}),
    "cp1252 output": ([], {"PYTHONIOENCODING": "cp1252:strict"}),
    "cp932 output": ([], {"PYTHONIOENCODING": "cp932:strict"}),
    "utf8 mode": (["-X", "utf8"], {"LC_ALL": "POSIX"}),
    "-O": (["-O"], {}),
    "-OO": (["-OO"], {}),
    "-bb": (["-bb"], {}),
    "dev": (["-X", "dev"], {}),
    "-S": (["-S"], {}),
    "seed 11": ([], {"PYTHONHASHSEED": "11"}),
    "seed 12": ([], {"PYTHONHASHSEED": "12"}),
    "bare": ([], None),
    "no output": ([], {}),
    "elsewhere": ([], {}),
}


def bounds(tier):
    return "%d environments x histories of length <= %d" % (len(ENVS), 1 if tier == "quick" else 2)


def cases(tier):
    for part in envjob.PARTS:
        for env in ENVS:
            yield [tier, part, env]


_plain = {}


def plain(tier, part, folder):
    if (tier, part) not in _plain:
        _plain[tier, part] = envjob.run_all(tier, part, folder)
    return _plain[tier, part]


def check(case, cov):
    tier, part, name = case
    flags, more = ENVS[name]
    env = {"PATH": os.environ.get("PATH", ""), "SPINE_REPO": REPO} if more is None else dict(os.environ, **more)
    folder = tempfile.mkdtemp(prefix="mc23-")
    target = os.path.join(folder, "answers")
    script = os.path.join(ROOT, "mc", "envjob.py")
    cmd = [sys.executable, "-B"] + flags + [script, tier, part, target]
    if name == "no output":
        cmd = ["sh", "-c", 'exec "$@" <&- >&- 2>/dev/null', "sh"] + cmd
    try:
        p = subprocess.run(cmd, cwd=folder if name == "elsewhere" else ROOT, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        need(os.path.exists(target), "%s: the process ended with %s: %s", name, p.returncode, ascii(p.stderr[-600:]))
        with open(target, "rb") as f:
            got = json.loads(f.read().decode("ascii"))
        want = plain(tier, part, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    todo = envjob.jobs(tier, part)
    need(len(got) == len(want) == len(todo), "%s: %d answers to %d jobs", name, len(got), len(todo))
    for job, g, w in zip(todo, got, want):
        what = envjob.REJECTED[job[1]] if job[0] == "rejected" else job[1]
        need(not isinstance(w, str) or not w.startswith("raised"), "%s: %s", ascii(what), w)
        need(g == w, "in the environment %r %s gives %s, not %s", name, ascii(what), ascii(g)[:500], ascii(w)[:500])
        if job[0] == "case":
            need(w[0] == w[1], "%s: the file gives %s, its content %s", ascii(what), ascii(w[0])[:500], ascii(w[1])[:500])
        cov.state([name, g])
        cov.step()
        cov.outcome(name)
    cov.trace(len(todo))
