"""CRIU checkpoints: what the shell is really asked to run, seen by stand-ins for criu and sudo."""

import contextlib, io, json, os, shlex, shutil, stat, sys, tempfile, time
from .. import gen

PROPERTY = "C25"
NEEDS_EXT = False
RULE = ("One evaluation is one aspect (program, process, directory, options, printed restart command, directory content, return before the "
        "dump ends) of one criuCheckpoint call, as the stand-in for criu or sudo received it. Distinct: by directory name, mode and history.")
REPEAT = 2
MIN_EVALS = 100
ASSUMPTIONS = ["criu and sudo are replaced by programs on a scratch PATH that record their arguments: no checkpoint is made",
               "the parent of the checkpoint directory exists"]

NAMES = ["criu_checkpoint", "ck", "with space", "two  spaces", "it's", 'quo"te', "$HOME", "x;vfnothing", "(p)", "a&b", "star*", "back\\slash", "tick`vfnothing`", "ünï", "-dash",
         "new|pipe", "q?", "#hash", "~", "{a,b}", "[x]", "<in", "!bang", "percent%s"]

RECORDER = """#!%s -S
import os, sys, time
d = os.path.dirname(os.path.abspath(__file__))
me = os.path.join(d, "rec.%%d.%%d" %% (time.time_ns(), os.getpid()))
open(me + ".tmp", "w").write(repr([os.path.basename(__file__)] + sys.argv[1:] + [os.getcwd()]))
os.rename(me + ".tmp", me)
for _ in range(600):
    if os.path.exists(os.path.join(d, "go")):
        break
    time.sleep(0.05)
else:
    open(me + ".timeout", "w").close()
open(me + ".end", "w").close()
"""


def setup():
    global criuCheckpoint
    from tfc.utils.TFCUtils import criuCheckpoint


def cases(rng, tier):
    q = tier == "quick"
    out = [{"name": n, "user": u, "seed": s} for n, s in zip(NAMES, gen.seeds(rng, len(NAMES))) for u in (False, True)]
    out += [{"name": None, "user": u, "seed": s} for u in (False, True) for s in gen.seeds(rng, 4 if q else 40)]
    rng.shuffle(out)
    return out


def options(argv):
    """The options of a criu call: name -> value."""
    val = {"-t": "tree", "--tree": "tree", "-D": "dir", "--images-dir": "dir", "-o": "log", "-W": "work", "--work-dir": "work", "-v": "v"}
    flag = {"-j": "--shell-job", "-R": "--leave-running"}
    out, i, rest = {}, 0, []
    while i < len(argv):
        a = argv[i]
        if a in val:
            out[val[a]] = argv[i + 1] if i + 1 < len(argv) else None
            i += 1
        elif "=" in a and a.split("=")[0] in val:
            out[val[a.split("=")[0]]] = a.split("=", 1)[1]
        elif a.startswith("-"):
            out[flag.get(a, a)] = True
        else:
            rest.append(a)
        i += 1
    return out, rest


def run(case, mon):
    r = gen.rng(case)
    box = tempfile.mkdtemp(dir=os.getcwd())
    bin_, work = os.path.join(box, "bin"), os.path.join(box, "work")
    os.mkdir(bin_)
    os.mkdir(work)
    for p in ("criu", "sudo"):
        with open(os.path.join(bin_, p), "w") as f:
            f.write(RECORDER % sys.executable)
        os.chmod(os.path.join(bin_, p), 0o755)
    here, path = os.getcwd(), os.environ["PATH"]
    os.environ["PATH"] = bin_ + os.pathsep + path
    os.chdir(work)
    try:
        for step in range(2):
            one(case, mon, r, bin_, work, step)
    finally:
        open(os.path.join(bin_, "go"), "w").close()
        os.environ["PATH"] = path
        os.chdir(here)
        time.sleep(0.1)
        shutil.rmtree(box, ignore_errors=True)


def one(case, mon, r, bin_, work, step):
    name, user = case["name"], case["user"]
    if name is None:
        k = r.integers(0, 4)
        name = "".join(str(v) for v in r.choice(list("ab c'\"$;&|*?()<>\\#~!%=+,.@^é-"), int(r.integers(1, 9)))).strip(". ") or "n"
        name = [name, "sub/" + name, os.path.join(work, name), None][int(k)]
        if name and name.startswith("sub/"):
            os.makedirs("sub", exist_ok=True)
    where = os.path.join(work, name or "criu_checkpoint")
    shown = "criuCheckpoint(%s, user_mode=%s)" % (repr(name) if name else "", user)
    key = (case["name"], name, user, step)
    exists = os.path.isdir(where)
    if not exists and r.integers(0, 3) == 0 and "/" not in (name or "x"):
        os.mkdir(where)
        exists = True
    keep = os.path.join(where, "earlier.img")
    if exists:
        open(keep, "w").write("kept")
    with contextlib.suppress(FileNotFoundError):
        os.unlink(os.path.join(bin_, "go"))
    old = set(os.listdir(bin_))
    before = set(os.listdir(work))
    buf = io.StringIO()
    kw = {"user_mode": user} if user or r.integers(0, 2) else {}
    with contextlib.redirect_stdout(buf):
        criuCheckpoint(name, **kw) if name else criuCheckpoint(**kw)
    end = time.time() + 60
    recs = []
    while time.time() < end:
        new = sorted(set(os.listdir(bin_)) - old)
        recs = [n for n in new if n.startswith("rec.") and n.count(".") == 2]
        if recs:
            break
        time.sleep(0.02)
    mon.check(bool(recs), "run", key, lambda: "%s: no dump was started (neither criu nor sudo was run)" % shown)
    mon.check(not any(n.endswith(".end") for n in os.listdir(bin_) if n not in old), "background", key, lambda: "%s returned only after the dump had ended" % shown)
    open(os.path.join(bin_, "go"), "w").close()
    while time.time() < end and not any(n.endswith(".end") for n in os.listdir(bin_) if n not in old):
        time.sleep(0.02)
    new = sorted(set(os.listdir(bin_)) - old)
    recs = [n for n in new if n.startswith("rec.") and n.count(".") == 2]
    mon.check(len(recs) == 1, "run once", key, lambda: "%s ran %d programs" % (shown, len(recs)))
    argv = eval(open(os.path.join(bin_, recs[0])).read())[:-1]
    mon.check((argv[0] == "sudo") == (not user), "privileges", key, lambda: "%s ran %r" % (shown, argv), sample=argv)
    cmd = argv if argv[0] == "criu" else argv[1:]
    mon.check(cmd[:2] == ["criu", "dump"], "command", key, lambda: "%s ran %r" % (shown, argv))
    opt, rest = options(cmd[2:])
    mon.check(not rest, "command", key, lambda: "%s ran %r: %r is not part of an option" % (shown, argv, rest))
    mon.check(opt.get("tree") == str(os.getpid()), "process", key, lambda: "%s dumps process %r instead of %d" % (shown, opt.get("tree"), os.getpid()))
    d = opt.get("dir")
    mon.check(d is not None and os.path.isabs(d) and os.path.realpath(d) == os.path.realpath(where), "directory", key, lambda: "%s writes to %r instead of %r (%r)" % (shown, d, where, argv))
    mon.check(os.path.isdir(where), "directory exists", key, lambda: "%s: %r does not exist" % (shown, where))
    mon.check("--shell-job" in opt and "--leave-running" in opt, "options", key, lambda: "%s ran %r, without --shell-job or --leave-running" % (shown, argv))
    mon.check(("--unprivileged" in opt) == user, "options", key, lambda: "%s ran %r; --unprivileged is for user_mode" % (shown, argv))
    known = {"tree", "dir", "--shell-job", "--leave-running", "--unprivileged", "log", "work", "v"}
    mon.check(set(opt) <= known, "options", key, lambda: "%s ran %r with options criu does not know: %s" % (shown, argv, sorted(set(opt) - known)))
    if exists:
        mon.check(open(keep).read() == "kept", "earlier content", key, lambda: "%s removed what was in the directory" % shown)
    extra = set(os.listdir(work)) - before - {os.path.relpath(where, work).split(os.sep)[0]}
    mon.check(not extra, "other files", key, lambda: "%s created %s" % (shown, sorted(extra)))
    text = buf.getvalue()
    mon.check("restore" in text and "run:" in text, "restart command", key, lambda: "%s printed %r" % (shown, text))
    try:
        words = shlex.split(text.split("run:", 1)[1].strip())
    except ValueError as ex:
        mon.fail("%s: the printed restart command cannot be run: %s (%s)" % (shown, text, ex))
    words = words[1:] if words[0] == "sudo" else words
    mon.check(words[:2] == ["criu", "restore"], "restart command", key, lambda: "%s printed %r" % (shown, text))
    opt, rest = options(words[2:])
    mon.check(not rest and opt.get("dir") is not None and os.path.realpath(opt["dir"]) == os.path.realpath(where) and "--shell-job" in opt,
              "restart command", key, lambda: "%s printed %r, which does not restore from %r" % (shown, text, where))
