"""mutate.py OUT.jsonl PER_PROPERTY WORKERS [properties]: small changes (operators, constants, statements left out) to
the functions under contract; those the repository's tests let pass are given to the property's check. A change neither
notices is either of no consequence or a gap: OUT.jsonl lists them for reading. Works on copies under /tmp/mt."""
import ast
import importlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*"}


def plain(src):
    """what Python 2 reads as a plain backslash, in as many characters"""
    return re.sub(r"\\(?=[NuUx])", "/", src)


def functions():
    """qualified function -> properties whose contracts name it"""
    out = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "specs"))):
        if f[0] == "C" and f[1:3].isdigit():
            m = importlib.import_module("specs." + f[:3])
            for c in m.CONTRACTS:
                for q in c.functions:
                    out.setdefault(q, set()).add(f[:3])
    return out


def changes(src, fn):
    """(start, end, text) replacements within one function"""
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def at(line, col):
        return off[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
    doc = fn.body[0].value if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    for n in ast.walk(fn):
        if n is doc:
            continue
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = span(left)[1], span(right)[0]
                for new in CMP.get(type(op), []):
                    yield a, b, src[a:b].replace(opname(op), new, 1)
                left = right
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%"}[type(n.op)]
            if o in src[a:b] and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                yield a, b, src[a:b].replace(o, BIN[type(n.op)], 1)
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            o, p = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            yield a, b, src[a:b].replace(o, p, 1)
            for k, v in enumerate(n.values):
                x, y = span(v)
                yield x, y, "True" if isinstance(n.op, ast.And) else "False"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            c, d = span(n.operand)
            yield a, b, "(" + src[c:d] + ")"
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            a, b = span(n)
            v = n.value
            for w in ([v + 1, v - 1] if isinstance(v, int) or v == int(v) else [v * 1.1, v * 0.9]):
                yield a, b, repr(w) if w >= 0 else "(%r)" % w
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = span(n)
            if "print" not in src[a:b][:6]:
                yield a, b, "pass"
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
            a, b = span(n.test)
            yield a, b, "not (" + src[a:b] + ")"
        elif isinstance(n, (ast.Break, ast.Continue)):
            a, b = span(n)
            yield a, b, "pass"


def opname(op):
    return {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
            ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(op)]


def mutants(repo, per, want, rng):
    fs = functions()
    by = {}
    for q, props in fs.items():
        if q.split(".")[0] + ".py" not in os.listdir(repo):
            continue
        mod, rest = q.split(".", 1)
        p = os.path.join(repo, mod + ".py")
        src = open(p, newline="").read()
        if "\r" in src:
            src = src.replace("\r\n", "\n")
        tree = ast.parse(plain(src))
        body, node = tree.body, None
        for part in rest.split("."):
            node = next((x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part), None)
            if node is None:
                break
            body = node.body
        if not isinstance(node, ast.FunctionDef):
            continue
        cs = sorted(set(changes(src, node)))
        for prop in props:
            if not want or prop in want:
                by.setdefault(prop, []).append((q, p, cs))
    out = []
    for prop in sorted(by):
        pool = [(q, os.path.basename(p), c) for q, p, cs in by[prop] for c in cs]
        rng.shuffle(pool)
        # round robin over the functions, so that long ones do not crowd out short ones
        groups = {}
        for x in pool:
            groups.setdefault(x[0], []).append(x)
        pick = []
        while len(pick) < per and any(groups.values()):
            for g in list(groups.values()):
                if g and len(pick) < per:
                    pick.append(g.pop())
        out += [(prop,) + x for x in pick]
    rng.shuffle(out)
    return out


def tests(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/tmp/mt/py2", MTREPO=repo, PYTHONHASHSEED="0", TZ="UTC",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", SCRATCH="/scratch/hadjj")
    x = repo + ".xml"
    if os.path.exists(x):
        os.unlink(x)
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "py2compat", "-p", "pytest_timeout", "--assert=plain",
                    "-p", "no:cacheprovider", "--timeout=60", "--tb=no", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    passed = {"::".join((c.get("classname"), c.get("name"))) for c in ET.parse(x).getroot().iter("testcase")
              if c.find("failure") is None and c.find("error") is None}
    return STABLE <= passed


STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def job(x):
    k, (prop, q, f, (a, b, new)) = x
    repo = "/tmp/mt/r%d" % os.getpid()
    if not os.path.exists(repo):
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    p = os.path.join(repo, f)
    orig = open(p, newline="").read()
    crlf = "\r\n" in orig
    src = orig.replace("\r\n", "\n")
    mut = src[:a] + new + src[b:]
    line = src.count("\n", 0, a) + 1
    rec = dict(property=prop, function=q, file=f, line=line, old=src[a:b], new=new, text=src.splitlines()[line - 1].strip())
    try:
        compile(plain(mut), f, "exec")
        open(p, "w", newline="").write(mut.replace("\n", "\r\n") if crlf else mut)
        try:
            if not tests(repo):
                rec["result"] = "tests"
                return rec
        except Exception as ex:
            rec["result"] = "tests " + repr(ex)[:80]
            return rec
        env = dict(os.environ, PYVC_REPO=repo, PYVC_JOBS="2")
        r = subprocess.run([os.path.join(VERIF, "check"), prop], env=env, capture_output=True, text=True, timeout=1500)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        rec["result"] = "caught" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "error %d" % r.returncode
        rec["open"] = [l for l in r.stdout.splitlines() if "not proved" in l][:3]
        if r.returncode not in (0, 1):
            rec["out"] = (r.stdout + r.stderr)[-600:]
        rec["summary"] = (r.stdout.splitlines() or [""])[-1]
    except SyntaxError:
        rec["result"] = "syntax"
    except subprocess.TimeoutExpired:
        rec["result"] = "timeout"
    finally:
        open(p, "w", newline="").write(orig)
    return rec


def main():
    out, per, workers, want = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rng = random.Random(int(os.environ.get("SEED", "1")))
    ms = list(enumerate(mutants("/repo", per, want, rng)))
    print(len(ms), "changes", flush=True)
    os.makedirs("/tmp/mt/py2", exist_ok=True)
    with open("/opt/vp/py2compat/py2compat.py") as f, open("/tmp/mt/py2/py2compat.py", "w") as g:  # for copies of /repo
        g.write(f.read().replace('REPO = "/repo"', 'REPO = __import__("os").environ["MTREPO"]'))
    with multiprocessing.Pool(workers) as pool, open(out, "w") as f:
        for rec in pool.imap_unordered(job, ms):
            f.write(json.dumps(rec) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
