"""refactor.py OUT.jsonl ROUNDS WORKERS [properties]: rewrites functions under contract without changing what they do
(locals renamed, bodies moved into helpers, loops rewritten, branches swapped, expressions named), and runs the
property's check on the result, which has to stay quiet. Works on copies under /tmp/mt."""
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

VERIF = mutate.VERIF


def own(fn):
    """nodes of the function, those of functions and comprehensions within it included"""
    return list(ast.walk(fn))


def params(fn):
    a = fn.args
    return {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}


def stored(fn):
    return {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.ClassDef)) for n in own(fn) if n is not fn)


def yields(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))


def rename(fn, rng):
    names = stored(fn) - params(fn)
    if not names or nested(fn):
        return None
    m = {n: "%s_%d" % (rng.choice(["val", "cur", "item", "tmp"]), i) for i, n in enumerate(sorted(names))}
    for n in own(fn):
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
    return [fn]


def helper(fn, rng):
    if fn.decorator_list or fn.name.startswith("__") or fn.args.vararg or fn.args.kwarg or yields(fn) or nested(fn):
        return None
    inner = copy.deepcopy(fn)
    inner.name = fn.name + "_impl"
    inner.args.defaults = []
    args = [a.arg for a in fn.args.args]
    if args[:1] == ["self"]:
        call = ast.parse("self.%s(%s)" % (inner.name, ", ".join(args[1:])), mode="eval").body
    elif getattr(fn, "in_class", False):
        return None
    else:
        call = ast.parse("%s(%s)" % (inner.name, ", ".join(args)), mode="eval").body
    fn.body = [ast.Return(call)]
    return [inner, fn]


class While(ast.NodeTransformer):
    n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) in (1, 2)
                and isinstance(node.target, ast.Name) and not node.orelse):
            return node
        if any(isinstance(x, ast.Continue) for b in node.body for x in ast.walk(b)):
            return node
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == node.target.id for b in node.body for x in ast.walk(b)):
            return node
        self.n += 1
        c, e = "count%d" % self.n, "end%d" % self.n
        lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
        hi = it.args[-1]
        return ast.parse("%s = %s\n%s = %s" % (c, ast.unparse(lo), e, ast.unparse(hi))).body + [
            ast.While(test=ast.parse("%s < %s" % (c, e), mode="eval").body,
                      body=ast.parse("%s = %s" % (node.target.id, c)).body + node.body + ast.parse("%s += 1" % c).body, orelse=[])]


class Swap(ast.NodeTransformer):
    n = 0

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            self.n += 1
            node.test = ast.UnaryOp(ast.Not(), node.test)
            node.body, node.orelse = node.orelse, node.body
        return node


class Flip(ast.NodeTransformer):
    n = 0
    O = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in self.O:
            self.n += 1
            return ast.Compare(node.comparators[0], [self.O[type(node.ops[0])]()], [node.left])
        return node


class Name(ast.NodeTransformer):
    """conditions and returned expressions get a name first"""
    n = 0

    def visit_If(self, node):
        self.generic_visit(node)
        self.n += 1
        return [ast.Assign([ast.Name("test%d" % self.n, ast.Store())], node.test),
                ast.If(ast.Name("test%d" % self.n, ast.Load()), node.body, node.orelse)]

    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        self.n += 1
        return [ast.Assign([ast.Name("outcome", ast.Store())], node.value), ast.Return(ast.Name("outcome", ast.Load()))]


class Plain(ast.NodeTransformer):
    """x += 1 written out, a and b as nested ifs, chained comparisons taken apart"""
    n = 0

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, (int, float)):
            self.n += 1
            return ast.Assign([node.target], ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op, node.value))
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And) and not node.orelse:
            self.n += 1
            v = node.test.values
            rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
            return ast.If(v[0], [ast.If(rest, node.body, [])], [])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 2 and isinstance(node.comparators[0], (ast.Name, ast.Constant)):
            self.n += 1
            m = node.comparators[0]
            return ast.BoolOp(ast.And(), [ast.Compare(node.left, node.ops[:1], [m]), ast.Compare(m, node.ops[1:], node.comparators[1:])])
        return node


class Each(ast.NodeTransformer):
    """for i in range(n) via a list; for x in xs via indices"""
    n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if isinstance(it, ast.Name) and isinstance(node.target, ast.Name) and not node.orelse and not any(
                isinstance(x, ast.Name) and x.id == it.id for b in node.body for x in ast.walk(b)):
            self.n += 1
            node.iter = ast.parse("enumerate(%s)" % it.id, mode="eval").body
            node.target = ast.Tuple([ast.Name("at%d" % self.n, ast.Store()), node.target], ast.Store())
        return node


class Early(ast.NodeTransformer):
    """if c: ... return x, else: ... -> no else"""
    n = 0

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)):
                self.n += 1
                out.append(ast.If(s.test, s.body, []))
                out += s.orelse
            else:
                out.append(s)
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse"):
            if isinstance(getattr(node, f, None), list):
                setattr(node, f, self.block(getattr(node, f)))
        return node


class Loop(ast.NodeTransformer):
    """the body of an innermost loop that leaves nothing behind but what it does to objects moves into a helper"""


def transform(cls):
    def go(fn, rng):
        t = cls()
        fn.body = [x for s in fn.body for x in (lambda r: r if isinstance(r, list) else [r])(t.visit(s))]
        return [fn] if t.n else None
    return go


def early(fn, rng):
    t = Early()
    t.generic_visit(fn)
    return [fn] if t.n else None


KINDS = dict(rename=rename, helper=helper, loops=transform(While), swap=transform(Swap), flip=transform(Flip), name=transform(Name),
             plain=transform(Plain), each=transform(Each), early=early)


def rewrite(src, quals, rng, kinds):
    """src with the functions of quals (Class.name or name) rewritten; what was done"""
    tree = ast.parse(mutate.plain(src))
    lines = src.splitlines(True)
    done = []
    todo = []
    for q in quals:
        body, node, parent = tree.body, None, None
        for part in q.split("."):
            parent = node
            node = next((x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part), None)
            if node is None:
                break
            body = node.body
        if isinstance(node, ast.FunctionDef):
            node.in_class = parent is not None
            todo.append((q, node))
    for q, node in sorted(todo, key=lambda x: -x[1].lineno):
        text = "".join(lines[node.lineno - 1:node.end_lineno])
        body = node.body[1:] if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else node.body
        code = "".join(lines[body[0].lineno - 1:node.end_lineno]) if body else ""
        if not body or "\\" in code or "print " in code:
            continue
        node.body = body
        ks = list(kinds)
        rng.shuffle(ks)
        used = []
        out = [node]
        for k in ks[:rng.choice([1, 1, 2])] if len(ks) > 1 else ks:
            f = copy.deepcopy(out[-1])
            f.in_class = node.in_class
            r = KINDS[k](f, rng)
            if r:
                out = out[:-1] + r
                used.append(k)
        if not used:
            continue
        col = node.col_offset
        new = "\n\n".join(ast.unparse(ast.fix_missing_locations(f)) for f in out)
        start = node.lineno - 1 - len(node.decorator_list)
        lines[start:node.end_lineno] = ["".join(" " * col + l + "\n" if l else "\n" for l in new.split("\n"))]
        done.append((q, used))
    return "".join(lines), done


def job(x):
    k, prop, kinds, seed = x
    rng = random.Random(seed)
    repo = "/tmp/mt/q%d_%d" % (os.getpid(), k)
    shutil.copytree(os.environ.get("MTBASE", "/repo"), repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    rec = dict(property=prop, kinds=kinds, seed=seed, done=[])
    try:
        by = {}
        for q, props in mutate.functions().items():
            if prop in props and os.path.exists(os.path.join(repo, q.split(".")[0] + ".py")):
                by.setdefault(q.split(".")[0], []).append(q.split(".", 1)[1])
        for mod, quals in by.items():
            p = os.path.join(repo, mod + ".py")
            src = open(p, newline="").read().replace("\r\n", "\n")
            if kinds is None:
                quals = [q for q in quals if rng.random() < 0.6]
            new, done = rewrite(src, quals, rng, kinds or list(KINDS))
            open(p, "w", newline="").write(new)
            rec["done"] += [("%s.%s" % (mod, q), u) for q, u in done]
        if not rec["done"]:
            rec["result"] = "nothing"
            return rec
        if not mutate.tests(repo):
            rec["result"] = "tests"
            return rec
        t0 = time.time()
        r = subprocess.run([os.path.join(VERIF, "check"), prop], env=dict(os.environ, PYVC_REPO=repo, PYVC_JOBS="3"), capture_output=True, text=True, timeout=2000)
        rec["s"] = round(time.time() - t0)
        rec["result"] = "quiet" if r.returncode == 0 else "ALARM %d" % r.returncode
        rec["open"] = [l for l in r.stdout.splitlines() if "not proved" in l]
        if r.returncode:
            rec["out"] = (r.stdout + r.stderr)[-3000:]
            rec["repo"] = repo
        rec["summary"] = (r.stdout.splitlines() or [""])[-1]
        return rec
    except subprocess.TimeoutExpired:
        rec["result"] = "TIMEOUT"
        return rec
    except Exception as ex:
        import traceback
        rec["result"] = "error " + traceback.format_exc()[-500:]
        return rec
    finally:
        if not rec.get("repo"):
            shutil.rmtree(repo, ignore_errors=True)


def main():
    out, rounds, workers, want = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    seed = int(os.environ.get("SEED", "1"))
    props = want or sorted({p for ps in mutate.functions().values() for p in ps})
    kinds = os.environ.get("KINDS")
    jobs = [(i * 100 + j, p, kinds.split(",") if kinds else None, seed * 1000 + i * 100 + j) for i in range(rounds) for j, p in enumerate(props)]
    with multiprocessing.Pool(workers, maxtasksperchild=1) as pool, open(out, "a") as f:
        for rec in pool.imap_unordered(job, jobs):
            f.write(json.dumps(rec) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
