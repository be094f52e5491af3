#!/usr/bin/env python3
"""Mutation testing: which small changes of the project do the checks miss?

mutate.py test OUT.json [FILE...]          make all mutants, keep those that pass the existing tests
mutate.py run OUT.json CHECK,CHECK...|auto [-j N]   run checks (reduced, see VF_SCALE) on mutants that were not caught yet
mutate.py show OUT.json                    list the mutants that were not caught

Everything happens in scratch copies; the mutants are written with ast.unparse.
"""
import ast
import concurrent.futures
import copy
import difflib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PACKAGE = "dataladmetadatamodel"
FILES = ["common.py", "datasettree.py", "filetree.py", "mappableobject.py", "metadata.py", "metadatapath.py", "metadatarootrecord.py", "metadatasource.py",
         "modifiableobject.py", "mtreenode.py", "mtreeproxy.py", "text.py", "uuidset.py", "versionlist.py", "mapper/__init__.py", "mapper/mapper.py",
         "mapper/reference.py", "mapper/gitmapper/gitblobcache.py", "mapper/gitmapper/localcache.py", "mapper/gitmapper/metadatamapper.py",
         "mapper/gitmapper/metadatarootrecordmapper.py", "mapper/gitmapper/mtreenodemapper.py", "mapper/gitmapper/objectreference.py",
         "mapper/gitmapper/textmapper.py", "mapper/gitmapper/treeupdater.py", "mapper/gitmapper/utils.py", "mapper/gitmapper/uuidsetmapper.py",
         "mapper/gitmapper/versionlistmapper.py", "mapper/gitmapper/gitbackend/subprocess.py"]
# The checks that look at the behaviour of a file most directly ("run OUT.json auto")
AUTO = {
    "common.py": "C20,C10,C23,C21,C17", "datasettree.py": "C13,C02,C05", "filetree.py": "C13,C02,C03,C05", "mappableobject.py": "C02,C03,C05,C04,C21,C22,C17,C23",
    "metadata.py": "C14,C01,C15,C02,C05,C22,C03", "metadatapath.py": "C12,C13", "metadatarootrecord.py": "C02,C03,C05,C21,C23", "metadatasource.py": "C18,C15",
    "modifiableobject.py": "C03,C02,C04", "mtreenode.py": "C13,C02,C03,C05,C21,C23,C04", "mtreeproxy.py": "C13,C02,C03,C05,C06,C10,C04", "text.py": "C01,C05,C03",
    "uuidset.py": "C25,C02,C03,C05,C23,C21", "versionlist.py": "C25,C02,C03,C05,C20,C21,C22", "mapper/__init__.py": "C01,C02", "mapper/mapper.py": "C16,C15,C01",
    "mapper/reference.py": "C15,C16,C01,C17,C22", "mapper/gitmapper/gitblobcache.py": "C19,C10,C01", "mapper/gitmapper/localcache.py": "C17",
    "mapper/gitmapper/metadatamapper.py": "C01,C02,C06,C10", "mapper/gitmapper/metadatarootrecordmapper.py": "C01,C16,C02,C06,C22",
    "mapper/gitmapper/mtreenodemapper.py": "C01,C16,C02,C13,C06", "mapper/gitmapper/objectreference.py": "C07,C06,C11,C10,C24",
    "mapper/gitmapper/textmapper.py": "C01,C05", "mapper/gitmapper/treeupdater.py": "C08,C07", "mapper/gitmapper/utils.py": "C11,C08,C01",
    "mapper/gitmapper/uuidsetmapper.py": "C25,C16,C02,C22", "mapper/gitmapper/versionlistmapper.py": "C25,C16,C02,C06,C22",
    "mapper/gitmapper/gitbackend/subprocess.py": "C01,C10,C17,C24,C20,C07,C23"}
SCRATCH = os.environ.get("TMPDIR", "/dev/shm")


def is_noise(node):
    """Logging, documentation, type assertions"""
    if isinstance(node, ast.Expr):
        if isinstance(node.value, ast.Constant):
            return True
        text = ast.unparse(node)
        return text.startswith(("logger.", "super().__init__"))
    return isinstance(node, ast.Assert) and "isinstance" in ast.unparse(node.test)


def boolean(value):
    return ast.Constant(value)


COMPARE = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
           ast.In: ast.NotIn, ast.NotIn: ast.In}


def variants(node):
    """-> [(description, replacement for the node)]"""
    result = []
    if isinstance(node, (ast.If, ast.IfExp)):
        for what, test in (("always", boolean(True)), ("never", boolean(False))):
            new = copy.deepcopy(node)
            new.test = test
            result.append((what, new))
    if isinstance(node, ast.BoolOp):
        for n in range(len(node.values)):
            new = copy.deepcopy(node)
            del new.values[n]
            result.append((f"without operand {n}", new if len(new.values) > 1 else new.values[0]))
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in COMPARE:
        new = copy.deepcopy(node)
        new.ops[0] = COMPARE[type(node.ops[0])]()
        result.append(("other comparison", new))
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            result.append(("other value", boolean(not node.value)))
        elif isinstance(node.value, int):
            result += [("plus 1", ast.Constant(node.value + 1))]
        elif isinstance(node.value, str) and node.value in ("", "/", "\n", "\t", " ", ".", "/.git", ".git", '"', "\\"):
            result.append(("other string", ast.Constant("x" if node.value == "" else "")))
    if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        new = copy.deepcopy(node)
        new.value = ast.Constant(None)
        result.append(("returns None", new))
    if isinstance(node, ast.With):
        new = copy.deepcopy(node)
        if all(i.optional_vars is None for i in node.items):
            result.append(("without context", ast.If(test=boolean(True), body=new.body, orelse=[])))
    if isinstance(node, ast.comprehension) and node.ifs:
        new = copy.deepcopy(node)
        new.ifs = []
        result.append(("without filter", new))
    if isinstance(node, ast.Call):
        for n, k in enumerate(node.keywords):
            if k.arg is not None:
                new = copy.deepcopy(node)
                del new.keywords[n]
                result.append((f"without argument {k.arg}", new))
        if len(node.args) > 1 and not any(isinstance(a, ast.Starred) for a in node.args):
            new = copy.deepcopy(node)
            new.args = new.args[:-1]
            result.append(("without last argument", new))
    if isinstance(node, ast.List) and len(node.elts) > 1 and isinstance(node.ctx, ast.Load):
        for n in range(len(node.elts)):
            new = copy.deepcopy(node)
            del new.elts[n]
            result.append((f"without element {n}", new))
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Div)):
        result += [("left only", copy.deepcopy(node.left)), ("right only", copy.deepcopy(node.right))]
    if isinstance(node, ast.Try) and node.handlers:
        new = copy.deepcopy(node)
        new.handlers = []
        if new.finalbody:
            result.append(("without handlers", new))
        else:
            result.append(("without handlers", ast.If(test=boolean(True), body=new.body + new.orelse, orelse=[])))
    if isinstance(node, ast.stmt) and isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete, ast.Continue, ast.Break)):
        result.append(("deleted", ast.Pass()))
    if isinstance(node, ast.Return):
        result.append(("return deleted", ast.Pass()))
    return result


def mutants(source):
    """-> [(line, description, source)]"""
    tree = ast.parse(source)
    result, base = [], ast.unparse(tree)

    def skip(node):
        return isinstance(node, (ast.Import, ast.ImportFrom)) or isinstance(node, ast.stmt) and is_noise(node)

    def visit(node):
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(value, list):
                for n, item in enumerate(value):
                    if isinstance(item, ast.AST) and not skip(item):
                        for what, new in variants(item):
                            value[n] = new
                            emit(item, what)
                            value[n] = item
                        visit(item)
            elif isinstance(value, ast.AST) and not skip(value):
                for what, new in variants(value):
                    setattr(node, field, new)
                    emit(value, what)
                    setattr(node, field, value)
                visit(value)

    def emit(item, what):
        try:
            text = ast.unparse(ast.fix_missing_locations(tree))
            compile(text, "x", "exec")
        except Exception:
            return
        if text != base:
            result.append((getattr(item, "lineno", 0), what + ": " + ast.unparse(item).split("\n")[0][:100], text))
    visit(tree)
    return result


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", stdin=subprocess.DEVNULL, **kw)


TEST = """export HOME=$W/home LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 GIT_TERMINAL_PROMPT=0 TMPDIR=$W/tmp XDG_CACHE_HOME=$W/cache
export GIT_CONFIG_COUNT=3 GIT_CONFIG_KEY_0=init.defaultBranch GIT_CONFIG_VALUE_0=main GIT_CONFIG_KEY_1=user.email GIT_CONFIG_VALUE_1=a@b
export GIT_CONFIG_KEY_2=user.name GIT_CONFIG_VALUE_2=Test
mkdir -p $W/tmp $W/home; cd $W/repo && exec timeout 120 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=60 dataladmetadatamodel \
 --ignore=dataladmetadatamodel/tests/test_remote.py --ignore=dataladmetadatamodel/mapper/gitmapper/tests/test_localcache.py"""


class Pool:
    """Scratch copies of the project"""
    def __init__(self, count, verif=False):
        self.base = tempfile.mkdtemp(prefix="mutate-", dir=SCRATCH)
        self.free = queue.Queue()
        for n in range(count):
            work = os.path.join(self.base, str(n))
            os.makedirs(work)
            shutil.copytree(REPO, work + "/repo", symlinks=True, ignore=shutil.ignore_patterns("*.pyc"))
            self.free.put(work)
        if verif:
            shutil.copytree(VERIF, self.base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def apply(self, work, mutant, func):
        path = os.path.join(work, "repo", PACKAGE, mutant["file"])
        original = open(path).read()
        try:
            with open(path, "w") as f:
                f.write(mutant["source"])
            return func(work)
        finally:
            with open(path, "w") as f:
                f.write(original)


def passes(pool, mutant):
    work = pool.free.get()
    try:
        def func(work):
            r = sh(["bash", "-c", TEST], env=dict(os.environ, W=work))
            shutil.rmtree(work + "/tmp", ignore_errors=True)
            return r.returncode == 0
        return pool.apply(work, mutant, func)
    finally:
        pool.free.put(work)


def caught(pool, mutant, checks, shards):
    work = pool.free.get()
    try:
        def func(work):
            for check in checks or AUTO[mutant["file"]].split(","):
                if check in mutant["missed"]:
                    continue
                env = dict(os.environ, VF_REPO=work + "/repo", VF_SHARDS=str(shards), VF_SHRINK="0")
                r = sh([pool.base + "/verif/check.py", check, "--seed", "1"], env=env)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    return check
                if r.returncode == 0:
                    mutant["missed"].append(check)
                else:
                    mutant["error"] = check + ": " + r.stdout[-300:]
            return None
        return pool.apply(work, mutant, func)
    finally:
        pool.free.put(work)


def save(path, found):
    with open(path + ".tmp", "w") as f:
        json.dump(found, f, indent=1)
    os.rename(path + ".tmp", path)


def main():
    cmd, out, *args = sys.argv[1:]
    jobs = 8
    if "-j" in args:
        n = args.index("-j")
        jobs = int(args[n + 1])
        del args[n:n + 2]
    if cmd == "test":
        found = []
        for name in args or FILES:
            source = open(os.path.join(REPO, PACKAGE, name)).read()
            for line, what, text in mutants(source):
                found.append({"file": name, "line": line, "what": what, "source": text, "caught": None, "missed": []})
        print(len(found), "mutants", flush=True)
        pool = Pool(jobs)
        kept = []
        try:
            with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
                for n, (mutant, ok) in enumerate(zip(found, ex.map(lambda x: passes(pool, x), found))):
                    if ok:
                        kept.append(mutant)
                    if n % 100 == 0:
                        print(n, len(kept), flush=True)
        finally:
            pool.close()
        save(out, kept)
        print(len(kept), "mutants pass the tests")
    elif cmd == "run":
        found = json.load(open(out))
        checks = None if args[0] == "auto" else args[0].split(",")
        for x in found:
            x.setdefault("error", "")
        todo = [x for x in found if x["caught"] is None and not x.get("equivalent")]
        pool = Pool(jobs, True)
        try:
            with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
                for n, (mutant, check) in enumerate(zip(todo, ex.map(lambda x: caught(pool, x, checks, max(1, 8 // jobs)), todo))):
                    mutant["caught"] = check
                    save(out, found)
                    print(n, len(todo), mutant["file"], mutant["line"], mutant["what"], "->", check, flush=True)
        finally:
            pool.close()
    elif cmd == "show":
        for n, x in enumerate(json.load(open(out))):
            if x["caught"] is None and not x.get("equivalent"):
                print(n, x["file"], x["line"], x["what"], "missed", len(x["missed"]), x.get("error", "")[:200])


main()
