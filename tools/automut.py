"""Mechanical mutants of the agent, run against the checks (development only).

python3 tools/automut.py list                      all mutants
python3 tools/automut.py run SEED FIRST COUNT OUT  a shuffled slice: runs the checks of the file until one catches it
python3 tools/automut.py diff ID                   the change
"""
import ast
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PROPS = {
    "app.py": "C29 C27", "client.py": "C29 C24 C25 C27 C03", "clockcheck.py": "C28", "constants.py": "C29 C27",
    "device_meta.py": "C31", "directory_scanner.py": "C22 C23", "disk_tools.py": "C27 C18", "iptool.py": "C31",
    "jsonrpc.py": "C26", "limiter.py": "C09", "m2mmanager.py": "C17 C03 C09 C30",
    "portforward.py": "C12 C11 C10 C09", "remote_directory.py": "C19 C20 C21 C18 C23", "rpi.py": "C31",
    "scan_directory.py": "C22 C23 C21", "tags.py": "C25", "m2m/bencode.py": "C02 C01",
    "m2m/commandservice.py": "C14 C09", "m2m/dispatcher.py": "C02 C01", "m2m/echoservice.py": "C08",
    "m2m/fileservice.py": "C13 C09", "m2m/packetbase.py": "C02 C01", "m2m/packets.py": "C02",
    "m2m/proxy.py": "C16 C15", "m2m/remoteprocess.py": "C15 C16 C09", "m2m/wsclient.py": "C03 C05 C04 C30 C07 C06 C08 C01",
}
ROR = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
SKIP_FUNCS = ("__repr__", "__unicode__", "__str__")


def offsets(src):
    out = [0]
    for line in src.splitlines(True):
        out.append(out[-1] + len(line.encode("utf-8")))
    return out


def span(node, off):
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset


def is_log(node):
    t = ast.unparse(node)
    return t.startswith(("log.", "logging.", "print(", "warnings."))


def mutants(fn):
    src = open(os.path.join(REPO, "dataplicity", fn)).read()
    b = src.encode("utf-8")
    off = offsets(src)
    tree = ast.parse(src)
    out = []

    def add(node, new, kind):
        s, e = span(node, off)
        if b[s:e].decode() != new:
            out.append((s, e, new, kind, node.lineno))

    def expr(node):
        if is_log(node):
            return
        for n in ast.walk(node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in ROR:
                add(n, "%s %s %s" % (ast.unparse(n.left), ROR[type(n.ops[0])], ast.unparse(n.comparators[0])), "ror")
            elif isinstance(n, ast.BoolOp):
                for v in n.values:
                    rest = [ast.unparse(x) for x in n.values if x is not v]
                    add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "bool")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, "(" + ast.unparse(n.operand) + ")", "not")
            elif isinstance(n, ast.Constant):
                if n.value is True or n.value is False:
                    add(n, repr(not n.value), "const")
                elif isinstance(n.value, int):
                    add(n, repr(n.value + 1), "const")
                elif isinstance(n.value, float):
                    add(n, repr(n.value * 10), "const")
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, "%s %s %s" % (ast.unparse(n.left), "-" if isinstance(n.op, ast.Add) else "+",
                                     ast.unparse(n.right)), "arith")
            elif isinstance(n, ast.Call) and len(n.keywords) and not is_log(n):
                for k in n.keywords:
                    if k.arg:
                        c = ast.parse(ast.unparse(n), mode="eval").body
                        c.keywords = [x for x in c.keywords if x.arg != k.arg]
                        add(n, ast.unparse(c), "kw")

    def block(stmts):
        for n in stmts:
            stmt(n)

    def stmt(n):
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant) or is_log(n.value):
                return
            add(n, "pass", "del")
            expr(n.value)
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                add(n, "pass", "del")
            elif isinstance(n, ast.AugAssign):
                add(n, "pass", "del")
            expr(n.value)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                    add(n, "return None", "ret")
                expr(n.value)
            else:
                add(n, "pass", "del")
        elif isinstance(n, (ast.Delete, ast.Raise, ast.Continue, ast.Break, ast.Assert)):
            add(n, "pass", "del")
        elif isinstance(n, (ast.If, ast.While)):
            if not isinstance(n.test, ast.Constant):
                if isinstance(n, ast.If):
                    add(n.test, "False", "cond")
                    add(n.test, "True", "cond")
                expr(n.test)
            block(n.body)
            block(n.orelse)
        elif isinstance(n, ast.For):
            expr(n.iter)
            block(n.body)
            block(n.orelse)
        elif isinstance(n, ast.With):
            t = ast.unparse(n.items[0].context_expr)
            if "lock" in t and n.items[0].optional_vars is None:
                add(n.items[0].context_expr, "__import__('contextlib').suppress()", "lock")
            for i in n.items:
                expr(i.context_expr)
            block(n.body)
        elif isinstance(n, ast.Try):
            block(n.body)
            for h in n.handlers:
                if h.type is not None:
                    add(h.type, "ZeroDivisionError", "except")
                block(h.body)
            block(n.orelse)
            block(n.finalbody)
        elif isinstance(n, ast.FunctionDef):
            if n.name not in SKIP_FUNCS:
                for d in n.args.defaults:
                    expr(d)
                block(n.body)
        elif isinstance(n, ast.ClassDef):
            block(n.body)

    block(tree.body)
    res = []
    for i, (s, e, new, kind, line) in enumerate(out):
        res.append(("%s:%d:%s:%d" % (fn, line, kind, i), fn, s, e, new))
    return res


def everything():
    out = []
    for fn in PROPS:
        out += mutants(fn)
    return out


def apply(m, root):
    _, fn, s, e, new = m
    p = os.path.join(root, "dataplicity", fn)
    b = open(p, "rb").read()
    b = b[:s] + new.encode() + b[e:]
    open(p, "wb").write(b)
    try:
        compile(b, p, "exec")
    except SyntaxError:
        return False
    return True


def text(m):
    _, fn, s, e, new = m
    b = open(os.path.join(REPO, "dataplicity", fn), "rb").read()
    return "%r -> %r" % (b[s:e].decode()[:160], new[:160])


def run(seed, first, count, outname, jobs_dir="/tmp/automut"):
    ms = everything()
    random.Random(seed).shuffle(ms)
    copy = os.path.join(jobs_dir, "repo")
    os.makedirs(jobs_dir, exist_ok=True)
    os.chmod(jobs_dir, 0o755)
    with open(outname, "a") as out:
        for m in ms[first:first + count]:
            subprocess.check_call(["rm", "-rf", copy])
            subprocess.check_call(["cp", "-a", REPO, copy])
            if not apply(m, copy):
                continue
            result = "MISSED"
            t = time.time()
            for prop in PROPS[m[1]].split():
                p = subprocess.run(["timeout", "400", "bash", os.path.join(HERE, "check.sh"), prop, "--no-evidence"],
                                   env=dict(os.environ, MC_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                o = p.stdout.decode("utf-8", "replace")
                if p.returncode == 1 and "\nVIOLATION" in "\n" + o:
                    result = "CAUGHT " + prop
                    break
                if p.returncode != 0:
                    result = "ODD%d %s" % (p.returncode, prop)
                    break
            if not result.startswith("CAUGHT"):
                # the tests come last: they are needed only for what is not caught
                q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                                   cwd=copy, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1"))
                tail = q.stdout.decode("utf-8", "replace").strip().splitlines()[-1:]
                result += " tests: %s" % (tail[0] if tail else "")
            print("%s | %s | %ds | %s" % (m[0], result, time.time() - t, text(m)), file=out, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for m in everything():
            print(m[0], text(m))
    elif sys.argv[1] == "diff":
        for m in everything():
            if m[0] == sys.argv[2]:
                print(text(m))
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], *sys.argv[6:])
