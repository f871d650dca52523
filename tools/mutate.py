"""mutate.py OUT FILE[:func,...] ... : single-site mutants of /repo/neutralocean/FILE against the quick checks that cover
it; survivors are listed in OUT for inspection.  Env: MAX (per file), NV_JOBS, STEP."""
import ast, os, random, shutil, subprocess, sys, tempfile, json, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = {"bfs.py": "C15 C16", "fzero.py": "C01 C02", "label.py": "C25 C31", "lib.py": "C29 C28 C17 C26", "mixed_layer.py": "C26",
       "ntp.py": "C22 C21 C31", "stability.py": "C27", "synthocean.py": "C30", "traj.py": "C23 C24",
       "grid/graph.py": "C14 C22", "grid/rectilinear.py": "C11", "grid/tripolar.py": "C12", "grid/xgcm.py": "C13", "grid/tools.py": "C29",
       "ppinterp/lib.py": "C03 C06", "ppinterp/linear.py": "C04 C03 C07", "ppinterp/pchip.py": "C05 C06 C07", "ppinterp/ppinterp.py": "C07 C04 C06", "ppinterp/tools.py": "C06",
       "surface/_vertsolve.py": "C17 C18", "surface/isopycnal.py": "C17 C28 C21", "surface/omega.py": "C18 C19 C20 C28",
       "eos/tools.py": "C10", "eos/gsw.py": "C08 C09", "eos/gswc.py": "C08 C09", "eos/jmd95.py": "C08 C09", "eos/jmdfwg06.py": "C08 C09"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
SWAP = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="], "is": ["is not"], "is not": ["is"], "in": ["not in"], "not in": ["in"]}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}
OSW = {"+": "-", "-": "+", "*": "/", "/": "*"}


def mutants(src, funcs):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    P = lambda ln, c: off[ln - 1] + c
    span = lambda n: (P(n.lineno, n.col_offset), P(n.end_lineno, n.end_col_offset))
    out = []

    def rep(n, new, what):
        i, j = span(n)
        out.append((i, j, new, f"{n.lineno}: {what}"))

    def seg(n):
        i, j = span(n)
        return b[i:j].decode()

    def walk(n, infn):
        if isinstance(n, (ast.FunctionDef,)):
            if funcs and not infn and n.name not in funcs:
                return
            doc = n.body[0] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else None
            for c in n.body:
                if c is not doc:
                    walk(c, True)
            return
        if infn:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print",):
                return
            if isinstance(n, ast.Raise):
                return
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = CMP[type(n.ops[0])]
                for w in SWAP[o]:
                    rep(n, f"{seg(n.left)} {w} {seg(n.comparators[0])}", f"{seg(n)}  ->  {w}")
            if isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                w = OSW[OPS[type(n.op)]]
                rep(n, f"{seg(n.left)} {w} {seg(n.right)}", f"{seg(n)}  ->  {w}")
            if isinstance(n, ast.BoolOp):
                w = " or " if isinstance(n.op, ast.And) else " and "
                rep(n, "(" + w.join(f"({seg(v)})" for v in n.values) + ")", f"{seg(n)} -> {w}")
                for k in range(len(n.values)):
                    rest = [v for m, v in enumerate(n.values) if m != k]
                    rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({seg(v)})" for v in rest) + ")", f"{seg(n)} -> without {seg(n.values[k])}")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)) and not isinstance(n.operand, ast.Constant):
                rep(n, f"({seg(n.operand)})", f"{seg(n)} -> no {type(n.op).__name__}")
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
                rep(n, repr(n.value + 1 if type(n.value) is int else n.value * 1.5 + (0.5 if n.value == 0 else 0)), f"const {seg(n)} in {lines[n.lineno-1].strip()[:70]}")
                if type(n.value) is int and n.value >= 1:
                    rep(n, repr(n.value - 1), f"const-1 {seg(n)} in {lines[n.lineno-1].strip()[:70]}")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                rep(n, repr(not n.value), f"bool {seg(n)} in {lines[n.lineno-1].strip()[:70]}")
            if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
                rep(n.test, "False", f"if {seg(n.test)[:60]} -> False")
                if isinstance(n, ast.If):
                    rep(n.test, "True", f"if {seg(n.test)[:60]} -> True")
            if isinstance(n, ast.IfExp):
                rep(n, f"({seg(n.body)})", f"{seg(n)[:70]} -> body")
                rep(n, f"({seg(n.orelse)})", f"{seg(n)[:70]} -> else")
            if isinstance(n, (ast.AugAssign, ast.Continue, ast.Break)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) or \
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not seg(n).startswith("print"):
                rep(n, "pass", f"delete {seg(n)[:80]}")
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                nm = n.targets[0].id
                if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.value)):
                    rep(n, "pass", f"delete {seg(n)[:80]}")
            if isinstance(n, ast.Call) and len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Constant)) for a in n.args[:2]):
                i, j = span(n.args[0]); k, l = span(n.args[1])
                out.append((i, l, b[k:l].decode() + b[j:k].decode() + b[i:j].decode(), f"{n.lineno}: swap args {seg(n)[:70]}"))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                rep(n, seg(n.func.value), f"{seg(n)} -> no copy")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and n.func.attr in ("abs", "sqrt", "maximum", "minimum", "fmax", "fmin") and len(n.args) <= 1:
                rep(n, f"({seg(n.args[0])})", f"{seg(n)} -> arg")
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr_context):
                continue
            walk(c, infn)
    walk(tree, False)
    return b, out


def main():
    outf = sys.argv[1]
    mx = int(os.environ.get("MAX", "30"))
    for arg in sys.argv[2:]:
        f, _, fn = arg.partition(":")
        src = open(f"{REPO}/neutralocean/{f}").read()
        b, ms = mutants(src, set(fn.split(",")) if fn else None)
        rng = random.Random(int(os.environ.get("SEED", "7")))
        # one per kind and line first, then a random sample
        rng.shuffle(ms)
        ms = sorted(ms[:mx])
        for i, j, new, what in ms:
            tmp = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
            try:
                shutil.copytree(f"{REPO}/neutralocean", f"{tmp}/neutralocean", ignore=shutil.ignore_patterns("__pycache__"))
                nb = b[:i] + new.encode() + b[j:]
                try:
                    ast.parse(nb)
                except SyntaxError:
                    continue
                open(f"{tmp}/neutralocean/{f}", "wb").write(nb)
                res, t = [], time.time()
                for c in os.environ.get("CHECKS", MAP[f]).split():
                    env = dict(os.environ, NV_REPO=tmp)
                    r = subprocess.run(["bash", f"{VERIF}/check.sh", c, "quick"], env=env, capture_output=True, text=True)
                    res.append(f"{c}={r.returncode}")
                    if r.returncode == 1:
                        break
                    nd = sorted({l.split()[0] for l in r.stdout.splitlines() if l.startswith(("NOT-", "VACUOUS"))})
                    if nd:
                        res[-1] += "(" + ",".join(nd) + ")"
                st = "killed" if res and res[-1].endswith("=1") else "SURVIVED"
                with open(outf, "a") as o:
                    o.write(f"{st} {f}:{what} | {' '.join(res)} {time.time()-t:.0f}s\n")
            finally:
                shutil.rmtree(tmp)


main()
