#!/usr/bin/env python3
"""Developer tool (no check uses it): systematic small changes of the code under test, each run against the checks of its file.
 mutate.py LIMIT_PER_FILE WORKERS [file-substring ...]     prints SURVIVED / killed lines; the survivors are looked at by hand
 (VERIF_JOBS=1 VERIF_FAIL_FAST=1 for every check; MUT_SEED picks other changes; MUT_KINDS limits the kinds)"""
import ast, copy, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo"); S = "fixedIncome/src/"; A = S + "stochastics/short_rate_models/affine_yield_curve_models/"
FILES = {S+"scheduling_tools/holidays.py": "C01 C02", S+"scheduling_tools/scheduler.py": "C03 C02", S+"scheduling_tools/day_count_calculator.py": "C04",
 S+"assets/base_cashflow.py": "C05", S+"curves/base_curve.py": "C07 C05", S+"risk/key_rate.py": "C08", S+"risk/risk_metrics.py": "C17 C10",
 S+"curves/yield_curves/yield_curve.py": "C10 C09", S+"assets/us_treasury_instruments/us_treasury_instruments.py": "C11 C12 C13",
 S+"assets/credit/corporate_bond.py": "C11 C12 C13", S+"assets/rates/linear_rates/interest_rate_swap.py": "C14 C15", S+"assets/credit/loan.py": "C16",
 S+"portfolio/base_portfolio.py": "C17", S+"portfolio/portfolio_optimization.py": "C18", S+"stochastics/brownian_motion.py": "C19 C20",
 S+"stochastics/base_processes.py": "C20", S+"stochastics/geometric_brownian_motion.py": "C20", S+"stochastics/short_rate_models/base_short_rate_model.py": "C21",
 A+"vasicek_model.py": "C22 C23", A+"affine_model_mixin.py": "C22 C23", A+"doubly_mean_reverting_vasicek.py": "C22 C23", A+"trebly_mean_reverting_vasicek.py": "C22 C23",
 A+"stochastic_market_price_of_risk.py": "C22 C23", S+"curves/credit_curves/default_models.py": "C24"}
SKIP = ("plot", "__repr__", "main", "time_this", "plot_amortization_schedule")
BOUND = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}
UNWRAP = {"copy", "list", "sorted", "abs", "float", "tuple", "set", "deepcopy", "flatten"}

MEMBERS = {}
for f in ("scheduling_tools/schedule_enumerations.py", "curves/curve_enumerations.py"):
    for c in ast.parse(open(f"{REPO}/{S}{f}").read()).body:
        if isinstance(c, ast.ClassDef): MEMBERS[c.name] = [s.targets[0].id for s in c.body if isinstance(s, ast.Assign)]

def mutants(tree):
    """(kind, line, description, apply) for every small change; apply() edits a fresh copy given the node's path."""
    out = []
    def visit(node, path, params):
        if isinstance(node, (ast.FunctionDef,)):
            if node.name in SKIP: return
            params = [a.arg for a in node.args.args + node.args.kwonlyargs if a.arg != "self"]
            for f in ("defaults", "kw_defaults"):
                for i, v in enumerate(getattr(node.args, f)):
                    where = path + [("args", None), (f, i)]
                    if isinstance(v, ast.Constant) and type(v.value) is bool: out.append(("default", v.lineno, where, lambda n: setattr(n, "value", not n.value)))
                    elif isinstance(v, ast.Constant) and type(v.value) in (int, float): out.append(("default", v.lineno, where, lambda n: setattr(n, "value", n.value * 2 + 1)))
                    elif isinstance(v, ast.Attribute) and v.attr in MEMBERS.get(getattr(v.value, "id", ""), ()):
                        ms = MEMBERS[v.value.id]; out.append(("default", v.lineno, where, lambda n, o=ms[(ms.index(v.attr) + 1) % len(ms)]: setattr(n, "attr", o)))
                    elif isinstance(v, ast.Call) and v.keywords: out.append(("default", v.lineno, where, lambda n: setattr(n.keywords[0].value, "value", 2)))
        if isinstance(node, ast.If) and isinstance(node.test, ast.Compare) and getattr(node.test.left, "id", "") == "__name__": return
        ln = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in BOUND:
            out.append(("bound", ln, path, lambda n: n.ops.__setitem__(0, BOUND[type(n.ops[0])]())))
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(node, ast.While): out.append(("if-true", ln, path, lambda n: setattr(n, "test", ast.Constant(True))))
            out.append(("if-false", ln, path, lambda n: setattr(n, "test", ast.Constant(False))))
        if isinstance(node, ast.BoolOp):
            out.append(("bool-first", ln, path, lambda n: n.values.__delitem__(slice(1, None))))
            out.append(("bool-last", ln, path, lambda n: n.values.__delitem__(slice(0, 1))))
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            out.append(("left-only", ln, path, "left")); out.append(("right-only", ln, path, "right"))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub): out.append(("no-minus", ln, path, "operand"))
        if isinstance(node, ast.Call):
            for i in range(len(node.keywords)):
                out.append(("drop-kw", ln, path, lambda n, i=i: n.keywords.__delitem__(i)))
            nm = getattr(node.func, "id", getattr(node.func, "attr", ""))
            if nm in UNWRAP and len(node.args) == 1: out.append(("unwrap", ln, path, "args0"))
        if isinstance(node, ast.Constant) and type(node.value) in (int, float):
            out.append(("const+1", ln, path, lambda n: setattr(n, "value", n.value + 1)))
        if isinstance(node, ast.Constant) and type(node.value) is bool: out.append(("flip", ln, path, lambda n: setattr(n, "value", not n.value)))
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.attr in MEMBERS.get(node.value.id, ()):
            ms = MEMBERS[node.value.id]
            out.append(("member", ln, path, lambda n, o=ms[(ms.index(node.attr) + 1) % len(ms)]: setattr(n, "attr", o)))
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in params and len(params) > 1:
            for other in params:
                if other != node.id: out.append(("param", ln, path, lambda n, o=other: setattr(n, "id", o)))
        for f, v in ast.iter_fields(node):
            if f in ("annotation", "returns", "decorator_list", "bases"): continue
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if isinstance(c, ast.AST):
                        if isinstance(c, (ast.AugAssign, ast.Expr)) or (isinstance(c, ast.Assign) and isinstance(c.targets[0], (ast.Attribute, ast.Subscript))):
                            if not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
                                out.append(("delete", c.lineno, path + [(f, i)], "pass"))
                        visit(c, path + [(f, i)], params)
            elif isinstance(v, ast.AST): visit(v, path + [(f, None)], params)
    visit(tree, [], [])
    return out

def apply(tree, path, how):
    t = copy.deepcopy(tree)
    parent, n = None, t
    for f, i in path:
        parent, n = n, (getattr(n, f) if i is None else getattr(n, f)[i])
    if callable(how): how(n); return t
    new = {"pass": lambda: ast.Pass(), "left": lambda: n.left, "right": lambda: n.right, "operand": lambda: n.operand, "args0": lambda: n.args[0]}[how]()
    f, i = path[-1]
    if i is None: setattr(parent, f, new)
    else: getattr(parent, f)[i] = new
    return t

def trial(job):
    file, kind, ln, text = job
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(REPO + "/fixedIncome", d + "/fixedIncome", ignore=shutil.ignore_patterns("*.pyc", "tests", ".git"))
        old = ast.unparse(ast.parse(open(d + "/" + file).read()))
        open(d + "/" + file, "w").write(text)
        diff = [x for x in __import__("difflib").unified_diff(old.splitlines(), text.splitlines(), n=0, lineterm="")][3:]
        what = " // ".join(x.strip()[:150] for x in diff)
        env = {**os.environ, "VERIF_REPO": d, "VERIF_JOBS": "1", "VERIF_FAIL_FAST": "1"}
        for c in FILES[file].split():
            try: p = subprocess.run(["/opt/venv/bin/python", HERE + "/run.py", c], env=env, capture_output=True, text=True, timeout=1800)
            except subprocess.TimeoutExpired: return f"killed  {c} (time) {os.path.basename(file)}:{ln} {kind}"
            if p.returncode: return f"killed  {c} {os.path.basename(file)}:{ln} {kind}"
        return f"SURVIVED {os.path.basename(file)}:{ln} {kind} {what}"
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    limit, workers, want = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    rnd = random.Random(int(os.environ.get("MUT_SEED", "1"))); jobs = []
    kinds = os.environ.get("MUT_KINDS", "").split()
    for file in FILES:
        if want and not any(w in file for w in want): continue
        tree = ast.parse(open(f"{REPO}/{file}").read()); base = ast.unparse(tree); ms = mutants(tree); seen = set()
        if kinds: ms = [m for m in ms if m[0] in kinds]
        rnd.shuffle(ms); n = 0
        for kind, ln, path, how in ms:
            if n >= limit: break
            text = ast.unparse(ast.fix_missing_locations(apply(tree, path, how)))
            if text == base or text in seen: continue
            seen.add(text); jobs.append((file, kind, ln, text)); n += 1
    rnd.shuffle(jobs)
    if limit == 0: print(len(jobs)); return
    def go(j): print(trial(j), flush=True)
    with ThreadPoolExecutor(workers) as ex: list(ex.map(go, jobs))
main()
