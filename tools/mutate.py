#!/usr/bin/env python3
"""mutate.py N SEED OUT [PROP…]: N random changes to original lines, in scratch copies of /repo;
those that pass the tests are given to the checks of the functions' properties, and those that no
check reports are written to OUT for review."""
import ast, os, random, subprocess, sys, shutil, tempfile, difflib, json
REPO, V, BASE = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "dfa3931"
L = "lib/sldr/"
MAP = {
 L+"ldml.py": {"_localisens": "P04", "_protect": "P04", "_protectcomment": "P04 P03", "_nsprotectattribs": "P04", "_sortedattrs": "P02",
   "serialize_xml": "P04 P03 P02", "_read_namespace": "P04", "_reverselocalns": "P16 P04", "addnode": "P16 P01", "ReadMetadata": "P02", "ReadSupplementalData": "P06 P09",
   "ReadDTD": "P02", "ReadTZData": "P02", "__init__": "P03 P02 P04", "_copynode": "P09", "_copytree": "P09 P06", "_add_alt_leaf": "P01 P05",
   "_find_best": "P01", "_promote": "P01", "change_draft": "P01", "_add_inserted_node": "P16", "_unify_path": "P16", "_process_path": "P16",
   "ensure_path": "P16 P01", "remove_path": "P16", "get_parent_locales": "P06", "normalise": "P02 P03", "_analyse": "P01 P16 P02", "_distattributes": "P02 P16 P05",
   "_calc_hashes": "P05 P06 P07", "as_xpath": "P16", "_dropsdraft": "P02 P03", "get_draft": "P01", "draftnum": "P01", "_report_aliasloop": "P09",
   "resolve_aliases": "P09", "alt": "P01", "add_silidentity": "P16", "flatten_collation": "P10", "select": "P16", "_prepare_parent": "P16"},
 L+"ldml_merge.py": {"set": "P05", "pop": "P05", "remove": "P05", "difference": "P07", "overlay": "P06", "_overlay_child": "P06", "_overlay_external_resources": "P06",
   "flag_nonroots": "P06", "_merge_leaf": "P05", "_align": "P05", "_merge_with_alts": "P05 P01", "_merge_alts": "P05 P01", "_add_alt": "P05 P01", "merge": "P05",
   "clash_text": "P05 P01", "clash_attrib": "P05", "getldml": "P06 P08", "flattenlocale": "P06 P07 P08", "trimtag": "P06", "getscript": "P06", "getcollator": "P10"},
 L+"UnicodeSets.py": {"*": "P11"}, L+"collation.py": {"*": "P12"}, L+"langtags_full.py": {"*": "P14"}, L+"ldml_exemplars.py": {"*": "P13"},
 L+"sheet.py": {"*": "P15"}, L+"iana.py": {"*": "P17"}, "scripts/ldmlflatten": {"*": "P08 P06"}, "scripts/ldmlmerge": {"*": "P05"},
 "scripts/cldrimport": {"*": "P18"}, "scripts/sldraddkeymans": {"*": "P19"}, "scripts/sldraddfonts": {"*": "P19"}, "scripts/sldrautonames": {"*": "P19"},
 "scripts/ldmlnormalize": {"*": "P02 P03"}, "scripts/sheetldml": {"*": "P15"},
}
SKIP = {"minimise", "minimise_old", "convertSimple", "_insertBefore", "_minhash", "main", "readExtras", "generate_alltags", "readSupplementalData",
        "save_as", "_copycell", "__repr__", "analyse", "readIana", "readLikelySubtags", "getnext", "asSimple", "find_file", "hamming",
        "_minhashupdate", "update", "__hash__"}
ENV = dict(os.environ, HOME="/root", PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="en_US.UTF-8")


def newlines(f, s):
    o = subprocess.run(["git", "-C", REPO, "show", BASE + ":" + f], capture_output=True).stdout.decode("utf-8").splitlines()
    new = set()
    for t, i1, i2, j1, j2 in difflib.SequenceMatcher(None, o, s.splitlines(), autojunk=False).get_opcodes():
        if t in ("replace", "insert"):
            new |= set(range(j1 + 1, j2 + 1))
    return new


FLIP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"],
        ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}


def mutants(f, src):
    tree, lines = ast.parse(src), src.splitlines(True)
    off = [0]
    bl = [l.encode() for l in lines]
    data = src.encode()
    for l in bl:
        off.append(off[-1] + len(l))
    pos = lambda l, c: off[l - 1] + c
    seg = lambda n: data[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    res, fn = [], []

    def put(n, new, what, m=None):
        m = m or n
        res.append((n.lineno, n.end_lineno, pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, what, fn[-1] if fn else "<module>"))

    def visit(n):
        isf = isinstance(n, (ast.FunctionDef,))
        if isf:
            fn.append(n.name)
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(n.left), seg(n.comparators[0])
                for o in FLIP[type(n.ops[0])]:
                    put(n, "(%s %s %s)" % (l, o, r), "compare")
            elif isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                put(n, "(" + op.join("(%s)" % seg(v) for v in n.values) + ")", "boolop")
                for i in range(len(n.values)):
                    o = " and " if isinstance(n.op, ast.And) else " or "
                    put(n, "(" + o.join("(%s)" % seg(v) for j, v in enumerate(n.values) if j != i) + ")", "drop operand")
            elif isinstance(n, (ast.If, ast.While)):
                put(n.test, "(not (%s))" % seg(n.test), "negate")
            elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                put(n, str(n.value + 1), "const"); put(n, "(%d)" % (n.value - 1), "const")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                put(n, str(not n.value), "const")
            elif isinstance(n, ast.Continue):
                put(n, "break", "break")
            elif isinstance(n, ast.Break):
                put(n, "continue", "continue")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                put(n, "pass", "drop")
            elif isinstance(n, ast.Return) and n.value is not None:
                put(n, "return None", "none")
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, "(%s %s %s)" % (seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", seg(n.right)), "arith")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("find", "rfind", "append", "union", "intersection", "strip", "lower", "upper", "update", "extend"):
                alt = {"find": "rfind", "rfind": "find", "append": None, "union": "intersection", "intersection": "union", "strip": "rstrip",
                       "lower": "upper", "upper": "lower"}.get(n.func.attr)
                if alt and not (alt == "rfind" and not f.endswith("x")):
                    put(n.func, seg(n.func.value) + "." + alt, "method")
        for c in ast.iter_child_nodes(n):
            visit(c)
        if isf:
            fn.pop()
    visit(tree)
    return data, res


def run(w, cmd, **kw):
    return subprocess.run(cmd, cwd=w, env=dict(ENV, PYTHONPATH=w + "/lib", **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    want = set(sys.argv[4:])
    rng = random.Random(seed)
    pool = []
    for f, fns in MAP.items():
        src = open(os.path.join(REPO, f), encoding="utf-8", newline="").read()
        new = newlines(f, src)
        data, res = mutants(f, src)
        for r in res:
            props = fns.get(r[6]) or ("" if r[6] in SKIP else fns.get("*", ""))
            if props and not any(k in new for k in range(r[0], r[1] + 1)) and (not want or want & set(props.split())):
                pool.append((f, data, r, props))
    rng.shuffle(pool)
    print(len(pool), "changes possible")
    w = tempfile.mkdtemp(prefix="mut-")
    repo = os.path.join(w, "repo")
    shutil.copytree(REPO, repo, symlinks=True)
    tally = {"untestable": 0, "tests": 0, "caught": 0, "missed": 0}
    i = 0
    for f, data, r, props in pool:
        if i >= n:
            break
        try:
            txt = (data[:r[2]] + r[4].encode() + data[r[3]:]).decode()
            compile(txt, f, "exec")
        except SyntaxError:
            continue
        open(os.path.join(repo, f), "w", encoding="utf-8", newline="").write(txt)
        try:
            t = run(repo, ["timeout", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"])
            d = subprocess.run(["git", "-C", repo, "diff", "-U1"], capture_output=True, text=True).stdout
            if t.returncode != 0:
                tally["tests"] += 1
                continue
            i += 1
            got = []
            for p in props.split():
                c = run(V, ["timeout", "900", "./check", p, "quick"], VERIF_REPO=repo)
                o = c.stdout.decode("utf-8", "replace")
                got.append((p, c.returncode))
                if c.returncode == 1 and "VIOLATION property=" in o:
                    break
            k = "caught" if any(x[1] == 1 for x in got) else "missed"
            tally[k] += 1
            with open(out, "a") as h:
                h.write("=== %s %s %s line %d %s %s\n" % (k, f, r[6], r[0], r[5], got))
                if k == "missed":
                    h.write(d + "\n")
        except subprocess.TimeoutExpired:
            tally["untestable"] += 1
        finally:
            subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
    print(tally)
    shutil.rmtree(w)


main()
