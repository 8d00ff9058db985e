"""Builds /verif/seeded/<id>/ from the definitions in seeded_defs.py, confirming each in a scratch copy:
the patch applies, the 36 tests pass with it, the demonstration passes without and fails with it."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = textwrap.dedent('''\
    import os, sys
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.getcwd())
    from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
    from F15_Parser.ExtractedRouteRecord import ExtractedRouteRecord
    from F15_Parser.F15Parse import ParseF15
    from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType, F15TokenSyntaxDefinition
    from Tokenizer.Tokenize import Tokenize
    from Tokenizer.Tokens import Tokens
    from Utilities.Utils import Utils


    def tokens_of(field):
        t = Tokenize()
        t.set_whitespace(" \\n\\t\\r/")
        t.set_string_to_tokenize(field)
        t.tokenize()
        return t.get_tokens()


    def parse(field):
        ers = ExtractedRouteSequence()
        ok = ParseF15().parse_f15(ers, tokens_of(field))
        return ok, ers


    def names(ers):
        return [r.get_name() for r in ers.get_all_elements()]


    def errors(ers):
        return [(r.get_name(), r.get_error_text()) for r in ers.get_all_errors()]


    def rec(ers, name):
        return [r for r in ers.get_all_elements() if r.get_name() == name][0]


    ''')
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), capture_output=True, text=True, timeout=300)


def tests(work):
    p = run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], work, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return p.returncode == 0, p.stdout[-400:]


def main(only):
    spec = importlib.util.spec_from_file_location("defs", os.path.join(V, "tools", "seeded_defs.py"))
    defs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(defs)
    for d in defs.BUGS:
        if only and d["id"] not in only:
            continue
        work = tempfile.mkdtemp(prefix="plant.")
        try:
            subprocess.run("git -C /repo archive HEAD | tar x -C " + work, shell=True, check=True)
            run(["git", "init", "-q"], work); run(["git", "add", "-A"], work); run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], work)
            for path, old, new in d["edits"]:
                p = os.path.join(work, path)
                s = open(p, newline="").read()
                crlf = "\r\n" in s
                if crlf:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1:
                    print("%s: %d occurrences of %r" % (d["id"], s.count(old), old)); break
                open(p, "w", newline="").write(s.replace(old, new))
            else:
                patch = run(["git", "diff"], work).stdout
                good, out = tests(work)
                out_dir = os.path.join(V, "seeded", d["id"])
                os.makedirs(out_dir, exist_ok=True)
                open(os.path.join(out_dir, "demo.py"), "w").write(HEAD + textwrap.dedent(d["demo"]).strip() + "\n")
                open(os.path.join(out_dir, "demo.sh"), "w").write(SH)
                open(os.path.join(out_dir, "patch.diff"), "w", newline="").write(patch)
                json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(out_dir, "meta.json"), "w"), indent=1)
                bad = run(["bash", os.path.join(out_dir, "demo.sh")], work)
                ok = run(["bash", os.path.join(out_dir, "demo.sh")], "/repo")
                state = "kept" if good and bad.returncode and not ok.returncode else "REJECTED"
                if state != "kept":
                    shutil.rmtree(out_dir)
                print("%s %s: tests %s, demo unpatched %d, patched %d %s" % (d["id"], state, "pass" if good else "FAIL " + out[-150:].replace("\n", " | "), ok.returncode, bad.returncode, "" if state == "kept" else (ok.stderr[-300:] if ok.returncode else "")))
        finally:
            shutil.rmtree(work)


main(sys.argv[1:])
