"""python3-vt run.py <property> [quick|thorough] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    args = sys.argv[2:]
    tier = args.pop(0) if args and args[0] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    try:
        from lib import harness
        rc = harness.main(sys.argv[1].upper(), tier, args)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
