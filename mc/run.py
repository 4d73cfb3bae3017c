"""Entry point: python -m mc.run <property> [quick|thorough] | --replay <file>"""
import importlib
import json
import os
import sys
import traceback

from . import common, ext


def main(argv):
    replay = None
    if argv and argv[0] == "--replay":
        with open(argv[1]) as fh:
            rec = json.load(fh)
        pid, replay = rec["property"], rec["case"]
        tier = "quick"
        if isinstance(replay, dict) and "failure" in replay:
            replay = None               # not tied to one case: run everything again
    else:
        pid = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    common.PATIENCE = 300 if tier == "quick" else 7200
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = common.Ctx(pid, tier, seed, replay)
    try:
        try:
            ext.install(ext.build_all())
            mod = importlib.import_module("mc.checks.%s" % pid.lower())
            mod.main(ctx)
        except Exception as e:
            text = traceback.format_exc()
            if not isinstance(e, common.CodeError) and not common.in_code(text):
                raise
            traceback.print_exc()
            sys.stderr.flush()
            ctx.violation("unexpected failure: " + str(e).split("\n")[0][:300] if not isinstance(e, common.CodeError)
                          else str(e).split("\n")[0], {"failure": text})
        code = ctx.finish()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        print("CHECK-ERROR %s" % pid)
        code = 2
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
