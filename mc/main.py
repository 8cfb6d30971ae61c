import sys, os, json, importlib, traceback
from . import env


def main(argv):
    env.bootstrap()
    from . import base
    if argv[0] == '--replay':
        data = json.loads(open(argv[1]).read())
        module = importlib.import_module(f"mc.checks.{data['property'].lower()}")
        if hasattr(module, 'setup'):
            module.setup('quick')
        r = base.guarded(module, data['case'])
        print(json.dumps(dict(outcome=r.outcome, problems=r.problems), indent=1, default=str))
        return 1 if r.problems else 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        module = importlib.import_module(f'mc.checks.{pid.lower()}')
    except Exception as e:
        if not base.from_repo(e.__traceback__):
            raise
        print(traceback.format_exc())
        return 2
    return base.main(module, tier)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--replay' and len(sys.argv) > 2:
        sys.argv[2] = os.path.abspath(sys.argv[2])
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
