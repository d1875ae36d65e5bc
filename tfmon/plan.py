import json
import sys

from . import core, env

if __name__ == "__main__":
    env.setup_import_path()
    m = core.load_prop(sys.argv[1])
    print(json.dumps(dict(cases=m.CASES, rule=m.RULE, required=m.REQUIRED, assumptions=getattr(m, "ASSUMPTIONS", []))))
