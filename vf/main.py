import importlib, sys
from . import check

WHERE = {}
for mod, ids in {
    "phys": "C04 C05 C15 C33", "flux": "C06 C07 C08 C09", "time": "C10 C11 C12 C26", "run": "C13 C20 C21",
    "cfg": "C01 C24 C27", "mesh": "C14 C16", "out": "C02 C17 C18 C25", "misc": "C03 C19 C22 C23", "meta": "C32",
}.items():
    for i in ids.split():
        WHERE[i] = mod


def main():
    pid = sys.argv[1]
    m = importlib.import_module("vf.checks." + WHERE[pid])
    f = getattr(m, pid.lower())
    sys.exit(check.run(f))


if __name__ == "__main__":
    main()
