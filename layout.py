#!/usr/bin/env python3
"""layout.py core|full : lays out a buildable copy of /repo's crate under build/<flavour>.

surfrs depends on two git crates (gribberish, readap) that cannot be had offline, so /repo
cannot be built as it stands.  Every run brings every source file here to the content it
has in /repo's working tree, writing only those that differ, so what is rebuilt depends on
contents and not on file times; Cargo.toml and the lib.rs/mod.rs files that list left-out
modules are adapted on the way.

  core  without the modules that need the two crates (same split as the sandbox's own build)
  full  every module, with the two crates replaced by the stand-ins in stubs/
"""
import os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
DEPS = ("gribberish", "readap")
LEFT_OUT = {
    "core": {
        "src/model", "src/tools/dap.rs", "src/buoy_station.rs",
        "src/data/gfs_wave_grib_point_data_record.rs", "src/data/latest_obs_data_record.rs",
        "src/data/meteorological_data_record.rs", "src/data/swden_wave_data_record.rs",
    },
    "full": set(),
}

def main(flavour):
    dst = os.path.join(HERE, "build", flavour)
    left = LEFT_OUT[flavour]

    def out(rel):
        return any(rel == x or rel.startswith(x + "/") for x in left)

    def write(rel, text):
        path = os.path.join(dst, rel)
        if os.path.islink(path):
            os.remove(path)
        if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
            return
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)

    wanted = set()
    for base, _, names in os.walk(os.path.join(REPO, "src")):
        for name in names:
            rel = os.path.relpath(os.path.join(base, name), REPO)
            if out(rel):
                continue
            wanted.add(rel)
            if left and os.path.basename(rel) in ("lib.rs", "mod.rs"):
                text = open(os.path.join(REPO, rel), encoding="utf-8").read()

                def keep(m):
                    stem = os.path.join(os.path.dirname(rel), m.group(2))
                    return "\n" if out(stem) or out(stem + ".rs") else m.group(0)

                write(rel, re.sub(r"^[ \t]*(pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+);[^\n]*\n?", keep, text, flags=re.M))
            else:
                write(rel, open(os.path.join(REPO, rel), encoding="utf-8").read())
    for base, _, names in os.walk(os.path.join(dst, "src")):
        for name in names:
            path = os.path.join(base, name)
            if os.path.relpath(path, dst) not in wanted:
                os.remove(path)
    toml = open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()
    for dep in DEPS:
        if flavour == "core":
            toml = re.sub(r"^%s[ \t]*=.*\n?" % dep, "", toml, flags=re.M)
        else:
            toml = re.sub(r"^%s[ \t]*=.*$" % dep, '%s = { path = "../../stubs/%s" }' % (dep, dep), toml, flags=re.M)
    # Test-only dependencies are not needed by a path dependency.
    toml = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[).*\n?)*", "", toml, flags=re.M)
    write("Cargo.toml", toml)

if __name__ == "__main__":
    main(sys.argv[1])
