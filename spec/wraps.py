"""Regenerate mon/wrap/<pallet>/Cargo.toml from /repo/crates/*/Cargo.toml: the same package with the
unavailable git dependencies replaced by the stand-ins of mon/shim. Run by hand; the output is
committed."""
import os, sys, tomllib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = sorted(os.listdir(V + "/mon/shim"))
SP = {"sp-core": "21.0.0", "sp-runtime": "24.0.0", "sp-io": "23.0.0", "sp-std": "8.0.0", "sp-arithmetic": "16.0.0",
      "sp-weights": "20.0.0", "sp-tracing": "10.0.0", "sp-state-machine": "0.28.0"}
DROP = {"pretty_assertions"}
PALLETS = sys.argv[1:] or [d for d in sorted(os.listdir("/repo/crates"))
           if os.path.exists(f"/repo/crates/{d}/Cargo.toml") and d not in ("bitcoin",)]
def conv(name, d, dev):
    if isinstance(d, str):
        d = {"version": d}
    d = dict(d)
    pkg = d.get("package", name)
    if pkg in ("proptest", "quickcheck", "fixed-hash"): return None
    if pkg in SHIM:
        out = {"path": f"../../shim/{pkg}"}
    elif "git" in d:
        if pkg in SP:
            out = {"version": SP[pkg]}
        else:
            return None
    elif "path" in d:
        t = os.path.basename(d["path"])
        out = {"path": f"../{t}"}
        if pkg == "interbtc-primitives":
            out["path"] = "../primitives"
        if d.get("default-features") is False and pkg == "interbtc-primitives":
            out["default-features"] = True
    else:
        out = {"version": d["version"]}
    if "package" in d:
        out["package"] = d["package"]
    if d.get("features"):
        out["features"] = d["features"]
    if d.get("optional"):
        out["optional"] = True
    return out
def s(v):
    if isinstance(v, bool): return str(v).lower()
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, list): return "[" + ", ".join(map(s, v)) + "]"
    return "{ " + ", ".join(f"{k} = {s(x)}" for k, x in v.items()) + " }"
for p in PALLETS:
    t = tomllib.load(open(f"/repo/crates/{p}/Cargo.toml", "rb"))
    L = ["[package]", f'name = "{t["package"]["name"]}"', f'version = "{t["package"]["version"]}"', 'edition = "2021"',
         "[lib]", f'path = "../../../work/repo/crates/{p}/src/lib.rs"', "doctest = false", "[dependencies]"]
    have = set(); opt = set()
    for k, d in t.get("dependencies", {}).items():
        c = conv(k, d, False)
        if c is None: continue
        have.add(k)
        if c.get("optional"): opt.add(k)
        L.append(f"{k} = {s(c)}")
    L.append("[dev-dependencies]")
    dev = set()
    for k, d in t.get("dev-dependencies", {}).items():
        c = conv(k, d, True)
        if c is None: continue
        dev.add(k)
        L.append(f"{k} = {s(c)}")
    L.append("[features]")
    L.append('default = ["std"]')
    feats = t.get("features", {})
    for f, vs in feats.items():
        if f in ("default",): continue
        if f in ("std", "runtime-benchmarks", "try-runtime"):
            keep = [v for v in vs if v in opt]
            keep = [] if f != "std" else keep
        else:
            keep = [v for v in vs if v.split("/")[0].rstrip("?") in have or v in feats]
        L.append(f"{f} = {s(keep)}")
    if "std" not in feats: L.append("std = []")
    os.makedirs(f"{V}/mon/wrap/{p}", exist_ok=True)
    open(f"{V}/mon/wrap/{p}/Cargo.toml", "w").write("\n".join(L) + "\n")
