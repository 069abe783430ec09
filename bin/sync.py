"""Mirror /repo's sources into /verif/work/repo, by content (an unchanged file keeps its mtime, so
cargo rebuilds exactly what changed)."""
import json, os, re, sys, filecmp, shutil

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MON_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
DIRS = ["crates", "primitives", "contracts", "parachain/runtime/common", "parachain/runtime/kintsugi/src", "parachain/runtime/interlay/src"]
SKIP = {"target", ".git", "node_modules"}
KEEP = (".rs", ".json", ".toml", ".txt", ".hex", ".dat", ".csv", ".md", ".stderr")


def sync():
    dst_root = os.path.join(WORK, "repo")
    os.makedirs(dst_root, exist_ok=True)
    wanted = set()
    changed = []
    for top in DIRS:
        for base, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [d for d in dirs if d not in SKIP]
            rel = os.path.relpath(base, REPO)
            for f in files:
                src = os.path.join(base, f)
                if os.path.islink(src) or not os.path.isfile(src):
                    continue
                r = os.path.join(rel, f)
                wanted.add(r)
                dst = os.path.join(dst_root, r)
                if os.path.isfile(dst) and filecmp.cmp(src, dst, shallow=False):
                    continue
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(src, dst)  # fresh mtime on purpose
                changed.append(r)
    for base, dirs, files in os.walk(dst_root):
        for f in files:
            p = os.path.join(base, f)
            r = os.path.relpath(p, dst_root)
            if r not in wanted:
                os.remove(p)
                changed.append("-" + r)
    generate()
    return changed


def generate():
    """Sources that need an extra line at their end to be usable from a monitor."""
    gen = {
        # the contract module is private to its crate
        "btc_swap.rs": ("contracts/btc_swap/lib.rs", "\npub use btc_swap::BtcSwap;\n"),
    }
    os.makedirs(os.path.join(WORK, "gen"), exist_ok=True)
    # the chain extension, without the pallet's configuration (which is of another crate's runtime)
    p = os.path.join(WORK, "repo", "parachain/runtime/kintsugi/src/contracts.rs")
    if os.path.exists(p):
        s = cut(open(p).read(), r"impl\s+pallet_contracts::Config\s+for\s+Runtime\s*\{")
        write("contracts.rs", re.sub(r"\bpub\s+storage\b", "pub const", s))
    # the runtimes' own items (and what they use), without the pallets' configuration
    for name in ("kintsugi", "interlay"):
        try:
            text = extract.glue(os.path.join(WORK, "repo", "parachain/runtime", name, "src"), ["EnsureKintsugiLabs", "KintsugiLabsAccounts"])
        except Exception as e:  # only the monitors of these items are without a verdict then
            text = "compile_error!(%s);\n" % json.dumps("cannot extract: %r" % e)
        write(name + "_glue.rs", text)
        try:
            text = extract.told(os.path.join(WORK, "repo", "parachain/runtime", name, "src"), os.path.join(os.path.dirname(WORK), "mon/rt/src/runtime.rs"))
        except Exception as e:
            text = "compile_error!(%s);\n" % json.dumps("cannot extract: %r" % e)
        write(name + "_told.rs", text)
    try:
        text = extract.node(os.path.join(WORK, "repo"))
    except Exception as e:
        text = "compile_error!(%s);\n" % json.dumps("cannot extract: %r" % e)
    write("node_rpc.rs", text)
    for name, (src, tail) in gen.items():
        p = os.path.join(WORK, "repo", src)
        if not os.path.exists(p):
            continue
        new = open(p).read() + tail
        write(name, new)


def write(name, new):
    out = os.path.join(WORK, "gen", name)
    if not os.path.exists(out) or open(out).read() != new:
        open(out, "w").write(new)


def cut(s, start):
    """s without the block that opens where `start` matches."""
    m = re.search(start, s)
    if not m:
        return s
    depth, i = 1, m.end()
    while depth and i < len(s):
        depth += {"{": 1, "}": -1}.get(s[i], 0)
        i += 1
    return s[: m.start()] + s[i:]


if __name__ == "__main__":
    print("\n".join(sync()))
