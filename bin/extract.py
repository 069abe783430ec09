"""Pieces of the parachain's runtimes, without the pallets' configuration: the named items of a source file
and every other item of it they use, by name."""
import re

KEYWORDS = r"(?:struct|enum|fn|const fn|const|static|type|trait|mod|union)"


def mask(s):
    """s with comments, strings and characters blanked, at the same offsets."""
    out, i, n = list(s), 0, len(s)
    while i < n:
        j = None
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            j += 1
        elif s[i] == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
            j = i + m.end() if m else None
        if j is None:
            i += 1
            continue
        for k in range(i, min(j, n)):
            if out[k] != "\n":
                out[k] = " "
        i = j
    return "".join(out)


def split(s, m, lo, hi, brace=True):
    """The items between lo and hi, as (text, masked text)."""
    items, i, start = [], lo, lo
    depth = 0
    while i < hi:
        c = m[i]
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        end = False
        if depth == 0 and c == ";":
            end = True
        elif brace and depth == 0 and c == "}":
            head = re.sub(r"^(\s*#!?\[[^\]]*\])*", "", m[start:i].lstrip())
            if not re.match(r"\s*(pub\s*(\([^)]*\))?\s+)?(const\s+(?!fn)|static|use|type)\b", head):
                end = True
        if end:
            items.append((s[start : i + 1], m[start : i + 1]))
            start = i + 1
        i += 1
    return items


def items_of(s):
    m = mask(s)
    out = []  # (names, text)
    for text, mt in split(s, m, 0, len(s)):
        head = mt
        if re.search(r"feature\s*=|cfg\s*\(\s*test|cfg_attr", text[: len(text) - len(text.lstrip()) + 400].split("{")[0]):
            continue
        attrs = re.match(r"\s*(#!?\[[^\]]*\]\s*)*", head)
        body = head[attrs.end() :]
        pm = re.match(r"(parameter_types|parameter_type_with_key)\s*!\s*\{", body)
        if pm:
            o = attrs.end() + pm.end()
            for t2, m2 in split(text, mt, o, len(mt) - 1, False):
                nm = re.match(r"\s*(#\[[^\]]*\]\s*)*(?:pub\s+)?(?:const\s+|storage\s+|static\s+)?(\w+)\s*:", m2)
                if nm:
                    out.append(([nm.group(2)], pm.group(1) + "! {" + t2 + "\n}"))
            continue
        k = re.match(r"(?:pub\s*(?:\([^)]*\))?\s+)?(?:unsafe\s+)?" + KEYWORDS + r"\s+(\w+)", body)
        if k:
            if re.match(r"(?:pub\s+)?mod\s+\w+\s*;", body):
                continue
            out.append(([k.group(1)], text))
            continue
        if re.match(r"(unsafe\s+)?impl\b", body):
            h = body.split("{")[0].split(" where")[0].split("\nwhere")[0]
            f = re.search(r"\bfor\s+&?(\w+)", h) or re.search(r"impl\s*(?:<[^{]*?>)?\s*(\w+)", h)
            if f:
                out.append((["impl " + f.group(1)], text))
            continue
        u = re.match(r"pub\s+use\s+(\w+)::(\w+)\s*;", body)
        if u:
            out.append((["use " + u.group(1), u.group(2)], text))
    return out


def closure(src, roots, stop):
    """The text of `roots` and of all they use; names in `stop` come from elsewhere."""
    items = items_of(src)
    mods = {n for ns, t in items for n in ns if re.search(r"\bmod\s+" + re.escape(n) + r"\s*\{", mask(t))}
    items = [(ns, t) for ns, t in items if not ns[0].startswith("use ") or ns[0][4:] in mods]
    by = {}
    for k, (ns, _) in enumerate(items):
        for n in ns:
            by.setdefault(n, []).append(k)
    want, seen, took = list(roots), set(), set()
    while want:
        n = want.pop()
        if n in seen or n in stop:
            continue
        seen.add(n)
        for k in by.get(n, []) + by.get("impl " + n, []) :
            if k in took:
                continue
            took.add(k)
            want += re.findall(r"\b[A-Za-z_]\w*\b", mask(items[k][1]))
    return "".join(items[k][1] for k in sorted(took)), [items[k][0][0] for k in sorted(took)]


def pallets(src):
    """The pallets of construct_runtime, as (name, path, parts, index)."""
    m = re.search(r"\bconstruct_runtime\s*!\s*\{", mask(src))
    if not m:
        return []
    text = re.sub(r"//[^\n]*", "", src[m.end() :])
    text = text[text.index("{") + 1 :]
    out = []
    for p in re.finditer(r"(\w+)\s*:\s*([\w:]+?)(?:::<(\w+)>)?(?:::)?\s*\{([^}]*)\}\s*=\s*(\d+)", text):
        out.append((p.group(1), p.group(2), p.group(4), int(p.group(5))))
        rest = text[p.end() :].lstrip()
        if rest.startswith(",") and rest[1:].lstrip().startswith("}") or rest.startswith("}"):
            break
    return out


STOP = {
    "Runtime", "RuntimeCall", "RuntimeEvent", "RuntimeOrigin", "AllPalletsWithSystem", "Block", "VaultId", "tests", "Self", "XcmConfig",
    "ExtrinsicBaseWeight", "Barrier",
}
CALLS = ["BaseCallFilter", "DealWithRewards", "DealWithFees", "EscrowBlockRewardProvider", "VaultBlockRewardProvider", "TotalWrapped",
         "DustRemovalWhitelist", "AssetAuthority", "ProxyType", "BlockNumberToBalance", "ExistentialDeposits", "TreasuryAccount", "get_all_module_accounts",
         "GetNativeCurrencyId", "GetWrappedCurrencyId", "GetRelayChainCurrencyId", "VaultAnnuityAccount", "EscrowAnnuityAccount", "FeeAccount",
         "SupplyAccount", "InflationPeriod", "EmissionPeriod"]
XCM = ["CurrencyIdConvert", "currency_id_convert", "ToTreasury", "ToAuthor", "AccountIdToMultiLocation", "ParachainMinFee", "MyFixedConversionRateProvider",
       "SafeCallFilter", "SelfLocation", "canonical_currency_location", "non_canonical_currency_location", "ParentLocation"]


def glue(dir, labs):
    lib, xcm, dex = (open(dir + f).read() for f in ("/lib.rs", "/xcm_config.rs", "/dex.rs"))
    names = pallets(lib)
    ids = lambda src: [ns[0] for ns, t in items_of(src) if re.search(r":\s*PalletId\s*=", mask(t))]
    both, took = closure(lib + "\n" + xcm, CALLS + XCM + labs + ids(lib), STOP | set(n for n, *_ in names))
    d, _ = closure(dex, ids(dex), STOP)
    calls = [n for n, path, parts, _ in names if re.search(r"\bCall\b", parts)]
    var = lambda n: "%s(pallet_xcm::Call<Runtime>)" % n if n == "PolkadotXcm" else "%s(Any)" % n
    out = "#[derive(Clone, Debug, PartialEq, Eq)]\npub enum RuntimeCall {\n" + "".join("    %s,\n" % var(n) for n in calls) + "}\n"
    out += "pub fn all_calls() -> Vec<(&'static str, RuntimeCall)> {\n    vec![\n"
    for n in calls:
        if n == "PolkadotXcm":
            out += '        ("PolkadotXcm send", RuntimeCall::PolkadotXcm(pallet_xcm::Call::send { dest: 0, message: 0 })),\n'
            out += "".join('        ("PolkadotXcm %s", RuntimeCall::PolkadotXcm(pallet_xcm::Call::%s { dest: 0, message: 0 })),\n' % (c, c) for c in OTHER)
        else:
            out += '        ("%s", RuntimeCall::%s(Any)),\n' % (n, n)
    out += "    ]\n}\npub fn indices() -> Vec<(&'static str, u32)> {\n    vec![" + ", ".join('("%s", %d)' % (n, i) for n, _, _, i in names) + "]\n}\n"
    out += "pub fn pallet_ids() -> Vec<(&'static str, PalletId)> {\n    vec![" + ", ".join('("%s", %s::get())' % (n, n) for n in ids(lib))
    out += "".join(', ("%s", dex::%s::get())' % (n, n) for n in ids(dex)) + "]\n}\n"
    out += "pub type Fees = %s;\n" % next((n for n in ("ToTreasury", "ToAuthor") if n in took), "ToTreasury")
    out += "pub mod dex {\n    use super::*;\n" + d + "\n}\n" + both
    return out


OTHER = ["execute", "teleport_assets", "reserve_transfer_assets", "limited_reserve_transfer_assets", "limited_teleport_assets", "force_xcm_version",
         "force_default_xcm_version", "force_subscribe_version_notify", "force_unsubscribe_version_notify", "force_suspension"]


def told(dir, rt):
    """What the runtime answers to clients: its implementations of this repository's runtime APIs."""
    lib = open(dir + "/lib.rs").read()
    ml = mask(lib)
    m = re.search(r"\bimpl_runtime_apis\s*!\s*\{", ml)
    end, d = m.end(), 1
    while d:
        d += {"{": 1, "}": -1}.get(ml[end], 0)
        end += 1
    mine = open(rt).read()
    have = set(re.findall(r"\bpub (?:type|struct|enum|trait|fn|const|storage|static) (\w+)", mine)) | set(n for n, *_ in pallets(mine))
    have |= set(w for u in re.findall(r"\bpub use ([^;]*);", mine) for w in re.findall(r"\w+", u))
    out, words = "", set()
    for text, mt in split(lib, ml, m.end(), end - 1):
        h = re.search(r"\bimpl\s+(\w+)_rpc_runtime_api\s*::\s*(\w+)\b[^{]*\{", mt)
        if not h or h.group(1).startswith(("frame_", "pallet_")):
            continue
        o = h.end()
        body = ""
        for t2, m2 in split(text, mt, o, mt.rindex("}")):
            f = re.search(r"(?<![\w])fn\s", m2)
            body += t2[: f.start()] + "pub " + t2[f.start() :] if f else t2
        out += "pub struct %s;\nimpl %s {%s\n}\n" % (h.group(2), h.group(2), body)
        words |= set(re.findall(r"\b[A-Za-z_]\w*\b", mask(body)))
    more, _ = closure(lib, sorted(words), STOP | have | {"BalanceWrapper"})
    return more + "\n" + out


NODE = ["btc-relay", "dex-general", "dex-stable", "escrow", "issue", "loans", "oracle", "redeem", "replace", "reward", "vault-registry"]


def args(s):
    """The parameters of a function, as (name, type), without its receiver."""
    out, d, cur = [], 0, ""
    for i, c in enumerate(s + ","):
        if c == "," and d == 0:
            if ":" in cur:
                n, t = cur.split(":", 1)
                out.append((n.strip(), t.strip()))
            cur = ""
            continue
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and s[i - 1] != "-"):
            d -= 1
        cur += c
    return out


def block(s, m, at):
    """The end of the block that opens just before `at`."""
    d = 1
    while d:
        d += {"{": 1, "}": -1}.get(m[at], 0)
        at += 1
    return at


def functions(s):
    m = mask(s)
    for f in re.finditer(r"\bfn\s+(\w+)\s*\(", m):
        i, d = f.end(), 1
        while d:
            d += {"(": 1, ")": -1}.get(m[i], 0)
            i += 1
        e = m.index(";", i)
        r = re.match(r"\s*->\s*([\s\S]*)$", m[i:e])
        yield f.group(1), args(re.sub(r"\s+", " ", m[f.end() : i - 1])), (re.sub(r"\s+", " ", r.group(1)).strip() if r else "()"), f.start()


def node(root):
    """The node's answers to clients: each module's RPC server, and the questions it can put to a runtime."""
    out, methods = "", []
    for x in NODE:
        u = x.replace("-", "_")
        # the questions
        s = open("%s/crates/%s/rpc/runtime-api/src/lib.rs" % (root, x)).read()
        s = re.sub(r"(?m)^\s*(//!.*|#!\[[^\n]*\])$", "", s)
        m = mask(s)
        h = re.search(r"\bsp_api\s*::\s*decl_runtime_apis\s*!\s*\{", m)
        end = block(s, m, h.end())
        head, tail, body = s[: h.start()], s[end:], m[h.end() : end - 1]
        t = re.search(r"\bpub\s+trait\s+(\w+)\s*<([^{]*?)>\s*(where[^{]*)?\{", body)
        name, params, where = t.group(1), t.group(2), t.group(3) or ""
        fns = list(functions(body[t.end() :]))
        sig = lambda n, a, r: "fn %s(&self, at: <Block as sp_runtime::traits::Block>::Hash%s) -> Result<%s, sp_api::ApiError>" % (n, "".join(", %s: %s" % y for y in a), r)
        out += "pub mod %s_rpc_runtime_api {\nuse super::*;\n%s%s\npub trait %s<Block: sp_runtime::traits::Block, %s> %s {\n%s}\n" % (
            u, head, tail, name, params, where, "".join("    %s;\n" % sig(*f[:3]) for f in fns))
        out += "mod asked {\nuse super::*; use crate::types::*;\nimpl %s<Block, %s> for Recorder {\n%s}\n}\n}\n" % (
            name, params,
            "".join("    %s { self.asked(%s, at, vec![%s]) }\n" % (sig(*f[:3]), '"%s"' % f[0], ", ".join("json(&%s)" % y[0] for y in f[1])) for f in fns))
        # the server
        s = open("%s/crates/%s/rpc/src/lib.rs" % (root, x)).read()
        s = re.sub(r"(?m)^\s*(//!.*|#!\[[^\n]*\])$", "", s)
        m = mask(s)
        t = re.search(r"\bpub\s+trait\s+(\w+)\s*<([^{]*?)>\s*(where[^{]*)?\{", m)
        tname, tparams = t.group(1), t.group(2)
        tend = block(s, m, t.end())
        sv = re.search(r"\b%sServer\s*<[^{]*?\bfor\s+(\w+)\s*<" % tname, m)
        published, last = [], t.end()
        for n, a, r, at in functions(s[t.end() : tend - 1]):
            text = s[last : t.end() + at]
            names = re.findall(r'#\[method\([^\]]*?name\s*=\s*"(\w+)"', text)
            al = re.search(r"aliases\s*=\s*\[([^\]]*)\]", text)
            names += re.findall(r'"(\w+)"', al.group(1)) if al else []
            last = t.end() + at
            published.append((n, a, r, names))
        s2 = s[: t.start(1)] + tname + "Server" + s[t.end(1) :]
        s2 = re.sub(r"#\[(rpc|method)\((?:[^()]|\([^()]*\))*\)\]", "", s2)
        s2 = re.sub(r"#\[async_trait\]", "", s2)
        full = "<Server as %sServer<%s>>" % (tname, tparams.replace("BlockHash", "Hash"))
        drv = ""
        for n, a, r, names in published:
            inner = re.match(r"RpcResult\s*<([\s\S]*)>$", r).group(1)
            a = [(k, ty.replace("BlockHash", "Hash")) for k, ty in a]
            lets = "".join("let %s: %s = draw(r); " % y for y in a)
            drv += "pub fn %s(r: &mut R) -> Outcome { let client = Arc::new(Client::new(r)); let rpc = Server::new(client.clone()); %slet args = vec![%s]; let said: RpcResult<%s> = %s::%s(&rpc, %s); client.outcome(args, at, said.map(|x| json(&x)).map_err(|e| format!(\"{e:?}\"))) }\n" % (
                n, lets, ", ".join("json(&%s)" % k for k, _ in a if k != "at"), inner, full, n, ", ".join(k for k, _ in a))
            for nm in names:
                methods.append('("%s", %s_rpc::driver::%s as fn(&mut R) -> Outcome)' % (nm, u, n))
        out += "pub mod %s_rpc {\nuse super::*;\n%s\npub mod driver {\nuse super::*; use crate::types::*;\npub type Server = super::%s<Client, Block>;\n%s}\n}\n" % (u, s2, sv.group(1), drv)
    return out + "pub const METHODS: &[(&str, fn(&mut R) -> Outcome)] = &[\n%s\n];\n" % ",\n".join(methods)
