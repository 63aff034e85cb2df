"""Bounded replay (never counted as proved): see harness/src/main.rs."""
import json, os, re, shutil, subprocess, time
from .vc import REPO, VERIF, RUST_ENV

H = os.path.join(VERIF, "harness")
CRATES = ["emitter", "pool-factory", "backstop", "pool"]


def prepare(wd):
    """a scratch workspace: the harness, the reference crates and path dependencies on /repo's crates"""
    d = os.path.join(wd, "replay")
    os.makedirs(os.path.join(d, "main/src"))
    for f in os.listdir(os.path.join(H, "src")):
        shutil.copy(os.path.join(H, "src", f), os.path.join(d, "main/src", f))
    subprocess.run(["tar", "xzf", os.path.join(H, "reference.tar.gz"), "-C", d], check=True)   # -> d/ref/<crate>
    os.symlink(os.path.join(REPO, "target"), os.path.join(d, "ref/target"))
    shutil.copy(os.path.join(REPO, "comet.wasm"), os.path.join(d, "ref/comet.wasm"))
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    wsdeps = root[root.index("[workspace.dependencies"):]
    open(os.path.join(d, "ref/Cargo.toml"), "w").write('[workspace]\nresolver = "2"\nmembers = [' + ", ".join(f'"{c}"' for c in CRATES) + "]\n" + wsdeps)
    for c in CRATES:
        p = os.path.join(d, "ref", c, "Cargo.toml")
        t = re.sub(r"\[dev[-_]dependencies\].*", "", open(p).read(), flags=re.S)
        open(p, "w").write(t.replace('crate-type = ["cdylib", "rlib"]', 'crate-type = ["rlib"]').replace(f'name = "{c}"', f'name = "ref-{c}"', 1))
    t = ('[package]\nname = "replay"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[features]\ndefault = [\"testutils\"]\ntestutils = []\n[profile.dev]\ndebug = 0\nopt-level = 1\n[dependencies]\n'
         'soroban-sdk = { version = "20.5.0", features = ["testutils"] }\n')
    for c in CRATES:
        n = c.replace("-", "_")
        t += f'ref_{n} = {{ package = "ref-{c}", path = "{d}/ref/{c}", features = ["testutils"] }}\n'
        t += f'cur_{n} = {{ package = "{c}", path = "{REPO}/{c}", features = ["testutils"] }}\n'
    open(os.path.join(d, "main/Cargo.toml"), "w").write(t)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "main/Cargo.lock"))
    return os.path.join(d, "main")


SUBMIT = r"pool\.submit"
BOP = r"backstop\.(deposit|queue_withdrawal|dequeue_withdrawal|withdraw|donate|draw|claim)"
# property -> (history kinds, [(what differs, on which operation)]): what has to agree with the reference for the property
TABLE = {
    "C01": ("emitter", [(r"state (token|emitter\.LastDistro).*|ret|refused|accepted", r"emitter\.distribute"), (r"state (token|emitter\.LastDistro).*", r"emitter\.(swap_backstop|queue_swap_backstop|cancel_swap_backstop|initialize)")]),
    "C02": ("emitter", [(r"state emitter\.(Swap|Backstop|BToken).*|refused|accepted|ret", r"emitter\.(queue|cancel|)_?swap_backstop"), (r"state emitter\.(Swap|Backstop|BToken).*", r"emitter\.(distribute|drop)")]),
    "C03": ("emitter", [(r".*", r"(emitter|backstop)\.drop"), (r"state (emitter\.Dropped|backstop\.DropList).*", r".*")]),
    "C04": ("factory", [(r".*", r"factory\.(is_pool|deploy)")]),
    "C05": ("backstop", [(r"ret|refused|accepted|state backstop\.(PoolBalance|UserBalance).*|state token.*", r"backstop\.(deposit|withdraw)")]),
    "C06": ("backstop", [(r"invariant C06", r".*"), (r"state backstop\.PoolBalance\S*|state token\S*|refused|accepted|ret", BOP)]),
    "C07": ("backstop", [(r"invariant C07", r".*"), (r"state backstop\.(PoolBalance|UserBalance)\S*", r".*")]),
    "C08": ("backstop", [(r"refused|accepted|ret|state backstop\.UserBalance\S*", r"backstop\.(queue_withdrawal|dequeue_withdrawal|withdraw)")]),
    "C09": ("backstop", [(r"auth", BOP), (r"refused|accepted|state token\S*", r"backstop\.(draw|donate|deposit)")]),
    "C10": ("backstop", [(r".*", r"backstop\.(gulp_emissions)"), (r"state backstop\.(PoolEmis|LastDist|BEmisCfg)\S*", r".*")]),
    "C11": ("backstop", [(r"state backstop\.(BEmisData|BEmisCfg|UEmisData)\S*", r".*"), (r"ret|refused|accepted|state (token|backstop\.\w*Balance)\S*", r"backstop\.claim")]),
    "C12": ("backstop", [(r"invariant C12", r".*"), (r"ret|refused|accepted", r"backstop\.(add_reward|remove_reward)"), (r"state backstop\.RZ\S*", r".*")]),
    "C13": ("backstop", [(r".*", r"backstop\.(pool_data|update_tkn_val)"), (r"state backstop\.LPTknVal\S*", r".*")]),
    "C14": ("backstop", [(r".*", r"backstop\.gulp_pool_emissions"), (r"state (backstop\.PoolEmis|token\.Allow)\S*", r".*")]),
    "C15": ("pool", [(r"state pool\.(Positions|ResData\.\w*supply)\S*|ret", SUBMIT)]),
    "C16": ("pool", [(r"invariant C16", r".*"), (r"state pool\.(Positions|ResData\S*supply)\S*", r".*")]),
    "C17": ("pool", [(r"accepted|refused", SUBMIT)]),
    "C18": ("pool", [(r"accepted|refused", SUBMIT)]),
    "C19": ("pool", [(r"accepted|refused", SUBMIT)]),
    "C20": ("pool", [(r"state pool\.ResData\S*", r"pool\..*"), (r"ret", r"pool\.(get_reserve|get_positions).*")]),
    "C21": ("pool", [(r"state pool\.ResData\S*(d_rate|b_rate|ir_mod)\S*", r"pool\..*")]),
    "C22": ("auction", [(r"state pool\.Auction\S*|accepted|refused|ret", r"pool\.(submit|get_auction)"), (r"state pool\.(Auction|Positions|ResData)\S*|state token\S*", SUBMIT)]),
    "C23": ("auction", [(r"accepted|refused|ret|state pool\.Auction\S*", r"pool\.new_liquidation_auction"), (r"state pool\.(Positions|Auction)\S*|accepted|refused", SUBMIT)]),
    "C24": ("auction", [(r".*", r"pool\.(bad_debt|new_bad_debt_auction)"), (r"state (pool\.(Positions|ResData|Auction)|token|backstop)\S*|accepted|refused", SUBMIT)]),
    "C25": ("auction", [(r".*", r"pool\.new_interest_auction"), (r"state (pool\.(ResData|Auction)|token|backstop)\S*|accepted|refused", SUBMIT)]),
    "C26": ("pool", [(r"state pool\.(EmisData|UserEmis)\S*", r"pool\..*"), (r"ret|refused|accepted|state token\S*", r"pool\.claim")]),
    "C27": ("admin", [(r"ret|refused|accepted", r"pool\.(gulp_emissions|set_emissions_config)"), (r"state pool\.(EmisConfig|EmisData|PoolEmis)\S*", r"pool\.(gulp_emissions|set_emissions_config)")]),
    "C28": ("admin", [(r".*", r"pool\.(queue_set_reserve|cancel_set_reserve|set_reserve)"), (r"state pool\.(ResConfig|ResInit|ResList)\S*", r"pool\..*")]),
    "C29": ("admin", [(r"auth", r"pool\..*"), (r"accepted", r"pool\.(set_admin|update_pool|queue_set_reserve|cancel_set_reserve|set_emissions_config|set_status)"), (r"state pool\.(Admin|Config)\S*", r"pool\..*")]),
    "C30": ("all", [(r"accepted|refused|state \S*", r"\w+\.initialize"), (r"state \w+\.(IsInit|Emitter|BToken|PoolFact|BLNDTkn|USDCTkn|Backstop|Name|PoolMeta)\S*", r"(pool|backstop|factory)\..*")]),
    "C31": ("pool", [(r"state (token|pool\.Positions)\S*|accepted|refused", SUBMIT)]),
    "C32": ("pool", [(r"accepted|refused", r"pool\.(submit|new_\w+)"), (r"state pool\.Auction\S*", r"pool\.new_\w+")]),
    "C33": ("admin", [(r"ret|accepted|refused|state pool\.Config\S*", r"pool\.(update_status|set_status)")]),
}


def matches(prop, sig):
    p = sig.split()
    what, op = " ".join(p[:-1]), p[-1]
    return any(re.fullmatch(a, what) and re.fullmatch(b, op) for a, b in TABLE[prop][1])


def run(prop, seed, budget, wd, log, build_timeout=420):
    """-> dict(status='none'|'violation'|'unavailable', ...); 'none': no divergence within the budget (nothing is proved by that)"""
    t0 = time.time()
    out = dict(status="unavailable", label="bounded replay: random histories in lockstep with the reference tree, never counted as proved", budget_s=budget)
    if prop not in TABLE:
        return out
    try:
        main = prepare(wd)
        env = dict(RUST_ENV, CARGO_TARGET_DIR=os.path.join(wd, "replay/target"))
        p = subprocess.run(["cargo", "build", "--offline"], cwd=main, env=env, capture_output=True, text=True, timeout=build_timeout)
        exe = os.path.join(wd, "replay/target/debug/replay")
        out["build_s"] = round(time.time() - t0, 1)
        if p.returncode != 0 or not os.path.exists(exe):
            out["why"] = "the harness does not build against this tree: " + p.stderr[-400:]
            return out
        n = min(8, os.cpu_count() or 1)
        focus = TABLE[prop][0]
        outs = [os.path.join(wd, f"replay/out{i}") for i in range(n)]
        ps = [subprocess.Popen([exe, str(seed * 1000 + i), str(budget), focus], stdout=open(outs[i], "w"), stderr=subprocess.DEVNULL) for i in range(n)]
        div, stats, end, first = {}, dict(episodes=0, ops=0), time.time() + budget + 60, None
        while True:
            done = all(q.poll() is not None for q in ps)
            div, stats = {}, dict(episodes=0, ops=0)
            for f in outs:
                for l in open(f):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if "sig" in d:
                        if d["sig"] not in div or len(d["trace"]) < len(div[d["sig"]]["trace"]):
                            div[d["sig"]] = d
                    else:
                        stats["episodes"] += d["episodes"]
                        stats["ops"] += d["ops"]
            if first is None and any(matches(prop, s) for s in div):
                first = time.time()
            if done or time.time() > end or (first and time.time() - first > 5):
                break
            time.sleep(0.5)
        for q in ps:
            if q.poll() is None:
                q.kill()
            q.wait()
        out.update(stats, focus=focus, divergences=sorted(div)[:40])
        if not done and not div:
            out["why"] = "the harness did not run to its end"
            return out
        hit = sorted((s for s in div if matches(prop, s)), key=lambda s: (not s.startswith("invariant " + prop), len(div[s]["trace"])))
        inv = [s for s in hit if s.startswith("invariant " + prop)]
        out["status"] = "violation" if hit else "none"
        out["invariant_broken"] = bool(inv)
        if hit:
            d = div[hit[0]]
            out["replay"] = (f"{d['sig']}: {d['detail']}\n(expected: what the tree on which every obligation was discharged does; harness/reference.tar.gz)\nhistory, on the real contracts in the Soroban test host:\n"
                             + "\n".join("  " + x for x in d["trace"]) + "\nother differences: " + "; ".join(hit[1:12]))
    except Exception as x:
        out["why"] = f"{type(x).__name__}: {str(x)[:300]}"
    return out
