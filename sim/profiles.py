"""Which simulated runs decide which property: (profile name, parameters, number of runs)."""

THOROUGH = 25

BACKENDS = {"C20": ["pyside"], "C21": ["pygfx"], "C22": ["dom"], "C26": ["pyside"], "C29": ["pyside"]}

ASSUME = [
    "the event loop runs queued callbacks in FIFO order and one at a time (asyncio, Qt)",
    "state changes go through observ's reactive proxies; observ does not report writes of equal values",
    "sibling keys are unique; descriptions are not mutated or shared after render returned them",
]

_CORE = ["collagraph.collagraph", "collagraph.compare", "collagraph.component", "collagraph.types", "observ"]
_SIM = ["event loop (virtual, FIFO)", "clock (virtual)", "garbage collector (collections are scheduled operations)"]
_APP = "application (generated components, state, handlers)"

REAL = {
    "*": _CORE + ["collagraph.renderers.DictRenderer (backend 'dict')"],
    "C14": _CORE + ["collagraph.cgx.cgx", "the generated .cgx files' code"],
    "C15": ["collagraph.cgx.importer", "collagraph.cgx.cgx", "Python's import system", "the file system (scratch directory)", "collagraph.collagraph, DictRenderer (to show what was loaded)"],
    "C19": _CORE + ["collagraph.cgx.cgx", "the generated .cgx files' code", "collagraph.renderers.DictRenderer (backend 'dict')"],
    "C20": _CORE + ["collagraph.renderers.PySideRenderer and its objects", "PySide6 (offscreen platform)"],
    "C21": _CORE + ["collagraph.renderers.PygfxRenderer", "pygfx scene graph (no GPU)"],
    "C22": _CORE + ["collagraph.renderers.DomRenderer"],
    "C25": _CORE + ["collagraph.renderers.DictRenderer"],
    "C26": _CORE + ["collagraph.__main__", "collagraph.cgx.cgx", "argparse", "DictRenderer", "PySideRenderer with PySide6 (offscreen)", "the file system (scratch directory)"],
    "C29": _CORE + ["collagraph.renderers.PySideRenderer, its registries and layouts", "PySide6 (offscreen platform)"],
    "C28": _CORE + ["collagraph.cgx.cgx", "collagraph.cgx.importer", "DictRenderer", "CPython's compiler and tracebacks", "the file system (scratch directory)"],
}
STUBS = {
    "*": _SIM + ["in-memory Renderer behind a checking monitor", _APP],
    "C15": ["clock (virtual)", "faults at open() through an audit hook", "contents of the files (generated)"],
    "C20": _SIM + ["Qt's asyncio integration (its event loop policy is the virtual one)", "user input (signals and key events sent by the simulator)", _APP],
    "C21": _SIM + ["window and GPU (nothing is drawn)", _APP],
    "C22": _SIM + ["the browser's DOM: a strict stand-in for `js` and `pyodide`", _APP],
    "C25": _SIM + [_APP],
    "C26": _SIM + ["the debugger (sys.breakpointhook) and Qt's exec(): sessions that look and change props", "QApplication's constructor (one instance per process)", "shell (argument lists, files)"],
    "C29": _SIM + ["Qt's asyncio integration (its event loop policy is the virtual one)", "the application's extensions (generated classes and functions)", _APP],
    "C28": ["clock (virtual)", "event loop (virtual)", "contents of the files (generated)", "the user (calls the attached handlers)"],
}

BIG = dict(ncomp=(2, 6), depth=5)
FLAT = dict(ncomp=(1, 3), p_for=0.35, p_if=0.25, p_comp=0.3)
SLICED = dict(sync=0.0, opw=None)

OPW = dict(set=10, ins=4, move=4, rev=1, swap=3, repl=2, recopy=2, perm=3, clear=1, iset=5, nins=2, ndel=1, loc=5, ev=7,
           emit=2, stale=1, step=14, stall=1, gc=2, render=1, quiesce=3, irrel=1, roprops=0, prov=0)
OPW["del"] = 4


# elements come, go and change their type in place
CHURN = dict(ncomp=(1, 2), depth=3, p_for=0.5, p_if=0.25, p_alt=0.5, p_key_for=0.2, p_key_const=0.1,
             opw=dict(OPW, iset=25, ins=8, repl=16, set=18, loc=8, quiesce=16, **{"del": 16}))
CGX = dict(kinds=dict(cgx=6, func=1, **{"class": 1}))


TOOL = dict(
    ncomp=(1, 4), depth=4, p_root_virt=0.5, p_root_comp=0.1, provide=0.1, computed=0.1, p_for=0.3, p_if=0.2, p_handler=0.35, max_size=120,
    opw=dict(OPW, perm=9, move=9, swap=5, ins=8, set=14, iset=8, roprops=0, stale=0, step=12, quiesce=4, **{"del": 8}),
)


def w(**kw):
    return dict(OPW, **kw)


def plan(pid):
    return PLANS[pid]


PLANS = {
    "C01": [
        ("mix", {}, 6000),
        ("sliced", dict(sync=0.0, opw=w(step=25, set=14, iset=8, render=2, stall=3)), 4000),
        ("hooks", dict(hooks=1.0, kinds={"class": 1}), 2000),
        ("cgx", dict(kinds=dict(cgx=2, func=1, **{"class": 1})), 1500),
        ("whole", dict(driver="whole"), 4000),
    ],
    "C02": [
        ("sliced", dict(sync=0.0, opw=w(step=30, set=14, iset=8, render=3, stall=3)), 7000),
        ("mix", {}, 3000),
        ("faults", dict(faults=0.2, opw=w(step=25, set=14, iset=8, render=3)), 2000),
        ("faultsync", dict(faults=0.2, sync=1.0, opw=w(set=16, iset=8, render=3)), 1500),
    ],
    "C03": [
        ("order", dict(FLAT, text=True, opw=w(perm=10, move=12, swap=10, ins=9, **{"del": 9}, rev=4)), 6000),
        ("nest", dict(ncomp=(2, 5), p_virt=0.25, p_root_virt=0.3, p_root_comp=0.3, p_for=0.3, p_comp=0.3, opw=w(perm=8, move=8, ins=8)), 4000),
        ("eqsib", dict(FLAT, eqsib=0.8, backend=dict(dict=1), opw=w(perm=8, move=8, ins=8)), 1500),
        ("types", CHURN, 2500),
    ],
    "C04": [
        ("ident", dict(FLAT, p_root_if=0.3, p_key_const=0.3, falsy_keys=0.6, opw=w(perm=10, move=10, swap=8, ins=8, loc=10, render=3)), 6000),
        ("mix", {}, 4000),
        ("types", CHURN, 2000),
    ],
    "C05": [
        ("hooks", dict(kinds=dict(func=1, **{"class": 6}), hooks=0.5, p_comp=0.35, p_if=0.22), 6000),
        ("nest", dict(kinds=dict(func=1, **{"class": 6}), p_virt=0.2, p_root_virt=0.25, p_root_comp=0.3, p_root_if=0.3, hooks=0.3), 4000),
        ("cgx", dict(CGX, p_comp=0.4, p_if=0.22, hooks=0.5), 1500),
    ],
    "C06": [
        ("events", dict(p_handler=0.7, opw=w(ev=22, emit=8, stale=3, iset=9, perm=5), sync_events=0.5), 6000),
        ("cls", dict(p_handler=0.7, kinds={"class": 1}, opw=w(ev=15, emit=12, loc=9)), 3000),
        ("cgx", dict(CGX, p_handler=0.7, p_comp=0.4, opw=w(ev=18, emit=8, iset=9, perm=5)), 2000),
    ],
    "C07": [
        ("attrs", dict(attrs=(1, 5), text=True, p_text=0.2), 6000),
        ("mix", dict(backend=dict(dict=1)), 2500),
    ],
    "C08": [
        ("mix", dict(p_virt=0.18), 5000),
        ("nest", dict(ncomp=(2, 5), p_virt=0.25, p_root_virt=0.3, p_root_comp=0.3, p_root_if=0.3, p_for=0.3, opw=w(perm=8, move=8, ins=8, render=4)), 4000),
        ("faults", dict(faults=0.15, fault_sites=["render", "ctor", "slot", "hook", "handler", "create"]), 2500),
    ],
    "C09": [
        ("sliced", dict(sync=0.0, opw=w(step=30, set=14, stall=6, render=4)), 6000),
        ("faults", dict(sync=0.0, faults=0.15, opw=w(step=30, set=14, stall=3, render=3)), 3000),
    ],
    "C10": [
        ("sliced", dict(sync=0.0, opw=w(step=30, set=14, render=6)), 6000),
        ("mix", dict(opw=w(render=4)), 3000),
        ("sync", dict(sync=1.0, opw=w(render=4)), 1500),
    ],
    "C11": [
        ("faults", dict(faults=0.2), 7000),
        ("faultsync", dict(faults=0.2, sync=1.0), 2000),
        ("handlers", dict(faults=0.4, fault_sites=["handler"], sync_events=1.0, attrs=(2, 5), p_handler=0.7, opw=w(set=20, iset=12, step=20))
         , 2500),
        ("faulthooks", dict(faults=0.25, fault_sites=["hook", "hook", "render"], hooks=0.6, kinds={"class": 1}), 2000),
        ("faultcgx", dict(CGX, faults=0.2, p_slot=0.4), 1500),
    ],
    "C15": [
        ("files", dict(driver="importer"), 12000),
        ("broken", dict(driver="importer", p_bad=0.5), 4000),
    ],
    "C16": [
        ("provide", dict(kinds=dict(func=1, **{"class": 5}), provide=0.7, p_comp=0.4, p_root_if=0.3, p_root_comp=0.25, opw=w(perm=6, move=6, set=16, render=3, prov=8)), 8000),
    ],
    "C17": [
        ("slots", dict(p_slot=0.6, p_comp=0.35, p_fb=0.6), 7000),
        ("cgxslots", dict(kinds=dict(cgx=2, func=1, **{"class": 1}), p_slot=0.6, p_comp=0.35, p_fb=0.6), 2500),
    ],
    "C18": [
        ("props", dict(p_comp=0.4, opw=w(roprops=5, nins=7, ndel=4, iset=8, set=14)), 8000),
        ("whole", dict(driver="whole"), 8000),
        ("cgxprops", dict(kinds=dict(cgx=3, func=1, **{"class": 1}), p_comp=0.4, opw=w(roprops=3, nins=7, ndel=4, iset=10, set=14)), 3000),
    ],
    "C12": [
        ("release", dict(release=1, p_comp=0.35, p_if=0.22, opw=w(set=16, ins=8, move=3, repl=4, clear=2, iset=8, render=3, step=18, **{"del": 8})), 5000),
        ("releaseslots", dict(release=1, kinds=dict(cgx=1, func=1, **{"class": 3}), p_slot=0.6, p_comp=0.4, provide=0.6, hooks=0.5, p_handler=0.5), 3000),
        ("gc", dict(driver="gcdiff", ops=(4, 14), opw=w(render=3, step=20), ncomp=(2, 5)), 1500),
        ("track", dict(track=1.0, opw=w(set=16, loc=8, irrel=5, quiesce=10, repl=4, clear=2)), 2500),
    ],
    "C13": [
        ("multi", dict(driver="multi", guis=3, sync=0.1, nroots=(1, 3), opw=w(drop=1, render=4, step=30, set=14, iset=8)), 3000),
        ("shared", dict(driver="multi", guis=2, sync=0.1, nroots=(1, 1), p_slot=0.5, p_comp=0.35, hooks=0.6, provide=0.6, opw=w(drop=1, render=4, step=25, loc=9, ev=10, prov=4)), 2500),
        ("faults", dict(driver="multi", guis=2, faults=0.2, fault_sites=["render", "ctor", "create", "initattr", "hook"], nroots=(1, 2), opw=w(render=4, step=25)), 2500),
        ("cgx", dict(CGX, driver="multi", guis=2, nroots=(1, 2), p_nm=0.6, opw=w(stadd=4, stdel=3, drop=1, render=3)), 1000),
        ("drop", dict(driver="multi", guis=2, release=1, nroots=(1, 2), opw=w(drop=4, gc=4, step=20)), 800),
    ],
    "C14": [
        ("names", dict(CGX, p_nm=0.9, p_comp=0.4, opw=w(stadd=8, stdel=6, gset=3, loc=6, set=12)), 5000),
        ("namesmix", dict(kinds=dict(cgx=4, **{"class": 1}), p_nm=0.7, opw=w(stadd=5, stdel=4, gset=2)), 2500),
    ],
    "C19": [
        ("cgx", dict(CGX, noise=0.2), 5000),
        ("cgxslots", dict(CGX, p_slot=0.5, p_comp=0.35, p_fb=0.6), 2500),
        ("cgxloops", dict(CGX, p_for=0.35, p_if=0.3, p_handler=0.5, ncomp=(1, 3), opw=w(perm=8, move=8, ins=8, iset=8, ev=12)), 2500),
    ],
    "C26": [("cli", dict(driver="cli"), 8000)],
    "C29": [("extend", dict(driver="extend"), 8000)],
    "C28": [("lines", dict(driver="lines"), 1600)],
    "C20": [("widgets", dict(TOOL, tool="pyside"), 8000)],
    "C21": [("scene", dict(TOOL, tool="pygfx"), 4000)],
    "C22": [("dom", dict(TOOL, tool="dom"), 5000)],
    "C23": [("sync", dict(sync=1.0, sync_events=0.6, hooks=0.5), 5000)],
    "C24": [
        ("track", dict(track=1.0, opw=w(irrel=8, quiesce=14, set=14, iset=7, loc=8)), 7000),
        ("trackcgx", dict(CGX, track=1.0, p_nm=0.8, p_comp=0.4, opw=w(irrel=4, quiesce=16, set=6, loc=12, stadd=16, stdel=3)), 3000),
    ],
    "C25": [
        ("dict", dict(backend=dict(dict=1)), 4000),
        ("eqsib", dict(FLAT, eqsib=0.8, backend=dict(dict=1), opw=w(perm=8, move=8, ins=8, **{"del": 8})), 5000),
    ],
}

NOTES = {
    "*": "Sampled, not exhaustive: thousands of seeded runs of the real code on a virtual event loop and clock, every one "
    "compared with an executable reference model. Trusts the reference model, the strict shadow renderer and observ.",
}
