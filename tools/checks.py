"""What each check runs.  The content of every step is in /verif/spec."""
from vp import *


# theorems of the specification itself, checked exactly over bounded families
# (module MCDyn): per property the invariants, and the length of chains (quick, thorough)
THEOREMS = {"C01": ("Rigid Assoc JointAxis", 3, 5), "C02": ("JacTwice JacVel", 3, 4), "C03": ("ChainRule ChainRule2", 3, 4),
            "C04": ("Skew Symmetric Power Energy", 2, 4), "C05": ("RegDyn", 2, 3), "C06": ("Bijection", 2, 5), "C07": ("Fric", 3, 5),
            "C08": ("BaseShift EeShift", 3, 5), "C09": ("Selection", 3, 6), "C10": ("CatalogueOk", 3, 6)}


def theorems(c, prop):
    if prop in ("C01", "C05"):
        n = 6 if c.tier == "thorough" else 4
        model(c, "MCAlg", "SPECIFICATION Spec\nCONSTANTS N = %d\n D = %d\nINVARIANTS RatAgrees JetsAgree Laws\n" % (n, n), want_min=300)
    if prop in THEOREMS:
        inv, q, t = THEOREMS[prop]
        model(c, "MCDyn", "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS %s\n" % (t if c.tier == "thorough" else q, inv), want_min=12)


def walks(c, prop):
    return [w for module, group, n in TOURS.get(prop, ()) for w in tours(c, module, "Group = \"%s\"\n NObj = %d" % (group, n), prop)]


def lib(prop, op=None, module="Scen"):
    def check(c):
        build(c)
        theorems(c, prop)
        conform(c, plan(c, op or "Plan_" + prop, module) + walks(c, prop))
    return check


for _p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09"):
    globals()[_p] = lib(_p)
C10 = lib("C10", module="ScenState")
C17 = lib("C17", module="ScenState")
C21 = lib("C21", module="ScenState")


# state machines whose every transition is replayed (module, group of calls, objects)
TOURS = {"C06": (("MCObj", "in", 1), ("MCLib", "lin", 1)), "C12": (("MCObj", "args", 1), ("MCObj", "coef", 1), ("MCObj", "two", 2)),
         "C14": (("MCObj", "kin", 1),), "C15": (("MCObj", "inf", 1), ("MCLib", "lpar", 1)),
         "C17": (("MCLib", "larg", 1), ("MCLib", "lfn", 2)),
         "C21": (("MCMod", "kin", 1), ("MCMod", "act", 1))}


def obj(prop, op=None):
    """Library robots and objects of generated classes together."""
    def check(c):
        build(c, ("drv", "cli"))
        theorems(c, prop)
        sc = plan(c, op or "Plan_" + prop, "ScenObj")
        sc += walks(c, prop)
        c.note("planned")
        make_libs(c, sc)
        conform(c, sc)
    return check


for _p in ("C06", "C11", "C12", "C14", "C15"):
    globals()[_p] = obj(_p)


def C13(c):
    build(c, ("cli", "odrv", "tdrv"))
    for n, k in ((2, 2), (3, 1)) + (((3, 2),) if c.tier == "thorough" else ()):
        cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n K = %d\n SHARED = %s\nINVARIANTS %s\n"
        model(c, "Threads", cfg % (n, k, "FALSE", "Alone Complete"))
        model(c, "Threads", cfg % (n, k, "TRUE", "Alone"), refuted="Alone")
    sc = plan(c, "Plan_C13", "ScenObj")
    ts = copy.deepcopy(sc)
    if make_libs(c, sc, "g"):
        conform(c, sc, "gates", "odrv", racy=True)
    ts = [s for s in ts if s["id"].startswith("C13_s") or c.tier == "thorough"]
    if not c.violations and make_libs(c, ts, "t"):
        conform(c, ts, "tsan", "tdrv", {"TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0"}, racy=True)


def C19(c):
    build(c, ("cli", "odrv"))
    sc = plan(c, "Plan_C19", "ScenObj")
    make_pymods(c, sc)
    conform(c, sc, drv="odrv")


def C20(c):
    build(c, ("odrv",))
    build_panda(c)
    angles = "\"0\", \"1\", \"-2/3\"" + (", \"5/4\"" if c.tier == "thorough" else "")
    model(c, "MCPanda", "SPECIFICATION Spec\nCONSTANT Angles = {%s}\nINVARIANT SameArm\n" % angles, want_min=3000)
    sc = plan(c, "Plan_C20", "ScenPanda")
    make_panda(c, sc)
    conform(c, sc, drv="odrv")


def C16(c):
    build(c, ("cli", "drv"))
    n = 3 if c.tier == "thorough" else 2
    model(c, "MCGenFs", "SPECIFICATION Spec\nCONSTANT MaxRuns = %d\nINVARIANTS Others Kept Apart Again SixSame CopySame StrayKept\n" % n, want_min=3000)
    sc = plan(c, "Plan_C16", "ScenFs")
    c.note("planned")
    make_fs(c, sc)
    conform(c, sc)


C18 = lib("C18", "LibC18", "ScenState")
NOTES = {}
