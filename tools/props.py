"""Which studies decide which property."""
import directed as D
from study import patch
from study_conv import expansion, formats
from study_explore import histories_of_patches
from study_explain import explanations
from study_files import histories, mk_asking, mk_conversion, validation
from study_html import compare, pages, renew
from study_inc import includes, through
from study_modes import modes
from study_text import scalars
from study_twice import twice
from study_view import interrupts, mmap

ASSUME = ["The recorded runs are made by guided random generation over small devices and patches; behaviour outside "
          "the generated shapes is not covered.",
          "The SVD reader of the comparison (tools/svdlib.py) reads what the tool wrote correctly; corrupted twins of "
          "observations are checked to be rejected in every run.",
          "Regular expressions, YAML parsing and XML parsing of the libraries used by the tool behave as documented."]

FILES = ["The recorded histories are made by random generation over small devices and directories; behaviour outside the "
         "generated shapes is not covered.",
         "The readers of the comparison (tools/svdlib.py, tools/svdjson.py) read what the tool wrote correctly; corrupted "
         "twins of observations are checked to be rejected in every run.",
         "A full disk is stood in for by a limit on the size of written files and by /dev/full."]

HIST = ["The graph is that of three small devices and a catalogue of one-rule patches (tools/study_explore.py), walked "
        "exhaustively to the given number of patches; larger devices and longer histories are not covered.",
        "The SVD reader of the comparison (tools/svdlib.py) reads what the tool wrote correctly; corrupted twins of "
        "observations are checked to differ in every run."]

DEV = {"_delete": 1, "_copy": 1, "_modify": 2, "_clear_fields": 0.5, "_add": 1.5, "_derive": 1.5, "_rebase": 1,
       "peripheral": 8}
BLK = {"_delete": 1, "_copy": 1, "_strip": 1, "_strip_end": 1, "_prefix": 1, "_suffix": 1, "_modify": 2,
       "_clear_fields": 1, "_add": 2, "_derive": 2, "children": 6, "_expand_array": 1, "_array": 3,
       "_cluster": 2, "_clusters": 2, "_expand_cluster": 1}
REG = {"_delete": 1, "_strip": 1, "_strip_end": 1, "_prefix": 1, "_suffix": 1, "_clear": 1, "_modify": 2,
       "_add": 2, "_derive": 2, "_merge": 2, "_split": 2, "fields": 4, "_array": 3}


def w(base, f=0.1, **up):
    d = {k: v * f for k, v in base.items()}
    d.update(up)
    return d


def prof(dev=None, blk=None, reg=None, **kw):
    """profile with the given weights (None: the general mix)"""
    p = {"broad": 0.1}
    if dev is not None:
        p["dev"] = w(DEV, **dev)
    if blk is not None:
        p["per"] = w(BLK, **blk)
        p["clu"] = w(BLK, **{k: v for k, v in blk.items() if k != "_expand_cluster"})
    if reg is not None:
        p["reg"] = w(REG, **reg)
    p.update(kw)
    return p


INNER = {"peripheral": 10}
FIELDS = {"children": 10, "_clusters": 2}
Q, T = 600, 12000

PROPS = {
    "C01": {"studies": [patch(prof(shuffle=1.0, items=[3, 4, 5], entries=[3, 4, 5, 6], points=0.6), Q, T,
                              ["Order", "Frame"]),
                        D.scenarios(D.order, 600), D.scenarios(D.every, 300), D.scenarios(D.corners, 250)]},
    "C02": {"studies": [patch(prof(items=[1, 2], entries=[1, 2, 3], fmt=0.8), Q, T,
                              ["Frame", "UnmatchedKept", "ChildrenKept", "CollectKeepsOthers"]),
                        D.scenarios(D.kin, 600), D.scenarios(D.every, 500), D.scenarios(D.corners, 300)]},
    "C03": {"studies": [patch(prof(INNER, {"children": 5, "_delete": 4, "_modify": 4, "_clear_fields": 1},
                                   {"_delete": 4, "_modify": 4, "fields": 3}, glob=0.95, paths=0.0),
                              Q, T, ["UnmatchedKept", "DeleteExact"]),
                        D.scenarios(D.names, 1100), D.scenarios(D.blanks, 420)]},
    "C04": {"studies": [patch(prof(miss=0.4, opt=0.3, pmiss=0.25, max_err=4), Q, T, ["FailKeepsNothing"]),
                        D.scenarios(D.misses, 1100), D.scenarios(D.names, 200), D.scenarios(D.blanks, 150)]},
    "C06": {"studies": [includes("expand-patch", 1500, 20000), through(prof(items=[2, 3, 4], files=0.3), 250, 5000)]},
    "C07": {"studies": [includes("makedeps", 2500, 30000)]},
    "C08": {"studies": [patch(prof(dict(_delete=5, peripheral=6), dict(_delete=6, children=4, _clusters=1),
                                   dict(_delete=8)), Q, T, ["DeleteExact", "Frame"]),
                        D.scenarios(D.names, 400), D.scenarios(D.blanks, 120), D.scenarios(D.twins, 500)]},
    "C09": {"studies": [patch(prof(dict(_add=6, peripheral=6), dict(_add=8, children=4, _clusters=1),
                                   dict(_add=8)), Q, T, ["AddOne", "Frame"]),
                        D.scenarios(D.adds, 300), D.scenarios(D.misses, 150), D.scenarios(D.corners, 300)]},
    "C10": {"studies": [patch(prof(dict(_modify=10, peripheral=3), dict(_modify=3), forms=0.25), Q, T, ["Frame"]),
                        D.scenarios(D.attrs, 900), D.scenarios(D.twins, 250)]},
    "C11": {"studies": [patch(prof(INNER, dict(_modify=6, children=6, _clusters=1.5), dict(_modify=10), forms=0.25),
                              Q, T, ["Frame", "ChildrenKept", "UnmatchedKept"]),
                        D.scenarios(D.attrs, 900), D.scenarios(D.twins, 250), D.scenarios(D.corners, 350)]},
    "C12": {"studies": [patch(prof(dict(_copy=8, peripheral=5), dict(_copy=8, _clusters=1), files=0.5), Q, T,
                              ["CopyKeeps", "Frame"]),
                        D.scenarios(D.twins, 250),
                        D.scenarios(D.copies, 400), D.scenarios(D.corners, 300)]},
    "C13": {"studies": [patch(prof(dict(_derive=6, _rebase=5, _modify=1, peripheral=3), dict(_derive=6), derived=0.6,
                                   npers=5), Q, T, ["RefsKept", "Frame"]),
                        D.scenarios(D.twins, 250),
                        D.scenarios(D.refs, 900), D.scenarios(D.reg_refs, 500), D.scenarios(D.corners, 250)]},
    "C14": {"studies": [patch(prof(INNER, derived=0.8, entries=[3, 4, 5]), Q, T, ["DerivedKept", "Frame"]),
                        D.scenarios(D.refs, 900)]},
    "C15": {"studies": [patch(prof(INNER, dict(_strip=4, _strip_end=4, _prefix=4, _suffix=4, children=4),
                                   dict(_strip=4, _strip_end=4, _prefix=4, _suffix=4)), Q, T, ["AffixLayout"]),
                        D.scenarios(D.affixes, 330)]},
    "C16": {"studies": [patch(prof(INNER, FIELDS, dict(_merge=8, _split=8)), Q, T, ["BitsKept", "ChildrenKept"]),
                        D.scenarios(D.bits, 300), D.scenarios(D.corners, 400)]},
    "C17": {"studies": [patch(prof(INNER, dict(_array=8, children=5), dict(_array=8)), Q, T,
                              ["NothingMoves", "CollectKeepsOthers", "BitsKept"]),
                        D.scenarios(D.arrays, 400), D.scenarios(D.corners, 400)]},
    "C18": {"studies": [patch(prof(INNER, dict(_cluster=8, _clusters=1)), Q, T, ["NothingMoves"]),
                        D.scenarios(D.clusters, 400), D.scenarios(D.corners, 300)]},
    "C19": {"studies": [patch(prof(INNER, dict(_expand_array=8, _expand_cluster=6, _array=2, _cluster=2)), Q, T,
                              ["NothingMoves", "CollectKeepsOthers"]),
                        D.scenarios(D.expands, 600), D.scenarios(D.corners, 500)]},
    "C20": {"studies": [patch(prof(INNER, FIELDS, dict(fields=12), ed=["enum", "field", "none"]), Q, T,
                              ["ChildrenKept"]),
                        D.scenarios(D.enums, 900), D.scenarios(D.shares, 500), D.scenarios(D.corners, 300)]},
    "C21": {"studies": [patch(prof(dict(_clear_fields=4), dict(_clear_fields=4, children=10, _clusters=2),
                                   dict(_clear=4, fields=10, _modify=2), acts=0.8), Q, T, ["ClearOnly", "ChildrenKept"]),
                        D.scenarios(D.actions, 700), D.scenarios(D.clears, 250)]},
    "C22": {"studies": [scalars(1500, 40000)]},
    "C23": {"studies": [modes(900, 12000), D.scenarios(D.shares, 300)]},
    "C32": {"studies": [twice(400, 6000)]},
    "C24": {"studies": [interrupts(2000, 30000)]},
    "C25": {"studies": [mmap(1500, 20000)]},
    "C05": {"studies": [histories(700, 12000)], "assumptions": FILES},
    "C26": {"studies": [histories(700, 12000, mk_conversion, ["arrays-without-index"])], "assumptions": FILES},
    "C27": {"studies": [expansion(1500, 25000)], "assumptions": FILES},
    "C28": {"studies": [pages(500, 9000)], "assumptions": FILES},
    "C29": {"studies": [renew(450, 8000)], "assumptions": FILES},
    "C30": {"studies": [compare(220, 4000)], "assumptions": FILES},
    "C31": {"studies": [formats(350, 5000)], "assumptions": FILES},
    "C33": {"studies": [histories(700, 12000, mk_asking)], "assumptions": FILES},
    "C34": {"studies": [validation(900, 15000)], "assumptions": FILES},
    "C39": {"studies": [includes("ignored rules", 2500, 30000)]},
    "C38": {"studies": [explanations(4500, 60000, prof(miss=0.5, opt=0.3, pmiss=0.3, max_err=4))]},
    "C37": {"studies": [histories_of_patches], "assumptions": HIST},
    "C35": {"studies": [patch(prof(paths=0.8, items=[2, 3]), Q, T, ["Frame"]),
                        D.scenarios(D.texts, 700)]},
    "C36": {"studies": [patch(prof(mutants=12), 200, 6000, ["FailKeepsNothing"]),
                        D.scenarios(D.faulty, 2200), D.scenarios(D.globs, 10)]},
}
