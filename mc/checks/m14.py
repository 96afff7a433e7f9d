"""M14: units are recognised by name and symbol and normalised stably.

Reference: the SI prefixes and units written down here, a symbol table built from
them, and a left-to-right reading of compound units.
"""
import itertools
import string

from mc.core import Mismatch

PREFIX = {"": "", "yotta": "Y", "zetta": "Z", "exa": "E", "peta": "P", "tera": "T", "giga": "G", "mega": "M", "kilo": "k",
          "hecto": "h", "deca": "da", "deci": "d", "centi": "c", "milli": "m", "micro": "μ", "nano": "n", "pico": "p",
          "femto": "f", "atto": "a", "zepto": "z", "yocto": "y"}
BASE = {"meter": "m", "kilogram": "kg", "second": "s", "ampere": "A", "kelvin": "K", "mole": "mol", "candela": "cd",
        "radian": "rad", "hertz": "Hz", "newton": "N", "joule": "J", "watt": "W", "pascal": "Pa", "coulomb": "C",
        "volt": "V", "ohm": "Ω", "siemens": "S", "weber": "Wb", "tesla": "T", "henry": "H"}
SPECIAL = [("digital counts", "count"), ("digital counts", "counts"), ("samples", "samples"), ("celsius", "C"), ("unknown", "unknown")]
TABLE = [(p + n, ps + s) for p, ps in PREFIX.items() for n, s in BASE.items()]
BYNAME = {n.lower(): (n, s) for n, s in TABLE}
BYNAME.update({n: (n, s) for n, s in SPECIAL[::-1]})
BYSYMBOL = {}
for _n, _s in SPECIAL + TABLE:
    BYSYMBOL.setdefault(_s, set()).add(_n)
SYMBOLS_CI = {}
for _n, _s in SPECIAL + TABLE:
    SYMBOLS_CI.setdefault(_s.lower(), set()).add(_n)


def goc(text, strict):
    from mt_metadata.common.units import get_unit_object

    try:
        o = get_unit_object(text, allow_none=not strict)
        return o.name.lower(), o.symbol
    except KeyError:
        return "refused"


def single(text):
    """acceptable names (lower case) of one unit word, or None when it is unknown"""
    if text.lower() in BYNAME:
        return {BYNAME[text.lower()][0]}
    if text.lower() in ("digital counts", "counts", "digital count"):
        return {"digital counts"}
    if text in BYSYMBOL:
        return BYSYMBOL[text]
    if len(text) == 1 and text.lower() in SYMBOLS_CI:
        return SYMBOLS_CI[text.lower()]
    return None


def check_single(text, bare):
    want = single(bare)
    for strict in (False, True):
        got = goc(text, strict)
        if want is None:
            ok = got == "refused" if strict else got == ("unknown", "unknown")
            if not ok:
                raise Mismatch("an unknown unit is taken for a known one" if got != "refused" else "unknown unit",
                               f"{text!r} strict={strict} -> {got}")
            continue
        if got == "refused" or got[0] not in want:
            raise Mismatch("a known unit is not recognised" if got in ("refused", ("unknown", "unknown")) else
                           "a unit is taken for another one", f"{text!r} strict={strict} -> {got}, expected {sorted(want)}")
        if got[1] not in BYSYMBOL or got[0] not in {x.lower() for x in BYSYMBOL[got[1]]}:
            raise Mismatch("symbol of a unit", f"{text!r} -> {got}")
        again = goc(got[0], strict)
        if again[0] != got[0]:
            raise Mismatch("normalising a unit twice changes it", f"{text!r} -> {got} -> {again}")
    return got


def singles(part, item):
    for text, bare in item:
        part.traces += 1
        part.transitions += 3
        try:
            part.state((text, str(check_single(text, bare))))
        except Mismatch as m:
            part.violation(m.sig, m.detail, {"single": text, "bare": bare})
        except Exception as e:
            part.violation(f"{type(e).__name__} for a single unit", f"{text!r}: {e}", {"single": text, "bare": bare})


SEPS = [("/", "/"), (" per ", "/"), (" ", " "), (" / ", "/"), (" Per ", None)][:4]


def compounds(part, item):
    """item: (names, separators, spelling flags)"""
    for names, seps, symb in item:
        words = []
        for n, s in zip(names, symb):
            words.append(BYNAME[n.lower()][1] if s else n)
        text = words[0] + "".join(sp[0] + w for sp, w in zip(seps, words[1:]))
        want_name = names[0].lower() + "".join((" per " if sp[1] == "/" else " ") + n.lower() for sp, n in zip(seps, names[1:]))
        sy = [BYNAME[n.lower()][1] for n in names]
        want_sym = sy[0] + "".join(("/" if sp[1] == "/" else " ") + s for sp, s in zip(seps, sy[1:]))
        part.traces += 1
        part.transitions += 3
        rep = {"compound": text, "name": want_name, "symbol": want_sym}
        try:
            compound(text, want_name, want_sym)
            part.state(text)
        except Mismatch as m:
            part.violation(m.sig, m.detail, rep)
        except Exception as e:
            part.violation(f"{type(e).__name__} for a compound unit", f"{text!r}: {e}", rep)


def compound(text, want_name, want_sym):
    for strict in (False, True):
        got = goc(text, strict)
        if got == "refused":
            raise Mismatch("a compound of known units is refused", f"{text!r}")
        if got[0] != want_name or got[1].replace("counts", "count") != want_sym.replace("counts", "count"):
            raise Mismatch("a compound unit is not the combination of its parts", f"{text!r} -> {got}, expected {(want_name, want_sym)}")
    for form in got:
        again = goc(form, True)
        if again == "refused" or again[0] != want_name:
            raise Mismatch("normalising a compound unit twice changes it", f"{text!r} -> {got} -> {again}")


def unknowns(part, item):
    """compounds with one unknown word: lenient reports it, strict refuses it"""
    for known, bad, sep, first in item:
        text = f"{bad}{sep}{known}" if first else f"{known}{sep}{bad}"
        part.traces += 1
        part.state(text)
        got, st = goc(text, False), goc(text, True)
        if st != "refused":
            part.violation("a compound with an unknown unit is accepted", f"{text!r} -> {st}", {"unknown": [known, bad, sep, first]})
        if got == "refused" or "unknown" not in got[0].split(" "):
            part.violation("a compound with an unknown unit does not report it", f"{text!r} -> {got}", {"unknown": [known, bad, sep, first]})


def other_classes():
    from mt_metadata.features.feature_decimation_channel import FeatureDecimationChannel
    from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel
    from mt_metadata.transfer_functions.io.edi.metadata.header import Header
    from mt_metadata.transfer_functions.io.emtfxml.metadata.channels import Channels
    from mt_metadata.transfer_functions.tf.statistical_estimate import StatisticalEstimate
    from mt_metadata.transfer_functions.tf.transfer_function import TransferFunction
    from mt_metadata.timeseries import Auxiliary, Magnetic

    return [Auxiliary, Magnetic, FCChannel, FeatureDecimationChannel, Header, Channels, StatisticalEstimate, TransferFunction]


def fields(part, item):
    """units given to metadata objects: stored as the normalised name; assigning what is stored changes nothing"""
    from mt_metadata.timeseries import Electric
    from mt_metadata.timeseries.filters import CoefficientFilter

    others = other_classes()
    for text, want in item:
        part.traces += 1
        part.transitions += 4
        rep = {"field": text, "want": want}
        try:
            objs = [(Electric(component="ex"), "units", False), (CoefficientFilter(), "units_in", True), (CoefficientFilter(), "units_out", True)]
            objs += [(c(), "units", False) for c in others]
            for o, attr, strict in objs:
                if text in (None, ""):
                    setattr(o, attr, text)
                    if getattr(o, attr) not in ("", "unknown", None):
                        raise Mismatch(f"{type(o).__name__}.{attr} without a unit", f"{text!r} -> {getattr(o, attr)!r}")
                    continue
                try:
                    setattr(o, attr, text)
                    got = getattr(o, attr)
                except KeyError:
                    got = "refused"
                if want is None:
                    ok = got == ("refused" if strict else "unknown")
                    if not ok:
                        raise Mismatch(f"{type(o).__name__}.{attr} with an unknown unit", f"{text!r} -> {got!r}")
                    continue
                if str(got).lower() != want:
                    raise Mismatch(f"{type(o).__name__}.{attr} is not the normalised unit", f"{text!r} -> {got!r}, expected {want!r}")
                setattr(o, attr, got)
                if getattr(o, attr) != got:
                    raise Mismatch(f"{type(o).__name__}.{attr}: storing what is stored changes it", f"{got!r} -> {getattr(o, attr)!r}")
                built = type(o)(**{attr: text})
                if getattr(built, attr) != got:
                    raise Mismatch(f"{type(o).__name__}({attr}=...) differs from assignment", f"{text!r}: {getattr(built, attr)!r} != {got!r}")
            part.state(("field", text))
        except Mismatch as m:
            part.violation(m.sig, m.detail, rep)
        except Exception as e:
            part.violation(f"{type(e).__name__} for units of a metadata object", f"{text!r}: {e}", rep)


def run(ctx):
    names = [n for n, _ in SPECIAL[:1] + SPECIAL[2:4] + TABLE]
    words = []
    for n in names:
        for t in {n, n.lower(), n.upper(), n.title(), n.capitalize()}:
            words += [(t, t), (f"[{t}]", t), (f" {t} ", t)]
    for s in BYSYMBOL:
        if s == "unknown":
            continue
        words += [(s, s), (f"[{s}]", s)]
    letters = string.ascii_letters + "μΩ"
    words += [("".join(c), "".join(c)) for k in (1, 2) for c in itertools.product(letters, repeat=k)]
    if not ctx.quick:
        words += [("".join(c), "".join(c)) for c in itertools.product(letters, repeat=3)]
    n = 32 if ctx.quick else 200
    ctx.pmap(singles, [words[i::n] for i in range(n)])
    few = ["volt", "millivolt", "meter", "kilometer", "nanotesla", "tesla", "second", "digital counts", "ohm", "ampere", "hertz", "microvolt", "samples", "kilogram", "radian"]
    many = few if ctx.quick else list(dict.fromkeys(few + list(BASE) + ["milli" + b for b in BASE] + ["micro" + b for b in BASE] + ["nano" + b for b in BASE]))
    many = [m for m in many if m not in ("coulomb",)]
    jobs = [((a, b), (sp,), fl) for a in many for b in many for sp in SEPS for fl in itertools.product((0, 1), repeat=2)]
    tri = few[:5] + ["digital counts"] if ctx.quick else few
    jobs += [(t, sp, fl) for t in itertools.product(tri, repeat=3) for sp in itertools.product(SEPS[:3], repeat=2)
             for fl in ((0, 0, 0), (1, 1, 1))]
    ctx.pmap(compounds, [jobs[i::64] for i in range(64)])
    bad = ["volts", "xyz", "Mv", "foot", "digital"]
    ctx.pmap(unknowns, [[(k, b, sp, fi) for b in bad for sp in ("/", " per ", " ") for fi in (0, 1)] for k in few[:7]])
    fl = [(w, n.lower()) for n in few for w in (n, n.upper(), BYNAME[n][1])]
    fl += [(f"{BYNAME[a][1]}/{BYNAME[b][1]}", f"{a} per {b}") for a in few for b in few]
    fl += [(b, None) for b in bad + ["", None]]
    ctx.pmap(fields, [fl[i::16] for i in range(16)])
    ctx.bounds = {"single_spellings": len(words), "compounds": len(jobs), "table": len(TABLE) + len(SPECIAL), "separators": [s[0] for s in SEPS],
                  "unknown_words": bad, "field_values": len(fl)}
    ctx.assumptions = ["symbol C is shared by celsius and coulomb: either is accepted",
                       "a single letter that is no symbol may be read without regard to case (documented in the source)"]


def replay(data):
    from mc.core import Part

    p = Part()
    if "single" in data:
        singles(p, [(data["single"], data["bare"])])
    elif "compound" in data:
        try:
            compound(data["compound"], data["name"], data["symbol"])
        except Mismatch as m:
            print("reproduced:", m)
    elif "field" in data:
        fields(p, [(data["field"], data["want"])])
    else:
        unknowns(p, [tuple(data["unknown"])])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, "\n", d)
