"""Histories of API calls generated by TLC from spec/ApiGen.tla."""
import json
from common import tlc, SEED, unq, tla_fields, MachineryError


def _parse(r):
    out = []
    for p in r.prints:
        out.append(json.loads(unq(tla_fields(p)[0])))
    return out


def histories(num, length, tq, nd, kinds, nu=2, ub=(1, 2), vias=("method",), salt=0):
    cfg = dict(tq=list(tq), nd=list(nd), kinds=list(kinds), nu=nu, ub=list(ub), vias=list(vias), len=length,
               random=True, sim=True)
    r = tlc("ApiGen", data=cfg, workers=1, tag="gen",
            args=["-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(SEED * 7919 + salt)])
    hs = _parse(r)
    if len(hs) < num * 0.5:
        raise MachineryError("history generation failed:\n" + r.out[-2000:])
    return hs[:num], r


def exhaustive(length, tq, nd, kinds, nu=1, ub=(1,), vias=("method",)):
    cfg = dict(tq=list(tq), nd=list(nd), kinds=list(kinds), nu=nu, ub=list(ub), vias=list(vias), len=length,
               random=False, sim=False)
    r = tlc("ApiGen", data=cfg, tag="gen")
    hs = _parse(r)
    if not hs:
        raise MachineryError("history generation failed:\n" + r.out[-2000:])
    return hs, r


def many(jobs):
    """[histories(**j) for j in jobs], several TLC processes at a time."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        return list(ex.map(lambda j: histories(**j)[0], jobs))


def registers(num, length, names, lists, first, gets=True, random=True, salt=0):
    """Register histories from spec/RegGen.tla: [dict(h=.., n=.., subs=..)]."""
    cfg = dict(names=names, lists=lists, first=first, random=random, len=length, gets=gets)
    args = ["-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(SEED * 7919 + salt)] if random else []
    r = tlc("RegGen", data=cfg, tag="gen", **(dict(workers=1) if random else {}), args=args)
    hs = _parse(r)
    if len(hs) < (num * .5 if random else 1):
        raise MachineryError("register history generation failed:\n" + r.out[-2000:])
    return hs
