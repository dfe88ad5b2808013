"""C25: the command line, the combination iterator and the object interface agree."""
from __future__ import annotations

import contextlib
import copy
import io
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G

PROPERTY = "C25"
RULE = ("Random configurations are written as files and options and given to the real `halomod run` command in a scratch directory; every file it writes is "
        "compared with a model built from the same parameters, and the configuration written alongside is run again. get_halomodel is iterated over random "
        "combinations of parameters for every model class; the multiset of combinations, the label, the reported parameters and the values of every item are "
        "compared with newly built models.")
REQUIRED = ["cli-files", "cli-values", "cli-again", "cli-options", "cli-list", "combinations", "combination-values", "combination-parameters", "combination-label",
            "combination-objects", "cli-rejects"]
CASE_TIMEOUT = 150

SIMPLE = {
    "z": lambda r: G.U(r, 0, 1.5), "sigma_8": lambda r: G.U(r, 0.7, 0.95), "n": lambda r: G.U(r, 0.93, 1.0), "dlog10m": lambda r: G.pick(r, [0.15, 0.18, 0.22]),
    "dr_table": lambda r: G.pick(r, [0.25, 0.28, 0.33]), "hm_dlog10k": lambda r: G.pick(r, [0.2, 0.25, 0.35]), "rnum": lambda r: int(r.integers(5, 12)),
    "rmax": lambda r: G.U(r, 30, 90), "hm_logk_min": lambda r: G.U(r, -2, -1), "delta_c": lambda r: G.U(r, 1.65, 1.72),
    "hc_spectrum": lambda r: G.pick(r, ["linear", "nonlinear", "filtered-lin", "filtered-nl"]), "takahashi": lambda r: bool(r.integers(2)),
    "force_1halo_turnover": lambda r: bool(r.integers(2)), "force_unity_dm_bias": lambda r: bool(r.integers(2)), "Mmin": lambda r: G.U(r, 9, 10.5),
    "bias_model": lambda r: G.pick(r, G.BIASES), "hmf_model": lambda r: G.pick(r, ["Tinker08", "Tinker10"]),
    "halo_profile_model": lambda r: G.pick(r, ["NFW", "Hernquist", "CoredNFW"]),
    "halo_concentration_model": lambda r: G.pick(r, ["Duffy08", "Zehavi11", "Bullock01Power"]), "exclusion_model": lambda r: G.pick(r, ["NoExclusion", "Sphere"]),
    "transfer_model": lambda r: G.pick(r, ["EH", "EH_NoBAO", "BBKS"]),
}
TRACER = {
    "hod_model": lambda r: G.pick(r, ["Zehavi05", "Zheng05", "Contreras13"]), "hod_params": lambda r: dict(M_min=G.U(r, 11, 12.6), M_1=G.U(r, 12.4, 13.6)),
    "tracer_concentration_model": lambda r: G.pick(r, ["Duffy08", "Zehavi11"]),
}


def cases(rng, tier):
    k = 1 if tier == "quick" else 9
    out = [dict(kind="cli", rep=i, cost=2) for i in range(30 * k)]
    out += [dict(kind="cli_list", rep=i, cost=4) for i in range(12 * k)]
    out += [dict(kind="combos", rep=i, cls=["Tracer", "Tracer", "DM", "Projected", "Angular", "WDM", "TracerWDM"][i % 7], cost=6) for i in range(42 * k)]
    out += [dict(kind="rejects", rep=i, cost=1) for i in range(4)]
    return out


def run(case, mon):
    rng = rng_for("c25", case["seed"])
    warnings.simplefilter("ignore")
    globals()["run_" + case["kind"]](case, mon, rng)


def toml(kw):
    """A file as a user writes it (components in sections)."""
    def val(v):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, str):
            return f'"{v}"'
        if isinstance(v, (list, tuple)):
            return "[" + ", ".join(val(x) for x in v) + "]"
        return repr(v)

    top, sec = [], []
    for k, v in kw.items():
        if v is None or v == {}:
            continue
        if isinstance(v, dict):
            sec.append(f"[params.{k}]\n" + "".join(f"{a} = {val(b)}\n" for a, b in v.items()))
        else:
            top.append(f"{k} = {val(v)}")
    return "\n[params]\n" + "\n".join(top) + "\n\n" + "\n".join(sec)


class Cli:
    """The real command in a scratch directory."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vmon-c25-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, text=None, args=(), label=None, name="run.toml", sub="out"):
        from click.testing import CliRunner

        from halomod._cli import main

        out = os.path.join(self.dir, sub)
        os.makedirs(out, exist_ok=True)
        a = ["run", "-o", out]
        if text is not None:
            path = os.path.join(self.dir, name)
            with open(path, "w") as fl:
                fl.write(text)
            a += ["-i", path]
        if label:
            a += ["-l", label]
        if args:
            a += ["--", *args]
        self.result = CliRunner().invoke(main, a)
        return out

    def files(self, sub="out"):
        return sorted(os.listdir(os.path.join(self.dir, sub)))


def quantities(rng, cls, model, n):
    """Array outputs of the model."""
    out = []
    for q in rng.permutation(G.names(cls)):
        q = str(q)
        try:
            v = getattr(model, q)
        except Exception:  # noqa: BLE001
            continue
        if isinstance(v, np.ndarray) and v.ndim in (1, 2) and v.dtype.kind == "f" and np.isfinite(v).all():
            out.append(q)
        if len(out) == n:
            break
    return out


def config(rng, cls):
    kind = "dm" if cls in ("DM", "WDM") else "tracer"
    kw = G.draw(rng, kind, inf=False, masks=rng.random() < 0.4)
    if cls == "Projected":
        for q in ("rmin", "rmax", "rlog"):
            kw.pop(q, None)
        kw.update(rnum=25, rp_min=0.3, rp_max=15.0, rp_num=5)
    if cls == "Angular":
        for q in ("rmin", "rmax", "rlog"):
            kw.pop(q, None)
        kw.update(zmin=0.2, zmax=0.4, znum=8, unum=12, theta_num=4)
    if cls.endswith("WDM"):
        kw.update(wdm_mass=G.U(rng, 0.8, 4))
    return kw


def same_values(mon, clause, got, want, key, **d):
    # (what is written has nineteen digits)
    w = np.asarray(want, float)
    mon.close(clause, np.asarray(got, float), w, rtol=1e-10, atol=1e-15 * (np.max(np.abs(w)) if w.size else 0), key=key, **d)


FRAMEWORK = {"Tracer": "halomod.TracerHaloModel", "DM": "halomod.DMHaloModel", "WDM": "halomod.wdm.HaloModelWDM",
             "TracerWDM": "halomod.wdm.TracerHaloModelWDM", "Projected": "halomod.integrate_corr.ProjectedCF"}


def run_cli(case, mon, rng):
    cls = ["Tracer", "Tracer", "DM", "Projected", "WDM", "TracerWDM"][case["rep"] % 6]
    klass = G.model_class(cls)
    kw = config(rng, cls)
    # lists are lists of values to iterate over here
    kw = {k: v for k, v in kw.items() if v is not None and not isinstance(v, list)}
    if "cosmo_params" in kw and rng.random() < 0.5:
        kw.pop("cosmo_params")
    if kw.get("mdef_model") is None:
        kw.pop("mdef_params", None)
        # (hmf writes down the default definition, which it then refuses for fits measured in none)
        if kw["hmf_model"] not in ("Tinker08", "Tinker10", "Watson"):
            kw["hmf_model"] = G.pick(rng, ["Tinker08", "Tinker10"])
            kw.pop("hmf_params", None)
    if kw["hmf_model"] in ("Bhattacharya", "Crocce"):
        kw["hmf_model"] = "ST"  # (they add to the parameters they were given)
        kw.pop("hmf_params", None)
    if cls.endswith("WDM"):
        kw["alter_model"] = G.pick(rng, ["Schneider12_vCDM", "Schneider12", "Lovell14"])  # (hmf cannot write down its absence)
    own = kw.get("halo_concentration_model") == "Ludlow16" and kw.get("tracer_profile_model") is not None and kw.get("tracer_concentration_model") is None
    own = "|resolved relation and tracer profile" if own else ""
    try:
        ref = G.build(klass, kw)
        ref.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return
    qs = quantities(rng, klass, ref, int(rng.integers(2, 9)))
    extra = "" if cls == "Tracer" and rng.random() < 0.5 else f'framework = "{FRAMEWORK[cls]}"\n'
    head = extra + "quantities = [" + ", ".join(f'"{q}"' for q in qs) + "]\n"
    # some of the parameters are given as options, overriding the file
    opts, infile = [], dict(kw)
    for k in [k for k in kw if not isinstance(kw[k], dict) and k not in ("transfer_model",)]:
        if case["rep"] % 5 and rng.random() < 0.25:
            v = kw[k]
            infile.pop(k)
            if rng.random() < 0.5 and isinstance(v, float) and k in ("z", "n", "sigma_8"):
                infile[k] = round(v * 0.97 + 0.02, 4)  # overridden
            opts += [f"--{k}={v}"] if rng.random() < 0.5 else [f"--{k}", str(v)]
    for k in ("hod_params", "bias_params"):
        if case["rep"] % 5 and kw.get(k) and rng.random() < 0.3:
            infile.pop(k)
            opts += [f"--{k}", repr(kw[k])]
    label = G.pick(rng, [None, "mine", "a.b-c"])
    key = cls
    with Cli() as cli:
        out = cli.run(head + toml(infile), opts, label)
        ok = cli.result.exit_code == 0
        mon.check("cli-files", ok, key=f"{key}|exit", msg=f"{cli.result.exception!r} {cli.result.output[-300:]}", opts=opts, kw=kw)
        if not ok:
            return
        lab = label or "halomod"
        want = sorted([f"{lab}_{q}.txt" for q in qs] + [f"{lab}_cfg.toml"])
        mon.check("cli-files", cli.files() == want, key=f"{key}|names", msg=f"{cli.files()} {want}")
        clause = "cli-options" if opts else "cli-values"
        first = {}
        for q in qs:
            with mon.guard(clause, key=f"{cls}|{q}|read"):
                first[q] = np.loadtxt(os.path.join(out, f"{lab}_{q}.txt"), ndmin=np.ndim(getattr(ref, q)))
                same_values(mon, clause, first[q], getattr(ref, q), key=q, kw=kw, opts=opts)
        # the configuration written alongside
        cfg = open(os.path.join(out, f"{lab}_cfg.toml")).read()
        again = cli.run(extra + cfg, sub="again")
        if mon.check("cli-again", cli.result.exit_code == 0, key=f"{key}|exit", msg=f"{cli.result.exception!r} {cli.result.output[-300:]}", kw=kw):
            for q in qs:
                v = np.loadtxt(os.path.join(again, f"halomod_{q}.txt"), ndmin=np.ndim(getattr(ref, q)))
                same_values(mon, "cli-again", v, first[q], key=q + own, kw=kw)
        # and through the object interface
        import toml as T
        from hmf._cli import _process_dct

        par = _process_dct(T.loads(cfg)["params"])
        with mon.guard("cli-again", key=f"{key}|object", kw=kw):
            o = klass(**par)
            for q in qs:
                same_values(mon, "cli-again", getattr(o, q), first[q], key="object|" + q + own, kw=kw)


def pools(cls):
    p = dict(SIMPLE)
    if cls not in ("DM", "WDM"):
        p.update(TRACER)
    if cls in ("Projected", "Angular"):
        for q in ("rnum", "rmax", "Mmin"):
            p.pop(q, None)
    if cls.endswith("WDM"):
        p["wdm_mass"] = lambda r: G.U(r, 0.6, 4)
        p.pop("exclusion_model", None)
    if cls == "Angular":
        p["zmax"] = lambda r: G.U(r, 0.35, 0.5)
    if cls == "Projected":
        p["rp_max"] = lambda r: G.U(r, 8, 20)
    return p


def values(rng, fn, n):
    out = []
    for _ in range(40):
        v = fn(rng)
        if v not in out:
            out.append(v)
        if len(out) == n:
            break
    return out


def base_for(cls):
    kw = dict(G.GRID["light"])
    if cls == "Projected":
        kw.update(rnum=25, rp_min=0.3, rp_max=15.0, rp_num=5)
    if cls == "Angular":
        kw.update(zmin=0.2, zmax=0.4, znum=8, unum=12, theta_num=4)
    # (the default mass function is the partner of the bias the model is built with)
    return dict(kw, disable_mass_conversion=True, hmf_model="Tinker10")


QS = {"DM": ["dndm", "power_auto_matter", "corr_auto_matter", "corr_linear_mm", "cmz_relation", "m", "k_hm", "halo_bias"],
      "Tracer": ["dndm", "power_auto_tracer", "corr_auto_tracer", "power_cross_tracer_matter", "total_occupation", "mean_tracer_den", "satellite_fraction",
                 "corr_2h_auto_tracer", "bias_effective_tracer"],
      "Projected": ["projected_corr_gal", "corr_auto_tracer", "mean_tracer_den"], "Angular": ["angular_corr_gal", "mean_tracer_den", "dndm"],
      "WDM": ["dndm", "power_auto_matter", "f_halos"], "TracerWDM": ["power_auto_tracer", "corr_auto_tracer", "f_halos", "mean_tracer_den"]}


def run_combos(case, mon, rng):
    from halomod.functional import get_halomodel

    cls = case["cls"]
    klass = G.model_class(cls)
    p = pools(cls)
    nl = int(rng.integers(1, 4))
    names = [str(x) for x in rng.choice(sorted(p), nl, replace=False)]
    lists = {k: values(rng, p[k], int(rng.integers(2, 4 if nl < 3 else 3))) for k in names}
    lists = {k: (tuple(v) if rng.random() < 0.3 else v) for k, v in lists.items() if len(v) > 1}
    single = {k: p[k](rng) for k in sorted(p) if k not in names and rng.random() < 0.15}
    if "hod_params" not in lists and cls not in ("DM", "WDM"):
        single.setdefault("hod_params", {"M_min": 12.0})
    base = {**{k: v for k, v in base_for(cls).items() if k not in lists}, **single}
    for k in rng.choice(sorted(G.GRID["light"]), int(rng.choice([0, 0, 1, 2])), replace=False):
        base.pop(str(k), None)  # what is not given has the default of the class
    if rng.random() < 0.2:
        k = G.pick(rng, sorted(single)) if single else "z"
        if k in single:
            base[k] = [single[k]]  # a list of one is a value
    qs = [str(q) for q in rng.choice(QS[cls], int(rng.integers(1, len(QS[cls]) + 1)), replace=False)]
    ask = qs[0] if len(qs) == 1 and rng.random() < 0.7 else qs
    combos = [dict(zip(lists, c)) for c in itertools.product(*lists.values())] if lists else [{}]
    left = list(combos)
    labels, keep = [], []
    label = bool(rng.random() < 0.75)
    key = f"{cls}|{len(lists)}"
    plain = {k: (v[0] if isinstance(v, list) and len(v) == 1 and k in single else v) for k, v in base.items()}
    with mon.guard("combinations", key=key, lists=lists, single=single, qs=qs):
        given = copy.deepcopy({**base, **lists})
        for item in get_halomodel(ask, get_label=label, kls=klass, **given):
            mon.check("combinations", len(item) == 2 + label, key=key + "|length", msg=str(len(item)))
            q, x = item[0], item[1]
            mon.check("combination-objects", type(x) is klass, key=cls, msg=type(x).__name__)
            mine = [c for c in left if all(same_par(x, k, v) for k, v in c.items())]
            if not mon.check("combinations", len(mine) >= 1, key=key + "|unknown or repeated", msg=f"{ {k: getattr(x, k) for k in lists} }", lists=lists):
                continue
            c = mine[0]
            left.remove(c)
            if label:
                lab = item[2]
                labels.append(lab)
                parts = [(f"{v}" if isinstance(v, str) else f"{k}: {v}") for k, v in flat(c)]
                mon.check("combination-label", sorted(lab.split(", ")) == sorted(parts) if c else lab == "", key=cls, msg=f"{lab!r} {c}")
            fresh = G.build(klass, {**plain, **c})
            mon.check("combination-values", len(q) == len(qs), key=key + "|number")
            for a, name in zip(q, qs):
                w = getattr(fresh, name)
                same_values(mon, "combination-values", a, w, key=f"{cls}|{name}", lists=lists, combo=c, single=single)
                same_values(mon, "combination-objects", getattr(x, name), w, key=f"{cls}|{name}", lists=lists, combo=c)
                keep.append((a, np.array(w, copy=True), name))
            pv, fv = x.parameter_values, fresh.parameter_values
            bad = [k for k in fv if not same_value(pv.get(k), fv[k])]
            mon.check("combination-parameters", not bad and set(pv) == set(fv), key=cls, msg=f"{bad}", lists=lists, combo=c)
        mon.check("combinations", not left, key=key + "|missing", msg=f"{len(left)} of {len(combos)} missing: {left[:2]}")
        if label and len(lists):
            mon.check("combination-label", len(set(labels)) == len(labels), key=cls + "|unique", msg=str(labels[:4]))
        # what was handed out is not changed by the following steps
        for a, w, name in keep:
            same_values(mon, "combination-values", a, w, key=f"{cls}|{name}|afterwards")
        mon.check("combinations", given == {**base, **lists}, key="arguments unchanged")


def flat(c):
    for k, v in c.items():
        if isinstance(v, dict):
            yield from v.items()
        else:
            yield k, v


def same_value(a, b):
    if isinstance(a, type) and isinstance(b, type):
        return a.__name__ == b.__name__
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_value(a[k], b[k]) for k in a)
    try:
        return bool(np.all(a == b))
    except Exception:  # noqa: BLE001
        return True


def same_par(x, k, v):
    got = x.parameter_values[k]
    if isinstance(v, str) and isinstance(got, type):
        return got.__name__ == v
    if isinstance(v, dict):
        return all(got.get(a) == b for a, b in v.items())
    return bool(np.all(got == v))


def run_cli_list(case, mon, rng):
    """A list in the file: one set of files for every value."""
    name = str(rng.choice([k for k in {**SIMPLE, **TRACER} if k != "hod_params"]))
    vals = values(rng, {**SIMPLE, **TRACER}[name], int(rng.integers(2, 4)))
    if len(vals) < 2:
        return
    base = {k: v for k, v in base_for("Tracer").items() if k != name}
    base["hod_params"] = {"M_min": 12.0}
    qs = [str(q) for q in rng.choice(["dndm", "power_auto_tracer", "corr_auto_tracer", "total_occupation", "m", "corr_linear_mm"], 3, replace=False)]
    with Cli() as cli:
        opts = [f"--{name}", repr(vals)] if rng.random() < 0.4 else []
        out = cli.run("quantities = [" + ", ".join(f'"{q}"' for q in qs) + "]\n" + toml({**base, **({} if opts else {name: vals})}), opts)
        if not mon.check("cli-list", cli.result.exit_code == 0, key="exit", msg=f"{cli.result.exception!r}", name=name, vals=vals):
            return
        labs = [v if isinstance(v, str) else f"{name}={v}" for v in vals]
        want = sorted([f"{l}_{q}.txt" for l in labs for q in qs] + [f"{l}_cfg.toml" for l in labs])
        mon.check("cli-list", cli.files() == want, key="names", msg=f"{cli.files()[:4]} {want[:4]}", name=name)
        for v, l in zip(vals, labs):
            ref = G.build(G.model_class("Tracer"), {**base, name: v})
            for q in qs:
                with mon.guard("cli-list", key=q):
                    same_values(mon, "cli-list", np.loadtxt(os.path.join(out, f"{l}_{q}.txt")), getattr(ref, q), key=f"{name}|{q}", vals=vals, value=v)
            again = cli.run(open(os.path.join(out, f"{l}_cfg.toml")).read(), sub="again-" + l)
            if mon.check("cli-again", cli.result.exit_code == 0, key="list|exit", msg=f"{cli.result.exception!r}"):
                for q in qs:
                    same_values(mon, "cli-again", np.loadtxt(os.path.join(again, f"halomod_{q}.txt")), getattr(ref, q), key=f"list|{name}|{q}", value=v)


def run_rejects(case, mon, rng):
    """A bad request fails and does not look like a success."""
    bad = [dict(nonsense=1.0), dict(bias_model="NoSuchBias"), dict(hc_spectrum="cubic"), dict(hod_params={"nonsense": 1.0})][case["rep"]]
    with Cli() as cli:
        cli.run('quantities = ["m", "power_auto_tracer"]\n' + toml({**base_for("Tracer"), **bad}))
        mon.check("cli-rejects", cli.result.exit_code != 0, key=next(iter(bad)), msg="accepted")
        mon.check("cli-rejects", not [f for f in cli.files() if "power" in f], key="no files|" + next(iter(bad)), msg=str(cli.files()))
        cli.run('quantities = ["m", "no_such_quantity"]\n' + toml(base_for("Tracer")), sub="out2")
        mon.check("cli-rejects", cli.result.exit_code != 0, key="quantity", msg="accepted")
