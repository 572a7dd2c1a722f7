"""P16, part three: every setting of the input survives the restart file.

The restart file replaces the input.  For every class of the input tree and every value, attribute and dictionary entry declared in it, an
input is written in which this one setting differs from its default; it is loaded, saved as a restart file and loaded again, and the setting
must still have its value.  The list of settings is taken from the declarations of the code itself on every run, so it is complete for the
listed sections by construction.  Settings of one optimiser or thermostat that another one does not use need not be kept (UNUSED)."""
import fnmatch



import numpy as _np

from pyvc.contracts import contract
from ipi.utils.inputvalue import Input, InputValue, InputArray, InputDictionary, input_default
from ipi.utils.io.inputs import io_xml
from ipi.inputs.simulation import InputSimulation
from checks import p16 as R


def load(text):
    i = InputSimulation()
    i.parse(io_xml.xml_parse_string(text).fields[0][1])
    return i


def again(i):
    """through a restart file (of a simulation that has not been started)"""
    s = i.fetch()
    for x in s.syslist:
        x.nm.bosons = _np.zeros(0, int)      # resolved from the labels when a simulation starts
    j = InputSimulation()
    j.store(s)
    return load(j.write("simulation"))


GIVEN = {"floatformat": "%20.10e", "flip": "hard"}


def other(default, dtype, options, name=None):
    """a value that is not the default, or None"""
    if name in GIVEN:
        return GIVEN[name]
    if options:
        o = [x for x in options if x != default and x not in ("None", "file")]
        return o[-1] if o else None
    if isinstance(default, input_default):
        return None
    if dtype is bool:
        return not default
    if dtype is int:
        return int(default or 0) + 1
    if dtype is float:
        return 0.75 if default is None or not _np.isfinite(default) else float(default) * 1.25 + 0.125
    if dtype is str:
        return "other"
    return None


def settings(cls):
    """(kind, names, value) for everything declared in an input class"""
    for a, (c, kw) in cls.attribs.items():
        if a in ("mode", "units", "shape", "name"):
            continue
        v = other(kw.get("default"), kw.get("dtype"), kw.get("options"), a)
        if v is not None:
            yield ("attribute", (a,), v)
    for f, (c, kw) in cls.fields.items():
        if c is InputValue:
            if kw.get("dtype") not in (bool, int, float, str):
                continue
            v = other(kw.get("default"), kw.get("dtype"), kw.get("options"), f)
            if v is not None:
                yield ("value", (f,), v)
        elif c is InputArray and kw.get("dtype") in (int, float):
            yield ("array", (f,), [1, 2, 3] if kw["dtype"] is int else [0.75, 1.5, -2.25])
        elif c is InputDictionary:
            ds, ts = kw["default"], kw["dtype"]
            for k, o in enumerate(kw["options"]):
                d = ds[k] if hasattr(ds, "__len__") else ds
                t = ts[k] if hasattr(ts, "__len__") else ts
                v = other(d, t, None)
                if v is not None:
                    yield ("entry", (f, o), v)


def put(kind, names, v):
    s = repr(v) if isinstance(v, (bool, int, float, list)) else str(v)
    if kind == "attribute":
        return " %s='%s' " % (names[0], s), ""
    for n in reversed(names):
        s = "<%s> %s </%s>" % (n, s, n)
    return "", s


def reach(o, names):
    for n in names:
        o = o.__dict__[n]
    return o.fetch()


def extra(i, tag):
    r = [o for n, o in i.extra if n == tag]
    return r[0]


def text(sim_attr="", sim_body="", output="", out_attr="", ff="", motion=None, forces="<force forcefield='lj'/>", force_extra="", ens="", nm="", smotion="", sysattr="", prng="<prng><seed> 7 </seed></prng>"):
    motion = motion or R.mo("dynamics", "<dynamics mode='nve'><timestep> 5 </timestep></dynamics>")
    return ("<simulation %s> %s %s <output prefix='sim' %s> %s </output> <fflj name='lj'><parameters> { eps: 0.001, sigma: 4.0 } </parameters></fflj> %s <system %s> <initialize nbeads='2'> "
            "<positions mode='manual'> [0,0,0,5,0,0,0,0,0,5,0,0] </positions><masses mode='manual'> [1837, 3000] </masses><labels mode='manual'> [H, He] </labels>"
            "<cell mode='manual'> [20,0,0,0,20,0,0,0,20] </cell></initialize><forces> %s %s </forces> %s %s <ensemble> <temperature> 0.001 </temperature> %s </ensemble></system> %s </simulation>"
            % (sim_attr, sim_body, prng, out_attr, output, ff, sysattr, forces, force_extra, motion, nm, ens, smotion))


H0 = "<h0 shape='(3,3)'> [20,0,0,0,20,0,0,0,20] </h0>"
SYS = lambda i: extra(i, "system")
MOT = lambda i: SYS(i).motion
SECTIONS = {}     # name -> (input class, function (attributes, body) -> text, function (input) -> section)


def section(name, cls, make, get):
    SECTIONS[name] = (cls, make, get)


def _sections():
    import ipi.inputs.motion as M
    import ipi.inputs.outputs as O
    import ipi.inputs.forcefields as F
    import ipi.inputs.forces as FO
    import ipi.inputs.thermostats as T
    import ipi.inputs.barostats as B
    import ipi.inputs.normalmodes as N
    import ipi.inputs.motion.motion as MM
    import ipi.inputs.prng as IR
    section("simulation", InputSimulation, lambda a, b: text(a, b), lambda i: i)
    section("output of properties", O.InputProperties, lambda a, b: text(output="<properties %s> [step] %s </properties>" % (a, b)), lambda i: extra(i.output, "properties"))
    section("output of trajectories", O.InputTrajectory, lambda a, b: text(output="<trajectory %s> positions %s </trajectory>" % (a, b)), lambda i: extra(i.output, "trajectory"))
    section("output of checkpoints", O.InputCheckpoint, lambda a, b: text(output="<checkpoint %s> %s </checkpoint>" % (a, b or "0")), lambda i: extra(i.output, "checkpoint"))
    section("output", O.InputOutputs, lambda a, b: text(out_attr=a).replace("prefix='sim'", "" if "prefix" in a else "prefix='sim'"), lambda i: i.output)
    section("random numbers", IR.InputRandom, lambda a, b: text(prng="<prng %s> %s %s </prng>" % (a, b, "" if "<seed>" in b else "<seed> 7 </seed>")), lambda i: i.prng)
    section("system", None, lambda a, b: text(sysattr=a, nm=b), SYS)
    section("force component", FO.InputForceComponent, lambda a, b: text(forces="", force_extra="<force %s %s> %s </force>" % (a, "" if "forcefield" in a else "forcefield='lj'", b)),
            lambda i: extra(SYS(i).forces, "force"))
    section("ensemble", None, lambda a, b: text(ens=b), lambda i: SYS(i).ensemble)
    section("normal modes", N.InputNormalModes, lambda a, b: text(nm="<normal_modes %s> %s </normal_modes>" % (a, b)), lambda i: SYS(i).normal_modes)
    for t, c in (("fflj", F.InputFFLennardJones), ("ffsocket", F.InputFFSocket), ("ffdirect", F.InputFFDirect), ("ffdebye", F.InputFFDebye),
                 ("ffdmd", F.InputFFdmd), ("ffmpi", F.InputFFMPI), ("ffcavphsocket", F.InputFFCavPhSocket)):
        md = {"ffsocket": " mode='unix' ", "ffcavphsocket": " mode='unix' "}.get(t, "")
        more = {"ffdmd": "<dmd_coupling> [1.0] </dmd_coupling>", "ffdebye": "<hessian shape='(6,6)'> %s </hessian><x_reference> [0,0,0,1,1,1] </x_reference>" % _np.eye(6).flatten().tolist(),
                "fflj": "<parameters> { eps: 0.001, sigma: 4.0 } </parameters>", "ffcavphsocket": "<charge_array> [0.1, 0.2] </charge_array>"}.get(t, "")
        section(t, c, lambda a, b, t=t, md=md, more=more: text(ff="<%s name='x' %s %s> %s %s </%s>" % (t, md, a, b, more, t)), lambda i, t=t: [o for n, o in i.extra if n == t and o.name.fetch() == "x"][0])
    section("ffcommittee", F.InputFFCommittee, lambda a, b: text(ff="<ffcommittee name='x' %s> <fflj name='m1'><parameters> { eps: 0.001, sigma: 4.0 } </parameters></fflj><fflj name='m2'><parameters> { eps: 0.002, sigma: 4.0 } </parameters></fflj><weights> [1, 2] </weights> %s </ffcommittee>" % (a, b)), lambda i: extra(i, "ffcommittee"))
    section("ffrotations", F.InputFFRotations, lambda a, b: text(ff="<ffrotations name='x' %s> <ffdirect name='m1'><pes> dummy </pes></ffdirect> %s </ffrotations>" % (a, b)), lambda i: extra(i, "ffrotations"))
    for t in ("langevin", "svr", "pile_l", "pile_g", "gle", "nm_gle", "nm_gle_g", "cl", "ffl"):
        base = {"gle": R.A, "nm_gle": R.A2, "nm_gle_g": R.A2 + "<tau> 100 </tau>"}.get(t, "<tau> 100 </tau>")
        section("thermostat " + t, T.InputThermoBase, lambda a, b, t=t, base=base: text(motion=R.mo("dynamics", "<dynamics mode='nvt'><timestep> 5 </timestep><thermostat mode='%s' %s> %s %s </thermostat></dynamics>" % (t, a, base.replace("<tau> 100 </tau>", "") if "<tau>" in b else base, b))),
                lambda i: MOT(i).dynamics.thermostat)
    for t in ("isotropic", "flexible", "anisotropic", "sc-isotropic"):
        section("barostat " + t, B.InputBaro, lambda a, b, t=t: text(ens="<pressure> 1e-5 </pressure>", motion=R.mo("dynamics", "<dynamics mode='npt'><timestep> 5 </timestep><thermostat mode='svr'><tau> 100 </tau></thermostat><barostat mode='%s' %s> <thermostat mode='svr'><tau> 100 </tau></thermostat> %s %s </barostat></dynamics>" % (t, a, H0 if t == "anisotropic" else "", b))),
                lambda i: MOT(i).dynamics.barostat)
    for m in ("nve", "nvt", "npt", "nst", "sc", "scnpt", "nvt-cc"):
        section("dynamics " + m, MM.InputDynamics, lambda a, b, m=m: text(ens="<pressure> 1e-5 </pressure>" if "p" in m else "<stress> [1e-5,0,0,0,1e-5,0,0,0,1e-5] </stress>" if m == "nst" else "",
                motion=R.mo("dynamics", "<dynamics mode='%s' %s> <thermostat mode='svr'><tau> 100 </tau></thermostat><barostat mode='%s'> <thermostat mode='svr'><tau> 100 </tau></thermostat> %s </barostat> %s </dynamics>" % (m, a, "anisotropic" if m == "nst" else "sc-isotropic" if m == "scnpt" else "isotropic", H0 if m == "nst" else "", b))),
                lambda i: MOT(i).dynamics)
    section("driven dynamics", MM.InputDrivenDynamics, lambda a, b: text(motion=R.mo("driven_dynamics", "<driven_dynamics mode='eda-nvt' %s> <thermostat mode='svr'><tau> 100 </tau></thermostat> %s </driven_dynamics>" % (a, b))), lambda i: MOT(i).driven_dynamics)
    import ipi.inputs.motion.driven_dynamics as DD
    section("electric field", DD.InputElectricField, lambda a, b: text(motion=R.mo("driven_dynamics", "<driven_dynamics mode='eda-nve'> <efield %s> <amp> [1,2,3] </amp> %s </efield></driven_dynamics>" % (a, b))), lambda i: MOT(i).driven_dynamics.efield)
    section("constrained dynamics", MM.InputConstrainedDynamics, lambda a, b: text(motion=R.mo("constrained_dynamics", "<constrained_dynamics mode='nvt' %s> <thermostat mode='svr'><tau> 100 </tau></thermostat> <csolver/> %s %s </constrained_dynamics>" % (a, R.con("distance", "0,1"), b))), lambda i: MOT(i).constrained_dynamics)
    import ipi.inputs.motion.constrained_dynamics as CD
    section("constraint solver", CD.InputConstraintSolver, lambda a, b: text(motion=R.mo("constrained_dynamics", "<constrained_dynamics mode='nvt'> <thermostat mode='svr'><tau> 100 </tau></thermostat> %s <csolver %s> %s </csolver> </constrained_dynamics>" % (R.con("distance", "0,1"), a, b))), lambda i: MOT(i).constrained_dynamics.csolver)
    section("motion", None, lambda a, b: text(motion=R.mo("dynamics", "<dynamics mode='nve'/>", b)), MOT)
    for mode, tag, c, modes in (("minimize", "optimizer", MM.InputGeop, ("sd", "cg", "bfgs", "bfgstrm", "lbfgs", "damped_bfgs")),
                                ("neb", "neb_optimizer", MM.InputNEB, ("bfgstrm", "damped_bfgs", "fire")),
                                ("vibrations", "vibrations", MM.InputDynMatrix, ("fd", "nmfd", "enmfd")),
                                ("normalmodes", "normalmodes", MM.InputNormalMode, ("imf", "vscf")),
                                ("scp", "scp", MM.InputSCPhonons, ("qn", "cl")),
                                ("alchemy", "alchemy", MM.InputAlchemy, ("dummy",)), ("atomswap", "atomswap", MM.InputAtomSwap, ("dummy",)),
                                ("t_ramp", "t_ramp", MM.InputTemperatureRamp, ("",)), ("p_ramp", "p_ramp", MM.InputPressureRamp, ("",)),
                                ("instanton", "instanton", MM.InputInst, ("rate", "splitting")),
                                ("planetary", "planetary", MM.InputPlanetary, ("md",)),
                                ("al-kmc", "al6xxx_kmc", MM.InputAlKMC, ("rfkmc",))):
        for m in modes:
            if mode == "instanton":
                for o in ("nichols", "NR", "lbfgs", "lanczos"):
                    section("instanton %s %s" % (m, o), c, lambda a, b, m=m, o=o: text(motion=R.mo("instanton", "<instanton mode='%s' %s> %s %s </instanton>" % (m, a, "" if "<opt>" in b else "<opt> %s </opt>" % o, b))), lambda i: MOT(i).instanton)
                continue
            section("%s %s" % (tag, m), c, lambda a, b, m=m, mode=mode, tag=tag: text(motion=R.mo(mode, "<%s %s %s> %s </%s>" % (tag, "mode='%s'" % m if m else "", a, b + ("<max_steps> 5 </max_steps>" if tag == "scp" and "max_steps" not in b else ""), tag))), lambda i, tag=tag: MOT(i).__dict__[tag])
    import ipi.inputs.smotion.remd as RE
    section("replica exchange", RE.InputReplicaExchange, lambda a, b: text(smotion="<smotion mode='remd'><remd %s> %s </remd></smotion>" % (a, b)), lambda i: i.smotion.remd)
    import ipi.inputs.smotion.metad as ME
    section("metadynamics", ME.InputMetaDyn, lambda a, b: text(smotion="<smotion mode='metad'><metad %s> <metaff> [lj] </metaff> %s </metad></smotion>" % (a, b)), lambda i: i.smotion.metad)


_sections()
import ipi.inputs.system as _ISY
import ipi.inputs.ensembles as _IEN
import ipi.inputs.motion.motion as _IMO
for _k, _c in (("system", _ISY.InputSystem), ("ensemble", _IEN.InputEnsemble), ("motion", _IMO.InputMotionBase)):
    SECTIONS[_k] = (_c,) + SECTIONS[_k][1:]


def survey(name):
    """[(setting, problem or None)] for one section; None as a problem means that it is kept, '' that it cannot be set in this section"""
    cls, make, get = SECTIONS[name]
    out = []
    for kind, names, v in settings(cls):
        a, b = put(kind, names, v)
        label = "/".join(names)
        try:
            with R.sandbox():
                i = load(make(a, b))
                want = reach(get(i), names)
                sim_ok = i.fetch() is not None
                i = load(make(a, b))
        except (Exception, SystemExit, R.Interrupted) as e:
            out.append((label, "", repr(e)[:100]))
            continue
        try:
            with R.sandbox():
                got = reach(get(again(i)), names)
        except (Exception, SystemExit, R.Interrupted) as e:
            out.append((label, "could not be saved and loaded: %r" % e, None))
            continue
        if isinstance(want, _np.ndarray):
            same = _np.shape(got) == want.shape and _np.allclose(got, want, rtol=1e-7, atol=0)
        else:
            same = got == want if not isinstance(want, float) else abs(got - want) <= 1e-7 * abs(want)
        out.append((label, None if same else "%r instead of %r" % (got, want), None))
    return out


# settings that the chosen algorithm never looks at (they may or may not be kept)
UNUSED = (
    ("random numbers", "seed state"),     # the state is kept in another form; whole runs are compared elsewhere
    ("ffdebye", "activelist"), ("ffdmd", "activelist"), ("ffcommittee", "activelist"), ("thermostat *", "A C s"), ("barostat *", "p"), ("motion", "fixatoms"),     # fixatoms is kept as fixatoms_dof
    ("optimizer *", "old_pos old_pot old_force old_direction invhessian_bfgs hessian_trm tr_trm qlist_lbfgs glist_lbfgs"),
    ("instanton *", "old_pos fric_spec_dens eta fric_hessian hessian qlist_lbfgs glist_lbfgs old_direction"),
    ("thermostat gle", "tau"), ("thermostat nm_gle", "tau"), ("thermostat *", "pile_lambda pile_centroid_t"), ("thermostat *", "intau idtau apat"), ("thermostat *", "flip"),
    ("optimizer sd", "biggest_step scale_lbfgs corrections_lbfgs"), ("optimizer cg", "biggest_step scale_lbfgs corrections_lbfgs"),
    ("optimizer *bfgs*", "ls_options/tolerance ls_options/iter ls_options/step ls_options/adaptive"),
    ("optimizer bfgs", "scale_lbfgs corrections_lbfgs"), ("optimizer bfgstrm", "scale_lbfgs corrections_lbfgs"), ("optimizer damped_bfgs", "scale_lbfgs corrections_lbfgs"),
    ("neb_optimizer *", "corrections_lbfgs scale_lbfgs"),
    ("instanton *", "fric_spec_dens_ener hessian_init"),     # no friction here; the hessian itself is in the restart file
    ("instanton * lbfgs", "hessian_update hessian_asr"),
    ("instanton * nichols", "scale_lbfgs corrections_lbfgs ls_options/tolerance ls_options/iter"), ("instanton * NR", "scale_lbfgs corrections_lbfgs ls_options/tolerance ls_options/iter"),
    ("instanton * lanczos", "scale_lbfgs corrections_lbfgs ls_options/tolerance ls_options/iter"),
    ("ffdebye", "pbc threaded"),                             # the code says: NEVER DO PBC
)
USED = (("thermostat pile_*", "pile_lambda pile_centroid_t"), ("thermostat cl", "intau idtau apat"), ("thermostat ffl", "flip"), ("thermostat *gle*", "A C s"),
        ("optimizer cg", "old_force old_direction"), ("optimizer bfgs", "old_direction invhessian_bfgs"), ("optimizer damped_bfgs", "old_direction invhessian_bfgs"), ("optimizer bfgstrm", "hessian_trm tr_trm"),
        ("optimizer lbfgs", "old_direction qlist_lbfgs glist_lbfgs"), ("instanton * lbfgs", "qlist_lbfgs glist_lbfgs old_direction"),
        ("instanton * nichols", "hessian"), ("instanton * NR", "hessian"), ("instanton * lanczos", "hessian"))


def unused(sec, label):
    hit = lambda table: any(fnmatch.fnmatchcase(sec, p) and label in s.split() for p, s in table)
    return hit(UNUSED) and not hit(USED)


GROUPS = {"the run, its output and its forces": lambda n: n in ("simulation", "random numbers", "system", "output", "ensemble", "force component") or n.startswith(("output of", "ff")),
          "dynamics": lambda n: n.startswith(("thermostat", "barostat", "dynamics", "driven", "electric", "constrain", "normal modes")) or n == "motion"}
GROUPS["optimisers and other motions"] = lambda n: not any(f(n) for k, f in GROUPS.items() if k != "optimisers and other motions")


def _kept(ctx, group):
    total = 0
    for name in SECTIONS:
        if not GROUPS[group](name):
            continue
        res = survey(name)
        total += sum(p is None for l, p, e in res)
        for label, p, e in res:
            if p == "" or unused(name, label):
                continue
            ctx.ensure("%s: %s is kept by the restart file%s" % (name, label, "" if p is None else " (it becomes %s)" % p), p is None)
    ctx.ensure("the settings of %s can be set and saved" % group, total >= FLOOR[group])


FLOOR = {"the run, its output and its forces": 60, "dynamics": 60, "optimisers and other motions": 150}


def targets(group):
    out = ["ipi/inputs/simulation.py:InputSimulation.store", "ipi/inputs/system.py:InputSystem.store", "ipi/utils/inputvalue.py:Input.write"]
    for n, (cls, _, _) in SECTIONS.items():
        for f in ("store", "fetch"):
            c = next(c for c in cls.__mro__ if f in c.__dict__)
            o = "%s.py:%s.%s" % (c.__module__.replace(".", "/"), c.__name__, f)
            if GROUPS[group](n) and o not in out:
                out.append(o)
    return out


for _g in GROUPS:
    def _fn(ctx, g=_g):
        _kept(ctx, g)
    contract("P16", "every setting of %s survives the restart file" % _g, targets(_g), sym=False, samples=(1, 1), limit=300, why="the settings are enumerated from the declarations of the input classes; the values are text")(_fn)
