"""P16: a simulation that is interrupted and restarted continues as if it had never stopped."""
import contextlib
import io
import os
import re
import shutil
import tempfile

import numpy as np

from pyvc.contracts import contract
from ipi.engine.simulation import Simulation
from ipi.inputs.simulation import InputSimulation
from ipi.utils.softexit import softexit, Softexit
from ipi.utils.messages import verbosity
import ipi.utils.io.inputs.io_xml as io_xml

ASSUMPTIONS = ["three atoms, up to five beads, six steps; numbers written with full precision; one thread"]
STEPS = 6


def xml(motion, nb=2, ens="<temperature units='kelvin'> 400 </temperature>", nm="", smotion="", nsys=1, ffx="", forces="<force forcefield='lj'/>",
        steps=STEPS, attr="", prng="<prng><seed> 7 </seed></prng>", outputs="", props="", ffattr="threaded='False'"):
    """an input file"""
    rng = np.random.RandomState(1)
    q = np.array([0, 0, 0, 5., .3, 0, 0, 5.2, .5])
    s = "<simulation verbosity='quiet' floatformat='%%26.17e' threading='False' %s>\n<total_steps> %d </total_steps>\n%s\n" % (attr, steps, prng)
    s += ("<output prefix='sim'> <properties stride='1' filename='out'> [step, time, conserved, potential, kinetic_md, temperature, volume%s] </properties>"
          " <properties stride='3' filename='rare'> [step, potential] </properties> <trajectory filename='pos' stride='2' flush='100'> positions </trajectory>"
          " <trajectory filename='xc' stride='1' format='pdb'> x_centroid </trajectory> <checkpoint filename='chk' stride='1' overwrite='False'/>"
          " <checkpoint filename='last' stride='2' overwrite='True'/> %s</output>\n" % (props, outputs))
    s += "<fflj name='lj' %s><parameters> { eps: 0.001, sigma: 4.0 } </parameters></fflj>\n" % ffattr + ffx
    for i in range(nsys):
        e = ens[i] if isinstance(ens, list) else ens
        pos = (np.tile(q, (nb, 1)) + 0.1 * i + 0.2 * rng.standard_normal((nb, 9))).flatten()
        s += """<system prefix='%s'><initialize nbeads='%d'> <positions mode='manual'> %s </positions> <masses mode='manual'> [1837, 3000, 1837 ] </masses>
<labels mode='manual'> [ H, He, H ] </labels><cell mode='manual'> [20,0,0,0,20,0,0,0,20] </cell><velocities mode='thermal' units='kelvin'> 300 </velocities></initialize>
<forces> %s </forces> %s %s <ensemble> %s </ensemble></system>
""" % ("s%d" % i if nsys > 1 else "", nb, "[" + ", ".join("%g" % x for x in pos) + "]", forces, motion, nm, e)
    return s + smotion + "</simulation>"


def mo(mode, body, extra=""):
    return "<motion mode='%s'> %s %s </motion>" % (mode, extra, body)


def dyn(mode, thermo="", baro="", extra="", attr=""):
    return mo("dynamics", "<dynamics mode='%s' %s> <timestep> 5.0 </timestep> %s %s </dynamics>" % (mode, attr, thermo, baro), extra)


def th(m, more="<tau> 200 </tau>"):
    return "<thermostat mode='%s'> %s </thermostat>" % (m, more)


def ba(m, more="", t=None):
    return "<barostat mode='%s'> <tau> 300 </tau> %s %s </barostat>" % (m, t or th("langevin"), more)


A = "<A shape='(3,3)'> [0.01, 0.02, 0.001, -0.02, 0.03, 0.002, 0.004, -0.01, 0.05] </A>"
A2 = "<A shape='(2,3,3)'> [" + ", ".join(["0.01, 0.02, 0.001, -0.02, 0.03, 0.002, 0.004, -0.01, 0.05"] * 2) + "] </A>"
PE = "<temperature units='kelvin'> 400 </temperature><pressure> 1e-5 </pressure>"
SE = "<temperature units='kelvin'> 400 </temperature><stress> [1e-5,0,0,0,2e-5,0,0,0,3e-5] </stress>"
D = dyn("nvt", th("pile_l"))
NF = "<fixcom> False </fixcom>"
T3 = ["<temperature units='kelvin'> %d </temperature><pressure> %g </pressure>" % (400 + i * 50, 1e-5 * (1 + i)) for i in range(3)]
S3 = [SE.replace("400", str(400 + 50 * i)) for i in range(3)]
REMD = "<smotion mode='remd'><remd><stride> 1.5 </stride></remd></smotion>"
MTS = "<force forcefield='lj'><mts_weights> [1,0] </mts_weights></force><force forcefield='lj' weight='0.5' nbeads='1'><mts_weights> [0,1] </mts_weights></force>"
TOL = "<tolerances><energy> 2e-10 </energy><force> 2e-7 </force><position> 2e-7 </position></tolerances>"


def cdy(c, sp="baoab", t=None):
    return mo("constrained_dynamics", "<constrained_dynamics mode='nvt' splitting='%s'><timestep> 5 </timestep>%s <nsteps_o> 2 </nsteps_o><nsteps_geo> 2 </nsteps_geo>"
              "<csolver><tolerance> 1e-10 </tolerance></csolver> %s </constrained_dynamics>" % (sp, t or th("langevin"), c), NF)


def con(m, atoms, more=""):
    return "<constraint mode='%s'><atoms> [%s] </atoms>%s</constraint>" % (m, atoms, more)


def nmx(body="", attr=""):
    return "<normal_modes %s> %s </normal_modes>" % (attr, body)


CONFIGS = {
    "nve": xml(dyn("nve")), "nve one bead": xml(dyn("nve", extra=NF), nb=1),
    "langevin": xml(dyn("nvt", th("langevin"))), "svr": xml(dyn("nvt", th("svr"))), "pile_l": xml(D), "pile_g": xml(dyn("nvt", th("pile_g"))),
    "pile_l cold centroid": xml(dyn("nvt", th("pile_l", "<tau> 200 </tau><pile_lambda> 0.5 </pile_lambda><pile_centroid_t units='kelvin'> 100</pile_centroid_t>"))),
    "gle": xml(dyn("nvt", th("gle", A))), "nm_gle": xml(dyn("nvt", th("nm_gle", A2))), "nm_gle_g": xml(dyn("nvt", th("nm_gle_g", A2 + "<tau> 100 </tau>"))),
    "cl": xml(dyn("nvt", th("cl", "<tau> 200 </tau><intau> 100</intau><idtau> 300 </idtau><apat> 500 </apat>"))),
    "ffl": xml(dyn("nvt", th("ffl", "<tau> 200 </tau><flip> hard </flip>"))), "multiple thermostats": xml(dyn("nvt", th("multi", th("svr") + th("gle", A)))),
    "npt": xml(dyn("npt", th("pile_l"), ba("isotropic")), ens=PE), "npt coloured": xml(dyn("npt", th("gle", A), ba("isotropic", t=th("gle", A))), ens=PE),
    "flexible": xml(dyn("npt", th("pile_l"), ba("flexible", "<hfix> [xy] </hfix>")), ens=PE),
    "flexible fixed volume": xml(dyn("npt", th("pile_l"), ba("flexible", "<vol_constraint> True </vol_constraint>")), ens=PE),
    "anisotropic reference": xml(dyn("nst", th("pile_l"), ba("anisotropic", "<h0> [19,0,0,0,20,0,0,0,21] </h0>")), ens=SE),
    "suzuki-chin": xml(dyn("sc", th("pile_l"))), "suzuki-chin npt": xml(dyn("scnpt", th("pile_l"), ba("sc-isotropic")), ens=PE),
    "constrained centroid": xml(dyn("nvt-cc", th("pile_l"))), "multiple time steps": xml(dyn("nvt", th("pile_l") + "<nmts> [2,3] </nmts>"), forces=MTS),
    "baoab": xml(dyn("nvt", th("pile_l"), attr="splitting='baoab'"), nb=3), "fixed atoms": xml(dyn("nvt", th("pile_l"), extra=NF + "<fixatoms> [1] </fixatoms>"), nb=3),
    "fixed coordinates": xml(dyn("nvt", th("pile_l"), extra="<fixatoms_dof> [1,4] </fixatoms_dof>" + NF), nb=3), "no fixed centre": xml(dyn("nvt", th("pile_l"), extra=NF), nb=3),
    "open paths cayley": xml(D, nb=3, nm=nmx("<open_paths> [1] </open_paths>", "propagator='cayley' transform='matrix'")),
    "wmax-cmd": xml(D, nb=3, nm=nmx("<frequencies style='wmax-cmd'> [0.01,0.02] </frequencies>")),
    "manual frequencies": xml(D, nb=3, nm=nmx("<frequencies style='manual'> [0.01,0.02] </frequencies>")),
    "pa-cmd": xml(D, nb=3, nm=nmx("<frequencies style='pa-cmd'> [0.01] </frequencies>")),
    "bosons": xml(D, nb=3, nm=nmx("<nmts> 4 </nmts> <bosons> [0,2] </bosons>", "propagator='bab'")),
    "bosons by label": xml(D, nb=3, nm=nmx("<nmts> 4 </nmts> <bosons id='label'> [H] </bosons>", "propagator='bab'")),
    "bias": xml(D, ens="<temperature units='kelvin'> 400 </temperature><bias><force forcefield='lj' weight='0.4'/></bias><bias_weights> [0.7] </bias_weights><hamiltonian_weights> [0.9] </hamiltonian_weights>"),
    "exchange of atoms": xml(mo("multi", D + mo("atomswap", "<atomswap><nxc> 2 </nxc><names> [H, He] </names></atomswap>"))),
    "alchemical exchange": xml(mo("multi", dyn("nvt", th("pile_l"), extra=NF) + mo("alchemy", "<alchemy><nxc> 2 </nxc><names> [H, He] </names></alchemy>", NF), NF)),
    "temperature ramp": xml(mo("multi", D + mo("t_ramp", "<t_ramp><t_start units='kelvin'> 100 </t_start><t_end units='kelvin'> 300 </t_end><total_steps> 4 </total_steps></t_ramp>"))),
    "logarithmic ramp": xml(mo("multi", D + mo("t_ramp", "<t_ramp><t_start units='kelvin'> 100 </t_start><t_end units='kelvin'> 300 </t_end><logscale> True </logscale><total_steps> 5 </total_steps></t_ramp>"))),
    "pressure ramp": xml(mo("multi", dyn("npt", th("pile_l"), ba("isotropic")) + mo("p_ramp", "<p_ramp><p_start> 1e-6 </p_start><p_end> 1e-5 </p_end><total_steps> 4 </total_steps></p_ramp>")), ens=PE),
    "replica exchange": xml(D, nsys=3, ens=T3, smotion=REMD),
    "replica exchange npt": xml(dyn("npt", th("gle", A), ba("isotropic")), nsys=3, ens=T3, smotion=REMD),
    "replica exchange nst": xml(dyn("nst", th("gle", A), ba("anisotropic", "<h0> [19,0,0,0,20,0,0,0,21] </h0>")), nsys=2, ens=S3, smotion=REMD),
    "two systems": xml(D, nsys=2), "frozen distance": xml(cdy(con("distance", "0,1")), nb=1),
    "several constraints": xml(cdy("<constraint mode='multi'>%s%s</constraint>" % (con("distance", "0,1,1,2"), con("angle", "0,1,2")), "obabo"), nb=1),
    "eckart frame": xml(cdy(con("eckart", "0,1,2"), "obabo", th("gle", A)), nb=1),
    "metadynamics": xml(D, smotion="<smotion mode='metad'><metad><metaff> [ lj ] </metaff><use_energy> False </use_energy></metad></smotion>"),
    "phonons": xml(mo("vibrations", "<vibrations mode='fd'> <prefix> ph </prefix> </vibrations>"), nb=1, steps=8),
    "phonons along modes": xml(mo("vibrations", "<vibrations mode='nmfd'> <prefix> ph </prefix><dynmat shape='(9,9)'> %s </dynmat> </vibrations>" % np.eye(9).flatten().tolist()), nb=1, steps=8),
    "elastic band": xml(mo("neb", "<neb_optimizer mode='fire'> <endpoints><optimize> False </optimize></endpoints> <spring><kappa> 1e-3 </kappa></spring></neb_optimizer>", NF), nb=5),
    "elastic band bfgs": xml(mo("neb", "<neb_optimizer mode='damped_bfgs'> <endpoints><optimize> False </optimize></endpoints> <spring><kappa> 1e-3 </kappa></spring></neb_optimizer>", NF), nb=5),
    "mersenne": xml(D, prng="<prng><seed> 12345 </seed></prng>"),
}
for _m in ("sd", "cg", "bfgs", "lbfgs", "bfgstrm"):
    CONFIGS["minimise " + _m] = xml(mo("minimize", "<optimizer mode='%s'> %s </optimizer>" % (_m, TOL)), nb=1)
    CONFIGS["minimise fixed " + _m] = xml(mo("minimize", "<optimizer mode='%s'> %s </optimizer>" % (_m, TOL), "<fixatoms> [1] </fixatoms>"), nb=1)


# --------------------------------------------------------------- running

class Interrupted(BaseException):
    pass


@contextlib.contextmanager
def sandbox():
    """a scratch working directory; the global settings of i-PI are restored"""
    d, cwd = tempfile.mkdtemp(prefix="p16_"), os.getcwd()
    saved = (Softexit.start, Softexit.kill, verbosity.level, verbosity.lock, dict(io_xml.ipi_global_settings) if hasattr(io_xml, "ipi_global_settings") else None)
    out = io.StringIO()
    Softexit.start = lambda self, timeout=0.0: None

    def kill(self):
        raise Interrupted()
    Softexit.kill = kill
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield d
    finally:
        os.chdir(cwd)
        Softexit.start, Softexit.kill = saved[0], saved[1]
        verbosity.lock = False
        verbosity.level = {0: "quiet", 1: "low", 2: "medium", 3: "high", 4: "debug", 5: "trace"}.get(saved[2], "low")
        verbosity.lock = saved[3]
        if saved[4] is not None:
            io_xml.ipi_global_settings.update(saved[4])
        softexit.reset()
        shutil.rmtree(d, ignore_errors=True)


def load(text):
    softexit.reset()
    return Simulation.load_from_xml(text)


def close(sim):
    for o in sim.outputs:
        if hasattr(o, "close_stream"):
            o.close_stream()
    if sim.smotion is not None and getattr(sim.smotion, "sf", None) is not None:
        sim.smotion.sf.close_stream()


def state(sim):
    """everything a restart file of the present state would hold, but for the initial seed of the generator"""
    i = InputSimulation()
    i.store(sim)
    return plain(i.write("simulation"))


def plain(t, counters=False):
    """without comments, initial seeds and the counter of the checkpoint file that is written over"""
    t = re.sub(r"<seed>.*?</seed>|<!--.*?-->|<checkpoint filename='last'[^\n]*", "", t, flags=re.S)
    if counters:
        t = re.sub(r"<checkpoint [^\n]*", "", t)
    return t.strip()


NUM = re.compile(r"[-+]?\d+\.\d+(?:[eE][-+]?\d+)?|[-+]?\bnan\b|[-+]?\d+(?![\w.])")


def differ(a, b, tol=1e-9):
    """first difference of two texts, numbers compared as numbers"""
    la, lb = NUM.sub("#", a), NUM.sub("#", b)
    if re.sub(r"\s+", " ", la) != re.sub(r"\s+", " ", lb):
        for x, y in zip(la.splitlines(), lb.splitlines()):
            if x.split() != y.split():
                return "%r instead of %r" % (y.strip()[:150], x.strip()[:150])
        return "lengths %d and %d" % (len(a), len(b))
    for k, (x, y) in enumerate(zip(NUM.findall(a), NUM.findall(b))):
        x, y = float(x), float(y)
        if not (abs(x - y) <= tol * max(1e-3, abs(x), abs(y)) or (x != x and y != y)):
            p = [m.start() for m in NUM.finditer(a)][k]
            return "%r instead of %r near %r" % (y, x, a[max(0, p - 60):p].strip())
    return None


def finish(sim):
    sim.run()
    close(sim)
    if not sim.finished:
        sim.step = sim.tsteps
    return state(sim)


def files(d):
    """the output files, without the restart files"""
    r = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p) and ".chk" not in f and not f.startswith(("RESTART", "EXIT", "sim.last", "#")):
            r[f] = open(p).read()
    return r


def reference(text):
    d = os.path.join(os.getcwd(), "ref")
    os.mkdir(d)
    os.chdir(d)
    s = load(text)
    st = finish(s)
    chk = {}
    for f in os.listdir(d):
        m = re.match(r"sim\.chk_(\d+)$", f)
        if m:
            chk[int(m.group(1))] = open(f).read()
    os.chdir("..")
    return st, files(d), chk


def check_files(ctx, tag, ref, got, head=None):
    """got equals ref; with head, got is what follows the first part of ref"""
    ctx.ensure(tag + ": same files", set(ref) == set(got))
    for f in sorted(ref):
        if f not in got:
            continue
        a, b = ref[f], got[f]
        if head is not None:
            n = len(b.splitlines())
            la = a.splitlines()
            a = "\n".join(la[len(la) - n:]) if n <= len(la) else a
        e = differ(a.strip(), b.strip())
        ctx.ensure("%s: file %s%s" % (tag, f, ": " + e if e else ""), e is None)


def _make(name, text):
    def fn(ctx):
        """Loading the state saved after any step and going on gives the state and the outputs of the uninterrupted run; so does stopping and restarting."""
        with sandbox():
            ref, out, chk = reference(text)
            ctx.ensure("saved after every step", set(chk) >= set(range(1, 4)))
            for k in range(1, 5):
                d = os.path.join(os.getcwd(), "r%d" % k)
                os.mkdir(d)
                os.chdir(d)
                s = load(chk[k])
                ctx.ensure_eq("step counter", s.step, k)
                e = differ(plain(chk[k]), state(s))
                ctx.ensure("the state just loaded from step %d is the state saved%s" % (k, ": " + e if e else ""), e is None)
                st = finish(s)
                e = differ(ref, st)
                ctx.ensure("final state after restarting from step %d%s" % (k, ": " + e if e else ""), e is None)
                os.chdir("..")
                if name not in NOFILES:
                    check_files(ctx, "restart from step %d" % k, out, files(d), head=k)
    contract("P16", "restart: " + name, TARGETS, sym=False, samples=(1, 1), limit=200,
             why="whole simulations with text files: outside the term language; every configuration and every saved step run")(fn)


# --------------------------------------------------------------- interruptions

def leave(sim):
    """what the program does after the run is over"""
    try:
        softexit.trigger(status="restartable", message="")
    except Interrupted:
        pass


def stop_by_file(sim, k):
    """the EXIT file appears during step k"""
    real = sim.run_step

    def run_step(step):
        real(step)
        if step == k:
            open("EXIT", "w").close()
    sim.run_step = run_step
    sim.run()
    leave(sim)


def stop_in_forces(sim, k):
    """a signal during a force evaluation of step k"""
    real = sim.run_step

    def run_step(step):
        if step == k:
            n = [0]
            for ff in sim.fflist.values():
                ev = ff.evaluate

                def evaluate(r, ev=ev):
                    n[0] += 1
                    if n[0] == 2:
                        softexit.trigger(status="restartable", message="")
                    return ev(r)
                ff.evaluate = evaluate
        real(step)
    sim.run_step = run_step
    try:
        sim.run()
    except Interrupted:
        pass


def stop_while_saving(sim, k):
    """a signal while the state at the beginning of step k is being saved"""
    real = sim.chk.status.store
    on = [True]

    def store(simul):
        if on[0] and simul.step == k:
            on[0] = False
            softexit.trigger(status="restartable", message="")
        return real(simul)
    sim.chk.status.store = store
    try:
        sim.run()
    except Interrupted:
        pass


def stop_from_thread(sim, k):
    """another thread asks for the end during step k; the run loop notices it before the clean-up functions are called"""
    real = sim.run_step

    def run_step(step):
        real(step)
        if step == k:
            softexit.triggered = True
    sim.run_step = run_step
    sim.run()
    softexit.triggered = False
    leave(sim)


def stop_between(sim, k):
    """the same, noticed at the beginning of a step"""
    o = sim.outputs[-1]
    real = o.write

    def write(*a, **kw):
        r = real(*a, **kw)
        if sim.step == k - 1:
            softexit.triggered = True
        return r
    o.write = write
    sim.run()
    softexit.triggered = False
    leave(sim)


STOPS = {"EXIT file": (stop_by_file, True), "signal during forces": (stop_in_forces, True), "signal while saving": (stop_while_saving, True),
         "thread": (stop_from_thread, True), "thread between steps": (stop_between, False)}
WHICH = ["pile_l", "npt coloured", "anisotropic reference", "multiple time steps", "replica exchange", "exchange of atoms", "minimise bfgs", "bias", "svr", "temperature ramp", "elastic band"]


def _stops(name, how):
    text = CONFIGS[name]
    stop, whole = STOPS[how]

    def fn(ctx):
        """After an interruption the restart file continues the run: same final state, every output written once."""
        with sandbox():
            ref, out, chk = reference(text)
            for k in range(1, 5):
                d = os.path.join(os.getcwd(), "i%d" % k)
                os.mkdir(d)
                os.chdir(d)
                s = load(text)
                stop(s, k)
                close(s)
                if os.path.exists("EXIT"):
                    os.remove("EXIT")
                ctx.ensure("interrupted in step %d: restart file there" % k, os.path.exists("RESTART"))
                s = load(open("RESTART").read())
                ctx.ensure("no step skipped (interrupted in step %d, continued from %d)" % (k, s.step), s.step <= k + 1)
                e = differ(plain(ref, not whole), plain(finish(s), not whole))
                ctx.ensure("final state after interruption in step %d%s" % (k, ": " + e if e else ""), e is None)
                os.chdir("..")
                if whole:
                    # the file of exchanges is written within a step that is then done again
                    keep = lambda f: {a: b for a, b in f.items() if how != "thread" or "remd_idx" not in a}
                    check_files(ctx, "interruption in step %d" % k, keep(out), keep(files(d)))
    contract("P16", "interruption: %s: %s" % (how, name), TARGETS + ["ipi/utils/softexit.py:Softexit.trigger", "ipi/engine/simulation.py:Simulation.softexit"], sym=False, samples=(1, 1), limit=200,
             why="whole simulations with text files: outside the term language; every listed point of interruption run")(fn)


NOFILES = set()
TARGETS = ["ipi/inputs/simulation.py:InputSimulation.store", "ipi/inputs/simulation.py:InputSimulation.fetch", "ipi/engine/simulation.py:Simulation.bind",
           "ipi/engine/simulation.py:Simulation.run", "ipi/engine/outputs.py:CheckpointOutput.write", "ipi/inputs/motion/motion.py:InputMotionBase.store"]
for _n, _t in CONFIGS.items():
    _make(_n, _t)
for _n in WHICH:
    for _h in STOPS:
        if not (_h == "signal during forces" and _n.startswith("minimise")):
            _stops(_n, _h)
from checks import p16sf  # noqa: E402,F401
from checks import p16set  # noqa: E402,F401
