import json,glob,os
head = r'''# Model-based verification of thunder_dynamics with TLA+

**Language.** TLA+, checked with TLC (no Quint). The system under study is (1) a function
from configuration files to robot functions, (2) state machines over library objects,
objects of generated classes, parameter files and generated trees, (3) threads. Its
oracle needs exact rational arithmetic and exact derivatives inside the checker. TLC can
evaluate these through class overrides (`java/Rat.java`, `java/Alg.java`), which are
themselves model-checked against their pure TLA+ definitions (`MCAlg`); Quint/Apalache has
no way to do it (no bignum rationals in the simulator, and SMT over products of dozens of
rationals does not terminate).

## 1. The specification (`spec/`)

| module | content |
|---|---|
| `RatPure`, `Rat` | exact rationals; numerals are strings because TLC integers have 32 bits. An angle is the numeral t of tan(angle/2) (`t@k`: k turns more), so that sines and cosines are rational |
| `Alg` | jets Q[t]/t^3 (x) Q[e]/e^2: exact time derivatives (t) and partial derivatives (e) |
| `Geom`, `Chain` | rotations, frames, modified-DH transforms, joint jets, Jacobians by definition (derivative of the pose) |
| `Dynamics` | mass matrix from kinetic energy, Coriolis matrix by Christoffel symbols, gravity from potential energy |
| `Regressor` | dynamics of unit REG parameters; kinematic regressors by perturbing one parameter with e |
| `Actuation` | friction / elastic polynomials and their regressors |
| `Config` | what a configuration file says (`cfg`), the catalogue of functions, their sizes and argument lists |
| `Semantics` | value of every catalogue entry; closeness of observed doubles to exact values |
| `RobotLib` | state machine of a library `Robot` (arguments, parameters, inertial sets, added functions, files) |
| `Modules` | the parts a model is computed in, what each needs and offers |
| `GenObj` | state machine of an object of a generated class |
| `PyMod` | definition of the Python module of a generated class |
| `Body`, `Panda` | rotations, frames, rigid bodies; genYAML: the arm's bodies in DH frames, perturbed files |
| `GenFs` | what runs of `thunder gen` do to the file system |
| `Threads`, `Sched` | threads with private / shared work buffers; interleavings |
| `Trace` | one action per public call of the real code; a recorded execution is accepted iff it is a behaviour |
| `MC*` | exhaustively model-checked instances (section 2) |
| `Gen`, `Rand`, `Scen*` | behaviours of the specification to be run on the code (functions of VERIF_SEED) |

The specification is written from what the functions mean (energies, derivatives of poses,
partial derivatives of torques), not from the code's algorithms, so it does not share
their mistakes.

## 2. Model checking of the specification

| model | what TLC establishes, exhaustively within the bounds |
|---|---|
| `MCAlg` | the Java overrides agree with the pure definitions (rationals, jets), ring laws |
| `MCDyn` | for every word over joint types up to 2-3 (thorough 3-6) joints, exactly: transforms rigid, chain associative, joint axes, J equals the geometric Jacobian and the derivative of the pose, chain rule for *_dot/*_ddot, M symmetric, M_dot-2C skew, power balance, energy, Yr*par = torque, REG/DYN bijection, friction regressor linear, base/EE shift laws of regressors, selection/expansion of parameters, catalogue well-formed |
| `MCObj` | object of a generated class, all call orders over small value pools, groups in / inf / args / kin / coef / two (objects); action properties: only what is named changes, refused calls change nothing, setArguments all or none, inertial sets consistent after updates, load_conf = sections of the file, files give back what was saved, copies and other objects untouched |
| `MCLib` | library robot, groups lin / larg / lfn / lpar with the corresponding action properties (return codes, add_function rules, files) |
| `MCMod` | computing a model part by part: all reachable sets of parts under 17 calls; calls commute, are idempotent, the three groups give the whole catalogue; every call in every state replayed |
| `MCGenFs` | all histories of 2 (thorough 3) generator runs over 2 names x 2 configurations x 2 directories x all options: outputs of a run are distinct, idempotent, six files of a library from one configuration, other files kept |
| `Threads` | 2 threads x 2 calls, 3 x 1 (thorough 3 x 2): with private buffers every result is that of the object alone; with one shared buffer TLC must find the counterexample |
| `MCPanda` | 3280 arm states: the DH-table arm equals the URDF arm (justifies the documented table as oracle) |

`MCObj` and `MCLib` also print every transition of their state graphs; `vp.py` joins them
to transition tours, and **every transition is replayed on real objects** (C06, C12, C14,
C15, C17, C21), each followed by a look at the observable state.

## 3. Conformance (binding to the code)

`tools/run.py Cxx`:
1. builds /repo's sources (library, `thunder` tool, genYAML as needed) in a scratch directory with
   the drivers of `harness/`; nothing is written in /repo;
2. TLC evaluates the scenarios (`Plan_Cxx`), i.e. configurations and call sequences;
3. `vp.py` renders configurations as yaml (several section orders, number styles, optional
   items) and calls as driver scripts; generated classes are produced by the `thunder` built from /repo and compiled;
4. the drivers run the calls, one process per scenario (crash and hang are observations), and
   record every return value, matrix, size, function list, parameter vector, file;
5. TLC validates the records with `Trace` (a crash or exception where the specification has none is a rejection);
6. a rejected scenario is run again; only reproducible rejections become VIOLATION lines, with the scenario,
   the record and the name of the contradicted result under `replay/` (`racy` checks, C13, accept one reproduction out of several);
7. some accepted records are corrupted slightly (a value by 1e-6 relative, a size, a return code, a file entry ...) and TLC must
   reject exactly these: the binding is not vacuous on any run. A surviving corruption is a tool error (exit 2).

No hooks are needed in /repo: public API and files expose the state. The two private things
needed (which get_<f> exist, joint arguments of generated objects) are observed through the
compiled class and through a user function that depends on every argument (`uenv`).

**Tolerances.** Functions: 1e-9 relative to the largest entry (or 1). Observed error of the
code is about 1e-13. Plain vectors: 1e-12 relative. Converted inertial vectors: 1e-12 of the largest
entry of the link. Statistical part of C20: 6-sigma bounds, with exact rational arithmetic.

**Why this reaches what tests cannot.** Tests sample a few all-revolute robots at one point and look for
finite numbers. Here the structures are enumerated (every word over the joint types up to length 2-3,
every mask pattern class, every subset of sections, every call history of length 3 over 9-15 letters, every transition of the object models,
every interleaving of short threads) with generic rational values. For matrix functions that are
trigonometric polynomials of the data, agreement at a few generic points within 1e-9 leaves no room for a
wrong term that is not identically zero there; what remains are errors that depend on special values, for which the
pools contain zeros, quarter turns, almost quarter turns, whole turns, tiny, huge and repeated values.

## 4. The properties and their checks

Level of every check: model checking of the specification + conformance of the code (trace validation of
specification behaviours). Costs are wall seconds of the quick tier on 8 cores.

'''
rows = [
('C01','30','THEOREMS Rigid, Assoc, JointAxis; every R/P word up to 3, random words of all four types up to 11 joints, random DH / frames / masks, three states each; all of T_0, T_i, T_0_i, T_0_ee.'),
('C02','40','JacTwice, JacVel; as C01 up to 10 joints; J_i, J_cm_i, J_ee; J_ee_pinv through its defining equation P(JJ^T+0.02I) = J^T.'),
('C03','30','ChainRule(2); derivatives are coefficients of jets along the motion, chains up to 7 joints.'),
('C04','20','Skew, Symmetric, Power, Energy; bodies without mass, point masses, tiny bodies; gravity in any direction; C and C_std.'),
('C05','25','RegDyn; reg_M, reg_C, reg_G, Yr column by column with dqr independent of dq.'),
('C06','35','Bijection; MCObj "in", MCLib "lin" tours; all words of three operations over 9 (library) / 10 (objects) letters, values that are already there, refused vectors, files.'),
('C07','40','Fric; every pattern of the four joint types up to 3 joints, orders 0..4 and above, zero and negative coefficients, at rest, both signs of velocities.'),
('C08','27','BaseShift, EeShift; every single symbolic kinematic parameter of small chains, mixtures; functions absent when there is none.'),
('C09','36','Selection; one robot under 12 mask choices, full catalogue before and after new symbolic values; symbolic entries, and whole links, that are zero in the file.'),
('C10','25','CatalogueOk; every word over the four types up to 3 with random layouts, absent items, surplus links / joints / coefficients; refusals (sizes, unknown joint types) in their own process; three robots of one name made and used in between each other; function lists in both forms, each function also called on its own.'),
('C11','70','generated class against the exact values (and thereby the in-memory model); every two-joint pattern, chains of 10 and 11 joints, user functions (of the harness, and the example the repository ships), .casadi files evaluated with fresh arguments.'),
('C12','112','MCObj args / coef / two tours; all words of three operations out of 15; long histories over objects of two classes, one of 10 joints.'),
('C13','117','Threads; (a) gates: functions of the generated C code are wrapped by the linker so that compute and read are separate turns, all interleavings 2x4 and 3x2 replayed for the functions, all functions pairwise; (b) free threads under ThreadSanitizer: evaluations, setters, life cycle, files.'),
('C14','34','MCObj kin tour; all 64 subsets of sections on fresh and loaded objects; histories of loads and sets; sibling files of other layout, links without friction; 11 joints.'),
('C15','30','MCObj inf, MCLib lpar tours; extreme values, save over old files, both directions library/objects, generator files, 10+ links (10 and 11 joints in generated objects).'),
('C16','71','MCGenFs; histories of runs in several directories with all options, names that extend each other, absent HOME; every generated file is compared by content with a clean reference run of the same description; all robots of a history compiled and linked into one program and driven; killed runs at every file count, refused runs, several runs at once, pieces of files left behind.'),
('C17','97','MCLib larg, lfn tours; all words of three operations out of 14 on copies; long histories over three robots.'),
('C18','12','all 14^3 angle triples of the pool, frames, hat, createI, transform, merge with special bodies, both orders; in place too; histories of frame objects (constructors, setters, copies, getters, refusals); generated inertial files.'),
('C19','42','the generated binding source is compiled against a recording stand-in for pybind11 (not installed here); definitions compared with PyMod, objects driven through the bound callables with and without defaults; one robot of 11 joints.'),
('C20','25','MCPanda; shipped file (60 runs) and 16 generated ones (12 runs, then again with others): exact bodies, REG form, statistics of the perturbations: range, mean, variance, fourth moment, correlation between parameters and files.'),
('C21','28','MCMod kin / act tours; random sequences of 20 calls on random configurations with parameters loaded or set before, copies continued separately; whole catalogue, sizes and argument lists after each step, values after the update; two robots interleaved.'),
]
out = head + '| check | s | what is specified, enumerated and compared |\n|---|---|---|\n'
for r in rows: out += '| %s | %s | %s |\n' % r
out += r'''
Thorough tiers use the same plans with larger numbers (5-10 times the random configurations, longer
chains and histories, larger models).

## 5. Defects found and repaired

See `known_findings.txt` (all entries are "fixed:"; nothing is suppressed). Each was first shown on the
real code by a rejected record, then repaired by one "fix:" commit: sign of a rotation entry, wrong joints in elastic torques, skipped inertial updates, uninitialised getters,
friction shifted by missing entries, out-of-range writes with surplus entries, unreadable REG files, wrong inputs of
added functions, failing/overrunning inertial file generation, refused sets with effects, wrong entries of partially symbolic vectors in generated code,
crash on num_joints > types, crash without HOME, equal C names for robots whose names extend each other,
a shipped example function that made the generated class uncompilable.

## 6. False alarms that were corrected in the machinery

- C06/C15: after a REG conversion, entries that should be exactly zero carry rounding noise; the link's scale (at least 1e-3) now bounds them (`LinkClose`).
- C14 (planted change B70, withdrawn): a file without `symb` lists read by a class that has symbolic entries says nothing about which entries to take; such files are outside the property.
- C15/C18: entries of REG files that are differences of ordinary numbers were compared relative to themselves; now relative to the link (`FileClose`).
- C16: files of earlier runs in the robot's own directory may stay or go (`Loose`).
- C16: configurations with bodies without mass (added for C11) reached a REG->DYN conversion, which has no value; only C11 and C12, which do not convert, keep such bodies (`OCfgM`).
- C20: first bounds of the statistics were too tight; now 6 sigma for each number of runs.

## 7. Not specified / avoided (behaviour that is undefined or a stub)

Setters of DH / frames with a matrix of n x 4; setting DH, frames or gravity before load_conf; parsing
errors other than the mismatch; coefficient lists shorter than the order; a friction node without Dl;
ELASTIC_MODEL without SEA joints in generated code; set_par_DYN / load_conf_par on a library robot whose
DYN vector is partially symbolic; REG->DYN conversion with zero mass; masks longer than the data; genYAML
with fewer than 8 links or without xyz / rpy; `Robot::update_conf` (a stub). Statements of the properties
exclude these (accepted calls, well-formed files, positive masses).

## 8. Planted bugs (`seeded/`)

Every one compiles, passes the 68 stable tests, has a demonstration and was written from the property
text; "first" tells whether the check caught it when it was planted, or what was added because it did not.

| bug | property | needs | first |
|---|---|---|---|
'''
miss = {'B04':'special bodies added','B06':'values an object has already added to histories','B10':'tiny values added','B11':'surplus coefficients added','B12':'functions of parameters alone in histories','B14':'larger robots in C13','B16':'10+ links added','B17':'histories with -c and changed configurations',
'B21':'angles near quarter turns added','B25':'files in threads added','B27':'clean reference runs added','B31':'special bodies in merge','B34':'files overwritten','B35':'zero friction added','B38':'absent friction entries added'}
try: miss.update(json.load(open('/verif/tools/missed.json')))
except Exception: pass
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m)); n = m.split('/')[-2]; k=n.split('_')[0]
    out += '| %s | %s | %s | %s |\n' % (n, d['property'], d['needs'].replace('|','/'), ('missed: '+miss[k]) if k in miss else 'caught')
out += '\nAll of them are caught by the quick check of their own property on the present commit.\n'
open('/verif/DESIGN.md','w').write(out)
