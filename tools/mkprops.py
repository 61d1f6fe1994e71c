#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
T = 'src/thunder/'
prop('C01', 'Forward kinematics is the modified-DH chain for every configuration',
 'For every configuration and joint vector, T_0 is the Base_to_L0 frame, T_i is the modified-DH transform of joint i (rotation about x by alpha after translation a, then rotation theta about and translation d along z, the joint variable added to theta for revolute and to d for prismatic joints, elastic variants included), and T_0_i is the ordered product of these. T_0_ee (and T_0_<n+1>) additionally composes Ln_to_EE, where a frame [tr, ypr] is a translation followed by Rz(yaw)Ry(pitch)Rx(roll). Every result is a 4x4 rigid transform.',
 ['inputs', 'configurations'], 'all configurations (number and types of joints, DH tables, base and end-effector frames) and all joint vectors',
 'The tests run four all-revolute robots at one q and only look for finite numbers; no joint-type mix, offset, frame or numeric value is checked.',
 [T+'src/kinematics.cpp', T+'src/robot.cpp'], [('DHTemplate / get_transform / compute_chain', T+'src/kinematics.cpp')],
 [('model T_0_i', 'symbolic transform of frame i', T+'src/kinematics.cpp')], ['Robot::get("T_*")', 'thunder_<robot>::get_T_*()'])
prop('C02', 'Jacobians map joint rates to the true velocity of each frame',
 'For every configuration, q and dq, J_i*dq (and J_ee*dq) stacks the world-frame linear velocity of the origin of frame i (of the end effector) over its world-frame angular velocity, i.e. it is the time derivative of the forward kinematics; J_cm_i does the same for the centre of mass of link i. Joints after i contribute zero columns, J_<n+1> equals J_ee, and J_ee_pinv is the damped right inverse J^T (J J^T + 0.02 I)^-1.',
 ['inputs', 'configurations'], 'all configurations, joint vectors and joint rates',
 'Tests only check that the matrices are finite, for all-revolute arms with trivial frames.',
 [T+'src/kinematics.cpp', T+'src/dynamics.cpp'], [('compute_jacobians, compute_kin_adv', T+'src/kinematics.cpp'), ('DHJacCM', T+'src/dynamics.cpp')],
 [], ['Robot::get("J_*")', 'thunder_<robot>::get_J_*()'])
prop('C03', 'The *_dot and *_ddot functions are exact time derivatives along motions',
 'For every configuration and every motion q(t), the functions J_ee_dot, M_dot, C_dot, G_dot equal the first and J_ee_ddot, M_ddot, C_ddot, G_ddot the second total time derivative of J_ee, M, C and G along the motion with the given dq, ddq (and d3q for C_ddot).',
 ['inputs', 'configurations'], 'all configurations and all (q, dq, ddq, d3q)',
 'No test calls any derivative function.',
 [T+'src/kinematics.cpp', T+'src/dynamics.cpp'], [('compute_kin_adv', T+'src/kinematics.cpp'), ('compute_dyn_derivatives', T+'src/dynamics.cpp')],
 [], ['Robot::get("M_dot")', 'Robot::get("C_ddot")', 'Robot::get("J_ee_ddot")'])
prop('C04', 'M, C, C_std and G are the equations of motion of the configured robot',
 'For every configuration, q and dq, M is the symmetric matrix of the total kinetic energy of the links (mass, centre of mass and inertia about the centre of mass expressed in the link DH frame), G is the gradient of the potential energy in the gravity field given in world coordinates, and C and C_std both equal the Christoffel-symbol Coriolis matrix of M. In particular M_dot - 2C is skew-symmetric and M*ddq + C*dq + G is the Euler-Lagrange torque.',
 ['inputs', 'configurations'], 'all configurations, inertial parameters, gravity vectors, q, dq',
 'Tests check only finiteness, and one dynamics-vs-regressor comparison at a single point with unit parameters.',
 [T+'src/dynamics.cpp'], [('DHJacCM, compute_MCG, stdCmatrix, stdCmatrix_classic', T+'src/dynamics.cpp')],
 [], ['Robot::get("M"|"C"|"C_std"|"G")', 'thunder_<robot>::get_M() ...'])
prop('C05', 'Regressor matrices reproduce the dynamics linearly in the REG parameters',
 'For every configuration and all q, dq, dqr, ddqr, each column of reg_M, reg_C and reg_G is the corresponding term M*ddqr, C*dqr, G of a robot whose only non-zero REG parameter (mass, m*CoM, inertia about the link frame origin in the order xx,xy,xz,yy,yz,zz) is the one of that column, and Yr is their sum. Hence Yr*par_REG = M*ddqr + C*dqr + G for every parameter set, including trajectories with dqr different from dq.',
 ['inputs', 'configurations'], 'all configurations, trajectories and parameter vectors',
 'One test compares the two sides at one point of one robot; single columns, prismatic joints and base frames are never exercised.',
 [T+'src/regressors.cpp'], [('compute_Yr', T+'src/regressors.cpp')], [], ['Robot::get("Yr"|"reg_M"|"reg_C"|"reg_G")'])
prop('C06', 'DYN and REG inertial parameters always describe the same links',
 'The REG parameters of a link are [m, m*CoM, I_com + m*S(CoM)^T S(CoM)] and the DYN parameters [m, CoM, I_com]; converting either way and back is the identity for every positive mass. In the library and in generated objects, after any history of loads and of accepted set_par_DYN / set_par_REG calls (with the update enabled) both sets describe the same links; with the update flag false only the named set changes, and a rejected call changes neither.',
 ['inputs', 'histories'], 'all parameter values and all histories of load/set calls',
 'Tests load one file of unit parameters once; no history and no conversion back is checked.',
 [T+'src/robot.cpp', T+'thunder_robot_template/thunder_robot.cpp'],
 [('update_inertial_DYN, update_inertial_REG, set_par_*, load_*', T+'src/robot.cpp'), ('update_inertial_*, set_par_*', T+'thunder_robot_template/thunder_robot.cpp')],
 [('par_DYN/par_REG', 'the two parameter sets', T+'src/robot.cpp')], ['get_par_DYN()', 'get_par_REG()'])
prop('C07', 'Friction and elastic terms are the documented polynomials of the right joints',
 'With link friction order r, dl_i = the sum of Dl_ij times the j-th odd monomial of dq_i (dq, |dq|dq, dq^3, |dq|dq^3, ...) and Dl<j> are the diagonal coefficient matrices; for elastic robots k, d and dm are the corresponding sums for each elastic joint in chain order (stiffness in odd powers of x - q, damping in dx - dq, motor friction in dx, where q, dq are those of that very joint), and K<j>, D<j>, Dm<j>, Mm the diagonal coefficient matrices. reg_dl, reg_k, reg_d, reg_dm and reg_Mm are the partial derivatives of dl, k, d, dm and Mm*ddx with respect to the symbolic coefficients, in order.',
 ['inputs', 'configurations'], 'all orders, all patterns of rigid and elastic joints, all coefficient values and symbolic masks, all states including negative velocities',
 'Only one robot, with all joints elastic and orders 1/0/1 and 2, is run, for finiteness.',
 [T+'src/dynamics.cpp', T+'src/regressors.cpp'], [('compute_Dl, compute_elastic', T+'src/dynamics.cpp'), ('compute_reg_Dl, compute_reg_elastic', T+'src/regressors.cpp')],
 [], ['Robot::get("dl"|"k"|"d"|"dm"|"Mm"|"K1"|...)'])
prop('C08', 'Kinematic regressors are derivatives w.r.t. the symbolic kinematic parameters',
 'For every configuration with at least one symbolic DH, Base_to_L0 or Ln_to_EE parameter, reg_Jdq (reg_JTw) is the matrix of partial derivatives of J_ee*dq (of J_ee^T*w) with respect to exactly those symbolic parameters, in the order DH table, base frame, end-effector frame. When none is symbolic the two functions are not offered.',
 ['inputs', 'configurations'], 'all configurations, symbolic masks, q, dq and wrenches w',
 'No test configuration has a symbolic kinematic parameter.',
 [T+'src/regressors.cpp'], [('compute_reg_J', T+'src/regressors.cpp')], [], ['Robot::get("reg_Jdq"|"reg_JTw")'])
prop('C09', 'Symbolic selectivity never changes values, only what can be changed later',
 'For every configuration, the choice of which parameters are symbolic does not change the value of any function at the configured parameter values. Giving a symbolic parameter a new value makes every function return what a robot configured with that value would return, while non-symbolic parameters stay frozen; parameter vectors that functions take contain exactly the symbolic entries, in order.',
 ['inputs', 'configurations', 'histories'], 'all symbolic masks over DH, frames, gravity, inertia, friction and elastic parameters, and all new values',
 'Test robots use all-ones or all-zeros masks and never compare two selections.',
 [T+'src/robot.cpp'], [('init_symb_parameters, subs_symb_par, obtain_symb_parameters, update_symb_parameters, add_function', T+'src/robot.cpp')],
 [('symb', 'which entries of each parameter are symbolic', T+'src/robot.cpp')], ['Robot::get', 'Robot::set_arg', 'thunder_<robot>::get_*'])
prop('C10', 'The configuration file determines the model: defaults, extras, functions, sizes',
 'Loading a configuration yields exactly the robot it describes: joint count and types, elastic joints and orders; absent optional items mean their defaults (no gravity section: zero gravity, no symb: not symbolic, no Dl_order: no friction, ELASTIC_MODEL absent or false: no elastic functions), and entries beyond the declared sizes (more links than joints, more elastic joints than SEA joints, friction and elastic coefficient or mask lists longer than their order) are ignored. The set of offered functions, their output sizes and their argument lists are a fixed function of that description; a num_joints / type_joints mismatch or a joint type other than R, P, R_SEA, P_SEA is refused. Robots made one after the other, also under the same name, never influence each other.',
 ['configurations', 'inputs'], 'all well-formed configuration files with any subset of optional sections and surplus entries',
 'Test configurations are complete and minimal; the catalogue of functions is never compared with anything.',
 [T+'src/robot.cpp', T+'src/kinematics.cpp', T+'src/dynamics.cpp', T+'src/regressors.cpp'], [('parse_config, initVarsFuns, load_conf_par, get_functions', T+'src/robot.cpp')],
 [], ['Robot::get_functions', 'Robot::get_num*', 'Robot::get_arg'])
prop('C11', 'The generated library computes the same functions as the in-memory model',
 'For every configuration, the generated thunder_<robot> class offers get_<f>() for exactly the functions f of the in-memory robot (user-added ones included), with the same dimensions, and for equal arguments and parameters returns the same values. The same holds for functions saved as .casadi files.',
 ['configurations', 'inputs', 'programs'], 'all configurations, symbolic masks, user-added functions and argument values',
 'The test programs only check that two generated robots return finite numbers.',
 [T+'src/utils.cpp', T+'src/robot.cpp', T+'thunder_main.cpp', T+'thunder_robot_template/thunder_robot.cpp'],
 [('generate_library, add_function, get_functions', T+'src/robot.cpp'), ('change_to_robot', T+'src/utils.cpp')], [], ['thunder_<robot>::get_*()', '<f>.casadi'])
prop('C12', 'A generated object always reflects the last accepted value of each argument',
 'For every history of calls, each argument and parameter of a generated object equals the last value accepted for it (zero before the first), a vector of the wrong size leaves everything unchanged (setArguments: all four or none), and every function value depends only on the current arguments: repeating, reordering or interleaving queries changes nothing. Distinct objects (including copies) never affect each other.',
 ['histories'], 'all call histories over any number of objects in one thread',
 'Tests set each argument once on one object.',
 [T+'thunder_robot_template/thunder_robot.cpp', T+'src/utils.cpp'], [('set_*, get_par_*, setArguments', T+'thunder_robot_template/thunder_robot.cpp'), ('generated get_<f> bodies', T+'src/utils.cpp')],
 [('q..ddxr, w, par_*', 'arguments of the object', T+'thunder_robot_template/thunder_robot.h')], ['get_par_*()', 'get_<f>()'])
prop('C13', 'Objects of the generated class can be used concurrently from different threads',
 'When several threads each use their own object of a generated class (setting arguments and parameters, evaluating functions) under any interleaving, every object returns exactly what it would return if it were the only one used. No result depends on the activity of another thread.',
 ['schedules'], 'all interleavings of threads that use distinct objects',
 'No test is multi-threaded.',
 [T+'src/utils.cpp', T+'thunder_robot_template/thunder_robot.cpp'], [('thread_local work buffers in get_<f>', T+'src/utils.cpp')], [], ['get_<f>() from several threads'])
prop('C14', 'load_conf puts a generated object in the state its configuration file describes',
 'After load_conf(file), every parameter set of a generated object holds the values of the file (for DH table, frames and gravity: exactly the symbolic entries in order; for inertial, friction and elastic parameters: the full vectors), so that all functions take the values of the robot the file describes. Sections missing from the file leave the corresponding parameters unchanged, REG parameters follow DYN unless update_REG is false, and a link without friction entry keeps its friction coefficients, and reloading or loading another file fully replaces what it mentions.',
 ['histories', 'configurations', 'inputs'], 'all configuration files of the robot family (complete or partial), all masks, all load histories',
 'Tests load the generated file once and look only for finite results.',
 [T+'thunder_robot_template/thunder_robot.cpp'], [('load_conf, load_par_REG', T+'thunder_robot_template/thunder_robot.cpp')], [], ['get_par_*() after load_conf'])
prop('C15', 'Saved parameters load back unchanged',
 'Every save/load pair restores the values that were saved, to floating-point print accuracy, without touching other parameters: save_par/load_par, save_par_REG/load_par_REG and save_conf of the library, save_par_REG/load_par_REG and save_par_DYN/load_conf of generated objects, across both directions between library and generated objects. The vectors written by save_par are the current values under their parameter names.',
 ['histories', 'inputs'], 'all parameter values (tiny, huge, negative) and all save/load histories',
 'No test saves anything and reads it back.',
 [T+'src/robot.cpp', T+'thunder_robot_template/thunder_robot.cpp', T+'src/genYaml.cpp'], [('save_par, load_par, save_par_REG, load_par_REG, save_conf', T+'src/robot.cpp'), ('save_par_REG, save_par_DYN, save_par, load_par_REG, load_conf', T+'thunder_robot_template/thunder_robot.cpp'), ('genInertial_files', T+'src/genYaml.cpp')],
 [], ['saved yaml files', 'get_par_*'])
prop('C16', 'thunder gen writes a complete, self-contained, correctly named library',
 'For a valid configuration, thunder gen creates <name>_generatedFiles in the current directory with <name>_gen.h/.cpp, thunder_<name>.h/.cpp, <name>_conf.yaml and <name>_par_REG.yaml (name from -n or from the file name), whose code compiles, exports class thunder_<name> whose robotName-independent behaviour is that of the robot, and can be linked with other generated robots in one program. The conf file describes the same robot as the input and the REG file the converted inertial parameters; -f adds one .casadi file per function, -p the Python module sources, -c copies the six files into the thunder_robot and thunder_robot_chrono trees of a build checkout; repeated runs give the same files, whatever an earlier or interrupted run left behind; a refused run (bad arguments, invalid configuration) changes nothing; and robots with different names never disturb each other, also when names extend each other, differ only in case, or are generated at the same time.',
 ['configurations', 'histories', 'inputs'], 'all valid names, paths, option combinations and sequences of generator runs',
 'The build runs the generator for two robots with -c and checks that a file exists.',
 [T+'thunder_main.cpp', T+'src/utils.cpp', T+'src/robot.cpp'], [('main, copy_to', T+'thunder_main.cpp'), ('change_to_robot, update_cmake, add_bindings_template, replace_all', T+'src/utils.cpp')], [], ['generated files', 'exit behaviour of thunder gen'])
prop('C17', 'A library Robot object reflects its last accepted arguments and added functions',
 'For every history of calls on a Robot, each argument equals the last value accepted (set_q, set_dq, set_dqr, set_ddqr, set_x, set_dx, set_ddx, set_ddxr refuse a wrong size by returning 0 and change nothing), and get(f) depends only on the current arguments of f; copies of a Robot are independent. add_function makes the function available with the given arguments; without overwrite an existing function is kept and 0 returned, with overwrite it is replaced; get of an unknown name returns a 1x1 zero and changes nothing.',
 ['histories'], 'all call histories over one or several Robot objects',
 'Tests set arguments once on one object and never use add_function.',
 [T+'src/robot.cpp'], [('set_*, set_arg, get, get_arg, add_function', T+'src/robot.cpp')], [('args, model, casadi_fun', 'state of the Robot', T+'library/robot.h')], ['Robot::get', 'Robot::get_arg'])
prop('C18', 'Rigid-body inertia tools preserve the physical body',
 'Rotation helpers return Rz(yaw)Ry(pitch)Rx(roll) proper rotations; transforming a body expresses the same mass, centre of mass and central inertia in the new frame; merging two bodies gives total mass, joint centre of mass and the central inertia of the union by the parallel-axis theorem, independently of the order of the two; both also work in place. A frame object returns the rotation, translation, transform and gravity of the angles and vectors it was constructed with or set to last, and refuses vectors that have not three entries at construction. Files produced from a configuration hold its inertial parameters in DYN form and their exact conversion in REG form.',
 ['inputs'], 'all rotations, displacements and bodies with positive mass',
 'No test calls these functions.',
 [T+'src/utils.cpp', T+'src/FrameOffset.cpp', T+'src/genYaml.cpp', 'src/genYAML/src/urdf2dh_inertial.cpp'], [('rpyRot, createI, hat, transformBodyInertial, mergeBodyInertial', T+'src/utils.cpp'), ('FrameOffset::get_rotation, get_transform', T+'src/FrameOffset.cpp'), ('genInertial_files', T+'src/genYaml.cpp')], [], ['return values', 'yaml files'])
prop('C19', 'The Python module exposes the generated class faithfully',
 'For every robot generated with -p, the Python module is named thunder_<name>_py, offers class thunder_<name> constructible without arguments, with one method per setter, parameter getter, load/save function and per generated function, each bound under its own name to the member of that same name, with the documented keyword arguments and defaults.',
 ['configurations', 'programs'], 'all configurations generated with -p and all exposed methods',
 'pybind11 bindings are neither generated nor compiled by the tests.',
 [T+'src/utils.cpp', T+'thunder_main.cpp', T+'thunder_robot_template/CMakeLists.txt'], [('add_bindings_template, change_to_robot, update_cmake', T+'src/utils.cpp')], [], ['module definition of the generated source'])
prop('C20', 'genYAML expresses the arm in DH frames and perturbs it as stated',
 'For every yaml/inertial.yaml holding link0..link7 in order (further entries are ignored; mass, inertia, origin xyz and rpy in any layout), one run of the genYAML tool writes exactly inertial_DH.yaml and inertial_DH_DYN.yaml, in which link1..link7 are the same physical bodies (mass, centre of mass, central inertia) expressed in the frames of the documented Denavit-Hartenberg table; inertial_DH_REG.yaml, their exact REG form; and inertial_DH_REG_p2/_p5/_p10/_p20.yaml, the REG form of bodies in which every parameter is independently multiplied by 1 + N(0, p/100), fresh at each run. Running again replaces the files and never depends on earlier runs; the input is left alone.',
 ['inputs', 'histories'], 'all bodies with positive mass, origins and orientations, file layouts and sequences of runs',
 'No test runs the tool.',
 ['src/genYAML/main_YAML.cpp', 'src/genYAML/src/urdf2dh_inertial.cpp'], [('main: table of transforms, conversion, REG form', 'src/genYAML/main_YAML.cpp'), ('perturbateLinkProp, fillInertialYaml', 'src/genYAML/main_YAML.cpp'), ('transformBodyInertial, rpyRot, createI, hat', 'src/genYAML/src/urdf2dh_inertial.cpp')], [], ['files in generatedFiles'])
prop('C21', 'A model can be computed part by part, in any order, with the same result',
 'On a robot made without its functions (robot_from_file with compute false), after init_symb_parameters, the calls compute_kinematics / compute_dynamics (basic or advanced), compute_regressors, compute_userDefined and the single compute_* functions they consist of can be made in any order, any number of times and on copies in between. Each makes available the functions it is for, and those of the parts it needs that were not computed before, and no others; none is ever lost or changed by further calls. After update_symb_parameters every function has the dimensions, arguments and values it has when everything is computed at once, non-symbolic parameters being fixed at the values (loaded or set) they had at init_symb_parameters.',
 ['inputs', 'configurations', 'histories'], 'all configurations, all parameter values set before, all sequences of compute calls',
 'The tests only build robots with everything computed in one fixed order.',
 [T+'src/kinematics.cpp', T+'src/dynamics.cpp', T+'src/regressors.cpp', T+'src/robot.cpp'],
 [('compute_kinematics, compute_chain, compute_jacobians, compute_kin_adv', T+'src/kinematics.cpp'), ('compute_dynamics, compute_MCG, compute_Dl, compute_elastic, compute_dyn_derivatives', T+'src/dynamics.cpp'), ('compute_regressors, compute_Yr, compute_reg_*', T+'src/regressors.cpp'), ('init_symb_parameters, subs_symb_par, update_symb_parameters, add_function', T+'src/robot.cpp')],
 [('model', 'expressions computed so far', T+'src/robot.cpp')], ['Robot::get_functions()', 'Robot::get()'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
