"""The properties, and how each is exercised.  tools/gen.py writes properties.jsonl
and MANIFEST.json from this; check.py takes case counts and rules from it."""

MODEL = "multirotor_simulator/multirotor_dynamic_model/model.hpp"
DYN = "multirotor_simulator/multirotor_dynamic_model/dynamics.hpp"
STATE = "multirotor_simulator/multirotor_dynamic_model/common/state.hpp"
UTILS = "multirotor_simulator/multirotor_dynamic_model/common/utils.hpp"
SIM = "multirotor_simulator/multirotor_simulator.hpp"
IMU = "multirotor_simulator/imu_simulator/imu.hpp"
ODO = "multirotor_simulator/imu_simulator/inertial_odometry.hpp"
CTL = "multirotor_simulator/multirotor_controllers/multirotor_controllers.hpp"
ACRO = "multirotor_simulator/multirotor_controllers/controllers/acro_controller.hpp"
INDI = "multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp"
POS = "multirotor_simulator/multirotor_controllers/controllers/position_controller.hpp"
VEL = "multirotor_simulator/multirotor_controllers/controllers/velocity_controller.hpp"
TRA = "multirotor_simulator/multirotor_controllers/controllers/trajectory_controller.hpp"
PID = "pid_controller/include/pid_controller/pid.hpp"
PID1 = "pid_controller/include/pid_controller/pid_1d.hpp"


def P(id, title, statement, over, text, why, files, mech, observe, rule, technique, oracle, quick, assumptions=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=observe, rule=rule, technique=technique, oracle=oracle, quick=quick,
                assumptions=list(assumptions))


# quick = number of generated cases of the -O2 harness in the quick tier
PROPS = [
 P("D01", "Translational motion obeys Newton's second law in the world frame",
   "In every simulation step the reported total force is the rotor thrust rotated by the current attitude into the world frame, plus the vehicle's weight (mass times gravity), plus the drag, the process-noise force and the external force of that step, and the reported linear acceleration is that force divided by the mass. "
   "The position then advances by the velocity at the start of the step times dt, and the velocity by the acceleration times dt (explicit Euler), on every axis and for every mass, gravity vector, attitude, rotor layout, precision and number of rotors.",
   ["inputs", "histories", "configurations"],
   "all vehicle models (mass, inertia, drag, gravity, tilted rotors, 4 or 6 rotors, float and double), states, rotor commands, external forces, noise on or off, and sequences of steps",
   "The tests integrate one or two fixed vehicles of a few masses from a handful of states and mostly look at signs or at the vertical axis; a mistake that needs a tilted attitude, a mass other than 1, an external force or a horizontal gravity component goes unseen.",
   [DYN, MODEL], [("explicit Euler step", DYN + ": process_euler_explicit"), ("total force", DYN + ": get_vehicle_linear_velocity_derivative"), ("thrust in the world frame", DYN + ": get_thrust_force_in_earth_frame")],
   ["Dynamics::get_state().dynamics.force, kinematics.linear_acceleration, linear_velocity, position"],
   "generated vehicle model, state and 1-16 steps with fresh commands, external forces and noise switch; non-trivial = mass other than 1, rotors thrusting, attitude tilted and vehicle moving",
   "generated-input search against an independent long-double reference integrator",
   "long-double re-implementation of the equations of motion from docs/Dynamics.md (harness/refsim.hpp), with a forward error bound per quantity", 1200000),
 P("D02", "Rotational motion obeys Euler's equations and the attitude stays unit",
   "In every simulation step the reported torque is the rotor torque (drag torque, thrust lever arms and rotor acceleration), plus the aerodynamic moment, plus the process-noise moment, minus the gyroscopic term w x (I w), and the reported angular acceleration is the inverse inertia times that torque. "
   "The attitude advances by the quaternion kinematics of the body rate at the start of the step and is renormalised, and the body rate by the angular acceleration times dt. "
   "The attitude is a unit quaternion after every step, whatever the rates and the history.",
   ["inputs", "histories", "configurations"],
   "all vehicle models with full (non-diagonal) inertia and aerodynamic matrices, states, body rates, rotor commands, step sequences, float and double, 4 or 6 rotors",
   "The tests use diagonal inertia, near-zero rates and few steps, so the gyroscopic and inertial cross terms and the long-run unit norm are never really exercised.",
   [DYN, MODEL, UTILS], [("angular derivative", DYN + ": get_vehicle_angular_velocity_derivative"), ("quaternion kinematics", UTILS + ": get_quaternion_derivative"), ("renormalisation", DYN + ": process_euler_explicit")],
   ["Dynamics::get_state().dynamics.torque, kinematics.angular_acceleration, angular_velocity, orientation"],
   "generated vehicle model, state and steps as in D01 with full inertia matrices, plus long runs for the unit norm; non-trivial = vehicle spinning and torque acting (law), or spinning for more than 10 steps (norm)",
   "generated-input search against an independent long-double reference integrator",
   "long-double re-implementation of Euler's equations and quaternion kinematics; the unit norm as an invariant after every step; known finding F1 (force noise used for the moment) is recognised by its exact signature only", 1000000),
 P("D03", "Rotors follow a first-order lag to the clamped command, within limits",
   "In every step each rotor's reported acceleration is (command limited to that rotor's own speed limits, minus its current speed) divided by that rotor's time constant, and its speed advances by this acceleration times dt. "
   "After any step every rotor speed lies within that rotor's own limits, and under a constant command with dt at most the time constant it approaches the limited command monotonically without overshoot.",
   ["inputs", "histories", "configurations"],
   "all rotor sets whose limits, time constants and inertias differ per rotor, all commands (inside, at and far outside the limits), initial speeds, dt and step sequences",
   "The tests use identical rotors, commands inside the limits and time constants much larger than dt, so per-rotor indexing and the two clamps are not settled.",
   [DYN], [("command clamp", DYN + ": clamp_motors_angular_velocity"), ("first-order lag", DYN + ": get_motors_angular_velocity_derivative")],
   ["Dynamics::get_state().actuators"],
   "generated rotor sets with individual limits and time constants, histories of commands; non-trivial = some rotor in a transient (law), or more than 5 settling steps",
   "generated-input search against a reference lag model plus monotonicity/limit invariants", "per-rotor reference lag in long double, limits and monotone approach as invariants", 800000),
 P("D04", "A simulation call advances time by exactly dt, and refuses dt <= 0",
   "Advancing the dynamics by any dt > 0 advances the simulated time by exactly dt: the result equals that of explicit Euler sub-steps of equal length, none longer than 0.01 s, that together cover dt, and a dt of at most 0.01 s is one single step. "
   "A dt that is zero or negative is refused with std::invalid_argument, by the dynamics and by the simulator, and changes neither the state nor any later step.",
   ["inputs", "histories"],
   "all dt (tiny, just below, at and above 0.01, exact and inexact multiples of it, several seconds, zero, negative) from any state of any vehicle, float and double",
   "The tests only step with dt of 0.001 to 0.01 and a few round multiples of it; what happens to the remainder of a dt that is not a multiple, or at the boundary, is a quantification over dt.",
   [DYN], [("sub-stepping", DYN + ": process_euler_explicit, LOWEST_UPDATE_FREQUENCY"), ("refusal", DYN + ": process_euler_explicit")],
   ["Dynamics::process_euler_explicit, Dynamics::get_state"],
   "generated dt around the 0.01 s boundary, multiples and remainders, plus refused values; non-trivial = dt needs splitting, or (refusal) the refused call comes after real steps",
   "generated-input search: composition law, closed-form ballistic oracle, no-effect-on-refusal relation",
   "closed form of constant-force motion; composition of single steps; twin run without the refused call", 2000000),
 P("D05", "The dynamics respect the physical symmetries of the vehicle",
   "Simulated motion does not depend on where or in which horizontal direction the vehicle starts: translating the start, turning the world about the vertical axis, watching from a frame in uniform motion, negating the attitude quaternion, renumbering the rotors, scaling mass, inertia and all non-gravitational forces alike, or mirroring the vehicle left-right gives the correspondingly transformed motion. "
   "A symmetric vehicle at its hover speed stays in equilibrium, and the gyroscopic term alone does no work and keeps the magnitude of the angular momentum stationary.",
   ["inputs", "histories", "configurations"],
   "pairs of runs over all vehicle models, states and command histories related by a symmetry",
   "Tests compare numbers for one vehicle in one pose; a symmetry relates unboundedly many pairs of runs.",
   [DYN, MODEL, STATE], [("equations of motion", DYN + ": process_euler_explicit"), ("mixer", MODEL + ": compute_mixer_matrix_6D")],
   ["Dynamics::get_state of two related runs"],
   "generated vehicle and history, run twice under a generated symmetry; non-trivial = at least two related steps, or a spinning body",
   "metamorphic property-based testing (related pairs of runs)", "metamorphic relations; no formula of the library is restated", 1500000,
   ["drag acts per world axis (documented), so the turn relation uses drag-free vehicles or quarter turns"]),
 P("M01", "The mixer is the sum of the wrenches of the individual rotors",
   "For every rotor set the model's force, torque and inertia mixers give, for any rotor speeds and accelerations, exactly the sum over the rotors of thrust coefficient times speed squared (with the sign of the speed) along each rotor's own axis, its lever arm torque r x F, its signed drag torque and its signed inertial reaction torque about that axis. "
   "The 4-row, 6-row and partial mixers, the getters and the static helpers agree with one another, and follow the parameters after every update.",
   ["inputs", "configurations"],
   "all rotor positions and orientations, rotation directions, coefficients, speeds of either sign and accelerations; 1 to 8 rotors; float and double",
   "The tests use planar identical rotors at one or two positions; tilted rotors, negative speeds and distinct coefficients are not reached.",
   [MODEL, UTILS], [("mixers", MODEL + ": compute_mixer_matrix_4D / _6D, compute_mixer_inertia_matrix"), ("signed square", UTILS + ": squared_keep_sign")],
   ["Model::get_force_vector_thrust_by_motors, get_force_thrust_by_motors, get_torque_by_motors, mixer getters"],
   "generated rotor sets with arbitrary poses; non-trivial = some rotor turning (or a planar set for the 4-row form)",
   "generated-input search against a per-rotor reference wrench", "sum of individual rotor wrenches in long double; 4-row form against the 6-row one for planar sets", 1000000),
 P("M02", "The standard airframe configurations match their documentation",
   "The quadrotor X, quadrotor plus and hexacopter builders return the documented number of rotors in the documented order, positions and alternating rotation directions, all carrying the given coefficients, limits, time constant and inertia. "
   "For any arm lengths and coefficients equal rotor speeds give pure vertical thrust without torque, and thrust and the three torques can be commanded independently.",
   ["inputs", "configurations"], "all positive arm lengths (x and y different), coefficients, limits and rotor parameters, float and double",
   "The tests build each frame once with one set of numbers, and x = y hides exchanged distances.",
   [MODEL], [("builders", MODEL + ": create_quadrotor_x_config, create_quadrotor_plus_config, create_hexacopter_config")],
   ["the returned motor list and its mixer"],
   "generated arm lengths and rotor parameters; every case builds and checks a full frame and is non-trivial",
   "generated-input search against the documented layout", "docs/CommonConfigurations.md layout, plus balance and rank of the resulting mixer", 2000000),
 P("M03", "Model parameters are validated as a whole",
   "A parameter set with negative mass, inertia determinant, drag coefficient, aerodynamic determinant, rotor time constant, rotor inertia, thrust or torque coefficient, with a rotor whose maximum speed is below its minimum, or with the wrong number of rotors is rejected, and leaves everything the model reports and computes exactly as it was. "
   "A valid set takes effect completely: every getter, every mixer and every later simulation step use the new values.",
   ["inputs", "histories", "configurations"], "all sequences of valid and invalid parameter updates, with the violation in any single field of any rotor",
   "The tests try one invalid value per field, on a fresh model and mostly on the first rotor, and do not look at what a rejected update leaves behind.",
   [MODEL, DYN], [("validation", MODEL + ": check_params"), ("update", MODEL + ": update_params")],
   ["Model::check_params, update_params, all getters; Dynamics using the model"],
   "generated histories of updates with generated single violations; non-trivial = at least one rejected update, or an update observed through the dynamics",
   "stateful model-based testing (shadow copy of the last valid parameters)", "a shadow copy of the last valid parameter set decides everything the model must report", 1000000),
 P("M04", "Process noise is white, scaled by dt, reproducible, and switchable",
   "With noise enabled each axis of the noise force and moment is an independent zero-mean normal variable of variance (auto-correlation / dt), drawn afresh every step; changing an auto-correlation or dt scales the same underlying draws by the square root. "
   "Equal seeds give equal sequences and different seeds (as far as the standard engine tells them apart) different ones, a zero auto-correlation or a disabled step gives exactly zero, and a non-positive dt disables the noise.",
   ["inputs", "histories", "configurations"], "all seeds, auto-correlations, dt and sequences of enabled and disabled steps",
   "Tests can only check that some noise appears; distribution, scaling and independence quantify over seeds and parameters.",
   [MODEL, DYN], [("noise", MODEL + ": set_stochastic_noise, disable_stochastic_noise")],
   ["Model::get_stochastic_force, get_stochastic_moment"],
   "generated seeds, intensities and step sequences, plus 3000-sample statistical runs; non-trivial = noise drawn (laws, statistics) or exactly one of the two noises off",
   "metamorphic property-based testing plus statistical bounds at 7+ sigma", "scaling/seed metamorphic relations and moment/correlation bounds", 1000000,
   ["statistical bounds are set so that the chance of a false alarm is below 1e-9 per run"]),
 P("M05", "Aerodynamic drag and moment oppose the motion quadratically",
   "The drag force on each world axis is minus the drag coefficient times the square of the velocity on that axis with the velocity's sign, and the aerodynamic moment is minus the norm of the body rate times the coefficient matrix times the body rate. "
   "Both are zero at rest, odd, quadratic in speed and never add energy.",
   ["inputs", "configurations"], "all velocities, body rates and coefficients (full matrices included), float and double",
   "The tests evaluate a few vectors with positive components and diagonal matrices.",
   [MODEL, UTILS], [("drag", MODEL + ": get_drag_force"), ("moment", MODEL + ": get_aerodynamic_moment")],
   ["Model::get_drag_force, get_aerodynamic_moment"],
   "generated coefficients, velocities and rates; non-trivial = velocity, rate and drag coefficient all non-zero",
   "generated-input search against a reference formula plus oddness/scaling/dissipation laws", "long-double formula and algebraic laws", 2000000),
 P("Q01", "Quaternion kinematics, Euler angles and vector helpers obey their laws",
   "Quaternion derivatives equal half the Hamilton product of attitude and body rate, integration equals one normalised Euler step and converges to the exact rotation as dt shrinks, and the result is always unit. "
   "Euler angles extracted from any non-zero quaternion (normalised or not, either sign) rebuild the same rotation, with roll and yaw in [-pi, pi] and pitch in [-pi/2, pi/2]. "
   "Clamping returns the nearest value inside the limits, and signed square and signed square root are odd, monotone inverses of each other.",
   ["inputs"], "all quaternions (also unnormalised and next to gimbal lock), rates, dt and vectors of several sizes, float and double",
   "The tests check a few tabulated rotations; the laws quantify over the rotation group and include the neighbourhood of gimbal lock.",
   [UTILS, STATE], [("kinematics", UTILS + ": get_quaternion_derivative, get_quaternion_integrate"), ("Euler angles", STATE + ": quaternion_to_Euler"), ("helpers", UTILS + ": clamp_vector, squared_keep_sign, sqrt_keep_sign")],
   ["the utility functions and quaternion_to_Euler"],
   "generated quaternions, rates and vectors; non-trivial = non-zero rate and dt (kinematics), more than 3 integration steps (spin), every vector and Euler case",
   "generated-input search: reference product, round-trip and algebraic laws", "long-double Hamilton product, round-trip through rotation matrices, inverse/monotonicity laws", 2000000),
 P("T01", "The text form of state and odometry carries every variable in order",
   "Streaming a state writes, comma separated, exactly position, roll, pitch, yaw, linear velocity, angular velocity, linear acceleration, angular acceleration, force, torque, every rotor speed and every rotor acceleration, each once and in this order, and streaming an inertial odometry writes position, roll, pitch, yaw, linear velocity, angular velocity and linear acceleration. "
   "The labelled forms carry the same values under their own names.",
   ["inputs"], "all states and odometries, 4 and 6 rotors, float and double, at the precision of the stream",
   "The tests stream a default state or compare no values, so exchanged or repeated columns go unseen.",
   [STATE, ODO], [("CSV", STATE + ": operator<<"), ("labelled", STATE + ": print_kinematics, print_dynamics, print_actuators, print_state"), ("odometry", ODO + ": operator<<, print_state")],
   ["the streamed text"], "generated states with distinct values everywhere; non-trivial = attitude away from identity and values non-zero",
   "generated-input round-trip (print, parse, compare)", "parse the text back and compare with the source values", 300000,
   ["the separator between the two halves of the labelled actuator form is not specified"]),
 P("C01", "The vector PID obeys its control law over every call history",
   "At every call the output is Kp e + Ki I + Kd D per axis, where I accumulates e dt since the last reset and is limited on each axis to that axis' anti-windup bound when bounds are set, and D is either the given derivative error or the first-order filter (coefficient alpha per axis) of the difference quotient of successive errors, starting at zero on the first call after construction or reset. "
   "With the reset flag on, an integral at its bound restarts from zero on an axis where the error has the opposite sign. "
   "The reported contributions and errors are those of the last call.",
   ["inputs", "histories", "configurations"], "all gains, filters, bounds, flags, dimensions 1, 3, 6, precisions and interleavings of both compute forms, resets and parameter changes",
   "The tests drive one controller through two or three calls with unit gains; the integral, filter and reset interactions only appear over longer histories.",
   [PID], [("compute", PID + ": compute_control"), ("integral", PID + ": compute_integral_contribution"), ("derivative", PID + ": compute_derivative_contribution_by_deriving")],
   ["PID::compute_control and the contribution/error getters"],
   "generated parameters and histories of up to 30 operations; non-trivial = integral and derivative terms both active over more than one call",
   "stateful model-based testing against a reference PID", "independent reference PID in long double (harness/refpid.hpp) with tracked error bounds; a case stops where rounding could decide a branch", 700000,
   ["anti-windup bounds are all zero (off) or all positive; exactly zero errors together with the reset flag are unspecified"]),
 P("C02", "The scalar PID obeys the same law as one axis of the vector PID",
   "At every call the scalar PID's output is Kp e + Ki I + Kd D with the same accumulation, anti-windup, derivative filter, reset-on-sign-change, first-call and saturation rules as the vector PID. "
   "Over any history it gives the same outputs as a vector PID with the same parameters given the same errors on each axis.",
   ["inputs", "histories", "configurations"], "all gains, filters, bounds, flags, saturation limits, precisions and call histories",
   "The tests drive the scalar PID with a few calls and never beside the vector one.",
   [PID1, PID], [("compute", PID1 + ": compute_control"), ("integral", PID1 + ": compute_integral_contribution"), ("derivative", PID1 + ": compute_derivative_contribution_by_deriving")],
   ["PID1D::compute_control and getters"],
   "generated histories; non-trivial = integral and derivative active over more than one call, or more than 2 calls side by side",
   "stateful model-based testing plus differential testing (scalar vs vector)", "reference PID in long double; the vector PID of the same repository, axis by axis", 1500000),
 P("C03", "Saturated outputs never leave their limits",
   "With output saturation enabled every output lies within the configured limits on every axis at every call, and an output already inside is unchanged. "
   "Per-axis saturation gives the nearest value inside the limits on each axis independently. Proportional saturation scales the whole vector by one factor in [0, 1], so that its direction is kept and, when anything had to be limited, some axis ends at its limit.",
   ["inputs", "histories", "configurations"], "all outputs and limits (asymmetric ones included; lower <= 0 <= upper for proportional saturation), dimensions 1 to 6, float and double, through the static helper and through the controller",
   "The tests saturate a few hand-picked vectors, mostly symmetric limits and one saturating axis.",
   [PID, PID1], [("saturation", PID + ": saturate_output"), ("use", PID + ": compute_control")],
   ["PID::saturate_output, PID::compute_control, PID1D"],
   "generated outputs and limits with zero, one or several axes over; non-trivial = some axis had to be limited",
   "generated-input search with validity predicates (range, direction, tightness, idempotence)", "range, nearest-value, collinearity and tightness predicates", 2000000),
 P("C04", "PID configuration reads back, and the life cycle is uniform",
   "Whatever gains, anti-windup, filter, flags and limits are set, by construction, by a parameter update or by individual setters in any order, are exactly what the getters and the parameter getter report and what later outputs use; a parameter set read from a controller rebuilds an equal controller. "
   "Both limits zero means no saturation; equal or crossed limits on any axis are refused and disable it. "
   "After a reset a controller behaves as a freshly constructed one with the same parameters, and changing parameters does not disturb the accumulated state.",
   ["histories", "configurations"], "all sequences of setters, updates, resets and computations for the vector and scalar PID, float and double",
   "The tests set each parameter once and read it back; orders, refusals in the middle and equivalence after reset are histories.",
   [PID, PID1], [("update", PID + ": update_pid_params, set_output_saturation, disable_output_saturation"), ("reset", PID + ": reset_controller"), ("read back", PID + ": get_params")],
   ["getters, get_params, later outputs compared with a twin controller"],
   "generated operation sequences with a shadow configuration, a reference PID in step and twins rebuilt from the read-back parameters; non-trivial = every life-cycle case, and every sequence with both a setting and a computation",
   "stateful model-based testing with twin controllers", "shadow configuration and bit-equal twin controllers", 2000000),
 P("C05", "The attitude controller turns the vehicle to the commanded thrust and yaw",
   "The thrust asked for an acceleration a is mass times (a minus gravity). The body rates asked for are minus the gain matrix times the attitude error between the current attitude and the one whose body z axis points along the thrust and whose heading is the wanted yaw. "
   "They vanish exactly at that attitude, depend neither on the length of the thrust vector nor on the choice of north, are finite for every input, and following them turns the vehicle to that attitude.",
   ["inputs", "configurations"], "all attitudes, thrust vectors (zero included), yaw angles, masses, gravity vectors and gain matrices, float and double",
   "The tests compare a few attitudes near level; vanishing, invariance and convergence quantify over the rotation group.",
   [ACRO], [("thrust", ACRO + ": acceleration_to_thrust"), ("rates", ACRO + ": yaw_angle_to_angular_velocity")],
   ["AcroController outputs and getters"],
   "generated attitudes, thrusts, yaws and gains; non-trivial = non-zero gain and non-zero rates, or an initial error above 0.05 in the convergence runs",
   "generated-input search against a reference law plus invariance and convergence relations", "long-double geometric attitude law; scale and heading invariance; simulated convergence", 2000000,
   ["the desired heading is undefined when the thrust is parallel to the heading vector: only finiteness is required there"]),
 P("C06", "The rate controller commands the rotor speeds that give its torque and thrust",
   "Over any history the desired angular acceleration is the rate PID's output, the desired torque is inertia times it plus the gyroscopic term of the desired rate, and the rotor speeds are the signed square roots of the inverse mixer applied to (0, 0, thrust, torque). "
   "For a quadrotor whose inverse mixer was computed by the library, the commanded speeds fed back through the vehicle's mixer reproduce the commanded thrust and torque.",
   ["inputs", "histories", "configurations"], "all inertias, inverse mixers, PID parameters, rates, thrusts and histories; 4 and 6 rotors; float and double",
   "The tests use an identity-like inertia and compare a handful of outputs; the loop through the vehicle's own mixer is not closed.",
   [INDI, PID, MODEL], [("rate control", INDI + ": acro_to_motor_angular_velocity"), ("inverse mixer", INDI + ": compute_quadrotor_mixer_matrix_inverse")],
   ["IndiController outputs and getters; Model mixer"],
   "generated controllers and histories; non-trivial = thrust/torque non-zero",
   "stateful model-based testing plus round-trip through the vehicle model", "reference PID and allocation in long double; round-trip through Model", 1500000),
 P("C07", "The control cascade is the composition of its stages",
   "Position control is the position PID feeding velocity control, velocity control the velocity PID feeding acceleration control, trajectory control the PID of position and velocity errors plus the acceleration feed-forward feeding acceleration control, and acceleration control the attitude controller feeding the rate controller, with thrust equal to the wanted force along the current body z axis and, when that is negative, zero thrust and zero rates. "
   "Each stage keeps its own memory over histories that mix modes; a reset restarts all of them; a parameter update affects its stage only; the desired values reported are those of the last call. "
   "A yaw rate is turned into the yaw angle ahead of the current one by the rate divided by the attitude gain about z (the current yaw when that gain is zero).",
   ["inputs", "histories", "configurations"], "all parameters, states, references and interleavings of modes, resets and updates; 4 and 6 rotors; float and double",
   "The tests call each entry point once or twice on one configuration; memory shared or lost between stages shows only over mixed histories.",
   [CTL, POS, VEL, TRA, ACRO, INDI], [("cascade", CTL + ": compute_*_control"), ("negative thrust", CTL + ": convert_linear_acceleration_to_acro"), ("yaw rate", CTL + ": yaw_rate_to_angle")],
   ["Controller outputs and getters"],
   "generated histories of mixed calls; non-trivial = at least one full cascade evaluation compared",
   "stateful model-based testing against a stage-by-stage reference", "reference cascade in long double (harness/refcascade.hpp) with tracked error bounds; cases stop at rounding-dependent branches", 1200000),
 P("I01", "The IMU reports rate and specific force in its own frame plus bias",
   "Without noise, each update with dt > 0 makes the gyroscope report the body rate and the accelerometer the specific force, both rotated into the mounted sensor's frame, plus the current bias; an update with dt <= 0 changes nothing. "
   "Noise and bias add to the measurement and do not depend on the motion. All ways to read the measurement, bias and variances agree, and a reset zeroes measurement and bias.",
   ["inputs", "histories", "configurations"], "all mountings, motions, biases, dt and histories of updates, resets and reconfigurations, float and double",
   "The tests use an identity mounting or one rotation and one update.",
   [IMU], [("measurement", IMU + ": process_measurement"), ("reset", IMU + ": reset"), ("mounting", IMU + ": set_orientation")],
   ["IMU getters"], "generated mountings and histories; non-trivial = rotated mounting with motion, or a pair of motions compared under noise",
   "stateful model-based testing plus metamorphic pairs", "rotation by the mounting in long double; difference of two runs with one seed", 1500000),
 P("I02", "IMU noise and bias have the configured statistics and follow the seed",
   "Measurement noise is independent, zero-mean and normal with the configured variance on each axis; the bias performs a random walk whose increments are independent, zero-mean and normal with variance intensity times dt, and starts from a draw with the noise variance. "
   "Scaling a variance or intensity scales the same draws by the square root, a zero one gives exactly none, gyroscope and accelerometer have their own parameters, and equal seeds and calls give equal outputs while different seeds (as far as the standard engine tells them apart) do not.",
   ["inputs", "histories", "configurations"], "all variances, intensities, dt, seeds and histories, float and double",
   "Tests can sample one seed; distributions and scaling laws quantify over seeds and parameters.",
   [IMU], [("bias", IMU + ": process_bias, set_bias_standard_normal_distribution"), ("noise", IMU + ": process_measurement")],
   ["IMU getters"], "generated parameters and seeds; non-trivial = noise present and compared under scaling or reseeding, some parameter exactly zero, or a statistical run",
   "metamorphic property-based testing plus statistical bounds at 7+ sigma", "square-root scaling, seed and zero relations; moment and correlation bounds", 2000000,
   ["statistical bounds are set so that the chance of a false alarm is below 1e-9 per run"]),
 P("O01", "Inertial odometry integrates the filtered IMU readings",
   "At each update the gyroscope and accelerometer readings pass a first-order low-pass filter with coefficient alpha; the angular velocity is the filtered rate, the acceleration is the filtered acceleration rotated into the world frame by the current attitude, the attitude advances by the quaternion kinematics and stays unit, the velocity advances by the acceleration times dt and the position by the new velocity times dt. "
   "A reset, or a new initial orientation, restarts from the initial orientation with everything else zero as documented, and a turned initial orientation turns the whole estimate.",
   ["inputs", "histories", "configurations"], "all alpha in (0, 1], initial orientations, readings, dt and histories with resets, float and double",
   "The tests integrate constant readings from the identity attitude, where body and world frame coincide.",
   [ODO], [("filter", ODO + ": filter_measurement"), ("integration", ODO + ": integrate_measurement"), ("reset", ODO + ": reset, set_initial_orientation")],
   ["InertialOdometry getters"], "generated readings and histories; non-trivial = tilted attitude with acceleration",
   "stateful model-based testing plus frame-rotation metamorphic relation", "long-double integrator; rotated twin run", 1500000,
   ["set_initial_orientation changes the attitude only; the rest restarts with reset()"]),
 P("O02", "The simulator's sensors report the simulated motion",
   "After a sensor update the simulator's noise-free IMU reads the true body rate and the total force per unit mass expressed in the body frame (then in the sensor frame), for every attitude and mass. "
   "The odometry is fed with exactly the IMU's readings, and in flight dead reckoning from them follows the true attitude, velocity and position up to integration error. "
   "Odometry and IMU getters of the simulator agree with those of its parts.",
   ["inputs", "histories", "configurations"], "all vehicles, attitudes, masses, mountings, command histories and update schedules, float and double, 4 and 6 rotors",
   "The tests only see level hovering vehicles of unit-like mass, where world and body frame coincide.",
   [SIM, IMU, ODO], [("feeding", SIM + ": update_imu, update_inertial_odometry"), ("getters", SIM + ": get_odometry, get_imu_measurement")],
   ["Simulator::get_imu_measurement, get_odometry, get_state"],
   "generated flights with sensor updates; non-trivial = tilted, accelerating vehicle, or a full dead-reckoning run",
   "generated-input search: differential (sensors vs true state) and stand-alone twin sensors", "true state of the simulator; stand-alone IMU and odometry fed by the harness; derived drift bound", 400000),
 P("S01", "Arming, modes and references follow their state machine",
   "Over any sequence of calls: a new simulator is disarmed in motor-speed mode; arming keeps the mode and sets thrust, rate and altitude references to their documented take-off values; disarming at once clears the actuation, and while disarmed the controller only produces zero actuation. "
   "Switching to a different control or yaw mode takes over the current position and yaw as references and zeroes the velocity, acceleration, thrust and rate references; asking for the current mode changes nothing. "
   "Each reference setter changes exactly its own references, every getter form reports them, and the references survive the other operations.",
   ["histories", "configurations"], "all sequences of arm, disarm, mode, reference, floor, state and update calls; float and double; 4 and 6 rotors",
   "The tests walk a few fixed scripts; stale references after particular orders of calls are histories.",
   [SIM], [("arming", SIM + ": arm, disarm"), ("modes", SIM + ": set_control_mode"), ("references", SIM + ": set_reference_*")],
   ["all Simulator getters after every operation"],
   "generated operation sequences; non-trivial = a mode switch in a sequence of more than 3 operations",
   "stateful model-based testing (state-machine model)", "an executable model of the command interface, compared through every getter after every call", 1500000),
 P("S02", "Every control mode drives the rotors through its own cascade",
   "A controller update on an armed vehicle commands the rotor speeds that the documented part of the cascade computes for the current mode from the current state, references and dt: motor speeds directly, acro from thrust and rate references, velocity, position and trajectory from theirs, hover as position control at the place where it was entered. "
   "In yaw-rate mode the yaw reference is led from the current yaw at every update; a disarmed vehicle gets zero speeds and its controllers do not advance.",
   ["inputs", "histories", "configurations"], "all modes and yaw modes, states, references, parameters, dt and histories that switch between them; float and double; 4 and 6 rotors",
   "The tests run each mode from rest on one vehicle; a wrong state variable or reference in one mode needs an asymmetric moving state to show.",
   [SIM, CTL], [("dispatch", SIM + ": update_controller"), ("yaw rate", SIM + ": update_yaw_reference_with_yaw_rate")],
   ["Simulator::get_actuation_motors_angular_velocity"],
   "generated states, references and mode histories; non-trivial = at least one armed non-motor mode compared",
   "stateful differential testing against a stage-by-stage reference", "reference cascade driven with the harness's own choice of state and references", 800000),
 P("S03", "With floor collision enabled the vehicle never ends below the floor",
   "With floor collision enabled no dynamics update leaves the vehicle below the floor height. A step that would do so puts it on the floor at its horizontal place and attitude with zero velocities and accelerations, keeps rotor speeds, and restarts the IMU and the odometry from that attitude; any other step is exactly the free-flight step. "
   "A vehicle without enough thrust stays at rest on the floor, one with enough takes off, and with the collision disabled the floor has no effect.",
   ["inputs", "histories", "configurations"], "all vehicles, states above, at and below the floor, floor heights, dt, commands and histories of enabling and disabling",
   "The tests drop one vehicle on one floor at height zero.",
   [SIM, DYN], [("collision", SIM + ": update_dynamics"), ("switch", SIM + ": enable_floor_collision, disable_floor_collision")],
   ["Simulator::get_state, sensors, get_floor_*"],
   "generated flights around generated floors; non-trivial = contact and free flight both occurred, or a full rest/take-off run",
   "stateful differential testing against a floor-free twin", "a twin Dynamics without floor advanced by the harness; rest and take-off scenarios", 800000),
 P("S04", "The closed loop reaches and holds what each mode asks for",
   "A vehicle whose controllers are tuned for its model reaches, from any moderate initial state, the position, velocity, yaw, yaw rate, body rates or trajectory asked for and stays there, without ever producing a non-finite state. "
   "This holds in every mode, for any mass, size, start, heading and reference of moderate size, and cutting the motors makes the vehicle fall.",
   ["inputs", "histories", "configurations"], "families of vehicles (mass, arm, inertia, rotor parameters), initial states, references and headings, float and double, of moderate size",
   "The tests fly one vehicle with one tuning to a few targets and check loose final positions.",
   [SIM, CTL, DYN], [("loop", SIM + ": update_controller, update_dynamics")],
   ["Simulator::get_state over simulated seconds"],
   "generated vehicle, tuning by scaling laws, start and reference; every case is a full flight and non-trivial",
   "generated-scenario simulation with settling predicates", "distance to the reference after the settling time, finiteness at every step", 4500,
   ["gains are scaled from the vehicle by the harness; initial tilt and distances are bounded so that the rotors do not saturate for long"]),
 P("S05", "Simulators are deterministic, isolated and made of replaceable parts",
   "Two simulators with equal parameters (seeds included) given equal calls give bit-equal histories, whatever other simulators do in between; a copy continues exactly as the original and neither affects the other afterwards. "
   "Reading by reference, by value or by const access agrees; setting a state, model or parameters of one part takes effect completely there and leaves the other parts as they were.",
   ["histories", "configurations"], "all parameters, operation sequences, interleavings of several simulators and points of copying or part replacement; float and double; 4 and 6 rotors",
   "No test runs two simulators side by side; shared static state or shallow copies show only in interleaved histories.",
   [SIM, DYN, MODEL, IMU, ODO, CTL], [("value members", SIM + ": private members"), ("setters", SIM + ": set_dynamics_params, set_controller_params, set_imu_params, set_inertial_odometry_params"), ("state and model access", DYN + ": set_state, set_model, get_model")],
   ["everything observable of twin simulators"],
   "generated histories on twins, copies and bystanders; non-trivial = noise, armed flight or part replacement took place after the copy",
   "stateful differential testing with twins and copies", "bit-equality of twins", 500000),
 P("P01", "Whatever is left out takes its documented neutral value",
   "For every subset of parameter fields, state fields, constructor arguments and call arguments a user leaves out, the result is bit for bit what writing down the documented neutral values gives: gravity of 9.81 m/s2 downwards, no drag, no aerodynamic moment and no noise, rotors turning in the positive direction at the vehicle's origin, zero gains, no anti-windup, no derivative filtering, no flags and no saturation, sensors aligned with the vehicle, no odometry filter, the state at rest at the origin and level, seed zero, no external force, noise enabled in a step, a floor at height zero and yaw angle mode. "
   "New objects report nothing until they are used.",
   ["configurations", "histories"], "all subsets of left-out fields and arguments of the PID, model, state, sensor, controller and simulator parameters, with all values of the others, and all following histories; float and double; 4 and 6 rotors",
   "The tests set all fields they look at, or none; which left-out field matters for which later behaviour depends on the others.",
   [PID, PID1, MODEL, DYN, STATE, IMU, ODO, ACRO, INDI, CTL, SIM], [("default members", MODEL + ": ModelParams, MotorParams"), ("default members", PID + ": PIDParams"), ("default arguments", DYN + ": process_euler_explicit"), ("default arguments", SIM + ": enable_floor_collision, set_control_mode")],
   ["everything observable of an object with fields left out and of its fully written-out twin"],
   "generated parameter sets with a random subset left out, driven in step with their written-out twins; non-trivial = at least one field or argument left out",
   "differential testing of partial against written-out configurations", "bit-equal twin with the neutral values written down", 800000),
]
