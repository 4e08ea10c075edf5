#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "neural_network_lyapunov/"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[N + f for f in files],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))


NOGRB = ("Every existing test of this part needs the commercial solver, which "
         "is not installed, so no test runs here at all; ")

prop("P01", "Network-to-optimization encoding equals the network",
     "For every fully connected ReLU or leaky-ReLU network and every input "
     "box, the mixed-integer linear constraints generated for it admit, at "
     "each input inside the box, exactly one output and it is the network's "
     "output, and admit no input outside the box, whichever bound-propagation "
     "method is used and whether the whole network or one layer at a time is "
     "encoded. The layer bounds returned with the encoding contain every "
     "value the network takes on the box, and linear-programming and exact "
     "bounds are never looser than interval bounds. Building the encoding leaves the network unchanged.",
     ["inputs", "configurations"],
     "all layer widths, weights, biases on/off, slopes, boxes (including "
     "boxes on which units never switch), all bound methods, all inputs",
     NOGRB + "and the tests fix a handful of small networks and a few inputs.",
     ["relu_to_optimization.py", "relu_to_optimization_utils.py",
      "mip_utils.py"],
     [("big-M encoding of each unit from its pre-activation bounds",
       "relu_to_optimization.py output_constraint"),
      ("layer-wise encoding", "relu_to_optimization_utils.py"),
      ("interval/LP/MIP bounds", "mip_utils.py, relu_to_optimization.py")])

prop("P02", "Activation patterns give the network's affine pieces",
     "For every (leaky) ReLU network and input, the activation pattern "
     "reported for the input yields an affine map that reproduces the network "
     "at that input and on the whole polytope reported for the pattern, and "
     "the polytope contains exactly the inputs that have that pattern. At "
     "points where several units are exactly zero, every adjacent pattern is "
     "listed and each reported one-sided gradient is the gradient of an "
     "adjacent piece.",
     ["inputs", "configurations"],
     "all networks, inputs on and off the kinks, all patterns",
     NOGRB + "a unit test samples a few patterns of one or two networks.",
     ["relu_to_optimization.py", "utils.py"],
     [("affine piece and polytope of a pattern",
       "relu_to_optimization.py ReLUGivenActivationPattern"),
      ("pattern enumeration",
       "relu_to_optimization.py ComputeAllReLUActivationPatterns"),
      ("one-sided gradients", "utils.py relu_network_gradient")])

prop("P03", "Encodings of a network's directional gradient are exact",
     "For every (leaky) ReLU network, the linear-in-activation expression of "
     "its gradient times a vector equals the gradient of the affine piece of "
     "each activation pattern applied to the vector. The mixed-integer "
     "constraints for gradient-times-vector admit, for every activation "
     "pattern and every vector in the given box, exactly that value, whatever "
     "bound method is used, and their bounds contain it.",
     ["inputs", "configurations"],
     "all networks, activation patterns, vectors and vector boxes",
     NOGRB + "tests fix the networks and a few vectors.",
     ["relu_to_optimization.py"],
     [("output_gradient", "relu_to_optimization.py"),
      ("output_gradient_times_vector", "relu_to_optimization.py")])

prop("P04", "Elementary piecewise-linear encodings are exact",
     "The mixed-integer constraints for binary-times-continuous products, "
     "leaky-ReLU gradient products, absolute values, maxima, saturation and "
     "(leaky) ReLU units admit at every input in the declared range exactly "
     "the function's value, and admit the binary values that describe the "
     "active piece. The constraints for the boundary of a box admit exactly "
     "the points of the boundary.",
     ["inputs", "configurations"],
     "all ranges (sign-changing, one-sided, touching zero), slopes, limits, "
     "dimensions and inputs",
     NOGRB + "the tests sample few ranges; degenerate ones are not covered.",
     ["utils.py"],
     [("replace_binary_continuous_product and relatives", "utils.py"),
      ("add_saturation_as_mixed_integer_constraint", "utils.py"),
      ("box boundary", "utils.py")])

prop("P05", "Computed bounds are sound and tightening never cuts solutions",
     "Bounds computed for affine maps, networks' layers, activation units "
     "and polytopes contain every attainable value, equal the exact range "
     "where the method is exact, and the reported emptiness or unboundedness "
     "is right. Extra constraints generated to strengthen a ReLU encoding "
     "hold at every genuine input/activation pair and cut off the relaxed "
     "point they were generated for.",
     ["inputs", "configurations"],
     "all affine maps, boxes, polytopes, ReLU units and relaxed points",
     NOGRB + "hand-picked small instances only.",
     ["mip_utils.py", "utils.py", "relu_to_optimization.py"],
     [("compute_range_by_*", "mip_utils.py"),
      ("strengthen_relu_mip and cuts", "mip_utils.py"),
      ("compute_bounds_from_polytope", "utils.py"),
      ("propagate_bounds", "mip_utils.py, utils.py")])

prop("P06", "Recomputed optimal cost and its gradient match the solver",
     "For every bounded mixed-integer linear program, the constraint and "
     "objective data kept alongside the solver model describe the same "
     "program, and the cost recomputed from that data at each returned "
     "solution equals the solver's cost. When the optimum is non-degenerate, "
     "the derivative of the recomputed cost with respect to any problem data "
     "equals the derivative of the true optimal cost; the same holds for "
     "convex quadratic programs up to the regularization.",
     ["inputs", "histories"],
     "all sequences of adding variables/constraints (scalar or matrix form, "
     "all senses, relaxed binaries) and all problem data",
     NOGRB + "tests use two or three small programs.",
     ["gurobi_torch_mip.py", "utils.py"],
     [("sparse torch copies of the constraints", "gurobi_torch_mip.py"),
      ("active-constraint KKT solve",
       "gurobi_torch_mip.py compute_objective_from_mip_data_and_solution"),
      ("linear_program_cost", "utils.py")])

prop("P07", "Constraint-set transformations preserve the described set",
     "Substituting an affine input, cloning, concatenating two constraint "
     "sets (sharing or not sharing slack/binary variables) and adding a "
     "constraint set to a program each describe exactly the set the "
     "definition says, for every combination of present and absent terms and "
     "bounds. None of them changes an object it was only given to read.",
     ["inputs", "histories", "configurations"],
     "all shapes, all subsets of present terms, all affine substitutions, "
     "sequences of these operations",
     NOGRB + "tests check a few fixed shapes.",
     ["gurobi_torch_mip.py"],
     [("MixedIntegerConstraintsReturn", "gurobi_torch_mip.py"),
      ("concatenate_mixed_integer_constraints", "gurobi_torch_mip.py"),
      ("add_mixed_integer_linear_constraints", "gurobi_torch_mip.py")])

prop("P08", "Hybrid linear systems: constraints and bounds match the dynamics",
     "For every hybrid linear system (controlled or autonomous), the "
     "mixed-integer constraints admit a state, input and next state (or "
     "derivative) exactly when some mode contains the state/input and maps it "
     "there. Stepping a state returns the successor of a mode that contains "
     "it (an error or nothing when none does), batch stepping agrees with "
     "single stepping, and the reported state, next-state and per-mode "
     "derivative bounds are exact.",
     ["inputs", "configurations"],
     "all numbers of modes, dimensions, mode polytopes, states on and off "
     "mode boundaries, tightening bounds",
     NOGRB + "tests use three fixed example systems.",
     ["hybrid_linear_system.py"],
     [("convex-hull style encoding", "hybrid_linear_system.py "
       "mixed_integer_constraints"),
      ("step_forward / possible_dx", "hybrid_linear_system.py"),
      ("mode_derivative_bounds", "hybrid_linear_system.py")])

prop("P09", "Cost-to-go, trajectory sampling and partitions are consistent",
     "For every autonomous hybrid system and start state, the reported "
     "cost-to-go is the sum (or integral) of the stage cost along the "
     "system's own trajectory up to reaching the goal, the sampled "
     "state/cost pairs are the tail costs of that trajectory, and start "
     "states whose trajectory leaves the domain are skipped. Partitioning a "
     "state/input box yields exactly the cells of the grid with their "
     "centres, grown or shrunk by the given fraction, inside the box, and "
     "covering it unless shrunk.",
     ["inputs", "histories"],
     "all systems, start states, horizons, stage costs, grids",
     NOGRB + "one system and a few start states.",
     ["hybrid_linear_system.py"],
     [("compute_{discrete,continuous}_time_system_cost_to_go",
       "hybrid_linear_system.py"),
      ("partition_state_input_space", "hybrid_linear_system.py")])

prop("P10", "Learned dynamics models keep the equilibrium and match encodings",
     "Every neural-network dynamics model (autonomous, residual, with input, "
     "second-order, given equilibrium) returns for a batch what it returns "
     "for each element, and models built around an equilibrium map it exactly "
     "to itself (zero derivative in continuous time) for all weights. The "
     "mixed-integer constraints generated for the model admit at every state "
     "and input in the box exactly the model's next state (or derivative), "
     "its bounds contain it, and generating them does not change the model.",
     ["inputs", "configurations"],
     "all network weights, architectures, equilibria, boxes, states, inputs",
     NOGRB + "tests use a few fixed networks.",
     ["relu_system.py"],
     [("step_forward", "relu_system.py"),
      ("add_dynamics_constraint / mixed_integer_constraints",
       "relu_system.py")])

prop("P11", "Control-affine dynamics encodings are exact",
     "For every control-affine system whose drift and input matrix are given "
     "by networks or affine maps, the mixed-integer constraints for drift and "
     "input matrix admit at each state in the box exactly their values, the "
     "reported bounds contain them, and the derivative computed from them "
     "equals drift plus input matrix times the input clamped to its limits. "
     "The training helper fits drift plus input matrix times input, less its "
     "value at the equilibrium.",
     ["inputs", "configurations"],
     "all networks, boxes, states, inputs, bound methods",
     NOGRB + "fixed networks and few states.",
     ["control_affine_system.py"],
     [("mixed_integer_constraints, dynamics", "control_affine_system.py"),
      ("train_control_affine_forward_model", "control_affine_system.py")])

prop("P12", "Closed-loop system: saturated control, equilibrium and encoding",
     "For every forward system and (network or linear) controller the applied "
     "control always lies within the input limits, equals the equilibrium "
     "control at the equilibrium state, and is the saturation of controller "
     "output minus its value at equilibrium plus the equilibrium control; "
     "batches agree with single states. The closed-loop constraints admit at "
     "every state in the box exactly that control and the forward system's "
     "next state, and strengthening them removes no such point.",
     ["inputs", "configurations"],
     "all controllers, limits (finite or infinite), boxes, states, bound "
     "methods",
     NOGRB + "fixed systems and few states.",
     ["feedback_system.py"],
     [("compute_u with saturation", "feedback_system.py"),
      ("add_dynamics_mip_constraint", "feedback_system.py")])

prop("P13", "Lyapunov function value, zero at equilibrium, and gradient",
     "The Lyapunov value at any state is the network output minus its output "
     "at the equilibrium plus a weighted one-norm of the transformed distance "
     "to the equilibrium, so it is zero at the equilibrium, and batch values "
     "equal single values. The program that encodes the value has the value "
     "as its only feasible objective, the reported gradients are gradients "
     "of adjacent affine pieces of that function, and batch and single "
     "gradients agree.",
     ["inputs", "configurations"],
     "all networks, weights of the norm term, transformation matrices, "
     "equilibria and states including those on kinks",
     NOGRB + "fixed networks and states.",
     ["lyapunov.py", "utils.py"],
     [("lyapunov_value", "lyapunov.py"),
      ("lyapunov gradients", "lyapunov.py"),
      ("l1_gradient", "utils.py")])

prop("P14", "Discrete-time Lyapunov verification is sound and tight",
     "For every discrete-time system, Lyapunov network and box, the optimum "
     "of the positivity program and of the decrease program (exponential "
     "lower/upper rate and asymptotic) is at least the violation at every "
     "state of the box (for the decrease program: whose successor is in the "
     "box and that meets the requested Lyapunov level-set bounds), no other "
     "state is admitted, and it is attained by the reported state. Programs "
     "strengthened by cuts keep the value at every state; programs "
     "strengthened by equalities between binaries keep every state with a "
     "nonnegative violation; relaxed programs never have a lower optimum.",
     ["inputs", "configurations"],
     "all systems, networks, boxes, rates, transformation matrices, level "
     "sets",
     NOGRB + "a few hand-made systems, few states compared.",
     ["lyapunov.py"],
     [("lyapunov_positivity_as_milp", "lyapunov.py"),
      ("lyapunov_derivative_as_milp", "lyapunov.py"),
      ("strengthen_lyapunov_derivative_as_milp", "lyapunov.py")])

prop("P15", "Continuous-time Lyapunov verification is sound and tight",
     "For every continuous-time system (hybrid linear or control-affine, "
     "open or closed loop), Lyapunov network and box, the optimum of the "
     "decrease program is at least the violation computed at every state "
     "with every one-sided gradient and admissible derivative, and is "
     "attained by the reported state. The alternative formulations of the "
     "same program have the same optimum.",
     ["inputs", "configurations"],
     "all systems, networks, boxes, rates, bound methods",
     NOGRB + "two hand-made systems.",
     ["continuous_time_lyapunov.py"],
     [("lyapunov_derivative_as_milp(2)", "continuous_time_lyapunov.py")])

prop("P16", "The computed region of attraction is inside the verified region",
     "The level computed for the region of attraction is the smallest of the "
     "given upper bound, the smallest Lyapunov value at a box state whose "
     "successor leaves the box inside the given larger box (through a face "
     "or a corner), and the smallest Lyapunov value at a boundary state whose "
     "successor is in the box. So no state of the box with a smaller value "
     "steps out of the box. The boundary program admits exactly the boundary "
     "states with their values and attains the smallest one.",
     ["inputs", "configurations"],
     "all discrete-time systems, Lyapunov functions, boxes and enlargements",
     NOGRB + "one example.",
     ["lyapunov.py"],
     [("compute_region_of_attraction", "lyapunov.py"),
      ("_construct_milp_for_roa_boundary", "lyapunov.py")])

prop("P17", "Barrier function values and verification are sound and tight",
     "The barrier value at the given safe anchor equals the given constant "
     "and its encoding has the value as its only feasible objective. For "
     "every system and box the optima of the unsafe-region, safe-region and "
     "rate programs bound the corresponding violation at every state and are "
     "attained, and their derivatives with respect to the network parameters "
     "are those of the optimum.",
     ["inputs", "configurations"],
     "all networks, systems, constants, regions, rates",
     NOGRB + "one example system.",
     ["barrier.py"],
     [("value_as_milp", "barrier.py"), ("derivative_as_milp", "barrier.py")])

prop("P18", "Sampled certificate losses equal their definition",
     "For every set of samples, the positivity, decrease and rate losses "
     "(discrete-time, continuous-time and barrier) equal the stated reduction "
     "(mean, max, four-norm) of the weighted hinge of margin plus violation, "
     "and are zero exactly when every sample satisfies the condition with the "
     "margin.",
     ["inputs", "configurations"],
     "all sample sets (including a single sample), margins, weights, "
     "reductions, rates",
     NOGRB + "few samples and settings.",
     ["lyapunov.py", "continuous_time_lyapunov.py", "barrier.py", "utils.py"],
     [("*_loss_at_samples", "lyapunov.py, continuous_time_lyapunov.py, "
       "barrier.py"), ("loss_reduction", "utils.py")])

prop("P19", "Transformation-matrix parameterizations keep their invariants",
     "For every sequence of setting the matrix, setting its variables and "
     "optimizer steps, each parameterization of the norm transformation "
     "matrix returns the matrix its documentation defines from its variables, "
     "keeps the promised structure (positive definite top block with "
     "eigenvalues above the floor, singular values above the floor, or a "
     "fixed matrix), and is differentiable in its variables. Setting it to a "
     "matrix reproduces that matrix, leaves the caller's arrays alone and is "
     "not affected by later changes to them; the extracted parameters "
     "describe the matrix.",
     ["inputs", "histories"],
     "all parameter values and sequences of set/get/optimize steps",
     NOGRB + "few values.",
     ["r_options.py"],
     [("SearchRwithSVDOptions, SearchRwithSPDOptions, ...",
       "r_options.py")])

prop("P20", "Training certifies only what the verifier accepts",
     "Training reports success only when the verification programs' optima "
     "are within the requested tolerances for the parameters it leaves "
     "behind. The counterexample states it collects lie in the box, violate "
     "the condition they were collected for and come with their true "
     "successors, the total loss is the sum of the weighted components it "
     "reports, and its gradient matches the change of the optimal cost.",
     ["inputs", "histories", "configurations"],
     "all systems, networks, options, training histories",
     NOGRB + "single fixed runs.",
     ["train_lyapunov_barrier.py"],
     [("total_loss, solve_*_mip, train", "train_lyapunov_barrier.py")])

prop("P21", "Training-state bookkeeping loses and invents nothing",
     "Reading the trainable parameters and writing them back reproduces them "
     "exactly, and files saved while training hold the current ones; batch "
     "descent leaves the best parameters it evaluated; sample "
     "pools keep the newest samples up to their limit; clustering of "
     "counterexamples partitions them with matching multiplicities; and "
     "gradient projection removes exactly the conflicting component.",
     ["inputs", "histories"],
     "all parameter shapes, sample histories, gradients",
     NOGRB + "single fixed runs.",
     ["train_lyapunov_barrier.py", "train_utils.py"],
     [("parameter packing", "train_lyapunov_barrier.py"),
      ("project_gradient", "train_utils.py")])

prop("P22", "Line-search optimizers only take sufficient-decrease steps",
     "For every loss function and option setting, one step of the "
     "line-search gradient-descent and Adam optimizers moves the parameters "
     "along the reference optimizer's direction by a step from the geometric "
     "step-size sequence, accepts the first step size in that sequence whose "
     "loss meets the sufficient-decrease condition (or ends at the smallest "
     "step), and returns the loss at the parameters it leaves behind; each "
     "parameter group uses its own settings.",
     ["inputs", "histories", "configurations"],
     "all losses, parameter groups, momenta, dampings, weight decays, Nesterov/AMSGrad, "
     "multi-step histories",
     "The tests take one step on one quadratic; histories with momentum "
     "state and rejected steps are not reached.",
     ["line_search_gd.py", "line_search_adam.py"],
     [("step", "line_search_gd.py, line_search_adam.py")])

prop("P23", "Latent-space dynamics learning computes its stated quantities",
     "Roll-outs of learned dynamics chain single-step predictions; the "
     "dynamics, reconstruction and Kullback-Leibler losses equal their "
     "definitions on every batch; Lyapunov losses are evaluated only at "
     "samples in the latent box; and saving then loading a learner "
     "reproduces its predictions.",
     ["inputs", "histories", "configurations"],
     "all batches, networks, horizons, boxes",
     NOGRB + "shapes only.",
     ["dynamics_learning.py"],
     [("StateSpaceDynamicsLearning, LatentSpaceDynamicsLearning",
       "dynamics_learning.py")])

prop("P24", "Fixed-step integration follows the classical fourth-order rule",
     "For every dynamics function, start state, control policy and step, the "
     "integrator applies the control computed at the beginning of the step "
     "for the whole step and returns the classical fourth-order Runge-Kutta "
     "state; its result is exact for polynomial-in-time motion up to cubic "
     "velocity and fourth-order accurate otherwise.",
     ["inputs", "histories"],
     "all dynamics, states, policies, step sizes, numbers of steps",
     "The test integrates one system.",
     ["integrator.py"],
     [("rk4_constant_control", "integrator.py")])

prop("P25", "Rotation conversions are proper rotations with right derivatives",
     "For every roll-pitch-yaw triple the rotation matrix is orthonormal with "
     "determinant one and equals the yaw-pitch-roll composition, for arrays "
     "and tensors alike, and the reported partial derivatives with respect "
     "to each angle are the derivatives of that matrix.",
     ["inputs"],
     "all angles, including multiples of 90 degrees",
     "Tests compare at a few random triples.",
     ["geometry_transform.py"],
     [("rpy2rotmat and companions", "geometry_transform.py")])

prop("P26", "Physical models: array, tensor and linearized dynamics agree",
     "For every physical example model (pendulum, pole on a moving point, "
     "planar and 3-D quadrotor, rockets, unicycle, acceleration car) and "
     "every state and control, the dynamics evaluated on arrays, tensors and "
     "batches agree with each other and with the textbook equations of "
     "motion, reported Jacobians equal the derivatives of the dynamics, and "
     "equilibria have zero derivative.",
     ["inputs"],
     "all states, controls and physical parameters",
     "Tests compare at a few states, and most cannot run here.",
     ["examples/pendulum/pendulum.py", "examples/pole/pole.py",
      "examples/quadrotor2d/quadrotor_2d.py",
      "examples/quadrotor3d/quadrotor.py", "examples/rocket/rocket.py",
      "examples/car/unicycle.py", "examples/car/acceleration_car.py"],
     [("dynamics / linearized_dynamics", "examples/*")])

prop("P27", "Example-specific network models match their own encodings",
     "For the unicycle, acceleration-car, pole and quadrotor network models, "
     "the equilibrium is a fixed point for all weights, the documented "
     "symmetries and structural relations between state components hold, "
     "batch and single evaluations agree, and the mixed-integer constraints "
     "admit exactly the model's next state at every state and input in the "
     "box.",
     ["inputs", "configurations"],
     "all networks, states, inputs and boxes",
     NOGRB + "one network each.",
     ["examples/car/unicycle.py", "examples/car/acceleration_car.py",
      "examples/pole/pole_relu_system.py",
      "examples/quadrotor3d/quadrotor.py",
      "examples/quadrotor2d/quadrotor_2d.py"],
     [("add_dynamics_constraint", "examples/*")])

prop("P28", "Spring-loaded pendulum maps conserve energy and match gradients",
     "For every apex state and leg angle the hybrid simulation and the apex "
     "map conserve energy through flight, touchdown, stance and liftoff, "
     "agree with each other, and report infeasibility exactly when the foot "
     "starts below ground or the mass falls. All reported gradients equal "
     "the derivatives of the maps.",
     ["inputs", "histories"],
     "all parameters, apex states, leg angles, step sequences",
     NOGRB + "a few fixed states.",
     ["spring_loaded_inverted_pendulum.py", "slip_hybrid_linear_system.py"],
     [("apex_map, simulate, *_gradient",
       "spring_loaded_inverted_pendulum.py")])

prop("P29", "Image encoders and decoders treat batch items independently",
     "Every encoder/decoder pair maps image batches of its declared size to "
     "latent means and log-variances of the declared dimension and back to "
     "images of the same size with values in [0, 1], and each item's result "
     "depends only on that item.",
     ["inputs", "configurations"],
     "all batch sizes, channel counts, image sizes, latent dimensions",
     "The test checks one batch shape per class.",
     ["encoders.py"],
     [("forward", "encoders.py")])

prop("P30", "Simulated image data sets are consistent trajectories",
     "For every world, start state, control and step, generated samples and "
     "roll-outs are reproducible, each next state is the simulation's state "
     "one step after the current one under the given control, images show "
     "the corresponding states in [0, 1] with the declared channels, and "
     "data-set samples start inside the requested state and control ranges.",
     ["inputs", "histories"],
     "all start states, controls, steps, horizons, image options",
     "The test generates a handful of samples and checks shapes.",
     ["pybullet_data_generation.py", "worlds.py"],
     [("generate_sample, generate_rollout, generate_dataset",
       "pybullet_data_generation.py")])

prop("P31", "Piecewise-linear Lyapunov synthesis meets its constraints",
     "For every triangulated piecewise-affine problem, whenever the synthesis "
     "program reports zero cost the returned piecewise-affine function is "
     "continuous, zero at the origin, positive definite and decreasing in "
     "every cell.",
     ["inputs"],
     "all cell decompositions, dynamics, rates",
     "The only end-to-end test cannot run here and uses one system.",
     ["simple_pwl_lyapunov.py"],
     [("SimplePWLLyapunov", "simple_pwl_lyapunov.py")])

prop("P32", "Network construction, packing, saving and sampling round-trip",
     "Building a network from parameters and extracting them, updating "
     "parameters, saving and loading, and reading off the structure are "
     "mutual inverses for every architecture and dtype. Grid and random "
     "samplers return the requested number of points, all inside the "
     "requested region (on its boundary where that is asked), and small "
     "numerical helpers equal their mathematical definitions. Fitting a "
     "network does the documented gradient updates on exactly the training "
     "part of the data (additional variables included), and the simulation "
     "helpers apply the saturated control of the controller.",
     ["inputs", "configurations"],
     "all architectures, dtypes, parameter vectors, boxes, counts",
     NOGRB + "one architecture each.",
     ["utils.py", "train_utils.py"],
     [("setup_relu, update_relu_params, extract_relu_parameters, save/load",
       "utils.py"), ("get_meshgrid_samples, uniform_sample_*", "utils.py")])

prop("P33", "Training logs keep every loss once and in order",
     "For every history of additions, a training log holds exactly the "
     "training and the validation losses added to it, in order, and sends "
     "each recorded component (or the first one only, where that is asked) "
     "to its writer under its own name, numbered by the training losses so "
     "far. A copy starts with the same losses and settings, except for those "
     "that are asked for, and afterwards neither changes the other.",
     ["histories"],
     "all histories of additions, copies and new logs, loss dimensions and "
     "settings",
     "There is no test of this part.",
     ["training_log.py"], [("TrainingLog", "training_log.py")])


CHECK_META = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    NA = {}
    for p in P:
        i = p["id"]
        m = glob.glob(os.path.join(V, "checks", i.lower() + "_*.py"))
        if m:
            tech, note = "property-based testing (Hypothesis)", ""
            src = open(m[0]).read()
            for line in src.splitlines():
                if line.startswith("# TECHNIQUE:"):
                    tech = line[12:].strip()
                if line.startswith("# NOTE:"):
                    note += line[7:].strip() + " "
            checks.append(dict(
                property=i,
                quick_cmd=f"/opt/venv/bin/python /verif/run.py {i} "
                          "--tier quick",
                thorough_cmd=f"/opt/venv/bin/python /verif/run.py {i} "
                             "--tier thorough",
                evidence_file=f"evidence/{i}.json", technique=tech,
                level="exploration",
                level_note=note.strip() or
                "Generated-input search against an explicit oracle; shows "
                "presence of violations, not absence."))
        else:
            na.append(dict(property=i, reason=NA.get(
                i, "no check built yet (work in progress)")))
    man = dict(version=1,
               setup_cmd="/opt/venv/bin/python /verif/tools/setup.py",
               checks=checks, not_applicable=na,
               notes="Checks run the unmodified modules of /repo on top of "
                     "shim/gurobipy, a stand-in for the commercial solver "
                     "backed by HiGHS; see DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
