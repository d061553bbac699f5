OI = "openscenario/openscenario_interpreter/"
TS = "simulation/traffic_simulator/"
SS = "simulation/simple_sensor_simulator/"


def P(id, title, statement, over, for_all, tests, files, mechanism, observe, oracle="", **kw):
    d = dict(id=id, title=title, statement=statement, over=over, for_all=for_all, tests=tests, files=files, mechanism=mechanism, observe=observe, oracle=oracle)
    d.update(kw)
    return d


PROPS = [
    P("C01", "Enumerated attribute values: exactly the literals of the standard",
      "Reading an enumerated scenario attribute accepts exactly the OpenSCENARIO literals of its type: each literal yields its own value and is printed back unchanged. A literal that is part of the standard but not supported is reported as such, and any other text is rejected with an error that names the value; nothing is silently mapped to another value.",
      ["inputs"], "every byte string in place of the attribute value, for each of the enumerated types",
      "Tests cover a handful of literals of one type (priority); the space of texts is unbounded and 22 of the 23 enumerated types have no test.",
      [OI + "src/syntax/priority.cpp", OI + "src/syntax/rule.cpp", OI + "src/syntax/parameter_type.cpp", OI + "src/syntax/storyboard_element_state.cpp", OI + "src/syntax/coordinate_system.cpp"],
      [("reading of a literal", OI + "src/syntax/*.cpp, operator>>"), ("printing", OI + "src/syntax/*.cpp, operator<<")],
      "The value after reading and the text printed for it",
      "The literal tables of the OpenSCENARIO 1.x standard with the documented deviations, written down in the harness."),
    P("C02", "Number and boolean literals are read exactly or rejected",
      "A boolean, integer, unsigned or floating point literal is accepted exactly if the whole text is a value of its type within the type's range, and then denotes that value; anything else (trailing characters, out-of-range or negative unsigned values, empty text) is rejected with an error. Reading as an attribute and as a parameter value agree, and printing an accepted value and reading it back gives the same value.",
      ["inputs"], "every byte string in place of the literal",
      "Tests try about twenty floating point literals and no integer or boolean ones; overflow, sign and trailing-character handling depend on the whole text.",
      [OI + "src/syntax/boolean.cpp", OI + "src/syntax/integer.cpp", OI + "src/syntax/unsigned_integer.cpp", OI + "src/syntax/unsigned_short.cpp", OI + "src/syntax/double.cpp"],
      [("constructors from text and stream extraction", OI + "src/syntax/{boolean,integer,unsigned_integer,unsigned_short,double}.cpp")],
      "Value or error produced for the literal",
      "A reference recogniser of the literal grammar with exact integer / correctly rounded values."),
    P("C03", "Comparison rules compare what they say",
      "For every pair of comparable values each comparison rule (equal to, greater than, less than, at least, at most, not equal to) gives the mathematical result; equal-to and not-equal-to are exact opposites, as are less-than and at-least, and greater-than and at-most, infinities and identical values included. Comparisons of lists are element-wise.",
      ["inputs"], "every rule and every pair of doubles, integers, strings and lists of doubles",
      "No test exercises the rules; the result matters at single values (equal infinities, adjacent doubles) no sample hits.",
      [OI + "include/openscenario_interpreter/syntax/rule.hpp", OI + "include/openscenario_interpreter/functional/equal_to.hpp"],
      [("rule application", OI + "include/openscenario_interpreter/syntax/rule.hpp, Rule::operator()"), ("equality with tolerance", OI + "include/openscenario_interpreter/functional/equal_to.hpp")],
      "Boolean (or list of booleans) returned by the rule",
      "The relational operators of mathematics with the documented tolerance (one machine epsilon) for equality of floating point numbers."),
    P("C04", "Triggering entities: all, any and none quantify correctly",
      "A condition over a group of triggering entities holds under 'all' exactly if it holds for every entity, under 'any' exactly if it holds for at least one, under 'none' exactly if it holds for no entity, for groups of any size including the empty one. The result does not depend on the order of the entities.",
      ["inputs"], "every group size and every combination of per-entity results",
      "No test reaches it; all combinations matter.",
      [OI + "src/syntax/triggering_entities_rule.cpp", OI + "include/openscenario_interpreter/syntax/triggering_entities_rule.hpp"],
      [("quantification", OI + "include/openscenario_interpreter/syntax/triggering_entities_rule.hpp, apply")],
      "Boolean returned for the group",
      "Universal / existential quantification over the vector of per-entity results."),
    P("C05", "Cyclic definitions are detected, acyclic ones are not rejected",
      "The check for circular references reports a cycle exactly if, following references from the given element, some element is reached again through other elements (an element that merely refers to itself does not count); shared (diamond-shaped) references are not mistaken for cycles, and the check always terminates.",
      ["inputs"], "every reference graph and every start element",
      "No test exercises it; the number of graphs grows as 2^(n^2).",
      [OI + "include/openscenario_interpreter/utility/circular_check.hpp"],
      [("depth-first search", OI + "include/openscenario_interpreter/utility/circular_check.hpp, circular_check")],
      "Boolean returned by the check",
      "Transitive closure of the adjacency matrix computed by Warshall's algorithm in the harness (self references excluded, as the check documents)."),
    P("C06", "JUnit reports contain exactly the recorded results",
      "The written test report contains each recorded case exactly once, under its suite and name, with its failures and errors and their texts, and the numbers of tests, failures and errors and the total time equal what was recorded. Recording one case never changes another.",
      ["histories"], "every sequence of recorded passes, failures and errors over suites and cases",
      "The report library has no test at all; consistency must hold for every sequence of recordings.",
      ["common/simple_junit/include/simple_junit/junit5.hpp", "common/simple_junit/include/simple_junit/test_suites.hpp", "common/simple_junit/src/test_suites.cpp"],
      [("report tree", "common/simple_junit/include/simple_junit/junit5.hpp"), ("legacy report", "common/simple_junit/src/test_suites.cpp")],
      "The XML tree produced",
      "A list of the recorded results kept by the harness; the tree is compared with it node by node."),
    P("C07", "Jobs run until done, in order, and clean up exactly once",
      "Every registered job runs once per update of its kind of update point, in the order of registration, with the time elapsed since its first run, until it reports completion. A finished job, and a job replaced by a newer one of the same kind, never runs again and its clean-up happens exactly once, immediately.",
      ["histories"], "every sequence of registrations, updates, step times and completions",
      "One test runs a single job for a few steps; replacement, ordering and clean-up depend on the history.",
      [TS + "src/job/job.cpp", TS + "src/job/job_list.cpp", TS + "include/traffic_simulator/job/job.hpp", TS + "include/traffic_simulator/job/job_list.hpp"],
      [("job life cycle", TS + "src/job/job.cpp"), ("registration, replacement, update", TS + "src/job/job_list.cpp")],
      "The calls of the job's update and clean-up functions",
      "A table of jobs kept by the harness, updated by the rules of the statement."),
    P("C08", "A continuing contact counts as one collision",
      "Contact of the ego with a participant is reported as a new collision exactly if that participant was never in contact before or its last contact is more than the tolerated interval (0.5 s) ago; a continuing or repeated contact extends the interval, and contacts with different participants do not influence each other.",
      ["histories"], "every sequence of contacts with participants at non-decreasing times",
      "Seven tests use fixed sequences of at most three contacts; the result depends on the whole history.",
      ["test_runner/random_test_runner/include/random_test_runner/metrics/ego_collision_metric.hpp"],
      [("time of last contact per participant", "test_runner/random_test_runner/include/random_test_runner/metrics/ego_collision_metric.hpp")],
      "Boolean returned for each contact",
      "Last contact time per participant kept by the harness in exact arithmetic."),
    P("C09", "Grid traversal covers exactly the cells along the segment",
      "Walking the cells of a segment starts in the cell of its first point, moves one cell at a time to an adjacent cell in the direction of the second point, ends in the cell of the second point, and passes every cell the segment passes through: each point of the segment lies in a visited cell.",
      ["inputs"], "every segment",
      "Five tests walk fixed diagonal and axis-parallel segments from the origin; the start offset and each of the four directions select different code.",
      [SS + "src/sensor_simulation/occupancy_grid/grid_traversal.cpp", SS + "include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp"],
      [("step to the next cell boundary", SS + "src/sensor_simulation/occupancy_grid/grid_traversal.cpp")],
      "The sequence of cells visited",
      "The segment's parametric equation: an arbitrary point of it, chosen by the solver, must lie in a visited cell."),
    P("C10", "Line segments intersect exactly if they share a point",
      "Two line segments are reported as intersecting exactly if they have a point in common; the crossing point reported for two crossing segments lies on both, its s value is its relative position along the first segment, and the point at that s value is the crossing point again.",
      ["inputs"], "every pair of line segments of positive length",
      "Tests use a few fixed crossings around the origin; collinear, touching and far-away configurations and every direction matter.",
      ["common/math/geometry/src/intersection/intersection.cpp", "common/math/geometry/src/polygon/line_segment.cpp"],
      [("intersection test", "common/math/geometry/src/intersection/intersection.cpp"), ("crossing point and s value", "common/math/geometry/src/polygon/line_segment.cpp, getIntersection2D, get2DIntersectionSValue, getPoint")],
      "Result of the intersection test, crossing point, s value",
      "Orientation predicates in exact integer arithmetic; Cramer's rule in exact real arithmetic."),
    P("C11", "Triggers: edges, delays, groups of conditions",
      "A condition without an edge holds when its expression is true; a rising (falling, rising-or-falling) condition holds exactly at the evaluations where the expression changed from false to true (true to false, either way) since the previous evaluation, never at the first one; with a delay it holds exactly when it held that many seconds earlier and never before the delay has passed. A group of conditions holds if all of its conditions hold (never if it is empty), a trigger holds if one of its groups does, and every condition is evaluated at every evaluation of its trigger, so none of them misses a change.",
      ["histories"], "every history of expression values and evaluation times, every edge, delay and grouping",
      "No test evaluates a condition; edges and delays are functions of the whole history.",
      [OI + "src/syntax/condition.cpp", OI + "include/openscenario_interpreter/syntax/condition.hpp", OI + "src/syntax/condition_group.cpp", OI + "src/syntax/trigger.cpp"],
      [("edges and delays", OI + "src/syntax/condition.cpp, Condition::evaluate"), ("grouping", OI + "src/syntax/condition_group.cpp, " + OI + "src/syntax/trigger.cpp")],
      "Boolean returned at each evaluation; evaluations of each expression",
      "The edge and delay definitions of OpenSCENARIO over the recorded history; OR of ANDs."),
    P("C12", "Storyboard elements go through their life cycle in order",
      "Acts, maneuver groups, maneuvers, events and actions go only from standby to running (through the start transition) to complete or, for repeated elements, back to standby (through the end transition), and to complete through the stop transition. An event starts when its start trigger holds while it is in standby, runs all of its actions, ends when they have ended and never starts more often than its maximum execution count. An event starting with priority override (overwrite) stops the other running events of its maneuver and only those; with skip it is skipped while another event of its maneuver runs; with parallel it does not affect others. Parents complete exactly when their children have completed; a stopped parent stops its children, and nothing of a stopped element runs or starts afterwards.",
      ["histories"], "every history of trigger values and action completions, every priority and execution count",
      "No test runs a storyboard element; the state machines interact over many steps.",
      [OI + "include/openscenario_interpreter/syntax/storyboard_element.hpp", OI + "src/syntax/event.cpp", OI + "src/syntax/maneuver.cpp", OI + "src/syntax/maneuver_group.cpp", OI + "src/syntax/act.cpp", OI + "src/syntax/action.cpp"],
      [("state machine", OI + "include/openscenario_interpreter/syntax/storyboard_element.hpp"), ("priorities", OI + "src/syntax/maneuver.cpp"), ("actions", OI + "src/syntax/action.cpp, " + OI + "src/syntax/event.cpp")],
      "State and execution count of every element after every evaluation, start/run calls of every action",
      "A small model of the OpenSCENARIO life cycle stepped next to the real storyboard."),
    P("C13", "Names resolve to the nearest matching element, ambiguity is an error",
      "A name used in a scenario refers to the element of that name in the nearest enclosing scope that contains one, where elements without a name are transparent (their contents count as part of the surrounding scope, nearer levels first). A qualified name is resolved from the nearest scope in which its first part is visible, and an absolute name from the root; every part of a qualified name must match. A name that matches several elements at the same distance, or none, is rejected.",
      ["inputs"], "every tree of named and unnamed scopes, every placement of elements, every reference",
      "Tests cover splitting of a name into parts only.",
      [OI + "src/scope.cpp", OI + "include/openscenario_interpreter/scope.hpp", OI + "include/openscenario_interpreter/name.hpp"],
      [("lookup", OI + "include/openscenario_interpreter/scope.hpp, EnvironmentFrame::find"), ("prefix resolution", OI + "src/scope.cpp, EnvironmentFrame::resolvePrefix")],
      "The element (or error) returned for the reference",
      "Breadth-first search over the parent table of the scopes, written in the harness."),
    P("C14", "Vector arithmetic and tolerant number comparison",
      "Of two finite numbers exactly one is definitely less than, definitely greater than or approximately equal to the other; these relations agree with the order of the numbers and mirror each other, approximate (essential) equality means a distance of at most one rounding error of the larger (smaller) number, and a chain of numbers is definitely increasing exactly if each neighbouring pair is. Sum, difference, scaling, inner and cross product, norm and distance of vectors are the Euclidean ones; truncation keeps the direction and cuts the length to the limit only if it is exceeded; normalization gives a vector of length one of the same direction and rejects only the zero vector; the internal angle of two vectors is between 0 and pi and has the cosine given by their inner product, parallel vectors included.",
      ["inputs"], "every number (bit-precise) and every vector",
      "Tests use about two fixed vectors per function.",
      ["common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp", "common/math/geometry/include/geometry/vector3/operator.hpp", "common/math/geometry/include/geometry/vector3/truncate.hpp", "common/math/geometry/include/geometry/vector3/internal_angle.hpp"],
      [("comparison", "common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp"), ("vectors", "common/math/geometry/include/geometry/vector3/*.hpp")],
      "Returned numbers, vectors and truth values",
      "Euclidean identities in exact real arithmetic; IEEE order and distance bit by bit."),
    P("C15", "Rotations, poses and headings are consistent with each other",
      "The rotation matrix of a quaternion rotates as the quaternion does, the product of quaternions is the composition of the rotations and the relative rotation undoes it; normalization keeps the rotation. A transformed point is rotated, then moved. A relative pose applied to the first pose gives the second. Spherical interpolation starts at the first and ends at the second rotation and is half way at one half; the angle difference of two rotations is the angle of the rotation between them, from 0 to pi. Roll, pitch and yaw, the orientation made from a direction and the vector made from a speed and an orientation describe the same heading.",
      ["inputs"], "every rotation, position and angle",
      "Tests use a few fixed rotations around single axes.",
      ["common/math/geometry/src/transform.cpp", "common/math/geometry/include/geometry/quaternion/operator.hpp", "common/math/geometry/include/geometry/quaternion/slerp.hpp", "common/math/geometry/include/geometry/quaternion/get_rotation_matrix.hpp", "common/math/geometry/include/geometry/quaternion/get_angle_difference.hpp"],
      [("quaternions", "common/math/geometry/include/geometry/quaternion/*.hpp"), ("poses", "common/math/geometry/src/transform.cpp")],
      "Returned quaternions, matrices, points, poses and angles",
      "Vector form of the rotation by a quaternion, Hamilton's product and the addition formulas of sine and cosine, in exact real arithmetic."),
    P("C16", "The polynomial solver returns exactly the real roots within the range",
      "For linear, quadratic and cubic equations every value returned is a root of the equation within the requested range, and every real root within the range is returned, also for double and triple roots and when leading coefficients vanish; an equation without roots yields none, and only the zero polynomial, for which every value is a root, is rejected.",
      ["inputs"], "every polynomial within the stated families, every range",
      "Tests use a few polynomials with well separated roots; the branches depend on signs and magnitudes of combinations of the coefficients.",
      ["common/math/geometry/src/solver/polynomial_solver.cpp"],
      [("roots", "common/math/geometry/src/solver/polynomial_solver.cpp, solve*"), ("range", "common/math/geometry/src/solver/polynomial_solver.cpp, filterByRange")],
      "The values returned",
      "The roots the equation was built from, and Vieta's formulas for three real roots."),
    P("C17", "An element state condition holds while the element is in, or just entered, it",
      "A condition on the state of a storyboard element holds at an evaluation exactly if the element is in the given state (or transition) then, or has entered it since the previous evaluation of the condition; other elements do not matter, and it ceases to hold once the element has left the state.",
      ["histories"], "every history of state changes and evaluations",
      "No test evaluates the condition; whether it holds depends on what happened between two evaluations.",
      [OI + "src/syntax/storyboard_element_state_condition.cpp", OI + "include/openscenario_interpreter/syntax/storyboard_element.hpp"],
      [("evaluation and callback", OI + "src/syntax/storyboard_element_state_condition.cpp")],
      "Boolean returned at each evaluation",
      "Membership of the monitored state in the states since the previous evaluation."),
    P("C18", "Names, function calls and word lists are taken apart exactly",
      "A name is split at every double colon into its prefixes and last part, is absolute exactly if it begins with the separator, and is rejected exactly if a part of it still contains a colon; any text, also an empty one, can be given. A text is a function call exactly if it is a name, optionally followed by a parenthesised list of plain or quoted arguments, and the arguments are found one by one; a text is split into words at every single space character.",
      ["inputs"], "every text over the relevant characters within the length bound",
      "Tests split one or two well formed texts; separators at the ends, doubled or missing decide what happens.",
      [OI + "include/openscenario_interpreter/name.hpp", OI + "include/openscenario_interpreter/regex/function_call_expression.hpp", OI + "include/openscenario_interpreter/string/split.hpp"],
      [("names", OI + "include/openscenario_interpreter/name.hpp"), ("calls", OI + "include/openscenario_interpreter/regex/function_call_expression.hpp"), ("words", OI + "include/openscenario_interpreter/string/split.hpp")],
      "Parts, flags and errors for the text",
      "Character by character scanners written in the harness."),
    P("C19", "Expressions in attribute values have their arithmetic value",
      "An expression of parameters and literals evaluates to the value given by the usual precedence and associativity of its operators: integers stay integers except under division, functions round to the stated side, a square root is not rounded, booleans combine with and, or and not; logical operators on numbers and arithmetic on booleans, unknown parameters and texts that are not entirely an expression are rejected. An attribute given by an expression has its value.",
      ["inputs"], "every value of the parameters, every combination of operators within the bound",
      "No test evaluates an expression.",
      [OI + "src/evaluate.cpp", OI + "include/openscenario_interpreter/reader/attribute.hpp"],
      [("grammar and values", OI + "src/evaluate.cpp"), ("attributes", OI + "include/openscenario_interpreter/reader/attribute.hpp, readAttribute")],
      "Value (type and number) of the expression, text, errors",
      "The operators applied in the right order by the harness."),
    P("C20", "Attributes are read as literals, parameter references or substitutions",
      "The value of an attribute is its text after every substitution $(...) has been replaced, the last one first: $(var p) by the value of the parameter, $(dirname) by the scenario's directory, $(find-pkg-share p) and $(ros2 ...) by their results; a text $p stands for the value of the visible parameter p, any other text is a literal of the attribute's type. Unknown substitutions, unknown parameters, texts that are no literals of the type and absent required attributes are rejected; an absent attribute with a default has the default, a present one never.",
      ["inputs"], "every text within the bound",
      "Tests read a few literals.",
      [OI + "include/openscenario_interpreter/reader/attribute.hpp", OI + "src/reader/attribute.cpp"],
      [("reading", OI + "include/openscenario_interpreter/reader/attribute.hpp, readAttribute"), ("substitution", OI + "src/reader/attribute.cpp, substitute")],
      "Value read, or error",
      "A scanner for substitutions written in the harness."),
    P("C21", "Parameters keep their type and obey their constraints",
      "A declared parameter has the declared type and value; its declaration is accepted exactly if it has no constraint groups or the value satisfies every constraint of one of them, and refused if its name is reserved. Assigning a text to a parameter succeeds exactly if the text is a value of its type, changes this parameter only, and every scope sees the new value; a failed assignment changes nothing. Adding a number to a numeric parameter or multiplying it by one gives it the result, cut to a whole number for integer types, and changes no other; parameters that are not numeric or not declared cannot be modified. Comparing a parameter with a text under a rule has the result of comparing the values of its type.",
      ["inputs"], "every value of the parameters, every rule, the texts of the bound",
      "No test declares, assigns or compares a parameter.",
      [OI + "src/syntax/parameter_declaration.cpp", OI + "src/syntax/parameter_modify_action.cpp", OI + "src/syntax/parameter_add_value_rule.cpp", OI + "src/syntax/parameter_multiply_by_value_rule.cpp", OI + "src/syntax/parameter_set_action.cpp", OI + "src/syntax/parameter_condition.cpp", OI + "src/syntax/value_constraint_group.cpp", OI + "src/syntax/value_constraint.cpp"],
      [("declaration", OI + "src/syntax/parameter_declaration.cpp"), ("assignment", OI + "src/syntax/parameter_set_action.cpp"), ("comparison", OI + "src/syntax/parameter_condition.cpp"), ("constraints", OI + "src/syntax/value_constraint_group.cpp, " + OI + "src/syntax/value_constraint.cpp")],
      "Types, values, results of comparisons, errors",
      "The relations of the types applied by the harness."),
    P("C22", "Children of an element are read with their cardinalities",
      "Reading the children of a name with a minimum and a maximum is refused, without reading anything, exactly if there are fewer or more of them; otherwise each is read exactly once and in document order. A choice is refused, without calling anything, exactly unless one of its alternatives is present, and then that one is read. A required element that is absent is refused; an optional one that is absent has its default, and a present one never has.",
      ["inputs"], "every sequence of children within the bound, every listed cardinality",
      "Tests read the fixed scenarios of the repository.",
      [OI + "include/openscenario_interpreter/reader/element.hpp", OI + "src/reader/element.cpp", OI + "include/openscenario_interpreter/iterator/size.hpp"],
      [("cardinalities", OI + "include/openscenario_interpreter/reader/element.hpp, traverse"), ("choice", OI + "src/reader/element.cpp, choice")],
      "Children visited, or error",
      "Counts of the names written by the harness."),
    P("C23", "Conversions between ROS messages and protocol buffers keep every field",
      "Converting a ROS message of the simulation interface into its protocol buffer, or back, gives every field of the target the value of the source's field of the same name, bit by bit and whatever the target held before: points, poses, twists, bounding boxes, entity parameters and statuses, times, headers, control and gear commands, polyline trajectories (vertices in order). Enumerated values are converted and printed by name; unknown entity types and subtypes are refused. Traffic light bulbs keep colour, shape, status and confidence (unsupported ones become unknown). Endpoints are written protocol://host:port.",
      ["inputs"], "every value of every numeric field, every enumerated value",
      "Tests convert one or two values per message.",
      ["simulation/simulation_interface/src/conversions.cpp", "simulation/simulation_interface/include/simulation_interface/conversions.hpp", "simulation/simulation_interface/src/operators.cpp", "simulation/simulation_interface/src/constants.cpp"],
      [("conversion", "simulation/simulation_interface/src/conversions.cpp, toProto and toMsg"), ("printing", "simulation/simulation_interface/src/operators.cpp"), ("endpoints", "simulation/simulation_interface/src/constants.cpp")],
      "Fields of the target",
      "Lists of the corresponding fields, by name, in the harness."),
    P("C24", "Status monitor and execution timer report what happened",
      "The status monitor's report contains every thread that touched it once, under its name, with the time since its last touch and its least and greatest interval between touches; a thread is reported bad exactly if it has not exited and has not touched it for the threshold, and the process is good exactly if no thread is bad. A temporary threshold holds during the given work only, also if that throws. The reports go on until the last monitor is destroyed, which ends them under every interleaving with the reporting thread, and never deadlocks. The execution timer runs what it measures exactly once, returns its duration, and reports the number, minimum, maximum and mean of the durations of each name, in seconds when saved.",
      ["inputs", "histories", "schedules"], "every reading of the clock, history and schedule within the bound",
      "Tests depend on the real clock and sample a few durations.",
      ["common/status_monitor/include/status_monitor/status_monitor.hpp", "common/status_monitor/src/status_monitor.cpp", OI + "include/openscenario_interpreter/utility/execution_timer.hpp"],
      [("touch", "common/status_monitor/include/status_monitor/status_monitor.hpp, touch"), ("report", "common/status_monitor/src/status_monitor.cpp, write"), ("temporary threshold", "common/status_monitor/include/status_monitor/status_monitor.hpp, overrideThreshold"), ("timer", OI + "include/openscenario_interpreter/utility/execution_timer.hpp")],
      "The JSON written",
      "A record of the touches and durations kept by the harness."),
    P("C25", "The concealer's task queue runs tasks once, in order, and reports failures",
      "Under every interleaving of the thread that queues tasks and the dispatcher thread: tasks run on the dispatcher, one at a time, each at most once and in the order they were queued; the queue is seen empty only when every task queued so far has completed; after a task throws no further task runs, and the next use of the queue (delay, rethrow) throws that exception and queues nothing; destroying the queue waits for the running task, ends the thread and never deadlocks.",
      ["schedules", "inputs"], "every schedule within the bound on preemptions, every task that may fail",
      "No test covers the queue; a test samples a few schedules.",
      ["external/concealer/src/task_queue.cpp", "external/concealer/include/concealer/task_queue.hpp"],
      [("dispatcher", "external/concealer/src/task_queue.cpp, TaskQueue::TaskQueue"), ("queueing", "external/concealer/include/concealer/task_queue.hpp, delay")],
      "Order of the tasks, exceptions, empty()",
      "A log of the tasks queued, begun and ended."),
    P("C26", "Programs are launched with exactly the given arguments and awaited",
      "A launched program is executed with exactly the given list of arguments, in order and unchanged; a command given as a text is cut at its white space, and ros2_launch runs the installed ros2 with the package, the file and the parameters. Only the new process executes the program; if it cannot, that process ends with a failure. Failure to start a process is reported to the caller. fork_exec returns the process once it has exited or been killed, neither earlier nor later, however often it is stopped. The output of a command is returned completely, whatever its length, and its pipe is closed.",
      ["inputs", "fault_sequences"], "every argument, text, sequence of process states and output within the bound, every failure of the system calls",
      "Tests launch one program that exists.",
      ["external/concealer/src/execute.cpp", "external/concealer/include/concealer/launch.hpp", OI + "src/posix/fork_exec.cpp", OI + "include/openscenario_interpreter/string/split.hpp"],
      [("arguments and output", "external/concealer/src/execute.cpp"), ("ros2 launch", "external/concealer/include/concealer/launch.hpp"), ("waiting", OI + "src/posix/fork_exec.cpp")],
      "The calls of the operating system with their arguments, results and errors",
      "The list of arguments; the states the harness gives the process; the output of the stand-in."),
    P("C27", "Autoware is asked only for what it is ready for, failures are reported",
      "The state of Autoware is that of its localization, route and operation mode, in this order. The initial pose is sent once and only before or during localization, a route only when Autoware waits for one, engaging only when it waits for that; each task waits until Autoware has done it, an earlier state is waited out, and what Autoware cannot do in its state is refused. All requests carry what was given. Waiting ends with an error exactly when the time for initialization is over, which has no end after engaging; it is engaged exactly while Autoware drives and all tasks are done. A request is repeated until it is answered with success or the attempts are used up, which is an error. A cooperate command answers the first fitting request that was not answered yet; unknown modules, commands and states are refused.",
      ["inputs", "schedules", "fault_sequences"], "every state, schedule of state changes, sequence of answers and set of cooperation requests within the bounds",
      "No test talks to Autoware.",
      ["external/concealer/include/concealer/field_operator_application.hpp", "external/concealer/src/field_operator_application.cpp", "external/concealer/include/concealer/legacy_autoware_state.hpp", "external/concealer/include/concealer/service.hpp", "external/concealer/include/concealer/subscriber.hpp"],
      [("tasks", "external/concealer/src/field_operator_application.cpp"), ("state", "external/concealer/include/concealer/legacy_autoware_state.hpp"), ("requests", "external/concealer/include/concealer/service.hpp")],
      "Requests with their contents and Autoware's state at that time, errors, results",
      "Autoware's documentation of the states; the schedule of the harness."),
    P("C28", "Autoware's process is supervised and always ended",
      "While Autoware's process runs, each update passes on to Autoware's callbacks and nothing is thrown; once it has exited or been killed, the next update reports that with the code or signal, exactly once, and no later signal is sent to a process that is gone. Ending the simulation interrupts it first, waits for the configured time, and kills its whole group exactly if it has not ended by then; its end is awaited so that nothing is left behind, and a process that the simulator did not start or that is over is never signalled or awaited.",
      ["inputs", "fault_sequences", "histories"], "every sequence of process states and of failures of the system calls within the bound",
      "No test starts Autoware.",
      ["external/concealer/src/field_operator_application.cpp", "external/concealer/include/concealer/field_operator_application.hpp"],
      [("supervision", "external/concealer/src/field_operator_application.cpp, spinSome"), ("ending", "external/concealer/src/field_operator_application.cpp, destructor")],
      "The calls of the operating system with their arguments and results, exceptions",
      "The state the harness gives the process."),
    P("C29", "The vehicle interface reports commands and state unchanged, except noise",
      "What the vehicle interface publishes is the vehicle's current acceleration, pose and twist and the last commands of Autoware, on the topics for the chosen kind of localization, with the current time and the right frames; commands are handed to the simulation unchanged, with the sign of their gear. The control mode is autonomous until it is set to manual and only becomes autonomous again on request; other requests are refused. The route is that of the last path, in the message of the configured architecture; unknown architectures are refused. Failures of the thread that handles messages are reported as they are, and it always ends. Noise: each value gets the error configured for it and no other, in the vehicle's frame for positions; below the speed threshold, without errors or when switched off nothing changes; the same seed gives the same noise; seeds out of range are refused.",
      ["inputs", "configurations"], "every state, command, request, path and configuration of the noise within the bounds",
      "No test covers the vehicle interface; the tests of the noise sample one configuration.",
      ["external/concealer/src/autoware_universe.cpp", "external/concealer/include/concealer/autoware_universe.hpp", "external/concealer/src/publisher.cpp", "external/concealer/include/concealer/publisher.hpp", "external/concealer/include/concealer/subscriber.hpp", "external/concealer/src/path_with_lane_id.cpp", "external/concealer/include/concealer/continuous_transform_broadcaster.hpp"],
      [("reports", "external/concealer/src/autoware_universe.cpp"), ("noise", "external/concealer/src/publisher.cpp"), ("paths", "external/concealer/src/path_with_lane_id.cpp")],
      "The messages published, the values returned, exceptions",
      "The state and commands given by the harness."),
    P("C30", "Vehicle models respect their limits, gears and delays",
      "In every step of the models of the ego vehicle, from any state within the limits and for any command: speed and steering stay within their limits and change within their rates, acceleration, speed and steering move towards the command without passing it, within the dead band the steering rests. Geared models move only as their gear allows: what it does not allow stops them where they are, anything else is as without gears. Without fall guard, pedal, gear and slope accelerate the vehicle as documented and a brake stronger than the slope holds it. Ideal models take commands at once. A delayed command takes effect exactly after its delay. The vehicle moves at its speed in its direction, turns with its steering, and straight stays straight.",
      ["inputs"], "every state, command, gear and slope within the limits, for several sets of limits",
      "No test runs the models.",
      ["simulation/simple_sensor_simulator/src/vehicle_simulation/vehicle_model/" + n for n in ["sim_model_interface.cpp", "sim_model_delay_steer_acc.cpp", "sim_model_delay_steer_acc_geared.cpp", "sim_model_delay_steer_acc_geared_wo_fall_guard.cpp", "sim_model_delay_steer_vel.cpp", "sim_model_ideal_steer_acc.cpp", "sim_model_ideal_steer_acc_geared.cpp", "sim_model_ideal_steer_vel.cpp"]],
      [("integration", "simulation/simple_sensor_simulator/src/vehicle_simulation/vehicle_model/sim_model_interface.cpp"), ("limits", "simulation/simple_sensor_simulator/src/vehicle_simulation/vehicle_model/sim_model_delay_steer_acc.cpp, calcModel"), ("gears", "simulation/simple_sensor_simulator/src/vehicle_simulation/vehicle_model/sim_model_delay_steer_acc_geared.cpp, updateStateWithGear")],
      "The getters of the model after each step",
      "Bounds computed from the state, command and limits; models compared with each other."),
    P("C31", "Traffic signal controllers run their phases in cycles",
      "A controller begins with its first phase at once, or, if it refers to another one, after the given delay from every beginning of that one's first phase; each phase ends at the first evaluation when it has lasted its duration, is followed by the next one and the last by the first, and without duration lasts until changed; an action changes the phase at once. At every moment the lights show exactly the states of the current phases, each in its channel: changing the phase clears what the previous one set and nothing else. The states predicted for networked lights are those of the next phases that have a known time, at that time. Conditions tell the current phase, also while there is none. Controllers with different cycle times, unknown phases, malformed targets and states 'unknown' of real lights are refused.",
      ["histories", "inputs"], "every sequence of times, durations, changes of phase and kinds of signals within the bound",
      "No test runs a controller.",
      [OI + "src/syntax/traffic_signal_controller.cpp", OI + "src/syntax/traffic_signals.cpp", OI + "src/syntax/phase.cpp", OI + "src/syntax/traffic_signal_state.cpp", OI + "src/syntax/traffic_signal_controller_action.cpp", OI + "src/syntax/traffic_signal_controller_condition.cpp", OI + "src/syntax/traffic_signal_state_action.cpp", OI + "include/openscenario_interpreter/iterator/circular_iterator.hpp"],
      [("phases", OI + "src/syntax/traffic_signal_controller.cpp"), ("references", OI + "src/syntax/traffic_signals.cpp"), ("channels", OI + "src/syntax/traffic_signal_state.cpp")],
      "What the stand-ins of the lights show, predictions, results of conditions, errors",
      "A model of phases and times in the harness."),
    P("C32", "Conditions on entities compare the state of the triggering entities",
      "A speed, relative speed, acceleration, standstill, time headway or collision condition holds exactly if, for all or any of its triggering entities as its rule says, the quantity it names, of that entity and now, compares with the given value as the comparison rule says. The quantity is the one asked for: the component in the given direction or, without one, the longitudinal speed (legacy) or total speed (standard); the velocity relative to and as seen by the referenced entity; the time needed to reach where the referenced entity ahead is. An entity selection stands for all of its members, by name or type, and satisfies a condition if every member does, so an empty one always does. An entity that does not take part in the simulation has no speed: it satisfies no comparison with one other than 'notEqualTo'.",
      ["inputs", "histories"], "all states of the entities, all groups of triggering entities, rules and directions",
      "No unit test evaluates a condition on an entity; scenarios run end to end need ROS and sample one history each.",
      [OI + "src/syntax/" + n for n in ["speed_condition.cpp", "relative_speed_condition.cpp", "acceleration_condition.cpp", "stand_still_condition.cpp", "time_headway_condition.cpp", "collision_condition.cpp", "entity.cpp", "entity_selection.cpp", "selected_entities.cpp", "entities.cpp", "by_object_type.cpp", "triggering_entities.cpp"]] + [OI + "include/openscenario_interpreter/simulator_core.hpp"],
      [("comparison", OI + "src/syntax/speed_condition.cpp"), ("selections", OI + "src/syntax/entity_selection.cpp"), ("quantities", OI + "include/openscenario_interpreter/simulator_core.hpp, ConditionEvaluation")],
      "Results of the conditions' evaluate()",
      "A direct evaluation of the definition: members of each group, all of a selection's, any or all over the groups."),
    P("C33", "Distances, times to collision and clearances are measured as specified",
      "Distance, relative distance and reach position conditions measure the distance from the triggering entity to the position or entity in the coordinate system, dimension, with the routing (lane changes exactly with 'shortest') and with or without the bounding boxes asked for, and refuse the combinations documented as unsupported; positions in the world, on a lane or relative to an object denote the same place. The altitude counts exactly if the road slope is considered. Distances between entities in the entity coordinate system and along shortest routes are not negative. The time to collision is the distance divided by the speed of approach, and infinite (never minus infinite) without approach. A relative clearance condition holds for a triggering entity exactly if none of the entities to consider (the given ones and members of given selections, or all others in the simulation that are not triggering entities) is both within the longitudinal range, ahead and behind as the entity heads, and in one of the given lanes relative to it. An entity that is not there has no distance: no rule but 'notEqualTo' holds for it.",
      ["inputs"], "all poses, boxes and lane positions of entities, combinations of attributes and ranges",
      "No unit test evaluates these conditions; every combination of attributes and kind of position is a specialisation of its own.",
      [OI + "src/syntax/" + n for n in ["relative_distance_condition.cpp", "distance_condition.cpp", "reach_position_condition.cpp", "relative_clearance_condition.cpp", "relative_lane_range.cpp", "world_position.cpp", "lane_position.cpp", "relative_object_position.cpp", "position.cpp"]] + [OI + "include/openscenario_interpreter/syntax/time_to_collision_condition.hpp", OI + "include/openscenario_interpreter/simulator_core.hpp"],
      [("distances", OI + "src/syntax/relative_distance_condition.cpp"), ("positions", OI + "src/syntax/distance_condition.cpp"), ("clearance", OI + "src/syntax/relative_clearance_condition.cpp")],
      "Results of the conditions' evaluate() and the distances they record",
      "Closed-form distances in the geometry of the stand-in map, which reveals who is measured from whom and how; sets of entities for the clearance."),
]

NOT_APPLICABLE = [
]
