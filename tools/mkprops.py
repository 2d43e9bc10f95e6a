"""Writes properties.jsonl (single source of the property texts)."""
import json, pathlib
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/calliope/"+f for f in files],state=state or [],
        mechanism=[dict(name=n,where="src/calliope/"+w) for n,w in mech],
        observe_at=observe or [],hook_needed=None)))

p("C01","Definition layers merge with a fixed precedence",
 "For every model definition, the effective value of each configuration, node, technology and data entry is decided leaf by leaf in the order: initialisation keyword > override dictionary > scenario overrides > the definition's own data > templates (nearest template first), and sibling entries that a higher layer does not mention survive unchanged. Scenarios expand recursively to the union of their overrides, whatever the order or nesting in which they are named. Two overrides of one scenario setting the same leaf, unknown overrides, circular templates and misplaced templates are rejected instead of being resolved silently.",
 ["inputs","configurations"],"all model definitions with any nesting of templates, overrides, scenarios, override dictionaries and keyword arguments",
 "Tests check a handful of hand-written layer combinations; precedence must hold for every nesting and every combination of layers, including empty/None values and multi-level template chains.",
 ["preprocess/model_definition.py","attrdict.py"],[("scenario expansion and override union","preprocess/model_definition.py"),("template resolution","preprocess/model_definition.py"),("nested union","attrdict.py")],["calliope.read_dict(...).config / .definition"])
p("C02","Nested dictionaries obey dot-key mapping laws",
 "The nested dictionary type used for all definitions behaves like a plain nested mapping addressed by dotted keys: reading returns what was last written, deleting removes exactly that entry, flattening and re-nesting are inverse, and copies are independent. Merging two dictionaries yields the right-biased leaf-wise merge, raises on any doubly defined leaf when overriding is disallowed, and replaces a whole branch only where the replacement marker asks for it. Merging never modifies the dictionary merged in.",
 ["inputs","histories"],"all nested dictionaries and all sequences of set/get/delete/merge/copy operations on them",
 "Unit tests walk a few fixed dictionaries; the laws are over all operation histories and shapes (None values, empty branches, scalars overwritten by branches and vice versa).",
 ["attrdict.py"],[("dot-key access and union","attrdict.py")],["calliope.AttrDict"])
p("C03","YAML text loads the same however it is split or re-saved",
 "Splitting a model definition over any tree of imported YAML files gives the same definition as one file, with an importing file taking precedence over what it imports when overriding is allowed and doubly defined entries rejected when it is not. Writing any definition to YAML and reading it back yields an equal definition. Duplicate keys within one file are never silently dropped.",
 ["inputs"],"all definitions and all ways of partitioning them over files and directories",
 "Tests use one import fixture; relative paths, nested imports, conflicts and value types combine in ways a fixture cannot sample.",
 ["io.py","attrdict.py"],[("import resolution","io.py"),("YAML dump with type conversion","io.py")],["calliope.io.read_rich_yaml","calliope.io.to_yaml"])
p("C04","Saving and reloading a model loses nothing",
 "A model saved to NetCDF and read back has identical inputs, results, configuration, definition, math and runtime attributes, and rebuilding and re-solving it gives the same optimum as the original. CSV export contains exactly the non-missing values of every array. Saving leaves the in-memory model unchanged and usable.",
 ["inputs","histories"],"all models, at any point of their life (initialised, built, solved, infeasible), in any mode",
 "Tests round-trip a couple of example models; attribute types, missing values, empty arrays, string/bool/datetime dtypes and unsolved models are only sampled.",
 ["io.py","model.py","schemas/runtime_attrs_schema.py"],[("attribute serialisation","io.py"),("CSV export","io.py"),("model reconstruction","model.py")],["Model.to_netcdf","calliope.read_netcdf","Model.to_csv"])
p("C05","Tabular data means the same as the equivalent YAML",
 "Input data given through data tables produce the same model inputs as the same values written in YAML, however the table is laid out (any assignment of dimensions to rows, columns or added constants, any selection, dropping or renaming, from file or from memory). Data in later tables override earlier ones cell by cell, and values given in YAML override tables. Ambiguous or malformed tables (duplicate entries, missing parameter names, protected names) are rejected.",
 ["inputs","configurations"],"all tables, layouts and combinations of tables and YAML",
 "Tests cover a few layouts one at a time; equivalence is over the product of layouts, selections, renames, sources and precedence.",
 ["preprocess/data_tables.py","preprocess/model_data.py","schemas/data_table_schema.py"],[("table tidying","preprocess/data_tables.py"),("merging with YAML","preprocess/model_data.py")],["Model.inputs"])
p("C06","Model inputs hold exactly the active technologies and values defined",
 "After initialisation, the inputs contain exactly the nodes, technologies, carriers and node-technology-carrier combinations that the definition activates, and each parameter at each of them equals the node-specific value if given, otherwise the technology-wide value, otherwise it is missing. Deactivated nodes, technologies and links, and technologies not placed at a node, leave no trace. Indexed data land on exactly the index entries they name.",
 ["inputs","configurations"],"all definitions of nodes, technologies, node-level overrides, indexed parameters and active switches",
 "Tests examine a few parameters of one test model; correctness is per node x technology x index for every definition.",
 ["preprocess/model_data.py","schemas/model_def_schema.py","schemas/dimension_data_schema.py"],[("technology inheritance at nodes","preprocess/model_data.py"),("definition matrix","preprocess/model_data.py"),("indexed parameter expansion","preprocess/model_data.py")],["Model.inputs"])
p("C07","Transmission links connect exactly their two end nodes",
 "Every active link exists at exactly its two end nodes and nowhere else, a one-way link can only send from its start and receive at its end, and links with an inactive, removed or undefined end node disappear. Link distances are the given ones or, where absent, the geodesic distance between the end nodes' coordinates in the configured unit. In solutions, what arrives equals what was sent times the link efficiency, and both ends have the same capacity.",
 ["inputs","configurations"],"all link topologies, one-way flags, coordinates, distance units and node subsets",
 "Tests use one or two links; endpoint symmetry, dropped links and distance units must hold for all topologies.",
 ["preprocess/model_data.py","math/base.yaml"],[("link expansion to both ends","preprocess/model_data.py"),("distance from coordinates","preprocess/model_data.py"),("transmission balance","math/base.yaml")],["Model.inputs","Model.results"])
p("C08","Subsetting and resampling preserve the meaning of time series",
 "Selecting a sub-range of any dimension keeps exactly the members in the (inclusive) range or list, with values unchanged. Resampling the time axis aggregates every parameter with its declared method (sum, mean or first) over the original steps each new step covers, and total modelled hours are unchanged where the new step length divides the period. Time-step durations always equal the spacing of the resulting time axis.",
 ["inputs","configurations"],"all time axes, resolutions, ranges, members and parameters with any declared resampling method",
 "Tests check a few frequencies on one dataset; the law is per parameter, per dtype, per frequency including irregular ends and combined subset and resample.",
 ["preprocess/time.py","preprocess/model_data.py"],[("subset and resample","preprocess/time.py"),("cleaning step order","preprocess/model_data.py")],["Model.inputs"])
p("C09","Time clustering keeps representative days and weights consistent",
 "When days are clustered to representative days, the time axis keeps exactly the time steps of the representative days with their values unchanged, each representative day's weight is the number of days mapped to it, and weighted durations add up to the original period. The lookups from days to clusters, time steps to clusters and clusters to last time steps describe the given mapping exactly. With inter-cluster storage, stored energy reconstructed over all original days never leaves the range between zero and storage capacity and obeys the day-to-day balance.",
 ["inputs","configurations"],"all day-to-representative-day mappings and resolutions",
 "Tests use one fixed clustering file; consistency is over all mappings, including unordered, single-cluster and identity mappings.",
 ["preprocess/time.py","math/storage_inter_cluster.yaml","math/base.yaml"],[("clustering","preprocess/time.py"),("inter-cluster storage math","math/storage_inter_cluster.yaml")],["Model.inputs","Model.results"])
p("C10","Conditions select exactly the cells their logic describes",
 "A math component exists at an index exactly when the index is in the model's defined combinations for its dimensions and its condition is true there under the documented rules: a bare parameter means 'defined and finite (or true)', comparisons use parameter defaults for missing values, set membership, configuration options, NOT binding tighter than AND/OR, and the documented condition helper functions. Missing data never makes a comparison true by accident. Strings outside the grammar are rejected with an error.",
 ["inputs","programs"],"all condition strings over all input data and dimension combinations",
 "Tests evaluate a fixed list of strings on one dataset; the space of strings x data x broadcasting is unbounded.",
 ["backend/where_parser.py","backend/parsing.py","backend/helper_functions.py"],[("condition grammar and evaluation","backend/where_parser.py"),("top-level mask construction","backend/parsing.py")],["components of Model.backend"])
p("C11","Math expressions evaluate to their mathematical meaning",
 "Every expression accepted by the math grammar evaluates, at every index, to the value given by ordinary arithmetic with the documented precedence and associativity, index alignment by dimension, parameter defaults for missing data, slicing by named index values or lookups, and substitution of sub-expressions. A component with several conditional equations, sub-expressions and slices takes at each index the one combination whose conditions hold, stays undefined where none holds, and is rejected where two hold. Strings outside the grammar are rejected with an error.",
 ["inputs","programs"],"all expressions, conditional equation lists, sub-expressions and slices, over all data",
 "Tests evaluate fixed strings; precedence, broadcasting and the combinatorial expansion of conditions must hold for all.",
 ["backend/expression_parser.py","backend/parsing.py","backend/backend_model.py"],[("expression grammar and evaluation","backend/expression_parser.py"),("equation expansion","backend/parsing.py"),("equation assembly with overlap check","backend/backend_model.py")],["Model.backend.get_global_expression / get_constraint"])
p("C12","Math helper functions compute what they document",
 "Each helper function (sums, grouped sums, grouped dates, rolling by index, rolling windows, value at index, selection through lookup arrays, conditional masking, carrier reduction, any-over-dimension, membership tests) equals its element-by-element definition at every index, for parameters and for decision variables, including missing entries. Rolling wraps around the dimension, windows do not; sums of nothing stay undefined.",
 ["inputs","programs"],"all helper calls with any argument nesting, window lengths, shifts, groupings and missing data",
 "Tests check single calls on a small array; shapes, missing data and composition with other operators are unbounded.",
 ["backend/helper_functions.py"],[("helper functions","backend/helper_functions.py")],["Model.backend.get_global_expression"])
p("C13","Every reported solution is physically and financially consistent",
 "Whenever a plan-mode solve reports optimality, the reported values satisfy, at every node, technology, carrier and time step: carrier balance, conversion efficiencies, capacity and resource limits, storage dynamics with losses, initial and cyclic conditions, ramping, area and export limits, and systemwide limits. Reported costs equal investment, annualisation, fixed and variable cost rules applied to the reported capacities and flows, and the objective equals their weighted sum plus penalties.",
 ["inputs"],"all solvable models over all combinations of technology types, parameters and time-step durations",
 "Tests compare generated constraints of a few overrides with stored text and never recompute physics for arbitrary parameter combinations.",
 ["math/base.yaml","backend/backend_model.py","backend/pyomo_backend_model.py","model.py"],[("base math","math/base.yaml"),("problem construction","backend/pyomo_backend_model.py")],["Model.results"])
p("C14","The optimum equals that of the documented optimisation problem",
 "For every model, the solve status and optimal objective value equal those of the linear program that the documented base math describes for the given data: no feasible plan is excluded, no infeasible plan is admitted and no cheaper plan is missed. With feasibility slack requested, unmet demand and unused supply are penalised exactly as documented.",
 ["inputs"],"all models over all combinations of technology types, parameters and defaults",
 "Existing tests fix a few objective values of example models; equality with the documented problem must hold for every combination of parameters.",
 ["math/base.yaml","backend/backend_model.py","backend/pyomo_backend_model.py","backend/parsing.py"],[("base math","math/base.yaml"),("problem construction and solve","backend/pyomo_backend_model.py")],["Model.results","objective value"])
p("C15","Integer and binary technology choices are honoured",
 "With the integer math enabled, purchased and operating units are integers within their limits, capacities equal units times unit size or are zero when nothing is purchased, fixed purchase costs are charged per unit, minimum loads apply only to operating units, and asynchronous technologies never have inflow and outflow in the same step. The optimum equals that of the documented mixed-integer problem.",
 ["inputs"],"all models with any mix of integer and continuous technologies",
 "Tests compare individual constraint strings; interaction of the unit variables with base math must hold for all mixes.",
 ["math/milp.yaml","math/base.yaml"],[("integer math layer","math/milp.yaml")],["Model.results"])
p("C16","Updating a built problem equals rebuilding it",
 "After any sequence of input updates, bound updates, variable fixing and unfixing, objective switches and component additions or deletions on a built model, the optimisation problem is the same as one built from scratch with the final data: same components, same defined indices, same coefficients and bounds, same optimum. Invalid updates are refused without altering the problem.",
 ["histories","inputs"],"all histories of update operations on all models, including values that appear, disappear or gain dimensions",
 "Tests apply one update to one parameter; equivalence is over histories and dependency chains between components.",
 ["backend/backend_model.py","backend/pyomo_backend_model.py"],[("in-place and rebuild updates with dependency tracking","backend/backend_model.py"),("mutable parameters, bounds, fixing","backend/pyomo_backend_model.py")],["Model.backend"])
p("C17","Rolling-horizon dispatch is seamless",
 "Operate mode covers every time step of the model exactly once, in order, with the results of the window that starts there, keeps all capacities at their given values, and hands each storage level from the end of one window to the start of the next. Each window's dispatch is optimal for its horizon given that hand-over, and when the first horizon covers the whole period the outcome equals dispatching it at once. Solving again repeats the same run.",
 ["inputs","configurations","histories"],"all window and horizon lengths, series lengths (including incomplete last windows) and storage states",
 "Tests run one window/horizon pair on one model; stitching errors appear only for particular remainders and states.",
 ["model.py","math/operate.yaml","backend/backend_model.py"],[("window loop and storage hand-over","model.py"),("operate math","math/operate.yaml")],["Model.results"])
p("C18","Near-optimal alternatives respect the cost budget and scoring",
 "In SPORES mode the baseline equals the least-cost solution, every alternative's cost is at most the slack above it, and each alternative minimises the score-weighted capacity where the scores follow the selected scoring algorithm from all previous alternatives. Exactly the requested number of alternatives is produced in order, and continuing from saved or latest results gives the same continuation as an uninterrupted run.",
 ["inputs","configurations","histories"],"all models, slack values, scoring algorithms, thresholds, tracked subsets and interruption points",
 "Tests run fixed examples with mocked or single settings; budget and score recurrences must hold across settings and restarts.",
 ["model.py","math/spores.yaml"],[("SPORES loop and scoring","model.py"),("budget constraint and objective","math/spores.yaml")],["Model.results"])
p("C19","The model life cycle admits only meaningful steps",
 "Whatever sequence of initialise, build, solve, re-build, re-solve, save and configure calls is made, a model is solved only after being built, is never rebuilt or re-solved without being forced, options passed to a step take effect for it and are recorded, and results always belong to the latest successful solve. Configuration objects never change in place, unknown or ill-typed options are rejected, and the caller's own dictionaries and tables are never modified.",
 ["histories","configurations"],"all sequences of life-cycle calls with any options",
 "Tests check individual transitions; guarantees are over all call histories.",
 ["model.py","schemas/general.py","schemas/config_schema.py"],[("build/solve guards","model.py"),("immutable configuration update","schemas/general.py")],["Model","Model.config"])
p("C20","Math layers combine predictably and inactive math has no effect",
 "The math applied is the base math overridden entry by entry by the mode's math and then by each extra math in the order listed, with everything not mentioned left as it was. A deactivated component is built nowhere and no other component changes because of it unless it refers to it; the order of component definitions does not matter beyond their declared ordering. Math that cannot be parsed or is incomplete is rejected before solving.",
 ["configurations","programs"],"all stacks of math layers and all activation patterns",
 "Tests check one or two layers; precedence must hold for all stacks and components.",
 ["preprocess/model_math.py","schemas/math_schema.py","backend/backend_model.py"],[("math layering and validation","preprocess/model_math.py"),("component ordering and activation","backend/backend_model.py")],["Model.math","Model.backend"])
p("C21","Contradictory or incomplete inputs are refused with an error",
 "A definition that violates a documented input rule (missing base technology, unknown keys or options, negative investment cost without a capacity limit, infinite fixed demand, storage fraction outside 0-1, coordinates for only some nodes, distances on non-links, exports that are not outputs, clustering with cyclic storage but no inter-cluster math, and so on) is rejected before solving, wherever in the model the violation sits. Definitions that satisfy all rules are never refused, and rules documented as warnings only warn.",
 ["inputs","configurations"],"all definitions with a rule violated at any node, technology, carrier or cost class, and all valid definitions",
 "Tests trigger each rule once at one place; detection must not depend on where or beside what the violation occurs.",
 ["math/base.yaml","math/milp.yaml","backend/backend_model.py","schemas/dimension_data_schema.py","schemas/data_table_schema.py"],[("input checks","backend/backend_model.py"),("check rules","math/base.yaml"),("definition schemas","schemas/dimension_data_schema.py")],["calliope.read_dict","Model.build"])
p("C22","Derived statistics follow from the solution they summarise",
 "After every solve, capacity factors, total generation, levelised costs, unmet demand and curtailment equal their documented formulas applied to the reported flows, capacities, costs and time-step weights, for every technology, carrier and cost class, and are missing exactly where undefined. Values smaller than the zero threshold are reported as zero and all other values are left untouched.",
 ["inputs"],"all solved models including clustered and variable-duration time axes",
 "Tests check a few numbers for unweighted models.",
 ["math/base.yaml","backend/backend_model.py","model.py"],[("postprocessed expressions","math/base.yaml"),("postprocessing","backend/backend_model.py")],["Model.results"])
p("C23","Shadow prices are the marginal values of constraints",
 "Shadow prices requested for a constraint equal the change of the optimal objective per unit relaxation of that constraint at each index, are reported for exactly the tracked constraints at the indices where they exist, and are absent when not requested or not available. Requesting them does not change the solution.",
 ["inputs"],"all linear models with any set of tracked constraints",
 "Tests check that values exist or match one stored example.",
 ["backend/backend_model.py","backend/pyomo_backend_model.py","backend/gurobi_backend_model.py","model.py"],[("shadow price tracking","backend/backend_model.py"),("dual extraction","backend/pyomo_backend_model.py")],["Model.results","Model.backend.shadow_prices"])
p("C24","Math documentation states the math that is solved",
 "For every math definition, the generated documentation contains each component that is part of the problem (or, when asked for all, every active component) exactly once, with the dimensions, conditions, bounds and equations it was defined with: read as mathematics, each documented equation and condition has the same meaning as the one evaluated by the model. Cross-references list exactly the components used, in every output format.",
 ["programs","configurations"],"all math definitions, both inclusion options and all output formats",
 "Tests compare a few stored LaTeX strings; meaning must be preserved for every expression and condition.",
 ["backend/latex_backend_model.py","backend/expression_parser.py","backend/where_parser.py","backend/helper_functions.py","postprocess/math_documentation.py"],[("string rendering of expressions","backend/expression_parser.py"),("string rendering of conditions","backend/where_parser.py"),("document assembly","backend/latex_backend_model.py")],["MathDocumentation.write"])
p("C25","Batch generation covers every run exactly once and runs it",
 "Generating scenarios from groups of overrides yields each combination exactly once under a unique name and as a file the model accepts; generating run scripts yields one command per scenario (in the given order, each with its own output) for every supported script type. Running a model from the command line gives the same results as the Python interface for the same options, and signals failure when the model is infeasible unless told otherwise.",
 ["inputs","configurations"],"all override groups, scenario lists, script types and run options",
 "Tests check one small example per command.",
 ["cli.py","util/generate_runs.py"],[("command line interface","cli.py"),("run script generation","util/generate_runs.py")],["calliope command line"])
p("C26","Piecewise constraints follow their breakpoints",
 "For every piecewise constraint, the two linked expressions in any reported solution lie on the straight-line interpolation between the given breakpoints at each index, within the breakpoint range, and the optimum equals the best over the segments. Mismatched or missing breakpoints, or expressions that cannot be linked, are rejected with an error.",
 ["inputs"],"all monotone breakpoint tables (per index or shared, with missing tail points) and linked expressions",
 "Tests check build success and error messages, never solved values.",
 ["backend/backend_model.py","backend/pyomo_backend_model.py","backend/gurobi_backend_model.py","schemas/math_schema.py"],[("piecewise construction","backend/backend_model.py")],["Model.results"])
p("C27","All solver backends build and solve the same problem",
 "For every model the available backends build problems with identical components, defined indices, bounds and coefficients, and reach the same objective, and the problem exported to an LP file has the same optimum when solved by another solver. Inspecting the problem (reading components, verbose names, exporting) never changes it.",
 ["inputs","configurations"],"all models supported by both backends, all inspection calls",
 "Tests run the same unit tests per backend on tiny problems but never compare the backends' whole problems.",
 ["backend/pyomo_backend_model.py","backend/gurobi_backend_model.py","backend/backend_model.py"],[("backend interface","backend/backend_model.py")],["Model.backend","Model.backend.to_lp"])
p("C28","Results do not depend on names, order or units",
 "Renaming nodes and technologies, reordering any part of the definition, running in another process or hash order, and adding inactive content leave the optimum unchanged up to the renaming. Multiplying all costs by a constant multiplies optimal costs by it, and rescaling all quantities rescales all capacities and flows; splitting a demand in two or shifting the calendar changes nothing else. Building the same definition twice gives the same model.",
 ["inputs","configurations"],"all models and all such transformations of their definition",
 "No test transforms a model; invariance is a relation between pairs of runs.",
 ["preprocess/model_data.py","backend/parsing.py","backend/backend_model.py","math/base.yaml"],[("input assembly","preprocess/model_data.py"),("problem construction","backend/backend_model.py")],["Model.results"])
out=pathlib.Path(__file__).parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
