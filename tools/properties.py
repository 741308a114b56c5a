""" Source of properties.jsonl and MANIFEST.json: run it after editing. """
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("bounded symbolic execution of the real source (own engine over z3): AST-instrumented /repo code run on symbolic "
        "inputs, all feasible paths explored, assertions discharged by the solver, counterexamples replayed on the "
        "untouched code")

P = []


def prop(id_, title, statement, over, text, why, files, mechanism, claimed=True, reason=None, note=""):
    P.append({"id": id_, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files,
                                                 "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
              "_claimed": claimed, "_reason": reason, "_note": note})


D = "dessia_common/"
prop("C01", "Objects survive serialization and deserialization",
     "An object built from numbers, strings, booleans, None, nested lists, tuples, string-keyed dictionaries and "
     "sub-objects, turned into its dictionary form (with or without pointers), passed through JSON and rebuilt, gives "
     "an object of the same class with the same data, attribute by attribute, which compares equal to the original "
     "(sub-objects that compare equal to each other may come back as one; tuples come back as tuples for attributes "
     "annotated so, as lists elsewhere). The dictionary form holds JSON values only, and producing it or rebuilding from it changes neither the original "
     "nor the dictionary.",
     ["inputs"], "every object graph and every leaf value",
     "tests round-trip a handful of fixed objects; the guarantee is over all shapes and values",
     [D + "serialization.py", D + "core.py", D + "utils/types.py"],
     [("to_dict / serialize", D + "serialization.py:SerializableObject.to_dict"),
      ("dict_to_object / deserialize", D + "serialization.py:dict_to_object"),
      ("save_to_stream / from_json", D + "core.py:DessiaObject.save_to_stream")])
prop("C02", "Shared sub-objects stay shared through pointer serialization",
     "When one sub-object is reachable through several attributes or containers, the pointer form refers to it from each "
     "place, every pointer resolves inside the form, and the rebuilt object holds one single instance at all of those "
     "places. Sub-objects with different data are never merged, at any nesting depth (those that compare equal may be).",
     ["inputs"], "every sharing pattern between the places of an object graph, every leaf value",
     "which sub-objects coincide depends on hashes and data equality of arbitrary values; tests fix one pattern",
     [D + "serialization.py", D + "graph.py"],
     [("pointer memo and references", D + "serialization.py:serialize_with_pointers"),
      ("pointer resolution order", D + "serialization.py:dereference_jsonpointers")])
prop("C03", "Equality and hash of objects are coherent",
     "Two objects of the same class compare equal exactly when their data are the same (floats up to the tolerance; names, "
     "private attributes and attributes the class excludes are ignored), comparison is symmetric, answers a boolean "
     "against any other value, and equal objects have equal hashes. Classes that opt for identity compare by identity. "
     "Workflows compare equal exactly when their blocks are set, wired and locked alike (values of defaults and exports apart).",
     ["inputs"], "every pair of objects with arbitrary nested data",
     "equality must be right for all pairs, including hash collisions, empty containers and mixed types",
     [D + "core.py", D + "utils/diff.py"],
     [("workflow equality", D + "workflow/core.py:Workflow._data_eq"),
      ("__eq__ / data_eq", D + "core.py:data_eq"), ("hash", D + "utils/diff.py:choose_hash")])
prop("C04", "Copies are equal to and independent of the original",
     "A deep copy has the same class, data and name as the original, compares equal to it, shares no mutable part with it, "
     "so that changing either never changes the other, and keeps sub-objects that are one instance in the original one "
     "instance in the copy (sub-objects that compare equal may become one). Copying never modifies the original.",
     ["inputs", "histories"], "every object graph, sharing pattern, leaf value and later mutation",
     "aliasing shows only for particular nestings and later edits",
     [D + "core.py", D + "utils/copy.py"],
     [("deepcopy", D + "utils/copy.py:deepcopy_value"), ("__deepcopy__", D + "core.py:DessiaObject.__deepcopy__")])
prop("C05", "A diff is empty exactly when the data are equal",
     "The diff of two values is empty if and only if they are equal in data, each reported difference carries the path at "
     "which the two values really differ together with their two values in the order given, and a key or attribute present "
     "on one side only is reported as missing on the right side.",
     ["inputs"], "every pair of nested values",
     "a difference may be hidden at any depth, in any key set, on either side",
     [D + "utils/diff.py"],
     [("diff", D + "utils/diff.py:diff"), ("dict_diff", D + "utils/diff.py:dict_diff")])
prop("C06", "Paths address exactly the part of the object they name",
     "Reading a path made of attribute names, sequence indices and dictionary keys (strings, integers, tuples) returns "
     "exactly the sub-element at that place, following pointers met on the way; a path that names nothing raises instead "
     "of returning something else. Setting a value at a path makes the next read of that path return it and leaves every "
     "other part unchanged.",
     ["inputs"], "every nested structure, every path into it, every value",
     "index/key/attribute dispatch is per segment and per value kind",
     [D + "utils/helpers.py", D + "core.py"],
     [("get", D + "utils/helpers.py:get_in_object_from_path"), ("set", D + "utils/helpers.py:set_in_object_from_path")])
prop("C07", "Filters select exactly the satisfying elements",
     "Applying a filter or a list of filters to a list of objects keeps exactly the elements that satisfy the comparison, "
     "or the and / or / xor (an odd number of them) combination of the comparisons, in their original order and without modifying them; the "
     "reported boolean vectors agree with the elements kept.",
     ["inputs"], "every list of objects, every bound, operator and logical combination",
     "the outcome depends on comparisons with arbitrary values, ties included",
     [D + "core.py", D + "datatools/dataset.py", D + "workflow/blocks.py"],
     [("DessiaFilter", D + "core.py:DessiaFilter"), ("FiltersList", D + "core.py:FiltersList")])
prop("C08", "Dataset rows, columns and objects stay aligned",
     "In a dataset, row i of the matrix holds the attribute values of object i in the order of the common attributes, "
     "column access by name agrees with it, and selecting (by index, slice, boolean list, filter), sorting, concatenating, "
     "or extending gives exactly the objects (and cluster labels) meant, in the order meant (a list of indices selects "
     "those objects once, in dataset order), with matrix and labels still aligned.",
     ["inputs", "histories"], "every dataset content and selection or sequence of operations",
     "misalignment needs particular positions, orders or attribute sets",
     [D + "datatools/dataset.py", D + "datatools/cluster.py"],
     [("Dataset", D + "datatools/dataset.py:Dataset")])
prop("C09", "The Pareto front is exactly the set of non-dominated points",
     "The points reported as Pareto-efficient for a list of costs to minimise are never dominated by another point, and "
     "every point left out is dominated by or identical to a reported one; the frontier objects match the reported flags.",
     ["inputs"], "every matrix of costs",
     "dominance with ties and equal coordinates is a property of all value combinations",
     [D + "datatools/dataset.py"], [("pareto", D + "datatools/dataset.py:Dataset.pareto_indexes")])
prop("C10", "Running a workflow evaluates its block graph",
     "Running a workflow on given inputs returns what composing the blocks along the pipes returns: each block needed is "
     "evaluated exactly once, after the blocks feeding it, with the values carried by its pipes, its entered values and its "
     "defaults, whatever the order in which blocks and pipes were listed. A state evaluated block by block reaches the same "
     "values, with progress reaching one exactly when all runnable blocks have been evaluated.",
     ["inputs", "schedules"], "every acyclic wiring of blocks, listing order, activation order and input values",
     "wirings and evaluation orders are combinatorial; tests run a few",
     [D + "workflow/core.py"], [("WorkflowState", D + "workflow/core.py:WorkflowState"),
                                ("Workflow.run", D + "workflow/core.py:Workflow.run")])
prop("C11", "Workflow inputs follow locked, entered, then default values",
     "In a run, a workflow input that is locked always takes its locked value, otherwise the value entered by the user, otherwise its "
     "default; a missing mandatory input stops the run with an error instead of computing with something else. Locking one "
     "input never affects another.",
     ["inputs"], "every combination of locked, entered and default values on every input",
     "combinations of input sources and positions",
     [D + "workflow/core.py"], [("imposed variables and inputs", D + "workflow/core.py:Workflow")])
prop("C12", "Form steps always partition the workflow inputs",
     "After any sequence of step edits (inserting, removing, reordering steps, adding, moving or removing their inputs, "
     "resetting), every workflow input belongs to exactly one step or to the spare inputs, no input is lost or duplicated, "
     "and only the named step or input has moved.",
     ["histories"], "every sequence of edit operations",
     "only particular sequences of edits lose or duplicate an input",
     [D + "workflow/core.py"], [("steps", D + "workflow/core.py:Workflow")])
prop("C13", "Workflows survive serialization",
     "A workflow turned into its dictionary form, through JSON, and rebuilt has the same blocks, pipes, output, locked values, "
     "labels and positions in the same places, compares equal to the original and computes the same result on every input; "
     "the address of a variable leads back to that variable. The same holds for workflow states and runs.",
     ["inputs"], "every wiring, every locked or default value",
     "wirings and addresses are combinatorial",
     [D + "workflow/core.py", D + "workflow/blocks.py"], [("Workflow.to_dict", D + "workflow/core.py:Workflow")])
prop("C14", "Workflow copies are equivalent and independent",
     "A copy of a workflow or of a workflow state compares equal to the original, computes the same result on every input, "
     "and evaluating, editing or locking one never affects the other.",
     ["inputs", "histories"], "every wiring, input value and later edit",
     "aliasing between copies shows only after later operations",
     [D + "workflow/core.py"], [("__deepcopy__", D + "workflow/core.py:Workflow.__deepcopy__")])
prop("C15", "Standard workflow blocks compute what they are documented to compute",
     "For every input, the standard blocks return their documented result: sequences and concatenations keep all elements "
     "in order, ForEach maps its block over the list in order, unpackers return the requested positions, flatten and "
     "product keep order and multiplicity, attribute get/set blocks read and write only the named attribute, sums and "
     "differences are arithmetic, filters keep the satisfying elements.",
     ["inputs"], "every input value and size within bounds", "all values, sizes and option combinations",
     [D + "workflow/blocks.py"], [("blocks", D + "workflow/blocks.py")])
prop("C16", "Only JSON/BSON-valid structures are accepted as such",
     "A structure declared valid for the database has string keys without '.' at every depth and only base values; "
     "any structure breaking this anywhere is rejected. Converting a structure's keys to strings keeps values and order, "
     "as long as no two keys have the same text, and an object declared serializable can really be serialized.",
     ["inputs"], "every nested structure, key text and position of the offending element",
     "the offending key may be anywhere in the structure",
     [D + "utils/types.py", D + "serialization.py"], [("is_bson_valid", D + "utils/types.py:is_bson_valid")])
prop("C17", "Type matching between block ports is sound",
     "Every type matches itself and the unconstrained type, a subclass or a member of a union matches its parent or the "
     "union, a union matches a union holding all of its members, container types match exactly when they are of the same "
     "kind and length and their element types match position by position, whether a type is optional does not matter, "
     "and unrelated types do not match. The ports of a workflow that can be wired are those of matching types.",
     ["inputs"], "every pair of annotations within bounds", "pairs of nested annotations are combinatorial",
     [D + "utils/types.py"], [("typematch", D + "utils/types.py:typematch")])
prop("C18", "Type annotations survive their textual form",
     "Serializing a type annotation (base types, classes, lists, tuples, dictionaries, unions, optional and instance "
     "markers, literals, nested) and reading it back gives the same annotation (for an optional annotation, the one it "
     "makes optional).",
     ["inputs"], "every annotation within bounds", "nested annotations are combinatorial",
     [D + "schemas/core.py", D + "utils/types.py"], [("serialize_annotation", D + "schemas/core.py:serialize_annotation")])
prop("C19", "Optimization parameters normalise and denormalise exactly",
     "Denormalising a normalised value within bounds gives it back (in order and independently for each attribute), "
     "normalised bounds are 0 and 1, values out of bounds are recognised as such, and a vector of values is written to the "
     "model attributes it stands for, fixed attributes keeping their value. The optimum returned is the model at the best "
     "point the library optimizer found, with its cost, and a second optimization starts where the first one ended. Designs "
     "of experiments give every combination of levels once, or the drawn samples, within bounds, each value to its attribute. "
     "Values of a parameter are equal up to the tolerance, whole periods aside (away from the ends of the period); the parameters "
     "of a set span its values.",
     ["inputs"], "every bound, value and mix of fixed and bounded attributes, every answer of the library optimizers",
     "all values, including the bounds themselves",
     [D + "optimization.py", D + "core.py"], [("optimizer", D + "optimization.py:InstantiatingModelOptimizer"),
                               ("attributes", D + "optimization.py:BoundedAttributeValue"),
                               ("parameters", D + "core.py:Parameter"), ("designs of experiments", D + "datatools/sampling.py")])
prop("C20", "Interpolation stays on the given curve",
     "Interpolating at a position between two samples gives the point of the segment joining them, so a sample at its own "
     "position. The position of a value in two samples or more lies in the first segment that holds this value, and "
     "interpolating there gives the value back; a value no segment holds is refused or, when extrapolation is asked for, put "
     "at the nearest end. Any order of the samples is accepted (increasing, decreasing, repeated).",
     ["inputs"], "every sampled curve and value", "segment selection depends on all values, ties included",
     [D + "utils/interpolation.py"],
     [("position", D + "utils/interpolation.py:istep_from_value_on_list"),
      ("value", D + "utils/interpolation.py:interpolate_from_istep")])
prop("C21", "Distance metrics and statistics obey their laws",
     "The distances (Manhattan, Euclidean, infinity, Minkowski, Mahalanobis) are symmetric, non-negative, zero for identical "
     "vectors and respect their defining formula; means, variances, covariances and standard deviations follow their "
     "definition on every vector, on the columns of every dataset, and cluster by cluster in a clustered dataset (means, "
     "distances and the object nearest to the mean, whatever the labels).",
     ["inputs"], "every vector and dataset of the stated sizes", "algebraic laws over all values",
     [D + "datatools/metrics.py", D + "datatools/dataset.py", D + "datatools/cluster.py"],
     [("metrics", D + "datatools/metrics.py"), ("dataset statistics", D + "datatools/dataset.py:Dataset"),
      ("clusters", D + "datatools/cluster.py:ClusteredDataset")])
prop("C22", "Check lists report every check at or above a level",
     "Selecting the checks above a level returns exactly those whose severity reaches it, in order; raising above a level "
     "raises exactly when there is one; adding check lists keeps all checks. A type check fails exactly when the value is not "
     "of the type, and the checks of an object fail exactly when something is wrong with it: serialization or copy giving "
     "something else, data that the database cannot hold, displays that cannot be made, or a check of its own.",
     ["inputs"], "every list of checks and level, every way an object may come out altered", "all severity mixes",
     [D + "checks.py", D + "core.py"], [("CheckList", D + "checks.py:CheckList"),
                                        ("check_list", D + "core.py:DessiaObject._check_platform")])
prop("C23", "A breakdown lists every sub-object under a path that leads to it",
     "The breakdown of an object lists each of its sub-objects once, under its class, at a path which, read in the object, "
     "gives that sub-object and is one of the shortest; sub-objects that compare equal are listed as one. The analysis counts the "
     "sub-objects of each class.",
     ["inputs"], "every object graph within bounds", "nesting and sharing patterns",
     [D + "breakdown.py"], [("breakdown", D + "breakdown.py:breakdown"), ("analysis", D + "breakdown.py:breakdown_analysis")])
prop("C24", "Method arguments are rebuilt from their serialized form",
     "The arguments rebuilt from a serialized argument dictionary (keys: parameter names, or positions of workflow inputs) are exactly the ones "
     "supplied, under the right parameter names and with the types the signature announces, nested ones included (objects, "
     "lists, tuples, dictionaries, optional values, unions, classes); a value that does not fit an announced base type, and a "
     "tuple of another length, are refused. Default dictionaries hold the declared defaults, and None where there is none. "
     "(Outside: pointers from one argument into another, membership of literals, objects held by dictionaries.)",
     ["inputs"], "every signature position and value", "positions and value kinds",
     [D + "core.py", D + "serialization.py", D + "schemas/core.py"],
     [("dict_to_arguments", D + "core.py:DessiaObject.dict_to_arguments"),
      ("deserialize_argument", D + "serialization.py:deserialize_argument"),
      ("default_dict", D + "schemas/core.py:Schema.default_dict")])
prop("C25", "In-memory files keep their content",
     "Copying an in-memory file gives an independent file of the same class with the same name and whole content, from its "
     "beginning; two files are equal exactly when both are texts or both binary and their contents and names are the same; equal "
     "files hash alike; files made from a stream, a path or a template hold the whole content; and reading, comparing or copying "
     "never changes the content, the name or the position.",
     ["inputs", "histories"], "every content and stream position", "stream position and content interplay",
     [D + "files.py"], [("files", D + "files.py:BinaryFile")])
prop("C26", "Tables and printed datasets show every row and value",
     "A markdown table written for objects or values has one line per element up to the limit, in order, one cell per column holding "
     "that element's value (cut at the announced width), and says how many rows are left out when there are more. A dataset "
     "printed shows each of its objects once, in order, when there are 10 or fewer; otherwise its first 5, the number of those "
     "left out, and its last 5.",
     ["inputs"], "every list length and content", "limits and lengths", [D + "exports.py", D + "datatools/dataset.py"],
     [("MarkdownWriter", D + "exports.py:MarkdownWriter"), ("printing", D + "datatools/dataset.py:Dataset.__str__")])
prop("C27", "Graph layouts place each node once, after its predecessors",
     "The column layout of an acyclic directed graph holds every node exactly once, columns being numbered from 0 without gap, each "
     "node strictly after the nodes it depends on, with as many columns as the longest path has nodes. The leaves-first exploration order "
     "contains every node exactly once, no node before one it leads to, and cycles are refused. Workflow layouts do so for "
     "each connected part. (Outside: pruning of final branches, extraction of regions.)",
     ["inputs"], "every acyclic graph within bounds", "graph shapes are combinatorial", [D + "graph.py", D + "workflow/core.py"],
     [("get_column_by_node", D + "graph.py:get_column_by_node"), ("explore_tree_from_leaves", D + "graph.py:explore_tree_from_leaves"),
      ("layout", D + "workflow/core.py:Workflow.layout_graph")])
prop("C28", "Generators enumerate exactly the valid combinations",
     "The tree-based generator yields every combination of choices whose every prefix is valid exactly once, in order, none other, "
     "never explores below an invalid prefix, and ends. Its regular counterpart does so for given numbers of choices, "
     "sorted or distinct ones when asked for.",
     ["inputs"], "every tree within bounds and every validity predicate", "validity predicates are arbitrary",
     [D + "generation.py"], [("DecisionTreeGenerator", D + "generation.py:DecisionTreeGenerator"),
                             ("RegularDecisionTreeGenerator", D + "generation.py:RegularDecisionTreeGenerator")])
prop("C29", "Workflow scripts rebuild the workflow",
     "Running the script exported from a workflow rebuilds it: the same blocks in the same order, of the same kind, with the same "
     "settings, names and positions, whatever printable characters, quotes and ends of lines their texts hold; the inputs and free "
     "variables that were locked, on the same values when these are numbers, texts, flags, missing values or containers of "
     "such; the same free variables (name, label, position, type, optional types standing as the types they wrap); the same pipes in "
     "the same order, output, name, description and documentation; nested workflows included. The script of a run rebuilds the "
     "workflow too, and runs it on the same values (of those kinds), giving the same output. A workflow without an output has no script. "
     "(Steps, variables connected to nothing, default values of unlocked variables and deprecated displays without a selector class are not carried by scripts.)",
     ["inputs"], "every workflow, with any wiring, settings, texts and locked values",
     "tests compare a few declarations with fixed texts, and never run a script",
     [D + "workflow/core.py", D + "workflow/blocks.py", D + "workflow/utils.py"],
     [("Workflow.to_script", D + "workflow/core.py:Workflow.to_script"), ("blocks", D + "workflow/utils.py:blocks_to_script"),
      ("pipes", D + "workflow/core.py:Workflow.pipes_to_script"), ("runs", D + "workflow/core.py:WorkflowRun.to_script")])
prop("C30", "Displays and exports come from the methods that announce them",
     "An object offers one display for each of its methods decorated as a view (inherited ones included, those overridden without "
     "decoration excluded), under the announced selector or the method's name, with the announced type and loading option, besides the "
     "default ones; asking for a selector gives what its method gives, a method that fails is reported by its "
     "traceback, and unknown selectors are refused. So do exports: saving under a selector writes what the method of that selector writes, "
     "in a text or binary file as announced, at the path returned, and an archive holds each of the other exports once under "
     "names of their own. Workflow runs offer the displays and exports of their blocks, each giving what its block gives for "
     "the values of that run, however often and in whatever order they are asked for.",
     ["inputs", "histories"], "every set of decorated methods, selector, content and order of requests",
     "selectors, contents, and the wiring of display and export blocks are arbitrary",
     [D + "core.py", D + "decorators.py", D + "displays.py", D + "exports.py", D + "files.py", D + "workflow/core.py", D + "workflow/blocks.py"],
     [("displays", D + "core.py:DessiaObject._display_from_selector"), ("decorated methods", D + "decorators.py:get_decorated_methods"),
      ("exports", D + "core.py:DessiaObject.save_export_to_file"), ("archives", D + "core.py:DessiaObject.to_zip_stream"),
      ("block exports", D + "workflow/core.py:WorkflowState.export")])

prop("C31", "Displays of form steps show what the inputs entered so far compute",
     "A step of the form of a workflow offers exactly the displays of the block outputs that need no input of a later step, with the "
     "displays of their type and their label. The display put on a step is that of its output, computed from the inputs given (locked "
     "and default values included) by evaluating once each block it needs and no other; a step without display shows nothing.",
     ["inputs"], "every wiring, distribution of the inputs over the steps, choice of output and display, and input values",
     "which blocks an output needs and which inputs are known by a step depend on the wiring",
     [D + "workflow/core.py"],
     [("offer", D + "workflow/core.py:Workflow.displayable_display_settings"),
      ("computation", D + "workflow/core.py:Workflow.compute_step_display")])
prop("C32", "Forms describe the arguments they are made for and report the ill-defined ones",
     "The form of a class or of a method has one field for each argument, in order (neither self nor the progress callback), with its "
     "title, its description in the docstring, and a default exactly when the argument has one: its default value, serialized (nothing "
     "for lists and dictionaries); giving back the form filled with the defaults builds the object, or calls the method, with those very "
     "defaults. Checking a form reports each ill-defined argument, optional or not, and no other: mutable defaults, dictionaries of "
     "keys other than texts or values other than builtins, and unions of classes that stand alone and others that do not are "
     "errors; defaults of files are warnings. The form of a workflow shows each input once, in its step (and group) or among the spare ones, with its "
     "label, default and editability, and each step with its ids, texts and display.",
     ["inputs"], "every signature, default values, docstring, and distribution of workflow inputs over steps",
     "fields depend on each combination of annotation and default, wherever the argument is",
     [D + "schemas/core.py", D + "core.py", D + "workflow/core.py"],
     [("members", D + "schemas/core.py:MemberSchema"), ("properties", D + "schemas/core.py:get_schema"),
      ("checks", D + "schemas/core.py:Schema.check_list"), ("docstrings", D + "schemas/core.py:parse_docstring"),
      ("workflows", D + "workflow/core.py:Workflow.method_schemas")])
prop("C33", "Spreadsheets show the object they are written for and give it back",
     "The workbook written for an object has one sheet for it and one for each class of its sub-objects, with exactly one row for each "
     "sub-object (those that compare equal once), under the path that leads to it; each attribute has its column, and its cell "
     "shows the value: numbers up to 6 decimals, texts, lists of values, the number of elements of other containers, or the path of "
     "the sub-object with a link to its very row. Every link leads to an existing sheet. Reading the workbook gives back the same object, "
     "when its attributes are values (texts that do not read as other values), sub-objects, or lists or dictionaries of sub-objects that "
     "differ from one another, each class being held in one container or by plain attributes. A catalog gives one object for each row, "
     "in order, each cell going to the argument its column names, and is refused when a column is repeated or a mandatory one is missing.",
     ["inputs"], "every object graph, every value, every order of columns",
     "links, rows and columns depend on each combination of values, sharing and classes",
     [D + "exports.py", D + "excel_reader.py", D + "breakdown.py"],
     [("writer", D + "exports.py:XLSXWriter"), ("reader", D + "excel_reader.py:ExcelReader")])
prop("C34", "Plots show each object at its own values, with a reference that leads to it",
     "The plots of a dataset (scatter matrix, parallel plot), clustered or not, and those of the display blocks of workflows (MultiPlot, "
     "MultiObject with its views) have exactly one point per object, in order, at the values the object has for the attributes shown, "
     "deep ones included, and with a reference that starts with the path given and leads to that very object. The scatter matrix has one "
     "plot for each two common attributes, line by line; the parallel plot has one axis for each common attribute, whichever of them are "
     "constant and whatever their correlations; the figures of a block show the attributes asked, in the order asked. The points of a "
     "clustered dataset tell their label, and each is in exactly one family, which holds the points of its label, whichever labels are used.",
     ["inputs"], "every dataset, every labelling, every table of correlations",
     "axes are lost only for some orders of the correlations, families only for some labels",
     [D + "datatools/dataset.py", D + "datatools/cluster.py", D + "workflow/blocks.py"],
     [("datasets", D + "datatools/dataset.py:Dataset.plot_scatter_matrix"), ("axes", D + "datatools/dataset.py:Dataset.plot_parallel_plot"),
      ("families", D + "datatools/cluster.py:ClusteredDataset"), ("blocks", D + "workflow/blocks.py:MultiPlot")])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as stream:
        for p in P:
            stream.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    harnesses = os.listdir(os.path.join(ROOT, "harness"))
    checks, not_applicable = [], []
    for p in P:
        if p["_claimed"] and any(h.startswith(p["id"].lower()) for h in harnesses):
            checks.append({"property": p["id"], "quick_cmd": f"/opt/venv/bin/python /verif/check.py {p['id']} --tier quick",
                           "thorough_cmd": f"/opt/venv/bin/python /verif/check.py {p['id']} --tier thorough",
                           "technique": TECH, "level": "other",
                           "level_note": p["_note"] or "bounded: holds for every value and path within the bounds listed "
                                                       "per harness in the evidence; nothing is claimed outside them"})
        else:
            not_applicable.append({"property": p["id"], "reason": p["_reason"] or "check not built yet"})
    manifest = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/tools/setup_check.py",
                "hooks": {"guard": "", "enable": "", "source_commits": []}, "checks": checks,
                "not_applicable": not_applicable,
                "notes": "Every check re-instruments /repo's current source; see DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as stream:
        json.dump(manifest, stream, indent=1)
        stream.write("\n")


if __name__ == "__main__":
    main()
