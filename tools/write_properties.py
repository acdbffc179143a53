"""Writes /verif/properties.jsonl (kept as code so that long statements stay readable)."""
import json, os

SRC = "python_dice/src/"
INTERP = SRC + "python_dice_interpreter.py"
STATE = SRC + "probability_distribution/probability_distribution_state.py"
DIST = SRC + "probability_distribution/probability_distribution.py"
OUT = SRC + "probability_distribution/probability_outcome.py"
EX = SRC + "expression/"
PARSER = SRC + "python_dice_parser.py"
LEXER = SRC + "python_dice_lexer.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


CONST = ("variable values", "the value each variable last took in roll, min, max or cost", STATE + " _constants")
VARS = ("variable distributions", "the distribution each variable last took in an analysis, min or max", STATE + " _var")
SET = ("times set", "makes each assignment of a name a new version, so old uses stay tied to the old value", STATE + " _number_of_times_set")

prop("C01", "A roll is one consistent, possible play of the program",
     "Whatever numbers the random source delivers, a roll is a play the program allows: every dice shows one of its own faces, keep and drop select the documented dice, every operator works on the values actually rolled, and a variable keeps the one value it was rolled with wherever it is used later. The returned variables and stdout are therefore jointly possible, lie within the reported minimum and maximum and have a reported probability above zero.",
     ["inputs", "programs", "histories", "fault_sequences"],
     "For every program, every stream of the random source (including stuck, extreme and repeating ones) and every history of earlier calls.",
     "The tests roll a few fixed expressions some hundred times with a fair generator and compare the range; extreme streams, long histories and the joint outcome of several variables are never looked at.",
     [INTERP, EX + "dice_expression.py", EX + "drop_keep_expression.py", EX + "dice_expression_helper.py", EX + "get_var_expression.py", EX + "var_assignment_expression.py", EX + "binary_operator_expression.py", EX + "not_expression.py"],
     [("each dice expression draws all its dice at once from the weighted face list", EX + "dice_expression.py roll"),
      ("assignment stores the rolled value, reading returns it", EX + "var_assignment_expression.py roll, " + EX + "get_var_expression.py roll")],
     [CONST], ["PythonDiceInterpreter.roll", "PythonDiceInterpreter.min/max", "PythonDiceInterpreter.get_probability_distributions_dict"])

prop("C02", "Rolls come out as often as the reported probabilities say",
     "Over many rolls of a program the variables and stdout appear with exactly the probabilities the analysis of the same program reports, and one roll tells nothing about the next. This holds for every dice form (plain, %, fate, custom sides with ranges and multipliers, keep and drop), for reused variables, and whatever else the interpreter did in between.",
     ["programs", "histories", "inputs"],
     "For every program, over the randomness of the process generator, in any history of calls on any number of interpreters.",
     "The tests compare the analysis with hand-written tables and only look at the range of rolls; a skewed, correlated or history-dependent roll passes.",
     [EX + "dice_expression.py", EX + "drop_keep_expression.py", EX + "dice_expression_helper.py", DIST, STATE, INTERP],
     [("rolling and analysis share one face table per dice", EX + "dice_expression_helper.py get_single_dice_outcome_map"),
      ("constraints tie reuse of a variable to one value", STATE + " set_var")],
     [CONST, VARS, SET], ["PythonDiceInterpreter.roll", "PythonDiceInterpreter.get_probability_distributions_dict"])

prop("C03", "Rolls depend only on the process's random generator, and only rolls use it",
     "With the random generator in the same state, the same calls give the same rolls: in every process, under every hash seed, and whatever parsing, analyses, charts, cost estimates or other interpreters were used before or in between. Nothing but rolling draws from, reseeds or replaces the generator.",
     ["histories", "configurations", "programs"],
     "For every program and history, every generator state, every hash seed and every set of unrelated calls placed between the rolls.",
     "The tests never seed the generator, run under one hash seed, and never compare two processes or the generator's state around a call.",
     [EX + "dice_expression.py", EX + "drop_keep_expression.py", INTERP, PARSER],
     [("rolls draw from the random module's shared generator in program order", EX + "dice_expression.py roll, " + EX + "drop_keep_expression.py roll")],
     [("generator", "the process-wide random state", "random module")], ["PythonDiceInterpreter.roll", "random.getstate"])

prop("C04", "A returned result never changes afterwards and belongs to the caller",
     "A result handed to the caller (a dictionary, a distribution, a chart image not yet loaded) keeps its content whatever the interpreter does later: more rolls, reassigned variables, other charts, failures, other interpreters. Changing a returned dictionary, or the list of lines after the call, has no effect on the interpreter or on other results.",
     ["histories", "schedules"],
     "For every history of calls, at every later moment the caller looks at or changes a result it holds.",
     "Each test looks at a result once, directly after the call, and throws it and the interpreter away.",
     [INTERP, STATE, DIST],
     [("each call builds a new dictionary from the variables", INTERP), ("every operation on a distribution builds a new one", DIST)],
     [CONST, VARS], ["every value returned by PythonDiceInterpreter"])

prop("C05", "A line that fails leaves no trace; the lines before it keep their effect",
     "When a line of a program cannot be read or evaluated (bad text, unknown variable, division by zero, a failing component), the call raises, every line before it has taken its full effect, and the failing line and the lines after it have none: each variable has the value and distribution it had before that line. The interpreter goes on working as if the failing line had never been given.",
     ["fault_sequences", "histories", "programs"],
     "For every program, every failing line in any mode, every failing component call, and every later use of the interpreter.",
     "The tests assert that some lines raise, on a fresh interpreter that is then dropped; none looks at the variables after a failure or lets a component fail.",
     [INTERP, EX + "var_assignment_expression.py", STATE, PARSER, LEXER],
     [("an assignment evaluates completely before it stores", EX + "var_assignment_expression.py"),
      ("a new distribution is built aside and stored last", STATE + " set_var")],
     [CONST, VARS, SET], ["exceptions of PythonDiceInterpreter calls", "variables read by later calls"])

prop("C06", "An interrupted call leaves every variable old or new and recovers",
     "An asynchronous interruption (Ctrl-C, a timeout or out-of-memory exception) at any instant of a call is passed on to the caller and leaves each variable's value and distribution either as before or as after its assignment, never half-way, with earlier lines complete and later lines not begun. Every later call on the interpreter, on others and on new ones then works normally, with the right answers, in a bounded number of steps.",
     ["crash_points", "fault_sequences", "histories"],
     "For every call, every instant inside it at which the exception arrives, repeated interruptions, and every continuation.",
     "No test interrupts a call.",
     [INTERP, STATE, EX + "var_assignment_expression.py", PARSER, DIST],
     [("state changes are single dictionary stores of finished values", STATE), ("parsing and evaluation keep no state of their own between calls", PARSER)],
     [CONST, VARS, SET], ["variables and answers after the interruption"])

prop("C07", "Independent interpreters never affect one another, even in parallel",
     "Interpreters with their own variables, each used by its own thread, give exactly the answers each would give alone, under every interleaving, even when they were built around one parser or one set of factories. The same holds for interpreters used alternately in one thread, and for charts drawn at the same time.",
     ["schedules", "programs", "configurations"],
     "For every interleaving of the threads' steps, every mix of calls and every sharing of stateless components.",
     "All tests run one interpreter in one thread.",
     [INTERP, PARSER, LEXER, STATE, DIST],
     [("the variables are passed to the parser with every line", PARSER + " parse"), ("parser and factories keep no state", PARSER),
      ("every chart is drawn on a figure of its own", DIST + " _make_histogram")],
     [CONST, VARS], ["results of concurrent PythonDiceInterpreter calls"])

prop("C08", "Threads sharing one interpreter with their own variables get their own answers",
     "When several threads use one interpreter and each assigns and reads only variables of its own, every call succeeds or fails as it would without the other threads, and its stdout and its own variables are those of its own lines, under every interleaving. What a result shows for another thread's variable is a value that variable really held while the call ran.",
     ["schedules", "histories"],
     "For every interleaving of the threads' steps and every mix of calls on the shared interpreter.",
     "No test uses an interpreter from more than one thread.",
     [INTERP, STATE, EX + "var_assignment_expression.py"],
     [("each call keeps its result in local variables", INTERP), ("variables are stored by single dictionary operations", STATE)],
     [CONST, VARS, SET], ["results of concurrent calls on one PythonDiceInterpreter"])

prop("C09", "Charts are right and leave the caller's plotting and memory alone",
     "A chart shows the distribution it was asked for, whatever was drawn before, at the same time, or by a drawing that failed or was interrupted half-way. Drawing leaves the caller's own plots, current figure and plotting settings as they were, and keeps nothing alive once the image is dropped, however many charts are drawn.",
     ["histories", "schedules", "fault_sequences"],
     "For every history of chart calls mixed with the caller's own plotting, every drawing fault and interruption, and every interleaving of drawing threads.",
     "The tests compare single charts with stored images; none looks at the caller's plotting state, at leaks, at failures, or at two drawings at once.",
     [DIST, INTERP],
     [("every chart is drawn on a figure of its own and rendered to memory", DIST + " _make_histogram, _make_line_plot")],
     [("plotting state", "figures and settings of the process", "matplotlib")],
     ["images returned by get_histogram, get_at_least_histogram, get_at_most_histogram and the compare charts", "matplotlib.pyplot state"])

prop("C10", "A session means its lines in order, however it is cut into calls",
     "An interpreter's answers are those of its lines taken one after the other: cutting a program into any number of calls, repeating calls, mixing rolls, bounds, analyses, charts and cost estimates, or assigning a variable any number of times changes no answer beyond what the lines say. A use of a variable stays tied to the assignment in force when it was made, and a new interpreter built on the surviving variables of another carries on exactly where that one stopped.",
     ["histories", "programs", "crash_points"],
     "For every sequence of calls in any modes, every cut of a program into calls, every restart point and every number of reassignments.",
     "The tests use one call, or the same call twice, on a fresh interpreter, with at most two assignments of a name.",
     [INTERP, STATE, EX + "var_assignment_expression.py", EX + "get_var_expression.py", SRC + "constraint/constraint_set.py", SRC + "constraint/constraint_merger.py"],
     [("all memory between lines is the variable state", STATE), ("every assignment makes a new version of the name", STATE + " set_var")],
     [CONST, VARS, SET], ["every PythonDiceInterpreter call", "starting_state of a new PythonDiceInterpreter"])

prop("C11", "A parsed line is inert and can be evaluated again at any time",
     "Reading a line changes no variable and draws no random number. The expression it yields can be kept and evaluated any number of times, in any order and mode, interleaved with other lines, and each evaluation gives what reading the same line afresh at that moment would give.",
     ["histories", "programs", "fault_sequences"],
     "For every line, every number and order of evaluations of kept expressions, and every change of the variables between reading and evaluating, including evaluations that fail or are interrupted.",
     "The tests evaluate every parsed expression once, right after parsing it.",
     [PARSER, EX + "get_var_expression.py", EX + "drop_keep_expression.py", EX + "dice_expression.py", EX + "var_assignment_expression.py"],
     [("expressions hold only their text and operands and consult the variables on every evaluation", EX)],
     [CONST, VARS], ["PythonDiceParser.parse", "methods of the returned expression"])

# ------------------------------------------------------------------ not decided by simulation (pure functions of the input)
prop("C12", "The reported law of a dice is exact",
     "The distribution reported for a dice expression, including keep and drop and custom sides, is the exact probability law of those dice.",
     ["inputs", "programs"], "For every dice expression.",
     "The tests compare a handful of dice with tables.",
     [EX + "dice_expression.py", EX + "drop_keep_expression.py", EX + "dice_expression_helper.py", DIST],
     [("convolution of face tables", DIST + " __add__")])
prop("C13", "Operators, precedence and truth follow the documented language",
     "Each operator computes the documented function in every mode, operators bind in the documented order, and values above 0 count as true.",
     ["inputs", "programs"], "For every expression.",
     "The tests cover single operators on small operands.",
     [SRC + "python_dice_syntax_objects.py", OUT, EX],
     [("precedence table", SRC + "python_dice_syntax_objects.py PRECEDENCE")])
prop("C14", "Text outside the language is rejected with a position",
     "Every text that is not in the language raises an error that shows where it went wrong, and no text in the language is rejected.",
     ["inputs"], "For every text.", "The tests try a few malformed texts.",
     [LEXER, PARSER, SRC + "syntax/"],
     [("lexer error message with an arrow", LEXER + " lex")])
prop("C15", "Minimum and maximum are attained and never passed",
     "The reported minimum and maximum of a program are values it can produce, and it can produce none outside them.",
     ["inputs", "programs"], "For every program.", "The tests compare small cases with tables.",
     [EX, DIST], [("bounds of the distribution", DIST + " min, max")])
prop("C16", "At-least, at-most and average agree with the distribution",
     "The cumulative forms and the average reported for a distribution are those of its probabilities, which add up to one.",
     ["inputs", "programs"], "For every distribution.", "The tests compare small cases with tables.",
     [DIST], [("cumulative sums over the sorted support", DIST + " at_least, at_most")])
prop("C17", "The estimated cost grows with the work a program asks for",
     "The estimated cost of a program is computed without evaluating it and never shrinks when dice, sides or lines are added.",
     ["inputs", "programs"], "For every program.", "The tests compare small cases with tables.",
     [EX, INTERP], [("sum of the costs of the parts", EX + " estimated_cost")])
prop("C18", "Merging constraints is independent of order",
     "Combining what outcomes say about variables gives the same set in any order and grouping, and is impossible exactly when two of them disagree.",
     ["inputs"], "For every set of constraints.", "The tests merge two or three constraints in one order.",
     [SRC + "constraint/constraint_merger.py", SRC + "constraint/constraint_set.py", SRC + "constraint/var_value_constraint.py"],
     [("pairwise merging until nothing merges", SRC + "constraint/constraint_merger.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as out:
    for p in P:
        out.write(json.dumps(p) + "\n")
