#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Literal text, comments and escaped blocks are reproduced exactly",
  "Rendering a template reproduces every byte of literal text exactly once and in order, whatever stands around it, including a `$` or `#` that does not begin a reference or directive. "
  "A `##` comment removes only the text from the `##` up to and including the end of that line (or of the template), and `#[[...]]#` emits the text between the brackets verbatim, unevaluated. "
  "This holds wherever the text stands: at the start, at the end, between references and directives, and inside block bodies.",
  ["inputs", "programs"], "all sequences of lexical fragments (plain text, references, comments, escapes, lone special characters, blocks) up to a length",
  "The compile tests contain one comment and one escaped block, each in a single position; text lost or duplicated next to another construct is a matter of which fragments are adjacent.",
  ["parser/parser.go", "parser/matcher/velty.go", "parser/matcher/whitespace.go", "stmt.go"],
  [("top-level scan for special characters", "parser.Parse"), ("escaped block", "parser.checkIfEscaped"), ("literal append", "Planner.compileAppend")],
  observe=["State.Buffer after Execution.Exec"])

p("C02", "Compiling any source terminates; unbalanced blocks are rejected",
  "Compiling any byte sequence as a template returns, in bounded time, either a plan or an error; it never panics or hangs. "
  "A template whose `#if`/`#foreach`/`#for` blocks are not all closed by `#end`, or which has an `#end`, `#else` or `#elseif` with no block open for it, is rejected with an error, and a properly nested template is accepted.",
  ["inputs", "programs"], "all sequences of template tokens up to a length, over an alphabet of every directive, delimiter, operator, quote and whitespace character",
  "The parser tests use well-formed templates only, apart from a handful; a crash or a wrongly accepted nesting needs one particular token order.",
  ["parser/parser.go", "parser/builder.go", "parser/select.go", "parser/operand.go", "parser/range.go", "parser/matcher/identity.go", "parser/matcher/string.go"],
  [("statement stack", "parser.Builder"), ("unterminated check", "parser.Parse")],
  observe=["Planner.Compile result"])

p("C03", "References to unknown variables render as written",
  "A reference whose root variable is not known to the planner renders exactly the source text of the reference as the template wrote it, in every form: bare, braced, silent (`$!`), with field paths, indexes or calls. "
  "It has no other effect on the output, and looping over such a reference runs the body zero times.",
  ["programs"], "all reference forms and path shapes up to a depth, in every statement position",
  "A few undefined references are rendered by the tests; which form keeps its exact spelling depends on the form, the path and the position.",
  ["parser/select.go", "selector.go", "est/stmt/select.go", "stmt.go"],
  [("full name kept by the parser", "parser.MatchSelector"), ("placeholder rendering", "est/stmt.directAppender.appendSelectorName"), ("empty loop", "velty.nop")])

p("C04", "Operators compute the mathematical result for every operand form",
  "For int, float64, string and bool operands, and for mixed int and float64 operands (computed as float64), `+ - * /`, `== != < <= > >=`, `&& ||` and `!` yield the result the same operation has in Go. "
  "The result does not depend on where the operands come from (literals, template variables, struct fields, pointer targets, slice elements, map entries, function results, sub-expressions) nor on where it is used (assigned, tested in a condition, passed to a function). "
  "A combination that is not supported is rejected by the compiler, never computed wrongly.",
  ["programs", "inputs"], "every operator x operand kind pair x operand source pair x boundary value pair",
  "Roughly a dozen operator and source combinations are exercised with one value each; there are separate code paths per operator, kind, and direct or indirect operand.",
  ["binary.go", "unary.go", "est/expr/binary.go", "est/expr/int.go", "est/expr/float.go", "est/expr/string.go", "est/expr/bool.go", "est/expr/ptr.go", "est/op/operand.go", "est/op/upstream.go"],
  [("operator dispatch", "est/expr.Binary, est/expr.Unary"), ("operand unification", "Planner.compileBinary")])

p("C05", "Operators group by precedence and from left to right",
  "An expression groups as in Go: `!` binds tightest, then `* /`, then `+ -`, then `== != < <= > >=`, then `&&`, then `||`; operators of equal precedence group from left to right and parentheses override. "
  "Whitespace between tokens and redundant parentheres around sub-expressions do not change the value, in assignments, conditions and function arguments alike.".replace("parentheres", "parentheses"),
  ["programs"], "all expression trees up to a number of operators, over all operators, printed with all parenthesisation choices",
  "The tests evaluate a few two-operator expressions; grouping errors appear only for particular operator sequences and parenthesis positions.",
  ["parser/operand.go", "parser/expr.go", "parser/assign.go", "parser/token.go"],
  [("equation building", "parser.addEquationIfNeeded"), ("operand parsing", "parser.matchOperand")])

p("C06", "An if chain runs exactly the first branch whose condition holds",
  "Executing `#if/#elseif/#else/#end` renders exactly one branch: the first whose condition holds, or the else branch, or nothing when none holds and there is no else. "
  "A condition holds for a true bool, a non-zero number, a non-empty string, a non-empty slice and a non-nil pointer, and conditions after the first one that holds are not evaluated.",
  ["programs", "inputs"], "all chains up to a length, with and without else, nested, over all truth assignments and all condition kinds and sources",
  "A handful of chains are tested, each with one truth assignment.",
  ["est/stmt/if.go", "stmt.go", "ast/stmt/ifstmt.go", "parser/builder.go"],
  [("branch selection", "est/stmt.If"), ("truthiness", "est/stmt.conditionOperand"), ("chain building", "ast/stmt.If.AddCondition")])

p("C07", "foreach visits every element exactly once and in order",
  "`#foreach` runs its body once per element of the slice, in order, with the item variable equal to that element, for any element type (ints, floats, strings, bools, small integers, structs, pointers, slices, interfaces) and any length including zero and nil. "
  "A literal range `[a...b]` counts up from a to b-1 when a<b and otherwise counts down from a to b+1. "
  "Loops nest and follow one another without disturbing each other, and the item keeps the last visited element after the loop.",
  ["programs", "inputs"], "every element type x slice source x length, every small range, all nestings up to a depth",
  "The tests loop over a few string and struct slices of fixed length.",
  ["est/stmt/foreach.go", "stmt.go", "range.go", "parser/range.go"],
  [("iteration", "est/stmt.ForEach"), ("range expansion", "Planner.compileRange")])

p("C08", "A for loop runs its init, condition, body and post in order",
  "`#for(init; cond; post)` executes init once, then runs body and post for as long as the condition holds, testing it before every iteration. "
  "Post accepts `++`, `--`, `+=n`, `-=n`, `*=n` and `/=n` on the loop variable with their usual meaning, and the variable's final value is visible after the loop.",
  ["programs"], "all loops over small start values, bounds, comparison operators and post forms, with nesting",
  "The tests have one for loop, counting up by one.",
  ["est/stmt/for.go", "stmt.go", "parser/range.go", "parser/token.go", "parser/lex.go"],
  [("loop execution", "est/stmt.For"), ("post parsing", "parser.matchFor, parser.matchForPost")])

p("C09", "Statements of a block all run, once, in source order",
  "The statements of a template and of every nested block body (branches, loop bodies, evaluated templates) are executed each exactly once per entry, in source order, for any number of statements from zero up. "
  "The output is the concatenation of what they render.",
  ["programs"], "all statement counts through and well beyond every specialised arity, at every block position",
  "Test templates have few statements per block; each block size up to a limit has its own hand-written code path.",
  ["est/stmt/block.go", "compile.go", "stmt.go", "block.go"],
  [("fixed-arity and generic block executors", "est/stmt block")])

p("C10", "Assignments define and update variables as written",
  "After `#set($x = e)` every later read of $x in the same execution yields the value e had when the assignment ran, until the next assignment to it; a first assignment defines the variable, and one that is not executed leaves the variable's previous or zero value. "
  "Assigning to a field of a struct or pointed-to struct updates exactly that field, and assigning bools, ints, floats (32 and 64 bit), small and unsigned integers, strings, pointers, slices, maps and structs stores the value unchanged; no other variable or field changes. An assignment to a variable of another type converts numbers, strings and bools, or is rejected; a conversion that fails is reported as an error and leaves the variable unchanged.",
  ["programs", "histories"], "all short sequences of assignments over several variables and fields, of every kind and source, with and without untaken branches",
  "Tests assign a few kinds from a few sources; wrong copies show only for one kind through one indirection.",
  ["est/stmt/assign/assign.go", "est/stmt/assign/int.go", "est/stmt/assign/float.go", "est/stmt/assign/bool.go", "est/stmt/assign/string.go", "est/stmt/assign/map.go", "stmt.go"],
  [("assignment executors", "est/stmt/assign.Assign"), ("implicit definition", "Planner.adjustSelector")])

p("C11", "Field paths read the value the data holds",
  "A path through nested structs, struct pointers (nested at any level), embedded structs and interface-typed or basic-typed leaf fields renders the value Go's own field access gives, for any struct layout and field order. "
  "A path that meets a nil pointer renders the zero value of the leaf instead of failing, and a path naming a field the type does not have is rejected by the compiler.",
  ["inputs", "programs"], "all struct shapes from a grammar of field kinds and nestings up to a depth, with every nil or non-nil pointer assignment",
  "Tests read a few fixed struct types; offsets are computed by hand for each combination of embedding, pointer and position.",
  ["planner.go", "cyclic.go", "est/op/selector.go", "est/op/upstream.go", "est/type.go"],
  [("selector creation", "Planner.createSelectors"), ("path resolution", "Planner.selector"), ("pointer walk", "est/op.Upstream")])

p("C12", "Indexing reads the addressed element",
  "`$s[i]` yields the i-th element of a slice and `$m[k]` the entry of a map under an equal key, with i and k being literals, variables or expressions, and with the container being a variable, a struct field, a pointer target, an element of another container, or held in an interface. "
  "A missing map key yields the zero value of the element type, and the path may continue after the index with fields, indexes or calls.",
  ["programs", "inputs"], "every container kind and source x every in-range index or key x index expression form x continuation",
  "Tests index a few containers with one key each.",
  ["planner.go", "est/op/slice.go", "est/op/map.go", "est/op/iface.go", "keys/normalize.go"],
  [("index selectors", "Planner.matchCall"), ("slice access", "est/op.Slice"), ("map access", "est/op.Map"), ("interface access", "est/op.Interface")])

p("C13", "Declared variables, embeddings and tags resolve to their own data",
  "After declaring any set of variables (defined with aliases or embedded, with `velty` tags giving one or several names, a prefix, or omission), in any order, each accessible name reads exactly the field it denotes, omitted fields are rejected, and values set on a state are read back unchanged and affect nothing else. "
  "A declaration that would give two fields the same name is refused with an error. Declaring any type, including self-referential and mutually recursive ones, terminates, and setting a value for an undeclared variable returns an error.",
  ["configurations", "programs"], "all short sequences of declarations over a family of types with every tag form, and all type graphs of a few nodes",
  "Tests declare a handful of fixed combinations.",
  ["planner.go", "cyclic.go", "tag.go", "est/type.go", "est/state.go", "est/op/selectors.go"],
  [("declaration", "Planner.DefineVariable, Planner.EmbedVariable"), ("tag parsing", "velty.Parse"), ("value setting", "State.SetValue, State.EmbedValue")])

p("C14", "A plan is reusable and states are isolated from one another",
  "Executing a plan depends only on the plan and on the values held by the variables of the state it is given: any number of executions on fresh states with the same values give the same output, errors and final variable values, whatever other states of the same or another plan have been created, set or executed before or in between. "
  "Executing never changes the plan, the planner, or another state, and a state that is reset and given the same values again renders the same output (for templates that assign the variables they introduce before reading them).",
  ["histories"], "all interleaved histories of create/set/execute/reset operations over several states and plans up to a length",
  "Tests execute each plan once on one state (benchmarks repeat the same one).",
  ["compile.go", "est/state.go", "est/execution.go", "est/stmt/foreach.go", "literal.go", "consts.go", "est/op/upstream.go"],
  [("state allocation", "Planner.stateProvider"), ("shared literals", "Planner.literalExpr"), ("reset", "State.Reset")])

p("C15", "Concurrent executions of one plan behave as if run alone",
  "Any number of goroutines may execute the same plan at the same time, each on its own state, and every one of them obtains exactly the output and error it would obtain running alone, without data races, including when the template evaluates nested templates through `#evaluate`.",
  ["schedules"], "all interleavings of 2-3 concurrent executions at shared-memory access granularity up to a preemption bound",
  "Every test is single-threaded; lost cache entries, torn maps and duplicated names need a particular interleaving.",
  ["cache.go", "evaluate.go", "planner.go", "est/type.go", "est/op/func.go", "consts.go"],
  [("evaluation cache", "velty.cache"), ("sub-planner", "Planner.New"), ("function registry", "est/op.Functions")])

p("C16", "The state pool hands each state to one holder at a time",
  "A state obtained from a pool is held by nobody else until it is put back, is ready to use (empty output, no errors), and an execution on it renders exactly what it renders on a brand-new state given the same values, whatever the state was used for before. "
  "Taking from the pool never blocks, for any pool size, any history of takes and puts, and any interleaving of concurrent users, and states that were put back while fewer than the pool's size were held are reused.",
  ["histories", "schedules"], "all take/use/put histories up to a length for several pool sizes, and all interleavings of concurrent users",
  "One pool test takes and puts sequentially.",
  ["pool.go", "est/state.go"],
  [("pool", "velty.Pool"), ("claim flag", "State.Take, State.Reset")])

p("C17", "Evaluating a template string equals inlining it",
  "`#evaluate(e)` renders exactly what the template held in the string value of e would render if it stood in place of the directive, with the variables declared and assigned up to that point and their values; it does not change the enclosing variables. "
  "This holds for literals, variables and expressions, inside branches and loops, nested, for repeated and for changing strings, and with any declared names, aliases, embedded types, functions and options.",
  ["programs", "histories"], "all templates from a grammar, evaluated in every position",
  "Two evaluate templates are tested.",
  ["evaluate.go", "planner.go", "est/type.go", "est/op/selectors.go"],
  [("evaluation", "velty.evaluator"), ("scope copy", "Planner.New, Type.Snapshot, Selectors.Snapshot")])

p("C18", "The evaluation cache is invisible",
  "For every cache size (including zero) and every history of evaluated strings, over one or several states, plans and evaluate sites, the output is the same as with no cache at all. "
  "The cache never returns the plan of another string or of another scope.",
  ["histories", "configurations"], "all histories of evaluated strings up to a length over a small alphabet, for every cache size from zero to beyond the alphabet, with several evaluate sites",
  "No test evicts from the cache.",
  ["cache.go", "evaluate.go"],
  [("lookup, insertion and eviction", "velty.cache")])

p("C19", "Errors raised while rendering are reported, once, and never lost",
  "If an error is raised during execution, Exec returns an error that wraps the first one raised, and with no error raised it returns nil. "
  "By default rendering continues after an error with the zero value as the call's result and the state lists every error raised, in order; with panic-on-error enabled rendering stops at the first error, everything rendered before it is kept, nothing after it is rendered, and Exec still returns rather than panics. "
  "A reset state carries no errors over, and the same contract holds for errors raised inside branches, loops, arguments and evaluated templates.",
  ["programs", "fault_sequences", "histories"], "all placements of failing calls over all block structures up to a size, both error modes, over reuse histories",
  "Tests raise one error at top level.",
  ["est/state.go", "est/execution.go", "compile.go", "est/op/func.go", "functions/errors.go"],
  [("error recording", "State.AddError"), ("recovery", "Execution.Exec")])

p("C20", "A function call runs exactly once with the arguments written",
  "A function or method call in a template invokes the registered Go function exactly once per evaluation, with the receiver (if any) first and the arguments in order and unchanged, and yields the function's result, for every supported signature. "
  "Calls chain and nest with arguments evaluated left to right, and a standalone function, a kind function, a namespace method and a receiver call agree on the same Go function. "
  "A call whose arguments do not fit the function is refused when compiling or reported as an error, never made.",
  ["programs", "inputs"], "every registered signature shape x call form x argument source x chaining depth",
  "Some twenty signatures have hand-written fast paths, of which tests use a few.",
  ["est/op/func.go", "planner.go", "parser/select.go", "parser/matcher/argument.go", "est/op/upstream.go"],
  [("signature dispatch", "est/op.Functions"), ("argument operands", "Planner.selectorOperands")])

p("C21", "Built-in function namespaces agree with the Go standard library",
  "Every method of the built-in strings, math, strconv, slices, maps, types, time, json and errors namespaces returns what its Go counterpart of the same name and meaning returns for every argument, called from Go or from a template.",
  ["inputs"], "every method x all argument tuples from boundary alphabets",
  "Tests cover a few methods with one argument each.",
  ["functions/strings.go", "functions/math.go", "functions/strconv.go", "functions/slices.go", "functions/maps.go", "functions/types.go", "functions/json.go", "functions/errors.go", "functions/time.go"],
  [("namespaces", "functions package")])

p("C22", "The output buffer is the concatenation of what was appended",
  "For every initial buffer size and every sequence of appends (bytes, strings, integers, floats, bools) and resets, the buffer's content is the concatenation of the decimal, boolean and string forms of the values appended since the last reset. "
  "Integer formatting is exact for every 64-bit value.",
  ["histories", "configurations", "inputs"], "all operation sequences up to a length over all initial sizes up to a bound; all decimal length and sign boundaries of 64-bit integers",
  "The buffer has no test of its own; growth is exercised with one default size.",
  ["est/buffer.go", "utils/itoa.go"],
  [("growth", "est.Buffer"), ("integer formatting", "utils.AppendInt")])

p("C23", "HTML escaping covers every dynamic string and nothing else",
  "With HTML escaping enabled, every string that comes from data (variables, fields, elements, map entries, call results, evaluated references, interface and JSON renderings) is rendered HTML-escaped exactly once, and literal template text is rendered unescaped. "
  "With escaping disabled nothing is escaped.",
  ["programs", "inputs"], "every value source x every special character combination x both settings x position",
  "One escaping test with one field.",
  ["est/buffer.go", "est/stmt/select.go", "options.go", "evaluate.go"],
  [("escaping on append", "est.Buffer.AppendString")])

p("C24", "Compilations of one planner do not affect each other's results",
  "A planner may compile any sequence of templates: each compiled plan, executed on states it created, renders what the same template renders when compiled by a fresh planner with the same declarations, whatever was compiled before it, after it, or failed to compile in between, except that variables assigned by earlier templates count as declared. "
  "A scope copied from a planner behaves like it, and declaring or compiling in the copy never affects the planner.",
  ["histories"], "all sequences of compilations and executions up to a length over a set of templates, including failing ones",
  "Every test uses a fresh planner per template.",
  ["planner.go", "compile.go", "est/type.go", "est/op/selectors.go"],
  [("accumulators and names", "Planner.accumulator"), ("state layout", "Type.AddField")])

p("C25", "Every value kind renders in its documented form",
  "A reference to a string, int, bool or float64 value (variable, field, field behind pointers, element, map entry, call result or held in an interface) renders its plain, decimal, true/false or shortest decimal form, and an interface value renders by its dynamic type with times in RFC 3339; any other statically typed value, pointers included, renders as its JSON encoding. "
  "The rendering of a value is the same from every source.",
  ["inputs", "programs"], "every value kind x boundary value x source x position",
  "Tests print strings, ints and one struct.",
  ["est/stmt/select.go", "est/buffer.go", "est/op/operand.go"],
  [("rendering", "est/stmt.directAppender")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
