import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=("projectm_eval_code_execute return value","values behind projectm_eval_context_register_variable pointers"),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["projectm-eval/"+f if not f.startswith("ns-") else f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
T="The 8 unit tests evaluate a handful of fixed expressions once; "
p("L01","Programs execute with the documented sequential semantics",
 "Executing a compiled program evaluates its expressions strictly left to right (operands, arguments, list items), and leaves every variable and memory cell, and the returned value, exactly as the documented meaning of each operator and control function prescribes. The value of a list is the value of its last expression, and an empty program returns 0.",
 ["programs","histories"],"every well-formed program whose operands are not modified while being evaluated, in every variable and memory state, any number of executions",
 T+"the property quantifies over all programs and all states they run in.",
 ["TreeFunctions.c","Compiler.y","CompilerFunctions.c","api/projectm-eval.c"],
 [("tree-walking evaluators","TreeFunctions.c prjm_eval_func_*"),("grammar actions build the tree","Compiler.y"),("result extraction","api/projectm-eval.c projectm_eval_code_execute")],
 [("variables","named values of a context","TreeVariables.c"),("memory","cells of the local/global buffer","MemoryBuffer.c")])
p("L02","Compile-time optimisation is unobservable",
 "Constant folding and the removal of useless list items never change what a program computes: every assignment and memory effect still happens, in order and as often as written, and the same value is returned as by the unoptimised program.",
 ["programs"],"every instruction list nesting, in argument, parenthesis and top-level position, with any mix of constant, variable, assigning and memory-reading items",
 T+"two of them contain three-item lists; wrong pruning or folding appears only with particular nestings of pure and state-changing items.",
 ["CompilerFunctions.c","TreeFunctions.c"],[("constant folding","CompilerFunctions.c prjm_eval_compiler_create_expression"),("list pruning","CompilerFunctions.c prjm_eval_compiler_add_instruction"),("is_const_eval / is_state_changing table","TreeFunctions.c intrinsic_function_table")])
p("L03","An assignment changes its target and nothing else",
 "Executing code modifies only the variables and cells that are targets of executed assignments or memory functions: results of operators and functions, assigned to or not, never leak into a variable that is merely read. Assigning to something which is not a reference changes nothing and still yields the assigned value.",
 ["programs","histories"],"every placement of variable references in value, argument, condition and loop positions, and every form of assignment target",
 T+"no test looks at variables that must stay unchanged.",
 ["TreeFunctions.c"],[("value/reference return protocol","TreeFunctions.c assign_ret_val / assign_ret_ref"),("per-iteration reset of the result pointer","TreeFunctions.c execute_loop / execute_while / exec3")])
p("L04","Conditionals evaluate exactly the required operands",
 "if(), ?:, && and || evaluate their first operand once, evaluate only the operand the result requires, and at most once; the value or reference of the selected branch is the result, so assigning to a conditional assigns to the selected variable or cell.",
 ["programs"],"all nestings of conditionals with side effects in any operand",
 T+"none contains a conditional with side effects.",
 ["TreeFunctions.c","Compiler.y"],[("if","TreeFunctions.c prjm_eval_func_if"),("short circuit","TreeFunctions.c band_op / bor_op"),("operator to function mapping","Compiler.y")])
p("L05","Loops run the exact number of times and always stop",
 "loop(n, body) evaluates n once and the body exactly n times (truncated, none if below 1), while(body) repeats until the body yields 0; both stop after 2^20 iterations whatever the count or body, returning the last result.",
 ["programs","inputs"],"all counts including huge, negative, fractional and non-finite ones, bodies that modify the count, nested loops",
 "The one list/while test runs a few iterations; the cap and extreme counts are never reached.",
 ["TreeFunctions.c"],[("iteration cap","TreeFunctions.c MAX_LOOP_COUNT"),("loop/while","TreeFunctions.c execute_loop / execute_while")])
p("L06","Operators group by the documented precedence",
 "Every expression without parentheses means the same as its fully parenthesised form under the language's operator precedence and associativity (assignment groups, ?:, boolean, bitwise, equality, relational, additive, multiplicative, modulo, not, power, unary, subscript).",
 ["programs"],"all operator sequences",
 "Two precedence tests cover three of some four hundred operator pairs.",
 ["Compiler.y","Scanner.l"],[("precedence declarations","Compiler.y %left/%right")])
p("L07","Comments, whitespace and letter case never change a program",
 "Inserting whitespace or comments between tokens, and changing the case of names, constants or hex digits, changes neither the outcome of compiling nor any result, in whatever locale the application has set; compiling and executing print nothing to the standard streams.",
 ["programs","inputs"],"every token boundary, comment contents of any bytes, nested and unterminated comment-like text, mixed case",
 "No test has a comment or mixed case.",
 ["Scanner.l","CompilerFunctions.c","TreeVariables.c"],[("comment start conditions","Scanner.l ML_COMMENT / IL_COMMENT"),("case-insensitive lookup","CompilerFunctions.c, TreeVariables.c")],observe=("compile result","execution result","bytes on stdout/stderr"))
p("L08","Literals denote their exact value",
 "Decimal, fractional, exponential, hexadecimal, character and named constants ($PI, $E, $PHI) evaluate to the documented value, correctly rounded to the library's number type, wherever they appear in any letter case and in whatever locale the application has set.",
 ["inputs"],"all literal spellings",
 "Tests use small integers only.",
 ["Scanner.l"],[("literal rules","Scanner.l NUM actions")])
p("L09","Exactly the well-formed programs compile",
 "Compiling succeeds for every program of the documented grammar (names, arity, lists, subscripts, nesting within the parser's depth limit) and returns no code for anything else.",
 ["inputs","programs"],"every byte string without NUL, in particular every program one token away from a valid one",
 "No test contains an invalid program.",
 ["Compiler.y","Scanner.l","CompilerFunctions.c"],[("grammar","Compiler.y"),("arity check","CompilerFunctions.c prjm_eval_compiler_create_function"),("invalid token","Scanner.l last rule")],observe=("projectm_eval_code_compile result",))
p("L10","A failed compile is diagnosable and leaves the context usable",
 "When compiling fails, an error message is available with the one-based line and zero-based column of the first offending token; when it succeeds there is no error, whatever happened before. A failed compile changes no variable value, memory cell or previously compiled code; executing the null handle it gave does nothing and gives 0, and destroying it does nothing.",
 ["inputs","histories"],"all invalid programs, any history of earlier failed and successful compiles and executions",
 "No test compiles an invalid program.",
 ["CompileContext.c","CompilerFunctions.c","Scanner.l","api/projectm-eval.c"],[("yyerror","CompilerFunctions.c prjm_eval_error"),("location tracking","Scanner.l YY_USER_ACTION"),("error reset","CompileContext.c prjm_eval_compile_code")],
 [("error","message and position of the last compile","CompileContext.c")],observe=("projectm_eval_get_error","projectm_eval_code_compile"))
p("L11","Executing never fails: every operation is total",
 "No program can crash, trap, read or write outside the library's own memory or hang beyond the loop limits, whatever values its variables, cells and constants hold; division and remainder by zero yield 0.",
 ["programs","inputs"],"every operand combination including infinities, NaN, denormals, extreme magnitudes and integer minimum, at compile time (folding) and run time",
 "No test divides by zero or uses an extreme value.",
 ["TreeFunctions.c","MemoryBuffer.c"],[("zero divisor guards","TreeFunctions.c div/mod/divop/modop"),("index conversion and bounds","MemoryBuffer.c prjm_eval_memory_index")])
p("L12","Compound assignment equals the expanded assignment",
 "a OP= b leaves a and returns exactly what a = a OP b does, for every operator, and evaluates the target once; the result is a reference to the target.",
 ["programs","inputs"],"all eight operators, variable, register and memory targets, all operand values, chained compound assignments",
 "No test uses a compound assignment.",
 ["TreeFunctions.c","Compiler.y"],[("*op evaluators","TreeFunctions.c addop..powop")])
p("L13","Comparisons and boolean operators are 0/1 and consistent",
 "Every comparison, boolean operator and function returns exactly 0 or 1; for finite operands that are equal or differ by at least 1e-300 (1e-41 in single precision) exactly one of <, ==, > holds, <= and >= are their unions, != is the negation of ==, and operator and function spellings of the same operation agree.",
 ["inputs"],"all operand pairs including signed zeros, adjacent values, extreme magnitudes and NaN, as literals, variables and cells",
 "No comparison is tested.",
 ["TreeFunctions.c"],[("comparison evaluators","TreeFunctions.c equal..aboveeq, bnot, band/bor")])
p("L14","Compiled code is repeatable and independent",
 "The effect of executing a piece of code depends only on the current variables and memory, not on how often it ran, what other code was compiled, run or destroyed, or earlier intermediate results; recompiling the same text gives code with the same behaviour.",
 ["histories","programs"],"all interleavings of compile, execute, destroy and variable writes in one or several contexts",
 "Each test compiles one program and executes it once.",
 ["TreeFunctions.c","CompilerFunctions.c","CompileContext.c"],[("temporaries in tree nodes are initialised on each use","TreeFunctions.c ctx->value"),("each code handle owns its tree","CompileContext.c")])
p("L15","The single-precision build has the same semantics",
 "Built with 4-byte numbers the library accepts the same programs and computes the same results, with every value rounded to single precision.",
 ["configurations","programs"],"all programs in the single-precision configuration",
 "The tests are only built with 8-byte numbers.",
 ["api/projectm-eval.h","TreeFunctions.c","Scanner.l","MemoryBuffer.c"],[("PRJM_EVAL_F","api/projectm-eval.h"),("close factors and invsqrt","TreeFunctions.c")])
p("N01","Mathematical functions compute what they are documented to",
 "sin, cos, tan, asin, acos, atan, atan2, exp, log, log10, pow, sqrt, sqr, abs, sign, min, max, floor, ceil, int (truncation), sigmoid and invsqrt return the documented function of their arguments (to floating-point accuracy; invsqrt to its documented approximation), in the documented argument order.",
 ["inputs"],"all arguments including domain edges, zeros, infinities and NaN, constant and variable",
 "No function is tested.",
 ["TreeFunctions.c"],[("math evaluators","TreeFunctions.c")])
p("N02","rand() is bounded and drawn anew on every evaluation",
 "rand(n) always yields a value between 0 and n (0 and 1 if n is below 1), every evaluation draws a new value at run time even with a constant argument or repeated execution, and the values cover the whole range.",
 ["inputs","histories"],"all arguments, any sequence of executions and contexts",
 "rand() is never tested.",
 ["TreeFunctions.c"],[("Mersenne twister","TreeFunctions.c prjm_eval_genrand_int32"),("not constant-evaluable","TreeFunctions.c intrinsic_function_table")])
p("N03","Integer operators work on truncated integers",
 "%, &, | (and %=, &=, |=) truncate both operands toward zero and yield the integer remainder with the sign of the dividend, bitwise AND and bitwise OR; a zero divisor yields 0.",
 ["inputs"],"all operand pairs representable as 32-bit integers, negative, fractional and boundary values",
 "One precedence test uses % on small positive numbers.",
 ["TreeFunctions.c","Scanner.l","Compiler.y"],[("mod/bitwise evaluators","TreeFunctions.c"),("operator tokens","Scanner.l")])
p("M01","Memory cells are distinct, initially zero and bounded",
 "Each index 0..8388607 of megabuf and gmegabuf denotes its own cell, which reads 0 until written and then the last value written, through any spelling of the access; fractional indices denote the cell they round to. Indices outside read 0 and writing them changes nothing.",
 ["inputs","histories"],"all indices including block boundaries, fractional, negative, huge and non-finite ones, all access spellings",
 "No memory access is tested.",
 ["MemoryBuffer.c","TreeFunctions.c","Compiler.y"],[("index to block/offset","MemoryBuffer.c prjm_eval_memory_allocate"),("index conversion","MemoryBuffer.c prjm_eval_memory_index"),("subscript syntax","Compiler.y")],
 [("blocks","128 lazily allocated blocks of 65536 cells","MemoryBuffer.c")])
p("M02","memset fills exactly the requested range",
 "memset(dest, value, count) sets exactly the cells dest..dest+count-1 that exist to value and changes nothing else, for any range, across block boundaries, trimmed at both ends of the buffer.",
 ["inputs"],"all destinations and counts including negative, fractional, huge and non-finite ones, on any memory contents",
 "memset is not tested.",
 ["MemoryBuffer.c"],[("trimming and block loop","MemoryBuffer.c prjm_eval_memory_set")])
p("M03","memcpy moves exactly the requested range",
 "memcpy(dest, src, count) makes each destination cell equal to what the corresponding source cell held before the call, as if through a temporary copy even if the areas overlap, trimmed to the part of both areas inside the buffer, and changes nothing else.",
 ["inputs"],"all source, destination and count values, overlapping in both directions, across block boundaries, out of range at either end",
 "memcpy is not tested.",
 ["MemoryBuffer.c"],[("trimming, direction and chunking","MemoryBuffer.c prjm_eval_memory_copy")])
p("M04","Buffers and variables are shared or isolated exactly as created",
 "Contexts share gmegabuf and reg variables exactly if they were created with the same buffer or array (or both with the built-in one); megabuf and named variables are private to a context, and no operation on one context changes the private state of another.",
 ["histories"],"all sets of contexts, buffers and register arrays in any creation, execution and destruction order",
 "All tests use one context.",
 ["CompileContext.c","MemoryBuffer.c","TreeVariables.c","CompilerFunctions.c"],[("buffer selection","CompileContext.c prjm_eval_create_compile_context"),("binding functions to buffers","CompilerFunctions.c prjm_eval_compiler_create_expression"),("built-in buffer","MemoryBuffer.c prjm_eval_memory_global")])
p("M05","Freeing memory resets exactly that memory",
 "Freeing a context's memory makes every megabuf cell of that context read 0 again and affects nothing else, destroying the global buffer makes the built-in gmegabuf start empty for later contexts while reg variables keep their values, and freembuf() changes no memory.",
 ["histories"],"all sequences of writes, frees, re-use by existing code, and re-creation",
 "No test frees memory.",
 ["MemoryBuffer.c","TreeFunctions.c","api/projectm-eval.c"],[("prjm_eval_memory_free","MemoryBuffer.c"),("prjm_eval_memory_destroy_global","MemoryBuffer.c"),("freembuf","TreeFunctions.c")])
p("V01","A variable name denotes one storage location for the context's life",
 "Within a context, every spelling of a name differing only in the case of letters, in code compiled before or after and in registrations, refers to the same location; different names never share one, new variables start at 0, and registered pointers stay valid and current until the context is destroyed.",
 ["histories","inputs"],"any number of variables, any registration order relative to compile and execute, names that are prefixes or case variants of each other",
 "One test registers a single variable.",
 ["TreeVariables.c","CompilerFunctions.c"],[("variable list lookup","TreeVariables.c find_variable_entry"),("register","TreeVariables.c prjm_eval_register_variable")],observe=("projectm_eval_context_register_variable pointers and values",))
p("V02","reg00 to reg99 are the global registers, and nothing else is",
 "Each of the hundred names reg00..reg99 in any case denotes its own element of the context's register array, both from code and by registration; any other name, such as reg1 or reg123, is an ordinary variable of the context.",
 ["inputs","histories"],"all names resembling reg variables, built-in and host-provided arrays",
 "Register variables are not tested.",
 ["TreeVariables.c"],[("name match and index","TreeVariables.c prjm_eval_register_variable")],observe=("host-provided register array","projectm_eval_context_register_variable pointers"))
p("V03","Resetting variables zeroes exactly the context's variables",
 "Resetting a context sets all its named variables to 0 and changes no register variable, memory cell, other context, compiled code or registered pointer.",
 ["histories"],"any set of variables and contexts, at any point of a history",
 "No test resets a context.",
 ["CompileContext.c","api/projectm-eval.c"],[("prjm_eval_reset_context_vars","CompileContext.c")])
p("A01","Everything can be destroyed in any legal order, once and completely",
 "After all code handles, contexts and buffers of a history are destroyed in any order the interface allows, including code after its context, no allocation made by the library remains and nothing is freed twice or used after being freed; failed compiles leave nothing behind.",
 ["histories","inputs"],"all create/compile/fail/execute/free/destroy histories, and all programs, valid or cut off at any point",
 "The tests run without leak or lifetime checking and never fail a compile.",
 ["CompileContext.c","ExpressionTree.c","CompilerFunctions.c","Compiler.y","MemoryBuffer.c"],[("tree destruction","ExpressionTree.c"),("destructors of discarded values","Compiler.y"),("context destruction","CompileContext.c")],observe=("live allocation count","sanitizer reports"))
p("A02","The ns-eel2 shim behaves as the library itself",
 "Programs driven through the ns-eel2 compatible interface behave as through the native interface: variables, registers, memory, errors, resetting and freeing act on the same state, and a context uses the global memory that was set for it for all code compiled afterwards.",
 ["histories","configurations"],"all histories expressible in the shim interface",
 "The shim is built but not tested.",
 ["ns-eel2-shim/ns-eel.c"],[("forwarding functions","ns-eel2-shim/ns-eel.c")],observe=("NSEEL_* results",))
p("C01","Concurrent use of one global memory loses no write",
 "When several threads use the same gmegabuf, every thread sees the same cells: a value stored in a cell is never lost because another thread touches the same or another block for the first time, and each block is created at most once.",
 ["schedules"],"all interleavings of first and later accesses, memset and memcpy in two or more threads, given that the host supplies a mutex",
 "All tests are single-threaded.",
 ["MemoryBuffer.c"],[("double-checked block allocation under the host lock","MemoryBuffer.c prjm_eval_memory_allocate")],[("block table","pointer per block, null until first use","MemoryBuffer.c")],observe=("lock callbacks","allocations","cell values"))
p("C02","The host mutex is used correctly",
 "The library acquires the host mutex only when it does not hold it, releases it exactly once and before returning to the caller, never blocks on it twice, and changes the set of allocated blocks only while holding it.",
 ["schedules","histories","fault_sequences"],"all operations, schedules and allocation failures",
 "The tests install empty lock functions.",
 ["MemoryBuffer.c"],[("lock/unlock pairs","MemoryBuffer.c prjm_eval_memory_allocate / _free / _global")],observe=("projectm_eval_memory_host_lock_mutex / unlock_mutex calls",))
p("C03","The built-in global memory is created once, however many threads ask",
 "Contexts created concurrently without an own global buffer all share one built-in gmegabuf; exactly one is allocated until it is destroyed, after which the next context gets a fresh, empty one.",
 ["schedules","histories"],"all interleavings of concurrent context creation, creation after destruction",
 "No test creates two contexts concurrently.",
 ["MemoryBuffer.c","CompileContext.c"],[("double-checked creation","MemoryBuffer.c prjm_eval_memory_global")])
p("C04","Contexts used in different threads do not influence each other",
 "Creating, compiling in, executing in, resetting and destroying different contexts in different threads at the same time gives each of them the results, errors, variables and memory it has when used alone; rand() stays within its bounds; nothing is read or written out of bounds.",
 ["schedules","programs"],"all interleavings of any API calls on different contexts (reg00..reg99 and gmegabuf cells not shared), with valid and invalid programs",
 "All tests are single-threaded.",
 ["CompileContext.c","Compiler.y","Scanner.l","TreeFunctions.c"],[("per-context scanner and parser state","CompileContext.c, Scanner.l"),("shared generator","TreeFunctions.c prjm_eval_genrand_int32")])
p("F01","Failing to allocate a memory block is harmless",
 "If memory for a block cannot be allocated, the access behaves like one outside the buffer: it reads 0, writes are discarded, cells of existing blocks keep their values, the lock is released, and later accesses work once memory is available.",
 ["fault_sequences","programs"],"every allocation made during execution failing, alone or in any pattern, in cell accesses, memset and memcpy",
 "No test injects an allocation failure.",
 ["MemoryBuffer.c","TreeFunctions.c"],[("NULL block handling","MemoryBuffer.c"),("mem result","TreeFunctions.c mem")])
p("F02","A context is created completely or not at all",
 "If any allocation during context creation fails, no context is returned and nothing stays allocated or locked, other contexts are unaffected, and a later attempt succeeds.",
 ["fault_sequences"],"every allocation of a context creation failing, with and without a built-in global buffer already existing",
 "No test injects an allocation failure.",
 ["CompileContext.c"],[("cleanup of a partial context","CompileContext.c prjm_eval_create_compile_context")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
