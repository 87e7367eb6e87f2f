#!/usr/bin/env python3
"""Authoring helper: emits properties.jsonl (kept so that ids/anchors stay in one reviewable place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Garbage collection keeps everything that is still referenced",
  "Whenever a collection runs, every object referenced from a live object's contents (its class, instance variables, elements, keys, captured variables, receivers, arguments, superclass, constants), from an active or suspended frame, or from an interpreter-wide root is kept, and its contents are traced in turn. No reference-holding component of any kind of object or root is left out of tracing on any path.",
  ["programs","histories"],"every program, every object graph it builds, and every point at which a collection can start",
  "Tests only collect a handful of small graphs; a reference left untraced shows only if its target has no other referrer at the moment a collection happens and the slot is reused.",
  ["ruruby/src/alloc.rs","ruruby/src/value/rvalue.rs","ruruby/src/value/class.rs","ruruby/src/value/hash.rs","ruruby/src/value/array.rs","ruruby/src/globals.rs","ruruby/src/vm/executor.rs","ruruby/src/vm/executor/frame.rs","ruruby/src/vm/args.rs","ruruby/src/coroutine.rs","ruruby/src/builtin/procobj.rs"],
  [("GC::mark implementations","ruruby/src: every `impl GC<RValue> for ...`"),("root enumeration","ruruby/src/globals.rs Globals::mark, ruruby/src/vm/executor.rs VM::mark")])
p("P02","Builtins keep the objects they are working on alive across callbacks",
  "While a built-in method runs user code (a block, a method call, a comparison, a conversion), every object that the built-in created or received back from user code and still needs afterwards is reachable by the collector for the whole time. A collection triggered inside the callback never frees an object that the built-in later uses, stores or returns.",
  ["programs","schedules"],"every built-in method, every block or user-defined method it calls back, and every allocation count at which the collector fires inside it",
  "Needs a collection to fire inside one particular callback and the freed slot to be reused before the built-in looks at it; unit tests finish before the first collection.",
  ["ruruby/src/builtin","ruruby/src/vm/executor/method.rs","ruruby/src/vm/executor.rs"],
  [("temporary root stack","ruruby/src/vm/executor.rs temp_push/temp_pop_vec/temp_len"),("native call wrapper","ruruby/src/vm/executor/method.rs exec_native")])
p("P03","Callbacks may mutate a collection that a builtin is walking",
  "While a built-in method walks the storage of an array, hash or string and hands control to user code in between, that user code may grow, shrink, clear or replace the same object. The built-in never reads or writes storage that such a mutation has freed or moved.",
  ["programs","histories"],"every built-in that calls user code while holding on to an array, hash or string, and every mutation that user code performs on it",
  "Tests never mutate the receiver from inside the block, and a stale read is usually silent.",
  ["ruruby/src/builtin/array.rs","ruruby/src/builtin/hash.rs","ruruby/src/builtin/string.rs","ruruby/src/builtin/range.rs","ruruby/src/builtin/enumerator.rs","ruruby/src/value/array.rs","ruruby/src/value/hash.rs","ruruby/src/vm/executor/method.rs"],
  [("unchecked handles to array/hash/string storage","ruruby/src/value/array.rs Array Deref, ruruby/src/value/value.rs as_array/as_hash/..."),("block evaluation helpers","ruruby/src/vm/executor/method.rs eval_block*")])
p("P04","An object's contents are only ever read as the type it was created with",
  "Every heap object carries a type tag and one payload. No operation interprets the payload as a different built-in type than the tag says: each access to a payload is preceded, on every path, by a test of that same object's tag for that payload's type, and creation, copying, freeing and hashing all agree on the tag-to-payload pairing.",
  ["programs","inputs"],"every built-in operation applied to a receiver or argument of any type",
  "Tests call each operation with the types it expects; the unchecked path needs an operand of another type in one particular position.",
  ["ruruby/src/value/rvalue.rs","ruruby/src/value/value.rs","ruruby/src/builtin","ruruby/src/vm/executor/ops.rs"],
  [("payload union and tag","ruruby/src/value/rvalue.rs ObjKind / RValue::kind"),("checked conversions","ruruby/src/value/value.rs as_*/is_*/expect_*")])
p("P05","The interpreter decodes exactly the instructions the compiler encoded",
  "For every instruction the compiler can emit, the number, order and width of the operands it writes, the instruction length used when walking code, and the operands the interpreter fetches on every path through that instruction's handler are the same. Every instruction that can be emitted has a handler and a known length.",
  ["programs"],"every program the compiler accepts, hence every instruction in every position, on every handler path (taken, not taken, raising)",
  "Each test executes a few instruction sequences; a rarely emitted instruction or a rarely taken path of a handler can go out of step and still pass.",
  ["ruruby-common/src/vm_inst.rs","ruruby-common/src/iseq_util.rs","ruruby/src/vm/iseq.rs","ruruby/src/codegen.rs","ruruby/src/codegen/send.rs","ruruby/src/codegen/defined.rs","ruruby/src/vm/executor/opt_core.rs"],
  [("encoders","ruruby/src/vm/iseq.rs push*/gen_*, ruruby/src/codegen.rs emit_*"),("length table","ruruby-common/src/vm_inst.rs inst_size"),("decoder","ruruby/src/vm/executor/opt_core.rs run_context_main")])
p("P06","Every branch the compiler emits gets a destination, and scopes are closed",
  "Each forward branch emitted while compiling any construct is given its destination before compilation of the enclosing code finishes, on every compilation path that succeeds. Compile-time scope records (loop, method, clean-up and branch-destination records) opened for a construct are closed again on every path that succeeds, so that compiling one construct never changes the meaning of what follows it.",
  ["programs"],"every accepted program, i.e. every combination and nesting of constructs and of value-used / value-unused context",
  "Only a sample of nestings is compiled by tests; a forgotten destination shows only for one combination of branches.",
  ["ruruby/src/codegen.rs","ruruby/src/codegen/send.rs","ruruby/src/codegen/defined.rs","ruruby/src/vm/iseq.rs"],
  [("branch placeholders","ruruby/src/vm/iseq.rs gen_jmp*/write_disp*"),("compile-time stacks","ruruby/src/codegen.rs context_stack, loop_stack, method_stack, jump_dest")])
p("P07","Every instruction that can raise knows its source location",
  "Whenever executing an instruction raises an exception, the interpreter can map that instruction to a source position and report or rescue the exception. Raising an exception never makes the interpreter itself abort because the position was not recorded.",
  ["programs","fault_sequences"],"every instruction of every compiled program that can raise, with every operand types that make it raise",
  "Tests raise from few kinds of instruction; a missing record is only noticed when that very instruction raises.",
  ["ruruby/src/codegen.rs","ruruby/src/codegen/send.rs","ruruby/src/codegen/defined.rs","ruruby/src/vm/executor.rs","ruruby/src/vm/executor/opt_core.rs"],
  [("location table","ruruby/src/codegen.rs save_loc / save_cur_loc"),("lookup","ruruby/src/vm/executor.rs get_loc")])
p("P08","A method call always sees the current method definitions",
  "After a method is defined, redefined, aliased or removed, or a module is included or prepended, or a singleton class comes into being, every later call dispatches according to the new definitions. No previously cached lookup result is used once the method tables or ancestor chains it was computed from have changed.",
  ["programs","histories"],"every interleaving of calls with definition, redefinition, aliasing, inclusion, prepending and singleton creation",
  "Staleness needs a warm cache, a particular kind of change, and a later call through the same cache; tests exercise few such triples.",
  ["ruruby/src/globals/method.rs","ruruby/src/value/class.rs","ruruby/src/vm/executor/opt_core.rs","ruruby/src/builtin/module.rs","ruruby/src/value/value.rs"],
  [("cache version","ruruby/src/globals/method.rs inc_class_version"),("method table and ancestor chain","ruruby/src/value/class.rs ClassExt.method_table, ClassInfo.upper/origin")])
p("P09","A constant reference always sees the current constant definitions",
  "After a constant is assigned, reassigned, autoload-registered or loaded in any class or module, every later reference to a constant of that name yields the value lookup would find then. No previously cached constant is used once any constant table has changed.",
  ["programs","histories"],"every interleaving of constant references with constant assignment through syntax, reflection and autoload",
  "Staleness needs a warm reference site followed by a definition that shadows or replaces the cached one through one particular route.",
  ["ruruby/src/globals/constants.rs","ruruby/src/globals.rs","ruruby/src/value/class.rs","ruruby/src/vm/executor/constants.rs","ruruby/src/vm/executor/opt_core.rs","ruruby/src/builtin/module.rs"],
  [("constant version","ruruby/src/globals.rs const_version"),("constant tables","ruruby/src/value/class.rs ClassExt.const_table")])
p("P10","Calling a builtin restores the caller's execution state however it ends",
  "When a built-in method, a block evaluated on its behalf, or a nested program finishes, whether normally, by exception or by a non-local exit, the caller continues with its own frame, program counter, code, operand stack and temporary roots. Every frame that is pushed is popped exactly once on every way out.",
  ["programs","fault_sequences"],"every built-in call and every way it can end: return, exception raised in any callee, break, throw, or method return through it",
  "Exits by exception through each particular call site are not exercised by tests, and a leaked frame often shows only much later.",
  ["ruruby/src/vm/executor/method.rs","ruruby/src/vm/executor/frame.rs","ruruby/src/vm/executor/opt_core.rs","ruruby/src/vm/executor.rs"],
  [("frame push/unwind","ruruby/src/vm/executor/frame.rs push_native_frame/unwind_native_frame/unwind_frame"),("native wrapper","ruruby/src/vm/executor/method.rs exec_native"),("interpreter loop wrapper","ruruby/src/vm/executor/opt_core.rs run_loop")])
p("P11","Builtins only look at arguments the caller actually passed",
  "A built-in method never reads a positional argument beyond the number that was passed in that call. Calls whose number of arguments does not cover what the built-in would read are rejected with an argument error before any such read.",
  ["programs","inputs"],"every built-in method and every number of arguments it can be called with",
  "Reading a missing argument silently yields whatever lies on the operand stack; tests call built-ins with valid argument counts.",
  ["ruruby/src/builtin","ruruby/src/vm/args.rs","ruruby/src/vm/executor.rs"],
  [("argument access","ruruby/src/vm/executor.rs Index for VM"),("argument count checks","ruruby/src/vm/args.rs check_args_num/check_args_range/check_args_min")])
p("P12","Integer results are exact: they never wrap, truncate or abort",
  "Integer operations give the mathematically exact result, moving to arbitrary precision when a machine word is too small. No intermediate machine operation on a program's integers wraps around, drops bits or aborts, and no integer division is carried out without having excluded a zero divisor.",
  ["inputs"],"every pair of integer operands of every built-in integer operation, including values at and beyond the machine-word limits",
  "Overflow and bit loss occur at the edges of a 64-bit range; tests check a few points.",
  ["ruruby/src/arith.rs","ruruby/src/vm/executor/ops.rs","ruruby/src/builtin/integer.rs","ruruby/src/value/real.rs","ruruby/src/value/value.rs","ruruby/src/vm/executor/opt_core.rs"],
  [("integer arithmetic","ruruby/src/arith.rs, ruruby/src/vm/executor/ops.rs, ruruby/src/builtin/integer.rs, ruruby/src/value/real.rs"),("integer packing","ruruby/src/value/value.rs Value::integer/fixnum")])
p("P13","A raised exception is never silently dropped",
  "When user code called by the interpreter or by a built-in raises an exception or performs a non-local exit, that outcome propagates to the enclosing handler. No built-in discards it, replaces it by an ordinary value, or aborts the interpreter on it, apart from constructs whose documented meaning is to handle it.",
  ["programs","fault_sequences"],"every place where the interpreter or a built-in calls code that can fail, and every failure there",
  "A dropped error needs the callee at that one site to fail; tests make few callees fail.",
  ["ruruby/src/builtin","ruruby/src/vm/executor","ruruby/src/value","ruruby/src/codegen.rs","ruruby-parse/src"],
  [("fallible calls","every call returning a result whose failure is a Ruby error")])
p("P14","Keys that are equal have equal hashes",
  "Two objects that a hash treats as the same key always produce the same hash value, for every kind of object, however they were built. Hence a lookup with an equal key always finds the entry, and two hashes with the same contents compare equal and serve as the same key.",
  ["inputs","histories"],"every pair of objects usable as keys and every order in which their contents were built",
  "Needs a pair of equal objects that differ in representation or construction order; tests look up literals.",
  ["ruruby/src/value/rvalue.rs","ruruby/src/value/hash.rs","ruruby/src/value/value.rs","ruruby/src/globals/method.rs"],
  [("key equality and hashing","ruruby/src/value/hash.rs HashKey, ruruby/src/value/rvalue.rs eql / Hash")])
p("P15","Specialised instructions mean the same as the general operation",
  "An operator compiled to a specialised instruction (with an immediate operand, or fused with a conditional branch) computes the same relation or arithmetic operation, on operands in the same order, and falls back to the same user-visible method as the general form. Whether the compiler chooses the special form is unobservable.",
  ["programs","inputs"],"every operator, every operand kind (small integer, float, other object) and every context in which the compiler specialises",
  "Tests exercise a few operators with a few operand kinds in value context; each specialised form multiplies the cases.",
  ["ruruby/src/codegen.rs","ruruby/src/vm/executor/ops.rs","ruruby/src/vm/executor/opt_core.rs","ruruby-common/src/vm_inst.rs"],
  [("specialisation","ruruby/src/codegen.rs binop!/binop_imm! and branch fusion"),("handlers","ruruby/src/vm/executor/ops.rs eval_*/invoke_*")])
p("P16","Switching fibers preserves each side's machine state, and dead fibers stay dead",
  "Suspending and resuming a fiber restores exactly the callee-saved registers and stack position of the side being resumed. A fiber that has finished is never switched into again, is no longer traced as live execution state, and its stack is released once.",
  ["programs","schedules","histories"],"every interleaving of resume, yield and completion of any number of fibers",
  "Register corruption depends on what the surrounding machine code keeps in registers; tests see one build and a few interleavings.",
  ["ruruby/src/coroutine.rs","ruruby/src/coroutine/asm_x64.rs","ruruby/src/coroutine/stack.rs","ruruby/src/builtin/fiber.rs"],
  [("context switch","ruruby/src/coroutine/asm_x64.rs"),("fiber state machine","ruruby/src/coroutine.rs FiberContext")])
p("P17","Parsing a construct leaves no trace on how later code is parsed",
  "Temporary parsing modes and variable scopes that the parser enters for one construct are left again, with their previous values, whenever that construct has been parsed successfully. How a piece of code is parsed depends only on its own text and enclosing scopes, not on unrelated constructs parsed earlier.",
  ["programs"],"every accepted program: every sequence and nesting of constructs",
  "A leaked mode only changes a later construct of one particular kind; tests parse short snippets.",
  ["ruruby-parse/src/parser.rs","ruruby-parse/src/parser/expression.rs","ruruby-parse/src/parser/flow_control.rs","ruruby-parse/src/parser/define.rs","ruruby-parse/src/parser/literals.rs"],
  [("mode flags","ruruby-parse/src/parser.rs suppress_acc_assign, suppress_mul_assign, suppress_do_block"),("scope stack","ruruby-parse/src/parser.rs context_stack")])
p("P18","The parser's lookahead always reflects its current position",
  "A token obtained by looking ahead is always the token that reading from the current position would give. Whenever the reading position changes, by consuming, by reading a literal directly, or by backtracking, remembered lookahead from another position is no longer used.",
  ["programs"],"every source text and every sequence of look-ahead, consume and backtrack steps the parser performs on it",
  "A stale token matters only when the next parsing step happens to test for that very token; tests miss nearly all combinations.",
  ["ruruby-parse/src/parser/lexer.rs","ruruby-parse/src/parser.rs","ruruby-parse/src/parser/expression.rs","ruruby-parse/src/parser/literals.rs"],
  [("lookahead cache","ruruby-parse/src/parser/lexer.rs buf / buf_skip_lt"),("position save/restore","ruruby-parse/src/parser/lexer.rs save_state/restore_state/flush")])
p("P19","Type tags, instruction codes, call flags and reserved names never collide",
  "Distinct kinds of objects, distinct instructions, distinct call flags, distinct immediate-value encodings and distinct predefined names are always represented by distinct codes, and each predefined name prints back as the text it was registered for. No two of them can be confused with one another at run time.",
  ["programs","inputs"],"every pair of codes in each code space",
  "A collision is only visible to a program that uses both sides of it; tests never enumerate pairs.",
  ["ruruby-common/src/vm_inst.rs","ruruby-common/src/id_table.rs","ruruby-common/src/arg_flag.rs","ruruby/src/value/rvalue.rs","ruruby/src/value/value.rs","ruruby/src/vm/executor/frame.rs"],
  [("code spaces","ruruby-common/src/vm_inst.rs Inst, ruruby-common/src/id_table.rs IdentId, ruruby-common/src/arg_flag.rs, ruruby/src/value/rvalue.rs ObjKind, ruruby/src/value/value.rs immediates")])
p("P20","Wrong argument types raise a Ruby error instead of aborting the interpreter",
  "Passing an argument, receiver or block of an unexpected type to a built-in method results in a Ruby exception that the program can rescue. Built-ins never abort the interpreter process because a value turned out to be of another type than they hoped for.",
  ["programs","inputs"],"every built-in method and every type of receiver, argument and block result",
  "Tests pass expected types; each unexpected type in each position is its own case.",
  ["ruruby/src/builtin","ruruby/src/vm/executor","ruruby/src/value"],
  [("partial conversions","ruruby/src/value/value.rs as_*/to_real/expect_* and every unconditional unwrap of their results")])
p("P21","Captured variables outlive the frame they were created in",
  "A proc, lambda, binding, enumerator or fiber that captures local variables refers to storage that stays valid, and shared with the defining code, after the defining method or block has returned. No captured environment ever points into a stack frame that can be popped while the capturing object is alive.",
  ["programs","histories"],"every way of creating a capturing object and every order of returning from frames and calling it",
  "A dangling capture still reads the right values until the stack area is reused.",
  ["ruruby/src/vm/executor.rs","ruruby/src/vm/executor/frame.rs","ruruby/src/vm/executor/frame/heap.rs","ruruby/src/builtin/procobj.rs","ruruby/src/builtin/binding.rs","ruruby/src/coroutine.rs"],
  [("moving environments to the heap","ruruby/src/vm/executor/frame.rs move_ep_to_heap/move_cfp_to_heap"),("capturing constructors","ruruby/src/vm/executor.rs create_proc*/create_lambda/...; ruruby/src/value/value.rs Value::procobj/binding/fiber")])
p("P22","Runaway recursion ends in a Ruby error, not in memory corruption",
  "However deeply methods, blocks and built-ins call each other, the interpreter's value stack is never written outside its bounds. Each push or frame creation is within capacity by an enforced check, in optimised builds too.",
  ["programs","configurations"],"every program and every call depth, in every build profile",
  "Tests recurse shallowly and only in the debug profile, where extra assertions are compiled in.",
  ["ruruby/src/vm/executor/frame/ruby_stack.rs","ruruby/src/vm/executor/frame.rs"],
  [("value stack","ruruby/src/vm/executor/frame/ruby_stack.rs RubyStack push/extend/insert/grow")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
