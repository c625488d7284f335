#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept here because it is easier to edit)."""
import json, os
C = 'Projects/Core/Core/'
P = []

def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = observe or ['standard output and exit status of the interpreter']
    a['hook_needed'] = None
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('L01', 'Expressions follow precedence, left-to-right evaluation and short-circuiting',
     'Every expression yields the value fixed by the operators\' precedence and associativity; operands, receivers and arguments are evaluated exactly once and from left to right. The right operand of && and ||, and the branch of a conditional expression that is not selected, are not evaluated at all. Compound assignments, increments and nested assignments change exactly the variable they name and yield its new value.',
     ['programs', 'inputs'], 'all expression trees over the operators of the atomic types, with side effects and exceptions in any operand',
     'Unit tests hold a few dozen fixed expressions, none with side effects in every operand; operator combinations are unbounded.',
     [C + 'AST/TreeGenerator.cpp', C + 'AST/TreeInterpreter.cpp', C + 'Runtime/OperatorOverloading.cpp', C + 'AST/TreeOptimizer.cpp'],
     [('recursive descent over operator levels', C + 'AST/TreeGenerator.cpp expression/parseCondition/parseExpression/parseFactor/parseInfix'),
      ('operand evaluation', C + 'AST/TreeInterpreter.cpp evaluateBinaryExpression, evaluateBooleanBinaryExpression, evaluateTernaryExpression'),
      ('operators of the atomic types', C + 'Runtime/OperatorOverloading.cpp and Runtime/BuildInTypes')])

prop('L02', 'Statements run in structured order',
     'if, while, for, foreach, switch, break, continue and return execute exactly the statements the structured meaning of the program selects, each loop body once per iteration. break and continue affect the innermost enclosing loop or switch only, and return leaves the whole method from any depth of nesting.',
     ['programs', 'inputs'], 'all nestings of the control structures with any jump at any place',
     'Tests cover one structure at a time; jumps out of nested loops, switches and try blocks multiply without bound.',
     [C + 'AST/TreeInterpreter.cpp', C + 'AST/TreeGenerator.cpp'],
     [('control flow state that every statement consults', C + 'AST/TreeInterpreter.cpp process, processFor, visitWhile, visitForeach, visitSwitch, visitIf'),
      ('construction of the statement tree', C + 'AST/TreeGenerator.cpp process_for, process_foreach, process_switch, process_while, process_if')],
     [('control flow', 'how the last statement ended', C + 'Runtime/ControlFlow.h')])

prop('L03', 'Exceptions reach the nearest matching handler and finally always runs',
     'A thrown value is delivered, unchanged, to the first matching catch of the innermost enclosing try of any active call, and nothing between the throw and that handler is executed except finally blocks and destructors. A finally block runs exactly once whenever its try is left, by whatever means; a jump in it replaces the pending one, otherwise the pending exception, return or exit continues. An exception nobody handles ends the program with an error status.',
     ['programs', 'histories'], 'all nestings of try, catch, finally, throw, rethrow, calls and loops, with exceptions raised in any expression position',
     'Tests throw from a few fixed places; combinations of nested handlers, rethrow and pending jumps are not enumerable by hand.',
     [C + 'AST/TreeInterpreter.cpp', C + 'Runtime/ExceptionData.cpp', C + 'VirtualMachine/VirtualMachine.cpp', 'Projects/slang/main.cpp'],
     [('handler search and pending state', C + 'AST/TreeInterpreter.cpp visitTry, visitThrow'),
      ('promotion of an exception through expressions', C + 'AST/TreeInterpreter.cpp evaluateMethodExpression, tryControl'),
      ('uncaught exceptions', C + 'VirtualMachine/VirtualMachine.cpp run, Projects/slang/main.cpp main')],
     [('pending exception', 'value and position of the exception being propagated', C + 'VirtualMachine (thread)')])

prop('L04', 'An object is destroyed exactly once, when its last reference goes away',
     'As long as a variable, member, parameter, return value or pending exception refers to an object, or one of its methods is running, the object stays usable; when the last such reference disappears, by scope exit, reassignment, exception, return or destruction of its owner, its destructor runs exactly once and before the next statement. Afterwards the objects only it referred to are released in turn.',
     ['programs', 'histories'], 'all histories of creating, aliasing, passing, returning, throwing, overwriting and dropping references, including objects owning objects',
     'Every path out of every scope has to release exactly its own references; tests look at a few straight-line paths.',
     [C + 'VirtualMachine/Memory.cpp', C + 'Object.cpp', C + 'Scope.cpp', C + 'AST/TreeInterpreter.cpp', C + 'VirtualMachine/StackFrame.cpp'],
     [('reference counting', C + 'VirtualMachine/Memory.cpp add, remove, deleteObject'),
      ('references held by variables and temporaries', C + 'Object.cpp assignReference, ~Object'),
      ('release of scopes', C + 'Scope.cpp deinit, ' + C + 'VirtualMachine/StackFrame.cpp popScope')],
     [('reference count', 'number of holders of an object', C + 'VirtualMachine/Memory.h')])

prop('L05', 'Variables live in their own block, call and object; values copy, objects alias',
     'A name denotes the innermost visible declaration; each entry into a block, loop iteration or call, recursion included, gets its own variables, initialised to their declared or default value. Assigning or passing an atomic value copies it, assigning or passing an object shares it. Members belong to one object, static members to the class, and parameters not passed take their default.',
     ['programs', 'inputs'], 'all nestings of blocks and calls, recursion depths, shadowing patterns, aliasing patterns and parameter lists',
     'Tests use shallow scopes and few aliases; independence of activations is a statement about all call histories.',
     [C + 'Scope.cpp', C + 'AST/TreeInterpreter.cpp', C + 'Common/Method.cpp', C + 'Object.cpp', C + 'VirtualMachine/Repository.cpp'],
     [('scope chain', C + 'Scope.cpp resolve, define'), ('frames and parameters', C + 'AST/TreeInterpreter.cpp initialize, execute'),
      ('default parameters', C + 'Common/Method.cpp mergeParameters'), ('creation of members', C + 'VirtualMachine/Repository.cpp createUserType')])

prop('L06', 'A call runs the method selected by receiver class, name and argument types',
     'A call through a reference runs the most derived override of the object\'s class whose parameter types match the arguments; a base-qualified call runs the base version, an operator applied to an object runs the operator method of its class, and a cast to a declared target runs its cast operator. Inherited members and methods act on the same object, whatever the static type of the reference.',
     ['programs'], 'all class hierarchies up to depth three with overriding, overloading, interfaces, abstract methods and operators',
     'Tests define a handful of classes; selection depends on the whole hierarchy and the overload set.',
     [C + 'Scope.cpp', C + 'Object.cpp', C + 'Common/Method.cpp', C + 'AST/TreeGenerator.cpp', C + 'VirtualMachine/Repository.cpp', C + 'Runtime/TypeCast.cpp'],
     [('method lookup', C + 'Scope.cpp MethodScope::resolveMethod, ' + C + 'Object.cpp resolveMethod'), ('signature match', C + 'Common/Method.cpp isSignatureValid'),
      ('operators as methods', C + 'AST/TreeGenerator.cpp parseCondition, parseExpression, process_assignment_expression')])

prop('L07', 'A generic class behaves like the class written out for its type arguments',
     'Each instantiation of a generic class, for any type arguments and also inside other generic classes, behaves exactly as the same class with the type names substituted by hand. Instantiations with different arguments are different types that do not influence each other.',
     ['programs'], 'all generic classes of one to three parameters, instantiated with atomic types and classes, used as variables, parameters, results, members, exceptions and base classes',
     'Tests instantiate the library collections with one or two types.',
     [C + 'VirtualMachine/Repository.cpp', C + 'Common/PrototypeConstraint.cpp', C + 'Common/Method.cpp', C + 'Designtime/BluePrintObject.cpp', C + 'Designtime/Parser/Parser.cpp'],
     [('instantiation', C + 'VirtualMachine/Repository.cpp createInstance / prepareType'), ('substitution', C + 'Common/Method.cpp initialize, Common/PrototypeConstraint.cpp lookupType')])

prop('L08', 'Enumeration values keep their declared numbers, order and type',
     'Each value of an enumeration has its declared number or one more than its predecessor, compares equal to itself only among the values of its enumeration, converts to that number or text, and selects its own case in a switch. Values of one enumeration cannot be stored in a variable of another.',
     ['programs'], 'all enumerations with implicit and explicit numbers, used in variables, members, parameters, comparisons, casts and switches',
     'Tests use one small enumeration each.',
     [C + 'Designtime/Analyser.cpp', C + 'VirtualMachine/Repository.cpp', C + 'Runtime/BuildInTypes/EnumerationType.cpp', C + 'VirtualMachine/TypeSystem.cpp'],
     [('numbering of values', C + 'Designtime/Analyser.cpp createEnum'), ('type table of an enumeration', C + 'VirtualMachine/Repository.cpp'), ('switch', C + 'AST/TreeInterpreter.cpp visitSwitch')])

prop('S01', 'Ill-typed operations are rejected before execution, well-typed ones never fail',
     'An operation, assignment, argument, return value or conditional expression is accepted exactly when the type rules of the language allow the operand types; the static type decides the result type. A program accepted by these rules never stops at run time because of an unsupported operand type.',
     ['programs'], 'all pairs of types under all operators, in every syntactic position',
     'The type table has hundreds of entries and each appears in several positions; tests touch a small part.',
     [C + 'VirtualMachine/TypeSystem.cpp', C + 'AST/TreeGenerator.cpp', C + 'AST/Expression.h', C + 'Runtime/BuildInTypes/Int32Type.cpp'],
     [('type table', C + 'VirtualMachine/TypeSystem.cpp init*, getType'), ('check of every node', C + 'AST/TreeGenerator.cpp resolveType, process_return, process_type, process_method')])

prop('S02', 'Constants and const methods never change state',
     'No accepted program assigns, increments or otherwise modifies a constant variable, parameter or member after its initialisation, changes a member of its object from a const method, or calls a modifying method through a constant reference. Code that only modifies what it may modify is accepted.',
     ['programs'], 'all combinations of const and modify on variables, parameters, members and methods with all modifying operations',
     'Each modifying construct has its own check in the compiler; tests cover some combinations.',
     [C + 'AST/TreeGenerator.cpp', C + 'Designtime/Parser/Parser.cpp', C + 'Symbol.cpp'],
     [('const checks', C + 'AST/TreeGenerator.cpp process_assignment_expression, process_incdecrement, process_method, process_var')])

prop('S03', 'Visibility, abstractness and inheritance rules are enforced',
     'Private members and methods are reachable from their own class only, protected ones also from derived classes, public ones from everywhere. Interfaces and classes that declare an abstract method cannot be instantiated, and an abstract method is never executed. Inheritance cycles, unknown base classes, interfaces and types, and duplicate declarations are rejected; programs without these faults are accepted.',
     ['programs'], 'all accesses to members of every visibility from every kind of place, and all small hierarchies of abstract, interface and ordinary classes',
     'The access matrix is large and partly indirect (inheritance, chained access); tests cover single cells.',
     [C + 'AST/TreeGenerator.cpp', C + 'Scope.cpp', C + 'Designtime/Analyser.cpp', C + 'VirtualMachine/Repository.cpp', C + 'Designtime/BluePrintObject.cpp'],
     [('visibility filter of lookups', C + 'Scope.cpp resolve, resolveMethod'), ('declaration checks', C + 'Designtime/Analyser.cpp, ' + C + 'VirtualMachine/Repository.cpp')])

prop('S04', 'Misplaced or missing control flow and undeclared exceptions are rejected',
     'A method with a result that never returns or throws one, a break or continue outside a loop or switch, a case block without a final jump, and a throw that is neither caught in the method nor declared by it are rejected; programs without these faults are accepted.',
     ['programs'], 'all placements of return, break, continue, throw and try in method bodies',
     'Tests hold one negative example each.',
     [C + 'AST/TreeGenerator.cpp'],
     [('flow checks', C + 'AST/TreeGenerator.cpp finalize, generate, process_break, process_continue, process_throw, process_try')])

prop('S05', 'A program with an error anywhere executes nothing',
     'If any part of a program, its imports or unused code included, violates the lexical, syntactic or static rules, the interpreter reports an error, executes no statement of it and ends with an error status; the syntax-check mode gives the same verdict and never executes anything. Whatever the text of a program is, it is either accepted or rejected in this way: the analysis never crashes and always ends.',
     ['programs'], 'all single faults at all places of a program, in the main file or an imported one, and programs with tokens removed, doubled, replaced or exchanged',
     'Tests look for a failure of a handful of broken files, not for the absence of effects.',
     [C + 'VirtualMachine/VirtualMachine.cpp', C + 'AST/TreeGenerator.cpp', C + 'Designtime/Analyser.cpp', C + 'Designtime/SanityChecker.cpp', C + 'Designtime/Parser/Tokenizer.cpp'],
     [('analysis before execution', C + 'VirtualMachine/VirtualMachine.cpp createScript, run'), ('error collection', C + 'AST/TreeGenerator.cpp processMethod')])

prop('X01', 'Layout and comments do not change the meaning of a program',
     'Inserting or removing spaces, tabs, line breaks and comments between tokens changes neither the output nor the exit status of a program, nor whether it is accepted. Characters inside string literals are kept exactly, apart from the documented escapes.',
     ['programs', 'inputs'], 'all token sequences and all layouts between them',
     'Tests use one conventional layout.',
     [C + 'Designtime/Parser/Tokenizer.cpp', C + 'Designtime/SanityChecker.cpp', C + 'Common/Token.cpp'],
     [('tokenizer', C + 'Designtime/Parser/Tokenizer.cpp process, merge*')])

prop('X02', 'Atomic values convert by fixed rules and round-trip through text',
     'Conversions between bool, the integer types, float, double and string follow one fixed rule per pair of types, independent of where the conversion happens. An integer written as text and read back is the same integer, and a conversion that loses nothing is the identity.',
     ['inputs', 'programs'], 'all pairs of atomic types, all values in range, and all conversion contexts (cast, assignment, argument, result)',
     'Tests convert a few values in one context.',
     [C + 'Runtime/AtomicValue.cpp', C + 'Runtime/TypeCast.cpp', C + 'Runtime/OperatorOverloading.cpp', 'Projects/Utils/Tools/Strings.cpp'],
     [('value conversion', C + 'Runtime/AtomicValue.cpp'), ('casts', C + 'Runtime/TypeCast.cpp typecast'), ('implicit conversion', C + 'Runtime/OperatorOverloading.cpp operator_binary_assign')])

prop('M01', 'Every imported module is loaded exactly once, whatever the import graph',
     'A program may import modules in any order, repeatedly, along diamonds and cycles; each module is loaded once, and all its public names are available to every importer. A module is searched next to the importing file first and then in the folder of the program and the library folders, and a missing module is an error.',
     ['programs', 'configurations'], 'all import graphs of a few modules, all import orders and library folder settings',
     'Tests import library modules in one order.',
     [C + 'VirtualMachine/VirtualMachine.cpp', C + 'Designtime/Analyser.cpp'],
     [('import resolution', C + 'VirtualMachine/VirtualMachine.cpp loadLibrary'), ('collection of imports', C + 'Designtime/Analyser.cpp processTokens')])

prop('M02', 'Names in namespaces resolve to the innermost enclosing declaration',
     'A qualified name denotes the declaration at that path; an unqualified one denotes the declaration in the innermost enclosing namespace that has it. Equal names in different namespaces never interfere, and a namespace may be reopened.',
     ['programs'], 'all small trees of namespaces holding equal names, with uses from every place',
     'Tests use two namespaces with distinct names.',
     [C + 'Scope.cpp', C + 'Designtime/Analyser.cpp', C + 'Common/Namespace.cpp', C + 'AST/TreeGenerator.cpp'],
     [('scope chain', C + 'Scope.cpp resolve'), ('reopening', C + 'Designtime/Analyser.cpp')])

prop('R01', 'The process interface is faithful: arguments, output and exit status',
     'A program receives its script name and exactly the arguments given, prints its lines completely and in program order, and ends with the status it returned from its entry point or passed to exit; any error gives the error status. Quiet mode suppresses printed lines and changes nothing else.',
     ['inputs', 'programs', 'configurations'], 'all argument vectors, statuses, exit places and command line options',
     'Tests run inside one process and never look at the process boundary.',
     ['Projects/slang/main.cpp', C + 'VirtualMachine/VirtualMachine.cpp', 'Projects/Utils/Tools/Printer.cpp'],
     [('argument handling and status', 'Projects/slang/main.cpp processParameters, main')])

prop('C01', 'Collections behave like the mathematical structures they are named after',
     'After any sequence of operations, a list, vector, linked list, stack, queue, set or map of the library holds exactly the elements a sequence, stack, queue, set or finite map would hold, in the same order, and its iterators visit each of them once. Operations outside the valid range raise an exception and leave the contents unchanged.',
     ['histories', 'inputs'], 'all histories of operations on every collection type with several element types',
     'Tests run one fixed script per collection.',
     ['Projects/Library/System/Collections/List.os', 'Projects/Library/System/Collections/Map.os', 'Projects/Library/System/Collections/Set.os', 'Projects/Library/System/Collections/Vector.os', 'Projects/Library/System/Collections/DoubleLinkedList.os', 'Projects/Library/System/Collections/Stack.os', 'Projects/Library/System/Collections/Queue.os'],
     [('linked nodes and counters', 'Projects/Library/System/Collections')])

prop('C02', 'String functions compute the textbook result for every argument',
     'Searching, slicing, replacing, splitting, trimming, case conversion and comparison of strings return, for all arguments, what their definition over sequences of characters says, and never change their arguments. streval puts the value of a variable in place of its name within triple braces and leaves everything else as it is.',
     ['inputs'], 'all short strings over a small alphabet and all positions, also outside the valid range',
     'Tests try a few typical arguments.',
     ['Projects/Library/System/String.os', 'Projects/Extensions/System/Strings', 'Projects/Extensions/LIBC/cstring', 'Projects/Utils/Tools/Strings.cpp'],
     [('string object', 'Projects/Library/System/String.os'), ('native functions', 'Projects/Extensions/System/Strings')])

prop('N01', 'Mathematical functions return the mathematical result for every argument',
     'Rounding, absolute values, remainders, minimum and maximum, roots, powers, scaling and exponents of numbers, for double, float and whole numbers, return exactly the number their definition names whenever it can be represented. Exponential, logarithmic, trigonometric, hyperbolic, error and gamma functions return it up to rounding, so that each is the inverse of its counterpart and the identities between them hold at every argument. No function changes its arguments.',
     ['inputs'], 'all functions on all multiples of a small fraction in a range, at powers and squares, and random arguments',
     'Hardly any of these functions is called by a test, and none over its whole range.',
     ['Projects/Extensions/LIBC/math', 'Projects/Extensions/LIBC/stdlib', 'Projects/Library/System/Math/Functions.os'],
     [('native functions', 'Projects/Extensions/LIBC/math')])

prop('T01', 'Times are written as the calendar shows them and read back as the same time',
     'strftime writes a time, before and after 1970, as the date and the time of day that the calendar and the local time zone, summer time included, show at that moment, for every directive of the format. strptime returns the time a text shows in that zone, so that reading what was written gives the same time again, and 0 if the text does not fit the format. The clock does not go backwards between two calls.',
     ['inputs'], 'days around the ends of months, years and leap years and changes of summer time, random times, in several time zones, with every directive',
     'Tests run in one time zone and cannot compare with a fixed text.',
     ['Projects/Extensions/System/Strings/StrFTime.h', 'Projects/Extensions/System/Strings/StrPTime.h', 'Projects/Extensions/System/Time/StdTime.h'],
     [('writing', 'Projects/Extensions/System/Strings/StrFTime.h execute'), ('reading', 'Projects/Extensions/System/Strings/StrPTime.h execute')])

prop('F01', 'Files behave like byte sequences with one position per handle',
     'Data written through a handle is read back unchanged from the same position, appends go to the end, seeks and positions agree, a byte that is put back is the next one read, and closing makes everything written visible to a later open. The end of the file and failed transfers are reported until they are cleared. A file that cannot be opened is reported and never ends the program.',
     ['histories'], 'all histories of open, write, read, seek, tell and close over a few files and modes',
     'Tests write and read one file once.',
     ['Projects/Extensions/LIBC/stdio', 'Projects/Library/System/IO/File.os'],
     [('file functions', 'Projects/Extensions/LIBC/stdio')])

prop('V01', 'Semantic versions are totally ordered by the published precedence rules',
     'For all versions the comparison operators agree with each other and with semantic-versioning precedence: numeric fields compare as numbers, a pre-release precedes its release, and the order is irreflexive, transitive and total on distinct versions.',
     ['inputs'], 'all pairs and triples of versions over small fields and labels',
     'Laws over pairs and triples are not tested at all.',
     ['Projects/Utils/SemVer', 'Projects/Library/libSemVer'],
     [('comparison', 'Projects/Utils/SemVer/Version.cpp')])

prop('K01', 'The package manager keeps the local library consistent with its commands',
     'Installing puts the requested modules, in the named version or else the version of the index, and every dependency that the library does not have in at least the required version into the library. An installation changes nothing if a module or dependency cannot be found, is for another architecture or is forbidden by a restriction. Upgrading brings the selected outdated modules to the version of the index as far as restrictions allow, and no module gets older unless a version is named. Removing deletes exactly the named modules, purging also their restrictions; a failed update keeps the index, listing and searching show what is there, and nothing outside the library is touched.',
     ['histories', 'fault_sequences'], 'all short histories of commands over small repositories with dependencies, several versions and missing files',
     'The package manager has no tests.',
     ['Projects/slang-pkg/Application/Application.cpp', 'Projects/slang-pkg/Common/Repository.cpp', 'Projects/slang-pkg/Common/Module.cpp'],
     [('commands', 'Projects/slang-pkg/Application/Application.cpp'), ('version selection', 'Projects/slang-pkg/Common/Repository.cpp')],
     observe=['files of the local library and output of the package manager'])

prop('D01', 'Debugging does not change what a program does and stops where it was told to',
     'A program run under the debugger produces the same output as without it, whatever commands are given, unless it is quit or a variable is changed (then it goes on with the new value). Execution stops exactly where it was asked to: at statements with a breakpoint whose condition holds, after next at the next statement of a method that was already running, after into at the next method that is entered, after out at the next one that is left, and where an exception is thrown. At a stop, variables, watches and frames show the current state of the program.',
     ['programs', 'histories'], 'all breakpoint sets and command sequences over programs with calls, loops and exceptions',
     'The debugger has no tests.',
     ['Projects/Core/Debugger/Debugger.cpp', 'Projects/Core/Debugger/BreakPoint.cpp', 'Projects/slang-dbg/LocalClient/LocalClient.cpp', C + 'AST/TreeInterpreter.cpp'],
     [('notification before each statement', C + 'AST/TreeInterpreter.cpp visitStatement'), ('stop decision', 'Projects/Core/Debugger/Debugger.cpp notify, notifyEnter, notifyExit')],
     observe=['output of the debugger client'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
