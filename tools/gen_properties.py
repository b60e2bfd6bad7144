#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays easy to edit)."""
import json, os
H = "include/opt/option.hpp"
F = "include/opt/option_fwd.hpp"
def P(id, title, statement, over, text, why, mech, state=(), observe=(), files=(H,)):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": list(files),
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                        "observe_at": list(observe), "hook_needed": None}}
L = [
P("C01", "Every history of operations leaves the option a nullable model would have",
  "After any sequence of construction, copy, move, conversion, assignment (from a value, an option, another option type or none), reset, emplace, try_emplace, take, take_if and swap over a set of options of any supported element type, each option reports holding a value exactly when a plain nullable value driven by the same operations would, and the value it holds and the results it returned are equal to the model's. This holds alike for element types with and without a spare bit pattern, for every combination of trivial and user-provided copy, move and destructor of the element type, and for self-assignment and self-swap.",
  ["histories", "inputs", "programs"], "All finite operation histories over a pool of options, for all element types and all values of them.",
  "Tests apply each operation once or twice to a fixed start state, for a handful of types; the code selects one of a dozen base-class specialisations and several construct/assign branches from the element type, so a defect can hide in a (type profile x pre-state x operation) cell or show only after a particular sequence.",
  [("construct/assign/reset base selected by type traits", H+": option_destruct_base, option_base specialisations"),
   ("mutating members", H+": option::operator=, reset, emplace, try_emplace, take, take_if, swap")],
  [("has_value flag / level", "whether a value is contained", H+": option_destruct_base")], ["public API return values after every step"]),
P("C02", "Contained objects are constructed, used and destroyed exactly once each",
  "For every history of operations, each contained object is constructed once in the option's own storage, is only assigned to, read or passed to a callback while alive, and is destroyed exactly once, no later than the end of the option's life; an option that is emptied destroys its object at that moment. No operation leaks an object or memory, or constructs or destroys anything while it holds no value.",
  ["histories", "programs"], "All finite operation histories, all element types, all exits from scope.",
  "The existing tests count constructions for one tracked type in a few scripted sequences; lifetime faults depend on the combination of pre-state, operation and which of the storage variants the element type selects.",
  [("in-place construction and destructor call", H+": construct_at, option_destruct_base::construct/reset/destructor"),
   ("whole-option assignment", H+": option_assign_from_option, option_construct_from_option")],
  [("union storage", "storage of the contained object", H+": option_destruct_base")], ["constructor/destructor/assignment events of instrumented element types keyed by address", "LeakSanitizer/AddressSanitizer"]),
P("C03", "An exception from element code never corrupts an option",
  "Whenever a constructor, assignment, conversion, swap or callback of the user throws during any operation, the exception propagates unchanged, every option involved still reports a state that matches whether a live object is in its storage, and it can afterwards be inspected, reused and destroyed without leak, double destruction or access to a dead object. An operation that was filling an empty option leaves it empty, an assignment to or a callback run on a holding option leaves it holding, one that was handing its value to another option (move, swap, take) leaves the giver holding, and options that the operation only reads are unchanged.",
  ["fault_sequences", "histories", "programs"], "All points at which element code can throw, in every operation, from every pre-state, for every element type, also with further operations after the failure.",
  "No test throws from element code; the empty state of types with spare bit patterns lives in the same bytes that a half-finished constructor has overwritten, so each throwing point is a separate case.",
  [("construction in storage and engagement order", H+": construct, construct_with_traits, construct_guard"),
   ("converting constructors and assignments", H+": option(option<U>), operator=")],
  [("level bytes", "emptiness encoded in the value's own bytes", H+": option_traits")], ["fault injector counting element-code calls", "live-object registry"]),
P("C04", "Copies and moves happen only where the value category asks for them",
  "An operation on an rvalue option or with an rvalue argument never copies the contained object or argument and works for move-only types, and an operation on an lvalue never moves from it or modifies it; a moved-from option still holds its (moved-from) value, except where the operation is documented to empty it. Assigning to a holding option of class type assigns to the contained object in place, so references to it stay valid, while an empty one constructs it from the argument without any further copy or move.",
  ["histories", "programs"], "All operations, in each const and reference-qualified form, each pre-state and each element type.",
  "Tests check the resulting value, which a stray copy or a move from an lvalue often leaves the same; const/ref overload sets are written out four at a time and only some are called.",
  [("ref-qualified overload sets", H+": map, and_then, filter, value_or, value_or_construct, map_or, map_or_else, or_else, inspect, has_value_and"),
   ("forwarding in free functions and operators", H+": zip, zip_with, option_cast, unzip, operator|, operator^, operator&")],
  [], ["copy/move counters and marks of instrumented element types, addresses of contained objects"]),
P("C05", "Combinators call the callback exactly once, on the value, iff there is one",
  "map, and_then, filter, inspect, has_value_and, take_if, map_or, map_or_else and or_else call each supplied callable at most once and exactly when their documented case applies, pass it the contained object itself with the option's constness and value category, and return what the callable returned (or the documented default, the option itself, or none). This holds for any callable, including member pointers, function pointers and objects with overloaded or ref-qualified call operators, and none of them changes the option beyond what is documented.",
  ["inputs", "programs"], "All callables, all option states, all value categories, all element types, all chains of combinators.",
  "Tests run each combinator with one or two lambdas and look at the final value; the number of calls, the identity and category of the argument, and side effects on the option go unobserved.",
  [("combinator bodies", H+": impl::option::map, and_then, map_or, map_or_else, or_else, has_value_and, inspect, filter, take_if"),
   ("uniform invocation", H+": impl::invoke")],
  [], ["call log of instrumented callables"]),
P("C06", "Spare-pattern types cost no space, and every empty level is encoded distinctly",
  "For each element type that has spare bit patterns (bool, pointers, member pointers, floating point, references, strings, vectors, views, smart pointers, pairs, tuples, arrays, complex numbers, polymorphic classes, enumerations, padding members, aggregates and nested options) an option is exactly as large as its element type, and an option nested to any depth up to the advertised number of levels stays that size. Writing any advertised level and reading it back yields that level, distinct levels are distinct, and no genuine value reads as any of them.",
  ["inputs", "programs", "configurations"], "All types with built-in spare patterns (and compositions of them), all advertised levels, all build configurations.",
  "The test file for the traits is not built, and the other tests see only the first one or two levels; up to 512 levels and arbitrary compositions exist.",
  [("built-in traits", H+": internal_option_traits specialisations"), ("strategy selection", H+": detemine_option_strategy, dispatch_specializations, find_max_level, max_enum_value")],
  [("level", "index of an empty representation", H+": get_level/set_level")], ["option_traits<T>::get_level/set_level", "sizeof"]),
P("C07", "No genuine value is ever mistaken for empty or altered by storage",
  "An option holding any genuine value of its element type, including the extreme ones (null, NaNs the hardware or library can produce, infinities, signed zeros, empty and moved-from containers, every named enumerator, every address that can exist) reports that it holds a value and gives back exactly the bits that were stored, and no operation on a floating-point option raises a floating-point exception flag or changes a payload. Storing, copying, moving and swapping options preserves the full value representation.",
  ["inputs"], "All values of each element type (all 2^32 patterns for 32-bit floats).",
  "Tests store a few friendly values; a collision affects a tiny part of the value space, e.g. one NaN payload range or one enumerator.",
  [("choice of sentinel patterns", H+": internal_option_traits specialisations"), ("enumeration reflection", H+": max_enum_value_impl2")],
  [], ["has_value and the stored bytes", "fetestexcept"]),
P("C08", "Nested options keep every nesting level independent",
  "In an option nested to any depth, the state \"empty at depth k\" for each k and the state \"holding\" are all mutually distinguishable, and changing the state at one depth through any operation, copy, move, swap or comparison affects that depth and those within it only. This holds at all depths for element types with many, few, one or no spare patterns, including when the spare patterns run out between two depths.",
  ["histories", "programs", "inputs"], "All nesting depths, all histories of operations at every depth, all element types.",
  "Tests nest two or three deep for single types in one fixed order.",
  [("level arithmetic of nested options", H+": internal_option_traits<option<T>, avaliable_option/unavaliable_option/reference_option>")],
  [("inner level", "outer emptiness stored as further levels of the inner option", H)], ["has_value at each depth after each step"]),
P("C09", "Reference options rebind and never touch the referent",
  "An option of a reference holds the identity of the referenced object: construction, assignment, emplace, conversion, swap and take change only what it refers to, never the referred object, and every accessor designates exactly that object, with the documented constness and category and with derived-to-base and reference_wrapper conversions adjusted correctly. Emptying or destroying it leaves the referent alive and unmodified.",
  ["histories", "inputs"], "All histories of operations on reference options over a set of live objects.",
  "Tests rebind once between two integers; assign-through, slicing, wrong base adjustment and dangling only show with other types and orders.",
  [("reference storage", H+": option_base<..., is_reference=true>"), ("reference branch of assignment", H+": option::operator=")],
  [("pointer", "address of the referent or null", H)], ["addresses and contents of referents after every step"]),
P("C10", "Comparisons are consistent with none least, and hashing agrees with equality",
  "Between options, between an option and none, and between an option and a value, each of the six comparisons gives the result of comparing the contained values when both sides hold one, and otherwise ranks none strictly below every value and equal to itself; mixed element types, const forms and both operand orders agree. The comparisons use only the same operator of the element type (so partial orders such as NaN are preserved), and options of values that compare equal have equal hashes, the hash of a holding option being that of its value (of a reference option: that of the address it designates).",
  ["inputs", "programs"], "All pairs and triples of option states and values for all comparable element types, including partially ordered ones.",
  "There are over thirty hand-written comparison functions; tests call each on one or two value pairs.",
  [("comparison operators", H+": operator==, !=, <, <=, >, >= overloads"), ("hash", H+": std::hash<opt::option>")],
  [], ["results of all comparison forms on all pairs of a value pool"]),
P("C11", "Zip, unzip, flatten, casts and conversions neither lose, invent nor mix values",
  "zip and zip_with hold a result exactly when all arguments do, with components in argument order and the callable called once or not at all; unzip, flatten, option_cast, from_nullable, as_option, make_option and explicit or implicit option-to-option conversions hold a value exactly when their source does (flatten: all nested levels do; as_option: the value is not the reserved one), and that value equals the documented image of the source's. Results are references exactly where documented and then designate the original object.",
  ["inputs", "programs"], "All argument states, arities and element types, in all value categories.",
  "Tests use one or two arities and mostly the all-holding case; a wrong component order, a wrong emptiness combination or a copy instead of a reference shows only for others.",
  [("free functions", H+": zip, zip_with, option_cast, from_nullable, as_option, flatten, unzip, make_option, converting constructors")],
  [], ["results compared with an independent model"]),
P("C12", "Container, tuple, variant lookups and stream I/O are total and exact",
  "at, at_front, at_back, lookup and get return none exactly when the element, key or alternative is absent, for every container size, index (up to the largest size_t) and key, and otherwise refer to that very element with the constness and category of the argument; they never read out of bounds, insert, throw or modify the container. io writes the value, or the stated replacement (or nothing) when empty, and reads into the contained value or the replacement, with the stream otherwise used as for a plain value.",
  ["inputs", "programs"], "All containers, indices, keys, variants (also valueless), streams and option states.",
  "Tests query short containers at a few indices; boundaries and categories are untested.",
  [("at, at_front, at_back, lookup, get, io", H+": at, at_front, at_back, lookup, get_impl, variant_get, io_helper1/2")],
  [], ["results and container snapshots; AddressSanitizer"]),
P("C13", "The operators |, |=, & and ^ compute or, or-assign, and, exclusive-or",
  "For every combination of holding and empty operands, in every combination of lvalue and rvalue, a|b is the first that holds a value (or the given fallback value), a|=b fills a from b only if a is empty and returns a itself, a&b is b if a holds a value and none otherwise, and a^b is the one that holds a value if exactly one does and none otherwise. Operands given as lvalues are unchanged, and the laws that follow (identity, idempotence, associativity and absorption of none) hold.",
  ["inputs", "programs"], "All operand states, values, element types and value categories.",
  "Each operator is written out for up to four category combinations; tests do not cross all of them with all states, nor check that operands are unchanged.",
  [("operators", H+": operator|, operator|=, operator&, operator^")], [], ["result and operand states after each evaluation"]),
P("C14", "An option touches only its own bytes and never depends on indeterminate ones",
  "No operation on an option reads or writes memory outside the option's own storage (apart from what the element's own operations do), moves neighbouring objects' bytes, or performs misaligned or otherwise undefined accesses, whatever the element type, alignment or position (stack, heap, array element, packed beside other members). Its observable behaviour never depends on uninitialised bytes: whatever garbage the storage held before, the results are the same.",
  ["histories", "inputs", "programs"], "All histories, all element types, all prior storage contents and placements.",
  "The suite runs under sanitizers with fixed storage; red zones do not see neighbours inside an object and tests do not vary garbage contents.",
  [("raw byte access to storage", H+": ptr_bit_cast, ptr_bit_copy, set_level implementations")], [("storage bytes", "value or level bytes", H)],
  ["guard bytes around options, garbage-fill differential, AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck, MemorySanitizer"]),
P("C15", "Debug checks fire on every contract breach and never otherwise",
  "In builds with checks enabled, accessing the value of an empty option through get, operator* or operator-> in any form, dereferencing or moving away a value-initialised iterator or one of an empty option, or storing (by construction, emplacement, assignment or a mapped result) a value that the option would read back as empty triggers the diagnostic before the operation's result can be used; a program that respects the contracts never triggers it. With checks disabled a conforming program behaves the same.",
  ["histories", "inputs", "configurations"], "All conforming histories (no diagnostic) and each contract breach from every state and access path (diagnostic).",
  "No test violates a contract, so a lost or inverted check is invisible; a false diagnostic appears only in the state that triggers it.",
  [("OPTION_VERIFY sites", H+": get, operator*, operator->, option_iterator, construct, operator=")],
  [], ["user-overridden verification macro recording each check", "child processes run with the default check"]),
P("C16", "Results do not depend on compiler, language mode, optimisation or macros",
  "A conforming program using the public interface observes the same sequence of states, values, comparison results and callback calls with every supported compiler, language standard, optimisation level, with checks on or off, and with the built-in spare patterns, reflection or quiet-NaN setting switched on or off; only object sizes and the number of levels may differ. Optimised builds with checks turned into assumptions never miscompile it.",
  ["configurations", "histories"], "All supported configurations x all conforming histories.",
  "The suite is run in one configuration; other branches (assume-based checks, C++20 construction, no built-in patterns) are never compared with it.",
  [("configuration macros", H+": OPTION_VERIFY, OPTION_USE_BUILTIN_TRAITS, OPTION_USE_QUIET_NAN, OPTION_IS_CXX20, OPTION_PURE")],
  [], ["trace digests of the same seeded workload in each configuration"], (H, F)),
P("C17", "Custom empty states are honoured and the customisation protocol respected",
  "An option whose element type has user-supplied traits, a sentinel value, a list of sentinels (optionally with own comparison and setter), a designated member or an enforced wrapper is empty exactly when the element reads as its first designated empty representation, is then the size of the element, and offers the designated number of nested levels. The option asks the traits only about initialised storage, requests only levels below the advertised maximum and never while a value is alive, and relies on nothing else.",
  ["histories", "programs", "inputs"], "All user customisations, all histories of operations, all values.",
  "Tests use two or three toy customisations with one or two sentinels each.",
  [("customisation points", H+": option_traits, sentinel_option_traits, sentinel, sentinel_f, member, enforce"), ("PADDING and SENTINEL conventions", H+": padding_member, enumeration_sentinel*")],
  [], ["instrumented traits recording every call with the storage state"]),
P("C18", "Concurrent reads are race-free and distinct options are independent",
  "Any number of threads may call const operations on the same option at once, and any operations on distinct options (including adjacent array elements, members of one object and reference options to one referent), without data races and with the same results as sequentially. Copying from, comparing, hashing, streaming, iterating and zipping are const operations in this sense.",
  ["schedules", "histories"], "All interleavings of const operations on shared options and of any operations on distinct options.",
  "No test uses threads; a hidden write in a const operation, hidden shared state, or a write wider than the option's storage would break it.",
  [("const members write nothing", H+": has_value, get, value_or, map const&, operator==, hash"), ("set_level writes only own bytes", H)],
  [], ["ThreadSanitizer and result comparison under stress"]),
P("C19", "Checked access and iteration expose exactly the contained object, or its absence",
  "value and value_or_throw throw bad_access exactly when the option is empty, ptr_or_null is null exactly then, value_or and value_or_construct give the fallback exactly then and build it only then, and iteration visits exactly one element if the option holds a value and none otherwise, in every direction and with consistent random-access arithmetic. All of the access paths (dereference, arrow, get, unchecked get, value, pointer, iterator) designate the same contained object inside the option with the option's constness and category.",
  ["inputs", "programs"], "All states, element types, constness and categories, and all iterator expressions within range.",
  "Tests read the value through a few paths; identity between paths, iterator arithmetic and evaluation of fallbacks are not compared.",
  [("accessors", H+": get, operator*, operator->, get_unchecked, value, value_or_throw, value_or, value_or_construct, ptr_or_null"), ("iterators", H+": option_iterator, begin, end")],
  [], ["addresses and types of results; exceptions"]),
P("C20", "Constant evaluation gives the same results as run time",
  "Every operation that is usable in a constant expression for an element type gives the same result in constant evaluation as at run time, and evaluates without undefined behaviour there. Programs in C++17 and C++20 modes using the documented constexpr interface with literal element types compile and agree with the run-time results.",
  ["programs", "configurations", "inputs"], "All constant-evaluable operation sequences for literal element types, in both language modes.",
  "Tests check constexpr for a few expressions of int-like types only.",
  [("constexpr members and construct_at", H+": construct_at, option_destruct_base, option_base")], [], ["constant-evaluated digests compared with run-time digests (the compiler's evaluator acting as undefined-behaviour interpreter)"]),
P("C21", "An option's special members mirror those of its element type",
  "An option is copyable, movable, assignable, trivially so, and non-throwing so, exactly as documented from its element type's properties, and convertible or explicitly constructible from another type exactly when the element is. Where an option is trivially copyable, duplicating its bytes duplicates its state, empty or not, at any nesting depth.",
  ["programs", "inputs"], "All combinations of special-member properties of the element type; all states.",
  "Tests check a dozen hand-picked types of the several hundred combinations; whether bytes duplicate state is not tested.",
  [("special-member selection", H+": option_base, enable_copy_move, option_checks_base, check_from_value_ctor, check_option_like_ctor")], [], ["type-trait tables printed by a generated matrix of element types and compared with an oracle; byte-copy experiments"]),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(L))
