#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
A = "engine/src/conversion/analysis/"
prop("P01", "Special members offered to Rust are those C++ really provides",
     "For every bound C++ class, Rust is offered default construction, copy construction, move construction and destruction only where C++ gives that class a usable, public, non-deleted operation of that kind (taking into account its own declarations, their accessibility, its bases and its members). When the class and everything it is composed of is understood, each such operation which C++ provides, declared or implicit, is offered (a default constructor is not promised where there are pointers or enumerations among the members; an implicit move constructor only where all the bases and members are themselves moved by a move constructor).",
     ["programs"], "all combinations of declared/deleted/inaccessible special members over class hierarchies and member types",
     "The tests sample a few dozen hand-written classes; the rules are a product of seven kinds of special member, four accessibilities, bases and members, and a slip only shows in particular combinations (as a C++ compile error, or as a silent double free).",
     [A+"fun/implicit_constructors.rs", A+"fun/mod.rs", A+"constructor_deps.rs", "engine/src/conversion/codegen_rs/mod.rs"],
     [("implicit constructor analysis", A+"fun/implicit_constructors.rs"), ("synthesis of constructors and destructors", A+"fun/mod.rs")],
     ["trait impls and constructors in the generated Rust module", "C++ compiler's verdict on the generated glue"])
prop("P02", "By-value (POD) types are only those that are safe to move bytewise",
     "A type is given a plain, by-value, bytewise-movable Rust representation only if it was requested as such (or is needed inside one that was) and every field, transitively, is itself safe to hold by value, with no virtual functions and no base classes whose contents are not. A request for a plain representation of any other type is never granted: the tool or the C++ compiler of the generated code stops with an error, or the type is left unusable. Every type not so requested stays opaque with no accessible fields.",
     ["programs", "configurations"], "all field graphs over safe and unsafe leaf types, all subsets of by-value requests, any declaration order",
     "Tests check single structs with one unsafe field; the property is transitive over arbitrary nesting, request subsets and declaration orders, and violating it is silent memory unsafety.",
     [A+"pod/mod.rs", A+"pod/byvalue_checker.rs", "engine/src/known_types.rs", "engine/src/conversion/codegen_cpp/mod.rs"],
     [("by-value checker", A+"pod/byvalue_checker.rs"), ("relocatability static assertions in C++", "engine/src/conversion/codegen_cpp/mod.rs")],
     ["generation error or generated type kind", "C++ compiler's verdict on generated assertions"])
prop("P03", "Abstract C++ classes can never be instantiated from Rust",
     "If a C++ class has any pure virtual function that is declared by it or inherited and not overridden (matching name, parameters and constness), then the bindings offer no way to construct, copy, move or receive by value an instance of it; it remains usable by reference. A class in which every inherited pure virtual function is overridden keeps its constructors.",
     ["programs"], "all inheritance chains and diamonds over pure, virtual, overriding and non-overriding methods",
     "Tests use one- or two-level hierarchies; the property quantifies over inheritance depth, overload sets and constness of overrides.",
     [A+"abstract_types.rs", A+"fun/mod.rs", "engine/src/conversion/codegen_rs/mod.rs"],
     [("abstractness propagation", A+"abstract_types.rs")],
     ["generated constructors and trait impls"])
prop("P04", "Every overload gets its own predictable Rust name",
     "Within one namespace, or within one type, distinct C++ functions always receive distinct Rust names: the first declared of a given C++ name keeps that name and each later overload gets the name followed by 1, 2, 3... in order of declaration, the virtual methods of a class after its other methods (overloads which cannot be bound take part in the numbering), independently for each namespace and each type. A name which Rust reserves gets an underscore appended and is then treated like any other; a name which merely resembles the class's, or ends in an underscore, is kept as it is. Constructors follow the same rule using the name 'new'.",
     ["programs"], "all interleavings of declarations of overloaded functions across namespaces, classes and kinds (free, static, member, constructor)",
     "Tests contain a handful of overload sets; the numbering state depends on the whole history of declarations in a header.",
     [A+"fun/overload_tracker.rs", A+"fun/bridge_name_tracker.rs", A+"fun/mod.rs", A+"name_check.rs"],
     [("overload tracker", A+"fun/overload_tracker.rs"), ("bridge name tracker", A+"fun/bridge_name_tracker.rs")],
     ["public names in the generated Rust module"])
prop("P05", "Bindings are closed and compile: bad items go with their dependents only",
     "When a header contains things that cannot be represented, generation still succeeds (unless such a thing was itself explicitly requested), leaving out exactly the unrepresentable items and the functions and methods whose signatures need them, directly or through aliases (a class is kept, by reference, whatever its members and bases). Everything else that was asked for is bound, and the generated Rust and C++ always compile: nothing generated refers to something that was left out.",
     ["programs", "configurations"], "all dependency graphs between types, type aliases and functions with any subset of unrepresentable leaves",
     "Tests have single unrepresentable items; the property is about dependency chains of arbitrary shape, and failing it breaks the user's whole build.",
     [A+"remove_ignored.rs", A+"deps.rs", A+"type_converter.rs", A+"replace_hopeless_typedef_targets.rs", A+"tdef.rs", A+"name_check.rs", A+"gc.rs"],
     [("removal of dependents of ignored items", A+"remove_ignored.rs"), ("garbage collection", A+"gc.rs")],
     ["items present in the generated module", "rustc and C++ compiler verdicts on the output"])
prop("P06", "The allowlist and blocklist decide exactly what gets bound",
     "A function, or a type with its methods, is bound if and only if it was requested (by name, by its namespace, or by asking for everything) or is needed by something bound; types that are only needed, not requested, carry no methods; and blocked types never appear, nor does any function or method that mentions them. Asking by name for something which does not exist, or for a blocked type, makes generation fail with an error that names it.",
     ["programs", "configurations"], "all item graphs over several namespaces combined with all sets of generate / namespace / everything / block directives",
     "Tests exercise each directive once; interactions between namespaces, blocking, transitive need and request sets are combinatorial.",
     ["parser/src/config.rs", A+"gc.rs", "engine/src/lib.rs", "engine/src/conversion/parse/parse_bindgen.rs", A+"fun/mod.rs"],
     [("allowlist", "parser/src/config.rs"), ("garbage collection from allowlisted roots", A+"gc.rs")],
     ["items present in the generated module", "generation errors"])
prop("P07", "Calls that may violate Rust safety are always marked unsafe",
     "With the default policy every bound C++ function, method and constructor requires unsafe to call. With the policy that declares the C++ safe, a function requires unsafe if and only if one of its parameters (other than the object it is called on) is a raw pointer; taking references, values or strings does not.",
     ["programs", "configurations"], "all function kinds, parameter lists and return types under each safety policy",
     "Tests compile a few calls under the permissive policy, which cannot notice a missing 'unsafe'; the property is over all signatures.",
     [A+"fun/mod.rs", "engine/src/conversion/codegen_rs/fun_codegen.rs", "parser/src/config.rs"],
     [("unsafety determination", A+"fun/mod.rs"), ("codegen of unsafe tokens", "engine/src/conversion/codegen_rs/fun_codegen.rs")],
     ["signatures in the generated Rust module"])
prop("P08", "Returned references are always tied to an input of compatible mutability",
     "A C++ function returning a reference is bound only when its parameters give the result an unambiguous Rust lifetime: exactly one reference parameter (counting the object it is called on), which must be mutable if the returned reference is mutable; otherwise it is skipped, without failing the build. Mutable and const C++ references and receivers always appear as exclusive and shared Rust references respectively, and functions returning rvalue references are never bound.",
     ["programs"], "all signatures over reference kinds of parameters, receivers and results",
     "Tests check a few positive and negative shapes; the property ranges over all parameter combinations, and getting it wrong gives Rust code a dangling or aliased reference with no error.",
     [A+"fun/mod.rs", A+"type_converter.rs", "engine/src/conversion/codegen_rs/lifetime.rs"],
     [("reference return checks", A+"fun/mod.rs"), ("lifetime annotation", "engine/src/conversion/codegen_rs/lifetime.rs")],
     ["signatures in the generated Rust module"])
prop("P09", "C++ functions that may not be called are never callable from Rust",
     "Private, protected and deleted member functions and constructors, assignment operators and other operators, variadic functions and functions of types that cannot be bound are never exposed as callable Rust functions, whatever kind of member they are, and skipping them does not affect their siblings. Every other public function whose types are all representable is exposed.",
     ["programs"], "all member kinds crossed with access levels, deletion, virtuality, variadicity, in all orders within a class",
     "Tests contain one or two examples of each reason; the property is over all combinations of member kinds and reasons and over positions in the class.",
     [A+"fun/mod.rs", "engine/src/conversion/parse/parse_foreign_mod.rs", "engine/src/parse_callbacks.rs"],
     [("function ignore reasons", A+"fun/mod.rs")],
     ["callable functions in the generated Rust module"])
prop("P10", "Passing C++ values as parameters never leaks, duplicates or double-frees",
     "For every way of passing a C++ object to a function that takes it by value or by rvalue reference (by shared reference, by unique pointer or a reference to one, by pinned box or a reference to one, explicit copy, explicit move, or in-place construction), the C++ function sees an object with the argument's value, every C++ object ever constructed is destroyed exactly once, arguments passed by reference or explicit copy keep their value, and consumed arguments are destroyed by the end of the call. A null pointer argument panics before the C++ function runs, without leaking or destroying anything twice.",
     ["histories", "inputs"], "all sequences of calls mixing the passing modes, parameter positions and object states, including null pointers and multiple parameters",
     "Existing tests assert returned values only; constructions, destructions, and panicking paths are not counted.",
     ["src/value_param.rs", "src/rvalue_param.rs", "engine/src/conversion/codegen_rs/function_wrapper_rs.rs", "engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs"],
     [("value parameter storage protocol", "src/value_param.rs"), ("rvalue parameter protocol", "src/rvalue_param.rs")],
     ["constructor/destructor/copy/move event log recorded by C++ test types"])
prop("P11", "Rust subclass and C++ peer live and die together exactly once",
     "In each ownership mode (Rust-owned, C++-owned, self-owned) the Rust object and its C++ peer are both alive while any owner of that mode holds them, and both are destroyed exactly once as soon as the last owner lets go: dropping the last Rust reference, C++ deleting the peer, or asking a self-owned object to delete itself, including from within one of its own methods. Converting ownership never leaves either half referring to a destroyed other half.",
     ["histories"], "all sequences of create, clone, drop, hand-over, call and self-delete operations over several subclass instances in all ownership modes",
     "Tests run one fixed scenario per ownership mode; lifetimes depend on the order of arbitrary operation sequences.",
     ["src/subclass.rs", "engine/src/conversion/codegen_rs/mod.rs", "engine/src/conversion/codegen_cpp/mod.rs", "macro/src/lib.rs"],
     [("peer holders", "src/subclass.rs"), ("ownership relinquishment glue", "engine/src/conversion/codegen_cpp/mod.rs")],
     ["construction/destruction event log of both halves"])
prop("P12", "Virtual calls on a Rust subclass reach the right implementation",
     "When C++ calls a virtual method of a Rust subclass, the Rust override runs if there is one, with the same arguments and with its result returned to C++; otherwise the C++ superclass implementation runs, which is also what an explicit call to the superclass version reaches; a call through the superclass type obtained from Rust behaves the same. A nested call that would need a second exclusive borrow of the Rust object panics instead of aliasing it, while nested shared calls work.",
     ["programs", "histories"], "all combinations of const/non-const, pure/non-pure, overridden/not overridden, overloaded methods, and nested call sequences",
     "Tests override one or two methods in fixed scenarios; dispatch has to be right for each method kind, overload and nesting.",
     ["src/subclass.rs", A+"fun/subclass.rs", "engine/src/conversion/codegen_rs/mod.rs", "engine/src/conversion/codegen_cpp/mod.rs"],
     [("subclass trampolines", "engine/src/conversion/codegen_cpp/mod.rs"), ("methods and supers traits", "engine/src/conversion/codegen_rs/mod.rs")],
     ["call event log"])
prop("P13", "C++ objects held from Rust are built in place, stay put and are freed once",
     "However Rust holds a C++ object (unique pointer, pinned box, stack slot, or owned C++ reference holder, including conversions between them and moves of the holder), the object is constructed exactly once at its final address or transferred by C++ copy/move construction, never relocated bytewise, and destroyed exactly once; class-specific allocation functions are paired. References obtained from a holder denote the held object.",
     ["histories"], "all sequences of constructing, moving, copying, borrowing, mutating, converting and dropping over all kinds of holder",
     "Tests do single create/use/drop sequences and do not check addresses or destruction counts.",
     ["src/reference_wrapper.rs", "src/lib.rs", A+"allocators.rs", "engine/src/conversion/codegen_rs/fun_codegen.rs", "engine/src/conversion/codegen_cpp/new_and_delete_prelude.rs", "engine/src/conversion/codegen_rs/non_pod_struct.rs"],
     [("emplacement via moveit", "src/lib.rs"), ("owned reference holders", "src/reference_wrapper.rs")],
     ["C++ event log with object addresses"])
prop("P14", "Directives mean the same in any order and bad ones are rejected",
     "The configuration resulting from a list of directives depends only on which directives are present: independent directives may be given in any order, asking for specific items together with asking for everything is rejected in either order, and unknown or malformed directives are rejected with an error. A configuration printed for a reproduction case reads back as the same configuration.",
     ["configurations"], "all sequences of directives up to a bound, all permutations",
     "Tests parse a few fixed lists; order independence and round-tripping quantify over all lists.",
     ["parser/src/config.rs", "parser/src/directives.rs", "parser/src/lib.rs", "parser/src/path.rs", "parser/src/subclass_attrs.rs"],
     [("directive parsers", "parser/src/directives.rs"), ("allowlist conflict rules", "parser/src/config.rs")],
     ["parsed configuration compared through public queries, printing and generated output"])
prop("P15", "An archive of bindings returns exactly the bindings stored for a macro",
     "Looking up an invocation of the macro in an archive of several sets of bindings returns precisely the Rust code stored for that invocation's directives, before and after the archive is written to and read from its file form, regardless of formatting of the source; an invocation that was never stored is reported as missing and never receives another invocation's code.",
     ["histories", "inputs"], "all sequences of insertions and lookups over distinct and reformatted directive lists, including file round trips",
     "Unit tests store two entries; the property is about all combinations and histories, including overwriting and near-identical directive lists.",
     ["parser/src/multi_bindings.rs", "engine/src/output_generators.rs", "macro/src/lib.rs"],
     [("archive keyed by configuration", "parser/src/multi_bindings.rs")],
     ["archive lookups", "generated archive file"])
prop("P16", "The macro finds its bindings by a fixed order of locations",
     "For every combination of the environment variables that say where generated bindings live, the location used is the archive if given, else the single file if given, else the named directory, else the build output directory, and with none of them set there is a clear failure; an archive given as a list of paths uses the first that can be opened. The builder writes its include, source and Rust directories under the matching root, so what the builder writes is what the macro reads.",
     ["configurations"], "all combinations of set/unset variables and of existing/missing archive paths",
     "Tests exercise a couple of modes separately; precedence is about combinations.",
     ["parser/src/file_locations.rs", "macro/src/lib.rs", "engine/src/builder.rs"],
     [("location strategy", "parser/src/file_locations.rs")],
     ["generated include tokens", "directories written by the builder"])
prop("P17", "The command-line generator writes exactly the promised set of files",
     "For every set of inputs and options, a successful run of the generator leaves exactly the promised output files (with a fixed count: that many of each kind, padded with placeholders), each wired to include the header it was generated with, and lists every output with all the headers read in the dependency file. It fails instead of writing two different contents under one name or more files than the fixed count, rewrites nothing when rerun on unchanged input, and produces identical output for identical input.",
     ["configurations", "histories"], "all combinations of modes, fixed counts, numbers of macros and bridges per file, multiple inputs and reruns",
     "Tests run a few fixed command lines.",
     ["gen/cmd/src/main.rs", "gen/cmd/src/depfile.rs", "engine/src/lib.rs", "engine/src/output_generators.rs", "engine/src/builder.rs"],
     [("file writer and placeholders", "gen/cmd/src/main.rs"), ("dependency file", "gen/cmd/src/depfile.rs")],
     ["output directory contents and timestamps", "dependency file", "exit status"])
prop("P18", "Calling a bound function runs that C++ function with those arguments",
     "Each bound free function, static method, const or mutable method and constructor, in any namespace or nested class and for any overload, invokes exactly the C++ function it stands for, passing each argument's value in the right position and returning exactly the value C++ returned, for integers of each width, booleans, floating point, enumerations, strings, plain structs, opaque objects, references and pointers. Every bound function compiles and links in an ordinary build.",
     ["programs", "inputs"], "all function kinds x parameter/result type lists x overload positions x namespaces",
     "Tests check individual signatures; mixing up overloads, argument positions or conversions for a combination not sampled goes unnoticed.",
     [A+"fun/mod.rs", A+"fun/function_wrapper.rs", "engine/src/conversion/codegen_rs/fun_codegen.rs", "engine/src/conversion/codegen_cpp/mod.rs", "engine/src/conversion/codegen_cpp/type_to_cpp.rs"],
     [("wrapper generation on both sides", "engine/src/conversion/codegen_cpp/mod.rs")],
     ["call log recorded by C++ compared with call log recorded by Rust"])
prop("P19", "Incomplete C++ types are only ever used behind references and pointers",
     "A type that is only forward-declared, or is an alias the tool treats as opaque, can be used by reference or pointer in bound functions, but never by value, in a smart pointer or a container, and never gets constructors; functions that would require it are skipped without failing the build. If a definition is visible anywhere in the header, the type is treated as complete, whatever the order of declaration and definition.",
     ["programs"], "all uses of declared-only and defined types in every position of a signature or field, in all declaration orders",
     "Tests have a few forward declaration cases; failing produces C++ that deletes an incomplete type or does not compile.",
     ["engine/src/conversion/parse/parse_bindgen.rs", A+"type_converter.rs", A+"replace_hopeless_typedef_targets.rs", A+"fun/mod.rs", "engine/src/conversion/codegen_rs/mod.rs"],
     [("forward declaration tracking", A+"type_converter.rs")],
     ["signatures and types in the generated Rust module", "C++ compiler verdict"])
prop("P20", "Upcasts are offered exactly for accessible bases and denote the same object",
     "A bound C++ class converts by reference to each of its bound direct base classes that C++ lets outside code convert to (public, unambiguous, not virtual; also when named through a typedef), and, step by step, to theirs; it converts to no type C++ would not convert to. The reference obtained denotes the base part of the same object, including with several bases and whichever chain of conversions is taken. The conversions always compile.",
     ["programs"], "all inheritance graphs of bounded size with public/protected/private edges and multiple bases",
     "Tests cover a single chain.",
     [A+"casts.rs", A+"fun/mod.rs", A+"pod/mod.rs"],
     [("cast synthesis", A+"casts.rs")],
     ["conversion impls in the generated Rust module", "addresses and field values observed through the upcast"])
prop("P21", "Automatic discovery finds every use of the bindings in the Rust file",
     "With automatic allowlisting, every C++ type or function named by a path starting with ffi:: anywhere in the file's ordinary Rust code (bodies, signatures, type definitions, constants, impls, traits, generics, patterns, nested modules) gets bound, and nothing that is not so mentioned is requested; macro contents, use declarations and associated items of types are outside this, as documented. Rust types, functions and methods marked for export to C++ and subclasses naming their superclass are all picked up, from modules at any depth. Set-ups in which an export cannot be made, or bindings are ambiguous or conflicting, are reported as errors.",
     ["programs"], "all syntactic positions and nestings in which the bindings can be mentioned",
     "Unit tests cover one position each, unnested.",
     ["engine/src/ast_discoverer.rs", "engine/src/parse_file.rs"],
     [("syntax tree walk", "engine/src/ast_discoverer.rs")],
     ["resulting configuration / generated items"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
