"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

E = "pyo3_bindgen_engine/src/"
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=None):
    p = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]},
    }
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(p)


prop(
    "C01",
    "Generation is total: no panic, hang or invalid Rust for any importable module",
    "For every Python module or package that can be imported, however unusual its attributes, names, signatures, annotations, docstrings and metaclasses are, and for every configuration, generating bindings terminates without panicking or crashing. "
    "If every attribute of the module can be read normally, generation succeeds and the output parses as Rust; one awkward item (an unutterable name, an unreadable attribute, an uninspectable callable, a broken submodule) never makes the bindings of the remaining items disappear. "
    "A module that cannot be imported, and a generator without modules, yield an error value instead of bindings.",
    ["inputs", "configurations"],
    "all importable Python modules (standard library, random well-formed packages, adversarial modules) x all configurations",
    "The tests generate bindings for about ten fixed standard-library modules and three tiny snippets under the default configuration; they cannot reach the space of attribute values, annotation strings and name shapes.",
    [E + "codegen.rs", E + "syntax/module.rs", E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/property.rs", E + "typing/from_py.rs", E + "syntax/common/ident.rs"],
    "Recursive introspection of module attributes, inspect.signature, annotation parsing and identifier sanitisation",
)
prop(
    "C02",
    "The generated bindings always compile",
    "For every Python package built from well-formed public classes, functions, variables, annotations and re-exports, and for every configuration, the generated Rust code passes type checking when it is compiled against pyo3, with no undefined, duplicate or unresolved items. "
    "Names that are Rust keywords, names that collide with generated constructors, callables, getters, setters or preludes, and types defined in any other generated module are all handled. "
    "The same holds for the public modules of the standard library.",
    ["inputs", "configurations"],
    "all well-formed packages (random module trees, class hierarchies, annotations, name pools with Rust keywords and clash-prone names, re-export graphs) x configuration switches",
    "No test compiles generated code except three doc examples of the macro; the golden tests compare three small outputs textually.",
    [E + "syntax/module.rs", E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/property.rs", E + "syntax/import.rs", E + "syntax/common/path.rs", E + "typing/into_rs.rs"],
    "Token generation with relative paths, name-clash avoidance and type mapping",
)
prop(
    "C03",
    "The bindings mirror the public structure of the Python package, completely",
    "Every public function, class, method, property, variable, type variable and submodule of the target modules appears in the generated Rust exactly once, in the Rust module that corresponds to its Python module, under its own name (as a raw identifier if it is a Rust keyword), and functions and methods have exactly the Python parameters, in order and by name. "
    "Submodules are found wherever they are in the package tree, also if no other module imports them. "
    "Nothing else appears: no private item, no reserved or blocklisted name, no class, Python function or module that was merely imported from another package, and no item of another module.",
    ["inputs"],
    "all random package trees with classes, inheritance, all parameter kinds, private and public names, imports and nested packages; checked against the structure known by construction",
    "The golden tests fix three single-module outputs; the completeness of larger trees, inheritance, imports and parameter kinds is never compared with the Python side.",
    [E + "syntax/module.rs", E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/common/attribute_variant.rs", E + "config.rs"],
    "Classification of attributes and recursive traversal of packages",
)
prop(
    "C04",
    "Every configuration switch filters exactly what it names",
    "Turning off the generation of preludes, imports, classes, type variables, functions, properties or documentation removes exactly the items of that kind from the generated bindings and leaves all other items unchanged, except for references to the removed items. "
    "A blocklisted name removes exactly the attributes and submodules with that name, at every depth; including private items only adds private items (and items owned by private modules); disabling submodule traversal keeps exactly the requested modules themselves. "
    "Including dependencies adds exactly the modules of other packages that own what the requested modules import (unless they or their names are private or blocklisted), and nothing of what those import in turn. "
    "Switches act independently of each other, and the configuration in force is the one given to the generator.",
    ["configurations", "inputs"],
    "all combinations of the configuration switches and blocklists x random packages",
    "No test uses a non-default configuration at all.",
    [E + "config.rs", E + "syntax/module.rs", E + "codegen.rs"],
    "Config::is_attr_allowed and the generate_* / traverse_* switches",
)
prop(
    "C05",
    "Calling a generated function is the same as calling the Python function",
    "Calling the binding of a module-level function with values of the annotated types calls exactly that Python function, once, of the right module (importing it if necessary), with every argument delivered to the parameter of the same name with an equal value of the same Python type: positional-only, positional-or-keyword, keyword-only, variadic positional and variadic keyword parameters alike. "
    "The binding returns the value that the Python function returned, and a raised Python exception arrives as that same exception. "
    "The arguments owned by the caller, such as a dictionary of keyword arguments, are never modified.",
    ["inputs", "programs"],
    "all function signatures (parameter kinds, names including Rust keywords and underscores, annotations, defaults), argument values and outcomes, in top-level modules, submodules and embedded modules",
    "No test ever executes generated bindings apart from loading three standard-library modules in doc examples; argument marshalling is only compared textually for two signatures.",
    [E + "syntax/function.rs", E + "typing/into_rs.rs", E + "syntax/common/path.rs"],
    "Generated function bodies: import of the owner, argument tuple and keyword dictionary construction, extraction of the result",
)
prop(
    "C06",
    "Generated classes behave like the Python classes they wrap",
    "Constructing through a generated class calls the Python constructor with the given arguments and yields an instance of exactly that class; instance methods, class methods, static methods and callable instances reach the same Python method that attribute lookup on the object or class would select (including inherited and overridden ones), exactly once, with the right receiver and equal arguments, and return its result or raise its exception. "
    "This also holds for classes that are re-exported, aliased or defined in submodules, and for methods whose names collide with generated names or Rust keywords.",
    ["inputs", "programs"],
    "all class hierarchies, method kinds, signatures, names and argument values that the generator of random packages produces",
    "The only class test compares the text of one class with one method and one property; nothing is executed.",
    [E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/common/path.rs"],
    "MethodType inference (via __dict__), receiver handling, constructor/callable naming",
)
prop(
    "C07",
    "Type annotations map to the documented Rust types and values survive the trip",
    "A parameter, return value or property annotated with bool, int, float, str, bytes, bytearray, a list, sequence, set, frozenset, dict, tuple, Optional, date or time type, a type object or a class with generated bindings gets the corresponding Rust type (elements mapped recursively), and anything that cannot be expressed becomes a generic Python object. "
    "Equivalent spellings of an annotation (typing generics, builtin generics, unions, strings where they name builtin generics) give the same or an equally permissive type. "
    "Every value that conforms to the annotation and that the Rust type can represent passes in both directions unchanged: equal, and of the annotated Python type.",
    ["inputs"],
    "all annotations of the grammar (to bounded depth, in all spellings) x positions (parameter kinds, return, property getter and setter, variable) x conforming values including boundary values",
    "The tests cover int, str, float, Optional[int] and Dict[str, int] textually; nesting, spelling variants and actual value conversion are untested.",
    [E + "typing/from_py.rs", E + "typing/into_rs.rs", E + "typing/mod.rs", E + "syntax/module.rs"],
    "Parsing of annotation objects and strings into Type, mapping into owned/borrowed Rust types, preprocessing of arguments",
)
prop(
    "C08",
    "Generated getters and setters read and write the live Python attribute",
    "The getter of a module variable, class attribute or property returns the current value of exactly that Python attribute, every time it is called and also after it was changed from Python or by a setter. "
    "The setter makes the given value the value of exactly that attribute, through the setter of a Python property if there is one, and changes nothing else; errors raised by property accessors arrive as that same exception. "
    "Setters exist for module variables and for properties with a setter, and not for read-only properties.",
    ["inputs", "histories"],
    "all interleavings of reads and writes from Rust and Python over the variables, class attributes and properties of random packages",
    "Accessors are only compared textually for one variable and one property; no history of reads and writes is executed.",
    [E + "syntax/property.rs", E + "syntax/class.rs", E + "syntax/module.rs"],
    "Property getters (getattr + extract) and setters (setattr)",
)
prop(
    "C09",
    "Docstrings are carried over to the right item, and only there",
    "Every generated module, class, function, method and property whose Python counterpart has a docstring carries that docstring as documentation: the same words in the same order and lines, up to whitespace, repeated backticks and trailing slashes. "
    "Items without a docstring carry none, no docstring is attached to another item, and property accessors without a docstring share the one of their counterpart. "
    "Any docstring content (quotes, backslashes, braces, non-ASCII text, comment markers) is preserved and never alters the surrounding code.",
    ["inputs"],
    "all docstring contents on all kinds of items of random packages",
    "The golden tests contain three one-line ASCII docstrings.",
    [E + "utils/text.rs", E + "syntax/module.rs", E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/property.rs"],
    "Extraction of __doc__ and format_docstring()",
)
prop(
    "C10",
    "Generation is deterministic",
    "Generating bindings for the same modules with the same configuration always produces the identical token sequence: repeatedly within one process, in a new process, under a different Python hash seed, from a copy of the generator, and regardless of the working directory or of which unrelated bindings were generated before. "
    "The equivalent ways of requesting modules (by name, as a list of names, as module objects) give identical results.",
    ["histories", "configurations", "inputs"],
    "all modules and configurations x repetitions, processes, hash seeds, environments and preceding generations",
    "Each test generates a given binding once.",
    [E + "codegen.rs", E + "syntax/module.rs"],
    "Collections used during parsing and merging; interpreter state shared between generations",
)
prop(
    "C11",
    "Merging requested modules does not depend on order, duplication or overlap",
    "When several modules are requested, the result contains exactly the union of what each of them contributes, nested below the packages they belong to, each item once; it is the same, up to the order of the items, for every order of the requests, however often a module or an enclosing package is requested repeatedly, and no requested module or item is lost or duplicated. "
    "Requesting a submodule alone nests it in its otherwise empty parent packages, and requesting modules that share no package yields the same as generating each of them separately.",
    ["inputs", "histories"],
    "all multisets and orders of requested modules over random package trees",
    "The tests only ever add one module to a generator (one doc example adds two unrelated ones) and never compare the merged structure.",
    [E + "codegen.rs"],
    "Canonicalisation of the module tree and recursive merging of duplicates",
)
prop(
    "C12",
    "Python output streams are silenced while parsing and always restored",
    "While bindings are generated, anything the imported Python code writes to the suppressed standard streams is discarded, for exactly the streams selected by the configuration, and such writing never disturbs the generation or loses items. "
    "Afterwards sys.stdout and sys.stderr are the very objects they were before, whether generation succeeded or failed, however generations are nested or interleaved across threads. "
    "With suppression disabled the streams are never touched and all output appears (unless another generation that suppresses it runs at the same time).",
    ["inputs", "schedules", "fault_sequences", "configurations"],
    "all combinations of suppression switches x modules that print, flush, fail or replace attributes on import x successful and failing generations x concurrent generations",
    "No test observes the Python streams; failures and concurrency are never exercised.",
    [E + "utils/io.rs", E + "codegen.rs"],
    "with_suppressed_python_output()",
    [("sys.stdout / sys.stderr", "process-wide Python stream objects that are replaced while parsing")],
)
prop(
    "C13",
    "Embedded source code recreates the module exactly",
    "Bindings generated from a source string contain that source unchanged, whatever characters it consists of, and after the generated embedding function has run in a fresh interpreter the module is importable under the requested name, with that source executed exactly once, and all its bindings work. "
    "Bindings of modules that were not given as source contain no embedded source, and each embedded module embeds its own source.",
    ["inputs", "programs"],
    "all Python source texts (quotes, escapes, non-ASCII text, long lines, CRLF) and module names (including Rust keywords) x mixtures with ordinary modules",
    "The golden tests compare the generated text of three small ASCII sources and never run the embedding.",
    [E + "codegen.rs", E + "syntax/module.rs"],
    "module_from_str() and pyo3_embed_python_source_code()",
)
prop(
    "C14",
    "The command-line tool writes exactly the bindings of the requested modules",
    "For every list of module names, the pyo3_bindgen tool produces the formatted form of exactly what the library generates for these modules with the default configuration, in the requested file (creating missing directories and replacing old content) or, if no file is given, as the only content of standard output. "
    "It exits with status zero if and only if it succeeded; if a module cannot be imported, the output cannot be written or an argument is invalid, it reports the reason on standard error, writes no bindings and leaves an existing output file as it was, unless writing to it had already begun.",
    ["inputs", "fault_sequences"],
    "all combinations of module lists, option spellings, output locations and failing modules",
    "The CLI tests only check argument parsing and that help/one generation exit successfully; the content, destinations and failures are not compared.",
    ["pyo3_bindgen_cli/src/main.rs", E + "codegen.rs"],
    "Argument parsing, generation, formatting and output in main()",
)
prop(
    "C15",
    "build() writes exactly the generated bindings, or fails without damage",
    "Writing bindings to a file leaves exactly the tokens that generate() returns for the same generator in that file, replacing any previous content completely. "
    "If generation fails, an error is returned and the file is not created or modified; if the file cannot be written, an error is returned; success is never reported without the complete content in the file.",
    ["inputs", "fault_sequences"],
    "all generators (including failing ones) x target states (missing, longer old content, directory, missing parent, unwritable, full device)",
    "No test calls build().",
    [E + "codegen.rs"],
    "Codegen::build()",
)
prop(
    "C16",
    "import_python! expands to the bindings of the named module",
    "For every module name, the import_python! macro expands to the same items that the library generates for this module with the default configuration, so that code using the macro and code using a build script behave identically. "
    "If the module cannot be imported or the argument is not a string literal, compilation fails with an error instead of producing partial bindings.",
    ["inputs", "programs"],
    "all importable modules and packages, dotted names, and failing names",
    "Three doc examples check that the macro expands for three standard-library modules without looking at the result.",
    ["pyo3_bindgen_macros/src/lib.rs", "pyo3_bindgen_macros/src/parser.rs", "pyo3_bindgen_macros/src/utils.rs"],
    "Procedural macro",
)
prop(
    "C17",
    "Re-exports, aliases and preludes resolve to the item they name in Python",
    "If a package re-exports a class, function or submodule from one of its own submodules, under the same name or an alias, then that name is available in the corresponding Rust module and denotes the binding of the very same Python object. "
    "If __all__ differs from the public names of a module, the generated prelude re-exports exactly those names in __all__ that the module itself defines (rather than merely imports) and that have bindings. "
    "Annotations that refer to a class of another generated module resolve to the generated type of that same class.",
    ["inputs", "programs"],
    "all re-export graphs (chains, aliases, packages shadowing submodules, cycles) and __all__ lists over random package trees",
    "No test contains a package, an import or an __all__ list whose output is checked.",
    [E + "syntax/import.rs", E + "syntax/module.rs", E + "syntax/common/path.rs"],
    "Import classification, relative path computation, prelude generation, resolution of local types",
)
prop(
    "C18",
    "Generating bindings has no side effects on the analysed Python code",
    "Apart from importing the requested modules and their submodules, generating bindings neither calls any function, method, constructor or property accessor of the analysed modules (apart from what reading an attribute or listing attribute names inherently runs: descriptors, module-level __getattr__ and __dir__; the comparisons of Python's own signature inspection; the text of an object that serves as an annotation) nor adds, removes or replaces any attribute of these modules, their classes and their functions. "
    "It leaves the interpreter usable as before (module search path, working directory, warnings and hooks unchanged, no pending exception), and keeps no references to Python objects after the generator is dropped.",
    ["inputs", "histories"],
    "all random packages and configurations, observed before and after generation and across repeated generations",
    "No test looks at the Python side after generation.",
    [E + "codegen.rs", E + "syntax/module.rs", E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/property.rs"],
    "Introspection via getattr, inspect and pkgutil",
)
prop(
    "C19",
    "Concurrent generations do not disturb each other",
    "Any number of threads may generate bindings at the same time, for the same or different modules and while other threads run Python code: every generation terminates and returns exactly what it returns when it runs alone. "
    "Failing generations in one thread do not affect the others.",
    ["schedules", "inputs"],
    "all interleavings of generations on several threads, including modules that release the interpreter lock while they are imported",
    "All tests generate from a single thread at a time per interpreter call and never compare with a sequential run.",
    [E + "codegen.rs", E + "utils/io.rs"],
    "GIL handling (prepare_freethreaded_python, with_gil) and process-wide state",
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
