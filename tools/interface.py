"""Writes properties.jsonl and MANIFEST.json from one table:  python3 tools/interface.py"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = ("contract-based deductive verification: contracts over the instrumented real code, verification conditions "
        "by symbolic execution, discharged by z3; counterexamples replayed on the unmodified code")
NOTE = ("Every obligation of the contract is generated from /repo's current source (library functions and the functions it "
        "generates for each catalogued class) and discharged by z3 for all input values; the classes are a finite covering "
        "catalogue. Trusted: CPython's statement semantics, contracts of builtins and stdlib codecs, jinja2/dataclasses/typing "
        "run concretely. Undecided obligations fall back to bounded concrete runs, reported as bounded. ")
SE, DE, CO, CP = "serde/se.py", "serde/de.py", "serde/core.py", "serde/compat.py"


def m(name, where):
    return {"name": name, "where": where}


PROPS = [
 ("C01", "Dict form round trip restores an equal object",
  "For every declared class and every value that conforms to its annotations, converting the value to the dictionary form and "
  "back gives an equal value whose parts have the annotated types, at every nesting depth. This holds for each combination of "
  "instance reuse and set conversion that is passed or configured.",
  ["inputs", "programs"], "all values of every class of a covering catalogue of field types, nestings and attributes",
  "Tests round-trip a few hand-written values per type; combinations of containers, optional levels, attributes and options are "
  "sampled once or never.",
  [SE, DE, CO], [m("to_dict / to_obj and generated to_dict functions", "serde/se.py to_obj, render_to_dict, Renderer"),
                 m("from_dict / from_obj and generated from_dict functions", "serde/de.py from_obj, render_from_dict, Renderer")],
  "Covers serialization, the documented document, and deserialization separately against an independent specification."),
 ("C02", "Tuple form round trip restores an equal object",
  "For every declared class and conforming value, the tuple form holds one element per serialized field in declaration order, "
  "and reading it back gives an equal value. Nested classes, containers, unions, init-less and keyword-only fields keep their alignment.",
  ["inputs", "programs"], "all values of every class of the catalogue",
  "Tests use short flat classes in tuple form; misalignment needs particular mixes of skipped, keyword-only and nested fields.",
  [SE, DE], [m("to_tuple and generated to_iter functions", "serde/se.py render_to_tuple"),
             m("from_tuple and generated from_iter functions", "serde/de.py render_from_iter, _positions")], ""),
 ("C03", "JSON, MessagePack, YAML, TOML and pickle round trips",
  "For every class and value that a format can represent, writing the value in that format and reading it back gives an equal value. "
  "The named, positional and extension-type options of a format keep this guarantee, and what is written is what the format's "
  "own codec writes for the documented form.",
  ["inputs", "programs", "configurations"], "all representable values of the catalogued classes in all five formats",
  "Tests cover a sample of values per format; numbers, keys and text that a format alters are mostly untested.",
  ["serde/json.py", "serde/msgpack.py", "serde/yaml.py", "serde/toml.py", "serde/pickle.py", SE, DE],
  [m("format front ends", "serde/json.py, serde/msgpack.py, serde/yaml.py, serde/toml.py, serde/pickle.py"),
   m("number and key conversions on the way in", "serde/de.py Renderer.primitive, serde/core.py deserialize_enum")],
  "The codecs themselves (json, msgpack, yaml, tomli, pickle) are assumed inverse on the values they accept, and run for real in the concrete cross-check."),
 ("C04", "Serialized form is exactly the documented one, under every option",
  "The serialized form of every value consists exactly of the documented representation of each field in declaration order: no missing, "
  "extra, renamed or differently typed entry. Options of the call override those of the class, and neither leaks to other classes or calls.",
  ["inputs", "programs", "configurations"], "all values of the catalogued classes under every option combination",
  "Tests compare a few documents; a wrong representation that the reader also accepts stays invisible to round-trip tests.",
  [SE, CO], [m("representation of each type", "serde/se.py Renderer"), m("option resolution", "serde/se.py to_obj, to_dict, to_tuple")], ""),
 ("C05", "Unions keep the arm of the value, under every tagging",
  "A value of a union is written with the documented tag of its arm under external, internal, adjacent and no tagging, and is read back "
  "as the same arm with the same content, wherever the union occurs. A document whose tag names no arm, or that no arm accepts, is "
  "rejected, and so is a value of no arm when written; without tags, the first arm in declared order that accepts the document wins.",
  ["inputs", "programs", "configurations"], "all values and documents of unions of classes, primitives, containers, enums and literals in every position and tagging",
  "Tests sample some unions with some tagging; arm confusion depends on the order of arms, shared fields, nesting and tag names.",
  [SE, DE, CO], [m("union functions", "serde/se.py render_union_func, serde/de.py render_union_func"), m("tagging", "serde/core.py Tagging"),
                 m("run-time type tests", "serde/core.py is_instance")], ""),
 ("C06", "Strict type checking admits exactly the annotated types",
  "With strict checking, constructing or deserializing a class succeeds only when each value has its annotated type, and otherwise fails "
  "with the documented error; nothing of a wrong type is stored, and conforming values are always accepted.",
  ["inputs", "programs"], "every field type of the catalogue against every kind of value",
  "Tests try a few mismatches; each annotation has unboundedly many non-conforming values.",
  [DE, SE, CO, "serde/__init__.py"], [m("type checks", "serde/se.py and serde/de.py strict handling, beartype decoration")],
  "beartype's own check is a trusted contract, as is its sampling of container elements."),
 ("C07", "Coercion converts as documented; disabled checking stores as is",
  "With coercion, each primitive value is converted by its annotated type's constructor, at every depth, or the call fails with the "
  "documented error; values that conform already are unchanged. With checking disabled, the given value is stored as it is.",
  ["inputs", "programs"], "all values of every kind for each coercible field type and nesting",
  "Tests coerce a handful of values.",
  [DE, SE, CO], [m("coercion", "serde/core.py coerce_object, serde/de.py Renderer.primitive")], ""),
 ("C08", "Missing fields take their defaults; required ones are reported",
  "When a document lacks a field, the field takes its default, a fresh result of its default factory, or None if it is optional; if it has "
  "none of these the call fails with the documented error and yields no object. A value that is present always wins over the default.",
  ["inputs", "programs"], "every subset of present fields, with every value, for each kind of default and field type",
  "Tests omit single fields of a few classes.",
  [DE, CO], [m("defaults", "serde/de.py Renderer.default, get_default; serde/core.py has_default")], ""),
 ("C09", "Renaming and aliases map names exactly and consistently",
  "A field is written and read under its explicit name or, failing that, its name in the class's naming case, and aliases are accepted when "
  "reading only, the first present one in the documented order. No other name is read, and distinct fields stay distinct.",
  ["inputs", "programs", "configurations"], "all documents for classes with every naming case, explicit names and aliases",
  "Tests try a few names per case.",
  [SE, DE, CO], [m("naming", "serde/core.py Field.conv_name, serde/de.py alias lookup")], ""),
 ("C10", "Fields are omitted exactly when their conditions say so",
  "A field is left out of the written form exactly when it is marked skipped, its predicate holds, it equals its default and is marked so, or "
  "it is None and None is skipped; otherwise it is written. Reading what was written restores omitted fields from their defaults.",
  ["inputs", "programs", "configurations"], "all values of classes with every combination of skip attributes",
  "Tests use single attributes with chosen values; combinations are rarely tested.",
  [SE, DE, CO], [m("omission", "serde/se.py render_to_dict, serde/core.py skip attributes")], ""),
 ("C11", "Flattened content is written inline and restored exactly",
  "The fields of a flattened class are written among those of its parent and restored from there, and a flattened dictionary receives exactly "
  "the entries whose names nothing else declares and writes them back, with declared fields taking precedence. Absent optional content stays absent "
  "and incomplete required content is reported.",
  ["inputs", "programs", "configurations"], "all values and documents of classes that flatten classes (plain, optional, defaulted, nested) and dictionaries",
  "Tests flatten a few classes with chosen values; arbitrary additional entries, collisions, and combinations with renaming, defaults and denial are unsettled.",
  [SE, DE, CO], [m("flattening when writing", "serde/se.py render_to_dict template"), m("flattening when reading", "serde/de.py _project_flattened_data, flattened_exists")], ""),
 ("C12", "Unknown names are rejected exactly when asked for",
  "When unknown names are denied, a document is rejected exactly if it holds a name that is neither a field's written name nor an accepted "
  "alias; otherwise unknown names are ignored and do not influence the result. Tuples and nested classes follow their own settings.",
  ["inputs", "programs", "configurations"], "all documents with arbitrary extra names",
  "Tests add one extra key.",
  [DE], [m("unknown names", "serde/de.py deny_unknown_fields handling")], ""),
 ("C13", "A transparent class is written and read as its only field",
  "An object of a transparent class has exactly the representation of its single serialized field, alone or in any position inside another "
  "class and in every format, and that representation is read back into an equal object. The class cannot be told from its content and rejects what "
  "the field rejects; a definition with no or several such fields is refused.",
  ["inputs", "programs", "configurations"], "all values of transparent classes around every catalogued type, with fields that are renamed, defaulted, customized or skipped beside them",
  "Tests wrap an int and a str; nesting, options and other content types are unsettled.",
  [SE, DE], [m("transparent handling", "serde/se.py render_to_iter/render_to_dict transparent branch, serde/de.py from_iter/from_dict transparent branch")], ""),
 ("C14", "Failures are SerdeError, and user exceptions reach the caller unchanged",
  "Whatever data is given, deserialization returns an instance of the requested class or raises SerdeError, leaves the data unchanged, and "
  "serialization of an object with ill-typed content produces a document or raises SerdeError. An exception of the class's own constructor code "
  "reaches the caller as that very exception from any nesting depth, and a failing customization function is reported as SerdeError.",
  ["inputs", "programs"], "arbitrary data in place of documents and of each field, over the catalogue; user code failing at every position and in each type-check mode",
  "Tests feed a handful of malformed documents; the set of malformed inputs is unbounded.",
  [SE, DE, CO], [m("error translation", "serde/de.py from_obj exception handlers and generated try blocks"),
                 m("error translation when writing", "serde/se.py to_obj")], ""),
 ("C15", "Customization follows a fixed precedence",
  "A field is written and read by its own customization if it has one, else by the class-level one that handles its type, else by the last registered global one that "
  "handles it, else by the default rule, at every position inside containers; the default markers restore the built-in rule. Customizations never apply to types they do not "
  "handle, to nested classes that do not declare them, or after the legacy protocol skipped a type.",
  ["inputs", "programs", "configurations"], "all values of classes over every combination of field, class-level, legacy and global customization",
  "Tests combine one or two mechanisms on chosen values.",
  [SE, DE, CO], [m("class and global serializers", "serde/se.py Renderer.custom_class_serializer, add_serializer"),
                 m("class and global deserializers", "serde/de.py Renderer.custom_class_deserializer, add_deserializer")], ""),
 ("C16", "Outcomes do not depend on earlier calls or definitions",
  "A call leaves no trace in the package, in the classes or in the values given to it, and its outcome is the same whatever was called, failed "
  "or defined before; types that are equal or share a name, such as unions of the same arms in another order or tagging, keep their own behaviour. "
  "Mutable parts of a result are new objects, shared with neither the input nor another result.",
  ["inputs", "programs", "histories"], "all values of the catalogued classes, after every kind of earlier call or definition and every ordered pair of related types",
  "The test process has one history; what a cache or a shared default leaks shows only in particular sequences of calls.",
  [SE, DE, CO, CP], [m("caches", "serde/core.py Cache, serde/compat.py cached predicates"), m("class state", "serde/core.py Scope")],
  "That an arbitrary history leaves no trace is shown by frame conditions on every call; the effect of earlier calls is also checked for one representative earlier call of each kind."),
 ("C17", "Generic, inherited, recursive and forward-declared classes",
  "A class keeps the guarantees of plain classes however it is defined: a parameterized generic (new or old style, nested or inherited) is read by "
  "its type arguments, inherited fields come first, recursive and forward-referenced types, also under postponed annotations, resolve to the declared class. "
  "Undecorated dataclasses used as fields are supported, and options of a decorator apply wherever the class is reached.",
  ["inputs", "programs"], "all values of the catalogued generic, inherited, recursive and forward-declared classes, of any recursion depth",
  "Tests define a few such classes and pass one value of small depth to each.",
  [SE, DE, CO, CP], [m("type arguments", "serde/compat.py get_generic_arg, serde/core.py Field, serde/de.py from_obj"),
                     m("implicit decoration and late resolution", "serde/se.py serialize, serde/de.py deserialize, serde/compat.py resolve_type")],
  "A recursive reference is checked against the contract of the class itself (induction over the value)."),
 ("C18", "API calls on types that are not classes",
  "Passing a container, optional, union, enum or other supported type directly to the to_ and from_ functions, in dict, tuple and format form, treats the "
  "value exactly as a field of that type is treated. A value of the type is restored as an equal value.",
  ["inputs", "programs"], "all values of the catalogued non-class types",
  "Tests pass a few literals; the direct path and the generated path are separate code that no test compares.",
  [SE, DE], [m("direct serialization", "serde/se.py to_obj"), m("direct deserialization", "serde/de.py from_obj")], ""),
 ("C19", "Enums and literals are read exactly",
  "A document value is accepted for an enum exactly when it is the value of a member in that form, and yields that member; in a format that changes values "
  "(text for numbers, lists for tuples) the changed value yields the member as well. A value is accepted for a Literal exactly when it is "
  "one of the listed values, and the result has the same type and value.",
  ["inputs", "programs"], "all document values for the catalogued enums and literals",
  "Tests read member values; near misses and members that share a prefix, type or text form are not tried.",
  [DE, CO], [m("enum restoration", "serde/core.py deserialize_enum, serde/de.py Renderer.enum"), m("literals", "serde/de.py Renderer.literal")], ""),
]
NOT_APPLICABLE = [
 ("C20", "numpy arrays and scalars round trip",
  "A numpy scalar or array held by a field or passed directly is restored with the same dtype, shape and content after a round trip in each "
  "supported form.", ["inputs"], "all arrays and scalars of every dtype and shape",
  "Tests use a few small arrays.", ["serde/numpy.py"], [m("numpy support", "serde/numpy.py")],
  "numpy arrays are implemented by a C extension whose values no deductive back end available here can represent; a check would only run samples."),
 ("C21", "Concurrent calls behave as some sequential order",
  "Calls made at the same time from several threads give the outcomes that some sequential order of the calls gives.",
  ["schedules"], "all interleavings of calls in several threads",
  "Tests are single-threaded.", [CO, CP], [m("shared caches", "serde/core.py Cache")],
  "the contracts are proved on sequential executions of Python functions; no available deductive verifier models interleavings of Python byte code."),
]

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid, title, st, over, text, why, files, mech, _ in PROPS:
            assert len(title) <= 80, title
            assert len(re.findall(r"\.(?:\s|$)", st)) <= 3, (pid, st)
            f.write(json.dumps(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=text),
                                    why_tests_cant=why, anchors=dict(files=files, mechanism=mech))) + "\n")
        for pid, title, st, over, text, why, files, mech, _ in NOT_APPLICABLE:
            f.write(json.dumps(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=text),
                                    why_tests_cant=why, anchors=dict(files=files, mechanism=mech))) + "\n")
    man = dict(version=1, setup_cmd="/opt/venv/bin/python -B run.py --setup", checks=[
        dict(property=p[0], quick_cmd=f"/opt/venv/bin/python -B run.py {p[0]} quick",
             thorough_cmd=f"/opt/venv/bin/python -B run.py {p[0]} thorough", technique=TECH, level="proof",
             level_note=(NOTE + p[8]).strip()) for p in PROPS],
        not_applicable=[dict(property=p[0], reason=p[8]) for p in NOT_APPLICABLE])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
