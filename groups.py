"""Which harness decides which property, and how it is built."""
COMMON = ["The sanitizer runtimes, compiler and C++ standard library are trusted.",
          "Third-party headers that are not installed (sfl, bitsery) are replaced by the minimal stand-ins in /verif/shim; behaviour of the real ones is not checked."]
SCHED = ["Schedules are those the machine produces for the generated programs; ThreadSanitizer reports a race whenever the two accesses are unordered, whichever came first."]
GROUPS = {
    "token": {
        "san": "full",
        "harness": ["h_token.cpp"],
        # The tokenizer builds on its own; if that stops being so, everything is linked.
        "only": ["src/token.cpp", "src/exception-handler.cpp"],
        "assumptions": COMMON[:1],
    },
    "eval": {
        "san": "asan",
        "harness": ["h_eval.cpp", "sut.cpp", "ref.cpp"],
        "assumptions": COMMON,
    },
    "model": {
        "san": "asan",
        "harness": ["h_model.cpp", "mref.cpp"],
        "assumptions": COMMON,
    },
    "pool": {
        "san": "asan",
        "harness": ["h_pool.cpp"],
        "only": ["src/model/string-pool.cpp", "src/exception-handler.cpp"],
        "assumptions": COMMON,
    },
    "value": {
        "san": "asan",
        "harness": ["h_value.cpp", "mref.cpp", "ref.cpp"],
        "assumptions": COMMON,
    },
    "ext": {
        "san": "asan",
        "harness": ["h_ext.cpp", "h_env.cpp", "sut.cpp", "ref.cpp"],
        "assumptions": COMMON,
    },
    "arena": {
        "san": "tsan",
        "harness": ["h_arena.cpp"],
        "only": ["src/exception-handler.cpp"],
        "flags": ["-DARRAY_ARENA_THREAD_SAFE"],
        "assumptions": COMMON + SCHED,
    },
    "conc": {
        "san": "tsan",
        "harness": ["h_conc.cpp", "sut.cpp", "ref.cpp"],
        "assumptions": COMMON + SCHED,
    },
    "concpool": {
        "san": "tsan",
        "harness": ["h_concpool.cpp"],
        "only": ["src/model/string-pool.cpp", "src/exception-handler.cpp"],
        "assumptions": COMMON + SCHED,
    },
}
PROPS = {f"C0{i}": "token" for i in range(1, 8)}
PROPS |= {f"C{i:02}": "eval" for i in range(8, 19)}
PROPS |= {f"C{i:02}": "model" for i in (20, 21, 22, 24, 25, 26, 32)}
PROPS |= {"C33": "ext", "C34": "ext", "C35": "ext"}
PROPS |= {"C27": "pool", "C28": "pool", "C30": "value", "C31": "value"}
_N = "Random exploration with an explicit oracle and shrinking: no violation among the generated cases; it does not establish absence. Trusts the generator's reach (see the evidence labels) and the oracle in harness/h_token.cpp."
TECH = {
    "C01": ("property-based testing: value round-trip and rejection oracle", _N),
    "C02": ("property-based testing: differential against strtod", _N),
    "C03": ("property-based testing: escape/tokenize round-trip", _N),
    "C04": ("property-based testing: escape/tokenize round-trip, keyword table oracle", _N),
    "C05": ("property-based testing: metamorphic (spacing) and longest-match reference", _N),
    "C06": ("property-based testing: construction oracle and re-tokenizing invariant", _N),
    "C07": ("fuzzing under ASan/UBSan with a differential reference lexer", _N),
    "C08": ("property-based testing: grammar-generated expressions, print/parse round-trip against the documented precedence", _N),
    "C09": ("property-based testing: metamorphic (literals visible / hidden from the compiler) plus reference evaluator", _N),
    "C10": ("fuzzing (grammar mutation, token soup) under AddressSanitizer with determinism and totality oracles", _N),
    "C11": ("property-based testing: metamorphic (letter case, compile modes) plus reference evaluator", _N),
    "C12": ("property-based testing: differential against a reference evaluator", _N),
    "C13": ("property-based testing: differential against a reference evaluator", _N),
    "C14": ("property-based testing: differential against a reference evaluator", _N),
    "C15": ("property-based testing: differential against a reference evaluator", _N),
    "C16": ("property-based testing: metamorphic (with / without trace and hooks) plus reference evaluator", _N),
    "C17": ("property-based testing: differential against std::regex full match", _N),
    "C18": ("stateful property-based testing: repetition, reordering and lifetime histories under AddressSanitizer", _N),
}
TECH |= {
    "C20": ("property-based testing: JSON round-trip against nlohmann::json", _N),
    "C21": ("stateful property-based testing against a reference graph", _N),
    "C22": ("stateful property-based testing against vector of vectors", _N),
    "C24": ("property-based testing: serialization round-trip, truncation and corruption faults under AddressSanitizer", _N),
    "C25": ("property-based testing: single-fault injection into well-formed models", _N),
    "C26": ("stateful property-based testing against a reference graph", _N),
    "C32": ("stateful property-based testing against a reference view", _N),
}
TECH |= {
    "C27": ("stateful property-based testing against reference maps", _N),
    "C28": ("stateful property-based testing: transfer histories, truncation faults, reference maps", _N),
    "C30": ("stateful property-based testing with payload accounting under AddressSanitizer", _N),
    "C31": ("property-based testing: metamorphic (with / without handler)", _N),
}
TECH |= {
    "C33": ("property-based testing: user-defined term-algebra types and journalling functions against a reference evaluator", _N),
    "C35": ("property-based testing: warnings against the values of the reference evaluator", _N),
    "C34": ("property-based testing: user-defined model classes, differential against a reference evaluator", _N),
}
PROPS |= {"C19": "conc", "C23": "arena", "C29": "concpool"}
TECH |= {
    "C19": ("concurrent property-based testing under ThreadSanitizer, differential against sequential evaluation", _N),
    "C23": ("concurrent stateful property-based testing under ThreadSanitizer", _N),
    "C29": ("concurrent stateful property-based testing under ThreadSanitizer", _N),
}
NOT_APPLICABLE = {}
