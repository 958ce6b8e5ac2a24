"""Build variants and the number of cases per check, variant and tier."""
WARN = []
VARIANTS = {
    # assertions, sanitizers, checked standard library, default binomial table
    "A": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=address,undefined",
                                  "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG"]},
    # release build, larger binomial table, poisoned automatic variables
    "B": {"cxx": "g++", "flags": ["-O2", "-DNDEBUG", "-DMAX_BINOMIAL_DEGREE=62u",
                                  "-ftrivial-auto-var-init=pattern"]},
    # more parametric and physical dimensions
    "H": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=address,undefined",
                                  "-fno-sanitize-recover=all", "-DPBT_HIGH"]},
    # other sizes of the binomial table (C17)
    "P": {"cxx": "g++", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-DMAX_BINOMIAL_DEGREE=1u"]},
    "Q": {"cxx": "g++", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-DMAX_BINOMIAL_DEGREE=2u"]},
    "R": {"cxx": "g++", "flags": ["-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-DMAX_BINOMIAL_DEGREE=7u"]},
    "S": {"cxx": "g++", "flags": ["-O3", "-DNDEBUG", "-DMAX_BINOMIAL_DEGREE=45u"]},
    "T": {"cxx": "g++", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-DMAX_BINOMIAL_DEGREE=68u"]},
    # data races (C29)
    "Y": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=thread"]},
    "Z": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=thread", "-DENABLE_LOGGING"]},
    # with the logger compiled in (C22)
    "L": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=address,undefined",
                                  "-fno-sanitize-recover=all", "-DENABLE_LOGGING"]},
    "M": {"cxx": "g++", "flags": ["-O2", "-DNDEBUG", "-DENABLE_LOGGING",
                                  "-ftrivial-auto-var-init=pattern"]},
    # coverage guided
    "F": {"cxx": "clang++", "flags": ["-O1", "-g1", "-fsanitize=fuzzer,address,undefined",
                                      "-fno-sanitize-recover=all", "-DPBT_LIBFUZZER"]},
}
LEVEL_NOTES = {
    "assumptions": [
        "the reference model (engine/ref.cpp, binary128) states the mathematical definitions correctly",
        "gcc 13 on x86-64, IEEE double arithmetic without contraction",
    ],
    "note": ("Generated-input search against an independent binary128 reference; no violation in "
             "the explored cases. Trusts the reference model, the tolerance (a forward error "
             "bound, >= 2^8 units of 2^-53 times the cancellation-free magnitude), the compiler "
             "and the sanitizers."),
}


def _n(qa, qb, ta=None, tb=None, fuzz=60000, more={}, **kw):
    """Cases of the variants A and B and of further ones, thorough: 20 times as many"""
    r = {"quick": {"A": qa, "B": qb, **more},
         "thorough": {"A": ta or qa * 20, "B": tb or qb * 20,
                      **{k: v * 20 for k, v in more.items()}}, "fuzz_runs": fuzz}
    r["variants"] = list(r["quick"])
    r.update(kw)
    return r


CHECKS = {
    "C01": _n(50000, 300000, more={"H": 25000}),
    "C02": _n(40000, 300000, more={"H": 20000}),
    "C03": _n(60000, 400000, more={"H": 30000}),
    "C04": _n(30000, 200000, more={"H": 20000}),
    "C05": _n(30000, 200000, more={"H": 15000}),
    "C06": _n(9000, 60000, more={"H": 4500}),
    "C07": _n(14000, 80000, more={"H": 7000}),
    "C08": _n(30000, 200000, more={"H": 15000}),
    "C09": _n(30000, 200000, more={"H": 15000}),
    "C10": _n(30000, 200000, more={"H": 15000}),
    "C11": _n(30000, 200000, more={"H": 15000}),
    "C12": _n(15000, 100000, more={"H": 7500}),
    "C13": _n(20000, 100000, more={"H": 10000}),
    "C14": _n(10000, 70000, more={"H": 5000}),
    "C15": _n(60000, 400000, more={"H": 30000}),
    "C16": _n(10000, 80000, more={"H": 5000}),
    "C17": _n(40000, 150000, more={"P": 3000, "Q": 5000, "R": 20000, "S": 100000, "T": 40000}),
    "C18": _n(40000, 300000),
    "C19": _n(30000, 200000),
    "C20": _n(60000, 600000),
    "C21": _n(150000, 1500000),
    "C22": _n(300, 3000, fuzz=0, more={"L": 1800, "M": 12000}),
    "C25": _n(60000, 400000),
    "C27": _n(30000, 200000, more={"H": 15000}),
    "C24": _n(40000, 400000, more={"H": 40000}),
    "C26": _n(30000, 300000, more={"H": 10000}),
    "C23": _n(6000, 100000),
    "C28": _n(60000, 400000),
    "C29": {"quick": {"Y": 8000, "Z": 8000, "B": 60000}, "thorough": {"Y": 160000, "Z": 160000, "B": 1200000}, "fuzz_runs": 0,
            "variants": ["Y", "Z", "B"],
            "technique": "property-based testing of concurrent programs: differential against sequential execution, "
                         "with the thread sanitizer"},
    "C30": _n(12000, 120000, technique="property-based testing with injected memory failures"),
    "C31": _n(150000, 1000000, technique="property-based testing against the formatting of the C library"),
}
