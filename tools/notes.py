TECHX["P05"] = "static analysis: the compiler's type checker as decision procedure over accept / reject witness programs with well-typed twins"
NOTEX["P05"] = ("Every obligation is a small program that clang type-checks against the current headers and never runs: accepted programs carry static_asserts on the kind, dimension and unit of the result; "
                "a rejected program must fail while its well-typed twin (same program, one token changed) compiles, so a broken include cannot pass for a rejection.")
_EFF = ("Every obligation is one query entry point compiled (never run) with non-const reference arguments; a context-sensitive inclusion-based points-to analysis of everything it reaches resolves every store, block copy and load. "
        "An access whose target cannot be resolved to one side is reported undecided and raises no alarm; atomics (reference counts) are not counted as writes.")
TECHX["P26"] = "static analysis: context-sensitive points-to and write-effect analysis of the compiled IR below each query"
TECHX["P27"] = "static analysis: context-sensitive points-to, global-state and static-initialiser taint analysis of the compiled IR below each query"
NOTEX["P26"] = NOTEX["P27"] = _EFF

NOTEX["P06"] = NOTEX["P41"] = NOTEX["P42"] = ("Relational: each obligation interprets the library twice, on a figure and on its image under a symbolic similarity (witness/fig) or another presentation of it, and proves the two symbolic results related by it; reference and subject are both /repo's current source, so what is proved is the invariance, not the value.")
NOTEX["P44"] = ("The quantity obligations are relational: one body is compiled for plain numbers and for boost.units quantities from /repo's current source and the two value graphs are proved equal, so an error common to both is left to the other properties; "
                "the tagged and dimensionless obligations are compared with the plain operation itself. segment_sphere_intersection over quantities does not compile and is not covered. Assumes exact real arithmetic and no NaN/overflow.")
