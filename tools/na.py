for _i in [p["id"] for p in PR]:
    NA[_i] = "check under construction"
NA["P38"] = "predicates.hpp is K&R C that no C++ translation unit can include (it does not compile as C++), so no user of the library reaches it; its guarantee is about the rounding of floating-point expansions, which needs a bit-precise numerical argument (a proof assistant or solver) beyond any sound static analysis in reach"
NA["P39"] = "worst-case rounding error over unbounded inputs is a numerical-analysis bound; a sound static bound in reach (interval/affine forms) is unbounded at divisions and cancellations, so any verdict would be an alarm on correct code"
