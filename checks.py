# property -> harness source, library variants, harness builds
def _c(src, libs=("scalar",), kinds=("dl",)):
    return {"src": src, "libs": list(libs), "kinds": list(kinds)}

CHECKS = {
    "P01": _c("props_safety.cpp", ("asan", "asansimd", "msan", "msansimd"), ("asan", "asansimd", "msan", "msansimd")), "P02": _c("props_safety.cpp", ("scalar", "simd", "release")),
    **{p: _c("props_ecc.cpp", ("scalar", "simd")) for p in ("P03", "P04", "P05", "P06", "P07", "P08")},
    **{p: _c("props_state.cpp", ("scalar", "simd")) for p in ("P12", "P13", "P14", "P15", "P30", "P31")},
    **{p: _c("props_synth.cpp", ("scalar", "simd")) for p in ("P16", "P17", "P18", "P19", "P20", "P21", "P23")},
    "P24": _c("props_meta.cpp", ("scalar", "simd")), "P25": _c("props_meta.cpp", ("scalar", "simd")), "P27": _c("props_meta.cpp", ("scalar", "simd")),
    "P26": _c("props_meta.cpp", ("scalar", "simd", "tsan"), ("dl", "tsan")),
    "P28": _c("props_meta.cpp", ("scalar", "simd", "release", "fastscalar", "notones", "debuglog", "strict", "debug", "clang")),
    "P32": _c("props_meta.cpp", ("scalar", "simd")),
    "P22": _c("props_synth.cpp", ("scalar", "simd", "notones")), "P29": _c("props_synth.cpp", ("scalar", "simd", "release")),
    "P33": _c("props_faults.cpp", ("scalar", "simd")),
    **{p: _c("props_more.cpp", ("scalar", "simd")) for p in ("P34", "P35", "P36", "P37", "P38", "P39")},
    **{p: _c("props_decode.cpp", ("scalar", "simd")) for p in ("P09", "P10", "P11")},
}

# a second, coverage-guided run of the same properties on an instrumented build
for _p in ("P02", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P23", "P24", "P25", "P27", "P30", "P31", "P32", "P34", "P35", "P36", "P38"):
    CHECKS[_p] = dict(CHECKS[_p], libs=CHECKS[_p]["libs"] + ["cov"], kinds=CHECKS[_p]["kinds"] + ["cov"])
CHECKS["P01"] = dict(CHECKS["P01"], libs=CHECKS["P01"]["libs"] + ["covasan"], kinds=CHECKS["P01"]["kinds"] + ["covasan"])
