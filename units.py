# The exploration programs of every check (read by check.py).
ASSUMPTIONS = {
    "*": ["the hardware formats are explored on a stated alphabet of corner values; on the enumerable formats every number and every interval is visited",
          "the oracle is exact rational arithmetic (GMP) with exact directed rounding; g++ 13 compiles the explored programs"],
}
std_units("C01", "c01.cpp")
std_units("C02", "c02.cpp")
std_units("C03", "c03.cpp")
std_units("C04", "c04.cpp")
std_units("C05", "c05.cpp")
std_units("C06", "c06.cpp")
std_units("C07", "c07.cpp")
std_units("C08", "c08.cpp")
std_units("C09", "c09.cpp")
std_units("C10", "c10.cpp")
std_units("C11", "c11.cpp")
std_units("C12", "c12.cpp")
std_units("C13", "c13.cpp")
std_units("C14", "c14.cpp")
std_units("C15", "c15.cpp")
std_units("C16", "c16.cpp")
std_units("C17", "c17.cpp")
std_units("C18", "c18.cpp")
std_units("C19", "c19.cpp")
unit("C20", "O0", "c20.cpp", O0)
unit("C20", "O2", "c20.cpp", O2)
unit("C20", "x87", "c20.cpp", ["-O1", "-mfpmath=387"])
_pts = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,harness/,checks/", "-Wl,--wrap=fesetround,--wrap=fegetround"]
unit("C21", "mini", "c21.cpp", O2 + ["-DUNIT_MINI"])
unit("C21", "hw", "c21.cpp", O0 + ["-DUNIT_HW"] + _pts)
std_units("C22", "c22.cpp")
std_units("C23", "c23.cpp")
std_units("C24", "c24.cpp")
for _k in "12": unit("C25", "mini" + _k, "c25.cpp", O2 + ["-DUNIT_MINI", "-DHWT=" + _k])
for _k in "123": unit("C25", "hw" + _k, "c25.cpp", O0 + ["-DUNIT_HW", "-DHWT=" + _k])
unit("C26", "x87", "c26.cpp", ["-O0", "-fno-math-errno", "-mfpmath=387", "-I" + os.path.join(HERE, "harness", "x87")])
unit("C26", "x87opt", "c26.cpp", ["-O2", "-fexcess-precision=fast", "-fno-math-errno", "-mfpmath=387", "-DUNIT_OPT", "-I" + os.path.join(HERE, "harness", "x87")])
std_units("C27", "c27.cpp")
DEFAULT_NOTE = ("Every state of the stated bounded space is executed on the library's own templates and judged by exact rational arithmetic: complete for the "
                "enumerable number formats, complete over the stated alphabet of corner values for float, double and long double. Values outside the alphabet are "
                "not covered on the hardware formats; GMP, MPFR, g++ and the hardware are trusted.")
TECH = {}
NOTES = {}
NA = {}
