"""Table of checks: what run.py builds and runs for each property."""

FP = ("values are compared with relative+absolute tolerance 1e-9, so changes of floating-point "
      "evaluation order are not reported")
SAN = "g++ AddressSanitizer/UBSan/libstdc++ assertions decide memory errors"

CHECKS = {
    "C05": dict(sources=["c05.cpp"], quick_cases=800000, thorough_cases=6000000,
                rule="series of length >= 2 with a non-zero distance",
                assumptions=[FP, SAN, "cosine and sorensen are only compared where their denominators are not (nearly) "
                             "zero; sorensen of two all-zero series counts as 0"]),
    "C06": dict(sources=["c06.cpp"], quick_cases=800000, thorough_cases=6000000,
                rule="the band lets the lengths meet, both lengths >= 2, distance non-zero",
                assumptions=[FP, SAN, "lengths up to 24, rarely 250; cosine/sorensen up to 6 (all paths enumerated)"]),
    "C07": dict(sources=["c07.cpp"], quick_cases=960000, thorough_cases=7000000,
                rule="the band lets the lengths meet, both lengths >= 2, half-width >= 1",
                assumptions=[FP, SAN, "lengths up to 24, rarely 250"]),
    "C08": dict(sources=["c08.cpp"], quick_cases=2400000, thorough_cases=16000000,
                rule="finite non-zero distance of series of length >= 2, six bounds tried per pair",
                assumptions=[FP, SAN, "bounds within 1e-9 of the distance are only judged where the arithmetic is exact"]),
    "C09": dict(sources=["c09.cpp"], quick_cases=900000, thorough_cases=6000000,
                rule="an envelope bound above zero was compared with the exact distance",
                assumptions=[FP, SAN, "series up to length 24, rarely 250; histories up to 14 steps"]),
    "C23": dict(sources=["c23.cpp"], quick_cases=320000, thorough_cases=2400000,
                rule="history with at least two copies/assignments/moves",
                assumptions=[SAN, "moved-from objects are only destroyed", "leaks are judged by the sanitizer's count of live bytes"]),
    "C24": dict(sources=["c24.cpp"], find={"POOL_HEADER": r"class\s+ThreadPool\b"}, fallback=True, flavor="tsan", flaky=True, quick_cases=96000, thorough_cases=700000, fuzz_secs=0,
                rule="at least 2 workers and 3 tasks",
                technique="property-based testing of generated task sets under ThreadSanitizer",
                assumptions=["schedules are those the kernel produced for the generated task sets; ThreadSanitizer decides data races",
                             "a case that makes no progress for 60 s counts as a deadlock"]),
    "C01": dict(sources=["c01.cpp"], quick_cases=480000, thorough_cases=3000000,
                rule="file with at least two loaded rows and a row of at least two values",
                assumptions=[SAN, "separators are characters that cannot be part of a number; nan/inf/hex literals are not generated"]),
    "C02": dict(sources=["c02.cpp"], quick_cases=300000, thorough_cases=2000000,
                rule="at least two rows and a row of at least two values",
                assumptions=[SAN, "names contain no separator; all values finite"]),
    "C03": dict(sources=["c03.cpp"], quick_cases=420000, thorough_cases=3000000,
                rule="at least two rows and values that are not all equal",
                assumptions=[SAN, "finite values whose range does not overflow; at least one value"]),
    "C04": dict(sources=["c04.cpp"], quick_cases=420000, thorough_cases=3000000,
                rule="at least two answered and two refused requests",
                assumptions=[SAN]),
    "C10": dict(sources=["c10.cpp"], quick_cases=120000, thorough_cases=900000,
                rule="at least two groups, one of them with several members",
                assumptions=[SAN, "groups are read from the documented text export; up to 12 rows of up to 14 values, rarely 120 rows or rows of 60"]),
    "C11": dict(sources=["c11.cpp"], quick_cases=120000, thorough_cases=900000,
                rule="a length with at least two groups, and a group with a member other than its representative",
                assumptions=[FP, SAN, "placing order is one of the eight orders by row and position, ascending or descending; "
                             "nearest-group claims for euclidean, manhattan and chebyshev, whose early abandoning is exact"]),
    "C12": dict(sources=["c12.cpp"], flavor="tsan", flaky=True, quick_cases=16000, thorough_cases=120000, fuzz_secs=0,
                rule="more than two groups, and several threads or progress messages due",
                technique="property-based testing with a simulated clock under ThreadSanitizer",
                assumptions=["schedules are those the kernel produced; ThreadSanitizer decides data races",
                             "the reference is the single-threaded grouping of a fresh process state"]),
    "C13": dict(sources=["c13.cpp"], quick_cases=120000, thorough_cases=900000,
                rule="at least two comparable groups and a non-zero distance (euclidean, manhattan, chebyshev)",
                assumptions=[FP, SAN, "cosine and sorensen groupings: only validity and the reported distance are judged, "
                             "their early abandoning is not monotone", "tied representatives: any of them is accepted"]),
    "C14": dict(sources=["c14.cpp"], quick_cases=120000, thorough_cases=900000,
                rule="at least two comparable groups, not all of them examined, no tie at the edge",
                assumptions=[FP, SAN, "cosine and sorensen: only validity, count, order and reported distances are judged",
                             "ties among representatives at the edge of the examined set: any choice is accepted"]),
    "C15": dict(sources=["c15.cpp"], quick_cases=240000, thorough_cases=1600000,
                rule="more than k subsequences, k >= 2, the k-th at a finite non-zero distance",
                assumptions=[FP, SAN, "cosine and sorensen: only validity, count, order and reported distances are judged"]),
    "C16": dict(sources=["c16.cpp"], quick_cases=300000, thorough_cases=2000000,
                rule="block size >= 2, more than k subsequences, k >= 2, the k-th at a non-zero distance",
                assumptions=[FP, SAN, "cosine and sorensen: only validity, count, order and reported distances are judged"]),
    "C17": dict(sources=["c17.cpp"], quick_cases=50000, thorough_cases=400000,
                rule="at least two groups and a group with several members",
                assumptions=[SAN, "the receiving dataset holds the same data"]),
    "C18": dict(sources=["c18.cpp"], quick_cases=120000, thorough_cases=900000,
                rule="file really damaged or foreign, not merely empty, missing or noise",
                assumptions=[SAN, "text files have no checksum: an alteration that leaves a complete, valid partition may be accepted",
                             "numbers altered inside a correctly compressed file: only validity of the result is judged"]),
    "C19": dict(sources=["c19.cpp"], quick_cases=60000, thorough_cases=500000,
                rule="at least two changes of datasets, and several datasets at the end or a name used again",
                technique="stateful property-based testing against a model and against isolated instances",
                assumptions=[SAN, "the reference for answers is an instance that holds only the dataset (and query dataset) concerned"]),
    "C20": dict(sources=["c20.cpp"], quick_cases=45000, thorough_cases=400000,
                rule="at least one refused request was made",
                technique="stateful property-based testing",
                assumptions=[SAN, "state is what the public requests show: metadata, values, names, groups, search answers, files"]),
    "C21": dict(sources=["c21.cpp", "c21_cli.cpp"], quick_cases=16000, thorough_cases=130000, fuzz_secs=0,
                **{"with": ["cli/**/*.cpp"]}, with_flags=["-Dmain=genexCliMain"], deps=["cli/**/*.[hc]pp", "cli/**/*.h"],
                link=["-lreadline"],
                rule="at least four commands succeed and one of them is a search or a distance",
                technique="stateful property-based testing of the program against a model session",
                assumptions=[SAN, "the line editor is replaced by one that hands out the generated lines"]),
    "C22": dict(sources=["c22.cpp"], quick_cases=90000, thorough_cases=700000, fuzz_secs=0,
                rule="at least three requests were answered and repeated in another order",
                technique="stateful property-based testing",
                assumptions=[SAN, "growth is judged by the sanitizer's count of live bytes over two repetitions after warming up"]),
    "C25": dict(sources=["c25.cpp"], quick_cases=14000, thorough_cases=120000, fuzz_secs=0,
                rule="at least one save met a limit below the size of the complete file",
                technique="property-based testing with injected write failures at generated byte positions",
                assumptions=[SAN, "write failures are injected by the file size limit of the process and by /dev/full"]),
    "C26": dict(sources=["c26.cpp", "c26_py.cpp"], quick_cases=80000, thorough_cases=700000, fuzz_secs=0,
                **{"with": ["pygenex/**/*.cpp"]},
                deps=["pygenex/**/*.[hc]pp", "pygenex/**/*.h"],
                extra=["-I/usr/include/python3.12"], link=["-lboost_python312", "-lpython3.12"],
                rule="at least four calls succeed and a distance, matching or search is among them",
                technique="stateful property-based testing of the module against the library",
                assumptions=[SAN, "the module is built into an interpreter of Python 3.12"]),
    "C27": dict(sources=["c27.cpp"], quick_cases=60000, thorough_cases=500000, fuzz_secs=60, fallback=True,
                rule="query of at least 4 points and a stream with at least 6 windows",
                assumptions=[SAN, "values are multiples of 1/16 up to 64 in magnitude, so that running sums are exact; "
                                  "the query varies and so does some window of the stream"]),
    "C28": dict(sources=["c28.cpp"], quick_cases=200000, thorough_cases=1600000,
                rule="at least two requests were answered on data with at least three subsequences",
                technique="stateful property-based testing with extreme and non-finite numbers",
                assumptions=[SAN, "the data files are readable by the library; negative and undefined band ratios count as bad requests"]),
    "C29": dict(sources=["c29.cpp"], quick_cases=90000, thorough_cases=800000, fuzz_secs=0,
                rule="at least three of at least four requests succeed in every round",
                technique="stateful property-based testing",
                assumptions=[SAN, "growth is judged by the sanitizer's count of live bytes, and only reported when each of four "
                                  "repetitions in a row adds to it"]),
}
