"""Which interpreter configurations each property's workers use (one letter per worker)."""
DEFAULT = {"workers": "nnnnffss"}
PLAN = {f"C{i:02d}": dict(DEFAULT) for i in range(1, 46)}
# how much of each check's base number of cases the quick tier runs: about half a minute each
QUICK = {5.0: (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 27, 28, 31, 38, 41, 44), 4.0: (17, 23, 29, 30, 43), 3.0: (18, 19, 20, 26, 36), 2.0: (21, 32, 33, 34, 35, 42), 1.5: (22,)}
for _q, _is in QUICK.items():
    for _i in _is:
        PLAN[f"C{_i:02d}"]["quick"] = _q

RULE = {
    "default": "a case counts as non-trivial when its check compared numbers that are not all "
    "zero/identical by construction (a check marks the others trivial); distinct by the SHA-1 of "
    "check name and case",
}
