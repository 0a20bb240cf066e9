"""Which module holds the checks of which properties."""
MODULES = {
    "core": "C01 C02 C10 C13",
    "local": "C03 C04 C05 C06 C07 C08",
    "los": "C09",
    "lat": "C11 C12 C14 C15",
    "geodesic": "C16 C17 C18 C19 C20 C21",
    "rhumb": "C22 C23 C24",
    "nvec": "C25 C26",
    "misc": "C27 C28",
    "times": "C29 C30 C31",
    "eci": "C32 C33 C34 C35 C36",
    "cross": "C37 C38 C39 C40 C41 C43 C45",
    "cli": "C42",
    "ell": "C44",
}
