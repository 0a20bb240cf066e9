#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below (run by hand after editing)."""
import json
import os

from harness.worker_modules import MODULES

TECH = {
    "C01": "property-based testing against a 34-digit reference construction",
    "C02": "property-based testing: 34-digit closure (round-trip) oracle plus exact limits",
    "C03": "property-based testing against a 34-digit tangent-frame reference",
    "C04": "property-based differential testing against ENU and a 34-digit reference",
    "C05": "property-based testing: polar-form definition, round trip",
    "C06": "property-based testing: reference matrices, orthonormality, matrix/vector agreement",
    "C07": "property-based testing against a written-out direction cosine matrix",
    "C08": "property-based testing: definition, inverse and turn relations",
    "C09": "property-based testing against a 34-digit ray/ellipsoid intersection",
    "C10": "property-based testing against 34-digit geometry",
    "C11": "property-based testing against defining integrals and closed forms (mpmath)",
    "C12": "property-based testing: inverse of the exact definition, round trip",
    "C13": "property-based testing against the 34-digit point geometry",
    "C14": "property-based testing against meridian-ellipse geometry (mpmath)",
    "C15": "property-based testing against defining averages (mpmath)",
    "C16": "property-based differential testing against PROJ/GeographicLib and an independent integrator, metamorphic relations",
    "C17": "property-based differential testing against PROJ/GeographicLib and an independent integrator, round trip",
    "C18": "property-based differential testing against PROJ/GeographicLib and an independent integrator, metamorphic relations",
    "C19": "property-based differential testing, group laws of the direct problem",
    "C20": "property-based testing: order, spacing and membership of every point",
    "C21": "property-based differential testing against PROJ and a numerical area integral; metamorphic relations",
    "C22": "property-based testing against a 34-digit rhumb reference, round trip",
    "C23": "property-based testing against elliptic integrals",
    "C24": "property-based testing: vector-mean reference and metamorphic relations",
    "C25": "property-based testing against 34-digit normals, round trip",
    "C26": "property-based testing against 34-digit spherical geometry, rotation relations",
    "C27": "property-based differential testing against the 34-digit vector angle",
    "C28": "property-based testing against Cartesian definitions, round trip",
    "C29": "property-based testing against integer calendar arithmetic and the UTC table",
    "C30": "property-based differential testing against ERFA and the IAU polynomial",
    "C31": "property-based testing: same instant through every input form",
    "C32": "property-based testing: rigidity, inverse and one-rotation relations",
    "C33": "property-based differential testing against an independent IAU model (ERFA, Skyfield-free series)",
    "C34": "property-based differential testing of compositions",
    "C35": "property-based testing: finite-difference and inverse oracles",
    "C36": "property-based testing against spherical astronomy at 34 digits and astropy",
    "C37": "property-based metamorphic testing: array call vs element calls",
    "C38": "stateful property-based testing: call histories with frozen arguments and replayed results",
    "C39": "property-based metamorphic testing: degree vs radian calls",
    "C40": "property-based metamorphic testing: default, scaling and ellipsoid sensitivity",
    "C41": "property-based differential testing of three installations",
    "C42": "property-based differential testing of the command line against library calls",
    "C43": "property-based testing of guards and NaN propagation",
    "C44": "stateful (model-based) property-based testing of ellipsoids and caches",
    "C45": "property-based metamorphic testing: rotations and reflections",
}
NOTE = (
    "Generated-input search with Hypothesis (seeded by VERIF_SEED, deterministic) in up to three interpreters "
    "(numpy+astropy, numpy only, standard library only). Shows the property on the cases explored, not for all inputs. "
    "Trusts the reference mathematics in harness/ref.py and the property module, mpmath, and where named PROJ/ERFA/astropy."
)
EXTRA = {
    "C02": " One listed known finding (KNOWN_FINDINGS): away from the surface only the single-correction answer of You (2000) is required.",
}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
    have = {p for m, ps in MODULES.items() if os.path.exists(os.path.join(here, "props", m + ".py")) for p in ps.split()}
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py --selfcheck",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": TECH[p["id"]],
                "level": "exploration",
                "level_note": NOTE + EXTRA.get(p["id"], ""),
            }
            for p in props if p["id"] in have
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have
        ],
        "notes": "Replay a violation with: python3 run.py <id> --replay <file>. See DESIGN.md.",
    }
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")


if __name__ == "__main__":
    main()
