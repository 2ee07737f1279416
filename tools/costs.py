"""Measured costs and notes for DESIGN.md."""
COST = {'C01': 8, 'C02': 8, 'C03': 28, 'C04': 9, 'C05': 70, 'C06': 63, 'C07': 7, 'C08': 1, 'C09': 5, 'C10': 7,
        'C11': 4, 'C12': 56, 'C13': 10, 'C14': 39, 'C15': 12, 'C16': 13, 'C17': 28, 'C18': 29, 'C19': 34, 'C20': 2,
        'C21': 53, 'C22': 16, 'C23': 5, 'C24': 6, 'C25': 8, 'C26': 10, 'C27': 65, 'C28': 6, 'C29': 6, 'C30': 12,
        'C31': 2}
CAUGHT = {}
LESSONS = """## What planting bugs and mutants taught

Every bug above was written from the text of a property; besides them several hundred batch mutants (semantic edits with
special triggers) and a line-by-line mutation run were tried. What was missed at first, and the strengthening it led to:

* **Units and scale.** Absolute thresholds hide at unit size: grids are checked in several units of length (C14, C16, C19,
  C21, C27), far from the origin and with large coordinates.
* **Zero and negative values.** `a or b` and sign tests hide when all data are positive: face data, water, ice heights and
  exchanged values contain zeros and negative values.
* **Sizes.** Identifiers with several digits, more than 9 or 10 zones, more than 255 nodes, long histories of edits: every
  check over grids has large shards besides the exhaustive small ones.
* **Repeated use.** Objects used twice (a grid loaded twice, two runs of the remesher, border nodes marked twice, a
  converter called again): state left behind is a second dimension of enumeration.
* **Zones.** Smoothing, edits, refining and drops are repeated with several zones and with zones which have more elements
  than nodes.
* **Planar and lattice ties.** Pairs of coplanar triangles are enumerated on a larger lattice (C18); ties of longest
  edges are built on purpose (C27).
* **Partial inputs.** Result files that do not mention all faces (C09), walls with rows in any order (C14).
* **Scripted random.** The scripted source must also answer beyond the range which the current code asks for (C03).
* **Real processes.** The emulated MPI is complemented by runs of the real command lines (C11, C13, C14, C20, C21).
* **Vacuity.** A part of C15 compared nothing until a mutant showed it; each evidence file counts what was compared.
* **Arithmetic of the harness.** The oracles of C06 and C18 use dyadic or rational arithmetic; anything near a tie of
  rounding is counted as unsettled, never reported.
"""
