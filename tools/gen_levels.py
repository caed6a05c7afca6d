"""Writes tools/levels.json: the level, technique and note of each property."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROOF = ("contract-based deductive verification: postconditions on the real functions (contracts/%s), obligations generated "
         "from /repo's current source by symbolic execution (pyvc) and discharged by its prover for all inputs; failing inputs "
         "are replayed by run-time contracts on the real code (dyn)")
REAL = "Real and unbounded-integer arithmetic; numpy/scipy behaviour is assumed as modelled. "
N = {
 "S01": ("c_coeffs.py", "Every method under contract for arbitrary widths, pairs and values."),
 "S02": ("c_coeffs.py", "For all sets, degree and order ranges."),
 "S03": ("c_coeffs.py", "For all pairs of sets of any width, scalars and scaling functions."),
 "S04": ("c_coeffs.py", "Arrays of any length and width; stacking and splitting of any number of single-component sets or components; stacks that mix wider sets are proved for up to four sets (bounded in that count only, sampled beyond by the run-time contracts)."),
 "S05": ("c_io.py", "Files of any number of lines with any fields, by induction over the lines (loop invariant: the blocks read so far); stacking any number of blocks is taken from the contract of hstack, which is proved for any number (S04); a line whose first two fields are integers but no valid degree and order is excluded; files are modelled as lines of fields."),
 "S06": ("c_io.py", "Any set of pairs and values, any number of components; the file is the sequence of lines written, numbers are rendered and read back without rounding, and the file name is assumed not to look like a coefficient row."),
 "S07": ("c_io.py", "Any set of pairs and values, any number of components, any degree and order limits; files are modelled as the sequence of written lines."),
 "S08": ("c_convert.py", "All radial coefficient sets and points; the relation of the two Legendre normalisations is used as an identity."),
 "S09": ("c_convert.py", "All coefficient sets and points."),
 "S10": ("c_convert.py", "All single-component sets; P_l^{-m} symmetry is used as an identity."),
 "S11": ("c_convert.py", "The rotated coefficients are proved to be the Wigner-D sums over all orders; that these sums rotate the field, compose and are unitary is the assumed property of the Wigner matrices, sampled by the run-time contracts."),
 "S12": ("c_zdi.py", "All magnetograms and points off the poles (the pole limit is sampled)."),
 "S13": ("c_zdi.py", "All magnetograms and points off the poles."),
 "S14": ("c_zdi.py", "All magnetograms and ranges."),
 "S15": ("c_zdi.py", "All magnetograms; that the per-coefficient energies add up to the surface integral rests on the orthonormality of the basis, which is assumed and sampled by quadrature."),
 "S16": ("c_pfss.py", "All coefficient sets, radii and points off the poles."),
 "S17": ("c_pfss.py, contracts/c_coord.py", "All coefficient sets, radii and points off the poles."),
 "S18": ("c_coord.py", "All points; the arctangent branch facts are the usual identities."),
 "S19": ("c_geom.py", "All resolutions and corner spacings."),
 "S20": ("c_geom.py", "All grids, magnetograms and azimuths, modulo the contract of the field evaluation (S12)."),
 "S21": ("c_geom.py", "All grids and magnetograms, modulo the contract of the field evaluation (S12)."),
 "S22": ("c_parker.py", "All stellar parameters and radii; the Lambert W defining equation and branch ranges and ln s >= 1 - 1/s are assumed."),
 "S23": ("c_convert.py", "All samples, grids and pair lists; the normalisation rests on the orthonormality of the basis, which is sampled by quadrature."),
 "S24": ("c_image.py", "All images, grids, degrees; scipy's sph_harm is taken as the definition of the harmonics and the round trip up to quadrature error is sampled."),
 "S25": ("c_cli.py", "Inputs with any number of blocks of any content; the command line is checked against the contracts of reader, converter and writer; argparse and os.path are modelled."),
 "S26": ("*", "Frame conditions (no argument modified, no storage shared) of every unit under contract; repeatability is sampled."),
 "S27": ("c_misc.py", "All wavelength arrays and thresholds."),
 "S28": ("c_misc.py", "Any number of points."),
}
out = {"default": {"technique": "run-time checked contracts on the real functions (bounded)", "level": "exploration",
                   "note": "Bounded: the contract is evaluated on generated inputs of the real code."}}
for k, (f, note) in N.items():
    out[k] = {"technique": PROOF % f, "level": "proof", "note": REAL + note}
json.dump(out, open(os.path.join(HERE, "levels.json"), "w"), indent=1)
