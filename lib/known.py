#!/usr/bin/env python3
"""Writes known-findings.json (edited by hand here, never at run time)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
def h(subject):
    for l in log:
        if l.split(" ", 1)[1] == "fix: " + subject:
            return l.split(" ", 1)[0]
    raise SystemExit("no commit: " + subject)
FIXED = [
 ("C04", "release the target's storage in CoeffMatrix2D move assignment", "move assignment leaked the target's storage; self-move lost it"),
 ("C05", "keep CoeffMatrix2D valid when resize runs out of memory", "a failed allocation in resize left dimensions without storage"),
 ("C06", "honour an explicit order of zero in the StokesCoeffs constructor", "order 0 was replaced by the degree"),
 ("C06", "scale degree-zero Stokes coefficients too", "scaling skipped C(0,0)"),
 ("C06", "zero the order-zero S coefficients in StokesCoeffs::from_anm", "S(n,0) kept recycled memory"),
 ("C03", "leave order-one terms out of an order-zero gravity expansion", "an order-0 request summed order-1 terms"),
 ("C03", "compute the whole order+2 column for the gravity gradient", "gradient wrong whenever order < degree"),
 ("C03", "size the gravity scratch space for degree+2 terms", "scratch of the documented size was written out of bounds and aliased"),
 ("C03", "report an unsupported expansion degree instead of aborting", "degree > 198 aborted or read past the factor table"),
 ("C03", "free internal gravity scratch space on the error path", "one internal and one too small caller scratch leaked"),
 ("C27", "keep Legendre functions inside an exactly sized matrix", "one element past an exactly sized matrix was written"),
 ("C02", "keep no query state inside EopSeries", "const queries wrote shared members; a copied series pointed into the original's storage"),
 ("C12", "report an empty EOP series as out of bounds", "querying an empty series read outside its storage"),
 ("C12", "interpolate the pole rates of an EOP series", "pole rates were always returned as zero inside the span"),
 ("C10", "load EOP windows of any width", "a very wide window terminated the program"),
 ("C11", "report EOP lines too short to hold a date", "a short line was completed with the remains of the previous one"),
 ("C11", "report a C04/20 record whose hour and MJD disagree", "a damaged (or not exactly representable) record aborted the program"),
 ("C11", "report partly readable fields of EOP records", "a damaged last field was accepted with the value of its readable start"),
 ("C09", "report over-long ICGEM header values instead of overflowing", "a long header value was copied past its buffer"),
 ("C09", "report incomplete ICGEM headers", "a header without radius, constant or degree, or with a partly readable number, was accepted"),
 ("C09", "report malformed ICGEM data lines", "damaged lines were written outside the coefficients or accepted with wrong values"),
 ("C09", "report invalid ICGEM dates", "an impossible calendar date terminated the program; a cut date read stale bytes"),
 ("C09", "report ICGEM dates with missing digits", "a cut date was accepted as another epoch"),
 ("C09", "report ICGEM v1 terms that lack a reference epoch", "a lost gfct line aborted the program"),
 ("C14", "keep AOD1B header strings inside their fields", "long header values overflowed their buffers; a value with a colon or a line without one was scanned outside the line"),
 ("C13", "read the reference radius of an AOD1B file wherever its colon stands", "the radius was read from a stale or wrong place (or the file rejected) when the colon stands before column 22"),
 ("C14", "report AOD1B YES/NO fields that are neither", "any other text of that length aborted the program or was accepted"),
 ("C14", "report invalid epochs of an AOD1B header", "a damaged date terminated the program; a line without one was scanned past its end"),
 ("C14", "report incomplete AOD1B headers", "a header without degree, constants or data sets left uninitialised values"),
 ("C13", "find AOD1B blocks up to the last data set and stop skipping at the end of the file", "a kind stored only in the last data set was not found; damaged line counts looped for minutes"),
 ("C14", "report malformed AOD1B block headers", "damaged block headers were scanned past their end, terminated the program or accepted"),
 ("C14", "report malformed AOD1B coefficient lines", "impossible degree/order wrote outside the coefficients; partly readable numbers were accepted"),
 ("C14", "do not resume an AOD1B stream in the middle of a block", "after an error, reading on could return another block's data"),
 ("C15", "buffer the AOD1B blocks around a later or earlier epoch", "skipping ahead returned extrapolated values; some requests aborted or recursed without end"),
 ("C15", "report requests beyond the degree of an AOD1B stream", "a larger target read outside the buffered coefficients"),
 ("C15", "keep a moved Aod1bDataStream usable and its source destructible", "a moved stream used the source's memory; destroying the source crashed"),
 ("C16", "continue an Aod1bDataStream from any directory, or leave it as it was", "long directory names overflowed a buffer, a missing next file left the stream unusable, a file name without directory crashed"),
 ("C17", "keep the name of a tide model inside its field", "a long model name was not terminated inside its field"),
 ("C17", "report atmospheric tide products that name no wave", "a product whose wave is unknown dereferenced a null pointer"),
 ("C17", "do not shrink an atmospheric tide model when a wave is appended", "a wave of lower degree shrank the model"),
 ("C17", "sum atmospheric tide waves of different degrees", "waves of different degrees aborted the evaluation"),
 ("C17", "give an empty atmospheric tide model its degree zero coefficients", "an empty model had no coefficients to write"),
 ("C17", "see a last unterminated line after the tidal coefficients", "surplus data without a final newline was not noticed"),
 ("C18", "report tide atlas file lists that cannot be read or lack a column", "a list cut short by an I/O error was accepted; a line of one column terminated the program"),
 ("C18", "parse tide constituent filenames within their bounds", "long model or wave names overflowed fixed buffers; short names were scanned before their start; a bad name terminated the program"),
 ("C18", "look for the counterpart of a constituent file, not for the file itself", "a sine file without its cosine file was accepted"),
 ("C18", "reject tide atlas file lists with two pairs of files for a wave", "the second pair silently replaced the first"),
 ("C18", "keep path and name of a tide atlas within their buffers", "a long directory or model name overflowed its buffer"),
 ("C18", "report Doodson files that cannot be read and stay inside their lines", "number parsing ran past the end of the line; a read error was taken for the end of the file"),
 ("C18", "read exactly the expected rows and columns of an admittance file", "an additional row was written out of bounds; missing rows kept uninitialised memory"),
 ("C18", "keep the name of a TidalWave terminated", "a name of 16 characters was not terminated"),
 ("C25", "consider the quadrature coefficients in the degree of a tide atlas", "a sine part of higher degree was outside the correction"),
 ("C25", "sum ocean tide waves of different degrees", "waves of different degrees aborted the evaluation"),
 ("C24", "move-assign the (missing) admittance of an OceanTide", "moving from a model without admittance left a dangling pointer; self-move lost the admittance"),
 ("C24", "report an admittance matrix that does not match the tide atlas", "admittance information of another model was read out of bounds"),
 ("C18", "do not accept a partially read last Doodson multiplier", "a last multiplier with trailing garbage was accepted"),
 ("C19", "reject negative degrees of ocean pole tide coefficients", "a negative degree wrote outside the coefficients"),
 ("C19", "report malformed rows of ocean pole tide coefficients", "malformed rows were accepted or written outside the coefficients"),
 ("C19", "report ocean pole tide coefficients missing from the file", "coefficients the file lacks kept their earlier or uninitialised values"),
 ("C19", "hold the love number factors of all 361 ocean pole tide degrees", "degree 360 read or wrote one element past the factors"),
 ("C19", "do not keep earlier coefficients in a partial ocean pole tide expansion", "coefficients of an earlier evaluation stayed in a partial result"),
 ("C20", "report malformed headers of ocean pole tide deformation grids", "malformed headers were accepted"),
 ("C20", "report missing or malformed ocean pole tide deformation records", "missing or malformed records gave uninitialised or wrong deformations"),
 ("C20", "find the ocean pole tide deformation records around any site", "sites near the grid seam or poles used wrong records"),
 ("C20", "report ocean pole tide deformation records of other nodes", "records of another node were used for the site"),
 ("C21", "bound the memory reserved for free core nutation amplitudes", "loading a whole file reserved about 1 GB"),
 ("C21", "report malformed or unread free core nutation amplitudes", "partly readable rows were accepted; a read error was taken for the end of the file"),
 ("C21", "free core nutation uncertainty grows before the first amplitude too", "the uncertainty before the series was negative"),
 ("C21", "do not read the amplitudes of an empty free core nutation series", "an empty series was read out of bounds"),
 ("C22", "time with the monotonic clock", "a step of the wall clock gave negative or wrong elapsed times"),
 ("C22", "do not write clock labels past their buffer", "a label of 24 characters or more was written past its buffer"),
 ("C22", "average running time of a clock without samples", "integer division by zero"),
 ("C23", "match the names of loaded kernels exactly", "a kernel whose name starts like a loaded one was not loaded; long names were loaded again"),
 ("C23", "report kernels that fail to load", "a failed load was reported as success"),
 ("C23", "report gravitational parameters that cannot be read", "missing constants were reported as success"),
 ("C23", "report planet positions and states that cannot be computed", "missing ephemerides were reported as success"),
 ("C31", "start the coefficients of a tidal constituent at zero", "uninitialised coefficients past the order of a wave were added to models that reach a higher order"),
 ("C33", "node indices of grids that lead with the x-axis", "node coordinates and the upper right neighbour were those of other nodes"),
 ("C33", "report no nodes around a point outside the grid", "indices such as 0 and 25 were reported as nodes around a point outside"),
 ("C33", "keep points just before the end of a grid axis in its last cell", "a point within rounding of the end was given the index of another row or one past the grid"),
 ("C27", "Legendre functions beyond degree 1023", "products of indices overflowed from degree 1024 on: wrong values and NaN derivatives"),
 ("C30", "read no more of a Doodson number than its characters", "a short text was read past its end; a malformed column without a final NUL was printed beyond its end"),
 ("C30", "report IERS Doodson numbers with other characters than digits", "punctuation was accepted as a digit; a short text was read past its end"),
 ("C30", "define the ocean wave lookup in the namespace it is declared in", "looking up an ocean wave did not link"),
 ("C30", "speed of the L2 wave", "the L2 wave was listed with the speed of N2"),
 ("C26", "restore the last digit of a term of the CIP X series", "the X coordinate of xcip06a differed from that of xycip06a by a truncated coefficient"),
 ("C26", "dfaf03 at an epoch gives the derivative", "the overload by epoch gave the argument, not its derivative"),
]
FINDINGS = []
json.dump({"findings": FINDINGS,
           "fixed": ["fixed: property=%s %s %s" % (p, h(s), w) for p, s, w in FIXED]},
          open(V + "/known-findings.json", "w"), indent=1)
