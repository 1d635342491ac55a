"""What each check runs: abstract models, the judge module, and how cases are produced."""


def _life(work, seed, tier, log):
    from checks import life_prepare
    life_prepare.prepare(work, seed, tier, log)


LIFE = dict(models=[("Life_Model", "Life_Model.cfg"), ("Life_Model", "Life_Model2.cfg")], judge="Life_Judge",
            prepare=_life, shards=7, judge_parts=7,
            assumptions=["TLC evaluates the specification correctly",
                         "the histories are those TLC generates from Life_Model: all of length 3 after each of three "
                         "prefixes (sampled in the quick tier), random walks of length 14 and two-object walks of length 9",
                         "values are compared by digest of their bytes"])
SPECS = {"C01": LIFE, "C02": LIFE, "C15": LIFE}

SYM = dict(models=[("Symmetry_Model", "Symmetry_Model.cfg"), ("Symmetry_Model", "Symmetry_Model2.cfg"),
                   ("Symmetry_Model", "Symmetry_Model3.cfg", ("thorough",)), ("Symmetry_Model", "Symmetry_Model4.cfg", ("thorough",))],
           judge="Symmetry_Judge", shards=7, judge_parts=7,
           assumptions=["rounding tolerance 2^-9 of the row's amplitude (rotation, reflection; 2^-6 on grids of practical size), 2^-16 (hemisphere restriction)",
                        "synthetic atmospheres on small grids, all parities, modes, protocols and several sets of constants"])
SPECS.update({"C03": SYM, "C04": SYM, "C05": SYM})

BAROT = dict(models=[("Barotropic_Model", "Barotropic_Model.cfg"), ("Barotropic_Model", "Barotropic_Model2.cfg", ("thorough",))],
             judge="Barotropic_Judge", shards=7, judge_parts=7,
             assumptions=["fields, areas and lengths are exact images of small integers; the table of latitudes by enclosed area "
                          "(arcsine) is computed by the harness",
                          "partitions whose floating-point edges compare differently from the exact ones are not used"])
SPECS.update({"C20": BAROT, "C21": BAROT, "C22": BAROT})

BUDGET = dict(models=[("Budget_Model", "Budget_Model.cfg"), ("Budget_Model", "Budget_Model2.cfg", ("thorough",))],
              judge="Budget_Judge", shards=7, judge_parts=7,
              assumptions=["20-bit fixed point; single-precision rounding of the code is covered by the tolerances",
                           "atmospheres whose hemispheric mean potential temperature is a cubic in height (the background "
                           "profile is then that polynomial); odd latitude grids (even ones are their interpolation, C10)"])
SPECS.update({k: BUDGET for k in ("C06", "C08", "C09", "C24")})
SPECS["C12"] = dict(models=[("Vertical_Model", "Vertical_Model.cfg")], judge="Vertical_Judge", shards=7, judge_parts=7,
                    assumptions=["20-bit fixed point", "hemispheric mean profiles that are cubic in height (checked on the recorded input)"])
SPECS["C13"] = dict(models=[("Vorticity_Model", "Vorticity_Model.cfg"), ("Vorticity_Model", "Vorticity_Model2.cfg", ("thorough",))],
                    judge="Vorticity_Judge", shards=7, judge_parts=7, assumptions=BUDGET["assumptions"])
SPECS["C14"] = dict(models=[("Balance_Model", "Balance_Model.cfg"), ("Balance_Model", "Balance_Model2.cfg")],
                    judge="Balance_Judge", shards=7, judge_parts=7, assumptions=BUDGET["assumptions"])
SPECS["C07"] = dict(models=[("Rearrange_Model", "Rearrange_Model.cfg"), ("Rearrange_Model", "Rearrange_Model2.cfg", ("thorough",))],
                    judge="Rearrange_Judge", shards=7, judge_parts=7,
                    assumptions=["values are compared in units of 2^-20 of the range of PV at a level; areas in units of 2^-20 of a hemisphere",
                                 "odd latitude grids (even ones are their interpolation, C10)"])
SPECS["C10"] = dict(models=[("UserGrid_Model", "UserGrid_Model.cfg")], judge="UserGrid_Judge", shards=7, judge_parts=7,
                    assumptions=["the grid with an equator row is analysed by the same code (C03-C09, C12-C14 say what that is); "
                                 "rounding tolerance 2^-10 of a row's amplitude",
                                 "forcing is zero where QGPV ties with a reference value within 2e-4 of its largest value"])


def _requests(work, seed, tier, log):
    from checks import constructor
    constructor.prepare(work, seed, tier, log)


SPECS["C11"] = dict(models=[("Constructor_Model", "Constructor_Model.cfg")], judge="Constructor_Judge", prepare=_requests, shards=7, judge_parts=7,
                    assumptions=["the requests are those TLC reaches from a good one by two edits (three in the thorough tier)",
                                 "an even number of latitudes with a single equator row, and latitudes or pressures that are not monotonic, are not spoken of"])
SPECS["C18"] = dict(models=[("Integrate_Model", "Integrate_Model.cfg"), ("Integrate_Model", "Integrate_Model2.cfg", ("thorough",))], judge="Integrate_Judge", shards=7, judge_parts=7,
                    assumptions=["integer-valued terms and times in half seconds, so that exact equality is decided; time axes increase or decrease"])
SPECS["C19"] = dict(models=[("Globe_Model", "Globe_Model.cfg")], judge="Globe_Judge", shards=7, judge_parts=7,
                    assumptions=["latitudes in multiples of 1/64 degree; values are compared by digest",
                                 "tolerance 2^-9 of the largest value for wave activity"])


def _packages(work, seed, tier, log):
    from checks import packaging
    packaging.prepare(work, seed, tier, log)


SPECS["C17"] = dict(models=[("Packaging_Model", "Packaging_Model.cfg")], judge="Packaging_Judge", prepare=_packages, shards=7, judge_parts=7,
                    assumptions=["the requests are those TLC reaches from a good one by two edits (three in the thorough tier, sampled)",
                                 "when several faults apply any of their errors will do"])
SPECS["C16"] = dict(models=[("Slices_Model", "Slices_Model.cfg"), ("Slices_Model", "Slices_Model2.cfg", ("thorough",))], judge="Slices_Judge",
                    shards=7, judge_parts=7, assumptions=["values are compared by digest; extra dimensions have labels without repetition"])
SPECS["C23"] = dict(models=[("Units_Model", "Units_Model.cfg"), ("Units_Model", "Units_Model2.cfg", ("thorough",))],
                    judge="Units_Judge", shards=7, judge_parts=7,
                    assumptions=["changes of unit by powers of two, which floating point follows exactly",
                                 "temperature keeps its unit: the smoothing spline of the stability has a tolerance in kelvin",
                                 "outputs of rows below 2^-10 of the field's amplitude are compared on that scale"])
SPECS["C25"] = dict(models=[("Difference_Model", "Difference_Model.cfg"), ("Difference_Model", "Difference_Model2.cfg", ("thorough",))], judge="Difference_Judge",
                    shards=7, judge_parts=7, assumptions=["integer data with dyadic constants, so that the formulas are exact; resolution 1/256 of the common denominator"])


def _stores(work, seed, tier, log):
    from checks import storage
    storage.prepare(work, seed, tier, log)


SPECS["C26"] = dict(models=[("Storage_Model", "Storage_Model.cfg")], judge="Storage_Judge", prepare=_stores, shards=7, judge_parts=7,
                    assumptions=["inputs hold whole numbers, so that every storage holds the same values; kinds are tried only on arrays they can hold",
                                 "the ways of storing are those TLC reaches in one or two steps (two sampled in the quick tier)",
                                 "results are compared to 2^-9 of the row's amplitude"])
SPECS["C27"] = dict(models=[("Extract_Model", "Extract_Model.cfg")], judge="Extract_Judge",
                    assumptions=["files written by xarray; values, labels and attributes as xarray reads them; compared by digest"])


def _family(work, seed, tier, log):
    from checks import family
    family.prepare(work, seed, tier, log)


SPECS["C28"] = dict(models=[("DatasetLife_Model", "DatasetLife_Model.cfg")], judge="DatasetLife_Judge", prepare=_family, shards=7, judge_parts=7,
                    assumptions=["the histories are those TLC generates from DatasetLife_Model: all of length 2 after four prefixes "
                                 "(sampled in the quick tier) and random walks of length 10",
                                 "what a field of its own does is what C01, C02 and C15 say",
                                 "which slices ran a stage that was refused is not spoken of", "values are compared by digest of their bytes"])
