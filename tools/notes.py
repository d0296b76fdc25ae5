B = "bounded by the generated behaviours and seeded numeric values; "
NOTE = {
 "C01": B + "relative tolerance 1e-9, exact at the range limits",
 "C02": B + "relative tolerance 1e-7",
 "C03": B + "relative tolerance 1e-9",
 "C04": B + "relative tolerance 1e-7, angles 1e-5",
 "C05": B + "default and custom grids, both integration rules, with and without self-absorption",
 "C06": B + "SSC grids of a few tens of points in most sessions",
 "C07": B + "targets with known ill-conditioning (accretion disk at small angles) judged with absolute floors",
 "C08": B + "integrands re-evaluated on the grids agnpy documents",
 "C09": B + "repetition compared at 1e-9 (1e-7 with self-absorption and opacities)",
 "C14": B + "at most 14 steps per evolution are followed",
 "C15": B + "the user's rates are read from the trace; decisions closer than 1e-9 to a refusal are left open",
 "C16": B + "steps where merging or bounds hang on the last digits are left open",
 "C17": B + "up to 3 groups",
 "C18": B + "the reuse of slow rates is judged from the calls actually made",
 "C20": B + "oracle for the components: agnpy's documented class-level evaluations, which C05-C08 decide",
 "C21": B + "loading into both backends from regions and targets in any unit",
 "C22": B + "tables of at most a few instruments and tens of points",
 "C24": B + "relative tolerance 1e-7 (1e-6 with the Klein-Nishina suppression); evolutions of a few steps",
 "C25": B + "values compared within half a unit of the last printed place; targets without a description of their own are left out",
 "C26": B + "curves as handed to matplotlib (no pixels), relative tolerance 1e-9; writing figures and removing directories is replaced by stand-ins acting in a scratch directory",
}
