"""Which monitors decide which property, and what a run has to have observed to count."""

VALGRIND = ["valgrind", "-q", "--soname-synonyms=somalloc=nouserintercepts", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no", "--track-origins=no"]



def rmjobs(n, both=True, **kw):
    """the R-matrix monitors, one executable per boundary condition option"""
    out = []
    for d in ([], ["-DBCONST"]) if both else ([],):
        out.append(dict(src="rm.cpp", profile="RM", flavour="plain", libs=["-lquadmath", "-pthread"], defs=["-DP" + n] + d, shards=3, deepshards=4, **kw))
        out.append(dict(src="rm.cpp", profile="RM", flavour="asan", libs=["-lquadmath", "-pthread"], defs=["-DP" + n] + d, shards=1, deepshards=2, thorough_only=True, deep=2.0, **kw))
    return out


def legjobs(n, **kw):
    """the monitors of the legacy resolved and unresolved objects"""
    j = dict(src="leg.cpp", profile="LEG", libs=["-lquadmath", "-pthread"], defs=["-DP" + n])
    return [dict(j, flavour="plain", shards=3, deepshards=6, **kw), dict(j, flavour="asan", shards=1, deepshards=2, thorough_only=True, **kw)]


def endfjobs(n, **kw):
    """the monitors of the conversion of ENDF data"""
    j = dict(src="endf.cpp", profile="NEW", libs=["-lquadmath", "-pthread"], defs=["-DP" + n])
    return [dict(j, flavour="plain", shards=4, deepshards=6, **kw), dict(j, flavour="asan", shards=1, deepshards=2, thorough_only=True, **kw)]


SPECS = {
    "C01": dict(
        jobs=[dict(src="low.cpp", profile="LOW", libs=["-lquadmath"])],
        classes=["neutron l=0", "neutron l=4", "photon/fission", "unsupported l", "zero"], min_distinct=10000,
        rule="random (l, rho) over 1e-28..1e6 plus neighbourhoods of poles and zeros; each call compared with quad-precision Bessel recurrences; a case is non-trivial when its inputs and results are new"),
    "C02": dict(
        jobs=[dict(src="low.cpp", profile="LOW", libs=["-lquadmath"])],
        classes=["open l=0", "open l=4", "closed l=", "two implementations", "unsupported l"], min_distinct=10000,
        rule="random (l, rho) of either sign; results compared with quad-precision Bessel recurrences and with the R-matrix implementation"),
    "C03": dict(
        jobs=[dict(src="coulomb.cpp", profile="LOW", libs=["-lquadmath"])],
        classes=["eta>=15 rho<=16", "eta>=15 tunnelling", "eta>=15 near", "5<=eta<15 far", "5<=eta<15 beyond", "5<=eta<15 tunnelling", "eta<5 far", "eta<5 inward", "eta=0", "low energy", "l beyond range"], min_distinct=5000,
        rule="random (l, rho, eta), both sides of every switch between expansions, the eta = 0 limit and extreme low energies; P, S and phi compared with extended-precision Coulomb functions obtained by continued fractions and Taylor integration"),
    "C04": dict(
        jobs=[dict(src="low.cpp", profile="LOW", libs=["-lquadmath"])],
        classes=["charged l=0", "charged l<9", "uncharged"], min_distinct=5000,
        rule="random (l, eta); each value compared with the extended-precision sum of arctangents"),
    "C05": dict(
        jobs=[dict(src="low.cpp", profile="LOW", libs=["-lquadmath"], args=["full=1"], shards=1, deepshards=1)],
        classes=["channel spin list", "J list for (l,s)", "J list for (l,i,I)", "labels", "large spins", "large labels"], min_distinct=5000,
        rule="every (i, I), (l, s), (l, i, I) and (l, s, J, parity) up to the bound, plus random large spins; each list compared with the triangle rule in integer arithmetic"),
    "C06": dict(
        jobs=rmjobs("06"),
        classes=["shift factor, one channel", "constant B, one channel", "shift factor, several incident", "constant B, several incident", "shift factor, several channels, charged exit", "constant B, no resonances", "shift factor, one channel, charged incident", "compound system from channel data", "at a resonance energy"], min_distinct=10000,
        rule="random spin groups and compound systems (up to 6 channels of all types, thresholds, radius tables, resonances of either sign and energy), built from tables and from channel data, evaluated near and far from resonances and thresholds; every cross section compared with the level-matrix form of the theory in extended precision, to a rounding bound computed from the conditioning of each case"),
    "C07": dict(
        jobs=rmjobs("07"),
        classes=["shift factor, one channel", "constant B, several incident", "shift factor, several channels", "compound system"], min_distinct=8000,
        rule="random spin groups with and without capture widths; on every evaluation: symmetry, keys, values, zero for closed channels, unitarity, positivity, optical theorem, and agreement of the cross sections with the T matrix that was observed"),
    "C08": dict(
        jobs=rmjobs("08"),
        classes=["neutron, 1 radii", "neutron, 2 radii", "neutron, 3 radii", "charged, 3 radii", "neutron, 1 radii, closed", "photon", "fission", "closed channels removed", "exactly at threshold"], min_distinct=20000,
        rule="random channels and energies on either side of thresholds; wave number, Sommerfeld parameter, radii, P, S, phi and identifiers compared with an independent calculation; evaluation with closed channels compared with the group that lacks them"),
    "C09": dict(
        jobs=legjobs("09"),
        classes=["single level, one resonance", "multi level, one resonance", "single level, several resonances, competition closed", "multi level, several resonances, competition open", "single level compound system, lmax=4", "multi level compound system, lmax=4", "both formalisms, one resonance", "l=4"], min_distinct=20000,
        rule="random spin groups and compound systems (l = 0..4, up to 8 resonances of either sign of energy, radius tables, competitive reactions with QX of either sign) evaluated at, near and far from resonances and thresholds; every cross section compared with the Breit-Wigner sums in extended precision, to a rounding bound computed per case"),
    "C10": dict(
        jobs=legjobs("10"),
        classes=["integrals, fission competition", "integrals, competition", "integrals, fission", "degrees of freedom 4,4,4", "degrees of freedom 1,0,0", "at a tabulated energy", "between energies", "compound system, lmax=3", "between energies, no elastic"], min_distinct=5000,
        rule="random widths and degrees of freedom; each fluctuation integral compared with the exact chi-squared average (double-exponential integration), allowed to be no further off than the published ten-point rule; average cross sections compared at and between tabulated energies"),
    "C11": dict(
        jobs=legjobs("11") + rmjobs("11") + endfjobs("11"),
        classes=["range grid, SLBW", "range grid, MLBW", "range grid, Reich-Moore", "range grid, R-matrix limited", "range grid, unresolved A", "range grid, unresolved B", "range grid, unresolved C", "spin group grid", "compound system grid", "legacy spin group grid", "legacy compound system grid", "unresolved grid with inserted points", "unresolved grid, nothing to insert"], min_distinct=8000,
        rule="random spin groups and systems with repeated, negative and zero-width resonances; every grid point must be expected and every expected point present, strictly increasing; unresolved tables with energies on, next to and between the standard energies; a watchdog for termination"),
    "C12": dict(
        jobs=endfjobs("12"),
        classes=[k + ", NRO=1 NAPS=%d" % n for k in ("SLBW", "MLBW", "Reich-Moore", "unresolved A", "unresolved B", "unresolved C") for n in (0, 1, 2)]
                + [k + ", NRO=0 NAPS=%d" % n for k in ("SLBW", "MLBW", "Reich-Moore", "unresolved A", "unresolved B", "unresolved C") for n in (0, 1)]
                + ["radius law %d" % k for k in range(1, 6)] + ["dispatched " + k for k in ("SLBW", "MLBW", "Reich-Moore", "R-matrix limited", "unresolved A", "unresolved B", "unresolved C")]
                + ["rejected type", "rejected formalism", "rejected radius option", "rejected interpolation law", "rejected special case", "SLBW, outside", "unresolved C, outside", "R-matrix limited, at a limit"], min_distinct=8000,
        rule="random resonance ranges of every type and representation, with every NRO/NAPS combination and radius tables under all five interpolation laws; evaluated inside, at and outside the limits of the range and compared with the reference formulas at the radii the options ask for; every unsupported flag has to be rejected"),
    "C13": dict(
        jobs=endfjobs("13"),
        classes=["SLBW", "MLBW", "Reich-Moore", "R-matrix limited", "unresolved A", "unresolved B", "unresolved C", "channel of ", "parameters of Reich-Moore", "parameters of R-matrix limited", "parameters of SLBW", "parameters of unresolved C"] + ["potential scattering, NLSC=%d" % k for k in range(1, 6)], min_distinct=8000,
        rule="random ENDF resonance data of every formalism converted by fromENDF; the channels, quantum numbers, types, radii, boundary conditions, Q values and resonance counts of the converted object and its cross sections compared with a model derived from the ENDF-102 rules directly from the same records"),
    "C14": dict(
        jobs=rmjobs("14") + legjobs("14"),
        classes=["rejected: single level: an l,J twice", "rejected: unresolved: an l,J twice", "rejected: more than four degrees of freedom", "rejected: fewer than two energies", "rejected: no channels", "rejected: a channel occurs twice", "rejected: channels of different J", "rejected: no incident", "rejected: a table in another order", "rejected: two spin groups", "accepted: spin group", "accepted: compound system", "data arithmetic"], min_distinct=5000,
        rule="random consistent objects and, for each, mutations that make them inconsistent at a random position; a case is an attempted construction"),
    "C16": dict(
        jobs=rmjobs("16") + [dict(src="rm.cpp", profile="RM", flavour="tsan", libs=["-lquadmath", "-pthread"], defs=["-DP16"], args=["threads=1"], shards=2, deepshards=4)]
             + legjobs("16") + endfjobs("16") + [dict(src="leg.cpp", profile="LEG", flavour="tsan", libs=["-lquadmath", "-pthread"], defs=["-DP16"], args=["threads=1"], shards=1, deepshards=3)],
        classes=["history, reconstructor", "history, single level", "history, multi level", "history, unresolved", "order, multi level", "four threads, unresolved", "history of operations", "order of components", "sum of spin groups", "four threads"], min_distinct=3000,
        rule="random histories of evaluate (at scattered and at almost equal energies, other objects in between), evaluateTMatrix, grid, copy, move and accumulate on a pool of objects and of reconstructors converted from ENDF data, each result compared bit for bit with that of a fresh object; permuted components; four threads on copies of one object under ThreadSanitizer"),
    "C17": dict(
        jobs=[dict(src="old.cpp", profile="OLD", flavour="plain", libs=["-lquadmath"], shards=4, deepshards=8), dict(src="old.cpp", profile="OLD", flavour="asan", libs=["-lquadmath"], shards=1, deepshards=2, scale=0.3)],
        classes=[k + ", NRO=%d NAPS=%d" % n for k in ("SLBW", "MLBW", "Reich-Moore") for n in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2))]
                + ["competition open", "competition closed", "both channel spins of a J", "bound levels, radius table", "wave number", "channel radius"]
                + ["rejected: " + k for k in ("another formalism", "unknown radius option", "l beyond 4", "missing radius table", "unknown interpolation law")], min_distinct=15000,
        rule="random SLBW, MLBW and Reich-Moore ranges (l = 0..4, bound levels, fission, competition, l dependent radii, radius tables, every NRO/NAPS combination) evaluated at, near and far from resonances; every cross section compared with the ENDF-102 formulas in extended precision, to a rounding bound computed per case; every unsupported option has to be rejected"),
    "C15": dict(
        jobs=[dict(src="low.cpp", profile="LOW", flavour="ubplus", libs=["-lquadmath"], shards=1, deepshards=2, scale=0.3),
              dict(src="coulomb.cpp", profile="LOW", flavour="ubplus", libs=["-lquadmath"], shards=1, deepshards=4, scale=0.5),
              dict(src="rm.cpp", profile="RM", flavour="ubplus", libs=["-lquadmath", "-pthread"], defs=["-DPALL"], shards=2, deepshards=4, scale=0.4),
              dict(src="rm.cpp", profile="RM", flavour="ubplus", libs=["-lquadmath", "-pthread"], defs=["-DPALL", "-DBCONST"], shards=1, deepshards=4, scale=0.4),
              dict(src="leg.cpp", profile="LEG", flavour="ubplus", libs=["-lquadmath", "-pthread"], defs=["-DPALL"], shards=2, deepshards=4, scale=0.4),
              dict(src="old.cpp", profile="OLD", flavour="ubplus", libs=["-lquadmath"], shards=1, deepshards=4, scale=0.5),
              dict(src="hostile.cpp", profile="NEW", flavour="ubplus", libs=["-lquadmath", "-pthread"], shards=4, deepshards=8, scale=1.0),
              dict(src="hostile.cpp", profile="NEW", flavour="plain0", libs=["-lquadmath", "-pthread"], shards=2, deepshards=4, scale=0.03, wrap=VALGRIND),
              dict(src="endf.cpp", profile="NEW", flavour="ubplus", libs=["-lquadmath", "-pthread"], defs=["-DPALL"], shards=1, deepshards=4, thorough_only=True, deep=2.0)],
        classes=[k + ", " + a for k in ("SLBW", "MLBW", "Reich-Moore", "R-matrix limited", "unresolved A", "unresolved B", "unresolved C") for a in ("accepted", "rejected")]
                + ["neutron l=0", "eta>=15", "low energy", "shift factor, one channel", "constant B, one channel", "history of operations", "single level", "integrals", "rejected: no channels", "competition open", "hostile objects, accepted", "hostile objects, unresolved, accepted", "hostile old, Reich-Moore, accepted"], min_distinct=20000,
        technique="ASan + UBSan + float-cast-overflow + LeakSanitizer and valgrind memcheck on hostile and random workloads of every part of the library",
        rule="every workload of the other properties plus mutated ENDF data (zero, negative, huge, tiny and mismatched values in every field) and non-finite evaluation energies, in builds where a sanitizer watches every access, conversion and allocation; a case is non-trivial when its inputs and results are new"),
}
