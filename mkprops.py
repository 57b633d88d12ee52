"""Writes properties.jsonl (kept as code because the entries are long)."""
import json
R = "src/resonanceReconstruction/"
RM = R + "rmatrix/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


prop("C01", "Neutron penetrability, shift factor and phase shift are exact",
     "For a neutron channel with orbital angular momentum l = 0 to 4 and any channel argument rho >= 0 (short of overflow of its powers), the penetrability, the shift factor and (modulo pi) the phase shift equal the hard-sphere values defined by the spherical Bessel functions to rounding accuracy, whatever value is passed for the unused Coulomb parameter. "
     "Any larger l is rejected with an exception, never answered with a number. "
     "Photon and fission channels always have penetrability 1, shift factor 0 and phase shift 0, for any l.",
     ["inputs"], "every l and every rho (and every unused argument)",
     "The tests compare a handful of rho values per l; a wrong coefficient, branch or cancellation that only matters elsewhere in rho (near a pole of the phase shift, at very small or large rho, at l = 4) passes them.",
     [RM + "src/calculatePenetrability.hpp", RM + "src/calculateShiftFactor.hpp", RM + "src/calculatePhaseShift.hpp", RM + "src/horner.hpp"],
     [("closed rational forms per l evaluated with Horner's scheme; switch default throws", RM + "src/calculatePenetrability.hpp")],
     ["calculatePenetrability<T>, calculateShiftFactor<T>, calculatePhaseShift<T>"])

prop("C02", "The older penetration/shift and phase shift functions agree with the exact ones",
     "The older interface (penetrability and shift factor as one pair, through either the factory object or the direct call, and the phase shift) returns for l = 0 to 4 and rho > 0 the exact hard-sphere values (phase modulo pi), so that it agrees with the R-matrix interface to rounding accuracy. "
     "A closed channel, presented as a negative argument, has penetrability exactly zero and the shift factor of the argument's magnitude; zero gives penetrability 0, shift -l and phase 0. "
     "Any l outside 0 to 4 is rejected with an exception by both interfaces.",
     ["inputs"], "every l (including negative and huge ones) and every rho of either sign",
     "The tests sample a few rho values and no negative argument outside one case; the agreement of two implementations over the whole range is never checked.",
     [R + "src/penetrationShift.hpp", R + "src/phaseShift.hpp"],
     [("per-l coefficient selection and the (rho > 0) factor", R + "src/penetrationShift.hpp")],
     ["penetrationShift( Integer<L> )( rho )", "penetrationShift( L, rho )", "phaseShift( L, rho )"])

prop("C03", "Charged-particle P, S and phi follow the Coulomb wave functions",
     "For every l, rho > 0 and Sommerfeld parameter eta >= 0 in range, the penetrability, shift factor and phase shift (modulo pi) of a charged-particle channel are those of the exact Coulomb wave functions, within the accuracy of the integration method (a few parts in 1e5 or better typically, 2% for rho >= 0.2 at worst), on both sides of every switch between expansions; for eta = 0 they are the neutral hard-sphere values. "
     "Where the functions cannot be represented (very low energies, very large l) the answer is zero penetrability or an exception, never a NaN, a negative penetrability, a hang or an access outside the work arrays.",
     ["inputs"], "every (l, rho, eta)",
     "The stable tests do not evaluate charged channels at all; the remaining ones use one proton channel.",
     [RM + "src/coh3-coulomb.hpp", RM + "src/coh3-asympt.hpp", RM + "src/coh3-extwave.hpp", RM + "src/calculatePenetrability.hpp", RM + "src/calculateShiftFactor.hpp", RM + "src/calculatePhaseShift.hpp"],
     [("four expansions selected by (rho, eta), inward integration, recurrences in l, Wronskian normalisation", RM + "src/coh3-asympt.hpp")],
     ["calculatePenetrability<ChargedParticle>, calculateShiftFactor<ChargedParticle>, calculatePhaseShift<ChargedParticle>"])

prop("C04", "The Coulomb phase shift is the sum of arctangents of eta/n",
     "For a charged-particle channel the Coulomb phase shift w_l equals the sum over n = 1..l of atan(eta/n), and is exactly zero for l = 0; for neutron, photon and fission channels it is zero for every l and eta.",
     ["inputs"], "every l and eta",
     "The test compares against values produced by the implementation itself for a few (l, eta), and pins wrong ones for l >= 1.",
     [RM + "src/calculateCoulombPhaseShift.hpp"], [("accumulation over n = 1..l", RM + "src/calculateCoulombPhaseShift.hpp")],
     ["calculateCoulombPhaseShift<T>( l, eta )"])

prop("C05", "Quantum numbers are enumerated completely, by the triangle rule, without repeats",
     "The channel spins for particle spins (i, I), the total angular momenta for (l, s) and those for (l, i, I) are exactly the values allowed by angular momentum coupling: in increasing order, in unit steps, none missing, none repeated. "
     "Consequently the number of magnetic substates is conserved: the sum of 2s+1 is (2i+1)(2I+1) and the sum of 2J+1 is (2l+1)(2s+1). "
     "A channel's quantum numbers are kept unchanged and its label is {l,s,J} with half-integers written as n/2 followed by the sign of the parity.",
     ["inputs"], "all integer and half-integer spins and all l",
     "The tests enumerate spins up to 1 and l up to 1 or 2 only.",
     [RM + "src/possibleChannelSpinValues.hpp", RM + "src/possibleChannelTotalAngularMomentumValues.hpp", RM + "ChannelQuantumNumbers.hpp"],
     [("loop from |a-b| to a+b", RM + "src/possibleChannelSpinValues.hpp"), ("half-integer formatting", RM + "ChannelQuantumNumbers/src/toString.hpp")],
     ["possibleChannelSpinValues", "possibleChannelTotalAngularMomentumValues", "ChannelQuantumNumbers"])

prop("C06", "R-matrix cross sections equal the Reich-Moore theory for any spin group",
     "For any spin group (any number and type of channels, any resonance parameters including negative energies and either sign of reduced width, either boundary condition option), the cross sections it returns at any positive incident energy equal those of Reich-Moore R-matrix theory, (pi/k^2) g_J |exp(2iw) delta - U|^2 per exit channel with capture as the flux removed by the eliminated channel. "
     "With the shift-factor option the resonance energy is not shifted; with constant boundary conditions the level shift (S - B) enters.",
     ["inputs", "configurations"], "every spin group (channels, radii, Q values, resonances) and energy",
     "The tests tabulate three nuclides at a dozen energies each.",
     [RM + "SpinGroup/src/evaluate.hpp", RM + "RLMatrixCalculator/ReichMoore/src/call.hpp", RM + "LMatrixCalculator", RM + "Resonance/src/rmatrix.hpp"],
     [("R matrix assembly, (1 - RL)^-1 R, U matrix and cross section extraction", RM + "SpinGroup/src/evaluate.hpp")],
     ["SpinGroup::evaluate"])

prop("C07", "Scattering matrix is symmetric, conserves flux and gives the cross sections",
     "For every spin group and energy the collision (T) matrix is symmetric between entrance and exit channels, has one entry per ordered pair of channels labelled by the two channel identifiers, and reproduces the cross sections of the same spin group. "
     "Flux is conserved: no cross section is negative, the flux removed (capture) vanishes when no resonance has an eliminated capture width, elastic scattering satisfies the optical theorem, and in every case elastic, reaction and capture flux add up to the total.",
     ["inputs", "configurations"], "every spin group and energy",
     "Symmetry and conservation are relations over all parameters; the tests compare tabulated values of one nuclide.",
     [RM + "SpinGroup/src/evaluateTMatrix.hpp", RM + "SpinGroup/src/evaluate.hpp", RM + "CompoundSystem/src/evaluateTMatrix.hpp"],
     [("T = P^1/2 (1 - RL)^-1 R P^1/2 keyed by channel pair", RM + "SpinGroup/src/evaluateTMatrix.hpp")],
     ["SpinGroup::evaluateTMatrix", "SpinGroup::evaluate"])

prop("C08", "Channel kinematics and radii follow from the particle pair",
     "For every channel and incident energy, the wave number, Sommerfeld parameter, statistical spin factor, reduced mass and mass ratio are those of the channel's particle pair at the channel energy (incident centre-of-mass energy plus Q value), and penetrability, shift and phase shift use the penetrability, shift-factor and phase-shift radius respectively, a radius given once serving for all the missing ones and a radius table being evaluated at the energy. "
     "At and below its threshold a channel is closed: it contributes nothing and does not influence the other channels.",
     ["inputs", "configurations"], "every particle pair, Q value, radius specification and energy on either side of the threshold",
     "The tests use a few pairs at fixed energies and only one threshold channel.",
     [RM + "Channel.hpp", RM + "Channel/src", RM + "ParticlePair.hpp", RM + "ChannelRadii.hpp", RM + "ChannelRadiusTable.hpp"],
     [("wave number, eta and below-threshold logic", RM + "Channel/src")],
     ["Channel", "ParticlePair", "ChannelRadii", "SpinGroup::evaluate"])

prop("C09", "Legacy resolved cross sections equal the Breit-Wigner formulas",
     "Cross sections from single-level and multi-level Breit-Wigner spin groups and compound systems equal the ENDF-102 formulas for all resonance parameters and energies: elastic with resonance-potential interference and, for the multi-level form, resonance-resonance interference within a spin group, capture and fission as sums over resonances, widths scaled by penetrability, resonance energies shifted by the shift factor, and hard-sphere potential scattering added exactly once per l. "
     "For a single resonance the two formalisms agree exactly; the competitive width is included in the total width and closes below its threshold.",
     ["inputs", "configurations"], "every set of resonances, quantum numbers, radii and energies",
     "The tests tabulate two nuclides.",
     [RM + "legacy/resolved", RM + "legacy/SpinGroupBase.hpp", RM + "legacy/CompoundSystemBase"],
     [("per-resonance line shapes and accumulated amplitudes", RM + "legacy/resolved/SpinGroup")],
     ["legacy::resolved::SpinGroup::evaluate", "legacy::resolved::CompoundSystem::evaluate"])

prop("C10", "Unresolved cross sections are the width-fluctuation averages",
     "In the unresolved range the average elastic, capture and fission cross sections equal the ENDF-102 expressions, with the fluctuation integrals equal to the chi-squared averages over the partial widths for the given degrees of freedom, within the accuracy of the ten-point quadrature. "
     "Between tabulated energies the parameters are interpolated linearly, at a tabulated energy they are the tabulated ones, and a partial with zero average width contributes nothing.",
     ["inputs"], "every set of average widths, degrees of freedom, level spacings and energies",
     "The tests evaluate one nuclide on its tabulated grid and single sets of degrees of freedom.",
     [RM + "legacy/unresolved", RM + "legacy/unresolved/src/calculateFluctuationIntegrals.hpp"],
     [("nested chi-squared quadratures", RM + "legacy/unresolved/src/calculateFluctuationIntegrals.hpp")],
     ["legacy::unresolved::calculateFluctuationIntegrals", "legacy::unresolved::SpinGroup::evaluate", "legacy::unresolved::CompoundSystem::evaluate"])

prop("C11", "Energy grids are sorted, unique, complete and inside the range",
     "The minimal energy grid of every spin group and compound system is strictly increasing, contains each positive resonance energy and its half-width points, and nothing else; the reconstructed range's grid additionally contains only points inside the closed energy range. "
     "In the unresolved range the grid contains every tabulated energy inside the range, consecutive points are no further apart than the allowed ratio where the standard energies permit, and generating it always terminates.",
     ["inputs"], "every resonance set, order of resonances and groups, and energy range",
     "The tests compare the grids of a few fixed nuclides.",
     [RM + "SpinGroup/src/grid.hpp", RM + "CompoundSystem/src/grid.hpp", RM + "legacy/unresolved/CompoundSystem/src/grid.hpp", RM + "Reconstructor.hpp"],
     [("concatenate, sort, unique, filter", RM + "CompoundSystem/src/grid.hpp")],
     ["grid()"])

prop("C12", "Reconstruction from ENDF picks the right formalism, range and radii",
     "For every ENDF resonance range, reconstruction dispatches on the resolved/unresolved and formalism flags exactly as ENDF-102 defines, rejecting with an exception whatever is not supported rather than producing numbers. "
     "The energy range is inclusive at both ends: outside it no cross sections at all are returned, inside it those of the formalism. "
     "The channel radius follows the NRO and NAPS options (constant, mass-dependent or tabulated with the stated interpolation law).",
     ["inputs", "configurations"], "every LRU/LRF/KRM/NRO/NAPS combination and energies at, inside and outside the limits",
     "The tests read seven evaluations; most flag combinations never occur in them.",
     [RM + "src/fromENDF.hpp", RM + "Reconstructor.hpp", RM + "src/makeChannelRadii.hpp", RM + "src/makeChannelRadiusTable.hpp"],
     [("variant dispatch and range filter", RM + "src/fromENDF.hpp")],
     ["fromENDF", "Reconstructor"])

prop("C13", "ENDF parameters become the right channels, widths and potential scattering",
     "For every ENDF parameter set, each width becomes a reduced width sign(G) sqrt(|G|/2P) of the right channel, P being taken at the magnitude of the resonance energy in that channel, (or is taken as a reduced width when flagged so), resonances are grouped into spin groups by J and parity with the channel spin selected as the format prescribes, and reactions are labelled by their particles. "
     "No l, J or channel spin is lost: the potential scattering of the whole system is 4 pi/k^2 sum (2l+1) sin^2 phi_l over the l values of the data (for Reich-Moore, every l the data asks for through NLSC, with or without resonances), and cross sections equal those computed directly from the ENDF parameters.",
     ["inputs", "configurations"], "every set of l values, spins, particle pairs, channels and resonance parameters",
     "The tests check seven nuclides; missing spin groups, negative J flags, several fission channels or pairs listed in a different order do not occur in them together.",
     [RM + "src/makeReichMooreChannelData.hpp", RM + "src/makeParticleChannelData.hpp", RM + "src/makeParticleChannels.hpp", RM + "src/makeLegacyBreitWignerSpinGroups.hpp", RM + "src/makeQuantumNumbers.hpp", RM + "src/makeParticlePairs.hpp"],
     [("conversion of widths and completion of the channel set", RM + "src/makeReichMooreChannelData.hpp")],
     ["fromENDF", "Reconstructor::operator()"])

prop("C14", "Inconsistent data is always rejected at construction, consistent data never",
     "A particle pair, channel, radius table, resonance table, spin group or compound system built from inconsistent data (sizes that do not match, duplicated or missing channels, channels of different J or parity or different incident pairs, nothing to work on, unsupported degrees of freedom) is always rejected with an exception at construction. "
     "Consistent data is always accepted, and what is stored is what was given, in the order given; widths and other per-reaction data are combined reaction by reaction.",
     ["inputs"], "every consistent and every inconsistent combination of components",
     "The tests try one example of each error, in one position.",
     [RM + "SpinGroup/src/verifyChannels.hpp", RM + "SpinGroup/src/verifyResonanceChannels.hpp", RM + "ResonanceTable/src/verifyTable.hpp", RM + "CompoundSystem/src/verifySpinGroups.hpp", RM + "Channel/src/ctor.hpp", RM + "legacy/CompoundSystemBase/src/verifySpinGroups.hpp"],
     [("verify functions called from the constructors", RM + "SpinGroup/src/ctor.hpp")],
     ["constructors"])

prop("C15", "No undefined behaviour or memory error for any accepted input",
     "Constructing, copying, moving, evaluating, gridding and destroying any of the library's objects, and converting any structurally valid ENDF resonance data, never reads or writes outside an object, uses freed or uninitialised memory, leaks, or executes undefined behaviour: every input gives a result or an exception.",
     ["inputs", "histories"], "every input and every sequence of operations on the objects",
     "The tests are not run under instrumentation and only use well-formed data.",
     [R], [("value semantics, standard containers, Eigen matrices sized per spin group", RM)],
     ["every public operation, under AddressSanitizer, UndefinedBehaviorSanitizer and valgrind"])

prop("C16", "Evaluation is a pure function of the energy",
     "The cross sections, T matrix and grid an object returns depend only on the object's data and the energy: evaluating other energies before, in any order and any number of times, evaluating a copy or a moved object, or evaluating different objects from several threads at once gives bit-identical results. "
     "Results are added to what the caller's map already holds, and a compound system returns the sum of its spin groups (plus potential scattering where the formalism defines it), whatever the order of groups, channels and resonances.",
     ["histories", "schedules", "inputs"], "every sequence of calls, every interleaving of threads using distinct objects, every order of the components",
     "The tests evaluate each object once per energy, in increasing order, in one thread.",
     [RM + "SpinGroup/src/evaluate.hpp", RM + "RLMatrixCalculator/ReichMoore.hpp", RM + "LMatrixCalculator", RM + "legacy"],
     [("work matrices cached in the spin group are refilled on every evaluation", RM + "RLMatrixCalculator/ReichMoore/src/call.hpp")],
     ["SpinGroup::evaluate", "CompoundSystem::evaluate", "legacy evaluate"],
     [("cached R and L matrices", "work space that survives from one evaluation to the next", RM + "RLMatrixCalculator/ReichMoore.hpp")])

prop("C17", "The older reconstruction interfaces give the same physics",
     "The older single-level, multi-level and Reich-Moore interfaces give for every ENDF resonance range the cross sections of the ENDF-102 formulas (and hence those of the R-matrix interface within the difference of their physical constants), honour the channel-radius options and the l-dependent scattering radius, and reject data of another formalism, unsupported options and l > 4.",
     ["inputs", "configurations"], "every resonance range, radius option and energy",
     "The tests compare one or two nuclides with tabulated values; Reich-Moore is compared with files that are not in the repository.",
     [R + "breitWigner", R + "reichMoore", R + "src/radius.hpp", R + "src/channelRadius.hpp", R + "src/neutronWaveNumber.hpp", R + "EnergyRange.hpp"],
     [("per-l evaluation with psi/chi functions, 3x3 R matrix for fission", R + "reichMoore/Lvalue")],
     ["breitWigner::singleLevel::Apply, breitWigner::multiLevel::Apply, reichMoore::Apply"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
