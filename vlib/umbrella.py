"""Cuts the project's two umbrella headers down to the part a harness needs.

    cut(profile, src, dst)   profile: LOW, RM, LEG, OLD, FULL

The umbrella headers are copied from the tree as it is now, less the project includes that the
profile does not need (and the one namespace-scope alias that names them).  Everything else is
used from /repo/src itself, so a harness sees every change to the code it exercises.  The purpose
is only to keep compile time down and to keep checks of low-level code independent of unrelated
code; run_check falls back to the uncut umbrella when a cut one does not compile.
"""
import os
import re

R = "resonanceReconstruction/"

ENDF = {R + "rmatrix/src/" + n + ".hpp" for n in (
    "makeQuantumNumbers", "makeParticlePairs", "makeParticleChannels", "makeParticleChannelData",
    "makeChannelRadiusTable", "makeChannelRadii", "makeCompoundSystem", "makeReichMooreChannelData",
    "makeReichMooreCompoundSystem", "makeLegacyBreitWignerSpinGroups",
    "makeLegacyBreitWignerCompoundSystem", "makeLegacyUnresolvedResonanceTable",
    "makeLegacyUnresolvedSpinGroups", "makeLegacyUnresolvedCompoundSystem", "fromENDF")} | {
    R + "rmatrix/Reconstructor.hpp", "ENDFtk/section/2/151.hpp"}
OLD = {R + n for n in ("src/radius.hpp", "src/channelRadius.hpp", "src/root.hpp",
                       "src/neutronWaveNumber.hpp", "EnergyRange.hpp", "ZeroWidth.hpp",
                       "breitWigner.hpp", "reichMoore.hpp")}
LEG = {R + "rmatrix/legacy.hpp"}
RMX = {R + "rmatrix/" + n + ".hpp" for n in (
    "Table", "LMatrixCalculator", "ChannelRadiusTable", "ChannelRadii", "Channel",
    "ParticleChannel", "ParticleChannelData", "Resonance", "ResonanceTable",
    "RLMatrixCalculator", "SpinGroup", "CompoundSystem", "Particle", "ParticlePair")}

CUTS = {
    "LOW": ENDF | OLD | LEG | RMX,
    "RM": ENDF | OLD | LEG,
    "LEG": ENDF | OLD,
    "OLD": {R + "rmatrix.hpp"},
    "NEW": OLD,
    "FULL": set(),
}
ENDF_STATEMENT = re.compile(r"\bENDFtk\b|\blegacy::|\bCompoundSystemVariant\b|\belementary::")


def _cut(text, cuts, statements):
    out, stmt = [], []

    def flush():
        code = "\n".join(re.sub(r"//.*", "", s) for s in stmt)
        if statements and statements.search(code):
            out.extend("" for _ in stmt)
        else:
            out.extend(stmt)
        stmt.clear()

    for line in text.split("\n"):
        code = re.sub(r"//.*", "", line).strip()
        inc = re.match(r'#\s*include\s*["<]([^">]+)[">]', code)
        if inc:
            flush()
            out.append("" if inc.group(1) in cuts else line)
        elif code.startswith("#") or (not code and not stmt):
            flush()
            out.append(line)
        elif re.match(r"(inline\s+)?namespace\b[^;]*\{$", code) or code == "}":
            flush()
            out.append(line)
        else:
            stmt.append(line)
            if code.endswith(";"):
                flush()
    flush()
    return "\n".join(out)


def cut(profile, src, dst):
    cuts = CUTS[profile]
    if not cuts:
        return False
    stm = None
    if "ENDFtk/section/2/151.hpp" in cuts:
        stm = re.compile(r"\bENDFtk\b|\bstd::variant\b[^;]*\bCompoundSystem\b")
    for name in ("resonanceReconstruction.hpp", "resonanceReconstruction/rmatrix.hpp"):
        with open(os.path.join(src, name), encoding="utf-8", errors="surrogateescape") as f:
            text = f.read()
        path = os.path.join(dst, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write('#line 1 "%s"\n' % os.path.join(src, name) + _cut(text, cuts, stm))
    return True


if __name__ == "__main__":
    import sys
    cut(sys.argv[1], sys.argv[2], sys.argv[3])
