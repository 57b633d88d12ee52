From c7bb20b4b4d36dad220cd37ca450ca1291e919fa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:17:15 +0000
Subject: [PATCH 01/21] fix: Riccati expansion beyond the turning point: G' was
 missing a factor and one coefficient was mistyped

For 5 <= eta < 15 and rho > 2 eta the derivative of the irregular Coulomb function lacked the
1/(2 eta (1-x)) factor on its higher-order terms and the phase polynomial used 15178880 where the
series (as in omGcase1) has 13178880; the shift factor was off by up to 4%.
---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 146230e..7b89170 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -149,7 +149,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 = -(x*(x*(x*(x*(x*(-1890.*x+7560.)-12240.)-13440.)+16128.)-9216.)+2048.)
        /92160.;
   g3 = -(x*(x*(x*(x*(x*(x*(x*(x*(x*(130977.*x
-       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+15178880.)
+       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+13178880.)
        -11714560.)+6389760.)-1966080.)+  262144.)/10321920.;
   g4 = 2.0*y*(x2/x+0.5*log((1.0-x2)/(1.0+x2)))+PI_4;
   fai = g4+std::sqrt(g0)*(g1+g0*(g2+g0*g3));
@@ -171,7 +171,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 =  3.0*(x*(x*(x*(39.*x-260.)+728.)-832.)+2560.)/4096.;
   g3 = -3.0*(x*(x*(x*(x*(x*(1899.*x-17724.)+73432.)-177280.)+308480.)
            +196608.)+860160.)/131072.;
-  b = x1*y1/4.0+g0*(g1+g0*(g2+g0*g3));
+  b = x1*y1*(0.25+g0*(g1+g0*(g2+g0*g3)));
 
   m = 1.0/std::sqrt(x2)*exp(psi);
 
-- 
2.43.0


From accc4f1992147db0fa734ecc64d1b219e0aca0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:24 +0000
Subject: [PATCH 02/21] fix: Coulomb functions: no out-of-range angular
 momentum, no unconverged regular function, no leak

The regular function was recurred down from at most l = 69, so that for rho above about 45 it was
contaminated by the irregular one without any error; l = 59 had no derivative and larger l read
beyond the work arrays; the arrays leaked when the iteration gave up.
---
 .../rmatrix/src/coh3-coulomb.hpp                   | 14 +++++++-------
 .../rmatrix/src/coh3-extwave.hpp                   |  7 ++++++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index 9d87581..7c7145c 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -9,8 +9,8 @@ const double CRIT_WRONSK   =  1.0e-06; /* wronskian satisfaction criterion    */
 const double CRIT_LMAX     =  1.0e-10; /* maximum angular momentum criterion  */
 const double CRIT_ITER     =  1.0e-16; /* infinit iteration criterion         */
 const int MAX_ITER         =  100;     /* maximum iteration number            */
-const int MAX_L            =   60;     /* maximum angular momentum + 2        */
-const int MAX_L0           =  100;     /* maximum iteration for F function    */
+const int MAX_L            =  200;     /* maximum angular momentum + 2        */
+const int MAX_L0           =  300;     /* maximum iteration for F function    */
 
 #include "coh3-asympt.hpp"
 #include "coh3-extwave.hpp"
@@ -19,6 +19,8 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                            std::complex<double>& gf,
                            std::complex<double>& dgf ) {
 
+  if( (l < 0) || (l > MAX_L-2) ) throw std::exception();
+
   double y2 = eta*eta;
   double y3 = 16.0 + y2;
   double y4 = y3*y3;
@@ -27,12 +29,10 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                   -eta*(1.+(y2-48.)/(30.*y4)+(y2*y2-160.*y2+1280.)/(105.*y4*y4))
                   /(12.*y3);
 
-  std::complex<double> *Cou0 = new std::complex<double>[MAX_L]; // G + iF
-  std::complex<double> *Cou1 = new std::complex<double>[MAX_L]; // G'+ iF'
-  omExternalFunction(l ,ratio, eta, sigma0, Cou0, Cou1);
+  std::vector< std::complex<double> > Cou0(MAX_L); // G + iF
+  std::vector< std::complex<double> > Cou1(MAX_L); // G'+ iF'
+  omExternalFunction(l ,ratio, eta, sigma0, Cou0.data(), Cou1.data());
 
   gf  = Cou0[l];
   dgf = Cou1[l];
-  delete [] Cou0;
-  delete [] Cou1;
 }
diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
index 7411b67..e3f9bfa 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
@@ -75,7 +75,12 @@ int omExternalFunction(int lmax, double rho_match, double coulomb, double coulom
     p1 = p2;  p2 = p3;
   }
 
-  lmax = (l==MAX_L-1) ? l-1 : l;
+  /*** F starts in the region where it decays, which has not been reached */
+  if(l==MAX_L-1){
+    Log::error( "angular momentum too large {}", l );
+    throw std::exception();
+  }
+  lmax = l;
 
   int  l0   = lmax+10;
   bool flag = false;
-- 
2.43.0


From 1938245393e117641e9ec5190d3ab2161901b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 03/21] fix: Coulomb phase shift angle has the sign of F

acos( G / sqrt( F^2 + G^2 ) ) ignores the sign of F, so that the phase shift was reflected wherever
F < 0, and it loses all digits when F is much smaller than G (it is zero when both are).
---
 .../rmatrix/src/calculatePhaseShift.hpp                       | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
index d827a06..f1bbc8c 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
@@ -69,7 +69,5 @@ double calculatePhaseShift< ChargedParticle >( const unsigned int l,
 
   double F = gf.imag();
   double G = gf.real();
-  return ( F == 0. ) and ( G == 0. )
-           ? 0.
-           : std::acos( G / std::sqrt( F * F + G * G ) );
+  return std::atan2( F, G );
 }
-- 
2.43.0


From df55ece810b13e1e45ec8a43e8ee705150d8e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:58 +0000
Subject: [PATCH 04/21] fix: Coulomb functions that overflowed to NaN passed
 the Wronskian test

---
 src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
index e3f9bfa..2e08f26 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
@@ -107,7 +107,7 @@ int omExternalFunction(int lmax, double rho_match, double coulomb, double coulom
       a = dfn[l].imag() * wfn[l].real()
          -dfn[l].real() * wfn[l].imag();
 
-      if( std::fabs(a-1.0) > CRIT_WRONSK ){
+      if( !( std::fabs(a-1.0) <= CRIT_WRONSK ) ){
         flag = true;
         l0 += 10;
         break;
-- 
2.43.0


From 46dfaf22aa5dfd74598a5b5768fbe928a19b03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:27 +0000
Subject: [PATCH 05/21] fix: elastic scattering of charged particles needs
 exp(2iw), not exp(iw)

The collision matrix is Omega W Omega with Omega = exp(i(w-phi)), so the direct
term that it is subtracted from carries exp(2iw). With exp(iw) a charged particle
channel with l > 0 scattered even without radius and resonances, and the elastic,
reaction and capture cross sections did not add up to the optical theorem.
---
 .../rmatrix/SpinGroup/src/evaluate.hpp                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
index a2526f5..4f83457 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
@@ -67,12 +67,12 @@ void evaluate( const Energy& energy,
                                    incidentSqrtP * tValue * sqrtP ) * omega; },
             delta( 1.0 ), row, diagonalSqrtPMatrix, diagonalOmegaMatrix );
 
-    // the exponential of the coulomb phase shift for the incident channel
+    // the exponential of twice the coulomb phase shift for the incident channel
     const auto exponential =
-      std::exp( std::complex< double >( 0., coulombShifts[c] ) );
+      std::exp( std::complex< double >( 0., 2. * coulombShifts[c] ) );
 
     // the cross section values for channel c to c' - independent of formalism
-    // sigma_cc' = norm( exp( iw_c ) delta_cc' - U_cc' )
+    // sigma_cc' = norm( exp( 2iw_c ) delta_cc' - U_cc' )
     const auto sigma =
       ranges::view::zip_with(
           [&] ( const auto delta, const auto uValue )
-- 
2.43.0


From 373c1a7a1fdf818d470ea939e4e7fd236610cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:27 +0000
Subject: [PATCH 06/21] fix: a spin group without channels read the front of an
 empty vector

The reaction identifiers are made before the channels are verified, so that an
empty set of channels was dereferenced instead of being rejected.
---
 .../rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
index 5cb13e8..842cb35 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
@@ -3,6 +3,12 @@ std::vector< ReactionID >
 makeReactionIdentifiers( const std::vector< ParticleChannel >& channels,
                          ReichMoore ) {
 
+  // no channels: this will be rejected by verifyChannels
+  if ( channels.size() == 0 ) {
+
+    return {};
+  }
+
   auto reactionID = [] ( const auto& channel )
                        { return channel.reactionID(); };
 
-- 
2.43.0


From cbb15bd8f4a22d31277f192cd3578148ebfa87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:49 +0000
Subject: [PATCH 07/21] fix: the competitive width of SLBW and MLBW needs the
 penetrability at E + QX (centre of mass)

---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp     |  2 +-
 .../SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp  |  4 ----
 .../SingleLevelBreitWigner/src/precompute.hpp          | 10 +++++++---
 .../rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp    |  3 ++-
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index c85ad56..cef1298 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -7,7 +7,7 @@
  *  @param[in] fission   the reduced fission width
  *  @param[in] total     the competitive total width
  *  @param[in] P         the penetrability at the energy Er
- *  @param[in] Q         the penetrability at the energy Er - Q
+ *  @param[in] Q         the penetrability at the energy Er + Q
  *  @param[in] S         the shift factor at the energy Er
  */
 Resonance( const Energy& energy,
diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp
index a4a1704..a699469 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp
@@ -10,10 +10,6 @@ void evaluate( const Energy& energy,
   // data we need: k, P, phi, rho, g_J
   const auto channel = this->incidentChannel();
   const auto waveNumber = channel.waveNumber( energy );
-  const auto qx = this->QX();
-  const auto p = channel.penetrability( energy );
-  const auto q = qx.value != 0. ? channel.penetrability( energy - qx ) : p;
-  const auto s = channel.shiftFactor( energy );
   const auto phaseShift = channel.phaseShift( energy );
   const auto spinFactor = channel.statisticalSpinFactor();
   const auto sinphi = std::sin( phaseShift );
diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
index 0b1eae7..14d085f 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
@@ -1,11 +1,15 @@
 void precompute( const Energy& energy ) {
 
-  // data we need: P(E), P(E-Q), S(E)
+  // data we need: P(E), P(E+Q), S(E)
+  // QX has to be added to the energy in the centre of mass system, the
+  // competitive reaction is closed below its threshold
   const auto channel = this->incidentChannel();
   const auto qx = this->QX();
   const auto p = channel.penetrability( energy );
-  const auto q = qx.value != 0. ? channel.penetrability( energy - qx )
-                                : p;
+  const Energy shifted =
+    energy + qx / channel.incidentParticlePair().massRatio();
+  const auto q = qx.value == 0. ? p
+                 : shifted.value > 0. ? channel.penetrability( shifted ) : 0.;
   const auto s = channel.shiftFactor( energy );
 
   // useful lambdas
diff --git a/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp b/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
index c1896bb..316421d 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
@@ -77,7 +77,8 @@ makeLegacyBreitWignerSpinGroups(
         lrx ? energies
                 | ranges::view::transform(
                     [&] ( const auto& energy )
-                        { return cElastic.penetrability( energy - qx ); } )
+                        { return cElastic.penetrability(
+                                     energy + qx / in.massRatio() ); } )
             : p;
     std::vector< double > s =
         energies | ranges::view::transform(
-- 
2.43.0


From 9f4222f3445502fa5843f2416004f9cc9a641467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:49 +0000
Subject: [PATCH 08/21] fix: the legacy resonance did not store its
 penetrability

---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index cef1298..61f7ef5 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -25,4 +25,5 @@ Resonance( const Energy& energy,
     competition_( competition ),
     elastic_to_penetrability_( elastic / P ),
     competition_to_penetrability_( competition / Q ),
+    penetrability_( P ),
     shiftfactor_( S ) {}
-- 
2.43.0


From 41034888e106fcc7bf6f7c6f60f7af03ed515845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:49 +0000
Subject: [PATCH 09/21] fix: zero elastic degrees of freedom indexed the
 quadrature tables out of bounds

---
 .../legacy/unresolved/src/calculateFluctuationIntegrals.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
index 73898d4..4f79bd9 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
@@ -46,7 +46,7 @@ FluctuationIntegrals calculateFluctuationIntegrals( const Widths& widths,
                                0. / electronVolt, 0. / electronVolt );
 
   // the degrees of freedom for each reaction
-  unsigned int mu = degrees.elastic - 1;
+  unsigned int mu = degrees.hasElastic() ? degrees.elastic - 1 : 0;
   unsigned int nu = degrees.hasFission() ? degrees.fission - 1 : 0;
   unsigned int lambda = degrees.hasCompetition() ? degrees.competition - 1 : 0;
 
-- 
2.43.0


From 4b29ffb0dc799acbc211ca0f35dfd17cc2765005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:08 +0000
Subject: [PATCH 10/21] fix: unresolved grid: no endless loop without points to
 insert, no logarithm of zero

---
 .../rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp b/src/resonanceReconstruction/rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp
index 8a54b8d..37d94fd 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp
@@ -37,7 +37,7 @@ std::vector< Energy > grid() const {
     auto previous = iter++;
     for ( ; iter != grid.end(); ++iter ) {
 
-      if ( *iter / *previous > 1.25 ) {
+      if ( ( *previous ).value > 0. and *iter / *previous > 1.25 ) {
 
         int exponent = std::floor( std::log10( std::abs( ( *previous ).value ) ) );
         if ( points.back() * std::pow( 10., exponent ) * electronVolt <= *previous ) {
@@ -55,7 +55,7 @@ std::vector< Energy > grid() const {
         auto end = std::lower_bound( ranges::begin( values ), ranges::end( values ), *iter );
         auto distance = std::distance( begin, end );
         iter = grid.insert( iter, begin, end );
-        std::advance( iter, distance - 1 );
+        std::advance( iter, distance > 0 ? distance - 1 : 0 );
       }
       previous = iter;
     }
-- 
2.43.0


From 07545d8129e57b900b9dd7209d4bfd32a8242e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:08 +0000
Subject: [PATCH 11/21] fix: the type of an R-matrix limited channel is that of
 its own particle pair

The MT numbers were zipped with the channels by position instead of through the
particle pair number of the channel, and a spin group with more channels than
there are particle pairs lost the last ones.
---
 .../rmatrix/src/makeParticleChannels.hpp                 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
index a78bc8e..4af3c44 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
@@ -62,12 +62,17 @@ makeParticleChannels(
 
   // do some range magic
   auto q = endfPairs.Q();
-  auto incidentPairs = ranges::view::repeat_n( incident, pairs.size() );
+  auto mt = endfPairs.MT();
+  auto incidentPairs = ranges::view::repeat_n(
+                           incident, endfChannels.numberChannels() );
   auto channelPairs = endfChannels.particlePairNumbers()
                           | ranges::view::transform( getParticlePair );
   auto qValues = endfChannels.particlePairNumbers()
                      | ranges::view::transform( [&] ( unsigned int i )
                                                     { return q[ i - 1 ]; } );
+  auto reactions = endfChannels.particlePairNumbers()
+                       | ranges::view::transform( [&] ( unsigned int i )
+                                                      { return mt[ i - 1 ]; } );
   auto channelNumbers = ranges::view::zip_with(
                             makeChannelQuantumNumbers,
                             endfChannels.orbitalMomentumValues(),
@@ -85,5 +90,5 @@ makeParticleChannels(
              channelNumbers,
              channelRadii,
              endfChannels.boundaryConditionValues(),
-             endfPairs.MT() );
+             reactions );
 }
-- 
2.43.0


From 36e2b24a4b7fa29574cf7b7e71645e068295ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:08 +0000
Subject: [PATCH 12/21] fix: R-matrix limited data without an MT2 or MT102 pair
 read beyond the particle pairs

---
 .../rmatrix/src/makeCompoundSystem.hpp                |  8 +++++++-
 .../rmatrix/src/makeParticleChannelData.hpp           | 11 +++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
index 7d97876..0ba575c 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
@@ -12,7 +12,13 @@ makeCompoundSystem(
   auto endfPairs = endfRMatrix.particlePairs();
   auto pairs = makeParticlePairs( endfPairs, neutronMass, elementaryCharge,
                                   incident, target );
-  auto in = pairs[ rmatrix::incident( endfPairs ) ];
+  const auto index = rmatrix::incident( endfPairs );
+  if ( index >= pairs.size() ) {
+
+    throw std::runtime_error( "There is no incident particle pair (MT2) in the "
+                              "R-matrix limited resolved resonances" );
+  }
+  auto in = pairs[ index ];
   bool reducedWidthsFlag = endfRMatrix.reducedWidths() == 0 ? false : true;
   auto spingroups = endfRMatrix.spinGroups();
 
diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
index bab40e5..e142816 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
@@ -262,7 +262,7 @@ makeParticleChannelData(
   std::vector< ParticleChannel > channels =
       makeParticleChannels( incident, pairs, endfPairs,
                             endfSpinGroup.channels() );
-  unsigned int eliminated = [&] {
+  unsigned int eliminated = [&] () -> unsigned int {
 
     auto getParticlePair = [] ( const ParticleChannel& channel ) {
 
@@ -271,7 +271,14 @@ makeParticleChannelData(
                          channel );
     };
 
-    auto eliminatedPair = pairs[ rmatrix::eliminated( endfPairs ) ];
+    // without a capture pair, there is no channel to eliminate
+    const auto index = rmatrix::eliminated( endfPairs );
+    if ( index >= pairs.size() ) {
+
+      return channels.size();
+    }
+
+    auto eliminatedPair = pairs[ index ];
     auto pairs = channels | ranges::view::transform( getParticlePair );
     auto found = std::find_if(
                      ranges::begin( pairs ),
-- 
2.43.0


From 3ac26bd0dcbd875cfc4d65895356c84cd5e16aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:09 +0000
Subject: [PATCH 13/21] fix: an energy dependent scattering radius was looked
 up at the negative energy of bound levels

The penetrability and shift factor of a bound level are those at the absolute
value of its energy; the radius table is not defined at negative energies, so
that any evaluation with NRO=1 and a bound level was rejected.
---
 .../rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp       | 8 +++++---
 .../rmatrix/src/makeReichMooreChannelData.hpp             | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp b/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
index 316421d..fa8a5ff 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
@@ -72,18 +72,20 @@ makeLegacyBreitWignerSpinGroups(
     std::vector< double >  p =
         energies | ranges::view::transform(
                      [&] ( const auto& energy )
-                         { return cElastic.penetrability( energy ); } );
+                         { return cElastic.penetrability(
+                                      std::abs( energy ) ); } );
     std::vector< double > q =
         lrx ? energies
                 | ranges::view::transform(
                     [&] ( const auto& energy )
                         { return cElastic.penetrability(
-                                     energy + qx / in.massRatio() ); } )
+                                     std::abs( energy + qx / in.massRatio() ) ); } )
             : p;
     std::vector< double > s =
         energies | ranges::view::transform(
                      [&] ( const auto& energy )
-                         { return cElastic.shiftFactor( energy ); } );
+                         { return cElastic.shiftFactor(
+                                      std::abs( energy ) ); } );
 
     // get the widths
     auto elastic =
diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
index 3b39a95..7d0e71c 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
@@ -119,7 +119,8 @@ makeReichMooreChannelData(
     auto penetrabilities =
         energies | ranges::view::transform(
                      [&] ( const auto& energy )
-                         { return cElastic.penetrability( energy ); } );
+                         { return cElastic.penetrability(
+                                      std::abs( energy ) ); } );
 
     // calculate reduced widths
     auto rwElastic = ranges::view::zip_with(
-- 
2.43.0


From 2711c390c5e8c7ffbafed2bae861dc8a461c339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:03 +0000
Subject: [PATCH 14/21] fix: the l dependent scattering radius applies to the
 Reich-Moore channels without resonances too

---
 .../src/makeReichMooreCompoundSystem.hpp       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
index d18cdd6..8282d9c 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
@@ -21,10 +21,6 @@ makeReichMooreCompoundSystem(
                    Particle( target, awri * neutronMass,
                              0.0 * coulombs, spin, +1) );
 
-  // channel radii
-  ChannelRadii radii = makeChannelRadii( ap, nro, naps,
-                                         awri, neutronMass.value );
-
   // create the spin groups and assign the quantum numbers
   auto required = makeQuantumNumbers( in, nlsc );
   auto lvalues = endfReichMoore.lValues();
@@ -41,6 +37,20 @@ makeReichMooreCompoundSystem(
   // add the remaining required elastic channels with no resonances
   for ( const auto& number : required ) {
 
+    // the l dependent scattering radius is the one of all channels with this l
+    double radius = ap;
+    for ( const auto& lvalue : lvalues ) {
+
+      if ( ( static_cast< unsigned int >( lvalue.orbitalMomentum() )
+               == number.orbitalAngularMomentum() ) and
+           ( lvalue.lDependentScatteringRadius() != 0. ) ) {
+
+        radius = lvalue.lDependentScatteringRadius();
+      }
+    }
+    ChannelRadii radii = makeChannelRadii( radius, nro, naps,
+                                           awri, neutronMass.value );
+
     Channel< Neutron > elastic( in, in, 0.0 * electronVolt, number, radii );
     data.emplace_back( elastic,
                        std::vector< Energy >{},
-- 
2.43.0


From 42a20f66744eec839d6c047341d540d8b38bb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:28 +0000
Subject: [PATCH 15/21] fix: the boundary condition of R-matrix limited data
 follows the shift factor flag of the incident pair

The flag of the first pair was used. That pair is usually the photon pair, whose
flag is always zero, so that the shift factors asked for by the particle pairs
were ignored.
---
 src/resonanceReconstruction/rmatrix/src/fromENDF.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
index 21c432a..0f8e6fb 100644
--- a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
@@ -64,8 +64,15 @@ fromENDF( const endf::ResonanceRange& endfResonanceRange,
 
           auto endfRMatrix =
             std::get< endf::RMatrixLimited >( endfResonanceRange.parameters() );
+          auto endfPairs = endfRMatrix.particlePairs();
+          const auto index = rmatrix::incident( endfPairs );
+          if ( index >= static_cast< unsigned int >( endfPairs.numberParticlePairs() ) ) {
+
+            throw std::runtime_error( "There is no incident particle pair (MT2) in the "
+                                      "R-matrix limited resolved resonances" );
+          }
           bool shiftFactorBoundary =
-              endfRMatrix.particlePairs().shiftFactorFlag().front() == 0 ? true : false;
+              endfPairs.shiftFactorFlag()[ index ] == 0 ? true : false;
 
           switch ( endfRMatrix.formalism() ) {
 
-- 
2.43.0


From 0cad061ded33478c5116acc4a5700e9d84b61cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:08 +0000
Subject: [PATCH 16/21] fix: older Breit-Wigner interfaces: the competitive
 reaction needs QX in the laboratory frame and is closed below its threshold

---
 .../breitWigner/lvalue/Type/src/competitiveWidth.hpp       | 7 +++++--
 .../breitWigner/singleLevel/Apply/src/competitiveWidth.hpp | 2 +-
 .../breitWigner/singleLevel/Apply/src/lvalue.hpp           | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp b/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
index 42cb0da..d91e8a9 100644
--- a/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
+++ b/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
@@ -1,9 +1,12 @@
 template< typename ChannelRatio >
 auto competitiveWidth( const Quantity< ElectronVolts > energy,
                        ChannelRatio&& rho ) const {
+  // the competitive reaction is closed below its threshold
+  const auto exitEnergy = energy + *( this->weightedQValue );
   const double penetrationFactor =
-    this->penetrationShift( rho( energy + *( this->weightedQValue ) ) )[0];
-  
+    exitEnergy > 0.0 * electronVolts ?
+      this->penetrationShift( rho( exitEnergy ) )[0] : 0.0;
+
   return [ penetrationFactor ]( const resonance::Type& r ){
     return r.weightedCompetitiveWidth * penetrationFactor;
   };
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/competitiveWidth.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/competitiveWidth.hpp
index adec6f9..4182719 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/competitiveWidth.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/competitiveWidth.hpp
@@ -5,6 +5,6 @@ static auto competitiveWidth( const Quantity< ElectronVolts > offset ){
     const auto energy = resonance.ER() * electronVolts + offset;
     const auto competitiveWidth = resonance.GX() * electronVolts;
 
-    return competitiveWidth / penetrationShift( rho( energy ) )[0];
+    return competitiveWidth / penetrationShift( rho( std::abs(energy) ) )[0];
   };
 }
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
index d37f5c5..d819b87 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
@@ -7,7 +7,7 @@ static auto lvalue( const endf::SingleLevelBreitWigner::LValue& lstate,
                     PenetrationShift&& penetrationShift,
                     double targetSpin ){
   if ( lstate.LRX() ){
-    const auto weightRatio = lstate.AWRI() / ( lstate.AWRI() + 1. );
+    const auto weightRatio = ( lstate.AWRI() + 1. ) / lstate.AWRI();
     const auto offset = lstate.QX() * weightRatio * electronVolts;
 
     auto rs =
-- 
2.43.0


From f2feb064bd4765ea3970a08556d46d00b0536c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:08 +0000
Subject: [PATCH 17/21] fix: older Breit-Wigner interfaces: a radius table was
 looked up at the negative energy of bound levels

---
 .../breitWigner/singleLevel/Apply/src/resonance.hpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
index 84f8b2e..f90fe54 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
@@ -15,7 +15,7 @@ static auto resonance(
 
   const auto competitiveWidth = 0.0 * electronVolts;
 
-  const auto ps = penetrationShift( rho( energy ) );
+  const auto ps = penetrationShift( rho( std::abs(energy) ) );
   const auto& penetrationFactor = ps[0];
   const auto& shiftFactor = ps[1];
 
-- 
2.43.0


From a76a8ee87b5ce42a383fb9aa8cfe6f5f931ce464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:08 +0000
Subject: [PATCH 18/21] fix: older interfaces: an unsupported NRO/NAPS
 combination flowed off the end of a function

---
 .../breitWigner/multiLevel/Apply/src/call.hpp                 | 4 ++++
 .../breitWigner/singleLevel/Apply/src/call.hpp                | 4 ++++
 src/resonanceReconstruction/reichMoore/Apply/src/call.hpp     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
index 71e4d20..6da12eb 100644
--- a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
@@ -40,4 +40,8 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain MLBW parameters" );
   }
+
+  throw std::runtime_error(
+    "Unsupported combination of the NRO and NAPS flags: "
+    + std::to_string( range.NRO() ) + " and " + std::to_string( range.NAPS() ) );
 }
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
index 37a83a0..5d661f6 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
@@ -42,4 +42,8 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain SLBW parameters" );
   }
+
+  throw std::runtime_error(
+    "Unsupported combination of the NRO and NAPS flags: "
+    + std::to_string( range.NRO() ) + " and " + std::to_string( range.NAPS() ) );
 }
diff --git a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
index fbf33aa..8721035 100644
--- a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
@@ -52,4 +52,8 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain Reich-Moore parameters" );
   }
+
+  throw std::runtime_error(
+    "Unsupported combination of the NRO and NAPS flags: "
+    + std::to_string( range.NRO() ) + " and " + std::to_string( range.NAPS() ) );
 }
-- 
2.43.0


From 80a02d6de1fb1fe6e909f0d2d92a04f3bc489264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:08 +0000
Subject: [PATCH 19/21] fix: degrees of freedom outside 0..4 were converted to
 an unsigned integer without a check

---
 .../makeLegacyUnresolvedResonanceTable.hpp    | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp b/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp
index 1a7fbcf..8421c16 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp
@@ -1,3 +1,20 @@
+/**
+ *  @brief Verify a number of degrees of freedom and convert it to an integer
+ *
+ *  @param[in] value   the number of degrees of freedom from the ENDF file
+ */
+inline unsigned int toDegreesOfFreedom( const double value ) {
+
+  if ( not ( ( value >= 0. ) and ( value <= 4. ) ) ) {
+
+    Log::error( "Encountered an illegal number of degrees of freedom" );
+    Log::info( "Expected a value between 0 and 4" );
+    Log::info( "Actual value: {}", value );
+    throw std::exception();
+  }
+  return static_cast< unsigned int >( value );
+}
+
 legacy::unresolved::ResonanceTable
 makeLegacyUnresolvedResonanceTable(
     const endf::UnresolvedEnergyDependent::JValue& endfParameters,
@@ -49,10 +66,10 @@ makeLegacyUnresolvedResonanceTable(
 
   return legacy::unresolved::ResonanceTable(
              std::move( resonances ),
-             { static_cast<unsigned int>( endfParameters.neutronWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.gammaWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.fissionWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.competitiveWidthDegreesFreedom() ) } );
+             { toDegreesOfFreedom( endfParameters.neutronWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.gammaWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.fissionWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.competitiveWidthDegreesFreedom() ) } );
 }
 
 template< typename Range >
@@ -101,10 +118,10 @@ makeLegacyUnresolvedResonanceTable(
                             gamma, fission, competition ),
                toResonance( toEnergy( upper ), spacing, elastic,
                             gamma, fission, competition ) },
-             { static_cast<unsigned int>( endfParameters.neutronWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.gammaWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.fissionWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.competitiveWidthDegreesFreedom() ) } );
+             { toDegreesOfFreedom( endfParameters.neutronWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.gammaWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.fissionWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.competitiveWidthDegreesFreedom() ) } );
 }
 
 legacy::unresolved::ResonanceTable
@@ -158,8 +175,8 @@ makeLegacyUnresolvedResonanceTable(
 
   return legacy::unresolved::ResonanceTable(
              std::move( resonances ),
-             { static_cast<unsigned int>( endfParameters.neutronWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.gammaWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.fissionWidthDegreesFreedom() ),
-               static_cast<unsigned int>( endfParameters.competitiveWidthDegreesFreedom() ) } );
+             { toDegreesOfFreedom( endfParameters.neutronWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.gammaWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.fissionWidthDegreesFreedom() ),
+               toDegreesOfFreedom( endfParameters.competitiveWidthDegreesFreedom() ) } );
 }
-- 
2.43.0


From 3a7ba63a9e028e9ceaf549f5e7209c2da4ad7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:08 +0000
Subject: [PATCH 20/21] fix: a particle pair number without a particle pair
 read beyond the particle pairs

---
 .../rmatrix/src/makeParticleChannels.hpp             | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
index 4af3c44..6ab9ac2 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
@@ -60,6 +60,18 @@ makeParticleChannels(
     }
   };
 
+  // every channel must refer to an existing particle pair
+  for ( unsigned int i : endfChannels.particlePairNumbers() ) {
+
+    if ( ( i < 1 ) or ( i > pairs.size() ) ) {
+
+      Log::error( "Encountered an illegal particle pair number" );
+      Log::info( "Expected a value between 1 and {}", pairs.size() );
+      Log::info( "Actual value: {}", i );
+      throw std::exception();
+    }
+  }
+
   // do some range magic
   auto q = endfPairs.Q();
   auto mt = endfPairs.MT();
-- 
2.43.0


From 43933b31445f562657450fd26c64b38cc174bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:08 +0000
Subject: [PATCH 21/21] fix: Coulomb functions: the number of integration steps
 overflowed for very large rho

---
 .../rmatrix/src/coh3-asympt.hpp                     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 7b89170..c0434d9 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -9,6 +9,7 @@
 #include <complex>
 
 static const double MESH_RHO   =     0.01;
+static const double MAX_STEPS  =  1.0e+07;
 static const double CRIT_CNVRG = 1.0e-10;
 static const double BETA       =    0.1;
 
@@ -261,9 +262,15 @@ void omAsymptotic(double rm, double coulomb, double sigma0, double *g0, double *
 
   if((p0 != 0.0) && (p1 != 0.0)){
     if((dr = ra-rm) != 0.0){
-      n = std::abs((int)( dr/MESH_RHO )+1);
-      mesh = dr/(double)n;
-      omNewmark(n,mesh,coulomb,ra,&p0,&p1);
+      if(std::abs(dr/MESH_RHO) < MAX_STEPS){
+        n = std::abs((int)( dr/MESH_RHO )+1);
+        mesh = dr/(double)n;
+        omNewmark(n,mesh,coulomb,ra,&p0,&p1);
+      }
+      else{ // too far to integrate: no solution
+        p0 = 0.0;
+        p1 = 0.0;
+      }
     }
   }
   *g0=p0;
-- 
2.43.0

