From 641244078da362f2ffeef01d86f54a15e891755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 1/4] fix: isValid() of a blade checks every component, not
 only the first

---
 include/g3validity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3validity.hpp b/include/g3validity.hpp
index 99c3ef8..9309c1c 100644
--- a/include/g3validity.hpp
+++ b/include/g3validity.hpp
@@ -121,7 +121,7 @@ namespace g3
 		( Blade const & blade
 		)
 	{
-		return isValid(blade.theData[0]); // test only first element for nan
+		return isValid(blade.theData); // check all components
 	}
 
 	//! True if instance is not null - specialization for Spinor
-- 
2.43.0


From e607da2a1eaabea7f98b56ce8aa4f0f3b9974c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 2/4] fix: exp(MultiVector) agrees with the power series and
 prints nothing

---
 include/g3func.hpp | 119 +++++++++++++--------------------------------
 1 file changed, 34 insertions(+), 85 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 773a99d..2e2f789 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -599,15 +599,12 @@ namespace priv
 
 	/*! Exponential of general MultiVector element.
 	 *
-	 * Formula used is from:
-	 * \arg Dargys, Adolfas, Acus Arturas,
-	 * "Exponentials of general multivector (MV) in 3D Clifford algebras"
-	 * ArXiv:2104.01905v1, 18 Feb 2021
-	 * https://arxiv.org/pdf/2104.01905.pdf
-	 *
-* NOTE - ERROR - this paper seems to be wrong
-* For example; obvious in that b0, b123, do not reproduce (-1 == exp(I*pi))
+	 * The (Scalar + TriVector) grades, C, commute with everything such
+	 * that exp(C + D) = exp(C) * exp(D) with D the (Vector + BiVector) grades.
 	 *
+	 * The square of D is complex (Scalar + TriVector). With d denoting
+	 * a (complex) square root of D*D, the power series for D becomes
+	 * \arg exp(D) = cosh(d) + (sinh(d)/d) * D
 	 */
 	inline
 	MultiVector
@@ -619,83 +616,35 @@ namespace priv
 
 		if (isValid(someItem))
 		{
-			// NOTE: the algorithm [Dargys, Arturas] uses bivector
-			// decomposition with basis: E12, E23, E13
-			// This library uses: e23, e31, e12
-
-			// pull out components from input MV
-			double const a0  {  someItem[0] };
-			double const a1  {  someItem[1] };
-			double const a2  {  someItem[2] };
-			double const a3  {  someItem[3] };
-			double const a12 {  someItem[6] }; // e12
-			double const a13 { -someItem[5] }; // e31
-			double const a23 {  someItem[4] }; // e23
-			double const a123{  someItem[7] };
-
-			// evaluate scalar angles ([Dargys, Arturas] eqn 3.2)
-			double const a3m12{ a3 - a12 };
-			double const a3p12{ a3 + a12 };
-			double const a2m13{ a2 - a13 };
-			double const a2p13{ a2 + a13 };
-			double const a1m23{ a1 - a23 };
-			double const a1p23{ a1 + a23 };
-
-			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
-			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
-
-std::cout << "apos: " << apos << std::endl;
-std::cout << "aneg: " << aneg << std::endl;
-
-			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
-
-			// cosine function is well behaved including near zero
-			double const cospos{ std::cos(apos) }; // okay for 0==apos
-			double const cosneg{ std::cos(aneg) }; // okay for 0==aneg
-			// sync function (sin(x)/x) needs limiting case evaluation
-			double const syncpos{ priv::sync(apos) };
-			double const syncneg{ priv::sync(aneg) };
-
-std::cout << "cospos: " << cospos << std::endl;
-std::cout << "cosneg: " << cosneg << std::endl;
-
-std::cout << "syncpos: " << syncpos << std::endl;
-std::cout << "syncneg: " << syncneg << std::endl;
-
-			// leading coefficients
-			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
-			double const epa123{ std::exp( a123) }; // e(+a123)
-			double const ena123{ std::exp(-a123) }; // e(-a123)
-
-std::cout << "hea0  : " << hea0 << std::endl;
-std::cout << "epa123: " << epa123 << std::endl;
-std::cout << "ena123: " << ena123 << std::endl;
-std::cout << " sum  : " << epa123 + ena123 << std::endl;
-
-			// evaluate the output components
-
-			// Note the special case evaluations could be slightly more
-			// optimized, but simple code evaluation is preferred here.
-
-			double const b0  { epa123*cospos + ena123*cosneg };
-
-			double const b1{ epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg };
-			double const b2{ epa123*(a2p13)*syncpos + ena123*(a2m13)*syncneg };
-			double const b3{ epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg };
-
-			double const b12{-epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg};
-			double const b13{ epa123*(a2p13)*syncpos - ena123*(a2m13)*syncneg};
-			double const b23{-epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg};
-
-			double const b123{ epa123*cospos - ena123*cosneg };
-
-			// NOTE restore conventions on basis bivectors
-			// e23 :  b23
-			// e31 : -b13
-			// e12 :  b12
-			result = MultiVector{ b0, b1, b2, b3, b23, -b13, b12, b123 };
-			// apply overall scale factor
-			result = hea0 * result;
+			// commuting portion - exponential is that of a complex number
+			std::complex<double> const zCen
+				{ someItem.theSca.theData[0], someItem.theTri.theData[0] };
+			std::complex<double> const zExp{ std::exp(zCen) };
+
+			// directed portion - (dirverse(dir) == -dir), so (dir*dir) == -ampSq
+			DirPlex const dir{ someItem.theVec, someItem.theBiv };
+			ComPlex const dirSq{ -ampSq(dir) };
+			std::complex<double> const zRoot
+				{ std::sqrt(std::complex<double>
+					{ dirSq.theSca.theData[0], dirSq.theTri.theData[0] })
+				};
+
+			// sinh(z)/z is unity in the limit of zero argument
+			std::complex<double> zSinc{ 1., 0. };
+			if (0. < std::abs(zRoot))
+			{
+				zSinc = std::sinh(zRoot) / zRoot;
+			}
+
+			// combine to form result
+			ComPlex const cenPart{ ComPlex::from(zExp * std::cosh(zRoot)) };
+			DirPlex const dirPart{ ComPlex::from(zExp * zSinc) * dir };
+			result = MultiVector
+				{ cenPart.theSca
+				, dirPart.theVec
+				, dirPart.theBiv
+				, cenPart.theTri
+				};
 		}
 
 		return result;
-- 
2.43.0


From 25cda5bb55401425f6f562080f23fb7bb0f30cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 3/4] fix: exp(BiVector) no longer ignores angles whose
 direction has a subnormal component

---
 include/g3func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 2e2f789..240ffed 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -546,7 +546,7 @@ namespace g3
 				{ pairMagDirFrom(spinAngle) };
 			double const & mag = magdir.first;
 			BiVector const & dir = magdir.second;
-			if (isValid(dir))
+			if (0. < mag)
 			{
 				spin = Spinor{ std::cos(mag), std::sin(mag)*dir };
 			}
-- 
2.43.0


From fbffefc80e37cc480a1d7368295e97ce0f32f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 4/4] fix: logG2 keeps small rotations and rotations near a
 half turn

The special cases were selected from the cosine alone, which is 1-eps already
for angles near 2e-8: smaller rotations were lost and rotations that near to
a half turn were replaced by one in the default plane.
---
 include/g3func.hpp | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 240ffed..cae497e 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -679,38 +679,40 @@ namespace priv
 				G2Item const spinDir{ invMag * genSpin };
 
 				double const & dirCosValue = spinDir.theSca.theData[0];
-				constexpr double almostOne
-					{ 1. - std::numeric_limits<double>::epsilon() };
+				std::pair<double, BiVector> const bivMagDir
+					{ pairMagDirFrom(spinDir.theBiv) };
+				double const & dirSinMag = bivMagDir.first;
 
+				// smallest bivector magnitude that is well defined
+				// (i.e. for which squared magnitude is not subnormal)
+				constexpr double tinySin{ 1.e-150 };
+
+				// check if there is a rotation plane
+				if (tinySin < dirSinMag)
+				{
+					// Rotation plane should be well defined
+					BiVector const & bivDir = bivMagDir.second;
+					// dirCosValue can be +/- while (0 <= dirSinMag)
+					double const angleSize
+						{ std::atan2(dirSinMag, dirCosValue) };
+					gangle = G2Item{ logSpinMag, angleSize * bivDir };
+				}
+				else
 				// check special case of zero rotation
-				if (almostOne < dirCosValue)
+				if (0. < dirCosValue)
 				{
 					gangle = G2Item{ logSpinMag, zero<BiVector>() };
 				}
 				else
-				// check special case of turnHalf
-				if (dirCosValue < (-almostOne))
+				// handle special case of turnHalf
 				{
-					// Rotation is very near PI
+					// Rotation is PI
 					// - bivector direction not (or not well) defined
 					// - use provided argument plane to complete rotation
 					// - unitize argument for safety
 					BiVector const bivDir{ direction(bivDirForImaginary) };
 					gangle = G2Item{ logSpinMag, turnHalf * bivDir };
 				}
-				else
-				// handle as general case
-				{
-					// Rotation plane should be well defined
-					std::pair<double, BiVector> const bivMagDir
-						{ pairMagDirFrom(spinDir.theBiv) };
-					double const & dirSinMag = bivMagDir.first;
-					BiVector const & bivDir = bivMagDir.second;
-					// dirCosValue can be +/- while (0 <= dirSinMag)
-					double const angleSize
-						{ std::atan2(dirSinMag, dirCosValue) };
-					gangle = G2Item{ logSpinMag, angleSize * bivDir };
-				}
 			}
 		}
 		return gangle;
-- 
2.43.0

