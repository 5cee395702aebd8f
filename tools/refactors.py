#!/usr/bin/env python3
"""refactors.py [ID…] [Pxx…]   behaviour-preserving edits of a scratch copy; every check has to stay quiet on them"""
import os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
R = []


def rf(i, *edits):
    R.append((i, edits))


F, P, IO, C, V, U, T, TR = ("g3func.hpp", "g3_private.hpp", "g3io.hpp", "g3compare.hpp", "g3validity.hpp", "g3opsUni.hpp", "g3type.hpp", "g3traits.hpp")
MV = "g3opsMul_Vector.hpp"

rf("magsq-via-blades",
   (F, "double const scaSq{ sq(spin.theSca.theData[0]) };\n\t\tdouble const bivSq{ magSq(spin.theBiv) };\n\t\treturn {scaSq + bivSq };", "return magSq(spin.theBiv) + magSq(spin.theSca);"),
   (F, "return { scaSq + vecSq + bivSq + triSq };", "return (scaSq + triSq) + (vecSq + bivSq);"),
   (F, "return priv::prodComm(blade.theData, blade.theData);", "double sum{ 0. };\n\t\tfor (double const & elem : blade.theData)\n\t\t{\n\t\t\tsum += sq(elem);\n\t\t}\n\t\treturn sum;"))
rf("magsq-accumulate",
   (F, "return priv::prodComm(blade.theData, blade.theData);", "return std::accumulate(blade.theData.cbegin(), blade.theData.cend(), 0., [](double s, double x) { return s + x * x; });"))
rf("magdir-early-return",
   (F, """		std::pair<double, Type> result{ magnitude(blade), null<Type>() };
		double const & mag = result.first;
		// use a tolerance large enough so that computation result
		// retains meaningful precision.
		constexpr double small{ std::numeric_limits<double>::denorm_min() };
		if (small < mag)
		{
			result.second = (1./mag) * blade;
		}
		return result;""", """		double const mag{ magnitude(blade) };
		constexpr double small{ std::numeric_limits<double>::denorm_min() };
		bool const hasDirection{ small < mag };
		if (! hasDirection)
		{
			return { mag, null<Type>() };
		}
		double const scale{ 1./mag };
		return std::make_pair(mag, blade * scale);"""))
rf("ampsq-by-product",
   (F, """		// ampSq: (sca + tri) * (sca + tri)
		return
			{ Scalar{ sq(dubSca) - sq(dubTri) }
			, TriVector{ 2. * dubSca * dubTri }
			};""", """		return ComPlex
			{ Scalar{ dubSca * dubSca - dubTri * dubTri }
			, TriVector{ dubSca * dubTri + dubTri * dubSca }
			};"""),
   (F, "double const scaPart{ sqSca - sqVec - sqBiv + sqTri };", "double const scaPart{ (sqSca + sqTri) - (sqVec + sqBiv) };"),
   (F, "double const triPart{ 2.*(triScaTri - triVecBiv) };", "double const half{ triScaTri - triVecBiv };\n\t\tdouble const triPart{ half + half };"))
rf("ampsq-spinor-via-magsq",
   (F, "double const scaPart{ magSq(sca) + magSq(biv) };", "double const scaPart{ magSq(Spinor{ sca, biv }) };"),
   (F, "double const scaPart{ -(magSq(vec) + magSq(tri)) };", "double const scaPart{ -magSq(vec) - magSq(tri) };"))
rf("inverse-explicit",
   (F, """		// use complex library functions to evaluate
		std::complex<double> const zFwd{ dubSca, dubTri };
		std::complex<double> const zConj{ std::conj(zFwd) };
		std::complex<double> const zAmpSq{ zFwd * std::conj(zFwd) };
		constexpr double tolSq{ std::numeric_limits<double>::min() };
		if (tolSq < std::abs(zAmpSq))
		{
			std::complex<double> const zInvAmpSq{ 1. / zAmpSq };
			std::complex<double> const zInv{ zConj * zInvAmpSq };
			inv = ComPlex{ std::real(zInv), std::imag(zInv) };
		}""", """		double const norm{ sq(dubSca) + sq(dubTri) };
		constexpr double tolSq{ std::numeric_limits<double>::min() };
		if (tolSq < norm)
		{
			double const scale{ 1. / norm };
			inv = ComPlex{ Scalar{ scale * dubSca }, TriVector{ -scale * dubTri } };
		}"""))
rf("inverse-stdnorm",
   (F, "std::complex<double> const zAmpSq{ zFwd * std::conj(zFwd) };", "double const zAmpSq{ std::norm(zFwd) };"),
   (F, "std::complex<double> const zInvAmpSq{ 1. / zAmpSq };\n\t\t\tstd::complex<double> const zInv{ zConj * zInvAmpSq };", "std::complex<double> const zInv{ zConj / zAmpSq };"))
rf("inverse-mv-helper",
   (F, """		MultiVector const mvDv{ dirverse(mv) };
		return { invAmp.theSca * mvDv + invAmp.theTri * mvDv };""", """		return MultiVector{ invAmp } * dirverse(mv);"""))
rf("inverse-blade-divide",
   (F, "return Type{ (1./mag2) * reverse(someItem) };", "double const invMag2{ 1. / mag2 };\n\t\treturn { reverse(someItem) * invMag2 };"))
rf("exp-biv-restructure",
   (F, """		Spinor spin{ null<Spinor>() }; // zero angle default result
		if (isValid(spinAngle))
		{
			spin = Spinor{ 1., zero<BiVector>() }; // zero angle default result
			std::pair<double, BiVector> const magdir
				{ pairMagDirFrom(spinAngle) };
			double const & mag = magdir.first;
			BiVector const & dir = magdir.second;
			if (0. < mag)
			{
				spin = Spinor{ std::cos(mag), std::sin(mag)*dir };
			}
			// else // zero angle dir undefined - return default unity
		}
		return spin;""", """		if (! isValid(spinAngle))
		{
			return null<Spinor>();
		}
		auto const [ mag, dir ] = pairMagDirFrom(spinAngle);
		if (! (0. < mag))
		{
			return Spinor{ 1., zero<BiVector>() };
		}
		double const cosMag{ std::cos(mag) };
		double const sinMag{ std::sin(mag) };
		return Spinor{ cosMag, sinMag * dir };"""))
rf("exp-spinor-parts",
   (F, "return { std::exp(someItem.theSca.theData[0]) * exp(someItem.theBiv) };", "Spinor const turn{ exp(someItem.theBiv) };\n\t\tdouble const gain{ std::exp(someItem.theSca[0]) };\n\t\treturn Spinor{ gain * turn.theSca, gain * turn.theBiv };"))
rf("exp-mv-helper",
   (F, """			std::complex<double> zSinc{ 1., 0. };
			if (0. < std::abs(zRoot))
			{
				zSinc = std::sinh(zRoot) / zRoot;
			}
""", """			bool const isZero{ ! (0. < std::abs(zRoot)) };
			std::complex<double> const zSinc
				{ isZero ? std::complex<double>{ 1., 0. } : std::sinh(zRoot) / zRoot };
"""),
   (F, """			ComPlex const cenPart{ ComPlex::from(zExp * std::cosh(zRoot)) };
			DirPlex const dirPart{ ComPlex::from(zExp * zSinc) * dir };
			result = MultiVector
				{ cenPart.theSca
				, dirPart.theVec
				, dirPart.theBiv
				, cenPart.theTri
				};""", """			std::complex<double> const zCosh{ std::cosh(zRoot) };
			MultiVector const cenPart{ ComPlex::from(zCosh * zExp) };
			MultiVector const dirPart{ ComPlex::from(zSinc * zExp) * dir };
			result = cenPart + dirPart;"""))
rf("log-restructure",
   (F, """				// check if there is a rotation plane
				if (tinySin < dirSinMag)
				{
					// Rotation plane should be well defined
					BiVector const & bivDir = bivMagDir.second;
					// dirCosValue can be +/- while (0 <= dirSinMag)
					double const angleSize
						{ std::atan2(dirSinMag, dirCosValue) };
					gangle = G2Item{ logSpinMag, angleSize * bivDir };
				}
				else
				// check special case of zero rotation
				if (0. < dirCosValue)
				{
					gangle = G2Item{ logSpinMag, zero<BiVector>() };
				}
				else
				// handle special case of turnHalf
				{
					// Rotation is PI
					// - bivector direction not (or not well) defined
					// - use provided argument plane to complete rotation
					// - unitize argument for safety
					BiVector const bivDir{ direction(bivDirForImaginary) };
					gangle = G2Item{ logSpinMag, turnHalf * bivDir };
				}""", """				bool const hasPlane{ tinySin < dirSinMag };
				BiVector bivAngle{ zero<BiVector>() };
				if (hasPlane)
				{
					bivAngle = std::atan2(dirSinMag, dirCosValue) * bivMagDir.second;
				}
				else
				if (! (0. < dirCosValue))
				{
					bivAngle = turnHalf * direction(bivDirForImaginary);
				}
				gangle = G2Item{ logSpinMag, bivAngle };"""))
rf("log-early-return",
   (F, """		G2Item gangle{ null<G2Item>() }; // generalized angle (Scalar+BiVector)
		if (isValid(genSpin))
		{
			double const spinMag{ magnitude(genSpin) };
""", """		G2Item gangle{ null<G2Item>() }; // generalized angle (Scalar+BiVector)
		if (! isValid(genSpin))
		{
			return gangle;
		}
		{
			double const spinMag{ magnitude(genSpin) };
"""),
   (F, "G2Item const spinDir{ invMag * genSpin };", "G2Item const spinDir{ genSpin * invMag };"))
rf("log-unscaled-atan2",
   (F, "{ std::atan2(dirSinMag, dirCosValue) };", "{ std::atan2(magnitude(genSpin.theBiv), genSpin.theSca.theData[0]) };"))
rf("log-half-logmagsq",
   (F, "double const logSpinMag{ std::log(spinMag) };", "double const logSpinMag{ .5 * std::log(magSq(genSpin)) };"))
rf("sqrt-early-return",
   (F, """			if (spinMag < tol)
			{
				root = zero<G2Item>();
			}
			else
			{
				// use arbitrary default plane of e23 in case of -- ? TODO
				G2Item const gangle{ logG2(genSpin, bivDirForImaginary) };
				root = exp(.5 * gangle);
			}""", """			if (spinMag < tol)
			{
				return zero<G2Item>();
			}
			G2Item const gangle{ logG2(genSpin, bivDirForImaginary) };
			G2Item const halfAngle{ gangle * .5 };
			root = exp(halfAngle);"""))
rf("sq-cube",
   (F, "return { someValue * someValue * someValue };", "return { sq(someValue) * someValue };"),
   (F, "return { sq(dub) };", "return dub * dub;"))
rf("amplitude-direct",
   (F, """		std::complex<double> zSq
			{ cSq.theSca.theData[0], cSq.theTri.theData[0] };
		return ComPlex::from(std::sqrt(zSq));""", """		std::complex<double> const zAmp
			{ std::sqrt(std::complex<double>(cSq.theSca[0], cSq.theTri[0])) };
		return ComPlex{ Scalar{ zAmp.real() }, TriVector{ zAmp.imag() } };"""))
rf("valid-allof",
   (V, """		bool okay{ isValid(data[0]) };
		for (std::size_t ndx{1u} ; ndx < Dim ; ++ndx)
		{
			okay &= isValid(data[ndx]);
		}
		return okay;""", """		return std::all_of
			( data.cbegin(), data.cend()
			, [] (double const & elem) { return isValid(elem); }
			);"""),
   (V, '#include "g3traits.hpp"', '#include "g3traits.hpp"\n#include <algorithm>'))
rf("valid-fpclassify",
   (V, "return (std::isnormal(dub) || (0. == dub));", "int const kind{ std::fpclassify(dub) };\n\t\treturn (FP_NORMAL == kind) || (FP_ZERO == kind);"))
rf("valid-range",
   (V, "return (std::isnormal(dub) || (0. == dub));", "double const mag{ std::abs(dub) };\n\t\tbool const inRange{ (std::numeric_limits<double>::min() <= mag) && (mag <= std::numeric_limits<double>::max()) };\n\t\treturn inRange || (0. == dub);"))
rf("valid-early",
   (V, """		bool okay{ isValid(data[0]) };
		for (std::size_t ndx{1u} ; ndx < Dim ; ++ndx)
		{
			okay &= isValid(data[ndx]);
		}
		return okay;""", """		for (double const & elem : data)
		{
			if (! isValid(elem))
			{
				return false;
			}
		}
		return true;"""),
   (V, "{ isValid(spin.theSca) && isValid(spin.theBiv) }", "{ isValid(spin.theBiv) && isValid(spin.theSca) }"))
rf("compare-loops",
   (C, """				{ std::inner_product
					( dataRef.cbegin(), dataRef.cend(), dataRef.cbegin(), 0.)
				};""", """				{ [& dataRef]
					{
						double sum{ 0. };
						for (double const & elem : dataRef)
						{
							sum += elem * elem;
						}
						return sum;
					} ()
				};"""),
   (C, """				same = nearlyEqualsAbs(dataGot[0], dataRef[0], tol);
				for (std::size_t ndx{1u} ; (ndx < Dim) && same ; ++ndx)
				{
					same = isSmallAbsDiff(dataGot[ndx], dataRef[ndx], tol);
				}""", """				same = true;
				for (std::size_t ndx{0u} ; ndx < Dim ; ++ndx)
				{
					same = same && isSmallAbsDiff(dataGot[ndx], dataRef[ndx], tol);
				}"""),
   (C, "double const gotMagRel{ std::sqrt(magSqDif / magSqRef) };\n\t\t\t\tsame = isSmallAbs(gotMagRel, tol);", "double const gotMagRel{ std::sqrt(magSqDif) / magRef };\n\t\t\t\tsame = (gotMagRel < tol);"))
rf("compare-early",
   (C, """		bool same{ false };
		if (bothAreValid(testVal, refVal))
		{
			same = isSmallAbsDiff(testVal, refVal, tol);
		}
		return same;""", """		if (! bothAreValid(testVal, refVal))
		{
			return false;
		}
		return (std::abs(refVal - testVal) < tol);"""),
   (C, "(  nearlyEquals(itemA.theSca, itemB.theSca, tol)\n\t\t\t&& nearlyEquals(itemA.theBiv, itemB.theBiv, tol)\n", "(  nearlyEquals(itemA.theBiv, itemB.theBiv, tol)\n\t\t\t&& nearlyEquals(itemA.theSca, itemB.theSca, tol)\n"),
   (C, "double const testNorm{ testVal / refVal };\n\t\t\t\tconstexpr double refNorm{ 1. };\n\t\t\t\tsame = isSmallAbsDiff(testNorm, refNorm, tol);", "double const relDiff{ testVal / refVal - 1. };\n\t\t\t\tsame = (std::abs(relDiff) < tol);"))
rf("compare-equal-std",
   (C, """			(  (dataA[0] == dataB[0])
			&& (dataA[1] == dataB[1])
			&& (dataA[2] == dataB[2])
			);""", """			std::equal(dataA.cbegin(), dataA.cend(), dataB.cbegin());"""),
   (C, "#include <cmath>", "#include <algorithm>\n#include <cmath>"))
rf("prod-loops",
   (P, """		return std::inner_product
			( std::cbegin(argA)
			, std::cend(argA)
			, std::cbegin(argB)
			, 0.
			);""", """		double sum{ 0. };
		for (std::size_t ndx{0u} ; ndx < argA.size() ; ++ndx)
		{
			sum += argA[ndx] * argB[ndx];
		}
		return sum;"""),
   (P, """		return
			{ argA[1]*argB[2] - argA[2]*argB[1]
			, argA[2]*argB[0] - argA[0]*argB[2]
			, argA[0]*argB[1] - argA[1]*argB[0]
			};""", """		std::array<double, 3u> result{};
		for (std::size_t ndx{0u} ; ndx < 3u ; ++ndx)
		{
			std::size_t const nxt{ (ndx + 1u) % 3u };
			std::size_t const prv{ (ndx + 2u) % 3u };
			result[ndx] = argA[nxt] * argB[prv] - argB[nxt] * argA[prv];
		}
		return result;"""))
rf("prod-explicit",
   (P, """		return std::inner_product
			( std::cbegin(argA)
			, std::cend(argA)
			, std::cbegin(argB)
			, 0.
			);""", "return argA[0] * argB[0] + (argA[1] * argB[1] + argA[2] * argB[2]);"),
   (P, """		std::transform
			( std::cbegin(bladeA.theData)
			, std::cend(bladeA.theData)
			, std::cbegin(bladeB.theData)
			, std::begin(outBlade.theData)
			, op
			);""", """		for (std::size_t ndx{0u} ; ndx < outBlade.theData.size() ; ++ndx)
		{
			outBlade.theData[ndx] = op(bladeA.theData[ndx], bladeB.theData[ndx]);
		}"""))
rf("mul-vector",
   (MV, "return ImSpin{ -v2 + v1, t2 };", "return ImSpin{ v1 - v2, t2 };"),
   (MV, """		return BiVector
			{ triB.theData[0] * vecA.theData[0]
			, triB.theData[0] * vecA.theData[1]
			, triB.theData[0] * vecA.theData[2]
			};""", """		BiVector biv{};
		for (std::size_t ndx{0u} ; ndx < 3u ; ++ndx)
		{
			biv.theData[ndx] = vecA.theData[ndx] * triB.theData[0];
		}
		return biv;"""),
   (MV, "Vector const v1{ priv::prodAnti(vecA.theData, bivB.theData) };\n\t\tTriVector const t1{ priv::prodComm(vecA.theData, bivB.theData) };\n\t\treturn ImSpin{ -v1, t1 };",
    "Vector const v1{ priv::prodAnti(bivB.theData, vecA.theData) };\n\t\tTriVector const t1{ priv::prodComm(bivB.theData, vecA.theData) };\n\t\treturn ImSpin{ v1, t1 };"))
rf("mul-vecvec-split",
   (MV, "return Spinor{ dot, wedge };", "Spinor spin{ dot, zero<BiVector>() };\n\t\tspin.theBiv = wedge;\n\t\treturn spin;"))
rf("uni-loop",
   (U, """		Blade outBlade{}; // okay uninitialized, each element is filled
		std::transform
			( std::cbegin(anyBlade.theData)
			, std::cend(anyBlade.theData)
			, std::begin(outBlade.theData)
			, [] (double const & elem) { return -elem; }
			);
		return outBlade;""", """		Blade outBlade{ anyBlade };
		for (double & elem : outBlade.theData)
		{
			elem = -elem;
		}
		return outBlade;"""),
   (U, "return Spinor{ -spin.theSca, -spin.theBiv };", "Spinor out{};\n\t\tout.theBiv = -spin.theBiv;\n\t\tout.theSca = -spin.theSca;\n\t\treturn out;"))
rf("type-subscript",
   (T, """			if (ndx < 3u)
			{
				return theData[ndx];
			}
			else
			{
				return priv::sGlobalNaN;
			}""", """			return (ndx < theData.size()) ? theData[ndx] : priv::sGlobalNaN;"""),
   (T, """			if (ndx < 1u)
			{
				return theData[0];
			}
			else
			{
				return priv::sGlobalNaN;
			}""", """			switch (ndx)
			{
				case 0u: return theData.front();
				default: break;
			}
			return priv::sGlobalNaN;"""))
rf("traits-issame",
   (TR, "template <typename Type>\n\tstruct Vector : std::false_type\n\t{\n\t};", "template <typename Type>\n\tstruct Vector : std::is_same<Type, g3::Vector>\n\t{\n\t};"),
   (TR, "	template <> struct Vector<g3::Vector> : std::true_type {};\n", ""))
rf("traits-bool-constant",
   (TR, "template <> struct blade<Scalar> : std::true_type {};", "template <> struct blade<Scalar> { static constexpr bool value{ true }; };"),
   (TR, "template <> struct blade<Vector> : std::true_type {};", "template <> struct blade<Vector> : std::bool_constant<true> {};"))
rf("io-fieldwidth",
   (IO, """		std::size_t const numField
			{ 1u // sign
			+ 1u // leading digit
			+ 1u // decimal
			+ 1u // 'e'
			+ 1u // sign
			+ 2u // exp digits
			+ numDigits
			};
		ostrm
			<< std::setw(numField)
			<< std::scientific
			<< std::setprecision(numDigits)
			;""", """		constexpr std::size_t numOverhead{ 7u };
		ostrm.precision(static_cast<std::streamsize>(numDigits));
		ostrm.setf(std::ios_base::scientific, std::ios_base::floatfield);
		ostrm.width(static_cast<std::streamsize>(numDigits + numOverhead));"""))
rf("io-put-index",
   (IO, """		for (double const & elem : elems)
		{
			// using engabra::g3::io::operator<<() for fmt
			oss << fmt << elem;
		}
		ostrm << oss.str();""", """		for (std::size_t ndx{0u} ; ndx < Dim ; ++ndx)
		{
			fmt.prepareFixed(oss);
			oss << elems[ndx];
		}
		std::string const text{ oss.str() };
		ostrm << text;"""))
rf("io-put-direct",
   (IO, "ostrm << spin.theSca << \" \" << spin.theBiv;\n\t\treturn ostrm;", "ostrm << spin.theSca;\n\t\tostrm << ' ';\n\t\treturn ostrm << spin.theBiv;"),
   (IO, "ostrm << imsp.theVec << \" \" << imsp.theTri;\n\t\treturn ostrm;", "std::ostringstream oss;\n\t\toss << imsp.theVec << \" \" << imsp.theTri;\n\t\tostrm << oss.str();\n\t\treturn ostrm;"))
rf("io-enote-sep",
   (IO, """			if (0u < ndx)
			{
				oss << " ";
			}
			priv::prepareEnote(oss, digAfter);
			oss << blade[ndx];""", """			oss << ((0u < ndx) ? " " : "");
			priv::prepareEnote(oss, digAfter);
			oss << blade.theData[ndx];"""))
rf("io-enote-concat",
   (IO, """		std::stringstream oss;
		oss
			<< enote<Scalar>(spin.theSca, digAfter)
			<< "  "
			<< enote<BiVector>(spin.theBiv, digAfter)
			;
		return oss.str();""", """		return enote<Scalar>(spin.theSca, digAfter) + "  " + enote<BiVector>(spin.theBiv, digAfter);"""))
rf("io-in-loop",
   (IO, """		istrm >> data[0];
		bool okay{ isInputOkay(istrm, data[0]) };
		for (std::size_t ndx{1u}
			; okay && (ndx < Dim) ; ++ndx)
		{
			istrm >> data[ndx];
			okay = isInputOkay(istrm, data[ndx]);
		}
		if (! okay) // if anything went wrong...
		{
			// place all null data into entire return instance
			std::fill(data.begin(), data.end(), engabra::g3::nan);
		}
		return istrm;""", """		for (double & elem : data)
		{
			istrm >> elem;
			if (! isInputOkay(istrm, elem))
			{
				data.fill(engabra::g3::nan);
				break;
			}
		}
		return istrm;"""))
rf("io-in-temp",
   (IO, """		istrm >> data[0];
		bool okay{ isInputOkay(istrm, data[0]) };
		for (std::size_t ndx{1u}
			; okay && (ndx < Dim) ; ++ndx)
		{
			istrm >> data[ndx];
			okay = isInputOkay(istrm, data[ndx]);
		}
		if (! okay) // if anything went wrong...
		{
			// place all null data into entire return instance
			std::fill(data.begin(), data.end(), engabra::g3::nan);
		}
		return istrm;""", """		std::array<double, Dim> values{};
		values.fill(engabra::g3::nan);
		bool okay{ true };
		for (std::size_t ndx{0u} ; okay && (ndx < Dim) ; ++ndx)
		{
			double value{ engabra::g3::nan };
			istrm >> value;
			okay = isInputOkay(istrm, value);
			values[ndx] = value;
		}
		if (! okay)
		{
			for (double & value : values)
			{
				value = engabra::g3::nan;
			}
		}
		data = values;
		return istrm;"""))
rf("io-in-chain",
   (IO, "istrm >> spin.theSca.theData;\n\t\tistrm >> spin.theBiv.theData;\n\t\treturn istrm;", "return istrm >> spin.theSca.theData >> spin.theBiv.theData;"),
   (IO, "			(  (! istrm.fail())\n\t\t\t&& isValid(value)\n", "			(  isValid(value)\n\t\t\t&& static_cast<bool>(istrm)\n"))


# ---- operators, types, constants, text
rf("uni-std-negate", (U, "[] (double const & elem) { return -elem; }", "std::negate<double>{}"), (U, "#include <algorithm>", "#include <algorithm>\n#include <functional>"))
rf("uni-via-involution", (U, "return BiVector{ -biv.theData[0], -biv.theData[1], -biv.theData[2] };", "return -biv;"),
   (U, "return Vector{ -vec.theData[0], -vec.theData[1], -vec.theData[2] };", "return -vec;"))
rf("uni-copy-modify", (U, """		return ImSpin
			{ oddverse(imsp.theVec)
			, oddverse(imsp.theTri)
			};""", """		ImSpin flipped{ imsp };
		flipped.theVec = oddverse(imsp.theVec);
		flipped.theTri = oddverse(imsp.theTri);
		return flipped;"""))
rf("dual-loop", (U, """		return Vector
			{ - biv.theData[0]
			, - biv.theData[1]
			, - biv.theData[2]
			};""", """		Vector vec{};
		for (std::size_t ndx{0u} ; ndx < 3u ; ++ndx)
		{
			vec.theData[ndx] = -biv.theData[ndx];
		}
		return vec;"""), (U, "return BiVector{ vec.theData };", "BiVector biv{};\n\t\tbiv.theData = vec.theData;\n\t\treturn biv;"))
rf("elementwise-plus", ("g3opsAdd_same.hpp", """			, [] (double const & elemA, double const & elemB)
				{ return elemA+elemB; }""", "\t\t\t, std::plus<double>{}"), ("g3opsAdd_same.hpp", "#include <numeric>", "#include <numeric>\n#include <functional>"),
   ("g3opsSub_same.hpp", "{ return elemA-elemB; }", "{ double const dif{ elemA - elemB }; return dif; }"))
rf("elementwise-index", (P, """		BladeType outBlade{}; // okay uninitialized, each element is filled
		std::transform
			( std::cbegin(bladeA.theData)
			, std::cend(bladeA.theData)
			, std::cbegin(bladeB.theData)
			, std::begin(outBlade.theData)
			, op
			);
		return outBlade;""", """		BladeType outBlade(bladeA);
		std::size_t const numElem{ outBlade.theData.size() };
		std::size_t ndx{ numElem };
		while (0u < ndx)
		{
			--ndx;
			outBlade.theData[ndx] = op(bladeA.theData[ndx], bladeB.theData[ndx]);
		}
		return outBlade;"""))
rf("sub-same-via-neg", ("g3opsSub_same.hpp", "{ spinA.theSca - spinB.theSca\n\t\t\t, spinA.theBiv - spinB.theBiv\n\t\t\t}", "{ spinA.theSca + (-spinB.theSca)\n\t\t\t, spinA.theBiv + (-spinB.theBiv)\n\t\t\t}"))
rf("sub-forward-explicit", ("g3opsSub_Spinor.hpp", """			{ spin.theSca - mv.theSca
			, -mv.theVec
			, spin.theBiv - mv.theBiv
			, -mv.theTri
			};""", """			{ Scalar{ spin.theSca.theData[0] - mv.theSca.theData[0] }
			, oddverse(mv.theVec)
			, -(mv.theBiv - spin.theBiv)
			, reverse(mv.theTri)
			};"""))
rf("add-mv-explicit", ("g3opsAdd_MultiVector.hpp", "return sca + mv;", "MultiVector sum{ mv };\n\t\tsum.theSca = sca + mv.theSca;\n\t\treturn sum;"),
   ("g3opsAdd_MultiVector.hpp", "return spin + mv;", "return MultiVector{ mv.theSca + spin.theSca, mv.theVec, mv.theBiv + spin.theBiv, mv.theTri };"),
   ("g3opsAdd_MultiVector.hpp", "return cplx + mv;", "return MultiVector{ mv.theSca + cplx.theSca, mv.theVec, mv.theBiv, mv.theTri + cplx.theTri };"))
rf("mul-biv-explicit", ("g3opsMul_BiVector.hpp", """		Vector const anti{ priv::prodAnti(bivA.theData, vecB.theData) };
		TriVector const symm{ priv::prodComm(bivA.theData, vecB.theData) };
		return ImSpin{ -anti, symm };""", """		std::array<double, 3u> const & biv = bivA.theData;
		std::array<double, 3u> const & vec = vecB.theData;
		return ImSpin
			{ Vector{ priv::prodAnti(vec, biv) }
			, TriVector{ vec[2]*biv[2] + vec[1]*biv[1] + vec[0]*biv[0] }
			};"""),
   ("g3opsMul_BiVector.hpp", """		BiVector const & b1 = bivA;
		double const & s2 = spinB.theSca.theData[0];
		BiVector const & b2 = spinB.theBiv;
		// bivA * spinB.theSca
		BiVector const biv_b1s2
			{ b1.theData[0] * s2
			, b1.theData[1] * s2
			, b1.theData[2] * s2
			};
		// bivA * spinB.theBiv (b1 * b2) -- negative signs in return
		Scalar const sca_b1b2{ priv::prodComm(b1.theData, b2.theData) };
		BiVector const biv_b1b2{ priv::prodAnti(b1.theData, b2.theData) };
		return Spinor
			{ -sca_b1b2
			, BiVector
				{ biv_b1s2.theData[0] - biv_b1b2.theData[0]
				, biv_b1s2.theData[1] - biv_b1b2.theData[1]
				, biv_b1s2.theData[2] - biv_b1b2.theData[2]
				}
			};""", """		Spinor product{ bivA * spinB.theBiv };
		for (std::size_t ndx{0u} ; ndx < 3u ; ++ndx)
		{
			product.theBiv.theData[ndx] += bivA.theData[ndx] * spinB.theSca.theData[0];
		}
		return product;"""))
rf("mul-mv-by-parts", ("g3opsMul_MultiVector.hpp", """		Vector const vec1{ mvA.theSca * vecB };
		Spinor const spin1{ mvA.theVec * vecB };
		ImSpin const imsp1{ mvA.theBiv * vecB };
		BiVector const biv1{ mvA.theTri * vecB };
		return MultiVector
			{ spin1.theSca
			, vec1 + imsp1.theVec
			, biv1 + spin1.theBiv
			, imsp1.theTri
			};""", """		ImSpin const fromEven{ Spinor{ mvA.theSca, mvA.theBiv } * vecB };
		Spinor const fromOdd{ ImSpin{ mvA.theVec, mvA.theTri } * vecB };
		return MultiVector{ fromOdd.theSca, fromEven.theVec, fromOdd.theBiv, fromEven.theTri };"""))
rf("mul-spin-by-parts", ("g3opsMul_Spinor.hpp", "		Scalar const scaC{ alpha*beta - symmAB };\n		BiVector const bivC{ alpha*bivB + beta*bivA - antiAB };", "		Scalar const scaC{ -(symmAB - alpha*beta) };\n		BiVector const bivC{ (beta*bivA - antiAB) + alpha*bivB };"),
   ("g3opsMul_Spinor.hpp", "		ImSpin const imsp1{ spinA.theSca.theData[0] * imspB };\n		ImSpin const imsp2{ spinA.theBiv * imspB };\n		return { imsp1 + imsp2 };", "		return spinA.theSca * imspB + spinA.theBiv * imspB;"),
   ("g3opsMul_Spinor.hpp", "		return ImSpin{ v1 - v2, t1 };", "		ImSpin result{ v1, t1 };\n		std::transform(v1.theData.begin(), v1.theData.end(), v2.theData.begin(), result.theVec.theData.begin(), std::minus<>());\n		return result;"))
rf("subscript-switch", (T, """			if (ndx < 1u) // {0}
			{
				return theSca.theData[0];
			}
			else
			if (ndx < 4u) // {1,2,3}
			{
				return theVec.theData[ndx-1u]; // 0,1,2
			}
			else
			if (ndx < 7u) // {4,5,6}
			{
				return theBiv.theData[ndx-4u]; // 0,1,2
			}
			else // {7, ...}
			{
				return theTri.theData[0];
			}""", """			switch (ndx)
			{
				case 0u: return theSca.theData[0];
				case 1u: return theVec.theData[0];
				case 2u: return theVec.theData[1];
				case 3u: return theVec.theData[2];
				case 4u: return theBiv.theData[0];
				case 5u: return theBiv.theData[1];
				case 6u: return theBiv.theData[2];
				default: return theTri.theData[0];
			}"""))
rf("subscript-ternary", (T, """			if (ndx < 3u)
			{
				return theData[ndx];
			}
			else
			{
				return priv::sGlobalNaN;
			}""", "\t\t\treturn (ndx < theData.size()) ? theData[ndx] : priv::sGlobalNaN;"),
   (T, """			if (ndx < 1u)
			{
				return theData[0];
			}
			else
			{
				return priv::sGlobalNaN;
			}""", "\t\t\tdouble const * found{ & priv::sGlobalNaN };\n\t\t\tif (0u == ndx) { found = theData.data(); }\n\t\t\treturn *found;"))
rf("subscript-table", (T, """			if (ndx < 1u)
			{
				return theSca.theData[0];
			}
			else
			if (ndx < 2u)
			{
				return theTri.theData[0];
			}
			else
			{
				return priv::sGlobalNaN;
			}""", """			double const * const elems[2]{ &theSca.theData[0], &theTri.theData[0] };
			return (ndx < 2u) ? *elems[ndx] : priv::sGlobalNaN;"""))
rf("ctor-delegate", (T, """			: theSca{ spin.theSca }
			, theVec{ 0., 0., 0. }
			, theBiv{ spin.theBiv }
			, theTri{ 0. }
		{ }""", """			: MultiVector{ spin.theSca, Vector{ 0., 0., 0. }, spin.theBiv, TriVector{ 0. } }
		{ }"""), (T, """			: theSca{ sca0 }
			, theVec{ vec0, vec1, vec2 }
			, theBiv{ biv0, biv1, biv2 }
			, theTri{ tri0 }
		{ }""", """			: theSca{ sca0 }
			, theVec{ vec0, vec1, vec2 }
			, theTri{ tri0 }
		{
			theBiv = BiVector{ biv0, biv1, biv2 };
		}"""))
rf("complex-cast", (T, "return std::complex<double>{ theSca.theData[0], theTri.theData[0] };", "std::complex<double> value;\n\t\t\tvalue.real(theSca.theData[0]);\n\t\t\tvalue.imag(theTri.theData[0]);\n\t\t\treturn value;"),
   (T, "				{ Scalar{ std::real(stdcplx) }\n				, TriVector{ std::imag(stdcplx) }", "				{ Scalar{ stdcplx.real() }\n				, TriVector{ stdcplx.imag() }"))
rf("const-literals", ("g3const.hpp", "constexpr double piHalf{ .5 * pi };", "constexpr double piHalf{ pi / 2. };"), ("g3const.hpp", "constexpr double piQtr{ .5 * piHalf };", "constexpr double piQtr{ .25 * pi };"),
   ("g3const.hpp", "constexpr double turnFull{ 2.*pi };", "constexpr double turnFull{ pi + pi };"))
rf("compare-ifs", (C, """		return
			(  nearlyEquals(itemA.theSca, itemB.theSca, tol)
			&& nearlyEquals(itemA.theVec, itemB.theVec, tol)
			&& nearlyEquals(itemA.theBiv, itemB.theBiv, tol)
			&& nearlyEquals(itemA.theTri, itemB.theTri, tol)
			);""", """		bool same{ nearlyEquals(itemA.theTri, itemB.theTri, tol) };
		same = nearlyEquals(itemA.theSca, itemB.theSca, tol) && same;
		if (same)
		{
			same = nearlyEquals(itemA.theVec, itemB.theVec, tol);
		}
		if (! same)
		{
			return false;
		}
		return nearlyEquals(itemA.theBiv, itemB.theBiv, tol);"""))
rf("compare-norms", (C, "double const gotMagRel{ std::sqrt(magSqDif / magSqRef) };", "double const gotMagRel{ std::sqrt(magSqDif) / magRef };"))
rf("sq-noinit", (F, "return { someValue * someValue * someValue };", "Type const square{ someValue * someValue };\n\t\treturn { square * someValue };"))
rf("io-manip-members", (IO, """			ostrm
				<< " "   // force a leading space
				<< std::fixed
				<< std::setprecision(theNumDigFrac)
				<< std::setw(fieldWide())
				;""", """			ostrm << ' ';
			ostrm.setf(std::ios_base::fixed, std::ios_base::floatfield);
			ostrm.precision(static_cast<std::streamsize>(theNumDigFrac));
			ostrm.width(static_cast<std::streamsize>(fieldWide()));"""))
rf("io-enote-members", (IO, """		ostrm
			<< std::setw(numField)
			<< std::scientific
			<< std::setprecision(numDigits)
			;""", """		ostrm.setf(std::ios_base::scientific, std::ios_base::floatfield);
		ostrm << std::setprecision(numDigits);
		ostrm.width(numField);"""))
rf("io-fixed-string", (IO, """		std::stringstream oss;

		for (std::size_t ndx{0u} ; ndx < blade.theData.size() ; ++ndx)
		{
			// spaces are handled by fixed()
			oss << fixed(blade[ndx], digBefore, digAfter);
		}
		return oss.str();""", """		std::string text;
		for (double const & elem : blade.theData)
		{
			text += fixed(elem, digBefore, digAfter);
		}
		return text;"""))
rf("io-out-helper", (IO, "ostrm << spin.theSca << \" \" << spin.theBiv;\n\t\treturn ostrm;", "return (ostrm << spin.theSca << ' ' << spin.theBiv);"),
   (IO, """		ostrm
			<< mv.theSca
			<< " " << mv.theVec
			<< " " << mv.theBiv
			<< " " << mv.theTri
			;
		return ostrm;""", """		char const * const gap{ " " };
		ostrm << mv.theSca << gap;
		ostrm << mv.theVec << gap;
		ostrm << mv.theBiv << gap << mv.theTri;
		return ostrm;"""))
rf("io-in-while", (IO, """		istrm >> data[0];
		bool okay{ isInputOkay(istrm, data[0]) };
		for (std::size_t ndx{1u}
			; okay && (ndx < Dim) ; ++ndx)
		{
			istrm >> data[ndx];
			okay = isInputOkay(istrm, data[ndx]);
		}
		if (! okay) // if anything went wrong...
		{
			// place all null data into entire return instance
			std::fill(data.begin(), data.end(), engabra::g3::nan);
		}""", """		bool okay{ true };
		for (double & elem : data)
		{
			if (! (istrm >> elem))
			{
				okay = false;
				break;
			}
			if (! engabra::g3::isValid(elem))
			{
				okay = false;
				break;
			}
		}
		if (okay)
		{
			return istrm;
		}
		data.fill(engabra::g3::nan);"""))
rf("io-in-operator", (IO, "			(  (! istrm.fail())\n			&& isValid(value)\n			);", "			isValid(value) && static_cast<bool>(istrm);"))
rf("func-helper-amp", (F, "return ComPlex{ Scalar{ -magSq(vec) }, zero<TriVector>() };", "double const negSq{ -magSq(vec) };\n\t\treturn ComPlex{ Scalar{ negSq }, TriVector{ 0. } };"),
   (F, "return ComPlex{ Scalar{ magSq(biv) }, zero<TriVector>() };", "ComPlex amp{ Scalar{ 0. }, TriVector{ 0. } };\n\t\tamp.theSca = Scalar{ magSq(biv) };\n\t\treturn amp;"))
rf("magnitude-helper", (F, "return std::sqrt(magSq(element));", "double const sumSq{ magSq(element) };\n\t\tdouble const mag{ std::sqrt(sumSq) };\n\t\treturn mag;"))
rf("exp-hyp", (F, "spin = Spinor{ std::cos(mag), std::sin(mag)*dir };", "double const sinc{ std::sin(mag) / mag };\n\t\t\t\tspin = Spinor{ std::cos(mag), sinc * spinAngle };"))
rf("add-reuse-temporary", ("g3opsAdd_same.hpp", "	//! (DirPlex) result of (DirPlex) + (DirPlex)\n", """	//! (ComPlex) result of (ComPlex) + (ComPlex) reusing a temporary
	inline
	ComPlex
	operator+
		( ComPlex && cplxA
		, ComPlex const & cplxB
		)
	{
		cplxA.theSca.theData[0] += cplxB.theSca.theData[0];
		cplxA.theTri.theData[0] += cplxB.theTri.theData[0];
		return std::move(cplxA);
	}

	//! (DirPlex) result of (DirPlex) + (DirPlex)
"""))
rf("assert-config", ("g3opsAdd_same.hpp", "		return ComPlex\n			{ cplxA.theSca + cplxB.theSca", "#ifndef NDEBUG\n		double const sum{ cplxA.theSca[0] + cplxB.theSca[0] };\n		static_cast<void>(sum);\n#endif\n		return ComPlex\n			{ cplxA.theSca + cplxB.theSca"))
rf("sqrt-ternary", (F, "root = exp(.5 * gangle);", "Spinor const half{ .5 * gangle.theSca, .5 * gangle.theBiv };\n\t\t\t\troot = exp(half);"))

PC3 = "		return std::inner_product\n			( std::cbegin(argA)\n			, std::cend(argA)\n			, std::cbegin(argB)\n			, 0.\n			);"
rf("prod-fold", (P, PC3, "		return sumOfProducts(argA, argB, std::make_index_sequence<3u>{});"),
   (P, "	inline\n	double\n	prodComm\n		( std::array<double, 3u> const & argA", "	template <std::size_t... Ndx>\n	inline\n	double\n	sumOfProducts\n		( std::array<double, 3u> const & argA\n		, std::array<double, 3u> const & argB\n		, std::index_sequence<Ndx...>\n		)\n	{\n		return ((argA[Ndx] * argB[Ndx]) + ...);\n	}\n\n	//! Commutative product of triples\n	inline\n	double\n	prodComm\n		( std::array<double, 3u> const & argA"))
rf("prod-at-fma", (P, PC3, "		return std::fma(argA.at(0u), argB.at(0u), std::fma(argA.at(1u), argB.at(1u), argA.at(2u) * argB.at(2u)));"), (P, "namespace engabra\n", "#include <cmath>\n\nnamespace engabra\n"))
rf("prod-function-pointer", (P, PC3, "		using Op = double (*)(double, double);\n		Op const times{ [] (double a, double b) { return a * b; } };\n		double sum{ 0. };\n		for (auto itA = argA.begin(), itB = argB.begin() ; argA.end() != itA ; ++itA, ++itB)\n		{\n			sum += times(*itA, *itB);\n		}\n		return sum;"))
rf("prod-std-function", (P, PC3, "		std::function<double(std::size_t)> const term{ [&] (std::size_t const & ndx) { return argA[ndx] * argB[ndx]; } };\n		return term(0u) + term(1u) + term(2u);"), (P, "namespace engabra\n", "#include <functional>\n\nnamespace engabra\n"))
rf("put-vector-join", (IO, "		std::ostringstream oss;\n		for (double const & elem : elems)\n		{\n			// using engabra::g3::io::operator<<() for fmt\n			oss << fmt << elem;\n		}\n		ostrm << oss.str();", "		std::string text;\n		for (double const & elem : elems)\n		{\n			std::ostringstream oss;\n			oss << fmt << elem;\n			text += oss.str();\n		}\n		ostrm << text;"))
rf("put-direct", (IO, "		std::ostringstream oss;\n		for (double const & elem : elems)\n		{\n			// using engabra::g3::io::operator<<() for fmt\n			oss << fmt << elem;\n		}\n		ostrm << oss.str();", "		std::vector<std::string> texts;\n		for (double const & elem : elems)\n		{\n			std::ostringstream oss;\n			oss << fmt << elem;\n			texts.push_back(oss.str());\n		}\n		for (std::string const & text : texts)\n		{\n			ostrm << text;\n		}"), (IO, "#include <sstream>", "#include <sstream>\n#include <vector>"))
rf("valid-memcpy", (V, "			{  isValid<Scalar>(mv.theSca)\n			&& isValid<Vector>(mv.theVec)\n			&& isValid<BiVector>(mv.theBiv)\n			&& isValid<TriVector>(mv.theTri)\n			};", "			[& mv] ()\n			{\n				std::array<double, 8u> all;\n				static_assert(sizeof(all) == sizeof(mv), \"layout\");\n				std::memcpy(all.data(), &mv, sizeof(all));\n				return isValid(all);\n			} ();"), (V, '#include "g3const.hpp"', '#include <cmath>\n#include <cstring>\n#include <array>\n#include "g3const.hpp"'))
rf("valid-none-of", (V, "		bool okay{ isValid(data[0]) };\n		for (std::size_t ndx{1u} ; ndx < Dim ; ++ndx)\n		{\n			okay &= isValid(data[ndx]);\n		}\n		return okay;", "		return std::none_of(data.cbegin(), data.cend(), [] (double const & elem) { return ! isValid(elem); });"), (V, '#include "g3const.hpp"', '#include <cmath>\n#include <algorithm>\n#include "g3const.hpp"'))
rf("valid-limits", (V, "		return (std::isnormal(dub) || (0. == dub));", "		double const size{ std::abs(dub) };\n		using Lim = std::numeric_limits<double>;\n		return (0. == dub) || ((Lim::min() <= size) && (size <= Lim::max()));"), (V, '#include "g3const.hpp"', '#include <cmath>\n#include <limits>\n#include "g3const.hpp"'))
rf("magdir-tie", (F, "			std::pair<double, BiVector> const magdir\n				{ pairMagDirFrom(spinAngle) };\n			double const & mag = magdir.first;\n			BiVector const & dir = magdir.second;", "			double mag{};\n			BiVector dir{};\n			std::tie(mag, dir) = pairMagDirFrom(spinAngle);"), (F, '#include "g3ops.hpp"\n', '#include <tuple>\n#include <utility>\n\n#include "g3ops.hpp"\n'))
rf("inverse-optional", (F, "		double const mag2{ magSq(someItem) };", "		auto const invOf{ [] (double const & value) -> std::optional<double>\n			{\n				constexpr double tiny{ std::numeric_limits<double>::min() };\n				if (tiny < value) { return 1. / value; }\n				return std::nullopt;\n			} };\n		if (std::optional<double> const scale{ invOf(magSq(someItem)) } ; scale)\n		{\n			return Type{ (*scale) * reverse(someItem) };\n		}\n		double const mag2{ magSq(someItem) };"), (F, '#include "g3ops.hpp"\n', '#include <optional>\n\n#include "g3ops.hpp"\n'))
rf("amplitude-closed-form", (F, "		return ComPlex::from(std::sqrt(zSq));", "		double const re{ std::real(zSq) };\n		double const im{ std::imag(zSq) };\n		double const mag{ std::hypot(re, im) };\n		if (0. == mag)\n		{\n			return ComPlex{ 0., im };\n		}\n		double const big{ std::sqrt(.5 * (mag + std::abs(re))) };\n		double const small{ (.5 * im) / big };\n		return (0. <= re) ? ComPlex{ big, small } : ComPlex{ std::abs(small), std::copysign(big, im) };"))
rf("neg-times-minus-one", (U, "	inline\n	Blade\n	operator-\n		( Blade const & anyBlade\n		)\n	{\n", "	inline\n	Blade\n	operator-\n		( Blade const & anyBlade\n		)\n	{\n		if (true)\n		{\n			Blade result{ anyBlade };\n			for (double & elem : result.theData)\n			{\n				elem *= -1.;\n			}\n			return result;\n		}\n"))
rf("neg-copysign", (U, "	inline\n	Blade\n	operator-\n		( Blade const & anyBlade\n		)\n	{\n", "	inline\n	Blade\n	operator-\n		( Blade const & anyBlade\n		)\n	{\n		if (true)\n		{\n			Blade result{ anyBlade };\n			for (double & elem : result.theData)\n			{\n				elem = std::signbit(elem) ? std::abs(elem) : -std::abs(elem);\n			}\n			return result;\n		}\n"), (U, "#include <algorithm>\n\nnamespace", "#include <algorithm>\n#include <cmath>\n\nnamespace"))
rf("fixed-concat", (IO, "		std::stringstream oss;\n		oss\n			<< fixed<Scalar>(spin.theSca, digBefore, digAfter)\n			<< \"  \"\n			<< fixed<BiVector>(spin.theBiv, digBefore, digAfter)\n			;\n		return oss.str();", "		std::string text{ fixed(spin.theSca, digBefore, digAfter) };\n		text.append(2u, ' ');\n		text += fixed(spin.theBiv, digBefore, digAfter);\n		return text;"))
rf("enote-snprintf", (IO, "		std::stringstream oss;\n		priv::prepareEnote(oss, digAfter);\n		oss << dub;\n		return oss.str();", "		char buf[512];\n		std::snprintf(buf, sizeof(buf), \"%*.*e\", static_cast<int>(7u + digAfter), static_cast<int>(digAfter), dub);\n		return std::string{ buf };"), (IO, "#include <sstream>", "#include <sstream>\n#include <cstdio>"))
rf("in-local-array", (IO, "		istrm >> data[0];\n		bool okay{ isInputOkay(istrm, data[0]) };\n		for (std::size_t ndx{1u}\n			; okay && (ndx < Dim) ; ++ndx)\n		{\n			istrm >> data[ndx];\n			okay = isInputOkay(istrm, data[ndx]);\n		}\n		if (! okay) // if anything went wrong...\n		{\n			// place all null data into entire return instance\n			std::fill(data.begin(), data.end(), engabra::g3::nan);\n		}\n		return istrm;", "		std::array<double, Dim> local;\n		local.fill(engabra::g3::nan);\n		std::size_t count{ 0u };\n		while (count < Dim)\n		{\n			double value{ 0. };\n			if (! (istrm >> value))\n			{\n				break;\n			}\n			if (! engabra::g3::isValid(value))\n			{\n				break;\n			}\n			local[count++] = value;\n		}\n		if (count < Dim)\n		{\n			local.fill(engabra::g3::nan);\n		}\n		data = local;\n		return istrm;"))
rf("noexcept-everywhere", (F, "	inline\n	Spinor\n	exp\n		( BiVector const & spinAngle\n		)\n	{", "	inline\n	Spinor\n	exp\n		( BiVector const & spinAngle\n		) noexcept\n	{"), (F, "		( Type const & element\n		)\n", "		( Type const & element\n		) noexcept\n"), (P, "		, std::array<double, 3u> const & argB\n		)\n", "		, std::array<double, 3u> const & argB\n		) noexcept\n"))
rf("traits-if-constexpr", (F, "		return priv::prodComm(blade.theData, blade.theData);", "		if constexpr (1u == std::tuple_size<decltype(Blade::theData)>::value)\n		{\n			return sq(blade.theData[0]);\n		}\n		else\n		{\n			return priv::prodComm(blade.theData, blade.theData);\n		}"))
rf("traits-disjunction", (TR, "	struct blade : std::false_type\n", "	struct blade : std::bool_constant\n		<  std::is_same_v<Type, g3::Scalar> || std::is_same_v<Type, g3::Vector>\n		|| std::is_same_v<Type, g3::BiVector> || std::is_same_v<Type, g3::TriVector>\n		>\n"))
rf("subscript-offset-of", (T, "			if (ndx < 3u)\n			{\n				return theData[ndx];\n			}\n			else\n			{\n				return priv::sGlobalNaN;\n			}", "			double const * ptr{ &priv::sGlobalNaN };\n			switch (ndx)\n			{\n				case 0u: ptr = theData.data(); break;\n				case 1u: ptr = theData.data() + 1; break;\n				case 2u: ptr = theData.data() + 2; break;\n				default: break;\n			}\n			return *ptr;"))
rf("near-sorted-cases", (C, "			if (std::abs(refVal) < tolToZero)\n			{\n				// if so, do direct compare\n				same = isSmallAbsDiff(testVal, refVal, tol);\n			}", "			bool const hasSize{ ! (std::abs(refVal) < tolToZero) };\n			if (! hasSize)\n			{\n				same = (-tol < (testVal - refVal)) && ((testVal - refVal) < tol);\n			}"))
rf("near-array-hypot", (C, "				double const gotMagRel{ std::sqrt(magSqDif / magSqRef) };", "				double const gotMagRel{ std::sqrt(magSqDif) / magRef };"))


def run(i, edits, props):
    d = f"/tmp/rf/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/include", d + "/include")
    for f, a, b in edits:
        p = f"{d}/include/{f}"
        s = open(p).read()
        if a not in s:
            print(i, "EDIT DOES NOT APPLY", f, a[:60].strip())
            continue
        open(p, "w").write(s.replace(a, b))

    def one(p):
        t = time.time()
        r = subprocess.run(["python3-vt", "check.py", p, "--tier", "quick"], cwd="/tmp/rf/verif", capture_output=True, text=True,
                           env={**os.environ, "VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        return p, r, time.time() - t
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, props))
    bad = []
    for p, r, t in rs:
        und = [x.strip() for x in r.stdout.split("\n") if "undischarged:" in x]
        if r.returncode or und or t > 200:
            bad.append(f"{p} rc={r.returncode} {t:.0f}s " + " | ".join(x.strip()[:260] for x in (r.stdout + r.stderr).split("\n") if "failed obl" in x or "VIOLATION" in x or "undischarged:" in x)[:900]
                       + ("" if r.returncode < 2 else (r.stdout + r.stderr)[-400:]))
    print(i, "OK" if not bad else "\n   " + "\n   ".join(bad), flush=True)
    shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    props = [x for x in a if x[0] == "P" and x[1:].isdigit()] or [f"P{k:02d}" for k in range(1, 24)]
    ids = [x for x in a if not (x[0] == "P" and x[1:].isdigit())]
    os.makedirs("/tmp/rf", exist_ok=True)
    shutil.rmtree("/tmp/rf/verif", ignore_errors=True)
    shutil.copytree("/verif", "/tmp/rf/verif", ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__"))
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda r: run(*r, props), [r for r in R if not ids or r[0] in ids]))


if __name__ == "__main__":
    main()
