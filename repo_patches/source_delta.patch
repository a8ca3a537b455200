From 196c9d31262cb60335c5947c66405faf7baab3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:03 +0000
Subject: [PATCH 01/94] fix: Polynomials::Bernstein runs all de Casteljau
 levels for interior indices

---
 src/LNLib/Algorithm/Polynomials.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index 124a398..b9fc014 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -49,7 +49,7 @@ double Polynomials::Bernstein(int index, int degree, double paramT)
 	temp[degree - index] = 1.0;
 	double t1 = 1.0 - paramT;
 
-	for (int k = index; k <= degree; k++)
+	for (int k = 1; k <= degree; k++)
 	{
 		for (int j = degree; j >= k; j--)
 		{
-- 
2.43.0


From 4241faed5350256456c853fe560ad4d59609264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:17 +0000
Subject: [PATCH 02/94] fix: BezierCurve::GetPointOnQuadraticArc uses each
 point's own homogeneous coordinates

---
 src/LNLib/Geometry/Curve/BezierCurve.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index 443de54..52f01ac 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -27,13 +27,13 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 	VALIDATE_ARGUMENT_RANGE(paramT, 0, 1);
 
 	double w0 = startPoint.GetW();
-	XYZ P0 = XYZ(startPoint.GetWX()/w0, startPoint.GetWY()/w0, startPoint.GetWZ()/w0);
+	XYZ P0 = XYZ(startPoint.GetWX(), startPoint.GetWY(), startPoint.GetWZ());
 	double w1 = middlePoint.GetW();
-	XYZ P1 = XYZ(middlePoint.GetWX() / w0, middlePoint.GetWY() / w0, middlePoint.GetWZ() / w0);
+	XYZ P1 = XYZ(middlePoint.GetWX(), middlePoint.GetWY(), middlePoint.GetWZ());
 	double w2 = endPoint.GetW();
-	XYZ P2 = XYZ(endPoint.GetWX() / w0, endPoint.GetWY() / w0, endPoint.GetWZ() / w0);
+	XYZ P2 = XYZ(endPoint.GetWX(), endPoint.GetWY(), endPoint.GetWZ());
 
-	return  ((1 - paramT) * (1 - paramT) * w0 * P0 + 2 * paramT * (1 - paramT) * w1 * P1 + paramT * paramT * w2 * P2) / ((1 - paramT) * (1 - paramT) * w0 + 2 * paramT * (1 - paramT) * w1 + paramT * paramT * w2);
+	return  ((1 - paramT) * (1 - paramT) * P0 + 2 * paramT * (1 - paramT) * P1 + paramT * paramT * P2) / ((1 - paramT) * (1 - paramT) * w0 + 2 * paramT * (1 - paramT) * w1 + paramT * paramT * w2);
 }
 
 bool LNLib::BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(const XYZ& startPoint, const XYZ& startTangent, const XYZ& endPoint, const XYZ& endTangent, std::vector<XYZW>& controlPoints)
-- 
2.43.0


From 3f09bb2b7466d8403102d537ba3b70f763342d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:50 +0000
Subject: [PATCH 03/94] fix: curvature, torsion and normal do not assume
 arc-length parametrisation where the speed happens to be 1

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 42 +++++--------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e63ba68..e2767bc 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -313,10 +313,6 @@ double LNLib::NurbsCurve::Curvature(const LN_NurbsCurve& curve, double paramT)
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ d1 = derivatives[1];
 	XYZ d2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(d1.Length(), 1.0))
-	{
-		return d2.Length();
-	}
 	double numerator = d1.CrossProduct(d2).Length();
 	double denominator = pow(d1.Length(), 3);
 	return numerator / denominator;
@@ -333,29 +329,14 @@ LNLib::XYZ LNLib::NurbsCurve::Normal(const LN_NurbsCurve& curve, CurveNormal nor
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
+	XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
+	if (normalType == CurveNormal::Binormal)
 	{
-		XYZ curveNormal = der2 / der2.Length();
-		if (normalType == CurveNormal::Normal)
-		{
-			return curveNormal;
-		}
-		else
-		{
-			return tangent.CrossProduct(curveNormal);
-		}
+		return b;
 	}
 	else
 	{
-		XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
-		if (normalType == CurveNormal::Binormal)
-		{
-			return b;
-		}
-		else
-		{
-			return b.Normalize().CrossProduct(tangent.Normalize());
-		}
+		return b.Normalize().CrossProduct(tangent.Normalize());
 	}
 }
 
@@ -431,18 +412,9 @@ double LNLib::NurbsCurve::Torsion(const LN_NurbsCurve& curve, double paramT)
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
 	XYZ der3 = derivatives[3];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = der2.DotProduct(der2);
-		return numerator / denominator;
-	}
-	else
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
-		return numerator / denominator;
-	}
+	double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
+	double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
+	return numerator / denominator;
 }
 
 int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot, int times, LN_NurbsCurve& result)
-- 
2.43.0


From a3cefb39a9d253a6cd07a76cb33eda22d74c56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:07 +0000
Subject: [PATCH 04/94] fix: NurbsCurve::RemoveKnot drops only the knots it
 removed and refuses end or absent knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e2767bc..ea3ddba 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -722,19 +722,15 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
 	int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
 
-	int first = r - degree;
-	int last = r - s;
-
-	std::vector<double> restKnotVector = knotVector;
-	int m = n + degree + 1;
-	for (int k = r + 1; k <= m; k++)
-	{
-		restKnotVector[k - times] = restKnotVector[k];
-	}
-	for (int i = 0; i < times; i++)
+	// Only copies of an interior knot can be removed.
+	if (s == 0 || r - degree < s || MathUtils::IsGreaterThanOrEqual(removeKnot, knotVector[n + 1]))
 	{
-		restKnotVector.pop_back();
+		return false;
 	}
+	times = std::min(times, s);
+
+	int first = r - degree;
+	int last = r - s;
 
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	std::vector<XYZW> temp(2 * degree + 1);
@@ -831,6 +827,10 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	{
 		updatedControlPoints.pop_back();
 	}
+
+	// Drop as many knots as control points.
+	std::vector<double> restKnotVector = knotVector;
+	restKnotVector.erase(restKnotVector.begin() + r + 1 - t, restKnotVector.begin() + r + 1);
 	result.Degree = degree;
 	result.KnotVector = restKnotVector;
 	result.ControlPoints = updatedControlPoints;
-- 
2.43.0


From 2b9341a9f475678550686a061f55cc4952347dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:08 +0000
Subject: [PATCH 05/94] fix: NurbsCurve::ElevateDegree sizes its result by
 distinct interior knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ea3ddba..006684a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -908,7 +908,14 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 
 	int startIdx = degree + 1;
 	int endIdx = static_cast<int>(knotVector.size()) - (degree + 1);
-	int uniqueCount = endIdx - startIdx;
+	int uniqueCount = 0;
+	for (int i = startIdx; i < endIdx; i++)
+	{
+		if (!MathUtils::IsAlmostEqualTo(knotVector[i], knotVector[i - 1]))
+		{
+			uniqueCount++;
+		}
+	}
 	int nh = n + (uniqueCount + 1) * times;
 
 	int moresize = nh + 1;
-- 
2.43.0


From 10320596d7f8cb734a36acc7555f43c28a0f35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:08 +0000
Subject: [PATCH 06/94] fix: NurbsCurve::DecomposeToBeziers advances past
 interior knots of full multiplicity

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 006684a..ab99ec0 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -689,18 +689,18 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 					beziers[nb + 1].ControlPoints[save] = beziers[nb].ControlPoints[degree];
 				}
 			}
+		}
 
-			nb++;
-			if (b < m)
+		nb++;
+		if (b < m)
+		{
+			for (int i = std::max(0, degree - multi); i <= degree; i++)
 			{
-				for (int i = degree - multi; i <= degree; i++)
-				{
-					beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
-				}
-
-				a = b;
-				b += 1;
+				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
+
+			a = b;
+			b += 1;
 		}
 	}
 	return beziers;
-- 
2.43.0


From aa551eab3a6fa244e7b98151206cf577c25f7ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:39 +0000
Subject: [PATCH 07/94] fix: NurbsCurve::Extract returns a complete clamped
 curve over the requested range

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ab99ec0..a8c1d65 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1591,11 +1591,15 @@ void LNLib::NurbsCurve::Extract(const LN_NurbsCurve& curve, double startParamete
 	}
 
 	int ks = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, startParameter);
-	int ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter);
+	int ke = tempCurve.ControlPoints.size();
+	if (MathUtils::IsLessThan(endParameter, tempCurve.KnotVector[ke]))
+	{
+		ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter) - degree;
+	}
 
 	result.Degree = degree;
-	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks, tempCurve.KnotVector.begin() + ke + 2);
-	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke + 1);
+	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks - degree, tempCurve.KnotVector.begin() + ke + degree + 1);
+	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke);
 }
 
 bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& right, LN_NurbsCurve& result)
-- 
2.43.0


From 429a7757e5caf4d87427bad82052a250527a36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:53 +0000
Subject: [PATCH 08/94] fix: take absolute values of doubles with std::abs (the
 integer abs truncated weights, curvatures and steps)

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     | 10 +++++-----
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a8c1d65..d1928da 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -53,7 +53,7 @@ namespace LNLib
 
 		double differ = left + right - simpson;
 		if (MathUtils::IsAlmostEqualTo(differ, 0.0) || 
-			MathUtils::IsLessThan(abs(differ) / 15.0, tolearance))
+			MathUtils::IsLessThan(std::abs(differ) / 15.0, tolearance))
 		{
 			length = left + right + differ / 15.0;
 		}
@@ -1471,7 +1471,7 @@ void LNLib::NurbsCurve::Reparametrize(const LN_NurbsCurve& curve, double alpha,
 			double lambda = updatedKnotVector[i + j] * gamma - alpha;
 			temp = temp * lambda;
 		}
-		double newW = abs(controlPoints[i].GetW() * temp);
+		double newW = std::abs(controlPoints[i].GetW() * temp);
 		updatedControlPoints[i] = XYZW(const_cast<XYZW&>(controlPoints[i]).ToXYZ(true), newW);
 	}
 
@@ -3286,8 +3286,8 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	double abk = D.Distance(movePoint2) / controlLegLength;
 	double abk1 = C.Distance(movePoint1) / controlLegLength;
 
-	if (MathUtils::IsLessThan(abs(ak), 0.0) || MathUtils::IsLessThan(abs(ak1), 0.0) ||
-		MathUtils::IsLessThan(abs(abk), 0.0) || MathUtils::IsLessThan(abs(abk1), 0.0))
+	if (MathUtils::IsLessThan(std::abs(ak), 0.0) || MathUtils::IsLessThan(std::abs(ak1), 0.0) ||
+		MathUtils::IsLessThan(std::abs(abk), 0.0) || MathUtils::IsLessThan(std::abs(abk1), 0.0))
 	{
 		return false;
 	}
@@ -3331,7 +3331,7 @@ void LNLib::NurbsCurve::Warping(const LN_NurbsCurve& curve, const std::vector<do
 	{
 		double weight = temp[i].GetW();
 		XYZ currentPoint = temp[i].ToXYZ(true);
-		XYZ newPoint = currentPoint + warpShape[i] * abs(warpDistance) * W.Normalize();
+		XYZ newPoint = currentPoint + warpShape[i] * std::abs(warpDistance) * W.Normalize();
 		resultControlPoints.emplace_back(XYZW(newPoint, weight));
 	}
 	
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 73ab061..001feda 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -290,8 +290,8 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 
 	double K = (L * N - M * M) / denominator;
 	double H = (E * N + G * L - 2 * F * M) / (2 * denominator);
-	double k1 = H + std::sqrt(abs(H * H - K));
-	double k2 = H - std::sqrt(abs(H * H - K));
+	double k1 = H + std::sqrt(std::abs(H * H - K));
+	double k2 = H - std::sqrt(std::abs(H * H - K));
 
 	if (curvature == SurfaceCurvature::Gauss)
 	{
@@ -311,7 +311,7 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 	}
 	else if (curvature == SurfaceCurvature::Abs)
 	{
-		return abs(k1) + abs(k2);
+		return std::abs(k1) + std::abs(k2);
 	}
 	else if (curvature == SurfaceCurvature::Rms)
 	{
@@ -1602,7 +1602,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double a2 = (c1 * c1 * s2 - c1 * c2 * s1 - c1 * F * s3 + c2 * E * s3 - E * s2 + F * s1)/(c1 * c1 * G - 2 * c1 * c2 * F + c2 * c2 * E - E * G + F * F);
 
 		double curvature = (L * a1 * a1 + 2 * M * a1* a2 + N * a2 * a2)/(E * a1 * a1 + 2 * F * a1 * a2 + G * a2 * a2);
-		double radius = 1 / abs(curvature);
+		double radius = 1 / std::abs(curvature);
 
 		XYZ m = p0 + radius * normal;
 		XYZ q = givenPoint + (m - givenPoint) * (1 - radius / (m.Distance(givenPoint)));
@@ -1619,8 +1619,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		u0 = ut;
 		v0 = vt;
 
-		bool condition1 = MathUtils::IsLessThanOrEqual(abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(abs(deltaV), Constants::DoubleEpsilon);
-		bool condition2 = MathUtils::IsLessThanOrEqual((abs(deltaU) * abs(deltaU) + abs(deltaV) * abs(deltaV)), Constants::DoubleEpsilon);
+		bool condition1 = MathUtils::IsLessThanOrEqual(std::abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(std::abs(deltaV), Constants::DoubleEpsilon);
+		bool condition2 = MathUtils::IsLessThanOrEqual((std::abs(deltaU) * std::abs(deltaU) + std::abs(deltaV) * std::abs(deltaV)), Constants::DoubleEpsilon);
 
 		if (condition1 || condition2)
 		{
-- 
2.43.0


From 00f9d2b842aed33d7744c6fcaf2e90c7fdd53cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:07 +0000
Subject: [PATCH 09/94] fix: BsplineSurface::ComputeDerivatives accepts orders
 above the degree (those derivatives vanish)

---
 src/LNLib/include/BsplineSurface.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 4c669da..e4d0aed 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -105,14 +105,14 @@ namespace LNLib
 
 			std::vector<std::vector<T>> derivatives(derivative + 1, std::vector<T>(derivative + 1));
 
+			int du = std::min(derivative, degreeU);
+			int dv = std::min(derivative, degreeV);
+
 			int uSpanIndex = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, uv.GetU());
-			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, derivative, knotVectorU, uv.GetU());
+			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, du, knotVectorU, uv.GetU());
 
 			int vSpanIndex = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, uv.GetV());
-			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, derivative, knotVectorV, uv.GetV());
-
-			int du = std::min(derivative, degreeU);
-			int dv = std::min(derivative, degreeV);
+			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, dv, knotVectorV, uv.GetV());
 
 			std::vector<T> temp(degreeV + 1);
 
-- 
2.43.0


From 46e835400bf0f956741bd453f73b46c0e0b82acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:07 +0000
Subject: [PATCH 10/94] fix: BsplineSurface::ComputeControlPointsOfDerivatives
 differentiates in V over the matching knots and its full range

---
 src/LNLib/include/BsplineSurface.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index e4d0aed..af04d23 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -239,12 +239,13 @@ namespace LNLib
 					}
 				}
 			}
-			std::vector<double> tempKv(knotVectorV.size(), minSpanIndexV);
-			for (int k = 0; k < du; k++)
+			std::vector<double> tempKv(knotVectorV.begin() + minSpanIndexV, knotVectorV.end());
+			for (int k = 0; k <= du; k++)
 			{
 				for (int i = 0; i <= rangeU - k; i++)
 				{
 					int dd = std::min(derivative - k, dv);
+					if (dd <= 0) continue;
 
 					LN_BsplineCurve<T> bsplineCurve;
 					bsplineCurve.Degree = degreeV;
@@ -254,7 +255,7 @@ namespace LNLib
 					std::vector<std::vector<T>> temp = BsplineCurve::ComputeControlPointsOfDerivatives(bsplineCurve, dd, 0, rangeV);
 					for (int l = 1; l <= dd; l++)
 					{
-						for (int j = 0; j < rangeV - l; j++)
+						for (int j = 0; j <= rangeV - l; j++)
 						{
 							PKL[k][l][i][j] = temp[l][j];
 						}
-- 
2.43.0


From 9985b793e7ec7620f3ac104ca50989db4cec39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:07 +0000
Subject: [PATCH 11/94] fix: NurbsSurface::InsertKnot at a knot of multiplicity
 above the degree leaves the surface alone

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 001feda..b014cb7 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -567,7 +567,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
-	if (multiplicity == degree)
+	if (multiplicity >= degree)
 	{
 		result = surface;
 		return;
-- 
2.43.0


From d2617a620866db21f591c31dea875bbc4fa0f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:07 +0000
Subject: [PATCH 12/94] fix: NurbsSurface::Reverse returns a complete surface
 and reverses both directions for All

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b014cb7..bdccb7d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -481,6 +481,8 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
+	result.KnotVectorU = knotVectorU;
+	result.KnotVectorV = knotVectorV;
 
 	if (direction == SurfaceDirection::All || direction == SurfaceDirection::UDirection)
 	{
@@ -529,17 +531,19 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 	else if (direction == SurfaceDirection::VDirection)
 	{
 		int size = controlPoints.size();
-		std::vector<std::vector<XYZW>> newControlPoints(size);
 		for (int i = 0; i < size; i++)
 		{
 			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
-			newControlPoints.emplace_back(controlPoints[i]);
 		}
-		result.ControlPoints = newControlPoints;
+		result.ControlPoints = controlPoints;
 	}
 	else
 	{
 		std::reverse(controlPoints.begin(), controlPoints.end());
+		for (int i = 0; i < controlPoints.size(); i++)
+		{
+			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
+		}
 		result.ControlPoints = controlPoints;
 	}
 
-- 
2.43.0


From 4a3f9f46ec2cff56f4b134b3e944e2947b52e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:07 +0000
Subject: [PATCH 13/94] fix: NurbsSurface::RemoveKnot leaves the surface alone
 when a row cannot lose the knot

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index bdccb7d..f2373a4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -995,7 +995,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 
 			LN_NurbsCurve newtc;
 
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				(i > 0 && newtc.KnotVector.size() != tempKnotVector.size()))
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
@@ -1015,7 +1019,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 			tc.ControlPoints = controlPoints[i];
 
 			LN_NurbsCurve newtc;
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				(i > 0 && newtc.KnotVector.size() != tempKnotVector.size()))
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
-- 
2.43.0


From 6a699ad1b3aca9cfdf1a7264684ac5e9cf17a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:03 +0000
Subject: [PATCH 14/94] fix: NurbsSurface::Reparametrize skips the work only
 when both intervals already match

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index f2373a4..9cdb3d8 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1653,7 +1653,7 @@ void LNLib::NurbsSurface::Reparametrize(const LN_NurbsSurface& surface, double m
 	std::vector<double> knotVectorU = surface.KnotVectorU;
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 
-	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) ||
+	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) &&
 		(MathUtils::IsAlmostEqualTo(minV, knotVectorV[0]) && MathUtils::IsAlmostEqualTo(maxV, knotVectorV[knotVectorV.size() - 1])))
 	{
 		result = surface;
-- 
2.43.0


From 2b79ba12acbf0cfcda9d691a9e63c76fb576e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:43 +0000
Subject: [PATCH 15/94] fix: NurbsVolume derivatives combine the V direction
 and accept orders above the degree

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3ed0070..e0b7e31 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -223,13 +223,13 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 	double w = uvw.GetW();
 
 	int uspan = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, u);
-	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, derivative, kvU, u);
+	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, du, kvU, u);
 
 	int vspan = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, v);
-	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, derivative, kvV, v);
+	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, dv, kvV, v);
 
 	int wspan = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, w);
-	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, derivative, kvW, w);
+	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, dw, kvW, w);
 
 	for (int a = 0; a <= du; ++a)
 	{
@@ -249,7 +249,7 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 				}
 				for (int y = 0; y <= degreeV; ++y)
 				{
-					temp2[z] += Nv[b][y] * temp2[y];
+					temp2[z] += Nv[b][y] * temp1[y];
 				}
 			}
 			int ddc = std::min(derivative - a - b, dw);
-- 
2.43.0


From 2c745f5068bf001678c2f6caac19f2b203e64891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:43 +0000
Subject: [PATCH 16/94] fix: NurbsVolume::InsertKnot sizes its net by the
 insertions actually done

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index e0b7e31..446c78f 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -404,6 +404,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		newControlPoints.resize(newKvU.size() - degreeU - 1);
 		result.KnotVectorU = newKvU;
 		result.ControlPoints = newControlPoints;
 	}
@@ -434,6 +435,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 				newKvV = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints[row].resize(iControlPoints.size(), std::vector<LNLib::XYZW>(l + 1));
 				for (int j = 0; j < iControlPoints.size(); j++)
 				{
 					newControlPoints[row][j][sep] = iControlPoints[j];
@@ -471,6 +473,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 				newKvW = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints[row][col].resize(iControlPoints.size());
 				for (int k = 0; k < iControlPoints.size(); k++)
 				{
 					newControlPoints[row][col][k] = iControlPoints[k];
-- 
2.43.0


From 0a1bae89c1c1fd150dcb46a2fa21493857ec671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:43 +0000
Subject: [PATCH 17/94] fix: NurbsVolume::RefineKnotVector no longer writes
 past its control net

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 446c78f..b55ed20 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -868,7 +868,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
 
-	int times = insertKnotElements.size() - 1;
+	int times = insertKnotElements.size();
 	if (direction == VolumeDirection::U)
 	{
 		newControlPoints.resize(n + times + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-- 
2.43.0


From 456ed1665e48ec501527dca799598693f4d64749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:04 +0000
Subject: [PATCH 18/94] fix: NurbsVolume::ElevateDegree sizes its net by
 distinct interior knots

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index b55ed20..786b5e7 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1021,7 +1021,11 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 
 		int startIdx = degreeU + 1;
 		int endIdx = static_cast<int>(kvU.size()) - (degreeU + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = startIdx; i < endIdx; i++)
+		{
+			if (kvU[i] != kvU[i - 1]) uniqueCount++;
+		}
 		int nh = n + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(nh + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -1071,7 +1075,11 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 
 		int startIdx = degreeV + 1;
 		int endIdx = static_cast<int>(kvV.size()) - (degreeV + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = startIdx; i < endIdx; i++)
+		{
+			if (kvV[i] != kvV[i - 1]) uniqueCount++;
+		}
 		int mh = m + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(mh + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -1121,7 +1129,11 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 
 		int startIdx = degreeW + 1;
 		int endIdx = static_cast<int>(kvW.size()) - (degreeW + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = startIdx; i < endIdx; i++)
+		{
+			if (kvW[i] != kvW[i - 1]) uniqueCount++;
+		}
 		int lh = l + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(lh + 1)));
-- 
2.43.0


From b8704ea22a639806310892e133eddeff078dd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:04 +0000
Subject: [PATCH 19/94] fix: NurbsVolume::Reverse allocates its net for the V
 and W directions

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 786b5e7..05475e0 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1440,7 +1440,7 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 	int m = controlPoints[0].size() - 1;
 	int l = controlPoints[0][0].size() - 1;
 
-	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
+	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
@@ -1451,8 +1451,6 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvS = kvV;
 		std::vector<double> kvT = kvW;
 
-		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-
 		std::vector<double> kvR;
 
 		for (int sep = 0; sep <= l; sep++)
-- 
2.43.0


From 77cf388058213883da02ce22b56a6a3fc5b44ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:04 +0000
Subject: [PATCH 20/94] fix: NurbsVolume::Extract hands the slice back,
 complete also at the ends and with matching V-slice directions

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 41 +++++++++--------------
 src/LNLib/include/NurbsVolume.h           |  2 +-
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 05475e0..0ef666f 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -673,7 +673,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 	return true;
 }
 
-bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface)
+bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface)
 {
 	int degreeU = volume.DegreeU;
 	int degreeV = volume.DegreeV;
@@ -721,12 +721,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			}
 			Pwc = controlPoints[k - s];
-
-			newDegreeU = degreeV;
-			newDegreeV = degreeW;
-			newKvU = kvV;
-			newKvV = kvW;
 		}
+
+		newDegreeU = degreeV;
+		newDegreeV = degreeW;
+		newKvU = kvV;
+		newKvV = kvW;
 	}
 	else if (direction == VolumeDirection::V)
 	{
@@ -766,21 +766,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 			for (size_t i = 0; i < controlPoints.size(); ++i) {
 				Pwc[i] = controlPoints[i][k - s];
 			}
-
-			std::vector<std::vector<LNLib::XYZW>> tempPwc(Pwc.size());
-			for (size_t i = 0; i < Pwc.size(); ++i) {
-				tempPwc[i].resize(Pwc[i].size());
-				for (size_t j = 0; j < Pwc[i].size(); ++j) {
-					tempPwc[i][j] = Pwc[i][j];
-				}
-			}
-			Pwc = tempPwc;
-
-			newDegreeU = degreeW;
-			newDegreeV = degreeU;
-			newKvU = kvW;
-			newKvV = kvU;
 		}
+
+		newDegreeU = degreeU;
+		newDegreeV = degreeW;
+		newKvU = kvU;
+		newKvV = kvW;
 	}
 	else if (direction == VolumeDirection::W)
 	{
@@ -829,12 +820,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 					Pwc[i][j] = controlPoints[i][j][k - s];
 				}
 			}
-
-			newDegreeU = degreeU;
-			newDegreeV = degreeV;
-			newKvU = kvU;
-			newKvV = kvV;
 		}
+
+		newDegreeU = degreeU;
+		newDegreeV = degreeV;
+		newKvU = kvU;
+		newKvV = kvV;
 	}
 
 	surface.DegreeU = newDegreeU;
diff --git a/src/LNLib/include/NurbsVolume.h b/src/LNLib/include/NurbsVolume.h
index 1230ec1..2da659a 100644
--- a/src/LNLib/include/NurbsVolume.h
+++ b/src/LNLib/include/NurbsVolume.h
@@ -37,7 +37,7 @@ namespace LNLib
 
         static bool SplitAt(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LN_NurbsVolume& first, LN_NurbsVolume& second);
 
-        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface);
+        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface);
 
         static void RefineKnotVector(const LN_NurbsVolume& volume, const std::vector<double>& insertKnotElements, VolumeDirection direction, LN_NurbsVolume& result);
 
-- 
2.43.0


From 594f933b114f480fa78c4b477e0e074882333d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:04 +0000
Subject: [PATCH 21/94] fix: NurbsVolume::Swap accepts the two directions in
 either order

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 0ef666f..08621d6 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1567,7 +1567,8 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 	std::vector<double> kvW = volume.KnotVectorW;
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> controlPoints = volume.ControlPoints;
-	std::vector<std::vector<std::vector<LNLib::XYZW>>> newContrlPoints;
+
+	if (swap < direction) std::swap(direction, swap);
 
 	int u = controlPoints.size();
 	int v = controlPoints[0].size();
@@ -1649,6 +1650,10 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 
 		result.ControlPoints = newContrlPoints;
 	}
+	else
+	{
+		result = volume;
+	}
 }
 
 bool LNLib::NurbsVolume::Check(const LN_NurbsVolume& volume)
-- 
2.43.0


From 7acc266325fec11ccd1425f7fe61b10ce0328190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:21 +0000
Subject: [PATCH 22/94] fix: NurbsCurve::InsertKnot hands back the curve when
 nothing can be inserted

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d1928da..830eb93 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -434,6 +434,7 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 	}
 	if (times <= 0)
 	{
+		result = curve;
 		return 0;
 	}
 	
-- 
2.43.0


From d555339bcad4ae01776431321d0023cdd2619778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:36 +0000
Subject: [PATCH 23/94] fix: Matrix4d::IsIdentity and IsTranslation compare
 every element instead of their sum

---
 src/LNLib/Mathematics/Math/Matrix4d.cpp | 45 ++++++-------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/LNLib/Mathematics/Math/Matrix4d.cpp b/src/LNLib/Mathematics/Math/Matrix4d.cpp
index d9518a5..e9949db 100644
--- a/src/LNLib/Mathematics/Math/Matrix4d.cpp
+++ b/src/LNLib/Mathematics/Math/Matrix4d.cpp
@@ -347,30 +347,15 @@ double LNLib::Matrix4d::GetDeterminant()
 
 bool LNLib::Matrix4d::IsIdentity()
 {
-	bool c1 = MathUtils::IsAlmostEqualTo(m_matrix4d[0][0], 1);
-	if (!c1)
-	{
-		return false;
-	}
-	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
-	if (!c2)
-	{
-		return false;
-	}
-	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
-	if (!c3)
-	{
-		return false;
-	}
-
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] + m_matrix4d[0][3] +
-		         m_matrix4d[1][0] + m_matrix4d[1][2] + m_matrix4d[1][3] +
-		         m_matrix4d[2][0] + m_matrix4d[2][1] + m_matrix4d[2][3] +
-		         m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
-	if (!c4)
+	for (int i = 0; i <= 3; i++)
 	{
-		return false;
+		for (int j = 0; j <= 3; j++)
+		{
+			if (!MathUtils::IsAlmostEqualTo(m_matrix4d[i][j], i == j ? 1.0 : 0.0))
+			{
+				return false;
+			}
+		}
 	}
 	return true;
 }
@@ -384,17 +369,9 @@ bool LNLib::Matrix4d::HasReflection()
 
 bool LNLib::Matrix4d::IsTranslation()
 {
-	bool c1 = MathUtils::IsAlmostEqualTo(m_matrix4d[0][0], 1);
-	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
-	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
-
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] +
-				 m_matrix4d[1][0] + m_matrix4d[1][2] +
-				 m_matrix4d[2][0] + m_matrix4d[2][1] +
-				 m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
-	return c1 && c2 && c3 && c4;
+	Matrix4d linearPart = *this;
+	linearPart.SetBasisW(XYZ(0.0, 0.0, 0.0));
+	return linearPart.IsIdentity();
 }
 
 
-- 
2.43.0


From a077abf53ea0fef3fc00fb3849676f6568137888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:00 +0000
Subject: [PATCH 24/94] fix: MakeInverse reports failure for a singular matrix

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index ec6dca1..538b625 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -211,6 +211,12 @@ bool LNLib::MathUtils::MakeInverse(const std::vector<std::vector<double>>& matri
         m.row(i) = Eigen::VectorXd::Map(&matrix[i][0], matrix[i].size());
     }
 
+    Eigen::FullPivLU<Eigen::MatrixXd> lu(m);
+    if (!lu.isInvertible())
+    {
+        return false;
+    }
+
     auto result = m.inverse();
     inverse.resize(row);
     for (int k = 0; k < row; k++)
-- 
2.43.0


From 3991b7ce7a84f6f3418e2a415307944eef4c0de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:02 +0000
Subject: [PATCH 25/94] fix: CreateRandomOrthogonal works for directions
 parallel to its helper vector

---
 src/LNLib/Mathematics/Math/XYZ.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Mathematics/Math/XYZ.cpp b/src/LNLib/Mathematics/Math/XYZ.cpp
index f555bfa..b379566 100644
--- a/src/LNLib/Mathematics/Math/XYZ.cpp
+++ b/src/LNLib/Mathematics/Math/XYZ.cpp
@@ -176,6 +176,11 @@ XYZ LNLib::XYZ::CreateRandomOrthogonal(const XYZ& xyz)
 	XYZ current = xyz;
 	XYZ normal = current.Normalize();
 	XYZ tangent = normal.CrossProduct(XYZ(-normal.GetZ(), normal.GetX(), normal.GetY()));
+	if (tangent.IsZero())
+	{
+		// The helper direction is parallel to normal, e.g. (1,-1,1).
+		tangent = normal.CrossProduct(XYZ(1.0, 0.0, 0.0));
+	}
 	XYZ bitangent = normal.CrossProduct(tangent);
 
 	std::random_device rd;
-- 
2.43.0


From 633c33516c7ccf72ce34ac9e1ee7a57d35191438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:51 +0000
Subject: [PATCH 26/94] fix: CreateArc builds elliptical arcs with the tangents
 of the ellipse

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 830eb93..7f1758e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1810,7 +1810,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 	XYZ nX = const_cast<XYZ&>(xAxis).Normalize();
 	XYZ nY = const_cast<XYZ&>(yAxis).Normalize();
 	XYZ P0 = center + xRadius * cos(startRad) * nX + yRadius * sin(startRad) * nY;
-	XYZ T0 = -sin(startRad) * nX + cos(startRad) * nY;
+	XYZ T0 = -xRadius * sin(startRad) * nX + yRadius * cos(startRad) * nY;
 
 	controlPoints[0] = XYZW(P0, 1);
 	int index = 0;
@@ -1820,7 +1820,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 		angle += dtheta;
 		XYZ P2 = center + xRadius * cos(angle) * nX + yRadius * sin(angle) * nY;
 		controlPoints[index + 2] = XYZW(P2, 1);
-		XYZ T2 = -sin(angle) * nX + cos(angle) * nY;
+		XYZ T2 = -xRadius * sin(angle) * nX + yRadius * cos(angle) * nY;
 
 		double param0, param2 = 0.0;
 		XYZ P1;
-- 
2.43.0


From 525b715d7c1f7e21e08f3e93f163d9db26ea55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:05 +0000
Subject: [PATCH 27/94] fix: SplitArc returns the split weight and handles
 finite control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 17 +++++++++++++----
 src/LNLib/include/NurbsCurve.h          |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 7f1758e..afd6f37 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1910,12 +1910,21 @@ bool LNLib::NurbsCurve::CreateOneConicArc(const XYZ& start, const XYZ& startTang
 	return false;
 }
 
-void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight)
+void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight)
 {
-	insertPointAtStartSide = start + projectPoint;
-	insertPointAtEndSide = end + projectPoint;
+	if (MathUtils::IsAlmostEqualTo(projectPointWeight, 0.0))
+	{
+		// projectPoint is an infinite control point (a direction).
+		insertPointAtStartSide = start + projectPoint;
+		insertPointAtEndSide = end + projectPoint;
+	}
+	else
+	{
+		insertPointAtStartSide = (start + projectPointWeight * projectPoint) / (1.0 + projectPointWeight);
+		insertPointAtEndSide = (projectPointWeight * projectPoint + end) / (1.0 + projectPointWeight);
+	}
 	splitPoint = (insertPointAtStartSide + insertPointAtEndSide) / 2.0;
-	insertWeight = std::sqrt(1 + projectPointWeight) / 2.0;
+	insertWeight = std::sqrt((1.0 + projectPointWeight) / 2.0);
 }
 
 bool LNLib::NurbsCurve::CreateOpenConic(const XYZ& start, const XYZ& startTangent, const XYZ& end, const XYZ& endTangent, const XYZ& pointOnConic, LN_NurbsCurve& curve)
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index 62f28d9..f256034 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -209,7 +209,7 @@ namespace LNLib
 		/// The NURBS Book 2nd Edition Page317
 		/// Split arc.
 		/// </summary>
-		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight);
+		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight);
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page317
-- 
2.43.0


From d11b6114fb21cdd8cb10ed2c5cf09f7b70ac6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:16 +0000
Subject: [PATCH 28/94] fix: GlobalInterpolation with tangents builds
 admissible knots for degrees two and three

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index afd6f37..b664f4f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2121,8 +2121,9 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 		}
 		for (int i = 0; i < size - 1; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 2 * i + 1] = (uk[i] + uk[i + 1]) / 2.0;
+			if (i < size - 2)
+				knotVector[degree + 2 * i + 2] = uk[i + 1];
 		}
 	}
 	else if (degree == 3)
@@ -2132,15 +2133,11 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 			knotVector[i] = 0.0;
 			knotVector[knotVector.size() - 1 - i] = 1.0;
 		}
-		knotVector[4] = uk[1];
-		knotVector[5] = uk[1];
-		for (int i = 1; i < size - 2; ++i)
+		for (int i = 1; i < size - 1; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i + 1];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 2 * i - 1] = uk[i];
+			knotVector[degree + 2 * i] = uk[i];
 		}
-		knotVector[knotVector.size() - 6] = uk[size - 2];
-		knotVector[knotVector.size() - 5] = uk[size - 2];
 	}
 	else
 	{
-- 
2.43.0


From f552752db8a9d7494b1654b16cb53a48ea58b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:16 +0000
Subject: [PATCH 29/94] fix: CubicLocalInterpolation passes through the given
 points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b664f4f..a392aa3 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2260,10 +2260,14 @@ bool LNLib::NurbsCurve::CubicLocalInterpolation(const std::vector<XYZ>& throughP
 		knotVector[knotVector.size() - 1 - i] = 1.0;
 	}
 
-	double step = 1.0 / (numCtrlPts - degree);
-	for (int i = 1; i <= numCtrlPts - degree - 1; ++i)
+	double accumulated = 0.0;
+	for (int i = 1; i < size - 1; ++i)
 	{
-		knotVector[degree + i] = i * step;
+		accumulated += chordLengths[i - 1];
+		for (int j = 0; j < degree; ++j)
+		{
+			knotVector[degree * i + 1 + j] = accumulated / totalLength;
+		}
 	}
 
 	curve.Degree = degree;
-- 
2.43.0


From a95433e96962a4626ebeb1fadd6d6a7fcf4c8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:16 +0000
Subject: [PATCH 30/94] fix: three-point tangent estimates use the right chords
 and weights

---
 src/LNLib/Algorithm/Interpolation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index aeeb627..62d6e9b 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -405,13 +405,13 @@ std::vector<LNLib::XYZ> LNLib::Interpolation::ComputeTangent(const std::vector<X
 			tangents[i] = XYZ(0, 0, 0);
 		}
 		else if (MathUtils::IsAlmostEqualTo(w1, 0.0)) {
-			tangents[i] = dP[i] / du[i];
+			tangents[i] = dP[i - 1] / du[i - 1];
 		}
 		else if (MathUtils::IsAlmostEqualTo(w2, 0.0)) {
-			tangents[i] = dP[i - 1] / du[i - 1];
+			tangents[i] = dP[i] / du[i];
 		}
 		else {
-			double a = w2 / (w1 + w2);
+			double a = w1 / (w1 + w2);
 			tangents[i] = a * (dP[i - 1] / du[i - 1]) + (1 - a) * (dP[i] / du[i]);
 		}
 	}
-- 
2.43.0


From d847ad6f3ea2fc52d72e7a7f8a71f48e9d0a3920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:16 +0000
Subject: [PATCH 31/94] fix: five-point tangent estimates are defined for
 collinear points

---
 src/LNLib/Algorithm/Interpolation.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index 62d6e9b..bda8f18 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -26,7 +26,14 @@ namespace LNLib
 
 	double Getak(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
 	{
-		return (qk_1.CrossProduct(qk)).Length() / ((qk_1.CrossProduct(qk).Length()) + (qk1.CrossProduct(qk2)).Length());
+		double before = (qk_1.CrossProduct(qk)).Length();
+		double after = (qk1.CrossProduct(qk2)).Length();
+		if (MathUtils::IsAlmostEqualTo(before + after, 0.0))
+		{
+			// three collinear points on both sides
+			return 0.5;
+		}
+		return before / (before + after);
 	}
 
 	XYZ GetTk(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
-- 
2.43.0


From 4e0e451933b82431e5e01d6d7483ee79833a37b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:54 +0000
Subject: [PATCH 32/94] fix: WeightedAndContrainedLeastSquaresApproximation
 applies the weights once

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a392aa3..ba9d168 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2501,7 +2501,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 				}
 			}
 			W_vec[mu_idx] = wp;
-			S[mu_idx] = wp * throughPoints[i];
+			S[mu_idx] = throughPoints[i];
 			mu_idx++;
 		}
 		else if (MathUtils::IsLessThan(wp, 0.0)) {
@@ -2533,7 +2533,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 					}
 				}
 				W_vec[mu_idx] = wt;
-				S[mu_idx] = wt * tangentVec;
+				S[mu_idx] = tangentVec;
 				mu_idx++;
 			}
 			else if (MathUtils::IsLessThan(wt, 0.0)) {
-- 
2.43.0


From f7da1a471fd571dc3f08c95e53ffba6edef047e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:13 +0000
Subject: [PATCH 33/94] fix: control point repositioning and weight
 modification use the moved point's own basis function

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ba9d168..749ff63 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -90,6 +90,25 @@ namespace LNLib
 		return middle;
 	}
 
+	double RationalBasisFunction(const LN_NurbsCurve& curve, int index, double parameter)
+	{
+		int degree = curve.Degree;
+		int spanIndex = Polynomials::GetKnotSpanIndex(degree, curve.KnotVector, parameter);
+		double basis[Constants::NURBSMaxDegree + 1];
+		Polynomials::BasisFunctions(spanIndex, degree, curve.KnotVector, parameter, basis);
+		int first = spanIndex - degree;
+		if (index < first || index > spanIndex)
+		{
+			return 0.0;
+		}
+		double total = 0.0;
+		for (int i = 0; i <= degree; i++)
+		{
+			total += basis[i] * curve.ControlPoints[first + i].GetW();
+		}
+		return basis[index - first] * curve.ControlPoints[index].GetW() / total;
+	}
+
 	void TessellateCore(const LN_NurbsCurve& curve, double start, double end, std::vector<double>& parameters, int depth)
 	{
 		const int MAX_DEPTH = 20;
@@ -3194,11 +3213,8 @@ bool LNLib::NurbsCurve::ControlPointReposition(const LN_NurbsCurve& curve, doubl
 	VALIDATE_ARGUMENT(!moveDirection.IsZero(), "moveDirection", "MoveDirection must not be zero vector.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance,0.0), "moveDistance", "MoveDistance must not be zero.")
 
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
-	if (MathUtils::IsLessThan(Rkp, 0.0))
+	double Rkp = RationalBasisFunction(curve, moveIndex, parameter);
+	if (MathUtils::IsLessThanOrEqual(Rkp, 0.0))
 	{
 		return false;
 	}
@@ -3227,10 +3243,7 @@ void LNLib::NurbsCurve::WeightModification(const LN_NurbsCurve& curve, double pa
 	XYZ point = GetPointOnCurve(curve, parameter);
 	XYZ movePoint = const_cast<XYZW&>(controlPoints[moveIndex]).ToXYZ(true);
 	double distance =  point.Distance(movePoint);
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
+	double Rkp = RationalBasisFunction(curve, moveIndex, parameter);
 	double coefficient = 1 + moveDistance / (Rkp * (distance - moveDistance));
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	updatedControlPoints[moveIndex] = XYZW(movePoint, updatedControlPoints[moveIndex].GetW() * coefficient);
-- 
2.43.0


From ab9f52b0e8bbace803bb2ba4aac8bc948c1d96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:13 +0000
Subject: [PATCH 34/94] fix: NeighborWeightsModification rejects the last
 control point, which has no neighbour

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 749ff63..94de7ee 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3260,7 +3260,7 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	const auto& controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT_RANGE(parameter, knotVector[0], knotVector[knotVector.size() - 1]);
-	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 1);
+	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, static_cast<int>(controlPoints.size()) - 2);
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance, 0.0), "moveDistance", "MoveDistance must not be zero.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(scale, 0.0), "scale", "Scale must not be zero.");
 
-- 
2.43.0


From 640321919edbdd9e270fb5b9eba1972517f28555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:13 +0000
Subject: [PATCH 35/94] fix: ConstraintBasedModification meets its constraints
 on rational curves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 94de7ee..6557ba8 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3468,6 +3468,28 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	{
 		int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, ur[Dr[i]]);
 		std::vector<std::vector<double>> ders = Polynomials::BasisFunctionsDerivatives(spanIndex, degree, Dk[i], knotVector, ur[Dr[i]]);
+
+		// derivatives of the rational basis functions
+		std::vector<double> wders(Dk[i] + 1, 0.0);
+		for (int k = 0; k <= Dk[i]; k++)
+		{
+			for (int j = 0; j <= degree; j++)
+			{
+				ders[k][j] *= controlPoints[spanIndex - degree + j].GetW();
+				wders[k] += ders[k][j];
+			}
+		}
+		for (int k = 0; k <= Dk[i]; k++)
+		{
+			for (int j = 0; j <= degree; j++)
+			{
+				for (int l = 1; l <= k; l++)
+				{
+					ders[k][j] -= MathUtils::Binomial(k, l) * wders[l] * ders[k - l][j];
+				}
+				ders[k][j] /= wders[0];
+			}
+		}
 		for (int j = 0; j <= degree; j++)
 		{
 			B[i][spanIndex - degree + j] = ders[Dk[i]][j];
-- 
2.43.0


From 52589dc2c7b61630765d36988cb00ec75ae4c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 36/94] fix: CreateRevolvedSurface rotates correctly about an
 axis vector of any length

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9cdb3d8..b04630a 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1931,7 +1931,7 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 		X = p - O;
 
 		r = X.Normalize().Length();
-		Y = axis.CrossProduct(X);
+		Y = XYZ(axis).Normalize().CrossProduct(X);
 
 		if (MathUtils::IsGreaterThan(r, 0.0))
 		{
-- 
2.43.0


From d2c559433664b1bc680adca197f965a3c423b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 37/94] fix: NonUniformScaling keeps the weights of scaled
 control points consistent

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b04630a..ac1a0de 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2004,7 +2004,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double y = current.GetWY() / weight;
 				double z = current.GetWZ() / weight;
 
-				row.emplace_back(XYZW(x * xFactor, y * yFactor, z * zFactor, weight));
+				row.emplace_back(XYZW(XYZ(x * xFactor, y * yFactor, z * zFactor), weight));
 			}
 			result.emplace_back(row);
 		}
@@ -2026,7 +2026,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double newY = y * yFactor + (1 - yFactor) * referencePoint[1];
 				double newZ = z * zFactor + (1 - zFactor) * referencePoint[2];
 
-				row.emplace_back(XYZW(newX, newY, newZ, weight));
+				row.emplace_back(XYZW(XYZ(newX, newY, newZ), weight));
 			}
 			result.emplace_back(row);
 		}
-- 
2.43.0


From 17ae12d1396bcb86f70c76f088e5600e7dfbba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 38/94] fix: CreateCoonsSurface orients opposite curves alike
 so that all four edges are met

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index ac1a0de..05990e9 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3144,8 +3144,8 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 
 	{
 		LN_NurbsCurve tc;
-		NurbsCurve::Reverse(nurbs[2], tc);
-		nurbs[2] = tc;
+		NurbsCurve::Reverse(nurbs[0], tc);
+		nurbs[0] = tc;
 	}
 
 	{
@@ -3162,10 +3162,10 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 		nurbs[i] = tc;
 	}
 
-	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
-	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
-	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
-	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
+	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
+	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
 
 	VALIDATE_ARGUMENT(isP00 & isP01 & isP10 & isP11, "Curves", "Four Corners must be connected.");
 
-- 
2.43.0


From 3087f3a66252141821a7b76a0a27ad21a9c8d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 39/94] fix: surface GlobalInterpolation uses the U parameters
 and degree along the rows

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 05990e9..9b2f7a4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2170,8 +2170,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	int rows = static_cast<int>(throughPoints.size());
 	int cols = static_cast<int>(throughPoints[0].size());
 
-	VALIDATE_ARGUMENT(cols > degreeU, "throughPoints", "Column size must be greater than degreeU.");
-	VALIDATE_ARGUMENT(rows > degreeV, "throughPoints", "Row size must be greater than degreeV.");
+	VALIDATE_ARGUMENT(rows > degreeU, "throughPoints", "Row size must be greater than degreeU.");
+	VALIDATE_ARGUMENT(cols > degreeV, "throughPoints", "Column size must be greater than degreeV.");
 
 	std::vector<double> uk, vl;
 	Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
@@ -2191,8 +2191,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				A[eqIdx][ctrlIdx] = 1.0;
 			}
 			else {
-				double u = uk[j];
-				double v = vl[i];
+				double u = uk[i];
+				double v = vl[j];
 
 				int spanU = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, u);
 				int spanV = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, v);
@@ -2203,16 +2203,16 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				Polynomials::BasisFunctions(spanU, degreeU, knotVectorU, u, basisU);
 				Polynomials::BasisFunctions(spanV, degreeV, knotVectorV, v, basisV);
 
-				for (int l = 0; l <= degreeV; ++l) {
-					int ctrlRow = spanV - degreeV + l;
+				for (int k = 0; k <= degreeU; ++k) {
+					int ctrlRow = spanU - degreeU + k;
 					if (ctrlRow < 0 || ctrlRow >= rows) continue;
 
-					for (int k = 0; k <= degreeU; ++k) {
-						int ctrlCol = spanU - degreeU + k;
+					for (int l = 0; l <= degreeV; ++l) {
+						int ctrlCol = spanV - degreeV + l;
 						if (ctrlCol < 0 || ctrlCol >= cols) continue;
 
 						int ctrlIdx = ctrlRow * cols + ctrlCol;
-						A[eqIdx][ctrlIdx] = basisV[l] * basisU[k];
+						A[eqIdx][ctrlIdx] = basisU[k] * basisV[l];
 					}
 				}
 			}
@@ -2996,7 +2996,7 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 
 	int degreeU = std::min(columns - 1, degree_u_max);
 	int degreeV = std::min(rows - 1, degree_v_max);
-	GlobalInterpolation(intersectionPoints, degreeU, degreeV, ts);
+	GlobalInterpolation(intersectionPoints, degreeV, degreeU, ts);
 	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
 	LN_NurbsSurface interpolatedSurface;
 	Swap(ts, interpolatedSurface);
-- 
2.43.0


From 7696fcfb90bbd86b065dbd242762050ac2cf5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 40/94] fix: surface GlobalApproximation applies the U degree
 and knots along the rows

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9b2f7a4..7c405ab 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2468,25 +2468,25 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 	VALIDATE_ARGUMENT(throughPoints[0].size() > 0, "throughPoints", "ThroughPoints column size must be greater than zero.");
 	VALIDATE_ARGUMENT(degreeU > 0 && degreeU <= Constants::NURBSMaxDegree, "degreeU", "Invalid degreeU.");
 	VALIDATE_ARGUMENT(degreeV > 0 && degreeV <= Constants::NURBSMaxDegree, "degreeV", "Invalid degreeV.");
-	VALIDATE_ARGUMENT(controlPointsRows > degreeV, "controlPointsRows", "Control points rows must be > degreeV.");
-	VALIDATE_ARGUMENT(controlPointsColumns > degreeU, "controlPointsColumns", "Control points columns must be > degreeU.");
+	VALIDATE_ARGUMENT(controlPointsRows > degreeU, "controlPointsRows", "Control points rows must be > degreeU.");
+	VALIDATE_ARGUMENT(controlPointsColumns > degreeV, "controlPointsColumns", "Control points columns must be > degreeV.");
 
 	int dataRows = static_cast<int>(throughPoints.size());
 	int dataCols = static_cast<int>(throughPoints[0].size());
 
 	std::vector<std::vector<XYZ>> tempControlPoints;
-	std::vector<double> knotVectorU;
+	std::vector<double> knotVectorV;
 
 	for (int i = 0; i < dataRows; ++i) {
 		LN_NurbsCurve curve;
-		bool success = NurbsCurve::LeastSquaresApproximation(degreeU, throughPoints[i], controlPointsColumns, curve);
+		bool success = NurbsCurve::LeastSquaresApproximation(degreeV, throughPoints[i], controlPointsColumns, curve);
 		if (!success) return false;
 
 		auto xyzPoints = ControlPointsUtils::ToXYZ(curve.ControlPoints);
 		tempControlPoints.push_back(xyzPoints);
 
 		if (i == 0) {
-			knotVectorU = curve.KnotVector;
+			knotVectorV = curve.KnotVector;
 		}
 	}
 
@@ -2494,18 +2494,18 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 	MathUtils::Transpose(tempControlPoints, transposed);
 
 	std::vector<std::vector<XYZ>> finalControlPoints;
-	std::vector<double> knotVectorV;
+	std::vector<double> knotVectorU;
 
 	for (int j = 0; j < static_cast<int>(transposed.size()); ++j) {
 		LN_NurbsCurve curve;
-		bool success = NurbsCurve::LeastSquaresApproximation(degreeV, transposed[j], controlPointsRows, curve);
+		bool success = NurbsCurve::LeastSquaresApproximation(degreeU, transposed[j], controlPointsRows, curve);
 		if (!success) return false;
 
 		auto xyzPoints = ControlPointsUtils::ToXYZ(curve.ControlPoints);
 		finalControlPoints.push_back(xyzPoints);
 
 		if (j == 0) {
-			knotVectorV = curve.KnotVector;
+			knotVectorU = curve.KnotVector;
 		}
 	}
 
-- 
2.43.0


From babd1f386c947f602a9ccc06b1546a8d4978d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 41/94] fix: BicubicLocalInterpolation passes through its
 points on any grid

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 26 +++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 7c405ab..65e3646 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -78,10 +78,12 @@ namespace LNLib
 	std::vector<int> GetIndex(int size)
 	{
 		std::vector<int> ind;
-		ind.reserve(size);
+		ind.reserve(2 * size);
 		for (int i = 0; i < size; ++i)
 		{
-			ind.push_back(3 * i);
+			// the points joining two patches are implied by C1 continuity
+			ind.push_back(i == 0 ? 0 : 3 * i - 1);
+			ind.push_back(i == size - 1 ? 3 * i : 3 * i + 1);
 		}
 		return ind;
 	}
@@ -2284,7 +2286,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		r[l] = 0.0;
 		for (int k = 0; k <= n; k++)
 		{
-			td[k][l][1] = tvkl[k];
+			td[k][l][0] = tvkl[k];
 
 			if (k > 0)
 			{
@@ -2310,7 +2312,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		s[k] = 0.0;
 		for (int l = 0; l <= m; l++)
 		{
-			td[k][l][0] = tukl[l];
+			td[k][l][1] = tukl[l];
 
 			if (l > 0)
 			{
@@ -2356,9 +2358,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int j = 0; j < column - 1; j++)
 		{
-			double a = (ub[j + 1] - ub[j]) * rowTotalLen[i];
+			double a = (vb[j + 1] - vb[j]) * rowTotalLen[i];
 			temp[3 * j + 1] = throughPoints[i][j] + a / 3.0 * T[j];
-			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j];
+			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j + 1];
 		}
 		bezierControlPoints[3 * i] = temp;
 	}
@@ -2379,9 +2381,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int i = 0; i < row - 1; i++)
 		{
-			double a = (vb[i + 1] - vb[i]) * colTotalLen[j];
+			double a = (ub[i + 1] - ub[i]) * colTotalLen[j];
 			temp[3 * i + 1] = columnData[i] + a / 3.0 * T[i];
-			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i];
+			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i + 1];
 		}
 		for (int i = 0; i < static_cast<int>(temp.size()); i++)
 		{
@@ -2396,8 +2398,8 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		{
 			double bl = (vb[l] - vb[l - 1]) / ((vb[l] - vb[l - 1]) + (vb[l + 1] - vb[l]));
 
-			XYZ dvukl = (1 - ak) * (td[k][l][1] - td[k - 1][l][1]) / (ub[k] - ub[k - 1]) + ak * (td[k + 1][l][1] - td[k][l][1]) / (ub[k + 1] - ub[k]);
-			XYZ duvkl = (1 - bl) * (td[k][l][0] - td[k][l - 1][0]) / (vb[l] - vb[l - 1]) + bl * (td[k][l + 1][0] - td[k][l][0]) / (vb[l + 1] - vb[l]);
+			XYZ dvukl = (1 - ak) * (rowTotalLen[k] * td[k][l][1] - rowTotalLen[k - 1] * td[k - 1][l][1]) / (ub[k] - ub[k - 1]) + ak * (rowTotalLen[k + 1] * td[k + 1][l][1] - rowTotalLen[k] * td[k][l][1]) / (ub[k + 1] - ub[k]);
+			XYZ duvkl = (1 - bl) * (colTotalLen[l] * td[k][l][0] - colTotalLen[l - 1] * td[k][l - 1][0]) / (vb[l] - vb[l - 1]) + bl * (colTotalLen[l + 1] * td[k][l + 1][0] - colTotalLen[l] * td[k][l][0]) / (vb[l + 1] - vb[l]);
 
 			td[k][l][2] = (ak * duvkl + bl * dvukl) / (ak + bl);
 		}
@@ -2437,14 +2439,14 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 	knotVectorU.resize(nu + degreeU + 1);
 	for (int i = 0; i <= degreeU; ++i) knotVectorU[i] = 0.0;
 	for (int i = 1; i < nu - degreeU; ++i) {
-		knotVectorU[degreeU + i] = ub[i];
+		knotVectorU[degreeU + i] = ub[(i + 1) / 2];
 	}
 	for (int i = nu; i < static_cast<int>(knotVectorU.size()); ++i) knotVectorU[i] = 1.0;
 
 	knotVectorV.resize(nv + degreeV + 1);
 	for (int i = 0; i <= degreeV; ++i) knotVectorV[i] = 0.0;
 	for (int i = 1; i < nv - degreeV; ++i) {
-		knotVectorV[degreeV + i] = vb[i];
+		knotVectorV[degreeV + i] = vb[(i + 1) / 2];
 	}
 	for (int i = nv; i < static_cast<int>(knotVectorV.size()); ++i) knotVectorV[i] = 1.0;
 
-- 
2.43.0


From cb0010ed94db51b07cc6218a4485870fe7943809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:15 +0000
Subject: [PATCH 42/94] fix: CreateLoftSurface merges the knot vectors of its
 sections

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 65e3646..466cca7 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2650,10 +2650,27 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			current.KnotVector = tc.KnotVector;
 			current.ControlPoints = tc.ControlPoints;
 		}
-		curvesControlPoints[k] = current.ControlPoints;
 		internals[k] = current;
 	}
 
+	// bring all sections to a common knot vector
+	std::vector<std::vector<double>> sectionKnotVectors(size);
+	for (int k = 0; k < size; k++)
+	{
+		sectionKnotVectors[k] = internals[k].KnotVector;
+	}
+	std::vector<std::vector<double>> insertElements = KnotVectorUtils::GetInsertedKnotElements(sectionKnotVectors);
+	for (int k = 0; k < size; k++)
+	{
+		if (insertElements[k].size() > 0)
+		{
+			LN_NurbsCurve tc;
+			NurbsCurve::RefineKnotVector(internals[k], insertElements[k], tc);
+			internals[k] = tc;
+		}
+		curvesControlPoints[k] = internals[k].ControlPoints;
+	}
+
 	int degreeU = degree_max;
 	int degreeV = degree_max;
 
-- 
2.43.0


From b901e109078d18188fa58ebd09a764f18cffe182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:15 +0000
Subject: [PATCH 43/94] fix: CreateLoftSurface interpolates sections with
 differing weights

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 466cca7..07adf6d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2714,21 +2714,22 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 	for (int c = 0; c < column; c++)
 	{
 		std::vector<XYZ> temp(size);
-		std::vector<double> weightCache(size);
+		std::vector<XYZ> weights(size);
 		for (int k = 0; k < size; k++)
 		{
 			XYZW cp = curvesControlPoints[k][c];
-			double w = cp.GetW();
-			weightCache[k] = w;
-			temp[k] = XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w);
+			weights[k] = XYZ(cp.GetW(), 0, 0);
+			temp[k] = XYZ(cp.GetWX(), cp.GetWY(), cp.GetWZ());
 		}
+		// interpolate the homogeneous coordinates
 		LN_NurbsCurve tc;
 		NurbsCurve::GlobalInterpolation(degreeV, temp, tc, vl);
+		LN_NurbsCurve tw;
+		NurbsCurve::GlobalInterpolation(degreeV, weights, tw, vl);
 		for (int i = 0; i < tc.ControlPoints.size(); i++)
 		{
 			XYZW cp = tc.ControlPoints[i];
-			double w = cp.GetW();
-			tc.ControlPoints[i] = XYZW(XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w), weightCache[i]);
+			tc.ControlPoints[i] = XYZW(cp.GetWX(), cp.GetWY(), cp.GetWZ(), tw.ControlPoints[i].GetWX());
 		}
 		controlPoints.emplace_back(tc.ControlPoints);
 	}
-- 
2.43.0


From e5fb3cf43348d02667266e4216d5a4de4923bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:15 +0000
Subject: [PATCH 44/94] fix: CreateLoftSurface accepts control points common to
 all sections

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 07adf6d..737be28 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2686,6 +2686,7 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			std::vector<XYZW> current = curvesControlPoints[k];
 			int n = current.size() - 1;
 			double sum = 0.0;
+			int count = 0;
 			for (int i = 0; i <= n; i++)
 			{
 				double delta = curvesControlPoints[k][i].ToXYZ(true).Distance(curvesControlPoints[k - 1][i].ToXYZ(true));
@@ -2697,10 +2698,16 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 				}
 
 				double di = Interpolation::GetTotalChordLength(tempPoints);
+				if (MathUtils::IsAlmostEqualTo(di, 0.0))
+				{
+					// this control point does not move from section to section
+					continue;
+				}
 				sum += delta / di;
+				count++;
 			}
 
-			vl[k] = vl[k - 1] + (1.0 / (n + 1)) * sum;
+			vl[k] = vl[k - 1] + sum / count;
 		}
 	}
 	else
-- 
2.43.0


From b30858ef2fb10d74bee1b663e7301e3fbdaaad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:15 +0000
Subject: [PATCH 45/94] fix: MakeCornerFilletSurface returns a complete surface
 that lies on the sphere

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 37 ++++++++++++---------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 737be28..51c0821 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2124,22 +2124,25 @@ void LNLib::NurbsSurface::MakeCornerFilletSurface(const LN_NurbsCurve& arc, LN_N
 		}
 	}
 
-	std::vector<std::vector<XYZW>> b(5, std::vector<XYZW>(3));
-	b[0][0] = XYZW(0, 0, 0, 4 * radius2 * h[0][0]);
-	b[0][1] = XYZW(4 * radius2 * u[0][1] * h[0][0], 0, 0, 1);
-	b[0][2] = XYZW(0, 0, 2 * radius * pow(u[0][1], 2), pow(u[0][1], 2));
-	b[1][0] = XYZW(0, 0, 0, 4 * radius2 * pow(h[0][0], 2));
-	b[1][1] = XYZW(4 * radius2 * (u[1][1] * h[0][0] + u[0][1] * h[1][0]), 4 * radius2 * v[1][1] * h[0][0], 0, 1);
-	b[1][2] = XYZW(0, 0, 4 * radius * u[0][1] * u[1][1], 2 * u[0][1] * u[1][1]);
-	b[2][0] = XYZW(0, 0, 0, 4 * radius2 * (pow(h[1][0], 2) + 2 * h[0][0] * h[2][0]));
-	b[2][1] = XYZW(4 * radius2 * (u[2][1] * h[0][0] + u[1][1] * h[1][0] + u[0][1] * h[2][0]), 4 * radius2 * (v[2][1] * h[0][0] + v[1][1] * h[1][0]), 0, 1);
-	b[2][2] = XYZW(0, 0, 2 * radius * (pow(u[1][1], 2) + 2 * u[0][1] * u[2][1] + pow(v[1][1], 2)), pow(u[1][1], 2) + 2 * u[0][1] * u[2][1] + pow(v[1][1], 2));
-	b[3][0] = XYZW(0, 0, 0, 8 * radius2 * h[1][0] * h[2][0]);
-	b[3][1] = XYZW(4 * radius2 * (u[2][1] * h[1][0] + u[1][1] * h[2][0]), 4 * radius2 * (v[1][1] * h[2][0] + v[2][1] * h[1][0]), 0, 1);
-	b[3][2] = XYZW(0, 0, 4 * radius * (u[1][1] * u[2][1] + v[1][1] * v[2][1]), 2 * (u[1][1] * u[2][1] + v[1][1] * v[2][1]));
-	b[4][0] = XYZW(0, 0, 0, 4 * radius2 * pow(h[2][0], 2));
-	b[4][1] = XYZW(4 * radius2 * u[2][1] * h[2][0], 4 * radius2 * v[2][1] * h[2][0], 0, 1);
-	b[4][2] = XYZW(0, 0, 2 * radius * (pow(u[2][1], 2) + pow(v[2][1], 2)), pow(u[2][1], 2) + pow(v[2][1], 2));
+	std::vector<std::vector<XYZW>> b(5, std::vector<XYZW>(3, XYZW(0, 0, 0, 0)));
+	// inverse stereographic projection of the plane surface (u, v, h) onto the sphere
+	for (int i = 0; i < 3; i++)
+	{
+		for (int k = 0; k < 3; k++)
+		{
+			for (int j = 0; j < 2; j++)
+			{
+				for (int l = 0; l < 2; l++)
+				{
+					double uh = 4 * radius2 * u[i][j] * h[k][l];
+					double vh = 4 * radius2 * v[i][j] * h[k][l];
+					double hh = 4 * radius2 * h[i][j] * h[k][l];
+					double rr = u[i][j] * u[k][l] + v[i][j] * v[k][l];
+					b[i + k][j + l] = b[i + k][j + l] + XYZW(uh, vh, 2 * radius * rr, rr + hh);
+				}
+			}
+		}
+	}
 
 	std::vector<std::vector<double>> M4 = Polynomials::BezierToPowerMatrix(4);
 	std::vector<std::vector<double>> IM4;
@@ -2155,6 +2158,8 @@ void LNLib::NurbsSurface::MakeCornerFilletSurface(const LN_NurbsCurve& arc, LN_N
 
 	surface.DegreeU = 4;
 	surface.DegreeV = 2;
+	surface.KnotVectorU = { 0, 0, 0, 0, 0, 1, 1, 1, 1, 1 };
+	surface.KnotVectorV = { 0, 0, 0, 1, 1, 1 };
 	surface.ControlPoints = controlPoints;
 }
 
-- 
2.43.0


From 1885873aede8eccfcc502be87d5de5592b7fec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:15 +0000
Subject: [PATCH 46/94] fix: CreateSweepSurface keeps the sections
 perpendicular to curved trajectories

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 51c0821..3a2ef32 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2839,7 +2839,7 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 		// Build local coordinate system for the section.
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(trajectoryCopy, 1, vk[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(trajectoryCopy.Degree, trajectoryCopy.KnotVector, vk[k]);
-		const XYZ& xdir = Bv[spanIndex];
+		XYZ xdir = (Bv[spanIndex] - Bv[spanIndex].DotProduct(zdir) * zdir).Normalize();
 		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
 
 		// Transform the input profile to the lofting position.
@@ -2893,7 +2893,7 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	{
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(path, 1, segments[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(path.Degree, path.KnotVector, segments[k]);
-		XYZ xdir = Bv[spanIndex];
+		XYZ xdir = (Bv[spanIndex] - Bv[spanIndex].DotProduct(zdir) * zdir).Normalize();
 		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
 
 		std::vector<XYZW> transformedControlPoints(profileCpSize);
-- 
2.43.0


From e0cf2ca3b8cb06fb1d8ce578054ebb4182c1619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:15 +0000
Subject: [PATCH 47/94] fix: ProjectNormal on closed curves stays in bounds and
 perpendicular to the curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 6557ba8..1bde1db 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -401,19 +401,23 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 	{
 		Blist[m] = Blist[0];
 
-		std::vector<XYZ> Baver(m);
+		std::vector<XYZ> Baver(size);
 		Baver[m] = Blist[0];
 
 		for (int i = m - 1; i >= 1; i--)
 		{
-			XYZ Ti1 = ComputeRationalCurveDerivatives(curve, 1, knotVector[i + 1])[1].Normalize();
-			XYZ bi = Baver[i + 1] + Ti1;
+			XYZ Ti = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+			XYZ bi = Baver[i + 1] - (Baver[i + 1].DotProduct(Ti)) * Ti;
 			Baver[i] = bi.Normalize();
 		}
 
 		for (int i = 1; i <= m - 1; i++)
 		{
-			Blist[i] = 0.5 * (Blist[i] + Baver[i]);
+			XYZ average = 0.5 * (Blist[i] + Baver[i]);
+			if (!average.IsZero())
+			{
+				Blist[i] = average.Normalize();
+			}
 		}
 	}
 	return Blist;
-- 
2.43.0


From 38015aa02f65a0796500071a258d2202a43c9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:15 +0000
Subject: [PATCH 48/94] fix: GetParamOnSurfaceByGSA starts inside the parameter
 range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 3a2ef32..730e21e 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1573,8 +1573,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 	double minV = knotVectorV[0];
 	double maxV = knotVectorV[knotVectorV.size() - 1];
 
-	double u0 = (maxU - minU) * 0.5;
-	double v0 = (maxV - minV) * 0.5;
+	double u0 = (minU + maxU) * 0.5;
+	double v0 = (minV + maxV) * 0.5;
 
 	int counter = 0;
 
-- 
2.43.0


From 4e47e5c40e9a762bb6701127c21658536cc7cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:56 +0000
Subject: [PATCH 49/94] fix: CreateGordonSurface uses one set of degrees and
 parameters for lofts and interpolation

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 730e21e..6a4fe7c 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3012,11 +3012,17 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 
 	int rows = intersectionPoints.size();
 	int columns = intersectionPoints[0].size();
+	int degreeU = std::min(columns - 1, degree_u_max);
+	int degreeV = std::min(rows - 1, degree_v_max);
+
+	// the lofts and the interpolation must share degrees and parameters
+	std::vector<double> rowParams, columnParams;
+	Interpolation::GetSurfaceMeshParameterization(intersectionPoints, rowParams, columnParams);
 
 	LN_NurbsSurface loftSurfaceV;
-	CreateLoftSurface(uInternals, loftSurfaceV);
+	CreateLoftSurface(uInternals, loftSurfaceV, degreeV, rowParams);
 	LN_NurbsSurface ts;
-	CreateLoftSurface(vInternals, ts);
+	CreateLoftSurface(vInternals, ts, degreeU, columnParams);
 	std::vector<std::vector<XYZW>> transposedControlPoints;
 	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
 	LN_NurbsSurface loftSurfaceU;
@@ -3026,8 +3032,6 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	loftSurfaceU.KnotVectorV = ts.KnotVectorU;
 	loftSurfaceU.ControlPoints = transposedControlPoints;
 
-	int degreeU = std::min(columns - 1, degree_u_max);
-	int degreeV = std::min(rows - 1, degree_v_max);
 	GlobalInterpolation(intersectionPoints, degreeV, degreeU, ts);
 	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
 	LN_NurbsSurface interpolatedSurface;
-- 
2.43.0


From 8db21262cad92801ad9628cb1044ca6ff6f3745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:45 +0000
Subject: [PATCH 50/94] fix: CreateSweepSurface with equal arc lengths ends at
 the end of the trajectory

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 6a4fe7c..5759752 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2878,8 +2878,9 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 
 	std::vector<double> segments(nsect);
 	segments[0] = 0.0;
+	segments[nsect - 1] = 1.0;
 	std::vector<double> params = NurbsCurve::GetParamsOnCurve(path, stepLength);
-	for (int i = 0; i < params.size(); i++)
+	for (int i = 0; i < params.size() && i + 1 < nsect - 1; i++)
 	{
 		segments[i + 1] = params[i];
 	}
-- 
2.43.0


From 33268466ec95cd142807afc6b11cc7f3fb9a7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 51/94] fix: ToClampCurve keeps the shape of the curve and
 accepts partly clamped curves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 57 +++++++++++++------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 1bde1db..7a516ab 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3585,43 +3585,44 @@ void LNLib::NurbsCurve::ToClampCurve(const LN_NurbsCurve& curve, LN_NurbsCurve&
 	std::vector<double> knotVector = curve.KnotVector;
 	std::vector<XYZW> controlPoints = curve.ControlPoints;
 
-	int m = knotVector.size() - 1;
-	double up = knotVector[degree];
-	double ump = knotVector[m - degree];
+	int n = controlPoints.size() - 1;
 
-	int upMulti = Polynomials::GetKnotMultiplicity(knotVector, up);
-	int umpMulti = Polynomials::GetKnotMultiplicity(knotVector, ump);
-	
-	LN_NurbsCurve tc;
-	int t1 = InsertKnot(curve, up, degree + 1 - upMulti, tc);
-	LN_NurbsCurve temp;
-	temp = tc;
-	int t2 = InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
+	double start = knotVector[degree];
+	std::vector<XYZW> temp(controlPoints.begin(), controlPoints.begin() + degree + 1);
+	for (int r = 1; r <= degree; r++)
+	{
+		for (int i = degree; i >= r; i--)
+		{
+			double alpha = (start - knotVector[i]) / (knotVector[i + degree + 1 - r] - knotVector[i]);
+			temp[i] = alpha * temp[i] + (1.0 - alpha) * temp[i - 1];
+		}
+		controlPoints[degree - r] = temp[degree];
+	}
+	for (int i = 0; i < degree; i++)
+	{
+		knotVector[i] = start;
+	}
 
-	std::vector<double> kv = tc.KnotVector;
-	std::vector<XYZW> cps = tc.ControlPoints;
-	knotVector.resize(kv.size() - t1 - t2, 0.0);
-	controlPoints.resize(knotVector.size() - degree - 1);
-	for (int i = knotVector.size() - 1; i >= 0; i--)
+	double end = knotVector[n + 1];
+	temp.assign(controlPoints.end() - degree - 1, controlPoints.end());
+	for (int r = 1; r <= degree; r++)
 	{
-		knotVector[i] = kv[i + degree];
-		if (i < controlPoints.size())
+		for (int j = degree; j >= r; j--)
 		{
-			controlPoints[i] = cps[i + degree];
+			int i = n - degree + j;
+			double alpha = (end - knotVector[i]) / (knotVector[i + degree + 1 - r] - knotVector[i]);
+			temp[j] = alpha * temp[j] + (1.0 - alpha) * temp[j - 1];
 		}
+		controlPoints[n - degree + r] = temp[r];
+	}
+	for (int i = n + 2; i < knotVector.size(); i++)
+	{
+		knotVector[i] = end;
 	}
 
-	result.Degree = tc.Degree;
+	result.Degree = degree;
 	result.KnotVector = knotVector;
 	result.ControlPoints = controlPoints;
-
-	bool isClosed = IsClosed(curve);
-	bool isNowClosed = IsClosed(result);
-	if (isClosed && !isNowClosed)
-	{
-		controlPoints[controlPoints.size() - 1] = controlPoints[0];
-		result.ControlPoints = controlPoints;
-	}
 }
 
 bool LNLib::NurbsCurve::IsPeriodic(const LN_NurbsCurve& curve)
-- 
2.43.0


From d9ef10bde4a7200e55f292ec3b52fd886723a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 52/94] fix: IsClosed compares the end points of the curve's
 domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 7a516ab..53cf3a9 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1196,8 +1196,8 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 {
 	std::vector<double> knotVector = curve.KnotVector;
-	double first = knotVector[0];
-	double end = knotVector[knotVector.size() - 1];
+	double first = knotVector[curve.Degree];
+	double end = knotVector[curve.ControlPoints.size()];
 
 	XYZ startPoint = GetPointOnCurve(curve, first);
 	XYZ endPoint = GetPointOnCurve(curve, end);
@@ -1205,6 +1205,7 @@ bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 	double distance = startPoint.Distance(endPoint);
 	bool isMatch = MathUtils::IsAlmostEqualTo(distance, 0.0);
 	if (isMatch) return true;
+	if (IsClamp(curve)) return false;
 
 	std::vector<XYZW> controlPoints = curve.ControlPoints;
 	int n = controlPoints.size() - 1;
-- 
2.43.0


From 20ac43a083f7844ae37a84ab6955300584b41e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 53/94] fix: IsPeriodic compares derivatives at the ends of the
 curve's domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 53cf3a9..c52d44a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3667,8 +3667,8 @@ bool LNLib::NurbsCurve::IsPeriodic(const LN_NurbsCurve& curve)
 		return false;
 	}
 
-	double first = knotVector[0];
-	double end = knotVector[knotVector.size() - 1];
+	double first = knotVector[degree];
+	double end = knotVector[size];
 
 	int cFirst = KnotVectorUtils::GetContinuity(curve.Degree, knotVector, first);
 	int cEnd = KnotVectorUtils::GetContinuity(curve.Degree, knotVector, end);
-- 
2.43.0


From 91b149aa580e1340f29abc6238563d72085fac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 54/94] fix: ApproximateLength of a straight curve that folds
 back on itself

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c52d44a..bdebe5f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3833,7 +3833,20 @@ double LNLib::NurbsCurve::ApproximateLength(const LN_NurbsCurve& curve, Integrat
 		std::vector<XYZW> controlPoints = curve.ControlPoints;
 		XYZ startPoint = controlPoints[0].ToXYZ(true);
 		XYZ endPoint = controlPoints[controlPoints.size() - 1].ToXYZ(true);
-		return startPoint.Distance(endPoint);
+		double distance = startPoint.Distance(endPoint);
+		double polygonLength = 0.0;
+		for (int i = 0; i + 1 < controlPoints.size(); i++)
+		{
+			polygonLength += controlPoints[i].ToXYZ(true).Distance(controlPoints[i + 1].ToXYZ(true));
+		}
+		if (curve.Degree == 1)
+		{
+			return polygonLength;
+		}
+		if (MathUtils::IsAlmostEqualTo(polygonLength, distance))
+		{
+			return distance;
+		}
 	}
 
 	if (curve.Degree == 1 && !isLinear)
-- 
2.43.0


From 603d9fe06407b448287e97399b20e6de08f504c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 55/94] fix: GetParamsOnCurve terminates when the given length
 is too small to split the curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index bdebe5f..12e44a4 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -4180,7 +4180,7 @@ std::vector<double> LNLib::NurbsCurve::GetParamsOnCurve(const LN_NurbsCurve& cur
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
 		bool isSplited = SplitAt(curve, param, left, right);
-		if (!isSplited) continue;
+		if (!isSplited) break;
 		param = GetParamOnCurve(right, givenLength, type);
 	}
 	return result;
-- 
2.43.0


From ee1ee38e5dbfeb2e565dfb3a61d8c0b340c03c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 56/94] fix: GetInsertedKnotElement counts the multiplicity of
 interior parameters

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 9d8c456..5949a48 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -87,9 +87,6 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElement(
 		if (MathUtils::IsAlmostEqualTo(k, startParam)) {
 			++startMulti;
 		}
-		else {
-			break; 
-		}
 	}
 
 	if (startMulti < degree + 1) { 
@@ -104,9 +101,6 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElement(
 		if (MathUtils::IsAlmostEqualTo(*it, endParam)) {
 			++endMulti;
 		}
-		else {
-			break;
-		}
 	}
 
 	if (endMulti < degree + 1) {
-- 
2.43.0


From 6c0fc7abe228f78bc1c802858c3b1e436559bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 57/94] fix: IsUniform and GetInternalKnotMultiplicityMap
 handle a single distinct knot

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 5949a48..ae79e0a 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -128,7 +128,11 @@ std::map<double, int> LNLib::KnotVectorUtils::GetKnotMultiplicityMap(const std::
 std::map<double, int> LNLib::KnotVectorUtils::GetInternalKnotMultiplicityMap(const std::vector<double>& knotVector)
 {
 	auto result = GetKnotMultiplicityMap(knotVector);
-	if (!result.empty()) 
+	if (result.size() < 2)
+	{
+		result.clear();
+	}
+	else
 	{
 		result.erase(result.begin());
 		auto lastElementIterator = prev(result.end(), 1);
@@ -287,6 +291,10 @@ bool LNLib::KnotVectorUtils::IsUniform(const std::vector<double>& knotVector)
 	{
 		return false;
 	}
+	if (knots.size() < 2)
+	{
+		return false;
+	}
 	double standard = knots[1] - knots[0];
 	for (int i = 1; i < knots.size() - 1; i++)
 	{
-- 
2.43.0


From 93160d1712ada9ab4dc60d5c908cadf4f1686738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 58/94] fix: InsertKnot at the end of an unclamped curve's
 domain keeps the curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 12e44a4..fc6f56d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -460,6 +460,10 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 		result = curve;
 		return 0;
 	}
+	while (knotSpanIndex + 2 < knotVector.size() && MathUtils::IsAlmostEqualTo(insertKnot, knotVector[knotSpanIndex + 1]))
+	{
+		knotSpanIndex++;
+	}
 	
 	std::vector<double> insertedKnotVector(knotVector.size() + times);
 	for (int i = 0; i <= knotSpanIndex; i++)
-- 
2.43.0


From ab19fbf0ca20477cbadd0e1f26cece8c17e29f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:29 +0000
Subject: [PATCH 59/94] fix: GetPointOnCurveByCornerCut at the end of an
 unclamped curve's domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index fc6f56d..7aa9cfd 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -544,6 +544,10 @@ LNLib::XYZ LNLib::NurbsCurve::GetPointOnCurveByCornerCut(const LN_NurbsCurve& cu
 
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, paramT);
 	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, paramT);
+	while (knotSpanIndex + 2 < knotVector.size() && MathUtils::IsAlmostEqualTo(paramT, knotVector[knotSpanIndex + 1]))
+	{
+		knotSpanIndex++;
+	}
 
 	int times = degree - originMultiplicity;
 	std::vector<XYZW> temp(times + 1);
-- 
2.43.0


From ecdb734cba32a65008cc6a030e41e2ff7ff013ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:29 +0000
Subject: [PATCH 60/94] fix: InsertKnot at the end of an unclamped surface's
 domain keeps the surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 5759752..35d6bb0 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -583,6 +583,10 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 	{
 		times = degree - multiplicity;
 	}
+	while (knotSpanIndex + 2 < knotVector.size() && MathUtils::IsAlmostEqualTo(insertKnot, knotVector[knotSpanIndex + 1]))
+	{
+		knotSpanIndex++;
+	}
 
 	std::vector<double> insertedKnotVector(knotVector.size() + times);
 	for (int i = 0; i <= knotSpanIndex; i++)
-- 
2.43.0


From cd3178040e37bd450cba468f3f7e57bef32ac1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 61/94] fix: curve point inversion stays in the domain and
 returns the nearest parameter it met

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 49 ++++++++++++++-----------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 7aa9cfd..b4a1db7 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1182,7 +1182,7 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 	const auto& knotVector = curve.KnotVector;
 	const auto& controlPoints = curve.ControlPoints;
 
-	std::vector<double> uniqueKv = knotVector;
+	std::vector<double> uniqueKv(knotVector.begin() + degree, knotVector.begin() + controlPoints.size() + 1);
 	uniqueKv.erase(unique(uniqueKv.begin(), uniqueKv.end()), uniqueKv.end());
 	int size = uniqueKv.size();
 	int num = 100;
@@ -1252,8 +1252,8 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 	const auto& knotVector = curve.KnotVector;
 	const auto& controlPoints = curve.ControlPoints;
 
-	double minParam = knotVector[0];
-	double maxParam = knotVector[knotVector.size() - 1];
+	double minParam = knotVector[degree];
+	double maxParam = knotVector[controlPoints.size()];
 	bool isClosed = IsClosed(curve);
 
 	std::vector<XYZ> tessellatedPoints;
@@ -1293,6 +1293,8 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 	}
 
 	double paramT = bestT;
+	double nearestT = bestT;
+	double nearestDist = std::numeric_limits<double>::max();
 	int maxIterations = 20;
 
 	for (int iter = 0; iter < maxIterations; ++iter)
@@ -1309,22 +1311,22 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		if (currentDist < Constants::DistanceEpsilon) {
 			return paramT;
 		}
+		if (currentDist < nearestDist) {
+			nearestDist = currentDist;
+			nearestT = paramT;
+		}
 
 		double f = Ct.DotProduct(diff);
 		double df = Ct.DotProduct(Ct) + diff.DotProduct(Ctt);
-
-		if (std::abs(df) < Constants::DoubleEpsilon) {
+		if (df < Constants::DoubleEpsilon) {
+			df = Ct.DotProduct(Ct);
+		}
+		if (df < Constants::DoubleEpsilon) {
 			break;
 		}
 
 		double deltaT = f / df;
 		double newT = paramT - deltaT;
-
-		if (std::abs(deltaT * Ct.Length()) < Constants::DistanceEpsilon) {
-			paramT = newT;
-			break;
-		}
-
 		if (!isClosed) {
 			newT = std::max(minParam, std::min(maxParam, newT));
 		}
@@ -1335,9 +1337,16 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		}
 
 		paramT = newT;
+		if (std::abs(deltaT * Ct.Length()) < Constants::DistanceEpsilon) {
+			break;
+		}
 	}
 
-	return paramT;
+	XYZ lastPoint = GetPointOnCurve(curve, paramT);
+	if (lastPoint.Distance(givenPoint) <= nearestDist) {
+		return paramT;
+	}
+	return nearestT;
 }
 
 std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve& curve, const XYZ& givenPoint)
@@ -1357,8 +1366,8 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 	std::vector<double> knotVector = curve.KnotVector;
 	std::vector<XYZW> controlPoints = curve.ControlPoints;
 
-	double minParam = knotVector[0];
-	double maxParam = knotVector[knotVector.size() - 1];
+	double minParam = knotVector[degree];
+	double maxParam = knotVector[controlPoints.size()];
 	bool isClosed = IsClosed(curve);
 
 	std::vector<XYZ> tessellatedPoints;
@@ -1417,21 +1426,19 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			double deltaT = f / df;
 			double newT = paramT - deltaT;
 
-			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
-				paramT = newT;
-				break;
-			}
-
 			if (!isClosed) {
 				newT = std::max(minParam, std::min(maxParam, newT));
 			}
 			else {
 				double range = maxParam - minParam;
-				while (MathUtils::IsLessThan(newT, minParam)) newT += range;
-				while (MathUtils::IsGreaterThan(newT, maxParam)) newT -= range;
+				while (newT < minParam) newT += range;
+				while (newT > maxParam) newT -= range;
 			}
 
 			paramT = newT;
+			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
+				break;
+			}
 		}
 
 		bool isDuplicate = false;
-- 
2.43.0


From 0a543f4e049141285627207244d9adeffb50506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 62/94] fix: surface point inversion handles the borders and
 never ends farther than it started

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 73 +++++++++++++++------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 35d6bb0..1a30184 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1289,10 +1289,10 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
-	double minU = knotVectorU[0];
-	double maxU = knotVectorU[knotVectorU.size() - 1];
-	double minV = knotVectorV[0];
-	double maxV = knotVectorV[knotVectorV.size() - 1];
+	double minU = knotVectorU[degreeU];
+	double maxU = knotVectorU[controlPoints.size()];
+	double minV = knotVectorV[degreeV];
+	double maxV = knotVectorV[controlPoints[0].size()];
 
 	bool isClosedU = IsClosed(surface, true);
 	bool isClosedV = IsClosed(surface, false);
@@ -1302,7 +1302,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 	EquallyTessellate(surface, tessellatedPoints, correspondingKnots);
 
 	double minDistanceSquared = std::numeric_limits<double>::max();
-	UV bestParam(Constants::DoubleEpsilon, Constants::DoubleEpsilon);
+	UV bestParam(minU, minV);
 
 	for (int i = 0; i < tessellatedPoints.size() - 1; ++i)
 	{
@@ -1310,6 +1310,10 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		const XYZ& P1 = tessellatedPoints[i + 1];
 		const UV& UV0 = correspondingKnots[i];
 		const UV& UV1 = correspondingKnots[i + 1];
+		if (UV0.GetU() != UV1.GetU())
+		{
+			continue;
+		}
 
 		XYZ seg = P1 - P0;
 		double segLenSq = seg.DotProduct(seg);
@@ -1333,6 +1337,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 	}
 
 	UV param = bestParam;
+	UV nearestParam = bestParam;
+	double nearestDist = std::numeric_limits<double>::max();
 	int maxIterations = 20;
 
 	for (int iter = 0; iter < maxIterations; ++iter)
@@ -1353,6 +1359,10 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
 			return param;
 		}
+		if (currentDist < nearestDist) {
+			nearestDist = currentDist;
+			nearestParam = param;
+		}
 
 		
 		double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
@@ -1363,7 +1373,28 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		double K0 = Su.DotProduct(diff);
 		double K1 = Sv.DotProduct(diff);
 
+		// A coordinate whose bound keeps the foot point from moving closer stays on that bound.
+		bool isBoundU = !isClosedU && ((param.GetU() <= minU && K0 > 0) || (param.GetU() >= maxU && K0 < 0));
+		bool isBoundV = !isClosedV && ((param.GetV() <= minV && K1 > 0) || (param.GetV() >= maxV && K1 < 0));
+		if (isBoundU && isBoundV) {
+			break;
+		}
+		if (isBoundU) {
+			J00 = 1.0;
+			J01 = J10 = K0 = 0.0;
+		}
+		if (isBoundV) {
+			J11 = 1.0;
+			J01 = J10 = K1 = 0.0;
+		}
+
 		double determinant = J00 * J11 - J01 * J10;
+		if (J00 <= 0 || determinant <= 0) {
+			J00 = isBoundU ? 1.0 : Su.DotProduct(Su);
+			J01 = J10 = (isBoundU || isBoundV) ? 0.0 : Su.DotProduct(Sv);
+			J11 = isBoundV ? 1.0 : Sv.DotProduct(Sv);
+			determinant = J00 * J11 - J01 * J10;
+		}
 
 		if (MathUtils::IsAlmostEqualTo(std::abs(determinant), 0.0)) {
 			break;
@@ -1376,10 +1407,6 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		double newV = param.GetV() + deltaV;
 
 		XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-			param = UV(newU, newV);
-			break;
-		}
 
 		if (isClosedU) {
 			double rangeU = maxU - minU;
@@ -1400,9 +1427,16 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		}
 
 		param = UV(newU, newV);
+		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
+			break;
+		}
 	}
 
-	return param;
+	XYZ lastPoint = GetPointOnSurface(surface, param);
+	if (lastPoint.Distance(givenPoint) <= nearestDist) {
+		return param;
+	}
+	return nearestParam;
 }
 
 std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_NurbsSurface& surface, const XYZ& givenPoint)
@@ -1413,10 +1447,10 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
-	double minU = knotVectorU[0];
-	double maxU = knotVectorU[knotVectorU.size() - 1];
-	double minV = knotVectorV[0];
-	double maxV = knotVectorV[knotVectorV.size() - 1];
+	double minU = knotVectorU[degreeU];
+	double maxU = knotVectorU[controlPoints.size()];
+	double minV = knotVectorV[degreeV];
+	double maxV = knotVectorV[controlPoints[0].size()];
 
 	bool isClosedU = IsClosed(surface, true);
 	bool isClosedV = IsClosed(surface, false);
@@ -1515,15 +1549,11 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 			double newV = param.GetV() + deltaV;
 
 			XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-			if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-				param = UV(newU, newV);
-				break;
-			}
 
 			if (isClosedU) {
 				double rangeU = maxU - minU;
-				while (MathUtils::IsLessThan(newU, minU)) newU += rangeU;
-				while (MathUtils::IsGreaterThan(newU, maxU)) newU -= rangeU;
+				while (newU < minU) newU += rangeU;
+				while (newU > maxU) newU -= rangeU;
 			}
 			else {
 				newU = std::max(minU, std::min(maxU, newU));
@@ -1539,6 +1569,9 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 			}
 
 			param = UV(newU, newV);
+			if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
+				break;
+			}
 		}
 
 		bool isDuplicate = false;
-- 
2.43.0


From 807369b246dd25a69995ab631779a2c062c97f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 63/94] fix: surface tessellation covers the domain of an
 unclamped surface, not its knot range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1a30184..9c82311 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1179,11 +1179,11 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
-	std::vector<double> uniqueKvU = knotVectorU;
+	std::vector<double> uniqueKvU(knotVectorU.begin() + degreeU, knotVectorU.begin() + controlPoints.size() + 1);
 	uniqueKvU.erase(unique(uniqueKvU.begin(), uniqueKvU.end()), uniqueKvU.end());
 	int sizeU = uniqueKvU.size();
 
-	std::vector<double> uniqueKvV = knotVectorV;
+	std::vector<double> uniqueKvV(knotVectorV.begin() + degreeV, knotVectorV.begin() + controlPoints[0].size() + 1);
 	uniqueKvV.erase(unique(uniqueKvV.begin(), uniqueKvV.end()), uniqueKvV.end());
 	int sizeV = uniqueKvV.size();
 
@@ -1223,8 +1223,9 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 		}
 	}
 
-	correspondingKnots.emplace_back(UV(knotVectorU[knotVectorU.size() - 1], knotVectorV[knotVectorV.size() - 1]));
-	tessellatedPoints.emplace_back(const_cast<XYZW&>(controlPoints[controlPoints.size() - 1][controlPoints[0].size() - 1]).ToXYZ(true));
+	UV last = UV(uniqueKvU[sizeU - 1], uniqueKvV[sizeV - 1]);
+	correspondingKnots.emplace_back(last);
+	tessellatedPoints.emplace_back(GetPointOnSurface(surface, last));
 }
 
 bool LNLib::NurbsSurface::IsClosed(const LN_NurbsSurface& surface, bool isUDirection)
@@ -1459,11 +1460,11 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 	std::vector<UV> correspondingKnots;
 	EquallyTessellate(surface, tessellatedPoints, correspondingKnots);
 
-	std::vector<double> uniqueKvU = knotVectorU;
+	std::vector<double> uniqueKvU(knotVectorU.begin() + degreeU, knotVectorU.begin() + controlPoints.size() + 1);
 	uniqueKvU.erase(std::unique(uniqueKvU.begin(), uniqueKvU.end()), uniqueKvU.end());
 	int sizeU = uniqueKvU.size();
 
-	std::vector<double> uniqueKvV = knotVectorV;
+	std::vector<double> uniqueKvV(knotVectorV.begin() + degreeV, knotVectorV.begin() + controlPoints[0].size() + 1);
 	uniqueKvV.erase(std::unique(uniqueKvV.begin(), uniqueKvV.end()), uniqueKvV.end());
 	int sizeV = uniqueKvV.size();
 
-- 
2.43.0


From 636839c744b344b0ef183d4c78b5734da68dc638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 64/94] fix: volume point inversion stays in the domain

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 08621d6..d61dfad 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1270,9 +1270,9 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 	std::vector<double> kvV = volume.KnotVectorV;
 	std::vector<double> kvW = volume.KnotVectorW;
 
-	double minU = kvU[0], maxU = kvU[kvU.size() - 1];
-	double minV = kvV[0], maxV = kvV[kvV.size() - 1];
-	double minW = kvW[0], maxW = kvW[kvW.size() - 1];
+	double minU = kvU[volume.DegreeU], maxU = kvU[volume.ControlPoints.size()];
+	double minV = kvV[volume.DegreeV], maxV = kvV[volume.ControlPoints[0].size()];
+	double minW = kvW[volume.DegreeW], maxW = kvW[volume.ControlPoints[0][0].size()];
 
 	bool isClosedU = IsClosed(volume, VolumeDirection::U);
 	bool isClosedV = IsClosed(volume, VolumeDirection::V);
@@ -1377,10 +1377,6 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 		double newW = param.GetW() + deltaW;
 
 		XYZ deltaWorld = Vu * deltaU + Vv * deltaV + Vw * deltaW;
-		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0, LNLib::Constants::DistanceEpsilon)) {
-			param = UVW(newU, newV, newW);
-			break;
-		}
 
 		if (isClosedU) {
 			double range = maxU - minU;
@@ -1410,6 +1406,9 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 		}
 
 		param = UVW(newU, newV, newW);
+		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0, LNLib::Constants::DistanceEpsilon)) {
+			break;
+		}
 	}
 
 	return param;
-- 
2.43.0


From c9dbb9b790de4ea2b2c16b4661e4c0e7d5abac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 65/94] fix: curve tessellation refines point-symmetric pieces
 and stays in the domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b4a1db7..79c6334 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -126,6 +126,12 @@ namespace LNLib
 		XYZ chordMid = (p0 + p2) * 0.5;
 		double deviation = p1.Distance(chordMid);
 
+		// A point-symmetric piece crosses its chord in the middle, the quarters tell it from a straight one.
+		XYZ quarter0 = NurbsCurve::GetPointOnCurve(curve, (start + mid) * 0.5);
+		XYZ quarter1 = NurbsCurve::GetPointOnCurve(curve, (mid + end) * 0.5);
+		deviation = std::max(deviation, quarter0.Distance(p0 * 0.75 + p2 * 0.25));
+		deviation = std::max(deviation, quarter1.Distance(p0 * 0.25 + p2 * 0.75));
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(deviation,0.0)) {
 			parameters.emplace_back(mid);
 		}
@@ -4207,7 +4213,7 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::Tessellate(const LN_NurbsCurve& curve
 		return ControlPointsUtils::ToXYZ(curve.ControlPoints);
 	}
 
-	std::vector<double> uniqueKnots = curve.KnotVector;
+	std::vector<double> uniqueKnots(curve.KnotVector.begin() + curve.Degree, curve.KnotVector.begin() + curve.ControlPoints.size() + 1);
 	std::sort(uniqueKnots.begin(), uniqueKnots.end());
 	uniqueKnots.erase(std::unique(uniqueKnots.begin(), uniqueKnots.end()), uniqueKnots.end());
 
-- 
2.43.0


From d2a19399e7a29751f66da00a21f77ac0e459c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 66/94] fix: grid triangulation covers the whole parameter
 domain

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9c82311..1c5cc65 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3980,13 +3980,18 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		std::vector<std::vector<XYZ>> points(resolutionU, std::vector<XYZ>(resolutionV));
 		std::vector<std::vector<UV>> uvs(resolutionU, std::vector<UV>(resolutionV));
 
+		double minU = surface.KnotVectorU[surface.DegreeU];
+		double maxU = surface.KnotVectorU[surface.ControlPoints.size()];
+		double minV = surface.KnotVectorV[surface.DegreeV];
+		double maxV = surface.KnotVectorV[surface.ControlPoints[0].size()];
+
 		for (int i = 0; i < resolutionU; ++i)
 		{
 			double u = (double)i / (resolutionU - 1);
 			for (int j = 0; j < resolutionV; ++j)
 			{
 				double v = (double)j / (resolutionV - 1);
-				points[i][j] = GetPointOnSurface(surface, UV(u, v));
+				points[i][j] = GetPointOnSurface(surface, UV(minU + u * (maxU - minU), minV + v * (maxV - minV)));
 				uvs[i][j] = { u, v };
 			}
 		}
-- 
2.43.0


From a9b0c69aa44aa58d384b368364bf4187fa27211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 67/94] fix: Delaunay triangulation reaches the end borders of
 the surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1c5cc65..c134a57 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3914,6 +3914,17 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 			}
 		}
 
+		for (int i = 0; i < samplesU - 1; i++)
+		{
+			newU.emplace_back(us[i]);
+			newV.emplace_back(vs[samplesV - 1]);
+		}
+		for (int j = 0; j < samplesV; j++)
+		{
+			newU.emplace_back(us[samplesU - 1]);
+			newV.emplace_back(vs[j]);
+		}
+
 #pragma region Delaunay Triangulation
 		std::vector<double> usList;
 		usList.insert(usList.end(), newU.begin(), newU.end());
-- 
2.43.0


From 5bfd5cfbe4da7cb3ca66fb3c649b56d059e2c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 68/94] fix: bounding box samples the whole knot lattice of the
 surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index c134a57..e8745ce 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -351,12 +351,14 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 	}
 
 	LN_BoundingBox3d box1;
-	for (int i = 0; i < surface.KnotVectorU.size() - 1; i++)
+	box1.MinPoint = box0.MaxPoint;
+	box1.MaxPoint = box0.MinPoint;
+	for (int i = surface.DegreeU; i <= controlPoints.size(); i++)
 	{
-		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
+		for (int j = surface.DegreeV; j <= controlPoints[0].size(); j++)
 		{
 			double u = surface.KnotVectorU[i];
-			double v = surface.KnotVectorV[i];
+			double v = surface.KnotVectorV[j];
 
 			XYZ pt = GetPointOnSurface(surface, UV(u,v));
 			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
-- 
2.43.0


From b25b680dc560d1fba2db3176f7efaa272f793dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 69/94] fix: conic fit uses the run's end tangents for the
 weight of each point

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 79c6334..9af5df5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3011,10 +3011,11 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 			return false;	
 		}
 		double wi = 0.0;
-		if (CreateOneConicArc(startPoint, V, R, V1, throughPoints[i], dummy, wi))
+		if (!CreateOneConicArc(startPoint, startTangent, endPoint, endTangent, throughPoints[i], dummy, wi))
 		{
-			s = s + wi / (1 + wi);
+			return false;
 		}
+		s = s + wi / (1 + wi);
 	}
 	
 	s = s / (endPointIndex - startPointIndex - 1);
-- 
2.43.0


From 1a2489b700aede9d7d14516a753919aff37f6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 70/94] fix: Newton iteration for the cubic equation starts
 inside the unit interval

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index 538b625..17bdd54 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -124,7 +124,7 @@ double LNLib::MathUtils::Binomial(int number, int i)
 double LNLib::MathUtils::ComputerCubicEquationsWithOneVariable(double cubic, double quadratic, double linear, double constant)
 {
     double result;
-    double initial = 0.001;
+    double initial = 0.5;
     result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
     while(MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon))
     {
-- 
2.43.0


From b53e35a5339aeac6e1f12e54a76e78887fb376ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 71/94] fix: cubic fit works for runs with points between the
 ends

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 76 ++++++++++++++-----------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 9af5df5..afec65e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3088,7 +3088,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	int dk = endPointIndex - startPointIndex;
 	bool isLine = true;
 	XYZ tempStandard(0, 0, 0);
-	for (int i = startPointIndex; i < dk + 1; i++)
+	for (int i = startPointIndex + 1; i <= endPointIndex; i++)
 	{
 		XYZ tp = throughPoints[i];
 		XYZ direction = (tp - startPoint).Normalize();
@@ -3113,7 +3113,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		middleControlPoints.emplace_back(P2);
 		return true;
 	}
-	std::vector<XYZ> newThroughPoints(endPointIndex - startPointIndex + 1);
+	std::vector<XYZ> newThroughPoints;
 	for (int i = startPointIndex; i <= endPointIndex; i++)
 	{
 		newThroughPoints.emplace_back(throughPoints[i]);
@@ -3135,19 +3135,30 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 
 			XYZ a1 = 3 * pow(s, 2) * t * startTangent;
 			XYZ b1 = 3 * s * pow(t, 2) * endTangent;
-			XYZ c1 = throughPoints[k] - (pow(s, 3) + 3 * pow(s, 2) * t) * startPoint - (pow(t, 3) + 3 * s * pow(t, 2)) * endPoint;
+			XYZ c1 = newThroughPoints[k] - (pow(s, 3) + 3 * pow(s, 2) * t) * startPoint - (pow(t, 3) + 3 * s * pow(t, 2)) * endPoint;
 
 			double alk = (uh[k] - uh[k - 1]) / (uh[k + 1] - uh[k - 1]);
-			XYZ dk = (throughPoints[k] - throughPoints[k - 1]) / (uh[k] - uh[k - 1]);
-			XYZ dk1 = (throughPoints[k + 1] - throughPoints[k]) / (uh[k + 1] - uh[k]);
+			XYZ dk = (newThroughPoints[k] - newThroughPoints[k - 1]) / (uh[k] - uh[k - 1]);
+			XYZ dk1 = (newThroughPoints[k + 1] - newThroughPoints[k]) / (uh[k + 1] - uh[k]);
 			XYZ Dk = ((1 - alk) * dk + alk * dk1).Normalize();
 
 			XYZ a2 = s * (s - 2 * t) * (Dk.CrossProduct(startTangent));
 			XYZ b2 = t * (2 * s - t) * (Dk.CrossProduct(endTangent));
 			XYZ c2 = 2 * s * t * (Dk.CrossProduct(startPoint - endPoint));
 
-			ak = (c1 * b2 - c2 * b1) / (a1 * b2 - a2 * b1);
-			bk = (c1 * a2 - c2 * a1) / (b1 * a2 - b2 * a1);
+			// Least squares solution of ak * a1 + bk * b1 = c1 and ak * a2 + bk * b2 = c2.
+			double aa = a1 * a1 + a2 * a2;
+			double ab = a1 * b1 + a2 * b2;
+			double bb = b1 * b1 + b2 * b2;
+			double ac = a1 * c1 + a2 * c2;
+			double bc = b1 * c1 + b2 * c2;
+			double det = aa * bb - ab * ab;
+			if (det == 0.0)
+			{
+				return false;
+			}
+			ak = (ac * bb - bc * ab) / det;
+			bk = (bc * aa - ac * ab) / det;
 
 			if (MathUtils::IsGreaterThan(ak, 0.0) &&
 				MathUtils::IsLessThan(bk, 0.0))
@@ -3160,17 +3171,19 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 				return false;
 			}
 		}
+		else if (type == LinePlaneIntersectionType::Parallel)
+		{
+			return false;
+		}
 		else
 		{
-			XYZ Pd(0, 0, 0);
-			LinePlaneIntersectionType type0 = Intersection::ComputeLineAndPlane(normalPi, startPoint, throughPoints[k + startPointIndex], startTangent, Pd);
-			if (!(type0 == LinePlaneIntersectionType::Intersecting)) continue;
+			XYZ Pd = intersectPoint;
 			double param0 = 0.0; double param1 = 0.0;
 			XYZ Pc(0, 0, 0);
 			CurveCurveIntersectionType type1 = Intersection::ComputeRays(startPoint, endPoint - startPoint, Pd, startTangent, param0, param1, Pc);
-			if (!(type1 == CurveCurveIntersectionType::Intersecting)) continue;
-			double gamma = Pc.Distance(endPoint) / startPoint.Distance(endPoint);
-			if (MathUtils::IsLessThan(gamma, 0.0) || MathUtils::IsGreaterThan(gamma, 1.0))
+			if (!(type1 == CurveCurveIntersectionType::Intersecting)) return false;
+			double gamma = 1.0 - param0;
+			if (MathUtils::IsLessThanOrEqual(gamma, 0.0) || MathUtils::IsGreaterThanOrEqual(gamma, 1.0))
 			{
 				return false;
 			}
@@ -3181,8 +3194,12 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 			}
 			else
 			{
-				double a = Pc.Distance(Pd);
-				double b = -Pd.Distance(throughPoints[k + startPointIndex]);
+				double a = -param1;
+				double b = (newThroughPoints[k] - Pd).DotProduct(endTangent) / endTangent.SqrLength();
+				if (MathUtils::IsLessThanOrEqual(a, 0.0) || MathUtils::IsGreaterThanOrEqual(b, 0.0))
+				{
+					return false;
+				}
 				double b13 = Polynomials::Bernstein(1, 3, uh[k]);
 				double b23 = Polynomials::Bernstein(2, 3, uh[k]);
 				alphak[k] = a / b13;
@@ -3201,31 +3218,24 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	beta = beta / (dk - 1);
 	XYZ P1 = throughPoints[startPointIndex] + alpha * startTangent;
 	XYZ P2 = throughPoints[endPointIndex] + beta * endTangent;
-	middleControlPoints.emplace_back(XYZW(P1, 1));
-	middleControlPoints.emplace_back(XYZW(P2, 1));
 	for (int k = 1; k < dk; k++)
 	{
 		double u = uh[k];
-		double deltaAk = alphak[k] - alpha;
-		double deltaBk = betak[k] - beta;
-		double e = (deltaAk * Polynomials::Bernstein(1, 3, u) * startTangent).Distance(deltaBk * Polynomials::Bernstein(2, 3, u) * endTangent);
-		if (MathUtils::IsLessThanOrEqual(e, maxError)) continue;
-		else
-		{
-			std::vector<XYZ> cps = { XYZ(startPoint), XYZ(P1), XYZ(P2),  XYZ(endPoint) };
+		std::vector<XYZ> cps = { XYZ(startPoint), XYZ(P1), XYZ(P2),  XYZ(endPoint) };
 
-			LN_BezierCurve<XYZ> bezierCurve;
-			bezierCurve.Degree = 3;
-			bezierCurve.ControlPoints = cps;
+		LN_BezierCurve<XYZ> bezierCurve;
+		bezierCurve.Degree = 3;
+		bezierCurve.ControlPoints = cps;
 
-			XYZ p = BezierCurve::GetPointOnCurveByBernstein(bezierCurve, u);
-			double ek = throughPoints[startPointIndex + k].Distance(p);
-			if (MathUtils::IsGreaterThan(ek, maxError))
-			{
-				return false;
-			}
+		XYZ p = BezierCurve::GetPointOnCurveByBernstein(bezierCurve, u);
+		double ek = throughPoints[startPointIndex + k].Distance(p);
+		if (MathUtils::IsGreaterThan(ek, maxError))
+		{
+			return false;
 		}
 	}
+	middleControlPoints.emplace_back(XYZW(P1, 1));
+	middleControlPoints.emplace_back(XYZW(P2, 1));
 	return true;
 }
 
-- 
2.43.0


From 35e4023cb00cd55935ccd5c5ccbd3b5b4d25a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 72/94] fix: conic fit checks points against the straight
 segment

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index afec65e..dda1a17 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2984,6 +2984,16 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 	CurveCurveIntersectionType type = Intersection::ComputeRays(startPoint, startTangent, endPoint, endTangent, alf1, alf2, R);
 	if (type == CurveCurveIntersectionType::Coincident)
 	{
+		XYZ chord = endPoint - startPoint;
+		for (int i = startPointIndex + 1; i <= endPointIndex - 1; i++)
+		{
+			double t = (throughPoints[i] - startPoint).DotProduct(chord) / chord.SqrLength();
+			t = std::max(0.0, std::min(1.0, t));
+			if (MathUtils::IsGreaterThan(throughPoints[i].Distance(startPoint + t * chord), maxError))
+			{
+				return false;
+			}
+		}
 		middleControlPoints.emplace_back(XYZW((startPoint + endPoint) / 2, 1));
 		return true;
 	}
-- 
2.43.0


From 54f6f76552fbdb283a1eda85655c3e6300ebd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 73/94] fix: curves that touch with different end weights can
 be merged

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index dda1a17..2ca2a90 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1658,7 +1658,7 @@ bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& ri
 	const auto& knotVector_R = right.KnotVector;
 	const auto& controlPoints_R = right.ControlPoints;
 
-	if (!controlPoints_L[controlPoints_L.size() - 1].IsAlmostEqualTo(controlPoints_R[0]))
+	if (!controlPoints_L[controlPoints_L.size() - 1].ToXYZ(true).IsAlmostEqualTo(controlPoints_R[0].ToXYZ(true)))
 	{
 		return false;
 	}
-- 
2.43.0


From 938bc7ac89317cf36bebd2ebf71e29c8383b45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:31 +0000
Subject: [PATCH 74/94] fix: the C API compiles with gcc and clang

---
 dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp | 1 +
 dotnet/CAPI/src/Matrix4d_CAPI.cpp        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
index f32a8c0..1f2d843 100644
--- a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
+++ b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
@@ -11,6 +11,7 @@
 #include "KnotVectorUtils_CAPI.h"
 #include "KnotVectorUtils.h"
 #include <vector>
+#include <cstring>
 #include <map>
 
 int LNLIB_KV_get_continuity(
diff --git a/dotnet/CAPI/src/Matrix4d_CAPI.cpp b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
index da1c9cc..83845af 100644
--- a/dotnet/CAPI/src/Matrix4d_CAPI.cpp
+++ b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
@@ -35,7 +35,7 @@ Matrix4d_C LNLIB_MATRIX_create()
 }
 Matrix4d_C LNLIB_MATRIX_create_from_xyz(XYZ_C basis_x, XYZ_C basis_y, XYZ_C basis_z, XYZ_C origin)
 {
-	return FromMatrix4d(LNLib::Matrix4d::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
+	return FromMatrix4d(LNLib::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
 }
 
 Matrix4d_C LNLIB_MATRIX_create_translation(XYZ_C vector)
-- 
2.43.0


From 3b0f0a43ecdc8ed53bc840351d8bd44666e0b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:31 +0000
Subject: [PATCH 75/94] fix: C API power to Bezier matrix returns the computed
 matrix

---
 dotnet/CAPI/src/Polynomials_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/Polynomials_CAPI.cpp b/dotnet/CAPI/src/Polynomials_CAPI.cpp
index 3d26db0..3fe72f9 100644
--- a/dotnet/CAPI/src/Polynomials_CAPI.cpp
+++ b/dotnet/CAPI/src/Polynomials_CAPI.cpp
@@ -306,7 +306,7 @@ void LNLIB_POLY_power_to_bezier_matrix(
 
 	for (int i = 0; i < n; ++i) {
 		for (int j = 0; j < n; ++j) {
-			flat[i * n + j] = out_matrix[i][j];
+			flat[i * n + j] = result[i][j];
 		}
 	}
 
-- 
2.43.0


From 86ddabf69847b59f08b057986a604baf641d1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:31 +0000
Subject: [PATCH 76/94] fix: C API results of one call do not share a buffer

---
 dotnet/CAPI/include/NurbsCurve_CAPI.h | 19 ++++++++++++-------
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp   |  6 +++---
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp | 27 +++++++++++++++++----------
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/dotnet/CAPI/include/NurbsCurve_CAPI.h b/dotnet/CAPI/include/NurbsCurve_CAPI.h
index d7f97c4..9ee9aa0 100644
--- a/dotnet/CAPI/include/NurbsCurve_CAPI.h
+++ b/dotnet/CAPI/include/NurbsCurve_CAPI.h
@@ -264,16 +264,21 @@ inline LNLib::LN_NurbsCurve FromCAPI(LN_NurbsCurve_C c) {
     return s;
 }
 
-inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s) {
-    static thread_local std::vector<double> g_knot_buffer;
-    static thread_local std::vector<LNLib::XYZW> g_cp_2d_buffer;
-    static thread_local std::vector<XYZW_C> g_cp_flat_buffer;
+// A call that returns several curves gives each its own slot, so that they do not share a buffer.
+inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s, size_t slot = 0) {
+    static thread_local std::vector<std::vector<double>> g_knot_buffers;
+    static thread_local std::vector<std::vector<XYZW_C>> g_cp_flat_buffers;
+    if (g_knot_buffers.size() <= slot) {
+        g_knot_buffers.resize(slot + 1);
+        g_cp_flat_buffers.resize(slot + 1);
+    }
+    std::vector<double>& g_knot_buffer = g_knot_buffers[slot];
+    std::vector<XYZW_C>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 
     g_knot_buffer = s.KnotVector;
-    g_cp_2d_buffer = s.ControlPoints;
     g_cp_flat_buffer.clear();
-    g_cp_flat_buffer.reserve(g_cp_2d_buffer.size());
-    for (const auto& cp : g_cp_2d_buffer) {
+    g_cp_flat_buffer.reserve(s.ControlPoints.size());
+    for (const auto& cp : s.ControlPoints) {
         g_cp_flat_buffer.push_back({ cp.WX(), cp.WY(), cp.WZ(), cp.W() });
     }
 
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 883b6b2..7aafbff 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -300,8 +300,8 @@ int LNLIB_NURBSCUR_split_at(
 	LN_NurbsCurve left, right;
 	bool ok = NurbsCurve::SplitAt(FromCAPI(curve), param_t, left, right);
 	if (ok) {
-		*out_left = ToCAPI(left);
-		*out_right = ToCAPI(right);
+		*out_left = ToCAPI(left, 0);
+		*out_right = ToCAPI(right, 1);
 	}
 	return ok ? 1 : 0;
 }
@@ -338,7 +338,7 @@ int LNLIB_NURBSCUR_decompose_to_beziers(
 	auto segments = NurbsCurve::DecomposeToBeziers(FromCAPI(curve));
 	int n = std::min(static_cast<int>(segments.size()), max_segments);
 	for (int i = 0; i < n; ++i) {
-		out_segments[i] = ToCAPI(segments[i]);
+		out_segments[i] = ToCAPI(segments[i], i);
 	}
 	return n;
 }
diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index 4805100..3a39b6f 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -17,10 +17,9 @@
 
 using namespace LNLib;
 
-static thread_local std::vector<double> g_knot_u_buffer;
-static thread_local std::vector<double> g_knot_v_buffer;
-static thread_local std::vector<std::vector<XYZW>> g_cp_2d_buffer;
-static thread_local std::vector<XYZW> g_cp_flat_buffer;
+static thread_local std::vector<std::vector<double>> g_knot_u_buffers;
+static thread_local std::vector<std::vector<double>> g_knot_v_buffers;
+static thread_local std::vector<std::vector<XYZW>> g_cp_flat_buffers;
 static thread_local std::vector<LN_NurbsSurface> g_surface_buffer;
 static thread_local std::vector<XYZ> g_xyz_buffer;
 static thread_local std::vector<UV> g_uv_buffer;
@@ -41,17 +40,25 @@ static LN_NurbsSurface FromCAPI(LN_NurbsSurface_C c) {
 	return s;
 }
 
-static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s) {
+// A call that returns several surfaces gives each its own slot, so that they do not share a buffer.
+static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s, size_t slot = 0) {
+	if (g_knot_u_buffers.size() <= slot) {
+		g_knot_u_buffers.resize(slot + 1);
+		g_knot_v_buffers.resize(slot + 1);
+		g_cp_flat_buffers.resize(slot + 1);
+	}
+	std::vector<double>& g_knot_u_buffer = g_knot_u_buffers[slot];
+	std::vector<double>& g_knot_v_buffer = g_knot_v_buffers[slot];
+	std::vector<XYZW>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 	g_knot_u_buffer = s.KnotVectorU;
 	g_knot_v_buffer = s.KnotVectorV;
-	g_cp_2d_buffer = s.ControlPoints;
-	int rows = static_cast<int>(g_cp_2d_buffer.size());
-	int cols = rows > 0 ? static_cast<int>(g_cp_2d_buffer[0].size()) : 0;
+	int rows = static_cast<int>(s.ControlPoints.size());
+	int cols = rows > 0 ? static_cast<int>(s.ControlPoints[0].size()) : 0;
 	g_cp_flat_buffer.clear();
 	g_cp_flat_buffer.reserve(rows * cols);
 	for (int i = 0; i < rows; ++i) {
 		for (int j = 0; j < cols; ++j) {
-			g_cp_flat_buffer.push_back(g_cp_2d_buffer[i][j]);
+			g_cp_flat_buffer.push_back(s.ControlPoints[i][j]);
 		}
 	}
 
@@ -157,7 +164,7 @@ int LNLIB_NURBSSUR_decompose_to_beziers(LN_NurbsSurface_C surface, LN_NurbsSurfa
 	auto patches = NurbsSurface::DecomposeToBeziers(FromCAPI(surface));
 	int n = std::min(static_cast<int>(patches.size()), max_patches);
 	for (int i = 0; i < n; ++i) {
-		out_patches[i] = ToCAPI(patches[i]);
+		out_patches[i] = ToCAPI(patches[i], i);
 	}
 	return n;
 }
-- 
2.43.0


From 75e0b8ab7c0cc7b748ae80573d5d0bae5a018f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:31 +0000
Subject: [PATCH 77/94] fix: C API knot removal by bound sizes the error array

---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 7aafbff..5b6f62b 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -175,7 +175,7 @@ void LNLIB_NURBSCUR_remove_knots_by_given_bound(LN_NurbsCurve_C curve, const dou
 {
 	std::vector<double> ps(params_count);
 	for (int i = 0; i < params_count; ++i) ps[i] = params[i];
-	std::vector<double> errs;
+	std::vector<double> errs(params_count);
 	LN_NurbsCurve result;
 	NurbsCurve::RemoveKnotsByGivenBound(FromCAPI(curve), ps, errs, maxError, result);
 	for (size_t i = 0; i < errs.size(); ++i) {
-- 
2.43.0


From 63b4e195b33f70ec286953825016a1bc1e6f244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:39 +0000
Subject: [PATCH 78/94] fix: least-squares curve with two control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2ca2a90..5189e04 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2342,6 +2342,15 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 		knotVector[degree + j] = (1 - a) * uk[i - 1] + a * uk[i];
 	}
 
+	if (n < 2)
+	{
+		// no control point is free
+		curve.Degree = degree;
+		curve.KnotVector = knotVector;
+		curve.ControlPoints = { XYZW(throughPoints[0], 1), XYZW(throughPoints[m], 1) };
+		return true;
+	}
+
 	std::vector<int> start(n - 1);
 	std::vector<int> end(n - 1);
 	std::vector<int> index(m - 1);
-- 
2.43.0


From 365e4c34e609c2fb65a9bbda8251161a9b70bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:13 +0000
Subject: [PATCH 79/94] fix: BezierSurface::Check compiles when instantiated

---
 src/LNLib/include/BezierSurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/include/BezierSurface.h b/src/LNLib/include/BezierSurface.h
index 8c44c70..d779e1d 100644
--- a/src/LNLib/include/BezierSurface.h
+++ b/src/LNLib/include/BezierSurface.h
@@ -30,7 +30,7 @@ namespace LNLib {
 		{
 			int degreeU = surface.DegreeU;
 			int degreeV = surface.DegreeV;
-			std::vector<T> controlPoints = surface.ControlPoints;
+			std::vector<std::vector<T>> controlPoints = surface.ControlPoints;
 
 			VALIDATE_ARGUMENT(degreeU > 0, "degreeU", "Degree must be greater than zero.");
 			VALIDATE_ARGUMENT(degreeV > 0, "degreeV", "Degree must be greater than zero.");
-- 
2.43.0


From bf05795e17215e868447d2a19106b4732a852091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:20 +0000
Subject: [PATCH 80/94] fix: a reused Voronoi generator forgets the triangles
 of the previous run

---
 src/LNLib/Algorithm/Voronoi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index d769c19..7b67d4c 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -116,6 +116,7 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 {
 	cleanup();
 	cleanupEdges();
+	triangles.clear();
 	int i;
 
 	minDistanceBetweenSites = minDist;
-- 
2.43.0


From fccf3c6e059da0628adbba1dbcaf501a704f33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:50 +0000
Subject: [PATCH 81/94] fix: degree reduction of odd degree underestimated its
 error and accepted curves beyond the tolerance

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 5189e04..8d3e029 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1161,7 +1161,7 @@ bool LNLib::NurbsCurve::ReduceDegree(const LN_NurbsCurve& curve, LN_NurbsCurve&
 		updatedControlPoints[r] = 0.5 * (PLr + PRr);
 		error = PLr.Distance(PRr);
 		double maxU = (degree - std::sqrt(degree)) / (2 * degree);
-		error = error * 0.5 * (1 - alpha[r]) * (MathUtils::Binomial(degree, r) * pow(maxU, r) * pow(1 - maxU, r + 1) * (1 - 2 * maxU));
+		error = error * 0.5 * (1 - alpha[r]) * (MathUtils::Binomial(degree, r) * pow(maxU, r) * pow(1 - maxU, r) * (1 - 2 * maxU));
 	}
 	if (error > tol) return false;
 
-- 
2.43.0


From f818cba16afe2b009a508b011110d1476b59c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:54 +0000
Subject: [PATCH 82/94] fix: GetAllParamsOnSurface missed points near the
 border of the surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 34 ++++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index e8745ce..c399c7c 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1482,20 +1482,32 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 
 	std::vector<UV> initialGuesses;
 
-	for (int i = 1; i < numU - 1; ++i)
+	for (int i = 0; i < numU; ++i)
 	{
-		for (int j = 1; j < numV - 1; ++j)
+		for (int j = 0; j < numV; ++j)
 		{
 			int idx = i * numV + j;
-			int idxUp = (i - 1) * numV + j;
-			int idxDown = (i + 1) * numV + j;
-			int idxLeft = i * numV + (j - 1);
-			int idxRight = i * numV + (j + 1);
-
-			if (MathUtils::IsLessThan(distSq[idx],distSq[idxUp]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxDown]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxLeft]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxRight]))
+
+			// the samples on the border have neighbors on one side only
+			bool isLocalMin = true;
+			if (i > 0 && distSq[idx] > distSq[idx - numV])
+			{
+				isLocalMin = false;
+			}
+			if (i < numU - 1 && distSq[idx] > distSq[idx + numV])
+			{
+				isLocalMin = false;
+			}
+			if (j > 0 && distSq[idx] > distSq[idx - 1])
+			{
+				isLocalMin = false;
+			}
+			if (j < numV - 1 && distSq[idx] > distSq[idx + 1])
+			{
+				isLocalMin = false;
+			}
+
+			if (isLocalMin)
 			{
 				initialGuesses.push_back(correspondingKnots[idx]);
 			}
-- 
2.43.0


From bb7116e6429fcbf7c7d64c5bc00d1209733f3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:54 +0000
Subject: [PATCH 83/94] fix: FitWithConic refuses a point at the meeting point
 of the tangents instead of throwing

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8d3e029..1a6797b 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3021,6 +3021,10 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 	for (int i = startPointIndex + 1; i <= endPointIndex - 1; i++)
 	{
 		XYZ V1 = throughPoints[i] - R;
+		if (V1.IsZero())
+		{
+			return false;
+		}
 		type = Intersection::ComputeRays(startPoint, V, R, V1, alf1, alf2, dummy);
 		if (type != CurveCurveIntersectionType::Intersecting || 
 			MathUtils::IsLessThanOrEqual(alf1, 0.0) ||
-- 
2.43.0


From 817dc629c4e0b3b656660cff403f3753ee5ccbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:39 +0000
Subject: [PATCH 84/94] fix: Merge tests that the curves are clamped before it
 raises their degree

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 1a6797b..e198e00 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1663,6 +1663,14 @@ bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& ri
 		return false;
 	}
 
+	int l = Polynomials::GetKnotMultiplicity(knotVector_L, knotVector_L[knotVector_L.size() - 1]);
+	int r = Polynomials::GetKnotMultiplicity(knotVector_R, knotVector_R[0]);
+
+	if (l != degree_L + 1 || r != degree_R + 1)
+	{
+		return false;
+	}
+
 	int degree = std::max(degree_L, degree_R);
 	LN_NurbsCurve  tempL;
 	Reparametrize(left, 0.0, 1.0, tempL);
@@ -1684,14 +1692,6 @@ bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& ri
 		Reparametrize(temp, 0.0, 1.0, tempR);
 	}
 
-	int l = Polynomials::GetKnotMultiplicity(tempL.KnotVector, tempL.KnotVector[tempL.KnotVector.size() - 1]);
-	int r = Polynomials::GetKnotMultiplicity(tempR.KnotVector, tempR.KnotVector[0]);
-
-	if (l != degree + 1 || r != degree + 1)
-	{
-		return false;
-	}
-
 	int size = tempL.ControlPoints.size() + tempR.ControlPoints.size();
 	std::vector<XYZW> controlPoints;
 	controlPoints.reserve(size);
-- 
2.43.0


From b4485f438a6d373437548076e2e45dc5139473ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:15 +0000
Subject: [PATCH 85/94] fix: Swap works when the result is the surface itself

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index c399c7c..9bf9752 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -468,10 +468,10 @@ void LNLib::NurbsSurface::Swap(const LN_NurbsSurface& surface, LN_NurbsSurface&
 
 	std::vector<std::vector<XYZW>> transposedControlPoints;
 	MathUtils::Transpose(surface.ControlPoints, transposedControlPoints);
-	result.DegreeU = surface.DegreeV;
-	result.DegreeV = surface.DegreeU;
-	result.KnotVectorU = surface.KnotVectorV;
-	result.KnotVectorV = surface.KnotVectorU;
+	result.DegreeU = degreeV;
+	result.DegreeV = degreeU;
+	result.KnotVectorU = knotVectorV;
+	result.KnotVectorV = knotVectorU;
 	result.ControlPoints = transposedControlPoints;
 }
 
-- 
2.43.0


From 2a62607e0f5ec6ebd4169c0ae489aecc86c9da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:15 +0000
Subject: [PATCH 86/94] fix: GetSurfaceMeshParameterization does not add to
 what the outputs held before

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index bda8f18..5df998d 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -275,8 +275,8 @@ bool LNLib::Interpolation::GetSurfaceMeshParameterization(const std::vector<std:
 	int m = throughPoints[0].size();
 
 	std::vector<double> cds(std::max(n, m), 0.0);
-	paramsU.resize(n, 0.0);
-	paramsV.resize(m, 0.0);
+	paramsU.assign(n, 0.0);
+	paramsV.assign(m, 0.0);
 
 	int num = m;
 
-- 
2.43.0


From bb6c09948a8ef247c2b0fc7d4431e97566256c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:15 +0000
Subject: [PATCH 87/94] fix: GetInsertedKnotElement does not keep what the
 outputs held before

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index ae79e0a..65c7ac0 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -145,6 +145,8 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 {
 	std::map<double, int> map0 = GetKnotMultiplicityMap(knotVector0);
 	std::map<double, int> map1 = GetKnotMultiplicityMap(knotVector1);
+	insertElements0.clear();
+	insertElements1.clear();
 
 	for (auto it = map0.begin(); it != map0.end(); ++it)
 	{
-- 
2.43.0


From 1c05ffe39c008a16b74be3a8d24e1b1494697b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:15 +0000
Subject: [PATCH 88/94] fix: EquallyTessellate does not keep what the outputs
 held before

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     | 2 ++
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e198e00..922bf7c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1192,6 +1192,8 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 	uniqueKv.erase(unique(uniqueKv.begin(), uniqueKv.end()), uniqueKv.end());
 	int size = uniqueKv.size();
 	int num = 100;
+	tessellatedPoints.clear();
+	correspondingKnots.clear();
 	for (int i = 0; i < size - 1; i++)
 	{
 		double currentU = uniqueKv[i];
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9bf9752..31c3def 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1215,6 +1215,8 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 		}
 	}
 
+	tessellatedPoints.clear();
+	correspondingKnots.clear();
 	for (int i = 0; i < tessellatedU.size(); i++)
 	{
 		for (int j = 0; j < tessellatedV.size(); j++)
-- 
2.43.0


From 52d83ce6578a58440a0c5a738a1aea869e68cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:15 +0000
Subject: [PATCH 89/94] fix: Transpose does not keep what the output held
 before

---
 src/LNLib/include/MathUtils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/include/MathUtils.h b/src/LNLib/include/MathUtils.h
index 4d5afb9..9bc7afa 100644
--- a/src/LNLib/include/MathUtils.h
+++ b/src/LNLib/include/MathUtils.h
@@ -60,6 +60,7 @@ namespace LNLib
 		static void Transpose(const std::vector<std::vector<T>>& matrix, std::vector<std::vector<T>>& transposed)
 		{
 			std::vector<T> temp;
+			transposed.clear();
 
 			for (int i = 0; i < matrix[0].size(); i++)
 			{
-- 
2.43.0


From 6bc1bca2cec3f152e59b3dd3aa7c2a02ef1fb44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:02 +0000
Subject: [PATCH 90/94] fix: knot span at the ends of the domain is never empty

---
 src/LNLib/Algorithm/Polynomials.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index b9fc014..4b4cd95 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -134,11 +134,23 @@ int LNLib::Polynomials::GetKnotSpanIndex(int degree, const std::vector<double>&
 	int n = knotVector.size() - degree - 2;
 	if (MathUtils::IsGreaterThanOrEqual(paramT, knotVector[n + 1]))
 	{
-		return n;
+		// the last non-empty span
+		int last = n;
+		while (last > degree && knotVector[last] == knotVector[last + 1])
+		{
+			last--;
+		}
+		return last;
 	}
 	if (MathUtils::IsLessThanOrEqual(paramT, knotVector[degree]))
 	{
-		return degree;
+		// the first non-empty span
+		int first = degree;
+		while (first < n && knotVector[first] == knotVector[first + 1])
+		{
+			first++;
+		}
+		return first;
 	}
 
 	int low = degree;
-- 
2.43.0


From d634c81ce6ecd631ada4136e1c033a571fa0d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:55 +0000
Subject: [PATCH 91/94] fix: NurbsVolume::Extract at the end of an unclamped
 direction takes the right layer

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index d61dfad..f8cc83a 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -720,6 +720,10 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				k = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, parameter);
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			}
+			while (k + 2 < kvU.size() && LNLib::MathUtils::IsAlmostEqualTo(parameter, kvU[k + 1]))
+			{
+				k++;
+			}
 			Pwc = controlPoints[k - s];
 		}
 
@@ -762,6 +766,10 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				k = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, parameter);
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvV, parameter);
 			}
+			while (k + 2 < kvV.size() && LNLib::MathUtils::IsAlmostEqualTo(parameter, kvV[k + 1]))
+			{
+				k++;
+			}
 			Pwc.resize(controlPoints.size());
 			for (size_t i = 0; i < controlPoints.size(); ++i) {
 				Pwc[i] = controlPoints[i][k - s];
@@ -813,6 +821,10 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				k = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, parameter);
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvW, parameter);
 			}
+			while (k + 2 < kvW.size() && LNLib::MathUtils::IsAlmostEqualTo(parameter, kvW[k + 1]))
+			{
+				k++;
+			}
 			Pwc.resize(controlPoints.size());
 			for (size_t i = 0; i < controlPoints.size(); ++i) {
 				Pwc[i].resize(controlPoints[i].size());
-- 
2.43.0


From 331e56f1425fe8deef70bc805a0cb48fc417f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:55 +0000
Subject: [PATCH 92/94] fix: ElevateDegree and DecomposeToBeziers clamp
 unclamped curves first

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 922bf7c..d6a4c4b 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -655,6 +655,16 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 		VALIDATE_ARGUMENT(multi <= degree + 1, "curve", "curve knot multiplicity must be less than or equals to degree + 1.");
 	}
 
+	if (!IsClamp(curve))
+	{
+		LN_NurbsCurve clamped;
+		ToClampCurve(curve, clamped);
+		if (IsClamp(clamped))
+		{
+			return DecomposeToBeziers(clamped);
+		}
+	}
+
 	int knotSize = 2 * (degree + 1);
 	std::vector<double> bezierKnots(knotSize);
 	for (int i = 0; i < knotSize / 2; i++)
@@ -908,6 +918,17 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 
 	VALIDATE_ARGUMENT(times > 0, "times", "Times must be greater than zero.");
 
+	if (!IsClamp(curve))
+	{
+		LN_NurbsCurve clamped;
+		ToClampCurve(curve, clamped);
+		if (IsClamp(clamped))
+		{
+			ElevateDegree(clamped, times, result);
+			return;
+		}
+	}
+
 	int n = controlPoints.size() - 1;
 	int m = n + degree + 1;
 	int ph = degree + times;
-- 
2.43.0


From 6af3534c6c81e9e049c5a859db2aac79cb6bda86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:55 +0000
Subject: [PATCH 93/94] fix: NurbsSurface::DecomposeToBeziers clamps unclamped
 surfaces first

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 34 +++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 31c3def..d90f45f 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -777,6 +777,40 @@ std::vector<LNLib::LN_NurbsSurface> LNLib::NurbsSurface::DecomposeToBeziers(cons
 	int rows = controlPoints.size();
 	int columns = controlPoints[0].size();
 
+	for (int i = 0; i < columns; i++)
+	{
+		LN_NurbsCurve line;
+		line.Degree = degreeU;
+		line.KnotVector = surface.KnotVectorU;
+		line.ControlPoints = MathUtils::GetColumn(controlPoints, i);
+		if (NurbsCurve::IsClamp(line))
+		{
+			break;
+		}
+		LN_NurbsCurve clamped;
+		NurbsCurve::ToClampCurve(line, clamped);
+		knotVectorU = clamped.KnotVector;
+		for (int j = 0; j < rows; j++)
+		{
+			controlPoints[j][i] = clamped.ControlPoints[j];
+		}
+	}
+	for (int i = 0; i < rows; i++)
+	{
+		LN_NurbsCurve line;
+		line.Degree = degreeV;
+		line.KnotVector = surface.KnotVectorV;
+		line.ControlPoints = controlPoints[i];
+		if (NurbsCurve::IsClamp(line))
+		{
+			break;
+		}
+		LN_NurbsCurve clamped;
+		NurbsCurve::ToClampCurve(line, clamped);
+		knotVectorV = clamped.KnotVector;
+		controlPoints[i] = clamped.ControlPoints;
+	}
+
 	int knotUSize = 2 * (degreeU + 1);
 	std::vector<double> bezierKnotsU(knotUSize);
 	for (int i = 0; i < knotUSize / 2; i++)
-- 
2.43.0


From 7dd04d2176cdd2f89203cd128c1914619cf8b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:43 +0000
Subject: [PATCH 94/94] fix: IsArc does not take a curve winding on a sphere
 for an arc

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d6a4c4b..80d3f6c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3885,6 +3885,7 @@ bool LNLib::NurbsCurve::IsArc(const LN_NurbsCurve& curve, LN_ArcInfo& arcInfo)
 	double k2 = base * v1v1 * (v2v2 - v1v2);
 	XYZ center = P0 + v1 * k1 + v2 * k2;
 	double radius = center.Distance(P0);
+	XYZ normal = v1.CrossProduct(v2).Normalize();
 
 	std::vector<XYZ> tessellatedPoints;
 	std::vector<double> correspondingKnots;
@@ -3893,7 +3894,8 @@ bool LNLib::NurbsCurve::IsArc(const LN_NurbsCurve& curve, LN_ArcInfo& arcInfo)
 	{
 		XYZ point = tessellatedPoints[i];
 		double d = point.Distance(center);
-		if (!MathUtils::IsAlmostEqualTo(d, radius))
+		double height = (point - P0).DotProduct(normal);
+		if (!MathUtils::IsAlmostEqualTo(d, radius) || !MathUtils::IsAlmostEqualTo(height, 0.0))
 		{
 			return false;
 		}
-- 
2.43.0

