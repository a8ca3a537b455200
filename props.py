# One entry per property: metadata (properties.jsonl, MANIFEST.json are generated from it by gen.py) and the solver jobs.
COMMON_ASSUMPTIONS = [
  "real arithmetic: every double is treated as an exact real (IEEE rounding is outside the claim); counterexamples are replayed in IEEE double arithmetic against the natively compiled code and only a reproduced one is reported",
  "shapes (degrees, knot patterns, counts) are those of the listed jobs; parameters inside a span keep 2^-14 from the knots, the knots themselves are separate cases",
]
TECH = "symbolic execution of the library's LLVM IR (doubles as exact reals) with z3 deciding every branch and obligation; counterexamples replayed natively"
def J(h, **p): return {"h": h, "p": p}
PROPS = {}
def prop(pid, title, statement, over, why, files, mech, harness, jobs, bounds, **kw):
    assert len(title) <= 80, title
    PROPS[pid] = dict(title=title, statement=statement, over=over, why=why, files=files, mech=mech, harness=[harness] if isinstance(harness, str) else harness, jobs=jobs, bounds=bounds, **kw)
NOT_APPLICABLE = []   # (id, title, statement, over, why_tests_cant, files, mech, reason)
def na(pid, title, statement, over, why, files, mech, reason): NOT_APPLICABLE.append(dict(id=pid, title=title, statement=statement, over=over, why=why, files=files, mech=mech, reason=reason))
S = "src/LNLib/"
CURVE = S + "Geometry/Curve/NurbsCurve.cpp"; SURF = S + "Geometry/Surface/NurbsSurface.cpp"; VOL = S + "Geometry/Volume/NurbsVolume.cpp"; ALG = S + "Algorithm/"; INC = S + "include/"
ALLREAL = "every real value of the inputs within the stated ranges"

prop("C01", "B-spline basis functions and knot spans match their definition",
  "For every valid knot vector and every parameter of its domain, the reported knot span is the one containing the parameter (last span at the right end), the knot multiplicity is the number of copies of that value, and the basis functions and all their derivatives equal the Cox-de Boor definition; in particular they are non-negative and sum to one, whichever of the several evaluation routines is used.",
  ALLREAL + ": parameter, and (for the symbolic-knot jobs) the knots", "The tests evaluate a handful of parameters on one or two textbook knot vectors.",
  [ALG + "Polynomials.cpp", INC + "Polynomials.h"], ["GetKnotSpanIndex", "GetKnotMultiplicity", "BasisFunctions", "BasisFunctionsDerivatives", "OneBasisFunction", "AllBasisFunctions"], "basis",
  lambda t: [J("basis_values",p=p,kv=k) for p in (1,2,3,4) for k in range(10)]+[J("basis_values",p=p,kv=13) for p in (2,3,4)]+[J("basis_derivs",p=p,kv=13) for p in (2,3,4)]+[J("basis_values",p=5,kv=k) for k in (0,2)]+[J("basis_derivs",p=p,kv=k) for p in (1,2,3,4) for k in range(10)]+[J("basis_symknots",p=p,m=m,dv=d) for p in (1,2,3) for m in (0,1,2) for d in (0,1) if m<=p]+[J("knot_multiplicity",p=p,kv=k) for p in (1,2,3) for k in range(13) if k!=9]+[J(h,p=p,kv=k) for h in ("basis_values","basis_derivs") for p in (2,3) for k in (10,11,12)]+[J("basis_values",p=p,kv=k) for p,k in ((6,1),(4,11))]+[J("basis_derivs",p=p,kv=k,table=1) for p in (3,4,5,6,7) for k in range(13)]+[J("basis_values",p=p,kv=k,table=1) for p in (5,6,7) for k in range(13)]+[J("one_deriv",p=p,kv=k,i=i) for p,k,i in ((5,1,0),(5,1,3),(5,2,6),(6,0,2),(6,1,5),(5,5,4),(6,3,8),(5,9,4))]+([J("basis_values",p=p,kv=k) for p in (4,5,6,7) for k in range(13)]+[J("basis_derivs",p=p,kv=k) for p in (4,5,6) for k in range(13)] if t=="thorough" else []),
  "degrees 1-7 over up to 13 concrete knot patterns (0-5 interior knots, multiplicities up to p, shifted, wide and unclamped ranges) with the parameter symbolic over each whole span or exactly a knot; degrees 1-3 with up to 2 symbolic interior knots (gaps in [1/4,2]); derivative orders up to p")
prop("C02", "Bernstein, Horner, power-basis and Bezier evaluation equal their definitions",
  "Bernstein polynomials, Horner evaluation of power-basis curves and surfaces, the Bezier/power conversion matrices, and Bezier curve and surface points (by Bernstein sums, by de Casteljau, rational or not, and on conic arcs) equal their mathematical definition for every parameter and every control polygon.",
  ALLREAL + ": parameters, coefficients, control points, weights", "The tests check a few fixed evaluations of degree two and three.",
  [ALG + "Polynomials.cpp", S + "Geometry/Curve/BezierCurve.cpp", INC + "BezierCurve.h", INC + "BezierSurface.h"], ["Bernstein", "AllBernstein", "Horner", "BezierToPowerMatrix", "GetPointOnCurveByDeCasteljau"], "basis",
  lambda t: [J("bernstein",n=n) for n in range(1,8)]+[J("horner",n=n,m=m) for n,m in((1,1),(2,3),(4,2),(5,5))]+[J("power_matrix",n=n) for n in range(1,10)]+[J("bezier_curve",n=n) for n in range(1,7)]+[J("bezier_surface",n=n,m=m) for n,m in((1,1),(1,3),(2,2),(3,2))],
  "Bernstein degree 1-7, Horner degree up to 5x5, conversion matrices degree 1-9, Bezier curves degree 1-6, surfaces up to 3x2; all parameters in [0,1], control points in [-8,8], weights in [1/4,4]")
prop("C03", "Curve points equal the rational B-spline definition and stay in the hull",
  "The point of a curve at any parameter of its domain is the weighted sum of its control points with the B-spline basis, divided by the weight sum, whether computed directly, by corner cutting or in homogeneous form; with positive weights every coordinate stays within the range of the control points' coordinates.",
  ALLREAL + ": control points, weights, parameter", "The tests evaluate single parameters of a few concrete curves.",
  [CURVE, INC + "BsplineCurve.h"], ["NurbsCurve::GetPointOnCurve", "NurbsCurve::GetPointOnCurveByCornerCut", "BsplineCurve::GetPointOnCurve", "XYZW::ToXYZ"], "curve_eval",
  lambda t: [J("curve_point",p=p,kv=k) for p in (1,2,3,4,5,6,7) for k in range(14) if k<13 or p>1]+[J("curve_hull",p=p,kv=k) for p in (1,2,3) for k in (0,1,3)],
  "degrees 1-7 over 14 knot patterns (12 clamped, 2 unclamped, one of them with both domain ends repeated inside); control points in [-8,8]^3, weights in [1/4,4], parameter anywhere in the domain (each span, each knot, both ends)")
prop("C04", "Curve derivatives, curvature, torsion and normals equal their definitions",
  "Derivatives of any order of a (rational) curve satisfy the Leibniz identity with the homogeneous derivatives, the derivative control points generate the derivative curve, curvature, torsion, normal and binormal are those of differential geometry at every regular point, and differentiability is refused exactly at kinks.",
  ALLREAL + ": control points, weights, parameter", "The tests compare a few concrete derivative values; curvature and torsion only on simple curves.",
  [CURVE, INC + "BsplineCurve.h"], ["ComputeRationalCurveDerivatives", "ComputeDerivatives", "ComputeControlPointsOfDerivatives", "Curvature", "Torsion", "Normal", "CanComputeDerivative"], "curve_eval",
  lambda t: [J("curve_derivs",p=p,kv=13,d=d,w=0) for p in (2,3,4) for d in (1,2)]+[J("curve_derivs",p=p,kv=k,d=d) for p in (1,2,3) for k in range(13) for d in range(1,p+2) if k<10 or (d<3 and p>1)]+[J("curve_derivs",p=p,kv=k,d=d) for p,d in ((4,1),(4,2),(5,1)) for k in ((0,1,3,6,11) if t=="quick" else range(13))]+[J("curve_curvature",p=p,kv=k,cu=cu) for p in (1,2,3) for k in (0,1) for cu in (0,1)]+[J("curve_torsion",p=3,kv=k,cu=cu) for k in (0,1) for cu in (0,1)]+[J("curve_normal",p=p,kv=k,cu=cu) for p in (2,3) for k in (0,1) for cu in (0,1)]+[J("curve_can_derive")]+[J("curve_can_derive2",p=q,lo=l,w=w) for q in (1,2,3) for l,w in ((0,0),(-3,1))]+[J("curve_curvature",p=q,kv=k,cu=cu,w=1) for q in (2,3,4) for k in (0,1,3,6,11) for cu in (1,2)]+[J("curve_torsion",p=3,kv=k,cu=cu,w=1) for k in (0,1,3,6,11) for cu in (1,2)]+[J("curve_torsion",p=4,kv=1,cu=2,w=1)]+[J("curve_normal",p=q,kv=k,cu=cu,w=1) for q in (2,3) for k in (0,3,6) for cu in (1,2)]+[J("curve_derivs",p=p,kv=k,d=d,fix=1,w=2) for p in (1,2,3,4,5,6,7) for k in (0,1,3,6,11) for d in (p,p+2,8)]+[J("curve_derivs",p=p,kv=k,d=d,fix=1) for p,d in ((3,5),(4,4),(5,5)) for k in (1,6)],
  "derivatives: degrees 1-3, 13 knot patterns, orders 1..p+1 and degrees 4, 5 up to order 2, symbolic control points and weights; degrees 1-7 with orders to 8 at one concrete parameter per span with concrete uneven weights; Frenet quantities: non-rational degrees 1-3 with one symbolic control point and a symbolic (or mid-span) parameter, speed > 0.1, and rational degrees 2-4 with concrete uneven weights at a parameter of the first and the last span; kinks at a full inner knot of degrees 1-3")
prop("C05", "Knot insertion and refinement leave the curve unchanged",
  "Inserting a knot at any parameter inside the domain, any admissible number of times, or refining with any sorted list of knots, yields exactly the requested knot vector and a curve with the same points (and the same homogeneous form) at every parameter; the number of insertions performed is reported truthfully.",
  ALLREAL + ": control points, weights, inserted parameter, (symbolic-knot jobs) knots", "The tests insert one knot into one or two concrete curves and compare a few points.",
  [CURVE], ["NurbsCurve::InsertKnot", "NurbsCurve::RefineKnotVector"], "curve_knot",
  lambda t: [J("curve_insert",p=p,kv=k) for p in (1,2,3,4) for k in range(14) if k<13 or p>1]+[J("curve_insert",p=p,kv=k) for p in (5,6) for k in ((1,3) if t=="quick" else range(13))]+[J("curve_insert_ends",p=p,e=e,rp=r) for p in (2,3,4) for e in (0,1) for r in (0,1) if p>2 or not r]+[J("curve_insert_over",p=p,kv=k) for p in (1,2,3) for k in (1,3,5)]+[J("curve_insert_symknots",p=p,m=m) for p in (1,2,3) for m in (0,1,2)]+[J("curve_refine",p=p,kv=k,mode=m) for p in (1,2,3,4,5,6) for k in range(13) for m in range(4)],
  "degrees 1-6 over 13 knot patterns; inserted parameter symbolic over each span or exactly a knot, every multiplicity up to p (over-insertion up to p+2); symbolic interior knots up to 2 for degrees 1-3; refinement lists: one symbolic parameter, all pairs of a 5-point grid, all span midpoints, raised multiplicities")
prop("C06", "Knot removal undoes insertion and never returns a malformed curve",
  "Removing a copy of a knot that was raised to full multiplicity restores the curve; a removal that is reported as done removes between one and the requested number of copies of that very knot, returns a well-formed curve with the same end points, and end knots or values that are not knots are never removed. The removal error bound of a knot measures the jump of the derivative there, so it is zero exactly when the knot can be removed without moving the curve; the errors that bounded removal reports never exceed the bound it was given.",
  ALLREAL + ": control points; weights concrete uneven", "The tests remove one knot from one curve and compare the control points.",
  [CURVE], ["NurbsCurve::RemoveKnot", "NurbsCurve::RemoveExcessiveKnots", "NurbsCurve::ComputerRemoveKnotErrorBound", "NurbsCurve::RemoveKnotsByGivenBound"], "curve_knot",
  lambda t: [J("curve_remove",p=p,kv=k,at=a,s=p,rem=r) for p in (1,2,3,4,5) for k in range(1,9) for a in (0,1) for r in (1,2) if r<=p-a and not (a and k in (3,5,6) and p<4) and not (a and k==6)]
    +[J("curve_remove",p=2,kv=1,at=0,s=1,rem=1),J("curve_remove",p=3,kv=2,at=0,s=2,rem=1),J("curve_remove",p=3,kv=1,at=0,s=3,rem=3),J("curve_remove_keeps",p=1,kv=1),J("curve_remove_keeps",p=3,kv=1),J("curve_remove_excess",p=2,kv=1),J("curve_remove_excess",p=3,kv=1)]+[J("curve_remove_any",p=p,kv=k) for p in (1,2,3,4) for k in (1,2,3,5,7,8)]+[J("curve_remove_bound",p=p,kv=k,at=a,w=w) for p in (1,2,3,4,5) for k in (1,2,3,5,7,8) for a in (1,2,3) for w in (0,1,2) if a<(2 if k in (1,3,8) else 3 if k==2 or p==1 and k==5 else 4)]+[J("curve_remove_within",p=p,kv=k) for p,k in ((1,2),(1,7),(2,1),(2,2),(3,1),(4,1))],
  "degrees 1-5, 8 knot patterns, removal of 1 or 2 copies from full multiplicity, at a new knot or an existing one; arbitrary curves of degree 1-4 with every knot value as target and every requested number up to p+1; control points in [-3,3]^3 with a concrete farthest one (the library's size-dependent tolerance is then fixed)")
prop("C07", "Degree elevation and reduction preserve the curve",
  "Raising the degree by any number gives a curve of the new degree whose distinct knots each gained that multiplicity and which has the same points at every parameter; reducing an elevated Bezier curve gives the original back, a reduction that is reported keeps both end points and moves no point by more than the distance tolerance of 1e-4, and curves with interior knots are refused.",
  ALLREAL + ": control points, weights", "The tests elevate one or two curves with simple knots and compare end points.",
  [CURVE], ["NurbsCurve::ElevateDegree", "NurbsCurve::ReduceDegree"], "curve_knot",
  lambda t: [J("curve_elevate",p=p,kv=k,t=tt) for p in (1,2,3,4,5,6) for k in range(13) for tt in (1,2,3)]+[J("curve_reduce",p=p,shift=s) for p in (1,2,3,4,5) for s in (0,1)]+[J("curve_reduce_any",p=p) for p in (4,5)]+[J("curve_reduce_tol",p=p,k=k,s=f,w=w) for p in (2,3,4,5,6,7) for k in (1,p//2,p-1) for f,w in ((0,0),(1,0),(1,1))]+[J("curve_reduce_multi",p=p) for p in (2,3)],
  "elevation: degrees 1-6 by 1-3, 12 knot patterns with multiplicities up to p, symbolic control points and weights; reduction: Bezier degree 2-6, tolerance for degrees 2-7 on one concrete curve per degree at two scales with one control point displaced by up to 0.004 (15 parameters)")
prop("C08", "Decomposition yields exactly the Bezier pieces of the curve",
  "Decomposing a curve yields one Bezier curve per non-empty knot span, in order, each tracing exactly that span (homogeneous form included) over [0,1], for every multiplicity of the interior knots; the call always returns.",
  ALLREAL + ": control points, weights", "The tests decompose one curve with simple knots.",
  [CURVE], ["NurbsCurve::DecomposeToBeziers"], "curve_knot",
  lambda t: [J("curve_decompose",p=p,kv=k) for p in (1,2,3,4,5,6,7) for k in range(13)],
  "degrees 1-7, 12 clamped knot patterns with interior multiplicities up to p; symbolic control points, weights and parameter")
prop("C09", "Splitting, extracting and merging keep every point of the curve",
  "Splitting a curve at any parameter inside its domain gives two clamped curves that coincide with it on either side and meet at its point there; extracting a parameter range gives a clamped curve over exactly that range coinciding with the original; merging two touching curves gives one curve over [0,1] whose halves trace them; splits at or outside the ends and merges of curves that do not touch, or are not clamped where they meet, are refused.",
  ALLREAL + ": control points, weights, split and range parameters", "The tests split or merge one pair of curves and compare end points; extraction is not tested at all.",
  [CURVE], ["NurbsCurve::SplitAt", "NurbsCurve::Extract", "NurbsCurve::Merge"], "curve_ops",
  lambda t: [J("curve_split",p=p,kv=k) for p in (1,2,3,4,5) for k in range(13)]+[J("curve_split_refused",p=p,kv=k) for p in (1,2,3) for k in (0,1,4)]+[J("curve_extract",p=p,kv=k) for p in (1,2,3,4) for k in range(13) if k<10 or p<4 or t=="thorough"]+[J("curve_merge",p=p,q=q,kv=k,kw=l) for p in (1,2,3) for q in (1,2,3) for k in (0,1,3,4) for l in (0,2,8)]+[J("curve_merge",p=p,q=q,kv=1,kw=2,jw=j) for p,q in ((2,2),(1,3),(3,2)) for j in (2,9)]+[J("curve_merge_refused",p=p) for p in (1,2,3)]+[J("curve_merge_unclamped",p=p,q=q,side=s) for p,q in ((2,2),(3,3),(2,3),(3,1),(4,4)) for s in (0,1) if (p if s==0 else q)>1],
  "degrees 1-5, 12 clamped knot patterns; split parameter and range ends symbolic inside each span or exactly at knots; merges of degrees 1-3 with different degrees and domains")
prop("C10", "Reparametrisation, reversal and transformation act as stated on every point",
  "Reparametrising to a new interval maps the knots affinely and keeps the control points; a linear rational reparametrisation maps the knots by that function and keeps every point; reversing runs through the same points backwards over the same interval and is an involution; transforming by an affine matrix transforms every point of the curve by it.",
  ALLREAL + ": control points, weights, intervals, coefficients, matrix, parameter", "The tests reverse, reparametrise or translate one concrete curve.",
  [CURVE, S + "Mathematics/Math/Matrix4d.cpp"], ["NurbsCurve::Reparametrize", "NurbsCurve::Reverse", "NurbsCurve::CreateTransformed", "Matrix4d::OfWeightedPoint", "KnotVectorUtils::Rescale"], "curve_ops",
  lambda t: [J("curve_reparam",p=p,kv=k) for p in (1,2,3,4,5) for k in range(13)]+[J("curve_mobius",p=p,kv=k,m=m) for p in (1,2,3) for k in (0,1,3,4) for m in range(6) if k!=4 or m in (2,3,4,5)]+[J("curve_mobius",p=p,kv=k,m=m,neg=1) for p,k,m in ((1,1,0),(2,0,1),(3,1,3),(3,3,4),(2,1,5),(4,1,0))]+[J("curve_mobius_refused")]+[J("curve_reverse",p=p,kv=k) for p in (1,2,3,4,5,6) for k in range(13)]+[J("curve_transform",p=p,kv=k) for p in (1,2,3) for k in (0,1,3,4)],
  "degrees 1-6, 13 knot patterns; symbolic target interval (length 1/2..5), 5 concrete and one symbolic linear rational reparametrisation, symbolic affine matrix with entries in [-2,2]")

PQ = ((1,1),(1,2),(2,1),(2,2),(3,1),(1,3),(2,3),(3,2))
KK = ((0,0),(1,0),(0,1),(1,2),(3,1),(4,1),(2,6))
prop("C11", "Surface points, derivatives and isocurves equal the rational B-spline definition",
  "The point of a surface at any parameter pair of its domain is the weighted tensor-product B-spline sum divided by the weight sum and lies in the hull of the control points; partial derivatives of any order satisfy the Leibniz identity with the homogeneous derivatives, whichever evaluation route is used; an isoparametric curve in either direction passes through the surface's points.",
  ALLREAL + ": control points, weights, both parameters", "The tests evaluate one or two parameter pairs of a few concrete surfaces; mixed derivatives are barely checked.",
  [SURF, INC + "BsplineSurface.h"], ["NurbsSurface::GetPointOnSurface", "ComputeRationalSurfaceDerivatives", "ComputeRationalSurfaceFirstOrderDerivative", "BsplineSurface::ComputeDerivatives", "ComputeDerivativesByAllBasisFunctions", "GetIsoCurve"], "surface",
  lambda t: [J("surf_point",p=p,q=q,ku=a,kv=b) for p,q in PQ for a,b in KK]+[J("surf_hull",p=p,q=q,ku=a,kv=b) for p,q in ((1,1),(2,1),(1,2)) for a,b in ((0,0),(1,0))]+[J("surf_iso",p=p,q=q,ku=a,kv=b) for p,q in ((1,1),(1,2),(2,1),(3,2),(2,3)) for a,b in ((0,0),(1,2),(3,4))]
    +[J("surf_derivs",p=p,q=q,ku=a,kv=b,d=d,w=w) for p,q in ((1,1),(2,1),(1,2),(2,2),(3,2)) for a,b in ((0,0),(1,0),(4,3)) for d in (1,2,3) for w in (0,2) if t=="thorough" or d<3 or w==0 or (a,b)!=(4,3)]+[J("surf_derivs",p=p,q=q,ku=0,kv=0,d=1,w=1) for p,q in ((1,1),(2,1),(1,2))]+[J("surf_derivs_all",p=p,q=q,ku=a,kv=b,d=d) for p,q in ((2,2),(3,2),(2,3),(3,3)) for a,b in ((0,0),(1,2),(5,1)) for d in (1,2)]
    +[J("surf_point",p=5,q=2,ku=1,kv=0),J("surf_point",p=4,q=3,ku=12,kv=1),J("surf_point",p=2,q=4,ku=10,kv=0),J("surf_point",p=2,q=2,ku=11,kv=0),J("surf_point",p=2,q=2,ku=0,kv=12),J("surf_derivs",p=4,q=3,ku=0,kv=1,d=2,w=0),J("surf_derivs",p=3,q=4,ku=1,kv=0,d=2,w=0),J("surf_iso",p=4,q=3,ku=11,kv=12)]+[J("surf_point",p=p,q=q,ku=a,kv=b) for p,q,a,b in ((2,1,13,0),(1,2,0,13),(2,1,9,9),(1,2,9,4),(2,2,9,0),(2,1,0,9),(1,1,8,12))]+[J("surf_derivs",p=2,q=1,ku=9,kv=0,d=1,w=0),J("surf_derivs",p=1,q=2,ku=8,kv=9,d=1,w=2),J("surf_derivs",p=2,q=2,ku=9,kv=9,d=2,fix=1,w=2),J("surf_derivs_all",p=2,q=3,ku=9,kv=9,d=2,fix=1,w=0),J("surf_iso",p=2,q=2,ku=9,kv=9)]+[J(h,p=p,q=q,ku=a,kv=b,d=d,fix=1,w=w) for h,w in (("surf_derivs",2),("surf_derivs_all",0)) for p,q,a,b in ((2,3,1,0),(5,6,0,1),(7,4,3,11),(1,7,10,0),(4,1,6,3)) for d in (3,5,7)]+[J("surf_derivs_all",p=4,q=3,ku=1,kv=3,d=2)]
    +([J("surf_point",p=p,q=q,ku=a,kv=b) for p,q in ((4,2),(2,4),(5,3),(3,5),(4,4)) for a,b in KK+((10,1),(11,3),(1,12))]+[J("surf_derivs",p=p,q=q,ku=a,kv=b,d=d,w=w) for p,q in ((4,3),(3,4),(5,2)) for a,b in ((0,0),(1,0),(3,1)) for d in (1,2) for w in (0,2)] if t=="thorough" else []),
  "degree pairs up to 3x3 (selected up to 5x2 and 2x5) over 7 combinations of knot patterns (multiple, shifted, full-multiplicity interior knots), parameters anywhere in the domain; derivative orders 1-3 with concrete uneven weights, order 1 with symbolic weights, degrees to 7 with orders to 7 at one concrete parameter per span")
prop("C12", "Surface normals and curvatures are those of differential geometry",
  "At every regular point the surface normal is the unit vector along Su x Sv, and Gauss, mean, maximum, minimum, absolute and rms curvature are those of the first and second fundamental forms.",
  ALLREAL + ": the position of one control point, and the parameter for normals", "The tests check one curvature value of one surface.",
  [SURF], ["NurbsSurface::Normal", "NurbsSurface::Curvature"], "surface",
  lambda t: [J("surf_normal",p=p,q=q,ku=a,kv=b,w=w,mid=1) for p,q in ((1,1),(2,1),(1,2),(2,2),(3,2)) for a,b in ((0,0),(1,0),(4,3)) for w in (0,1)]+[J("surf_normal",p=p,q=q,ku=0,kv=0,w=0,mid=0) for p,q in ((1,1),(2,1))]+[J("surf_curvature",p=p,q=q,ku=a,kv=b,w=w,c=c) for p,q in ((2,2),(3,2)) for a,b in ((0,0),(4,1)) for w in (0,1) for c in (0,1,2,3,4)]+[J("surf_curvature",p=p,q=q,ku=1,kv=3,w=1,c=c,last=1) for p,q in ((2,3),(1,2),(2,1)) for c in (0,2,4)]+[J("surf_normal",p=2,q=2,ku=9,kv=9,w=1,mid=1)]+[J("surf_curvature",p=2,q=2,ku=9,kv=8,w=1,c=c) for c in (0,1,2,3,4)],
  "degree pairs up to 3x2, one control point symbolic in x and z, parameters mid-span (normals also along an isoline), area element > 1/2")
prop("C13", "Surface knot insertion, refinement and removal keep the surface",
  "Inserting or refining knots in either direction, any admissible number of times and also beyond the admissible multiplicity, gives the requested knots in that direction only and the same surface at every parameter pair; removing what was inserted restores the surface; a removal never returns a malformed surface or moves a corner.",
  ALLREAL + ": control points, inserted parameter, evaluation parameters", "The tests insert one knot into one surface.",
  [SURF, CURVE], ["NurbsSurface::InsertKnot", "NurbsSurface::RefineKnotVector", "NurbsSurface::RemoveKnot"], "surface",
  lambda t: [J("surf_insert",p=p,q=q,ku=a,kv=b,dir=d) for p,q in ((1,1),(2,1),(1,2),(2,2),(3,2),(2,3)) for a,b in ((0,0),(1,0),(3,1),(4,1),(1,5)) for d in (0,1)]+[J("surf_insert_ends",p=p,q=q,ku=9,kv=9,dir=d,e=e) for p,q in ((2,2),(3,2),(2,3)) for d in (0,1) for e in (0,1)]+[J("surf_insert_over",p=p,q=q,ku=a,kv=b,dir=d) for p,q in ((1,1),(2,1),(2,3)) for a,b in ((0,0),(1,3)) for d in (0,1)]+[J("surf_refine",p=p,q=q,ku=a,kv=b,dir=d,mode=m) for p,q in ((1,1),(2,1),(2,2),(3,2),(2,3)) for a,b in ((0,0),(1,3),(4,5)) for d in (0,1) for m in (0,1)]+[J("surf_insert",p=2,q=1,ku=9,kv=9,dir=0),J("surf_insert",p=2,q=2,ku=8,kv=9,dir=1),J("surf_refine",p=2,q=2,ku=9,kv=9,dir=0,mode=0),J("surf_refine",p=2,q=2,ku=9,kv=9,dir=1,mode=1)]
    +[J("surf_remove",p=p,q=q,ku=a,kv=b,dir=d) for p,q in ((1,1),(2,1),(3,1),(2,2)) for a,b in ((0,0),(1,0),(4,1)) for d in (0,1)]+[J("surf_remove_mixed",p=p,q=1,odd=o,dir=d,pre=e,ku=u,**{"raise":n},times=n,bend=b) for p,n,b,e,u in ((3,2,2,1,0),(2,2,1,1,0),(2,2,2,1,1),(3,3,2,2,1),(3,3,1,3,0),(1,1,1,1,0)) for o in (0,1,2) for d in (0,1)]+[J("surf_remove_any",p=p,q=q,ku=a,kv=b,dir=d) for p,q in ((1,1),(2,1),(3,1),(2,2)) for a,b in ((1,0),(3,0),(8,1)) for d in (0,1)]
    +[J("surf_insert",p=4,q=3,ku=1,kv=3,dir=0),J("surf_insert",p=2,q=4,ku=0,kv=3,dir=1),J("surf_refine",p=4,q=3,ku=1,kv=3,dir=0,mode=0),J("surf_refine",p=3,q=4,ku=11,kv=10,dir=1,mode=1),J("surf_refine",p=2,q=2,ku=12,kv=11,dir=0,mode=1)]+([J("surf_insert",p=p,q=q,ku=a,kv=b,dir=d) for p,q in ((4,3),(3,4),(5,2),(2,5)) for a,b in ((1,0),(3,1),(10,1),(1,11),(12,0)) for d in (0,1)]+[J("surf_refine",p=p,q=q,ku=a,kv=b,dir=d,mode=m) for p,q in ((4,3),(3,4),(5,2),(2,5)) for a,b in ((10,3),(11,10),(1,12)) for d in (0,1) for m in (0,1)] if t=="thorough" else []),
  "degree pairs up to 3x2 / 2x3 (selected up to 5x2 and 2x5) and several knot patterns, both directions; concrete uneven weights, control points in [-8,8]^3 (removal: [-3,3]^3 with concrete far border points)")
prop("C14", "Surface degree elevation, reduction and decomposition keep the surface",
  "Raising the degree in either direction keeps every point, raises the multiplicity of each distinct knot and leaves the other direction alone; reducing an elevated surface restores it and surfaces with interior knots are refused; decomposition yields one Bezier patch per knot cell, in order, tracing exactly that cell.",
  ALLREAL + ": control points and evaluation parameters", "The tests elevate or decompose one surface and look at a few points.",
  [SURF, CURVE], ["NurbsSurface::ElevateDegree", "NurbsSurface::ReduceDegree", "NurbsSurface::DecomposeToBeziers"], "surface",
  lambda t: [J("surf_elevate",p=p,q=q,ku=a,kv=b,dir=d,t=n) for p,q in ((1,1),(2,1),(1,2),(3,2)) for a,b in ((0,0),(1,3),(4,5)) for d in (0,1) for n in (1,2)]+[J("surf_reduce",p=p,q=q,ku=a,kv=b,dir=d) for p,q in ((1,1),(2,1),(1,2),(3,2)) for a,b,d in ((0,0,0),(0,0,1),(0,1,0),(1,0,1))]+[J("surf_reduce",p=p,q=q,ku=a,kv=b,dir=d) for p,q,a,b,d in ((2,1,0,10,0),(1,2,10,0,1),(3,5,0,1,0),(5,3,0,0,1),(5,4,0,3,0),(4,5,11,0,1),(5,5,0,0,0),(2,3,0,11,0))]+[J("surf_reduce_refused",p=p,q=q,ku=1,kv=1,dir=d) for p,q in ((2,2),(3,2)) for d in (0,1)]+[J("surf_decompose",p=p,q=q,ku=a,kv=b) for p,q in ((1,1),(2,1),(1,2),(2,2),(3,2),(2,3)) for a,b in ((0,0),(1,0),(0,2),(3,1),(6,5),(4,7))]+[J("surf_elevate",p=p,q=q,ku=a,kv=b,dir=d,t=n) for p,q in ((4,3),(3,5),(5,2)) for a,b in ((3,11),(10,1),(12,0)) for d in (0,1) for n in (1,2,3)]+[J("surf_decompose",p=p,q=q,ku=a,kv=b) for p,q in ((4,5),(5,3),(2,2)) for a,b in ((11,10),(12,11),(10,12))]+[J("surf_decompose",p=p,q=q,ku=a,kv=b) for p,q,a,b in ((2,2,9,9),(2,1,0,9),(2,1,9,0),(1,3,9,4))]+[J("surf_elevate",p=p,q=q,ku=a,kv=b,dir=d,t=n) for p,q,a,b,d,n in ((2,1,9,0,0,1),(1,2,9,9,1,2),(2,2,0,9,0,1),(3,2,9,8,0,1))],
  "degree pairs up to 5x3 / 4x5, elevation by 1 and 2, interior multiplicities up to the degree; concrete uneven weights")
prop("C15", "Swapping, reversing and reparametrising a surface act as stated everywhere",
  "Swapping exchanges the two parameter directions; reversing in U, V or both runs through the same surface backwards in exactly those directions over the same domain; both are involutions; reparametrising maps both knot vectors affinely onto the requested intervals and keeps the control net.",
  ALLREAL + ": control points, parameters, target intervals", "The tests reverse or reparametrise at most one surface.",
  [SURF, ALG + "KnotVectorUtils.cpp"], ["NurbsSurface::Swap", "NurbsSurface::Reverse", "NurbsSurface::Reparametrize"], "surface",
  lambda t: [J("surf_swap",p=p,q=q,ku=a,kv=b) for p,q in PQ for a,b in KK[:5]]+[J("surf_reverse",p=p,q=q,ku=a,kv=b,dir=d) for p,q in ((1,1),(2,1),(1,2),(3,2)) for a,b in KK for d in (0,1,2)]+[J("surf_reparam",p=p,q=q,ku=a,kv=b) for p,q in ((1,1),(2,1),(2,3)) for a,b in KK]+[J("surf_swap",p=4,q=3,ku=11,kv=12),J("surf_swap",p=2,q=5,ku=10,kv=3),J("surf_reverse",p=4,q=5,ku=11,kv=12,dir=2),J("surf_reverse",p=2,q=4,ku=12,kv=10,dir=0),J("surf_reverse",p=5,q=2,ku=3,kv=11,dir=1),J("surf_reparam",p=4,q=3,ku=11,kv=12),J("surf_reparam",p=2,q=5,ku=12,kv=10),J("surf_swap",p=2,q=1,ku=9,kv=9),J("surf_reparam",p=2,q=1,ku=9,kv=9)]+[J("surf_reverse",p=2,q=2,ku=9,kv=9,dir=d) for d in (0,1,2)],
  "degree pairs up to 3x2 (selected up to 4x5), 7 combinations of knot patterns; target intervals of length 1/2..5 starting in [-5,5]")
PQR = ((1,1,1),(2,1,1),(1,2,1),(1,1,2),(2,1,3),(2,2,1))
KKK = ((0,0,0),(1,0,0),(0,1,0),(0,0,1),(3,0,4))
prop("C16", "Volume points, derivatives, isocurves and slices equal the definition",
  "The point of a volume at any parameter triple is the weighted trivariate B-spline sum divided by the weight sum; partial derivatives of every order satisfy the Leibniz identity; an isocurve in any direction passes through the volume's points; the slice at a fixed parameter in any direction (including both ends) is exactly that surface of the volume; closedness in a direction is reported exactly when the two end layers coincide.",
  ALLREAL + ": control points, weights, parameters", "No test exercises volumes at all.",
  [VOL], ["NurbsVolume::GetPointOnVolume", "ComputeVolumeRationalDerivatives", "GetIsoCurve", "Extract", "IsClosed"], "volume",
  lambda t: [J("vol_point",p=p,q=q,r=r,ku=a,kv=b,kw=c,w=0 if (p,q,r)==(2,1,3) and a+b+c and t!="thorough" else 2) for p,q,r in PQR for a,b,c in KKK]+[J("vol_point",p=p,q=q,r=r,ku=0,kv=0,kw=0,w=1) for p,q,r in PQR[:4]]+[J("vol_derivs",p=p,q=q,r=r,ku=a,kv=b,kw=c,d=d,w=2) for p,q,r in PQR for a,b,c in ((0,0,0),(1,0,1)) for d in (1,2) if (p,q,r)!=(2,1,3) or (d,a)==(1,0) or t=="thorough"]+[J("vol_point",p=3,q=2,r=2,ku=1,kv=0,kw=0,w=0),J("vol_point",p=2,q=3,r=4,ku=0,kv=1,kw=0,w=0)]+[J("vol_slice",p=3,q=2,r=4,ku=1,kv=3,kw=1,dir=d) for d in (0,1,2)]+[J("vol_derivs",p=2,q=1,r=3,ku=1,kv=0,kw=1,d=2,w=0),J("vol_derivs",p=3,q=2,r=2,ku=0,kv=0,kw=0,d=2,w=0)]+[J("vol_derivs",p=p,q=q,r=r,ku=a,kv=b,kw=c,d=d,fix=1,w=2) for p,q,r,a,b,c in ((2,1,3,0,1,0),(2,3,4,1,0,0),(1,2,2,0,0,1),(5,1,2,3,0,0),(3,4,1,0,0,3)) for d in (2,3,4,5)]+[J("vol_iso",p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d) for p,q,r in PQR for a,b,c in ((0,0,0),(1,0,1)) for d in (0,1,2)]+[J("vol_slice",p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d) for p,q,r in PQR for a,b,c in KKK for d in (0,1,2)]+[J("vol_closed",p=p,q=q,r=r,dir=d,mode=m) for p,q,r in PQR[1:5] for d in (0,1,2) for m in (0,1,2)]
    +[J("vol_point",p=p,q=q,r=r,ku=a,kv=b,kw=c,w=w) for p,q,r,a,b,c,w in ((1,2,1,9,0,0,2),(1,2,1,0,9,0,2),(1,1,2,8,4,9,0),(2,1,1,13,0,0,0),(1,1,2,0,0,13,0))]+[J("vol_derivs",p=2,q=1,r=1,ku=9,kv=8,kw=4,d=1,w=0)]+[J("vol_iso",p=1,q=2,r=1,ku=8,kv=12,kw=10,dir=d) for d in (0,1,2)]+[J("vol_slice",p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d) for p,q,r,a,b,c,d in ((2,1,1,9,9,9,0),(1,2,1,8,9,9,1),(1,1,2,9,4,9,2),(1,2,1,4,8,12,0),(1,2,1,4,8,12,1),(1,2,1,4,8,12,2))],
  "degrees up to (2,1,3) and (3,2,2), up to 2 interior knots per direction; parameters anywhere (each span, each knot, both ends); derivative orders 1 and 2 with uneven concrete weights, degrees to 5 with orders to 5 at one concrete parameter per span")
prop("C17", "Volume knot, degree, split, swap and reverse operations keep every point",
  "Inserting and refining knots, elevating the degree, splitting, swapping two directions (in either order) and reversing a direction, in any of the three directions, return well-formed volumes that agree with the original at every parameter in the stated way and leave the other directions alone.",
  ALLREAL + ": control points, cut and evaluation parameters", "No test exercises volumes at all.",
  [VOL, CURVE], ["NurbsVolume::InsertKnot", "RefineKnotVector", "ElevateDegree", "SplitAt", "Swap", "Reverse"], "volume",
  lambda t: [J("vol_insert",p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d) for p,q,r in PQR for a,b,c in ((0,0,0),(1,0,1)) for d in (0,1,2)]+[J("vol_insert_over",p=p,q=q,r=r,ku=1,kv=0,kw=1,dir=d) for p,q,r in ((2,1,1),(1,2,1),(1,1,2)) for d in (0,1,2)]+[J("vol_split",p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d) for p,q,r in PQR for a,b,c in ((0,0,0),(1,0,1),(0,3,0)) for d in (0,1,2)]+[J("vol_refine",p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d) for p,q,r in PQR for a,b,c in ((0,0,0),(1,0,1)) for d in (0,1,2)]+[J("vol_elevate",p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d,t=n) for p,q,r in PQR[:5] for a,b,c in ((0,0,0),(3,0,1)) for d in (0,1,2) for n in (1,2)]+[J("vol_reverse",p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d) for p,q,r in PQR for a,b,c in ((0,0,0),(1,0,4)) for d in (0,1,2)]+[J("vol_swap",p=p,q=q,r=r,ku=a,kv=b,kw=c) for p,q,r in PQR for a,b,c in KKK]+[J("vol_insert",p=3,q=2,r=2,ku=1,kv=3,kw=0,dir=0),J("vol_insert",p=2,q=3,r=2,ku=1,kv=3,kw=0,dir=1),J("vol_insert",p=2,q=2,r=3,ku=0,kv=0,kw=3,dir=2),J("vol_refine",p=3,q=2,r=2,ku=1,kv=3,kw=1,dir=0),J("vol_refine",p=2,q=2,r=3,ku=0,kv=1,kw=3,dir=2)]+[J("vol_elevate",p=p,q=q,r=r,ku=1,kv=3,kw=1,dir=d,t=n) for p,q,r in ((3,2,2),(2,3,3)) for d in (0,1,2) for n in (1,2)]+[J("vol_split",p=3,q=2,r=2,ku=3,kv=1,kw=0,dir=d) for d in (0,1,2)]+[J("vol_split",ku=0,kv=0,kw=0,dir=d,**dict(zip("pqr",(1,1,1)),**{"pqr"[d]:g})) for d in (0,1,2) for g in (4,5)]+[J("vol_reverse",p=3,q=2,r=3,ku=1,kv=0,kw=3,dir=d) for d in (0,1,2)]+([J(h,p=p,q=q,r=r,ku=a,kv=b,kw=c,dir=d) for h in ("vol_insert","vol_refine","vol_split","vol_reverse") for p,q,r in ((3,2,2),(2,3,2),(2,2,3)) for a,b,c in ((1,3,0),(0,1,4),(3,0,1)) for d in (0,1,2)] if t=="thorough" else [])
    +[J(h,p=1,q=2,r=1,ku=4,kv=8,kw=12,dir=d) for h in ("vol_insert","vol_refine","vol_elevate","vol_reverse") for d in (0,1,2)]+[J("vol_split",p=2,q=1,r=1,ku=4,kv=8,kw=12,dir=d) for d in (0,1,2)]+[J("vol_split",p=2,q=1,r=1,ku=9,kv=0,kw=0,dir=0),J("vol_split",p=1,q=2,r=1,ku=0,kv=9,kw=0,dir=1),J("vol_split",p=1,q=1,r=2,ku=0,kv=0,kw=9,dir=2)]+[J("vol_insert",p=1,q=2,r=1,ku=9,kv=0,kw=9,dir=1),J("vol_elevate",p=1,q=2,r=1,ku=0,kv=9,kw=0,dir=1),J("vol_elevate",p=1,q=1,r=2,ku=0,kv=0,kw=9,dir=2),J("vol_reverse",p=1,q=2,r=1,ku=4,kv=8,kw=9,dir=2),J("vol_swap",p=1,q=2,r=1,ku=4,kv=8,kw=0),J("vol_swap",p=1,q=2,r=1,ku=0,kv=9,kw=8)],
  "degrees up to (2,1,3) and (3,2,2)-like, up to 2 interior knots per direction, all three directions; concrete uneven weights")
MTH = S + "Mathematics/Math/"; MU = S + "Mathematics/Utils/MathUtils.cpp"
prop("C18", "Vector algebra of points, parameters and weighted points is exact",
  "For all XYZ, XYZW, UV and UVW values: sum, difference, negation, scaling, division, dot, cross, length, distance and their operator and in-place forms are the componentwise definitions; normalising gives the unit vector of the same direction (zero stays zero); the angle between two vectors has the right cosine and is symmetric; zero, unit and tolerant-equality tests agree with the lengths and differences; lifting a point with a weight, projecting back and changing the weight keep its location; an orthogonal vector is a perpendicular unit vector for every non-zero direction; converting rows and grids of control points and multiplying grids by matrices act on every point.",
  ALLREAL + ": all components, scalars and tolerances", "The tests check single concrete vectors.",
  [MTH + "XYZ.cpp", MTH + "XYZW.cpp", MTH + "UV.cpp", MTH + "UVW.cpp"], ["XYZ::DotProduct", "XYZ::CrossProduct", "XYZ::Normalize", "XYZ::AngleTo", "XYZW::SetW", "XYZ::CreateRandomOrthogonal"], "mathx",
  lambda t: [J(h) for h in ("vec_ops","vec_normalize","vec_zero_unit","vec_angle","vec_almost_equal","vec_uv","vec_xyzw","vec_access","vec_uv_pred","vec_orthogonal")]+[J("cp_utils",m=m,n=n,p=p) for m,n,p in ((1,1,1),(2,3,2),(3,2,1),(1,2,3),(3,4,2),(2,6,5),(6,2,5),(5,5,1))],
  "components in [-8,8], weights in [1/4,4], lengths at least 0.01 where a direction is needed; angles in (0.01, 3.13) in four planes plus the parallel cases; tolerances in [0.001, 0.5]")
prop("C19", "Transformations act on points, vectors and weights as their geometry says",
  "For all matrices: product, sum, difference and transpose are the matrix operations and the product composes the maps of points and vectors; a weighted point is moved and keeps its weight; rotation (about the origin or a point) is the Rodrigues rotation by that angle about that axis, reflection mirrors at the plane n.x + d = 0 of the normal n, scaling and translation act componentwise; reflection, identity and translation tests are answered exactly; the inverse is a two-sided inverse and is refused exactly for singular matrices.",
  ALLREAL + ": matrix elements, axes, angles, points", "The tests check a few concrete matrices.",
  [MTH + "Matrix4d.cpp", MU], ["Matrix4d::Multiply", "CreateRotation", "CreateRotationAtPoint", "CreateReflection", "GetInverse", "IsIdentity", "HasReflection"], "mathx",
  lambda t: [J("mat_algebra"),J("mat_compose"),J("mat_translate_scale"),J("mat_is_identity")]+[J("mat_rotation",axis=a) for a in range(7)]+[J("mat_reflection",axis=a) for a in range(7)]+[J("mat_is_identity",j=j,k=k) for j,k in ((1,4),(15,3),(6,9))]+[J("mat_inverse",k=k) for k in range(7)]+[J("mat_singular",k=k) for k in range(4)],
  "all 32 elements symbolic for the algebra; rotation and reflection axes six concrete and one symbolic direction, angle in [-3.2,3.2]; inverses: seven families with up to three symbolic elements, four singular families; identity tests: up to three perturbed elements at 16 positions")
prop("C20", "Linear systems, determinants and inverses satisfy their equations",
  "Solving a regular linear system (dense or banded) returns the solution for every right-hand side, an overdetermined system its least-squares solution; matrix product, transpose, column and identity are those of linear algebra; the determinant is the Leibniz sum; matrix times inverse is the identity and non-square matrices are refused; the cubic solver returns a root.",
  ALLREAL + ": right-hand sides, matrix elements where symbolic", "The tests solve one system.",
  [MU, INC + "MathUtils.h"], ["MathUtils::SolveLinearSystem", "SolveLinearSystemBanded", "MatrixMultiply", "GetDeterminant", "MakeInverse", "Transpose", "ComputerCubicEquationsWithOneVariable"], "mathx",
  lambda t: [J("lin_solve",n=n,id=i) for n in (2,3,4,5,6,8) for i in (0,1,2)]+[J("lin_solve2",k=k) for k in range(3)]+[J("lin_lsq",m=m,n=n) for m,n in ((3,2),(4,2),(5,3),(6,3),(7,4))]+[J("lin_banded",n=n,hb=h) for n,h in ((3,1),(4,1),(5,1),(4,2),(5,2),(6,3))]+[J("lin_basic",m=m,n=n,p=p) for m,n,p in ((1,1,1),(2,3,2),(3,2,4),(1,4,1),(4,1,3))]+[J("lin_det",n=n,id=i,row=r,free=2) for n in (2,3,4) for i in (0,1) for r in (0,n-1)]+[J("lin_inverse",n=n,id=i) for n in (2,3,4,5,6,7) for i in (0,1,2)]+[J("cubic_root",k=k,neg=g) for k in range(10) for g in (0,1)],
  "concrete matrices of dimension 2-8 (dominant, permuted, banded) with all right-hand sides in [-8,8]; symbolic 2x2 matrices; determinants with two symbolic elements up to 4x4; inverses with one symbolic element up to 5x5. Square roots of constants inside the QR factorisation are 400-bit approximations; ten monotone or convergent cubics, quadratics and linear equations times every factor")
prop("C21", "Tolerant comparisons are consistent; binomials, factorials, angles exact",
  "For every pair of numbers and tolerance exactly one of less, almost equal and greater holds, less-or-equal and greater-or-equal are their unions, and almost equal means a difference of at most tolerance*(1+max(|a|,|b|)); a comparison with not-a-number is false and an infinity equals only itself; binomials and factorials are the combinatorial numbers; degree/radian conversion is inverse to itself.",
  ALLREAL + ": both numbers and the tolerance", "The tests compare a few pairs.",
  [MU], ["MathUtils::IsAlmostEqualTo", "IsGreaterThan", "IsLessThan", "Binomial", "Factorial"], "mathx",
  lambda t: [J("tol_compare"),J("tol_compare",dflt=1),J("scalar_misc"),J("tol_nan")],
  "numbers in [-100,100], tolerances in [0,1/2] and the default; binomials up to 34, factorials up to 20")
prop("C22", "Ray, line and plane intersection and projection are geometrically right",
  "Two crossing lines are reported as intersecting with the common point and its parameters, skew lines as skew with the parameters of the closest points, parallel and coincident lines as such, zero directions are rejected; a line meets a plane in the reported point or is reported parallel or inside; the projection onto a ray or segment is the perpendicular foot and is refused beyond the segment; stereographic projection lands on the line through the pole.",
  ALLREAL + ": points, directions, parameters", "The tests intersect a few concrete rays.",
  [ALG + "Intersection.cpp", ALG + "Projection.cpp"], ["Intersection::ComputeRays", "Intersection::ComputeLineAndPlane", "Projection::PointToRay", "Projection::PointToLine", "Projection::Stereographic"], "mathx",
  lambda t: [J("ray_meet",a=a,b=b,skew=k) for a,b in ((0,1),(2,3),(0,4),(4,1),(3,5),(2,0),(4,5)) for k in (0,1)]+[J("ray_parallel",a=a,b=b,off=o) for a,b in ((0,1),(2,3),(3,0),(4,6)) for o in (0,1)]+[J("ray_meet",a=a,b=b,skew=k,near=1) for a,b in ((0,7),(7,0),(2,8),(8,0)) for k in (0,1)]+[J("ray_parallel",a=a,b=b,off=o,far=f) for a,b in ((0,1),(2,3),(3,0)) for o,f in ((0,1),(1,1),(0,2),(1,2))]+[J("line_plane",a=a,b=b,par=0,near=1) for a,b in ((0,9),(9,0),(8,9),(0,8))]+[J("ray_bad",a=a) for a in (0,2,5)]+[J("line_plane",a=a,b=b,par=0) for a,b in ((0,2),(2,3),(3,4),(5,4),(4,5),(6,3))]+[J("line_plane",a=a,b=0,par=p) for a in (0,2,3,4,5) for p in (1,2)]+[J("project",a=a) for a in range(6)]+[J("stereographic")],
  "points in [-4,4]^3, four concrete and two symbolic direction families, ray parameters in [-4,4], squared sine of the angle between directions at least 0.05/(|v|^2|w|^2), concrete directions down to 1.7 degrees, skew distance at least 0.1")
CRE = "create"
prop("C23", "Created lines, arcs, conics and Hermite splines are exactly the requested shape",
  "A created line runs uniformly from start to end; a created circular or elliptical arc has the requested start, end and sweep in the given axes and every one of its points lies on that circle or ellipse (one rational piece per started quarter turn, meeting at equal angles); a conic through given end points, end tangents and a point lies entirely on the conic those data define, the reported apex and weight included; splitting a conic arc at its shoulder gives the exact halves; a cubic Hermite spline passes through the given points with exactly the given tangents; degenerate requests (coincident line ends, zero axes, non-positive radii, empty or over-full sweeps) are rejected.",
  ALLREAL + ": end points, centre, radii, sweep, weights, tangents", "The tests create a few fixed arcs and conics and check one or two control points.",
  [CURVE], ["NurbsCurve::CreateLine", "NurbsCurve::CreateArc", "NurbsCurve::CreateOneConicArc", "NurbsCurve::SplitArc", "NurbsCurve::CreateOpenConic", "NurbsCurve::CreateCubicHermite"], CRE,
  lambda t: [J("make_line"),J("make_arc_bad")]+[J("make_full_arc",q=q,ax=a,ell=e) for q in (1,2,3,4) for a in (0,1,2,3) for e in (0,1)]+[J("make_arc",na=1,ax=a,ell=e) for a in (0,1,2) for e in (0,1)]+[J("make_arc",na=1,fa=1,cr=1,ell=e) for e in (0,1)]+[J("make_arc",na=1,a4=a) for a in (-3,1,3)]+[J("make_arc",na=n,cr=1,ell=e) for n in (2,3) for e in (0,1)]+([J("make_arc",na=4,cr=1),J("make_arc",na=2,cr=1,ell=1,ax=2),J("make_arc",na=2,fa=1,cr=1)] if t=="thorough" else [])
    +[J("one_conic",tri=k,u=u) for k in (0,1,2,3) for u in (25,50,80)]+[J("one_conic_inf",tri=k,u=u) for k in (0,1,2) for u in (30,50)]+[J("open_conic",tri=k,band=0,u=u) for k in (0,1) for u in (40,50)]+[J("open_conic",tri=k,band=1,wn=w) for k in (0,1,2,4) for w in (20,50,80,95)]+[J("open_conic",tri=k,band=2,wn=w) for k in (0,1) for w in (30,50)]+[J("open_conic_inf",tri=k) for k in (0,1,2)]+[J("split_arc",inf=i) for i in (0,1)]+[J("hermite",n=4,id=i,cyc=c) for i in (0,1) for c in (1,2)]+[J("hermite",n=4)]+[J("hermite",n=n,id=i,cyc=c) for n in (6,7,8) for i in (0,1) for c in (1,2)]+([J("hermite",n=4,id=1),J("hermite",n=5,cyc=1)] if t=="thorough" else []),
  "lines: all end points in [-8,8]^3 at least 0.01 apart along one axis; arcs: 4 axis pairs, symbolic centre and radii [1/2,4] for one piece and quarter-turn multiples, concrete radii with a symbolic sweep for 2-3 pieces (thorough 4), symbolic start angle for one piece; conics: 5 control triangles translated symbolically, symbolic weights (> 1) or 6 concrete ones (<= 1, negative), point parameter from a list; Hermite: 4 points, symbolic tangents", weight="high")
prop("C24", "Interpolating curves pass through every point with the requested tangents",
  "Global interpolation returns a clamped polynomial curve of the requested degree with as many control points as data, passing through each point exactly at its parameter (given, or chord length); with tangents it also has, at each point and from both sides, the given tangent times the factor; local cubic interpolation passes through every point and turns continuously; the three-point and five-point tangent estimates are the parabola derivative and the chord-weighted unit direction, finite also for repeated or collinear points; the parametrisation helpers return the (averaged) chord or centripetal parameters and averaged knots.",
  ALLREAL + ": points (or all planar polylines with given chord lengths), tangents, factor, parameters", "The tests interpolate a few fixed point sets and mostly check only the end points.",
  [CURVE, ALG + "Interpolation.cpp"], ["NurbsCurve::GlobalInterpolation", "NurbsCurve::CubicLocalInterpolation", "Interpolation::ComputeTangent", "Interpolation::GetChordParameterization", "Interpolation::AverageKnotVector", "Interpolation::GetSurfaceMeshParameterization"], CRE,
  lambda t: [J("interp_params",p=p,n=n,uni=u) for p in (1,2,3,4,5) for n in (p+1,p+2,7) for u in (0,1) if n<=7]+[J("interp_chord",p=p,n=n,id=i) for p in (1,2,3) for n in (4,5,8) for i in (0,1,2,3)]+[J("interp_tangent",p=p,n=n,id=i) for p in (2,3) for n in (p+1,5,6) for i in (0,1,3)]+[J("interp_tangent",p=p,n=6,id=i) for p in (4,5) for i in (0,3)]+[J("local_cubic",n=n,id=i) for n in (5,6,8) for i in (0,1,2)]+[J("tangent3",n=n,id=i,rep=r) for n in (3,5,7) for i in (0,1,3) for r in (-1,0,1)]+[J("tangent3",n=5,rep=3)]+[J("tangent5",n=n,id=i) for n in (4,5,8) for i in (0,1,2)]
    +[J("chord_params",n=n,id=i,cen=c,rep=r) for n in (2,3,6) for i in (1,3) for c in (0,1) for r in (-1,1) if r<n-2]+[J("chord_params",n=n,id=3,cen=c,small=s) for n in (3,5) for c,s in ((0,13),(1,16))]+[J("same_points_params",n=n) for n in (3,5)]+[J("average_knots",p=p,n=n) for p in (1,2,3,4) for n in (p+1,p+2,p+4)]+[J("approx_knots",p=p,m=m,cn=c) for p,m,c in((3,8,6),(2,9,4),(3,6,6),(1,7,5),(2,7,5),(3,10,5))]+[J("mesh_params",n=n,m=m,deg=d) for n,m in((4,3),(3,3),(2,4)) for d in (0,1,2)]+[J("quad_weight"),J("quad_weight",col=1),J("quad_weight",col=1,mx=3),J("tiny_params")]+[J("tangent3_same",n=n,at=a,id=i) for n in (5,7) for a in (1,2,n-2) for i in (0,1)]+[J("mesh_params_same",row=r) for r in (0,1,2)]+[J("quad_weight_any",tri=k) for k in range(5)],
  "degrees 1-5, up to 8 points; explicit parameters: two concrete parameter patterns with fully symbolic points; chord parameters: two concrete shapes translated symbolically and every planar polyline with a fixed list of chord lengths (directions symbolic); symbolic tangents and factor; linear systems solved by the library's own Eigen code executed symbolically", weight="high")
prop("C25", "Least-squares fits are true minimisers that respect their constraints",
  "A least-squares curve has the requested degree and number of control points, starts and ends at the first and last point, and its residuals at the data parameters are orthogonal to every free basis function; with weights and tangents, points and tangents of negative weight are met exactly, those of zero weight are ignored and the weighted residuals are orthogonal to every direction the constraints leave free.",
  ALLREAL + ": planar polylines of given chord lengths, tangents", "The tests only check that a fit is returned and is well formed.",
  [CURVE, ALG + "Interpolation.cpp", S + "Mathematics/Math/MathUtils.cpp"], ["NurbsCurve::LeastSquaresApproximation", "NurbsCurve::WeightedAndContrainedLeastSquaresApproximation", "MathUtils::SolveLinearSystemBanded", "Interpolation::ComputeKnotVector"], CRE,
  lambda t: [J("lsq",p=p,n=n,cn=c,id=i) for p,n,c in((3,7,5),(2,8,5),(1,7,4),(1,4,2),(1,3,3),(2,3,3),(3,8,6),(3,8,4),(2,5,3),(3,6,6),(3,6,5),(2,6,4),(4,8,6)) for i in (0,1,3)]+[J("wlsq",p=p,cn=c,pat=k,id=i) for p,c in((3,5),(2,4),(3,6),(1,4)) for k in range(6) for i in (1,3) if (p,k)!=(1,4)]+[J("wlsq",p=p,cn=c,pat=6,id=i) for p,c in ((3,8),(2,8),(3,7),(4,8)) for i in (1,3)],
  "degrees 1-4, 5-8 data points, 3-6 control points; two concrete shapes translated symbolically and every planar polyline with a fixed list of chord lengths; 6 weight/tangent patterns with symbolic tangents")
MOD = "modify"
prop("C26", "Shape modification moves exactly what was asked and nothing else",
  "Repositioning a control point moves the curve point at the given parameter by the given distance in the given direction and changes only that control point (refused exactly where it has no influence); changing one weight, or two neighbouring weights, moves the curve point by the given distance along the line to the control point or leg, keeps all control point positions and all other weights; warping, flattening and bending displace exactly the control points of the range as defined and keep degree, knots and weights; constraint-based modification changes each constrained point or derivative by exactly the given vector and leaves fixed and uninvolved control points alone; indices out of range are rejected.",
  ALLREAL + ": control points, weights, parameters, distances, directions, constraint vectors", "The tests modify one or two concrete curves and check a single point.",
  [CURVE], ["NurbsCurve::ControlPointReposition", "NurbsCurve::WeightModification", "NurbsCurve::NeighborWeightsModification", "NurbsCurve::Warping", "NurbsCurve::Flattening", "NurbsCurve::Bending", "NurbsCurve::ConstraintBasedModification"], MOD,
  lambda t: [J("reposition",p=p,kv=v,sp=s,k=k,wm=w) for p,v,s in ((1,1,1),(2,1,0),(2,2,2),(3,1,1)) for k in (0,2,3) for w in (1,2) if k<p+2]+[J("reposition",p=2,kv=1,sp=0,k=1,neg=1,dir=d) for d in (0,3,4)]+[J("reposition",p=p,kv=1,end=1,k=k) for p in (1,2,3) for k in (1,p+1)]
    +[J("weight_mod",p=p,sp=s,back=b,dir=d) for p in (1,2) for s in (0,1) for b in (0,1) for d in (0,2)]+[J("weight_mod3",p=p,kv=2,id=i,wm=w,sp=1,back=b) for p in (2,3) for i in (0,1) for w in (0,1) for b in (0,1,2)]+[J("neighbor_weights",p=p,kv=2,id=i,wm=w,sp=1,back=b,neg=g) for p in (2,3) for i in (0,1) for w in (0,1) for b in (1,2) for g in (0,1) if b<p or g or w]+[J("neighbor_bad",p=p) for p in (1,2,3)]
    +[J("warp",p=p,kv=v,id=i,wm=w,neg=g,a=a,dir=d) for p,v in ((2,1),(3,2)) for i in (0,1) for w,g,a,d in ((1,0,0,3),(0,1,1,3),(1,1,1,5))]+[J("flatten",p=p,mode=m,a=a,b=b,frac=f,dir=d) for p in (1,2,3) for m,a,b,f,d in ((0,1,1,0,0),(1,1,1,0,0),(0,1,2,1,3),(0,0,1,0,2))]+[J("bend",p=p,a=a,b=b) for p in (1,2) for a,b in ((1,1),(0,1))]+[J("constrain",p=p,kv=7,pat=k,wm=w) for p in (2,3) for k in range(5) for w in (0,2)]+[J("reposition",p=p,kv=v,sp=s,k=k,wm=1) for p,v,s in ((4,1,1),(5,2,1),(4,11,1),(6,0,0)) for k in (3,4)]+[J("weight_mod3",p=p,kv=v,id=i,wm=1,sp=s,back=b) for p,v,s in ((4,11,2),(5,2,1),(6,10,3)) for i in (0,1) for b in (0,3)]+[J("neighbor_weights",p=p,kv=2,id=i,wm=1,sp=1,back=2) for p in (4,5) for i in (0,1)]+[J("warp",p=4,kv=10,id=1,wm=1,a=1,dir=3)]+[J("flatten",p=p,mode=m,a=1,b=2) for p in (4,5) for m in (0,1)]+[J("bend",p=p,a=0,b=1) for p in (3,4)]+[J("constrain",p=p,kv=7,pat=k,wm=w) for p in (4,5) for k in range(5) for w in (0,2)],
  "degrees 1-6; reposition: all control points, parameter and distance symbolic, concrete uneven or symbolic weights; weight changes: collinear control points with symbolic abscissae and two concrete space curves, distance symbolic; warping on two space curves with symbolic shape values; flattening and bending with symbolic control points on knots 0..2p+4; five constraint patterns up to second derivatives")
SMK = "surfmake"
prop("C27", "Created surfaces are exactly the shape requested",
  "A bilinear surface is the bilinear blend of its four corners; a cylinder, and a curve revolved about any axis (of any length) by any angle up to a full turn, contains exactly the points at the requested radius, angle and height (profile point rotated about the axis, distance and height kept); a ruled surface joins equal parameters of its two curves by straight lines whatever their degrees, knots and weights; a translational sweep is the sum of profile and trajectory; a Coons surface contains its four boundary curves as edges and refuses unconnected ones; the corner fillet lies on the sphere and is bounded by the arc; non-uniform scaling scales the points about the reference point and keeps weights; the parameter-plane tangent reproduces the given tangent in the least-squares sense and is refused at singular points; the area of a planar face with straight or curved edges, and of part of a cylinder, is right for every integrator.",
  ALLREAL + ": corners, control points, radii, heights, origins, factors, parameters, sweep angle", "The tests build one concrete surface of each kind and check one or two points.",
  [SURF], ["NurbsSurface::CreateBilinearSurface", "NurbsSurface::CreateCylindricalSurface", "NurbsSurface::CreateRuledSurface", "NurbsSurface::CreateRevolvedSurface", "NurbsSurface::NonUniformScaling", "NurbsSurface::CreateGeneralizedTranslationalSweepSurface", "NurbsSurface::CreateCoonsSurface", "NurbsSurface::MakeCornerFilletSurface", "NurbsSurface::GetUVTangent", "NurbsSurface::ApproximateArea"], SMK,
  lambda t: [J("bilinear")]+[J("cylinder",q=q,ax=a,a0=b) for q in (1,2,3,4) for a in (0,1,2) for b in (0,1)]+[J("ruled",p=p,q=q,ka=a,kb=b,w=w) for p,q in ((1,1),(2,2),(1,3),(3,2),(2,1)) for a,b in ((0,0),(1,2),(2,0)) for w in (0,1)]+[J("ruled",p=p,q=p,ka=a,kb=b,w=w) for p,a,b,w in ((1,1,6,1),(2,3,6,0),(2,2,5,1))]
    +[J("revolved",q=q,ax=a,al=l,p=p,k=k,w=w) for q in (1,2,3,4) for a,l in ((6,1),(0,3),(4,2),(1,1)) for p,k,w in ((1,1,1),(2,0,0))]+[J("revolved",q=4,pole=1,ax=a) for a in (6,1)]+[J("revolved",q=1,neg=1,ax=a,al=l,p=p,w=w) for a,l,p,w in ((6,1,1,1),(0,3,2,0),(4,1,2,1))]+[J("revolved",na=n,circ=0,o=0,w=0,ax=a) for n in (1,2,3) for a in (6,0)]+[J("scaling",w=w,zero=z) for w in (0,1,2) for z in (0,1)]+[J("scaling",p=5,q=6),J("scaling",p=2,q=5,ku=10,kv=11,w=2)]
    +[J("trans_sweep",p=p,q=q,ka=a,kb=b,w=w) for p,q in ((2,1),(1,2),(3,2)) for a,b in ((0,1),(2,0)) for w in (0,1,2)]+[J("coons",k=k,w=w,pl=a,pb=b,pr=c,pt=d) for k in (0,1,2) for w in (0,1) for a,b,c,d in ((3,2,1,2),(1,3,3,1),(2,2,2,2))]+[J("coons",ks=k,w=w,pl=a,pb=b,pr=c,pt=d) for k,w,a,b,c,d in ((125,0,2,2,2,2),(5213,1,2,2,2,3),(2012,0,4,1,2,4),(18,0,1,2,1,3),(8101,0,2,5,3,4),(1,1,5,2,4,3),(1111,0,2,2,2,2),(2222,1,2,2,2,2),(3333,0,2,3,2,3))]+[J("coons_bad",k=k) for k in range(9)]
    +[J("fillet",rot=0,k=k,up=u,R=r,a0=a,a1=b) for k in (0,1,2) for u in (0,1) for r,a,b in ((2,0,6),(3,1,5),(1,2,6))]+[J("uv_tangent",par=0,p=p,q=q,w=w,uu=u,vv=v) for p,q in ((2,1),(2,2),(1,3)) for w in (0,1) for u,v in ((30,60),(0,100),(75,25))]+[J("uv_tangent",par=1)]+[J("area_plane",ty=y,id=i,p=p,q=q,k=k,kv=v) for y in (0,1,2) for i in (0,1) for p,q,k,v in ((1,1,0,0),(2,1,1,0),(2,3,0,2))]+[J("area_face",ty=y,id=i,f=0 if y==2 else 1,w=w) for y in (0,1,2) for i in range(4) for w in (0,1)]+[J("area_tube",ty=y,q=q,tr=0) for y in (0,1,2) for q in (1,2,3)],
  "degrees 1-3, knot patterns with simple and repeated knots; cylinders and revolutions by 1-4 quarter turns with everything else symbolic and symbolic sweep for 1-3 pieces about two axes; four axis directions of lengths 1-3; Coons curves with symbolic control points and concrete corners' depth; 18 concrete fillet arcs, symbolic surface parameters; tangents at concrete parameters of concrete surfaces, tangent vector symbolic; swung surfaces are outside (the routine implements no documented formula)", weight="high")
prop("C28", "Interpolated, fitted, lofted, swept and Gordon surfaces meet their data",
  "A surface interpolating a grid of any size has the requested degrees, as many control points as data and passes through every grid point at its mesh parameters; local bicubic interpolation passes through every point with the chord-scaled tangents in both directions; a least-squares surface keeps the corners and is the tensor product of the row and column curve fits with the requested degrees and control point counts; a loft contains every section whatever the sections' degrees, knots and weights; a Gordon surface contains every curve of both families; every section of a sweep is the rigid, perpendicular image of the profile at its trajectory point from the start to the end of the trajectory (a straight sweep everywhere); projected normals are unit, perpendicular to the curve, carried along without flips, and close up on closed curves.",
  ALLREAL + ": grid points, section control points, weights, surface parameters", "The tests interpolate one square grid, loft and sweep one shape, and check corners; the rows and columns are interchangeable there.",
  [SURF, CURVE, ALG + "Interpolation.cpp"], ["NurbsSurface::GlobalInterpolation", "NurbsSurface::BicubicLocalInterpolation", "NurbsSurface::GlobalApproximation", "NurbsSurface::CreateLoftSurface", "NurbsSurface::CreateGordonSurface", "NurbsSurface::CreateSweepSurface", "NurbsCurve::ProjectNormal"], SMK,
  lambda t: [J("surf_interp",n=n,m=m,p=p,q=q,id=i) for n,m,p,q in ((4,4,2,2),(4,3,2,1),(3,5,2,3),(5,5,3,3),(6,4,3,3),(2,5,1,3)) for i in (0,1,2)]+[J("bicubic_local",n=n,m=m,id=i) for n,m in ((5,5),(5,6),(6,5)) for i in (0,1,2)]+[J("surf_approx",n=n,m=m,p=p,q=q,cr=c,cc=d) for n,m,p,q,c,d in ((5,5,2,3,4,4),(6,5,2,2,4,3),(6,7,2,3,4,5),(5,4,2,1,3,3),(7,6,3,1,5,4))]
    +[J("loft",id=0,K=k,p=p,kv=v,w=w) for k,p,v in ((4,2,1),(3,2,0),(4,3,0),(5,3,2)) for w in (0,1,2)]+[J("loft",id=1,K=k,p=p,q=q,mix=m,w=w) for k,p,q in ((4,2,2),(4,3,2),(5,2,3)) for m in (0,1,2) for w in (0,2)]+[J("loft",id=2,K=k,p=2,w=w) for k in (3,5) for w in (0,1)]+[J("loft",id=2,K=k,p=p,kv=v,w=w) for k,p,v,w in ((3,2,11,0),(4,3,2,1),(4,3,11,2))]+[J("loft",id=2,K=k,p=2,w=w,still=i) for k,w,i in ((3,0,0),(4,1,2),(5,2,1))]
    +[J("gordon",N=n,M=m,p=p,q=q,bf=b) for n,m,p,q,b in ((4,4,3,3,1),(4,5,3,3,1),(3,4,3,2,1),(4,3,2,3,2),(2,4,3,1,2),(3,3,2,2,3),(3,3,1,2,1))]+[J("gordon",N=n,M=m,p=p,q=q,bf=0,mix=x,rep=r,lin=l) for n,m,p,q,x,r,l in ((4,4,3,3,3,0,0),(4,4,3,3,1,1,0),(4,3,3,3,0,1,0),(3,4,3,3,2,0,0),(3,3,3,3,0,0,0),(5,5,3,3,0,0,1),(5,5,3,3,0,1,2),(4,5,3,3,0,0,3),(5,4,2,3,2,0,1))]+[J("sweep_line",p=p,k=k,K=K,cust=c,w=w,dir=d) for p,k,K,c,w,d in ((2,0,3,0,0,6),(2,1,4,0,2,2),(2,0,3,2,0,6),(3,0,5,2,0,3),(2,0,2,1,1,4),(1,2,3,0,3,5))]+[J("sweep_curve",id=i,K=k,w=w,cust=c,seed=s) for i in (0,1,2) for k,w,c,s in ((3,0,0,0),(5,1,0,1),(3,0,1,2),(4,1,1,3))]+[J("sweep_curve",id=i,K=k,w=1,cust=0) for i in (4,5) for k in (4,7)]+[J("sweep_curve",id=i,K=k,w=w,cust=c,sh=s) for i,k,w,c,s in ((0,3,0,1,1),(1,4,1,1,2),(0,3,0,0,1),(1,3,1,0,2),(2,5,1,1,1))]+[J("project_normal",id=i,shift=s,seed=z) for i in (0,1,2,3) for s in (0,1) for z in (0,1,2)],
  "grids up to 7x7: translational grids of two planar polylines (all directions symbolic, chord lengths fixed) and two concrete grids translated symbolically; degrees 1-3; lofts of 3-5 sections with symbolic control points; Gordon networks of 2-5 curves per family with symbolic free points; sweeps along lines with symbolic profiles and along three concrete space curves; exact zero tests on data inside the sparse solver follow the non-zero side only; square roots of constants are 400-bit approximations", weight="high")
CON = "convert"
prop("C29", "Clamping and unclamping keep the curve; shape predicates answer correctly",
  "Clamping a curve, whether fully, partly or not unclamped at either end, gives end knots of multiplicity degree+1 and the same curve over the same domain; unclamping a clamped curve gives the same curve with the knot gaps of the other end repeated beyond each end, and clamping it again returns the original control points; a curve is reported clamped exactly when both end knots have multiplicity degree+1, closed when the points at the two ends of its domain coincide and not when a clamped curve's differ, periodic when uniform, unclamped and wrapped and not when one wrapped control point is displaced, linear when its control points are collinear and not when one is off the line, an arc exactly for circular arcs, with their centre and radius; a surface is closed in a direction exactly when its two opposite edges coincide.",
  ALLREAL + ": control points, weights, knots, gaps, displacements", "The tests clamp and unclamp one symmetric curve and look at its midpoint; clamping changed the last span of every other curve.",
  [CURVE, SURF], ["NurbsSurface::IsClosed", "NurbsCurve::ToClampCurve", "NurbsCurve::ToUnclampCurve", "NurbsCurve::IsClamp", "NurbsCurve::IsClosed", "NurbsCurve::IsPeriodic", "NurbsCurve::IsLinear", "NurbsCurve::IsArc"], CON,
  lambda t: [J("clamp",p=p,kv=k,ex=e,wm=w) for p in (1,2,3,4) for k in range(8) for e in (0,2,4) for w in (1,2) if not (k==7 and e<2) and (w==2 or e==2)]+[J("unclamp",p=p,kv=k,wm=w) for p in (1,2,3,4) for k in range(9) for w in (1,2)]+[J("is_clamp",p=p,a=a,b=b,tail=t) for p in (1,2) for a in (p,p+1) for b in (p,p+1) for t in range(4)]
    +[J("closed",p=p,kv=k,ax=a,open=o,un=u,wm=w) for p in (1,2,3) for k in (0,2,6) for a in (0,1,2) for o in (0,1,2) for u in (0,1) for w in (0,1) if not (o==2 and (k==0 or u)) and (w or a==0) and not (o==1 and u and a) and not (k==0 and p<3)]+[J("periodic",p=p,m=m,br=b,wm=w) for p in (1,2,3) for m in (2,3,4,6) for b,w in ((-1,0),(-1,1),(0,1),(m,1),(m+p-1,0)) if m>1 and not (p==1 and m==2)]+[J("periodic",p=p,m=m,br=b,wm=w,cg=1) for p,m in ((4,4),(4,5),(4,7),(5,5),(5,7)) for b,w in ((-1,1),)+tuple((x,x%2) for x in (0,1,m,m+1,m+p-2,m+p-1))]
    +[J("linear",n=n,dir=d,off=o,wm=w,same=s) for n in (3,4,5) for d in (0,1,2,3) for o in (-1,1,n-1) for w in (0,1) for s in (0,1) if not (s and (o==1 or n==3 and o==2))]+[J("linear",n=n,dir=d,off=o,wm=1,same=2) for n,o in ((5,2),(5,3),(5,-1)) for d in (0,2)]+[J("linear",n=4,dir=d,off=2,small=1) for d in (0,2,3)]+[J("arc",q=q,ax=a,R=r) for q in (1,2,3,5,8) for a in (0,1,2) for r in (1,5)]+[J("arc",q=q,ax=a,bad=b) for q in (2,5,8) for a in (0,2) for b in (1,2)]+[J("arc",q=q,el=1) for q in (1,3,8)]+[J("arc",q=q,ax=a,bad=b,at=k) for q in (3,5,8) for a in (0,2) for b in (1,2) for k in (1,3) if k<q]+[J("arc_sphere",R=r,flip=f) for r in (1,2) for f in (0,1)]+[J("arc",q=q,elev=e,un=u,dom=d) for q,e,u,d in ((5,1,0,0),(8,2,0,0),(3,0,1,0),(8,0,1,0),(5,0,1,2),(1,0,1,1),(2,1,1,0))]+[J("arc",q=q,dom=d,el=e) for q in (1,3,8) for d in (1,2) for e in (0,1)]+[J("surf_closed",du=d,open=o,un=u,at=a) for d in (0,1) for o in range(4) for u in (0,1) for a in (0,1,2) if o or not a]+[J("surf_closed",du=d,open=o,wide=1,at=a) for d in (0,1) for o in (1,2) for a in (3,4)],
  "clamping: degrees 1-4, 8 knot layouts (uniform, uneven, repeated or clamped on one or both sides, shifted range), up to 5 spans, all control points and weights; unclamping: 9 patterns; closedness with a symbolic gap of at least 0.001; wraps of 2-6 control points with a symbolic knot step; lines in 4 directions, arcs of 1-8 eighth turns translated symbolically")
KNU = "knotutil"
prop("C30", "Knot vector utilities count, merge, rescale, bisect and classify correctly",
  "For every knot vector the multiplicity maps list each distinct (internal) knot once with its multiplicity and continuity is degree minus multiplicity; rescaling is the affine map onto the given interval; the knots to insert to make two or any number of knot vectors compatible raise every knot to its largest multiplicity and insert nothing else; asked for n new knots, the longest span is bisected n times; a knot vector is reported uniform exactly when its distinct knots are evenly spaced with equal end and equal interior multiplicities; it is accepted as valid exactly when nondecreasing, and the counts of knots, control points and degree are checked exactly.",
  ALLREAL + ": breakpoints, intervals; all multiplicities in the bounds", "The tests use one or two knot vectors on [0,1].",
  [ALG + "KnotVectorUtils.cpp", ALG + "Polynomials.cpp", ALG + "ValidationUtils.cpp"], ["KnotVectorUtils::GetKnotMultiplicityMap", "KnotVectorUtils::GetInternalKnotMultiplicityMap", "KnotVectorUtils::GetContinuity", "KnotVectorUtils::Rescale", "KnotVectorUtils::GetInsertedKnotElement", "KnotVectorUtils::GetInsertedKnotElements", "KnotVectorUtils::IsUniform", "Polynomials::GetKnotMultiplicity", "ValidationUtils"], KNU,
  lambda t: [J("maps",m=m) for m in (1,2,3)]+[J("rescale",m=m) for m in (2,3,5)]+[J("merge2",m=m,ends=e) for m,e in ((2,0),(3,0),(4,2),(5,3))]+[J("merge2",m=2,hi=4),J("merge2",m=3,ends=2,hi=4),J("mergeN",m=3,N=2,hi=4),J("mergeN",m=3,N=3,hi=4),J("mergeN",m=2,N=2,hi=3),J("mergeN",m=1,N=3,hi=3)]+[J("mergeN",m=m,N=n) for m,n in ((3,1),(3,2),(3,4),(4,2),(4,3))]+[J("bisect",m=m,n=n) for m,n in ((2,1),(2,3),(3,0),(3,2),(3,3),(4,2),(4,3))]+[J("uniform",m=m,e=e,bad=b,**{"in":i}) for m in (4,5,6) for e in (1,3) for b in (0,1,2,3,4) for i in (1,2) if not (b in (3,4) and i==e+1)]+[J("uniform",m=2,e=e) for e in (1,3)]+[J("uniform1")]+[J("valid",n=n) for n in (2,3,4)]+[J("validity",p=p) for p in (1,2,3,4)]+[J("clamp_range",p=p,a=a,b=b,k=k) for p in (1,2,3) for a,b in ((0,3),(0,2),(1,3),(1,2)) for k in (1,2) if k<=p+1],
  "2-5 symbolic breakpoints with gaps in [1/4,2]; all multiplicity combinations up to 3; up to 4 vectors merged; up to 3 bisections (spans that tie within the library tolerance excluded)")
LEN = "length"
prop("C31", "Quadrature, arc lengths and parameters at a given length are right",
  "Simpson's rule is exact for cubics in one and two variables, the Gauss-Legendre table integrates every polynomial of degree up to 47 and Clenshaw-Curtis quadrature polynomials, also when its series is reused; with each of the three integrators the length of a straight curve is the distance travelled (also when it folds back), of a circular arc radius times angle, of a Pythagorean-hodograph cubic, whole or in part, the integral of its speed, whatever the domain and knots; the parameter for a given length cuts off that length, more than the whole gives the end, and the division parameters cut off its successive multiples short of the whole.",
  ALLREAL + ": polynomial coefficients, intervals, curve shapes, translations", "The tests measure one line, one circle and one cubic.",
  [CURVE, ALG + "Integrator.cpp", ALG + "FFT.cpp"], ["Integrator::Simpson", "Integrator::GaussLegendreAbscissae", "Integrator::GaussLegendreWeights", "Integrator::ChebyshevSeries", "Integrator::ClenshawCurtisQuadrature", "NurbsCurve::ApproximateLength", "NurbsCurve::GetParamOnCurve", "NurbsCurve::GetParamsOnCurve"], LEN,
  lambda t: [J("simpson",box=b) for b in (2,40)]+[J("simpson2",box=b) for b in (2,8)]+[J("chebyshev",d=d,conc=2,two=w,rep=r) for d in (8,12,16,24,30) for w in (0,1) for r in (0,1)]+[J("gauss",d=d) for d in (3,20,40,47)]+[J("chebyshev",d=d,two=w,rep=r) for d in (1,2,3,4) for w in (0,1) for r in (0,1)]+[J("chebyshev",d=d,conc=1,two=w,rep=1) for d in (5,6,8) for w in (0,1)]+[J("line_len",ty=y,n=n,dir=d) for y in (0,1,2) for n in (2,3,5) for d in range(5)]+[J("line_len",ty=y,n=n,dir=d,p1=1) for y,n,d in ((0,3,1),(1,8,2),(2,10,4),(0,7,3))]+[J("fold_len",ty=y,p=p) for y in (0,1,2) for p in (1,2)]
    +[J("ph_len",ty=y,conc=c,kn=k,pl=l,part=a,ins=i) for y in (0,1) for c in (1,2,3,4) for k,l,a,i in ((0,0,0,0),(1,1,1,0),(0,2,0,1),(1,0,1,2))]+[J("ph_len",ty=2,conc=c,kn=k,pl=l,ins=i,part=a) for c in (1,4) for k,l,a,i in ((0,0,0,0),(1,1,1,0),(0,2,0,1),(1,0,1,2))]+[J("arc_len",q=q,ty=y,R=r) for q in (1,4,7,12) for y in (0,1,2) for r in (1,5)]
    +[J("param_len",ty=y,k=k,f=f,kn=n) for y in (0,1,2) for k,n in ((0,0),(1,0),(2,0),(2,1)) for f in (17,30,40,70,130)]+[J("param_zero",ty=y,k=k) for y in (0,1) for k in (0,1)],
  "coefficients in [-8,8], intervals in [-2,2]; PH cubics with two symbolic hodograph coefficients, or a symbolic scale, on two domains, three planes and with up to two inserted knots; straight curves of 2-5 control points in 5 directions; concrete arcs and curves translated symbolically; lengths to the library's 1e-4 distance tolerance; Clenshaw-Curtis with symbolic coefficients up to degree 4, concrete up to 8")

INV = "inverse"
prop("C33", "Point inversion gives a parameter of the domain whose point is the nearest one",
  "For every point of a curve, surface or volume point inversion returns a parameter inside the domain at which the object passes through the point (to the library's distance tolerance); for a point off a curve or surface no point of it is nearer than the one at the parameter returned, in particular beyond an end or border the parameter is that of the end or border; asking for all parameters returns parameters of the domain without repetition that include the one the point was taken from, and both parameters of a crossing; the signed distance to a surface is the distance to that nearest point, positive on the side of the normal.",
  ALLREAL + ": points of windows of curves and along lines, competing curve and surface parameters, translations", "The tests invert one or two points per function.",
  [CURVE, SURF, VOL], ["NurbsCurve::GetParamOnCurve", "NurbsCurve::GetAllParamsOnCurve", "NurbsSurface::GetParamOnSurface", "NurbsSurface::GetAllParamsOnSurface", "NurbsSurface::GetParamOnSurfaceByGSA", "NurbsSurface::ComputeSignedDistanceFunction", "NurbsVolume::GetParamOnVolume"], INV,
  lambda t: [J("near_curve",k=k,q=q) for k in range(12) for q in ((0,2,5,7,3) if t=="quick" else range(10))]+[J("near_curve",k=k,q=q,tr=1) for k in (1,4,10) for q in (1,6)]+[J("on_curve",k=k,f=f) for k in range(12) for f in (0,37,83,100)]+[J("on_curve",k=k,f=f,win=5) for k in (0,1,2,3,5) for f in (11,62)]+[J("past_end",k=k,e=e,eps=p) for k in (0,1,2,3,4,5,6,8,9,10) for e in (0,1) for p in (5,90)]+[J("line_sym",f=f) for f in (-2,3,8,11)]+[J("all_curve",k=k,f=f) for k in range(12) for f in (0,30,77,100)]+[J("all_cross",tr=r) for r in (0,1)]
    +[J("on_surf",k=k,f=f,g=g,all=a) for k in range(6) for f,g,a in ((0,100,0),(100,0,0),(33,41,1),(71,12,1))]+[J("on_surf",k=k,gsa=1) for k in (2,3)]+[J("near_surf",k=k,q=q) for k in range(6) for q in ((0,8) if t=="quick" else (0,1,2,4,6,7,8)) if not (k==3 or (k==5 and q==0)) or t!="quick"]+[J("on_surf",k=k,f=f,g=g,all=a,sw=1) for k in (0,2,4,5) for f,g,a in ((0,100,0),(33,41,1),(1,60,0),(99,30,1),(100,50,0))]+[J("on_surf",k=4,f=f,g=g,all=a) for f,g,a in ((60,1,0),(30,99,1))]+[J("near_surf",k=4,q=q,sw=1) for q in (0,3,8)]+[J("on_ring",cl=c,f=f,g=g,z=z) for c in (0,1,2) for f,g,z in ((0,50,50),(2,30,45),(998,60,20),(410,0,100),(730,100,0))]+[J("sdf_sym",side=s) for s in (1,-1)]+[J("on_vol",k=k,f=f,g=g,z=z) for k,f,g,z in ((1,30,60,45),(2,0,0,100))],
  "twelve curve shapes (degree 1-3, rational, closed, self-crossing, unclamped), six surface shapes (plane, saddle, half and full cylinder, dome, unclamped), two volumes; concrete shapes and targets, symbolic translation in part; the competing parameter ranges over the whole domain; symbolic targets in windows of 0.05% of the domain and along a line; nearest up to 1e-3 in squared distance")
TES = "tess"
prop("C34", "Tessellations and meshes lie on the shape and cover it, boxes contain it",
  "Curve tessellation starts and ends with the curve, has every knot and only points of the curve in order as vertices, and the curve stays within 1e-5 of the polyline; equal tessellation pairs ascending parameters that hit every knot, respectively parameter pairs of the domain, with the points of the curve or surface there. The grid and the Delaunay triangulation have vertices on the surface and proper, consistently oriented triangles that cover the whole parameter rectangle exactly once and meet edge to edge. The bounding box of a surface made of bilinear pieces and the oriented bounding box of any surface contain the surface and are no larger than the control points need; the oriented axes are orthonormal and the oriented box of a rectangle is the rectangle; boxes intersect exactly when they share a point.",
  ALLREAL + ": curve parameters between vertices, control points, surface parameters, box corners", "The tests count triangles and vertices of a few samples.",
  [CURVE, SURF, ALG + "Voronoi.cpp", INC + "LNObject.h", MU], ["NurbsCurve::Tessellate", "NurbsCurve::EquallyTessellate", "NurbsSurface::EquallyTessellate", "NurbsSurface::Triangulate", "VoronoiDiagramGenerator", "NurbsSurface::GetBoundingBox", "NurbsSurface::GetOrientedBoundingBox", "MathUtils::ComputeOBBAxes", "LN_BoundingBox3d::Intersects"], TES,
  lambda t: [J("tessellate",k=k) for k in range(9)]+[J("tessellate",k=1,tr=1,w=1),J("tessellate",k=2,tr=1)]+[J("equally",p=p,kv=k,wm=w) for p,k,w in ((1,2,2),(2,1,2),(3,5,2),(2,9,2),(3,4,1),(2,6,0))]+[J("equally_surf"),J("equally_surf",p=2,kw=1),J("equally_surf",p=2,ku=9,wm=3),J("equally_surf",p=2,q=2,kw=4,wm=3)]+[J("grid_mesh",p=p,q=q,ku=u,kw=v,a=a,b=b,wm=w) for p,q,u,v,a,b,w in ((1,1,0,0,3,2,0),(1,1,4,0,2,4,0),(2,2,1,8,4,5,2),(2,1,9,0,3,3,0),(1,1,0,0,2,2,1),(2,3,0,2,5,3,2))]
    +[J("delaunay_mesh",k=k,a=a,b=b) for k in (0,1,2) for a,b in ((2,2),(3,4),(5,3),(6,6))]+[J("aabb",z=z,nu=u,nv=v,off=o,sc=s) for z in (0,1,2) for u,v,o,s in ((2,2,0,0),(3,4,0,0),(2,4,20,0),(3,2,-20,1),(3,3,7,1))]+[J("aabb",deg=2,nu=3),J("aabb_dome")]+[J("obb",k=k,tr=r) for k in range(4) for r in (0,1)]+[J("box_hit")]+[J("aabb",deg=2,nu=3,sw=1),J("aabb",nu=3,nv=4,sw=1)]+[J("obb_rect",k=k,tr=r) for k in range(3) for r in (0,1)],
  "nine graph curves (degree 1-4, point-symmetric, unclamped, multiple knots) whose vertices reveal their parameters, deviation checked between all pairs of vertices for every parameter; equal tessellation and grid meshes with symbolic control points and weights, at most 5x5 vertices; Delaunay meshes of three concrete graph surfaces up to 6x6 samples; boxes of concrete lattices, scaled and translated symbolically")

EXT = "extend"
prop("C32", "Extended curves keep the original and continue it by the requested length",
  "Extending a curve at its start or end leaves the original part unchanged as a curve and adds, joined to that end, for the tangent kind a straight piece of exactly the requested length along the outward tangent; for the arc kind an arc of the osculating circle of exactly that length turning the way the curve turns; for the natural kind (equal weights) the continuation of the end piece's own polynomial over a domain grown only at that end, with the requested length to within 1%; whatever the degree, knots and weights. A length that is not positive extends nothing. A zero offset returns the curve itself, and the Piegl-Tiller offset of a circular arc, inward or outward, is the concentric arc to 0.1%, with its ends exactly at the offset ends.",
  ALLREAL + ": control points away from the extended end, length (tangent), translation, curve parameter", "The tests extend one line-like curve by one length and look at its total length.",
  [CURVE], ["NurbsCurve::Extend", "NurbsCurve::Merge", "NurbsCurve::Offset"], EXT,
  lambda t: [J("ext_tangent",p=p,kv=k,st=s,w=w) for p,k in ((1,0),(1,1),(2,1),(2,6),(3,0),(3,2),(2,4),(4,1)) for s in (0,1) for w in (0,1,3)]+[J("ext_none",ty=y,st=s) for y in (0,1,2) for s in (0,1)]+[J("ext_natural",p=p,kv=k,st=s,w=w,dl=d) for p,k in ((1,1),(2,0),(2,1),(3,2),(2,6),(2,4),(3,1),(4,0)) for s in (0,1) for w,d in ((0,100),(2,300),(0,20))]
    +[J("ext_arc",p=p,kv=k,st=s,w=w,th=h) for p,k in ((2,0),(2,1),(3,2),(2,4),(3,0),(4,1)) for s in (0,1) for w,h in ((0,100),(1,40),(3,250),(0,500))]+[J("off_arc",q=q,R=r,off=o) for q in (1,3) for r in (1,3) for o in (50,-50)]+[J("off_zero",p=p,ty=y) for p in (1,2,3) for y in (0,1)],
  "degrees 1-4, 6 knot patterns (also with repeated knots and on [-2,3]), unit, equal and uneven weights; tangent: all control points but the end leg and the length in [0.01,20]; natural and arc: one concrete space curve per degree and pattern, translated symbolically, three lengths (arcs of 0.4 to 5 rad); offset: arcs of 1/2 and 3/2 rad; offsets of other curves are approximations without a stated bound and the offset of a straight line has no normal: outside")
FIT = "fit"
prop("C35", "Local conic and cubic fits are exact on conics and cubics and keep tolerance",
  "Fitting a run of points, wherever it lies in a longer point list, by one conic or one cubic segment with given end tangents: points taken from one conic (any positive weight) give back that conic's middle control point and weight; points of one twisted cubic, or the middle point of a symmetric planar one, give back its two middle control points whatever the tangent lengths; collinear points with tangents along them give the straight segment; two points with meeting tangents give the conic control point at the meeting point, with any tangents the cubic control points on the tangent lines; and whenever a fit is reported, the end tangents are kept and every point of the run is within the tolerance of the segment; a conic fit is refused where the tangents do not meet, meet behind an end, or a point lies outside their plane or triangle fan; the middle points between two points with given tangents are the meeting point of the tangents, or two conics that keep both tangents and join smoothly.",
  ALLREAL + ": tangent lengths, tolerance, translation", "The tests fit two adjacent points only; runs with points in between were never fitted.",
  [CURVE, S + "Mathematics/Utils/MathUtils.cpp"], ["NurbsCurve::FitWithConic", "NurbsCurve::FitWithCubic", "BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve", "MathUtils::ComputerCubicEquationsWithOneVariable"], FIT,
  lambda t: [J("conic_exact",k=k,m=m,pre=a,post=b,tr=r) for k in range(5) for m,a,b,r in ((1,0,0,0),(3,0,1,1),(5,2,0,0),(2,1,1,1))]+[J("conic_bad",k=k,m=m,at=a,off=o,tol=0,pre=p) for k in range(5) for m,a,o,p in ((3,2,20,0),(2,1,5,1),(1,1,30,0),(4,4,3,2),(4,2,-4,0),(6,5,20,0),(6,4,15,1))]+[J("conic_bad",k=0,off=60,must=2),J("conic_bad",k=2,m=1,at=1,off=10,must=1),J("conic_bad",k=1,m=4,at=2,off=1,tol=20,must=1)]+[J("conic_pair",k=k,pre=a,post=b,tr=r) for k in range(5) for a,b,r in ((0,0,0),(1,2,1))]
    +[J("conic_line",dir=d,pre=p,tr=r,off=o) for d in (0,1,2) for p,r,o in ((0,0,0),(2,1,0),(1,0,50),(0,1,50))]+[J("conic_line",dir=d,m=m,at=a,pre=p,off=o) for d,m,a,p,o in ((0,6,1,0,50),(1,6,2,0,50),(2,6,3,0,50),(0,6,4,0,50),(1,6,5,1,50),(2,6,6,0,50),(0,6,1,1,0))]+[J("cubic_exact",k=k,m=m,pre=a,post=b,tr=r) for k in (0,1,2) for m,a,b,r in ((1,0,0,1),(2,1,0,0),(4,2,1,0),(3,0,1,0))]+[J("cubic_exact",k=3,m=1,pre=a,post=b,tr=r) for a,b,r in ((0,0,0),(2,1,0),(1,0,1))]+[J("cubic_lengths",k=k,m=m,pre=p) for k,m,p in ((0,1,0),(1,2,1),(2,1,2),(2,2,0))]
    +[J("cubic_bad",k=k,m=m,at=a,off=o,tol=0,pre=p) for k in range(5) for m,a,o,p in ((2,1,5,0),(3,3,10,1),(3,2,20,0),(1,1,15,2),(2,2,-5,0),(6,4,20,0),(6,5,15,0))]+[J("cubic_bad",off=1,must=1),J("cubic_bad",k=4,off=0,tol=30,must=1),J("cubic_bad",k=1,off=200,must=2)]+[J("cubic_pair",k=k,pre=a,post=b,tr=r) for k in range(5) for a,b,r in ((1,0,0),(2,1,0),(0,2,0),(0,1,1))]+[J("cubic_line",dir=d,pre=p,tr=r) for d in (0,1,2) for p,r in ((0,0),(2,1),(1,0))]+[J("cubic_line",dir=d,pre=p,m=6) for d,p in ((0,0),(1,1))]+[J("conic_refuse",how=h,k=k,m=m,at=a,pre=p) for h in range(11) for k,m,a,p in ((0,2,1,0),(1,3,3,1),(3,1,1,2))]+[J("middle_points",k=k,tr=r,len=l) for k in range(10) for r,l in ((1,0),(0,0))+(((1,1),) if k in (0,1,2,8,9) else ())],
  "five conics and five cubics (two planar), 1-5 points between the ends, up to two points before and after the run; concrete points translated symbolically, symbolic tangent lengths of twisted cubics in [1/2,3], symbolic tolerance in [0.002,2] with one displaced point; distances measured on 256 samples of the segment")
OCT = "octree"
prop("C36", "The octree finds exactly the points in a ball and the k nearest points",
  "For every point cloud the octree puts each point into exactly one leaf, every octant's points lie in its box, children are the eight half-size octants and share out their parent's points, and leaves hold no more than the leaf size unless they have reached the minimum extent; for every query the radius search and its fast variant find each point of the ball exactly once and no other, the k-nearest search fills up to k (or all points) and its worst distance is the distance of the k-th nearest point; the ball-in-octant, ball-meets-octant and octant-in-ball tests answer correctly; an empty cloud has no tree and no neighbours.",
  ALLREAL + ": query positions along lines through the cloud, cloud translation and scale, coordinates, ball radius and octant size", "The octree has no tests at all.",
  [ALG + "Octree/Octree.cpp", ALG + "Octree/OctreeCollector.cpp"], ["OctreeConstruction", "OctreeRadiusSearch", "OctreeRadiusSearchFast", "OctreeKnnSearch", "Inside", "Overlaps", "Contains", "KnnResultSet", "RadiusNnResultSet"], OCT,
  lambda t: [J("tree_radius",k=k,ln=l,r=r,leaf=f) for k,r,f in ((0,200,1),(2,300,1),(0,350,2)) for l in range(5)]+[J("tree_radius",k=k,ln=l,r=r,leaf=f,a=a,wd=12) for k,r,f in ((1,300,1),(3,250,2)) for l in range(5) for a in (-12,0,12,24)]+[J("tree_radius",k=5,ln=6,r=r,leaf=f) for r,f in ((100,1),(400,2))]+[J("tree_knn",k=5,ln=6,n=n,leaf=f) for n,f in ((1,1),(2,1),(3,2),(5,3),(8,1),(9,1))]
    +[J("tree_knn",k=k,ln=l,n=n,leaf=f,a=a,wd=1) for k,n,f in ((0,1,1),(0,2,1),(1,3,1),(3,2,2)) for l in range(5) for a in ((-5,4,13) if t=="quick" else range(-12,36,3))]+[J("tree_knn",k=4,n=n) for n in (1,2)]+[J("tree_knn",k=2,n=n,a=6,wd=1) for n in (2,3,4)]+[J("tree_build",k=k,leaf=f,sc=s,me=m) for k in range(6) for f,s,m in ((1,0,10),(2,1,10),(3,0,200))]+[J("tree_build",k=k,leaf=f,ax=a) for k in (0,1,3,5) for f in (1,2) for a in (1,2)]+[J("tree_build",k=k,leaf=f,sc=2) for k,f in ((0,6),(1,9),(3,12),(2,1))]+[J("tree_radius",k=k,ax=a,ln=l,r=r,leaf=f,a=b,wd=12) for k,a,l,r,f in ((0,1,2,200,1),(5,1,1,300,1),(1,2,2,300,1),(3,1,2,250,2),(3,2,3,250,2)) for b in (0,12)]+[J("tree_build",k=-1,n=n,leaf=f) for n,f in ((2,1),(3,1),(3,2))]+[J("tree_empty")]+[J("tree_pred",w=w) for w in (0,1,2)],
  "six clouds of 1-12 points (repeated points, collinear points), leaf sizes 1-3; queries along five lines through the clouds, for k-nearest in windows of 1/4 or on the line of a collinear cloud; distances within 1e-3 of the radius and ties within the library tolerance excluded; result sets expose only size and worst distance")

prop("C37", "The C API gives exactly what the library gives",
  "Every exported C function returns what the corresponding library routine returns on the same data: arguments are passed with the right order and lengths (nothing past the given counts is read into the result), results come back complete and in order with the right counts, nothing is written past them or past the room the caller gave, success flags follow the library, a refused operation leaves the outputs alone, and several results of one call are independent of each other.",
  ALLREAL + ": coordinates, weights, matrix entries, angles, knots and parameters handed to the exported functions", "The C API is not built or tested by the suite at all.",
  ["dotnet/CAPI/src", "dotnet/CAPI/include"], ["222 of the 223 exported LNLIB_* functions"], "capi",
  lambda t: [J(h,f=f) for h,n in (("capi_uv",6),("capi_xyz",8),("capi_xyzw",3),("capi_mat",6),("capi_geo",5),("capi_knot",5),("capi_poly",8),("capi_interp",7),("capi_curve",38),("capi_surf",31)) for f in range(n)]+[J("capi_curve",f=27,m=6)]+[J("capi_big",f=f) for f in range(5)],
  "one shape of data per function, a second, larger one for the main curve and surface routines (degree 1-3, 3-6 control points, nets 3x3 to 3x4, matrices 4x4) with symbolic values where the routine does not iterate and concrete values where it does (removal, reduction, approximation); LNLIB_NURBSSUR_get_param_on_surface_by_gsa is not called; error reporting across the C boundary (exceptions) is out of scope")

prop("C38", "Invalid arguments are refused and valid ones accepted",
  "The Check of a Bezier, B-spline or NURBS curve or surface accepts exactly the objects with positive degrees, non-decreasing knots and matching counts (knots = control points + degree + 1, Bezier points = degree + 1); every evaluation of curves, surfaces, volumes and basis functions accepts every parameter of the knot range (resp. [0,1]), both ends included, and throws for every parameter outside; basis functions throw on decreasing knots, negative or too large degrees, indices or derivative orders; operations throw on zero direction vectors, non-positive counts, radii, factors or error bounds, empty or mismatching data, indices out of range and parameter intervals outside the curve or in the wrong order; the volume check rejects flat and inverted boxes.",
  "every parameter inside and outside the range (real-valued), every knot value, every count combination up to the bounds, every vector, index and factor of the invalid class", "The tests never pass an invalid argument.",
  [CURVE, SURF, "src/LNLib/Algorithm/ValidationUtils.cpp", "src/LNLib/Algorithm/Polynomials.cpp", "src/LNLib/include/BezierCurve.h", "src/LNLib/include/BsplineCurve.h", "src/LNLib/include/BsplineSurface.h"], ["NurbsCurve::Check", "NurbsSurface::Check", "NurbsVolume::Check", "BsplineCurve::Check", "BsplineSurface::Check", "BezierCurve::Check", "BezierSurface::Check", "ValidationUtils", "VALIDATE_ARGUMENT*"], "args",
  lambda t: [J("arg_curve_param",f=f,sh=s) for f in range(25) for s in (0,1)]+[J("arg_surface_param",f=f) for f in range(14)]+[J("arg_knots",f=f,at=a) for f in range(16) for a in range(4)]+[J("arg_counts",f=f) for f in range(9)]+[J("arg_curve_op",f=f) for f in range(106)]+[J("arg_surface_op",f=f) for f in range(23)]+[J("vol_check",neg=n) for n in (0,1)]+[J("vol_check_part",d=d,f=f) for d,f in ((0,400),(1,50),(1,2),(2,50),(2,2))],
  "one curve of degree 3 over [0,1] and over [-1,2], one surface and one volume of mixed degrees; parameters outside by at least 2^-16 and at most 4; one symbolic knot at four positions; degrees -1..4, 0-6 points, 0-10 knots; zero vectors exactly zero; the kind of exception is not compared; C API error reporting is out of scope")

prop("C39", "The Fourier, cosine and sine transforms compute their defining sums",
  "For every data vector whose length is a power of two the complex, real, cosine, sine, symmetric and antisymmetric transforms return the sums they document, in the documented order and packing, in both directions, transforming and inverting as documented returns the data, and nothing outside the given length is touched.",
  "every data vector (all entries real-valued), lengths up to the bound", "The tests do not call the transforms at all; only one cosine transform is used, for the Clenshaw-Curtis weights.",
  ["src/LNLib/include/FFT.h"], ["cdft", "rdft", "ddct", "ddst", "dfct", "dfst", "bitrv", "bitrv2"], "fft",
  lambda t: [J("fft",kind=k,n=n,back=b) for k in range(6) for n in ((1,) if k==0 else ())+(2,4,8,16,32)+((64,) if t=="thorough" else ()) for b in ((0,1) if k<4 else (0,))]+[J("fft",kind=k,n=n,inv=1) for k in range(6) for n in ((1,) if k==0 else ())+(2,4,8,16,32)+((64,) if t=="thorough" else ())]+[J("fft",kind=0,n=n,back=b,pad=3) for n in (2,4,8) for b in (0,1)]+[J("fft",kind=1,n=n,back=1,inv=1) for n in (2,4,8,16,32)],
  "lengths 1-32 (thorough: 64) with all entries in [-1,1]; the cosines and sines handed in are the nearest doubles, so sums agree within 1e-9; the float instantiation is not run")

prop("C40", "Delaunay triangulation and Voronoi diagram",
  "For every set of sites in general position the triangles returned are the Delaunay triangulation of the sites (no site lies inside the circumcircle of a triangle, the triangles are as many as Euler's formula says and fill the convex hull), the Delaunay edges are exactly the edges of those triangles, and the Voronoi edges are exactly the segments of points with two equally near nearest sites, cut at the given borders whichever order these are given in; a generator that was used before answers as a new one.",
  "every translation of a pattern of sites; every position of one site in a square, or along a segment", "The tests triangulate one point set and look at the picture size only.",
  ["src/LNLib/Algorithm/Voronoi.cpp", "src/LNLib/include/Voronoi.h"], ["VoronoiDiagramGenerator::generateVoronoi", "getTriangles", "getNextDelaunay", "getNext", "clip_line"], "voronoi",
  lambda t: [J("delaunay",k=k,fl=fl,rot=(k+fl)%3) for k in range(30 if t=="thorough" else 23) for fl in (range(8) if t=="thorough" else ((0,3,5) if k<10 else (k%8,)))]
   +[J("delaunay",k=k,again=a,rs=r) for (k,a,r) in ((5,7,0),(3,12,0),(2,9,1),(7,20,0),(13,4,1))]
   +[J("delaunay",k=k,mv=1,t=ti,fl=(k+ti)%8) for k in range(7) for ti in range(4)]
   +[J("delaunay",k=k,mv=2,j=j,fl=(k+j)%8) for k in (0,1,2,3,4,6)+((13,14,15,16,17,19) if t=="thorough" else (13,14)) for j in ((3,4,0) if t=="thorough" else (3,))]
   +[J("voronoi",k=k,clip=c,sw=(k+c)%4,fl=(2*k+c)%8) for k in range(30 if t=="thorough" else 20) for c in range(5)]
   +[J("voronoi",k=k,again=a,rs=r,clip=1) for (k,a,r) in ((5,7,0),(3,12,0),(2,9,1))]
   +[J("voronoi",k=k,clip=c,mv=1,t=ti,fl=(k+ti)%8 if c==0 else 4*((k+c)%2)) for k in range(7 if t=="thorough" else 6) for c,ti in ((0,1),(1,2))],
  "3-16 sites: fixed and pseudo-random patterns under every translation within [-50,50]^2, one site moving along a segment or anywhere in a square of side 1/32; minimum site distance 1e-4 (inactive); the source is compiled with float read as real numbers, so rounding of single precision, duplicate sites and exactly cocircular quadruples are outside; the vertex and vertex-pair iterators are not covered")

prop("C41", "Results depend on the arguments alone",
  "What an operation returns through its output objects depends only on its arguments: whatever curve, surface, volume, list or matrix the caller's output variable held before the call, whether larger or smaller than the result, nothing of it remains or is added to; what a query returns does not depend on the queries made before it, on other objects or on the same object with other contents; and the object an operation reads is left as it was. (The middle control points of FitWithConic, FitWithCubic and the quadratic Bezier helper are appended to the caller's list and are outside this statement.)",
  "all control points; query parameters", "The tests call each operation once with a fresh output variable.",
  ["src/LNLib/Geometry/Curve/NurbsCurve.cpp", "src/LNLib/Geometry/Surface/NurbsSurface.cpp", "src/LNLib/Geometry/Volume/NurbsVolume.cpp", "src/LNLib/Algorithm/Interpolation.cpp", "src/LNLib/Algorithm/KnotVectorUtils.cpp", "src/LNLib/include/MathUtils.h"], ["every NurbsCurve, NurbsSurface and NurbsVolume operation with an output object", "GetSurfaceMeshParameterization", "GetInsertedKnotElement", "Transpose", "EquallyTessellate", "GetPointOnCurve", "ComputeRationalCurveDerivatives", "BasisFunctions", "Binomial"], "reuse",
  lambda t: [J("reuse_curve",f=f) for f in range(26)]+[J("reuse_curve",f=f,p=3) for f in (0,1,3,6,7,8,20)]+[J("reuse_surf",f=f) for f in range(17)]+[J("reuse_volume",f=f,dir=d) for f in range(4) for d in range(3)]
   +[J("history_curve",f=f,st=s,d=d) for f in range(5) for s in (0,1) for d in (0,1)]+[J("history_curve",f=f,sym=0,d=d) for f in (5,6,7,9) for d in (0,1)]+[J("history_curve",f=8,sym=0,d=1)]
   +[J("history_surf",f=f,st=s) for f in (0,1) for s in (0,1)]+[J("history_surf",f=f,sym=0) for f in (2,4)]+[J("history_surf",f=3,m=m,bz=1) for m in range(3)],
  "curves of degree 2 and 3 with 5-6 control points, surfaces of degrees (1,2) and 3 x 4 points, a volume of degrees (1,2,1); all control points symbolic in the knot and degree operations, a symbolic translation or fixed data in the fitting, removal and offset operations; outputs holding one larger, one smaller and one equal earlier result; query sequences over three objects")

prop("C42", "Operations may be applied in place",
  "An operation that reads a curve, surface or volume and writes one of the same kind gives the same result when the caller passes the object itself as the output as when the output is a separate object: knot insertion, refinement and removal, degree elevation and reduction, reversal, reparametrization, swapping, transformation, splitting, merging, offsetting, extending, clamping and the shape modification operations all work in place.",
  "all control points", "No test passes an object as both input and output.",
  ["src/LNLib/Geometry/Curve/NurbsCurve.cpp", "src/LNLib/Geometry/Surface/NurbsSurface.cpp", "src/LNLib/Geometry/Volume/NurbsVolume.cpp"], ["NurbsCurve operations from a curve to a curve", "NurbsSurface operations from a surface to a surface", "NurbsVolume operations from a volume to a volume"], "reuse",
  lambda t: [J("reuse_curve",f=f,inplace=1) for f in (0,1,2,3,4,5,6,7,8,9,16,17,18,19,20,21)]+[J("reuse_curve",f=f,p=3,inplace=1) for f in (0,1,3,6,7,8,20)]+[J("reuse_surf",f=f,inplace=1) for f in range(5)]+[J("reuse_volume",f=f,dir=d,inplace=1) for f in range(4) for d in range(3)],
  "curves of degree 2 and 3 with 5-6 control points, surfaces of degrees (1,2) and 3 x 4 points, a volume of degrees (1,2,1); all control points symbolic, except fixed data in the removal, degree reduction, offset and extension operations")

# What each check compares against (for DESIGN.md)
ORACLE = {
"C42":"the result of the same operation with a separate output object",
"C41":"the result of the same operation with a new output object, and of the same query after other ones",
"C40":"the empty-circle determinant, Euler's formula and the hull area; the diagram by clipping every bisector against all other half planes and the borders",
"C39":"the defining sums written in the harness, and the documented inverses",
"C38":"the documented precondition evaluated by the harness; the routine must throw exactly when it is broken (evaluation, checks) or whenever it is broken (operations)",
"C01":"Cox-de Boor recursion and its derivative recursion written in the harness; span by definition",
"C02":"Bernstein/power sums by definition; conversion matrices by applying them to a symbolic polynomial",
"C03":"sum of basis times homogeneous control points (Cox-de Boor), compared without division; hull by coordinate-wise inequalities",
"C04":"Leibniz identities between homogeneous and Cartesian derivatives; curvature/torsion/normals by cross products, squared to avoid roots",
"C05":"the original curve evaluated by definition on every elementary interval of the refined knots, parameter symbolic; new knot vector by definition",
"C06":"insert symbolically, remove, compare with the original curve and knots; non-removable knots must keep the curve",
"C07":"original curve by definition against the raised/lowered one, span by span, parameter symbolic; multiplicities raised by the step",
"C08":"each Bezier piece against the curve on its span, parameter symbolic",
"C09":"original curve(s) against the parts / the merged curve on every span under the affine parameter map",
"C10":"affine and Moebius parameter maps, mirrored parameter, matrix times point, all by definition",
"C11":"tensor-product sum by definition; Leibniz identities in two variables; isocurves against the surface",
"C12":"first and second fundamental forms from the surface derivatives, written in the harness",
"C13":"original surface by definition on every cell of the refined knots, both parameters symbolic",
"C14":"original surface against raised/lowered surface and Bezier patches, cell by cell",
"C15":"parameter maps of the operation applied to the definition",
"C16":"triple tensor-product sum by definition, Leibniz identities, slices against the volume",
"C17":"original volume against the result of each operation, cell by cell, parameters symbolic",
"C18":"component formulas, identities (distributivity, Lagrange, scalar triple product), quotient rule for projection",
"C19":"Rodrigues, reflection, scaling and composition formulas applied to symbolic points",
"C20":"A x = b, A A^-1 = I, Laplace expansion, checked as equations on the returned values",
"C21":"trichotomy, symmetry, monotonicity of the tolerant comparisons over all reals; Pascal recursion",
"C22":"incidence, orthogonality and parameter equations of the returned intersection / projection",
"C23":"implicit equation (circle, ellipse, conic through the point), tangency and end conditions, every parameter",
"C24":"the returned curve evaluated by definition at the given/chord parameters against the data; knots by averaging formula",
"C25":"normal equations: residual orthogonal to every free basis function; constraints met",
"C26":"the definition of each modification as a displacement equation; untouched data compared one by one",
"C27":"implicit/parametric formula of the shape (plane blend, rotation, ruled, swept sum, Coons edges, sphere), both parameters symbolic",
"C28":"data points/curves against the returned surface at the mesh parameters; tensor product of independent curve fits",
"C29":"the original curve over its domain; predicates against their definition on families with a symbolic displacement",
"C30":"multiset arithmetic on symbolic breakpoints; bisecting the longest span; affine map",
"C31":"exact integrals of polynomials; chord lengths, R*angle, integral of a Pythagorean-hodograph speed",
"C32":"the original curve under the affine map; tangent ray, osculating circle, extrapolated polynomial; length by 8-point Gauss",
"C33":"for every competing parameter (symbolic over each span) the squared distance is not smaller; Bezier-coefficient positivity on subdivisions",
"C34":"vertices on the shape, exact tiling of the parameter rectangle (areas, edges), containment for every parameter, box overlap by intervals",
"C35":"the conic/cubic the points were taken from; tangent rays; distances to 256 samples of the segment",
"C37":"the library routine called directly on the same data (or the definition, for the plain value types), guard values around every output buffer",
"C36":"brute-force count and order statistics of squared distances; the octant predicates by their geometric definition",
}
na("N01", "Results stay accurate under floating-point rounding",
  "For well-conditioned input the computed points, knots and weights differ from the exact result by a small multiple of the machine precision, and no intermediate overflow or cancellation changes a branch.",
  "every double-precision input", "Tests compare with tolerances on a few inputs.", [CURVE, SURF], ["BasisFunctions", "ElevateDegree", "SolveLinearSystem"],
  "A bit-precise floating-point encoding of even one cubic evaluation (dozens of 53-bit multiplications and divisions) is out of reach of the SMT floating-point solvers here; the encoding used treats doubles as exact reals, so rounding is outside every claim.")
na("N02", "The .NET, Python and WebAssembly bindings pass data through unchanged",
  "Every exported wrapper hands the caller's arrays to the corresponding C or C++ routine with the right lengths and order and copies results back completely.",
  "every input of every exported function", "The bindings have no tests in the stable suite.", ["dotnet", "python/src"], ["C# wrappers", "pybind11 module"],
  "pybind11, the .NET SDK and emscripten are absent, so there is no compiled code to encode or to replay a counterexample against; the C API underneath the .NET binding is C37.")
na("N03", "Tiller-Hanson offsets and swung surfaces are the shapes their names promise",
  "The Tiller-Hanson offset stays at the requested distance and a swung surface follows profile and trajectory.",
  "every curve, distance and factor", "Tests only check that something is returned.", [CURVE, SURF], ["NurbsCurve::Offset", "NurbsSurface::CreateSwungSurface"],
  "Both are heuristics of this library without a stated error bound or formula: there is no assertion for a solver to decide (the exact parts, zero offset and offset arcs, are in C32).")
