#!/usr/bin/env python3
"""seedtool.py new ID SPEC.py | verify [ID...] -- author's aid for planted bugs (never used by a check).
SPEC.py defines S = dict(property, needs, breaks, edits=[(file,[(old,new[,count])])], demo='...C++...')."""
import sys,os,subprocess,json,runpy
sys.path.insert(0,'/tmp')
V='/verif/seeded/'; R='/repo/src/LNLib/'
DEMO='''#!/bin/bash
# compiles demo.cpp against the library built in /repo/_build and runs it: 0 = behaves as stated
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I/repo/src/LNLib/include -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -L/repo/_build/RelWithDebInfo -lLNLib -Wl,-rpath,/repo/_build/RelWithDebInfo || exit 2
timeout 60 "$t/demo"
'''
PRE='''#include <cstdio>
#include <cmath>
#include <vector>
#include <stdexcept>
#include "XYZ.h"
#include "XYZW.h"
#include "UV.h"
#include "UVW.h"
#include "LNObject.h"
#include "LNEnums.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "MathUtils.h"
#include "BsplineCurve.h"
#include "BezierCurve.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "Matrix4d.h"
#include "Intersection.h"
#include "Projection.h"
#include "Interpolation.h"
using namespace LNLib; typedef std::vector<double> VD;
static int bad = 0;
static void near(const char* w, double a, double b, double tol = 1e-6) { if (!(std::fabs(a - b) <= tol)) { printf("%s: %.12g expected %.12g\\n", w, a, b); bad = 1; } }
static void truth(const char* w, bool c) { if (!c) { printf("%s: wrong\\n", w); bad = 1; } }
static void near3(const char* w, XYZ a, XYZ b, double tol = 1e-6) { near(w, a.GetX(), b.GetX(), tol); near(w, a.GetY(), b.GetY(), tol); near(w, a.GetZ(), b.GetZ(), tol); }
// basis function straight from the Cox-de Boor recursion
static double N(const VD& U, int i, int p, double u) {
  int n = (int)U.size() - p - 2; (void)n;
  if (p == 0) { if (U[i] <= u && u < U[i + 1]) return 1; return (u == U.back() && U[i] < u && U[i + 1] == u) ? 1 : 0; }
  double a = U[i + p] - U[i], b = U[i + p + 1] - U[i + 1]; double r = 0;
  if (a > 0) r += (u - U[i]) / a * N(U, i, p - 1, u); if (b > 0) r += (U[i + p + 1] - u) / b * N(U, i + 1, p - 1, u); return r; }
static XYZ at(const LN_NurbsCurve& c, double u) { double x = 0, y = 0, z = 0, w = 0; for (size_t i = 0; i < c.ControlPoints.size(); i++) { double b = N(c.KnotVector, i, c.Degree, u); XYZW q = c.ControlPoints[i]; x += b * q.GetWX(); y += b * q.GetWY(); z += b * q.GetWZ(); w += b * q.GetW(); } return XYZ(x / w, y / w, z / w); }
static XYZ at(const LN_NurbsSurface& s, double u, double v) { double x = 0, y = 0, z = 0, w = 0; for (size_t i = 0; i < s.ControlPoints.size(); i++) for (size_t j = 0; j < s.ControlPoints[0].size(); j++) { double b = N(s.KnotVectorU, i, s.DegreeU, u) * N(s.KnotVectorV, j, s.DegreeV, v); XYZW q = s.ControlPoints[i][j]; x += b * q.GetWX(); y += b * q.GetWY(); z += b * q.GetWZ(); w += b * q.GetW(); } return XYZ(x / w, y / w, z / w); }
static LN_NurbsCurve curve(int p, const VD& U) { LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = U.size() - p - 1; for (int i = 0; i < n; i++) c.ControlPoints.push_back(XYZW(XYZ(i, (i * i * 3) % 7, (i * 5) % 4), 1 + (i % 3) * 0.5)); return c; }
static LN_NurbsSurface surface(int p, int q, const VD& U, const VD& V) { LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU = U; s.KnotVectorV = V; int n = U.size() - p - 1, m = V.size() - q - 1; for (int i = 0; i < n; i++) { std::vector<XYZW> r; for (int j = 0; j < m; j++) r.push_back(XYZW(XYZ(i, j, (i * 3 + j * 5) % 4), 1 + ((i + 2 * j) % 3) * 0.5)); s.ControlPoints.push_back(r); } return s; }
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def clean(): sh('git -C /repo checkout -- .')
def tests():
    b=sh('bash /opt/vp/build.sh')
    if b.returncode: return 'BUILD '+b.stdout[-600:]
    sh('bash /opt/vp/test.sh /tmp/st.json'); t=json.load(open('/tmp/st.json')); base=json.load(open('/opt/vp/BASELINE.json'))
    miss=set(base['stable'])-set(t['passed']); return 'ok' if not miss else 'TESTS FAIL '+str(sorted(miss))[:300]
def check(p):
    r=sh(f'cd /verif && python3 run.py check {p}'); v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]; return r.returncode,(v[0] if v else r.stdout[-200:])
def edit(edits):
    from fx import sub
    for f,p in edits: sub(R+f,p)
def new(id,spec):
    S=runpy.run_path(spec)['S']; d=V+id+'/'; os.makedirs(d,exist_ok=True)
    clean(); open(d+'demo.cpp','w').write(PRE+S['demo']); open(d+'demo.sh','w').write(DEMO.replace('"$d/demo.cpp"','"$d/demo.cpp"'+(' -I/repo/dotnet/CAPI/include '+' '.join('/repo/dotnet/CAPI/src/'+x for x in S['capi']) if 'capi' in S else ''))); os.chmod(d+'demo.sh',0o755)
    if sh('ls /repo/_build/RelWithDebInfo/libLNLib.so').returncode: tests()
    json.dump(dict(property=S['property'],needs=S['needs'],what_it_breaks=S['breaks']),open(d+'meta.json','w'),indent=1)
    r=sh('bash '+d+'demo.sh'); print(id,'demo on clean:',r.returncode,(r.stdout+r.stderr)[-400:] if r.returncode else '')
    try:
        edit(S['edits']); open(d+'patch.diff','w').write(sh('git -C /repo diff').stdout)
        print(' tests:',tests()); r=sh('bash '+d+'demo.sh'); print(' demo on patched:',r.returncode,(r.stdout+r.stderr)[-150:].replace('\n',' / '))
        print(' check:',*check(S['property']))
    finally: clean()
def verify(ids):
    for id in ids or sorted(os.listdir(V)):
        d=V+id+'/'; m=json.load(open(d+'meta.json')); clean(); a=sh('git -C /repo apply '+d+'patch.diff')
        if a.returncode: print(id,'DOES NOT APPLY'); continue
        try: print(id,m['property'],*check(m['property']),flush=True)
        finally: clean()
if sys.argv[1]=='new':
    for i in range(2,len(sys.argv),2): new(sys.argv[i],sys.argv[i+1])
    sh('bash /opt/vp/build.sh')
else: verify(sys.argv[2:])
