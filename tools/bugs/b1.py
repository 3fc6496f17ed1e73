PRE = '''#include <libnurbs/Curve/Curve.hpp>
#include <libnurbs/Surface/Surface.hpp>
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <libnurbs/Core/Grid.hpp>
#include <cstdio>
#include <cmath>
using namespace libnurbs;
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)
int main() {
'''
POST = "\n  return 0;\n}\n"
BUGS = [
 dict(id="rational-last-weight", property="C08", needs="a surface whose only deviating weight is the last control point",
      what="IsRational overlooks the last weight", edits=[("src/Surface/Surface.cpp", "    for (size_t i = 1; i < cps.size(); ++i)\n    {\n        if (cps[i].w() != w) return true;", "    for (size_t i = 1; i + 1 < cps.size(); ++i)\n    {\n        if (cps[i].w() != w) return true;")],
      demo=PRE + '''
  Surface s; s.DegreeU = s.DegreeV = 1; s.KnotsU = s.KnotsV = KnotVector{std::vector<Numeric>{0,0,1,1}};
  s.ControlPoints = Grid<Vec4>(2,2);
  for (int i=0;i<4;++i) s.ControlPoints.Values[i] = Vec4(i,i,0,1);
  CHECK(!s.IsRational());
  s.ControlPoints.Values[3].w() = 2;
  CHECK(s.IsRational());''' + POST),
 dict(id="span-at-knot", property="C14", needs="a parameter equal to an interior knot", what="the span lookup returns the span left of an interior knot, which does not contain it",
      edits=[("src/Core/KnotVector.cpp", "    auto it = std::upper_bound(m_Values.begin(), m_Values.end(), u);\n    int index_result", "    auto it = std::lower_bound(m_Values.begin(), m_Values.end(), u);\n    int index_result")],
      demo=PRE + '''
  KnotVector k{std::vector<Numeric>{0,0,0,0.25,0.5,0.5,1,1,1}};
  CHECK(k.FindSpanIndex(2,0.3)==3); CHECK(k.FindSpanIndex(2,0.25)==3); CHECK(k.FindSpanIndex(2,0.5)==5);''' + POST),
 dict(id="span-near-end", property="C14", needs="a parameter within 1e-6 of the end, left of a knot that is closer still", what="parameters close to the end are put in the last span although another span contains them",
      edits=[("src/Core/KnotVector.cpp", "    if (u == m_Values.back()) return index_last_span;", "    if (Approx(u, m_Values.back())) return index_last_span;")],
      demo=PRE + '''
  KnotVector k{std::vector<Numeric>{0,0,1-1e-7,1,1}};
  CHECK(k.FindSpanIndex(1,0.5)==1); CHECK(k.FindSpanIndex(1,1-5e-7)==1);''' + POST),
 dict(id="box-open-max", property="C15", needs="a point exactly on a maximum face", what="containment is exclusive at the upper bounds",
      edits=[("include/libnurbs/Core/BoundingBox.hpp", "(point.array() <= Max.array()).all()", "(point.array() < Max.array()).all()")],
      demo=PRE + '''
  BoundingBox b(Vec3(0,0,0), Vec3(1,2,3));
  CHECK(b.Contains(Vec3(0.5,1,1))); CHECK(b.Contains(Vec3(1,2,3))); CHECK(b.Contains(Vec3(0,0,0)));''' + POST),
 dict(id="grid-insertv-stride", property="C21", needs="a grid with unequal dimensions", what="inserting a row uses the wrong stride",
      edits=[("include/libnurbs/Core/Grid.hpp", "auto iter = Values.begin() + v_index * UCount;", "auto iter = Values.begin() + v_index * VCount;")],
      demo=PRE + '''
  Grid<int> g(3,2); for (int i=0;i<6;++i) g.Values[i]=i;
  g.InsertV(1, -1);
  CHECK(g.Get(0,0)==0); CHECK(g.Get(2,0)==2); CHECK(g.Get(0,1)==-1); CHECK(g.Get(2,1)==-1); CHECK(g.Get(0,2)==3);''' + POST),
 dict(id="rect-v-count", property="C19", needs="different control point counts in U and V", what="the rectangle's V steps are computed from the U count",
      edits=[("src/Geometry/GeomRect.cpp", "/ (ControlPointCountV - 1)", "/ (ControlPointCountU - 1)")],
      demo=PRE + '''
  GeomRect r; r.LeftBottomPoint=Vec3(0,0,0); r.RightBottomPoint=Vec3(1,0,0); r.LeftTopPoint=Vec3(0,1,0); r.DegreeU=1; r.DegreeV=1; r.ControlPointCountU=2; r.ControlPointCountV=3;
  auto s = r.GetSurface(); CHECK(std::abs(s.ControlPoints.Get(0,2).y()-1)<1e-12); CHECK(std::abs(s.ControlPoints.Get(1,1).y()-0.5)<1e-12);''' + POST),
 dict(id="knots-end-approx", property="C13", needs="a knot list that ends close to, but not at, one", what="knot vectors that do not end at one are accepted",
      edits=[("src/Core/KnotVector.cpp", "if (last_value != 1.0) return false;\n    return true;", "if (!Approx(last_value, 1.0)) return false;\n    return true;")],
      demo=PRE + '''
  bool thrown=false; try { KnotVector k{std::vector<Numeric>{0,0,1-1e-8,1-1e-8}}; } catch (const std::invalid_argument&) { thrown=true; }
  CHECK(thrown); KnotVector ok{std::vector<Numeric>{0,0,1,1}}; CHECK(ok.Count()==4);''' + POST),
]
