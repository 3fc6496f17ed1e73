import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/bugs", "b1.py")).read().split("BUGS = [")[0])
PRE = PRE.replace("#include <cstdio>", "#include <cstdio>\n#include <sstream>\n#include <fstream>\n#include <stdexcept>\n#include <libnurbs/Basis/BSplineBasis.hpp>\n#include <libnurbs/Algorithm/DegreeAlgo.hpp>")
C = "src/Curve/Curve.cpp"; S = "src/Surface/Surface.cpp"; K = "src/Algorithm/KnotRemoval.cpp"; D = "src/Algorithm/DegreeAlgo.cpp"; B = "src/Basis/BSplineBasis.cpp"
QUAD = '''
  auto curve = [](int p, std::vector<Numeric> k, double w = 1) { Curve c; c.Degree = p; c.Knots = KnotVector{k}; int n = (int)k.size() - p - 1;
    for (int i = 0; i < n; ++i) c.ControlPoints.push_back(Vec4(i, (i * 7) % 5, (i * i) % 4, i % 2 ? w : 1)); return c; };
  auto same = [](const Curve& a, const Curve& b) { double m = 0; for (int i = 0; i <= 64; ++i) m = std::max(m, (a.Evaluate(i / 64.0) - b.Evaluate(i / 64.0)).norm()); return m < 1e-9; };
  auto sheet = [](int p, std::vector<Numeric> ku, int q, std::vector<Numeric> kv, double w = 1) { Surface s; s.DegreeU = p; s.DegreeV = q; s.KnotsU = KnotVector{ku}; s.KnotsV = KnotVector{kv};
    int n = (int)ku.size() - p - 1, m = (int)kv.size() - q - 1; s.ControlPoints = Grid<Vec4>(n, m);
    for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) s.ControlPoints.Get(i, j) = Vec4(i, j, (i * 3 + j * j) % 5, (i + j) % 2 ? w : 1); return s; };
  auto ssame = [](const Surface& a, const Surface& b) { double m = 0; for (int i = 0; i <= 16; ++i) for (int j = 0; j <= 16; ++j) m = std::max(m, (a.Evaluate(i / 16.0, j / 16.0) - b.Evaluate(i / 16.0, j / 16.0)).norm()); return m < 1e-9; };
  (void)curve; (void)same; (void)sheet; (void)ssame;
'''
BUGS = [
 dict(id="eval-cached-span", property="C01", needs="two curves evaluated in turn at the same parameter", what="the span of the last evaluation is kept between calls and used for another curve",
      edits=[(C, "    int index_span = Knots.FindSpanIndex(Degree, x);\n    VecX basis     = BSplineBasis::Evaluate(", "    static thread_local Numeric last_x = -1;\n    static thread_local int last_span = 0;\n    if (x != last_x || last_span >= (int)ControlPoints.size() || last_span < Degree)\n    {\n        last_x = x;\n        last_span = Knots.FindSpanIndex(Degree, x);\n    }\n    int index_span = last_span;\n    VecX basis     = BSplineBasis::Evaluate(")],
      demo=PRE + QUAD + '''
  auto a = curve(1, {0,0,0.25,1,1}), b = curve(1, {0,0,0.75,1,1});
  Vec3 alone = b.Evaluate(0.5); a.Evaluate(0.1); a.Evaluate(0.5); Vec3 after = b.Evaluate(0.5);
  CHECK((alone - Vec3(0.5 / 0.75, 7 % 5 * 0.5 / 0.75, 0.5 / 0.75)).norm() < 1e-9); CHECK((alone - after).norm() < 1e-12);''' + POST),
 dict(id="degree-text-unchecked", property="C02", needs="a text file whose degree is not a number", what="a degree that cannot be parsed is taken as zero",
      edits=[(C, "            ss >> Degree;\n            if (ss.fail())\n            {\n                throw std::runtime_error(\"Failed to parse Degree value.\");\n            }\n", "            ss >> Degree;\n")],
      demo=PRE + QUAD + '''
  std::stringstream good, bad; auto a = curve(2, {0,0,0,0.5,1,1,1}); a.SaveToFile(good, false); std::string t = good.str();
  Curve c; c.LoadFromFile(good); CHECK(c.Degree == 2);
  auto p = t.find("*Degree: 2"); CHECK(p != std::string::npos); t.replace(p, 10, "*Degree: x"); bad.str(t);
  bool thrown = false; try { Curve d; d.LoadFromFile(bad); } catch (const std::runtime_error&) { thrown = true; } CHECK(thrown);''' + POST),
 dict(id="weight-as-float", property="C04", needs="a weight that single precision cannot hold", what="text files keep weights in single precision only",
      edits=[(C, '<< " " << cp.z() << " " << cp.w() << ",\\n";', '<< " " << cp.z() << " " << static_cast<float>(cp.w()) << ",\\n";')],
      demo=PRE + QUAD + '''
  auto a = curve(2, {0,0,0,0.5,1,1,1}); a.ControlPoints[1].w() = 0.1; std::stringstream s; a.SaveToFile(s, false); Curve b; b.LoadFromFile(s);
  CHECK(b.ControlPoints.size() == a.ControlPoints.size()); CHECK(b.ControlPoints[0].w() == 1); CHECK(b.ControlPoints[1].w() == 0.1);''' + POST),
 dict(id="bezier-near-ends", property="C16", needs="an interior knot within 1e-3 of an end", what="knots close to the ends are not refined, so that the pieces are cut at the wrong places",
      edits=[(C, "        if (u <= Numeric(0.0) || u >= Numeric(1.0))\n", "        if (u <= Numeric(1e-3) || u >= Numeric(1.0) - Numeric(1e-3))\n")],
      demo=PRE + QUAD + '''
  auto a = curve(2, {0,0,0,0.3,1,1,1}); CHECK(a.ExtractBezier().size() == 2);
  auto b = curve(2, {0,0,0,0.0005,1,1,1}); auto z = b.ExtractBezier(); CHECK(z.size() == 2); CHECK((z[0].Evaluate(1) - b.Evaluate(0.0005)).norm() < 1e-9); CHECK((z[1].Evaluate(1) - b.Evaluate(1)).norm() < 1e-9);''' + POST),
 dict(id="box-buffer", property="C07", needs="a curve whose box needs a subdivision", what="the subdivision table is one row short: its last entry lies outside the buffer",
      edits=[(C, "vector<Vec4> b((p + 1) * (p + 1));", "vector<Vec4> b((p + 1) * p);")], flags="-fsanitize=address",
      demo=PRE + QUAD + '''
  auto a = curve(1, {0,0,0.5,1,1}); (void)a.GetBoundingBox(1e-3);
  auto b = curve(3, {0,0,0,0,0.5,1,1,1,1}); auto x = b.GetBoundingBox(1e-3); CHECK(x.Max.x() > 3.9);''' + POST),
 dict(id="der-binomial", property="C09", needs="a rational curve and derivatives of an order above the one looked at", what="the quotient rule uses the binomial coefficient of the highest order for all orders",
      edits=[(C, "Aders.noalias() -= Binomial(k, i) * Wders * result[k - i];", "Aders.noalias() -= Binomial(order, i) * Wders * result[k - i];")],
      demo=PRE + QUAD + '''
  auto a = curve(3, {0,0,0,0,0.5,1,1,1,1}, 2.0); auto x = a.EvaluateAll(0.3, 1), y = a.EvaluateAll(0.3, 3);
  CHECK((x[0] - y[0]).norm() < 1e-12); CHECK((x[1] - y[1]).norm() < 1e-9); CHECK((a.EvaluateAll(0.3, 2)[2] - y[2]).norm() < 1e-8);''' + POST),
 dict(id="insertv-close-knots", property="C10", needs="knots less than 1e-4 apart in direction V", what="inserting a knot between close knots moves the surface",
      edits=[(S, "alpha_list[idx] = (knot_value - knots[i]) / (knots[i + DegreeV] - knots[i]);", "Numeric length = knots[i + DegreeV] - knots[i];\n        alpha_list[idx] = length < 1e-4 ? 1 : (knot_value - knots[i]) / length;")],
      demo=PRE + QUAD + '''
  auto a = sheet(2, {0,0,0,1,1,1}, 1, {0,0,0.5,0.50005,1,1}); CHECK(ssame(a, a.InsertKnotV(0.25)));
  auto b = a.InsertKnotV(0.500025); double m = 0; for (int i = 0; i <= 20; ++i) m = std::max(m, (a.Evaluate(0.3, 0.5 + i * 2.5e-6) - b.Evaluate(0.3, 0.5 + i * 2.5e-6)).norm()); CHECK(m < 1e-9);''' + POST),
 dict(id="elevatev-last-row", property="C11", needs="a surface with fewer points in V than in U, elevated in V", what="the knots are replaced before the last row was elevated",
      edits=[(S, "        if (it_u == ControlPoints.UCount - 1)\n        {\n            result.KnotsV = knots;", "        if (it_u == std::min(ControlPoints.UCount, ControlPoints.VCount + 1) - 1)\n        {\n            result.KnotsV = knots;")],
      demo=PRE + QUAD + '''
  auto a = sheet(1, {0,0,1,1}, 2, {0,0,0,0.5,1,1,1}); CHECK(ssame(a, a.ElevateDegreeV(1)));
  auto b = sheet(1, {0,0,0.2,0.4,0.6,1,1}, 1, {0,0,1,1}); auto c = b.ElevateDegreeV(1); CHECK(c.DegreeV == 2); CHECK(c.ControlPoints.VCount == 3); CHECK(ssame(b, c));''' + POST),
 dict(id="removal-second-copy", property="C12", needs="two copies of a knot removed at once", what="the second removal of a knot solves for its points with the first removal's knots",
      edits=[(K, "(knots[j + order] - knots[j - t]);", "(knots[j + order] - knots[j]);")],
      demo=PRE + QUAD + '''
  auto a = curve(3, {0,0,0,0,0.2,0.7,1,1,1,1}); auto r1 = a.InsertKnot(0.4).RemoveKnot(0.4, 1, 1e-9); CHECK(std::get<1>(r1) == 1); CHECK(same(a, std::get<0>(r1)));
  auto r2 = a.InsertKnot(0.4, 2).RemoveKnot(0.4, 2, 1e-9); CHECK(std::get<1>(r2) == 2); CHECK(same(a, std::get<0>(r2)));''' + POST),
 dict(id="transform-small", property="C18", needs="a control point within 1e-3 of the origin", what="points close to the origin are not transformed",
      edits=[(C, "        point.head<3>() = R * point.head<3>();", "        if (point.head<3>().norm() > 1e-3) point.head<3>() = R * point.head<3>();")],
      demo=PRE + QUAD + '''
  auto a = curve(1, {0,0,1,1}); a.ControlPoints[0] = Vec4(1, 0, 0, 1); a.ControlPoints[1] = Vec4(0.0005, 0, 0, 1); Mat3x3 R; R << 0,-1,0, 1,0,0, 0,0,1; auto b = a.Transform(R);
  CHECK(std::abs(b.ControlPoints[0].y() - 1) < 1e-12); CHECK(std::abs(b.ControlPoints[1].y() - 0.0005) < 1e-12);''' + POST),
 dict(id="align-reverse-order", property="C18", needs="a surface whose V direction is reversed, with an odd number of rows above three", what="reversing V leaves the middle of the grid unmirrored",
      edits=[(S, "            for (int v = 0; v < grid.VCount / 2; ++v)\n", "            for (int v = 0; v < std::min(grid.VCount / 2, 2); ++v)\n")],
      demo=PRE + QUAD + '''
  Surface s; s.DegreeU = 1; s.DegreeV = 1; s.KnotsU = KnotVector{std::vector<Numeric>{0,0,1,1}}; s.KnotsV = KnotVector{std::vector<Numeric>{0,0,.1,.2,.3,.6,1,1}}; s.ControlPoints = Grid<Vec4>(2, 6);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 6; ++j) s.ControlPoints.Get(i, j) = Vec4(i * 10, -j, 0, 1);
  auto r = s.AlignParameterDomain(AlignAxis::XAxis, AlignAxis::YAxis); for (int j = 0; j < 6; ++j) CHECK(std::abs(r.ControlPoints.Get(0, j).y() - (j - 5)) < 1e-12);''' + POST),
 dict(id="line-search-swap", property="C17", needs="a bisection on a line of constant u that ends early", what="the bisection returns the two parameters exchanged when it converges early",
      edits=[(S, "                return direction == 0\n                           ? std::make_pair(constant, mid)\n                           : std::make_pair(mid, constant);", "                return direction == 0 && count > 1\n                           ? std::make_pair(constant, mid)\n                           : std::make_pair(mid, constant);")],
      demo=PRE + QUAD + '''
  auto a = sheet(1, {0,0,1,1}, 1, {0,0,1,1}); a.ControlPoints.Get(0,0)=Vec4(0,0,0,1); a.ControlPoints.Get(1,0)=Vec4(1,0,0,1); a.ControlPoints.Get(0,1)=Vec4(0,1,0,1); a.ControlPoints.Get(1,1)=Vec4(1,1,0,1);
  auto [u, v] = a.BinarySearchParameterOn(Vec3(0.25, 0.5, 0), 0, 0.25, 1e-6, 100); CHECK(u == 0.25); CHECK(std::abs(v - 0.5) < 1e-3);''' + POST),
 dict(id="search-clamp-high", property="C17", needs="a trial step beyond one on the first attempt", what="the first trial of the line search is only clamped from below",
      edits=[(C, "            u_trial         = std::clamp(u_trial, Numeric(0), Numeric(1));", "            u_trial         = ls_count == 1 ? std::max(u_trial, Numeric(0)) : std::clamp(u_trial, Numeric(0), Numeric(1));")], flags="-DNDEBUG",
      demo=PRE + QUAD + '''
  auto a = curve(1, {0,0,1,1}); a.ControlPoints[0] = Vec4(0,0,0,1); a.ControlPoints[1] = Vec4(10,0,0,1);
  double u = a.SearchParameter(Vec3(20, 0, 0), 0.5, 1e-9, 1); CHECK(u >= 0 && u <= 1);''' + POST),
 dict(id="box-min-only", property="C33", needs="a curve that bulges upwards only", what="a piece counts as flat when only its lower corner agrees",
      edits=[(C, "            bool flat_enough = Approx(cpBox.Min, epBox.Min, 1e-6) &&\n                               Approx(cpBox.Max, epBox.Max, 1e-6);", "            bool flat_enough = Approx(cpBox.Min, epBox.Min, 1e-6);")],
      demo=PRE + QUAD + '''
  Curve c; c.Degree = 2; c.Knots = KnotVector{std::vector<Numeric>{0,0,0,1,1,1}}; c.ControlPoints = {Vec4(0,0,0,1), Vec4(1,-2,0,1), Vec4(2,0,0,1)};
  CHECK(std::abs(c.GetBoundingBox(1e-3).Min.y() + 1) < 0.01); c.ControlPoints[1].y() = 2; CHECK(std::abs(c.GetBoundingBox(1e-3).Max.y() - 1) < 0.01);''' + POST),
 dict(id="box-halves", property="C23", needs="a curve of degree three or more that is subdivided", what="the right half of a subdivided piece has a wrong control point",
      edits=[(C, "R[r] = b_view[p - r, r];", "R[r] = b_view[p - r, std::min(r, 2)];")],
      demo=PRE + QUAD + '''
  Curve c; c.Degree = 3; c.Knots = KnotVector{std::vector<Numeric>{0,0,0,0,1,1,1,1}}; c.ControlPoints = {Vec4(0,0,0,1), Vec4(1,3,0,1), Vec4(2,-3,0,1), Vec4(3,5,0,1)};
  auto b = c.GetBoundingBox(1e-4); CHECK(std::abs(b.Max.y() - 5) < 0.01); CHECK(std::abs(b.Max.x() - 3) < 0.01); CHECK(std::abs(b.Min.x()) < 0.01);''' + POST),
 dict(id="removal-weight-ignored", property="C30", needs="a knot whose removal would change the weights only", what="the removal test ignores the weights",
      edits=[(K, "dist = (temp[ii - 1] - temp[jj + 1]).norm();", "dist = (temp[ii - 1] - temp[jj + 1]).head<3>().norm();")],
      demo=PRE + QUAD + '''
  Curve c; c.Degree = 2; c.Knots = KnotVector{std::vector<Numeric>{0,0,0,0.5,1,1,1}};
  c.ControlPoints = {Vec4(2,0,0,1), Vec4(2,0.5,0,1), Vec4(2,1.5,0,1), Vec4(2,2,0,1)}; CHECK(std::get<1>(c.RemoveKnot(0.5, 1, 1e-6)) == 1);
  for (auto& q : c.ControlPoints) { double w = &q == &c.ControlPoints[1] ? 1.5 : 1; q.head<3>() /= w; q.w() = w; }
  auto [r, n] = c.RemoveKnot(0.5, 1, 1e-6); double m = 0; for (int i = 0; i <= 50; ++i) m = std::max(m, (r.Evaluate(i / 50.0) - c.Evaluate(i / 50.0)).norm()); CHECK(m < 1e-5);''' + POST),
 dict(id="ders-high-order", property="C34", needs="derivatives of an order above one at degree three or more", what="the difference table is cut short in the middle rows",
      edits=[(B, "int j2 = (r - 1 <= pk) ? k - 1 : degree - r;", "int j2 = (r <= pk) ? k - 1 : degree - r;")],
      demo=PRE + '''
  KnotVector k{std::vector<Numeric>{0,0,0,0,0,0.3,0.6,1,1,1,1,1}}; bool ok = true;
  for (int p = 4; p <= 4; ++p) for (int o = 1; o <= 4; ++o) { double h = 1e-5, x = 0.4; auto a = BSplineBasis::EvaluateAll(p, k, x, o), l = BSplineBasis::EvaluateAll(p, k, x - h, o - 1), r = BSplineBasis::EvaluateAll(p, k, x + h, o - 1);
    for (int i = 0; i <= p; ++i) if (std::abs((r(o - 1, i) - l(o - 1, i)) / (2 * h) - a(o, i)) > 1e-2 * (1 + std::abs(a(o, i)))) ok = false; }
  CHECK(ok);''' + POST),
 dict(id="elevate-left-bezier", property="C31", needs="elevating a curve that has knots of multiplicity two", what="points left of a repeated knot are taken from the wrong place",
      edits=[(D, "oldr > 0 ? (oldr + 2) / 2 : 1", "oldr > 0 ? (oldr + 1) / 2 : 1")],
      demo=PRE + QUAD + '''
  for (int p = 2; p <= 4; ++p) for (int t = 1; t <= 2; ++t) { std::vector<Numeric> k(p + 1, 0.0); k.push_back(0.3); k.push_back(0.6); k.insert(k.end(), p + 1, 1.0); auto a = curve(p, k, 1.5); CHECK(same(a, a.ElevateDegree(t))); }
  for (int p = 3; p <= 4; ++p) for (int t = 1; t <= 2; ++t) { std::vector<Numeric> k(p + 1, 0.0); k.push_back(0.3); k.push_back(0.6); k.push_back(0.6); k.insert(k.end(), p + 1, 1.0); auto a = curve(p, k); CHECK(same(a, a.ElevateDegree(t))); }''' + POST),
 dict(id="insert-list-capacity", property="C06", needs="a list of more than four knots to insert", what="only the first knots of a long list are inserted",
      edits=[(C, "    vector list(times, knot_value);\n    return InsertKnot(list);", "    vector list(std::min(times, Degree + 1), knot_value);\n    return InsertKnot(std::span<Numeric>(list).first(std::min<size_t>(list.size(), 4)));")],
      demo=PRE + QUAD + '''
  auto a = curve(3, {0,0,0,0,0.5,1,1,1,1}); CHECK(a.InsertKnot(0.3, 3).ControlPoints.size() == a.ControlPoints.size() + 3);
  std::vector<Numeric> kk(7, 0.0); kk.insert(kk.end(), 7, 1.0); auto b = curve(6, kk); CHECK(b.InsertKnot(0.3, 6).ControlPoints.size() == b.ControlPoints.size() + 6);''' + POST),
 dict(id="grid-setv", property="C21", needs="rows set in a grid with unequal dimensions", what="PLACEHOLDER", edits=[("include/libnurbs/Core/Grid.hpp", "PLACEHOLDER", "")], demo=PRE + POST),
]
BUGS.pop()
