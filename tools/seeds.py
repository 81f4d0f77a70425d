"""Planted bugs: specs used by mkseed.py to write /verif/seeded."""
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

seed("s01-query-flag", "C01", [("src/mesh.cc", "return triangles.size() > integer(0);", "return triangles.size() > integer(1);")],
     "a query box that overlaps exactly one triangle", "the query answers false although it found one triangle",
     '''int main() { enve::ground::mesh m(quad(0, 1, 0, 1, 0, 1)); TG::vecptr out;
  bool r = m.intersection(std::make_shared<acme::aabb const>(acme::point(0.9, -0.5, -1), acme::point(2, -0.0, 1), 0), out); CHECK(r == !out.empty());
  enve::ground::mesh one({tg(0, 1, acme::point(0,0,0), acme::point(1,0,0), acme::point(0,1,0))});
  r = one.intersection(std::make_shared<acme::aabb const>(acme::point(0, 0, -1), acme::point(2, 1, 1), 0), out); CHECK(out.size() == 1); CHECK(r); return 0; }''')
seed("s02-copy-same-size", "C02", [("src/mesh.cc", "      this->m_triangles = mesh_obj.m_triangles;\n      this->buildAABBtree();", "      bool resized = this->size() != mesh_obj.size();\n      this->m_triangles = mesh_obj.m_triangles;\n      if (resized) {this->buildAABBtree();}")],
     "copying onto a mesh that already holds the same number of triangles elsewhere", "queries of the copy use the boxes of its former triangles",
     '''int main() { enve::ground::mesh a(quad(0, 1, 0, 1, 0, 1)), b(quad(10, 11, 10, 11, 0, 1)); a.copy(b); TG::vecptr out;
  CHECK(a.intersection(std::make_shared<acme::aabb const>(acme::point(10, 10, -1), acme::point(11, 11, 1), 0), out)); CHECK(out.size() == 2);
  CHECK(!a.intersection(std::make_shared<acme::aabb const>(acme::point(0, 0, -1), acme::point(1, 1, 1), 0), out)); return 0; }''')
seed("s03-extra-field", "C03", [("src/mesh.cc", "ENVE_ASSERT(s_node.size() == size_t(4),", "ENVE_ASSERT(s_node.size() >= size_t(4),")],
     "an RDF element line with five fields", "a malformed element line is accepted",
     '''int main() { { std::ofstream f("a.rdf"); f << "[NODES]\\n0 0 0 0\\n1 1 0 0\\n2 0 1 0\\n[ELEMENTS]\\n0 1 2 1.0 7\\n"; }
  acme::affine I = at(0,0,0); bool thrown = false; try { enve::ground::mesh m("a.rdf", I); } catch (std::exception const &) { thrown = true; } CHECK(thrown);
  { std::ofstream f("b.rdf"); f << "[NODES]\\n0 0 0 0\\n1 1 0 0\\n2 0 1 0\\n[ELEMENTS]\\n0 1 2 1.0\\n"; } enve::ground::mesh m("b.rdf", I); CHECK(m.size() == 1); return 0; }''')
seed("s04-obj-float", "C04", [("src/mesh.cc", "          p_node[2] = std::stod(s_node[2]);", "          p_node[2] = std::stof(s_node[2]);")],
     "an OBJ vertex whose height needs more than single precision", "vertex heights are rounded to single precision",
     '''int main() { { std::ofstream f("a.obj"); f << "v 0 0 123.456789\\nv 1 0 0\\nv 0 1 0\\nf 1 2 3\\n"; } enve::ground::mesh m("a.obj", 1.0, at(0,0,0)); CHECK(near(m[0]->vertex(0).z(), 123.456789, 1e-9)); return 0; }''')
seed("s05-copy-normal", "C05", [("src/triangleground.cc", "    this->m_normal   = triangleground_obj.m_normal;\n", "")],
     "copying a ground triangle over another one", "the copy keeps the former normal",
     '''int main() { TG a(0, 1, acme::point(0,0,0), acme::point(1,0,0), acme::point(0,1,0)), b(3, 0.5, acme::point(0,0,0), acme::point(1,0,1), acme::point(0,1,0)); a.copy(b);
  CHECK((a.normal() - b.normal()).norm() < 1e-12); CHECK(a.friction() == b.friction()); CHECK(a.id() == b.id()); return 0; }''')
seed("s06-flat-depth", "C06", [("src/rib.cc", "      out.depth    = radius - (out.point - center_grd).norm();\n      out.area     = real(2.0)", "      out.depth    = radius - std::abs((out.point - center_grd).dot(out.normal));\n      out.area     = real(2.0)")],
     "a cambered wheel or a slope across the axle", "the depth is measured along the ground normal instead of in the rib plane",
     '''int main() { enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::flat g(1.0, acme::point(0,0,0), acme::vec3(0,0,1)); double cam = 0.4; CHECK(s.setup(g, at(0,0,0.25,0,cam,0), "geometric"));
  acme::point p; s.contactPoint(0, p); double d; s.contactDepth(0, d); CHECK(near(d, 0.3 - 0.25 / std::cos(cam), 1e-9)); return 0; }''')
seed("s07-slice-radius", "C07", [("src/rib.cc", "section_area = radius * radius * t_d - r_a * r_b * std::sin(t_b - t_a) / real(2.0);", "section_area = radius * radius * t_d - r_a * r_a * std::sin(t_b - t_a) / real(2.0);")],
     "a chord ending inside the rib disk (a triangle edge under the wheel)", "volumes of chords with ends at different distances from the centre are wrong, so the result depends on the tessellation",
     '''static double vol(TG::vecptr const & t) { enve::ground::mesh m(t); enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); s.setup(m, at(0,0,0.25), "geometric"); double v; s.contactVolume(v); return v; }
int main() { TG::vecptr a = quad(-1, 1, -1, 1, 0, 1), b = quad(-1, 0.05, -1, 1, 0, 1), c = quad(0.05, 1, -1, 1, 0, 1, 2); b.insert(b.end(), c.begin(), c.end()); double x = vol(a), y = vol(b); CHECK(x > 0); CHECK(near(x, y, 1e-9)); return 0; }''')
seed("s08-probe-friction", "C09", [("src/rib.cc", "          contact_point    = point_vec[j];\n          contact_friction = friction_vec[j];", "          contact_point    = point_vec[j];")],
     "two ground layers under a probe, the higher one listed later and with another friction", "the friction of a lower layer is reported",
     '''int main() { TG::vecptr a = quad(-1, 1, -1, 1, 0, 1), b = quad(-1, 1, -1, 1, 0.05, 0.5, 2); a.insert(a.end(), b.begin(), b.end()); enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::mesh m(a);
  CHECK(s.setup(m, at(0.1,0.2,0.3), "sampling")); double f; s.contactFriction(0, f); CHECK(near(f, 0.5)); 
  TG::vecptr r(a.rbegin(), a.rend()); enve::ground::mesh m2(r); CHECK(s.setup(m2, at(0.1,0.2,0.3), "sampling")); s.contactFriction(0, f); CHECK(near(f, 0.5)); return 0; }''')
seed("s09-bbox-late", "C10", [("src/shell.cc", "    this->transform(pose);\n    this->updateBBox();\n\n    // Local intersected triangles vector", "    this->updateBBox();\n    this->transform(pose);\n\n    // Local intersected triangles vector")],
     "two setups with the wheel moved in between", "triangles are selected around the previous wheel position",
     '''int main() { enve::shell s(3, 0.3, 2.0, 0.2, 4.0, 0.1); TG::vecptr t = quad(-1, 1, -1, 1, 0, 1), u = quad(4, 6, -1, 1, 0, 1, 2); t.insert(t.end(), u.begin(), u.end()); enve::ground::mesh m(t);
  s.setup(m, at(0,0,0.25), "geometric"); CHECK(s.setup(m, at(5,0,0.25), "geometric")); CHECK(s.setup(m, at(5,0,0.25), "geometric")); return 0; }''')
seed("s10-normal-length", "C11", [("src/shell.cc", "      normal /= volume;\n      normal.normalize();", "      normal /= volume;")],
     "ribs in contact with different normals", "the total normal is not a unit vector",
     '''int main() { enve::shell s(4, 0.3, 2.0, 0.2, 4.0, 0.15); TG::vecptr t = {tg(0, 1, acme::point(-1,-1,0.3), acme::point(1,-1,0.3), acme::point(1,0,0)), tg(1, 1, acme::point(-1,-1,0.3), acme::point(1,0,0), acme::point(-1,0,0)),
    tg(2, 1, acme::point(-1,1,0.3), acme::point(1,1,0.3), acme::point(1,0,0)), tg(3, 1, acme::point(-1,1,0.3), acme::point(1,0,0), acme::point(-1,0,0))};
  enve::ground::mesh m(t); CHECK(s.setup(m, at(0,0,0.25), "geometric")); acme::vec3 n; s.contactNormal(n); CHECK(near(n.norm(), 1, 1e-9)); return 0; }''')
seed("s11-stale-candidates", "C12", [("src/shell.cc", "      if (!this->m_candidates[i].empty())\n        {this->m_candidates[i].clear();}\n      y[i]", "      if (refine && !this->m_candidates[i].empty())\n        {this->m_candidates[i].clear();}\n      y[i]")],
     "a setup on few triangles (or with sampling) after an earlier setup of the same shell", "triangles of the earlier setup still contribute",
     '''int main() { enve::shell s(2, 0.3, 2.0, 0.2, 4.0, 0.1), u(2, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::mesh hi(quad(-1, 1, -1, 1, 0.05, 1)), lo(quad(-1, 1, -1, 1, 0, 0.5));
  s.setup(hi, at(0,0,0.25), "geometric"); s.setup(lo, at(0,0,0.25), "geometric"); u.setup(lo, at(0,0,0.25), "geometric"); double a, b; s.contactVolume(a); u.contactVolume(b); CHECK(near(a, b, 0)); return 0; }''')
seed("s12-angle-sign", "C13", [("src/shell.cc", "      ribA  = this->m_shape->surfaceAngle(ribY);", "      ribA  = this->m_shape->surfaceAngle(std::abs(ribY));")],
     "ribs on the negative side of a curved profile", "ribs left of the middle get the inclination of the right side",
     '''int main() { enve::shell s(4, 0.3, 2.0, 0.2, 4.0, 0.15); CHECK(std::abs(s.ribAngle(3)) > 1e-3); CHECK(near(s.ribAngle(0), -s.ribAngle(3), 1e-12)); return 0; }''')
seed("s13-open-bound", "C14", [("src/shape.cc", "if (std::abs(y) > this->m_l_y)", "if (std::abs(y) >= this->m_l_y)")],
     "evaluating the profile exactly at an end", "the ends of the profile are refused",
     '''int main() { enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); CHECK(s.checkWidthBound(0.1)); CHECK(s.checkWidthBound(-0.1)); CHECK(!s.checkWidthBound(0.1001)); return 0; }''')
seed("s14-translate-order", "C15", [("src/shell.cc", "this->m_affine.translate(vector);", "this->m_affine.pretranslate(vector);")],
     "a translation after a rotation", "the translation is applied in the fixed frame instead of the frame of the shell",
     '''int main() { enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); s.rotate(std::acos(-1.0) / 2, acme::vec3(0,0,1)); s.translate(acme::vec3(1,0,0)); CHECK((s.translation() - acme::vec3(0,1,0)).norm() < 1e-12); return 0; }''')
seed("s15-rib-frame", "C16", [("src/shell.cc", "    vec3 x_vec((this->y().cross(this->m_out[i].normal)).normalized());", "    vec3 x_vec((this->y().cross(this->m_out[0].normal)).normalized());")],
     "ribs with different contact normals", "frames of the other ribs are not orthonormal",
     '''int main() { enve::shell s(4, 0.3, 2.0, 0.2, 4.0, 0.15); TG::vecptr t = quad(-1, 1, -1, 0, 0, 1); t.push_back(tg(2, 1, acme::point(-1,0,-0.05), acme::point(1,0,0.2), acme::point(1,1,0.2))); t.push_back(tg(3, 1, acme::point(-1,0,-0.05), acme::point(1,1,0.2), acme::point(-1,1,-0.05)));
  enve::ground::mesh m(t); CHECK(s.setup(m, at(0,0,0.25), "geometric")); for (int i = 0; i < 4; ++i) { acme::affine a; s.contactPointAffine(i, a); CHECK((a.linear().transpose() * a.linear() - acme::mat3::Identity()).norm() < 1e-9); } return 0; }''')
seed("s16-idle-friction", "C17", [("src/rib.cc", "    out.friction = real(0.0);\n    out.depth    = real(0.0);", "    out.depth    = real(0.0);")],
     "a setup without contact after one with contact", "a rib out of contact keeps the friction of its last contact",
     '''int main() { enve::shell s(2, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::mesh m(quad(-1, 1, -1, 1, 0, 0.7)); CHECK(s.setup(m, at(0,0,0.25), "geometric")); CHECK(!s.setup(m, at(0,0,2), "geometric")); double f; s.contactFriction(0, f); CHECK(f == 0); return 0; }''')
seed("s17-sticky-flag", "C18", [("sfun/src_sfun/enve_sfun_interface.cc", "OutputBus->InMesh = shell->setup(*mesh, tmp_affine, method_in);", "OutputBus->InMesh = shell->setup(*mesh, tmp_affine, method_in) || OutputBus->InMesh;")],
     "a step off the mesh after a step on it with the same output bus", "the in-mesh flag sticks and the flat fallback is skipped",
     '''int main() { { std::ofstream f("a.rdf"); f << "[NODES]\\n0 -1 -1 0\\n1 1 -1 0\\n2 1 1 0\\n3 -1 1 0\\n[ELEMENTS]\\n0 1 2 1.0\\n0 2 3 1.0\\n"; } setenv("ENVE_GROUND_PATH", "a.rdf", 1);
  double n = 3, rx = 0.3, mx = 2, ry = 0.2, my = 4, ly = 0.1, h = 0, fr = 0.5; enve_sfun_init(&n, &rx, &mx, &ry, &my, &ly, &h, &fr);
  static EnveInputBus in; static EnveOutputBus out; double me = 0, fl = 0;
  auto step = [&](double x) { acme::affine a = at(x, 0, 0.25); for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) in.HubAffine[r + 4 * c] = a.matrix()(r, c); enve_sfun_out(&in, &out, &me, &fl); };
  step(0); CHECK(out.InMesh); step(10); CHECK(!out.InMesh); CHECK(out.ShellRho > 0); return 0; }''')
seed("s18-static-list", "C19", [("src/mesh.cc", "      aabb::vecpairptr intersection_list;\n", "      static aabb::vecpairptr intersection_list;\n      intersection_list.clear();\n")],
     "two threads querying one mesh at the same time", "concurrent queries share their scratch list",
     '''#include <thread>
#include <atomic>
int main() { TG::vecptr t; for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j) { TG::vecptr q = quad(i, i + 1, j, j + 1, 0, 1, int(t.size())); t.insert(t.end(), q.begin(), q.end()); }
  enve::ground::mesh m(t); std::atomic<int> bad(0); auto work = [&](double x) { TG::vecptr out; auto b = std::make_shared<acme::aabb const>(acme::point(x, x, -1), acme::point(x + 10, x + 10, 1), 0); TG::vecptr ref;
    for (int k = 0; k < 3000 && !bad; ++k) { m.intersection(b, out); if (out.size() != 12 * 12 * 2 && out.size() != 11 * 11 * 2 && out.size() != 10 * 10 * 2) ++bad; for (auto const & p : out) if (p->vertex(0).x() < x - 1.5 || p->vertex(0).x() > x + 11.5) ++bad; } };
  std::thread a(work, 2.5), b(work, 22.5), c(work, 12.5); a.join(); b.join(); c.join(); CHECK(bad == 0); return 0; }''')
seed("s19-self-pair", "C20", [("toolbox/src/AABBtree.cc", "    case 0: // Both are leafs\n      if (swap_tree)", "    case 0: // Both are leafs\n      if (this->m_ptrbox == tree.m_ptrbox) {break;}\n      if (swap_tree)")],
     "intersecting two trees that share boxes (or a tree with itself)", "a box is not paired with itself",
     '''int main() { acme::aabb::vecptr b; for (int i = 0; i < 3; ++i) b.push_back(std::make_shared<acme::aabb const>(acme::point(i * 3, 0, 0), acme::point(i * 3 + 1, 1, 1), i)); acme::AABBtree t, u; t.build(b); u.build(b);
  acme::aabb::vecpairptr l; t.intersection(u, l); CHECK(l.size() == 3); return 0; }''')
seed("s20-clamp-y", "C21", [("toolbox/src/aabb.cc", "    this->m_max.y() = std::max(point_in[0].y(), std::max(point_in[1].y(), point_in[2].y()));", "    this->m_max.y() = std::max(point_in[0].y(), std::max(point_in[1].y(), point_in[1].y()));")],
     "clamping a point array whose third point is the highest in y", "the box of three points misses the third point",
     '''int main() { acme::point p[3] = {acme::point(0,0,0), acme::point(1,1,1), acme::point(0,5,0)}; acme::aabb b(p[0], p[1]); b.clamp(p); CHECK(b.max(1) == 5); CHECK(b.min(1) == 0); return 0; }''')
seed("s21-ray-inside-disk", "C22", [("toolbox/src/intersection.cc", "    t0 = std::max(real(0.0), t0);\n    t1 = std::max(real(0.0), t1);\n    segment_out.vertex(0) = ray_origin", "    t1 = std::max(real(0.0), t1);\n    segment_out.vertex(0) = ray_origin")],
     "a ray in the plane of a disk starting inside it", "the reported segment extends behind the ray origin",
     '''int main() { acme::disk d(1, acme::point(0,0,0), acme::vec3(0,0,1)); acme::ray r(acme::point(0.5,0,0), acme::vec3(1,0,0)); acme::segment s; CHECK(acme::Intersection(r, d, s)); CHECK(near(s.length(), 0.5)); return 0; }''')
I = "toolbox/src/intersection.cc"; C = "toolbox/src/collection.cc"
seed("s22-probe-axle", "C08", [("src/rib.cc", "    // Sample flat ground\n    bool sampling = true;\n    sampling = sampling && this->samplingLine(ground, line_vec[0], point_vec[0], friction_vec[0]);\n    sampling = sampling && this->samplingLine(ground, line_vec[1], point_vec[1], friction_vec[1]);\n    sampling = sampling && this->samplingLine(ground, line_vec[2], point_vec[2], friction_vec[2]);\n    sampling = sampling && this->samplingLine(ground, line_vec[3], point_vec[3], friction_vec[3]);\n\n    // Compute output point and normal\n    out.point  = (point_vec[0] + point_vec[1] + point_vec[2] + point_vec[3]) / real(4.0);\n    out.normal = ((point_vec[0] - point_vec[1]).cross(point_vec[2] - point_vec[3])).normalized();\n    if (out.normal.z() < real(0.0))\n      {out.normal *= real(-1.0);}\n\n    // Compute contact pose\n    vec3 e_y = rotation.col(1).normalized();",
                                               "    // Sample flat ground\n    bool sampling = true;\n    sampling = sampling && this->samplingLine(ground, line_vec[0], point_vec[0], friction_vec[0]);\n    sampling = sampling && this->samplingLine(ground, line_vec[1], point_vec[1], friction_vec[1]);\n    sampling = sampling && this->samplingLine(ground, line_vec[2], point_vec[2], friction_vec[2]);\n    sampling = sampling && this->samplingLine(ground, line_vec[3], point_vec[3], friction_vec[3]);\n\n    // Compute output point and normal\n    out.point  = (point_vec[0] + point_vec[1] + point_vec[2] + point_vec[3]) / real(4.0);\n    out.normal = ((point_vec[0] - point_vec[1]).cross(point_vec[2] - point_vec[3])).normalized();\n    if (out.normal.z() < real(0.0))\n      {out.normal *= real(-1.0);}\n\n    // Compute contact pose\n    vec3 e_y = UNITY_VEC3;")],
     "sampling on a banked ground with a turned wheel", "the contact depth depends on the heading of the whole scene",
     '''int main() { auto run = [&](double a) { acme::vec3 n(std::sin(0.3) * std::cos(a), std::sin(0.3) * std::sin(a), std::cos(0.3)); enve::ground::flat g(1.0, acme::point(0,0,0), n);
    enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); double d = -1; if (s.setup(g, at(0, 0, 0.25, a), "sampling")) s.contactDepth(0, d); return d; };
  double a = run(0), b = run(1.2); CHECK(a > 0); CHECK(near(a, b, 1e-9)); return 0; }''', n=2)
seed("s23-plane-origin", "C23", [(I, "      real c1          = (d1 - dot * d0) * invDet;", "      real c1          = (d1 + dot * d0) * invDet;")],
     "two planes that are neither parallel nor orthogonal", "the reported line does not lie in the planes",
     '''int main() { acme::plane p(acme::point(0,0,1), acme::vec3(0,0,1)), q(acme::point(0,0,3), acme::vec3(1,0,1)); acme::line l; CHECK(acme::Intersection(p, q, l)); CHECK(p.isInside(l.origin(), 1e-9)); CHECK(q.isInside(l.origin(), 1e-9)); return 0; }''')
seed("s24-ray-behind", "C24", [(I, "      else if (ray_in.isInside(point_0, tolerance) && !ray_in.isInside(point_1, tolerance))\n      {\n        segment_out.vertex(0) = ray_in.origin();\n        segment_out.vertex(1) = point_0;", "      else if (ray_in.isInside(point_0, tolerance) && !ray_in.isInside(point_1, tolerance))\n      {\n        segment_out.vertex(0) = point_1;\n        segment_out.vertex(1) = point_0;")],
     "a ray starting inside a collinear segment and heading for its first vertex", "the shared part includes the piece behind the ray",
     '''int main() { acme::ray r(acme::point(0.5,0,0), acme::vec3(-1,0,0)); acme::segment s(acme::point(0,0,0), acme::point(1,0,0)), o; CHECK(acme::Intersection(r, s, o)); CHECK(near(o.length(), 0.5)); return 0; }''')
seed("s25-swapped-args", "C25", [(I, "      case 807:\n        entity_out = new segment();", "      case 807:\n        entity_out = new none();")],
     "a disk against a triangle through the generic form, in this order", "the generic intersection writes through a null pointer",
     '''int main() { acme::disk d(1, acme::point(0,0,0), acme::vec3(0,0,1)); acme::triangle t(acme::point(-3,0,-1), acme::point(3,0,-1), acme::point(0,0,4)); acme::entity * e = acme::Intersection(static_cast<acme::entity const *>(&d), static_cast<acme::entity const *>(&t), 1e-6); CHECK(e->isSegment()); return 0; }''')
seed("s26-offset-triangle", "C26", [("toolbox/src/coplanar.cc", "    return IsCoplanar(plane_in, triangle_in.layingPlane(), tolerance);", "    return IsParallel(plane_in, triangle_in.layingPlane(), tolerance);")],
     "a triangle parallel to a plane but away from it", "triangles beside a plane count as lying in it",
     '''int main() { acme::plane p(acme::point(0,0,0), acme::vec3(0,0,1)); acme::triangle s(acme::point(0,0,1), acme::point(1,0,1), acme::point(0,1,1)), u(acme::point(0,0,0), acme::point(1,0,0), acme::point(0,1,0)); CHECK(!acme::IsCoplanar(p, s)); CHECK(acme::IsCoplanar(p, u)); return 0; }''')
seed("s27-barycentric", "C27", [("toolbox/src/triangle.cc", "        v >= real(0.0) - tolerance && v <= real(1.0) + tolerance &&\n        w >= real(0.0) - tolerance && w <= real(1.0) + tolerance)", "        v >= real(0.0) - tolerance && w <= real(1.0) + tolerance)")],
     "a point beyond the side opposite to the last vertex but within the other bounds", "points outside the triangle count as inside",
     '''int main() { acme::triangle t(acme::point(0,0,0), acme::point(1,0,0), acme::point(0,1,0)); CHECK(!t.isInside(acme::point(0.5,-0.2,0))); CHECK(t.isInside(acme::point(0.2,0.2,0))); return 0; }''')
seed("s28-disk-normal", "C28", [("toolbox/src/disk.cc", "    this->m_plane.transform(affine_in);", "    this->m_plane.origin().transform(affine_in);")],
     "a disk rotated out of its plane", "the disk keeps its old orientation when transformed",
     '''int main() { acme::disk d(1, acme::point(1,0,0), acme::vec3(0,0,1)); acme::affine a = at(0, 0, 0, 0, 1.0); d.transform(a); CHECK((d.normal() - a.linear() * acme::vec3(0,0,1)).norm() < 1e-9); return 0; }''')
seed("s29-pairs-diagonal", "C29", [(C, "[] (entity::ptr & entity) {return entity->isDisk();}", "[] (entity::ptr & entity) {return entity->isDisk() && !entity->isDegenerated();}")],
     "removing disks from a collection that holds one of zero radius", "a degenerate disk survives the removal of the disks",
     '''int main() { acme::collection c; c.push_back(std::make_shared<acme::disk>(0.0, acme::point(0,0,0), acme::vec3(0,0,1))); c.push_back(std::make_shared<acme::disk>(1.0, acme::point(0,0,0), acme::vec3(0,0,1))); c.removeDisk(); CHECK(c.countDisk() == 0); CHECK(c.size() == 0); return 0; }''')
R = "src/rib.cc"; H = "src/shell.cc"; M = "src/mesh.cc"; F = "sfun/src_sfun/enve_sfun_interface.cc"
seed("s30-first-friction", "C07", [(R, "        contact_friction_tmp = ground[i]->friction();", "        contact_friction_tmp = ground[0]->friction();")],
     "a rib across triangles of different friction", "the friction of the first candidate is used for all",
     '''int main() { TG::vecptr a = quad(-1, 0, -1, 1, 0, 1), b = quad(0, 1, -1, 1, 0, 0.5, 2); a.insert(a.end(), b.begin(), b.end()); enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::mesh m(a);
  CHECK(s.setup(m, at(0,0.013,0.25), "geometric")); double f; s.contactFriction(0, f); CHECK(near(f, 0.75, 1e-6)); return 0; }''')
seed("s31-third-vertex", "C10", [(H, "      d2 = mid_plane.signedDistance(local_ground[i]->vertex(2));", "      d2 = mid_plane.signedDistance(local_ground[i]->vertex(1));")],
     "more than three local triangles, one of which reaches a rib only with its third vertex", "ribs miss triangles that they touch",
     '''int main() { TG::vecptr a = {tg(0, 1, acme::point(-1,-3,0), acme::point(1,-3,0), acme::point(0,3,0))}; for (int i = 1; i < 5; ++i) a.push_back(tg(i, 1, acme::point(-1,-3,-0.03), acme::point(1,-3,-0.03), acme::point(0,3,-0.03)));
  enve::shell s(3, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::mesh m(a); CHECK(s.setup(m, at(0.01,0,0.25), "geometric")); double v; for (int i = 0; i < 3; ++i) { s.contactVolume(i, v); CHECK(v > 0); } return 0; }''')
seed("s32-last-rib", "C11", [(H, "        {out = this->m_ribs[i].envelop(this->m_candidates[i], pose, method, this->m_out[i]) || out;}", "        {out = this->m_ribs[i].envelop(this->m_candidates[i], pose, method, this->m_out[i]);}")],
     "a wheel partly over the edge of the mesh on its last-rib side", "the return flag is that of the last rib only",
     '''int main() { enve::shell s(4, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::mesh m(quad(-1, 1, -1, 0.01, 0, 1)); bool r = s.setup(m, at(0,0,0.25), "geometric"); double v; s.contactVolume(v); CHECK(v > 0); CHECK(r); return 0; }''')
seed("s33-angle-list", "C16", [(H, "      {this->relativeAngles(i, angles[i]);}", "      {this->relativeAngles(angles[i]);}")],
     "the list form of the relative angles of a curved wheel", "the list repeats the angles of the whole wheel",
     '''int main() { enve::shell s(3, 0.3, 2.0, 0.2, 4.0, 0.15); enve::ground::flat g(1.0, acme::point(0,0,0), acme::vec3(0,0,1)); CHECK(s.setup(g, at(0,0,0.25), "geometric")); std::vector<acme::vec3> l; s.relativeAngles(l); CHECK(l.size() == 3); for (int i = 0; i < 3; ++i) { acme::vec3 a; s.relativeAngles(i, a); CHECK((a - l[i]).norm() < 1e-12); } return 0; }''')
seed("s34-idle-rib", "C17", [(H, "        {this->m_ribs[i].envelop(pose, this->m_out[i]);}", "        {this->m_ribs[0].envelop(pose, this->m_out[i]);}")],
     "a wheel with several ribs away from the mesh", "idle ribs report the bottom of the first rib",
     '''int main() { enve::shell s(3, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::mesh m(quad(-1, 1, -1, 1, 0, 1)); CHECK(!s.setup(m, at(0,0,5), "geometric")); for (int i = 0; i < 3; ++i) { acme::point p; s.contactPoint(i, p); CHECK((p - acme::point(0, s.ribCenter(i).y(), 5 - s.ribRadius(i))).norm() < 1e-9); } return 0; }''')
seed("s35-slot-stride", "C18", [(F, "    for (int i = 0; i < ENVE_MAX_RIBS; ++i)", "    for (int i = 0; i < (size < ENVE_MAX_RIBS ? size + 1 : size); ++i)")],
     "a step after which unused slots of the bus are read", "slots beyond the rib count keep what they held",
     '''int main() { { std::ofstream f("a.rdf"); f << "[NODES]\\n0 -1 -1 0\\n1 1 -1 0\\n2 1 1 0\\n[ELEMENTS]\\n0 1 2 1.0\\n"; } setenv("ENVE_GROUND_PATH", "a.rdf", 1);
  double n = 3, rx = 0.3, mx = 2, ry = 0.2, my = 4, ly = 0.1, h = 0, fr = 0.5; enve_sfun_init(&n, &rx, &mx, &ry, &my, &ly, &h, &fr);
  static EnveInputBus in; static EnveOutputBus out; double me = 0, fl = 1; acme::affine a = at(0, 0, 0.25); for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) in.HubAffine[r + 4 * c] = a.matrix()(r, c);
  enve_sfun_out(&in, &out, &me, &fl); CHECK(out.RibsRho[2] > 0); CHECK(std::isnan(out.RibsRho[3])); CHECK(std::isnan(out.RibsRho[ENVE_MAX_RIBS - 1])); return 0; }''')
seed("s36-half-sum", "C22", [(I, "    if (v < real(0.0) - tolerance || u + v > real(1.0) + tolerance)\n      {return false;}\n    real t = f * edge2.dot(q);\n    if (t >= real(0.0) - tolerance && t <= real(1.0) + tolerance)", "    if (v < real(0.0) - tolerance || v > real(1.0) + tolerance)\n      {return false;}\n    real t = f * edge2.dot(q);\n    if (t >= real(0.0) - tolerance && t <= real(1.0) + tolerance)")],
     "a segment crossing the plane of a triangle beyond its hypotenuse", "points outside the triangle are reported as intersections",
     '''int main() { acme::triangle t(acme::point(0,0,0), acme::point(1,0,0), acme::point(0,1,0)); acme::point p; CHECK(!acme::Intersection(acme::segment(acme::point(0.8,0.8,-1), acme::point(0.8,0.8,1)), t, p)); CHECK(acme::Intersection(acme::segment(acme::point(0.2,0.2,-1), acme::point(0.2,0.2,1)), t, p)); return 0; }''')
seed("s37-leaf-order", "C20", [("toolbox/src/AABBtree.cc", "        tree.intersection(**it, intersection_list, !swap_tree);", "        tree.intersection(**it, intersection_list, swap_tree);")],
     "a tree of several boxes against a tree of one box", "the boxes of the pair are exchanged",
     '''int main() { acme::aabb::vecptr b, q; for (int i = 0; i < 3; ++i) b.push_back(std::make_shared<acme::aabb const>(acme::point(i * 3, 0, 0), acme::point(i * 3 + 1, 1, 1), i)); q.push_back(std::make_shared<acme::aabb const>(acme::point(0, 0, 0), acme::point(9, 1, 1), 77));
  acme::AABBtree t, u; t.build(b); u.build(q); acme::aabb::vecpairptr l; t.intersection(u, l); CHECK(l.size() == 3); for (auto const & p : l) CHECK(p.second->id() == 77); return 0; }''')
seed("s38-fourth-probe", "C09", [(R, "      out.friction = (friction_vec[0] + friction_vec[1] + friction_vec[2] + friction_vec[3]) / real(4.0);", "      out.friction = (friction_vec[0] + friction_vec[1] + friction_vec[2] + friction_vec[2]) / real(4.0);")],
     "sampling where the fourth probe meets another friction than the third", "the friction of the fourth probe is ignored",
     '''int main() { TG::vecptr a = quad(-1, 1, -1, 0, 0, 1), b = quad(-1, 1, 0, 1, 0, 0.6, 2); a.insert(a.end(), b.begin(), b.end()); enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::mesh m(a); double f;
  CHECK(s.setup(m, at(0,-0.01,0.25), "sampling")); s.contactFriction(0, f); CHECK(near(f, (1 + 1 + 1 + 0.6) / 4, 1e-9)); return 0; }''', n=2)
seed("s39-derivative-tip", "C14", [("src/shape.cc", "    if (y_abs > tolerance)", "    if (y_abs > real(1.0e-3) * this->m_r_y)")],
     "the slope close to the middle of a profile of low degree", "the slope is zero in a band around the middle",
     '''int main() { enve::shape s(0.3, 2.0, 0.2, 1.0, 0.1); double d = s.surfaceDerivative(1e-4); CHECK(d < -0.1); return 0; }''')
seed("s40-extra-values", "C03", [(M, "          ENVE_ASSERT(s_node.size() == size_t(4),\n            CMD \"wrong numbder of elements detected.\");", "          ENVE_ASSERT(s_node.size() >= size_t(4),\n            CMD \"wrong numbder of elements detected.\");")],
     "an element line with more than four values", "an element that is no triangle loads as one",
     '''int main() { { std::ofstream f("a.rdf"); f << "[NODES]\\n0 0 0 0\\n1 1 0 0\\n2 0 1 0\\n3 1 1 0\\n[ELEMENTS]\\n0 1 2 3 1.0\\n"; } acme::affine a = at(0,0,0); bool thrown = false; try { enve::ground::mesh m("a.rdf", a); } catch (...) { thrown = true; } CHECK(thrown); return 0; }''')
seed("s41-negative-index", "C04", [(M, "          i_element[1] = std::stoi(s_node[1]) - 1;", "          i_element[1] = std::abs(std::stoi(s_node[1])) - 1;")],
     "a face whose second index is negative", "a face with a wrong index is loaded with another vertex instead of being rejected",
     '''int main() { { std::ofstream f("a.obj"); f << "v 0 0 0\\nv 1 0 0\\nv 0 1 0\\nf 1 -2 3\\n"; } acme::affine a = at(0,0,0); bool thrown = false; try { enve::ground::mesh m("a.obj", 1.0, a); } catch (...) { thrown = true; } CHECK(thrown); return 0; }''')
S = "src/shape.cc"; T = "src/triangleground.cc"; X = "toolbox/src_mex/"
seed("s42-same-id", "C01", [(M, "        triangles.emplace_back(\n          this->ptrTriangleground((intersection_list[i].first)->id())\n          );", "        triangleground::ptr ptr = this->ptrTriangleground((intersection_list[i].first)->id());\n        if (known.insert(std::make_pair(ptr->id(), true)).second)\n          {triangles.emplace_back(ptr);}"),
      (M, "      for (size_t i = 0; i < intersection_list.size(); ++i)\n", "      std::map<integer, bool> known;\n      for (size_t i = 0; i < intersection_list.size(); ++i)\n")],
     "triangles given with equal ids (two meshes joined into one)", "only the first of several triangles with one id is returned",
     '''int main() { TG::vecptr a = quad(-1, 1, -1, 1, 0, 1), b = quad(-1, 1, -1, 1, 0.1, 0.5); a.insert(a.end(), b.begin(), b.end()); enve::ground::mesh m(a); TG::vecptr out;
  CHECK(m.intersection(std::make_shared<acme::aabb const>(acme::point(-1, -1, -1), acme::point(1, 1, 1), 0), out)); CHECK(out.size() == 4); return 0; }''')
seed("s43-kept-boxes", "C02", [(M, "      this->m_bboxes.clear();\n      for (size_t i = 0; i < this->m_triangles.size(); ++i)", "      if (this->m_bboxes.size() > this->m_triangles.size())\n        {this->m_bboxes.resize(this->m_triangles.size());}\n      for (size_t i = this->m_bboxes.size(); i < this->m_triangles.size(); ++i)")],
     "replacing the triangles of a mesh that held others", "the boxes of the former triangles stay in the tree",
     '''int main() { enve::ground::mesh a(quad(0, 1, 0, 1, 0, 1)), b(quad(10, 11, 10, 11, 0, 1)); a.copy(b); TG::vecptr out;
  CHECK(a.intersection(std::make_shared<acme::aabb const>(acme::point(10, 10, -1), acme::point(11, 11, 1), 0), out)); CHECK(out.size() == 2); return 0; }''')
seed("s44-flip-eps", "C05", [(T, "    if (this->m_normal.z() < real(0.0))\n      {this->m_normal *= real(-1.0);}", "    if (this->m_normal.z() < -EPSILON_ENVE)\n      {this->m_normal *= real(-1.0);}")],
     "a face that is a tiny bit past vertical", "the normal of a nearly vertical overhanging face points down",
     '''int main() { TG t(0, 1, acme::point(0,0,0), acme::point(1,0,0), acme::point(0,4e-10,-1)); CHECK(t.normal().z() >= 0); TG u(0, 1, acme::point(0,0,0), acme::point(1,0,0), acme::point(0,-4e-10,-1)); CHECK(u.normal().z() >= 0); return 0; }''')
seed("s45-flat-order", "C06", [(R, "      out.friction = ground.friction();\n", "      out.friction = std::min(real(1.0), ground.friction());\n")],
     "a flat ground with a friction factor above one", "the friction of a flat ground is cut at one",
     '''int main() { enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); enve::ground::flat g(1.4, acme::point(0,0,0), acme::vec3(0,0,1)); CHECK(s.setup(g, at(0,0,0.25), "geometric")); double f; s.contactFriction(0, f); CHECK(near(f, 1.4)); return 0; }''')
seed("s46-angle-band", "C13", [(H, "      ribA  = this->m_shape->surfaceAngle(ribY);", "      ribA  = this->m_shape->surfaceAngle(ribY, real(0.1) * shellWidth);")],
     "a rib close to but not in the middle of a pointed profile", "ribs close to the middle are upright",
     '''int main() { enve::shell s(12, 0.3, 2.0, 0.2, 1.2, 0.1); for (int i = 0; i < 12; ++i) CHECK(near(s.ribAngle(i), s.surfaceAngle(s.ribCenter(i).y()), 1e-12)); return 0; }''')
seed("s47-same-pose", "C15", [(H, "    this->m_affine = pose;", "    if (!this->m_affine.isApprox(pose, real(1.0e-6)))\n      {this->m_affine = pose;}")],
     "a wheel far from the origin turned or moved by a small amount", "a pose close to the current one, relative to its distance from the origin, is dropped",
     '''int main() { enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); s.transform(at(20000, 0, 0)); acme::affine p = at(20000, 0, 0.005, 0.004); s.transform(p); CHECK(s.transformation().matrix() == p.matrix()); return 0; }''')
seed("s48-static-probe", "C19", [(R, "    // Build sampling lines\n    line_vec[0] = line(origin + rotation * (center + delta_x * UNITX_VEC3), -UNITZ_VEC3);\n    line_vec[1] = line(origin + rotation * (center - delta_x * UNITX_VEC3), -UNITZ_VEC3);\n    line_vec[2] = line(origin + rotation * (center + delta_y * UNITY_VEC3), -UNITZ_VEC3);\n    line_vec[3] = line(origin + rotation * (center - delta_y * UNITY_VEC3), -UNITZ_VEC3);\n\n    // Sample flat ground\n    bool sampling = true;\n    sampling = sampling && this->samplingLine(ground, line_vec[0], point_vec[0], friction_vec[0]);", "    // Build sampling lines\n    static vec3 last_direction(ZEROS_VEC3);\n    last_direction = -UNITZ_VEC3;\n    line_vec[0] = line(origin + rotation * (center + delta_x * UNITX_VEC3), -UNITZ_VEC3);\n    line_vec[1] = line(origin + rotation * (center - delta_x * UNITX_VEC3), -UNITZ_VEC3);\n    line_vec[2] = line(origin + rotation * (center + delta_y * UNITY_VEC3), -UNITZ_VEC3);\n    line_vec[3] = line(origin + rotation * (center - delta_y * UNITY_VEC3), last_direction);\n    last_direction = ZEROS_VEC3;\n\n    // Sample flat ground\n    bool sampling = true;\n    sampling = sampling && this->samplingLine(ground, line_vec[0], point_vec[0], friction_vec[0]);")],
     "two threads sampling at the same time", "concurrent samplings share the direction of a probe",
     '''#include <thread>
#include <atomic>
int main() { enve::ground::mesh m(quad(-1, 1, -1, 1, 0, 1)); enve::ground::flat g(1.0, acme::point(0,0,0), acme::vec3(0,0,1)); std::atomic<int> bad(0);
  auto work = [&](bool flat) { enve::shell s(8, 0.3, 2.0, 0.2, 4.0, 0.1); for (int k = 0; k < 20000 && !bad; ++k) { if (!(flat ? s.setup(g, at(0,0,0.25), "sampling") : s.setup(m, at(0,0,0.25), "sampling"))) ++bad; double d; for (int i = 0; i < 8; ++i) { s.contactDepth(i, d); if (!(d > 0)) ++bad; } } };
  std::thread a(work, true), b(work, true), c(work, false), d(work, true); a.join(); b.join(); c.join(); d.join(); CHECK(bad == 0); return 0; }''', n=2)
seed("s49-merge-zero", "C21", [("toolbox/src/aabb.cc", "        if (cur_box.m_max.z() > this->m_max.z())\n          {this->m_max.z() = cur_box.m_max.z();}", "        else if (cur_box.m_max.z() > this->m_max.z())\n          {this->m_max.z() = cur_box.m_max.z();}")],
     "a box that widens both the x and the z range of the merged ones", "the merged box misses the top of a box",
     '''int main() { acme::aabb::vecptr b; b.push_back(std::make_shared<acme::aabb const>(acme::point(0,0,0), acme::point(1,1,1), 0)); b.push_back(std::make_shared<acme::aabb const>(acme::point(0,0,0), acme::point(2,2,2), 1)); acme::aabb m(b, 0, 0); CHECK(m.max(2) == 2); CHECK(m.max(0) == 2); return 0; }''')
seed("s50-stale-chord", "C23", [(I, "      segment tmp_segment0, tmp_segment1;", "      static segment tmp_segment0, tmp_segment1;")],
     "a pair of triangles (or disks) that do not meet, after a pair that does", "the chord of an earlier pair is reported",
     '''int main() { acme::triangle a(acme::point(-1,-1,0), acme::point(1,-1,0), acme::point(0,1,0)), b(acme::point(0,-0.5,-1), acme::point(0,0.5,-1), acme::point(0,0,1)), c(acme::point(0,-0.5,5), acme::point(0,0.5,5), acme::point(0,0,7)); acme::segment s;
  CHECK(acme::Intersection(a, b, s, 1e-8)); CHECK(!acme::Intersection(a, c, s, 1e-8)); return 0; }''', n=2)
seed("s51-plane-offset", "C26", [("toolbox/src/coplanar.cc", "           IsApprox(plane0_in.signedDistance(plane1_in.origin()), real(0.0), tolerance);", "           IsApprox(plane0_in.d(), plane1_in.d(), tolerance);")],
     "planes with opposite normals or normals of different length", "the same plane given with the opposite normal does not count as coplanar",
     '''int main() { acme::plane p(acme::point(0,0,1), acme::vec3(0,0,1)), q(acme::point(3,2,1), acme::vec3(0,0,-1)), r(acme::point(3,2,1), acme::vec3(0,0,2)), o(acme::point(0,0,-1), acme::vec3(0,0,-1)); CHECK(acme::IsCoplanar(p, q)); CHECK(acme::IsCoplanar(p, r)); CHECK(!acme::IsCoplanar(p, o)); return 0; }''')
seed("s59-inside-start", "C24", [(I, "      t0 = std::max(t0, real(0.0));\n", "")],
     "a segment that starts inside a ball", "the reported chord begins before the segment",
     '''int main() { acme::segment s(acme::point(0,0,0), acme::point(5,0,0)), o; acme::ball b(1, acme::point(0,0,0)); CHECK(acme::Intersection(s, b, o)); CHECK(near(o.length(), 1)); return 0; }''', n=2)
seed("s60-no-tolerance", "C25", [(I, "      case 604:\n        entity_out = new segment();\n        collide    = Intersection(\n          *dynamic_cast<ray const *>(entity1_in),\n          *dynamic_cast<segment const *>(entity0_in),\n          *dynamic_cast<segment *>(entity_out),\n          tolerance);", "      case 604:\n        entity_out = new segment();\n        collide    = Intersection(\n          static_cast<line const &>(line(dynamic_cast<ray const *>(entity1_in)->origin(), dynamic_cast<ray const *>(entity1_in)->direction())),\n          *dynamic_cast<segment const *>(entity0_in),\n          *dynamic_cast<segment *>(entity_out),\n          tolerance);")],
     "a segment with a ray on the same line, in this order", "the part of the segment behind the ray is reported too",
     '''int main() { acme::ray r(acme::point(0.5,0,0), acme::vec3(1,0,0)); acme::segment s(acme::point(0,0,0), acme::point(1,0,0)); acme::entity * e = acme::Intersection(static_cast<acme::entity const *>(&s), static_cast<acme::entity const *>(&r), 1e-6); CHECK(e->isSegment()); CHECK(near(dynamic_cast<acme::segment *>(e)->length(), 0.5)); return 0; }''')
seed("s61-small-move", "C29", [(C, "      this->m_entities[i]->translate(input);", "      if (!input.isZero(real(1.0e-4)))\n        {this->m_entities[i]->translate(input);}")],
     "moving a collection in many tiny steps", "tiny translations of a collection are dropped",
     '''int main() { acme::collection c; auto p = std::make_shared<acme::point>(0, 0, 0); c.push_back(p); for (int i = 0; i < 100; ++i) c.translate(acme::vec3(5e-5, 0, 0)); CHECK(near((*p).x(), 5e-3)); return 0; }''')
seed("s62-still-wheel", "C12", [(H, "    this->transform(pose);\n    this->updateBBox();\n", "    bool still = (this->translation() - pose.translation()).norm() < real(1.0e-3) * this->m_shape->surfaceMaxRadius();\n    this->transform(pose);\n    if (!still)\n      {this->updateBBox();}\n")],
     "a wheel set again after moving less than a thousandth of its radius, several times, or turned on the spot", "the bounding box of the wheel lags behind its pose",
     '''int main() { TG::vecptr a = quad(-1, 1, -1, 1, 0, 1); enve::ground::mesh m(a); enve::shell s(1, 0.3, 2.0, 0.2, 4.0, 0.1); bool hit = false; for (int i = 0; i < 400; ++i) hit = s.setup(m, at(0, 0, 0.35 - 0.00025 * i), "geometric"); enve::shell q(1, 0.3, 2.0, 0.2, 4.0, 0.1); CHECK(q.setup(m, at(0, 0, 0.35 - 0.00025 * 399), "geometric")); CHECK(hit); return 0; }''', n=2)
seed("s52-perimeter", "C27", [("toolbox/src/disk.cc", "           (this->m_plane.origin() - point_in).norm() <= this->m_radius;", "           (this->m_plane.origin() - point_in).norm() <= this->m_radius + tolerance * real(1.0e6);")],
     "a point in the plane of a disk beyond its rim", "points beyond the rim count as inside", '''int main() { acme::disk d(1, acme::point(0,0,0), acme::vec3(0,0,1)); CHECK(!d.isInside(acme::point(1.001, 0, 0), 1e-6)); CHECK(d.isInside(acme::point(0.5, 0, 0), 1e-6)); return 0; }''')
seed("s53-third-move", "C28", [("toolbox/src/triangle.cc", "    this->m_vertex[2] = vector_in + this->m_vertex[2];", "    if (!(vector_in + this->m_vertex[2]).isApprox(this->m_vertex[0]))\n      {this->m_vertex[2] = vector_in + this->m_vertex[2];}")],
     "translating a triangle whose first and last vertex coincide", "one vertex of a degenerated triangle is left behind",
     '''int main() { acme::triangle t(acme::point(0,0,0), acme::point(1,0,0), acme::point(0,0,0)); t.translate(acme::vec3(1,2,3)); CHECK((t.vertex(2) - acme::point(1,2,3)).norm() < 1e-12); return 0; }''')
seed("s54-rib-angle", "C32", [(R, "    this->m_angle = rib_obj.m_angle;\n", "")],
     "copying a rib over another one", "the copy keeps its former angle",
     '''int main() { enve::rib a(0, 0.3, 0.1, 0.02, 0.1), b(1, 0.3, 0.1, 0.02, 0.4); a.copy(b); CHECK(a.angle() == 0.4); CHECK(a.isApprox(b)); return 0; }''')
seed("s55-shape-ly", "C32", [(S, "           IsApprox(this->m_l_y, shape_obj.m_l_y, tolerance);", "           IsApprox(this->surfaceMaxRadius(), shape_obj.surfaceMaxRadius(), tolerance);")],
     "two shapes that differ in their half width only", "shapes of different widths count as approximately equal",
     '''int main() { enve::shape a(0.3, 2.0, 0.2, 4.0, 0.1), b(0.3, 2.0, 0.2, 4.0, 0.15); CHECK(!a.isApprox(b, 1e-6)); CHECK(a.isApprox(a, 1e-6)); return 0; }''')
seed("s56-print-v2", "C33", [(M, "        point          const & V2 = Ti.triangle::vertex(2);", "        point          const & V2 = (*this->m_triangles[0]).triangle::vertex(2);")],
     "the report of a mesh of several triangles", "the third vertex in the mesh report is that of the first triangle",
     '''int main() { enve::ground::mesh m(quad(0, 1, 0, 1, 0, 1)); m.print(std::string("o.txt")); std::ifstream f("o.txt"); std::stringstream b; b << f.rdbuf(); std::string s = b.str(); size_t p = s.find("T  = 1"); CHECK(p != std::string::npos); p = s.find("V2 = ", p); CHECK(p != std::string::npos);
  double x, y, z; std::string u = s.substr(p + 5, s.find('N', p) - p - 5); for (char & k : u) if (!std::strchr("0123456789.-+e", k)) k = ' '; std::istringstream in(u); CHECK(bool(in >> x >> y >> z)); CHECK(near(x, 0) && near(y, 1)); return 0; }''')
seed("s57-int16", "C30", [(X + "mex_utils.hh", "      case mxINT16_CLASS:  res = *static_cast<int16_t*>(ptr);  break;", "      case mxINT16_CLASS:  res = *static_cast<int8_t*>(ptr);  break;")],
     "a rib count or index given as int16 above 127", "16-bit integers lose their upper byte",
     '''int main() { std::vector<mxArray const *> in = {mx::str("new"), mx::num(3), mx::num(0.3), mx::num(2), mx::num(0.2), mx::num(4), mx::num(0.1)}; mxArray * out[8] = {}; mexFunction_shell(1, out, 7, in.data()); uint64_t h = *(uint64_t *)mxGetData(out[0]);
  in = {mx::str("resize"), mx::handle(h), mx::num(130, mxINT16_CLASS)}; try { mexFunction_shell(0, out, 3, in.data()); } catch (MexError const & e) { std::printf("%s\\n", e.msg.c_str()); return 1; } catch (std::exception const & e) { std::printf("%s\\n", e.what()); return 1; }
  in = {mx::str("size"), mx::handle(h)}; mexFunction_shell(1, out, 2, in.data()); CHECK(mxGetScalar(out[0]) == 130); return 0; }''', mex=True)
seed("s58-avg-affine", "C30", [(X + "mex_shell.cc", "  self->contactPointAffine(outmat);", "  self->contactPointAffine(0, outmat);")],
     "the frame of the whole contact of a wheel with several ribs", "the frame of the first rib is returned",
     '''int main() { std::vector<mxArray const *> in = {mx::str("new"), mx::num(4), mx::num(0.3), mx::num(2), mx::num(0.2), mx::num(4), mx::num(0.1)}; mxArray * out[8] = {}; mexFunction_shell(1, out, 7, in.data()); uint64_t h = *(uint64_t *)mxGetData(out[0]);
  in = {mx::str("new"), mx::num(1), mx::mat(3, 1, {0,0,0}), mx::mat(3, 1, {0,0,1})}; mexFunction_flat(1, out, 4, in.data()); uint64_t g = *(uint64_t *)mxGetData(out[0]);
  in = {mx::str("setupFlat"), mx::handle(h), mx::handle(g), mx::mat(4, 4, {1,0,0,0, 0,1,0,0, 0,0,1,0, 0,0,0.25,1}), mx::str("geometric")}; mexFunction_shell(1, out, 5, in.data());
  in = {mx::str("contactPointAffineAvg"), mx::handle(h)}; mexFunction_shell(1, out, 2, in.data()); double * p = mxGetPr(out[0]); CHECK(std::abs(p[13]) < 1e-9); return 0; }''', mex=True)
seed("s63-plane-cap", "C34", [("toolbox/src/plane.cc", "    return this->distance(point_in) < tolerance;", "    return this->distance(point_in) < std::min(tolerance, real(1.0e-6));")],
     "a containment test with a tolerance above 1e-6 and a point between 1e-6 and the tolerance off the plane", "planes ignore coarse tolerances",
     '''int main() { acme::plane p(0, 0, 0, 0, 0, 1); CHECK(p.isInside(acme::point(3, 2, 0), 1e-3)); CHECK(p.isInside(acme::point(3, 2, 1e-5), 1e-3)); CHECK(p.isInside(acme::point(3, 2, 1e-7), 1e-3)); CHECK(!p.isInside(acme::point(3, 2, 0.1), 1e-3)); CHECK(!p.isInside(acme::point(3, 2, 1e-5), 1e-8)); return 0; }''')
seed("s64-line-ray-default", "C34", [("toolbox/src/orthogonal.cc", "    return IsOrthogonal(line_in.direction(), ray_in.direction(), tolerance);", "    return IsOrthogonal(line_in.direction(), ray_in.direction());")],
     "a line and a ray a little off the right angle, tested with a tolerance of one's own", "the orthogonality of lines and rays is always tested at the default tolerance",
     '''int main() { acme::line l(0, 0, 0, 1, 0, 0); acme::ray r(1, 1, 1, 1e-5, 1, 0), e(1, 1, 1, 0, 1, 0); CHECK(acme::IsOrthogonal(l, e, 1e-3)); CHECK(acme::IsOrthogonal(l, r, 1e-3)); CHECK(!acme::IsOrthogonal(l, r, 1e-7)); return 0; }''')
seed("s65-segment-length", "C34", [("toolbox/src/segment.cc", "    return std::abs(d0 - d1 - d2) <= tolerance;", "    return std::abs(d0 - d1 - d2) <= tolerance * std::max(real(1.0), d0);")],
     "a segment longer than a metre and a point slightly more than the tolerance beyond its end", "the tolerance grows with the length of the segment",
     '''int main() { acme::segment s(acme::point(0, 0, 0), acme::point(500, 0, 0)), u(acme::point(0, 0, 0), acme::point(1, 0, 0)); CHECK(s.isInside(acme::point(250, 0, 0), 1e-4)); CHECK(!u.isInside(acme::point(1.001, 0, 0), 1e-4)); CHECK(!s.isInside(acme::point(500.001, 0, 0), 1e-4)); return 0; }''')
seed("s66-ray-leak", "C35", [(I, "          *dynamic_cast<ray const *>(entity1_in),\n          *dynamic_cast<ray *>(entity_out),\n          tolerance);\n        if (!collide)\n          {delete entity_out;}\n        else\n          {break;}\n", "          *dynamic_cast<ray const *>(entity1_in),\n          *dynamic_cast<ray *>(entity_out),\n          tolerance);\n        if (collide)\n          {break;}\n")],
     "the generic intersection of two rays with no common ray", "the ray made for the result is never released",
     '''#include <malloc.h>
static void f() { acme::ray a(0, 0, 0, 1, 0, 0), b(2, 0, 0, -1, 0, 0), c(0, 5, 0, 0, 0, 1); for (int i = 0; i < 20000; ++i) { delete acme::Intersection(&a, &b); delete acme::Intersection(&a, &a); delete acme::Intersection(&a, &c); } }
int main() { f(); size_t x = mallinfo2().uordblks; f(); CHECK(mallinfo2().uordblks < x + 100000); return 0; }''')
seed("s67-kept-query", "C35", [(M, "      AABBtree::ptr ptrAABBtree = std::make_shared<AABBtree>();\n", "      // Reuse the tree of a box queried before\n      static thread_local std::map<aabb::ptr, AABBtree::ptr> queries;\n      AABBtree::ptr & ptrAABBtree = queries[box];\n      if (!ptrAABBtree)\n        {ptrAABBtree = std::make_shared<AABBtree>();}\n")],
     "queries of a mesh with many different boxes", "every box ever queried is kept together with a tree of its own",
     """#include <malloc.h>
static void f() { enve::ground::mesh m(quad(0, 1, 0, 1, 0, 1)); for (int i = 0; i < 20000; ++i) { TG::vecptr out; m.intersection(std::make_shared<acme::aabb const>(acme::point(0.5, 0, -1), acme::point(2, 1, 1), i), out); } }
int main() { f(); size_t x = mallinfo2().uordblks; f(); CHECK(mallinfo2().uordblks < x + 100000); return 0; }""")
