#include <TQMeshConfig.h>
#include "STLHeaders.h"
#include "CppUtils.h"
#include "MeshGenerator.h"
#include "MeshChecker.h"
using namespace CppUtils; using namespace TQMesh;
namespace tqv {
/* forces clang to instantiate the function templates under contract */
template <std::size_t N> inline double usev(VecND<double,N> a, VecND<double,N> b, double s)
{
  VecND<double,N> c = a+b; c = a-b; c = a*b; c = a/b; c = a+s; c = s+a; c = a-s; c = s-a;
  c = a*s; c = s*a; c = a/s; c = s/a; c += a; c -= a; c *= a; c /= a; c += s; c -= s; c *= s; c /= s;
  c = -a;
  bool e = (a == b) || (a != b) || a.is_zero();
  return dot(a,b) + a.dot(b) + a.norm() + a.norm_sqr() + angle(a,b) + a.angle(b)
       + a.min() + a.max() + a.sum() + a.product() + (e ? 1.0 : 0.0);
}
inline bool use(Vec2d a, Vec2d b, std::vector<Vec2d> v)
{
  double d = usev<2>(a,b,1.0) + cross(a,b) + a.cross(b) + distance_point_edge_sqr(a,b,a);
  Vec3d p, q; d += usev<3>(p,q,1.0) + cross(p,q).x + p.cross(q).x;
  d += polygon_area(v) + bbox_min(a,b).x + bbox_max(a,b).x;
  bool r = segment_overlap(a,b,a,b) || in_on_segment(a,b,a) || in_segment(a,b,a)
        || orientation(a,b,a)==Orientation::CL || is_left(a,b,a) || is_lefton(a,b,a)
        || line_line_crossing(a,b,a,b) || line_line_intersection(a,b,a,b)
        || line_tri_intersection(a,b,a,b,a) || line_tri_crossing(a,b,a,b,a)
        || line_quad_intersection(a,b,a,b,a,b) || tri_tri_intersection(a,b,a,a,b,a)
        || quad_quad_intersection(a,b,a,b,a,b,a,b) || tri_quad_intersection(a,b,a,a,b,a,b)
        || rect_overlap(a,b,a,b) || in_on_rect(a,b,a) || in_rect(a,b,a)
        || in_on_triangle(a,b,a,b) || in_triangle(a,b,a,b) || in_on_quad(a,b,a,b,a)
        || in_quad(a,b,a,b,a);
  return r && d > 0.0 && EQ0(d) && EQ(d,d) && ABS(d)>0.0 && CLAMP(d,0.0,1.0)>0.0 && MIN(d,d)>0.0;
}
inline bool use2(const Triangle& t, const Quad& q, const Triangles& ts, const Quads& qs, const Front& f,
                 const Vertices& vs, const Domain& d, Vertex& v, const Mesh& m)
{
  return t.intersects_vertex(v) || t.intersects_vertex(vs,1.0) || t.intersects_domain(d) || t.intersects_triangle(ts,1.0)
      || t.intersects_quad(qs,1.0) || t.intersects_front(f,1.0)
      || q.intersects_vertex(v) || q.intersects_vertex(vs,1.0) || q.intersects_domain(d) || q.intersects_triangle(ts,1.0)
      || q.intersects_quad(qs,1.0) || q.intersects_front(f,1.0) || QuadGeometry::is_too_close(q,f,1.0,1.0)
      || v.intersects_facet(ts,1.0) || v.intersects_facet(qs,1.0) || v.intersects_mesh_edges(m,1.0,1.0);
}
inline double use3(Vertices& vs, Vec2d a, Vertex& v)
{
  auto l = vs.get_items(a,a); auto m = vs.get_items(a,1.0); Vertex* n = vs.get_nearest(a);
  vs.update(v,a); vs.remove(v); vs.clear_waste();
  auto& t = vs.quad_tree(); if (t.children()[0] && t.split() && t.items().size() > t.size()) return t.scale() + t.center().x;
  if (t.lowleft().x < t.upright().x && t.max_items() + t.max_depth() > 4) return 0.0;
  return l.size() + m.size() + n->xy().x + vs[0].xy().x + vs.size();
}
}
