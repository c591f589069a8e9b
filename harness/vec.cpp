// P04 vector algebra, P05 distances and areas: small integers and dyadic numbers,
// where double arithmetic is exact, against componentwise arithmetic
#include "H.h"
#include "STLHeaders.h"
#include "CppUtils.h"
using namespace CppUtils;
template <std::size_t N> using V = VecND<double,N>;
template <std::size_t N> static V<N> rv(int m, double s) { V<N> v; for (std::size_t i = 0; i < N; ++i) v[i] = H::ri(-m,m) * s; return v; }
template <std::size_t N> static std::string str(const V<N>& v) { std::ostringstream o; o << std::setprecision(17) << "("; for (std::size_t i = 0; i < N; ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
template <std::size_t N, class F> static void each(const char* n, const V<N>& r, const V<N>& a, const V<N>& b, F f)
{ for (std::size_t i = 0; i < N; ++i) CHK(r[i] == f(i), n, N, str(a), str(b), "component", i, r[i], f(i)); }
template <std::size_t N> static void vecs(double sc)
{
  int m = H::ri(1, 6);
  V<N> a = rv<N>(m, sc), b = rv<N>(m, sc); double s = H::ri(-5, 5) * sc;
  if (H::ri(0,9) == 0) b = a;
  each<N>("a+b", a+b, a, b, [&](int i){ return a[i]+b[i]; });
  each<N>("a-b", a-b, a, b, [&](int i){ return a[i]-b[i]; });
  each<N>("a*b", a*b, a, b, [&](int i){ return a[i]*b[i]; });
  each<N>("-a", -a, a, b, [&](int i){ return -a[i]; });
  each<N>("a+s", a+s, a, b, [&](int i){ return a[i]+s; });
  each<N>("s+a", s+a, a, b, [&](int i){ return a[i]+s; });
  each<N>("a-s", a-s, a, b, [&](int i){ return a[i]-s; });
  each<N>("s-a", s-a, a, b, [&](int i){ return s-a[i]; });
  each<N>("a*s", a*s, a, b, [&](int i){ return a[i]*s; });
  each<N>("s*a", s*a, a, b, [&](int i){ return a[i]*s; });
  bool nz = true; for (std::size_t i = 0; i < N; ++i) if (b[i] == 0) nz = false;
  if (nz) { each<N>("a/b", a/b, a, b, [&](int i){ return a[i]/b[i]; });
            each<N>("s/b", s/b, a, b, [&](int i){ return s/b[i]; });
            V<N> c = a; V<N> r = (c /= b); each<N>("a/=b", c, a, b, [&](int i){ return a[i]/b[i]; }); each<N>("ret a/=b", r, a, b, [&](int i){ return a[i]/b[i]; }); }
  if (s != 0) { each<N>("a/s", a/s, a, b, [&](int i){ return a[i]/s; });
            V<N> c = a; c /= s; each<N>("a/=s", c, a, b, [&](int i){ return a[i]/s; }); }
  { V<N> c = a; V<N> r = (c += b); each<N>("a+=b", c, a, b, [&](int i){ return a[i]+b[i]; }); each<N>("ret a+=b", r, a, b, [&](int i){ return a[i]+b[i]; }); }
  { V<N> c = a; V<N> r = (c -= b); each<N>("a-=b", c, a, b, [&](int i){ return a[i]-b[i]; }); each<N>("ret a-=b", r, a, b, [&](int i){ return a[i]-b[i]; }); }
  { V<N> c = a; V<N> r = (c *= b); each<N>("a*=b", c, a, b, [&](int i){ return a[i]*b[i]; }); each<N>("ret a*=b", r, a, b, [&](int i){ return a[i]*b[i]; }); }
  { V<N> c = a; c += s; each<N>("a+=s", c, a, b, [&](int i){ return a[i]+s; }); }
  { V<N> c = a; c -= s; each<N>("a-=s", c, a, b, [&](int i){ return a[i]-s; }); }
  { V<N> c = a; c *= s; each<N>("a*=s", c, a, b, [&](int i){ return a[i]*s; }); }
  double dt = 0, n2 = 0, m2 = 0, su = 0, pr = 1, mi = a[0], ma = a[0]; bool eq = true, z = true;
  for (std::size_t i = 0; i < N; ++i) { dt += a[i]*b[i]; n2 += a[i]*a[i]; m2 += b[i]*b[i]; su += a[i]; pr *= a[i];
    mi = std::min(mi, a[i]); ma = std::max(ma, a[i]); eq = eq && a[i] == b[i]; z = z && a[i] == 0; }
  CHK(dot(a,b) == dt && a.dot(b) == dt, "dot", N, str(a), str(b));
  CHK(a.norm_sqr() == n2, "norm_sqr", N, str(a));
  CHK(H::near(a.norm(), std::sqrt(n2), 1e-14), "norm", N, str(a));
  CHK(a.sum() == su, "sum", N, str(a), a.sum());
  CHK(a.product() == pr, "product", N, str(a), a.product());
  CHK(a.min() == mi && a.max() == ma, "min/max", N, str(a));
  CHK((a == b) == eq && (a != b) == !eq, "==", N, str(a), str(b));
  CHK(a.is_zero() == z, "is_zero", N, str(a));
  CHK((a - a).is_zero(), "zero difference", N, str(a));
  if (n2 > 0 && m2 > 0) {
    double c = std::max(-1.0, std::min(1.0, dt / std::sqrt(n2) / std::sqrt(m2)));
    CHK(std::fabs(angle(a,b) - std::acos(c)) < 1e-7 && std::fabs(a.angle(b) - std::acos(c)) < 1e-7, "angle", N, str(a), str(b), angle(a,b), std::acos(c));
  }
  CHK(a.x == a[0] && a.get_x() == a[0], "x", N, str(a));
  if constexpr (N >= 2) CHK(a.y == a[1] && a.get_y() == a[1], "y", N, str(a));
  if constexpr (N >= 3) CHK(a.z == a[2] && a.get_z() == a[2], "z", N, str(a));
  V<N> c; c = a; V<N> d(a); CHK(c == a && d == a, "copies", N, str(a));
  c.x = 77.0; CHK(c[0] == 77.0 && a[0] == d[0], "copies are independent", N, str(a));
}
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard();
  const double sc[] = {1.0, 0.5, 0.125, 1024.0};
  if (H::prop == "P04")
    for (long i = 0; i < H::n(200000); ++i) {
      double s = sc[i % 4];
      vecs<2>(s); vecs<3>(s); vecs<4>(s);
      Vec2d a = rv<2>(5,s), b = rv<2>(5,s);
      CHK(cross(a,b) == a[0]*b[1]-a[1]*b[0] && a.cross(b) == cross(a,b), "cross2", str<2>(a), str<2>(b));
      Vec3d p = rv<3>(5,s), q = rv<3>(5,s); Vec3d r = cross(p,q), t = p.cross(q);
      for (int k = 0; k < 3; ++k) { int u = (k+1)%3, w = (k+2)%3;
        CHK(r[k] == p[u]*q[w]-p[w]*q[u] && t[k] == r[k], "cross3", str<3>(p), str<3>(q)); }
    }
  if (H::prop == "P05") {
    for (long i = 0; i < H::n(200000); ++i) {
      double s = sc[i % 4]; int m = H::ri(1,6);
      Vec2d p = rv<2>(m,s), a = rv<2>(m,s), b = rv<2>(m,s);
      if (a == b) continue;
      double L = (b[0]-a[0])*(b[0]-a[0]) + (b[1]-a[1])*(b[1]-a[1]);
      double t = ((p[0]-a[0])*(b[0]-a[0]) + (p[1]-a[1])*(b[1]-a[1])) / L; t = std::max(0.0, std::min(1.0, t));
      double x = p[0]-a[0]-t*(b[0]-a[0]), y = p[1]-a[1]-t*(b[1]-a[1]);
      double r = distance_point_edge_sqr(p,a,b);
      CHK(std::fabs(r - (x*x+y*y)) <= 1e-12*(s*s)*400, "distance_point_edge_sqr", str<2>(p), str<2>(a), str<2>(b), r, x*x+y*y);
    }
    for (long i = 0; i < H::n(60000); ++i) {
      int n = i < 20 ? i : H::ri(0, 14); double s = sc[i % 4];
      std::vector<Vec2d> v; for (int k = 0; k < n; ++k) v.push_back(rv<2>(H::ri(1,9), s));
      double d = 0; for (int k = 0; k < n; ++k) d += v[k][0]*v[(k+1)%n][1] - v[(k+1)%n][0]*v[k][1];
      std::string t; for (auto& q : v) t += str<2>(q);
      CHK(polygon_area(v) == d/2, "polygon_area", t, polygon_area(v), d/2);
    }
  }
  return H::done();
}
