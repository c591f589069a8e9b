#include "H.h"
#include "STLHeaders.h"
#include "Geometry.h"
using namespace CppUtils;
typedef __int128 I;
struct P { long x, y; };
static double SC = 1.0;           // exact power of two
static int SE = 0;                // SC = 2^SE
static Vec2d v(P p) { return Vec2d{p.x * SC, p.y * SC}; }
static long A2(P p, P q, P r) { return (q.x-p.x)*(r.y-p.y) - (q.y-p.y)*(r.x-p.x); }
// classification with tolerance: (a*2^(2SE))^2 < 2^-52
static int cls(long a)
{
  int e = 4 * SE + 52;            // a^2 * 2^e < 1 ?
  I q = (I)a * a;
  bool flat;
  if (e >= 0) flat = (q == 0);
  else flat = (-e > 100) ? true : q < ((I)1 << (-e));
  return flat ? 0 : (a > 0 ? 1 : -1);
}
static long dot(P a, P b, P c) { return (b.x-a.x)*(c.x-a.x) + (b.y-a.y)*(c.y-a.y); }
static bool inseg(P p, P q, P r) { return cls(A2(p,q,r)) == 0 && dot(p,q,r) > 0 && dot(p,q,r) < dot(p,q,q); }
static bool inonseg(P p, P q, P r) { return cls(A2(p,q,r)) == 0 && dot(p,q,r) >= 0 && dot(p,q,r) <= dot(p,q,q); }
static bool cro(P a, P b, P c, P d) { return cls(A2(a,b,c))*cls(A2(a,b,d)) < 0 && cls(A2(c,d,a))*cls(A2(c,d,b)) < 0; }
static bool isec(P a, P b, P c, P d)
{ return cro(a,b,c,d) || inseg(a,b,c) || inseg(a,b,d) || inseg(c,d,a) || inseg(c,d,b); }
static bool anyi(std::vector<P> s, std::vector<P> t, bool c = false)
{
  int n = s.size(), m = t.size();
  for (int i = 0; i < (n == 2 ? 1 : n); ++i) for (int j = 0; j < m; ++j)
    if (c ? cro(s[i], s[(i+1)%n], t[j], t[(j+1)%m]) : isec(s[i], s[(i+1)%n], t[j], t[(j+1)%m])) return true;
  return false;
}
#define XY(p) p.x*SC, p.y*SC
static void orient(P p, P q, P r)
{
  int c = cls(A2(p,q,r));
  Orientation o = c == 0 ? Orientation::CL : (c > 0 ? Orientation::CCW : Orientation::CW);
  CHK(orientation(v(p),v(q),v(r)) == o, "orientation", XY(p), XY(q), XY(r));
  CHK(is_left(v(p),v(q),v(r)) == (c > 0), "is_left", XY(p), XY(q), XY(r));
  CHK(is_lefton(v(p),v(q),v(r)) == (c >= 0), "is_lefton", XY(p), XY(q), XY(r));
}
static void seg3(P p, P q, P r)
{
  CHK(in_segment(v(p),v(q),v(r)) == inseg(p,q,r), "in_segment", XY(p), XY(q), XY(r));
  CHK(in_on_segment(v(p),v(q),v(r)) == inonseg(p,q,r), "in_on_segment", XY(p), XY(q), XY(r));
}
static void seg4(P a, P b, P c, P d)
{
  CHK(line_line_crossing(v(a),v(b),v(c),v(d)) == cro(a,b,c,d), "line_line_crossing", XY(a), XY(b), XY(c), XY(d));
  CHK(line_line_intersection(v(a),v(b),v(c),v(d)) == isec(a,b,c,d), "line_line_intersection", XY(a), XY(b), XY(c), XY(d));
  bool eq = (a.x==c.x&&a.y==c.y&&b.x==d.x&&b.y==d.y) || (a.x==d.x&&a.y==d.y&&b.x==c.x&&b.y==c.y);
  CHK(segment_overlap(v(a),v(b),v(c),v(d)) == eq, "segment_overlap", XY(a), XY(b), XY(c), XY(d));
}
static P rp(int m) { return {H::ri(-m,m), H::ri(-m,m)}; }
static void setscale(int e) { SE = e; SC = std::ldexp(1.0, e); }
static const int scales[] = {0, -1, 3, -13, -14, -12, 12};

int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard();
  if (H::prop == "P01") {
    for (int e : scales) { setscale(e);
      for (long i = 0; i < H::n(200000); ++i) { int m = H::ri(1, 6); if (i % 7 == 0) m = 1000;
        orient(rp(m), rp(m), rp(m)); } }
  }
  if (H::prop == "P02") {
    for (int e : scales) { setscale(e);
      for (long i = 0; i < H::n(60000); ++i) {
        int m = H::ri(1, 5); if (i % 11 == 0) m = 300;
        P a=rp(m), b=rp(m), c=rp(m), d=rp(m), f=rp(m), g=rp(m), h=rp(m), k=rp(m);
        seg3(a,b,c); seg4(a,b,c,d);
        if (i % 3 == 0) {
          CHK(line_tri_intersection(v(a),v(b),v(c),v(d),v(f)) == anyi({a,b},{c,d,f}), "line_tri_intersection", XY(a),XY(b),XY(c),XY(d),XY(f));
          CHK(line_tri_crossing(v(a),v(b),v(c),v(d),v(f)) == anyi({a,b},{c,d,f},true), "line_tri_crossing", XY(a),XY(b),XY(c),XY(d),XY(f));
          CHK(line_quad_intersection(v(a),v(b),v(c),v(d),v(f),v(g)) == anyi({a,b},{c,d,f,g}), "line_quad_intersection", XY(a),XY(b),XY(c),XY(d),XY(f),XY(g));
          CHK(tri_tri_intersection(v(a),v(b),v(c),v(d),v(f),v(g)) == anyi({a,b,c},{d,f,g}), "tri_tri_intersection", XY(a),XY(b),XY(c),XY(d),XY(f),XY(g));
          CHK(quad_quad_intersection(v(a),v(b),v(c),v(d),v(f),v(g),v(h),v(k)) == anyi({a,b,c,d},{f,g,h,k}), "quad_quad_intersection", XY(a),XY(b),XY(c),XY(d),XY(f),XY(g),XY(h),XY(k));
          CHK(tri_quad_intersection(v(a),v(b),v(c),v(d),v(f),v(g),v(h)) == anyi({a,b,c},{d,f,g,h}), "tri_quad_intersection", XY(a),XY(b),XY(c),XY(d),XY(f),XY(g),XY(h));
        }
      }
      // facets of which exactly one edge pair meets: spread-out facets
      for (long i = 0; i < H::n(40000); ++i) {
        P o{H::ri(-12,12), H::ri(-12,12)};
        auto q = [&](P c){ return P{c.x + H::ri(-5,5), c.y + H::ri(-5,5)}; };
        P z{0,0}; P a=q(z),b=q(z),c=q(z),d=q(z),f=q(o),g=q(o),h=q(o),k=q(o);
        CHK(tri_tri_intersection(v(a),v(b),v(c),v(f),v(g),v(h)) == anyi({a,b,c},{f,g,h}), "tri_tri_intersection", XY(a),XY(b),XY(c),XY(f),XY(g),XY(h));
        CHK(quad_quad_intersection(v(a),v(b),v(c),v(d),v(f),v(g),v(h),v(k)) == anyi({a,b,c,d},{f,g,h,k}), "quad_quad_intersection", XY(a),XY(b),XY(c),XY(d),XY(f),XY(g),XY(h),XY(k));
        CHK(tri_quad_intersection(v(a),v(b),v(c),v(f),v(g),v(h),v(k)) == anyi({a,b,c},{f,g,h,k}), "tri_quad_intersection", XY(a),XY(b),XY(c),XY(f),XY(g),XY(h),XY(k));
        CHK(line_quad_intersection(v(a),v(b),v(f),v(g),v(h),v(k)) == anyi({a,b},{f,g,h,k}), "line_quad_intersection", XY(a),XY(b),XY(f),XY(g),XY(h),XY(k));
      }
    }
  }
  if (H::prop == "P03") {
    for (int e : scales) { setscale(e);
      for (long i = 0; i < H::n(100000); ++i) {
        int m = H::ri(1, 5); if (i % 11 == 0) m = 300;
        P a=rp(m), b=rp(m), c=rp(m), d=rp(m), p=rp(m);
        auto in = [&](P z, P lo, P hi){ return lo.x<=z.x&&z.x<=hi.x&&lo.y<=z.y&&z.y<=hi.y; };
        auto ins = [&](P z, P lo, P hi){ return lo.x<z.x&&z.x<hi.x&&lo.y<z.y&&z.y<hi.y; };
        CHK(in_on_rect(v(p),v(a),v(b)) == in(p,a,b), "in_on_rect", XY(p),XY(a),XY(b));
        CHK(in_rect(v(p),v(a),v(b)) == ins(p,a,b), "in_rect", XY(p),XY(a),XY(b));
        P lo{std::min(a.x,b.x),std::min(a.y,b.y)}, hi{std::max(a.x,b.x),std::max(a.y,b.y)};
        P l2{std::min(c.x,d.x),std::min(c.y,d.y)}, h2{std::max(c.x,d.x),std::max(c.y,d.y)};
        bool ov = std::max(lo.x,l2.x) <= std::min(hi.x,h2.x) && std::max(lo.y,l2.y) <= std::min(hi.y,h2.y);
        CHK(rect_overlap(v(lo),v(hi),v(l2),v(h2)) == ov, "rect_overlap", XY(lo),XY(hi),XY(l2),XY(h2));
        auto side = [&](std::vector<P> q, bool on){ int n=q.size(); for(int j=0;j<n;++j){ int s=cls(A2(q[j],q[(j+1)%n],p)); if(on? s<0 : s<=0) return false;} return true; };
        CHK(in_on_triangle(v(p),v(a),v(b),v(c)) == side({a,b,c},true), "in_on_triangle", XY(p),XY(a),XY(b),XY(c));
        CHK(in_triangle(v(p),v(a),v(b),v(c)) == side({a,b,c},false), "in_triangle", XY(p),XY(a),XY(b),XY(c));
        CHK(in_on_quad(v(p),v(a),v(b),v(c),v(d)) == side({a,b,c,d},true), "in_on_quad", XY(p),XY(a),XY(b),XY(c),XY(d));
        CHK(in_quad(v(p),v(a),v(b),v(c),v(d)) == side({a,b,c,d},false), "in_quad", XY(p),XY(a),XY(b),XY(c),XY(d));
        CHK(bbox_min(v(a),v(b)).x == lo.x*SC && bbox_min(v(a),v(b)).y == lo.y*SC, "bbox_min", XY(a),XY(b));
        CHK(bbox_max(v(a),v(b)).x == hi.x*SC && bbox_max(v(a),v(b)).y == hi.y*SC, "bbox_max", XY(a),XY(b));
      }
    }
  }
  return H::done();
}
