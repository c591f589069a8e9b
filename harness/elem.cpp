// P06 element metrics, P07 local indices
#include "H.h"
#include "STLHeaders.h"
#include "CppUtils.h"
#include "MeshGenerator.h"
using namespace CppUtils; using namespace TQMesh;
struct P { double x, y; };
static double dist(P a, P b) { return std::hypot(b.x-a.x, b.y-a.y); }
static std::string S(const std::vector<P>& p) { std::ostringstream o; o << std::setprecision(17); for (auto& q : p) o << "(" << q.x << "," << q.y << ")"; return o.str(); }
template <class E> static void metrics(const E& e, const std::vector<P>& p, const char* when)
{
  int n = p.size(); std::string s = std::string(when) + " " + S(p);
  double a2 = 0, sx = 0, sy = 0; for (int i = 0; i < n; ++i) { a2 += p[i].x*p[(i+1)%n].y - p[(i+1)%n].x*p[i].y; sx += p[i].x; sy += p[i].y; }
  CHK(H::near(e.area(), a2/2, 1e-12), "area", s, e.area(), a2/2);
  CHK(H::near(e.xy().x, sx/n, 1e-12) && H::near(e.xy().y, sy/n, 1e-12), "centroid", s, e.xy().x, e.xy().y);
  std::vector<double> L, A; double sl = 0;
  for (int i = 0; i < n; ++i) { L.push_back(dist(p[i], p[(i+1)%n])); sl += L[i]*L[i]; CHK(H::near(e.edgelength(i), L[i], 1e-12), "edge length", i, s); }
  for (int i = 0; i < n; ++i) { P a=p[i], b=p[(i+1)%n], c=p[(i+n-1)%n];
    double d = ((b.x-a.x)*(c.x-a.x)+(b.y-a.y)*(c.y-a.y))/(L[i]*L[(i+n-1)%n]); A.push_back(std::acos(std::max(-1.0,std::min(1.0,d))));
    CHK(std::fabs(e.angle(i)-A[i]) < 1e-5, "angle", i, s, e.angle(i), A[i]); }
  CHK(H::near(e.min_edge_length(), *std::min_element(L.begin(),L.end()), 1e-12), "min edge", s);
  CHK(H::near(e.max_edge_length(), *std::max_element(L.begin(),L.end()), 1e-12), "max edge", s);
  { CHK(std::fabs(e.min_angle() - *std::min_element(A.begin(),A.end())) < 1e-5, "min angle", s);
             CHK(std::fabs(e.max_angle() - *std::max_element(A.begin(),A.end())) < 1e-5, "max angle", s); }
  bool pos = true; for (double l : L) pos = pos && l > 0;
  CHK(e.is_valid() == (a2 > 0 && pos), "is_valid", s, e.is_valid());
  for (double h : {0.3, 1.0, 2.5, 7.0}) { double q = 3.4641016151377544*(a2/2)/sl; for (double l : L) q *= std::min(l/h, h/l);
    CHK(H::near(e.quality(h), q, 1e-12), "quality", h, s, e.quality(h), q); }
  P cc{e.circumcenter().x, e.circumcenter().y};
  if (n == 3 && a2 != 0) for (int i = 0; i < 3; ++i) CHK(H::near(dist(cc,p[i]), e.circumradius(), 1e-9), "circumcircle", i, s, cc.x, cc.y, e.circumradius());
  if (n == 4) { CHK(H::near(cc.x, sx/4, 1e-12) && H::near(cc.y, sy/4, 1e-12), "circumcenter", s);
    double m = 0; for (auto& q : p) m = std::max(m, dist(cc,q)); CHK(H::near(e.circumradius(), m, 1e-12), "circumradius", s); }
}
static void edge(const Edge& e, P a, P b, const char* when)
{
  double l = dist(a,b), tx = (b.x-a.x)/l, ty = (b.y-a.y)/l; std::string s = std::string(when) + " " + S({a,b});
  CHK(H::near(e.length(), l, 1e-13), "edge length", s, e.length());
  CHK(H::near(e.tangent().x, tx, 1e-13) && H::near(e.tangent().y, ty, 1e-13), "tangent", s);
  CHK(H::near(e.normal().x, -ty, 1e-13) && H::near(e.normal().y, tx, 1e-13), "normal", s);
  CHK(H::near(e.xy().x, (a.x+b.x)/2, 1e-13) && H::near(e.xy().y, (a.y+b.y)/2, 1e-13), "midpoint", s, e.xy().x, e.xy().y);
}
static P rp(int m, double s) { return {H::ri(-m,m)*s, H::ri(-m,m)*s}; }
static bool distinct(const std::vector<P>& p) { for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) if (p[i].x==p[j].x && p[i].y==p[j].y) return false; return true; }
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard();
  const double sc[] = {1.0, 0.5, 0.125, 16.0};
  if (H::prop == "P06")
    for (long it = 0; it < H::n(6000); ++it) {
      double s = sc[it%4]; int m = H::ri(1,6);
      Vertices V(1000.0); Triangles T(1000.0); Quads Q(1000.0); EdgeList E(Orientation::NONE);
      for (int n = 3; n <= 4; ++n) {
        std::vector<P> p; do { p.clear(); for (int i = 0; i < n; ++i) p.push_back(rp(m,s)); } while (!distinct(p));
        std::vector<Vertex*> v; for (auto& q : p) v.push_back(&V.push_back(q.x,q.y));
        int c = H::ri(0,50);
        Edge& e = E.insert_edge(E.edges().end(), *v[0], *v[1], c);
        edge(e, p[0], p[1], "new"); CHK(e.color() == c && &e.v1() == v[0] && &e.v2() == v[1], "edge data", c, e.color());
        auto moved = [&](const char* w){ std::vector<P> r; for (auto x : v) r.push_back({x->xy().x, x->xy().y}); return r; };
        Triangle* t = nullptr; Quad* q = nullptr;
        if (n == 3) { t = &T.push_back(*v[0],*v[1],*v[2]); metrics(*t, p, "new"); for (int i = 0; i < 3; ++i) CHK(&t->vertex(i) == v[i], "vertex", i); 
                      CHK(&t->v1()==v[0]&&&t->v2()==v[1]&&&t->v3()==v[2], "v1..v3", S(p)); }
        else { q = &Q.push_back(*v[0],*v[1],*v[2],*v[3]); metrics(*q, p, "new"); for (int i = 0; i < 4; ++i) CHK(&q->vertex(i) == v[i], "vertex", i);
               CHK(&q->v1()==v[0]&&&q->v2()==v[1]&&&q->v3()==v[2]&&&q->v4()==v[3], "v1..v4", S(p)); }
        // move a vertex, refresh
        int k = H::ri(0,n-1); P np = rp(m,s); auto p2 = p; p2[k] = np;
        if (!distinct(p2)) continue;
        v[k]->adjust_xy({np.x,np.y});
        if (t) { t->update_metrics(); metrics(*t, moved(""), "after moving a vertex"); }
        if (q) { q->update_metrics(); metrics(*q, moved(""), "after moving a vertex"); }
        e.update_metrics(); edge(e, p2[0], p2[1], "after moving a vertex");
      }
    }
  if (H::prop == "P07")
    for (long it = 0; it < H::n(300); ++it) {
      Vertices V(1000.0); Triangles T(1000.0); Quads Q(1000.0);
      std::vector<Vertex*> v; for (int i = 0; i < 7; ++i) v.push_back(&V.push_back(std::cos(i*0.9)*5 + H::rd(-.1,.1), std::sin(i*0.9)*5));
      std::vector<int> o(7); std::iota(o.begin(),o.end(),0); std::shuffle(o.begin(),o.end(),H::rng);
      Triangle& t = T.push_back(*v[o[0]],*v[o[1]],*v[o[2]]); Quad& q = Q.push_back(*v[o[3]],*v[o[4]],*v[o[5]],*v[o[6]]);
      Quad& q2 = Q.push_back(*v[o[0]],*v[o[1]],*v[o[2]],*v[o[3]]);
      auto run = [&](Facet& f, std::vector<int> w, std::vector<int> slot) {
        int n = w.size(); CHK((int)f.n_vertices() == n, "n_vertices", n);
        for (int a = 0; a < 7; ++a) { int exp = -1; for (int i = 0; i < n; ++i) if (w[i]==a) exp = i;
          CHK(f.get_vertex_index(*v[a]) == exp, "vertex index", n, a, exp, f.get_vertex_index(*v[a]));
          for (int b = 0; b < 7; ++b) { int es = -1; for (int i = 0; i < n; ++i) { int c=w[i], d=w[(i+1)%n]; if ((a==c&&b==d)||(a==d&&b==c)) es = slot[i]; }
            CHK(f.get_edge_index(*v[a],*v[b]) == es, "edge index", n, a, b, es, f.get_edge_index(*v[a],*v[b])); } }
      };
      run(t, {o[0],o[1],o[2]}, {2,0,1}); run(q, {o[3],o[4],o[5],o[6]}, {3,0,1,2}); run(q2, {o[0],o[1],o[2],o[3]}, {3,0,1,2});
      for (int i = 0; i < 3; ++i) CHK(NullFacet::is_null(t.neighbor(i)), "initial neighbour", i);
      for (int i = 0; i < 4; ++i) CHK(NullFacet::is_null(q.neighbor(i)), "initial neighbour", i);
      Facet* fs[3] = {&t, &q, &q2};
      std::vector<Facet*> nt(3, &NullFacet::get_instance()), nq(4, &NullFacet::get_instance());
      for (int k = 0; k < 12; ++k) {
        int i = H::ri(0,2), j = H::ri(0,3); Facet* a = fs[H::ri(0,2)]; Facet* b = fs[H::ri(0,2)];
        if (H::ri(0,1)) { t.neighbor(i,a); q.neighbor(j,b); }
        else { if(i==0)t.nbr1(a); if(i==1)t.nbr2(a); if(i==2)t.nbr3(a); if(j==0)q.nbr1(b); if(j==1)q.nbr2(b); if(j==2)q.nbr3(b); if(j==3)q.nbr4(b); }
        nt[i]=a; nq[j]=b;
        for (int x = 0; x < 3; ++x) CHK(t.neighbor(x)==nt[x], "triangle neighbour", x);
        for (int x = 0; x < 4; ++x) CHK(q.neighbor(x)==nq[x], "quad neighbour", x);
        CHK(t.nbr1()==nt[0]&&t.nbr2()==nt[1]&&t.nbr3()==nt[2]&&q.nbr1()==nq[0]&&q.nbr2()==nq[1]&&q.nbr3()==nq[2]&&q.nbr4()==nq[3], "named neighbours", k);
        int c = H::ri(-9,99); t.color(c); q.color(c+1); t.index(c+2); q.index(c+3);
        CHK(t.color()==c && q.color()==c+1 && t.index()==c+2 && q.index()==c+3, "colour/index", c);
      }
    }
  return H::done();
}
