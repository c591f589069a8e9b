// random domains and the mesh invariants shared by the mesh harnesses
#pragma once
#include "H.h"
#include "STLHeaders.h"
#include "CppUtils.h"
#include "MeshGenerator.h"
#include "MeshChecker.h"
using namespace CppUtils; using namespace TQMesh;
using P2 = std::array<double,2>;
struct BE { P2 a, b; int color; };
static double cr(P2 a, P2 b, P2 c) { return (b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0]); }
static double dist(P2 a, P2 b) { return std::hypot(a[0]-b[0],a[1]-b[1]); }
static P2 pt(const Vec2d& v) { return {v.x,v.y}; }
static P2 pt(const Vertex& v) { return {v.xy().x,v.xy().y}; }
static double segdist(P2 p, P2 a, P2 b)
{ double L=(b[0]-a[0])*(b[0]-a[0])+(b[1]-a[1])*(b[1]-a[1]), t=std::clamp(((p[0]-a[0])*(b[0]-a[0])+(p[1]-a[1])*(b[1]-a[1]))/L,0.0,1.0);
  return std::hypot(a[0]+t*(b[0]-a[0])-p[0], a[1]+t*(b[1]-a[1])-p[1]); }
struct Case {
  std::unique_ptr<Domain> dom; std::vector<BE> bdry; std::vector<P2> fixedv; std::vector<std::pair<P2,P2>> fixede;
  double area = 0, h = 1; std::string txt; P2 start{0,0}, end{0,0};
  std::vector<std::vector<P2>> loops;
};
static void add_loop(Case& c, std::vector<P2> p, bool ext, int color0, bool mixed, double ms=0, double mr=0)
{
  Boundary& b = ext ? c.dom->add_exterior_boundary() : c.dom->add_interior_boundary();
  std::vector<Vertex*> v; size_t n = p.size();
  if (!ext) std::reverse(p.begin(),p.end());
  for (auto& q : p) v.push_back(&c.dom->add_vertex(q[0],q[1],ms,mr));
  std::ostringstream o; o << std::setprecision(17) << (ext ? " ext[" : " hole[");
  double a = 0;
  for (size_t i = 0; i < n; ++i) { int col = color0 + (mixed ? (int)(i % 3) : 0); b.add_edge(*v[i],*v[(i+1)%n],col); c.bdry.push_back({p[i],p[(i+1)%n],col});
    o << p[i][0] << "," << p[i][1] << ":" << col << " "; a += 0.5*(p[i][0]*p[(i+1)%n][1]-p[(i+1)%n][0]*p[i][1]); }
  c.area += a; c.txt += o.str() + "]"; c.loops.push_back(p);
}
static std::vector<P2> ring(double x, double y, double r, int n, double jitter, double ph)
{ std::vector<P2> p; for (int i=0;i<n;++i) { double a=ph+2*M_PI*i/n, q=r*(1-jitter*H::rd(0,1)); p.push_back({x+q*std::cos(a),y+q*std::sin(a)}); } return p; }
static UserSizeFunction sizefun(Case& c, double h, int kind, double L)
{ c.h = h; c.txt += " h=" + std::to_string(h) + " kind=" + std::to_string(kind);
  if (kind == 0) return [h](const Vec2d&){ return h; };
  if (kind == 1) return [h,L](const Vec2d& p){ return h*(1.0+0.5*std::fabs(p.x)/L); };
  return [h,L](const Vec2d& p){ return h*(0.8+0.4*std::exp(-(p.x*p.x+p.y*p.y)/(L*L))); }; }
// kind: 0 any, 1 rectangle without fixed entities
static Case make_case(int kind=0, double scale=0)
{
  Case c; double S = scale>0 ? scale : std::pow(10.0, H::rd(-0.7,1.0)); double x0=H::rd(-2,2)*S, y0=H::rd(-2,2)*S;
  int shape = kind==1 ? 0 : H::ri(0,3); double w=S*H::rd(1.5,3), hh=S*H::rd(1.2,3);
  double h = S*H::rd(0.28,0.6);
  auto f = sizefun(c, h, H::ri(0,2), 3*S);
  c.dom = std::make_unique<Domain>(f, 60*S, (size_t)H::ri(4,100), 25);
  std::vector<P2> outer;
  if (shape==0) outer={{x0-w/2,y0-hh/2},{x0+w/2,y0-hh/2},{x0+w/2,y0+hh/2},{x0-w/2,y0+hh/2}};
  else if (shape==1) outer=ring(x0,y0,S*1.3,H::ri(5,14),0,H::rd(0,1));
  else if (shape==2) outer=ring(x0,y0,S*1.6,H::ri(5,11),0.35,H::rd(0,1));
  else { double a=w/2,b=hh/2; outer={{x0-a,y0-b},{x0+a,y0-b},{x0+a,y0},{x0+0.1*a,y0+0.1*b},{x0+0.2*a,y0+b},{x0-a,y0+b}}; }
  bool refined = kind==0 && H::ri(0,4)==0;
  add_loop(c,outer,true,H::ri(1,5),H::ri(0,1),refined?h*0.6:0,refined?S*0.4:0);
  c.start=outer[0]; c.end=outer[1];
  if (kind==0) {
    int what=H::ri(0,4);
    double r0 = shape==3 ? 0 : 0.45*S; // free disc around (x0,y0)
    P2 m = shape==3 ? P2{x0-0.45*w/2,y0-0.1*hh} : P2{x0,y0}; if (shape==3) r0=0.2*S;
    if (what==1) add_loop(c,ring(m[0],m[1],r0*0.7,H::ri(3,8),0,H::rd(0,1)),false,7,H::ri(0,1));
    if (what==2) { int n=H::ri(1,3); for (int i=0;i<n;++i) { double a=2*M_PI*i/n+H::rd(0,0.3), q=r0*H::rd(0.3,0.9); P2 p{m[0]+q*std::cos(a),m[1]+q*std::sin(a)}; c.fixedv.push_back(p);
        if (H::ri(0,1)) c.dom->add_fixed_vertex(p[0],p[1],h*0.5,S*0.3); else c.dom->add_fixed_vertex(p[0],p[1]); c.txt+=" fixedv "+std::to_string(p[0])+","+std::to_string(p[1]); } }
    if (what==3) { P2 p{m[0]-r0*0.8,m[1]-r0*H::rd(0,0.3)}, q{m[0]+r0*0.8,m[1]+r0*H::rd(0,0.3)}; Vertex& a=c.dom->add_fixed_vertex(p[0],p[1]); Vertex& b=c.dom->add_fixed_vertex(q[0],q[1]);
      c.dom->add_fixed_edge(a,b); c.fixede.push_back({p,q}); c.fixedv.push_back(p); c.fixedv.push_back(q); c.txt+=" fixede "+std::to_string(p[0])+","+std::to_string(p[1])+"-"+std::to_string(q[0])+","+std::to_string(q[1]); }
  }
  return c;
}
static bool bad(const Facet* f) { return f==nullptr || NullFacet::is_null(const_cast<Facet*>(f)); }
struct El { Facet* f; std::vector<Vertex*> v; int color; int kind; };
static std::vector<El> elements(Mesh& m)
{ std::vector<El> e; for (auto& q:m.quads()) e.push_back({q.get(),{&q->v1(),&q->v2(),&q->v3(),&q->v4()},q->color(),4});
  for (auto& t:m.triangles()) e.push_back({t.get(),{&t->v1(),&t->v2(),&t->v3()},t->color(),3}); return e; }
static double parea(const std::vector<Vertex*>& v) { double a=0; size_t n=v.size(); P2 o=pt(*v[0]); for (size_t i=0;i+1<n;++i) a+=cr(o,pt(*v[i]),pt(*v[i+1])); return 0.5*a; }
// conformity, orientation, coverage of a complete mesh
static void check_mesh(Mesh& m, const Case& c, const std::string& tag, bool elemcolors=true, bool fixed=true, bool fixede=false)
{
  const std::string d = tag + c.txt; double L=0; for (auto& e:c.bdry) L=std::max(L,dist(e.a,e.b)); double tol=1e-8*L;
  auto els = elements(m); std::set<const Vertex*> vs; for (auto& v:m.vertices()) vs.insert(v.get());
  CHK(m.n_elements()==els.size() && m.n_elements()==m.n_quads()+m.n_triangles(), "element count", d);
  CHK(vs.size()==m.n_vertices(), "vertex count", d);
  std::map<std::pair<const Vertex*,const Vertex*>,const El*> half; double A=0; std::set<const Vertex*> used;
  for (auto& e:els) { double a=parea(e.v); CHK(a>0,"element area not positive",e.kind,a,pt(*e.v[0])[0],pt(*e.v[0])[1],d); A+=a;
    CHK(H::near(e.f->area(),a,1e-6),"reported area of element",e.f->area(),a,d);
    if (elemcolors) CHK(e.color==m.element_color(),"element colour",e.color,m.element_color(),d);
    CHK(e.f->mesh()==&m,"element's mesh",d);
    for (size_t i=0;i<e.v.size();++i) { auto a=e.v[i], b=e.v[(i+1)%e.v.size()]; used.insert(a); CHK(vs.count(a),"element vertex not in the mesh",d); CHK(a!=b,"element repeats a vertex",d);
      CHK(!half.count({a,b}),"two elements on the same side of an edge",pt(*a)[0],pt(*a)[1],pt(*b)[0],pt(*b)[1],d); half[{a,b}]=&e; } }
  CHK(std::fabs(A-c.area)<=1e-7*std::max(c.area,1e-12),"element areas do not add up to the domain area",A,c.area,d);
  for (auto v:vs) CHK(used.count(v),"vertex without element",pt(*v)[0],pt(*v)[1],d);
  // edges
  std::set<std::pair<const Vertex*,const Vertex*>> ie, be;
  for (auto& e:m.interior_edges()) { auto a=&e->v1(), b=&e->v2(); CHK(!ie.count({a,b})&&!ie.count({b,a}),"duplicate interior edge",d); ie.insert({a,b});
    CHK(half.count({a,b})&&half.count({b,a}),"interior edge without two elements",pt(*a)[0],pt(*a)[1],pt(*b)[0],pt(*b)[1],d); }
  for (auto& e:m.boundary_edges()) { auto a=&e->v1(), b=&e->v2(); CHK(!be.count({a,b})&&!be.count({b,a}),"duplicate boundary edge",d); be.insert({a,b});
    CHK(half.count({a,b}),"boundary edge without an element on its left",pt(*a)[0],pt(*a)[1],d); CHK(!half.count({b,a}),"boundary edge with an element on its right",d);
    CHK(a->on_boundary()&&b->on_boundary(),"boundary vertex not flagged",d); CHK(e->on_boundary(),"boundary edge not flagged",d); }
  for (auto& kv:half) { auto a=kv.first.first, b=kv.first.second; if (half.count({b,a})) CHK(ie.count({a,b})||ie.count({b,a}),"shared element edge is not an interior edge",d);
    else CHK(be.count({a,b}),"unshared element edge is not a boundary edge",pt(*a)[0],pt(*a)[1],pt(*b)[0],pt(*b)[1],d); }
  for (auto& e:m.interior_edges()) CHK(e->is_interior(),"interior edge flagged as boundary",d);
  // boundary follows the domain boundary
  std::vector<double> cover(c.bdry.size(),0.0);
  for (auto& e:m.boundary_edges()) { P2 a=pt(e->v1()), b=pt(e->v2()); bool ok=false;
    for (size_t k=0;k<c.bdry.size()&&!ok;++k) { auto& q=c.bdry[k]; if (segdist(a,q.a,q.b)<tol&&segdist(b,q.a,q.b)<tol&&q.color==e->color()&&((b[0]-a[0])*(q.b[0]-q.a[0])+(b[1]-a[1])*(q.b[1]-q.a[1])>0)) { ok=true; cover[k]+=dist(a,b); } }
    CHK(ok,"mesh boundary edge is not on a domain edge of its colour and direction",a[0],a[1],b[0],b[1],e->color(),d); }
  for (size_t k=0;k<c.bdry.size();++k) CHK(std::fabs(cover[k]-dist(c.bdry[k].a,c.bdry[k].b))<1e-7*L,"domain edge not covered",k,cover[k],d);
  if (fixed) for (auto p:c.fixedv) { bool ok=false; for (auto v:vs) if (dist(pt(*v),p)==0&&v->is_fixed()) ok=true; CHK(ok,"fixed vertex is not a mesh vertex",p[0],p[1],d); }
  if (fixede) for (auto& s:c.fixede) { double cov=0; for (auto& q:ie) { P2 a=pt(*q.first), b=pt(*q.second); if (segdist(a,s.first,s.second)<tol&&segdist(b,s.first,s.second)<tol) cov+=dist(a,b); }
    CHK(std::fabs(cov-dist(s.first,s.second))<1e-7*L,"fixed edge not covered by mesh edges",cov,d); }
  // vertex lists
  std::map<const Vertex*,std::multiset<const void*>> me, mf;
  for (auto& e:m.interior_edges()) { me[&e->v1()].insert(e.get()); me[&e->v2()].insert(e.get()); }
  for (auto& e:m.boundary_edges()) { me[&e->v1()].insert(e.get()); me[&e->v2()].insert(e.get()); }
  for (auto& e:els) for (auto v:e.v) mf[v].insert(e.f);
  for (auto v:vs) { std::multiset<const void*> a,b; for (auto e:v->edges()) a.insert(e); for (auto f:v->facets()) b.insert(f); CHK(a==me[v],"edges of a vertex",a.size(),me[v].size(),d); CHK(b==mf[v],"facets of a vertex",b.size(),mf[v].size(),d); }
  for (auto v:vs) if (v->on_boundary() && !v->is_fixed()) { bool on=false; for (auto e:v->edges()) on=on||e->on_boundary(); CHK(on,"vertex flagged as boundary without boundary edge",d); }
}
static const Facet* nbr(const El& e, int s) { if (e.kind==4) return static_cast<const Quad*>(e.f)->neighbor(s); return static_cast<const Triangle*>(e.f)->neighbor(s); }
// neighbour relation after setup_facet_connectivity
static void check_conn(Mesh& m, const std::string& d)
{
  MeshCleanup::assign_mesh_indices(m); MeshCleanup::setup_facet_connectivity(m);
  auto els=elements(m); std::map<std::pair<const Vertex*,const Vertex*>,const El*> half; int k=0;
  for (auto& e:els) { for (size_t i=0;i<e.v.size();++i) half[{e.v[i],e.v[(i+1)%e.v.size()]}]=&e; CHK(e.f->index()==k,"element index",e.f->index(),k,d); ++k; }
  k=0; for (auto& v:m.vertices()) { CHK((int)v->index()==k,"vertex index",d); ++k; }
  for (auto& e:els) for (size_t i=0;i<e.v.size();++i) { auto a=e.v[i], b=e.v[(i+1)%e.v.size()]; int s=e.f->get_edge_index(*a,*b); CHK(s>=0,"edge slot",d);
    const Facet* n=nbr(e,s); auto it=half.find({b,a}); if (it==half.end()) CHK(bad(n),"neighbour across a boundary edge",d); else CHK(n==it->second->f,"wrong neighbour",d); }
  auto H2=[&](const Vertex& a,const Vertex& b){ auto it=half.find({&a,&b}); return it==half.end()?nullptr:it->second->f; };
  for (auto& e:m.interior_edges()) { CHK(e->facet_l()==H2(e->v1(),e->v2()),"left facet of an interior edge",d); CHK(e->facet_r()==H2(e->v2(),e->v1()),"right facet of an interior edge",d); }
  for (auto& e:m.boundary_edges()) CHK(e->facet_l()==H2(e->v1(),e->v2()),"left facet of a boundary edge",d);
  CHK(m.get_front_edges().empty(),"front edges remain",d);
}
template <class T,class C> static void idx(const C& cont, const std::string& d, double R)
{
  std::vector<T*> all; for (auto& x:cont) all.push_back(const_cast<T*>(x.get()));
  for (int r=0;r<4;++r) { T* q=all[H::ri(0,all.size()-1)]; Vec2d c=q->xy(); c.x+=H::rd(-R,R); c.y+=H::rd(-R,R); double rad=R*H::rd(0.1,2);
    std::set<T*> want,got; bool tie=false; for (auto x:all) { double z=(x->xy()-c).norm_sqr()-rad*rad; if (std::fabs(z)<1e-12) tie=true; if (z<0) want.insert(x); }
    for (auto x:cont.get_items(c,rad)) got.insert(x); if (!tie) CHK(got==want,"range query",c.x,c.y,rad,got.size(),want.size(),d); }
}
static void check_index(Mesh& m, const Case& c, const std::string& tag)
{ std::string d=tag+c.txt; double R=2*c.h; idx<Vertex>(m.vertices(),d,R); if (m.n_triangles()) idx<Triangle>(m.triangles(),d,R); if (m.n_quads()) idx<Quad>(m.quads(),d,R); if (m.n_interior_edges()) idx<Edge>(m.interior_edges().edges(),d,R); idx<Edge>(m.boundary_edges().edges(),d,R); }
static void quiet() { for (int k=0;k<1;++k) { LOG_PROPERTIES.set_level(ERROR); LOG_PROPERTIES.set_error_ostream(TO_FILE,"/dev/null"); LOG_PROPERTIES.set_warn_ostream(TO_FILE,"/dev/null"); LOG_PROPERTIES.set_info_ostream(TO_FILE,"/dev/null"); } }
