// P12 size function, P13 edge lists, P14 boundary shapes and domains
#include "H.h"
#include "STLHeaders.h"
#include "CppUtils.h"
#include "MeshGenerator.h"
using namespace CppUtils; using namespace TQMesh;
using P2=std::array<double,2>;
static std::string ps(const std::vector<P2>& p){ std::ostringstream o; o<<std::setprecision(17); for(auto&q:p) o<<q[0]<<","<<q[1]<<" "; return o.str(); }
static std::vector<P2> poly(bool grid)
{ // random star-shaped simple polygon, counter-clockwise
  int n=H::ri(3,9); double S=grid?1:std::pow(10.0,H::rd(-1,2)); std::vector<P2> p; double x0=grid?H::ri(-20,20):H::rd(-5,5)*S, y0=grid?H::ri(-20,20):H::rd(-5,5)*S; double ph=H::rd(0,6);
  for (int i=0;i<n;++i) { double a=ph+2*M_PI*(i+H::rd(0,0.6))/n, r=(grid?10:S)*H::rd(0.4,1.0); double x=x0+r*std::cos(a), y=y0+r*std::sin(a); if (grid) { x=std::round(x); y=std::round(y); } p.push_back({x,y}); }
  return p; }
static double area2(const std::vector<P2>& p){ double a=0; for(size_t i=0;i<p.size();++i){auto&u=p[i];auto&v=p[(i+1)%p.size()]; a+=(u[0]-p[0][0])*(v[1]-p[0][1])-(v[0]-p[0][0])*(u[1]-p[0][1]);} return a; }
static bool distinct(const std::vector<P2>& p){ return std::set<P2>(p.begin(),p.end()).size()==p.size(); }
static double cr(P2 a,P2 b,P2 c){ return (b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0]); }
static bool onseg(P2 a,P2 b,P2 p){ return cr(a,b,p)==0 && std::min(a[0],b[0])<=p[0]&&p[0]<=std::max(a[0],b[0])&&std::min(a[1],b[1])<=p[1]&&p[1]<=std::max(a[1],b[1]); }
static int sgn(double x){ return (x>0)-(x<0); }
static bool inter(P2 a,P2 b,P2 c,P2 d){ auto open=[](P2 a,P2 b,P2 p){ return onseg(a,b,p)&&p!=a&&p!=b; }; int s1=sgn(cr(a,b,c)),s2=sgn(cr(a,b,d)),s3=sgn(cr(c,d,a)),s4=sgn(cr(c,d,b)); return (s1*s2<0&&s3*s4<0)||open(a,b,c)||open(a,b,d)||open(c,d,a)||open(c,d,b); }
static bool simple(const std::vector<P2>& p){ size_t n=p.size(); for(size_t i=0;i<n;++i) for(size_t j=i+1;j<n;++j) if (inter(p[i],p[(i+1)%n],p[j],p[(j+1)%n])) return false; return distinct(p); }
static bool inside(const std::vector<P2>& p,P2 q){ size_t n=p.size(); for(size_t i=0;i<n;++i) if(onseg(p[i],p[(i+1)%n],q)) return true; int w=0; for(size_t i=0;i<n;++i){auto a=p[i],b=p[(i+1)%n]; if(a[1]<=q[1]){ if(b[1]>q[1]&&cr(a,b,q)>0)++w; } else if(b[1]<=q[1]&&cr(a,b,q)<0)--w; } return w!=0; }
// ---------------------------------------------------------------- P13
static void lists()
{
  for (long it=0;it<H::n(4000);++it) {
    auto p=poly(true); if (!distinct(p)) continue; size_t n=p.size(); std::string d=ps(p); H::doing=d;
    Vertices V{200.0}; EdgeList L{Orientation::CCW}; std::vector<Vertex*> v; for(auto&q:p) v.push_back(&V.push_back(q[0],q[1]));
    std::vector<Edge*> e; for(size_t i=0;i<n;++i) e.push_back(&L.add_edge(*v[i],*v[(i+1)%n],(int)i));
    CHK(L.size()==n,"size",d); CHK(L.area()==0.5*area2(p),"area of the ring",L.area(),0.5*area2(p),d);
    bool si=false; for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) if(j!=i&&j!=(i+1)%n&&(j+1)%n!=i) si=si||inter(p[i],p[(i+1)%n],p[j],p[(j+1)%n]);
    CHK(L.intersects_self()==si,"self intersection",si,d);
    CHK(L.is_traversable(*e[0],*e[0]),"closed ring traversable",d);
    for(size_t i=0;i<n;++i) { CHK(e[i]->get_next_edge()==e[(i+1)%n],"next",d); CHK(e[(i+1)%n]->get_prev_edge()==e[i],"previous",d);
      for(size_t j=0;j<n;++j) { Edge* w=(j==(i+1)%n)?e[i]:nullptr; CHK(L.get_edge(*v[i],*v[j],true)==w,"directed lookup",i,j,d); Edge* u=w?w:((i==(j+1)%n)?e[j]:nullptr); CHK(L.get_edge(*v[i],*v[j])==u,"undirected lookup",i,j,d); }
      CHK(L.get_edge(*v[i],1)==e[i]&&L.get_edge(*v[i],2)==e[(i+n-1)%n],"lookup by position",d); auto q=L.get_edge(*v[i],0); CHK(q==e[i]||q==e[(i+n-1)%n],"lookup by vertex",d); }
    if (simple(p)) for (int k=0;k<20;++k) { P2 q{(double)H::ri(-30,30),(double)H::ri(-30,30)}; int m=H::ri(0,n-1); if (H::ri(0,3)==0) q=p[m]; else if (H::ri(0,3)) q={p[m][0]+H::ri(-4,4),p[m][1]+H::ri(-4,4)}; if (H::ri(0,3)==0) q={0.5*(p[m][0]+p[(m+1)%n][0]),0.5*(p[m][1]+p[(m+1)%n][1])};
      CHK(L.is_inside(Vec2d{q[0],q[1]})==inside(p,q),"inside the ring",q[0],q[1],inside(p,q),d); }
    { P2 q{(double)H::ri(-40,40),(double)H::ri(-40,40)}; double b=1e300; for(auto&x:p) b=std::min(b,std::hypot(x[0]-q[0],x[1]-q[1])); Vertex& w=L.get_closest_vertex({q[0],q[1]}); CHK(H::near(std::hypot(w.xy().x-q[0],w.xy().y-q[1]),b),"closest vertex",q[0],q[1],d);
      Edge* ne=L.get_nearest_edge({q[0],q[1]}); double bb=1e300; for(auto x:e) bb=std::min(bb,(x->xy()-Vec2d{q[0],q[1]}).norm_sqr()); CHK(ne&&(ne->xy()-Vec2d{q[0],q[1]}).norm_sqr()==bb,"nearest edge",d); }
    { // another ring
      auto r=poly(true); if (distinct(r)) { EdgeList M{Orientation::CCW}; std::vector<Vertex*> u; for(auto&q:r) u.push_back(&V.push_back(q[0],q[1])); bool x=false; for(size_t i=0;i<r.size();++i) { M.add_edge(*u[i],*u[(i+1)%r.size()],0); for(size_t j=0;j<n;++j) x=x||inter(r[i],r[(i+1)%r.size()],p[j],p[(j+1)%n]); }
        CHK(L.intersects_edgelist(M)==x,"ring intersects ring",x,d,"other",ps(r)); CHK(M.intersects_edgelist(L)==x,"ring intersects ring",x,d,"other",ps(r)); } }
    // disconnected edges are refused
    if (n>3) { EdgeList M{Orientation::CCW}; M.add_edge(*v[0],*v[1],0); bool t=false; try { M.add_edge(*v[2],*v[3],0); } catch (std::runtime_error&) { t=true; } CHK(t&&M.size()==1,"unconnected edge accepted",d); }
    // open chains are not traversable
    { size_t k=H::ri(0,n-1); EdgeList M{Orientation::NONE}; std::vector<Edge*> me; for(size_t i=0;i<n;++i) if(i!=k) me.push_back(&M.add_edge(*v[i],*v[(i+1)%n],0)); CHK(!M.is_traversable(*me[0],*me[0]),"open chain traversable",d); Edge* first=M.get_edge(*v[(k+1)%n],1); Edge* last=M.get_edge(*v[k],2); if (n>2) CHK(M.is_traversable(*first,*last),"chain not traversable",d); M.clear_edges(); CHK(M.size()==0,"clear",d); }
    // splits and removals
    for (int r=0;r<3;++r) {
      size_t m=L.size(); int k=H::ri(0,m-1); Edge& ed=L[k]; Vertex *a=&ed.v1(),*b=&ed.v2(); double s=H::ri(1,7)/8.0; int col=ed.color(); P2 A{a->xy().x,a->xy().y},B{b->xy().x,b->xy().y}; bool prop=H::ri(0,1); if (prop) { ed.add_property(EdgeProperty::on_boundary); a->add_property(VertexProperty::on_boundary); b->add_property(VertexProperty::on_boundary); }
      size_t nv=V.size(); CHK(L.split_edge(ed,V,0.0).first==nullptr&&L.split_edge(ed,V,1.0).first==nullptr&&L.size()==m,"split outside (0,1)",d);
      EdgeList other{Orientation::NONE}; CHK(other.split_edge(ed,V,0.5).first==nullptr,"split of a foreign edge",d);
      bool ob=ed.on_boundary(); auto pr=L.split_edge(ed,V,s); CHK(pr.first&&pr.second&&L.size()==m+1&&V.size()==nv+1,"split",d); Vertex& w=pr.first->v2();
      CHK(&pr.first->v1()==a&&&pr.second->v2()==b&&&pr.second->v1()==&w,"ends of the split edges",d); CHK(pr.first->color()==col&&pr.second->color()==col,"colour after split",d);
      CHK(w.xy().x==s*A[0]+(1-s)*B[0]&&w.xy().y==s*A[1]+(1-s)*B[1],"split position",s,d); CHK(pr.first->on_boundary()==ob&&pr.second->on_boundary()==ob,"flags after split",d); if (ob) CHK(w.on_boundary(),"flag of the new vertex",d); else CHK(!w.on_boundary(),"flag of the new vertex",d);
      CHK(&L[k]==pr.first&&&L[k+1]==pr.second,"order after split",d); CHK(pr.first->get_next_edge()==pr.second,"ring after split",d); CHK(H::near(L.area(),0.5*area2(p),1e-12),"area after split",L.area(),0.5*area2(p),s,k,d);
      CHK(L.get_edge(*a,*b)==nullptr,"split edge still found",d); CHK(L.is_traversable(L[0],L[0]),"ring after split traversable",d);
    }
  }
}
// ---------------------------------------------------------------- P14
static void shapes()
{
  for (long it=0;it<H::n(2500);++it) {
    Domain D{[](const Vec2d&){return 1.0;},std::ldexp(1.0,14)}; bool ext=H::ri(0,1); double want=0;
    auto put=[&](Boundary& b,bool ex,std::vector<P2>& p,std::vector<int>& cols,std::vector<P2>& props,bool useprops) {
      std::vector<Vec2d> c,q; for(auto&x:p) c.push_back({x[0],x[1]}); for(auto&x:props) q.push_back({x[0],x[1]}); if (useprops) b.set_shape_from_coordinates(c,cols,q); else b.set_shape_from_coordinates(c,cols); };
    auto p=poly(H::ri(0,1)); if (!simple(p)) continue; if (H::ri(0,1)) std::reverse(p.begin(),p.end()); size_t n=p.size(); std::vector<int> cols; std::vector<P2> props; for(size_t i=0;i<n;++i) { cols.push_back(H::ri(0,9)); props.push_back({H::ri(1,9)/8.0,H::ri(1,9)/4.0}); }
    std::string d=ps(p)+(ext?"exterior":"interior"); H::doing=d; bool up=H::ri(0,1);
    Boundary& b=ext?D.add_exterior_boundary():D.add_interior_boundary(); put(b,ext,p,cols,props,up);
    CHK(b.size()==n&&D.vertices().size()==n,"shape size",b.size(),D.vertices().size(),d); CHK(b.is_exterior()==ext&&b.is_interior()!=ext,"kind",d);
    double a=std::fabs(area2(p))*0.5; CHK(H::near(b.area(),ext?a:-a,1e-11),"orientation of the boundary",b.area(),a,d); CHK(H::near(D.area(),b.area(),0),"domain area",d);
    bool fw=(area2(p)>0)==ext; std::map<P2,int> ix; for(size_t i=0;i<n;++i) ix[p[i]]=i; CHK(b.is_traversable(b[0],b[0]),"shape not closed",d);
    for(auto&e:b) { P2 s{e->v1().xy().x,e->v1().xy().y},t{e->v2().xy().x,e->v2().xy().y}; CHK(ix.count(s)&&ix.count(t),"shape vertex",d); int i=ix[s],j=ix[t]; CHK(j==(fw?(i+1)%(int)n:(i+(int)n-1)%(int)n),"shape edges connect consecutive points",i,j,d); CHK(e->color()==cols[i],"colour of a shape edge",i,e->color(),cols[i],d); CHK(e->on_boundary(),"boundary flag",d);
      if (up) CHK(e->v1().mesh_size()==props[i][0]&&e->v1().size_range()==props[i][1],"size of a shape vertex",d); }
    for (int k=0;k<8;++k) { P2 q{p[0][0]+H::rd(-25,25),p[0][1]+H::rd(-25,25)}; Vec2d xy{q[0],q[1]}; bool w=inside(p,q); CHK(b.is_inside(xy)==w,"inside",q[0],q[1],d); Vertex vq{q[0],q[1],0,0}; CHK(D.is_inside(vq)==(ext?w:!w),"inside the domain",q[0],q[1],d); }
    // further shapes replace nothing
    { size_t s=b.size(); b.set_shape_circle(3,{0.0,0.0},1.0,8); CHK(b.size()==s,"second shape",d); }
    { double x0=1e9,x1=-1e9,y0=1e9,y1=-1e9; for(auto&v:D.vertices()){x0=std::min(x0,v->xy().x);x1=std::max(x1,v->xy().x);y0=std::min(y0,v->xy().y);y1=std::max(y1,v->xy().y);} auto e=D.extent(); CHK(e.first[0]==x0&&e.first[1]==x1&&e.second[0]==y0&&e.second[1]==y1,"extent",e.first[0],x0,e.second[0],y0,d); }
    // built-in shapes
    { Domain E{[](const Vec2d&){return 1.0;},std::ldexp(1.0,14)}; Boundary& s=ext?E.add_exterior_boundary():E.add_interior_boundary(); double x=H::rd(-50,50),y=H::rd(-50,50),w=H::rd(1,20),h=H::rd(1,20); int k=H::ri(0,3), c=H::ri(0,7); size_t m=H::ri(3,40); double ms=H::rd(0,1),mr=H::rd(0,1); double A=0; size_t N=4; H::doing="built-in shape "+std::to_string(k)+" "+std::to_string(m);
      if (k==0) { s.set_shape_rectangle(c,{x,y},w,h,ms,mr); A=w*h; } if (k==1) { s.set_shape_square(c,{x,y},w,ms,mr); A=w*w; } if (k==2) { s.set_shape_triangle(c,{x,y},w,ms,mr); A=std::sqrt(3.0)/4*w*w; N=3; } if (k==3) { s.set_shape_circle(c,{x,y},w,m,ms,mr); A=0.5*m*w*w*std::sin(2*M_PI/m); N=m; }
      CHK(s.size()==N&&E.vertices().size()==N,"built-in shape size",k,N,s.size()); CHK(H::near(s.area(),ext?A:-A,1e-9),"built-in shape area",k,x,y,w,h,m,s.area(),A); double cx=0,cy=0; for(auto&e:s) { CHK(e->color()==c,"built-in shape colour",k); CHK(e->v1().mesh_size()==ms&&e->v1().size_range()==mr,"built-in shape sizes",k); cx+=e->v1().xy().x/N; cy+=e->v1().xy().y/N; if (k==2) CHK(H::near(e->length(),w,1e-9),"side of the triangle",e->length(),w); if (k==3) CHK(H::near((e->v1().xy()-Vec2d{x,y}).norm(),w,1e-9),"radius of the circle",w); }
      CHK(H::near(cx,x,1e-9)&&H::near(cy,y,1e-9),"built-in shape centre",k,cx,x,cy,y); CHK(s.is_traversable(s[0],s[0]),"built-in shape closed",k); }
    // csv
    if (H::ri(0,3)==0) { std::string fn="shape.csv"; { std::ofstream o(fn); o<<std::setprecision(17); for(size_t i=0;i<n;++i) { o<<p[i][0]<<","<<p[i][1]<<","<<cols[i]; if (up) o<<","<<props[i][0]<<","<<props[i][1]; o<<"\n"; } }
      Domain E{[](const Vec2d&){return 1.0;},std::ldexp(1.0,14)}; Boundary& s=ext?E.add_exterior_boundary():E.add_interior_boundary(); s.set_shape_from_csv(fn); CHK(s.size()==n,"csv shape",s.size(),n,d); for(size_t i=0;i<n;++i) { CHK(s[i].v1().xy().x==b[i].v1().xy().x&&s[i].v1().xy().y==b[i].v1().xy().y&&s[i].color()==b[i].color(),"csv shape edge",i,d); if (up) CHK(s[i].v1().mesh_size()==b[i].v1().mesh_size()&&s[i].v1().size_range()==b[i].v1().size_range(),"csv shape sizes",d); }
      int bad=H::ri(0,2); { std::ofstream o(fn); o<<"0,0,1\n"; if (bad==0) o<<"1,x,1\n"; if (bad==1) o<<"1,0,-1\n"; if (bad==2) o<<"1\n"; o<<"0,1,1\n"; } bool t=false; Domain F; try { F.add_exterior_boundary().set_shape_from_csv(fn); } catch (...) { t=true; } CHK(t&&F[0].size()==0,"bad csv accepted",bad); std::remove(fn.c_str()); }
  }
  // domains with several boundaries
  for (long it=0;it<H::n(400);++it) {
    Domain D{[](const Vec2d&){return 1.0;},512.0}; double R=H::rd(20,40); D.add_exterior_boundary().set_shape_circle(1,{0.0,0.0},R,H::ri(8,30)); std::vector<std::vector<P2>> h; std::vector<P2> ex; for(auto&e:D[0]) ex.push_back({e->v1().xy().x,e->v1().xy().y}); int k=H::ri(0,3); double A=D[0].area();
    for(int i=0;i<k;++i) { double a=2*M_PI*i/3; Boundary& b=D.add_interior_boundary(); b.set_shape_circle(2+i,{10*std::cos(a),10*std::sin(a)},H::rd(1,4),H::ri(3,12)); std::vector<P2> q; for(auto&e:b) q.push_back({e->v1().xy().x,e->v1().xy().y}); h.push_back(q); A+=b.area(); }
    CHK(H::near(D.area(),A,1e-12)&&D.size()==(size_t)k+1,"domain area is the signed sum",D.area(),A,k); CHK(EntityChecks::check_domain_validity(D),"valid domain refused",R,k);
    for(int q=0;q<25;++q) { P2 x{H::rd(-1.2*R,1.2*R),H::rd(-1.2*R,1.2*R)}; bool w=inside(ex,x); for(auto&g:h) w=w&&!inside(g,x); CHK(D.is_inside(Vertex{x[0],x[1],0,0})==w,"inside a domain with holes",x[0],x[1],R,k); }
    double r=H::rd(0.5,20); Vec2d c{H::rd(-R,R),H::rd(-R,R)}; std::set<Edge*> w,g; for(auto&b:D) for(auto&e:*b) if ((e->xy()-c).norm_sqr()<r*r) w.insert(e.get()); auto f=D.get_boundary_edges(c,r); for(auto e:f) g.insert(e); CHK(w==g&&f.size()==g.size(),"boundary edges near a point",c.x,c.y,r);
    if (k) { size_t n0=D.size(); D.remove_boundary(1); CHK(D.size()==n0-1,"remove boundary"); }
    Domain X; CHK(!EntityChecks::check_domain_validity(X),"domain without boundaries accepted",0); X.add_interior_boundary().set_shape_square(1,{0.0,0.0},1); CHK(!EntityChecks::check_domain_validity(X),"domain without exterior boundary accepted",0);
    Domain Y; Y.add_exterior_boundary().set_shape_square(1,{0.0,0.0},10); double y=H::rd(-4,4); Y.add_interior_boundary().set_shape_rectangle(1,{5.0,y},2,H::rd(0.2,1)); CHK(!EntityChecks::check_domain_validity(Y),"hole crossing the boundary accepted",y);
    Domain Z; { Boundary& b=Z.add_exterior_boundary(); Vertex &a=Z.add_vertex(0,0),&bb=Z.add_vertex(10,0),&cc=Z.add_vertex(10,5),&dd=Z.add_vertex(3,-1+H::rd(-1,0)),&ee=Z.add_vertex(0,5); b.add_edge(a,bb,1); b.add_edge(bb,cc,1); b.add_edge(cc,dd,1); b.add_edge(dd,ee,1); b.add_edge(ee,a,1); } CHK(!EntityChecks::check_domain_validity(Z),"self-intersecting boundary accepted",0);
    Domain W; { Boundary& b=W.add_exterior_boundary(); Vertex &a=W.add_vertex(0,0),&bb=W.add_vertex(10,0),&cc=W.add_vertex(10,5); b.add_edge(a,bb,1); b.add_edge(bb,cc,1); } CHK(!EntityChecks::check_domain_validity(W),"open boundary accepted",0);
    Domain E; E.add_exterior_boundary().set_shape_square(1,{0.0,0.0},10); if(H::ri(0,1)) E.add_interior_boundary(); else E.add_exterior_boundary(); CHK(!EntityChecks::check_domain_validity(E),"boundary without edges accepted",0);
    { // the same defects in any later boundary, exterior or interior
      auto base=[&](Domain& F,int n){ F.add_exterior_boundary().set_shape_square(1,{0.0,0.0},40); for(int j=0;j<n;++j) F.add_interior_boundary().set_shape_square(1,{-15.0+4*j,-15.0},1); };
      auto bd=[&](Domain& F)->Boundary&{ if(H::ri(0,1)) return F.add_interior_boundary(); return F.add_exterior_boundary(); };
      double y=H::rd(-2,2); int n=H::ri(0,3);
      { Domain F; base(F,n); Boundary& b=bd(F); std::vector<Vertex*> v; for (auto p:std::vector<std::array<double,2>>{{y,0},{y+4,0},{y+4,3},{y+2,-1},{y,3}}) v.push_back(&F.add_vertex(p[0],p[1])); for(int j=0;j<5;++j) b.add_edge(*v[j],*v[(j+1)%5],1); if(H::ri(0,1)) F.add_interior_boundary().set_shape_square(1,{10.0,10.0},1); CHK(!EntityChecks::check_domain_validity(F),"self-intersecting later boundary accepted",n,y); }
      { Domain F; base(F,n); Boundary& b=bd(F); std::vector<Vertex*> v; for (auto p:std::vector<std::array<double,2>>{{y,0},{y+4,0},{y+4,3}}) v.push_back(&F.add_vertex(p[0],p[1])); b.add_edge(*v[0],*v[1],1); b.add_edge(*v[1],*v[2],1); if(H::ri(0,1)) F.add_interior_boundary().set_shape_square(1,{10.0,10.0},1); CHK(!EntityChecks::check_domain_validity(F),"open later boundary accepted",n,y); }
      { Domain F; base(F,n); bd(F).set_shape_rectangle(1,{y,0.0},2,4); bd(F).set_shape_rectangle(1,{y+0.3,0.4},5,1); if(H::ri(0,1)) F.add_interior_boundary().set_shape_square(1,{10.0,10.0},1); CHK(!EntityChecks::check_domain_validity(F),"crossing boundaries accepted",n,y); }
    }
    // fixed entities
    Vertex& fa=D.add_fixed_vertex(0.0,0.0); Vertex& fb=D.add_fixed_vertex(0.0,1.0,0.5,2.0); Edge& fe=D.add_fixed_edge(fa,fb); CHK(fa.is_fixed()&&fb.is_fixed()&&fe.is_fixed()&&D.fixed_vertices().size()==2&&D.fixed_edges().size()==1&&fb.mesh_size()==0.5&&fb.size_range()==2.0,"fixed entities"); D.remove_fixed_edge(fe); CHK(D.fixed_edges().size()==0&&fa.edges().empty()&&fb.edges().empty(),"fixed edge removed"); D.remove_fixed_vertex(fa); CHK(D.fixed_vertices().size()==1&&D.fixed_vertices()[0]==&fb,"fixed vertex removed");
  }
}
// ---------------------------------------------------------------- P12
static void sizes()
{
  for (long it=0;it<H::n(3000);++it) {
    double base=H::rd(0.05,5), gx=H::rd(-0.02,0.02)*base; auto f=[base,gx](const Vec2d& p){ return base+gx*p.x; };
    Domain D{f,2048.0}; auto p=poly(false); for (auto&q:p) { q[0]=std::fmod(q[0],20); q[1]=std::fmod(q[1],20); } if (!distinct(p)) continue; std::string d=ps(p)+" h="+std::to_string(base); H::doing=d; size_t n=p.size();
    Boundary& b=D.add_exterior_boundary(); std::vector<Vertex*> v; for(auto&q:p) { double m=H::ri(0,2)?0.0:H::rd(0.01,3)*base, r=H::ri(0,2)?0.0:H::rd(0.1,5); v.push_back(&D.add_vertex(q[0],q[1],m,r)); } for(size_t i=0;i<n;++i) b.add_edge(*v[i],*v[(i+1)%n],1);
    std::vector<Vertex*> fx; int k=H::ri(0,3); for(int i=0;i<k;++i) fx.push_back(&D.add_fixed_vertex(H::rd(-20,20),H::rd(-20,20),H::ri(0,1)?0.0:H::rd(0.01,1.5)*base,H::ri(0,1)?0.0:H::rd(0.1,5)));
    for(int q=0;q<12;++q) { Vec2d x{H::rd(-25,25),H::rd(-25,25)}; int w=H::ri(0,5); if (w==0) x=v[H::ri(0,n-1)]->xy(); if (w==1&&k) x=fx[H::ri(0,k-1)]->xy(); double h0=f(x); if (h0<=0) continue; double want=h0;
      for(size_t i=0;i<n;++i) { Vertex* e[2]={v[i],v[(i+1)%n]}; double L=(e[0]->xy()-e[1]->xy()).norm(), r=std::max(h0/L,L/h0); for(auto u:e) { double s=u->size_range()<=0?L:u->size_range(), z=std::exp(-(x-u->xy()).norm_sqr()/(r*r*s*s)), m=u->mesh_size()<=0?h0:u->mesh_size(); want=std::min(want,z*std::min(m,L)+(1-z)*h0); } }
      for(auto u:fx) if (u->mesh_size()>0) { double s=u->size_range()<=0?h0:u->size_range(), z=std::exp(-(x-u->xy()).norm_sqr()/(s*s)); want=std::min(want,z*u->mesh_size()+(1-z)*h0); }
      double h=D.size_function(x); CHK(std::fabs(h-want)<=1e-10*h0,"size",x.x,x.y,h,want,d); CHK(h>0&&h<=h0*(1+1e-15),"size bounds",h,h0,d); }
    if (it%50==0) { 
      unsigned nx=H::ri(1,15), ny=H::ri(1,15); Vec2d lo{-3.0,-2.0},hi{4.0,5.0}; std::ostringstream o; D.export_size_function(o,lo,hi,nx,ny); std::string s=o.str(); size_t e=s.find('\n'); std::string head=s.substr(0,e); for(auto&c:s) if(c==','||c=='\n') c=' '; std::istringstream in(s.substr(e)); double z; unsigned i=0; while (in>>z) { Vec2d x{lo.x+(i%nx)*(hi.x-lo.x)/nx, lo.y+(i/nx)*(hi.y-lo.y)/ny}; CHK(i<nx*ny&&std::fabs(z-D.size_function(x))<=0.6e-5,"exported size",i,z,D.size_function(x),d); ++i; } CHK(i==nx*ny,"number of exported sizes",i,nx,ny); }
  }
}
int main(int argc,char** argv)
{
  H::init(argc,argv); H::guard(); LOG_PROPERTIES.set_error_ostream(TO_FILE,"/dev/null"); LOG_PROPERTIES.set_warn_ostream(TO_FILE,"/dev/null"); LOG_PROPERTIES.set_info_ostream(TO_FILE,"/dev/null");
  if (H::prop=="P12") sizes(); if (H::prop=="P13") lists(); if (H::prop=="P14") shapes();
  return H::done();
}
