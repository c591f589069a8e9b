// P10 collision queries against exact brute force on integer grids
#include "H.h"
#include "STLHeaders.h"
#include "CppUtils.h"
#include "MeshGenerator.h"
using namespace CppUtils; using namespace TQMesh;
struct I { long x, y; };
static long area2(I a, I b, I c) { return (b.x-a.x)*(c.y-a.y)-(b.y-a.y)*(c.x-a.x); }
static int sg(long v) { return (v>0)-(v<0); }
static bool inseg(I a, I b, I p) { return area2(a,b,p)==0 && (p.x-a.x)*(p.x-b.x)+(p.y-a.y)*(p.y-b.y) < 0; }
static bool cross_(I a, I b, I c, I d) { return sg(area2(a,b,c))*sg(area2(a,b,d)) < 0 && sg(area2(c,d,a))*sg(area2(c,d,b)) < 0; }
static bool inter(I a, I b, I c, I d) { return cross_(a,b,c,d) || inseg(a,b,c) || inseg(a,b,d) || inseg(c,d,a) || inseg(c,d,b); }
using Poly = std::vector<I>;
static bool polyinter(const Poly& p, const Poly& q)
{ for (size_t i=0;i<p.size();++i) for (size_t j=0;j<q.size();++j) if (inter(p[i],p[(i+1)%p.size()],q[j],q[(j+1)%q.size()])) return true; return false; }
static bool seginter(I a, I b, const Poly& p, bool cr)
{ for (size_t i=0;i<p.size();++i) if (cr ? cross_(a,b,p[i],p[(i+1)%p.size()]) : inter(a,b,p[i],p[(i+1)%p.size()])) return true; return false; }
static bool in(I v, const Poly& p) { for (size_t i=0;i<p.size();++i) if (area2(p[i],p[(i+1)%p.size()],v) <= 0) return false; return true; }
static bool inon(I v, const Poly& p) { for (size_t i=0;i<p.size();++i) if (area2(p[i],p[(i+1)%p.size()],v) < 0) return false; return true; }
static Poly scaled(const Poly& p, long k) { Poly q; for (auto a:p) q.push_back({a.x*k,a.y*k}); return q; }
// all positions are multiples of 1/12 with this: centroids of triangles and quads are exact integers on grid*12
static long K = 12;
static Poly gen(int n, int G)
{ for (;;) { Poly p; I o{H::ri(-G,G),H::ri(-G,G)}; for (int i=0;i<n;++i) p.push_back({o.x+H::ri(-4,4),o.y+H::ri(-4,4)});
    bool ok=true; for (int i=0;i<n;++i) if (area2(p[i],p[(i+1)%n],p[(i+2)%n])<=0) ok=false;
    if (ok) { long s=0; for (int i=1;i+1<n;++i) s+=area2(p[0],p[i],p[i+1]); if (s>0) return p; } } }
static I mid(const Poly& p) { I m{0,0}; for (auto a:p) { m.x+=a.x*K; m.y+=a.y*K; } return {m.x/(long)p.size(), m.y/(long)p.size()}; }
static std::string str(const Poly& p) { std::string s="("; for (auto a:p) s+=std::to_string(a.x)+","+std::to_string(a.y)+" "; return s+")"; }
template <class F> static bool any(size_t n, F f) { for (size_t i=0;i<n;++i) if (f(i)) return true; return false; }
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard();
  for (long it = 0; it < H::n(1500); ++it) {
    int G = H::ri(2,9);
    Vertices V(200.0); Triangles T(200.0); Quads Q(200.0);
    std::map<std::pair<long,long>,Vertex*> at;
    auto vert = [&](I a)->Vertex& { auto k=std::make_pair(a.x,a.y); if (at.count(k)) return *at[k]; Vertex& v=V.push_back((double)a.x,(double)a.y); at[k]=&v; return v; };
    std::vector<Poly> tp, qp; std::vector<Triangle*> tt; std::vector<Quad*> qq;
    int nt=H::ri(1,5), nq=H::ri(1,5);
    for (int i=0;i<nt;++i) { tp.push_back(gen(3,G)); auto& p=tp.back(); Triangle& t=T.push_back(vert(p[0]),vert(p[1]),vert(p[2])); t.is_active(H::ri(0,4)>0); tt.push_back(&t); }
    for (int i=0;i<nq;++i) { qp.push_back(gen(4,G)); auto& p=qp.back(); Quad& t=Q.push_back(vert(p[0]),vert(p[1]),vert(p[2]),vert(p[3])); t.is_active(H::ri(0,4)>0); qq.push_back(&t); }
    // exact squared distance in units 1/K
    auto d2=[&](I a, I b){ return (a.x-b.x)*(a.x-b.x)+(a.y-b.y)*(a.y-b.y); };
    double range = H::ri(1,14)+0.37; double R2 = range*range*K*K;
    auto nearb=[&](I a, I b){ return (double)d2(a,b) < R2; };
    // front and domain edges
    Front F; std::vector<std::pair<I,I>> fe;
    for (int i=0;i<6;++i) { I a{H::ri(-G,G),H::ri(-G,G)}, b{a.x+H::ri(-4,4),a.y+H::ri(-4,4)}; if (a.x==b.x&&a.y==b.y) continue; fe.push_back({a,b}); F.add_edge(vert(a),vert(b),1); }
    auto emid=[&](std::pair<I,I> e){ return I{(e.first.x+e.second.x)*K/2,(e.first.y+e.second.y)*K/2}; };
    Domain D{[](const Vec2d&){return 1.0;}, 200.0}; std::vector<std::pair<I,I>> de; Poly outer;
    { long w=H::ri(2,G+3), h=H::ri(2,G+3); outer={{-w,-h},{w,-h},{w,h},{-w,h}};
      Boundary& b=D.add_exterior_boundary(); std::vector<Vertex*> dv; for (auto a:outer) dv.push_back(&D.add_vertex((double)a.x,(double)a.y));
      for (int i=0;i<4;++i) { b.add_edge(*dv[i],*dv[(i+1)%4],1); de.push_back({outer[i],outer[(i+1)%4]}); } }
    auto own=[&](const Poly& p, I v){ return any(p.size(),[&](size_t k){return p[k].x==v.x&&p[k].y==v.y;}); };
    auto kp=[&](I a){ return I{a.x*K,a.y*K}; };
    std::vector<I> vs; for (auto& kv:at) vs.push_back({kv.first.first,kv.first.second});
    for (int kind=0;kind<2;++kind) for (size_t i=0;i<(kind?qp.size():tp.size());++i) {
      const Poly& p = kind?qp[i]:tp[i]; I c=mid(p); Poly ps=scaled(p,K); std::string d=(kind?"quad ":"triangle ")+str(p)+" range "+std::to_string(range);
      for (auto v:vs) { bool want=!own(p,v)&&inon(v,p); bool got=kind?qq[i]->intersects_vertex(*at[{v.x,v.y}]):tt[i]->intersects_vertex(*at[{v.x,v.y}]); CHK(got==want,"one vertex",d,v.x,v.y,want); }
      { bool want=any(vs.size(),[&](size_t k){return nearb(kp(vs[k]),c)&&!own(p,vs[k])&&inon(vs[k],p);}); bool got=kind?qq[i]->intersects_vertex(V,range):tt[i]->intersects_vertex(V,range); CHK(got==want,"vertices near",d,want); }
      { bool want=any(tp.size(),[&](size_t k){ if (!kind&&k==i) return false; if (!tt[k]->is_active()) return false; return nearb(mid(tp[k]),c)&&(polyinter(tp[k],p)||in(mid(tp[k]),ps)||in(c,scaled(tp[k],K))); });
        bool got=kind?qq[i]->intersects_triangle(T,range):tt[i]->intersects_triangle(T,range); CHK(got==want,"triangles near",d,want); }
      { bool want=any(qp.size(),[&](size_t k){ if (kind&&k==i) return false; if (!qq[k]->is_active()) return false; return nearb(mid(qp[k]),c)&&(polyinter(qp[k],p)||in(mid(qp[k]),ps)||in(c,scaled(qp[k],K))); });
        bool got=kind?qq[i]->intersects_quad(Q,range):tt[i]->intersects_quad(Q,range); CHK(got==want,"quads near",d,want); }
      { bool want=any(fe.size(),[&](size_t k){ return nearb(emid(fe[k]),c)&&seginter(fe[k].first,fe[k].second,p,false); });
        bool got=kind?qq[i]->intersects_front(F,range):tt[i]->intersects_front(F,range); CHK(got==want,"front near",d,want); }
      if (!kind) { double ml=0; for (int k=0;k<3;++k) ml=std::max(ml,(double)d2(p[k],p[(k+1)%3])); bool edgecase=false;
        bool want=any(4,[&](size_t k){ double q=(double)d2(emid(de[k]),c)-ml*K*K; if (std::fabs(q)<1e-6) edgecase=true; return q<0&&seginter(de[k].first,de[k].second,p,true); });
        if (!edgecase) CHK(tt[i]->intersects_domain(D)==want,"domain",d,want); }
      else { bool want=any(4,[&](size_t k){ return !inon(p[k],outer); }); CHK(qq[i]->intersects_domain(D)==want,"quad outside domain",d,want); }
      if (kind) { double md=H::ri(0,8)+0.13;
        bool want=any(fe.size(),[&](size_t k){ if (!nearb(emid(fe[k]),c)||own(p,fe[k].first)||own(p,fe[k].second)) return false;
          for (auto v:{fe[k].first,fe[k].second}) for (int e=0;e<4;++e) { I a=p[e],b=p[(e+1)%4]; double L=d2(a,b), t=std::clamp(((v.x-a.x)*(b.x-a.x)+(v.y-a.y)*(b.y-a.y))/L,0.0,1.0), x=a.x+t*(b.x-a.x)-v.x, y=a.y+t*(b.y-a.y)-v.y; if (x*x+y*y<md) return true; } return false; });
        CHK(QuadGeometry::is_too_close(*qq[i],F,range,md)==want,"too close",d,md,want); }
    }
    for (auto v:vs) {
      Vertex& x=*at[{v.x,v.y}];
      bool wt=any(tp.size(),[&](size_t k){return nearb(mid(tp[k]),kp(v))&&!own(tp[k],v)&&inon(v,tp[k]);});
      bool wq=any(qp.size(),[&](size_t k){return nearb(mid(qp[k]),kp(v))&&!own(qp[k],v)&&inon(v,qp[k]);});
      CHK(x.intersects_facet(T,range)==wt,"vertex in triangle",v.x,v.y,range,wt); CHK(x.intersects_facet(Q,range)==wq,"vertex in quad",v.x,v.y,range,wq);
    }
    // vertex against mesh edges
    Mesh M(1,1,200.0); std::vector<Vertex*> mv; for (int i=0;i<8;++i) mv.push_back(&M.add_vertex(Vec2d{(double)H::ri(-G,G)+0.01*i,(double)H::ri(-G,G)}));
    std::vector<std::pair<int,int>> me; for (int i=0;i<8;++i) for (int j=0;j<8;++j) if (i!=j&&H::ri(0,6)==0) { if (H::ri(0,1)) M.add_interior_edge(*mv[i],*mv[j]); else M.add_boundary_edge(*mv[i],*mv[j],1); me.push_back({i,j}); }
    for (int r=0;r<6;++r) { Vertex& x=V.push_back(H::rd(-G,G),H::rd(-G,G)); double lim=H::rd(0.05,3), sr=H::rd(0.5,12); bool tight=false;
      bool want=any(me.size(),[&](size_t k){ Vec2d a=mv[me[k].first]->xy(), b=mv[me[k].second]->xy(); double mx=(a.x+b.x)/2-x.xy().x,my=(a.y+b.y)/2-x.xy().y; double q=mx*mx+my*my-sr*sr; if (std::fabs(q)<1e-6) tight=true; if (q>=0) return false;
        double L=(b.x-a.x)*(b.x-a.x)+(b.y-a.y)*(b.y-a.y), t=std::clamp(((x.xy().x-a.x)*(b.x-a.x)+(x.xy().y-a.y)*(b.y-a.y))/L,0.0,1.0), u=a.x+t*(b.x-a.x)-x.xy().x, w=a.y+t*(b.y-a.y)-x.xy().y; double z=u*u+w*w-lim*lim; if (std::fabs(z)<1e-6) tight=true; return z<=0; });
      if (!tight) CHK(x.intersects_mesh_edges(M,sr,lim)==want,"vertex near mesh edges",x.xy().x,x.xy().y,sr,lim,want); }
  }
  return H::done();
}
