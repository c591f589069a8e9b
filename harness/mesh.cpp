// P16 triangulation, P18 refinement, P19 triangles to quads, P20 smoothing
#include "meshcase.h"
struct Snap { std::vector<Vertex*> v; std::vector<P2> p; std::map<const Vertex*,size_t> at; std::vector<std::pair<Facet*,std::vector<Vertex*>>> els; };
static Snap snap(Mesh& m) { Snap s; for (auto& v:m.vertices()) { s.at[v.get()]=s.v.size(); s.v.push_back(v.get()); s.p.push_back(pt(*v)); } for (auto& e:elements(m)) s.els.push_back({e.f,e.v}); return s; }
static void check_complete(Mesh& m, Case& c, const std::string& what, bool ec=true, bool fixed=true, bool fixede=false)
{ check_mesh(m,c,what,ec,fixed,fixede); check_conn(m,what+c.txt); check_index(m,c,what); }
static bool strict_quad(const std::vector<Vertex*>& v) { for (int i=0;i<4;++i) if (cr(pt(*v[i]),pt(*v[(i+1)%4]),pt(*v[(i+2)%4]))<=0) return false; return true; }

static void refine(MeshGenerator& g, Mesh& m, Case& c)
{
  if (H::ri(0,1)) { int nc=H::ri(1,4); for (auto& e:elements(m)) e.f->color(5+H::ri(0,nc)); }   // as after merging meshes of different colours
  size_t V=m.n_vertices(), E=m.n_interior_edges()+m.n_boundary_edges(), B=m.n_boundary_edges(), T=m.n_triangles(), Q=m.n_quads();
  std::map<P2,std::array<int,3>> old; for (auto& v:m.vertices()) old[pt(*v)]={v->on_boundary(),v->is_fixed(),v->in_quad_layer()};
  std::vector<P2> mids; for (auto& e:m.interior_edges()) mids.push_back({0.5*(pt(e->v1())[0]+pt(e->v2())[0]),0.5*(pt(e->v1())[1]+pt(e->v2())[1])});
  std::map<P2,int> bm; for (auto& e:m.boundary_edges()) bm[{0.5*(pt(e->v1())[0]+pt(e->v2())[0]),0.5*(pt(e->v1())[1]+pt(e->v2())[1])}]=e->color();
  std::vector<std::pair<P2,int>> cent; bool concave=false;
  for (auto& e:elements(m)) { P2 q{0,0}; for (auto v:e.v) { q[0]+=pt(*v)[0]; q[1]+=pt(*v)[1]; } cent.push_back({{q[0]/e.kind,q[1]/e.kind},e.color}); if (e.kind==4&&!strict_quad(e.v)) concave=true; }
  H::doing="refinement "+c.txt;
  if (concave) return;    // a sub-quad of a concave quad can be turned over: no guarantee
  CHK(g.quad_refinement(m).refine(),"refinement failed",c.txt);
  CHK(m.n_triangles()==0&&m.n_quads()==3*T+4*Q,"refined quads",m.n_quads(),T,Q,c.txt);
  CHK(m.n_vertices()==V+E+T+Q,"refined vertices",m.n_vertices(),V,E,T,Q,c.txt);
  CHK(m.n_boundary_edges()==2*B&&m.n_interior_edges()==2*(E-B)+3*T+4*Q,"refined edges",c.txt);
  std::map<P2,const Vertex*> now; for (auto& v:m.vertices()) { CHK(!now.count(pt(*v)),"duplicate vertex",c.txt); now[pt(*v)]=v.get(); }
  auto findn=[&](P2 p)->const Vertex* { auto it=now.find(p); if (it!=now.end()) return it->second; for (auto& k:now) if (dist(k.first,p)<1e-9*c.h) return k.second; return nullptr; };
  for (auto& o:old) { auto it=now.find(o.first); CHK(it!=now.end(),"coarse vertex lost",o.first[0],o.first[1],c.txt); auto v=it->second;
    CHK(v->on_boundary()==o.second[0]&&v->is_fixed()==o.second[1]&&v->in_quad_layer()==o.second[2],"flags of a coarse vertex changed",c.txt); }
  for (auto& p:mids) { auto v=findn(p); CHK(v&&!v->on_boundary(),"edge midpoint",p[0],p[1],c.txt); }
  for (auto& p:bm) { auto v=findn(p.first); CHK(v&&v->on_boundary(),"boundary edge midpoint",c.txt); }
  for (auto& e:cent) { auto v=findn(e.first); CHK(v,"element centre",c.txt); for (auto f:v->facets()) CHK(f->color()==e.second,"colour of sub-elements",f->color(),e.second,c.txt); }
  check_complete(m,c,"refinement",false);
}

static void tri2quad(MeshGenerator& g, Mesh& m, Case& c)
{
  bool multi=H::ri(0,2)==0; if (multi) { P2 o=pt(**m.vertices().begin()); int ax=H::ri(0,1); for (auto& e:elements(m)) { double x=0; for (auto v:e.v) x+=pt(*v)[ax]/e.kind; e.f->color(x<o[ax]+0.3*c.h?5:6); } }
  std::map<int,double> ca; for (auto& e:elements(m)) ca[e.color]+=parea(e.v);
  Snap s=snap(m); size_t T=m.n_triangles(), Q=m.n_quads(); std::map<P2,bool> fix; for (auto& v:m.vertices()) fix[pt(*v)]=v->is_fixed(); std::set<int> cols; for (auto& e:elements(m)) cols.insert(e.color);
  H::doing="tri2quad "+c.txt; CHK(g.tri2quad_modification(m).modify(),"modification failed",c.txt);
  check_complete(m,c,"tri2quad",ca.size()==1&&ca.count(m.element_color()));
  std::map<int,double> cb; for (auto& e:elements(m)) cb[e.color]+=parea(e.v); CHK(ca.size()==cb.size(),"colours",c.txt); for (auto& k:ca) CHK(H::near(cb[k.first],k.second,1e-7),"area of an element colour changed",k.first,k.second,cb[k.first],c.txt);
  CHK(m.n_vertices()<=s.v.size(),"vertices added",c.txt);
  for (auto& v:m.vertices()) CHK(fix.count(pt(*v)),"vertex moved or added",c.txt);
  // as many triangles vanish as quads appear, twice
  size_t lost=s.v.size()-m.n_vertices(); CHK(m.n_triangles()+2*(m.n_quads()-Q)==T-2*lost||lost>0,"element count",T,Q,m.n_triangles(),m.n_quads(),c.txt);
  CHK(m.n_triangles()+2*m.n_quads()+2*lost==T+2*Q,"element count balance",T,Q,m.n_triangles(),m.n_quads(),lost,c.txt);
  std::map<std::pair<const Vertex*,const Vertex*>,int> half; for (auto& e:elements(m)) for (size_t i=0;i<e.v.size();++i) half[{e.v[i],e.v[(i+1)%e.v.size()]}]=e.kind==4?-1:e.color;
  if (lost==0) for (auto& h:half) { auto it=half.find({h.first.second,h.first.first}); if (it!=half.end()) CHK(h.second==-1||it->second==-1||h.second!=it->second,"two adjacent triangles left",c.txt); }
}

// one smoothing pass: predicted displacement of a vertex from given positions
static P2 lap(const Snap& s, const std::vector<P2>& pos, size_t i)
{ double x=0,y=0; int n=0; for (auto& e:s.els) { bool in=false; for (auto v:e.second) in=in||v==s.v[i]; if (in) for (auto v:e.second) if (v!=s.v[i]) { auto& q=pos[s.at.at(v)]; x+=q[0]; y+=q[1]; ++n; } }
  return {x/n-pos[i][0],y/n-pos[i][1]}; }
static void smooth(MeshGenerator& g, Mesh& m, Case& c)
{
  Snap s=snap(m); int kind=H::ri(0,3); int n=kind==3?1:H::ri(1,4); bool ql=H::ri(0,1); double eps=H::rd(0.1,1.0);
  std::string d="smoothing kind "+std::to_string(kind)+" n "+std::to_string(n)+" ql "+std::to_string(ql)+" eps "+std::to_string(eps)+c.txt; H::doing=d;
  bool r=true;
  if (kind==0||kind==3) r=g.laplace_smoothing(m).epsilon(eps).decay(1.0).quad_layer_smoothing(ql).smooth(n);
  if (kind==1) r=g.torsion_smoothing(m).epsilon(eps).quad_layer_smoothing(ql).smooth(n);
  if (kind==2) r=g.mixed_smoothing(m).epsilon(eps).quad_layer_smoothing(ql).smooth(n);
  CHK(r,"smoothing failed",d); Snap t=snap(m);
  CHK(t.v==s.v,"vertices changed",d); CHK(t.els==s.els,"elements changed",d);
  for (size_t i=0;i<s.v.size();++i) { auto v=s.v[i]; if (v->on_boundary()||v->is_fixed()||(v->in_quad_layer()&&!ql)) CHK(t.p[i]==s.p[i],"vertex that must stay was moved",s.p[i][0],s.p[i][1],d); }
  check_complete(m,c,d);
  // quad layer vertices do not move towards the nearest boundary edge in the first pass
  if (n==1&&ql) for (size_t i=0;i<s.v.size();++i) { auto v=s.v[i]; if (!v->in_quad_layer()||v->on_boundary()||v->is_fixed()) continue;
    double b1=1e300,b2=1e300; const Edge* ne=nullptr; for (auto& e:m.boundary_edges()) { P2 q{0.5*(pt(e->v1())[0]+pt(e->v2())[0]),0.5*(pt(e->v1())[1]+pt(e->v2())[1])}; double x=dist(q,s.p[i]); if (x<b1) { b2=b1; b1=x; ne=e.get(); } else b2=std::min(b2,x); }
    if (b2-b1<1e-7*c.h) continue; P2 a=pt(ne->v1()),b=pt(ne->v2()); double tt=((s.p[i][0]-a[0])*(b[0]-a[0])+(s.p[i][1]-a[1])*(b[1]-a[1]))/(dist(a,b)*dist(a,b)); tt=std::min(1.0,std::max(0.0,tt)); P2 q{a[0]+tt*(b[0]-a[0]),a[1]+tt*(b[1]-a[1])}; double l=dist(q,s.p[i]); if (l<1e-6*c.h) continue;
    double mv=((t.p[i][0]-s.p[i][0])*(q[0]-s.p[i][0])+(t.p[i][1]-s.p[i][1])*(q[1]-s.p[i][1]))/l; CHK(std::fabs(mv)<1e-8*c.h,"quad layer vertex moved towards the boundary",mv,s.p[i][0],s.p[i][1],d); }
  if (kind!=3) return;
  std::vector<P2> pos=s.p; bool tri=m.n_quads()==0;
  for (size_t i=0;i<s.v.size();++i) { auto v=s.v[i]; if (v->on_boundary()||v->is_fixed()||v->in_quad_layer()) { pos[i]=t.p[i]; continue; }
    P2 q=lap(s,pos,i); P2 w{pos[i][0]+eps*q[0],pos[i][1]+eps*q[1]}; bool moved=dist(t.p[i],w)<=1e-9*c.h, stay=t.p[i]==s.p[i];
    CHK(moved||stay,"vertex is neither kept nor moved by epsilon times the mean neighbour offset",t.p[i][0],t.p[i][1],w[0],w[1],d);
    if (tri&&stay&&!moved) { auto o=pos[i]; pos[i]=w; bool okk=true; for (auto& e:s.els) { bool in=false; for (auto u:e.second) in=in||u==v; if (in) { P2 a=pos[s.at.at(e.second[0])],b=pos[s.at.at(e.second[1])],cc=pos[s.at.at(e.second[2])]; if (cr(a,b,cc)<1e-3*c.h*c.h) okk=false; } }
      pos[i]=o; CHK(!okk||c.h<1e-2,"valid move was not made",s.p[i][0],s.p[i][1],w[0],w[1],d); }
    pos[i]=t.p[i]; }
}

int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard(); quiet();
  long ok=0, no=0; const std::string P=H::prop;
  for (long it=0; it<H::n(P=="P16"?200:P=="P20"?120:120); ++it) {
    Case c=make_case(); MeshGenerator g; H::doing=c.txt; Mesh& m=g.new_mesh(*c.dom,1,3);
    if (P=="P20"&&H::ri(0,2)==0) { auto& L=c.loops[0]; size_t a=H::ri(0,L.size()-1),b=H::ri(0,L.size()-1); g.quad_layer_generation(m).n_layers(H::ri(1,2)).first_height(c.h*H::rd(0.1,0.4)).growth_rate(H::rd(1,1.3)).starting_position(L[a][0],L[a][1]).ending_position(L[b][0],L[b][1]).generate_elements(); c.txt="layers "+c.txt; }
    bool s=g.triangulation(m).generate_elements();
    if (!s) { ++no; continue; }
    ++ok;
    if (P=="P16") { check_complete(m,c,"triangulation"); CHK(H::near(m.area(),c.area,1e-7),"mesh area",m.area(),c.area,c.txt);
      bool mc=MeshChecker{m,*c.dom}.check_completeness(); CHK(mc,"complete mesh reported as incomplete",c.txt); }
    if (P=="P18") { if (H::ri(0,1)) { g.tri2quad_modification(m).modify(); } if (H::ri(0,2)==0) m.clear_waste(); refine(g,m,c); if (H::ri(0,4)==0 && m.n_elements()<3000) refine(g,m,c); }
    if (P=="P19") { tri2quad(g,m,c); if (H::ri(0,3)==0) { tri2quad(g,m,c); } }
    if (P=="P20") { int w=H::ri(0,2); if (w==1) g.tri2quad_modification(m).modify(); if (w==2) g.quad_refinement(m).refine(); smooth(g,m,c); smooth(g,m,c); }
  }
  std::cout << ok << " complete, " << no << " unfinished\n";
  CHK(ok>=8*no,"triangulation finishes on too few of the random domains",ok,no);
  return H::done();
}
