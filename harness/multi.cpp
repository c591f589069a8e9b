// P21 adjacent meshes: conformity, twin edges and merging
#include "meshcase.h"
struct Cell { std::vector<P2> p; int col; };
static P2 mid(P2 a, P2 b) { return {0.5*(a[0]+b[0]),0.5*(a[1]+b[1])}; }
static void check_twins(std::vector<Mesh*>& ms, const std::string& d)
{
  std::map<std::pair<P2,P2>,Edge*> all; for (auto m:ms) for (auto& e:m->boundary_edges()) { auto k=std::make_pair(pt(e->v1()),pt(e->v2())); CHK(!all.count(k),"two boundary edges at the same place",d); all[k]=e.get(); }
  for (auto& kv:all) { auto it=all.find({kv.first.second,kv.first.first}); Edge* t=it==all.end()?nullptr:it->second; CHK(kv.second->twin_edge()==t,t?"facing boundary edges of two meshes are not twins":"twin of a free boundary edge",kv.first.first[0],kv.first.first[1],kv.first.second[0],kv.first.second[1],d); }
  for (auto m:ms) { MeshCleanup::setup_facet_connectivity(*m); std::set<const Edge*> got,want; for (auto e:m->get_interface_edges()) got.insert(e); for (auto& e:m->boundary_edges()) if (e->twin_edge()) want.insert(e.get()); CHK(got==want,"interface edges",got.size(),want.size(),d); }
}
static std::map<int,double> colarea(Mesh& m) { std::map<int,double> a; for (auto& e:elements(m)) a[e.color]+=parea(e.v); return a; }
static void same(const std::map<int,double>& a, const std::map<int,double>& b, const char* w, const std::string& d)
{ CHK(a.size()==b.size(),w,"colours",a.size(),b.size(),d); for (auto& k:a) { auto it=b.find(k.first); CHK(it!=b.end()&&H::near(it->second,k.second,1e-7),w,k.first,k.second,it==b.end()?-1:it->second,d); } }
// an allocator may hand out the memory of a removed mesh again: this one always does
static void* spare=nullptr;
void* operator new(std::size_t n) { if (n==sizeof(Mesh)&&spare) { void* p=spare; spare=nullptr; return p; } void* p=std::malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t n) noexcept { if (n==sizeof(Mesh)&&!spare) { spare=p; return; } std::free(p); }
// a mesh that is created after a merge works on its own domain (not on that of the removed mesh)
static void reuse()
{
  double S=H::rd(0.5,3); MeshGenerator g; std::vector<Case> cs(3); std::vector<Mesh*> ms; std::string d="new mesh after merging, S="+std::to_string(S);
  for (int k=0;k<2;++k) { Case& c=cs[k]; double h=S*0.4; c.h=h; c.dom=std::make_unique<Domain>([h](const Vec2d&){return h;},200*S,(size_t)20,20); add_loop(c,{{k*S,0},{k*S+S,0},{k*S+S,S},{k*S,S}},true,1,true); c.txt=d; H::doing=d; ms.push_back(&g.new_mesh(*c.dom,k,10+k)); g.triangulation(*ms[k]).generate_elements(); }
  int v=H::ri(0,2); if (v==0) g.laplace_smoothing(*ms[1]).smooth(1); if (v==1) g.torsion_smoothing(*ms[1]).smooth(1);
  Case& c=cs[2]; c.h=0.45*S; double h=c.h; c.dom=std::make_unique<Domain>([h](const Vec2d&){return h;},200*S,(size_t)20,20); c.txt=d; double x=20*S,y=-15*S; add_loop(c,{{x,y},{x+2*S,y},{x+2.5*S,y+1.7*S},{x-0.2*S,y+1.5*S}},true,50,true);
  CHK(g.merge_meshes(*ms[0],*ms[1]),"merge failed",d); Mesh& m=g.new_mesh(*c.dom,9,77);
  bool r=g.triangulation(m).generate_elements(); CHK(r,"new mesh after merging not completed",c.txt); check_mesh(m,c,"new mesh ",true);
  if (v==0) g.laplace_smoothing(m).smooth(2); if (v==1) g.torsion_smoothing(m).smooth(2); check_mesh(m,c,"new mesh ",true); check_conn(m,c.txt);
  // the same steps in a fresh generator give the same mesh
  MeshGenerator g2; Mesh& m2=g2.new_mesh(*c.dom,9,77); g2.triangulation(m2).generate_elements(); if (v==0) g2.laplace_smoothing(m2).smooth(2); if (v==1) g2.torsion_smoothing(m2).smooth(2);
  auto pts=[](Mesh& x){ std::vector<P2> r; for (auto& q:x.vertices()) r.push_back(pt(*q)); return r; };
  CHK(m.n_elements()==m2.n_elements()&&pts(m)==pts(m2),"the mesh of a domain depends on a mesh removed before",m.n_elements(),m2.n_elements(),c.txt);
}
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard(); quiet(); long done=0, skip=0;
  for (int i=0;i<6;++i) reuse();
  for (long it=0; it<H::n(70); ++it) {
    // cells
    std::vector<Cell> cells; double S=std::pow(10.0,H::rd(-0.3,1.0)); std::string d;
    if (H::ri(0,3)==0) { auto inner=ring(0,0,S*0.8,H::ri(4,8),0,H::rd(0,1)); std::vector<P2> o={{-2*S,-1.5*S},{2*S,-1.5*S},{2*S,1.5*S},{-2*S,1.5*S}}; cells.push_back({o,11}); cells.push_back({inner,12}); d="hole"; }
    else { int nx=H::ri(1,3), ny=nx==1?H::ri(2,3):H::ri(1,2); std::vector<double> X{-S*1.1},Y{-S*0.7}; for (int i=0;i<nx;++i) X.push_back(X.back()+S*H::rd(0.8,1.6)); for (int i=0;i<ny;++i) Y.push_back(Y.back()+S*H::rd(0.8,1.6));
      for (int j=0;j<ny;++j) for (int i=0;i<nx;++i) cells.push_back({{{X[i],Y[j]},{X[i+1],Y[j]},{X[i+1],Y[j+1]},{X[i],Y[j+1]}},10+(int)cells.size()}); d="grid"; std::shuffle(cells.begin(),cells.end(),H::rng); }
    bool hole=d=="hole"; if (hole&&H::ri(0,1)) std::swap(cells[0],cells[1]);
    for (auto& c:cells) { d+=" cell"; for (auto& p:c.p) d+=" "+std::to_string(p[0])+","+std::to_string(p[1]); }
    int n=cells.size(); std::vector<Case> cs(n); MeshGenerator g; std::vector<Mesh*> ms; std::map<std::pair<P2,P2>,int> colour; bool ok=true; int cc=1; std::vector<std::vector<BE>> be(n);
    for (int k=0;k<n&&ok;++k) { Case& c=cs[k]; double h=S*H::rd(0.25,0.5); c.h=h; c.dom=std::make_unique<Domain>([h](const Vec2d&){return h;},60*S,(size_t)H::ri(5,80),20);
      bool outer=hole&&cells[k].col==11;
      add_loop(c,cells[k].p,true,cc,true); cc+=3; if (outer) { for (auto& o:cells) if (o.col==12) add_loop(c,o.p,false,cc,true); cc+=3; }
      be[k]=c.bdry; for (auto& b:c.bdry) { auto f=colour.find({b.b,b.a}); if (f!=colour.end()) b.color=f->second; colour[{b.a,b.b}]=b.color; }
      if (!outer&&H::ri(0,2)==0) { P2 q{0,0}; for (auto& x:cells[k].p) { q[0]+=x[0]; q[1]+=x[1]; } q[0]=q[0]/cells[k].p.size()+0.07*S; q[1]=q[1]/cells[k].p.size()-0.05*S; c.dom->add_fixed_vertex(q[0],q[1]); c.fixedv.push_back(q); }
      c.txt=d+" mesh "+std::to_string(k)+" h "+std::to_string(h); H::doing=c.txt; be[k]=c.bdry;
      Mesh& m=g.new_mesh(*c.dom,k,cells[k].col); ms.push_back(&m);
      if (H::ri(0,3)==0) g.quad_layer_generation(m).n_layers(1).first_height(0.05*S).growth_rate(1.0).starting_position(cells[k].p[0][0],cells[k].p[0][1]).ending_position(cells[k].p[1][0],cells[k].p[1][1]).generate_elements();
      ok=g.triangulation(m).generate_elements(); if (!ok) break;
      if (H::ri(0,3)==0) g.tri2quad_modification(m).modify();
      CHK(g.size()==ms.size(),"number of meshes",d); CHK(g.is_valid(m),"mesh is not valid",d);
      check_mesh(m,c,"adjacent mesh ",true); }
    if (!ok) { ++skip; continue; } ++done; check_twins(ms,d);
    // refinement is refused exactly for meshes with twins
    if (n>1) { int k=H::ri(0,n-1); bool tw=false; for (auto& e:ms[k]->boundary_edges()) if (e->twin_edge()) tw=true; if (tw) { size_t a=ms[k]->n_elements(),b=ms[k]->n_vertices(); bool r=g.quad_refinement(*ms[k]).refine(); CHK(!r&&a==ms[k]->n_elements()&&b==ms[k]->n_vertices(),"refinement of a mesh with twin edges",d); } }
    // merging
    std::vector<int> grp; for (int k=0;k<n;++k) grp.push_back(k); std::vector<Mesh*> cur=ms; std::vector<std::vector<int>> mem(n); for (int k=0;k<n;++k) mem[k]={k};
    int tries=0;
    while (cur.size()>1 && ++tries<40) {
      int a=H::ri(0,cur.size()-1), b=H::ri(0,cur.size()-1); if (a==b) continue; Mesh *R=cur[a], *D=cur[b];
      if (H::ri(0,3)==0||cur.size()==2) { g.laplace_smoothing(*D).smooth(1); g.triangulation(*D); }
      size_t shared=0; std::set<P2> sv; std::set<P2> rv,dv; for (auto& e:R->boundary_edges()) { rv.insert(pt(e->v1())); for (auto& f:D->boundary_edges()) if (pt(e->v1())==pt(f->v2())&&pt(e->v2())==pt(f->v1())) { ++shared; sv.insert(pt(e->v1())); sv.insert(pt(e->v2())); } }
      for (auto& e:D->boundary_edges()) dv.insert(pt(e->v1())); std::set<P2> touch; for (auto p:rv) if (dv.count(p)&&!sv.count(p)) touch.insert(p);
      if (!touch.empty()) continue;          // meshes that also meet in single points: no guarantee
      auto ca=colarea(*R), cb=colarea(*D); size_t VR=R->n_vertices(),VD=D->n_vertices(),Q=R->n_quads()+D->n_quads(),T=R->n_triangles()+D->n_triangles(),BI=R->n_interior_edges()+D->n_interior_edges(),BB=R->n_boundary_edges()+D->n_boundary_edges(); std::string e=d+" merge "+std::to_string(a)+"<-"+std::to_string(b); H::doing=e;
      
      std::map<P2,int> fl; auto flags=[](const Vertex& v){ return (v.on_boundary()?1:0)+(v.is_fixed()?2:0)+(v.in_quad_layer()?4:0); };
      for (auto x:{R,D}) for (auto& v:x->vertices()) if (!sv.count(pt(*v))) fl[pt(*v)]=flags(*v);
      bool r=g.merge_meshes(*R,*D);
      for (auto& v:R->vertices()) { auto f=fl.find(pt(*v)); if (f!=fl.end()&&(r||!shared)) CHK(flags(*v)==f->second,"flags of a vertex changed by merging",f->second,flags(*v),e); }
      if (!shared) { CHK(!r,"merging meshes without common edges is reported as done",e); CHK(R->n_vertices()==VR&&D->n_vertices()==VD&&g.size()==cur.size(),"failed merge changed the meshes",e); continue; }
      CHK(r,"merge failed",e); CHK(g.size()==cur.size()-1,"donor not removed",e); for (auto p:colarea(*R)) (void)p;
      CHK(R->n_vertices()==VR+VD-sv.size(),"merged vertices",R->n_vertices(),VR,VD,sv.size(),e); CHK(R->n_quads()==Q&&R->n_triangles()==T,"merged elements",e);
      CHK(R->n_interior_edges()==BI+shared&&R->n_boundary_edges()==BB-2*shared,"merged edges",e); for (auto& k:cb) ca[k.first]+=k.second; same(ca,colarea(*R),"element areas by colour after merging",e);
      for (auto p:sv) { bool fx=false; for (auto& v:R->vertices()) if (pt(*v)==p) fx=v->is_fixed(); CHK(fx,"interface vertex is not fixed",e); }
      mem[grp[a]].insert(mem[grp[a]].end(),mem[grp[b]].begin(),mem[grp[b]].end()); cur.erase(cur.begin()+b); grp.erase(grp.begin()+b);
      // union case
      int gi=grp[a>b?a-1:a]; Case u; u.h=S; u.txt=e; std::map<std::pair<P2,P2>,int> ed; for (int k:mem[gi]) { u.area+=cs[k].area; u.fixedv.insert(u.fixedv.end(),cs[k].fixedv.begin(),cs[k].fixedv.end()); for (auto& q:be[k]) ed[{q.a,q.b}]=q.color; }
      for (auto& q:ed) if (!ed.count({q.first.second,q.first.first})) u.bdry.push_back({q.first.first,q.first.second,q.second});
      check_mesh(*R,u,"merged ",false); check_conn(*R,e); check_index(*R,u,"merged "); check_twins(cur,e); CHK(g.is_valid(*R),"merged mesh invalid",e);
      // operations on the merged mesh keep the areas of the colours
      auto c0=colarea(*R); int op=H::ri(0,3);
      if (op==0) { g.tri2quad_modification(*R).modify(); same(c0,colarea(*R),"element areas by colour after tri2quad",e); }
      if (op==1) { g.mixed_smoothing(*R).smooth(2); same(c0,colarea(*R),"element areas by colour after smoothing",e); }
      if (op<=1) { check_mesh(*R,u,"modified merged ",false); check_conn(*R,e); }
    }
    if (cur.size()==1) { auto c0=colarea(*cur[0]); bool conc=false; for (auto& e:elements(*cur[0])) if (e.kind==4) for (int i=0;i<4;++i) if (cr(pt(*e.v[i]),pt(*e.v[(i+1)%4]),pt(*e.v[(i+2)%4]))<=0) conc=true;
      if (!conc) { CHK(g.quad_refinement(*cur[0]).refine(),"refinement of the merged mesh",d); same(c0,colarea(*cur[0]),"element areas by colour after refinement",d); } 
    }
  }
  std::cout << done << " done " << skip << " skipped\n"; CHK(done>=6*skip,"too few",done,skip);
  return H::done();
}
