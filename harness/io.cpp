// P22 mesh files: what is written is exactly the mesh
#include "meshcase.h"
#include "MeshWriter.h"
using Rows = std::vector<std::vector<double>>;
struct Txt { std::map<std::string,Rows> sec; std::vector<std::string> order; std::map<std::string,long> count; };
static Rows::value_type nums(const std::string& l, char sep)
{ std::vector<double> r; std::stringstream ss(l); std::string t; while (std::getline(ss,t,sep)) if (t.find_first_not_of(" \t")!=std::string::npos) r.push_back(std::stod(t)); return r; }
static Txt read_txt(std::istream& f, const std::string& d)
{
  Txt t; std::string l, cur; while (std::getline(f,l)) { if (l.empty()) continue;
    if (std::isalpha((unsigned char)l[0])) { std::stringstream ss(l); long k=-1; ss>>cur>>k; CHK(!t.sec.count(cur),"section twice",cur,d); t.sec[cur]; t.count[cur]=k; t.order.push_back(cur); }
    else t.sec[cur].push_back(nums(l,',')); }
  for (auto& kv:t.sec) if (kv.first!="MESH") CHK((long)kv.second.size()==t.count[kv.first],"announced number of rows",kv.first,kv.second.size(),t.count[kv.first],d);
  return t;
}
static bool r5(double file, double x) { return std::fabs(file-x)<=0.5001e-5; }
static bool r6(double file, double x) { return std::fabs(file-x)<=0.51e-5*std::max(std::fabs(x),1e-300)+1e-12; }
static void check_txt(Mesh& m, const Domain& dom, const Txt& t, const std::string& d)
{
  auto S=[&](const char* n)->const Rows& { CHK(t.sec.count(n),"section missing",n,d); return t.sec.at(n); };
  CHK(S("MESH").empty()&&t.count.at("MESH")==(long)m.id(),"mesh id",t.count.at("MESH"),m.id(),d);
  std::map<const Vertex*,int> vi; std::map<const Facet*,int> fi; int k=0; auto& V=S("VERTICES"); auto& SZ=S("SIZEFUNCTION");
  CHK(V.size()==m.n_vertices()&&SZ.size()==m.n_vertices(),"number of vertices",V.size(),m.n_vertices(),d);
  for (auto& v:m.vertices()) { CHK(V[k].size()==2&&r5(V[k][0],v->xy().x)&&r5(V[k][1],v->xy().y),"vertex coordinates",k,v->xy().x,v->xy().y,d);
    CHK(SZ[k].size()==1&&r5(SZ[k][0],dom.size_function(v->xy())),"size function",k,SZ[k][0],dom.size_function(v->xy()),d); vi[v.get()]=k++; }
  auto els=elements(m); k=0; for (auto& e:els) fi[e.f]=k++; size_t nq=m.n_quads();
  auto& Q=S("QUADS"); auto& T=S("TRIANGLES"); auto& QN=S("QUADNEIGHBORS"); auto& TN=S("TRIANGLENEIGHBORS");
  CHK(Q.size()==nq&&T.size()==m.n_triangles()&&QN.size()==Q.size()&&TN.size()==T.size(),"number of elements",d);
  std::map<std::pair<const Vertex*,const Vertex*>,const El*> half; for (auto& e:els) for (size_t i=0;i<e.v.size();++i) half[{e.v[i],e.v[(i+1)%e.v.size()]}]=&e;
  auto F=[&](const Vertex* a,const Vertex* b){ auto it=half.find({a,b}); return it==half.end()?-1:fi[it->second->f]; };
  for (size_t i=0;i<els.size();++i) { auto& e=els[i]; auto& r=i<nq?Q[i]:T[i-nq]; auto& n=i<nq?QN[i]:TN[i-nq]; size_t K=e.v.size(); CHK(r.size()==K+1&&n.size()==K,"columns of an element",i,d);
    for (size_t j=0;j<K;++j) CHK(r[j]==vi[e.v[j]],"element vertex index",i,j,r[j],vi[e.v[j]],d); CHK(r[K]==e.color,"element colour",i,r[K],e.color,d);
    std::multiset<int> want,got; for (size_t j=0;j<K;++j) { got.insert((int)n[j]); want.insert(F(e.v[(j+1)%K],e.v[j])); }
    CHK(got==want,"neighbours of an element",i,d);
    for (size_t j=0;j<K;++j) { int s=e.f->get_edge_index(*e.v[j],*e.v[(j+1)%K]); CHK((int)n[s]==F(e.v[(j+1)%K],e.v[j]),"neighbour position",i,j,s,n[s],d); } }
  std::set<std::vector<double>> wi,gi,wb,gb,wf,gf; std::multiset<std::vector<double>> wt,gt; size_t ni=0,nb=0,nf=0;
  for (auto& e:m.interior_edges()) { double a=vi[&e->v1()],b=vi[&e->v2()]; int l=F(&e->v1(),&e->v2()), r=F(&e->v2(),&e->v1()); if (l>=0&&r>=0) { wi.insert({a,b,(double)l,(double)r}); ++ni; } else { wf.insert({a,b,-1}); ++nf; } }
  for (auto& e:m.boundary_edges()) { double a=vi[&e->v1()],b=vi[&e->v2()]; int l=F(&e->v1(),&e->v2()); if (l>=0) { wb.insert({a,b,(double)l,(double)e->color()}); ++nb; } else { wf.insert({a,b,-1}); ++nf; } }
  for (auto& r:S("INTERIOREDGES")) gi.insert(r); for (auto& r:S("BOUNDARYEDGES")) gb.insert(r); for (auto& r:S("FRONT")) gf.insert(r);
  CHK(gi==wi&&S("INTERIOREDGES").size()==ni,"interior edges",gi.size(),wi.size(),d); CHK(gb==wb&&S("BOUNDARYEDGES").size()==nb,"boundary edges",gb.size(),wb.size(),d); CHK(gf==wf&&S("FRONT").size()==nf,"front edges",gf.size(),wf.size(),d);
  size_t ntw=0; for (auto& e:m.boundary_edges()) if (e->twin_edge()) { ++ntw; double a=vi[&e->v1()],b=vi[&e->v2()]; bool f=false; for (auto& r:S("INTERFACEEDGES")) if (r.size()==5&&r[0]==a&&r[1]==b) { f=true; CHK(r[2]==F(&e->v1(),&e->v2()),"own element of an interface edge",r[2],d);
      const Facet* o=nullptr; for (auto x:e->twin_edge()->v1().facets()) { int s=x->get_edge_index(e->twin_edge()->v1(),e->twin_edge()->v2()); if (s>=0) o=x; } if (o) CHK(r[3]==o->index()&&r[4]==o->color(),"foreign element of an interface edge",r[3],o->index(),r[4],o->color(),d); } CHK(f,"interface edge missing",a,b,d); }
  CHK(S("INTERFACEEDGES").size()==ntw,"number of interface edges",S("INTERFACEEDGES").size(),ntw,d);
}
static std::map<std::string,std::vector<double>> read_vtu(const std::string& fn, std::map<std::string,std::string>& where, long& np, long& nc, const std::string& d)
{
  std::ifstream f(fn); CHK(f.good(),"vtu file missing",fn,d); std::map<std::string,std::vector<double>> a; std::string l,cur,sec; std::vector<std::string> open; np=nc=-1;
  auto attr=[](const std::string& s,const std::string& n){ auto p=s.find(n+"=\""); if (p==std::string::npos) return std::string(); p+=n.size()+2; return s.substr(p,s.find('"',p)-p); };
  while (std::getline(f,l)) { auto p=l.find('<'); if (p==std::string::npos) { auto v=nums(l,' '); CHK(!open.empty()&&open.back()=="DataArray","data outside an array",d); auto& x=a[cur]; x.insert(x.end(),v.begin(),v.end()); continue; }
    if (l[p+1]=='/') { std::string n=l.substr(p+2,l.find('>')-p-2); CHK(!open.empty()&&open.back()==n,"tags do not match",n,d); open.pop_back(); continue; }
    std::string n=l.substr(p+1,l.find_first_of(" >",p)-p-1); open.push_back(n); if (n=="Piece") { np=std::stol(attr(l,"NumberOfPoints")); nc=std::stol(attr(l,"NumberOfCells")); }
    if (n=="DataArray") { cur=attr(l,"Name"); sec=open[open.size()-2]; if (cur.empty()) cur=sec; a[cur]; where[cur]=sec; } }
  CHK(open.empty(),"tags left open",d); return a;
}
static void check_vtu(Mesh& m, const Domain& dom, const std::string& fn, const std::string& d)
{
  std::map<std::string,std::string> w; long np,nc; auto a=read_vtu(fn,w,np,nc,d); std::map<const Vertex*,int> vi; int k=0; auto els=elements(m);
  CHK(np==(long)m.n_vertices()&&nc==(long)els.size(),"points and cells",np,nc,d);
  for (auto n:{"size_function","in_quad_layer","fixed_vertices"}) CHK(w[n]=="PointData"&&(long)a[n].size()==np,"point data",n,a[n].size(),d);
  for (auto n:{"element_color","edge_length","max_angle","cell_quality"}) CHK(w[n]=="CellData"&&(long)a[n].size()==nc,"cell data",n,a[n].size(),d);
  CHK(w["Points"]=="Points"&&(long)a["Points"].size()==3*np,"points",a["Points"].size(),d); for (auto n:{"connectivity","offsets","types"}) CHK(w[n]=="Cells","cells",n,d);
  for (auto& v:m.vertices()) { auto& P=a["Points"]; CHK(r5(P[3*k],v->xy().x)&&r5(P[3*k+1],v->xy().y)&&P[3*k+2]==0,"point",k,P[3*k],P[3*k+1],d);
    CHK(r6(a["size_function"][k],dom.size_function(v->xy())),"size function",a["size_function"][k],dom.size_function(v->xy()),d); CHK(a["in_quad_layer"][k]==v->in_quad_layer(),"layer flag",d); CHK(a["fixed_vertices"][k]==v->is_fixed(),"fixed flag",d); vi[v.get()]=k++; }
  size_t off=0; CHK((long)a["offsets"].size()==nc&&(long)a["types"].size()==nc,"offsets and types",d);
  for (size_t i=0;i<els.size();++i) { auto& e=els[i]; size_t K=e.v.size(); CHK(a["connectivity"].size()>=off+K,"connectivity too short",d); for (size_t j=0;j<K;++j) CHK(a["connectivity"][off+j]==vi[e.v[j]],"cell vertex",i,j,d); off+=K; CHK(a["offsets"][i]==off,"offset",i,a["offsets"][i],off,d);
    CHK(a["types"][i]==(K==4?9:5),"cell type",i,d); CHK(a["element_color"][i]==e.color,"cell colour",i,d);
    double L=0; for (size_t j=0;j<K;++j) L=std::max(L,dist(pt(*e.v[j]),pt(*e.v[(j+1)%K]))); CHK(r6(a["edge_length"][i],L),"edge length",i,a["edge_length"][i],L,d);
    double ma=0; for (size_t j=0;j<K;++j) { P2 p=pt(*e.v[j]),q=pt(*e.v[(j+1)%K]),r=pt(*e.v[(j+K-1)%K]); double x=std::acos(std::clamp(((q[0]-p[0])*(r[0]-p[0])+(q[1]-p[1])*(r[1]-p[1]))/dist(p,q)/dist(p,r),-1.0,1.0)); ma=std::max(ma,x); }
    if (K==3) CHK(r6(a["max_angle"][i],ma*180/M_PI),"max angle",i,a["max_angle"][i],ma*180/M_PI,d);
    double s=dom.size_function(e.f->xy()); double q=K==4?static_cast<Quad*>(e.f)->quality(s):static_cast<Triangle*>(e.f)->quality(s);
    double g=K==4?static_cast<Quad*>(e.f)->max_angle():static_cast<Triangle*>(e.f)->max_angle(); CHK(r6(a["max_angle"][i],g*180/M_PI),"max angle of the element",i,a["max_angle"][i],g*180/M_PI,ma*180/M_PI,d); CHK(r6(a["cell_quality"][i],q),"quality",i,a["cell_quality"][i],q,d); }
  CHK(a["connectivity"].size()==off,"connectivity length",a["connectivity"].size(),off,d);
}
static std::string memory(Mesh& m) { std::ostringstream o; o<<std::setprecision(17); for (auto& v:m.vertices()) o<<v->xy().x<<" "<<v->xy().y<<" "<<(int)v->properties()<<";"; for (auto& e:elements(m)) { for (auto v:e.v) o<<(void*)v<<","; o<<e.color<<";"; } for (auto& e:m.boundary_edges()) o<<(void*)&e->v1()<<(void*)&e->v2()<<e->color()<<";"; return o.str(); }
static void write_and_check(MeshGenerator& g, Mesh& m, const Domain& dom, const std::string& d)
{
  H::doing=d; std::string base="m"+std::to_string(H::ri(0,9)); std::string before=memory(m);
  bool ext=H::ri(0,1); CHK(g.write_mesh(m,base+(ext?".txt":""),MeshExportType::TXT),"writing text failed",d); { std::ifstream f(base+".txt"); CHK(f.good(),"text file missing",d); check_txt(m,dom,read_txt(f,d),d+" (txt)"); } std::remove((base+".txt").c_str());
  ext=H::ri(0,1); CHK(g.write_mesh(m,base+(ext?".vtu":""),MeshExportType::VTU),"writing vtu failed",d); check_vtu(m,dom,base+".vtu",d+" (vtu)"); std::remove((base+".vtu").c_str());
  std::ostringstream o; auto* old=std::cout.rdbuf(o.rdbuf()); bool r=g.write_mesh(m,"x",MeshExportType::COUT); std::cout.rdbuf(old); CHK(r,"writing to the screen failed",d); std::istringstream is(o.str()); check_txt(m,dom,read_txt(is,d),d+" (screen)");
  CHK(memory(m)==before,"writing changed the mesh",d);
  CHK(!g.write_mesh(m,"no_such_folder/"+base+".txt",MeshExportType::TXT),"failure to write text not reported",d); CHK(!g.write_mesh(m,"no_such_folder/"+base+".vtu",MeshExportType::VTU),"failure to write vtu not reported",d);
}
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard(); quiet();
  for (long it=0; it<H::n(60); ++it) {
    Case c=make_case(H::ri(0,2)?0:1); MeshGenerator g; Mesh& m=g.new_mesh(*c.dom,H::ri(0,50),H::ri(1,9)); std::string d=c.txt; H::doing=d; int k=H::ri(0,5); d+=" way "+std::to_string(k);
    if (k==5) { write_and_check(g,m,*c.dom,"empty mesh "+d); continue; }
    if (k==0) g.quad_layer_generation(m).n_layers(H::ri(1,3)).first_height(0.1*c.h).growth_rate(1.2).starting_position(c.start[0],c.start[1]).ending_position(c.end[0],c.end[1]).generate_elements();
    if (k==1) { g.triangulation(m).n_elements(H::ri(1,20)).generate_elements(); write_and_check(g,m,*c.dom,"partial "+d); continue; }
    g.triangulation(m).generate_elements(); if (k==2||k==3) g.tri2quad_modification(m).modify(); if (k==3&&m.n_elements()>0) { g.quad_refinement(m).refine(); }
    if (H::ri(0,1)) g.mixed_smoothing(m).smooth(1);
    for (auto& e:elements(m)) if (H::ri(0,5)==0) { int col=H::ri(0,30); if (e.kind==4) static_cast<Quad*>(e.f)->color(col); else static_cast<Triangle*>(e.f)->color(col); }
    write_and_check(g,m,*c.dom,d);
  }
  // adjacent meshes
  for (long it=0; it<H::n(12); ++it) {
    double S=std::pow(10.0,H::rd(-0.3,1.0)), h=S*H::rd(0.25,0.5); MeshGenerator g; std::vector<Case> cs(2); std::vector<Mesh*> ms; std::string d="adjacent S="+std::to_string(S)+" h="+std::to_string(h); int fill=H::ri(0,3);
    for (int k=0;k<2;++k) { Case& c=cs[k]; c.h=h; c.dom=std::make_unique<Domain>([h](const Vec2d&){return h;},60*S,(size_t)30,20); add_loop(c,{{k*S,0},{k*S+S,0},{k*S+S,S},{k*S,S}},true,1+4*k,true); H::doing=d; ms.push_back(&g.new_mesh(*c.dom,k,10+k)); if (k>0||fill!=0) g.triangulation(*ms[k]).generate_elements(); if (k==0&&fill==2) g.tri2quad_modification(*ms[k]).modify(); }
    int a=H::ri(0,1); for (int k=0;k<2;++k) { int x=k?a:1-a; write_and_check(g,*ms[x],*cs[x].dom,d+" mesh "+std::to_string(x)+" fill "+std::to_string(fill)); }
  }
  { Case c=make_case(1); MeshGenerator g,g2; Mesh& m=g.new_mesh(*c.dom); CHK(!g2.write_mesh(m,"foreign",MeshExportType::TXT),"mesh of another generator written",c.txt); }
  return H::done();
}
