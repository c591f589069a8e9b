// P17 quad layers along boundaries (and partial meshes in general)
#include "meshcase.h"
static void check_partial(Mesh& m, const Case& c, const std::string& d)
{
  MeshCleanup::setup_facet_connectivity(m);
  auto els=elements(m); std::map<std::pair<const Vertex*,const Vertex*>,const El*> half; double A=0;
  std::set<const Vertex*> vs; for (auto& v:m.vertices()) vs.insert(v.get());
  for (auto& e:els) { double a=parea(e.v); CHK(a>0,"element area not positive",e.kind,a,d); A+=a; for (size_t i=0;i<e.v.size();++i) { auto p=e.v[i],q=e.v[(i+1)%e.v.size()]; CHK(vs.count(p),"element vertex not in the mesh",d); CHK(!half.count({p,q}),"two elements on the same side of an edge",d); half[{p,q}]=&e; } }
  CHK(H::near(m.area(),A,1e-7),"mesh area",m.area(),A,d);
  double R=0; std::set<std::pair<const Vertex*,const Vertex*>> fr;
  std::set<std::pair<const Vertex*,const Vertex*>> known;
  for (auto& e:m.boundary_edges()) { auto a=&e->v1(),b=&e->v2(); known.insert({a,b}); CHK(!half.count({b,a}),"element outside of a boundary edge",d); if (!half.count({a,b})) { R+=0.5*(pt(*a)[0]*pt(*b)[1]-pt(*b)[0]*pt(*a)[1]); fr.insert({a,b}); } }
  for (auto& e:m.interior_edges()) { auto a=&e->v1(),b=&e->v2(); known.insert({a,b}); known.insert({b,a}); bool l=half.count({a,b}),r=half.count({b,a}); CHK(l||r||!c.fixede.empty(),"interior edge without element",d); if (l&&r) continue; if (l) std::swap(a,b); if (l||r) { R+=0.5*(pt(*a)[0]*pt(*b)[1]-pt(*b)[0]*pt(*a)[1]); } fr.insert({a,b}); fr.insert({b,a}); }
  for (auto& k:half) CHK(known.count(k.first)||known.count({k.first.second,k.first.first}),"element edge missing in the edge lists",pt(*k.first.first)[0],pt(*k.first.first)[1],d);
  CHK(H::near(A+R,c.area,1e-6),"elements and remaining front do not add up to the domain",A,R,c.area,d);
  std::set<std::pair<const Vertex*,const Vertex*>> got; for (auto e:m.get_front_edges()) { CHK(fr.count({&e->v1(),&e->v2()}),"front edge between two elements",d); }
}
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard(); quiet(); long ok=0,no=0,part=0;
  for (long it=0; it<H::n(120); ++it) {
    Case c=make_case(H::ri(0,1)); double h=c.h; auto& L=c.loops[H::ri(0,c.loops.size()-1)]; size_t a=H::ri(0,L.size()-1), b=H::ri(0,2)==0?a:H::ri(0,L.size()-1);
    int nl=H::ri(1,3); double fh=h*H::rd(0.08,0.4), gr=H::rd(1.0,1.4);
    std::ostringstream o; o << std::setprecision(17) << "layers " << nl << " height " << fh << " growth " << gr << " from " << L[a][0] << "," << L[a][1] << " to " << L[b][0] << "," << L[b][1]; std::string d=o.str()+c.txt; H::doing=d; c.txt=d;
    MeshGenerator g; Mesh& m=g.new_mesh(*c.dom,1,3);
    bool r=g.quad_layer_generation(m).n_layers(nl).first_height(fh).growth_rate(gr).starting_position(L[a][0],L[a][1]).ending_position(L[b][0],L[b][1]).generate_elements();
    check_partial(m,c,d); ++part;
    for (auto& q:m.quads()) for (int i=0;i<4;++i) CHK(q->vertex(i).in_quad_layer(),"layer vertex not flagged",d);
    // layers stay along the chosen run of the boundary
    double reach=0, hh=fh; for (int i=0;i<nl;++i) { reach+=hh; hh*=gr; } reach=4*reach+1e-9;
    if (a!=b) { for (auto& e:elements(m)) { double dm=1e300; for (size_t k=a;k!=b;k=(k+1)%L.size()) for (auto v:e.v) dm=std::min(dm,segdist(pt(*v),L[k],L[(k+1)%L.size()])); CHK(dm<=reach,"element far from the chosen run of the boundary",dm,reach,d); } }
    if (H::ri(0,5)==0 && m.n_boundary_edges()) { int k=H::ri(1,10); g.triangulation(m).n_elements(k).generate_elements(); check_partial(m,c,"after limited triangulation "+d); g.triangulation(m).n_elements(0); }
    bool s=g.triangulation(m).generate_elements(); if (!s) { ++no; check_partial(m,c,"unfinished "+d); CHK(!MeshChecker(m,*c.dom).check_completeness(),"incomplete mesh reported as complete",d); continue; } ++ok;
    check_mesh(m,c,"layers "); check_conn(m,d); check_index(m,c,"layers "); CHK(MeshChecker(m,*c.dom).check_completeness(),"complete mesh reported as incomplete",d);
  }
  std::cout << ok << " complete " << no << " unfinished\n"; 
  return H::done();
}
