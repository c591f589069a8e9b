// P24 the application generates exactly the mesh that its parameter file describes
#include "meshcase.h"
#include "MeshWriter.h"
#include "TQMeshApp.h"
#include "size_function.cpp"
using VV = std::vector<double>;
struct Shape { int kind; VV par; std::vector<P2> pts; std::vector<int> cols; std::vector<VV> props; bool ext; };
struct Part { double h; int color=-1; std::string alg; int refine=-1, smooth=-1, ql=-1; std::string prefix, format; bool verts=false; std::vector<P2> v; std::vector<VV> vp; std::vector<P2> fv; std::vector<VV> fvp; std::vector<std::array<int,3>> ee; std::vector<std::vector<std::array<int,3>>> ie; std::vector<Shape> shapes; std::vector<std::pair<int,int>> fe; std::vector<VV> layers; std::vector<std::pair<std::string,std::string>> csv; };
static std::string N(double x) { std::ostringstream o; o<<std::setprecision(17)<<x; return o.str(); }
static double rq(double a,double b,double q=64) { return std::round(H::rd(a,b)*q)/q; }
static VV maybe_props(double h) { if (H::ri(0,2)) return {}; if (H::ri(0,1)) return {rq(0.5,1,16)*h}; return {rq(0.5,1,16)*h, rq(0.2,1.0)}; }
static double P(const VV& p, size_t i) { return i<p.size()?p[i]:-1.0; }
static std::string row(const VV& r, const std::string& open="", const std::string& close="") { std::string s=open; for (size_t i=0;i<r.size();++i) s+=(i?", ":"")+N(r[i]); return s+close; }
static Shape shape(double x,double y,double S,bool ext,double h,bool flip)
{
  Shape s; s.ext=ext; s.kind=H::ri(0,5); int m=H::ri(1,9); VV pr=maybe_props(h);
  if (s.kind==0||s.kind==5) { int n=H::ri(3,7); double ph=H::rd(0,1); for (int i=0;i<n;++i) { double a=ph+2*M_PI*i/n; s.pts.push_back({std::round((x+S*std::cos(a))*4096)/4096,std::round((y+S*std::sin(a))*4096)/4096}); s.cols.push_back(H::ri(1,9)); s.props.push_back(maybe_props(h)); } if (flip) std::reverse(s.pts.begin(),s.pts.end()); }
  if (s.kind==1) s.par={(double)m,x,y,rq(1.0,1.4)*S,rq(1.0,1.4)*S}; if (s.kind==2) s.par={(double)m,x,y,S,(double)H::ri(3,9)}; if (s.kind==3||s.kind==4) s.par={(double)m,x,y,rq(1.0,1.4)*S};
  s.par.insert(s.par.end(),pr.begin(),pr.end()); return s;
}
static std::string text(const std::vector<Part>& parts)
{
  std::ostringstream o; auto c=[&]{ if (H::ri(0,4)==0) o<<"  # remark, 5\n"; if (H::ri(0,6)==0) o<<"\n"; }; auto tail=[&]{ return H::ri(0,4)==0?std::string("  # note, 3"):std::string(); };
  for (auto& p:parts) { o<<"#=====\nDefine mesh:\n"; std::vector<std::function<void()>> items;
    items.push_back([&]{ o<<"  Element size: "<<N(p.h)<<tail()<<"\n"; }); items.push_back([&]{ o<<"  Output file format: "<<p.format<<tail()<<"\n  Output file prefix: "<<p.prefix<<"\n"; });
    if (p.color>=0) items.push_back([&]{ o<<"  Element color: "<<p.color<<tail()<<"\n"; }); if (!p.alg.empty()) items.push_back([&]{ o<<"  Meshing algorithm: "<<p.alg<<tail()<<"\n"; });
    if (p.refine>=0) items.push_back([&]{ o<<"  Number of quad refinements: "<<p.refine<<"\n"; }); if (p.smooth>=0) items.push_back([&]{ o<<"  Number of smoothing iterations: "<<p.smooth<<tail()<<"\n"; }); if (p.ql>=0) items.push_back([&]{ o<<"  Smooth quad layers: "<<p.ql<<"\n"; });
    if (p.verts) items.push_back([&]{ o<<"  Define boundary vertices:\n"; for (size_t i=0;i<p.v.size();++i) { VV r{p.v[i][0],p.v[i][1]}; r.insert(r.end(),p.vp[i].begin(),p.vp[i].end()); o<<"    "<<row(r)<<tail()<<"\n"; c(); } o<<"  End boundary vertices\n"; });
    if (!p.fv.empty()) items.push_back([&]{ o<<"  Define fixed vertices:\n"; for (size_t i=0;i<p.fv.size();++i) { VV r{p.fv[i][0],p.fv[i][1]}; r.insert(r.end(),p.fvp[i].begin(),p.fvp[i].end()); o<<"    "<<row(r)<<tail()<<"\n"; } o<<"  End fixed vertices\n"; });
    if (!p.ee.empty()) items.push_back([&]{ o<<"  Define exterior boundary edges:\n"; for (auto& e:p.ee) o<<"    "<<e[0]<<", "<<e[1]<<", "<<e[2]<<"\n"; o<<"  End exterior boundary edges\n"; });
    for (auto& E:p.ie) items.push_back([&o,&E]{ o<<"  Define interior boundary edges:\n"; for (auto& e:E) o<<"    "<<e[0]<<", "<<e[1]<<", "<<e[2]<<"\n"; o<<"  End interior boundary edges\n"; });
    if (!p.fe.empty()) items.push_back([&]{ o<<"  Define fixed edges:\n"; for (auto& e:p.fe) o<<"    "<<e.first<<", "<<e.second<<"\n"; o<<"  End fixed edges\n"; });
    std::function<void()> lay=[&]{ for (auto& l:p.layers) o<<"  Add quad layers: "<<row(l,H::ri(0,1)?"(":"",H::ri(0,1)?")":"")<<tail()<<"\n"; }; items.push_back(lay);
    std::shuffle(items.begin(),items.end(),H::rng); for (auto& f:items) { c(); f(); }
    // boundaries of one kind keep their order
    size_t k=0; for (auto& s:p.shapes) { std::string w=s.ext?"exterior":"interior"; static const char* nm[]={"","rectangular ","circular ","squared ","triangular "}; c();
      if (s.kind==0) { o<<"  Define "<<w<<" boundary:\n"; for (size_t i=0;i<s.pts.size();++i) { VV r{s.pts[i][0],s.pts[i][1],(double)s.cols[i]}; r.insert(r.end(),s.props[i].begin(),s.props[i].end()); o<<"    "<<row(r)<<tail()<<"\n"; } o<<"  End "<<w<<" boundary\n"; }
      else if (s.kind==5) { std::string fn="b"+p.prefix+std::to_string(k++)+".csv"; std::ofstream f(fn); for (size_t i=0;i<s.pts.size();++i) { f<<N(s.pts[i][0])<<","<<N(s.pts[i][1])<<","<<s.cols[i]; for (double z:s.props[i]) f<<","<<N(z); f<<"\n"; } o<<"  Define "<<w<<" boundary from CSV file: "<<fn<<"\n"; }
      else o<<"  Define "<<w<<" "<<nm[s.kind]<<"boundary: "<<row(s.par)<<tail()<<"\n"; }
    o<<"End mesh\n\n"; }
  return o.str();
}
// what the file means, in terms of the library
static void put(Boundary& b, const Shape& s)
{
  auto& p=s.par; int m=p.empty()?0:(int)p[0];
  if (s.kind==1) b.set_shape_rectangle(m,{p[1],p[2]},p[3],p[4],P(p,5),P(p,6)); if (s.kind==2) b.set_shape_circle(m,{p[1],p[2]},p[3],(int)p[4],P(p,5),P(p,6)); if (s.kind==3) b.set_shape_square(m,{p[1],p[2]},p[3],P(p,4),P(p,5)); if (s.kind==4) b.set_shape_triangle(m,{p[1],p[2]},p[3],P(p,4),P(p,5));
  if (s.kind==0||s.kind==5) { std::vector<Vec2d> x,q; for (size_t i=0;i<s.pts.size();++i) { x.push_back({s.pts[i][0],s.pts[i][1]}); double d=s.kind==5?0.0:-1.0; auto& z=s.props[i]; q.push_back({z.size()>0?z[0]:d,z.size()>1?z[1]:d}); } b.set_shape_from_coordinates(x,s.cols,q); }
}
static bool build(const std::vector<Part>& parts, std::vector<std::string>& out)
{
  MeshGenerator g; std::vector<std::unique_ptr<Domain>> keep; bool good=true; int id=0;
  for (auto& p:parts) { double ext=0; if (p.verts) { for (auto& v:p.v) ext=std::max({ext,std::fabs(v[0]),std::fabs(v[1])}); ext*=2.1; } else ext=TQ_MAX;
    double h=p.h; keep.push_back(std::make_unique<Domain>([h](const Vec2d&){return h;},ext)); Domain& D=*keep.back(); std::vector<Vertex*> all;
    for (size_t i=0;i<p.v.size();++i) all.push_back(&D.add_vertex(p.v[i][0],p.v[i][1],P(p.vp[i],0),P(p.vp[i],1))); for (size_t i=0;i<p.fv.size();++i) all.push_back(&D.add_fixed_vertex(p.fv[i][0],p.fv[i][1],P(p.fvp[i],0),P(p.fvp[i],1)));
    if (!p.ee.empty()) { Boundary& b=D.add_exterior_boundary(); for (auto& e:p.ee) b.add_edge(*all[e[0]],*all[e[1]],e[2]); }
    for (auto& s:p.shapes) if (s.ext) put(D.add_exterior_boundary(),s);
    for (auto& E:p.ie) { Boundary& b=D.add_interior_boundary(); for (auto& e:E) b.add_edge(*all[e[0]],*all[e[1]],e[2]); }
    for (int k:{0,1,2,3,4,5}) for (auto& s:p.shapes) if (!s.ext&&s.kind==k) put(D.add_interior_boundary(),s);
    for (auto& e:p.fe) D.add_fixed_edge(*all[e.first],*all[e.second]);
    Mesh& m=g.new_mesh(D,id++,p.color<0?0:p.color);
    for (auto& l:p.layers) g.quad_layer_generation(m).n_layers((int)l[4]).first_height(l[5]).growth_rate(l[6]).starting_position(Vec2d(l[0],l[1])).ending_position(Vec2d(l[2],l[3])).generate_elements();
    g.triangulation(m).generate_elements(); if (p.alg=="Tri-to-Quad") g.tri2quad_modification(m).modify();
    if (g.size()>1) g.merge_meshes(m,g.mesh(0));
    for (int i=0;i<p.refine;++i) g.quad_refinement(m).refine();
    g.mixed_smoothing(m).quad_layer_smoothing(p.ql==1).smooth(p.smooth<0?2:p.smooth);
    MeshExportType t=(p.format=="VTU"||p.format=="vtu")?MeshExportType::VTU:MeshExportType::TXT; std::string e=t==MeshExportType::VTU?".vtu":".txt"; std::string fn="ref_"+p.prefix+e; g.write_mesh(m,fn,t); std::ifstream f(fn); std::stringstream ss; ss<<f.rdbuf(); out.push_back(ss.str()); std::remove(fn.c_str());
    MeshChecker ck{m,D}; if (!ck.check_completeness()) good=false; }
  return good;
}
static void silent() { LOG_PROPERTIES.set_info_ostream(TO_FILE,"/dev/null"); }
static int outcome(const std::string& txt) { { std::ofstream f("in.para"); f<<txt; } int r; try { TQMeshApp app{"in.para"}; r=app.run()?1:0; } catch (const std::exception&) { r=-1; } std::remove("in.para"); return r; }
static void common(Part& p, int k) { p.prefix="o"+std::to_string(k); const char* f[]={"TXT","txt","VTU","vtu"}; p.format=f[H::ri(0,3)]; if (H::ri(0,2)) p.color=H::ri(0,9); if (H::ri(0,1)) p.alg=H::ri(0,1)?"Triangulation":"Tri-to-Quad"; if (H::ri(0,1)) p.smooth=H::ri(0,4); if (H::ri(0,2)==0) p.ql=H::ri(0,1); if (H::ri(0,2)==0) p.refine=H::ri(0,1); }
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard(); quiet(); silent(); long ok=0, bad=0;
  for (long it=0; it<H::n(45); ++it) {
    std::vector<Part> parts; int np=H::ri(0,3)==0?2:1; double S=1+H::ri(0,16)/4.0, x0=rq(-3,3), y0=rq(-3,3); bool adjacent=H::ri(0,3)>0;
    for (int k=0;k<np;++k) { Part p; common(p,k); p.h=S*H::ri(20,40)/64.0; double cx=x0+(np==2?(adjacent?2*S*k:5*S*k):0), cy=y0;
      if (np==2||H::ri(0,2)==0) { // vertices and edges
        p.verts=true; p.v={{cx-S,cy-S},{cx+S,cy-S},{cx+S,cy+S},{cx-S,cy+S}}; for (int i=0;i<4;++i) { p.vp.push_back(maybe_props(p.h)); p.ee.push_back({i,(i+1)%4,H::ri(1,9)}); }
        if (H::ri(0,2)==0) { double q=S/4; for (auto z:std::vector<P2>{{cx-q,cy-q},{cx-q,cy+q},{cx+q,cy+q},{cx+q,cy-q}}) { p.v.push_back(z); p.vp.push_back({}); } std::vector<std::array<int,3>> E; for (int i=0;i<4;++i) E.push_back({4+i,4+(i+1)%4,H::ri(1,9)}); p.ie.push_back(E); }
        else if (H::ri(0,1)) { int n=H::ri(1,2); for (int i=0;i<n;++i) { p.fv.push_back({cx+(i?0.4:-0.3)*S,cy+0.2*S}); p.fvp.push_back(maybe_props(p.h)); } if (n==2&&H::ri(0,1)) p.fe.push_back({(int)p.v.size(),(int)p.v.size()+1}); }
        if (H::ri(0,2)==0) p.layers.push_back({p.v[0][0],p.v[0][1],p.v[1][0],p.v[1][1],(double)H::ri(1,3),0.0625*S*(H::ri(1,2)/2.0),1.0+H::ri(0,4)/16.0}); }
      else { p.shapes.push_back(shape(cx,cy,2*S,true,p.h,H::ri(0,1))); if (H::ri(0,1)) { int n=H::ri(1,2); for (int i=0;i<n;++i) p.shapes.push_back(shape(cx+(n==1?0:(i?0.4:-0.4)*S),cy,0.25*S,false,p.h,H::ri(0,1))); } else if (H::ri(0,1)) { p.fv.push_back({cx+0.1*S,cy-0.2*S}); p.fvp.push_back(maybe_props(p.h)); } }
      parts.push_back(p); }
    std::string t=text(parts); H::doing=t; std::vector<std::string> want; bool good=build(parts,want); int r=outcome(t); CHK(r==(good?1:0),"success reported",r,good,"\n"+t); (good?ok:bad)++;
    for (size_t k=0;k<parts.size();++k) { auto& p=parts[k]; std::string fn=p.prefix+((p.format=="VTU"||p.format=="vtu")?".vtu":".txt"); std::ifstream f(fn); CHK(f.good(),"output file missing",fn,"\n"+t); std::stringstream ss; ss<<f.rdbuf(); std::remove(fn.c_str());
      CHK(ss.str()==want[k],"output differs from the described mesh, mesh",k,"lengths",ss.str().size(),want[k].size(),"\n"+t); }
    for (auto& p:parts) for (int k=0;k<4;++k) std::remove(("b"+p.prefix+std::to_string(k)+".csv").c_str());
  }
  // invalid descriptions
  for (long it=0; it<H::n(40); ++it) { int k=it%10; std::string a="Define mesh:\n Element size: 0.5\n Output file format: TXT\n Output file prefix: oo\n", b=" Define boundary vertices:\n 0,0\n 1,0\n 1,1\n 0,1\n End boundary vertices\n", t; std::string bad=std::to_string(k==5?H::ri(5,9):4);
    if (k==0) t="Define mesh:\n Element size: 0.5\n Output file format: TXT\nEnd mesh\n"; if (k==1) t="Define mesh:\n Output file format: TXT\n Output file prefix: oo\n"+b+"End mesh\n"; if (k==2) t="Define mesh:\n Element size: 0.5\n Output file prefix: oo\nEnd mesh\n";
    if (k==3) t=a+b+" Meshing algorithm: Magic\n Define exterior boundary edges:\n 0,1,1\n 1,2,1\n 2,3,1\n 3,0,1\n End exterior boundary edges\nEnd mesh\n";
    if (k==4||k==5) { int q=H::ri(0,3); t=a+b+" Define exterior boundary edges:\n 0,1,1\n 1,2,1\n "+(q<2?"2,"+bad+",1\n ":"2,3,1\n ")+(q>=2?bad+",0,1\n":"3,0,1\n")+" End exterior boundary edges\nEnd mesh\n"; }
    if (k==6) t=a+b+" Define exterior boundary edges:\n 0,1,1\n 1,2,1\n 2,3,1\n 3,0,1\n End exterior boundary edges\n Define interior boundary edges:\n 0,4,1\n 4,1,1\n End interior boundary edges\nEnd mesh\n";
    if (k==7) t=a+b+" Define exterior boundary edges:\n 0,1,1\n 1,2,1\n 2,3,1\n 3,0,1\n End exterior boundary edges\n Define fixed edges:\n 0,4\n End fixed edges\nEnd mesh\n";
    if (k==8) t=a+" Define exterior boundary:\n 0,0,-2\n 1,0,1\n 1,1,1\n End exterior boundary\nEnd mesh\n"; if (k==9) t=a+" Define exterior boundary from CSV file: no_such_file.csv\nEnd mesh\n";
    H::doing=t; int r=outcome(t); std::remove("oo.txt"); CHK(r!=1,"invalid description accepted",k,"\n"+t); }
  std::cout<<ok<<" complete, "<<bad<<" not"<<std::endl; CHK(ok>bad,"too few complete meshes",ok,bad); return H::done();
}
