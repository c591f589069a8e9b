// P23 parameter files: every query gives exactly what the file says
#include "H.h"
#include "STLHeaders.h"
#include "CppUtils.h"
#include "ParaReader.h"
using namespace CppUtils;
static std::string sp(int m=3) { return std::string(H::ri(0,m),' '); }
static std::string cmt() { static const char* c[]={""," # note","# a, b, 3","  # Key A: 5"," # (1,2)"}; return c[H::ri(0,4)]; }
static std::string num(double& v) { std::ostringstream o; int k=H::ri(0,3); if (k==0) { v=H::ri(-50,50); o<<(int)v; } else if (k==1) { v=H::ri(-400,400)/8.0; o<<std::setprecision(10)<<v; } else if (k==2) { v=H::ri(1,9)*0.001; o<<std::scientific<<v; v=std::stod(o.str()); } else { v=H::ri(-99,99)/4.0; o<<std::fixed<<std::setprecision(2)<<v; } return o.str(); }
static std::string inum(int& v) { v=H::ri(-40,900); return std::to_string(v); }
static void noise(std::vector<std::string>& L) { while (H::ri(0,2)==0) { static const char* n[]={"","   ","# Scalar: 77","  # Define rows:","#End rows","some other text 12"}; L.push_back(n[H::ri(0,5)]); } }
struct Exp { std::vector<int> ints; std::vector<double> dbls; std::vector<std::string> strs; std::vector<std::vector<double>> vecs; std::vector<std::vector<std::vector<double>>> mats; std::vector<bool> flags; };
static const double DEF=-1.0;
static Exp block(std::vector<std::string>& L, int ncol, bool def)
{
  Exp x; int n=H::ri(0,9);
  for (int i=0;i<n;++i) { noise(L); int k=H::ri(0,5); std::string ind=sp(4);
    if (k==0) { int v; std::string s=inum(v); L.push_back(ind+"Scalar:"+sp()+s+sp()+cmt()); x.ints.push_back(v); }
    if (k==1) { double v; std::string s=num(v); L.push_back(ind+"Real value:"+sp()+s+sp()+cmt()); x.dbls.push_back(v); }
    if (k==2) { static const char* w[]={"abc","./out/mesh_1","Tri-to-Quad","x*x+2"}; std::string s=w[H::ri(0,3)]; L.push_back(ind+"Word:"+sp()+s+sp()+cmt()); x.strs.push_back(s); }
    if (k==5) { bool b=H::ri(0,1); L.push_back(ind+"Flag:"+sp()+(b?"1":"0")+sp()+cmt()); x.flags.push_back(b); }
    auto row=[&](std::vector<double>& r, bool vec) { std::string s; int m=ncol; if (def&&H::ri(0,2)==0) m=H::ri(1,ncol); if (vec&&H::ri(0,4)==0) m=ncol+1; const char* br[]={"","(","["}; const char* bc[]={"",")","]"}; int b=vec?H::ri(0,2):0; s+=br[b];
      for (int j=0;j<m;++j) { double v; std::string t=num(v); s+=sp(2)+t+sp(2)+(j+1<m?",":""); if (j<ncol) r.push_back(v); } s+=bc[b]; while ((int)r.size()<ncol) r.push_back(DEF); return s; };
    if (k==3) { std::vector<double> r; std::string s=row(r,true); L.push_back(ind+"List of values:"+sp()+s+cmt()); x.vecs.push_back(r); }
    if (k==4) { L.push_back(ind+"Define rows:"+sp()); int m=H::ri(1,5); std::vector<std::vector<double>> M; for (int j=0;j<m;++j) { if (H::ri(0,3)==0) { static const char* nn[]={"","     ","# comment, with 3","   # 1, 2, 3"}; L.push_back(nn[H::ri(0,3)]); } std::vector<double> r; std::string s=row(r,false); L.push_back(sp()+s+cmt()); M.push_back(r); } L.push_back(ind+"End rows"+sp()); x.mats.push_back(M); }
  }
  noise(L); return x;
}
static void check(ParaReader& r, const Exp& x, int ncol, bool def, const std::string& d)
{
  auto close=[](double a,double b){ return std::fabs(a-b)<=1e-9*std::max(1.0,std::fabs(b)); };
  for (size_t i=0;i<=x.ints.size();++i) { bool q=r.query<int>("i"); CHK(q==(i<x.ints.size()),"scalar found",i,q,d); if (q) CHK(r.get_value<int>("i")==x.ints[i]&&r.found("i"),"scalar value",i,r.get_value<int>("i"),x.ints[i],d); }
  for (size_t i=0;i<=x.dbls.size();++i) { bool q=r.query<double>("d"); CHK(q==(i<x.dbls.size()),"real found",i,q,d); if (q) CHK(close(r.get_value<double>("d"),x.dbls[i]),"real value",i,r.get_value<double>("d"),x.dbls[i],d); }
  for (size_t i=0;i<=x.strs.size();++i) { bool q=r.query<std::string>("s"); CHK(q==(i<x.strs.size()),"word found",i,q,d); if (q) CHK(r.get_value<std::string>("s")==x.strs[i],"word",i,r.get_value<std::string>("s"),x.strs[i],d); }
  for (size_t i=0;i<=x.flags.size();++i) { bool q=r.query<bool>("b"); CHK(q==(i<x.flags.size()),"flag found",i,q,d); if (q) CHK(r.get_value<bool>("b")==x.flags[i],"flag",i,d); }
  for (size_t i=0;i<=x.vecs.size();++i) { bool q=def?r.query<double>("v",true,DEF):r.query<double>("v"); CHK(q==(i<x.vecs.size()),"vector found",i,q,d); if (q) { auto& p=r.get_parameter<double>("v"); CHK((int)p.columns()==ncol&&p.rows()==1,"vector size",d); for (int j=0;j<ncol;++j) CHK(close(p.get_value(j),x.vecs[i][j])&&close(r.get_value<double>(j,"v"),x.vecs[i][j]),"vector value",i,j,p.get_value(j),x.vecs[i][j],d); } }
  for (size_t i=0;i<=x.mats.size();++i) { bool q=def?r.query<double>("m",true,DEF):r.query<double>("m"); CHK(q==(i<x.mats.size()),"matrix found",i,q,d); if (q) { auto& p=r.get_parameter<double>("m"); auto& M=x.mats[i]; CHK(p.rows()==M.size()&&(int)p.columns()==ncol,"matrix size",i,p.rows(),M.size(),d);
      for (size_t j=0;j<M.size();++j) for (int k=0;k<ncol;++k) CHK(close(p.get_value(k,j),M[j][k])&&close(r.get_value<double>(k,j,"m"),M[j][k]),"matrix value",i,j,k,p.get_value(k,j),M[j][k],d); } }
}
static void declare(ParaReader& r, int ncol) { r.new_scalar_parameter<int>("i","Scalar:"); r.new_scalar_parameter<double>("d","Real value:"); r.new_scalar_parameter<std::string>("s","Word:"); r.new_scalar_parameter<bool>("b","Flag:"); r.new_vector_parameter<double>("v","List of values:",ncol); r.new_matrix_parameter<double>("m","Define rows:","End rows",ncol); }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard();
  for (long it=0; it<H::n(3000); ++it) {
    int ncol=H::ri(1,5); bool def=H::ri(0,1); std::vector<std::string> L; bool blocks=H::ri(0,1); std::vector<Exp> xs; int nb=blocks?H::ri(0,4):1;
    for (int b=0;b<nb;++b) { if (blocks) { noise(L); if (H::ri(0,3)==0) L.push_back("Scalar: 4711"); L.push_back(sp()+"Define part:"); } xs.push_back(block(L,ncol,def)); if (blocks) L.push_back(sp()+"End part"); }
    if (blocks&&H::ri(0,2)==0) L.push_back("Real value: 0.125");
    std::string fn="f"+std::to_string(it%7)+".para", d; { std::ofstream f(fn); for (auto& l:L) { f<<l<<"\n"; d+="\n|"+l; } } H::doing=d;
    ParaReader top{fn}; std::remove(fn.c_str());
    if (!blocks) { declare(top,ncol); CHK(throws([&]{top.get_value<int>("i");}),"value before any query",d); CHK(!top.found("i"),"found before any query",d); check(top,xs[0],ncol,def,d); 
      CHK(throws([&]{top.new_scalar_parameter<int>("i","Other:");})&&throws([&]{top.new_scalar_parameter<int>("e","");})&&throws([&]{top.query<int>("unknown");})&&throws([&]{top.found("unknown");}),"wrong use accepted",d); }
    else { top.new_block_parameter("part","Define part:","End part"); ParaReader& r=top.get_block("part"); declare(r,ncol);
      for (int b=0;b<=nb;++b) { bool q=top.query("part"); CHK(q==(b<nb),"block found",b,q,d); if (q) { check(r,xs[b],ncol,def,d+"\nblock "+std::to_string(b)); } } }
  }
  // malformed definitions are reported as not found
  for (long it=0; it<H::n(200); ++it) { int ncol=H::ri(2,5); int k=H::ri(0,4); std::string l; if (k==0) l="Define rows:\n"+std::string(H::ri(0,1)?"\n # x\n":"")+"End rows\n"; if (k==1) { l="Define rows:\n"; for (int j=0;j<ncol-1;++j) l+=(j?",":"")+std::to_string(j); l+="\nEnd rows\n"; } if (k==2) l="Define rows:\n1,2,3,4,5\n"; if (k==3) { l="List of values: "; for (int j=0;j<ncol-1;++j) l+=(j?",":"")+std::to_string(j); l+="\n"; } if (k==4) l="Scalar: abc\n";
    { std::ofstream f("bad.para"); f<<l; } ParaReader r{"bad.para"}; std::remove("bad.para"); declare(r,ncol); bool q=k<3?r.query<double>("m",false,DEF):k==3?r.query<double>("v"):r.query<int>("i"); CHK(!q,"malformed definition accepted",k,ncol,l); CHK(!r.found(k<3?"m":k==3?"v":"i"),"malformed definition marked as found",l); }
  CHK(throws([]{ ParaReader r{"no_such_file.para"}; }),"missing file accepted");
  return H::done();
}
