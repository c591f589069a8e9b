// P11: histories of the spatial container against a plain list
#include "H.h"
#include "STLHeaders.h"
#include "CppUtils.h"
#include "Vertex.h"
#include "MeshGenerator.h"
using namespace CppUtils; using namespace TQMesh;
struct Item : public ContainerEntry<Item> { int id; Item(double x,double y,int i):ContainerEntry<Item>(x,y),id(i){} ~Item(){ id=-77; } void container_destructor() override { id=-id; } };
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard();
  LOG_PROPERTIES.set_error_ostream(TO_FILE,"/dev/null"); LOG_PROPERTIES.set_warn_ostream(TO_FILE,"/dev/null");
  for (long it=0; it<H::n(700); ++it) {
    double scale = std::ldexp(1.0,H::ri(0,14)); int mi=H::ri(1,8), md=H::ri(1,25); bool grid=H::ri(0,2)>0;
    Container<Item> c{scale,(size_t)mi,(size_t)md}; std::vector<Item*> in; int next=1; std::ostringstream log; log<<std::setprecision(17)<<"scale="<<scale<<" items="<<mi<<" depth="<<md;
    auto coord=[&](double f){ return grid ? scale*(H::ri(-16,16)/32.0)*f : H::rd(-scale/2,scale/2)*f; };
    int steps=H::ri(10,90); double cl=H::ri(0,3)?1.0:0.25;
    for (int s=0;s<steps;++s) {
      int op=H::ri(0,9); H::doing=log.str();
      if (op<5 || in.empty()) { double x=coord(cl),y=coord(cl); size_t n=c.size(); Item* q; if (H::ri(0,9)==0&&!in.empty()) q=&c.insert(in[H::ri(0,in.size()-1)]->pos(),x,y,next); else q=&c.push_back(x,y,next); log<<" +"<<next<<"("<<x<<","<<y<<")"; ++next; in.push_back(q); CHK(c.size()==n+1,"size after insertion",log.str()); CHK(q->in_container(),"in_container",log.str()); }
      else if (op<7) { int k=H::ri(0,in.size()-1); log<<" -"<<in[k]->id; bool r=c.remove(*in[k]); CHK(r,"remove failed",log.str()); CHK(!in[k]->in_container()&&in[k]->id<0,"destructor hook of a removed item",log.str()); in.erase(in.begin()+k); if (H::ri(0,1)) c.clear_waste(); }
      else { int k=H::ri(0,in.size()-1); double x=coord(cl),y=coord(cl); if (H::ri(0,1)) x=in[k]->xy().x; if (H::ri(0,2)==0) { x=in[k]->xy().x+scale/64*H::ri(-1,1); y=in[k]->xy().y+scale/64*H::ri(-1,1); x=std::clamp(x,-scale/2,scale/2); y=std::clamp(y,-scale/2,scale/2); }
        log<<" ~"<<in[k]->id<<"("<<x<<","<<y<<")"; bool r=c.update(*in[k],{x,y}); CHK(r,"update failed",log.str()); CHK(in[k]->xy().x==x&&in[k]->xy().y==y,"position after update",log.str()); }
      H::doing=log.str();
      CHK(c.size()==in.size(),"size",c.size(),in.size(),log.str());
      CHK(c.quad_tree().size()==in.size(),"number of indexed items",c.quad_tree().size(),in.size(),log.str());
      std::multiset<Item*> all(in.begin(),in.end()), lst; for (auto& x:c) lst.insert(x.get()); CHK(all==lst,"iteration",log.str());
      // queries
      for (int q=0;q<3;++q) {
        double a=coord(1.0),b=coord(1.0),x=coord(1.0),y=coord(1.0); Vec2d ll{std::min(a,x),std::min(b,y)}, ur{std::max(a,x),std::max(b,y)};
        std::multiset<Item*> want, got; for (auto p:in) if (p->xy().x>=ll.x&&p->xy().x<=ur.x&&p->xy().y>=ll.y&&p->xy().y<=ur.y) want.insert(p);
        for (auto p:c.get_items(ll,ur)) got.insert(p); CHK(want==got,"rectangle query",ll.x,ll.y,ur.x,ur.y,want.size(),got.size(),log.str());
        double r=scale*(grid?H::ri(0,16)/16.0:H::rd(0,1)); want.clear(); got.clear(); for (auto p:in) if ((p->xy()-Vec2d{a,b}).norm_sqr()<r*r) want.insert(p);
        for (auto p:c.get_items(Vec2d{a,b},r)) got.insert(p); CHK(want==got,"circle query",a,b,r,want.size(),got.size(),log.str());
        Vec2d nq{a,b}; if (H::ri(0,5)==0) nq={a+scale*H::rd(-3,3),b+scale*H::rd(-3,3)};
        { double best=1e300; for (auto p:in) best=std::min(best,(p->xy()-nq).norm_sqr()); H::doing=log.str()+" nearest "+std::to_string(nq.x)+","+std::to_string(nq.y); Item* p=c.get_nearest(nq);
          if (in.empty()) CHK(p==nullptr,"nearest of nothing",log.str()); else { CHK(p!=nullptr,"nearest not found",nq.x,nq.y,log.str()); CHK(all.count(p),"nearest is a removed item",log.str()); CHK((p->xy()-nq).norm_sqr()==best,"nearest is not the nearest",nq.x,nq.y,(p->xy()-nq).norm_sqr(),best,log.str()); } }
      }
    }
  }
  // moving mesh vertices keeps every index consistent
  return H::done();
}
