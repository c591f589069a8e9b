// P08 flags, P09 adjacency lists over random histories
#include "H.h"
#include "STLHeaders.h"
#include "CppUtils.h"
#include "MeshGenerator.h"
using namespace CppUtils; using namespace TQMesh;
template <class E, class Pr> static void flags(E& e, int nbits, std::function<void(int)> named)
{
  int m = 0; std::string hist;
  CHK(e.has_no_property(), "new entity has no flags", 0);
  for (int k = 0; k < 40; ++k) {
    int p = H::ri(0,2) ? (1 << H::ri(0,nbits-1)) : H::ri(0,255), op = H::ri(0,8);
    if (op < 4) { e.add_property((Pr)p); m |= p; hist += " add" ; }
    else if (op < 8) { e.remove_property((Pr)p); m &= ~p & 255; hist += " remove"; }
    else { e.set_property((Pr)p); m = p; hist += " set"; }
    hist += std::to_string(p);
    CHK((int)e.properties() == m, "flag set", hist, (int)e.properties(), m);
    for (int q = 0; q < 256; q += H::ri(1,3)) CHK(e.has_property((Pr)q) == ((m & q) != 0), "has", q, hist);
    CHK(e.has_no_property() == (m == 0), "no property", hist);
    named(m);
  }
}
struct World {
  Vertices V{1000.0}; Triangles T{1000.0}; Quads Q{1000.0};
  EdgeList E1{Orientation::NONE}, E2{Orientation::NONE};
  std::vector<Vertex*> v; std::vector<Edge*> e; std::vector<Triangle*> t; std::vector<Quad*> q;
  std::string hist;
  void check() {
    for (auto x : v) {
      std::multiset<const void*> me, mf, re, rf;
      for (auto y : e) { if (&y->v1()==x) me.insert(y); if (&y->v2()==x) me.insert(y); }
      for (auto y : t) for (int i = 0; i < 3; ++i) if (&y->vertex(i)==x) mf.insert((Facet*)y);
      for (auto y : q) for (int i = 0; i < 4; ++i) if (&y->vertex(i)==x) mf.insert((Facet*)y);
      for (auto y : x->edges()) re.insert(y);
      for (auto y : x->facets()) rf.insert(y);
      CHK(me == re, "edges of a vertex", me.size(), re.size(), hist);
      CHK(mf == rf, "facets of a vertex", mf.size(), rf.size(), hist);
      for (auto y : e) CHK(x->is_adjacent(*y) == (me.count(y) > 0), "is_adjacent edge", hist);
      for (auto y : t) CHK(x->is_adjacent(*(Facet*)y) == (mf.count((Facet*)y) > 0), "is_adjacent triangle", hist);
      for (auto y : q) CHK(x->is_adjacent(*(Facet*)y) == (mf.count((Facet*)y) > 0), "is_adjacent quad", hist);
    }
    for (auto y : e) {
      auto ok = [&](Edge* r, bool nx){ bool any = false, hit = false;
        for (auto z : e) if (z != y && &z->edgelist()==&y->edgelist() && (nx ? &z->v1()==&y->v2() : &z->v2()==&y->v1())) { any = true; hit = hit || z==r; }
        return r ? hit : !any; };
      CHK(ok(y->get_next_edge(),true), "next edge", hist);
      CHK(ok(y->get_prev_edge(),false), "previous edge", hist);
    }
  }
  void step() {
    int op = H::ri(0,9); auto pick = [&](int n){ std::vector<Vertex*> p(v); std::shuffle(p.begin(),p.end(),H::rng); p.resize(n); return p; };
    if (op < 3) { auto p = pick(2); EdgeList& L = H::ri(0,2) ? E1 : E2; H::doing = "add edge"; e.push_back(H::ri(0,1) ? &L.add_edge(*p[0],*p[1],1) : &L.insert_edge(L.edges().begin(),*p[0],*p[1],1)); hist += " +e"; }
    else if (op < 4) { auto p = pick(3); t.push_back(&T.push_back(*p[0],*p[1],*p[2])); hist += " +t"; }
    else if (op < 5) { auto p = pick(4); q.push_back(&Q.push_back(*p[0],*p[1],*p[2],*p[3])); hist += " +q"; }
    else if (op < 7 && e.size()) { int i = H::ri(0,e.size()-1); EdgeList& L = e[i]->edgelist(); H::doing = "remove edge"; CHK(L.remove(*e[i]), "remove edge", hist); e.erase(e.begin()+i); hist += " -e"; }
    else if (op < 8 && t.size()) { int i = H::ri(0,t.size()-1); H::doing = "remove triangle"; CHK(T.remove(*t[i]), "remove triangle", hist); t.erase(t.begin()+i); hist += " -t"; }
    else if (op < 9 && q.size()) { int i = H::ri(0,q.size()-1); H::doing = "remove quad"; CHK(Q.remove(*q[i]), "remove quad", hist); q.erase(q.begin()+i); hist += " -q"; }
    else { T.clear_waste(); Q.clear_waste(); E1.edges(); hist += " gc"; }
  }
};
int main(int argc, char** argv)
{
  H::init(argc, argv); H::guard();
  if (H::prop == "P08")
    for (long it = 0; it < H::n(400); ++it) {
      Vertices V(1000.0); double s = H::rd(0,3), r = H::rd(0,3);
      Vertex& a = H::ri(0,1) ? V.push_back(1.,2.,s,r) : V.push_back(Vec2d{1.,2.},s,r); Vertex& b = V.push_back(3.,4.);
      CHK(a.mesh_size()==s && a.size_range()==r && a.xy().x==1. && a.xy().y==2., "new vertex", s, r);
      EdgeList E(Orientation::NONE); Edge& e = E.add_edge(a,b,3);
      flags<Vertex,VertexProperty>(a, 4, [&](int m){ CHK(a.on_front()==!!(m&1) && a.in_quad_layer()==!!(m&2) && a.is_fixed()==!!(m&4) && a.on_boundary()==!!(m&8), "named vertex flags", m); });
      flags<Edge,EdgeProperty>(e, 3, [&](int m){ CHK(e.on_boundary()==!!(m&1) && e.is_fixed()==!!(m&2) && e.is_ghost()==!!(m&4) && e.is_interior()==!(m&1), "named edge flags", m); });
    }
  if (H::prop == "P09")
    for (long it = 0; it < H::n(150); ++it) {
      World w; int n = H::ri(4,7);
      for (int i = 0; i < n; ++i) w.v.push_back(&w.V.push_back(std::cos(i)*5, std::sin(i)*5));
      for (int k = 0; k < 60; ++k) { w.step(); w.check(); }
    }
  return H::done();
}
