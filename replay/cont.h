#include "h.h"
#include "array_list.h"
#include "circular_buffer.h"
// executes random operation sequences on the real container and on a deque; reports the first sequence that differs
template<class C> struct Model;
struct Op { int k; long v; };
static const char* NM[]={"push_back","push_front","pop_back","pop_front","clear","resize","copy_to_dirty_other","copy_from_rotated","initialize","resize_fill"};
template<class C,bool CIRC> bool same(C& c,std::deque<long>& d,std::string& why){
  if(c.count()!=(int)d.size()){ why="count "+std::to_string(c.count())+" expected "+std::to_string(d.size()); return false; }
  for(int i=0;i<(int)d.size();i++) if(c[i]!=d[i]||c.get(i)!=d[i]){ why="element "+std::to_string(i)+" is "+std::to_string(c[i])+" expected "+std::to_string(d[i]); return false; }
  return true; }
template<class C> void do_copy(C& a,const C& b){ a.copy(b); }
template<class C,bool CIRC> void push(C& c,std::deque<long>& d,bool front,long v,int cap){
  if(front) c.push_front(v); else c.push_back(v);
  if(front) d.push_front(v); else d.push_back(v);
  if(CIRC && (int)d.size()>cap){ if(front) d.pop_back(); else d.pop_front(); } }
struct Circ{}; 
template<bool CIRC,class C> bool extra(C& c,std::deque<long>& d,int op,long v,int&cap);
template<class C,bool CIRC> void run_seq(){
  int cap=CIRC||chance(.5)?rnd(1,7):0; bool sized=cap>0;
  C* c=sized?new C(cap):new C(); if(!sized) cap=50;
  std::deque<long> d; std::string tr=sized?"ctor("+std::to_string(cap)+")":"ctor()";
  int len=rnd(1,sized?40:200); N_CASES++;
  for(int i=0;i<len;i++){
    int op=rnd(0,CIRC?9:7); if(!sized && chance(.7)) op=rnd(0,1);
    long v=rnd(1,1000000); tr+=" "; tr+=NM[op]; tr+="("+std::to_string(v)+")"; CUR=tr;
    bool threw=false, expthrow=false; 
    try{
      if(op<=1){ expthrow=!CIRC&&sized&&(int)d.size()==c->get_max_size();
        if(!expthrow) push<C,CIRC>(*c,d,op==1,v,c->get_max_size()); else { if(op) c->push_front(v); else c->push_back(v);} }
      else if(op==2||op==3){ expthrow=d.empty(); long got=op==2?c->pop_back():c->pop_front(); if(!d.empty()){ long e=op==2?d.back():d.front(); if(op==2) d.pop_back(); else d.pop_front(); if(got!=e){ fail(tr+": returned "+std::to_string(got)+" expected "+std::to_string(e)); delete c; return; } } }
      else if(op==4){ c->clear(); d.clear(); }
      else if(op==5){ int n=std::max((int)d.size(),1)+rnd(0,4); c->resize(n); if(c->get_max_size()!=n){ fail(tr+": capacity"); return; } }
      else if(op==6){ C o(rnd(1,9)); int q=rnd(0,3); for(int j=0;j<q&&j<o.get_max_size();j++) o.push_front(j); if(q>1) o.pop_back(); do_copy(o,*c); std::string w; if(!same<C,CIRC>(o,d,w)){ fail(tr+": copy differs: "+w); delete c; return; } if((int)d.size()>o.get_max_size()){ fail(tr+": copy capacity"); return;} 
        if((int)d.size()<o.get_max_size()){ auto d2=d; o.push_back(5); d2.push_back(5); if(!same<C,CIRC>(o,d2,w)){ fail(tr+": push after copy differs: "+w); return; } } }
      else if(op==7){ C o(c->get_max_size()); std::deque<long> d2; for(int j=rnd(0,20);j>0;j--){ long x=rnd(1,99); if(!CIRC&&(int)d2.size()==o.get_max_size()){ o.pop_front(); d2.pop_front(); } push<C,CIRC>(o,d2,chance(.5),x,o.get_max_size()); if(chance(.2)&&!d2.empty()){ o.pop_front(); d2.pop_front(); } } do_copy(*c,o); d=d2; std::string w; if(!same<C,CIRC>(o,d2,w)){ fail(tr+": copy changed its source"); return; } }
      else extra<CIRC>(*c,d,op,v,cap);
    } catch(const std::exception&){ threw=true; }
    if(threw!=expthrow){ fail(tr+(threw?": threw unexpectedly":": did not throw")); delete c; return; }
    std::string why; if(!same<C,CIRC>(*c,d,why)){ fail(tr+": "+why); delete c; return; }
    N_NONTRIV++;
  }
  delete c; }
