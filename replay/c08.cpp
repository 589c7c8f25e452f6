#include "cont.h"
template<bool CIRC,class C> bool extra(C& c,std::deque<long>& d,int op,long v,int&){ if(op==8){ c.initialize(v); d.clear(); } else { int n=std::max((int)d.size(),1)+rnd(0,4); c.resize(n,v); } return true; }
int main(int c,char**v){ init(c,v); while(more()) run_seq<circular_buffer<long>,true>(); return finish(); }
