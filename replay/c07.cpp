#include "cont.h"
template<bool CIRC,class C> bool extra(C&,std::deque<long>&,int,long,int&){ return true; }
int main(int c,char**v){ init(c,v); while(more()) run_seq<array_list<long>,false>(); return finish(); }
