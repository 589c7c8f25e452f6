#include "weld.h"
int main(int c,char**v){ return weld_main(c,v,"C14",[](Cfg& g){ g.maxlen=rnd(30,70); g.dyn=chance(.3); g.px=rnd(3,6); g.pe=rnd(3,6); }); }
