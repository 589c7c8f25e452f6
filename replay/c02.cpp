#include "weld.h"
int main(int c,char**v){ return weld_main(c,v,"C02"); }
