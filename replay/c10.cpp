#include "track.h"
int main(int c,char**v){ return track_main(c,v,true); }
