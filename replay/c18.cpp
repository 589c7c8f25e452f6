#include "weld.h"
// points of an exact circle straight into the real segmented_arc: the counter of refused arcs must follow the rule
static void direct(){ int ms=rnd(0,3)?rnd(1,40):0; double mm=rnd(0,3)?exp(rndf(log(.05),log(5.))):0; double r=exp(rndf(log(.3),log(80.))), st=rndf(.02,.6); int n=rnd(3,40); double cx=rndf(-50,50),cy=rndf(-50,50),a0=rndf(-3,3); if(st*n>6) n=(int)(6/st); if(n<3) return;
  segmented_arc s(3,50,.05,.05,9999,ms,mm,false,3,5,0); std::ostringstream d; d<<"min_arc_segments="<<ms<<" mm_per_arc_segment="<<mm<<" circle of radius "<<r<<", points every "<<st<<" rad"; CUR=d.str(); N_CASES++;
  double px=0,py=0,len=0; int cnt=0; double circ=2*M_PI*r;
  for(int i=0;i<n;i++){ double x=cx+r*cos(a0+st*i),y=cy+r*sin(a0+st*i); double L=i?hypot(x-px,y-py):0; px=x;py=y; printer_point p(x,y,.2,i*.1,i?.1:0,1000,L,true); int before=s.get_num_firmware_compensations(); bool was=s.is_shape(); bool ok=s.try_add_point(p); int after=s.get_num_firmware_compensations(); cnt++; len+=L;
    bool on=ms>0&&mm>0; bool coarse=on&&circ<ms*mm*.99&&circ<ms*len*.99, fine=!on||circ>ms*mm*1.01||circ>ms*len*1.01;
    if(cnt==i+1&&i>=2){ if(fine&&after!=before) { fail(d.str()+": point "+std::to_string(i+1)+" was refused for its coarseness, the printer draws the circle with "+std::to_string(circ/mm)+" segments"); return; } if(coarse&&ok&&s.is_shape()){ fail(d.str()+": point "+std::to_string(i+1)+" was accepted, the printer draws the circle with "+std::to_string(circ/mm)+" segments and the path is "+std::to_string(len)+" long"); return; } N_NONTRIV++; }
    if(!ok||after!=before) return; (void)was; } }
int main(int c,char**v){ init(c,v); while(more()){ for(int i=0;i<40&&more();i++) direct(); weld_case("C18",[](Cfg& g){ g.minseg=rnd(0,5)?rnd(1,40):0; g.mmps=rnd(0,5)?rndf(.1,3):0; }); } return finish(); }
