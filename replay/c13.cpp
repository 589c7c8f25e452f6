// C13: the text of a number is the number rounded to the requested decimals. Runs the real utilities::dtos.
#include "h.h"
#include "utilities.h"
#include <cstring>
typedef __float128 Q;
static double pick(){ int m=rnd(0,9); double x;
  if(m==0){ unsigned long long b=RNG(); memcpy(&x,&b,8); if(!std::isfinite(x)) x=1; }
  else if(m==1){ x=rnd(-2000000000L,2000000000L); x*=pow(10,rnd(0,20)); }
  else if(m==2){ x=rnd(-99999,99999)/pow(10,rnd(0,12)); }
  else if(m==3){ x=(rnd(-99999999,99999999)+.5)/pow(10,rnd(0,9)); }
  else if(m==4){ x=pow(10,rnd(-12,20))-(chance(.5)?pow(10,rnd(-12,3)):0); }
  else if(m==5){ std::string s; int k=rnd(1,17),d=rnd(0,k); for(int i=0;i<k;i++){ if(i==d) s+='.'; s+=chance(.7)?'9':char('0'+rnd(0,9)); } x=atof(s.c_str()); }
  else if(m==6){ x=rndf(-1,1)*pow(10,rnd(-20,3)); }
  else if(m==7){ x=ldexp((double)rnd(1,1000),(int)rnd(-60,60)); }
  else x=rndf(-1000,1000);
  if(chance(.2)) x=-x; if(chance(.03)) x=0; return x; }
static void onecase(){ double x=pick(); int p=chance(.9)?rnd(0,9):rnd(0,255); char b[80]; snprintf(b,80,"%.17g precision %d",x,p); CUR=b;
  std::string t=utilities::dtos(x,(unsigned char)p); N_CASES++; if(x!=0) N_NONTRIV++; std::string id=CUR+" -> '"+t+"': ";
  size_t i=0; bool neg=false; if(t[0]=='-'){ neg=true; i=1; } size_t dot=t.find('.'); size_t ie=dot==std::string::npos?t.size():dot;
  if(neg!=std::signbit(x)&&x!=0){ fail(id+"wrong sign"); return; }
  if(ie<=i||(ie>i+1&&t[i]=='0')){ fail(id+"no or padded integer part"); return; }
  for(size_t k=i;k<t.size();k++) if(k!=dot&&(t[k]<'0'||t[k]>'9')){ fail(id+"not a decimal number"); return; }
  size_t nd=dot==std::string::npos?0:t.size()-dot-1;
  if(x!=0){ if((int)nd!=p||(p==0&&dot!=std::string::npos)){ fail(id+"wrong number of decimals"); return; } } else if(t!="0"&&t!="-0"){ fail(id+"zero"); return; }
  Q v=0,u=1; for(size_t k=i;k<t.size();k++) if(k!=dot){ v=v*10+(t[k]-'0'); if(dot!=std::string::npos&&k>dot) u/=10; } v*=u; Q half=1; for(int k=0;k<p;k++) half/=10; half/=2;
  double a=fabs(x); Q ulp=(Q)nextafter(a,INFINITY)-(Q)a; Q e=v-(Q)a; if(e<0) e=-e;
  if(!(e<=half+ulp*(Q).501)) fail(id+"off by more than half a unit"); }
int main(int argc,char**argv){ init(argc,argv); while(more()) for(int i=0;i<200&&N_FAIL<5;i++) onecase(); return finish(); }
