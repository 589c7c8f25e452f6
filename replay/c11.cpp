// C11: a number in the text decodes to its written value. Runs the real gcode_parser on generated texts in exactly sized buffers
// (AddressSanitizer sees a read past the terminator) against an independent reader of decimal numbers.
#include "h.h"
#include <cstring>
#define private public
#include "gcode_parser.h"
#undef private
typedef __float128 Q;
struct Num { bool found=false, neg=false, dot=false; std::string ip, fp; size_t end=0; };   // independent reading
static Num readnum(const std::string& t, size_t k){ Num r; auto sp=[&]{ while(k<t.size()&&t[k]==' ') k++; }; sp();
  if(k<t.size()&&(t[k]=='-'||t[k]=='+')){ r.neg=t[k]=='-'; k++; sp(); }
  auto run=[&](std::string& d){ while(k<t.size()&&(isdigit((unsigned char)t[k])||t[k]==' ')){ if(t[k]!=' ') d+=t[k]; k++; } };
  run(r.ip); if(k<t.size()&&t[k]=='.'){ r.dot=true; k++; run(r.fp); }
  r.found=!r.ip.empty()||!r.fp.empty(); r.end=k; return r; }
static Q val(const Num& n){ Q v=0,u=1; for(char c:n.ip) v=v*10+(c-'0'); Q f=0; for(char c:n.fp){ f=f*10+(c-'0'); u*=10; } v+=f/u; return n.neg?-v:v; }
static bool near(double x, const Num& n){ Q v=val(n),e=(Q)x-v; if(e<0) e=-e; Q m=v<0?-v:v; return e<=m*(Q)((n.ip.size()+2*n.fp.size()+4)*2.3e-16)+(Q)0 || (x==0&&v==0); }
static const char* SEP="0123456789";
static std::string number(){ std::string s; int m=rnd(0,9); int a=rnd(0,chance(.1)?25:6), b=rnd(0,chance(.1)?20:6);
  for(int i=rnd(0,2);i-->0&&chance(.3);) s+=' '; if(chance(.4)) s+=chance(.7)?'-':'+'; if(chance(.15)) s+=' ';
  auto dg=[&](int k){ for(int i=0;i<k;i++){ s+=chance(.2)?'9':chance(.2)?'0':SEP[rnd(0,9)]; if(chance(.08)) s+=' '; } };
  if(m!=0) dg(a); if(m>2){ s+='.'; dg(b); } return s; }
static std::string junk(){ static const char al[]="XYZEFIJxyzef;-+. 0123456789\t@#*\"e"; std::string s; for(int k=rnd(0,6);k-->0;) s+=chance(.1)?(char)rnd(1,255):al[rnd(0,sizeof al-2)]; return s; }
struct Buf { char* p; Buf(const std::string& t){ p=(char*)malloc(t.size()+1); memcpy(p,t.c_str(),t.size()+1); } ~Buf(){ free(p); } };
static gcode_parser GP;
static void one_double(){ std::string t=number()+(chance(.6)?junk():""); CUR="number in '"+t+"'"; Buf b(t); char* c=b.p; double v=-12345; unsigned char pr=77; N_CASES++;
  bool r=GP.try_extract_double(&c,&v,&pr); Num n=readnum(t,0); size_t e=c-b.p; char z[64]; snprintf(z,64," (%.17g)",v); std::string id=CUR+z;
  if(n.found) N_NONTRIV++;
  if(r!=n.found){ fail(id+": wrongly "+(r?"accepted":"refused")); return; }
  if(!r){ if(e!=0||v!=-12345) fail(id+": refused but changed"); return; }
  if(e!=n.end){ fail(id+": consumed "+std::to_string(e)+" instead of "+std::to_string(n.end)); return; }
  if(!near(v,n)){ fail(id+": not the number written"); return; }
  if(n.dot?pr!=(unsigned char)n.fp.size():pr!=77) fail(id+": number of decimals"); }
static void one_tool(){ std::string t; for(int k=rnd(0,2);k-->0;) t+=' '; if(chance(.85)) for(int k=rnd(1,9);k-->0;){ t+=SEP[rnd(0,9)]; if(chance(.1)) t+=' '; } t+=chance(.5)?junk():"";
  Num n=readnum(t,0); if(n.neg||(n.found&&n.ip.size()>9)||t.find('+')!=std::string::npos) return; CUR="tool number in '"+t+"'"; Buf b(t); char* c=b.p; unsigned long v=424242; N_CASES++;
  bool r=GP.try_extract_unsigned_long(&c,&v); if(r!=!n.ip.empty()){ fail(CUR+": wrongly accepted or refused"); return; } if(!r){ if(c!=b.p||v!=424242) fail(CUR+": refused but changed"); return; }
  N_NONTRIV++; size_t e=n.dot?n.end-0:n.end; if(n.dot){ e=t.find('.'); } if((Q)v!=[&]{Q x=0; for(char d:n.ip) x=x*10+(d-'0'); return x;}()) fail(CUR+": not the number written"); else if((size_t)(c-b.p)!=e) fail(CUR+": consumed text"); }
// whole lines: every letter of the command has the value written behind it, in order
static void one_line(){ static const char* C[]={"G0","G1","G2","G92","G28","M104","M82","M218","M207","g1","m109","G10"}; std::string t=C[rnd(0,11)]; if(chance(.9)) t+=' ';
  struct P { char l; Num n; }; std::vector<P> ps; for(int k=rnd(0,12);k-->0;){ char l=chance(.8)?"XYZEFIJSTP"[rnd(0,9)]:char('A'+rnd(0,25)); t+=chance(.2)?char(l+32):l; size_t at=t.size(); std::string s=chance(.1)?"":number(); t+=s; if(chance(.7)) t+=' '; Num n=readnum(t,at); if(!n.found&&t.find_first_not_of(' ',at)!=std::string::npos){ t.resize(at); n=Num(); } ps.push_back({l,n}); }
  if(chance(.3)) t+=";"+junk(); CUR="line '"+t+"'"; Buf b(t); parsed_command cmd; N_CASES++; GP.try_parse_gcode(b.p,cmd,chance(.5));
  if(cmd.parameters.size()!=ps.size()){ fail(CUR+": "+std::to_string(cmd.parameters.size())+" parameters instead of "+std::to_string(ps.size())); return; }
  for(size_t i=0;i<ps.size();i++){ auto&q=cmd.parameters[i]; if(q.name!=std::string(1,ps[i].l)){ fail(CUR+": parameter "+std::to_string(i)+" is "+q.name); return; }
    if(ps[i].n.found?(q.value_type!='F'||!near(q.double_value,ps[i].n)):(q.value_type!='S'||q.double_value!=0)){ fail(CUR+": value of parameter "+std::to_string(i)); return; } } if(ps.size()) N_NONTRIV++; }
static void one_t(){ static const char* W[]={"?","c","x","C","X"}; std::string t=chance(.5)?"T":"t"; bool w=chance(.3); for(int k=rnd(0,2);k-->0;) t+=' '; unsigned long v=rnd(0,chance(.2)?999999999:12); int wi=rnd(0,4); t+=w?W[wi]:std::to_string(v); if(!w&&chance(.2)) t+=chance(.5)?" ":".0"; if(chance(.3)) t+="; "+junk();
  CUR="line '"+t+"'"; Buf b(t); parsed_command cmd; N_CASES++; N_NONTRIV++; GP.try_parse_gcode(b.p,cmd); if(cmd.parameters.size()!=1){ fail(CUR+": not one parameter"); return; } auto&q=cmd.parameters[0];
  if(w?(q.value_type!='S'||q.string_value!=std::string(1,toupper(W[wi][0]))):(q.value_type!='U'||q.unsigned_long_value!=v)) fail(CUR+": not the tool written"); }
int main(int argc,char**argv){ init(argc,argv); while(more()) for(int i=0;i<200&&N_FAIL<5;i++){ one_double(); if(i%4==0) one_tool(); if(i%2==0) one_line(); if(i%4==1) one_t(); } return finish(); }
