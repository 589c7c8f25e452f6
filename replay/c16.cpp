// C16: the source file is only replaced by a complete output.  Runs the real welder in a scratch directory: source and target
// equal or different; cancelled by the progress callback at some point, write failures (file size limit), unreadable source.
#include "weld.h"
#include <csignal>
#include <dirent.h>
#include <sys/resource.h>
static int CANCEL_AT=-1, CALLS=0;
static bool ONCE=false; static S DIRN; static std::vector<S> TEMPS;  // names of the temporary files seen
static void look(){ if(DIR* dp=opendir(DIRN.c_str())){ while(dirent* e=readdir(dp)) if(e->d_name[0]!='.'&&S(e->d_name)!="ref.gcode"&&S(e->d_name)!="out.xyz"&&S(e->d_name)!="in.gcode"&&TEMPS.size()<200) TEMPS.push_back(e->d_name); closedir(dp); } }
static bool cb(arc_welder_progress,logger*,int){ look(); int k=CALLS++; return CANCEL_AT<0||(ONCE?k!=CANCEL_AT:k<CANCEL_AT); }
static clock_t TICK=0;
extern "C" clock_t clock(void){ return TICK+=100*CLOCKS_PER_SEC; }  // the callback is asked as often as the code allows
static S slurp(const S& p){ std::ifstream f(p.c_str(),std::ios::binary); std::stringstream s; s<<f.rdbuf(); return s.str(); }
static bool exists(const S& p){ return access(p.c_str(),F_OK)==0; }
static void onecase(){ Cfg c=rand_cfg(); Gen g; g.cfg=c; g.build(rnd(1,4)); S text; bool crlf=false; int rep=chance(.4)?1:rnd(2,1500/std::max<int>(1,g.out.size())+2); for(int i=0;i<rep;i++) for(auto&x:g.out) text+=x.line()+(crlf?"\r\n":"\n"); if(chance(.2)&&text.size()) text.pop_back();
  char d0[]="/tmp/c16XXXXXX"; S d=mkdtemp(d0); DIRN=d; S a=d+"/"+(TEMPS.size()&&chance(.3)?TEMPS[rnd(0,(int)TEMPS.size()-1)]:S("in.gcode")), b=d+"/out.xyz"; ONCE=chance(.5); { std::ofstream o(a.c_str(),std::ios::binary); o<<text; }
  std::vector<S> names; names.push_back("w"); std::vector<int> lv; lv.push_back(50); logger lg(names,lv); lg.set_log_level_by_value(50);
  bool same=chance(.75); int mode=rnd(0,4);  // 0,1 normal  2 cancel  3 file size limit 4 source missing
  auto args=[&](const S& s,const S& t){ arc_welder_args w(s,t,&lg); w.resolution_mm=c.res; w.path_tolerance_percent=c.tol; w.allow_3d_arcs=c.d3; w.allow_travel_arcs=c.trav; w.callback=cb; return w; };
  CUR="mode "+std::to_string(mode)+" same "+std::to_string(same)+" lines "+std::to_string(g.out.size()*rep);
  CANCEL_AT=-1; S ref; { arc_welder w(args(a,d+"/ref.gcode")); w.process(); ref=slurp(d+"/ref.gcode"); std::remove((d+"/ref.gcode").c_str()); }
  if(mode==4) std::remove(a.c_str()); CALLS=0; CANCEL_AT=mode==2?rnd(0,3):-1;
  struct rlimit ol; getrlimit(RLIMIT_FSIZE,&ol); if(mode==3){ signal(SIGXFSZ,SIG_IGN); struct rlimit nl=ol; nl.rlim_cur=(rlim_t)(ref.size()*rndf(0,1.05)); setrlimit(RLIMIT_FSIZE,&nl); }
  arc_welder_results r; { arc_welder w(args(a,same?a:b)); r=w.process(); }
  if(mode==3) setrlimit(RLIMIT_FSIZE,&ol);
  N_CASES++; S now=slurp(a); bool have=exists(a); S out=slurp(same?a:b); auto id=CUR+" success="+std::to_string(r.success)+" cancelled="+std::to_string(r.cancelled)+": ";
  auto strip=[](const S& s){ return s; };
  if(mode==4){ if(have||r.success) fail(id+"success without a source"); }
  else if(!same){ if(!have||now!=text) fail(id+"the source file was changed although the target is another file"); if(r.success&&strip(out)!=strip(ref)) fail(id+"success with an incomplete target"); }
  else { if(!have) fail(id+"the source file is gone"); else if(now!=text&&strip(now)!=strip(ref)) fail(id+"the source file holds an incomplete output ("+std::to_string(now.size())+" of "+std::to_string(ref.size())+" bytes)"); else if(r.success&&now==text&&ref!=text) fail(id+"success but the source was not replaced"); else if(r.cancelled&&now!=text) fail(id+"cancelled, but the source was replaced"); }
  if(mode>=2) N_NONTRIV++;
  if(DIR* dp=opendir(d.c_str())){ while(dirent* e=readdir(dp)) if(e->d_name[0]!='.') unlink((d+"/"+e->d_name).c_str()); closedir(dp); } rmdir(d.c_str()); }
int main(int argc,char**argv){ init(argc,argv); while(more()) onecase(); return finish(); }
