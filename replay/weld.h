// End-to-end execution of the real welder on generated G-code, judged by an independent interpreter of
// source and output text.  Every check is tagged with the property it belongs to; a replay program
// reports only the failures of its own property.
#pragma once
#include "h.h"
#include "arc_welder.h"
#include "logger.h"
typedef std::string S;
static S fmt(double v,int p){ char b[64]; snprintf(b,64,"%.*f",p,v); return b; }
struct Cmd { S text,comment; S cmd; std::map<char,double> p; bool blank=false; S line() const { return comment.empty()?text:text+";"+comment; } };
struct Cfg { double res=.05,tol=.05,maxr=9999,mmps=0,var=0; int minseg=0,buf=10,maxlen=0,px=6,pe=6; bool g90e=false,d3=false,trav=false,dyn=false;
  S str() const { std::ostringstream o; o.precision(17); o<<"res="<<res<<" tol="<<tol<<" maxr="<<maxr<<" min_arc_segments="<<minseg<<" mm_per_arc_segment="<<mmps<<" rate_variance="<<var<<" buffer="<<buf<<" max_gcode_length="<<maxlen<<" px="<<px<<" pe="<<pe<<" g90_e="<<g90e<<" 3d="<<d3<<" travel="<<trav<<" dynamic="<<dyn; return o.str(); } };
struct Mach { double x=0,y=0,z=0,e=0,etot=0,f=0; bool rel=false,erel=false,xk=false,yk=false,zk=false; double hx=0,hy=0,hz=0; bool g90e=false;
  // executes a command; the physical position is tracked even when the welder cannot know it
  void exec(const Cmd& c){ auto has=[&](char k){ return c.p.count(k)>0; }; auto v=[&](char k){ return c.p.at(k); };
    const S& n=c.cmd;
    if(n=="G0"||n=="G1"||n=="G2"||n=="G3"){ if(has('F')) f=v('F');
      if(has('X')){ x=rel?x+v('X'):v('X'); if(!rel) xk=true; } if(has('Y')){ y=rel?y+v('Y'):v('Y'); if(!rel) yk=true; } if(has('Z')){ z=rel?z+v('Z'):v('Z'); if(!rel) zk=true; }
      if(has('E')){ double ne=erel?e+v('E'):v('E'); etot+=ne-e; e=ne; } }
    else if(n=="G28"){ bool a=!has('X')&&!has('Y')&&!has('Z'); if(a||has('X')){ x=hx; xk=false; } if(a||has('Y')){ y=hy; yk=false; } if(a||has('Z')){ z=hz; zk=false; } }
    else if(n=="G90"){ rel=false; if(g90e) erel=false; } else if(n=="G91"){ rel=true; if(g90e) erel=true; }
    else if(n=="M82") erel=false; else if(n=="M83") erel=true;
    else if(n=="G92"){ if(has('X')){ x=v('X'); xk=true; } if(has('Y')){ y=v('Y'); yk=true; } if(has('Z')){ z=v('Z'); zk=true; } if(has('E')) e=v('E'); }
  } };
static int tag_of(const S& c){ if(c=="perimeter"||c=="move to first perimeter point") return 1; if(c=="infill"||c=="move to first infill point") return 2; if(c=="infill(bridge)") return 3; if(c=="skirt") return 4; return 0; }
static S num(double v,int style,int p){ S s=fmt(v,p); if(style==1){ while(s.find('.')!=S::npos&&(s.back()=='0'||s.back()=='.')){ bool d=s.back()=='.'; s.pop_back(); if(d) break; } } return s; }
struct Gen { Cfg cfg; std::vector<Cmd> out; Mach m; int style=0, dec=5; double hx,hy,hz; bool comments=false,noise=true; int npts=0; std::vector<int> feeds; int feed(){ if(feeds.size()&&chance(.5)) return feeds[rnd(0,(int)feeds.size()-1)]; int f=rnd(5,200)*10; feeds.push_back(f); if(feeds.size()>3) feeds.erase(feeds.begin()); return f; }
  void raw(const S& text,const S& cmd,std::map<char,double> p=std::map<char,double>(),S comment=""){ Cmd c; c.text=text; c.cmd=cmd; c.p=p; c.comment=comment; c.blank=cmd.empty()&&comment.empty()&&text.find_first_not_of(" \t\r")==S::npos; out.push_back(c); m.exec(c); }
  double q(double v,int d){ double k=pow(10,d); return strtod(fmt(v,d).c_str(),0); }
  void mv(const S& g,std::map<char,double> p,S comment=""){ // p values are rounded to what is printed
    S t=g; static const S ord="XYZEF"; std::map<char,double> r; for(char k:ord) if(p.count(k)){ int d=k=='F'?(chance(.1)?1:0):dec; S w=num(p[k],style,d); r[k]=strtod(w.c_str(),0); t+=S(" ")+k+w; }
    if(chance(.02)) t+=" "; if(chance(.02)) t=" "+t; if(chance(.02)) for(auto&c:t) c=tolower(c); raw(t,g,r,comment); }
  void to(double x,double y,double z,bool hasz,double de,S comment,int hide=0){ std::map<char,double> p; 
    if(!(hide&1)) p['X']=m.rel?x-m.x:x; if(!(hide&2)) p['Y']=m.rel?y-m.y:y; if(hasz) p['Z']=m.rel?z-m.z:z;
    if(de!=0) p['E']=m.erel?de:m.e+de; mv(chance(.8)?"G1":"G0",p,comment); npts++; }
  void interrupt(){ int k=rnd(0,17); static const char* cm[]={"perimeter","infill","TYPE:FILL","hello","LAYER:3","skirt","a - b","FLAVOR:UltiGCode"};
    if(k==0) raw("","",{},cm[rnd(0,7)]); else if(k==1||k==2||k==16) raw(chance(.5)?"":chance(.5)?"  ":"\t",""); else if(k==3){ double f=rnd(10,9000); mv("G1",{{'F',f}}); }
    else if(k==4) { double e=chance(.7)?0:chance(.7)?q(rndf(0,100),3):q(pow(10,rnd(1,6))-rndf(0,6),3); raw("G92 E"+fmt(e,3),"G92",{{'E',e}}); } else if(k==5) raw(m.erel?"M82":"M83",m.erel?"M82":"M83");
    else if(k==6) raw("M106 S128","M106"); else if(k==7) raw("M117 hello world","M117"); else if(k==8) { S s=chance(.5)?"  KLIPPER_MACRO A=1":"SET_PRESSURE_ADVANCE ADVANCE=0.05"; raw(s,"?"); }
    else if(k==9){ raw("G91","G91"); int n=rnd(0,4); for(int i=0;i<n;i++) to(q(m.x+rndf(-1,1),3),q(m.y+rndf(-1,1),3),m.z,false,chance(.5)?.02:0,""); raw("G90","G90"); }
    else if(k==10){ double x=q(rndf(-20,20),3); raw("G92 X"+fmt(x,3),"G92",{{'X',x}}); }
    else if(k==11) { double z=q(rndf(0,3),2); mv("G1",{{'Z',m.rel?z-m.z:z}}); } else if(k==12) to(m.x,m.y,m.z,false,-0.8,""); else if(k==13) to(m.x,m.y,m.z,false,.8,"");
    else if(k==14) to(m.x,m.y,m.z,false,0,""); else if(k==15&&chance(.3)) raw("G28","G28"); else if(k==17) { raw(chance(.5)?"T0":"T1",m.e==0?"T":"T"); out.pop_back(); } }
  void arcblock(){ double r=exp(rndf(log(.3),log(chance(.2)?3000:60))), a=rndf(0,2*M_PI), st=rndf(.02,chance(.1)?1.4:.4)*(chance(.5)?1:-1); if(r*fabs(st)>20) st*=20/(r*fabs(st)); int n=rnd(2,28); if(chance(.1)) n=rnd(30,90);
    double cx,cy; bool fromhere=chance(.6); if(fromhere){ cx=m.x-r*cos(a); cy=m.y-r*sin(a); } else { cx=rndf(-100,200); cy=rndf(-100,200); }
    double zs=cfg.d3&&chance(.4)?rndf(-.2,.2):0; if(!cfg.d3&&chance(.04)) zs=rndf(-.0001,.0001); int kind=chance(.6)?1:chance(.6)?0:-1; double rate=rndf(.01,.2)*kind; if(chance(.08)) rate=kind*pow(10.,rndf(-5.5,-2)); bool hasf=chance(.5); double amp=chance(.6)?0:cfg.res*pow(10,rndf(-2,.5)); double dz=m.z;
    bool tagged=chance(.1); S cm=tagged?(chance(.5)?"perimeter":"infill"):(comments?"arc":"");
    double ratevar=chance(.7)?0:rndf(0,.2);
    for(int i=fromhere?1:0;i<=n;i++){ if(cfg.dyn&&chance(.04)) dec=rnd(3,6); double th=a+st*i, rr=r+rndf(-amp,amp); double x=q(cx+rr*cos(th),dec),y=q(cy+rr*sin(th),dec); dz+=zs;
      double L=hypot(x-m.x,y-m.y); double de=q(rate*L*(1+rndf(-ratevar,ratevar)),dec); if(i==0) de=chance(.5)?0:de; if(kind==0) de=0; if(kind!=0&&de==0&&i) de=kind*pow(10.,-dec)*rnd(1,9); if(chance(.01)) de=-de; if(chance(.006)) de=0; int hide=chance(.01)?rnd(1,2):0;
      std::map<char,double> p; if(!(hide&1)) p['X']=m.rel?x-m.x:x; if(!(hide&2)) p['Y']=m.rel?y-m.y:y; if(zs!=0&&i) p['Z']=m.rel?zs:dz; if(de!=0) p['E']=m.erel?de:m.e+de; if(hasf&&i==(fromhere?1:0)) p['F']=feed(); if(chance(.008)) p['F']=rnd(1,900); if(chance(.015)) p['F']=feed();
      mv(chance(.9)?"G1":"G0",p,chance(.01)?"x":cm); npts++;
      if(noise&&chance(.03)) interrupt(); } if(chance(.2)) to(q(m.x+rndf(-3,3),dec),q(m.y+rndf(-3,3),dec),m.z,false,chance(.5)?-q(rndf(.01,1),dec):chance(.5)?0:q(rndf(.01,1),dec),""); }
  void build(int blocks){ hx=q(rndf(-10,10),1); hy=q(rndf(-10,10),1); m.hx=hx; m.hy=hy; m.hz=q(rndf(0,1),1); m.g90e=cfg.g90e; m.x=hx+1; m.y=hy-2; if(chance(.12)) raw("","",{},chance(.5)?"FLAVOR:UltiGCode":" generated by PrusaSlicer 2.4.2");
    dec=rnd(3,6); style=rnd(0,1); comments=chance(.2); noise=chance(.8);
    if(chance(.5)) raw("; generated","",{}," generated"), out.back().text="";
    if(chance(.7)) raw("G28","G28"); if(chance(.8)) raw("G90","G90"); raw("G21","G21"); if(chance(.5)) raw("M83","M83"); else if(chance(.5)) raw("M82","M82"); if(chance(.8)) mv("G1",{{'Z',.2},{'F',1800}}); if(chance(.5)) raw("G92 E0","G92",{{'E',0.}});
    if(chance(.4)) raw("G92 X10 Y20 Z0.2","G92",{{'X',10.},{'Y',20.},{'Z',.2}}); if(chance(.75)) to(q(rndf(0,200),dec),q(rndf(0,200),dec),0,false,0,"");
    for(int b=0;b<blocks;b++){ if(chance(.75)) arcblock(); else { int n=rnd(1,4); for(int i=0;i<n;i++) to(q(rndf(0,200),dec),q(rndf(0,200),dec),m.z,false,chance(.5)?rndf(.1,2):0,""); } if(noise&&chance(.35)) interrupt(); }
    if(chance(.15)) raw("",""); if(chance(.1)){ raw("","",{},"end"); } } };
static Cfg rand_cfg(){ Cfg c; double rs[]={.005,.01,.05,.1,.5}; c.res=chance(.7)?rs[rnd(0,4)]:exp(rndf(log(.002),log(1.))); c.tol=chance(.6)?.05:exp(rndf(log(.0005),log(.8))); c.maxr=chance(.6)?9999:exp(rndf(log(2),log(500)));
  if(chance(.25)){ c.minseg=rnd(1,30); c.mmps=rndf(.1,3); } c.var=chance(.5)?0:rndf(.01,.2); c.buf=rnd(1,60); if(chance(.4)) c.maxlen=rnd(30,75); c.px=rnd(3,6); c.pe=rnd(3,6); c.g90e=chance(.3); c.d3=chance(.35); c.trav=chance(.5); c.dyn=chance(.15); return c; }
struct Run { bool ok=false; S out; std::vector<S> lines; arc_welder_results r; };
static Run weld(const std::vector<Cmd>& src,const Cfg& c,bool lastnl=true){ Run R; { std::ofstream f("in.gcode",std::ios::binary); for(size_t i=0;i<src.size();i++) f<<src[i].line()<<((lastnl||i+1<src.size())?"\n":""); }
  arc_welder_args a; std::vector<S> nm={ARC_WELDER_LOGGER_NAME}; std::vector<int> lv={(int)log_levels::CRITICAL}; static logger lg(nm,lv); lg.set_log_level(log_levels::CRITICAL);
  a.source_path="in.gcode"; a.target_path="out.gcode"; a.log=&lg; a.resolution_mm=c.res; a.path_tolerance_percent=c.tol; a.max_radius_mm=c.maxr; a.min_arc_segments=c.minseg; a.mm_per_arc_segment=c.mmps; a.g90_g91_influences_extruder=c.g90e; a.allow_3d_arcs=c.d3; a.allow_travel_arcs=c.trav; a.allow_dynamic_precision=c.dyn; a.default_xyz_precision=c.px; a.default_e_precision=c.pe; a.extrusion_rate_variance_percent=c.var; a.buffer_size=c.buf; a.max_gcode_length=c.maxlen; a.callback=NULL;
  { arc_welder w(a); R.r=w.process(); }
  std::ifstream f("out.gcode",std::ios::binary); std::stringstream ss; ss<<f.rdbuf(); R.out=ss.str(); S l; std::istringstream is(R.out); while(std::getline(is,l)) R.lines.push_back(l); R.ok=R.r.success; return R; }
struct Arc { size_t i0,i1; size_t line; Cmd c; };   // absorbs source lines [i0,i1)
static bool parse_arc(const S& l,Cmd& c){ if(l.compare(0,3,"G2 ")&&l.compare(0,3,"G3 ")) return false; size_t k=l.find(';'); c.text=k==S::npos?l:l.substr(0,k); c.comment=k==S::npos?"":l.substr(k+1); std::istringstream is(c.text); S t; is>>c.cmd; S seq; while(is>>t){ char*e; c.p[t[0]]=strtod(t.c_str()+1,&e); if(*e||t.size()<2||c.p.size()!=seq.size()+1) return false; seq+=t[0]; } static const S ord="XYZIJEF"; size_t q=0; for(char ch:seq){ while(q<ord.size()&&ord[q]!=ch) q++; if(q==ord.size()) return false; } for(char ch:S("XYIJ")) if(!c.p.count(ch)) return false; return true; }
typedef std::function<void(const char*,const S&)> Report;
// aligns the output with the source; judges every property
static void judge(const std::vector<Cmd>& src,const Gen& g,const Cfg& c,const Run& R,Report rep,long& narcs){
  // machine state before every source command
  std::vector<Mach> st; Mach m; m.hx=g.m.hx; m.hy=g.m.hy; m.hz=g.m.hz; m.g90e=c.g90e; m.x=m.hx+1; m.y=m.hy-2; for(auto&x:src){ st.push_back(m); m.exec(x); } st.push_back(m);
  if(!R.r.success){ rep("C05","processing failed: "+R.r.message); return; }
  // the header: the block starting with the welder's own comment up to the first empty line
  std::vector<S> L=R.lines; size_t h=0; while(h<L.size()&&L[h].find("; Postprocessed by [ArcWelder]")!=0) h++; if(h==L.size()){ if(!src.empty()) rep("C05","no header"); return; }
  size_t he=h; while(he<L.size()&&!L[he].empty()) he++; if(he<L.size()) he++; // a special first line stays the first line
  bool special=!src.empty()&&(src[0].line()==";FLAVOR:UltiGCode"||src[0].line().compare(0,26,"; generated by PrusaSlicer")==0); std::vector<S> o;
  if(h!=(special?1:0)){ rep("C05",special?"the first line of the source is not the first line of the output":"text before the header"); } if(h==1) o.push_back(L[0]);
  o.insert(o.end(),L.begin()+he,L.end());
  size_t n=src.size(), k=o.size(); std::vector<Cmd> oa(k); std::vector<char> isarc(k); for(size_t j=0;j<k;j++) isarc[j]=parse_arc(o[j],oa[j]);
  int px=c.px; double step=pow(10,-px)*.5000001+1e-9;
  std::map<std::pair<size_t,size_t>,char> dead; std::vector<Arc> arcs; size_t far_i=0,far_j=0;
  // an arc may end at several moves when they are closer than the output's resolution: the one its E word agrees with is preferred
  bool estrict=true; auto eok=[&](size_t j,size_t i,size_t e){ double ee=c.dyn?.0006:pow(10,-c.pe)*.5000001+1e-7; if(!oa[j].p.count('E')) return fabs(st[e].etot-st[i].etot)<1e-7; double E=oa[j].p['E']; return st[i].erel?fabs(E-(st[e].etot-st[i].etot))<=ee:fabs(E-st[e].e)<=ee; };
  bool loose=false; auto code=[&](const S& l){ return l.substr(0,l.find(';')); }; auto same=[&](const S& a,const Cmd& b){ return loose?code(a)==code(b.line()):a==b.line(); };
  std::function<bool(size_t,size_t)> al=[&](size_t j,size_t i)->bool{ if(j>far_j||(j==far_j&&i>far_i)){ far_j=j; far_i=i; }
    if(j==k&&i==n) return true; if(dead.count({j,i})) return false;
    if(j<k&&i<n&&same(o[j],src[i])&&al(j+1,i+1)) return true;
    if(j<k&&isarc[j]){ size_t e=i; int mv=0; while(e<n){ bool g01=src[e].cmd=="G0"||src[e].cmd=="G1"; if(!g01&&!src[e].blank) break; if(g01) mv++; e++; 
        if(g01&&mv>=2&&fabs(st[e].x-oa[j].p['X'])<=(c.dyn?.001:step)&&fabs(st[e].y-oa[j].p['Y'])<=(c.dyn?.001:step)&&(!estrict||eok(j,i,e))){ for(size_t e2=e;;e2++){ arcs.push_back({i,e2,j,oa[j]}); if(al(j+1,e2)) return true; arcs.pop_back(); if(e2>=n||!src[e2].blank) break; } } } }
    dead[{j,i}]=1; return false; };
  bool aligned=al(0,0); if(!aligned){ estrict=false; dead.clear(); arcs.clear(); aligned=al(0,0); }
  if(!aligned){ rep("C05","output cannot be aligned with the source: output line "+std::to_string(he+far_j+1)+" '"+(far_j<k?o[far_j]:S("<end>"))+"' at source line "+std::to_string(far_i+1)+" '"+(far_i<n?src[far_i].line():S("<end>"))+"'");
    bool hasarc=false; for(size_t j=0;j<k;j++) if(isarc[j]) hasarc=true; loose=true; dead.clear(); arcs.clear(); if(hasarc&&!al(0,0)) rep("C06","the moves taken out of the output are not those of the arcs: output line "+std::to_string(he+far_j+1)+" '"+(far_j<k?o[far_j]:S("<end>"))+"' at source line "+std::to_string(far_i+1)); return; }
  narcs+=arcs.size(); long absorbed=0; 
  // target machine
  Mach t; t.hx=g.m.hx; t.hy=g.m.hy; t.hz=g.m.hz; t.g90e=c.g90e; t.x=t.hx+1; t.y=t.hy-2; size_t a=0; double slack=2.6*pow(10,-px)+1e-7; size_t i=0; double serr=0;
  std::vector<double> tl[3],sl[3];  // target / source segment lengths: extrusion, retraction, travel
  auto movelen=[&](size_t q,double& len,int& kind){ const Mach&A=st[q],&B=st[q+1]; len=c.d3?sqrt((A.x-B.x)*(A.x-B.x)+(A.y-B.y)*(A.y-B.y)+(A.z-B.z)*(A.z-B.z)):hypot(A.x-B.x,A.y-B.y); double de=B.etot-A.etot; kind=de>1e-8?0:de<-1e-8?1:2; };
  bool statsure=true; int unk[3]={0,0,0};  // unk: moves that start at an unknown position, which may or may not count
  for(size_t q=0;q<n;q++) if(src[q].cmd=="G0"||src[q].cmd=="G1"){ double len; int kd; movelen(q,len,kd); double dxy=std::max(fabs(st[q].x-st[q+1].x),fabs(st[q].y-st[q+1].y)); if(!st[q].xk||!st[q].yk||(c.d3&&!st[q].zk)) { unk[kd]++; } else if(dxy>=1e-5) sl[kd].push_back(len); else if(dxy>1e-6) statsure=false; }
  for(size_t j=0;j<k&&(i<n||(a<arcs.size()&&arcs[a].line==j));j++){
    if(!(a<arcs.size()&&arcs[a].line==j)){ t.exec(src[i]); if(src[i].cmd=="G0"||src[i].cmd=="G1"){ double len; int kd; movelen(i,len,kd); double dxy=std::max(fabs(st[i].x-st[i+1].x),fabs(st[i].y-st[i+1].y)); if(dxy>=1e-5&&st[i].xk&&st[i].yk&&(!c.d3||st[i].zk)) tl[kd].push_back(len); } i++; continue; }
    Arc& A=arcs[a++]; std::vector<size_t> mv; for(size_t q=A.i0;q<A.i1;q++) if(src[q].cmd=="G0"||src[q].cmd=="G1") mv.push_back(q); absorbed+=mv.size();
    S id="source lines "+std::to_string(A.i0+1)+".."+std::to_string(A.i1)+" -> '"+A.c.text+"': "; const Mach& s0=st[A.i0]; const Mach& s1=st[A.i1];
    auto P=[&](char k){ return A.c.p[k]; }; double sl2=c.dyn?2.6e-3+1e-7:slack;
    // --- C04
    if(!s0.xk||!s0.yk) rep("C04",id+"starts at an unknown position");
    double prate=0;
    for(size_t q=0;q<mv.size();q++){ const Mach &b=st[mv[q]],&e=st[mv[q]+1]; if(b.rel) rep("C04",id+"relative move welded"); double de=e.etot-b.etot; const Mach& b0=st[mv[0]],&e0=st[mv[0]+1]; double de0=e0.etot-b0.etot; auto sg=[](double v){ return v>1e-9?1:v<-1e-9?-1:0; };
      if(sg(de)!=sg(de0)) rep("C04",id+"mixes kinds of move (extrusion "+std::to_string(de0)+" and "+std::to_string(de)+")"); if(!c.trav&&sg(de)==0&&fabs(de)==0) rep("C04",id+"travel move welded although travel arcs are off");
      if(q){ if(e.f!=e0.f) rep("C04",id+"feedrate differs"); if(mv[q]==mv[q-1]+1&&tag_of(src[mv[q]].comment)!=tag_of(src[mv[q-1]].comment)) rep("C04",id+"feature tag differs"); }
      if(!c.d3&&fabs(e.z-b.z)>=1e-5) rep("C04",id+"Z changes"); if(e.erel!=s0.erel) rep("C04",id+"extruder mode changes");
      double len; int kd; movelen(mv[q],len,kd); double rate=de/len; if(c.var!=0&&q&&de>0&&prate>0&&fabs(rate-prate)/prate>c.var+1e-4+1e-9/prate) rep("C04",id+"extrusion rate changes by "+std::to_string(fabs(rate-prate)/prate)); prate=rate; }
    // --- C03
    double want=s1.etot-s0.etot; double eps=pow(10,-c.pe)*.5000001+1e-7; if(c.dyn) eps=.0006;
    bool iszero=true; for(size_t q:mv) if(st[q+1].etot!=st[q].etot) iszero=false;
    if(iszero){ if(A.c.p.count('E')) rep("C03",id+"travel arc with an E word"); }
    else if(!A.c.p.count('E')) rep("C03",id+"no E word, expected "+std::to_string(want));
    else if(s0.erel){ if(fabs(P('E')-want)>eps) rep("C03",id+"extrudes "+fmt(P('E'),6)+" expected "+fmt(want,8)); }
    else if(fabs(P('E')-s1.e)>eps) rep("C03",id+"absolute E "+fmt(P('E'),6)+" expected "+fmt(s1.e,8));
    // --- C01 / C02 geometry: centre from the real start of the run
    double cx=s0.x+P('I'),cy=s0.y+P('J'),r=hypot(P('I'),P('J')); 
    for(size_t q:mv){ const Mach&b=st[q],&e=st[q+1]; double d=hypot(e.x-cx,e.y-cy)-r; if(fabs(d)>c.res/2+sl2) rep("C01",id+"vertex of line "+std::to_string(q+1)+" deviates by "+std::to_string(d)+" (allowed "+std::to_string(c.res/2)+")");
      double ux=e.x-b.x,uy=e.y-b.y,l2=ux*ux+uy*uy; if(l2>0){ double tt=((cx-b.x)*ux+(cy-b.y)*uy)/l2; if(tt>0&&tt<1){ double dd=hypot(b.x+tt*ux-cx,b.y+tt*uy-cy)-r; if(fabs(dd)>c.res/2+sl2) rep("C01",id+"segment of line "+std::to_string(q+1)+" deviates by "+std::to_string(dd)+" (allowed "+std::to_string(c.res/2)+")"); } }
      if(!c.d3&&fabs(e.z-b.z)>=1e-5) rep("C01",id+"Z differs in a flat arc"); }
    { double dd=fabs(hypot(s1.x-cx,s1.y-cy)-r); if(dd>sl2+c.res/2) rep("C02",id+"end point off the circle by "+std::to_string(dd)); if(r>std::min(c.maxr,9999.)+sl2) rep("C02",id+"radius "+std::to_string(r)+" above the maximum "+std::to_string(c.maxr));
      double sum=0,path=0; double maxstep=0; for(size_t q:mv){ const Mach&b=st[q],&e=st[q+1]; double x1=b.x-cx,y1=b.y-cy,x2=e.x-cx,y2=e.y-cy; double da=atan2(x1*y2-y1*x2,x1*x2+y1*y2); sum+=da; maxstep=std::max(maxstep,fabs(da)); double len; int kd; movelen(q,len,kd); path+=len; }
      bool cw=A.c.cmd=="G2"; double ald=fabs(sum)*r; if(c.d3) ald=hypot(ald,s1.z-s0.z); bool agree=fabs(ald-path)<=ald*c.tol-20*sl2;  // otherwise the complementary arc is allowed
      if(agree&&fabs(sum)>1e-3&&maxstep<2.8&&r>20*sl2&&c.tol<=.2&&c.res<r/4){ if((sum<0)!=cw) rep("C02",id+"turns the wrong way (turn "+std::to_string(sum)+")");
        double a0=atan2(s0.y-cy,s0.x-cx),a1=atan2(s1.y-cy,s1.x-cx),sw=a1-a0; if(cw) while(sw>=0) sw-=2*M_PI; else while(sw<=0) sw+=2*M_PI; if(cw) while(sw<-2*M_PI) sw+=2*M_PI; else while(sw>2*M_PI) sw-=2*M_PI;
        if(fabs(sw-sum)>1e-3+4*sl2/r&&fabs(fabs(sw-sum)-2*M_PI)>1e-3+4*sl2/r) rep("C02",id+"sweeps "+std::to_string(sw)+" where the path turns "+std::to_string(sum)); else if(fabs(sw-sum)>1) rep("C02",id+"sweeps "+std::to_string(sw)+" where the path turns "+std::to_string(sum));
        double al=fabs(sum)*r; if(c.d3) al=hypot(al,s1.z-s0.z); double tolm=std::max(path,al)*c.tol+20*sl2+1e-6; if(fabs(al-path)>tolm) rep("C02",id+"arc length "+std::to_string(al)+" for a path of "+std::to_string(path)); 
        int kd=iszero?2:(want>0?0:1); tl[kd].push_back(al); serr+=30*sl2; } else { double al=fabs(sum)*r; tl[iszero?2:(want>0?0:1)].push_back(al); statsure=false; } }
    if(c.d3){ if(fabs(s1.z-s0.z)>=.0011&&px>=3){ if(!A.c.p.count('Z')||fabs(P('Z')-s1.z)>step+(c.dyn?.001:0)) rep("C02",id+"Z of the end point is "+fmt(s1.z,6)); } else if(A.c.p.count('Z')&&fabs(P('Z')-s1.z)>step+(c.dyn?.001:0)) rep("C02",id+"Z word is wrong"); } else if(A.c.p.count('Z')) rep("C02",id+"Z word in a flat arc");
    // --- C14
    if(c.maxlen>0&&(int)A.c.text.size()>c.maxlen) rep("C14",id+"is "+std::to_string(A.c.text.size())+" characters long, maximum "+std::to_string(c.maxlen));
    // --- C18
    if(c.minseg>0&&c.mmps>0){ double circ=2*M_PI*r, path=0; for(size_t q:mv){ double len; int kd; movelen(q,len,kd); path+=len; } if(floor((circ+1e-3)/c.mmps)<c.minseg&&floor((circ+1e-3+.01)/path+1e-6)<c.minseg) rep("C18",id+"should have been refused by the firmware compensation"); }
    // --- C06: the state after the arc is the state after the last absorbed move
    t.exec(A.c); if(fabs(t.x-s1.x)>step+(c.dyn?.001:0)||fabs(t.y-s1.y)>step+(c.dyn?.001:0)) rep("C06",id+"ends elsewhere"); if(fabs(t.z-s1.z)>1e-3+step&&c.d3) rep("C06",id+"Z lost"); if(fabs(t.f-s1.f)>.51&&s1.f>=1) rep("C06",id+"feedrate afterwards "+fmt(t.f,2)+" expected "+fmt(s1.f,2));
    if(!s0.erel) t.e=s1.e; t.etot=s1.etot; t.x=s1.x; t.y=s1.y; t.z=s1.z; i=A.i1; }
  if((c.minseg<=0||c.mmps<=0)&&R.r.progress.num_firmware_compensations!=0) rep("C18",std::to_string(R.r.progress.num_firmware_compensations)+" arcs were refused for firmware compensation, which is off");
  if(R.r.progress.arcs_created!=(int)arcs.size()) rep("C17","arcs_created is "+std::to_string(R.r.progress.arcs_created)+", the output has "+std::to_string(arcs.size()));
  if(R.r.progress.points_compressed!=absorbed) rep("C17","points_compressed is "+std::to_string(R.r.progress.points_compressed)+", the arcs replace "+std::to_string(absorbed)+" moves");
  if(statsure){ const source_target_segment_statistics* ss[3]={&R.r.progress.segment_statistics,&R.r.progress.segment_retraction_statistics,&R.r.progress.travel_statistics};
    for(int kd=0;kd<3;kd++){ if(kd==2&&!c.trav) continue; double s=0,u=0; for(double v:sl[kd]) s+=v; for(double v:tl[kd]) u+=v; const char* nm[]={"extrusion","retraction","travel"};
      int bs=0,bt=0; for(auto&q:ss[kd]->source_segments) bs+=q.count; for(auto&q:ss[kd]->target_segments) bt+=q.count;
      int U=unk[kd]; auto off=[&](int a,int n){ return a<n||a>n+U; }; if(off(ss[kd]->total_count_source,sl[kd].size())||off(bs,sl[kd].size())||bs!=ss[kd]->total_count_source||(U==0&&fabs(ss[kd]->total_length_source-s)>1e-5*(1+s))) rep("C17",S(nm[kd])+" source statistics: "+std::to_string(ss[kd]->total_count_source)+" segments "+std::to_string(ss[kd]->total_length_source)+" mm, the source has "+std::to_string(sl[kd].size())+" / "+std::to_string(s));
      if(off(ss[kd]->total_count_target,tl[kd].size())||off(bt,tl[kd].size())||bt!=ss[kd]->total_count_target||(U==0&&fabs(ss[kd]->total_length_target-u)>1e-5*(1+u)+serr)) rep("C17",S(nm[kd])+" target statistics: "+std::to_string(ss[kd]->total_count_target)+" segments "+std::to_string(ss[kd]->total_length_target)+" mm, the output has "+std::to_string(tl[kd].size())+" / "+std::to_string(u)); } }
}
static std::map<S,long> WELD_OTHER;
static void weld_case(const char* prop,std::function<void(Cfg&)> bias=nullptr){ Cfg c=rand_cfg(); if(bias) bias(c); Gen g; g.cfg=c; g.build(rnd(1,12)); std::vector<Cmd> src=g.out; 
  auto show=[&](const std::vector<Cmd>& v){ S s=c.str(); for(auto&x:v) s+="|"+x.line(); return s; };
  CUR=show(src); if(CUR.size()>6000) CUR.resize(6000); auto once=[&](const std::vector<Cmd>& v,S& why,long& na)->bool{ Run R=weld(v,c); bool bad=false; judge(v,g,c,R,[&](const char* p,const S& w){ if(S(p)==prop||*prop=='*'){ if(!bad) why=(*prop=='*'?S(p)+": ":S())+w; bad=true; } else WELD_OTHER[S(p)]++; },na); return bad; };
  S why; long na=0; N_CASES++; if(once(src,why,na)){ // shrink by dropping lines
    std::vector<Cmd> cur=src; for(int ch=std::max<int>(1,cur.size()/2);ch>=1;ch/=2) for(size_t i=0;i+ch<=cur.size();){ std::vector<Cmd> v=cur; v.erase(v.begin()+i,v.begin()+i+ch); S w; long z=0; if(now_s()<BUDGET*2+20&&once(v,w,z)){ cur=v; why=w; } else i+=ch; }
    fail(why+"  [options "+c.str()+"] [input: "+[&]{ S s; for(auto&x:cur) s+=x.line()+" | "; return s; }()+"]"); }
  if(na>0) N_NONTRIV++; }
static int weld_main(int argc,char**argv,const char* prop,std::function<void(Cfg&)> bias=nullptr){ init(argc,argv); while(more()) weld_case(prop,bias); for(auto&q:WELD_OTHER) printf("STAT other_%s=%ld\n",q.first.c_str(),q.second); return finish(); }
