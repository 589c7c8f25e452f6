// the position tracker against an independent interpreter of the commands
#include "h.h"
#include "gcode_position.h"
#include "gcode_parser.h"
struct Ax { double v=0,off=0,fw=0; bool known=false, homed=false; };
struct Ext { double e=0, eoff=0, fw[3]={0,0,0}; };
struct Mach { Ax a[3]; double f=0; bool fk=false; int rel=0, erel=0; int tool=0; std::vector<Ext> x; };   // rel: -1 unknown, 0 absolute, 1 relative
struct TCfg { int n=1, def=0, buf=3; bool zero=true, g90e=false, shared=false; bool hn[3]={0,0,0}; double h[3]={0,0,0}; std::string xm="absolute", em="absolute"; std::vector<double> fx, fy; bool toolish=false; };
struct Par { char c; bool num; double v; };
static std::string num(double v,int p){ char b[64]; snprintf(b,64,"%.*f",p,v); return b; }
static int clampt(const TCfg& c,long long t){ if(!c.zero) t--; return t<0?0:t>c.n-1?c.n-1:(int)t; }
static void step(Mach& m,const TCfg& c,const std::string& cmd,const std::vector<Par>& ps,long long T){
  auto has=[&](char k){ for(auto&p:ps) if(p.c==k) return true; return false; };
  auto val=[&](char k){ double r=0; for(auto&p:ps) if(p.c==k) r=p.num?p.v:0; return r; };
  Ext& t=m.x[m.tool];
  if(cmd=="G0"||cmd=="G1"||cmd=="G2"||cmd=="G3"){
    if(has('F')){ m.f=val('F'); m.fk=true; }
    for(int i=0;i<3;i++){ char k="XYZ"[i]; if(!has(k)||m.rel<0) continue; Ax& a=m.a[i];
      if(m.rel==0){ a.fw=t.fw[i]; a.v=val(k)+a.off-a.fw; a.known=true; } else if(a.known) a.v+=val(k); }
    if(has('E')&&m.erel>=0){ if(m.erel==0) t.e=val('E')+t.eoff; else t.e+=val('E'); } }
  else if(cmd=="G90"||cmd=="G91"){ m.rel=cmd=="G91"; if(c.g90e) m.erel=m.rel; }
  else if(cmd=="M82"||cmd=="M83") m.erel=cmd=="M83";
  else if(cmd=="G28"){ bool none=!has('X')&&!has('Y')&&!has('Z'); for(int i=0;i<3;i++) if(none||has("XYZ"[i])){ Ax& a=m.a[i]; a.homed=true; if(c.hn[i]) a.known=false; else { a.v=c.h[i]; a.known=true; } } }
  else if(cmd=="G92"){ bool none=!has('X')&&!has('Y')&&!has('Z')&&!has('E')&&!has('O'); if(has('O')) for(auto& a:m.a) a.homed=true;
    for(int i=0;i<3;i++){ Ax& a=m.a[i]; char k="XYZ"[i]; if(none){ if(a.known) a.off=a.v+a.fw; } else if(has(k)){ if(a.known&&a.homed) a.off=a.v+a.fw-val(k); else { a.v=val(k); a.off=0; a.known=true; } } }
    if(none) t.eoff=t.e; else if(has('E')) t.eoff=t.e-val('E'); }
  else if(cmd=="G10"||cmd=="M218"){ char k=cmd=="G10"?'P':'T'; if(has(k)){ Ext& o=m.x[clampt(c,llround(val(k)))]; for(int i=0;i<3;i++) if(has("XYZ"[i])) o.fw[i]=val("XYZ"[i]); } }
  else if(cmd=="T"&&T>=0) m.tool=clampt(c,T);
}
static bool nearv(double a,double b){ return fabs(a-b)<=1e-6*(1+fabs(a)+fabs(b)); }
static std::string cmp(const Mach& m,const position& p,const TCfg& c,bool toolonly){
  std::ostringstream o; auto D=[&](const std::string& n,double got,double want){ if(!nearv(got,want)) o<<n<<" is "<<got<<", should be "<<want<<"; "; };
  if(p.num_extruders!=c.n) o<<"extruders "<<p.num_extruders<<"; ";
  D("tool",p.current_tool,m.tool); if(o.tellp()>0) return o.str();
  if(&const_cast<position&>(p).get_current_extruder()!=&p.p_extruders[m.tool]) o<<"current extruder is not the tool's; ";
  for(int i=0;i<c.n;i++){ const extruder& e=p.p_extruders[i]; std::string s="extruder "+std::to_string(i)+" "; D(s+"e",e.e,m.x[i].e); D(s+"e offset",e.e_offset,m.x[i].eoff); D(s+"x firmware offset",e.x_firmware_offset,m.x[i].fw[0]); D(s+"y firmware offset",e.y_firmware_offset,m.x[i].fw[1]); D(s+"z firmware offset",e.z_firmware_offset,m.x[i].fw[2]); }
  if(toolonly) return o.str();
  const double v[3]={p.x,p.y,p.z},of[3]={p.x_offset,p.y_offset,p.z_offset},fw[3]={p.x_firmware_offset,p.y_firmware_offset,p.z_firmware_offset}; const bool nl[3]={p.x_null,p.y_null,p.z_null},hm[3]={p.x_homed,p.y_homed,p.z_homed}; const double gc[3]={p.get_gcode_x(),p.get_gcode_y(),p.get_gcode_z()};
  for(int i=0;i<3;i++){ std::string s(1,"XYZ"[i]); const Ax& a=m.a[i]; D(s+" known",!nl[i],a.known); if(a.known){ D(s,v[i],a.v); D(s+" as commanded",gc[i],a.v-a.off+a.fw); } D(s+" offset",of[i],a.off); D(s+" firmware offset",fw[i],a.fw); D(s+" homed",hm[i],a.homed); }
  D("feedrate known",!p.f_null,m.fk); if(m.fk) D("feedrate",p.f,m.f);
  D("relative XYZ",p.is_relative_null?-1:p.is_relative,m.rel); D("relative E",p.is_extruder_relative_null?-1:p.is_extruder_relative,m.erel);
  return o.str(); }
// every field of a position, as text
static std::string dump(const position& p){ std::ostringstream o; o.precision(17);
#define W(f) o<<#f<<'='<<p.f<<' ';
  W(feature_type_tag) W(f) W(f_null) W(x) W(x_null) W(x_offset) W(x_firmware_offset) W(x_homed) W(y) W(y_null) W(y_offset) W(y_firmware_offset) W(y_homed) W(z) W(z_null) W(z_offset) W(z_firmware_offset) W(z_homed) W(is_metric) W(is_metric_null) W(last_extrusion_height) W(last_extrusion_height_null) W(layer) W(height) W(height_increment) W(height_increment_change_count) W(is_printer_primed) W(has_definite_position) W(z_relative) W(is_relative) W(is_relative_null) W(is_extruder_relative) W(is_extruder_relative_null) W(is_layer_change) W(is_height_change) W(is_height_increment_change) W(is_xy_travel) W(is_xyz_travel) W(is_zhop) W(has_position_changed) W(has_xy_position_changed) W(has_received_home_command) W(is_in_position) W(in_path_position) W(file_line_number) W(gcode_number) W(file_position) W(gcode_ignored) W(is_in_bounds) W(is_empty) W(current_tool) W(num_extruders)
  o<<p.command.gcode<<' '<<p.command.comment<<' ';
  for(int i=0;i<p.num_extruders;i++){ const extruder& x=p.p_extruders[i];
#define V(f) o<<#f<<i<<'='<<x.f<<' ';
  V(e) V(e_offset) V(e_relative) V(x_firmware_offset) V(y_firmware_offset) V(z_firmware_offset) V(extrusion_length) V(extrusion_length_total) V(retraction_length) V(deretraction_length) V(is_extruding_start) V(is_extruding) V(is_primed) V(is_retracting_start) V(is_retracting) V(is_retracted) V(is_partially_retracted) V(is_deretracting_start) V(is_deretracting) V(is_deretracted) }
  return o.str(); }
static std::string line(const TCfg& c,std::string& cmd,std::vector<Par>& ps,long long& T){
  static const char* cmds[]={"G0","G1","G1","G1","G2","G3","G10","G11","G20","G21","G28","G90","G91","G92","G92","M82","M83","M207","M208","M218","M563","T","T"}; static const char* tools[]={"T","T","T","G10","M218","G1","G92","M207","M208","M563","G11"};
  static const char* other[]={"","; a comment","M104 S200","M106 S255","G4 P10","M117 X1 Y2 G1 X5","G29","; TYPE:WALL","foo","  ","G80","M109 S210 T1","@x Y1","G5 X1 Y1","M999 X3"};
  cmd=""; ps.clear(); T=-1; if(chance(.1)) return other[rnd(0,14)];
  cmd=c.toolish&&chance(.7)?tools[rnd(0,10)]:cmds[rnd(0,22)]; std::string s=cmd; if(chance(.1)) for(auto& ch:s) ch=tolower(ch); if(chance(.05)) s=" "+s;
  if(cmd=="T"){ int r=rnd(0,9); if(r<6) T=rnd(0,c.n+2); else if(r<8) T=rnd(0,300); else if(r==8) T=rnd(1000,2147483000); else T=2147483647-rnd(0,3); if(chance(.1)) T=c.zero?0:1; return s+(chance(.2)?" ":"")+std::to_string(T); }
  std::string pool; int k=rnd(0,4);
  if(cmd=="G0"||cmd=="G1"||cmd=="G2"||cmd=="G3") pool=cmd=="G2"||cmd=="G3"?"XYZEFIJ":"XYZEF"; else if(cmd=="G10") pool="PXYZ"; else if(cmd=="M218") pool="TXYZ"; else if(cmd=="G28") pool="XYZ"; else if(cmd=="G92") pool="XYZEO"; else { if(chance(.7)) return s; pool="XYZEFPTS"; }
  for(int i=0;i<k;i++){ char ch=pool[rnd(0,pool.size()-1)]; Par p{ch,true,0}; s+=chance(.9)?" ":""; if(s.back()!=' '&&s==cmd) s+=" "; char w=chance(.1)?tolower(ch):ch;
    if((cmd=="G28"||cmd=="G92"&&ch=='O')&&chance(.6)){ p.num=false; s+=w; ps.push_back(p); continue; }
    std::string v; if(ch=='P'&&cmd=="G10"||ch=='T'&&cmd=="M218"){ int r=rnd(0,9); long long q=r<7?rnd(-1,c.n+1):r<9?rnd(-100,100):rnd(-2000000000,2000000000); v=std::to_string(q); }
    else if(ch=='F') v=num(rndf(100,9000),rnd(0,2)); else if(chance(.2)) v="0"; else v=num(chance(.3)?rnd(-20,20):rndf(-200,200),rnd(0,5));
    p.v=strtod(v.c_str(),0); s+=w+v; ps.push_back(p); }
  if(chance(.1)) s+=" ; c"; return s; }
static TCfg tcfg(bool toolish){ TCfg c; c.toolish=toolish; c.n=chance(toolish?.2:.5)?1:rnd(1,5); c.def=chance(.7)?0:rnd(-3,c.n+3); c.buf=rnd(2,6); c.zero=chance(.7); c.g90e=chance(.4); c.shared=chance(.2); for(int i=0;i<3;i++){ c.hn[i]=chance(.3); c.h[i]=chance(.5)?0:rndf(-10,10); }
  auto md=[&]{ int r=rnd(0,5); return r<4?"absolute":r==4?"relative":"require-explicit"; }; c.xm=md(); c.em=md(); for(int i=0;i<c.n;i++){ bool z=c.shared||chance(.5); c.fx.push_back(z?0:rndf(-30,30)); c.fy.push_back(z?0:rndf(-30,30)); } return c; }
static void track_case(bool toolish){
  TCfg c=tcfg(toolish); gcode_position_args a; a.position_buffer_size=c.buf; a.shared_extruder=c.shared; a.zero_based_extruder=c.zero; a.g90_influences_extruder=c.g90e; a.default_extruder=c.def; a.xyz_axis_default_mode=c.xm; a.e_axis_default_mode=c.em; a.home_x=c.h[0]; a.home_y=c.h[1]; a.home_z=c.h[2]; a.home_x_none=c.hn[0]; a.home_y_none=c.hn[1]; a.home_z_none=c.hn[2]; a.set_num_extruders(c.n); for(int i=0;i<c.n;i++){ a.x_firmware_offsets[i]=c.fx[i]; a.y_firmware_offsets[i]=c.fy[i]; }
  std::ostringstream head; head<<c.n<<" extruders ("<<(c.zero?"0":"1")<<" based), default "<<c.def<<", G90/G91 "<<(c.g90e?"":"not ")<<"for E, modes "<<c.xm<<"/"<<c.em<<", home"; for(int i=0;i<3;i++) head<<' '<<(c.hn[i]?std::string("unknown"):num(c.h[i],4)); if(c.n>1||c.fx[0]!=0||c.fy[0]!=0){ head<<", offsets"; for(int i=0;i<c.n;i++) head<<" ("<<c.fx[i]<<" "<<c.fy[i]<<")"; } head<<", buffer "<<c.buf; std::string log=head.str()+": "; CUR=log;
  gcode_position gp(a); gcode_parser parser; Mach m; m.x.resize(c.n); for(int i=0;i<c.n;i++){ m.x[i].fw[0]=c.fx[i]; m.x[i].fw[1]=c.fy[i]; } m.tool=c.def<0?0:c.def>c.n-1?c.n-1:c.def; auto mode=[](const std::string& s){ return s=="relative"?1:s=="absolute"?0:-1; }; m.rel=mode(c.xm); m.erel=mode(c.em);
  std::deque<std::pair<Mach,std::string>> hist; std::string now=dump(*gp.get_current_position_ptr()); N_CASES++; int nl=rnd(3,chance(.2)?80:20); int cap=c.buf;
  for(int i=0;i<nl;i++){
    if(!hist.empty()&&chance(.15)){ log+="<undo>|"; CUR=log; gp.undo_update(); m=hist.back().first; std::string was=hist.back().second; hist.pop_back(); now=dump(*gp.get_current_position_ptr()); if(now!=was){ fail(log+" undo does not restore the position: "+now+" instead of "+was); return; } std::string d=cmp(m,*gp.get_current_position_ptr(),c,toolish); if(!d.empty()){ fail(log+" after undo: "+d); return; } continue; }
    if(chance(.03)){ int g=gp.get_max_positions()+rnd(0,3); gp.grow_max_positions(g); log+="<grow>|"; CUR=log; cap=gp.get_max_positions(); }
    std::string cmd; std::vector<Par> ps; long long T; std::string l=line(c,cmd,ps,T); log+=l+"|"; CUR=log; parsed_command pc; parser.try_parse_gcode(l.c_str(),pc); if(!pc.is_known_command) pc.is_known_command=false;
    Mach m0=m; step(m,c,cmd,ps,T); gp.update(pc,i+1,i+1,i*7); hist.push_back({m0,now}); while((int)hist.size()>cap-1) hist.pop_front();
    position* p=gp.get_current_position_ptr(); std::string d=cmp(m,*p,c,toolish); if(!d.empty()){ fail(log+" -> "+d); return; }
    std::string before=dump(*gp.get_previous_position_ptr()); if(before!=now){ fail(log+" the position before is not the previous one: "+before+" instead of "+now); return; }
    if(!toolish){ position* q=gp.get_previous_position_ptr(); double er=cmd.empty()?0:m.x[m.tool].e-m0.x[m.tool].e; if(!nearv(p->get_current_extruder().e_relative,er)){ fail(log+" -> change of E is "+std::to_string(p->get_current_extruder().e_relative)+", should be "+std::to_string(er)); return; }
      if(!cmd.empty()){ bool ch=fabs(p->x-q->x)>1e-4||fabs(p->y-q->y)>1e-4, same=p->x==q->x&&p->y==q->y; if(ch&&!p->has_xy_position_changed||same&&p->has_xy_position_changed){ fail(log+" -> XY position changed is "+std::to_string(p->has_xy_position_changed)); return; } } }
    now=dump(*p); N_NONTRIV++; } }
static int track_main(int c,char**v,bool toolish){ init(c,v); while(more()) track_case(toolish); return finish(); }
