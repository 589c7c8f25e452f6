// C12: a parsed line keeps its text and comment. Runs the real gcode_parser on generated lines in exactly sized buffers
// (AddressSanitizer sees a read past the terminator) against an independent splitting of the line.
#include "h.h"
#include <cstring>
#include <regex>
#include "gcode_parser.h"
static gcode_parser GP;
static std::string pick(){ static const char* W[]={"G0","G1 X1 Y2","g1 x1.5 E0.2","M104 S200","M117 hello  World","G28 X Y","T0","T 1","T?","Tc","T","TX ","TX a","@OCTOLAPSE STABILIZE"," @octolapse","@OCTOLAPSE","@other word","G","G 1 2 X3","G.5","G92.1 ","G1.","M","m  82","hello","{if}","  G1 X5","\tG1","g.","G1X5Y6","\xc3\xa4","\x80","M117"};
  static const char al[]="GMTXYZEgmt@.;;  0123456789-+\t\r\ncx?aB"; std::string s; int m=rnd(0,9);
  if(m<5) s=W[rnd(0,sizeof W/sizeof*W-1)]; else if(m<8) for(int k=rnd(0,14);k-->0;) s+=al[rnd(0,sizeof al-2)]; else if(m==8) for(int k=rnd(0,30);k-->0;) s+=(char)rnd(1,255);
  if(m==9) for(int k=rnd(0,5);k-->0;) s+=" \t\r"[rnd(0,2)];
  if(chance(.5)){ s+=chance(.3)?"  ;":";"; if(chance(.8)) s+=" a comment; with more"; for(int k=rnd(0,5);k-->0;) s+=al[rnd(0,sizeof al-2)]; } if(chance(.2)) s+=chance(.5)?"\r":"\r\n"; if(chance(.02)) s+=std::string(rnd(100,400),'x'); return s; }
static std::string up(std::string s){ for(auto&c:s) if(c>='a'&&c<='z') c-=32; return s; }
static void onecase(){ std::string t=pick(); CUR="line '"+t+"'"; char* b=(char*)malloc(t.size()+1); memcpy(b,t.c_str(),t.size()+1); parsed_command c; bool keep=chance(.8); N_CASES++; if(chance(.1)){ c.gcode="old"; c.comment="old"; c.command="G1"; c.clear(); }
  bool r=GP.try_parse_gcode(b,c,keep); free(b);
  size_t k=t.find(';'); std::string text=t.substr(0,k), com=k==std::string::npos?"":t.substr(k+1), com2; for(char x:com) if(x!='\r'&&x!='\n') com2+=x; if(!com2.empty()) N_NONTRIV++;
  if(keep&&c.gcode!=text){ fail(CUR+": text '"+c.gcode+"'"); return; }
  if(c.comment!=com2){ fail(CUR+": comment '"+c.comment+"'"); return; }
  if(keep&&c.to_string()!=text+(com2.empty()?"":";"+com2)){ fail(CUR+": to_string '"+c.to_string()+"'"); return; }
  // name: @word, G/M with an address, T followed by a tool
  static const std::regex DOT("^ *([GMgm]) *\\.([0-9 ]*[0-9][0-9 ]*)[^]*"), AT("^ *(@[^ ]*)[^]*"), GM("^ *([GMgm]) *([0-9]+)( *)(\\.?)([0-9 ]*)[^]*"), TT("^ *[Tt][ \\t]*(?:[0-9][^]*|[CXcx?][ \\t]*)"); std::smatch m; std::string name; bool known=true;
  if(std::regex_match(text,m,AT)) name=up(m[1]); else if(std::regex_match(text,m,GM)){ std::string f; name=up(m[1])+std::string(m[2]); if(m[4].length()){ for(char x:std::string(m[5])) if(x!=' ') f+=x; if(f.empty()) known=false; else name+="."+f; } } else if(std::regex_match(text,m,TT)) name="T"; else known=false;
  if(!known&&std::regex_match(text,m,DOT)){ known=true; name=up(m[1])+"."; for(char x:std::string(m[2])) if(x!=' ') name+=x; }
  if(r!=known||c.is_known_command!=known){ fail(CUR+": wrongly "+(r?"known":"unknown")); return; } if(c.command!=(known?name:"")){ fail(CUR+": command '"+c.command+"'"); return; }
  bool pr=false; for(char x:text) if(x>32||x<0) pr=true; if(c.is_empty!=(!known&&!pr)){ fail(CUR+": is_empty"); return; } }
int main(int argc,char**argv){ init(argc,argv); while(more()) for(int i=0;i<100&&N_FAIL<5;i++) onecase(); return finish(); }
