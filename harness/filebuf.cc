// Drives a file-backed serialisation buffer with the calls named on stdin.
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "common.h"
using namespace vh;
using classdesc::pack_t;
#ifdef USE_XDR
typedef classdesc::xdr_pack Buf;
#else
typedef classdesc::pack_t Buf;
#endif
#include "typed.h"
std::string slurp(const std::string& f)
{
  std::string r; FILE* p=fopen(f.c_str(),"r"); if (!p) return r;
  char b[4096]; size_t n;
  while ((n=fread(b,1,sizeof(b),p))>0) r.append(b,n);
  fclose(p);
  return r;
}


Buf* b=NULL;
bool writing=false;
std::string obs(const std::string& ret, const std::string& val)
{
  return "{\"ret\":\""+ret+"\",\"val\":"+bytes(val)+",\"at\":"+str(!b? 0: writing? b->size(): b->pos())+"}";
}

int main()
{
  const char* fn="stream.dat";
  std::string line;
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      const std::string& op=t[0];
      std::string ret="ok", val, left;
      if (op=="restart") {delete b; b=NULL; remove(fn); say("{}"); continue;}
      try
        {
          if (op=="openw") {delete b; b=NULL; b=new Buf(fn,t[1].c_str()); writing=true;}
          else if (op=="openr") {delete b; b=NULL; b=new Buf(fn,t[1].c_str()); writing=false;}
          else if (op=="openbad") {Buf x("no-such-directory/x",t[1].c_str());}
          else if (op=="close") {delete b; b=NULL; val=slurp(fn);}
          else if (op=="write") write(*b,t[1],unhex(t[2]));
          else if (op=="writeraw") {std::string s=unhex(t[1]); b->packraw(s.data(),s.size());}
          else if (op=="writearr") writeArr(*b,t[1],unhex(t[3]),num(t[2]));
          else if (op=="read") val=read(*b,t[1],left);
          else if (op=="readarr") val=readArr(*b,t[1],num(t[2]));
          else if (op=="readraw") {size_t n=num(t[1]); std::vector<char> x(n+1); b->unpackraw(&x[0],n); val=std::string(&x[0],n);}
          else if (op=="reseti") b->reseti();
          else if (op=="reseto") b->reseto();
          else if (op=="seeki") b->seeki(-num(t[1]));
          else if (op=="seeko") b->seeko(num(t[1]));
          else ret="bad op";
        }
      catch (std::exception& e) {ret="err";}
      if (ret=="err" && op.substr(0,4)=="read") {say("{\"ret\":\"err\",\"val\":[],\"at\":0}"); continue;}
      say(obs(ret,val));
    }
  delete b;
  remove(fn);
  say("{\"end\":1}");
}
