// Drives real serialisation buffers with the calls named on stdin; prints what a caller can observe.
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "common.h"
using namespace vh;
using classdesc::pack_t;
#ifdef USE_XDR
typedef classdesc::xdr_pack Buf;
#else
typedef classdesc::pack_t Buf;
#endif

std::map<std::string,Buf*> buf;

std::string see(Buf& b)
{
  const Buf& c=b;
  return "["+str(c.size())+","+str(c.pos())+","+str(bool(b)? 1:0)+","+str(int(c.ptr_flag))+","+str(c.recur_max)+"]";
}
std::string obs(const std::string& ret, const std::string& val)
{
  std::string r="{\"ret\":\""+ret+"\",\"val\":"+bytes(val)+",\"st\":{";
  for (std::map<std::string,Buf*>::iterator i=buf.begin(); i!=buf.end(); ++i)
    r+=(i==buf.begin()?"\"":",\"")+i->first+"\":"+see(*i->second);
  return r+"}}";
}

#include "typed.h"

void newBufs()
{
  for (std::map<std::string,Buf*>::iterator i=buf.begin(); i!=buf.end(); ++i)
    {delete i->second; i->second=new Buf;}
}
int main(int argc, char** argv)
{
  Tokens names=split(argv[1],',');
  for (size_t i=0; i<names.size(); ++i) buf[names[i]]=new Buf;
  std::string line;
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      const std::string& op=t[0];
      if (op=="restart") {newBufs(); say("{}"); continue;}
      Buf& b=*buf[t[1]];
      std::string ret="ok", val, left;
      try
        {
          if (op=="write") write(b,t[2],unhex(t[3]));
          else if (op=="writeraw") {std::string s=unhex(t[2]); b.packraw(s.data(),s.size());}
          else if (op=="writearr") writeArr(b,t[2],unhex(t[4]),num(t[3]));
          else if (op=="read") val=read(b,t[2],left);
          else if (op=="readarr") val=readArr(b,t[2],num(t[3]));
          else if (op=="readraw")
            {
              size_t n=num(t[2]);
              std::vector<char> x(n+1,0x25);
              try {b.unpackraw(&x[0],n);}
              catch (...) {
                for (size_t i=0; i<=n; ++i) if (x[i]!=0x25) left=std::string(&x[0],n);
                throw;
              }
              if (x[n]!=0x25) left="overrun";
              val=std::string(&x[0],n);
            }
          else if (op=="readhuge")
            {
              // no memory of this size exists: only the range test may look at it
              char x[1]; size_t n=~size_t(0);
              if (t[2]=="wrap0") n=size_t(0)-b.pos();
              else if (t[2]=="wrap1") n=size_t(1)-b.pos();
              else if (t[2]=="half") n=(~size_t(0))/2+1;
              else if (t[2]=="size") n=size_t(0)-b.pos()+b.size();
              if (n<=b.size()) n=~size_t(0);  // position 0: the request would be legitimate
              b.unpackraw(x,n);
            }
          else if (op=="look") 
            {const Buf& c=b; if (c.size()) val=std::string(c.data(),c.size()); if (b.data()!=c.data()) ret="data differs";}
          else if (op=="reseti") b.reseti();
          else if (op=="reseto") b.reseto();
          else if (op=="seeki") b.seeki(-num(t[2]));
          else if (op=="seeko") b.seeko(num(t[2]));
          else if (op=="clear") b.clear();
          else if (op=="grow") 
            {std::string s=unhex(t[2]); size_t o=b.size(); b.resize(o+s.size()); if (s.size()) memcpy(b.data()+o,s.data(),s.size());}
          else if (op=="shrink") b.resize(num(t[2]));
          else if (op=="renew") 
            {std::string s=unhex(t[2]); delete &b; Buf* nb=new Buf(s.size()); buf[t[1]]=nb; if (s.size()) memcpy(nb->data(),s.data(),s.size());}
          else if (op=="flags") {b.ptr_flag=classdesc::Ptr_flag(num(t[2])); b.recur_max=num(t[3]);}
          else if (op=="swap") b.swap(*buf[t[2]]);
#if __cplusplus>=201103L
          else if (op=="moveto") 
            {Buf*& o=buf[t[2]]; b=std::move(*o); delete o; o=new Buf;}
          else if (op=="movenew") 
            {Buf*& o=buf[t[2]]; delete &b; buf[t[1]]=new Buf(std::move(*o)); delete o; o=new Buf;}
#endif
          else ret="bad op";
        }
      catch (std::exception& e) {ret="err"; val=left;}
      catch (...) {ret="other"; val=left;}
      say(obs(ret,val));
    }
  for (std::map<std::string,Buf*>::iterator i=buf.begin(); i!=buf.end(); ++i) delete i->second;
  say("{\"end\":1}");
}
