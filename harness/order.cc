// Compares every new item with all earlier ones, and prints the outcomes.
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "common.h"
using namespace vh;
using namespace classdesc;
int sign(int x) {return x<0? -1: x>0? 1: 0;}
std::vector<pack_t*> nat; std::vector<xdr_pack*> xdr;
typedef std::map<std::string,std::vector<int> > Obj;
std::vector<std::string> strs; std::vector<Obj> objs; 
std::vector<std::vector<short> > vecs;
template <class B> std::string row(std::vector<B*>& v, B* n, bool known)
{
  std::string r="[";
  for (size_t j=0; j<v.size(); ++j)
    {
      const B& x=*n; const B& y=*v[j];
      r+=(j?",[":"[")+str(sign(x.cmp(y)))+","+str(sign(y.cmp(x)))+","+str(int(x<y))+","+str(int(x>y))+","+str(int(x==y))+","+str(int(x!=y))+"]";
    }
  v.push_back(n);
  return r+"]";
}
template <class T> std::string deep(std::vector<T>& v, const T& x)
{
  std::string r="[";
  for (size_t j=0; j<v.size(); ++j)
    {
      const T& y=v[j]; int c=sign(deepCmp(x,y)), d=sign(deepCmp(y,x)); bool e=deepEq(x,y), f=deepEq(y,x);
      r+=(j?",[":"[")+str(c)+","+str(d)+","+str(int(c<0))+","+str(int(d<0))+","+str(int(e&&f))+","+str(int(!e&&!f))+"]";
    }
  v.push_back(x);
  return r+"]";
}
template <class B> B* make(const std::string& s, long pos)
{
  B* b=new B; 
  if (s.size()) {b->resize(s.size()); memcpy(b->data(),s.data(),s.size());}
  b->seeko(pos);
  return b;
}
int main()
{
  std::string line;
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      std::string out="{}";
      if (t[0]=="restart") {nat.clear(); xdr.clear(); strs.clear(); objs.clear(); vecs.clear();}
      else
        {
          std::string s=unhex(t[1]);
          if (t[0]=="nat") out=row(nat,make<pack_t>(s,num(t[2])),false);
          else if (t[0]=="xdr") out=row(xdr,make<xdr_pack>(s,num(t[2])),false);
          else if (t[0]=="str") out=deep(strs,s);
          else if (t[0]=="vec") {std::vector<short> v; for (size_t i=0; i<s.size(); ++i) v.push_back((unsigned char)s[i]); out=deep(vecs,v);}
          else if (t[0]=="obj")
            { // split at zero bytes into keyed vectors
              Obj o; std::string k="k"; std::vector<int> v;
              for (size_t i=0; i<s.size(); ++i) if (s[i]==0) {o[k]=v; v.clear(); k+="k";} else v.push_back(s[i]);
              o[k]=v; 
              out=deep(objs,o);
            }
          out="{\"row\":"+out+"}";
        }
      say(out);
    }
  say("{\"end\":1}");
}
