// Driver: structures of polymorphic pointers written as XML and read back.
#include "poly_headers.h"
#include "classdesc_access.h"
#include <unistd.h>
#include <sstream>
#include "objval.h"
#include "universe.h"
#include "classdesc_epilogue.h"
#include "universe_probe.h"
using namespace vh;
using classdesc::xml_pack_t;
using classdesc::xml_unpack_t;
#include "polyops.h"

struct Slot
{
  virtual ~Slot() {}
  virtual void set(const J& j)=0;
  virtual std::string get() const=0;
  virtual std::string put()=0;
  virtual void take(const std::string& doc)=0;
  virtual Root* root()=0;
  virtual void reset(Root*)=0;
  virtual int self() const=0;    // is it an object itself?
};
template <class T> struct SlotT: public Slot
{
  T x;
  SlotT(): x() {}
  void set(const J& j) {V<T>::set(x,j);}
  std::string get() const {return V<T>::get(x);}
  std::string put() {std::ostringstream o; {xml_pack_t p(o); p<<x;} return o.str();}
  void take(const std::string& doc) {std::istringstream i(doc); xml_unpack_t p(i); p>>x;}
  Root* root() {return PtrOf<T>::get(x);}
  void reset(Root* r) {PtrOf<T>::put(x,r);}
  int self() const {return classdesc::is_base_of<Root,T>::value;}
};
#include "universe_roots.h"   // Slot* make(int)

int main()
{
  std::string line;
  std::vector<Slot*> slots; std::vector<int> types;
  std::vector<std::string> docs; size_t rd=0;
  std::map<std::string,int> ids;
  registerAll();
  long baseline=liveCount();
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      if (t[0]=="restart")
        {
          for (size_t i=0; i<slots.size(); ++i) delete slots[i];
          slots.clear(); types.clear(); docs.clear(); rd=0;
          say("{}");
          continue;
        }
      if (polyOp(t,line,slots,baseline)) continue;
      if (t[0]=="slot")
        {
          int ty=num(t[1]);
          slots.push_back(make(ty)); types.push_back(ty);
          say("{\"val\":"+slots.back()->get()+"}");
        }
      else if (t[0]=="set")
        {
          Slot& s=*slots.at(num(t[1]));
          s.set(J::parse(line.substr(t[0].size()+t[1].size()+2)));
          say("{\"val\":"+s.get()+"}");
        }
      else if (t[0]=="put")
        {
          Slot& s=*slots.at(num(t[1]));
          std::string ret="ok", doc;
          try {doc=s.put();}
          catch (const std::exception& e) {ret="err";}
          docs.push_back(doc);
          bool same=s.put()==doc;
          std::string key=str(types[num(t[1])])+":"+doc;
          if (!ids.count(key)) {int n=ids.size(); ids[key]=n;}
          say("{\"ret\":\""+ret+"\",\"val\":"+s.get()+",\"same\":"+(same?"1":"0")+",\"id\":"+str(ids[key])+",\"n\":"+str(docs.size())+"}");
        }
      else if (t[0]=="get")
        {
          Slot& s=*slots.at(num(t[1]));
          std::string ret="ok";
          try {s.take(docs.at(rd)); ++rd;}
          catch (const std::exception& e) {ret=std::string("err ")+quote(e.what());}
          say("{\"ret\":\""+ret+"\",\"val\":"+s.get()+",\"at\":"+str(rd)+"}");
        }
      else if (t[0]=="rewind") {rd=0; say("{\"at\":0}");}
      else if (t[0]=="clear") {docs.clear(); rd=0; say("{\"at\":0}");}
      else say("{\"bad\":1}");
    }
  say("{\"end\":1}");
  _exit(0);
}
