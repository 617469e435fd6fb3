// Driver: objects written as XML documents, and read from documents.
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "classdesc_access.h"
#include <unistd.h>
#include <stdio.h>
#include <sstream>
#include "objval.h"
template <> struct V<classdesc::CDATA>
{
  static std::string get(const classdesc::CDATA& x) {return V<std::string>::get(x);}
  static void set(classdesc::CDATA& x, const J& j) {V<std::string>::set(x,j);}
};
#include "universe.h"
#include "classdesc_epilogue.h"
#include "universe_probe.h"
using namespace vh;
using classdesc::xml_pack_t;
using classdesc::xml_unpack_t;

struct Slot
{
  virtual ~Slot() {}
  virtual void set(const J& j)=0;
  virtual std::string get() const=0;
  virtual void write(xml_pack_t& x, const std::string& n)=0;
  virtual void read(xml_unpack_t& x, const std::string& n)=0;
};
template <class T> struct SlotT: public Slot
{
  T x;
  SlotT(): x() {}
  void set(const J& j) {V<T>::set(x,j);}
  std::string get() const {return V<T>::get(x);}
  void write(xml_pack_t& p, const std::string& n) {if (n=="root") p<<x; else ::xml_pack(p,n,x);}
  void read(xml_unpack_t& p, const std::string& n) {if (n=="root") p>>x; else ::xml_unpack(p,n,x);}
};
#include "universe_roots.h"   // Slot* make(int)

struct Doc {std::string text; xml_unpack_t* x;};

static void readDoc(Doc& d, int how, bool strict, Slot& s, const std::string& name)
{
  if (how==0)
    { // parsed once, read any number of times
      if (!d.x) {std::istringstream i(d.text); d.x=new xml_unpack_t(i);}
      d.x->missingException=strict;
      s.read(*d.x,name);
    }
  else if (how==1)
    {
      FILE* f=fmemopen((void*)d.text.data(),d.text.size(),"r");
      try {xml_unpack_t x(f); x.missingException=strict; s.read(x,name);}
      catch (...) {fclose(f); throw;}
      fclose(f);
    }
  else if (how==2)
    {
      {std::ofstream o("doc.xml"); o<<d.text;}
      xml_unpack_t x("doc.xml"); x.missingException=strict;
      s.read(x,name);
    }
  else
    { // an object used for another document before
      xml_unpack_t x;
      std::istringstream j("<root a='1'><root>7</root><x>1</x></root>");
      x.parse(j);
      x.clear();
      std::istringstream i(d.text);
      x.parse(i);
      x.missingException=strict;
      s.read(x,name);
    }
}

int main(int argc, char** argv)
{
  std::string line;
  std::vector<Slot*> slots; std::vector<int> types; std::vector<Doc> docs;
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      if (t[0]=="restart")
        {
          for (size_t i=0; i<slots.size(); ++i) delete slots[i];
          for (size_t i=0; i<docs.size(); ++i) delete docs[i].x;
          slots.clear(); types.clear(); docs.clear();
          say("{}");
          continue;
        }
      if (t[0]=="slot")
        {
          slots.push_back(make(num(t[1]))); types.push_back(num(t[1]));
          say("{\"val\":"+slots.back()->get()+"}");
          continue;
        }
      if (t[0]=="set")
        {
          Slot& s=*slots.at(num(t[1]));
          s.set(J::parse(line.substr(t[0].size()+t[1].size()+2)));
          say("{\"val\":"+s.get()+"}");
          continue;
        }
      if (t[0]=="write")
        {
          Slot& s=*slots.at(num(t[1]));
          std::ostringstream o;
          o.precision(17);
          xml_pack_t p(o,num(t[4])? "http://example.com/ns": "");
          p.prettyPrint=num(t[3]);
          std::string ret="ok";
          try {s.write(p,t[2]);} catch (const std::exception&) {ret="err";}
          Doc d={o.str(),0};
          docs.push_back(d);
          say("{\"ret\":\""+ret+"\",\"val\":"+s.get()+",\"xml\":\""+hex(o.str())+"\"}");
          continue;
        }
      if (t[0]=="load")
        {
          Doc d={unhex(t[1]),0};
          docs.push_back(d);
          std::string ret="ok";
          try {std::istringstream i(d.text); xml_unpack_t x(i);} catch (const std::exception& e) {ret=std::string("err ")+e.what();}
          say("{\"ret\":\""+ret+"\"}");
          continue;
        }
      if (t[0]=="read" || t[0]=="readx")
        {
          Slot*& s=slots.at(num(t[1]));
          Doc d1={"",0};
          bool tmp=t[0]=="readx";
          if (tmp) d1.text=unhex(t[2]);
          Doc& d=tmp? d1: docs.at(num(t[2]));
          std::string ret="ok";
          try {readDoc(d,num(t[5]),num(t[4]),*s,t[3]);}
          catch (const std::exception&)
            {
              ret="err";
              delete s; s=make(types[num(t[1])]);
            }
          if (tmp) delete d.x;
          say("{\"ret\":\""+ret+"\",\"val\":"+s->get()+"}");
          continue;
        }
      if (t[0]=="content")
        {
          Doc d={unhex(t[2]),0};
          SlotT<std::string> s;
          s.x="old";
          std::string ret="ok";
          try {readDoc(d,num(t[1]),0,s,"root");} catch (const std::exception&) {ret="err";}
          delete d.x;
          say("{\"ret\":\""+ret+"\",\"val\":"+s.get()+"}");
          continue;
        }
      if (t[0]=="damage")
        {
          std::string acc;
          for (size_t k=1; k<t.size(); ++k)
            {
              std::string text=unhex(t[k]);
              bool ok=true;
              try 
                {
                  if (k%2) {std::istringstream i(text); xml_unpack_t x(i);}
                  else
                    {
                      FILE* f=fmemopen((void*)text.data(),text.size(),"r");
                      try {xml_unpack_t x(f);} catch (...) {fclose(f); throw;}
                      fclose(f);
                    }
                }
              catch (const std::exception&) {ok=false;}
              if (ok) acc+=(acc.empty()? "": ",")+str(long(k));
            }
          say("{\"accepted\":["+acc+"]}");
          continue;
        }
      say("{\"bad\":1}");
    }
  say("{\"end\":1}");
  _exit(0);
}
