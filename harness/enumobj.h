// Driver: a variable of each enumeration of a generated header, and what is known about it.
#include "common.h"
using namespace vh; using namespace classdesc;

struct Slot
{
  virtual std::string call(const Tokens&)=0;
  virtual void reset()=0;
  virtual ~Slot() {}
};
inline std::string bad(const std::string& s) {return "!"+s;}
inline std::string obs(long v) {return "{\"obs\":"+str(v)+"}";}
inline std::string obs(const std::string& v) {return "{\"obs\":"+quote(v)+"}";}
inline std::string truth(bool v) {return v? "{\"obs\":true}": "{\"obs\":false}";}
inline std::string round(long v, const std::string& t) {return "{\"obs\":{\"v\":"+str(v)+",\"t\":"+quote(t)+"}}";}
inline std::string content(const std::string& doc, const std::string& tag)
{
  size_t b=doc.find("<"+tag+">"), e=doc.find("</"+tag+">");
  return b==std::string::npos || e==std::string::npos? "!"+doc: doc.substr(b+tag.size()+2,e-b-tag.size()-2);
}

// H: struct {short before; E e; signed char after; std::vector<E> v;}
template <class E, class H> struct Of: public Slot
{
  E cur;
  void reset() {cur=E(0);}
  long after(const H& h, E v)
  {
    if (h.before!=-321 || h.after!=99) return -1000001;
    if (h.v.size()!=2 || h.v[0]!=v || h.v[1]!=v) return -1000002;
    return long(h.e);
  }
  std::string call(const Tokens& t)
  {
    const std::string& op=t[1];
    if (op=="round")
      {
        std::string how=t[2]; E old=E(num(t[3])), v=E(num(t[4])), in=v, out=old;
        H hi, ho; hi.before=-321; hi.after=99; hi.e=v; hi.v.assign(2,v); ho.before=1; ho.after=2; ho.e=old; ho.v.assign(1,old);
        pack_t b;
        if (how=="bin") {const E c=v; b<<c; b>>out; return b.pos()==b.size()? round(long(out),"-"): round(-1000003,"-");}
        if (how=="binm") {b<<hi; b>>ho; return b.pos()==b.size()? round(after(ho,v),"-"): round(-1000003,"-");}
#ifdef SYMBOLIC
        if (how=="stream")
          {
            std::ostringstream o; o<<Enum_handle<E>(in); std::istringstream i(o.str());
            Enum_handle<E> h(out); i>>h;
            return round(long(out),o.str());
          }
        std::ostringstream o;
        {
          xml_pack_t x(o);
          if (how=="xml") xml_pack(x,"r",in); else if (how=="xmlc") {const E c=in; xml_pack(x,"r",c);} else xml_pack(x,"r",hi);
        }
        std::istringstream i(o.str()); xml_unpack_t y(i);
        if (how=="xml" || how=="xmlc") {xml_unpack(y,"r",out); return round(long(out),content(o.str(),"r"));}
        xml_unpack(y,"r",ho);
        return round(after(ho,v),content(o.str(),"e"));
#endif
      }
#ifdef SYMBOLIC
    const EnumKeys<E>& k=enum_keys<E>();
    if (op=="val") return k(t[2])==enum_keys<const E>()(t[2]) && int(k(t[2]))==enumKey<E>(t[2])? obs(long(k(t[2]))): obs(bad("differ"));
    if (op=="hasn") return truth(k.has(t[2]));
    if (op=="hasv") return truth(k.has(E(num(t[2]))));
    if (op=="name")
      {
        int v=num(t[2]); std::string a=k(v), b=k(E(v)), c=to_string(E(v)), d=enumKey<E>(v); std::ostringstream o; o<<E(v);
        return obs(a==b && a==c && a==d && a==o.str()? a: bad("differ"));
      }
    if (op=="table")
      {
        std::string a="[", b="[";
        for (typename EnumKeys<E>::iterator i=k.begin(); i!=k.end(); ++i)
          {if (a.size()>1) a+=","; a+="{\"v\":"+str(i->first)+",\"n\":"+quote(i->second)+"}";}
        std::vector<std::string> s(k.sbegin(),k.send()); std::vector<E> v(k.vbegin(),k.vend());
        for (size_t i=0; i<s.size() && i<v.size(); ++i)
          {if (i) b+=","; b+="{\"v\":"+str(long(v[i]))+",\"n\":"+quote(s[i])+"}";}
        return "{\"obs\":"+a+"],\"obs2\":"+b+"],\"size\":"+str(k.size())+"}";
      }
    Enum_handle<E> h(cur);
    if (op=="setv") {h=E(num(t[2])); return obs(long(cur));}
    if (op=="seti") {h=int(num(t[2])); return obs(long(cur));}
    if (op=="setn") {h=t[2]; return obs(long(cur));}
    if (op=="setd") {h=str(num(t[2])); return obs(long(cur));}
    if (op=="read")
      {
        const E c=cur; Enum_handle<const E> g(c); std::string s=h;
        return "{\"v\":"+str(int(h))+",\"obs\":"+quote(s==std::string(g)? s: bad("differ"))+"}";
      }
#endif
    return "{\"bad\":1}";
  }
};
Slot* make(int);
int main()
{
  std::string l; std::map<int,Slot*> slots; 
  while (std::getline(std::cin,l))
    {
      Tokens t=split(l);
      if (t[0]=="restart") {for (std::map<int,Slot*>::iterator i=slots.begin(); i!=slots.end(); ++i) i->second->reset(); say("{}"); continue;}
      if (t[0]=="none") {say("{}"); continue;}
      int i=num(t[0]);
      if (!slots.count(i)) {slots[i]=make(i); slots[i]->reset();}
      try {say(slots[i]->call(t));}
      catch (std::exception& e) {say("{\"threw\":"+quote(e.what())+"}");}
    }
  for (std::map<int,Slot*>::iterator i=slots.begin(); i!=slots.end(); ++i) delete i->second;
  say("{\"end\":1}");
}
