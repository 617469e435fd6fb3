// Driver: factories (see Factory.tla).
#include "classdesc.h"
#include "factory.h"
#include "classdesc_epilogue.h"
#include <unistd.h>
#include <deque>
#include <algorithm>
#include <map>
#include <vector>
#include "common.h"
using namespace vh;
using std::string;

// names in the order of their values
static const char* text[]={"","::K1","::K2 < a , b > ","K3","K4\n\xc3\xa9","K5","K6","K60"};
template <class Key> struct Name;
template <> struct Name<string> {static string of(int n) {return text[n];} static int back(const string& s) {for (int i=1; i<8; ++i) if (s==text[i]) return i; return -1;}};
template <> struct Name<int> {static int of(int n) {return n*1000-3500;}};
template <> struct Name<double> {static double of(int n) {return n*.1-.3;}};

static long live=0;
template <class Key> struct Base
{
  int v;
  Base(): v(0) {++live;}
  Base(const Base& x): v(x.v) {++live;}
  virtual ~Base() {--live;}
  virtual Key type() const=0;
  virtual int which() const=0;
};
template <class Key, int k> struct Kl: public Base<Key>
{
  Key type() const {return Name<Key>::of(k);}
  int which() const {return k;}
};
namespace classdesc
{
  template <> Factory<Base<string>,string>::Factory() {registerType<Kl<string,1> >();}
  template <> Factory<Base<int>,int>::Factory() {registerType<Kl<int,1> >();}
  template <> Factory<Base<double>,double>::Factory() {registerType<Kl<double,1> >();}
}
template <class F> string types(const F& f, string)
{
  std::vector<string> t=f.types();
  std::vector<int> v;
  for (size_t i=0; i<t.size(); ++i) v.push_back(Name<string>::back(t[i]));
  std::sort(v.begin(),v.end());
  string s;
  for (size_t i=0; i<v.size(); ++i) s+=(i? ",": "")+str(v[i]);
  return "["+s+"]";
}
// what is registered, where it is not strings that names are
template <class F, class Key> string types(const F& f, Key)
{
  string s;
  for (int n=1; n<8; ++n)
    try {delete f.create(Name<Key>::of(n)); s+=(s.empty()? "": ",")+str(n);}
    catch (const std::exception&) {}
  return "["+s+"]";
}
template <class F, int k> struct Reg {static void named(F& f, int c, int n);};

template <class Key> int run()
{
  typedef classdesc::Factory<Base<Key>,Key> F;
  std::vector<F*> f(4,(F*)0);
  std::deque<Base<Key>*> made;
  string line;
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      if (t[0]=="restart")
        {
          while (!made.empty()) {delete made.front(); made.pop_front();}
          for (size_t i=1; i<f.size(); ++i) {delete f[i]; f[i]=new F;}
          say("{}");
          continue;
        }
      string ret, obs;
      if (t[0]=="register" || t[0]=="own")
        {
          F& x=*f.at(num(t[1]));
          int k=num(t[2]);
          if (t[0]=="own")
            switch (k)
              {
              case 1: x.template registerType<Kl<Key,1> >(); break;
              case 2: x.template registerType<Kl<Key,2> >(); break;
              case 3: x.template registerType<Kl<Key,3> >(); break;
              case 4: x.template registerType<Kl<Key,4> >(); break;
              case 5: x.template registerType<Kl<Key,5> >(); break;
              }
          else
            {
              Key n=Name<Key>::of(num(t[3]));
              switch (k)
                {
                case 1: x.template registerType<Kl<Key,1> >(n); break;
                case 2: x.template registerType<Kl<Key,2> >(n); break;
                case 3: x.template registerType<Kl<Key,3> >(n); break;
                case 4: x.template registerType<Kl<Key,4> >(n); break;
                case 5: x.template registerType<Kl<Key,5> >(n); break;
                }
            }
          say("{\"types\":"+types(x,Key())+"}");
          continue;
        }
      if (t[0]=="copy") {*f.at(num(t[2]))=*f.at(num(t[1])); say("{\"types\":"+types(*f.at(num(t[2])),Key())+"}"); continue;}
      if (t[0]=="renew") {int i=num(t[1]); delete f.at(i); f[i]=new F; say("{\"types\":"+types(*f[i],Key())+"}"); continue;}
      if (t[0]=="create")
        {
          const F& x=*f.at(num(t[1]));
          ret="ok";
          try {made.push_back(x.create(Name<Key>::of(num(t[2]))));}
          catch (const typename F::InvalidType& e) {ret=string(e.what()).empty()? "err without text": "err";}
          catch (...) {ret="other";}
        }
      else if (t[0]=="change") made.at(num(t[1])-1)->v=num(t[2]);
      else if (t[0]=="destroy") {delete made.front(); made.pop_front();}
      else {say("{\"bad\":1}"); continue;}
      for (size_t i=0; i<made.size(); ++i)
        obs+=(i? ",{\"k\":": "{\"k\":")+str(made[i]->which())+",\"v\":"+str(made[i]->v)+"}";
      if (live!=long(made.size())) obs+=",\"live "+str(live)+"\"";
      say("{"+(ret.empty()? "": "\"ret\":\""+ret+"\",")+"\"made\":["+obs+"]}");
    }
  say("{\"end\":1}");
  return 0;
}
int main(int argc, char** argv)
{
  string k=argc>1? argv[1]: "string";
  int r=k=="int"? run<int>(): k=="double"? run<double>(): run<string>();
  _exit(r);
}
