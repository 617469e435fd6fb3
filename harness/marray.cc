// Driver: multidimensional arrays (see MArray.tla).
#include "classdesc.h"
#include <cstring>
#include <cstddef>
#include <iterator>
#include <vector>
#include "multiArray.h"
#include "classdesc_epilogue.h"
#include <memory>
#include <typeinfo>
#include "common.h"
using namespace vh;
using std::string;
using std::vector;
using classdesc::MultiArray;

static const int pad=2;
// the memory of the array alone is its own allocation, so that an address out of it is noticed
struct Memory
{
  vector<long> all; 
  void fresh(size_t n) {all.clear(); for (size_t i=1; i<=n+2*pad; ++i) all.push_back(i<=pad || i>n+pad? -long(i): long(i)-pad);}
  string show() const {string s; for (size_t i=0; i<all.size(); ++i) s+=(i? ",": "")+str(all[i]); return "["+s+"]";}
} memory;
static string list(const vector<long>& v) {string s; for (size_t i=0; i<v.size(); ++i) s+=(i? ",": "")+str(v[i]); return "["+s+"]";}
static vector<size_t> sizes(const string& s) {vector<size_t> r; if (s!="-") {Tokens t=split(s,','); for (size_t i=0; i<t.size(); ++i) r.push_back(num(t[i]));} return r;}

struct View
{
  virtual ~View() {}
  virtual string about() const=0;
  virtual string set(const vector<size_t>& c, long v)=0;
  virtual string get(const vector<size_t>& c, bool k)=0;
  virtual string sub(const vector<size_t>& c, bool k)=0;
  virtual string iterate(const string&)=0;
  virtual string place(const string&)=0;
  virtual string move(const string&, long)=0;
  virtual string poke(const vector<size_t>& c, long v)=0;
};

static long& element(long& x, const vector<size_t>&, size_t) {return x;}
template <class A> auto element(A&& a, const vector<size_t>& c, size_t i) -> typename std::enable_if<std::decay<A>::type::rank==1,long&>::type {return a[c[i]];}
template <class A> auto element(A&& a, const vector<size_t>& c, size_t i) -> typename std::enable_if<(std::decay<A>::type::rank>1),long&>::type {return element(a[c[i]],c,i+1);}
template <class A> long value(const A& a, const vector<size_t>& c, size_t i, typename std::enable_if<A::rank==1>::type* =0) {return a[c[i]];}
template <class A> long value(const A& a, const vector<size_t>& c, size_t i, typename std::enable_if<(A::rank>1)>::type* =0) {return value(a[c[i]],c,i+1);}

static void walk(long x, vector<long>& r) {r.push_back(x);}
template <class T, int n> void walk(MultiArray<T,n>& a, vector<long>& r) {for (auto& i: a) walk(i,r);}
template <class T, int n> void walk(const MultiArray<T,n>& a, vector<long>& r) {for (auto& i: a) walk(i,r);}
static size_t strideOf(const MultiArray<long,1>&) {return 1;}
template <class A> size_t strideOf(const A& a) {return a.stride();}

template <class A> string describe(A& a)
{
  vector<long> w; walk(a,w);
  return "{\"rank\":"+str(int(std::decay<A>::type::rank))+",\"size\":"+str(a.size())+",\"stride\":"+str(strideOf(a))+",\"walk\":"+list(w)+"}";
}
template <class A> string subOf(A&& a, const vector<size_t>& c, size_t i, typename std::enable_if<std::decay<A>::type::rank==1>::type* =0) {return describe(a);}
template <class A> string subOf(A&& a, const vector<size_t>& c, size_t i, typename std::enable_if<(std::decay<A>::type::rank>1)>::type* =0)
{return i==c.size()? describe(a): subOf(a[c[i]],c,i+1);}

template <int n> MultiArray<long,n> make(long* d, const string& ctor, const size_t* s);
template <> MultiArray<long,1> make<1>(long* d, const string& c, const size_t* s) {return c=="args"? MultiArray<long,1>(d,s[0]): MultiArray<long,1>(d,s);}
template <> MultiArray<long,2> make<2>(long* d, const string& c, const size_t* s) {return c=="args"? MultiArray<long,2>(d,s[0],int(s[1])): MultiArray<long,2>(d,s);}
template <> MultiArray<long,3> make<3>(long* d, const string& c, const size_t* s) {return c=="args"? MultiArray<long,3>(d,int(s[0]),s[1],unsigned(s[2])): MultiArray<long,3>(d,s);}
template <> MultiArray<long,4> make<4>(long* d, const string& c, const size_t* s) {return c=="args"? MultiArray<long,4>(d,int(s[0]),s[1],unsigned(s[2]),s[3]): MultiArray<long,4>(d,s);}
template <> MultiArray<long,5> make<5>(long* d, const string& c, const size_t* s) {return c=="args"? MultiArray<long,5>(d,s[0],s[1],s[2],s[3],s[4]): MultiArray<long,5>(d,s);}

template <int n> struct Of: public View
{
  typedef MultiArray<long,n> A;
  A a;
  std::unique_ptr<typename A::iterator> it;
  Of(const string& ctor, const size_t* s): a(make<n>(memory.all.data()+pad,ctor,s)) {}
  string about() const {return "{\"size\":"+str(a.size())+",\"stride\":"+str(strideOf(a))+",\"rank\":"+str(int(A::rank))+"}";}
  string set(const vector<size_t>& c, long v) {element(a,c,0)=v; return "{\"mem\":"+memory.show()+"}";}
  string get(const vector<size_t>& c, bool k) {return "{\"v\":"+str(k? value(a,c,0): element(a,c,0))+"}";}
  string sub(const vector<size_t>& c, bool k) {if (k) {const A& b=a; return subOf(b,c,0);} A b(a); return subOf(b,c,0);}
  string iterate(const string& how)
  {
    vector<long> r;
    if (how=="range") walk(a,r);
    else if (how=="const") {const A& b=a; walk(b,r);}
    else if (how=="pre") for (typename A::iterator i=a.begin(); i!=a.end(); ++i) walk(*i,r);
    else if (how=="post") for (typename A::iterator i=a.begin(); i!=a.end(); i++) walk(*i,r);
    else if (how=="old") for (typename A::iterator i=a.begin(); i!=a.end();) {auto o=i++; walk(*o,r);}
    else if (how=="constit") {const A& b=a; for (typename A::const_iterator i=b.begin(); i!=b.end(); ++i) walk(*i,r);}
    else if (how=="index") for (size_t i=0; i<a.size(); ++i) {auto&& e=a[i]; walk(e,r);}
    else if (how=="jump") for (size_t j=0; j<a.size(); ++j) {typename A::iterator i=a.begin(); i+=j; walk(*i,r);}
    else if (how=="back") for (typename A::iterator i=a.end(); i!=a.begin();) {--i; walk(*i,r);}
    return "{\"walk\":"+list(r)+"}";
  }
  string val(typename A::iterator i) {vector<long> r; if (i!=a.end()) walk(*i,r); return list(r);}
  string at() {return "\"begin\":"+string(*it==a.begin()? "true": "false")+",\"end\":"+(*it==a.end()? "true": "false")+",\"val\":"+val(*it);}
  string place(const string& w) {it.reset(new typename A::iterator(w=="end"? a.end(): a.begin())); return "{"+at()+"}";}
  string move(const string& how, long k)
  {
    string was;
    if (how=="preinc") was=val(++*it);
    else if (how=="postinc") was=val((*it)++);
    else if (how=="predec") was=val(--*it);
    else if (how=="postdec") was=val((*it)--);
    else {*it+=k; was=val(*it);}
    return "{"+at()+",\"was\":"+was+"}";
  }
  string poke(const vector<size_t>& c, long v) {element(**it,c,0)=v; return "{\"mem\":"+memory.show()+"}";}
};

int main()
{
  std::unique_ptr<View> view;
  string l;
  while (std::getline(std::cin,l))
    {
      Tokens t=split(l);
      string r="{}";
      if (t[0]=="restart") {view.reset(); memory.fresh(1); size_t one=1; view.reset(new Of<1>("args",&one));}
      else if (t[0]=="new")
        {
          const vector<size_t> d=sizes(t[2]);
          size_t n=1; for (size_t i=0; i<d.size(); ++i) n*=d[i];
          view.reset(); memory.fresh(n);
          const size_t* s=d.data();
          switch (d.size())
            {
            case 1: view.reset(new Of<1>(t[1],s)); break;
            case 2: view.reset(new Of<2>(t[1],s)); break;
            case 3: view.reset(new Of<3>(t[1],s)); break;
            case 4: view.reset(new Of<4>(t[1],s)); break;
            case 5: view.reset(new Of<5>(t[1],s)); break;
            }
          r=view->about();
        }
      else if (t[0]=="set") r=view->set(sizes(t[1]),num(t[2]));
      else if (t[0]=="get") r=view->get(sizes(t[1]),t[2]=="const");
      else if (t[0]=="sub") r=view->sub(sizes(t[1]),t[2]=="const");
      else if (t[0]=="iterate") r=view->iterate(t[1]);
      else if (t[0]=="place") r=view->place(t[1]);
      else if (t[0]=="move") r=view->move(t[1],num(t[2]));
      else if (t[0]=="poke") r=view->poke(sizes(t[1]),num(t[2]));
      say(r);
    }
  say("{\"end\":1}");
}
