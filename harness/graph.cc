// Driver: graphs of nodes written to and read back from one buffer.
#include "pack_base.h"
#include "ref.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "classdesc_access.h"
#include <unistd.h>
#include "objval.h"
#include "graph_types.h"
#include "graph_types.cd"
#include "classdesc_epilogue.h"
using namespace vh;
using classdesc::pack_t;
using classdesc::xdr_pack;
using classdesc::ref;

// ---- reaching the links without the library's help
template <class N> const N* targetOf(const ref<N>& r) {return r.nullref()? 0: &*r;}
template <class N> const N* targetOf(N* const& r) {return r;}
template <class L> std::vector<L> vecOf(const L& a, const L& b) {std::vector<L> r; r.push_back(a); r.push_back(b); return r;}
template <class C> std::vector<typename C::value_type> vecOf(const C& c) {return std::vector<typename C::value_type>(c.begin(),c.end());}
template <class C, class L> void fillLinks(C& c, const std::vector<L>& x) {c=C(x.begin(),x.end());}
template <class N> std::vector<typename N::Link> linksOf(const N& n) {return vecOf(n.l);}
template <class N> void setLinks(N& n, const std::vector<typename N::Link>& x) {fillLinks(n.l,x);}
#define TWO(N)                                                          \
  std::vector<N::Link> linksOf(const N& n) {return vecOf(n.a,n.b);}         \
  void setLinks(N& n, const std::vector<N::Link>& x) {n.a=x.at(0); n.b=x.at(1);}
TWO(RM2) TWO(PM2) TWO(FM2)
std::vector<RArr::Link> linksOf(const RArr& n) {return vecOf(n.l[0],n.l[1]);}
void setLinks(RArr& n, const std::vector<RArr::Link>& x) {n.l[0]=x.at(0); n.l[1]=x.at(1);}
std::vector<RMap::Link> linksOf(const RMap& n)
{std::vector<RMap::Link> r; int k=0; for (std::map<int,RMap::Link>::const_iterator i=n.l.begin(); i!=n.l.end(); ++i, ++k) {if (i->first!=k) throw std::logic_error("key"); r.push_back(i->second);} return r;}
void setLinks(RMap& n, const std::vector<RMap::Link>& x) {n.l.clear(); for (size_t i=0; i<x.size(); ++i) n.l[i]=x[i];}

// normal form, breadth first
template <class L> std::string lookGraph(const L& root)
{
  std::map<const void*,int> id; std::vector<L> q; std::vector<L> order;
  q.push_back(root);
  for (size_t i=0; i<q.size(); ++i)
    if (targetOf(q[i]) && !id.count(targetOf(q[i])))
      {
        int k=id.size()+1; id[targetOf(q[i])]=k; order.push_back(q[i]);
        std::vector<L> n=linksOf(*targetOf(q[i])); q.insert(q.end(),n.begin(),n.end());
      }
  std::string s="[";
  for (size_t i=0; i<order.size(); ++i)
    {
      s+=std::string(i? ",":"")+"{\"v\":"+str(targetOf(order[i])->v)+",\"l\":[";
      std::vector<L> n=linksOf(*targetOf(order[i]));
      for (size_t j=0; j<n.size(); ++j) s+=(j? ",":"")+str(targetOf(n[j])? id[targetOf(n[j])]: 0);
      s+="]}";
    }
  return s+"]";
}
template <class N> void makeNode(ref<N>& r) {r=N();}
template <class N> void makeNode(N*& r) {r=new N;}
template <class N> N& nodeOf(const ref<N>& r) {return const_cast<N&>(*r);}
template <class N> N& nodeOf(N* r) {return *r;}
template <class N> void wipeLink(ref<N>& r) {r.nullify();}
template <class N> void wipeLink(N*& r) {r=0;}
template <class L> L buildGraph(const J& g)
{
  std::vector<L> n(g.size());
  for (size_t i=0; i<g.size(); ++i) {makeNode(n[i]); nodeOf(n[i]).v=num(g[i][0].s);}
  for (size_t i=0; i<g.size(); ++i)
    {
      std::vector<L> l;
      for (size_t j=0; j<g[i][1].size(); ++j) {int k=num(g[i][1][j].s); l.push_back(L()); if (k) l.back()=n[k-1]; else wipeLink(l.back());}
      setLinks(nodeOf(n[i]),l);
    }
  L r; wipeLink(r);
  if (!n.empty()) r=n[0];
  return r;
}

bool xdr;
struct Broken: public pack_t
{
  int left;
  Broken(int n): left(n) {}
  void append(const classdesc::basic_type& x) {if (left--<=0) throw classdesc::pack_error("device full"); pack_t::append(x);}
  void packraw(const char* x, size_t s) {if (left--<=0) throw classdesc::pack_error("device full"); pack_t::packraw(x,s);}
};

int nvar=3;
template <class N> int run(bool flag)
{
  typedef typename N::Link L;
  std::string line;
  L var[3]; pack_t* b=0; std::vector<std::string> items; std::vector<size_t> bounds; size_t rd=0;
  for (int i=0; i<3; ++i) wipeLink(var[i]);
  struct Make {static pack_t* mk(bool flag) {pack_t* p=xdr? new xdr_pack: new pack_t; if (flag) p->ptr_flag=classdesc::GRAPH; return p;}};
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      const std::string& o=t[0];
      if (o=="restart")
        {
          for (int i=0; i<3; ++i) wipeLink(var[i]);
          delete b; b=Make::mk(flag); items.clear(); bounds.assign(1,0); rd=0;
          say("{}");
          continue;
        }
      L dummy; wipeLink(dummy);
      L& x=t.size()>1? var[num(t[1])-1]: dummy;
      if (o=="set")
        {
          x=buildGraph<L>(J::parse(line.substr(t[0].size()+t[1].size()+2)));
          say("{\"g\":"+lookGraph(x)+"}");
        }
      else if (o=="copy")
        {
          x=var[num(t[2])-1];
          say("{\"g\":"+lookGraph(x)+"}");
        }
      else if (o=="put")
        {
          std::string ret="ok";
          b->recur_max=num(t[2]);
          size_t before=b->size();
          try {*b<<x;} catch (const std::exception&) {ret="err";}
          items.push_back(std::string(b->data()+before,b->size()-before)); bounds.push_back(b->size());
          say("{\"ret\":\""+ret+"\",\"g\":"+lookGraph(x)+"}");
        }
      else if (o=="get")
        {
          std::string ret="ok"; size_t p=b->pos();
          try {*b>>x; ++rd;} catch (const std::exception&) {ret="err"; wipeLink(x); b->seeko(long(p)-long(b->pos()));}
          std::string all;
          for (int i=0; i<nvar; ++i) all+=(i? ",":"")+lookGraph(var[i]);
          say("{\"ret\":\""+ret+"\",\"g\":"+lookGraph(x)+",\"all\":["+all+"],\"at\":"+str(b->pos()==bounds.at(rd)? long(rd): -1L)+"}");
        }
      else if (o=="cut")
        {
          const std::string& item=items.at(rd);
          int accepted=0; size_t step=item.size()>200? item.size()/60: 1;
          for (size_t n=0; n<item.size(); n+=step)
            {
              L d; wipeLink(d);
              pack_t* c=Make::mk(flag);
              if (n) {c->resize(n); memcpy(c->data(),item.data(),n);}
              try {*c>>d; ++accepted;} catch (const std::exception&) {}
              wipeLink(d);
              delete c;
            }
          say("{\"accepted\":"+str(accepted)+"}");
        }
      else if (o=="putfail")
        {
          int accepted=0;
          pack_t probe; if (flag) probe.ptr_flag=classdesc::GRAPH;
          Broken count(1000000); if (flag) count.ptr_flag=classdesc::GRAPH; count.recur_max=num(t[2]); count<<x;
          int calls=1000000-count.left, step=calls>80? calls/40: 1;
          for (int n=0; n<calls; n+=step)
            {
              Broken c(n); if (flag) c.ptr_flag=classdesc::GRAPH; c.recur_max=num(t[2]);
              try {c<<x; ++accepted;} catch (const std::exception&) {}
            }
          say("{\"accepted\":"+str(accepted)+",\"g\":"+lookGraph(x)+"}");
        }
      else if (o=="rewind") {b->reseto(); rd=0; say("{\"at\":0}");}
      else say("{\"bad\":1}");
    }
  say("{\"end\":1}");
  _exit(0);
}

int main(int argc, char** argv)
{
  std::string k=argv[1];
  xdr=argc>2 && std::string(argv[2])=="xdr";
  if (argc>3) nvar=atoi(argv[3]);
  if (k=="RM2") return run<RM2>(false);
  if (k=="RVec") return run<RVec>(false);
  if (k=="RDeq") return run<RDeq>(false);
  if (k=="RLst") return run<RLst>(false);
  if (k=="RMap") return run<RMap>(false);
  if (k=="RArr") return run<RArr>(false);
  if (k=="PM2") return run<PM2>(false);
  if (k=="PVec") return run<PVec>(false);
  if (k=="FM2") return run<FM2>(true);
  return 1;
}
