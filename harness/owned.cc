// Driver: objects allocated while decoding raw pointers, and the lists that hold them.
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "classdesc_access.h"
#include <unistd.h>
#include <set>
#include "objval.h"
#include "owned_types.h"
#include "owned_types.cd"
#include "classdesc_epilogue.h"
using namespace vh;
using classdesc::pack_t;
using classdesc::xdr_pack;
using classdesc::PtrStoreRef;
typedef std::vector<PtrStoreRef> List;

std::set<const void*> alive; int errs=0;
void born(const void* x) {if (!alive.insert(x).second) ++errs;}
void died(const void* x) {if (!alive.erase(x)) ++errs;}

template <class N> std::vector<N*> linksOf(const N& n) {std::vector<N*> r; r.push_back(n.a); r.push_back(n.b); return r;}
template <class N> void setLinks(N& n, const std::vector<N*>& x) {n.a=x.at(0); n.b=x.at(1);}
#define VEC(N) std::vector<N*> linksOf(const N& n) {return n.l;} void setLinks(N& n, const std::vector<N*>& x) {n.l=x;}
VEC(TVec) VEC(GVec)
std::vector<TMap*> linksOf(const TMap& n)
{std::vector<TMap*> r; int k=0; for (std::map<int,TMap*>::const_iterator i=n.l.begin(); i!=n.l.end(); ++i, ++k) {if (i->first!=k || n.tail!="end") ++errs; r.push_back(i->second);} return r;}
void setLinks(TMap& n, const std::vector<TMap*>& x) {n.l.clear(); n.tail="end"; for (size_t i=0; i<x.size(); ++i) n.l[i]=x[i];}

template <class N> struct Driver
{
  struct Known {N* p; std::vector<N*> l; std::vector<int> id; Known(): p(0) {}};
  bool graph, flag, xdr;
  std::vector<Known> known;      // by number
  std::vector<pack_t*> buf; std::vector<List*> lst;
  pack_t* mk()
  {
    pack_t* p=xdr? new xdr_pack: new pack_t;
    if (flag) p->ptr_flag=graph? classdesc::GRAPH: classdesc::TREE;
    return p;
  }
  // forget what died
  void look()
  {
    std::vector<int> dead(known.size()+1);
    for (size_t i=0; i<known.size(); ++i)
      if (known[i].p && !alive.count(known[i].p)) {known[i]=Known(); dead[i+1]=1;}
    for (size_t i=0; i<known.size(); ++i)
      for (size_t j=0; j<known[i].id.size(); ++j) if (known[i].id[j]>0 && dead[known[i].id[j]]) known[i].id[j]=-1;
    while (!known.empty() && !known.back().p) known.pop_back();
  }
  int number(const void* p) {for (size_t i=0; i<known.size(); ++i) if (known[i].p==p) return i+1; return -1;}
  std::string list(List& l)
  {
    std::vector<int> r;
    for (size_t i=0; i<l.size(); ++i) r.push_back(number(l[i].data()));
    std::sort(r.begin(),r.end());
    std::string s="[";
    for (size_t i=0; i<r.size(); ++i) s+=(i? ",":"")+str(r[i]);
    return s+"]";
  }
  std::string state()
  {
    look();
    size_t n=0;
    std::string s="\"obj\":[";
    for (size_t i=0; i<known.size(); ++i)
      {
        s+=i? ",":"";
        if (!known[i].p) {s+="{\"v\":-1,\"l\":[]}"; continue;}
        ++n;
        s+="{\"v\":"+str(known[i].p->v)+",\"l\":[";
        std::vector<N*> l=linksOf(*known[i].p);
        if (l!=known[i].l) ++errs;
        for (size_t j=0; j<known[i].id.size(); ++j) s+=(j? ",":"")+str(known[i].id[j]);
        s+="]}";
      }
    if (n!=alive.size()) ++errs;
    s+="],\"held\":[";
    for (size_t i=0; i<buf.size(); ++i) s+=(i? ",":"")+list(buf[i]->alloced);
    s+="],\"lst\":[";
    for (size_t i=0; i<lst.size(); ++i) s+=(i? ",":"")+list(*lst[i]);
    return s+"],\"errs\":"+str(errs);
  }
  // number what a decoded pointer reaches
  void enter(N* root)
  {
    look();
    std::vector<N*> q; std::set<N*> seen;
    if (root) q.push_back(root);
    std::map<N*,int> id; size_t next=0;
    for (size_t i=0; i<q.size() && i<100000; ++i)
      {
        if (!alive.count(q[i]) || number(q[i])>0 || (!graph && id.count(q[i]))) {++errs; continue;}   // new objects, and no sharing in a tree
        if (id.count(q[i])) continue;
        while (next<known.size() && known[next].p) ++next;
        if (next==known.size()) known.push_back(Known());
        id[q[i]]=++next;
        known[next-1].p=q[i]; known[next-1].l=linksOf(*q[i]);
        for (size_t j=0; j<known[next-1].l.size(); ++j)
          if (N* k=known[next-1].l[j]) if (!(graph && id.count(k))) {bool queued=false; if (graph) for (size_t m=i+1; m<q.size(); ++m) queued|=q[m]==k; if (!queued) q.push_back(k);}
      }
    for (typename std::map<N*,int>::iterator i=id.begin(); i!=id.end(); ++i)
      {
        Known& k=known[i->second-1];
        for (size_t j=0; j<k.l.size(); ++j) k.id.push_back(k.l[j]? id[k.l[j]]: 0);
      }
    // a new object that cannot be reached
    for (std::set<const void*>::iterator i=alive.begin(); i!=alive.end(); ++i) if (number(*i)<0) ++errs;
  }
  List::iterator at(List& l, long i)
  {
    for (List::iterator k=l.begin(); k!=l.end(); ++k) if (number(k->data())==i) return k;
    throw std::logic_error("no such entry");
  }
  // the structure is built in memory of its own, which does not count
  void put(pack_t& b, const J& g)
  {
    std::set<const void*> keep=alive;
    std::vector<N*> n(g.size());
    for (size_t i=0; i<g.size(); ++i) {n[i]=new N; n[i]->v=num(g[i][0].s);}
    for (size_t i=0; i<g.size(); ++i)
      {
        std::vector<N*> l;
        for (size_t j=0; j<g[i][1].size(); ++j) {int k=num(g[i][1][j].s); l.push_back(k? n[k-1]: 0);}
        setLinks(*n[i],l);
      }
    size_t before=alive.size();
    N* root=n.empty()? 0: n[0];
    b<<root;
    if (alive.size()!=before) ++errs;
    for (size_t i=0; i<n.size(); ++i) delete n[i];
    if (alive!=keep) ++errs;
  }
  int run()
  {
    std::string line;
    std::vector<std::string> items;
    while (std::getline(std::cin,line))
      {
        Tokens t=split(line);
        const std::string& o=t[0];
        if (o=="restart")
          {
            for (size_t i=0; i<buf.size(); ++i) delete buf[i];
            for (size_t i=0; i<lst.size(); ++i) delete lst[i];
            look();
            if (!alive.empty()) {errs=1000; alive.clear();}
            buf.clear(); lst.clear(); known.clear();
            for (int i=0; i<nb; ++i) buf.push_back(mk());
            for (int i=0; i<nx; ++i) lst.push_back(new List);
            say("{}");
            continue;
          }
        std::string extra;
        std::map<char,long> a;
        for (size_t i=1; i<t.size(); ++i) if (t[i].size()>1 && t[i][1]=='=') a[t[i][0]]=num(t[i].substr(2));
        pack_t*& b=buf[a.count('b')? a['b']-1: 0];
        List*& x=lst[a.count('x')? a['x']-1: 0];
        try
          {
            if (o=="put") put(*b,J::parse(t.at(2)));
            else if (o=="get")
              {
                N local; N* r=&local;        // refers to something before
                size_t before=alive.size(); alive.erase(&local);
                std::vector<N*> null=linksOf(local);
                *b>>r;
                if (r==&local) {++errs; r=0;}
                enter(r);
                alive.insert(&local);
              }
            else if (o=="rewind") b->reseto();
            else if (o=="cut")
              {
                std::set<const void*> keep=alive;
                int accepted=0;
                N* r=0; size_t p=b->pos();
                {
                  List held=b->alloced;
                  *b>>r;
                  b->alloced=held;
                }
                size_t n=b->pos()-p; b->seeko(-long(n));
                if (alive!=keep) ++errs;
                for (size_t i=0; i<n; i+=n>400? n/100: 1)
                  {
                    pack_t* c=mk();
                    if (i) {c->resize(i); memcpy(c->data(),b->data()+p,i);}
                    try {N* q=0; *c>>q; ++accepted;} catch (const std::exception&) {}
                    delete c;
                    if (alive!=keep) {++errs; alive=keep;}
                  }
                extra=",\"accepted\":"+str(accepted);
              }
            else if (o=="copy") *x=b->alloced;
            else if (o=="add") x->insert(x->end(),b->alloced.begin(),b->alloced.end());
            else if (o=="give") b->alloced=*x;
            else if (o=="assign") *x=*lst[a['y']-1];
            else if (o=="pick") {PtrStoreRef e(*at(b->alloced,a['i'])); x->push_back(e);}
            else if (o=="erase") x->erase(at(*x,a['i']));
            else if (o=="eraseb") b->alloced.erase(at(b->alloced,a['i']));
            else if (o=="over") {List::iterator i=at(*x,a['i']), j=at(*x,a['j']); *i=*j;}
            else if (o=="clear") x->clear();
            else if (o=="clearb") b->alloced.clear();
            else if (o=="drop") {delete x; x=new List;}
            else if (o=="renew") {delete b; b=mk();}
#if __cplusplus>=201103L
            else if (o=="movenew") {pack_t* n=xdr? new xdr_pack(std::move(static_cast<xdr_pack&>(*b))): new pack_t(std::move(*b)); delete b; b=n;}
            else if (o=="move")
              {
                pack_t*& c=buf[a['c']-1];
                if (xdr) static_cast<xdr_pack&>(*b)=std::move(static_cast<xdr_pack&>(*c)); else *b=std::move(*c);
                delete c; c=mk();
              }
#else
            else if (o=="movenew") {}
            else if (o=="move") {pack_t*& c=buf[a['c']-1]; b->swap(*c); delete c; c=mk();}
#endif
            else if (o=="swap") b->swap(*buf[a['c']-1]);
            else {say("{\"bad\":1}"); continue;}
          }
        catch (const std::exception& e) {extra+=",\"exception\":"+quote(e.what());}
        say("{"+state()+extra+"}");
      }
    say("{\"end\":1}");
    _exit(0);
  }
  int nb, nx;
};

// pointers that are not marked are refused, whatever they point to
template <class N> int refuse()
{
  int bad=0;
  N n; N* ptr[3]={&n,0,&n};
  for (int x=0; x<2; ++x)
    for (int k=0; k<2; ++k)
      {
        pack_t* b=x? new xdr_pack: new pack_t;
        try {*b<<ptr[k]; ++bad;} catch (const classdesc::pack_error&) {}
        *b<<1<<1<<1<<1<<1;
        N* p=&n;
        try {*b>>p; ++bad;} catch (const classdesc::pack_error&) {}
        if (p!=&n || b->alloced.size()) ++bad;
        // and within an object
        N obj;
        try {*b<<obj; ++bad;} catch (const classdesc::pack_error&) {}
        delete b;
      }
  return bad;
}

int main(int argc, char** argv)
{
  std::string k=argv[1];
  if (k=="refuse")
    {
      say("{\"refused\":"+str(refuse<TFlag>()==0 && refuse<GFlag>()==0)+"}");
      return 0;
    }
#define K(N,G,F) if (k==#N) {Driver<N> d; d.graph=G; d.flag=F; d.xdr=std::string(argv[2])=="xdr"; d.nb=num(argv[3]); d.nx=num(argv[4]); return d.run();}
  K(TM2,false,false) K(TVec,false,false) K(TMap,false,false) K(TFlag,false,true)
  K(GM2,true,false) K(GVec,true,false) K(GFlag,true,true)
  return 1;
}
