#include <list>
// Driver: reference-counted references.
#include "pack_base.h"
#include "ref.h"
#include "common.h"
#include <set>
#include <map>
#include <unistd.h>
#include "classdesc_epilogue.h"
#include <assert.h>
using namespace vh;
using classdesc::ref;

static const int NL=VH_LINKS;
struct Node;
static std::set<const Node*> alive;
static int errs=0;
struct Node
{
  int v, guard;
  ref<Node> l[VH_LINKS];
  void born() {guard=0x600dbeef; if (!alive.insert(this).second) ++errs;}
  Node(int v=0): v(v) {born();}
  Node(const Node& x): v(x.v) {born(); for (int i=0; i<NL; ++i) l[i]=x.l[i];}
  Node& operator=(const Node& x)
  {
    if (guard!=0x600dbeef || x.guard!=0x600dbeef) ++errs;
    // as the compiler generated one, but safe when x goes away with one of the links
    int nv=x.v; ref<Node> n[VH_LINKS];
    for (int i=0; i<NL; ++i) n[i]=x.l[i];
    v=nv; for (int i=0; i<NL; ++i) l[i].swap(n[i]);
    return *this;
  }
  ~Node() {if (guard!=0x600dbeef || !alive.erase(this)) ++errs; guard=0;}
  bool operator==(const Node& x) const {return v==x.v;}
};

std::vector<ref<Node>*> var;

const Node* target(const ref<Node>& r) {return r.nullref()? 0: &*r;}

std::string state()
{
  std::map<const Node*,int> id; std::vector<const ref<Node>*> order;
  std::vector<const ref<Node>*> q;
  for (size_t i=0; i<var.size(); ++i) q.push_back(var[i]);
  for (size_t i=0; i<q.size() && i<100000; ++i)
    if (const Node* n=target(*q[i]))
      if (!id.count(n))
        {
          int k=id.size()+1; id[n]=k; order.push_back(q[i]);
          if (!alive.count(n)) ++errs;
          else for (int j=0; j<NL; ++j) q.push_back(&n->l[j]);
        }
  std::string s="{\"var\":[";
  for (size_t i=0; i<var.size(); ++i) s+=(i? ",": "")+str(target(*var[i])? id[target(*var[i])]: 0);
  s+="],\"live\":"+str(alive.size())+",\"obj\":[";
  for (size_t i=0; i<order.size(); ++i)
    {
      const Node* n=target(*order[i]);
      s+=std::string(i? ",": "")+"{\"v\":"+str(n->v)+",\"l\":[";
      for (int j=0; j<NL; ++j) s+=(j? ",": "")+str(target(n->l[j])? id[target(n->l[j])]: 0);
      s+="],\"n\":"+str(order[i]->refCount())+"}";
    }
  return s+"],\"errs\":"+str(errs)+"}";
}

ref<Node>& place(const std::string& s)
{
  std::string x;
  size_t i=0;
  for (; i<s.size() && s[i]!='.'; ++i) x+=s[i];
  ref<Node>* r=var.at(num(x)-1);
  while (i<s.size())
    {
      std::string k;
      for (++i; i<s.size() && s[i]!='.'; ++i) k+=s[i];
      r=&(*r)->l[num(k)-1];
    }
  return *r;
}

int main(int argc, char** argv)
{
  int nv=num(argv[1]);
  std::string line;
  while (std::getline(std::cin,line))
    {
      Tokens t=split(line);
      const std::string& o=t[0];
      if (o=="restart")
        {
          // break cycles, so that every run starts from nothing
          for (size_t i=0; i<var.size(); ++i) delete var[i];
          var.clear();
          while (!alive.empty())
            {
              Node* n=const_cast<Node*>(*alive.begin());
              ref<Node> hold[VH_LINKS]; size_t before=alive.size();
              for (int i=0; i<NL; ++i) hold[i].swap(n->l[i]);
              for (int i=0; i<NL; ++i) hold[i].nullify();
              if (alive.size()==before && alive.count(n))
                {
                  bool linked=false;
                  for (std::set<const Node*>::iterator j=alive.begin(); j!=alive.end(); ++j)
                    for (int i=0; i<NL; ++i) if (!(*j)->l[i].nullref()) linked=true;
                  if (!linked) {alive.clear(); ++errs; break;}   // nothing refers to it, yet it is there
                  // give others a chance
                  for (std::set<const Node*>::iterator j=alive.begin(); j!=alive.end(); ++j)
                    for (int i=0; i<NL; ++i)
                      if (!(*j)->l[i].nullref()) {const_cast<Node*>(*j)->l[i].swap(hold[0]); goto found;}
                found:;
                }
            }
          for (int i=0; i<nv; ++i) var.push_back(new ref<Node>);
          say("{}");
          continue;
        }
      if (o=="assign") place(t[1])=place(t[2]);
      else if (o=="assigntarget") place(t[1])=*place(t[2]);
      else if (o=="assignval") place(t[1])=Node(num(t[2]));
      else if (o=="store") place(t[1])->v=num(t[2]);
      else if (o=="touch") {ref<Node>& r=place(t[1]); (*r).v+=0;}
      else if (o=="copyinto") {*place(t[1])=*place(t[2]);}
      else if (o=="nullify") place(t[1]).nullify();
      else if (o=="swap") {if (num(t[3])) std::swap(place(t[1]),place(t[2])); else place(t[1]).swap(place(t[2]));}
      else if (o=="renew") {int i=num(t[1])-1; delete var[i]; var[i]=new ref<Node>;}
      else if (o=="renewfrom") {int i=num(t[1])-1; ref<Node>* n=new ref<Node>(place(t[2])); std::swap(var[i],n); delete n;}
      else if (o=="renewval") {int i=num(t[1])-1; delete var[i]; var[i]=new ref<Node>(Node(num(t[2])));}
      else if (o=="crowd")
        {
          std::string extra;
          {
            std::list<ref<Node> > more(num(t[2]),place(t[1]));
            extra=",\"peak\":"+str(place(t[1]).refCount())+",\"alive\":"+str(alive.size())+"}";
            more.resize(more.size()/2);
          }
          std::string s=state();
          say(s.substr(0,s.size()-1)+extra);
          continue;
        }
      else if (o=="ask")
        {
          const ref<Node>& p=place(t[1]); const ref<Node>& q=place(t[2]);
          std::string s="{\"eq\":"+str(p==q)+",\"ne\":"+str(p!=q)+",\"null\":"+str(p.nullref())+",\"bool\":"+str(bool(p))+",\"count\":"+str(p.refCount());
          s+=",\"ptr\":"+str(target(q)? int(p==target(q)): -1)+",\"val\":";
          s+=str(bool(p==Node(num(t[3]))))+",\"lt\":"+str(!(p<q) && !(q<p))+"}";
          say(s);
          continue;
        }
      else {say("{\"bad\":1}"); continue;}
      say(state());
    }
  say("{\"end\":1}");
  _exit(0);
}
