// Driver: master and slaves on simulated processes (see Slave.tla).
//   run N SEED PREFIX op,arg,...;op,...      SEED -1 takes the first choice wherever PREFIX does not say
#include <mpi.h>
#include <cstdlib>
#include <stdlib.h>
#include "classdesc.h"
#include "pack_stl.h"
struct SlaveExit {int rc;};
#define exit(x) throw SlaveExit{x}
#include "classdescMP.h"
#undef exit
#include "pack_stream.h"
#include "classdesc_epilogue.h"
#include <memory>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include "common.h"
using namespace vh;
using std::string;
using std::vector;
using namespace classdesc;

static string logged;
static void note(const string& s) {if (!logged.empty()) logged+=","; logged+=s;}
static void finish()
{
  string c;
  for (auto& i: mock::world().choices) c+=(c.empty()? "": ",")+("["+str(i.first)+","+str(i.second)+"]");
  say("{\"log\":["+logged+"],\"choices\":["+c+"]}");
  _exit(0);
}
struct S
{
  int sum; 
  S(): sum(0) {}
  static void ran(int m, int x) {note("{\"ph\":\"run\",\"r\":"+str(mock::me())+",\"m\":"+str(m)+",\"x\":"+str(x)+"}");}
  void twice(MPIbuf& args) {int x; args>>x; ran(1,x); args.reset()<<2*x;}                       // one value back
  void add(MPIbuf& args) {int x; args>>x; ran(2,x); sum+=x; args.reset()<<sum;}                 // what the slave remembers
  void quiet(MPIbuf& args) {int x; args>>x; ran(3,x); sum+=x;}                                  // nothing back
  void empty(MPIbuf& args) {int x; args>>x; ran(4,x); args.reset();}                            // an empty message back
  void many(MPIbuf& args) {int x; args>>x; ran(5,x); args.reset(); for (int i=0; i<x%5; ++i) args<<x+i;}
};
static void (S::*methods[])(MPIbuf&)={0,&S::twice,&S::add,&S::quiet,&S::empty,&S::many};

static string list(const vector<int>& v) {string s; for (size_t i=0; i<v.size(); ++i) s+=(i? ",": "")+str(v[i]); return "["+s+"]";}
static string result(MPIbuf& b) 
{
  vector<int> v;
  while (b.pos()<b.size()) {int x; b>>x; v.push_back(x);}
  return ",\"proc\":"+str(b.proc)+",\"vals\":"+list(v);
}

struct Master
{
  MPIslave<S>& s;
  Master(MPIslave<S>& s): s(s) {}
  string run(const Tokens& t)
  {
    const string& o=t[0];
    auto n=[&](size_t i) {return int(num(t[i]));};
    if (o=="exec")
      {
        if (n(3)) {MPIbuf b; s<<methods[n(1)]; static_cast<MPIbuf_base&>(b).packraw(s.data(),s.size()); b<<n(2); s.exec(b);}
        else s.exec(s<<methods[n(1)]<<n(2));
      }
    else if (o=="direct") s<<methods[n(1)]<<n(2)<<send(n(3));
    else if (o=="bcast")
      {
        if (n(3)) {MPIbuf b; s<<methods[n(1)]; static_cast<MPIbuf_base&>(b).packraw(s.data(),s.size()); b<<n(2); s<<0x7777; s.bcast(b); if (b.size()) return "\"cleared\":0";}
        else s.bcast(s<<methods[n(1)]<<n(2));
      }
    else if (o=="get") {MPIbuf& b=s.get_returnv(); return state()+result(b);}
    else if (o=="waitall") s.wait_all_idle();
    else if (o=="value") {s<<n(1); int x=0; s.reseto(); s>>x; return state()+",\"vals\":["+str(x)+"]";}
    return state();
  }
  string state()
  {
    vector<int> i(s.idle); 
    std::sort(i.begin(),i.end());
    return "\"idle\":"+list(i)+",\"all\":"+str(int(s.all_idle()));
  }
};

static void one(const string& l)
{
  Tokens t=split(l);
  mock::World& w=mock::world();
  const int n=num(t[1]);
  w.randomly=num(t[2])>=0; w.rng.seed(num(t[2]));
  if (t[3]!="-") {Tokens p=split(t[3],','); for (auto& i: p) w.prefix.push_back(num(i));}
  vector<Tokens> prog;
  if (t[4]!="-") {Tokens os=split(t[4],';'); for (auto& o: os) prog.push_back(split(o,','));}
  w.error=[](const string& e) {note("{\"ph\":\"error\",\"what\":\""+e+"\"}"); finish();};
  w.stuck=[]() {note("{\"ph\":\"stuck\"}"); finish();};
  mock::run(n,[&](int r) {
    int argc=0; char** argv=0;
    MPISPMD* world=new MPISPMD(argc,argv);
    if (world->myid!=r || world->nprocs!=mock::world().n) note("{\"ph\":\"error\",\"what\":\"rank\"}");
    try
      {
        MPIslave<S> s;
        if (r) {note("{\"ph\":\"error\",\"what\":\"slave goes on\"}"); finish();}
        Master m(s);
        note("{\"ph\":\"begin\",\"obs\":{"+m.state()+"}}");
        for (size_t k=0; k<prog.size(); ++k)
          {
            note("{\"ph\":\"call\",\"k\":"+str(k+1)+"}");
            note("{\"ph\":\"ret\",\"k\":"+str(k+1)+",\"obs\":{"+m.run(prog[k])+"}}");
          }
        note("{\"ph\":\"end\"}");
      }
    catch (SlaveExit x) {note("{\"ph\":\"exit\",\"r\":"+str(r)+",\"rc\":"+str(x.rc)+",\"finalised\":"+(mock::world().finalised[r]? "1": "0")+"}"); return;}
    delete world;
  });
  note("{\"ph\":\"over\"}");
  finish();
}

int main()
{
  string l;
  while (std::getline(std::cin,l))
    {
      std::cout.flush();
      int fd[2]; 
      if (pipe(fd)) return 1;
      pid_t p=fork();
      if (!p)
        {
          dup2(fd[1],1); close(fd[0]); close(fd[1]);
          alarm(20);
          one(l);
        }
      close(fd[1]);
      string out; char buf[65536]; ssize_t k;
      while ((k=read(fd[0],buf,sizeof(buf)))>0) out.append(buf,k);
      close(fd[0]);
      int st; waitpid(p,&st,0);
      if (out.empty() || out[out.size()-1]!='\n') return 3;
      std::cout<<out; std::cout.flush();
    }
  say("{\"end\":1}");
}
