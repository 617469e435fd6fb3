// Driver: message buffers on simulated processes (see MPI.tla).  One line is one run:
//   run N SEED PREFIX program|program|...     programs: op,arg,...;op,arg,...
// SEED -1 takes the first choice wherever PREFIX does not say.  Replies with the log of the
// run and the choices made.
#include <mpi.h>
#include "classdesc.h"
#include "classdescMP.h"
#include "pack_stream.h"
#include "classdesc_epilogue.h"
#include <memory>
#include <new>
#include <unistd.h>
#include <sys/wait.h>
#include "common.h"
using namespace vh;
using std::string;
using std::vector;
using classdesc::MPIbuf;
using classdesc::MPIbuf_array;

static string logged;
static void note(const string& s) {if (!logged.empty()) logged+=","; logged+=s;}
static void finish()
{
  string c;
  for (auto& i: mock::world().choices) c+=(c.empty()? "": ",")+("["+str(i.first)+","+str(i.second)+"]");
  say("{\"log\":["+logged+"],\"choices\":["+c+"]}");
  _exit(0);
}
static string list(const vector<int>& v) {string s; for (size_t i=0; i<v.size(); ++i) s+=(i? ",": "")+str(v[i]); return "["+s+"]";}
static string content(MPIbuf& b)
{
  vector<int> v;
  for (size_t i=0; i+4<=b.size(); i+=4)
    {
      unsigned char c[4]; memcpy(c,b.data()+i,4);
#ifdef HETERO
      v.push_back(c[0]<<24 | c[1]<<16 | c[2]<<8 | c[3]);
#else
      v.push_back(c[3]<<24 | c[2]<<16 | c[1]<<8 | c[0]);
#endif
    }
  if (b.size()%4) v.push_back(-999);
  return list(v);
}

struct Rank
{
  MPIbuf* b[2]; MPIbuf_array* a; 
  // memory is not zero to begin with
  static MPIbuf* fresh() {void* p=::operator new(sizeof(MPIbuf)); memset(p,0xa5,sizeof(MPIbuf)); return new(p) MPIbuf;}
  static MPIbuf* copy(const MPIbuf& x) {void* p=::operator new(sizeof(MPIbuf)); memset(p,0xa5,sizeof(MPIbuf)); return new(p) MPIbuf(x);}
  void start() {b[0]=fresh(); b[1]=fresh(); a=new MPIbuf_array(3);}
  string run(const Tokens& t, int me)
  {
    const string& o=t[0];
    auto n=[&](size_t i) {return int(num(t[i]));};
    auto any=[&](size_t i, int w) {return num(t[i])<0? w: int(num(t[i]));};
    if (o[0]=='a')
      {
        if (o=="aisend")
          {
            MPIbuf& m=(*a)[n(1)];
            for (size_t i=4; i<t.size(); ++i) m<<n(i);
            m<<classdesc::isend(n(2),n(3));
            return "";
          }
        if (o=="arenew") {delete a; a=new MPIbuf_array(3); return "";}
        if (o=="awaitall") {a->waitall(); return "";}
        if (o=="atestall") return "\"flag\":"+str(int(a->testall()));
        if (o=="awaitany") {int i=a->waitany(); return "\"done\":["+(i<0? "": str(i))+"]";}
        if (o=="atestany") {int i=a->testany(); return "\"done\":["+(i<0? "": str(i))+"]";}
        if (o=="awaitsome") return "\"done\":"+list(a->waitsome());
        if (o=="atestsome") return "\"done\":"+list(a->testsome());
      }
    if (o=="who") return "\"me\":"+str(b[0]->myid())+",\"n\":"+str(b[0]->nprocs());
    MPIbuf& m=*b[n(1)];
    string r;
    if (o=="pack") {for (size_t i=2; i<t.size(); ++i) m<<n(i);}
    else if (o=="unpack") {vector<int> v; for (int i=0; i<n(2); ++i) {int x=0; m>>x; v.push_back(x);} return "\"vals\":"+list(v);}
    else if (o=="reset") m.reset();
    else if (o=="send") {if (n(4)) m<<classdesc::send(n(2),n(3)); else m.send(n(2),n(3));}
    else if (o=="isend") {if (n(4)) m<<classdesc::isend(n(2),n(3)); else m.isend(n(2),n(3));}
    else if (o=="wait") m.wait();
    else if (o=="sent") return "\"flag\":"+str(int(m.sent()));
    else if (o=="renew") {delete b[n(1)]; b[n(1)]=0; b[n(1)]=fresh(); return content(*b[n(1)])=="[]"? "\"cont\":[]": "\"cont\":[-1]";}
    else if (o=="get") {m.get(any(2,MPI_ANY_SOURCE),any(3,MPI_ANY_TAG)); r=",\"proc\":"+str(m.proc)+",\"tag\":"+str(m.tag);}
    else if (o=="sendrecv")
      {
        m.send_recv(n(2),n(3),any(4,MPI_ANY_SOURCE),any(5,MPI_ANY_TAG)); 
        r= n(2)==me? ",\"proc\":-1,\"tag\":-1": ",\"proc\":"+str(m.proc)+",\"tag\":"+str(m.tag);
      }
    else if (o=="bcast") {if (n(3)) m<<classdesc::bcast(n(2)); else m.bcast(n(2));}
    else if (o=="gather") m.gather(n(2));
    else if (o=="scatter") m.scatter(n(2));
    else if (o=="mark") m<<classdesc::mark();
    else if (o=="waiting") return "\"flag\":"+str(int(m.msg_waiting(any(2,MPI_ANY_SOURCE),any(3,MPI_ANY_TAG))));
    else if (o=="const") {m.const_buffer=n(2); return "";}
    else if (o=="comm") {m.Communicator=n(2); return "";}
    else if (o=="assign") {m=*b[n(2)];}
    else if (o=="copy") {MPIbuf* c=copy(*b[n(2)]); delete b[n(1)]; b[n(1)]=c; return "\"cont\":"+content(*c)+",\"const\":"+str(int(c->const_buffer))+",\"proc\":"+str(c->proc)+",\"tag\":"+str(c->tag);}
    return "\"cont\":"+content(m)+r;
  }
  void end() {delete b[0]; delete b[1]; delete a;}
};

static void one(const string& l)
{
  Tokens t=split(l);
  mock::World& w=mock::world();
  const int n=num(t[1]);
  w.randomly=num(t[2])>=0; w.rng.seed(num(t[2]));
  if (t[3]!="-") {Tokens p=split(t[3],','); for (auto& i: p) w.prefix.push_back(num(i));}
  vector<vector<Tokens> > prog;
  Tokens ps=split(t[4],'|');
  for (auto& p: ps)
    {
      prog.push_back(vector<Tokens>());
      if (p!="-") {Tokens os=split(p,';'); for (auto& o: os) prog.back().push_back(split(o,','));}
    }
  w.error=[](const string& e) {note("{\"k\":0,\"r\":"+str(mock::me())+",\"ph\":\"error\",\"what\":\""+e+"\"}"); finish();};
  w.stuck=[&w]() {
    string s;
    for (int i=0; i<w.n; ++i) if (!w.finished[i]) s+=(s.empty()? "": ",")+str(i+1);
    note("{\"k\":0,\"r\":0,\"ph\":\"stuck\",\"who\":["+s+"]}"); finish();
  };
  mock::run(n,[&](int r) {
    Rank me; me.start();
    for (size_t k=0; k<prog[r].size(); ++k)
      {
        const string at="{\"r\":"+str(r)+",\"k\":"+str(k+1)+",\"ph\":";
        note(at+"\"call\"}");
        string obs;
        try {obs=me.run(prog[r][k],r);}
        catch (const std::exception& e) {obs="\"ret\":\"exception\"";}
        note(at+"\"ret\",\"obs\":{\"k\":0"+(obs.empty()? "": ","+obs)+"}}");
      }
    note("{\"k\":0,\"r\":"+str(r)+",\"ph\":\"end\"}");
    me.end();
  });
  finish();
}

int main()
{
  string l;
  while (std::getline(std::cin,l))
    {
      std::cout.flush();
      if (l=="restart") {say("{}"); continue;}
      int fd[2]; 
      if (pipe(fd)) return 1;
      pid_t p=fork();
      if (!p)
        {
          dup2(fd[1],1); close(fd[0]); close(fd[1]);
          alarm(20);
          one(l);
        }
      close(fd[1]);
      string out; char buf[65536]; ssize_t k;
      while ((k=read(fd[0],buf,sizeof(buf)))>0) out.append(buf,k);
      close(fd[0]);
      int st; waitpid(p,&st,0);
      if (out.empty() || out[out.size()-1]!='\n') return 3; // whatever it died of is on stderr
      std::cout<<out; std::cout.flush();
    }
  say("{\"end\":1}");
}
