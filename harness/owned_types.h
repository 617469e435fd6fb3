// Node types reached through raw pointers. Each object reports its birth and death.
void born(const void*);
void died(const void*);
#pragma treenode TM2
struct TM2 {int v; TM2 *a, *b; TM2(): v(0), a(0), b(0) {born(this);} TM2(const TM2& x): v(x.v), a(x.a), b(x.b) {born(this);} ~TM2() {died(this);}};
#pragma treenode TVec
struct TVec {std::vector<TVec*> l; int v; TVec(): v(0) {born(this);} TVec(const TVec& x): l(x.l), v(x.v) {born(this);} ~TVec() {died(this);}};
#pragma treenode TMap
struct TMap {int v; std::map<int,TMap*> l; std::string tail; TMap(): v(0) {born(this);} TMap(const TMap& x): v(x.v), l(x.l), tail(x.tail) {born(this);} ~TMap() {died(this);}};
struct TFlag {TFlag *a; int v; TFlag *b; TFlag(): a(0), v(0), b(0) {born(this);} TFlag(const TFlag& x): a(x.a), v(x.v), b(x.b) {born(this);} ~TFlag() {died(this);}};
#pragma graphnode GM2
struct GM2 {int v; GM2 *a, *b; GM2(): v(0), a(0), b(0) {born(this);} GM2(const GM2& x): v(x.v), a(x.a), b(x.b) {born(this);} ~GM2() {died(this);}};
#pragma graphnode GVec
struct GVec {int v; std::vector<GVec*> l; GVec(): v(0) {born(this);} GVec(const GVec& x): v(x.v), l(x.l) {born(this);} ~GVec() {died(this);}};
struct GFlag {GFlag *a; int v; GFlag *b; GFlag(): a(0), v(0), b(0) {born(this);} GFlag(const GFlag& x): a(x.a), v(x.v), b(x.b) {born(this);} ~GFlag() {died(this);}};
