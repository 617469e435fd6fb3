#ifndef CALL_H
#define CALL_H
struct P { int a, b; P(int x = 0): a(x), b(-x) {} };
enum E { e0, e1, e2 };
#endif
