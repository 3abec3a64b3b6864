// Generates /verif/corpus files (run by hand, output committed). Untrusted:
// only chooses interesting inputs. usage: gen S Y max_steps seconds perbucket seed halt.txt run.txt
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
using namespace std;
struct C { int w, d, q; };
int main(int c, char** v) {
  int S = atoi(v[1]), Y = atoi(v[2]); long N = atol(v[3]); int secs = atoi(v[4]), per = atoi(v[5]);
  mt19937_64 g(atoi(v[6]));
  FILE* fh = fopen(v[7], "a"); FILE* fr = fopen(v[8], "a");
  map<int,int> hb; map<string,int> rb; set<string> seen;
  vector<unsigned char> tape(2*N+3);
  time_t t0 = time(0);
  while (time(0) - t0 < secs) {
    vector<C> tt(S*Y, C{-1,-1,-1});
    int mq = 0, ms = 0, left = S*Y; long p = N+1, n = 0, lo = p, hi = p; int q = 0; bool halt = false;
    long half_cells = 0;
    while (n < N) {
      C& t = tt[q*Y+tape[p]];
      if (t.w < 0) {
        if (left == 1) { halt = true; n++; break; }
        t.q = g() % (min(mq+1, S-1)+1); t.w = g() % (min(ms+1, Y-1)+1); t.d = left == S*Y ? 1 : g()%2;
        mq = max(mq, t.q); ms = max(ms, t.w); left--;
      }
      tape[p] = t.w; p += t.d ? 1 : -1; q = t.q; n++;
      if (p < lo) lo = p; if (p > hi) hi = p;
      if (n == N/4) half_cells = hi - lo;
      if (left > 1 && n > 3000) break;
    }
    string s;
    for (int i = 0; i < S; i++) { if (i) s += "_"; for (int j = 0; j < Y; j++) { C t = tt[i*Y+j];
      if (t.w < 0) s += "---"; else { s += char('0'+t.w); s += "LR"[t.d]; s += char('A'+t.q);} } }
    if (halt) {
      int b = 0; for (double x = n; x > 1; x /= 1.5) b++;
      if (n >= 12 && hb[b] < per && seen.insert(s).second) { hb[b]++; fprintf(fh, "%s %ld\n", s.c_str(), n); }
    } else if (left == 1 && n >= N) {
      long cells = hi - lo; double ratio = half_cells ? (double)cells/half_cells : 0;
      char k[40]; int b = 0; for (double x = cells; x > 1; x /= 2) b++;
      sprintf(k, "%d-%d-%d", b, (int)(ratio*4), lo > N-8 ? 1 : hi < N+10 ? 2 : 3);
      if (rb[k] < (per+2)/3 && seen.insert(s).second) { rb[k]++; fprintf(fr, "%s\n", s.c_str()); }
    }
    memset(&tape[lo-1], 0, hi-lo+3);
  }
}
