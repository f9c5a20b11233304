// Exhaustive exploration of the C++ Huffman coder.
// usage: huff TIER SHARD NSHARDS LOG | huff replay CASE
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <queue>
#include <set>
#include <string>
#include <vector>
#include "header_freq_tables.h"
#include "huffman.h"
using std::string;
using std::vector;

static FILE* g_log;
static long g_traces, g_steps, g_bad;
static std::set<size_t> g_states;
static bool g_replay;

static void Bad(const string& c, const string& what) {
  if (g_replay) { printf("BAD %s\n", what.c_str()); exit(1); }
  printf("BAD %s | %s\n", c.c_str(), what.c_str());
  fflush(stdout);
  if (++g_bad >= 3) exit(0);
}
static void Begin(const string& c) {
  ++g_traces;
  if (g_log) { rewind(g_log); fprintf(g_log, "%-200s\n", c.c_str()); fflush(g_log); }
}
static string BitsOf(BitBucket* bb) {
  string s;
  for (auto i = bb->BytesBegin(); i != bb->BytesEnd(); ++i)
    for (int k = 7; k >= 0; --k) s += (*i >> k) & 1 ? '1' : '0';
  return s.substr(0, bb->NumBits());
}
static vector<string> Words(const Huffman& h) {
  vector<string> w;
  for (int s = 0; s < 257; ++s) {
    BitBucket bb;
    h.Encode(&bb, s < 256 ? string(1, (char)s) : string(), s == 256);
    w.push_back(BitsOf(&bb));
  }
  return w;
}

// A family of frequency tables, by name.
static bool Make(int id, FreqTable* t, string* name) {
  vector<unsigned long long> fib(1, 1);
  fib.push_back(1);
  while (fib.size() < 46) fib.push_back(fib[fib.size() - 1] + fib[fib.size() - 2]);
  for (int i = 0; i < 257; ++i) (*t)[i] = FreqEntry(i, 0);
  char b[60];
  if (id == 0) { *t = FreqTables::request_freq_table; *name = "request"; return true; }
  if (id == 1) { *t = FreqTables::response_freq_table; *name = "response"; return true; }
  id -= 2;
  int kind = id / 8, p = id % 8;
  int rot = p * 37;
  snprintf(b, sizeof b, "family %d/%d", kind, p);
  *name = b;
  for (int i = 0; i < 257; ++i) {
    unsigned long long v = 0;
    int j = (i + rot) % 257;
    switch (kind) {
      case 0: v = p; break;
      case 1: v = 1 + j * (p + 1); break;
      case 2: v = j < 32 ? 1ULL << j : 0; break;
      case 3: v = j < 24 + 3 * p && j < 46 ? fib[j] : 0; break;
      case 4: v = j == 0 ? 4000000000ULL : (j % (p + 2)); break;
      case 5: v = j < 128 ? 1 : 1000 * (p + 1); break;
      case 6: v = j < 4 ? 4000000000ULL - j : (j % 3 ? 0 : p); break;
      case 7: v = j < 30 ? (1ULL << j) + p : 1; break;
      default: return false;
    }
    (*t)[i].second = (uint32_t)std::min(v, 4294967295ULL);
  }
  return true;
}

static void CheckCode(const string& c, const FreqTable& t, const vector<string>& w) {
  size_t top = 0;
  for (auto& s : w) top = std::max(top, s.size());
  if (top > 32) Bad(c, "a code word has " + std::to_string(top) + " bits");
  if (top > 62) return;
  unsigned long long kraft = 0;
  for (auto& s : w) {
    if (s.empty()) { Bad(c, "a symbol has no code word"); return; }
    kraft += 1ULL << (top - s.size());
  }
  if (kraft != 1ULL << top) Bad(c, "the code is not complete");
  vector<string> s(w);
  std::sort(s.begin(), s.end());
  for (size_t i = 0; i + 1 < s.size(); ++i)
    if (s[i + 1].compare(0, s[i].size(), s[i]) == 0) Bad(c, "code word " + s[i] + " is a prefix of " + s[i + 1]);
  // minimum total length, unless the 32-bit limit was in the way
  std::priority_queue<double, vector<double>, std::greater<double> > q;
  double cost = 0, best = 0;
  for (int i = 0; i < 257; ++i) { q.push(t[i].second); cost += double(t[i].second) * w[i].size(); }
  while (q.size() > 1) { double a = q.top(); q.pop(); a += q.top(); q.pop(); best += a; q.push(a); }
  if (top < 30 && cost > best + 0.5) {
    char b[120];
    snprintf(b, sizeof b, "total length %.0f, the minimum is %.0f", cost, best);
    Bad(c, b);
  }
}

static void Text(const string& c, const Huffman& h, const vector<string>& w,
                 int off, const string& text, int mode) {
  ++g_steps;
  BitBucket bb;
  for (int i = 0; i < off; ++i) bb.StoreBit(true);
  h.Encode(&bb, text, mode != 1);
  string want(off, '1');
  for (unsigned char ch : text) want += w[ch];
  if (mode != 1) want += w[256];
  if (BitsOf(&bb) != want) { Bad(c, "Encode stored other bits"); return; }
  int n = want.size() - off;
  vector<char> tail(2, (char)0x9c);
  // other data may follow
  bb.StoreBits(tail, 11);
  vector<char> skip;
  if (off) bb.GetBits(&skip, off);
  string got;
  if (mode == 1 && !n) return;
  h.Decode(&got, &bb, mode != 1, mode == 0 ? 0 : n);
  g_states.insert(std::hash<string>()(want));
  if (got != text) {
    string show;
    char b[8];
    for (unsigned char ch : text) { snprintf(b, sizeof b, "%02x ", ch); show += b; }
    show += "decodes to ";
    for (unsigned char ch : got.substr(0, 20)) { snprintf(b, sizeof b, "%02x ", ch); show += b; }
    Bad(c, show);
  }
}

static void RunTable(int id, bool deep) {
  FreqTable t;
  string name;
  if (!Make(id, &t, &name)) return;
  string c = std::to_string(id) + " " + name;
  Begin(c);
  Huffman h;
  h.Init(t);
  vector<string> w = Words(h);
  CheckCode(c, t, w);
  for (int off = 0; off < 8; ++off)
    for (int s = 0; s < 256; ++s)
      for (int mode = 0; mode < 3; ++mode)
        Text(c, h, w, off, string(1, (char)s), mode);
  for (int a = 0; a < 256; ++a)
    for (int b = 0; b < 256; b += deep ? 1 : 5)
      Text(c, h, w, a % 8, string(1, (char)a) + string(1, (char)b), (a + b) % 3);
  const int few[] = {0, 10, 32, 48, 61, 97, 101, 127, 200, 255};
  string text(4, ' ');
  for (int i = 0; i < 10000; ++i) {
    for (int k = 0, v = i; k < 4; ++k, v /= 10) text[k] = (char)few[v % 10];
    Text(c, h, w, i % 8, text, i % 3);
  }
  Text(c, h, w, 0, "", 0);
  Text(c, h, w, 3, "", 2);
  // an initialised coder can be initialised again
  FreqTable t2;
  string n2;
  Make(id ? 0 : 1, &t2, &n2);
  h.Init(t2);
  w = Words(h);
  CheckCode(c + " then " + n2, t2, w);
  for (int s = 0; s < 256; ++s) Text(c + " then " + n2, h, w, s % 8, string(1, (char)s), 0);
}

int main(int argc, char** argv) {
  if (!strcmp(argv[1], "replay")) {
    g_replay = true;
    RunTable(atoi(argv[2]), true);
    return 0;
  }
  bool deep = !strcmp(argv[1], "thorough");
  int shard = atoi(argv[2]), nshards = atoi(argv[3]);
  g_log = fopen(argv[4], "w");
  for (int id = 0; id < 2 + 64; ++id) {
    if (!deep && id >= 2 && id % 3) continue;
    if ((id < 2 ? id : id / 3 * 3 / (deep ? 1 : 3)) % nshards == shard) RunTable(id, deep);
  }
  printf("DONE traces=%ld steps=%ld states=%zu\n", g_traces, g_steps, g_states.size());
  return 0;
}
