// Exhaustive exploration of the C++ bit buffer against a string of '0'/'1'.
// usage: bits TIER SHARD NSHARDS LOG | bits replay "op:arg op:arg ..."
#include <stdio.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include "bit_bucket.h"
using std::string;
using std::vector;

struct Op { int kind; uint32_t arg; };
enum { STORE, BIT, W8, W16, W32, AL8, AL16, BYTES, READ, CHUNKS, REST, R1,
       CLEAR, SEEK, PEEK, NKIND };
static const char* kNames[] = {"store", "bit", "w8", "w16", "w32", "al8",
  "al16", "bytes", "read", "chunks", "rest", "r1", "clear", "seek", "peek"};
static const unsigned char kPattern[] = {0xA7,0x3C,0xFF,0x01,0x96,0x80,0x5B};
static FILE* g_log;
static long g_traces, g_steps, g_bad;
static std::set<size_t> g_states;

static string Show(const vector<Op>& ops) {
  string s;
  char b[64];
  for (auto& o : ops) {
    snprintf(b, sizeof b, "%s%s:%u", s.empty() ? "" : " ", kNames[o.kind], o.arg);
    s += b;
  }
  return s;
}
static void Bits(string* s, uint32_t v, int n) {
  for (int i = n - 1; i >= 0; --i) s->push_back((v >> i) & 1 ? '1' : '0');
}
static string Unpack(const vector<char>& v, size_t n) {
  string s;
  for (char c : v) Bits(&s, (unsigned char)c, 8);
  return s.substr(0, std::min(n, s.size()));
}
static string Pad(string s) { while (s.size() % 8) s += '0'; return s; }

static string Run(const vector<Op>& ops) {
  BitBucket bb;
  string m;
  size_t r = 0;
  char msg[400];
#define FAIL(...) do { snprintf(msg, sizeof msg, __VA_ARGS__); return msg; } while (0)
  for (auto& o : ops) {
    size_t left = m.size() - r;
    ++g_steps;
    switch (o.kind) {
      case STORE: {
        int n = o.arg & 0xff, rot = o.arg >> 8;
        vector<char> d;
        for (int i = 0; i < (n + 7) / 8; ++i) d.push_back(kPattern[(rot + i) % 7]);
        string all;
        for (char c : d) Bits(&all, (unsigned char)c, 8);
        bb.StoreBits(d, n);
        m += all.substr(0, n);
        break; }
      case BIT: bb.StoreBit(o.arg); m += o.arg ? '1' : '0'; break;
      case W8: bb.StoreBits8(o.arg); Bits(&m, o.arg, 8); break;
      case W16: bb.StoreBits16(o.arg); Bits(&m, o.arg, 16); break;
      case W32: bb.StoreBits32(o.arg); Bits(&m, o.arg, 32); break;
      case AL8: m = Pad(m); bb.StoreByteAlignedUint8(o.arg); Bits(&m, o.arg, 8); break;
      case AL16: { m = Pad(m);
        vector<char> d; d.push_back(o.arg >> 8); d.push_back(o.arg & 255);
        bb.StoreByteAligned(d); Bits(&m, o.arg, 16); break; }
      case BYTES: { vector<char> d; 
        for (uint32_t i = 0; i < o.arg; ++i) { d.push_back(kPattern[i % 7]); Bits(&m, kPattern[i % 7], 8); }
        bb.StoreBytes(d.begin(), d.end()); break; }
      case CLEAR: bb.Clear(); m.clear(); r = 0; break;
      case SEEK: if (o.arg > m.size()) continue; bb.Seek(o.arg); r = o.arg; break;
      case PEEK: { uint32_t n = o.arg; if (n > left) continue;
        uint32_t w = 0x5, want = 0x5; if (n == 32) want = 0; else want <<= n;
        for (uint32_t i = 0; i < n; ++i) if (m[r + i] == '1') want |= 1u << (n - 1 - i);
        bb.ShiftBitsIntoWord(&w, n);
        if (w != want) FAIL("ShiftBitsIntoWord(%u) made %08x, expected %08x", n, w, want);
        break; }
      case R1: { if (!left) continue; bool b = bb.GetBit();
        if (b != (m[r] == '1')) FAIL("GetBit returned %d", b);
        ++r; break; }
      case READ: case CHUNKS: case REST: {
        vector<size_t> sizes;
        if (o.kind == REST) sizes.push_back(left);
        else if (o.kind == READ) sizes.push_back(o.arg);
        else { for (size_t k = 0; k < left / o.arg; ++k) sizes.push_back(o.arg);
               if (left % o.arg) sizes.push_back(left % o.arg); }
        for (size_t n : sizes) {
          if (n > m.size() - r) continue;
          vector<char> out;
          if (o.arg & 1) out.push_back('x');   // appends to what is there
          size_t base = out.size();
          bb.GetBits(&out, n);
          vector<char> got(out.begin() + base, out.end());
          string want = m.substr(r, n);
          r += n;
          if (got.size() != (n + 7) / 8) FAIL("GetBits(%zu) returned %zu bytes", n, got.size());
          if (Unpack(got, got.size() * 8) != Pad(want))
            FAIL("GetBits(%zu) returned %s, expected %s", n,
                 Unpack(got, got.size() * 8).c_str(), Pad(want).c_str());
        }
        break; }
    }
    g_states.insert(std::hash<string>()(m + "/" + std::to_string(r)));
    if (bb.NumBits() != m.size())
      FAIL("NumBits is %zu after %zu bits were stored (%s)", bb.NumBits(), m.size(), kNames[o.kind]);
    if (bb.BitsConsumed() != r) FAIL("BitsConsumed is %zu, expected %zu", bb.BitsConsumed(), r);
    if (bb.BitsRemaining() != m.size() - r) FAIL("BitsRemaining is %zu", bb.BitsRemaining());
    if (bb.AllConsumed() != (r >= m.size())) FAIL("AllConsumed is %d with %zu left", bb.AllConsumed(), m.size() - r);
    if (bb.BytesRequired() != (m.size() + 7) / 8)
      FAIL("BytesRequired is %zu for %zu bits", bb.BytesRequired(), m.size());
  }
  vector<char> all(bb.BytesBegin(), bb.BytesEnd());
  if (Unpack(all, all.size() * 8) != Pad(m))
    FAIL("stored octets are %s, expected %s", Unpack(all, all.size() * 8).substr(0, 120).c_str(), Pad(m).substr(0, 120).c_str());
  return "";
}

// A read of more bits than remain must be refused (the process aborts).
static void TryOver(uint32_t stored, uint32_t first, uint32_t more) {
  ++g_traces;
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    freopen("/dev/null", "w", stderr);
    BitBucket bb;
    vector<char> d(stored / 8 + 1, 0x5a), out;
    if (stored) bb.StoreBits(d, stored);
    if (first) bb.GetBits(&out, first);
    bb.GetBits(&out, stored - first + more);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    printf("BAD over:%u,%u,%u | after %u of %u bits were read, GetBits(%u) was answered\n",
           stored, first, more, first, stored, stored - first + more);
    if (++g_bad >= 3) exit(0);
  }
}

static void Try(const vector<Op>& ops) {
  ++g_traces;
  string s = Show(ops);
  // announced first, so that a crash names its case
  rewind(g_log);
  fprintf(g_log, "%-900s\n", s.c_str());
  fflush(g_log);
  string bad = Run(ops);
  if (!bad.empty()) {
    printf("BAD %s | %s\n", s.c_str(), bad.c_str());
    fflush(stdout);
    if (++g_bad >= 3) exit(0);
  }
}

int main(int argc, char** argv) {
  if (!strcmp(argv[1], "replay")) {
    uint32_t x, y, z;
    if (sscanf(argv[2], "over:%u,%u,%u", &x, &y, &z) == 3) { TryOver(x, y, z); return g_bad; }
    vector<Op> ops;
    string t = argv[2];
    char* save = 0;
    for (char* p = strtok_r(&t[0], " ", &save); p; p = strtok_r(0, " ", &save)) {
      char* c = strchr(p, ':');
      *c = 0;
      for (int k = 0; k < NKIND; ++k)
        if (!strcmp(p, kNames[k])) ops.push_back(Op{k, (uint32_t)atol(c + 1)});
    }
    string bad = Run(ops);
    if (!bad.empty()) { printf("BAD %s\n", bad.c_str()); return 1; }
    return 0;
  }
  bool deep = !strcmp(argv[1], "thorough");
  long shard = atol(argv[2]), nshards = atol(argv[3]), id = 0;
  g_log = fopen(argv[4], "w");
#define MINE (++id % nshards == shard)
  vector<uint32_t> widths;
  for (uint32_t n = 1; n <= 17; ++n) widths.push_back(n);
  for (uint32_t n : {23, 24, 25, 32, 33, 40}) widths.push_back(n);
  vector<Op> stores, reads;
  for (uint32_t n : widths) stores.push_back(Op{STORE, n | (n % 7) << 8});
  for (Op o : vector<Op>{{BIT,0},{BIT,1},{W8,1},{W8,0xFE},{W16,0xA55A},{W16,0x180},
       {W32,0xDEADBEEF},{W32,0x01020304},{AL8,0xC3},{AL16,0x8001},{BYTES,1},{BYTES,3}})
    stores.push_back(o);
  for (uint32_t n : widths) reads.push_back(Op{CHUNKS, n});
  reads.push_back(Op{REST, 0});
  unsigned k = 0;
  for (uint32_t off = 0; off < 8; ++off)
    for (Op a : stores) for (Op b : stores) {
      ++k;
      for (unsigned j = 0; j < (deep ? reads.size() : 3); ++j) {
        if (!MINE) continue;
        vector<Op> ops;
        for (uint32_t i = 0; i < off; ++i) ops.push_back(Op{BIT, (off + i) % 2});
        ops.push_back(a); ops.push_back(b);
        ops.push_back(reads[deep ? j : (k * 5 + j * 7) % reads.size()]);
        Try(ops);
      }
    }
  vector<Op> rd;
  for (uint32_t n : widths) rd.push_back(Op{READ, n});
  rd.push_back(Op{R1, 0}); rd.push_back(Op{PEEK, 5}); rd.push_back(Op{PEEK, 17});
  rd.push_back(Op{PEEK, 31}); rd.push_back(Op{PEEK, 32});
  for (uint32_t s = 0; s < 16; ++s) rd.push_back(Op{SEEK, s * 3});
  for (uint32_t off = 0; off < 8; ++off)
    for (Op a : rd) for (Op b : rd) {
      if (!MINE) continue;
      vector<Op> ops{{STORE, 40 | 1 << 8}, {STORE, 27 | 4 << 8}};
      if (off) ops.push_back(Op{READ, off});
      ops.push_back(a); ops.push_back(b); ops.push_back(Op{CHUNKS, 1 + off});
      Try(ops);
    }
  for (uint32_t n : {1, 7, 8, 9, 16})
    for (uint32_t f = 0; f <= n; f += (f == 0 ? 1 : 3))
      for (uint32_t m : {1, 7, 8}) if (MINE) TryOver(n, f, m);
  vector<Op> al{{STORE,3},{STORE,8|1<<8},{STORE,13|2<<8},{BIT,1},{W8,0x81},{W16,0x8001},
    {W32,0x80010203},{AL8,0x7E},{BYTES,2},{READ,1},{READ,5},{READ,8},{READ,11},{R1,0},{REST,0},{CLEAR,0}};
  int depth = deep ? 5 : 4;
  long total = 1;
  for (int i = 0; i < depth; ++i) total *= al.size();
  for (long i = 0; i < total; ++i) {
    if (!MINE) continue;
    vector<Op> ops;
    for (long v = i, d = 0; d < depth; ++d, v /= al.size()) ops.push_back(al[v % al.size()]);
    ops.push_back(Op{REST, 0});
    Try(ops);
  }
  printf("DONE traces=%ld steps=%ld states=%zu\n", g_traces, g_steps, g_states.size());
  return 0;
}
