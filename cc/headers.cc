// Exhaustive exploration of the C++ header encoder (spdy4_headers_codec):
// every history of frames, decoded by an independent decoder.
// usage: headers TIER SHARD NSHARDS LOG | headers replay CASE
#include <stdio.h>
#include <string.h>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "header_freq_tables.h"
#include "huffman.h"
#include "spdy4_headers_codec.h"
using std::list;
using std::map;
using std::pair;
using std::set;
using std::string;
using std::vector;
typedef pair<string, string> Field;

static FILE* g_log;
static long g_traces, g_steps, g_bad;
static std::set<size_t> g_states;
static bool g_replay;

static void Bad(const string& c, const string& what) {
  if (g_replay) { printf("BAD %s\n", what.c_str()); exit(1); }
  printf("BAD %s | %s\n", c.c_str(), what.c_str());
  fflush(stdout);
  if (++g_bad >= 3) exit(0);
}
static void Begin(const string& c) {
  ++g_traces;
  if (g_log) { rewind(g_log); fprintf(g_log, "%-300s\n", c.c_str()); fflush(g_log); }
}

// ------------------------------------------------------------ decoder

static const char* kStatic =
  ":host=|:method=get|:path=/|:scheme=https|:status=200|:status-text=OK|"
  ":version=1.1|accept=|accept-charset=|accept-encoding=|accept-language=|"
  "accept-ranges=|allow=|authorizations=|cache-control=|content-base=|"
  "content-encoding=|content-length=|content-location=|content-md5=|"
  "content-range=|content-type=|cookie=|date=|etag=|expect=|expires=|from=|"
  "if-match=|if-modified-since=|if-none-match=|if-range=|"
  "if-unmodified-since=|last-modified=|location=|max-forwards=|origin=|"
  "pragma=|proxy-authenticate=|proxy-authorization=|range=|referer=|"
  "retry-after=|server=|set-cookie=|status=|te=|trailer=|transfer-encoding=|"
  "upgrade=|user-agent=|user-agent=|vary=|via=|warning=|www-authenticate=|"
  "access-control-allow-origin=|content-disposition=|get-dictionary=|p3p=|"
  "x-content-type-options=|x-frame-options=|x-powered-by=|x-xss-protection=|";

// the smallest number that was given back, else the next one
struct Numbers {
  set<int> free;
  int last;
  Numbers() : last(0) {}
  int Next() {
    if (free.empty()) return ++last;
    int n = *free.begin();
    free.erase(free.begin());
    return n;
  }
};

struct Entry { int number, frame; Field f; bool fixed; };

struct Code {
  struct Node { int kid[2], sym; };
  vector<Node> tree;
  explicit Code(const FreqTable& t) {
    Node none = {{0, 0}, -1};
    tree.push_back(none);
    Huffman h;
    h.Init(t);
    for (int s = 0; s < 257; ++s) {
      BitBucket bb;
      h.Encode(&bb, s < 256 ? string(1, (char)s) : string(), s == 256);
      int at = 0;
      size_t n = bb.NumBits();
      for (size_t i = 0; i < n; ++i) {
        int b = (bb.BytesBegin()[i / 8] >> (7 - i % 8)) & 1;
        if (!tree[at].kid[b]) { tree[at].kid[b] = tree.size(); tree.push_back(none); }
        at = tree[at].kid[b];
      }
      tree[at].sym = s;
    }
  }
};

struct Decoder {
  const Code* code;
  size_t max_size, max_vals, size, vals;
  Numbers numbers, name_numbers;
  map<string, int> names;
  map<int, string> by_name;
  map<int, Entry*> table;
  list<Entry*> lru;
  map<int, set<Entry*> > groups;
  set<string> pinned;
  vector<uint8_t> data;
  size_t pos;  // in bits
  int frame;
  string error;
  vector<Field> out;
  size_t held_stale;  // entries that could be evicted after the frame

  explicit Decoder(const Code* c) : code(c), max_size(64 * 1024),
      max_vals(1024), size(0), vals(0), pos(0), frame(0), held_stale(0) {
    string s = kStatic, item;
    for (char ch : s) {
      if (ch != '|') { item += ch; continue; }
      size_t eq = item.find('=');
      Name(item.substr(0, eq));
      Entry* e = new Entry;
      e->number = numbers.Next();
      e->frame = 0;
      e->f = Field(item.substr(0, eq), item.substr(eq + 1));
      e->fixed = true;
      table[e->number] = e;
      size += e->f.second.size();
      ++vals;
      item = "";
    }
  }
  ~Decoder() { for (auto& t : table) delete t.second; }

  void Name(const string& k) {
    if (names.count(k)) return;
    names[k] = name_numbers.Next();
    by_name[names[k]] = k;
    size += k.size();
  }
  bool Pop() {
    if (lru.empty() || lru.front()->frame == frame) return false;
    Entry* e = lru.front();
    lru.pop_front();
    for (auto& g : groups) g.second.erase(e);
    table.erase(e->number);
    numbers.free.insert(e->number);
    size -= e->f.second.size();
    --vals;
    bool more = pinned.count(e->f.first);
    for (auto& t : table) if (t.second->f.first == e->f.first) more = true;
    if (!more) {
      size -= e->f.first.size();
      name_numbers.free.insert(names[e->f.first]);
      by_name.erase(names[e->f.first]);
      names.erase(e->f.first);
    }
    delete e;
    return true;
  }
  void MakeSpace(size_t bytes, size_t n) {
    while (vals + n > max_vals) if (!Pop()) return;
    while (size + bytes > max_size) if (!Pop()) return;
  }
  Entry* Store(const string& k, const string& v) {
    if (!names.count(k)) { MakeSpace(k.size(), 0); Name(k); }
    pinned.insert(k);
    MakeSpace(v.size(), 1);
    Entry* e = new Entry;
    e->number = numbers.Next();
    e->frame = frame;
    e->f = Field(k, v);
    e->fixed = false;
    table[e->number] = e;
    lru.push_back(e);
    size += v.size();
    ++vals;
    return e;
  }
  void Renew(Entry* e) {
    if (e->fixed) return;
    e->frame = frame;
    lru.remove(e);
    lru.push_back(e);
  }

  int Bit() {
    if (pos >= data.size() * 8) { error = "the frame is truncated"; return 0; }
    int b = (data[pos / 8] >> (7 - pos % 8)) & 1;
    ++pos;
    return b;
  }
  void Align() { pos = (pos + 7) / 8 * 8; }
  unsigned Byte() {
    Align();
    if (pos / 8 >= data.size()) { error = "the frame is truncated"; return 0; }
    pos += 8;
    return data[pos / 8 - 1];
  }
  unsigned Index() { unsigned a = Byte(); return a | Byte() << 8; }
  string Str() {
    string s;
    int at = 0;
    while (error.empty()) {
      at = code->tree[at].kid[Bit()];
      if (!at) { error = "not a code word"; break; }
      int sym = code->tree[at].sym;
      if (sym < 0) continue;
      if (sym == 256) break;
      s += (char)sym;
      at = 0;
    }
    return s;
  }
  void Switch(int n, set<int>* seen) {
    if (!table.count(n)) error = "entry " + std::to_string(n) + " does not exist";
    else if (!seen->insert(n).second) error = "entry " + std::to_string(n) + " is switched twice";
  }

  void Step(OutputStream* os, int gid, int stream, bool last) {
    data.assign(os->BytesBegin(), os->BytesEnd());
    pos = 0;
    ++frame;
    out.clear();
    pinned.clear();
    Byte(); Byte();  // length: see DESIGN.md
    if (Byte() != (last ? 1u : 0u)) error = "wrong flags";
    unsigned sid = Byte(); sid |= Byte() << 8; sid |= Byte() << 16; sid |= Byte() << 24;
    if ((int)(sid & 0x7fffffff) != stream || !(sid >> 31)) error = "wrong stream identifier";
    if (Byte() != 8) error = "wrong frame type";
    set<int> seen;
    vector<Field> later;
    while (error.empty() && (Align(), pos < data.size() * 8)) {
      unsigned op = Byte(), count = Byte();
      if (!count) error = "no operations";
      for (; count && error.empty(); --count) {
        if (op == 2) {
          Switch(Index(), &seen);
        } else if (op == 3) {
          unsigned a = Index(), b = Index();
          if (a >= b) error = "empty range";
          for (; a <= b && error.empty(); ++a) Switch(a, &seen);
        } else if (op == 0) {
          unsigned n = Index();
          if (!by_name.count(n)) { error = "name " + std::to_string(n) + " does not exist"; break; }
          later.push_back(Field(by_name[n], Str()));
          pinned.insert(by_name[n]);
          for (auto& t : table) if (t.second->f == later.back()) error = "a field of the table is spelled out";
        } else if (op == 1) {
          string k = Str();
          later.push_back(Field(k, Str()));
          if (names.count(k)) error = "a name of the table is spelled out";
        } else if (op == 4) {
          string k = Str();
          out.push_back(Field(k, Str()));
        } else {
          error = "opcode " + std::to_string(op);
        }
      }
    }
    if (!error.empty()) return;
    set<Entry*>& group = groups[gid];
    map<int, Entry*> kept, on;
    for (Entry* e : group) if (!seen.count(e->number)) kept[e->number] = e;
    for (int n : seen) {
      if (group.count(table[n])) group.erase(table[n]);
      else on[n] = table[n];
    }
    for (auto& e : kept) Renew(e.second);
    for (auto& e : on) { Renew(e.second); group.insert(e.second); }
    for (Entry* e : group) out.push_back(e->f);
    for (auto& f : later) {
      out.push_back(f);
      group.insert(Store(f.first, f.second));
    }
    pinned.clear();
    MakeSpace(0, 0);
    held_stale = 0;
    for (Entry* e : lru) if (e->frame != frame) ++held_stale;
  }
  size_t Hash() const {
    string s;
    for (Entry* e : lru) s += std::to_string(e->number) + e->f.first + "=" + e->f.second + ";";
    for (auto& g : groups) {
      set<int> n;
      for (Entry* e : g.second) n.insert(e->number);
      s += "|" + std::to_string(g.first);
      for (int x : n) s += "," + std::to_string(x);
    }
    return std::hash<string>()(s);
  }
};

// ------------------------------------------------------------ exploration

static vector<HeaderFrame> g_messages;
static void Msg(const char* s) {
  // name=value|name=value...; '*n' repeats the last letter
  HeaderFrame hf;
  string item;
  for (; *s; ++s) {
    if (*s != '|') { item += *s; continue; }
    size_t eq = item.find('='), star = item.find('*');
    string k = item.substr(0, eq), v = item.substr(eq + 1);
    if (star != string::npos) v = string(atoi(item.c_str() + star + 1), item[star - 1]);
    hf.push_back(KVPair(k, v));
    item = "";
  }
  g_messages.push_back(hf);
}
static void Messages() {
  Msg("");                                       // 0
  Msg("a=1|");
  Msg("b=1|");
  Msg("a=2|b=1|");
  Msg("a=1|a=2|c=3|");
  Msg(":method=get|:path=/|a=1|");               // 5
  Msg("cookie=k=1; j=2|:path=/x|");
  Msg("cookie=j=2; l=|accept=|accept-charset=|accept-encoding=|");
  Msg("x=v*30|a=1|");
  Msg("x=w*60|y=u*25|");
  Msg("set-cookie=p|set-cookie=q|accept=|:path=/|");  // 10
  Msg("c=3|d=4|e=5|f=6|");
  Msg("long-name-of-a-field=1|b=1|user-agent=|vary=|");
  Msg("a=1|b=1|a=1|");
  // many fields
  HeaderFrame hf;
  for (int i = 0; i < 260; ++i) hf.push_back(KVPair("m-" + std::to_string(i), std::to_string(i % 3)));
  g_messages.push_back(hf);                      // 14
  hf.erase(hf.begin() + 100, hf.begin() + 103);
  hf.erase(hf.begin() + 30);
  g_messages.push_back(hf);
  for (auto& kv : hf) kv.val += "v";
  g_messages.push_back(hf);                      // 16
}
static set<Field> Split(const HeaderFrame& hf) {
  set<Field> s;
  for (auto& kv : hf) {
    if (kv.key != "cookie") { s.insert(Field(kv.key, kv.val)); continue; }
    size_t at = 0;
    while (true) {
      size_t end = kv.val.find(';', at);
      s.insert(Field(kv.key, kv.val.substr(at, end == string::npos ? end : end - at)));
      if (end == string::npos) break;
      at = end + 1;
      while (at < kv.val.size() && kv.val[at] == ' ') ++at;
      if (at >= kv.val.size()) break;
    }
  }
  return s;
}

struct Config { int vals, size; };  // beyond the predefined entries; -1: default
static const Config kConfigs[] = {{-1, -1}, {0, -1}, {1, -1}, {2, -1}, {5, -1},
                                  {-1, 0}, {-1, 12}, {-1, 40}, {-1, 100},
                                  {3, 60}};
static const int kNumConfigs = sizeof(kConfigs) / sizeof(kConfigs[0]);
static const FreqTable& Table(int side) {
  return side ? FreqTables::response_freq_table : FreqTables::request_freq_table;
}
static const Code* g_code[2];

// A history is config, side, then (message, group) pairs.
static void Run(const vector<int>& h) {
  string c;
  for (int x : h) c += (c.empty() ? "" : ",") + std::to_string(x);
  Begin(c);
  if (!g_code[h[1]]) g_code[h[1]] = new Code(Table(h[1]));
  SPDY4HeadersCodec enc(Table(h[1]));
  Decoder dec(g_code[h[1]]);
  const Config& cfg = kConfigs[h[0]];
  if (enc.CurrentStateSize() != dec.size) { Bad(c, "wrong size at the start"); return; }
  if (cfg.vals >= 0) { dec.max_vals = dec.vals + cfg.vals; enc.SetMaxVals(dec.max_vals); }
  if (cfg.size >= 0) { dec.max_size = dec.size + cfg.size; enc.SetMaxStateSize(dec.max_size); }
  for (size_t i = 2; i + 1 < h.size(); i += 2) {
    ++g_steps;
    // (a copy: the encoder must not keep pointers into it)
    HeaderFrame* hf = new HeaderFrame(g_messages[h[i]]);
    set<Field> want = Split(*hf);
    int stream = i == 2 ? 1 : i == 4 ? 0x8001 : 0x7fffffff;
    bool last = i % 4 == 2;
    OutputStream os;
    enc.ProcessFrame(&os, stream, h[i + 1], *hf, last);
    delete hf;
    dec.Step(&os, h[i + 1], stream, last);
    string at = "frame " + std::to_string(i / 2 - 1) + ": ";
    if (!dec.error.empty()) { Bad(c, at + dec.error); return; }
    set<Field> got(dec.out.begin(), dec.out.end());
    if (got != want) {
      string what = at + "decoded as";
      for (auto& f : got) if (!want.count(f)) what += " +" + f.first + "=" + f.second.substr(0, 20);
      for (auto& f : want) if (!got.count(f)) what += " -" + f.first + "=" + f.second.substr(0, 20);
      Bad(c, what.substr(0, 300));
      return;
    }
    if (enc.CurrentStateSize() != dec.size) {
      Bad(c, at + "state of " + std::to_string(enc.CurrentStateSize()) + " octets, the receiver's has " + std::to_string(dec.size));
      return;
    }
    if ((dec.size > dec.max_size || dec.vals > dec.max_vals) && dec.held_stale) {
      Bad(c, at + "the limits are exceeded");
      return;
    }
    g_states.insert(dec.Hash() + h[0]);
  }
}

static long g_count;
static int g_shard, g_nshards;
static void All(vector<int>* h, int depth, int nmsg, int ngroups, bool spread) {
  // only the longest: the others are their prefixes
  if (!depth) {
    if (g_count++ % g_nshards == g_shard) Run(*h);
    return;
  }
  for (int m = 0; m < nmsg; ++m)
    for (int g = 1; g <= ngroups; ++g) {
      h->push_back(m);
      h->push_back(g);
      All(h, depth - 1, nmsg, ngroups, spread);
      h->resize(h->size() - 2);
    }
}

int main(int argc, char** argv) {
  Messages();
  if (!strcmp(argv[1], "replay")) {
    g_replay = true;
    vector<int> h;
    for (char* p = strtok(argv[2], ","); p; p = strtok(0, ",")) h.push_back(atoi(p));
    Run(h);
    return 0;
  }
  bool deep = !strcmp(argv[1], "thorough");
  g_shard = atoi(argv[2]);
  g_nshards = atoi(argv[3]);
  g_log = fopen(argv[4], "w");
  for (int cfg = 0; cfg < kNumConfigs; ++cfg)
    for (int side = 0; side < 2; ++side) {
      vector<int> h(1, cfg);
      h.push_back(side);
      All(&h, side ? 2 : 2 + deep, g_messages.size(), 2, false);
      if (!side) {
        All(&h, 3 + deep, 14, 1, false);
        if (deep) All(&h, 3, 14, 2, false);
      }
    }
  // long sessions: every window of three messages, the tables stay full
  for (int cfg = 0; cfg < kNumConfigs; ++cfg)
    for (int groups = 1; groups <= 2; ++groups)
      for (int first = 0; first < 13; ++first) {
        vector<int> h(1, cfg);
        h.push_back(0);
        for (int a = 0; a < 13; ++a)
          for (int b = 0; b < 13; ++b) {
            h.push_back(first); h.push_back(1);
            h.push_back(a); h.push_back(1 + (a + b) % groups);
            h.push_back(b); h.push_back(1 + a % groups);
          }
        if (g_count++ % g_nshards == g_shard) Run(h);
      }
  printf("DONE traces=%ld steps=%ld states=%zu\n", g_traces, g_steps, g_states.size());
  return 0;
}
