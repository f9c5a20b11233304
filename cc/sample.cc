// Exhaustive exploration of the C++ benchmark (spdy4_headers_sample.cc): its
// reader of captures and its SPDY/3 frames.
// usage: sample TIER SHARD NSHARDS LOG | sample replay CASE
#define main sample_main
#include "spdy4_headers_sample.cc"
#undef main
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
#include <set>
#include <sstream>

static FILE* g_log;
static long g_traces, g_steps, g_bad;
static std::set<size_t> g_states;
static bool g_replay;
static int g_shard, g_nshards;
static long g_count;
static string g_case;

static void Bad(string what) {
  for (char& c : what) if (c < 32 || c > 126) c = '~';
  what = what.substr(0, 600);
  if (g_replay) { printf("BAD %s\n", what.c_str()); fflush(stdout); _exit(1); }
  printf("BAD %s | %s\n", g_case.c_str(), what.c_str());
  fflush(stdout);
  if (++g_bad >= 3) _exit(0);
}
static void Begin(const string& c) {
  g_case = c;
  ++g_traces;
  if (g_log) { rewind(g_log); fprintf(g_log, "%-300s\n", c.c_str()); fflush(g_log); }
}
static string Str(const vector<int>& v) {
  string s;
  for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
  return s;
}
static bool Mine() { return g_replay || g_count++ % g_nshards == g_shard; }

// ---------------------------------------------------------------- captures

struct Line { string text; const char* key; string val; };
static vector<Line> Lines_() {
  vector<Line> l;
  Line a[] = {{"a: 1", "a", "1"}, {":path: /: x", ":path", "/: x"},
              {"b: ", "b", ""}, {"c:  : ", "c", " : "},
              {string("d: 1\0002\r", 7), "d", string("1\0002\r", 4)}};
  l.assign(a, a + 5);
  return l;
}
static const char* kWrong[] = {"a", "a:1", "a:", ":a", ":", " ", ": x"};
static const int kNumWrong = sizeof kWrong / sizeof *kWrong;

typedef vector<vector<int> > Frames;  // line numbers; 100 + n: wrong line n

static string Text(const Frames& f, bool last) {
  static vector<Line> lines = Lines_();
  string s;
  for (size_t i = 0; i < f.size(); ++i) {
    for (int n : f[i]) s += (n < 100 ? lines[n].text : kWrong[n - 100]) + "\n";
    if (i + 1 < f.size() || last) s += "\n";
  }
  return s;
}
static string Show(const vector<HeaderFrame>& v) {
  string s;
  for (auto& f : v) {
    s += "[";
    for (auto& kv : f) s += kv.key + "=" + kv.val + ";";
    s += "]";
  }
  return s;
}
static void Expect(const Frames& f, vector<HeaderFrame>* req,
                   vector<HeaderFrame>* res) {
  static vector<Line> lines = Lines_();
  for (size_t i = 0; i < f.size(); ++i) {
    HeaderFrame h;
    for (int n : f[i]) h.push_back(KVPair(lines[n].key, lines[n].val));
    (i % 2 ? res : req)->push_back(h);
  }
}
static void Compare(const Frames& f, int rv, const vector<HeaderFrame>& req,
                    const vector<HeaderFrame>& res, const char* who) {
  bool wrong = false;
  for (auto& x : f) for (int n : x) wrong |= n >= 100;
  if (wrong) {
    if (rv != 0) Bad(string(who) + " accepts a line without ': '");
    return;
  }
  vector<HeaderFrame> a, b;
  Expect(f, &a, &b);
  if (rv != 1) Bad(string(who) + " rejects a well-formed text");
  else if (Show(a) != Show(req) || Show(b) != Show(res))
    Bad(string(who) + " reads requests " + Show(req) + " responses " +
        Show(res) + " instead of " + Show(a) + " " + Show(b));
  g_states.insert(std::hash<string>()(Show(req) + Show(res)));
}
static string CaseOf(const char* kind, const Frames& f, int x) {
  string s = string(kind) + " " + std::to_string(x);
  for (auto& v : f) s += " " + Str(v);
  return s;
}
static void Parse(const Frames& f, bool last) {
  Begin(CaseOf("parse", f, last));
  vector<HeaderFrame> req, res;
  std::istringstream in(Text(f, last));
  int rv = TrivialHTTPParse::ParseStream(in, &req, &res);
  Compare(f, rv, req, res, "ParseStream");
  g_steps += f.size();
}
static void AllFrames(int nlines, int top, int nframes, Frames* f) {
  if ((int)f->size() == nframes) {
    if (nframes % 2 == 0 && Mine()) { Parse(*f, false); Parse(*f, true); }
    return;
  }
  f->push_back(vector<int>());
  struct Rec {
    static void Go(int nlines, int top, int nframes, Frames* f) {
      if (!f->back().empty()) AllFrames(nlines, top, nframes, f);
      if ((int)f->back().size() == top) return;
      for (int n = 0; n < nlines; ++n) {
        f->back().push_back(n);
        Go(nlines, top, nframes, f);
        f->back().pop_back();
      }
    }
  };
  Rec::Go(nlines, top, nframes, f);
  f->pop_back();
}
// the text as the translator's output, or a file
static const char* kTranslator =
    "#!/bin/sh\nfor f in \"$@\"; do cat \"$f\"; done\n";
// one exchange whose second value is as long as is given and has a NUL
static void PipeCase(int len, int nul, int split) {
  Begin("pipe " + std::to_string(len) + " " + std::to_string(nul) + " " +
        std::to_string(split));
  string v(len, 'v');
  for (int i = 0; i < len; ++i) v[i] = 'a' + i % 23;
  if (nul < len) v[nul] = 0;
  string text = "a: 1\nb: " + v + "\n\nc: 2\n\nd: " + v + "x\n\ne: 3\n\n";
  std::ofstream("capture.txt", std::ios::binary) << text.substr(0, split);
  std::ofstream("capture2.txt", std::ios::binary)
      << (split < (int)text.size() ? text.substr(split) : "");
  vector<HeaderFrame> req, res;
  char a[] = "capture.txt", b[] = "capture2.txt";
  char* files[] = {a, b};
  int before = dup(0);
  close(before);
  int rv = ParseHarFiles(2, files, &req, &res);
  while (waitpid(-1, 0, WNOHANG) > 0) {}
  int after = dup(0);  // descriptors that were left open
  close(after);
  for (int fd = before; fd < after; ++fd) close(fd);
  string want = "[a=1;b=" + v + ";][d=" + v + "x;]", want2 = "[c=2;][e=3;]";
  if (rv != 1) Bad("ParseHarFiles fails on a well-formed text");
  else if (Show(req) != want || Show(res) != want2)
    Bad("ParseHarFiles reads other headers than the translator wrote (" +
        std::to_string(Show(req).size()) + " octets of requests instead of " +
        std::to_string(want.size()) + ")");
  g_steps += 4;
  g_states.insert(std::hash<string>()(Show(req)));
}
// lists that already hold something are refused
static void FullCase(int which) {
  Begin("full " + std::to_string(which));
  vector<HeaderFrame> v[2];
  v[which].push_back(HeaderFrame());
  std::istringstream in("a: 1\n\nb: 2\n\n");
  if (TrivialHTTPParse::ParseStream(in, &v[0], &v[1]) != -1)
    Bad("ParseStream adds to a list that is not empty");
}
static void FileCase(const Frames& f, bool last) {
  Begin(CaseOf("file", f, last));
  std::ofstream("capture.txt", std::ios::binary) << Text(f, last);
  vector<HeaderFrame> req, res;
  int rv = TrivialHTTPParse::ParseFile("capture.txt", &req, &res);
  Compare(f, rv, req, res, "ParseFile");
  g_steps += f.size();
}

// ------------------------------------------------------------- SPDY/3 frames

static vector<HeaderFrame> Messages() {
  vector<HeaderFrame> m(9);
  m[0].push_back(KVPair(":host", "example.com"));
  m[0].push_back(KVPair(":method", "GET"));
  m[1].push_back(KVPair("a", "1"));
  m[2].push_back(KVPair("a", "1"));
  m[2].push_back(KVPair("a", string("1\0002", 3)));
  m[2].push_back(KVPair("b", ""));
  // m[3] is empty
  unsigned x = 1;
  string noise, noise2;
  for (int i = 0; i < 70000; ++i) {
    x = x * 1103515245 + 12345;
    (i < 300 ? noise : noise2) += (char)(x >> 16);
  }
  m[4].push_back(KVPair("n", noise));
  m[5].push_back(KVPair("z", string(70000, 'z')));
  m[6].push_back(KVPair(string(300, 'k'), "v"));
  m[7].push_back(KVPair("n", noise2));
  for (int i = 0; i < 260; ++i)
    m[8].push_back(KVPair("f" + std::to_string(i), std::to_string(i * i)));
  return m;
}
static uint32_t Num(const string& s, size_t at, int n) {
  uint32_t v = 0;
  for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)s[at + i];
  return v;
}
static void Spdy3(const vector<int>& h) {
  Begin("spdy3 " + Str(h));
  static vector<HeaderFrame> msgs = Messages();
  SPDY3Formatter formatter;
  z_stream z;
  memset(&z, 0, sizeof z);
  inflateInit(&z);
  vector<char> out;
  static vector<char> block(1 << 18);
  for (size_t i = 0; i < h.size(); ++i) {
    const HeaderFrame& m = msgs[h[i]];
    size_t start = out.size();
    formatter.FormatHeaders(&out, m);
    string f(out.begin() + start, out.end());
    if (i % 2) out.clear();  // frames one after another, or alone
    string at = "frame " + std::to_string(i) + ": ";
    if (f.size() < 12 || Num(f, 0, 4) != 0x80030008 || f[4] != 0) {
      Bad(at + "not a SPDY/3 HEADERS frame"); break; }
    if (Num(f, 5, 3) != f.size() - 8) {
      Bad(at + "the length is " + std::to_string(Num(f, 5, 3)) + ", but " +
          std::to_string(f.size() - 8) + " octets follow"); break; }
    if (Num(f, 8, 4) != 1) { Bad(at + "stream identifier"); break; }
    z.next_in = (Bytef*)f.data() + 12;
    z.avail_in = f.size() - 12;
    z.next_out = (Bytef*)&block[0];
    z.avail_out = block.size();
    int rv = inflate(&z, Z_SYNC_FLUSH);
    if (rv == Z_NEED_DICT) {
      if (inflateSetDictionary(&z, (const Bytef*)SPDY_dictionary_txt,
                               sizeof SPDY_dictionary_txt) != Z_OK) {
        Bad(at + "another dictionary"); break; }
      rv = inflate(&z, Z_SYNC_FLUSH);
    }
    string b(block.begin(), block.end() - z.avail_out);
    string want(4, 0);
    want[2] = m.size() >> 8; want[3] = m.size();
    for (auto& kv : m) {
      const string* two[] = {&kv.key, &kv.val};
      for (auto s : two) {
        size_t n = s->size();
        char l[] = {(char)(n >> 24), (char)(n >> 16), (char)(n >> 8), (char)n};
        want += string(l, 4) + *s;
      }
    }
    if ((rv != Z_OK && rv != Z_BUF_ERROR) || z.avail_in || b != want) {
      Bad(at + "the block does not inflate to the headers (" +
          std::to_string(b.size()) + " octets instead of " +
          std::to_string(want.size()) + ")"); break; }
    ++g_steps;
    g_states.insert(std::hash<string>()(f));
  }
  inflateEnd(&z);
}
static void AllHistories(int depth, int n, vector<int>* h) {
  if ((int)h->size() == depth) { if (Mine()) Spdy3(*h); return; }
  for (int i = 0; i < n; ++i) {
    h->push_back(i);
    AllHistories(depth, n, h);
    h->pop_back();
  }
}

static vector<int> Ints(const string& s) {
  vector<int> v;
  std::istringstream in(s);
  string x;
  while (std::getline(in, x, ',')) v.push_back(atoi(x.c_str()));
  return v;
}

int main(int argc, char** argv) {
  bool replay = !strcmp(argv[1], "replay");
  char dir[] = "sampleXXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) return 3;
  std::ofstream("harfile_translator.py") << kTranslator;
  chmod("harfile_translator.py", 0755);
  // the parser reports malformed lines on stderr
  std::ostringstream quiet;
  std::cerr.rdbuf(quiet.rdbuf());
  if (replay) {
    g_replay = true;
    std::istringstream in(argv[2]);
    string kind, x, y, w;
    in >> kind >> x;
    if (kind == "spdy3") Spdy3(Ints(x));
    else if (kind == "pipe") { in >> y >> w; PipeCase(atoi(x.c_str()), atoi(y.c_str()), atoi(w.c_str())); }
    else if (kind == "full") FullCase(atoi(x.c_str()));
    else {
      Frames f;
      while (in >> y) f.push_back(Ints(y));
      if (kind == "parse") Parse(f, x == "1"); else FileCase(f, x == "1");
    }
    return 0;
  }
  bool deep = !strcmp(argv[1], "thorough");
  g_shard = atoi(argv[2]);
  g_nshards = atoi(argv[3]);
  g_log = fopen(argv[4], "w");
  Frames f;
  AllFrames(5, 2, 2, &f);
  AllFrames(deep ? 5 : 4, 2, 4, &f);
  AllFrames(deep ? 3 : 2, 1, 8, &f);
  AllFrames(2, 4, 2, &f);
  // a wrong line in every place
  for (int w = 0; w < kNumWrong; ++w)
    for (int exchanges = 1; exchanges <= 3; ++exchanges)
      for (int at = 0; at < 4 * exchanges; ++at) {
        Frames g(2 * exchanges, vector<int>(2));
        for (size_t i = 0; i < g.size(); ++i) { g[i][0] = i % 3; g[i][1] = i % 4; }
        g[at / 2][at % 2] = 100 + w;
        for (int last = 0; last < 2; ++last) {
          if (Mine()) Parse(g, last);
          if (Mine()) FileCase(g, last);
        }
      }
  for (int n = 1; n <= 4; ++n)
    for (int last = 0; last < 2; ++last) {
      Frames g(2 * n, vector<int>(1, n));
      if (Mine()) FileCase(g, last);
    }
  for (int which = 0; which < 2; ++which) if (Mine()) FullCase(which);
  // every position of a NUL, and of the end of the first file
  for (int len = 0; len < (deep ? 1100 : 530); len += deep ? 7 : 13)
    for (int nul = 0; nul <= len; nul += deep ? 31 : 53)
      if (Mine()) PipeCase(len, nul, (len * 7 + nul) % (2 * len + 30));
  for (int split = 0; split < 560; split += deep ? 1 : 7)
    if (Mine()) PipeCase(270, 100, split);
  vector<int> h;
  for (int d = 1; d <= (deep ? 5 : 4); ++d) AllHistories(d, 7, &h);
  AllHistories(2, 9, &h);
  if (deep) AllHistories(3, 9, &h);
  if (chdir("..") == 0) {
    remove((string(dir) + "/capture.txt").c_str());
    remove((string(dir) + "/capture2.txt").c_str());
    remove((string(dir) + "/harfile_translator.py").c_str());
    rmdir(dir);
  }
  printf("DONE traces=%ld steps=%ld states=%zu\n", g_traces, g_steps, g_states.size());
  return 0;
}
