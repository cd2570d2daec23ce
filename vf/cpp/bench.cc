// The benchmark program's parts, one request per line (see harness.cc).
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <zlib.h>

#include <cassert>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace vf {
// The clock as the request says: each reading takes the next of the given
// times; the last one stays.
std::vector<std::pair<long, long>> times;
size_t next_time = 0;
// Or it moves on by this much with each reading.
long long step = 0;
int Clock(clockid_t id, timespec* ts) {
  if (step) {
    long long t = 3000000000LL + step * (long long)next_time++;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
  }
  if (times.empty()) return clock_gettime(id, ts);
  size_t i = next_time < times.size() ? next_time++ : times.size() - 1;
  ts->tv_sec = times[i].first;
  ts->tv_nsec = times[i].second;
  return 0;
}
}  // namespace vf

// Linked with --wrap=main: the driver runs first, and the program's own main
// (which needs that name to end without a return) is __real_main.
extern "C" int __real_main(int, char**);

// Linked with --wrap=read: reads are interrupted (0) or cut short as the
// request says, over and over.
namespace vf {
std::vector<long long> cuts;
size_t next_cut = 0;
}
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __wrap_read(int fd, void* buf, size_t n) {
  if (vf::cuts.empty() || fd == 0) return __real_read(fd, buf, n);
  size_t k = vf::cuts[vf::next_cut++ % vf::cuts.size()];
  if (k == 0) {
    errno = EINTR;
    return -1;
  }
  return __real_read(fd, buf, k < n ? k : n);
}

#define clock_gettime vf::Clock
#include SAMPLE
#undef clock_gettime

namespace vf {

typedef std::istringstream In;

std::string Tok(In& in) {
  std::string t;
  in >> t;
  return t;
}
long long Num(In& in) { return std::strtoll(Tok(in).c_str(), 0, 10); }
std::string Hex(In& in) {
  std::string t = Tok(in), r;
  for (size_t i = 1; i + 1 < t.size(); i += 2)
    r.push_back((char)std::strtol(t.substr(i, 2).c_str(), 0, 16));
  return r;
}
template <typename T>
std::string ToHex(const T& s) {
  std::string r = "\"";
  char b[3];
  for (auto i = s.begin(); i != s.end(); ++i) {
    std::snprintf(b, 3, "%02x", (unsigned)(unsigned char)*i);
    r += b;
  }
  return r + "\"";
}
std::vector<HeaderFrame> Frames(In& in) {
  std::vector<HeaderFrame> r(Num(in));
  for (auto f = r.begin(); f != r.end(); ++f) {
    long long n = Num(in);
    for (long long i = 0; i < n; ++i) {
      std::string k = Hex(in);
      f->push_back(KVPair(k, Hex(in)));
    }
  }
  return r;
}
std::string Show(const std::vector<HeaderFrame>& fs) {
  std::string r = "[";
  for (size_t i = 0; i < fs.size(); ++i) {
    r += i ? ",[" : "[";
    for (size_t j = 0; j < fs[i].size(); ++j)
      r += (j ? ",[" : "[") + ToHex(fs[i][j].key) + "," + ToHex(fs[i][j].val) + "]";
    r += "]";
  }
  return r + "]";
}

struct Silenced {
  std::ostringstream out;
  std::streambuf* old;
  std::ios::fmtflags flags;
  std::streamsize prec;
  Silenced() : old(std::cout.rdbuf(out.rdbuf())), flags(std::cout.flags()), prec(std::cout.precision()) {}
  ~Silenced() {
    std::cout.rdbuf(old);
    std::cout.flags(flags);
    std::cout.precision(prec);
  }
};

// spdy3 <all in one buffer?> frames
std::string Spdy3(In& in) {
  bool together = Num(in);
  std::vector<HeaderFrame> fs = Frames(in);
  SPDY3Formatter f;
  std::vector<char> out;
  std::string r = "[";
  for (size_t i = 0; i < fs.size(); ++i) {
    size_t before = out.size();
    f.FormatHeaders(&out, fs[i]);
    r += (i ? "," : "") + ToHex(std::vector<char>(out.begin() + before, out.end()));
    if (!together) out.clear();
  }
  return r + "]";
}

// bench <3|4> <step of the clock in ns> frames
std::string Bench(In& in) {
  long long which = Num(in);
  step = Num(in);
  std::vector<HeaderFrame> fs = Frames(in);
  next_time = 0;
  Stats s;
  {
    Silenced quiet;
    s = which == 3 ? DoSPDY3CoDec(10, fs) : DoSPDY4CoDec(10, fs);
  }
  step = 0;
  // The same frames given to the codecs directly.
  size_t want = 0;
  if (which == 3) {
    SPDY3Formatter f;
    for (size_t i = 0; i < s.iterations; ++i)
      for (size_t j = 0; j < fs.size(); ++j) {
        std::vector<char> out;
        f.FormatHeaders(&out, fs[j]);
        want += out.size();
      }
  } else {
    SPDY4HeadersCodec c(FreqTables::request_freq_table);
    c.SetMaxStateSize(131072);
    c.SetMaxVals(131072 / 88);
    for (size_t i = 0; i < s.iterations; ++i)
      for (size_t j = 0; j < fs.size(); ++j) {
        OutputStream os;
        c.ProcessFrame(&os, 1, 1, fs[j], true);
        want += os.BytesRequired();
      }
  }
  std::ostringstream r;
  r << std::setprecision(17) << "[" << s.iterations << "," << s.compressed_size << "," << want << "," << s.elapsed_time << "]";
  return r.str();
}

// timer <n> (<sec> <nsec>)*: start, readings, stop, and a time after that
std::string Timer(In& in) {
  long long n = Num(in);
  times.clear();
  next_time = 0;
  for (long long i = 0; i < n; ++i) {
    long a = Num(in);
    times.push_back(std::make_pair(a, (long)Num(in)));
  }
  SimpleTimer t;
  std::ostringstream r;
  r << std::setprecision(17) << "[";
  t.Start();
  for (long long i = 1; i + 2 < n; ++i) r << t.ElapsedTime() << ",";
  t.Stop();
  r << t.ElapsedTime() << "," << t.ElapsedTime() << "]";
  times.clear();
  return r.str();
}

// summary <name> <compressed> <seconds> <iterations> <uncompressed> <count> <twice?>
std::string Summary(In& in) {
  std::string name = Hex(in);
  size_t cs = Num(in);
  double et = std::strtod(Tok(in).c_str(), 0);
  size_t it = Num(in), un = Num(in), count = Num(in);
  bool twice = Num(in);
  Silenced quiet;
  if (twice) PrintSummary("before", Stats(1, 1, 1), 1, 1);
  quiet.out.str("");
  PrintSummary(name, Stats(cs, et, it), un, count);
  return ToHex(quiet.out.str());
}

// har <c> <cut>* <dir> <n> <file>*   in the directory that holds harfile_translator.py
// report <step of the clock in ns> <c> <cut>* <dir> <n> <file>*   the whole program, its clock as in "bench"
std::string Har(In& in, bool whole) {
  long long tick = whole ? Num(in) : 0;
  long long c = Num(in);
  for (long long i = 0; i < c; ++i) cuts.push_back(Num(in));
  std::string dir = Hex(in);
  long long n = Num(in);
  std::vector<std::string> names;
  for (long long i = 0; i < n; ++i) names.push_back(Hex(in));
  if (chdir(dir.c_str())) _exit(3);
  std::vector<char*> argv;
  if (whole) argv.push_back(const_cast<char*>("spdy4_headers_sample"));
  for (size_t i = 0; i < names.size(); ++i) argv.push_back(&names[i][0]);
  std::vector<HeaderFrame> req, resp;
  std::ostringstream err;
  std::cerr.rdbuf(err.rdbuf());
  if (whole) {
    std::string shown;
    step = tick;
    next_time = 0;
    {
      Silenced quiet;
      __real_main(argv.size(), &argv[0]);
      shown = quiet.out.str();
    }
    return ToHex(shown);
  }
  int r = ParseHarFiles(names.size(), argv.empty() ? 0 : &argv[0], &req, &resp);
  return "{\"r\":" + std::to_string(r) + ",\"req\":" + Show(req) + ",\"resp\":" + Show(resp) + "}";
}

}  // namespace vf

extern "C" int __wrap_main(int, char**) {
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    // In a child of its own: the program keeps what it allocates to its end.
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      vf::In in(line);
      std::string what = vf::Tok(in), r = "{\"harness\":\"unknown request\"}";
      if (what == "spdy3") r = vf::Spdy3(in);
      else if (what == "bench") r = vf::Bench(in);
      else if (what == "timer") r = vf::Timer(in);
      else if (what == "summary") r = vf::Summary(in);
      else if (what == "har") r = vf::Har(in, false);
      else if (what == "report") r = vf::Har(in, true);
      std::cout << r << "\n" << std::flush;
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (pid < 0 || status) std::cout << "{\"died\":" << status << "}\n" << std::flush;
  }
  return 0;
}
