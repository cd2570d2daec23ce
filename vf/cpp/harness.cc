// One request per line, tokens separated by blanks; one JSON value per line back.
// Only the public interfaces of the code under test are used.
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "bit_bucket.h"
#include "header_freq_tables.h"
#include "huffman.h"
#include "spdy4_headers_codec.h"
#include "trivial_http_parse.h"
#include "utils.h"

namespace vf {

typedef std::istringstream In;

std::string Tok(In& in) {
  std::string t;
  in >> t;
  return t;
}
long long Num(In& in) { return std::strtoll(Tok(in).c_str(), 0, 10); }

// hex strings begin with 'x' so that the empty one is a token
std::string Hex(In& in) {
  std::string t = Tok(in), r;
  for (size_t i = 1; i + 1 < t.size(); i += 2)
    r.push_back((char)std::strtol(t.substr(i, 2).c_str(), 0, 16));
  return r;
}
template <typename T>
std::string ToHex(const T& s) {
  std::string r = "\"";
  char b[3];
  for (auto i = s.begin(); i != s.end(); ++i) {
    std::snprintf(b, 3, "%02x", (unsigned)(unsigned char)*i);
    r += b;
  }
  return r + "\"";
}
std::string Bits(BitBucket* bb) {
  std::string r(bb->BytesBegin(), bb->BytesEnd());
  return ToHex(r);
}

// Runs f in a child; how the child ended.
template <typename F>
int InChild(F f) {
  std::fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(2);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
}

std::string Bucket(In& in) {
  BitBucket bb;
  std::ostringstream out;
  out << "[";
  bool first = true;
  std::string op;
  while (in >> op) {
    if (!first) out << ",";
    first = false;
    std::string r = "null";
    if (op == "b") bb.StoreBit(Num(in));
    else if (op == "8") bb.StoreBits8(Num(in));
    else if (op == "16") bb.StoreBits16(Num(in));
    else if (op == "32") bb.StoreBits32(Num(in));
    else if (op == "s") { std::string s = Hex(in); size_t n = Num(in); bb.StoreBits(std::vector<char>(s.begin(), s.end()), n); }
    else if (op == "i") { std::string s = Hex(in); size_t n = Num(in); bb.StoreBits(s.begin(), s.end(), n); }
    else if (op == "y") { std::string s = Hex(in); bb.StoreBytes(s.begin(), s.end()); }
    else if (op == "a") { std::string s = Hex(in); bb.StoreByteAligned(std::vector<char>(s.begin(), s.end())); }
    else if (op == "ai") { std::string s = Hex(in); bb.StoreByteAligned(s.begin(), s.end()); }
    else if (op == "a8") bb.StoreByteAlignedUint8(Num(in));
    else if (op == "a16") bb.StoreByteAlignedUint16(Num(in));
    else if (op == "a32") bb.StoreByteAlignedUint32(Num(in));
    else if (op == "r8") r = std::to_string((unsigned long)bb.GetByteAlignedUint8(Num(in)));
    else if (op == "r16") r = std::to_string((unsigned long)bb.GetByteAlignedUint16(Num(in)));
    else if (op == "r32") r = std::to_string((unsigned long)bb.GetByteAlignedUint32(Num(in)));
    else if (op == "g") { std::vector<char> v; bb.GetBits(&v, Num(in)); r = ToHex(v); }
    else if (op == "G") r = bb.GetBit() ? "1" : "0";
    else if (op == "p") { uint32_t w = Num(in); size_t n = Num(in); bb.ShiftBitsIntoWord(&w, n); r = std::to_string((unsigned long)w); }
    else if (op == "k") bb.Seek(Num(in));
    else if (op == "d") bb.SeekDelta(Num(in));
    else if (op == "c") bb.ConsumeBits(Num(in));
    else if (op == "C") bb.Clear();
    else if (op == "o") {
      size_t n = Num(in);
      r = std::to_string(InChild([&]() { std::vector<char> v; bb.GetBits(&v, n); }));
    }
    else if (op == "z") r = "\"" + bb.AsString() + "\"";
    else if (op == "?") {
      std::ostringstream s;
      s << "[" << bb.NumBits() << "," << bb.BitsConsumed() << "," << bb.BitsRemaining() << ","
        << (bb.AllConsumed() ? 1 : 0) << "," << bb.BytesRequired() << "," << Bits(&bb) << "]";
      r = s.str();
    }
    else return "{\"harness\":\"bad op\"}";
    out << r;
  }
  out << "]";
  return out.str();
}

// Frequency tables are remembered by the client's name for them.
void ReadTable(In& in, FreqTable* t) {
  std::string kind = Tok(in);
  if (kind == "request") *t = FreqTables::request_freq_table;
  else if (kind == "response") *t = FreqTables::response_freq_table;
  else
    for (size_t i = 0; i < t->size(); ++i) {
      (*t)[i].first = i;
      (*t)[i].second = Num(in);
    }
}

std::string HuffmanOps(In& in) {
  std::unique_ptr<FreqTable> t(new FreqTable);
  Huffman huff;
  int inits = Num(in);        // tables given one after the other to one coder
  for (int i = 0; i < inits; ++i) {
    ReadTable(in, t.get());
    huff.Init(*t);
  }
  std::ostringstream out;
  out << "{\"freqs\":[";
  for (size_t i = 0; i < t->size(); ++i) out << (i ? "," : "") << (*t)[i].second;
  out << "],\"words\":[";
  for (int c = 0; c < 257; ++c) {
    BitBucket bb;
    huff.Encode(&bb, c < 256 ? std::string(1, (char)c) : std::string(), c == 256);
    out << (c ? "," : "") << "[" << Bits(&bb) << "," << bb.NumBits() << "]";
  }
  out << "],\"texts\":[";
  std::string op;
  bool first = true;
  while (in >> op) {
    if (!first) out << ",";
    first = false;
    if (op == "t") {          // lead bits, text, with eof, limit, tail
      std::string lead = Tok(in);
      std::string text = Hex(in);
      bool eof = Num(in);
      bool limit = Num(in);
      std::string tail = Tok(in);
      BitBucket bb;
      for (size_t i = 1; i < lead.size(); ++i) bb.StoreBit(lead[i] == '1');
      huff.Encode(&bb, text, eof);
      size_t n = bb.NumBits() - (lead.size() - 1);
      for (size_t i = 1; i < tail.size(); ++i) bb.StoreBit(tail[i] == '1');
      out << "{\"n\":" << n << ",\"all\":" << Bits(&bb) << ",\"bits\":" << bb.NumBits();
      bb.Seek(lead.size() - 1);
      std::string dec;
      huff.Decode(&dec, &bb, eof, limit ? (int)n : 0);
      out << ",\"dec\":" << ToHex(dec) << "}";
    } else if (op == "j") {   // anything at all, limited by bits
      std::string junk = Hex(in);
      int n = Num(in);
      bool eof = Num(in);
      BitBucket bb;
      bb.StoreBytes(junk.begin(), junk.end());
      std::string dec;
      huff.Decode(&dec, &bb, eof, n);
      out << "{\"dec\":" << ToHex(dec) << "}";
    } else {
      return "{\"harness\":\"bad op\"}";
    }
  }
  out << "]}";
  return out.str();
}

std::string Parse(In& in, bool file) {
  std::string text = Hex(in);
  std::istringstream s(text);
  std::vector<HeaderFrame> req, resp;
  std::streambuf* err = std::cerr.rdbuf(0);
  int r;
  if (file) {               // in the scratch directory the driver runs in
    std::ostringstream name;
    name << "parse-" << getpid() << ".txt";
    { std::ofstream f(name.str().c_str(), std::ios::binary); f << text; }
    r = TrivialHTTPParse::ParseFile(name.str(), &req, &resp);
    unlink(name.str().c_str());
  } else {
    r = TrivialHTTPParse::ParseStream(s, &req, &resp);
  }
  std::cerr.rdbuf(err);
  std::cerr.clear();
  std::ostringstream out;
  out << "{\"r\":" << r;
  for (int w = 0; w < 2; ++w) {
    const std::vector<HeaderFrame>& fs = w ? resp : req;
    out << (w ? ",\"resp\":[" : ",\"req\":[");
    for (size_t i = 0; i < fs.size(); ++i) {
      out << (i ? ",[" : "[");
      for (size_t j = 0; j < fs[i].size(); ++j)
        out << (j ? ",[" : "[") << ToHex(fs[i][j].key) << "," << ToHex(fs[i][j].val) << "]";
      out << "]";
    }
    out << "]";
  }
  out << "}";
  return out.str();
}

std::string Codec(In& in) {
  bool response = Tok(in) == "response";
  SPDY4HeadersCodec codec(response ? FreqTables::response_freq_table : FreqTables::request_freq_table);
  std::ostringstream out;
  out << "{\"base\":" << codec.CurrentStateSize() << ",\"frames\":[";
  std::string op;
  bool first = true;
  while (in >> op) {
    if (op == "S") codec.SetMaxStateSize(Num(in));
    else if (op == "V") codec.SetMaxVals(Num(in));
    else if (op == "F") {     // group, stream, ends, n, then n pairs
      unsigned group = Num(in), stream = Num(in);
      bool ends = Num(in);
      int n = Num(in);
      // exactly as large as needed, so that every step outside shows
      HeaderFrame hf;
      for (int i = 0; i < n; ++i) {
        std::string k = Hex(in), v = Hex(in);
        hf.push_back(KVPair(k, v));
      }
      OutputStream os;
      codec.ProcessFrame(&os, stream, group, hf, ends);
      out << (first ? "" : ",") << "[" << codec.CurrentStateSize() << "," << Bits(&os) << "]";
      first = false;
    } else {
      return "{\"harness\":\"bad op\"}";
    }
  }
  out << "]}";
  return out.str();
}

std::string Dump(In& in) {
  std::string op = Tok(in), r;
  if (op == "u") {
    r = ReadableUShort(Num(in));
  } else if (op == "v" || op == "f8" || op == "f16" || op == "f32") {   // value, bits, offset or -1
    std::string x = Tok(in);
    int n = Num(in), off = Num(in);
    unsigned long w = std::strtoul(x.c_str(), 0, 10);
    if (op == "v") {
      std::string b;
      for (size_t i = 1; i + 1 < x.size(); i += 2) b.push_back((char)std::strtol(x.substr(i, 2).c_str(), 0, 16));
      std::vector<char> v(b.begin(), b.end());
      r = off < 0 ? FormatAsBits(v, n) : FormatAsBits(v, n, off);
    } else if (op == "f8") {
      r = off < 0 ? FormatAsBits((uint8_t)w, n) : FormatAsBits((uint8_t)w, n, off);
    } else if (op == "f16") {
      r = off < 0 ? FormatAsBits((uint16_t)w, n) : FormatAsBits((uint16_t)w, n, off);
    } else {
      r = off < 0 ? FormatAsBits((uint32_t)w, n) : FormatAsBits((uint32_t)w, n, off);
    }
  } else if (op == "h") {
    std::unique_ptr<FreqTable> t(new FreqTable);
    ReadTable(in, t.get());
    Huffman huff;
    huff.Init(*t);
    std::stringstream s;
    s << huff;
    r = s.str();
  } else if (op == "d") {       // bits stored, bits read, offset and range or -1
    std::string lead = Tok(in);
    BitBucket bb;
    for (size_t i = 1; i < lead.size(); ++i) bb.StoreBit(lead[i] == '1');
    bb.Seek(Num(in));
    int off = Num(in), range = Num(in);
    r = off < 0 ? bb.DebugStr() : range < 0 ? bb.DebugStr(off) : bb.DebugStr(off, range);
  } else {
    return "{\"harness\":\"bad op\"}";
  }
  return ToHex(r);
}

}  // namespace vf

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    vf::In in(line);
    std::string what = vf::Tok(in), r;
    if (what == "bucket") r = vf::Bucket(in);
    else if (what == "huffman") r = vf::HuffmanOps(in);
    else if (what == "parse") r = vf::Parse(in, false);
    else if (what == "parsefile") r = vf::Parse(in, true);
    else if (what == "codec") r = vf::Codec(in);
    else if (what == "dump") r = vf::Dump(in);
    else r = "{\"harness\":\"unknown request\"}";
    std::cout << r << "\n" << std::flush;
  }
}
