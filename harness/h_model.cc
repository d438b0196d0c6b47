// Files: mapping, saving and loading models, restored dictionaries.
#include "env.h"
#include "cgspecs.h"
#include "fakefs.h"
#include "core/analysis/analyzer.h"
#include "core/analysis/dictionary_node_creator.h"
#include "core/env.h"
#include "core/impl/model_io.h"
#include "core/impl/perceptron_io.h"
#include "util/mmap.h"
#include "util/serialization.h"
using fakefs::PAGE;

namespace {
Str bytes(size_t n, int seed) {
  Str s(n, 0);
  for (size_t i = 0; i < n; ++i) s[i] = (char)((i * 7 + (i >> 8) + seed) % 251 + 1);
  return s;
}
}  // namespace

// a piece of a file is mapped
HARNESS(map_read) {
  fakefs::Scope fs;
  static const size_t SIZES[] = {0, 1, 5, 4095, 4096, 4097, 8200};
  size_t n = SIZES[jpp_pick<int>("file", 0, 6)];
  Str data = bytes(n, 3);
  fs.w.put("f", data);
  {
    util::MappedFile f;
    jpp_check(!f.open(cs("g"), util::MMapType::ReadOnly).isOk(), "a file which does not exist is refused");
    jpp_check(fs.w.find("g") < 0, "reading creates no files");
  }
  {
    util::MappedFile f;
    jpp_check(f.open(cs("f"), util::MMapType::ReadOnly).isOk(), "an existing file is opened");
    jpp_check(f.size() == n && f.name() == "f", "size and name of the file");
    jpp_check(!f.open(cs("f"), util::MMapType::ReadOnly).isOk(), "an open file is not opened again");
    static const size_t OFF[] = {0, 1, 4095, 4096, 5000, 8199, 9000};
    size_t off = OFF[jpp_pick<int>("offset", 0, 6)];
    static const size_t LEN[] = {1, 4, 4096, 4100, 8200, 9000};
    int l = jpp_pick<int>("size", 0, 6);
    size_t len = l < 6 ? LEN[l] : n - off;
    if (l == 6) jpp_assume(off < n);
    util::MappedFileFragment frag, other;
    bool ok = f.map(&frag, off, len, jpp_pick<int>("huge", 0, 1)).isOk();
    jpp_check(ok == (off + len <= n), "pieces of the file are mapped and others refused");
    jpp_check(frag.isClean() != ok, "state of the piece");
    if (ok) {
      jpp_reach("mapped");
      jpp_check(frag.size() == len && frag.asStringPiece() == StringPiece(data.data() + off, len), "contents of the piece");
      jpp_check(!f.map(&frag, 0, 1).isOk(), "a piece is mapped once");
      switch (jpp_pick<int>("then", 0, 3)) {
        case 0: break;
        case 1: frag.unmap(); jpp_check(frag.isClean(), "piece is removed"); break;
        case 2: {
          util::MappedFileFragment moved{std::move(frag)};
          jpp_check(frag.isClean() && !moved.isClean() && moved.asStringPiece() == StringPiece(data.data() + off, len), "a moved piece");
          break;
        }
        default: {
          jpp_check(f.map(&other, 0, 1).isOk(), "two pieces");
          other = std::move(frag);
          jpp_check(frag.isClean() && other.asStringPiece() == StringPiece(data.data() + off, len), "a moved piece");
        }
      }
    } else {
      jpp_reach("refused");
    }
    if (jpp_pick<int>("move", 0, 1)) {
      util::MappedFile g{std::move(f)}, h;
      jpp_check(g.size() == n && g.name() == "f", "a moved file");
      h = std::move(g);
      jpp_check(h.size() == n && fs.w.openFiles() == 1, "a moved file");
    }
  }
  jpp_check(fs.w.openFiles() == 0, "files are closed");
  jpp_check(fs.w.maps.empty(), "pieces are removed");
  jpp_check(fs.w.files.size() == 1 && fs.w.files[0].data == data, "reading changes nothing");
}

// pieces of a file are written
HARNESS(map_write) {
  fakefs::Scope fs;
  static const size_t SIZES[] = {0, 5, 4096, 8200};
  int k = jpp_pick<int>("file", 0, 4);
  Str want;
  if (k < 4) {
    want = bytes(SIZES[k], 3);
    fs.w.put("f", want);
  }
  {
    util::MappedFile f;
    jpp_check(f.open(cs("f"), util::MMapType::ReadWrite).isOk(), "a file is opened or created");
    for (int i = 0; i < (int)jpp_param("pieces", 2); ++i) {
      static const size_t OFF[] = {0, 3, 4096, 5000};
      size_t off = OFF[jpp_pick<int>("offset", 0, 3)];
      static const size_t LEN[] = {1, 4090, 4097};
      size_t len = LEN[jpp_pick<int>("size", 0, 2)];
      size_t end = off + len;
      util::MappedFileFragment frag;
      jpp_check(f.map(&frag, off, len).isOk(), "pieces are mapped for writing");
      if (want.size() < end) want.resize(end);
      auto s = frag.asMutableSlice();
      jpp_check(s.size() == len, "size of the piece");
      jpp_check(frag.asStringPiece() == StringPiece(want.data() + off, len), "a piece has the contents of the file, and zeros behind it");
      Str d = bytes(len, 17 + i);
      for (size_t x = 0; x < len; ++x) s[x] = d[x];
      want.replace(off, len, d);
      if (off % PAGE == 0 && jpp_pick<int>("flush", 0, 1)) {
        jpp_check(frag.flush().isOk(), "flush");
        jpp_check(fs.w.files[0].data == want, "flushed pieces are in the file");
      }
    }
  }
  jpp_check(fs.w.openFiles() == 0 && fs.w.maps.empty(), "everything is closed");
  jpp_check(fs.w.files[0].data == want, "the file has the written pieces");
  jpp_reach("end");
}

// whole files
HARNESS(map_whole) {
  fakefs::Scope fs;
  Str a = bytes(5, 1), b = bytes(4100, 9);
  fs.w.put("a", a);
  fs.w.put("b", b);
  fs.w.put("e", "");
  {
    util::FullyMappedFile f;
    const Str* cur = nullptr;
    for (int i = 0; i < (int)jpp_param("steps", 3); ++i) {
      switch (jpp_pick<int>("step", 0, 3)) {
        case 0: jpp_check(f.open(cs("a")).isOk(), "a file is opened"); cur = &a; break;
        case 1: jpp_check(f.open(cs("b")).isOk(), "a file is opened"); cur = &b; break;
        case 2: f.close(); cur = nullptr; break;
        default: jpp_check(!f.open(cs("none")).isOk(), "a file which does not exist is refused"); cur = nullptr;
      }
      if (cur) jpp_check(f.contents() == sp(*cur) && f.filename() == (cur == &a ? "a" : "b"), "contents of the file");
      jpp_check(fs.w.openFiles() <= 1 && fs.w.maps.size() <= 1, "one file at a time");
    }
  }
  jpp_check(fs.w.openFiles() == 0 && fs.w.maps.empty(), "everything is closed");
  jpp_reach("end");
}

namespace {
struct Part { model::ModelPartKind kind; Str comment; Strs data; };
Status save(const char* name, const std::vector<Part>& ps) {
  model::ModelInfo mi;
  for (auto& p : ps) {
    mi.parts.emplace_back();
    mi.parts.back().kind = p.kind;
    mi.parts.back().comment = p.comment;
    for (auto& d : p.data) mi.parts.back().data.push_back(sp(d));
  }
  model::ModelSaver ms;
  JPP_RETURN_IF_ERROR(ms.open(cs(name)));
  jpp_check(!ms.open(cs(name)).isOk(), "one file is written at a time");
  return ms.save(mi);
}
void checkParts(const model::ModelInfo& mi, const std::vector<Part>& ps) {
  jpp_check(mi.parts.size() == ps.size(), "number of parts");
  for (size_t i = 0; i < ps.size(); ++i) {
    auto& p = mi.parts[i];
    jpp_check(p.kind == ps[i].kind, "kind of a part");
    jpp_check(p.comment == ps[i].comment, "comment of a part");
    jpp_check(p.data.size() == ps[i].data.size(), "number of pieces of a part");
    for (size_t k = 0; k < p.data.size(); ++k) jpp_check(p.data[k] == sp(ps[i].data[k]), "contents of a piece");
  }
  for (auto kind : {model::ModelPartKind::Dictionary, model::ModelPartKind::Perceprton, model::ModelPartKind::Rnn, model::ModelPartKind::ScwDump}) {
    const model::ModelPart* first = nullptr;
    for (size_t i = mi.parts.size(); i-- > 0;)
      if (ps[i].kind == kind) first = &mi.parts[i];
    jpp_check(mi.firstPartOf(kind) == first, "first part of a kind");
  }
}
}  // namespace

// a model is saved and loaded
HARNESS(model_round) {
  fakefs::Scope fs;
  std::vector<Part> ps;
  int n = jpp_pick<int>("parts", 0, (int)jpp_param("parts", 2));
  for (int i = 0; i < n; ++i) {
    Part p;
    p.kind = (model::ModelPartKind)jpp_pick<int>("kind", 0, 3);
    int c = jpp_pick<int>("comment", 0, 1);
    if (c) p.comment.push_back((char)jpp_any<unsigned char>("c"));
    int np = jpp_pick<int>("pieces", 0, (int)jpp_param("pieces", 2));
    for (int k = 0; k < np; ++k) {
      static const size_t SIZES[] = {1, 4096, 4097};
      p.data.push_back(bytes(SIZES[jpp_pick<int>("size", 0, 2)], i * 2 + k));
      p.data.back().back() = (char)jpp_any<unsigned char>("d");
    }
    ps.push_back(p);
  }
  // over another file
  int old = jpp_pick<int>("old", 0, 2);
  if (old) fs.w.put("m", bytes(old == 1 ? 100 : 30000, 5));
  jpp_check(save("m", ps).isOk(), "a model is saved");
  jpp_check(fs.w.openFiles() == 0 && fs.w.maps.empty(), "everything is closed");
  {
    model::FilesystemModel fm;
    model::ModelInfo mi;
    jpp_check(!fm.load(&mi).isOk(), "a model which is not open is not loaded");
    jpp_check(fm.open(cs("m")).isOk(), "a saved model is opened");
    jpp_check(fm.name() == "m" && !fm.open(cs("m")).isOk(), "one file is read at a time");
    jpp_check(fm.load(&mi).isOk(), "a saved model is loaded");
    checkParts(mi, ps);
    jpp_reach("loaded");
  }
  jpp_check(fs.w.openFiles() == 0 && fs.w.maps.empty(), "everything is closed");
}

// every size of the description of the parts
HARNESS(model_header) {
  fakefs::Scope fs;
  int lo = (int)jpp_param("from", 4040), hi = (int)jpp_param("to", 4100);
  std::vector<Part> ps(1);
  ps[0].kind = model::ModelPartKind::ScwDump;
  ps[0].comment = bytes((size_t)jpp_pick<int>("comment", 0, hi - lo) + lo, 5);
  ps[0].data.push_back("xyz");
  if (!save("m", ps).isOk()) {
    jpp_reach("refused");
    return;
  }
  model::FilesystemModel fm;
  model::ModelInfo mi;
  jpp_check(fm.open(cs("m")).isOk() && fm.load(&mi).isOk(), "a saved model is loaded");
  checkParts(mi, ps);
  jpp_reach("loaded");
}

// a call of the system fails while saving
HARNESS(model_fails) {
  fakefs::Scope fs;
  std::vector<Part> ps(1);
  ps[0].kind = model::ModelPartKind::Rnn;
  ps[0].data.push_back("xyz");
  ps[0].data.push_back(bytes(4097, 3));
  fs.w.failAt = jpp_pick<int>("call", 0, 20);
  bool ok = save("m", ps).isOk();
  bool failed = fs.w.calls > fs.w.failAt;
  jpp_check(ok != failed, "a failure is reported");
  jpp_check(fs.w.openFiles() == 0 && fs.w.maps.empty(), "everything is closed");
  jpp_reach(ok ? "saved" : "failed");
  if (!ok) return;
  fs.w.calls = 0;
  fs.w.failAt = jpp_pick<int>("read", 0, 5);
  {
    model::FilesystemModel fm;
    model::ModelInfo mi;
    bool good = fm.open(cs("m")).isOk();
    jpp_check(good == (fs.w.calls <= fs.w.failAt), "a failure is reported");
    if (good) {
      jpp_check(fm.load(&mi).isOk(), "a saved model is loaded");
      checkParts(mi, ps);
    }
  }
  jpp_check(fs.w.openFiles() == 0 && fs.w.maps.empty(), "everything is closed");
}

namespace {
void readAll(const char* name) {
  model::FilesystemModel fm;
  model::ModelInfo mi;
  if (!fm.open(cs(name)).isOk() || !fm.load(&mi).isOk()) {
    jpp_reach("refused");
    return;
  }
  jpp_reach("loaded");
  unsigned sum = 0;
  for (auto& p : mi.parts)
    for (auto& d : p.data) {
      jpp_check(d.size() <= fakefs::world()->files[0].data.size(), "pieces are inside of the file");
      if (d.size() > 0) sum += (unsigned char)d.begin()[0] + (unsigned char)d.begin()[d.size() - 1];
    }
  jpp_observe(sum);
}
}  // namespace

// broken files
HARNESS(model_broken) {
  fakefs::Scope fs;
  std::vector<Part> ps(2);
  ps[0].kind = model::ModelPartKind::Dictionary;
  ps[0].comment = "c";
  ps[0].data.push_back("xyz");
  ps[0].data.push_back(bytes(4097, 3));
  ps[1].kind = model::ModelPartKind::Perceprton;
  ps[1].data.push_back("12345");
  jpp_check(save("m", ps).isOk(), "saved");
  auto& d = fs.w.files[0].data;
  int kind = jpp_pick<int>("kind", 0, 2);
  if (kind == 0) {
    // the end of the file is missing
    static const size_t LEN[] = {0, 1, 7, 8, 9, 10, 30, 4095, 4096, 4097, 4098, 4099, 8192, 8193, 12288, 12289, 16383, 16384, 16388, 16389};
    size_t len = LEN[jpp_pick<int>("length", 0, 19)];
    jpp_assume(len < d.size());
    d.resize(len);
    model::FilesystemModel fm;
    model::ModelInfo mi;
    jpp_check(!fm.open(cs("m")).isOk() || !fm.load(&mi).isOk(), "a file whose end is missing is refused");
    jpp_reach("cut");
    return;
  }
  size_t header = 8;
  if (kind == 1) {
    // any bytes at some place of the header
    size_t at = (size_t)jpp_pick<int>("at", 0, (int)header + (int)jpp_param("span", 30));
    for (size_t i = 0; i < jpp_param("bytes", 1); ++i) {
      unsigned char b = jpp_any<unsigned char>("b");
      d[at + i] = (char)b;
    }
  } else {
    // any description
    Str h = d.substr(0, 8);
    size_t n = jpp_param("any", 6);
    h.push_back((char)n);
    for (size_t i = 0; i < n; ++i) h.push_back((char)jpp_any<unsigned char>("h"));
    d = h + bytes(jpp_param("rest", 5), 3);
  }
  readAll("m");
}
